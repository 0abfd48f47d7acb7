// F01: blocking file operations.
#include <rpp/base.h>
#include <rpp/files.h>
#include "files.h"
using namespace rpp;
struct Ops {
    static bool read(String_View p, std::string& out) {
        auto r = Files::read(p);
        if(r.ok()) out.assign((const char*)r->data(), r->length());
        return r.ok();
    }
    static bool read_size(String_View p, size_t& out) {
        auto r = Files::read(p);
        if(r.ok()) out = r->length();
        return r.ok();
    }
    static bool write(String_View p, u8* d, size_t n) {
        return Files::write(p, Slice<const u8>{d, n});
    }
};
using namespace ff;
// times are set to chosen values; the oracle is what the file system then reports
static const timespec kTimes[] = {{1, 0}, {1, 1}, {1, 999999999}, {2, 0}, {1600000000, 5}, {1600000000, 400000000}, {1600000001, 0}, {4000000000, 0}};
static timespec set_time(const std::string& p, timespec t) {
    timespec both[2] = {t, t};
    struct stat st;
    if(utimensat(AT_FDCWD, p.c_str(), both, 0) || stat(p.c_str(), &st)) perror("utimensat"), abort();
    return st.st_mtim;
}
static bool earlier(timespec a, timespec b) {
    return a.tv_sec != b.tv_sec ? a.tv_sec < b.tv_sec : a.tv_nsec < b.tv_nsec;
}
static void times(mc::Ctx& c) {
    std::string p[2] = {scratch() + "/t0", scratch() + "/t1"};
    timespec t[2];
    Files::File_Time ft[2];
    for(int i = 0; i < 2; i++) {
        put_file(p[i], "x");
        t[i] = set_time(p[i], kTimes[c.choose(8, "time")]);
        Fixed path(p[i]);
        bool ok = false;
        with_faults(1, [&] {
            auto r = Files::last_write_time(String_View{path.p, path.n});
            ok = r.ok();
            if(ok) ft[i] = *r;
        });
        MC_CHECK(ok != hard, "last_write_time returns %d", ok);
        if(!ok) return;
    }
    MC_CHECK(Files::before(ft[0], ft[1]) == earlier(t[0], t[1]), "before() of %lld.%09ld and %lld.%09ld", (long long)t[0].tv_sec, t[0].tv_nsec, (long long)t[1].tv_sec, t[1].tv_nsec);
    MC_CHECK((ft[0] == ft[1]) == (!earlier(t[0], t[1]) && !earlier(t[1], t[0])), "equal times");
    c.op("compare %lld.%09ld and %lld.%09ld", (long long)t[0].tv_sec, t[0].tv_nsec, (long long)t[1].tv_sec, t[1].tv_nsec);
    c.state(mc::mix(mc::hash_bytes(&t[0], sizeof t[0]), mc::hash_bytes(&t[1], sizeof t[1])));
}
static void watcher(mc::Ctx& c) {
    std::string p = scratch() + "/watched";
    unlink(p.c_str());
    bool there = false, known = false;
    timespec now{}, seen{};
    std::string text = "-";
    auto touch = [&] {
        put_file(p, text = content(1 + text.size() % 3, (unsigned)text.size()));
        now = set_time(p, kTimes[c.choose(4, "time")]);
        there = true;
    };
    if(c.flip("exists at first")) touch();
    Fixed path(p);
    capture = true;
    Files::Write_Watcher w{String_View{path.p, path.n}};
    if(there) seen = now, known = true;
    for(int i = 0, n = c.tier(5, 6); i < n; i++) {
        switch(c.choose(4, "operation")) {
        case 0: touch(); c.op("write at %lld.%09ld", (long long)now.tv_sec, now.tv_nsec); break;
        case 1: unlink(p.c_str()); there = false; c.op("remove"); break;
        case 2: {
            bool want = there && (!known || earlier(seen, now)), got = false;
            with_faults(0, [&] { got = w.poll(); });
            MC_CHECK(got == want, "poll returns %d, but the file was %swritten since", got, want ? "" : "not ");
            if(there) seen = now, known = true;
            c.op("poll %d", got);
            break;
        }
        default: {
            std::string out;
            bool got = false;
            with_faults(0, [&] {
                auto r = w.read();
                got = r.ok();
                if(got) out.assign((const char*)r->data(), r->length());
            });
            MC_CHECK(got == there && (!there || out == text), "the watcher reads other bytes than the file's");
            MC_CHECK(w.path() == (String_View{path.p, path.n}), "the watcher's path");
            c.op("read");
        }
        }
        c.state(mc::mix(there, mc::mix(mc::hash_bytes(&now, sizeof now), mc::hash_bytes(&seen, sizeof seen))));
    }
    Files::Write_Watcher none{String_View{}};
    MC_CHECK(!none.poll(), "a watcher of no file reports a change");
    capture = false;
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "F01";
    m.bounds = "reads and writes of 0, 1, 2, 7 and 5000 bytes with up to 3 (thorough 5) injected faults (short transfers, interruptions, errors, truncation by others) at every system call, with and without standard input open; all sequences of 4 (thorough 5) operations on two files; every size to 256 (thorough 2048) and around powers of two to 4 MiB with one fault; paths of every length to 255 and up to the limit; "
               "all pairs of 8 file times, all sequences of 5 (thorough 6) watcher operations over 4 file times.";
    m.assumptions.push_back("faults are injected at open, lseek, fstat, stat, read, write, close and their positional forms; other calls reach the real file system unharmed");
    m.add("read_faults", read_faults<Ops>, 3);
    m.add("write_faults", write_faults<Ops>, 3);
    m.add("history", history<Ops>, 3);
    m.add("times", times, 2);
    m.add("watcher", watcher, 3);
    m.add("all_sizes", all_sizes<Ops>, 2);
    m.add_serial("huge", huge<Ops>);
    m.add("path_lengths", path_lengths<Ops>, 2);
    m.add("odd_paths", odd_paths<Ops>, 1);
    return m.run(argc, argv);
}
