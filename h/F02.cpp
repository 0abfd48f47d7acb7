// F02: file operations as async tasks.
#include <rpp/base.h>
#include <rpp/asyncio.h>
#include <rpp/files.h>
#include "files.h"
using namespace rpp;
static Async::Pool<>& pool() {
    static Async::Pool<>* p = new Async::Pool<>{}; // one per worker process, never destroyed
    return *p;
}
struct Ops {
    static bool read(String_View p, std::string& out) {
        auto r = Async::read(pool(), p).block();
        if(r.ok()) out.assign((const char*)r->data(), r->length());
        return r.ok();
    }
    static bool read_size(String_View p, size_t& out) {
        auto r = Async::read(pool(), p).block();
        if(r.ok()) out = r->length();
        return r.ok();
    }
    static bool write(String_View p, u8* d, size_t n) {
        return Async::write(pool(), p, Slice<u8>{d, n}).block();
    }
};
using namespace ff;
static Async::Task<void> hop(Async::Pool<>& p) {
    co_await p.suspend();
}
static void prepare() { // let the pool's threads start and open what they need
    static bool ready;
    if(ready) return;
    ready = true;
    capture = true;
    hop(pool()).block();
    for(int low = lowest_fd(), same = 0; same < 20; same++) {
        usleep(5000);
        if(int now = lowest_fd(); now != low) low = now, same = 0;
    }
    capture = false;
}
// the same from a coroutine on a worker
static Async::Task<bool> roundtrip(Async::Pool<>& p, String_View path, Slice<u8> data, bool hop) {
    if(hop) co_await p.suspend();
    bool w = co_await Async::write(p, path, data);
    if(!w) co_return false;
    if(hop) co_await p.suspend();
    auto r = co_await Async::read(p, path);
    co_return r.ok() && r->length() == data.length() && memcmp(r->data(), data.data(), data.length()) == 0;
}
static void coroutines(mc::Ctx& c) {
    prepare();
    static const size_t sizes[] = {0, 1, 4096, 70000};
    u32 n = c.choose(3, "tasks") + 1;
    bool hop = c.flip("on the pool");
    int low = lowest_fd();
    capture = true;
    {
        std::vector<std::string> names, texts;
        Vec<Async::Task<bool>> tasks;
        for(u32 i = 0; i < n; i++) {
            names.push_back(scratch() + "/c" + std::to_string(i));
            texts.push_back(content(sizes[c.choose(4, "size")], i + 1));
        }
        for(u32 i = 0; i < n; i++) tasks.push(roundtrip(pool(), String_View{(const u8*)names[i].data(), names[i].size()}, Slice<u8>{(u8*)texts[i].data(), texts[i].size()}, hop));
        for(u32 i = 0; i < n; i++) {
            bool ok = tasks[i].block();
            std::string now;
            MC_CHECK(ok && get_file(names[i], now) && now == texts[i], "task %u", i);
        }
    }
    capture = false;
    MC_CHECK(lowest_fd() == low, "a descriptor is left open");
    c.op("%u tasks", n);
    c.state(mc::mix(n, hop));
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "F02";
    m.bounds = "reads and writes of 0, 1, 2, 7 and 5000 bytes with up to 3 (thorough 5) injected faults (short transfers, interruptions, errors, truncation by others) at every system call, with and without standard input open; all sequences of 4 (thorough 5) operations on two files; every size to 256 (thorough 2048) and around powers of two to 4 MiB with one fault; paths of every length to 255 and up to the limit; up to 3 tasks of 4 sizes, from the caller or a pool.";
    m.assumptions.push_back("faults are injected at open, lseek, fstat, stat, read, write, close and their positional forms; other calls reach the real file system unharmed");
    m.add("read_faults", [](mc::Ctx& c) { prepare(); read_faults<Ops>(c); }, 3);
    m.add("write_faults", [](mc::Ctx& c) { prepare(); write_faults<Ops>(c); }, 3);
    m.add("history", [](mc::Ctx& c) { prepare(); history<Ops>(c); }, 3);
    m.add("all_sizes", [](mc::Ctx& c) { prepare(); all_sizes<Ops>(c); }, 2);
    m.add_serial("huge", [](mc::Ctx& c) { prepare(); huge<Ops>(c); });
    m.add("path_lengths", [](mc::Ctx& c) { prepare(); path_lengths<Ops>(c); }, 2);
    m.add("odd_paths", [](mc::Ctx& c) { prepare(); odd_paths<Ops>(c); }, 1);
    m.add("coroutines", coroutines, 2);
    return m.run(argc, argv);
}
