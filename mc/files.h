// File reads and writes against real files in a scratch directory, with faults injected at the
// system call boundary: every call the library makes may come back short, interrupted or failed.
// Ops supplies: bool read(String_View, std::string& out) (false: nothing), bool write(String_View, bytes).
#pragma once
#include "mc.h"
#include "capture.h"
#include <errno.h>
#include <fcntl.h>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
namespace ff {
inline bool armed, hard, soft, opened, truncated;
inline int budget;
inline pid_t tid;
inline std::string target; // file under test
inline uint64_t cut;       // length after a concurrent truncation
inline std::set<int> fds;  // opened by the library while armed
inline bool mine() {
    return armed;
}
// 0: no fault
inline int fault(int n, const char* what) {
    if(!budget) return 0;
    int k = (int)mc::g_ctx->choose((uint32_t)n, what);
    if(k) budget--;
    return k;
}
inline int fail_with(int e, const char* what) {
    hard = true;
    mc::g_ctx->op("%s fails with errno %d", what, e);
    errno = e;
    return -1;
}
} // namespace ff
extern "C" {
int __real_open(const char*, int, ...);
int __wrap_open(const char* p, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
    va_end(ap);
    if(!ff::mine()) return __real_open(p, flags, mode);
    int k = ff::fault(3, "open");
    if(k) return ff::fail_with(k == 1 ? EMFILE : EINTR, "open");
    int fd = __real_open(p, flags, mode);
    if(fd >= 0) ff::opened = true, ff::fds.insert(fd);
    return fd;
}
int __real_openat(int, const char*, int, ...);
int __wrap_openat(int d, const char* p, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
    va_end(ap);
    if(!ff::mine()) return __real_openat(d, p, flags, mode);
    int k = ff::fault(3, "openat");
    if(k) return ff::fail_with(k == 1 ? EMFILE : EINTR, "openat");
    int fd = __real_openat(d, p, flags, mode);
    if(fd >= 0) ff::opened = true, ff::fds.insert(fd);
    return fd;
}
off_t __real_lseek(int, off_t, int);
off_t __wrap_lseek(int fd, off_t o, int w) {
    if(ff::mine() && ff::fault(2, "lseek")) return ff::fail_with(EIO, "lseek");
    return __real_lseek(fd, o, w);
}
int __real_fstat(int, struct stat*);
int __wrap_fstat(int fd, struct stat* s) {
    if(ff::mine() && ff::fault(2, "fstat")) return ff::fail_with(EIO, "fstat");
    return __real_fstat(fd, s);
}
int __real_stat(const char*, struct stat*);
int __wrap_stat(const char* p, struct stat* s) {
    if(ff::mine() && ff::fault(2, "stat")) return ff::fail_with(EACCES, "stat");
    return __real_stat(p, s);
}
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t n) {
    if(ff::mine() && ff::fault(2, "ftruncate")) return ff::fail_with(EIO, "ftruncate");
    return __real_ftruncate(fd, n);
}
static int short_choice(size_t n, size_t* out, const char* what) { // -1 EINTR, -2 hard error, 1 short, 2 at the end, 0 none
    int k = ff::fault(n > 2 ? 7 : n > 1 ? 6 : 4, what);
    switch(k) {
    case 0: return 0;
    case 1: return -1;
    case 2: return -2;
    case 3: return 2;
    case 4: *out = 1; return 1;
    case 5: *out = n - 1; return 1;
    default: *out = n / 2; return 1;
    }
}
ssize_t __real_read(int, void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
static ssize_t read_like(int fd, void* p, size_t n, off_t at, bool pos) {
    size_t m = n;
    if(ff::mine() && n) switch(short_choice(n, &m, "read")) {
        case -1: ff::soft = true; mc::g_ctx->op("read interrupted"); errno = EINTR; return -1;
        case -2: return ff::fail_with(EIO, "read");
        case 2: { // somebody truncates the file right here
            off_t here = pos ? at : __real_lseek(fd, 0, SEEK_CUR);
            if(truncate(ff::target.c_str(), here) == 0) ff::truncated = true, ff::cut = (uint64_t)here;
            mc::g_ctx->op("file truncated to %lld", (long long)here);
            break;
        }
        case 1: ff::soft = true; mc::g_ctx->op("read of %zu returns at most %zu", n, m); break;
        }
    return pos ? __real_pread(fd, p, m, at) : __real_read(fd, p, m);
}
ssize_t __wrap_read(int fd, void* p, size_t n) {
    return read_like(fd, p, n, 0, false);
}
ssize_t __wrap_pread(int fd, void* p, size_t n, off_t at) {
    return read_like(fd, p, n, at, true);
}
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
static ssize_t write_like(int fd, const void* p, size_t n, off_t at, bool pos) {
    size_t m = n;
    if(ff::mine() && n) switch(short_choice(n, &m, "write")) {
        case -1: ff::soft = true; mc::g_ctx->op("write interrupted"); errno = EINTR; return -1;
        case -2: return (ssize_t)ff::fail_with(EIO, "write");
        case 2: return (ssize_t)ff::fail_with(ENOSPC, "write");
        case 1: ff::soft = true; mc::g_ctx->op("write of %zu stores %zu", n, m); break;
        }
    return pos ? __real_pwrite(fd, p, m, at) : __real_write(fd, p, m);
}
ssize_t __wrap_write(int fd, const void* p, size_t n) {
    return write_like(fd, p, n, 0, false);
}
ssize_t __wrap_pwrite(int fd, const void* p, size_t n, off_t at) {
    return write_like(fd, p, n, at, true);
}
int __real_close(int);
int __wrap_close(int fd) {
    if(!ff::mine()) return __real_close(fd);
    bool known = ff::fds.erase(fd) != 0;
    MC_CHECK(known, "closes descriptor %d, which it does not hold", fd);
    int r = __real_close(fd);
    if(ff::fault(2, "close")) return ff::fail_with(EIO, "close");
    return r;
}
}
namespace ff {
inline std::string dir;
inline const std::string& scratch() { // one per process, removed at exit by the next run of the check
    if(dir.empty()) {
        char b[64];
        snprintf(b, sizeof b, "files-%d", (int)getpid());
        dir = b;
        mkdir(b, 0700);
    }
    return dir;
}
inline void put_file(const std::string& p, const std::string& bytes) {
    int fd = __real_open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if(fd < 0 || __real_write(fd, bytes.data(), bytes.size()) != (ssize_t)bytes.size()) perror(p.c_str()), abort();
    __real_close(fd);
}
inline bool get_file(const std::string& p, std::string& out) {
    int fd = __real_open(p.c_str(), O_RDONLY);
    if(fd < 0) return false;
    out.clear();
    char b[8192];
    ssize_t n;
    while((n = __real_read(fd, b, sizeof b)) > 0) out.append(b, (size_t)n);
    __real_close(fd);
    return n == 0;
}
inline int lowest_fd() {
    int fd = __real_open("/dev/null", O_RDONLY);
    __real_close(fd);
    return fd;
}
inline std::string content(size_t n, unsigned tag) {
    std::string s;
    for(size_t i = 0; i < n; i++) s += (char)(tag * 37 + i * 11 + (i >> 8) * 3);
    return s;
}
struct Fixed { // a path or text in a buffer of exactly its size
    uint8_t* p;
    size_t n;
    explicit Fixed(const std::string& s) : p((uint8_t*)malloc(s.size() ? s.size() : 1)), n(s.size()) {
        memcpy(p, s.data(), n);
    }
    ~Fixed() {
        free(p);
    }
};
inline bool free_stdin = false; // run with descriptor 0 unused
template<typename F>
static void with_faults(int n, F&& f) {
    hard = soft = opened = truncated = false;
    fds.clear();
    if(free_stdin) __real_close(0);
    budget = n;
    int low = lowest_fd();
    nlines = 0;
    capture = true;
    armed = true;
    f();
    armed = false;
    capture = false;
    MC_CHECK(fds.empty() && lowest_fd() == low, "a descriptor is left open");
    if(free_stdin && __real_open("/dev/null", O_RDONLY) != 0) abort();
}
template<typename Ops>
static void read_faults(mc::Ctx& c) {
    free_stdin = c.flip("standard input closed");
    static const size_t sizes[] = {0, 1, 2, 7, 5000};
    size_t n = sizes[c.choose(5, "size")];
    std::string want = content(n, 1), got;
    target = scratch() + "/r";
    put_file(target, want);
    Fixed path(target);
    bool ok = false;
    with_faults(c.tier(3, 5), [&] { ok = Ops::read(rpp::String_View{path.p, path.n}, got); });
    c.op("read of %zu bytes: %s, %zu bytes", n, ok ? "ok" : "nothing", got.size());
    if(!ok) MC_CHECK(hard, "read reports failure although no call failed");
    else {
        if(truncated) want.resize(cut);
        MC_CHECK(got == want, "read returns %zu bytes that are not the file's %zu", got.size(), want.size());
    }
    std::string now;
    MC_CHECK(get_file(target, now) && now == (truncated ? want.substr(0, cut) : want), "reading changes the file");
    free_stdin = false;
    c.state(mc::mix(n, mc::mix(ok, mc::mix(got.size(), mc::mix((uint64_t)hard * 4 + soft * 2 + truncated, (uint64_t)budget)))));
}
template<typename Ops>
static void write_faults(mc::Ctx& c) {
    free_stdin = c.flip("standard input closed");
    static const size_t sizes[] = {0, 1, 2, 7, 5000};
    size_t n = sizes[c.choose(5, "size")];
    static const size_t olds[] = {0, 3, 6000};
    int before = (int)c.choose(4, "previous content"); // 0: none
    std::string want = content(n, 1), old, now;
    target = scratch() + "/w";
    unlink(target.c_str());
    if(before) put_file(target, old = content(olds[before - 1], 2));
    Fixed path(target), data(want);
    bool ok = false;
    with_faults(c.tier(3, 5), [&] { ok = Ops::write(rpp::String_View{path.p, path.n}, data.p, data.n); });
    c.op("write of %zu bytes over %zu: %s", n, old.size(), ok ? "ok" : "failed");
    bool there = get_file(target, now);
    if(ok) {
        MC_CHECK(there && now == want, "write reports success, but the file has %zu bytes that are not the %zu given", now.size(), n);
        struct stat st;
        MC_CHECK(stat(target.c_str(), &st) == 0 && (st.st_mode & 0600) == 0600 && (st.st_mode & 07000) == 0, "the new file has mode %o", (unsigned)st.st_mode);
    } else {
        MC_CHECK(hard, "write reports failure although no call failed");
        if(!opened) MC_CHECK(there == (before != 0) && now == old, "a write that could not open its file changed it");
    }
    free_stdin = false;
    c.state(mc::mix(mc::mix(n, before), mc::mix(ok, mc::mix(now.size(), mc::mix((uint64_t)hard * 2 + soft, (uint64_t)budget)))));
}
// sequences of operations on a small tree
template<typename Ops>
static void history(mc::Ctx& c) {
    static const size_t sizes[] = {0, 1, 4096, 70000};
    std::string d = scratch() + "/h";
    std::string f[2] = {d + "/a", d + "/sub/b.txt"};
    unlink(f[0].c_str());
    unlink(f[1].c_str());
    rmdir((d + "/sub").c_str());
    mkdir(d.c_str(), 0700);
    bool sub = c.flip("directory exists");
    if(sub) mkdir((d + "/sub").c_str(), 0700);
    bool have[2] = {false, false};
    std::string model[2];
    int depth = c.tier(4, 5);
    for(int i = 0; i < depth; i++) {
        int k = (int)c.choose(2, "file");
        Fixed path(f[k]);
        rpp::String_View view{path.p, path.n};
        bool can = k == 0 || sub;
        int op = (int)c.choose(7, "operation");
        std::string got;
        if(op < 4) {
            std::string bytes = content(sizes[op], (unsigned)i + 3);
            Fixed data(bytes);
            bool ok = false;
            with_faults(0, [&] { ok = Ops::write(view, data.p, data.n); });
            MC_CHECK(ok == can, "writing %s returns %d", f[k].c_str(), ok);
            if(ok) have[k] = true, model[k] = bytes;
            c.op("write %d %zu", k, sizes[op]);
        } else if(op == 4) {
            bool ok = false;
            with_faults(0, [&] { ok = Ops::read(view, got); });
            MC_CHECK(ok == have[k], "reading %s returns %d", f[k].c_str(), ok);
            if(ok) MC_CHECK(got == model[k], "reading returns %zu bytes that are not the last %zu written", got.size(), model[k].size());
            c.op("read %d", k);
        } else if(op == 5) {
            unlink(f[k].c_str());
            have[k] = false;
            c.op("remove %d", k);
        } else if(can) {
            put_file(f[k], model[k] = content(33, 90));
            have[k] = true;
            c.op("replace %d", k);
        }
        for(int j = 0; j < 2; j++) {
            bool there = get_file(f[j], got);
            MC_CHECK(there == have[j] && (!there || got == model[j]), "file %d differs from what was last written", j);
        }
        c.state(mc::mix(mc::mix(have[0], model[0].size()), mc::mix(have[1], mc::mix(model[1].size(), mc::hash_bytes(model[0].data(), model[0].size(), model[1].size() ? (uint8_t)model[1][0] : 7)))));
    }
}
// every small size and those around powers of two, without and with one fault
template<typename Ops>
static void all_sizes(mc::Ctx& c) {
    size_t n;
    uint32_t k = c.choose(c.tier(257, 2049) + 3 * 14, "size");
    uint32_t small = (uint32_t)c.tier(257, 2049);
    if(k < small) n = k;
    else n = ((size_t)1 << (9 + (k - small) / 3)) + (k - small) % 3 - 1;
    size_t m = c.flip("shorter file before") ? n / 2 : n + 100;
    std::string want(n, 0), old(m, 0), now, got;
    for(size_t i = 0; i < n; i++) want[i] = (char)((i * 2654435761u) >> 13);
    for(size_t i = 0; i < m; i++) old[i] = (char)(i * 7 + 1);
    target = scratch() + "/s";
    put_file(target, old);
    Fixed path(target), data(want);
    bool ok = false;
    int faults = k % 16 == 0 || k >= small ? 1 : 0;
    with_faults(faults, [&] { ok = Ops::write(rpp::String_View{path.p, path.n}, data.p, data.n); });
    if(!ok) MC_CHECK(hard, "write of %zu bytes reports failure although no call failed", n);
    else {
        bool there = get_file(target, now);
        MC_CHECK(there && now == want, "write of %zu bytes over %zu reports success, but the file has %zu other bytes", n, m, now.size());
        if(!soft && !hard) {
            with_faults(faults, [&] { ok = Ops::read(rpp::String_View{path.p, path.n}, got); });
            if(!ok) MC_CHECK(hard, "read of %zu bytes reports failure although no call failed", n);
            else MC_CHECK(got == (truncated ? want.substr(0, cut) : want), "read returns %zu bytes that are not the file's %zu", got.size(), n);
        }
    }
    c.op("%zu bytes", n);
    c.state(mc::mix(n, mc::mix(ok, (uint64_t)hard * 4 + soft * 2 + truncated)));
}
// a (sparse) file larger than what the library reads at once: all of it or none
template<typename Ops>
static void huge(mc::Ctx& c) {
    uint64_t n = (1ull << 32) + (uint64_t)c.choose(3, "size") * 5;
    target = scratch() + "/huge";
    put_file(target, "head");
    bool can = truncate(target.c_str(), (off_t)n) == 0; // else the scratch file system cannot hold it
    Fixed path(target);
    if(can) {
        bool ok = false;
        size_t got = 0;
        with_faults(0, [&] { ok = Ops::read_size(rpp::String_View{path.p, path.n}, got); });
        MC_CHECK(!ok || got == n, "read of %llu bytes returns %zu bytes", (unsigned long long)n, got);
    }
    unlink(target.c_str());
    c.op("%llu bytes", (unsigned long long)n);
    c.state(n);
}
// paths of every length
template<typename Ops>
static void path_lengths(mc::Ctx& c) {
    std::string name, dots;
    if(c.flip("long name")) name = std::string(1 + c.choose(255, "length"), 'n');
    else {
        name = "p";
        uint32_t q = c.choose(c.tier(400, 1990), "length");
        if(!c.thorough) q = q < 300 ? q : q * 19 - 5610 + (q % 2); // the last ones end below the limit of the system
        for(uint32_t i = 0; i < q; i++) dots += i % 2 ? ".//" : "./";
        if(dots.size() > 4000) dots.resize(4000);
    }
    target = scratch() + "/" + dots + name;
    std::string simple = scratch() + "/" + name, want = content(20, (unsigned)target.size()), got, now;
    unlink(simple.c_str());
    Fixed path(target), data(want);
    bool w = false, r = false, again = true;
    with_faults(0, [&] {
        again = Ops::read(rpp::String_View{path.p, path.n}, got);
        w = Ops::write(rpp::String_View{path.p, path.n}, data.p, data.n);
        r = Ops::read(rpp::String_View{path.p, path.n}, got);
    });
    MC_CHECK(!again, "reading a missing file by a path of %zu bytes succeeds", path.n);
    MC_CHECK(w && r && got == want && get_file(simple, now) && now == want, "a path of %zu bytes: written %d, read %d", path.n, w, r);
    unlink(simple.c_str());
    c.op("path of %zu bytes", path.n);
    c.state(path.n);
}
// paths that name no readable file
template<typename Ops>
static void odd_paths(mc::Ctx& c) {
    std::string d = scratch();
    uint32_t k = c.choose(5, "path");
    target.clear();
    std::string p = k == 0 ? d + "/missing" : k == 1 ? d + "/missing/file" : k == 2 ? std::string(5000, 'x') : k == 3 ? std::string() : d;
    if(k == 0) unlink(p.c_str());
    Fixed path(p);
    std::string out;
    bool r = true, w = true;
    with_faults(c.tier(1, 3), [&] {
        r = Ops::read(rpp::String_View{path.p, path.n}, out);
        if(k) w = Ops::write(rpp::String_View{path.p, path.n}, path.p, path.n);
    });
    MC_CHECK(!r && (k == 0 || !w), "operations on an impossible path: read %d, write %d", r, w);
    c.op("path %u", k);
    c.state(k);
}
} // namespace ff
