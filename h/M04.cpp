// M04: allocation accounting and the leak report of Profile::finalize.
#include "ilv.h"
#include "capture.h"
#include <rpp/base.h>
#include <rpp/thread.h>
#include <setjmp.h>
using namespace rpp;
using sched::Opts;

static jmp_buf exit_to MCE;
static int exit_armed MCE, exit_code MCE;
extern "C" void __real_exit(int);
extern "C" RAW void __wrap_exit(int code) {
    if(exit_armed) {
        exit_armed = 0;
        exit_code = code;
        longjmp(exit_to, 1);
    }
    __real_exit(code);
}
RAW static void finalize() {
    start();
    exit_code = -1;
    exit_armed = 1;
    if(setjmp(exit_to) == 0) Profile::finalize();
    exit_armed = 0;
    capture = false;
}
// the value printed for `what` in the statistics of allocator `name`; -1: no such line, -2: no statistics
RAW static long long stat(const char* name, const char* what) {
    char head[64];
    snprintf(head, sizeof head, "Allocation stats for [%s]", name);
    int i = line_of(head, false);
    if(i < 0) return -2;
    for(i++; i < nlines; i++) {
        if(lines[i].file) continue;
        if(strstr(lines[i].text, "Allocation stats for")) break;
        const char* p = strstr(lines[i].text, what);
        if(p) return atoll(p + strlen(what) + 2);
    }
    return -1;
}
RAW static long long value_of(const char* what) {
    int i = line_of(what, false);
    return i < 0 ? -1 : atoll(strstr(lines[i].text, what) + strlen(what) + 2);
}
struct Stats {
    long long allocs = 0, frees = 0, in = 0, out = 0, high = 0;
    void add(long long n) {
        allocs++;
        in += n;
        if(in - out > high) high = in - out;
    }
    void sub(long long n) {
        frees++;
        out += n;
    }
    void compare(const char* name) const {
        if(!allocs) {
            MC_CHECK(stat(name, "Allocs") == -2, "%s: statistics of an allocator never used", name);
            return;
        }
        MC_CHECK(stat(name, "Allocs") == allocs, "%s: %lld allocations reported, %lld made", name, stat(name, "Allocs"), allocs);
        MC_CHECK(stat(name, "Frees") == frees, "%s: %lld frees reported, %lld made", name, stat(name, "Frees"), frees);
        MC_CHECK(stat(name, "Alloc size") == in, "%s: %lld bytes reported allocated, %lld were", name, stat(name, "Alloc size"), in);
        MC_CHECK(stat(name, "Free size") == out, "%s: %lld bytes reported freed, %lld were", name, stat(name, "Free size"), out);
        MC_CHECK(stat(name, "High water") == high, "%s: high water %lld reported, %lld true", name, stat(name, "High water"), high);
        MC_CHECK(stat(name, "Unbalanced size") == (in == out ? -1 : in - out), "%s: unbalanced size %lld reported, %lld true", name, stat(name, "Unbalanced size"), in - out);
    }
};
static void report(long long net) {
    if(net) {
        MC_CHECK(value_of("Unbalanced allocations") == net, "%lld unbalanced allocations reported, %lld true", value_of("Unbalanced allocations"), net);
        MC_CHECK(exit_code == 1, "memory leaked but the program goes on");
        MC_CHECK(line_of("No memory leaked", false) < 0, "a leak is reported as none");
    } else {
        MC_CHECK(line_of("No memory leaked", false) >= 0 && line_of("Unbalanced allocations", false) < 0, "a leak is reported but there is none");
        MC_CHECK(exit_code == -1, "program ended although nothing leaked");
    }
}
using A = Mallocator<"AA">;
using B = Mallocator<"BB">;
using H = Mallocator<"HH", false>;
struct Blk {
    void* p;
    long long n;
    int who;
};
static void* get(int who, u64 n) {
    return who == 0 ? A::alloc(n) : who == 1 ? B::alloc(n) : H::alloc(n);
}
static void put(const Blk& b) {
    b.who == 0 ? A::free(b.p) : b.who == 1 ? B::free(b.p) : H::free(b.p);
}
static void history(mc::Ctx& c, int depth, bool frames) {
    Blk live[16];
    int n = 0;
    Stats s[3];
    bool in = false;
    int finals = 0, ran = 0;
    for(int d = 0; d < depth; d++) {
        u32 k = c.choose(6 + (u32)n + (frames ? 1 : 0), "op");
        if(k == 0) break;
        if(k <= 4) {
            int who = k <= 2 ? 0 : (int)k - 2;
            u64 size = k == 1 ? 3 : k == 2 ? 100 : 40;
            Blk b{get(who, size), (long long)size, who};
            MC_CHECK(b.p, "alloc");
            memset(b.p, 0x5a, size);
            s[who].add((long long)size);
            live[n++] = b;
            c.op("alloc %d %llu", who, (unsigned long long)size);
        } else if(k == 5) { // nothing
            MC_CHECK(get(0, 0) == nullptr, "allocating nothing");
            A::free(nullptr);
            i64 net = sys_net_allocs();
            sys_free(nullptr);
            MC_CHECK(sys_net_allocs() == net, "freeing nothing changes the number of allocations outstanding");
            c.op("alloc 0");
        } else if(k < 6 + (u32)n) {
            Blk b = live[k - 6];
            put(b);
            s[b.who].sub(b.n);
            for(int i = (int)k - 6; i + 1 < n; i++) live[i] = live[i + 1];
            n--;
            c.op("free %d %lld", b.who, b.n);
        } else {
            if(in) Profile::end_frame();
            else (void)Profile::begin_frame();
            in = !in;
            c.op("frame");
        }
        MC_CHECK(sys_net_allocs() >= n, "%lld allocations outstanding, at least %d are", (long long)sys_net_allocs(), n);
        c.state(mc::mix((u64)n * 1000 + (u64)s[0].high, (u64)s[0].in));
    }
    if(in && c.flip("close frame")) Profile::end_frame();
    finalize();
    for(int i = 0; i < 2; i++) s[i].compare(i ? "BB" : "AA");
    MC_CHECK(stat("HH", "Allocs") == -2, "a silent allocator is logged");
    report(n);
    sched::expect_leaks(n);
}
// many blocks of many allocators, with sizes that do not fit in 32 bits
static void large(mc::Ctx& c) {
    static const u32 kNames[] = {1, 3, 8, 9, 17, 30}, kBlocks[] = {1, 20, 65, 300};
    static const u64 kUnit[] = {1, 1ull << 20, (1ull << 31) - 1, 1ull << 31, (1ull << 32) + 1, 1ull << 40};
    u32 names = kNames[c.choose(6, "allocators")], blocks = kBlocks[c.choose(4, "blocks")], order = c.choose(4, "frees");
    u64 unit = kUnit[c.choose(6, "size")];
    static char name[30][8];
    Stats st[30];
    auto at = [](u32 w, u32 b) { return (void*)(0x10000000ull + w * 0x100000ull + b * 16ull); };
    auto size = [&](u32 w, u32 b) { return unit * (1 + (w * 7 + b * 13) % 5) + b % 3; };
    for(u32 w = 0; w < names; w++) snprintf(name[w], sizeof name[w], "N%02u", w);
    auto take = [&](u32 w, u32 b) {
        Profile::alloc({String_View{(u8*)name[w], 3}, at(w, b), size(w, b)});
        st[w].add((long long)size(w, b));
    };
    auto give = [&](u32 w, u32 b) {
        Profile::alloc({String_View{(u8*)name[w], 3}, at(w, b), 0});
        st[w].sub((long long)size(w, b));
    };
    for(u32 b = 0; b < blocks; b++)
        for(u32 w = 0; w < names; w++) take(w, b);
    if(order == 1)
        for(u32 w = 0; w < names; w++)
            for(u32 b = 0; b < blocks; b++) give(w, b);
    if(order == 2) // half of them; then some again
        for(u32 b = blocks; b-- > 0;)
            for(u32 w = 0; w < names; w++)
                if((b + w) % 2) {
                    give(w, b);
                    if(b % 3 == 0) take(w, b);
                }
    if(order == 3) { // each allocator something else
        for(u32 w = 0; w < names; w++)
            for(u32 b = 0; b < blocks; b++)
                if(w % 3 == 0 || (w % 3 == 1 && b)) give(w, b);
        for(u32 w = 0; w < names; w += 3)
            for(u32 b = 0; b < blocks; b++) take(w, b), give(w, b);
    }
    finalize();
    for(u32 w = 0; w < names; w++) st[w].compare(name[w]);
    report(0);
    c.op("%u allocators, %u blocks of %llu, frees %u", names, blocks, (unsigned long long)unit, order);
    c.state(mc::mix(unit, names * 10000 + blocks * 10 + order));
}
// the end of the program: finalizers run once in order, regions still open are reported
static void ending(mc::Ctx& c) {
    u32 nf = c.choose(4, "finalizers");
    u32 how = c.choose(4, "region");
    bool leak = c.flip("leak");
    bool freed_by_finalizer = leak && nf && c.flip("freed by a finalizer");
    void* p = leak ? A::alloc(10) : nullptr;
    for(u32 i = 0; i < nf; i++)
        Profile::finalizer([i, p, freed_by_finalizer] {
            MC_CHECK(sched::get(0) == (int64_t)i, "finalizer %u ran as number %lld", i, (long long)sched::get(0));
            sched::add(0, 1);
            if(i == 0 && freed_by_finalizer) A::free(p);
        });
    u64 depth = how == 0 ? 0 : how == 3 ? 2 : 1, size = how == 2 || how == 3;
    if(how == 0) finalize();
    else {
        Region_Allocator::Scope<1> r;
        if(how == 2) (void)Mregion<1>::alloc(20);
        if(how == 3) {
            (void)Mregion<1>::alloc(20);
            Region_Allocator::Scope<2> q;
            finalize();
        } else finalize();
    }
    c.op("finalizers %u, region %u, leak %d", nf, how, leak);
    MC_CHECK(sched::get(0) == nf, "%lld of %u finalizers ran", (long long)sched::get(0), nf);
    report(leak && !freed_by_finalizer);
    if(size) MC_CHECK(value_of("Unbalanced region size") >= 20, "region size %lld reported", value_of("Unbalanced region size"));
    else MC_CHECK(line_of("No region memory leaked", false) >= 0, "region memory reported leaked");
    if(depth) MC_CHECK(value_of("Unbalanced regions") == (long long)depth, "%lld unbalanced regions reported, %llu open", value_of("Unbalanced regions"), (unsigned long long)depth);
    else MC_CHECK(line_of("No regions leaked", false) >= 0, "regions reported open");
    if(leak && !freed_by_finalizer) sched::expect_leaks(1);
}
RAW static void sums(const char* name, const Stats& s) {
    if(!s.allocs) return;
    MC_CHECK(stat(name, "Allocs") == s.allocs && stat(name, "Frees") == s.frees, "%s: %lld/%lld allocations and frees reported, %lld/%lld made", name, stat(name, "Allocs"), stat(name, "Frees"), s.allocs, s.frees);
    MC_CHECK(stat(name, "Alloc size") == s.in && stat(name, "Free size") == s.out, "%s: %lld/%lld bytes reported", name, stat(name, "Alloc size"), stat(name, "Free size"));
    MC_CHECK(stat(name, "Unbalanced size") == (s.in == s.out ? -1 : s.in - s.out), "%s: unbalanced", name);
    MC_CHECK(stat(name, "High water") <= s.in && stat(name, "High water") >= s.in - s.out && stat(name, "High water") >= s.high, "%s: high water", name);
}
// every small program of two threads over two allocators, in and out of frames
static void programs(mc::Ctx& c, int na, int nb, Opts o) {
    int s[2][6], n[2] = {na, nb};
    Stats a, b, own[2];
    long long net = 0;
    bool given = c.choose(2, "given");
    for(int t = 0; t < 2; t++) {
        std::vector<std::pair<bool, int>> live;
        bool frame = false;
        Stats own_a;
        if(t == 1 && given) live.push_back({false, 8}), a.add(8);
        for(int i = 0; i < n[t]; i++) {
            bool closes = frame && i + 1 == n[t];
            s[t][i] = closes ? 5 : (int)c.choose(live.empty() ? 3 : 4, "step"); // allocate from A or B, a frame begins or ends, free the oldest
            if(s[t][i] == 2) frame = !frame;
            int size = 1 + t * 10 + i;
            if(s[t][i] == 0) a.add(size), own_a.add(size), live.push_back({false, size});
            if(s[t][i] == 1) b.add(size), live.push_back({true, size});
            if(s[t][i] == 3) {
                auto f = live.front();
                live.erase(live.begin());
                (f.first ? b : a).sub(f.second);
                if(!f.first) own_a.sub(f.second);
            }
        }
        if(frame && s[t][n[t] - 1] != 5) s[t][n[t] - 1] += 10; // ends the frame after the step
        net += (long long)live.size();
    }
    a.high = b.high = 0; // depends on the schedule
    sched::run(c, o, [&] {
        void* first = given ? A::alloc(8) : nullptr;
        auto perform = [&](int t) {
            struct Held {
                void* p;
                bool b;
            } held[8];
            int from = 0, to = 0;
            bool frame = false;
            auto flip = [&] {
                if(frame) Profile::end_frame();
                else (void)Profile::begin_frame();
                frame = !frame;
            };
            if(t == 1 && first) held[to++] = {first, false};
            for(int i = 0; i < n[t]; i++) {
                int k = s[t][i] % 10;
                u64 size = (u64)(1 + t * 10 + i);
                if(k == 0) held[to++] = {A::alloc(size), false};
                if(k == 1) held[to++] = {B::alloc(size), true};
                if(k == 2 || k == 5) flip();
                if(k == 3) {
                    if(held[from].b) B::free(held[from].p);
                    else A::free(held[from].p);
                    from++;
                }
                if(s[t][i] >= 10) flip();
            }
        };
        {
            Thread::Thread other([&] { perform(1); });
            perform(0);
        }
        finalize();
        sums("AA", a);
        sums("BB", b);
        report(net);
        if(net) sched::expect_leaks((int)net);
    });
}
// --- several threads: totals are exact whatever the interleaving; blocks are freed by others
static void threads(int v) {
    Stats a, b;
    long long net = 0;
    auto pair = [](u64 n) {
        void* p = A::alloc(n);
        A::free(p);
    };
    if(v == 0) {
        Thread::Thread t([&] { pair(5); });
        pair(7);
        t.join();
        a.allocs = a.frees = 2;
        a.in = a.out = 12;
    } else if(v == 1) { // freed by another thread while one more is made
        void* p = A::alloc(8);
        {
            Thread::Thread t([p] { A::free(p); });
            void* q = B::alloc(9);
            B::free(q);
        }
        a.allocs = a.frees = 1;
        a.in = a.out = 8;
        b.allocs = b.frees = 1;
        b.in = b.out = 9;
    } else if(v == 2) { // leaked by a thread
        Thread::Thread t([] { (void)A::alloc(6); });
        void* q = A::alloc(9);
        A::free(q);
        t.join();
        a.allocs = 2;
        a.frees = 1;
        a.in = 15;
        a.out = 9;
        net = 1;
    } else { // first use of two allocators by two threads; a third thread during a frame
        Thread::Thread t([&] { pair(3); });
        Thread::Thread u([] {
            (void)Profile::begin_frame();
            void* q = B::alloc(4);
            B::free(q);
            Profile::end_frame();
        });
        t.join();
        u.join();
        a.allocs = a.frees = 1;
        a.in = a.out = 3;
        b.allocs = b.frees = 1;
        b.in = b.out = 4;
    }
    finalize();
    sums("AA", a);
    sums("BB", b);
    report(net);
    if(net) sched::expect_leaks((int)net);
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "M04";
    m.bounds = "every sequence of 7 (thorough 8; with frames 6 and 8) allocate/free steps over three allocators (one silent), ending in finalize; 6 numbers of allocators up to 30 x 4 numbers of blocks up to 300 x 6 sizes up to 2^40 x 4 patterns of frees; finalizers x open regions x leaks; "
               "2-3 threads, every interleaving within preemption bound 3-4 (thorough 6-8); every program of two threads with 3 and 2 (3) allocate/free/frame steps within preemption bound 2 (3)";
    m.assumptions = {"blocks are freed by the allocator that made them", "interleavings are sequentially consistent; missing ordering shows up as a data race"};
    Opts seq;
    seq.preempt = 0;
    m.add("history", [seq](mc::Ctx& c) { sched::run(c, seq, [&c] { history(c, c.tier(7, 8), false); }); }, 3);
    m.add("history-frames", [seq](mc::Ctx& c) { sched::run(c, seq, [&c] { history(c, c.tier(6, 8), true); }); }, 3);
    Opts more = seq;
    more.max_steps = 100000;
    m.add("large", [more](mc::Ctx& c) { sched::run(c, more, [&c] { large(c); }); }, 2);
    m.add("ending", [seq](mc::Ctx& c) { sched::run(c, seq, [&c] { ending(c); }); }, 2);
    for(int v = 0; v < 4; v++)
        m.add("threads-" + std::to_string(v), [v](mc::Ctx& c) {
            Opts o;
            o.preempt = v == 3 ? c.tier(3, 6) : c.tier(4, 8);
            sched::run(c, o, [v] { threads(v); });
        }, 6);
    m.add("programs", [](mc::Ctx& c) {
        Opts o;
        o.preempt = c.tier(2, 3);
        programs(c, c.tier(3, 3), c.tier(2, 3), o);
    }, 3);
    return m.run(argc, argv);
}
