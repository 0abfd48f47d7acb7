// M03: pooled allocation (Mpool, Free_List): every sequence of makes and destroys, and from several threads.
#include "ilv.h"
#include "capture.h"
#include <rpp/base.h>
#include <rpp/box.h>
#include <rpp/thread.h>
#include <algorithm>
#include <setjmp.h>
#include <vector>
using namespace rpp;
using sched::Opts;

static jmp_buf exit_to MCE;
static int exit_armed MCE, exit_code MCE;
extern "C" void __real_exit(int);
extern "C" RAW void __wrap_exit(int code) {
    if(exit_armed) {
        exit_armed = 0;
        exit_code = code;
        longjmp(exit_to, 1);
    }
    __real_exit(code);
}
// reg 0: live objects
template<int K> struct Unit;
template<> struct Unit<0> { using T = u8; static constexpr int n = 1; };
template<> struct Unit<1> { using T = u32; static constexpr int n = 1; };
template<> struct Unit<2> { using T = u64; static constexpr int n = 1; };
template<> struct Unit<3> { using T = u32; static constexpr int n = 3; };
template<> struct Unit<4> { struct alignas(16) T { u64 a, b; bool operator==(const T&) const = default; T() = default; T(u8 v) : a(v), b(v) {} }; static constexpr int n = 1; };
template<> struct Unit<5> { using T = u64; static constexpr int n = 3; };
template<> struct Unit<6> { using T = u16; static constexpr int n = 1; };
template<int K, int D = 0> // D: another type of the same size
struct Obj {
    using T = typename Unit<K>::T;
    T d[Unit<K>::n];
    explicit Obj(u8 tag) noexcept {
        sched::add(0, 1);
        for(auto& x : d) x = T(tag);
    }
    ~Obj() noexcept {
        sched::add(0, -1);
    }
    Obj(const Obj&) = delete;
    bool is(u8 tag) const {
        for(auto& x : d)
            if(!(x == T(tag))) return false;
        return true;
    }
};
struct Any {
    void* p;
    u64 size;
    int kind;
    u8 tag;
};
template<int K, int D> static Any make1(u8 tag) {
    auto* o = Mpool::make<Obj<K, D>>(tag);
    MC_CHECK(o && (u64)o % alignof(Obj<K, D>) == 0, "object of size %zu at %p: not aligned", sizeof *o, (void*)o);
    MC_CHECK(o->is(tag), "not constructed with its argument");
    return Any{o, sizeof *o, K * 2 + D, tag};
}
static Any make(int kind, u8 tag) {
    switch(kind) {
    case 0: return make1<0, 0>(tag);
    case 2: return make1<1, 0>(tag);
    case 4: return make1<2, 0>(tag);
    case 5: return make1<2, 1>(tag);
    case 6: return make1<3, 0>(tag);
    case 8: return make1<4, 0>(tag);
    case 10: return make1<5, 0>(tag);
    default: return make1<6, 0>(tag);
    }
}
static bool intact(const Any& a) {
    switch(a.kind) {
    case 0: return ((Obj<0>*)a.p)->is(a.tag);
    case 2: return ((Obj<1>*)a.p)->is(a.tag);
    case 4: return ((Obj<2>*)a.p)->is(a.tag);
    case 5: return ((Obj<2, 1>*)a.p)->is(a.tag);
    case 6: return ((Obj<3>*)a.p)->is(a.tag);
    case 8: return ((Obj<4>*)a.p)->is(a.tag);
    case 10: return ((Obj<5>*)a.p)->is(a.tag);
    default: return ((Obj<6>*)a.p)->is(a.tag);
    }
}
static void destroy(const Any& a) {
    MC_CHECK(intact(a), "object of size %llu overwritten", (unsigned long long)a.size);
    switch(a.kind) {
    case 0: return Mpool::destroy((Obj<0>*)a.p);
    case 2: return Mpool::destroy((Obj<1>*)a.p);
    case 4: return Mpool::destroy((Obj<2>*)a.p);
    case 5: return Mpool::destroy((Obj<2, 1>*)a.p);
    case 6: return Mpool::destroy((Obj<3>*)a.p);
    case 8: return Mpool::destroy((Obj<4>*)a.p);
    case 10: return Mpool::destroy((Obj<5>*)a.p);
    default: return Mpool::destroy((Obj<6>*)a.p);
    }
}
static void finalized(bool leak) {
    start();
    exit_code = -1;
    exit_armed = 1;
    if(setjmp(exit_to) == 0) Profile::finalize();
    exit_armed = 0;
    capture = false;
    if(leak) MC_CHECK(exit_code == 1 && line_of("Unbalanced allocations", false) >= 0, "a leak is not reported");
    else MC_CHECK(exit_code == -1 && line_of("No memory leaked", false) >= 0, "everything was destroyed but memory is reported leaked: %s", nlines > 0 ? lines[nlines - 1].text : "");
}
static const int kinds[3][3] = {{0, 4, 5}, {6, 2, 12}, {8, 10, 4}};
static void history(mc::Ctx& c, int set, int depth) {
    Any live[16];
    int n = 0, made = 0;
    u8 tag = 1;
    for(int d = 0; d < depth; d++) {
        u32 k = c.choose(4 + (u32)n, "op");
        if(k == 0) break;
        if(k <= 3) {
            c.op("make kind %d", kinds[set][k - 1]);
            Any a = make(kinds[set][k - 1], tag++);
            made++;
            for(int i = 0; i < n; i++)
                MC_CHECK((char*)a.p + a.size <= (char*)live[i].p || (char*)live[i].p + live[i].size <= (char*)a.p, "two live objects share memory");
            live[n++] = a;
        } else {
            c.op("destroy #%d of %d", k - 4, n);
            destroy(live[k - 4]);
            for(int i = (int)k - 4; i + 1 < n; i++) live[i] = live[i + 1];
            n--;
        }
        for(int i = 0; i < n; i++) MC_CHECK(intact(live[i]), "a live object was overwritten");
        MC_CHECK(sched::get(0) == n, "%lld objects constructed and not destroyed, %d live", (long long)sched::get(0), n);
        c.state(mc::mix((u64)n * 100 + (u64)set, (u64)made));
    }
    bool leak = n > 0 && c.flip("leak the rest");
    if(!leak)
        while(n) destroy(live[--n]);
    finalized(leak);
    if(leak) sched::expect_leaks(n);
}
// Free_List used directly
struct Node {
    u64 a, b;
    explicit Node(u64 v) noexcept : a(v), b(~v) {
        sched::add(0, 1);
    }
    ~Node() noexcept {
        sched::add(0, -1);
    }
    Node(const Node&) = delete;
    bool is(u64 v) const {
        return a == v && b == ~v;
    }
};
static void free_list(mc::Ctx& c, int depth) {
    {
        using FL = Free_List<Node, Mhidden>;
        FL one, two;
        FL* cur = &one;
        Node* live[16];
        u64 val[16];
        int n = 0;
        u64 v = 100;
        long high = 0;
        long base = sched::live_blocks();
        for(int d = 0; d < depth; d++) {
            u32 k = c.choose(5 + (u32)n, "op");
            if(k == 0) break;
            if(k == 1) {
                live[n] = cur->make(v);
                val[n] = v++;
                for(int i = 0; i < n; i++) MC_CHECK(live[i] != live[n], "one block handed out twice");
                n++;
            } else if(k == 2) cur->clear(), high = 0;
            else if(k == 3) {
                FL* other = cur == &one ? &two : &one;
                *other = rpp::move(*cur);
                cur = other;
            } else if(k == 4) {
                FL tmp(rpp::move(*cur));
                *cur = rpp::move(tmp);
            } else {
                int i = (int)k - 5;
                MC_CHECK(live[i]->is(val[i]), "overwritten");
                cur->destroy(live[i]);
                for(; i + 1 < n; i++) live[i] = live[i + 1], val[i] = val[i + 1];
                n--;
            }
            if(n > high) high = n;
            if(k == 2) high = n;
            for(int i = 0; i < n; i++) MC_CHECK(live[i]->is(val[i]), "a live object was overwritten");
            MC_CHECK(sched::get(0) == n, "%lld objects constructed, %d live", (long long)sched::get(0), n);
            MC_CHECK(sched::live_blocks() - base <= high, "%ld blocks held for at most %ld objects: blocks are not recycled", sched::live_blocks() - base, high);
            c.op("op %u", k);
            c.state(mc::mix((u64)n, (u64)high));
        }
        while(n) cur->destroy(live[--n]);
    }
}
// many objects of several sizes at once, given back in different orders, and taken again
static void bulk(mc::Ctx& c) {
    static const int kCount[] = {1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 500};
    static const int kMix[][3] = {{0, 0, 0}, {4, 5, 4}, {6, 8, 6}, {8, 4, 10}, {12, 2, 0}, {10, 10, 6}};
    int n = kCount[c.choose(20, "count")], mix = (int)c.choose(6, "kinds"), order = (int)c.choose(5, "order");
    Any* live = new Any[512];
    std::vector<std::pair<char*, u64>> at;
    auto distinct = [&](int m) {
        at.clear();
        for(int i = 0; i < m; i++) at.push_back({(char*)live[i].p, live[i].size});
        std::sort(at.begin(), at.end());
        for(size_t i = 1; i < at.size(); i++)
            if(at[i - 1].first + at[i - 1].second > at[i].first) mc::fail("two of %d live objects share memory", m);
        for(int i = 0; i < m; i++)
            if(!intact(live[i])) mc::fail("object %d of %d was overwritten", i, m);
    };
    for(int i = 0; i < n; i++) live[i] = make(kMix[mix][i % 3], (u8)(i % 251 + 1));
    distinct(n);
    long blocks = sched::live_blocks();
    int keep = order == 4 ? n / 3 : n / 2;
    auto drop = [&](int from, int to, int step) { // destroys every step-th, keeps the others in place
        for(int i = from; i != to; i += step) destroy(live[i]), live[i].p = nullptr;
    };
    if(order == 0) drop(n - 1, keep - 1, -1);
    if(order == 1) drop(0, n - keep, 1);
    if(order == 2)
        for(int i = 0; i < n; i += 2) destroy(live[i]), live[i].p = nullptr;
    if(order == 3)
        for(int i = 0; i < n; i++)
            if(i % 7 && i % 5) destroy(live[i]), live[i].p = nullptr;
    if(order == 4) drop(keep, n, 1);
    for(int i = 0; i < n; i++) // everything taken again, of the kind it was
        if(!live[i].p) live[i] = make(live[i].kind, (u8)(i % 250 + 2));
    distinct(n);
    MC_CHECK(sched::live_blocks() <= blocks, "%ld blocks held for objects that took %ld before: blocks are not recycled", sched::live_blocks(), blocks);
    MC_CHECK(sched::get(0) == n, "%lld objects constructed and not destroyed, %d live", (long long)sched::get(0), n);
    for(int i = 0; i < n; i++) destroy(live[order % 2 ? i : n - 1 - i]);
    MC_CHECK(sched::get(0) == 0, "not destroyed");
    delete[] live;
    c.op("%d objects, kinds %d, order %d", n, mix, order);
    c.state((u64)n * 100 + (u64)mix * 10 + (u64)order);
    finalized(false);
}
// --- threads
static void threads(int v) {
    auto churn = [](u8 tag, int kind, int rounds) {
        for(int i = 0; i < rounds; i++) {
            Any a = make(kind, tag), b = make(kind, (u8)(tag + 1));
            MC_CHECK(a.p != b.p, "one block handed out twice");
            destroy(a);
            destroy(b);
        }
    };
    if(v == 0) {
        Thread::Thread t([&] { churn(10, 4, 1); });
        churn(20, 5, 1);
        t.join();
    } else if(v == 1) { // destroyed by another thread
        Any a = make(6, 1), b = make(6, 2);
        {
            Thread::Thread t([&] { destroy(a); });
            Any c = make(6, 3);
            destroy(b);
            destroy(c);
        }
    } else if(v == 2) {
        Thread::Thread t([&] { destroy(make(0, 1)); }), u([&] { destroy(make(0, 2)); });
        destroy(make(0, 3));
    } else { // different sizes do not meet; boxes on the pool
        Thread::Thread t([&] { Box<Obj<5>, Mpool> x(u8(7)); MC_CHECK(x->is(7), "box"); });
        Box<Obj<5>, Mpool> y(u8(8));
        destroy(make(2, 9));
        MC_CHECK(y->is(8), "box");
    }
    finalized(false);
    MC_CHECK(sched::get(0) == 0, "destroyed");
}
// every small program of two threads: make one of three kinds, destroy the oldest or the newest
static void programs(mc::Ctx& c, int na, int nb, Opts o) {
    static const int kKinds[] = {4, 5, 6}; // two types of one size and another size
    int s[2][6], n[2] = {na, nb};
    bool given = c.choose(2, "given"); // the second thread starts with objects made by the first
    for(int t = 0; t < 2; t++) {
        int live = t == 1 && given ? 2 : 0;
        for(int i = 0; i < n[t]; i++) {
            s[t][i] = (int)c.choose(live > 1 ? 5 : live ? 4 : 3, "step");
            live += s[t][i] < 3 ? 1 : -1;
        }
    }
    sched::run(c, o, [&] {
        Any held[2][8];
        int from[2] = {}, to[2] = {};
        if(given)
            for(int k : {4, 6}) held[1][to[1]++] = make(k, 99);
        auto perform = [&](int t) {
            for(int i = 0; i < n[t]; i++) {
                int k = s[t][i];
                if(k < 3) held[t][to[t]++] = make(kKinds[k], (u8)(t * 50 + i + 1));
                else if(k == 3) destroy(held[t][from[t]++]);
                else destroy(held[t][--to[t]]);
                for(int j = from[t]; j < to[t]; j++) MC_CHECK(intact(held[t][j]), "a live object was overwritten");
            }
        };
        {
            Thread::Thread other([&] { perform(1); });
            perform(0);
        }
        for(int t = 0; t < 2; t++)
            for(int j = from[t]; j < to[t]; j++) {
                MC_CHECK(intact(held[t][j]), "a live object was overwritten");
                for(int u = 0; u < 2; u++)
                    for(int k = from[u]; k < to[u]; k++) MC_CHECK((t == u && j == k) || held[t][j].p != held[u][k].p, "one block handed out twice");
            }
        for(int t = 0; t < 2; t++)
            while(from[t] < to[t]) destroy(held[t][from[t]++]);
        finalized(false);
        MC_CHECK(sched::get(0) == 0, "destroyed");
    });
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "M03";
    m.bounds = "every sequence of 7 (thorough 8) make/destroy steps over three groups of three object kinds (sizes 1-24, alignments 1-16, two types of one size), "
               "with and without leaking; every sequence of 8 (thorough 9) free-list steps including clear and move; 20 counts up to 500 of 6 mixes of kinds in 5 orders of destruction; 2-3 threads, every interleaving within preemption bound 3 (thorough 8); every program of two threads with 3 and 2 (3) make/destroy steps within preemption bound 2 (3)";
    m.assumptions = {"object alignment is at most 16", "interleavings are sequentially consistent; missing ordering shows up as a data race"};
    Opts seq;
    seq.preempt = 0;
    for(int s = 0; s < 3; s++)
        m.add("history-" + std::to_string(s), [s, seq](mc::Ctx& c) { sched::run(c, seq, [&c, s] { history(c, s, c.tier(7, 8)); }); }, 3);
    m.add("free-list", [seq](mc::Ctx& c) { sched::run(c, seq, [&c] { free_list(c, c.tier(8, 9)); }); }, 3);
    Opts more = seq;
    more.max_steps = 40000;
    m.add("bulk", [more](mc::Ctx& c) { sched::run(c, more, [&c] { bulk(c); }); }, 3);
    for(int v = 0; v < 4; v++)
        m.add("threads-" + std::to_string(v), [v](mc::Ctx& c) {
            Opts o;
            o.preempt = c.tier(3, 8);
            sched::run(c, o, [v] { threads(v); });
        }, 6);
    m.add("programs", [](mc::Ctx& c) {
        Opts o;
        o.preempt = c.tier(2, 3);
        programs(c, 3, c.tier(2, 3), o);
    }, 3);
    return m.run(argc, argv);
}
