// Arc: shared ownership across threads, under every interleaving.
#include "ilv.h"
#include <rpp/base.h>
#include <rpp/rc.h>
#include <rpp/box.h>
#include <rpp/thread.h>
#include <rpp/vec.h>
using namespace rpp;
using sched::Opts;

static Opts full() {
    Opts o;
    o.preempt = -1;
    return o;
}
static Opts bounded(int p) {
    Opts o;
    o.preempt = p;
    return o;
}
// reg 1: live objects; reg 2: destructions; reg 3..: per object destructions
struct Obj {
    explicit Obj(i32 id) noexcept : id(id) {
        sched::add(1, 1);
    }
    Obj(Obj&&) = delete;
    ~Obj() noexcept {
        for(u64& s : slot) s++; // reads and writes everything: any access not ordered before is a race
        MC_CHECK(sched::add(3 + id, 1) == 1, "object destroyed twice");
        sched::add(1, -1);
        sched::add(2, 1);
    }
    i32 id;
    u64 slot[12] = {};
};
template<typename A>
using P = Arc<Obj, A>;

// each thread owns one handle, uses its own slot of the object, makes and drops copies
template<typename A>
static void share(int threads, int ops) {
    {
        auto a = P<A>::make(0);
        Vec<Thread::Thread<>> ts;
        for(int t = 0; t < threads; t++)
            ts.push(Thread::Thread([h = a.dup(), t, ops]() mutable {
                h->slot[t]++;
                for(int i = 0; i < ops; i++) {
                    auto d = h.dup();
                    MC_CHECK(sched::get(2) == 0, "object destroyed while a handle exists");
                    d->slot[t]++;
                    if(i & 1) {
                        auto e = P<A>::from_this(&*d);
                        d = rpp::move(e);
                        d->slot[t]++;
                    }
                }
                h.clear();
                MC_CHECK(!h.ok(), "cleared handle still ok");
            }));
        MC_CHECK(a.references() >= 1 && a.references() <= u64(threads) * 4 + 1, "references()=%llu", (unsigned long long)a.references());
        a.clear();
        MC_CHECK(a.references() == 0, "empty handle has references");
    }
    MC_CHECK(sched::get(1) == 0 && sched::get(2) == 1, "live=%lld destroyed=%lld", (long long)sched::get(1), (long long)sched::get(2));
}
// a handle is replaced by another while others use the objects
template<typename A>
static void replace() {
    {
        auto a = P<A>::make(0), b = P<A>::make(1);
        Thread::Thread t([a = a.dup(), b = b.dup()]() mutable {
            a->slot[0]++;
            a = rpp::move(b);
            a->slot[0]++;
        });
        Thread::Thread u([a = a.dup(), b = b.dup()]() mutable {
            b->slot[1]++;
            b = a.dup();
            b->slot[1]++;
        });
        a = b.dup();
        a->slot[2]++;
        b = P<A>{};
        t.join();
        u.join();
        MC_CHECK(sched::get(2) == 1 && sched::get(3) == 1, "object 0 must be gone and object 1 alive: %lld %lld", (long long)sched::get(3), (long long)sched::get(4));
        MC_CHECK(a.references() == 1, "references()=%llu", (unsigned long long)a.references());
    }
    MC_CHECK(sched::get(1) == 0 && sched::get(2) == 2, "live=%lld", (long long)sched::get(1));
}
// handles handed from thread to thread through a mutex-protected mailbox
template<typename A>
static void mailbox() {
    {
        struct Box_ {
            Thread::Mutex m;
            P<A> p;
        } box;
        Thread::Thread t([&] {
            auto a = P<A>::make(0);
            a->slot[0] = 1;
            {
                Thread::Lock l(box.m);
                box.p = a.dup();
            }
            a->slot[0]++;
        });
        Thread::Thread u([&] {
            P<A> a;
            {
                Thread::Lock l(box.m);
                a = rpp::move(box.p);
            }
            if(a.ok()) a->slot[1]++;
        });
        P<A> c;
        {
            Thread::Lock l(box.m);
            c = box.p.dup();
        }
        if(c.ok()) c->slot[2]++;
        t.join();
        u.join();
    }
    MC_CHECK(sched::get(1) == 0 && sched::get(2) == 1, "live=%lld destroyed=%lld", (long long)sched::get(1), (long long)sched::get(2));
}
// references() counts the handles when nobody else is running
static void count() {
    auto a = P<Mdefault>::make(0);
    MC_CHECK(a.references() == 1, "count");
    auto b = a.dup();
    MC_CHECK(a.references() == 2 && b.references() == 2, "count");
    {
        Thread::Thread t([c = a.dup()]() mutable { auto d = c.dup(); });
        Thread::Thread u([c = b.dup()]() mutable { auto d = rpp::move(c); });
    }
    MC_CHECK(a.references() == 2, "references()=%llu after the threads dropped theirs", (unsigned long long)a.references());
    a.clear();
    MC_CHECK(b.references() == 1 && !a.ok() && b.ok(), "count");
}

static Opts delayed(int d) {
    Opts o;
    o.delays = d;
    return o;
}
// handles in large numbers: the count is exact and the object goes with the last one, whatever the order
static void crowd(mc::Ctx& c) {
    static const u32 ns[] = {1, 2, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000};
    u32 n = ns[c.choose((u32)c.tier(15, 15), "handles")];
    u32 order = c.choose(4, "order of dropping"), how = c.choose(3, "made by");
    {
        auto a = P<Mdefault>::make(0);
        a->slot[0] = 1;
        Vec<P<Mdefault>> v;
        for(u32 i = 0; i < n; i++) {
            if(how == 0) v.push(a.dup());
            else if(how == 1) v.push(v.empty() ? a.dup() : v.back().dup());
            else v.push(P<Mdefault>::from_this(&*a));
            if(i < 4 || i + 4 > n || i % 997 == 0) MC_CHECK(a.references() == i + 2, "references()=%llu with %u handles", (unsigned long long)a.references(), i + 2);
        }
        a.clear();
        MC_CHECK(v.back().references() == n, "references()=%llu with %u handles", (unsigned long long)v.back().references(), n);
        for(u32 k = 0; k + 1 < n; k++) {
            u32 i = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k % 2 ? n - 1 - k / 2 : k / 2) : k;
            if(order == 3) v[i] = P<Mdefault>{};
            else v[i].clear();
            if(sched::get(2)) mc::fail("object destroyed with %u handles left", n - 1 - k);
        }
        bool found = false;
        for(u32 i = 0; i < n; i++)
            if(v[i].ok()) {
                MC_CHECK(!found && v[i].references() == 1 && v[i]->slot[0] == 1, "the last handle");
                found = true;
            }
        MC_CHECK(found, "the last handle");
        v.clear();
        MC_CHECK(sched::get(2) == 1, "the object outlives its handles");
    }
    c.op("%u handles", n);
    c.state(mc::mix(n, order * 3 + how));
    MC_CHECK(sched::get(1) == 0 && sched::get(2) == 1, "live=%lld destroyed=%lld", (long long)sched::get(1), (long long)sched::get(2));
}
// objects that own handles to others: a chain and a tree go completely, once nobody holds the first
struct Node {
    explicit Node(i32 id, Arc<Node>&& l, Arc<Node>&& r) noexcept : o(id), l(rpp::move(l)), r(rpp::move(r)) {}
    Obj o;
    Arc<Node> l, r;
};
static Arc<Node> tree(i32 depth, i32& id, Arc<Node>& shared) {
    if(!depth) return shared.dup();
    auto l = tree(depth - 1, id, shared), r = tree(depth - 1, id, shared);
    return Arc<Node>::make(id++, rpp::move(l), rpp::move(r));
}
static void graph(int threads, int depth) {
    i32 id = 1;
    i64 total;
    {
        auto shared = Arc<Node>::make(0, Arc<Node>{}, Arc<Node>{});
        auto root = tree(depth, id, shared);
        total = id;
        MC_CHECK(shared.references() == (1ull << depth) + 1, "references()=%llu", (unsigned long long)shared.references());
        shared.clear();
        Vec<Thread::Thread<>> ts;
        for(int t = 0; t < threads; t++)
            ts.push(Thread::Thread([h = root.dup(), t]() mutable { // walks down, holding only the current node
                int k = t;
                while(h->l.ok()) {
                    MC_CHECK(sched::get(3 + h->o.id) == 0, "a node is destroyed while a handle to it exists");
                    if(k & 1) h = h->l.dup();
                    else h = h->r.dup();
                    k >>= 1;
                }
                MC_CHECK(h->o.id == 0 && sched::get(3) == 0, "the shared leaf is gone");
            }));
        if(threads & 1) root = root->l.dup(); // from inside the object that may go
        else root = root->r.dup();
        root.clear();
    }
    MC_CHECK(sched::get(1) == 0 && sched::get(2) == total, "live=%lld destroyed=%lld of %lld", (long long)sched::get(1), (long long)sched::get(2), (long long)total);
}
// many objects, every thread holds and exchanges handles to several
template<typename A>
static void exchange(int threads, int objects, int rounds) {
    {
        struct Slot {
            Thread::Mutex m;
            P<A> p;
        };
        Slot slot[8];
        for(int i = 0; i < objects; i++) slot[i].p = P<A>::make(i);
        Vec<Thread::Thread<>> ts;
        for(int t = 0; t < threads; t++)
            ts.push(Thread::Thread([&slot, t, objects, rounds] {
                P<A> mine;
                for(int i = 0; i < rounds; i++) {
                    Slot& s = slot[(t + i) % objects];
                    P<A> got;
                    {
                        Thread::Lock l(s.m);
                        got = s.p.dup();
                        if(i & 1) s.p = rpp::move(mine);
                    }
                    if(got.ok()) {
                        MC_CHECK(sched::get(3 + got->id) == 0, "an object is destroyed while a handle exists");
                        MC_CHECK(got.references() >= 1, "no references");
                        mine = rpp::move(got);
                    }
                }
            }));
    }
    MC_CHECK(sched::get(1) == 0 && sched::get(2) == objects, "live=%lld destroyed=%lld", (long long)sched::get(1), (long long)sched::get(2));
}
// ---- every small program over the handles of two threads ----
// Each thread has two handles; the model says which object each holds.
enum What { kDup, kClear, kMove, kSwap, kThis, kMake, kTemp, kBack, kSame, kWhats };
struct Script {
    int a = 0, b = -1, n = 0; // objects held at the start; -1: none
    What step[4];
};
static void plan(mc::Ctx& c, Script& s, int n, int fresh) {
    int a = s.a, b = s.b;
    for(int i = 0; i < n; i++) {
        What can[kWhats];
        u32 k = 0;
        if(a >= 0) can[k++] = kDup, can[k++] = kClear, can[k++] = kMove, can[k++] = kThis, can[k++] = kTemp, can[k++] = kSame;
        if(b >= 0) can[k++] = kBack;
        if(a >= 0 && b >= 0 && a != b) can[k++] = kSwap;
        can[k++] = kMake;

        What w = can[c.choose(k, "step")];
        s.step[s.n++] = w;
        switch(w) {
        case kDup: case kThis: b = a; break;
        case kClear: a = -1; break;
        case kMove: b = a, a = -1; break;
        case kBack: a = b, b = -1; break;
        case kSwap: { int t = a; a = b; b = t; } break;
        case kMake: a = fresh++; break;
        default: break;
        }
    }
}
template<typename A>
static void perform(P<A> a, P<A> b, const Script& s, int fresh, int t) {
    int ia = s.a, ib = s.b;
    for(int i = 0; i < s.n; i++) {
        switch(s.step[i]) {
        case kDup: b = a.dup(), ib = ia; break;
        case kClear: a.clear(), ia = -1; break;
        case kMove: b = rpp::move(a), ib = ia, ia = -1; break;
        case kSwap: {
            P<A> x(rpp::move(a));
            a = rpp::move(b);
            b = rpp::move(x);
            int y = ia;
            ia = ib, ib = y;
        } break;
        case kThis: b = P<A>::from_this(&*a), ib = ia; break;
        case kMake: a = P<A>::make(fresh), ia = fresh++; break;
        case kSame: a = a.dup(); break;
        case kTemp: {
            auto x = a.dup();
            MC_CHECK(x.references() >= 2, "two handles, references()=%llu", (unsigned long long)x.references());
        } break;
        case kBack: a = rpp::move(b), ia = ib, ib = -1; break;
        default: break;
        }
        MC_CHECK(a.ok() == (ia >= 0) && b.ok() == (ib >= 0), "a handle is %s", a.ok() == (ia >= 0) ? "b" : "a");
        if(ia >= 0) {
            MC_CHECK(sched::get(3 + ia) == 0, "an object is destroyed while a handle exists");
            MC_CHECK(a->id == ia, "a handle to object %d", a->id);
            a->slot[t]++;
        }
        if(ib >= 0) {
            MC_CHECK(sched::get(3 + ib) == 0, "an object is destroyed while a handle exists");
            MC_CHECK(b->id == ib, "a handle to object %d", b->id);
            b->slot[t]++;
        }
    }
}
template<typename A>
static void programs(mc::Ctx& c, int n1, int n2, bool two, bool early, Opts o) {
    Script s[2];
    s[0].b = two ? 1 : -1;
    s[1].a = two ? 1 : 0;
    s[1].b = two ? 0 : -1;
    plan(c, s[0], n1, 10);
    plan(c, s[1], n2, 20);
    sched::run(c, o, [&s, two, early] {
        {
            auto x = P<A>::make(0), y = two ? P<A>::make(1) : P<A>{};
            auto give = [&](int i) { return i == 0 ? x.dup() : i == 1 ? y.dup() : P<A>{}; };
            auto one = [](const Script& s, P<A> a, P<A> b, int fresh, int t) {
                return Thread::Thread([&s, a = rpp::move(a), b = rpp::move(b), fresh, t]() mutable { perform<A>(rpp::move(a), rpp::move(b), s, fresh, t); });
            };
            auto t1 = one(s[0], give(s[0].a), give(s[0].b), 10, 1), t2 = one(s[1], give(s[1].a), give(s[1].b), 20, 2);
            if(early) {
                x.clear();
                y.clear();
            }
            t1.join();
            t2.join();
        }
        MC_CHECK(sched::get(1) == 0, "%lld objects live on", (long long)sched::get(1));
    });
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "T03";
    m.bounds = "2-3 threads with 1-3 duplicate/drop rounds each, two objects; every interleaving (sleep-set reduction) where "
               "named full, preemption bound 3 (thorough 5) elsewhere; heap and pool allocators; up to 11 threads with up to 2-3 (thorough 3-4) departures from round robin; up to 70000 handles to one object; trees of objects owning handles; every program of two threads with 3 and 2 (thorough 4 and 2) duplicate/drop/move/share steps over the handles of one object, or 2 and 2 over two, within preemption bound 2-3 (3-4)";
    m.assumptions = {"interleavings are sequentially consistent; missing ordering shows up as a data race"};
    m.add("programs-one", [](mc::Ctx& c) { programs<Mdefault>(c, c.tier(3, 4), 2, false, true, bounded(3)); }, 4);
    m.add("programs-two", [](mc::Ctx& c) { programs<Mdefault>(c, 2, 2, true, true, bounded(c.tier(2, 4))); }, 4);
    m.add("programs-two-late", [](mc::Ctx& c) { programs<Mdefault>(c, c.tier(1, 2), 2, true, false, bounded(c.tier(2, 3))); }, 4);
    m.add("share-2x1-full", [](mc::Ctx& c) { sched::run(c, full(), [] { share<Mdefault>(2, 1); }); }, 8);
    m.add("share-2x2-full", [](mc::Ctx& c) { sched::run(c, full(), [] { share<Mdefault>(2, 2); }); }, 8, true);
    m.add("share-2x3", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(5, 7)), [] { share<Mdefault>(2, 3); }); }, 8);
    m.add("share-3x1", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(4, 5)), [] { share<Mdefault>(3, 1); }); }, 8);
    m.add("share-3x1-full", [](mc::Ctx& c) { sched::run(c, full(), [] { share<Mdefault>(3, 0); }); }, 8);
    m.add("share-pool-2x1", [](mc::Ctx& c) {
        Opts o = bounded(c.tier(4, 6));
        o.leaks = false; // the pool keeps freed blocks
        sched::run(c, o, [] { share<Mpool>(2, 1); });
    }, 8);
    m.add("replace", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(5, 7)), [] { replace<Mdefault>(); }); }, 8);
    m.add("replace-pool", [](mc::Ctx& c) {
        Opts o = bounded(c.tier(3, 5));
        o.leaks = false;
        sched::run(c, o, [] { replace<Mpool>(); });
    }, 8);
    m.add("mailbox-full", [](mc::Ctx& c) { sched::run(c, full(), [] { mailbox<Mdefault>(); }); }, 8);
    m.add("count-full", [](mc::Ctx& c) { sched::run(c, full(), [] { count(); }); }, 8);
    m.add("crowd", [](mc::Ctx& c) {
        auto* cp = &c;
        Opts o = bounded(0);
        o.max_steps = 2000000;
        sched::run(c, o, [cp] { crowd(*cp); });
    }, 3);
    m.add("graph-2", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(3, 4)), [] { graph(2, 2); }); }, 8);
    m.add("graph-1-full", [](mc::Ctx& c) { sched::run(c, full(), [] { graph(1, 1); }); }, 8);
    m.add("exchange-3", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(2, 3)), [] { exchange<Mdefault>(3, 2, 2); }); }, 8);
    // many threads
    m.add("share-10x2", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 3)), [] { share<Mdefault>(10, 2); }); }, 6);
    m.add("share-4x3", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(3, 4)), [] { share<Mdefault>(4, 3); }); }, 6);
    m.add("share-pool-8x2", [](mc::Ctx& c) {
        Opts o = delayed(c.tier(2, 3));
        o.leaks = false;
        sched::run(c, o, [] { share<Mpool>(8, 2); });
    }, 6);
    m.add("graph-9", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 3)), [] { graph(9, 4); }); }, 6);
    m.add("exchange-8", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 3)), [] { exchange<Mdefault>(6, 4, 3); }); }, 6);
    return m.run(argc, argv);
}
