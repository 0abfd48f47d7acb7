// Flag (one-shot event), Promise and Future under every interleaving.
#include "ilv.h"
#include <rpp/base.h>
#include <rpp/thread.h>
#include <rpp/vec.h>
using namespace rpp;
using sched::Opts;

static Opts full() {
    Opts o;
    o.preempt = -1;
    return o;
}
static Opts bounded(int p, int dev = 0) {
    Opts o;
    o.preempt = p;
    o.deviations = dev;
    return o;
}
// reg 0 = 1 once signal() has been entered

// every waiter wakes exactly when signalled, sees the data written before, and stays released
static void waiters(int n, int signallers, bool poll, bool again = true) {
    Thread::Flag f;
    u64 data[8] = {};
    MC_CHECK(!f.ready(), "ready before any signal");
    {
        Vec<Thread::Thread<>> ts;
        for(int i = 0; i < n; i++)
            ts.push(Thread::Thread([&, i] {
                if(poll && i == 0) {
                    bool r = f.ready();
                    MC_CHECK(!r || sched::get(0), "ready() is true but nobody signalled");
                    if(r && signallers == 1) MC_CHECK(data[0] + data[1] >= 1, "ready() without the signaller's writes");
                }
                f.block();
                MC_CHECK(sched::get(0), "block() returned before any signal");
                if(signallers == 1) MC_CHECK(data[0] == 1, "data written before signal() is not visible after block()");
                MC_CHECK(f.ready(), "not ready after block() returned");
                f.block();
                f.block();
            }));
        for(int i = 1; i < signallers; i++)
            ts.push(Thread::Thread([&, i] {
                data[i] = 1;
                sched::set(0, 1);
                f.signal();
            }));
        data[0] = 1;
        sched::set(0, 1);
        f.signal();
        MC_CHECK(f.ready(), "not ready after signal()");
        if(again) f.signal(); // idempotent
    }
    f.block();
    MC_CHECK(f.ready(), "ready() lost");
}
// A waiter may destroy the flag's storage as soon as block() returns only if signal() no longer
// touches it; rpp's futures rely on the reference held by the signaller instead.
static void chain() {
    Thread::Flag a, b;
    int log = 0;
    {
        Thread::Thread t([&] {
            a.block();
            MC_CHECK(log == 1, "order");
            log = 2;
            b.signal();
        });
        log = 1;
        a.signal();
        b.block();
        MC_CHECK(log == 2, "order");
    }
}

struct Tok { // counts live objects in register 1
    i32 v = 0;
    bool full = false;
    Tok() noexcept {
        sched::add(1, 1);
    }
    explicit Tok(i32 v) noexcept : v(v), full(true) {
        sched::add(1, 1);
    }
    Tok(Tok&& o) noexcept : v(o.v), full(o.full) {
        o.full = false;
        sched::add(1, 1);
    }
    Tok& operator=(Tok&& o) noexcept {
        v = o.v;
        full = o.full;
        o.full = false;
        return *this;
    }
    ~Tok() noexcept {
        sched::add(1, -1);
    }
};

// the value put in a promise is the value the future yields, exactly once, whatever is dropped first
static void future(int variant) {
    {
        auto fut = Thread::Future<Tok>::make();
        MC_CHECK(!fut->ready(), "ready before fill");
        Thread::Thread t([p = fut.dup()]() mutable { p->fill(Tok{42}); });
        if(variant == 0) {
            Tok r = fut->block();
            MC_CHECK(r.full && r.v == 42, "future yields v=%d full=%d", r.v, r.full);
            MC_CHECK(fut->ready(), "not ready after block");
        } else if(variant == 1) {
            t.detach();
            fut = Thread::Future<Tok>{}; // abandoned
        } else if(variant == 2) {
            if(fut->ready()) {
                Tok r = fut->block();
                MC_CHECK(r.full && r.v == 42, "ready future yields v=%d full=%d", r.v, r.full);
            }
            t.join();
            MC_CHECK(fut->ready(), "thread finished but the future is not ready");
        } else {
            t.detach();
            auto moved = rpp::move(fut);
            auto d = moved.dup();
            moved.clear();
            Tok r = d->block();
            MC_CHECK(r.full && r.v == 42, "future yields v=%d", r.v);
        }
    }
}
// spawn: runs the function exactly once with its arguments, the future yields the result, and the
// function object and result are destroyed exactly once
static void spawn(int variant) {
    if(variant == 0) {
        auto f = Thread::spawn([](Tok a, i32 b) {
            sched::add(0, 1);
            return Tok{a.v + b};
        }, Tok{5}, 7);
        Tok r = f->block();
        MC_CHECK(r.full && r.v == 12, "spawn yields %d", r.v);
        MC_CHECK(sched::get(0) == 1, "the function ran %lld times", (long long)sched::get(0));
    } else if(variant == 1) {
        auto f = Thread::spawn([t = Tok{1}] { sched::add(0, t.v); });
        auto g = Thread::spawn([t = Tok{16}] { sched::add(0, t.v); });
        g->block();
        MC_CHECK(sched::get(0) & 16, "block() returned before the function ran");
        f->block();
        MC_CHECK(sched::get(0) == 17, "functions ran %lld", (long long)sched::get(0));
    } else if(variant == 2) { // result never collected
        auto f = Thread::spawn([] { return Vec<i32>{1, 2, 3}; });
        (void)f;
    } else { // nested
        auto f = Thread::spawn([] {
            auto g = Thread::spawn([] { return Tok{3}; });
            Tok t = g->block();
            return t.v + 1;
        });
        i32 r = f->block();
        MC_CHECK(r == 4, "%d", r);
    }
}
// Thread objects: join waits for the function; the destructor joins; detach, move, move-assignment
static void threads(int variant) {
    u64 a = 0, b = 0; // plain: unsynchronised access is a race
    if(variant == 0) {
        Thread::Thread t([&a, k = Tok{1}] { a = k.v; });
        t.join();
        MC_CHECK(a == 1, "join returned before the function finished");
        a = 2;
    } else if(variant == 1) {
        Thread::Thread t([&a] { a = 1; });
        Thread::Thread u(rpp::move(t));
        u.join();
        MC_CHECK(a == 1, "join after move");
    } else if(variant == 2) {
        Thread::Thread t([&a] { a = 1; });
        t = Thread::Thread([&b] { b = 1; }); // joins the first
        MC_CHECK(a == 1, "assignment did not join the thread it replaced");
        t.join();
        MC_CHECK(b == 1, "join after assignment");
    } else if(variant == 3) {
        {
            Vec<Thread::Thread<>> v;
            v.push(Thread::Thread([&a] { a = 1; }));
            v.push(Thread::Thread([&b] { b = 1; }));
        }
        MC_CHECK(a == 1 && b == 1, "destructor did not join");
    } else {
        Thread::Flag f;
        {
            Thread::Thread t([&a, &f] {
                a = 1;
                f.signal();
            });
            t.detach();
        }
        f.block();
        MC_CHECK(a == 1, "detached thread's write");
        while(sched::live_threads() > 1) sched::yield(); // f is on this stack
    }
}
// several flags: a signal on one wakes nobody who blocks on another
static void flags(int n) {
    Thread::Flag f[10];
    u64 data[10] = {};
    {
        Vec<Thread::Thread<>> ts;
        for(int i = 0; i < n; i++)
            ts.push(Thread::Thread([&, i] {
                f[i].block();
                MC_CHECK(sched::get(20 + i), "woken by another flag's signal");
                MC_CHECK(data[i] == u64(i) + 1, "data written before the signal is not visible");
                if(i + 1 < n) {
                    MC_CHECK(!f[i + 1].ready() || sched::get(20 + i + 1), "ready without a signal");
                    data[i + 1] = u64(i) + 2;
                    sched::set(20 + i + 1, 1);
                    f[i + 1].signal();
                }
            }));
        data[0] = 1;
        sched::set(20, 1);
        f[0].signal();
        f[n - 1].block();
    }
    for(int i = 0; i < n; i++) MC_CHECK(f[i].ready(), "ready lost");
}
// many waiters on one future, each with its own handle
static void crowd(int n, bool drop_first) {
    {
        auto fut = Thread::Future<void>::make();
        u64 data = 0;
        Vec<Thread::Thread<>> ts;
        for(int i = 0; i < n; i++)
            ts.push(Thread::Thread([f = fut.dup(), &data]() mutable {
                f->block();
                MC_CHECK(sched::get(0) == 1, "block() returned before fill()");
                MC_CHECK(data == 7, "what was written before fill() is not visible");
                f.clear();
            }));
        Thread::Thread w([f = fut.dup(), &data]() mutable {
            data = 7;
            sched::set(0, 1);
            f->fill();
        });
        if(drop_first) fut.clear();
        else {
            fut->block();
            MC_CHECK(fut->ready(), "not ready after block");
        }
    }
}
// many spawned functions; results collected in any fixed order
static void spawn_many(int n, int order) {
    {
        Vec<Thread::Future<Tok>> fs;
        for(int i = 0; i < n; i++)
            fs.push(Thread::spawn([k = Tok{i}](Tok a) {
                MC_CHECK(sched::add(100 + k.v, 1) == 1, "function %d runs twice", k.v);
                return Tok{k.v * 10 + a.v};
            }, Tok{i + 1}));
        for(int j = 0; j < n; j++) {
            int i = order == 0 ? j : order == 1 ? n - 1 - j : (j * 3) % n;
            Tok r = fs[(u64)i]->block();
            MC_CHECK(r.full && r.v == i * 11 + 1, "future %d yields %d", i, r.v);
            MC_CHECK(sched::get(100 + i) == 1, "function %d did not run", i);
            if(order == 2) fs[(u64)i].clear();
        }
    }
}
// each thread starts the next
static void spawn_deep(int n) {
    struct Deep {
        static i64 go(int k) {
            if(!k) return 1;
            auto f = Thread::spawn([](int d) { return go(d); }, k - 1);
            return f->block() + 1;
        }
    };
    i64 r = Deep::go(n);
    MC_CHECK(r == n + 1, "%lld", (long long)r);
}
static i32 plus(i32 a, i32 b) {
    sched::add(0, 1);
    return a + b;
}
template<u64 N>
static void payload(u32 seed) {
    struct Big {
        u8 b[N];
    };
    Big b;
    for(u64 i = 0; i < N; i++) b.b[i] = (u8)(seed + i * 13 + (i >> 8));
    u64 bad = 0;
    auto f = Thread::spawn([b](Big c, const Big& d) {
        Big r;
        for(u64 i = 0; i < N; i++) {
            u8 w = b.b[i];
            r.b[i] = w == c.b[i] && w == d.b[i] ? (u8)(w ^ 0x5a) : 0;
        }
        return r;
    }, b, b);
    Big r = f->block();
    for(u64 i = 0; i < N; i++)
        if(r.b[i] != (u8)(b.b[i] ^ 0x5a)) bad++;
    MC_CHECK(!bad, "%llu of %llu bytes handed to and from a thread are wrong", (unsigned long long)bad, (unsigned long long)N);
    Thread::Thread t([b, &bad] {
        for(u64 i = 0; i < N; i++)
            if(b.b[i] != (u8)(b.b[0] + i * 13 + (i >> 8))) bad++;
    });
    t.join();
    MC_CHECK(!bad, "%llu of %llu captured bytes are wrong", (unsigned long long)bad, (unsigned long long)N);
}
static void payloads(mc::Ctx& c) {
    u32 k = c.choose(12, "size");
    switch(k) {
    case 0: payload<1>(3); break;
    case 1: payload<7>(5); break;
    case 2: payload<8>(7); break;
    case 3: payload<15>(9); break;
    case 4: payload<16>(11); break;
    case 5: payload<24>(13); break;
    case 6: payload<31>(2); break;
    case 7: payload<64>(4); break;
    case 8: payload<255>(6); break;
    case 9: payload<256>(8); break;
    case 10: payload<1000>(10); break;
    default: payload<10000>(12); break;
    }
    c.op("payload %u", k);
    c.state(k);
}
// every way of passing functions and arguments
static void forms(mc::Ctx& c) {
    u32 k = c.choose(11, "form");
    c.op("form %u", k);
    switch(k) {
    case 0: {
        auto f = Thread::spawn(plus, 3, 4);
        MC_CHECK(f->block() == 7 && sched::get(0) == 1, "function and values");
        break;
    }
    case 1: {
        auto f = Thread::spawn(&plus, -3, 4);
        MC_CHECK(f->block() == 1 && sched::get(0) == 1, "function pointer");
        break;
    }
    case 2: {
        i32 a = 5, b = 6;
        auto l = [](i32& x, const i32& y) {
            x++;
            return x * 100 + y;
        };
        auto f = Thread::spawn(l, a, b); // lvalues are copied: the caller's are not changed
        a = 50, b = 60;
        MC_CHECK(f->block() == 606 && a == 50 && b == 60, "lvalue arguments");
        break;
    }
    case 3: {
        Vec<i32> v{1, 2, 3};
        auto f = Thread::spawn([](Vec<i32> w) {
            w.push(4);
            return w;
        }, rpp::move(v));
        Vec<i32> r = f->block();
        MC_CHECK(v.empty() && r.length() == 4 && r[0] == 1 && r[3] == 4, "a vector there and back");
        break;
    }
    case 4: {
        auto f = Thread::spawn([](Box<Tok> b) { return Box<Tok>{b->v + 1}; }, Box<Tok>{8});
        Box<Tok> r = f->block();
        MC_CHECK(r->v == 9, "a box there and back");
        break;
    }
    case 5: {
        auto f = Thread::spawn([](i32 a, Tok b, i64 d, Tok e, u8 g) { return Pair<i64, Tok>{a + d + g, Tok{b.v * e.v}}; }, 1, Tok{6}, 1ll << 40, Tok{7}, (u8)255);
        auto r = f->block();
        MC_CHECK(r.first == (1ll << 40) + 256 && r.second.v == 42, "several arguments");
        break;
    }
    case 6: { // a callable with state that changes
        struct Count {
            Tok t{0};
            i32 operator()(i32 by) {
                t.v += by;
                return t.v;
            }
        };
        auto f = Thread::spawn(Count{}, 4);
        MC_CHECK(f->block() == 4, "mutable callable");
        break;
    }
    case 7: {
        Function<i32(i32)> g{[t = Box<i32>{5}](i32 x) { return x + *t; }};
        auto f = Thread::spawn(rpp::move(g), 6);
        MC_CHECK(f->block() == 11, "Function object");
        break;
    }
    case 8: { // the result is a future
        auto f = Thread::spawn([] { return Thread::spawn([] { return Tok{3}; }); });
        auto g = f->block();
        Tok r = g->block();
        MC_CHECK(r.v == 3, "future of a future");
        break;
    }
    case 9: { // ids
        Thread::Id ids[3] = {}, seen[3] = {};
        {
            Vec<Thread::Thread<>> ts;
            for(int i = 0; i < 3; i++) ts.push(Thread::Thread([&seen, i] { seen[i] = Thread::this_id(); }));
            for(int i = 0; i < 3; i++) ids[i] = ts[(u64)i].id();
        }
        for(int i = 0; i < 3; i++) {
            MC_CHECK(ids[i] == seen[i], "a thread's id differs inside and outside");
            for(int j = 0; j < i; j++) MC_CHECK(ids[i] != ids[j], "two running threads have one id");
            MC_CHECK(ids[i] != Thread::this_id(), "two running threads have one id");
        }
        break;
    }
    default: { // a default constructed and a moved-from thread need no join
        Thread::Thread<> none;
        u64 a = 0;
        none = Thread::Thread([&a, t = Tok{1}] { a++; });
        Thread::Thread<> other(rpp::move(none));
        none = rpp::move(other);
        other = rpp::move(none);
        other.join();
        MC_CHECK(a == 1, "ran %llu times", (unsigned long long)a);
    }
    }
    while(sched::live_threads() > 1) sched::yield();
    MC_CHECK(sched::get(1) == 0, "%lld objects were not destroyed exactly once", (long long)sched::get(1));
    c.state(k);
}
// a promise is filled through one handle after all others are gone, and by a thread that never saw the reader
static void hand_over(int n) {
    {
        Vec<Thread::Future<Tok>> a, b;
        for(int i = 0; i < n; i++) {
            a.push(Thread::Future<Tok>::make());
            b.push(a.back().dup());
        }
        Thread::Thread w([b = rpp::move(b)]() mutable {
            for(u64 i = b.length(); i-- > 0;) {
                b[i]->fill(Tok{(i32)i + 5});
                b.pop();
            }
        });
        Thread::Thread r([a = rpp::move(a)]() mutable {
            for(u64 i = 0; i < a.length(); i++) {
                if(i % 2) a[i].clear(); // nobody wants it
                else {
                    Tok t = a[i]->block();
                    MC_CHECK(t.full && t.v == (i32)i + 5, "future %llu yields %d", (unsigned long long)i, t.v);
                }
            }
        });
    }
}
static Opts delayed(int d, int dev = 0) {
    Opts o;
    o.delays = d;
    o.deviations = dev;
    return o;
}
static void settle() {
    while(sched::live_threads() > 1) sched::yield();
    MC_CHECK(sched::get(1) == 0, "%lld objects were not destroyed exactly once", (long long)sched::get(1));
}
static void with_tok(void (*f)(int), int v) {
    f(v);
    while(sched::live_threads() > 1) sched::yield();
    MC_CHECK(sched::get(1) == 0, "%lld objects were not destroyed exactly once", (long long)sched::get(1));
}

// ---- every small program over the handles of one future: a filler and two readers ----
enum Read { kReady, kBlock, kDupDrop, kReplace, kMoveOn, kLetGo, kReads };
static void future_programs(mc::Ctx& c, int na, int nb, Opts o) {
    int s[2][4], n[2] = {na, nb};
    for(int t = 0; t < 2; t++)
        for(int i = 0; i < n[t]; i++) {
            s[t][i] = (int)c.choose(kReads, "reader");
            if(s[t][i] == kLetGo) n[t] = i + 1;
        }
    int how = (int)c.choose(3, "filler");
    sched::run(c, o, [&] {
        {
            u64 data = 0; // plain: ordered by the future
            auto x = Thread::Future<i32>::make();
            auto y = Thread::Future<void>::make();
            auto reader = [&](int t, Thread::Future<i32> f) {
                bool known = false;
                for(int i = 0; i < n[t]; i++) {
                    switch(s[t][i]) {
                    case kReady: {
                        bool is = f->ready();
                        MC_CHECK(is || !known, "a future is no longer ready");
                        if(is) known = true;
                    } break;
                    case kBlock: {
                        i32 v = f->block();
                        MC_CHECK(v == 42, "a future yields %d", v);
                        known = true;
                    } break;
                    case kDupDrop: {
                        auto d = f.dup();
                        if(d->ready()) known = true;
                    } break;
                    case kReplace: f = f.dup(); break;
                    case kMoveOn: {
                        auto d = rpp::move(f);
                        MC_CHECK(!f.ok() && d.ok(), "a handle moved from is still there");
                        f = rpp::move(d);
                    } break;
                    default: f.clear(); return;
                    }
                    if(known) MC_CHECK(data == 7 && f->ready(), "ready before the data");
                }
            };
            Thread::Thread a([&, f = x.dup()]() mutable { reader(0, rpp::move(f)); });
            Thread::Thread b([&, f = x.dup()]() mutable { reader(1, rpp::move(f)); });
            data = 7;
            if(how == 0) x->fill(42);
            else if(how == 1) {
                auto d = x.dup();
                x.clear();
                d->fill(42);
                d.clear();
            } else {
                x->fill(42);
                x = Thread::Future<i32>{};
                y->fill();
                y->block();
                MC_CHECK(y->ready(), "a filled future is not ready");
            }
        }
        MC_CHECK(sched::live_threads() == 1, "threads outlive their handles");
    });
}
// ---- every small program over two thread handles ----
enum Step { kStartA, kStartB, kJoinA, kJoinB, kDetachA, kMoveAB, kMoveBA, kDropA, kThrough, kSteps };
static void thread_programs(mc::Ctx& c, int n, Opts o) {
    int s[8], a = -1, b = -1, threads = 0, k = 0;
    for(; k < n; k++) {
        int can[kSteps];
        u32 m = 0;
        if(threads < 3) can[m++] = kStartA, can[m++] = kStartB;
        if(a >= 0) can[m++] = kJoinA, can[m++] = kDetachA, can[m++] = kThrough;
        if(b >= 0) can[m++] = kJoinB;
        can[m++] = kMoveAB, can[m++] = kMoveBA, can[m++] = kDropA;
        s[k] = can[c.choose(m, "step")];
        switch(s[k]) {
        case kStartA: a = threads++; break;
        case kStartB: b = threads++; break;
        case kJoinA: case kDetachA: case kDropA: a = -1; break;
        case kJoinB: b = -1; break;
        case kMoveAB: b = a, a = -1; break;
        case kMoveBA: a = b, b = -1; break;
        }
    }
    sched::run(c, o, [&] {
        static u64 ran[4]; // plain: ordered by the join
        for(u64& r : ran) r = 0;
        {
            Thread::Thread<> ta, tb;
            int ia = -1, ib = -1, next = 0;
            auto start = [&] {
                int i = next++;
                return Thread::Thread([i, t = Tok{i}] {
                    MC_CHECK(t.full && t.v == i, "captured value");
                    ran[i]++;
                    MC_CHECK(sched::add(10 + i, 1) == 1, "a thread ran twice");
                });
            };
            auto joined = [&](int i) {
                if(i >= 0) MC_CHECK(ran[i] == 1, "thread %d was not joined", i);
            };
            for(int i = 0; i < n; i++) switch(s[i]) {
                case kStartA: { int old = ia; ia = next; ta = start(); joined(old); } break;
                case kStartB: { int old = ib; ib = next; tb = start(); joined(old); } break;
                case kJoinA: ta.join(); joined(ia); ia = -1; break;
                case kJoinB: tb.join(); joined(ib); ib = -1; break;
                case kDetachA: ta.detach(); ia = -1; break;
                case kMoveAB: { int old = ib; tb = rpp::move(ta); joined(old); ib = ia; ia = -1; } break;
                case kMoveBA: { int old = ia; ta = rpp::move(tb); joined(old); ia = ib; ib = -1; } break;
                case kDropA: { { Thread::Thread<> gone(rpp::move(ta)); } joined(ia); ia = -1; } break;
                case kThrough: { Thread::Thread<> other(rpp::move(ta)); ta = rpp::move(other); } break;
                }
            MC_CHECK(next == threads, "harness");
        }
        while(sched::live_threads() > 1) sched::yield();
        for(int i = 0; i < threads; i++) MC_CHECK(sched::get(10 + i) == 1, "thread %d did not run", i);
        MC_CHECK(sched::get(1) == 0, "%lld captured values were not destroyed exactly once", (long long)sched::get(1));
    });
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "T02";
    m.bounds = "2-4 threads; every interleaving (sleep-set reduction) where named full, preemption bound 3 (thorough 5) "
               "elsewhere, with up to one interrupted (EINTR) or spuriously woken wait; up to 11 threads with up to 2-3 (thorough 3-5) departures from round robin; 11 forms of passing functions, arguments and results; payloads of 1 to 10000 bytes; every program of two readers with 1-3 steps each over the handles of one future, and of 6 (thorough 7) steps over two thread handles, within preemption bound 2-3 (3-4)";
    m.assumptions = {"the futex system call behaves as documented (it is modelled by the explorer, EINTR included)",
                     "interleavings are sequentially consistent; missing ordering shows up as a data race",
                     "only the Linux implementation is explored"};
    m.add("flag-1w", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(4, 6), 1), [] { waiters(1, 1, true); }); }, 8);
    m.add("flag-2w", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(3, 4), 1), [] { waiters(2, 1, true); }); }, 8);
    m.add("flag-2w-2s", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(2, 3), 1), [] { waiters(2, 2, false); }); }, 8);
    m.add("flag-2w-full", [](mc::Ctx& c) { sched::run(c, full(), [] { waiters(2, 1, true); }); }, 8);
    m.add("flag-1w-2s-full", [](mc::Ctx& c) { sched::run(c, full(), [] { waiters(1, 2, true); }); }, 8);
    m.add("flag-3w-full", [](mc::Ctx& c) { sched::run(c, full(), [] { waiters(3, 1, false); }); }, 8, true);
    m.add("flag-2w-once-full", [](mc::Ctx& c) { sched::run(c, full(), [] { waiters(2, 1, false, false); }); }, 8);
    m.add("flag-3w-once", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(2, 3), 1), [] { waiters(3, 1, false, false); }); }, 8);
    m.add("chain-full", [](mc::Ctx& c) { sched::run(c, full(), [] { chain(); }); }, 8);
    for(int v = 0; v < 4; v++)
        m.add("future-" + std::to_string(v), [v](mc::Ctx& c) { sched::run(c, bounded(c.tier(4, 6), 1), [v] { with_tok(future, v); }); }, 8);
    for(int v = 0; v < 4; v++)
        m.add("spawn-" + std::to_string(v), [v](mc::Ctx& c) { sched::run(c, bounded(c.tier(3, 4), 0), [v] { with_tok(spawn, v); }); }, 8);
    for(int v = 0; v < 5; v++)
        m.add("thread-" + std::to_string(v), [v](mc::Ctx& c) { sched::run(c, bounded(c.tier(4, 6), 0), [v] { with_tok(threads, v); }); }, 8);
    m.add("flags-3", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(3, 4), 1), [] { flags(3); }); }, 8);
    m.add("future-programs", [](mc::Ctx& c) { future_programs(c, c.tier(2, 3), 2, bounded(c.tier(2, 2))); }, 3);
    m.add("future-programs-1", [](mc::Ctx& c) { future_programs(c, 3, 1, bounded(c.tier(2, 3))); }, 3);
    m.add("thread-programs", [](mc::Ctx& c) { thread_programs(c, c.tier(6, 7), bounded(c.tier(3, 4))); }, 3);
    m.add("forms", [](mc::Ctx& c) {
        auto* cp = &c;
        sched::run(c, bounded(c.tier(2, 3), 0), [cp] { forms(*cp); });
    }, 4);
    m.add("payloads", [](mc::Ctx& c) {
        auto* cp = &c;
        sched::run(c, bounded(c.tier(1, 2), 0), [cp] { payloads(*cp); });
    }, 4);
    m.add("hand-over", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(4, 6), 1), [] { hand_over(2); settle(); }); }, 8);
    // many threads
    m.add("flag-10w", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 3), 1), [] { waiters(10, 1, true); }); }, 6);
    m.add("flag-5w-4s", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 4), 2), [] { waiters(5, 4, false); }); }, 6);
    m.add("flags-10", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 4), 1), [] { flags(10); }); }, 6);
    m.add("crowd-9", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 4), 1), [] { crowd(9, false); }); }, 6);
    m.add("crowd-9-drop", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 4), 1), [] { crowd(9, true); }); }, 6);
    for(int v = 0; v < 3; v++)
        m.add("spawn-many-" + std::to_string(v), [v](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 3), 0), [v] { spawn_many(10, v); settle(); }); }, 6);
    m.add("spawn-deep", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 4), 0), [] { spawn_deep(9); }); }, 6);
    m.add("hand-over-8", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(3, 5), 1), [] { hand_over(8); settle(); }); }, 6);
    return m.run(argc, argv);
}
