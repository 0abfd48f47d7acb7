// Async::Task: completion, awaiting, blocking, abandonment and chaining of coroutines under every
// interleaving, with hand-driven resumption instead of the pool.
#include "ilv.h"
#include "plan.h"
#include <rpp/base.h>
#include <rpp/async.h>
#include <rpp/thread.h>
#include <rpp/vec.h>
using namespace rpp;
using sched::Opts;
template<typename R>
using Task = Async::Task<R>;

static Opts full() {
    Opts o;
    o.preempt = -1;
    return o;
}
static Opts bounded(int p) {
    Opts o;
    o.preempt = p;
    return o;
}
// reg 1: live values; reg 10+i: progress counters
struct Tok {
    i32 v = 0;
    bool full = false;
    Tok() noexcept {
        sched::add(1, 1);
    }
    explicit Tok(i32 v) noexcept : v(v), full(true) {
        sched::add(1, 1);
    }
    Tok(Tok&& o) noexcept : v(o.v), full(o.full) {
        o.full = false;
        sched::add(1, 1);
    }
    Tok& operator=(Tok&& o) noexcept {
        v = o.v;
        full = o.full;
        o.full = false;
        return *this;
    }
    ~Tok() noexcept {
        v = -1;
        sched::add(1, -1);
    }
};
// A gate: co_await gate parks the coroutine; pass() resumes whoever is parked (waits for it if
// nobody is parked yet).
struct Gate {
    Thread::Mutex m;
    Thread::Cond c;
    std::coroutine_handle<> h = null;
    bool await_ready() noexcept {
        return false;
    }
    void await_resume() noexcept {
    }
    void await_suspend(std::coroutine_handle<> task) noexcept {
        Thread::Lock l(m);
        h = task;
        c.signal();
    }
    void pass() {
        std::coroutine_handle<> x;
        {
            Thread::Lock l(m);
            while(!h) c.wait(m);
            x = h;
            h = null;
        }
        x.resume();
    }
};
static void done(int i) {
    MC_CHECK(sched::add(10 + i, 1) == 1, "part %d ran twice", i);
}
static bool ran(int i) {
    return sched::get(10 + i) == 1;
}

// a large copyable result
struct Wide {
    i32 v[300] = {};
    Wide() = default;
    explicit Wide(i32 x) {
        for(int i = 0; i < 300; i++) v[i] = x + i;
    }
    bool is(i32 x) const {
        for(int i = 0; i < 300; i++)
            if(v[i] != x + i) return false;
        return true;
    }
};

static Task<Tok> leaf(Gate& g, i32 v) {
    co_await g;
    done(0);
    co_return Tok{v};
}
static Task<void> leaf_void(Gate& g, u64& out) {
    co_await g;
    done(0);
    out = 7; // plain write: must be visible to whoever waited
}
static Task<Tok> two_step(Gate& g, i32 v) {
    Tok local{v};
    co_await g;
    co_await g;
    done(5);
    co_return rpp::move(local);
}
static Task<Tok> numbered(Gate& g, i32 i) {
    co_await g;
    done(20 + i);
    co_return Tok{i + 1};
}
static Task<i32> awaiter(Task<Tok> inner, int id) {
    Tok t = co_await inner;
    MC_CHECK(t.full && t.v == 5, "awaited value v=%d full=%d", t.v, t.full);
    done(id);
    co_return t.v + 1;
}
static Task<i32> awaiter2(Gate& g1, Gate& g2) {
    auto a = leaf(g1, 5);
    auto b = two_step(g2, 5);
    Tok x = co_await a;
    Tok y = co_await b;
    done(3);
    co_return x.v + y.v;
}

static void run_case(int v) {
    Gate g, g2;
    switch(v) {
    case 0: { // block() for the result
        auto t = leaf(g, 5);
        Thread::Thread w([&] { g.pass(); });
        Tok r = t.block();
        MC_CHECK(r.full && r.v == 5 && ran(0), "block() yields v=%d full=%d", r.v, r.full);
    } break;
    case 1: { // dropped while it may be completing
        Thread::Thread w([&] { g.pass(); });
        {
            auto t = leaf(g, 5);
        }
        w.join();
        MC_CHECK(ran(0), "a dropped task still runs to completion");
    } break;
    case 2: { // awaited by a coroutine on this thread while another completes it
        auto t = leaf(g, 5);
        Thread::Thread w([&] { g.pass(); });
        auto o = awaiter(rpp::move(t), 1);
        i32 r = o.block();
        MC_CHECK(r == 6 && ran(0) && ran(1), "outer yields %d", r);
    } break;
    case 3: { // the awaiting coroutine is dropped
        auto t = leaf(g, 5);
        Thread::Thread w([&] { g.pass(); });
        {
            auto o = awaiter(rpp::move(t), 1);
        }
        w.join();
        MC_CHECK(ran(0) && ran(1), "both coroutines run to completion");
    } break;
    case 4: { // polling
        auto t = leaf(g, 5);
        MC_CHECK(t.ok() && !t.done(), "done before it ran");
        Thread::Thread w([&] { g.pass(); });
        if(t.done()) {
            MC_CHECK(ran(0), "done() before completion");
            Tok r = t.block();
            MC_CHECK(r.full && r.v == 5, "value");
        }
        w.join();
        MC_CHECK(t.done(), "not done after the resuming thread finished");
    } break;
    case 5: { // void task; data written before completion is visible
        u64 x = 0;
        auto t = leaf_void(g, x);
        Thread::Thread w([&] { g.pass(); });
        auto u = rpp::move(t);
        MC_CHECK(!t.ok() && u.ok(), "moved-from task");
        u.block();
        MC_CHECK(x == 7, "write not visible");
        w.join();
    } break;
    case 6: { // replaced by assignment while completing
        Thread::Thread w([&] { g.pass(); });
        Thread::Thread w2([&] { g2.pass(); g2.pass(); });
        auto t = leaf(g, 5);
        t = two_step(g2, 9);
        w.join();
        MC_CHECK(ran(0), "first task");
        Tok r = t.block();
        MC_CHECK(r.v == 9 && ran(5), "v=%d", r.v);
    } break;
    case 7: { // then()
        Thread::Thread w([&] { g.pass(); });
        auto t = leaf(g, 5);
        auto n = t.then([](Tok x) -> Task<i32> {
            done(2);
            co_return x.v * 2;
        });
        i32 r = n.block();
        MC_CHECK(r == 10 && ran(2), "then yields %d", r);
        w.join();
    } break;
    case 8: { // two children, two threads, one parent awaiting both
        Thread::Thread w([&] { g.pass(); });
        Thread::Thread w2([&] { g2.pass(); g2.pass(); });
        auto o = awaiter2(g, g2);
        i32 r = o.block();
        MC_CHECK(r == 10 && ran(3), "yields %d", r);
        w.join();
        w2.join();
    } break;
    case 9: { // a chain of three awaiters completed from another thread, outermost dropped or blocked on
        auto t = leaf(g, 5);
        Thread::Thread w([&] { g.pass(); });
        auto outer = [](Task<i32> in, int id) -> Task<i32> {
            i32 v = co_await in;
            done(id);
            co_return v + 1;
        };
        auto mid = outer(awaiter(rpp::move(t), 1), 4);
        auto o = outer(mid.then([](i32 x) -> Task<i32> {
            done(6);
            co_return x;
        }), 7);
        i32 r = o.block();
        MC_CHECK(r == 8, "chain yields %d", r);
        MC_CHECK(ran(1) && ran(4) && ran(6) && ran(7), "a link was skipped");
        w.join();
    } break;
    case 10: { // the task object travels to another thread which collects the result
        Thread::Thread w([&] { g.pass(); });
        auto t = leaf(g, 5);
        Thread::Thread c([t = rpp::move(t)]() mutable {
            Tok r = t.block();
            MC_CHECK(r.v == 5 && r.full, "v=%d", r.v);
        });
        w.join();
    } break;
    case 11: { // suspended forever, resumed by hand through the task
        auto co = []() -> Task<i32> {
            co_await Async::Suspend{};
            done(0);
            co_await Async::Suspend{};
            done(1);
            co_return 3;
        };
        auto t = co();
        MC_CHECK(!t.done() && !ran(0), "ran too far");
        t.resume();
        MC_CHECK(!t.done() && ran(0) && !ran(1), "ran too far");
        Thread::Thread w([&] { t.resume(); });
        i32 r = t.block();
        MC_CHECK(r == 3 && ran(1), "%d", r);
        w.join();
        auto e = []() -> Task<i32> { co_return 4; }();
        MC_CHECK(e.done() && e.block() == 4, "eager");
    } break;
    case 12: { // then() after a task without a result
        u64 x = 0;
        Thread::Thread w([&] { g.pass(); });
        auto t = leaf_void(g, x);
        auto n = t.then([&x]() -> Task<i32> {
            done(2);
            u64 seen = x;
            co_return (i32)seen * 2;
        });
        auto o = n.then([&x](i32 v) -> Task<void> {
            done(3);
            x = (u64)v + 1;
            co_return;
        });
        o.block();
        MC_CHECK(x == 15 && ran(2) && ran(3), "then yields %llu", (unsigned long long)x);
        w.join();
    } break;
    case 13: { // a continuation with values of its own, given as a temporary and as a variable
        auto t = leaf(g, 5);
        auto n = t.then([own = Tok{30}](Tok x) -> Task<i32> {
            done(2);
            MC_CHECK(own.full && own.v == 30, "the continuation holds v=%d full=%d", own.v, own.full);
            co_return x.v + own.v;
        });
        auto f = [own = Tok{40}](i32 x) -> Task<i32> {
            MC_CHECK(own.full && own.v == 40, "the second continuation holds v=%d full=%d", own.v, own.full);
            co_return x + own.v;
        };
        auto o = n.then(f);
        Thread::Thread w([&] { g.pass(); });
        i32 r = o.block();
        MC_CHECK(r == 75 && ran(2) && true, "then yields %d", r);
        w.join();
    } break;
    case 14: { // results of many kinds, moved and copied into place
        auto wide = [](Gate& g, i32 v) -> Task<Wide> {
            Wide local{v};
            co_await g;
            const Wide& fixed = local;
            co_return fixed;
        };
        auto tiny = [](Gate& g, i32 v) -> Task<u8> {
            const u8 fixed = (u8)v;
            co_await g;
            co_return fixed;
        };
        auto a = wide(g, 5);
        auto b = tiny(g2, 200);
        Thread::Thread w([&] { g.pass(); });
        Thread::Thread w2([&] { g2.pass(); });
        Wide r = a.block();
        MC_CHECK(r.is(5), "a wide result differs");
        MC_CHECK(b.block() == 200, "a small result differs");
        w.join();
        w2.join();
    } break;
    case 15: { // a chain of 24 awaiters
        auto outer = [](Task<i32> in, int id) -> Task<i32> {
            i32 v = co_await in;
            done(id);
            co_return v + 1;
        };
        Thread::Thread w([&] { g.pass(); });
        auto o = awaiter(leaf(g, 5), 20);
        for(int i = 1; i < 24; i++) o = outer(rpp::move(o), 20 + i);
        i32 r = o.block();
        MC_CHECK(r == 29, "chain yields %d", r);
        for(int i = 0; i < 24; i++) MC_CHECK(ran(20 + i), "link %d was skipped", i);
        w.join();
    } break;
    case 16: { // six tasks on three threads, collected in order by one coroutine
        constexpr int N = 6;
        Gate gs[N];
        Vec<Task<Tok>> ts;
        for(int i = 0; i < N; i++) ts.push(numbered(gs[i], i));
        auto all = [](Vec<Task<Tok>> ts) -> Task<i32> {
            i32 sum = 0;
            for(auto& t : ts) {
                Tok x = co_await t;
                MC_CHECK(x.full, "an awaited value is gone");
                sum = sum * 10 + x.v;
            }
            done(1);
            co_return sum;
        };
        Thread::Thread w([&] { gs[0].pass(), gs[3].pass(); });
        Thread::Thread w2([&] { gs[4].pass(), gs[1].pass(); });
        Thread::Thread w3([&] { gs[5].pass(), gs[2].pass(); });
        auto o = all(rpp::move(ts));
        i32 r = o.block();
        MC_CHECK(r == 123456 && ran(1), "the sum is %d", r);
        for(int i = 0; i < N; i++) MC_CHECK(ran(20 + i), "task %d", i);
        w.join();
        w2.join();
        w3.join();
    } break;
    }
}
// ---- every small program: a tree of coroutines, each with up to two steps that start another one ----
// A door: a coroutine that arrives before it is opened waits, and goes on in the thread that opens it.
struct Door {
    Thread::Mutex m;
    std::coroutine_handle<> h = null;
    bool opened = false;
    bool await_ready() noexcept {
        return false;
    }
    void await_resume() noexcept {
    }
    bool await_suspend(std::coroutine_handle<> task) noexcept {
        Thread::Lock l(m);
        if(opened) return false;
        h = task;
        return true;
    }
    void open() {
        std::coroutine_handle<> x;
        {
            Thread::Lock l(m);
            opened = true;
            x = h;
            h = null;
        }
        if(x) x.resume();
    }
};
struct World : mc::Planned {
    Door door[12];
    Door& pass(int i) {
        return door[i];
    }
};
static void program(const mc::Plan& plan, int root, int order, int workers) {
    World w;
    w.p = plan;
    auto worker = [&w, order, workers](int first) {
        for(int i = first; i < w.p.doors; i += workers) w.door[order ? w.p.doors - 1 - i : i].open();
    };
    {
        Thread::Thread a([&worker] { worker(0); });
        Thread::Thread<> b;
        if(workers == 2) b = Thread::Thread([&worker] { worker(1); });
        auto t = mc::node(w, 0);
        i32 got = -1;
        switch(root) {
        case 0: got = t.block().v; break;
        case 1: t = Task<mc::Value>{}; break;
        case 2: {
            bool was = t.done();
            if(was) MC_CHECK(mc::planned_ran(0), "done before its end");
            auto u = rpp::move(t);
            got = u.block().v;
            MC_CHECK(!was || u.done(), "no longer done");
        } break;
        case 3: {
            auto u = [](Task<mc::Value> t) -> Task<i32> { co_return (co_await t).v; }(rpp::move(t));
            got = u.block();
        } break;
        case 4: {
            auto u = [](Task<mc::Value> t) -> Task<i32> { co_return (co_await t).v; }(rpp::move(t));
        } break;
        }
        if(got >= 0) MC_CHECK(got == plan.want(0), "the program returned %d, not %d", got, plan.want(0));
    }
    for(int k = 0; k < plan.nodes; k++) MC_CHECK(mc::planned_ran(k), "coroutine %d did not end", k);
}
static void programs(mc::Ctx& c, int shape, int workers, Opts o) {
    mc::Plan p;
    mc::grow(c, p, 0, shape);
    int root = (int)c.choose(5, "root"), order = p.doors > 1 ? (int)c.choose(2, "order of doors") : 0;
    c.op("program %llx root %d order %d", (unsigned long long)p.hash(), root, order);
    sched::run(c, o, [&p, root, order, workers] {
        program(p, root, order, workers);
        MC_CHECK(sched::get(699) == 0, "%lld values were not destroyed exactly once", (long long)sched::get(699));
    });
}
// A thing that owns the task of a coroutine that in turn keeps the thing alive.
struct Owner {
    Tok t{1};
    Task<void> task;
    Task<Tok> result;
    Opt<Task<void>> maybe;
    Vec<Task<void>> several;
};
static Task<void> keeps(Arc<Owner> self, Gate& g, int id) {
    co_await g;
    done(id);
    MC_CHECK(self->t.full, "the owner is gone");
}
static Task<Tok> keeps_value(Arc<Owner> self, Gate& g, int id) {
    co_await g;
    done(id);
    co_return Tok{self->t.v};
}
static void owner(int slot, bool late) {
    Gate g;
    Arc<Owner> o = Arc<Owner>::make();
    Owner* raw = &*o;
    switch(slot) {
    case 0: o->task = keeps(o.dup(), g, 0); break;
    case 1: o->result = keeps_value(o.dup(), g, 0); break;
    case 2: o->maybe = Opt<Task<void>>{keeps(o.dup(), g, 0)}; break;
    case 3: o->several.push(keeps(o.dup(), g, 0)); break;
    }
    auto stop = [&] {
        switch(slot) {
        case 0: raw->task = Task<void>{}; break;
        case 1: raw->result = Task<Tok>{}; break;
        case 2: raw->maybe = Opt<Task<void>>{}; break;
        case 3: { auto t = rpp::move(raw->several[0]); raw->several.pop(); } break;
        }
    };
    if(late) { // the coroutine ends first: stopping it ends the owner
        Thread::Thread w([&] { g.pass(); });
        {
            auto mine = rpp::move(o);
            w.join();
        }
        MC_CHECK(sched::get(1) >= 1 && ran(0), "the owner is gone before its coroutine");
        stop();
    } else { // stopping it races with its end: whoever is last ends the owner
        Thread::Thread w([&] { g.pass(); });
        stop();
        w.join();
        MC_CHECK(ran(0), "the coroutine did not end");
        MC_CHECK(o->t.full, "the owner is gone");
    }
}
static void with_owner(int slot, bool late) {
    owner(slot, late);
    MC_CHECK(sched::get(1) == 0, "%lld values were not destroyed exactly once", (long long)sched::get(1));
}
static void with(int v) {
    run_case(v);
    MC_CHECK(sched::get(1) == 0, "%lld values were not destroyed exactly once", (long long)sched::get(1));
}

int main(int argc, char** argv) {
    mc::Main m;
    m.property = "T04";
    m.bounds = "1-5 coroutines (one chain of 25), 2-4 threads, 25 usage patterns; every interleaving (sleep-set reduction) for the two-thread "
               "patterns, preemption bound 4 (thorough 6) for the three-thread ones, 3 (5) for the chain, delay bound 2 (3) for six tasks on four threads; every tree of up to 4 coroutines, each started and then awaited, awaited later, moved, polled, continued, replaced or dropped (8 ways) with waits in between, with one other thread (every interleaving) or two (preemption bound 1, thorough 2)";
    m.assumptions = {"interleavings are sequentially consistent; missing ordering shows up as a data race",
                     "a task has at most one awaiter and is not dropped while awaited (documented contract)"};
    m.add("case-15", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(3, 5)), [] { with(15); }); }, 2);
    m.add("case-16", [](mc::Ctx& c) {
        Opts o;
        o.delays = c.tier(2, 3);
        sched::run(c, o, [] { with(16); });
    }, 2);
    m.add("programs-1-full", [](mc::Ctx& c) { programs(c, 0, 1, full()); }, 6);
    m.add("programs-2", [](mc::Ctx& c) { programs(c, 0, 2, bounded(c.tier(1, 2))); }, 6);
    for(int slot = 0; slot < 4; slot++)
        for(int late = 0; late < 2; late++)
            m.add("owner-" + std::to_string(slot) + (late ? "-late" : ""), [slot, late](mc::Ctx& c) { sched::run(c, full(), [slot, late] { with_owner(slot, late); }); });
    for(int v = 0; v < 15; v++) {
        bool three = v == 6 || v == 8 || v == 10 || v == 14;
        std::string n = "case-" + std::to_string(v);
        if(!three) m.add(n + "-full", [v](mc::Ctx& c) { sched::run(c, full(), [v] { with(v); }); }, 6);
        else m.add(n, [v](mc::Ctx& c) { sched::run(c, bounded(c.tier(4, 6)), [v] { with(v); }); }, 8);
    }
    return m.run(argc, argv);
}
