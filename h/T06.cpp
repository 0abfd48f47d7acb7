// Async::Event, pool events and timed waits under the interleavings of 2-5 threads.
#include "ilv.h"
#include "plan.h"
#include <rpp/base.h>
#include <rpp/async.h>
#include <rpp/asyncio.h>
#include <rpp/pool.h>
#include <rpp/thread.h>
#include <rpp/vec.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
using namespace rpp;
using sched::Opts;
using Async::Event;
template<typename R>
using Task = Async::Task<R>;
using TPool = Async::Pool<>;

// reg 0..7: event i has been signalled; reg 9: highest thread of the pool; reg 10+id: completions
static void done(int id) {
    MC_CHECK(sched::add(10 + id, 1) == 1, "part %d ran twice", id);
}
static i64 ran(int id) {
    return sched::get(10 + id);
}
static void fire(const Event& e, int i) {
    sched::set(i, 1);
    e.signal();
}
static void on_pool() {
    MC_CHECK(sched::self() > 0 && sched::self() <= sched::get(9), "resumed on T%d, which is not the pool's", sched::self());
}

// --- events without a pool
static void events(int v) {
    if(v == 0) { // wait_any returns a signalled event, whichever, and does not consume it
        Vec<Event> es;
        for(u64 i = 0; i < 3; i++) es.push(Event{});
        for(u64 i = 0; i < 3; i++) MC_CHECK(!es[i].try_wait(), "event %llu is signalled from the start", (unsigned long long)i);
        {
            Thread::Thread a([&] { fire(es[1], 1); });
            Thread::Thread b([&] { fire(es[2], 2); });
            u64 i = Event::wait_any(es.slice());
            MC_CHECK(i < 3 && sched::get((int)i), "wait_any reports event %llu, which was not signalled", (unsigned long long)i);
            MC_CHECK(es[i].try_wait(), "the event is no longer signalled");
            u64 j = Event::wait_any(es.slice());
            MC_CHECK(j < 3 && sched::get((int)j), "wait_any reports event %llu, which was not signalled", (unsigned long long)j);
            es[i].reset();
            MC_CHECK(!es[i].try_wait(), "signalled after reset");
            u64 k = Event::wait_any(es.slice());
            MC_CHECK(k != i && sched::get((int)k), "wait_any reports event %llu", (unsigned long long)k);
        }
        MC_CHECK(!es[0].try_wait(), "event 0");
    } else if(v == 1) { // signals coalesce; reset of an unsignalled event is harmless
        Event e;
        e.reset();
        MC_CHECK(!e.try_wait(), "signalled");
        Thread::Thread a([&] { fire(e, 0); });
        fire(e, 0);
        a.join();
        MC_CHECK(e.try_wait() && e.try_wait(), "not signalled");
        e.reset();
        MC_CHECK(!e.try_wait(), "still signalled");
        e.reset();
        fire(e, 0);
        MC_CHECK(e.try_wait(), "not signalled again");
    } else if(v == 2) { // moves
        Event e;
        Event f = rpp::move(e);
        Event g;
        g.signal();
        g = rpp::move(f);
        MC_CHECK(!g.try_wait(), "state follows the move");
        Thread::Thread a([&] { fire(g, 0); });
        Event* p = &g;
        u64 i = Event::wait_any(Slice<Event>{p, 1});
        MC_CHECK(i == 0 && sched::get(0), "woken early");
        a.join();
    } else if(v == 3) { // two waiters on one event
        Event e;
        Thread::Thread a([&] {
            u64 i = Event::wait_any(Slice<Event>{&e, 1});
            MC_CHECK(i == 0 && sched::get(0), "woken early");
        });
        Thread::Thread b([&] { fire(e, 0); });
        u64 i = Event::wait_any(Slice<Event>{&e, 1});
        MC_CHECK(i == 0 && sched::get(0), "woken early");
    } else { // ping-pong: each round waits for the other side
        Event ping, pong;
        Thread::Thread a([&] {
            for(int r = 0; r < 2; r++) {
                Event::wait_any(Slice<Event>{&ping, 1});
                MC_CHECK(sched::get(0) == r + 1, "round %d: woken early", r);
                ping.reset();
                sched::set(1, r + 1);
                pong.signal();
            }
        });
        for(int r = 0; r < 2; r++) {
            sched::set(0, r + 1);
            ping.signal();
            Event::wait_any(Slice<Event>{&pong, 1});
            MC_CHECK(sched::get(1) == r + 1, "round %d: woken early", r);
            pong.reset();
        }
    }
}

// --- coroutines waiting for events on a pool
static i32 raw_event() {
    return eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
}
static void raw_fire(i32 fd, int i) {
    sched::set(i, 1);
    u64 one = 1;
    MC_CHECK(::write(fd, &one, 8) == 8, "harness");
}
static Task<i32> on_event(TPool& pool, i32 fd, int i) {
    bool before = sched::get(i);
    co_await pool.event(Event::of_sys(fd, EPOLLIN));
    MC_CHECK(sched::get(i), "coroutine %d resumed before its event was signalled", i);
    if(!before && sched::self() != 0) on_pool();
    done(i);
    co_return i;
}
static Task<void> timed(TPool& pool, u64 ms, int id) {
    u64 t0 = sched::now_ns();
    co_await Async::wait(pool, ms);
    u64 dt = sched::now_ns() - t0;
    MC_CHECK(dt >= ms * 1000000, "a wait of %llu ms resumed after %llu ns", (unsigned long long)ms, (unsigned long long)dt);
    done(id);
}
static Task<i32> then_hop(TPool& pool, i32 fd, int i) {
    co_await pool.event(Event::of_sys(fd, EPOLLIN));
    co_await pool.suspend();
    on_pool();
    done(i);
    co_return i;
}

// Every small program: a tree of coroutines whose steps wait for events.
struct World : mc::Planned {
    TPool& pool;
    i32 fd[12];
    World(TPool& pool, const mc::Plan& plan) : pool(pool) {
        p = plan;
        for(int i = 0; i < p.doors; i++) fd[i] = raw_event();
    }
    auto pass(int i) {
        struct Wait {
            decltype(pool.event(Event{})) e;
            int i;
            bool await_ready() noexcept {
                return e.await_ready();
            }
            void await_suspend(std::coroutine_handle<> h) noexcept {
                e.await_suspend(h);
            }
            void await_resume() noexcept {
                e.await_resume();
                MC_CHECK(sched::get(400 + i), "a coroutine goes on before its event");
            }
        };
        return Wait{pool.event(Event::of_sys(fd[i], EPOLLIN)), i};
    }
};
static void program(const mc::Plan& plan, int root, int order) {
    {
        sched::relax(true);
        TPool pool;
        sched::relax(false);
        World w(pool, plan);
        auto open_all = [&] {
            for(int i = 0; i < plan.doors; i++) {
                int k = order ? plan.doors - 1 - i : i;
                raw_fire(w.fd[k], 400 + k);
            }
        };
        if(root == 2) open_all();
        {
            auto t = mc::node(w, 0);
            if(root == 0) {
                Thread::Thread a([&] { open_all(); });
                int v = t.block().v;
                MC_CHECK(v == plan.want(0), "the program returned %d, not %d", v, plan.want(0));
            }
        }
        if(root == 1) open_all();
        while(true) { // the pool may go only when nobody waits; a lost wake-up is reported as a livelock
            int n = 0;
            for(int k = 0; k < plan.nodes; k++) n += mc::planned_ran(k);
            if(n == plan.nodes) break;
            sched::yield();
        }
    }
    MC_CHECK(sched::get(699) == 0, "%lld values were not destroyed exactly once", (long long)sched::get(699));
}
static void pooled(int v) {
    {
        sched::relax(true);
        TPool pool;
        sched::relax(false);
        sched::set(9, sched::live_threads() - 1);
        switch(v) {
        case 0: { // one event, signalled by this thread
            i32 fd = raw_event();
            auto t = on_event(pool, fd, 1);
            raw_fire(fd, 1);
            MC_CHECK(t.block() == 1 && ran(1) == 1, "result");
        } break;
        case 1: { // two events, signalled in the other order
            i32 a = raw_event(), b = raw_event();
            auto x = on_event(pool, a, 1), y = on_event(pool, b, 2);
            raw_fire(b, 2);
            MC_CHECK(y.block() == 2 && ran(2) == 1 && ran(1) == 0, "second");
            raw_fire(a, 1);
            MC_CHECK(x.block() == 1 && ran(1) == 1, "first");
        } break;
        case 2: { // three events: the slot of a finished one is reused
            i32 f[3];
            for(auto& x : f) x = raw_event();
            auto a = on_event(pool, f[0], 1), b = on_event(pool, f[1], 2), c = on_event(pool, f[2], 3);
            raw_fire(f[1], 2);
            MC_CHECK(b.block() == 2, "second");
            raw_fire(f[2], 3);
            raw_fire(f[0], 1);
            MC_CHECK(c.block() == 3 && a.block() == 1, "others");
        } break;
        case 3: { // signalled before the coroutine waits
            i32 fd = raw_event();
            raw_fire(fd, 1);
            auto t = on_event(pool, fd, 1);
            MC_CHECK(t.block() == 1, "result");
        } break;
        case 4: { // signalled and registered from different threads
            i32 a = raw_event(), b = raw_event();
            Thread::Thread s([&] { raw_fire(a, 1); });
            auto x = on_event(pool, a, 1);
            auto y = on_event(pool, b, 2);
            raw_fire(b, 2);
            MC_CHECK(x.block() == 1 && y.block() == 2, "results");
            s.join();
        } break;
        case 5: { // timers: never early, none lost
            auto a = timed(pool, 5, 1);
            auto b = timed(pool, 1, 2);
            a.block();
            b.block();
            MC_CHECK(ran(1) == 1 && ran(2) == 1, "timers");
        } break;
        case 6: {
            auto a = timed(pool, 0, 1);
            a.block();
            auto b = timed(pool, 1500, 2);
            b.block();
            auto l = timed(pool, 5'000'000'123, 3);
            l.block();
        } break;
        case 7: { // event, then a hop
            i32 fd = raw_event();
            auto t = then_hop(pool, fd, 1);
            raw_fire(fd, 1);
            MC_CHECK(t.block() == 1, "result");
        } break;
        case 8: { // timer and event together, and a plain job
            i32 fd = raw_event();
            auto t = timed(pool, 2, 2);
            auto x = on_event(pool, fd, 1);
            raw_fire(fd, 1);
            MC_CHECK(x.block() == 1, "result");
            t.block();
        } break;
        case 9: { // the tasks are dropped; the events still resume them
            i32 fd = raw_event();
            on_event(pool, fd, 1);
            raw_fire(fd, 1);
            while(ran(1) == 0) sched::yield();
        } break;
        }
    }
    MC_CHECK(sched::live_threads() == 1, "threads outlive the pool");
}

// n events pending at once, signalled in several orders. reg 100+i: signalled; 200+i: resumed
static Task<i32> waits(TPool& pool, i32 fd, int i) {
    co_await pool.event(Event::of_sys(fd, EPOLLIN));
    MC_CHECK(sched::get(100 + i), "coroutine %d resumed before its event was signalled", i);
    MC_CHECK(sched::add(200 + i, 1) == 1, "coroutine %d resumed twice", i);
    co_return i;
}
static void many(int n, int order, int rounds) {
    {
        sched::relax(true);
        TPool pool;
        sched::relax(false);
        for(int r = 0; r < rounds; r++) {
            Vec<Task<i32>> ts;
            Vec<i32> fds;
            for(int i = 0; i < n; i++) {
                sched::set(100 + i, 0);
                sched::set(200 + i, 0);
                fds.push(raw_event());
                ts.push(waits(pool, fds[(u64)i], i));
            }
            for(int k = 0; k < n; k++) {
                int i = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k % 2 ? n - 1 - k / 2 : k / 2) : (k * 7 + 3) % n;
                if(order == 3 && n % 7 == 0) i = k;
                sched::set(100 + i, 1);
                u64 one = 1;
                MC_CHECK(::write(fds[(u64)i], &one, 8) == 8, "harness");
                if(k % 3 != 1) MC_CHECK(ts[(u64)i].block() == i, "result of %d", i);
            }
            for(int i = 0; i < n; i++) MC_CHECK(ts[(u64)i].block() == i && sched::get(200 + i) == 1, "result of %d", i);
        }
    }
    MC_CHECK(sched::live_threads() == 1, "threads outlive the pool");
}
// wait_any over many events: exactly the signalled one is found
static void any_of(int n, int k) {
    Vec<Event> es;
    for(int i = 0; i < n; i++) es.push(Event{});
    Thread::Thread t([&] { fire(es[(u64)k], 0); });
    u64 i = Event::wait_any(es.slice());
    MC_CHECK(i == (u64)k && sched::get(0), "wait_any reports event %llu, but %d was signalled", (unsigned long long)i, k);
    t.join();
    for(int j = 0; j < n; j++) MC_CHECK(es[(u64)j].try_wait() == (j == k), "try_wait of %d", j);
    es[(u64)k].reset();
    es[(u64)(n - 1 - k)].signal();
    MC_CHECK(Event::wait_any(es.slice()) == (u64)(n - 1 - k), "wait_any");
}
// Sleeping lasts at least as long as asked, whatever signals arrive, and does not last much longer.
static void sleeps() {
    static const u64 delays[] = {0, 1, 999, 1000, 1001, 59'999, 4'294'967, 4'294'968, 4'294'967'295, 4'294'967'296, 4'294'967'297, 60ull * 86'400'000};
    for(u64 ms : delays) {
        u64 t0 = sched::now_ns();
        Thread::sleep(ms);
        u64 t = sched::now_ns() - t0;
        if(t < ms * 1'000'000) mc::fail("sleep(%llu) lasted %llu ms", (unsigned long long)ms, (unsigned long long)(t / 1'000'000));
        if(t > ms * 1'000'000 + 10'000'000) mc::fail("sleep(%llu) lasted %llu ms", (unsigned long long)ms, (unsigned long long)(t / 1'000'000));
    }
}

static Opts opts(int p, int dev, int ncpu) {
    Opts o;
    o.preempt = p;
    o.deviations = dev;
    o.ncpu = ncpu;
    return o;
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "T06";
    m.bounds = "1-3 events, pools of 1-2 workers plus the event thread, 1-2 signalling threads; every interleaving within the preemption bound "
               "(events alone: 3, thorough 5; pool: 1-2, thorough 3), every choice of the reported descriptor and of the moment a timer expires, "
               "with up to one interrupted wait; "
               "every number of events up to 16 (thorough 48) signalled in four orders on 1, 2 and 4 workers with 1 (thorough 2) scheduling choices other than round robin (2, 3 for up to 3 events); waiting for any of up to 20 (60) events; "
               "every tree of up to 4 coroutines, each started and then awaited, awaited later, moved, polled, continued, replaced or dropped (8 ways) with waits in between, the waits being events signalled in either order, with 1 (thorough 2) scheduling choices other than round robin";
    m.assumptions = {"eventfd, timerfd, epoll and poll are modelled by the explorer (level-triggered readiness, EINTR, descriptor reuse)",
                     "time is virtual: a timer is observed to expire at any moment from its deadline on",
                     "every event a coroutine awaits is eventually signalled (coroutines still waiting at shutdown leak, as documented)"};
    for(int v = 0; v < 5; v++)
        m.add("event-" + std::to_string(v), [v](mc::Ctx& c) { sched::run(c, opts(c.tier(3, 5), 1, 2), [v] { events(v); }); }, 6);
    m.add("many", [](mc::Ctx& c) {
        int n = 1 + (int)c.choose(c.tier(16, 48), "events"), order = (int)c.choose(4, "order"), rounds = 1 + (int)c.choose(2, "rounds");
        static const int kCpu[] = {2, 3, 5};
        Opts o = opts(1, 0, kCpu[c.choose(3, "cpus")]);
        o.delays = n <= 3 ? c.tier(2, 3) : c.tier(1, 2);
        o.max_steps = 40000;
        sched::run(c, o, [=] { many(n, order, rounds); });
    }, 2);
    m.add("any-of", [](mc::Ctx& c) {
        int n = 1 + (int)c.choose(c.tier(20, 60), "events"), k = (int)c.choose((u32)n, "signalled");
        Opts o = opts(1, 0, 2);
        o.delays = 1;
        sched::run(c, o, [=] { any_of(n, k); });
    }, 2);
    m.add("programs", [](mc::Ctx& c) {
        mc::Plan p;
        mc::grow(c, p, 0, 0);
        int root = (int)c.choose(3, "root"), order = p.doors > 1 ? (int)c.choose(2, "order") : 0;
        Opts o = opts(1, 0, 2);
        o.delays = c.tier(1, 2);
        sched::run(c, o, [&p, root, order] { program(p, root, order); });
    }, 4);
    m.add("sleep", [](mc::Ctx& c) { sched::run(c, opts(0, c.tier(3, 6), 2), [] { sleeps(); }); }, 1);
    for(int v = 0; v < 10; v++)
        for(int ncpu = 2; ncpu <= 3; ncpu++)
            m.add("pool-" + std::to_string(v) + "-cpu" + std::to_string(ncpu), [v, ncpu](mc::Ctx& c) {
                sched::run(c, opts(c.tier(v == 2 || v == 4 || ncpu == 3 ? 1 : 2, 3), ncpu == 2 && (c.thorough || v < 2 || v > 8) ? 1 : 0, ncpu), [v] { pooled(v); });
            }, 6, ncpu == 3 && v != 1);
    return m.run(argc, argv);
}
