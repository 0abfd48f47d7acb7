// Async::Pool: jobs, awaiting, abandonment and shutdown under the interleavings of 2-5 threads.
#include "ilv.h"
#include "plan.h"
#include <rpp/base.h>
#include <rpp/async.h>
#include <rpp/pool.h>
#include <rpp/thread.h>
#include <rpp/vec.h>
using namespace rpp;
using sched::Opts;
template<typename R>
using Task = Async::Task<R>;
using TPool = Async::Pool<>;

// reg 0: the pool is gone; reg 1: live Toks; reg 10+id: completed runs; reg 30+id: started parts;
// reg 50+k: log of the single-worker order; reg 8: log length
struct Tok {
    i32 v;
    explicit Tok(i32 v = 0) noexcept : v(v) {
        sched::add(1, 1);
    }
    Tok(Tok&& o) noexcept : v(o.v) {
        sched::add(1, 1);
    }
    Tok& operator=(Tok&& o) noexcept {
        v = o.v;
        return *this;
    }
    ~Tok() noexcept {
        v = -1;
        sched::add(1, -1);
    }
};
// reg 9: highest thread number in use once the pool is set up
static void on_pool() {
    MC_CHECK(sched::get(0) == 0, "a job ran after the pool was destroyed");
    MC_CHECK(sched::self() > 0 && sched::self() <= sched::get(9), "a scheduled job ran on a thread (T%d) that is not the pool's", sched::self());
}
static void done(int id) {
    MC_CHECK(sched::add(10 + id, 1) == 1, "job %d completed twice", id);
}
static i64 ran(int id) {
    return sched::get(10 + id);
}

static Task<i32> job(TPool& pool, int id, int hops = 1) {
    Tok t{id};
    for(int i = 0; i < hops; i++) {
        co_await pool.suspend();
        MC_CHECK(sched::add(30 + id, 1) == i + 1, "job %d: part %d ran again", id, i);
        on_pool();
    }
    sched::set(50 + (int)sched::add(8, 1) - 1, id);
    MC_CHECK(t.v == id, "local of job %d holds %d", id, t.v);
    done(id);
    co_return id * 10;
}
static Task<void> job_void(TPool& pool, int id, u64& out) {
    co_await pool.suspend();
    out = 7;
    done(id);
}
// awaits `fan` children, each awaiting `fan` more...
static Task<u64> tree(TPool& pool, int depth, int fan) {
    if(depth == 0) {
        sched::add(20, 1);
        co_return 1;
    }
    Tok t{depth};
    co_await pool.suspend();
    on_pool();
    u64 sum = 0;
    if(fan == 1) {
        auto a = tree(pool, depth - 1, fan);
        sum = co_await a;
    } else {
        auto a = tree(pool, depth - 1, fan);
        auto b = tree(pool, depth - 1, fan);
        sum = co_await a;
        sum += co_await b;
    }
    MC_CHECK(t.v == depth, "local damaged");
    co_return sum;
}
static Task<i32> parent(TPool& pool, int id) { // one child that is itself scheduled, started then awaited
    co_await pool.suspend();
    auto c = job(pool, id + 1);
    i32 v = co_await c;
    done(id);
    co_return v + 1;
}

template<typename F>
static void with_pool(F&& f) {
    {
        sched::relax(true); // enqueue() peeks at the queues without their locks, as documented there
        TPool pool;
        sched::relax(false);
        sched::set(9, sched::live_threads() - 1);
        f(pool);
    }
    sched::set(0, 1);
    MC_CHECK(sched::live_threads() == 1, "%ld threads outlive the pool", sched::live_threads() - 1);
}

static void run_case(int v, int ncpu) {
    with_pool([v, ncpu](TPool& pool) {
        MC_CHECK(pool.n_threads() == (u64)(ncpu > 1 ? ncpu - 1 : 1), "%llu threads", (unsigned long long)pool.n_threads());
        switch(v) {
        case 0: { // one blocked-on job
            MC_CHECK(job(pool, 1).block() == 10 && ran(1) == 1, "result");
        } break;
        case 1: { // several, collected in another order
            auto a = job(pool, 1), b = job(pool, 2);
            MC_CHECK(b.block() == 20 && ran(2) == 1, "result");
            MC_CHECK(a.block() == 10 && ran(1) == 1, "result");
        } break;
        case 2: { // dropped jobs run too, in submission order on a single worker
            job(pool, 1);
            job(pool, 2);
            MC_CHECK(job(pool, 3).block() == 30, "result");
            if(ncpu == 2) {
                MC_CHECK(ran(1) == 1 && ran(2) == 1, "an earlier job has not run");
                for(int i = 0; i < 3; i++) MC_CHECK(sched::get(50 + i) == i + 1, "position %d: job %lld", i, (long long)sched::get(50 + i));
            }
        } break;
        case 3: { // several hops
            auto a = job(pool, 1, 3);
            MC_CHECK(a.block() == 10 && ran(1) == 1 && sched::get(31) == 3, "hops");
        } break;
        case 4: { // pool destroyed with a job queued or running
            job(pool, 1);
        } break;
        case 5: {
            job(pool, 1, 2);
            job(pool, 2);
        } break;
        case 6: { // chain of awaits
            MC_CHECK(tree(pool, 2, 1).block() == 1 && sched::get(20) == 1, "chain");
        } break;
        case 7: { // two children
            u64 n = tree(pool, 1, 2).block();
            MC_CHECK(n == 2 && sched::get(20) == 2, "tree yields %llu", (unsigned long long)n);
        } break;
        case 8: {
            u64 n = tree(pool, 2, 2).block();
            MC_CHECK(n == 4 && sched::get(20) == 4, "tree yields %llu", (unsigned long long)n);
        } break;
        case 9: { // two submitters
            Thread::Thread t([&] { MC_CHECK(job(pool, 1).block() == 10 && ran(1) == 1, "result"); });
            MC_CHECK(job(pool, 2).block() == 20 && ran(2) == 1, "result");
            t.join();
        } break;
        case 10: { // results written by the job are visible to whoever waits
            u64 x = 0;
            job_void(pool, 1, x).block();
            MC_CHECK(x == 7 && ran(1) == 1, "write not visible");
        } break;
        case 11: { // awaiting scheduled children
            auto p = parent(pool, 1);
            MC_CHECK(p.block() == 21 && ran(1) == 1 && ran(2) == 1, "parent");
        } break;
        case 12: { // polling
            auto a = job(pool, 1);
            if(a.done()) MC_CHECK(ran(1) == 1, "done() before completion");
            MC_CHECK(a.block() == 10, "result");
        } break;
        case 13: { // a worker blocks on nothing: jobs submit jobs and drop them
            auto spawner = [](TPool& pool) -> Task<void> {
                co_await pool.suspend();
                job(pool, 1);
                job(pool, 2);
                done(3);
            };
            spawner(pool).block();
            MC_CHECK(ran(3) == 1, "spawner");
        } break;
        case 14: { // nothing submitted
        } break;
        }
    });
    MC_CHECK(sched::get(1) == 0, "%lld objects local to jobs were not destroyed exactly once", (long long)sched::get(1));
}
// Many jobs: every count, several shapes, few preemptions. reg 100+id: completions; 300+id: starts.
static Task<i32> small_job(TPool& pool, int id) {
    Tok t{id};
    co_await pool.suspend();
    MC_CHECK(sched::add(300 + id, 1) == 1, "job %d resumed twice", id);
    on_pool();
    MC_CHECK(t.v == id, "local of job %d holds %d", id, t.v);
    MC_CHECK(sched::add(100 + id, 1) == 1, "job %d completed twice", id);
    co_return id * 3;
}
static Task<i32> spawner(TPool& pool, int from, int n) {
    co_await pool.suspend();
    Vec<Task<i32>> ts;
    for(int i = 0; i < n; i++) ts.push(small_job(pool, from + i));
    i32 sum = 0;
    for(auto& t : ts) sum += co_await t;
    co_return sum;
}
static void many(int v, int n) {
    with_pool([v, n](TPool& pool) {
        if(v == 0) { // all handles kept
            Vec<Task<i32>> ts;
            for(int i = 0; i < n; i++) ts.push(small_job(pool, i));
            for(int i = n; i-- > 0;) MC_CHECK(ts[(u64)i].block() == i * 3 && sched::get(100 + i) == 1, "result of job %d", i);
        } else if(v == 1) { // all dropped; two later ones are awaited
            for(int i = 0; i < n; i++) small_job(pool, i);
            small_job(pool, n).block();
            small_job(pool, n + 1).block();
            while(sched::add(2, 0), true) {
                int d = 0;
                for(int i = 0; i < n; i++) d += (int)sched::get(100 + i);
                if(d == n) break;
                sched::yield(); // a job that never runs is reported as a livelock or deadlock
            }
        } else if(v == 2) { // submitted by jobs
            auto a = spawner(pool, 0, n), b = spawner(pool, n, n / 2);
            MC_CHECK(b.block() == 3 * (n / 2 * n + (n / 2) * (n / 2 - 1) / 2), "sum");
            MC_CHECK(a.block() == 3 * (n * (n - 1) / 2), "sum");
        } else { // destroyed with jobs queued
            for(int i = 0; i < n; i++) small_job(pool, i);
        }
    });
    MC_CHECK(sched::get(1) == 0, "%lld objects local to jobs were not destroyed exactly once", (long long)sched::get(1));
}
// Every small program: a tree of coroutines whose steps go through the pool.
struct World : mc::Planned {
    TPool& pool;
    World(TPool& pool, const mc::Plan& plan) : pool(pool) {
        p = plan;
    }
    auto pass(int) {
        struct Hop {
            decltype(pool.suspend()) s;
            bool await_ready() noexcept {
                return s.await_ready();
            }
            void await_suspend(std::coroutine_handle<> h) noexcept {
                s.await_suspend(h);
            }
            void await_resume() noexcept {
                s.await_resume();
                on_pool();
            }
        };
        return Hop{pool.suspend()};
    }
};
static void program(const mc::Plan& plan, int root) {
    with_pool([&plan, root](TPool& pool) {
        World w(pool, plan);
        {
            auto t = mc::node(w, 0);
            if(root == 0) {
                int v = t.block().v;
                MC_CHECK(v == plan.want(0), "the program returned %d, not %d", v, plan.want(0));
            }
        }
        while(true) { // the pool may go only when nobody waits for anybody; a lost job is reported as a livelock
            int n = 0;
            for(int k = 0; k < plan.nodes; k++) n += mc::planned_ran(k);
            if(n == plan.nodes) break;
            sched::yield();
        }
    });
    MC_CHECK(sched::get(699) == 0, "%lld values were not destroyed exactly once", (long long)sched::get(699));
}
// Known: ~Pool destroys a queued child before the queued parent that still holds its task.
static void queued_family() {
    with_pool([](TPool& pool) {
        auto p = [](TPool& pool) -> Task<void> {
            auto c = job(pool, 1);
            co_await pool.suspend();
            done(2);
            co_await c;
        };
        p(pool);
    });
}

static Opts opts(int p, int ncpu) {
    Opts o;
    o.preempt = p;
    o.ncpu = ncpu;
    return o;
}

int main(int argc, char** argv) {
    mc::Main m;
    m.property = "T05";
    m.bounds = "pools of 1-2 (thorough 3) workers plus the event thread and 1-2 submitting threads, 1-7 coroutines; every interleaving within "
               "the preemption bound of each scenario (one worker: 3, thorough 4; two or three workers: 2, thorough 3; two submitters and two workers: 1, thorough 2); "
               "every number of jobs up to 24 (thorough 40) in four patterns on 1, 2, 4 and 7 workers with 1 (thorough 2) scheduling choices other than round robin (2, 3 for up to 4 jobs); "
               "every tree of up to 4 coroutines, each started and then awaited, awaited later, moved, polled, continued, replaced or dropped (8 ways) with waits in between, on pools of 1 and 2 workers with 1 (thorough 2) scheduling choices other than round robin";
    m.assumptions = {"interleavings are sequentially consistent; missing ordering shows up as a data race",
                     "the documented unlocked peek at queue emptiness in enqueue() is not reported as a race",
                     "no task outlives its pool and no coroutine awaits another when its pool is destroyed (documented leak)"};
    for(int v = 0; v < 15; v++) {
        for(int ncpu = 1; ncpu <= 4; ncpu++) {
            if(ncpu == 1 && v != 0 && v != 7) continue;
            if(ncpu == 4 && v != 7 && v != 1) continue;
            std::string n = "case-" + std::to_string(v) + "-cpu" + std::to_string(ncpu);
            m.add(n, [v, ncpu](mc::Ctx& c) {
                sched::run(c, opts(ncpu <= 2 ? c.tier(3, 4) : v == 9 ? c.tier(1, 2) : c.tier(2, 3), ncpu), [v, ncpu] { run_case(v, ncpu); });
            }, 6, ncpu == 4);
        }
    }
    for(int v = 0; v < 4; v++)
        m.add("many-" + std::to_string(v), [v](mc::Ctx& c) {
            int n = 1 + (int)c.choose(c.tier(24, 40), "jobs");
            static const int kCpu[] = {2, 3, 5, 8};
            int ncpu = kCpu[c.choose(4, "cpus")];
            Opts o = opts(1, ncpu);
            o.delays = n <= 4 ? c.tier(2, 3) : c.tier(1, 2);
            o.max_steps = 20000;
            sched::run(c, o, [v, n] { many(v, n); });
        }, 2);
    for(int ncpu = 2; ncpu <= 3; ncpu++)
        m.add("programs-cpu" + std::to_string(ncpu), [ncpu](mc::Ctx& c) {
            mc::Plan p;
            mc::grow(c, p, 0, 0);
            int root = (int)c.choose(2, "root");
            Opts o = opts(1, ncpu);
            o.delays = c.tier(1, 2);
            sched::run(c, o, [&p, root] { program(p, root); });
        }, 4);
    m.add("known-queued-family", [](mc::Ctx& c) { sched::run(c, opts(0, 2), [] { queued_family(); }); }, 3);
    return m.run(argc, argv);
}
