// M01: regions of several threads do not meet.
#include "ilv.h"
#include <rpp/base.h>
#include <rpp/thread.h>
using namespace rpp;
using sched::Opts;

struct Blk {
    u8* p;
    u64 n;
    u8 tag;
};
static bool good(const Blk& b) {
    for(u64 i = 0; i < b.n; i++)
        if(b.p[i] != b.tag) return false;
    return true;
}
template<typename A> static Blk get(u64 n, u8 tag) {
    Blk b{(u8*)A::alloc(n), n, tag};
    for(u64 i = 0; i < n; i++) b.p[i] = tag;
    return b;
}
static void work(Thread::Atomic& step, u8 tag, u64 n, u64 m, bool fresh = true) {
    u64 base = Region_Allocator::size(), up = Region_Allocator::depth();
    MC_CHECK(!fresh || (up == 0 && base == 0), "a thread starts inside a region");
    Region(R) {
        Blk x = get<Mregion<R>>(n, tag);
        step.incr();
        u64 size = Region_Allocator::size();
        MC_CHECK(Region_Allocator::depth() == up + 1 && size >= base + n && size < base + n + 16, "size %llu after allocating %llu in this thread", (unsigned long long)size, (unsigned long long)n);
        Region(Q) {
            Blk y = get<Mregion<Q>>(m, (u8)(tag + 1));
            step.incr();
            MC_CHECK(Region_Allocator::depth() == up + 2 && good(x) && good(y), "a block changed while other threads ran");
        }
        MC_CHECK(Region_Allocator::depth() == up + 1 && Region_Allocator::size() == size, "size after an inner region");
        step.incr();
        Blk z = get<Mregion<R>>(m, (u8)(tag + 2));
        MC_CHECK(good(x) && good(z), "a block changed while other threads ran");
        Vec<u64, Mregion<R>> v;
        for(u64 i = 0; i < 9; i++) v.push(i * tag);
        step.incr();
        for(u64 i = 0; i < 9; i++) MC_CHECK(v[i] == i * tag, "a vector in a region changed while other threads ran");
        MC_CHECK(good(x) && good(z), "a block changed while other threads ran");
    }
    MC_CHECK(Region_Allocator::depth() == up && Region_Allocator::size() == base, "after the region: depth %llu size %llu", (unsigned long long)Region_Allocator::depth(),
             (unsigned long long)Region_Allocator::size());
}
static void run_case(int v) {
    static const u64 kN[3][2] = {{40, 100}, {900, 200}, {1500, 3000}};
    u64 n = kN[v % 3][0], m = kN[v % 3][1];
    Thread::Atomic step;
    if(v < 3) {
        Thread::Thread t([&] { work(step, 10, n, m); });
        work(step, 20, m, n);
        t.join();
    } else {
        Region(R) { // another thread reads what this one allocated; closing the region waits for it
            Blk x = get<Mregion<R>>(n, 30);
            {
                Thread::Thread t([&] {
                    work(step, 10, n, m);
                    MC_CHECK(good(x), "a block of another thread's open region changed");
                });
                if(v >= 6) {
                    Thread::Thread u([&] { work(step, 50, m, n); });
                    work(step, 70, n, n, false);
                } else {
                    Blk y = get<Mregion<R>>(m, 31);
                    step.incr();
                    MC_CHECK(good(y), "a block changed while another thread ran");
                }
            }
            MC_CHECK(good(x) && Region_Allocator::depth() == 1, "a block changed while another thread ran");
        }
    }
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "M01";
    m.bounds = "2-3 threads with nested regions of three sizes, every interleaving within preemption bound 3 (thorough 8)";
    m.assumptions = {"interleavings are sequentially consistent; missing ordering shows up as a data race"};
    for(int v = 0; v < 9; v++)
        m.add("threads-" + std::to_string(v), [v](mc::Ctx& c) {
            Opts o;
            o.preempt = v < 6 ? c.tier(3, 8) : c.tier(2, 4);
            sched::run(c, o, [v] { run_case(v); });
        }, 6);
    return m.run(argc, argv);
}
