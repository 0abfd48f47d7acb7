// M02: Range_Allocator shared between threads.
#include "ilv.h"
#include <rpp/base.h>
#include <rpp/range_allocator.h>
#include <rpp/thread.h>
using namespace rpp;
using sched::Opts;
using RA = Range_Allocator<Mdefault, 24, 0>;

static constexpr u64 CAP = 12;
// regs 0..CAP-1: owner of the unit
static void take(RA::Range r, u64 size, u64 align) {
    MC_CHECK(r->offset % align == 0 && r->length() == size && r->offset + size <= CAP, "range [%llu,+%llu)", (unsigned long long)r->offset, (unsigned long long)r->length());
    for(u64 i = r->offset; i < r->offset + size; i++)
        MC_CHECK(sched::add((int)i, 1) == 1, "unit %llu is in two live ranges", (unsigned long long)i);
}
static void give(RA& a, RA::Range r) {
    for(u64 i = r->offset; i < r->offset + r->length(); i++) sched::add((int)i, -1);
    a.free(r);
}
static void run_case(int v) {
    RA a(CAP);
    auto work = [&a](u64 s0, u64 al0, u64 s1, u64 al1, bool swap) {
        auto x = a.allocate(s0, al0);
        if(x.ok()) take(*x, s0, al0);
        auto y = a.allocate(s1, al1);
        if(y.ok()) take(*y, s1, al1);
        if(swap && y.ok()) give(a, *y);
        if(x.ok()) give(a, *x);
        if(!swap && y.ok()) give(a, *y);
    };
    if(v == 0) {
        Thread::Thread t([&] { work(1, 1, 3, 4, false); });
        work(2, 2, 2, 1, true);
        t.join();
    } else if(v == 1) { // always enough room: nothing may fail
        auto one = [&a] {
            for(int i = 0; i < 2; i++) {
                auto x = a.allocate(2, 1);
                MC_CHECK(x.ok(), "no room although at most 6 of 12 units are in use");
                take(*x, 2, 1);
                give(a, *x);
            }
        };
        Thread::Thread t([&] { one(); }), u([&] { one(); });
        one();
        t.join();
        u.join();
    } else if(v == 2) { // freed by another thread
        auto x = a.allocate(4, 1);
        auto y = a.allocate(4, 4);
        MC_CHECK(x.ok() && y.ok(), "room");
        take(*x, 4, 1);
        take(*y, 4, 4);
        Thread::Thread t([&] { give(a, *x); });
        auto z = a.allocate(4, 2);
        if(z.ok()) take(*z, 4, 2);
        give(a, *y);
        if(z.ok()) give(a, *z);
        t.join();
    } else { // statistics taken meanwhile are those of one moment
        Thread::Thread t([&] { work(1, 1, 3, 1, false); });
        auto s = a.statistics();
        u64 sum = 0;
        for(auto b : s.bucket_sizes) sum += b;
        MC_CHECK(s.free_size + s.allocated_size == CAP && sum == s.free_blocks && s.total_allocs - s.total_frees == s.allocated_blocks &&
                     s.total_alloc_size - s.total_free_size == s.allocated_size, "inconsistent statistics");
        t.join();
    }
    a.statistics().assert_clear();
    auto all = a.allocate(CAP, 1);
    MC_CHECK(all.ok(), "everything was freed but the whole heap is not available");
    a.free(*all);
}
// every small program of two threads: allocate (four shapes), free the oldest or the newest, look
static void programs(mc::Ctx& c, int na, int nb, int p) {
    static const u64 kSize[] = {1, 3, 4, 6}, kAlign[] = {1, 1, 4, 2};
    int s[2][6], n[2] = {na, nb};
    bool given = c.choose(2, "given"); // the second thread starts with ranges made by the first
    for(int t = 0; t < 2; t++) {
        int live = t == 1 && given ? 2 : 0;
        for(int i = 0; i < n[t]; i++) {
            s[t][i] = (int)c.choose(live ? 7 : 5, "step");
            if(s[t][i] < 4) live++;
            else if(s[t][i] > 4) live--;
        }
    }
    Opts o;
    o.preempt = p;
    sched::run(c, o, [&] {
        RA a(CAP);
        RA::Range held[2][8];
        int from[2] = {}, to[2] = {};
        if(given)
            for(u64 z : {4, 2}) {
                auto r = a.allocate(z, z);
                MC_CHECK(r.ok(), "no room in an empty heap");
                take(*r, z, z);
                held[1][to[1]++] = *r;
            }
        auto perform = [&](int t) {
            for(int i = 0; i < n[t]; i++) {
                int k = s[t][i];
                if(k < 4) {
                    auto r = a.allocate(kSize[k], kAlign[k]);
                    if(!r.ok()) continue;
                    take(*r, kSize[k], kAlign[k]);
                    held[t][to[t]++] = *r;
                } else if(k == 4) {
                    auto z = a.statistics();
                    u64 sum = 0;
                    for(auto b : z.bucket_sizes) sum += b;
                    MC_CHECK(z.free_size + z.allocated_size == CAP && sum == z.free_blocks && z.total_allocs - z.total_frees == z.allocated_blocks &&
                                 z.total_alloc_size - z.total_free_size == z.allocated_size, "inconsistent statistics");
                } else if(from[t] < to[t]) {
                    if(k == 5) give(a, held[t][from[t]++]);
                    else give(a, held[t][--to[t]]);
                }
            }
            while(from[t] < to[t]) give(a, held[t][from[t]++]);
        };
        {
            Thread::Thread other([&] { perform(1); });
            perform(0);
        }
        a.statistics().assert_clear();
        auto all = a.allocate(CAP, 1);
        MC_CHECK(all.ok(), "everything was freed but the whole heap is not available");
        a.free(*all);
    });
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "M02";
    m.bounds = "2-3 threads sharing one allocator, up to 4 operations each, every interleaving within preemption bound 4 (thorough 8); every program of two threads with 3 and 2 (3) steps within preemption bound 2 (3)";
    m.assumptions = {"interleavings are sequentially consistent; missing ordering shows up as a data race"};
    for(int v = 0; v < 4; v++)
        m.add("threads-" + std::to_string(v), [v](mc::Ctx& c) {
            Opts o;
            o.preempt = c.tier(4, 8);
            sched::run(c, o, [v] { run_case(v); });
        }, 6);
    m.add("programs", [](mc::Ctx& c) { programs(c, 3, c.tier(2, 3), c.tier(2, 3)); }, 3);
    return m.run(argc, argv);
}
