// M01: region memory: every sequence of opening, allocating in and closing nested regions.
#include "mc.h"
#include <rpp/base.h>
#include <algorithm>
using namespace rpp;

struct Blk {
    unsigned char* p;
    u64 n;
    unsigned char tag;
    int level;
};
struct St {
    mc::Ctx* c;
    std::vector<Blk> live;
    int left;
    unsigned char tag = 1;
    bool edge;
};
static const u64 kSizes[] = {0, 1, 8, 24, 500, 968, 992, 1024, 3000, 7};
constexpr int kNSizes = 10;
static const u64 kEdge[] = {1, 464, 480, 496, 976, 992, 1008, 2016};
constexpr int kNEdge = 8;

static void check_all(St& s) {
    for(auto& b : s.live) {
        u64 i = 0;
        while(i < b.n && b.p[i] == b.tag) i++;
        MC_CHECK(i == b.n, "byte %lu of a live block of %lu bytes was overwritten", i, b.n);
    }
}
static u64 state(St& s) {
    u64 h = Region_Allocator::depth();
    for(auto& b : s.live) h = mc::mix(h, b.n * 8 + (u64)b.level);
    return h;
}
static void fresh(St& s, void* v, u64 n, int level) {
    auto* p = (unsigned char*)v;
    MC_CHECK(p != nullptr, "null");
    for(auto& b : s.live)
        MC_CHECK(p + n <= b.p || b.p + b.n <= p, "a block of %lu bytes overlaps a live block of %lu bytes", n, b.n);
    u64 a = n >= 16 ? 16 : n >= 8 ? 8 : n >= 4 ? 4 : n >= 2 ? 2 : 1;
    MC_CHECK((u64)p % a == 0, "a block of %lu bytes is at %p: not aligned for an object of its size", n, v);
    memset(p, s.tag, n);
    s.live.push_back({p, n, s.tag, level});
    s.tag = (unsigned char)(s.tag % 250 + 1);
}
constexpr int kLevels = 5;
template<int N>
static void level(St& s) {
    if constexpr(N <= kLevels) {
        u64 depth = Region_Allocator::depth(), size = Region_Allocator::size();
        {
            Region_Allocator::Scope<(u64)N * 77> scope;
            using A = Mregion<(u64)N * 77>;
            MC_CHECK(Region_Allocator::depth() == depth + 1, "depth %lu after opening at %lu", Region_Allocator::depth(), depth);
            MC_CHECK(Region_Allocator::size() == size, "a new region has size");
            u64 total = 0, n0 = s.live.size();
            while(s.left > 0) {
                int ns = s.edge ? kNEdge : kNSizes;
                u32 w = s.c->choose((u32)ns + (N < kLevels ? 2 : 1));
                if((int)w < ns) {
                    u64 n = s.edge ? kEdge[w] : kSizes[w];
                    s.left--;
                    void* p = A::alloc(n);
                    s.c->op("[%d] alloc(%lu)", N, n);
                    fresh(s, p, n, N);
                    total += n;
                    MC_CHECK(Region_Allocator::size() >= size + total, "size %lu with %lu allocated on top of %lu", Region_Allocator::size(), total, size);
                    if(w == 2) A::free(p); // no effect until the region ends
                } else if((int)w == ns) {
                    s.left--;
                    s.c->op("[%d] close", N);
                    break;
                } else {
                    s.left--;
                    s.c->op("[%d] open", N);
                    u64 before = Region_Allocator::size();
                    level<N + 1>(s);
                    MC_CHECK(Region_Allocator::size() == before, "size %lu after a nested region, %lu before", Region_Allocator::size(), before);
                }
                check_all(s);
                s.c->state(state(s));
            }
            check_all(s);
            s.live.resize(n0);
        }
        MC_CHECK(Region_Allocator::depth() == depth && Region_Allocator::size() == size, "after closing: depth %lu (was %lu) size %lu (was %lu)",
                 Region_Allocator::depth(), depth, Region_Allocator::size(), size);
        check_all(s);
    }
}
static void body(mc::Ctx& c, bool edge, int depth) {
    i64 net = sys_net_allocs();
    St s;
    s.c = &c;
    s.left = depth;
    s.edge = edge;
    while(s.left > 0) { // several top-level regions one after the other
        level<1>(s);
        MC_CHECK(Region_Allocator::depth() == 0 && Region_Allocator::size() == 0, "outside any region");
        MC_CHECK(sys_net_allocs() == net, "%ld blocks kept after the last region closed", sys_net_allocs() - net);
    }
}
// one allocation of every size up to several chunks, after some memory was used, with neighbours
static void sizes(mc::Ctx& c) {
    static const u64 kPrior[] = {0, 1, 16, 480, 976, 992, 993, 2016, 3000};
    u64 prior = kPrior[c.choose(9, "before")], n = c.choose((u32)c.tier(5000, 20000), "size"), over = c.choose(2, "in an inner region");
    i64 net = sys_net_allocs();
    St s;
    s.c = &c;
    Region(R) {
        using A = Mregion<R>;
        if(prior) fresh(s, A::alloc(prior), prior, 1);
        u64 before = Region_Allocator::size();
        if(over) {
            Region(Q) {
                using B = Mregion<Q>;
                fresh(s, B::alloc(n), n, 2);
                fresh(s, B::alloc(17), 17, 2);
                check_all(s);
                fresh(s, B::alloc(n), n, 2);
                check_all(s);
            }
            s.live.resize(prior ? 1 : 0);
            MC_CHECK(Region_Allocator::size() == before, "size after the inner region");
        } else {
            fresh(s, A::alloc(n), n, 1);
            fresh(s, A::alloc(17), 17, 1);
        }
        fresh(s, A::alloc(2 * n), 2 * n, 1);
        check_all(s);
    }
    c.op("alloc(%lu) after %lu, inner %lu", n, prior, over);
    c.state(mc::mix(prior, mc::mix(n, over)));
    MC_CHECK(Region_Allocator::depth() == 0 && Region_Allocator::size() == 0 && sys_net_allocs() == net, "memory kept after the region closed");
}
// regions opened by recursion, to every depth the library allows, with allocations at each level before and after the deeper ones
static u64 rsize(u32 pat, u32 lvl) {
    switch(pat) {
    case 0: return 0;
    case 1: return 16;
    case 2: return 40;
    case 3: return lvl % 3 ? 0 : 992;
    case 4: return lvl * 17;
    case 5: return lvl % 10 == 9 ? 5000 : 8;
    case 6: return lvl == 0 ? 1 : (lvl & (lvl - 1)) ? 0 : 16 * lvl;
    default: return 976;
    }
}
static void recurse(St& s, u32 lvl, u32 deepest, u32 pat) {
    u64 depth = Region_Allocator::depth(), size = Region_Allocator::size();
    {
        Region_Allocator::Scope<4242> scope;
        using A = Mregion<4242>;
        MC_CHECK(Region_Allocator::depth() == depth + 1 && Region_Allocator::size() == size, "opening a region at depth %lu", depth);
        u64 n0 = s.live.size(), n = rsize(pat, lvl);
        if(n) fresh(s, A::alloc(n), n, (int)lvl);
        u64 before = Region_Allocator::size();
        for(u32 twice = 0; twice < (lvl % 32 == 30 && deepest - lvl < 4 ? 2u : 1u); twice++) {
            if(lvl + 1 < deepest) recurse(s, lvl + 1, deepest, pat);
            MC_CHECK(Region_Allocator::depth() == depth + 1, "depth %lu after nested regions at %lu", Region_Allocator::depth(), depth + 1);
            MC_CHECK(Region_Allocator::size() == before, "size %lu after nested regions, %lu before", Region_Allocator::size(), before);
            if(n) fresh(s, A::alloc(n), n, (int)lvl);
            before = Region_Allocator::size();
            if(lvl % 8 == 0 || lvl > 120) check_all(s);
        }
        s.live.resize(n0);
    }
    MC_CHECK(Region_Allocator::depth() == depth && Region_Allocator::size() == size, "closing the region at depth %lu: depth %lu size %lu (was %lu)", depth + 1, Region_Allocator::depth(),
             Region_Allocator::size(), size);
}
static void recursion(mc::Ctx& c) {
    u32 pat = c.choose(8, "pattern"), d = 1 + c.choose(127, "depth");
    i64 net = sys_net_allocs();
    St s;
    s.c = &c;
    recurse(s, 0, d, pat);
    c.op("pattern %u depth %u", pat, d);
    c.state(pat * 1000 + d);
    MC_CHECK(Region_Allocator::depth() == 0 && Region_Allocator::size() == 0 && sys_net_allocs() == net, "memory kept after the outermost region closed");
}
// many allocations in one region, and the same region opened again and again
static void many(mc::Ctx& c) {
    static const u64 kSz[] = {1, 8, 16, 17, 100, 992, 1000};
    static const u32 kCount[] = {1, 2, 63, 64, 65, 255, 256, 257, 300, 1024, 2000};
    u64 n = kSz[c.choose(7, "size")];
    u32 count = kCount[c.choose(11, "count")], loop = c.choose(3, "loop");
    i64 net = sys_net_allocs();
    St s;
    s.c = &c;
    if(loop == 0) {
        Region(R) {
            std::vector<unsigned char*> ps;
            for(u32 i = 0; i < count; i++) {
                auto* p = (unsigned char*)Mregion<R>::alloc(n);
                memset(p, (int)(i % 251), n);
                ps.push_back(p);
                if(i % 100 == 50) {
                    Region(Q) {
                        memset(Mregion<Q>::alloc(3 * n), 0xee, 3 * n);
                    }
                }
            }
            for(u32 i = 0; i < count; i++)
                for(u64 j = 0; j < n; j++)
                    if(ps[i][j] != i % 251) mc::fail("block %u of %u of %lu bytes was overwritten", i, count, n);
            std::sort(ps.begin(), ps.end());
            for(u32 i = 1; i < count; i++)
                if(ps[i - 1] + n > ps[i]) mc::fail("two of %u blocks of %lu bytes overlap", count, n);
        }
    } else {
        Region(R) {
            using A = Mregion<R>;
            if(loop == 2) fresh(s, A::alloc(900), 900, 1);
            i64 most = -1;
            for(u32 i = 0; i < count; i++) {
                u64 size = Region_Allocator::size(), keep = s.live.size();
                Region(Q) {
                    using B = Mregion<Q>;
                    fresh(s, B::alloc(n), n, 2);
                    fresh(s, B::alloc(n), n, 2);
                    check_all(s);
                }
                s.live.resize(keep);
                MC_CHECK(Region_Allocator::size() == size && Region_Allocator::depth() == 1, "size or depth after round %u", i);
                if(most < 0) most = sys_net_allocs();
                MC_CHECK(sys_net_allocs() <= most, "round %u of the same region holds %ld blocks after closing, the first %ld", i, sys_net_allocs(), most);
            }
            check_all(s);
        }
    }
    c.op("%u of %lu bytes, loop %u", count, n, loop);
    c.state(mc::mix(n, count * 4 + loop));
    MC_CHECK(Region_Allocator::depth() == 0 && Region_Allocator::size() == 0 && sys_net_allocs() == net, "memory kept after the region closed");
}
// containers in regions: growing two vectors of differently sized elements next to a string
struct alignas(16) V16 {
    u64 x[2];
};
static void containers(mc::Ctx& c) {
    i64 net = sys_net_allocs();
    Region(R) {
        Vec<u8, Mregion<R>> a;
        Vec<V16, Mregion<R>> b;
        Vec<u32, Mregion<R>> d;
        int n = c.tier(10, 12);
        for(int i = 0; i < n; i++) {
            u32 w = c.choose(4);
            if(w == 0) a.push((u8)i);
            if(w == 1) b.push(V16{{(u64)i, (u64)i}});
            if(w == 2) d.push((u32)i * 3);
            if(w == 3) {
                Region(Q) {
                    auto str = format<Mregion<Q>>("% and % more"_v, i, "text"_v);
                    MC_CHECK(str.length() >= 15, "text");
                }
            }
            c.op("%u", w);
            MC_CHECK((u64)b.data() % 16 == 0 && (u64)d.data() % 4 == 0, "elements of a vector in a region are misaligned");
        }
        u64 h = 0;
        i64 last = -1;
        for(auto& x : a) {
            MC_CHECK((i64)x > last, "contents");
            last = x;
            h = mc::mix(h, x);
        }
        last = -1;
        for(auto& x : b) {
            MC_CHECK((i64)x.x[0] > last && x.x[0] == x.x[1], "contents");
            last = (i64)x.x[0];
            h = mc::mix(h, x.x[0]);
        }
        last = -1;
        for(auto& x : d) {
            MC_CHECK((i64)x > last && x % 3 == 0, "contents");
            last = x;
            h = mc::mix(h, x);
        }
        c.state(h);
    }
    MC_CHECK(sys_net_allocs() == net && Region_Allocator::size() == 0, "leak");
}

int main(int argc, char** argv) {
    mc::Main m;
    m.property = "M01";
    m.bounds = "every sequence of 6 (thorough 7) open/allocate/close steps over up to 5 nested regions and 10 sizes around the chunk size, of 6 "
               "(thorough 7) steps over 8 sizes that fill chunks exactly; every single size up to 5000 (thorough 20000) bytes after 9 fillings, in an outer or inner region; recursion to every depth 1-127 with 8 allocation patterns; 11 counts up to 2000 of blocks of 7 sizes, and as many rounds of reopening; every interleaving of 10 (thorough 12) growths of three containers in one region";
    m.assumptions = {"regions nest and each allocation names the innermost open region (a mismatch aborts by design)"};
    m.add("nesting", [](mc::Ctx& c) { body(c, false, c.tier(6, 7)); }, 2);
    m.add("chunk-edges", [](mc::Ctx& c) { body(c, true, c.tier(6, 7)); }, 2);
    m.add("sizes", sizes, 2);
    m.add("recursion", recursion, 2);
    m.add("many", many, 2);
    m.add("containers", containers, 4);
    return m.run(argc, argv);
}
