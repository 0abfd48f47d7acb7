// M02: Range_Allocator against a list of live ranges.
#include "elem.h"
#include <rpp/range_allocator.h>
#include <algorithm>
using namespace rpp;
using namespace el;

struct Live {
    u64 start, size, offset, len; // start/size include the padding
    void* handle;
};
struct Model {
    u64 cap = 0;
    std::vector<Live> live; // sorted by start
    u64 high = 0, allocs = 0, frees = 0, alloc_size = 0, free_size = 0;
    u64 used() const {
        u64 n = 0;
        for(auto& l : live) n += l.size;
        return n;
    }
    template<typename F>
    void gaps(F&& f) const {
        u64 at = 0;
        for(auto& l : live) {
            if(l.start > at) f(at, l.start - at);
            at = l.start + l.size;
        }
        if(cap > at) f(at, cap - at);
    }
    bool fits(u64 size, u64 align) const {
        bool ok = false;
        gaps([&](u64 s, u64 n) {
            u64 pad = (align - s % align) % align;
            if(pad <= n && n - pad >= size) ok = true;
        });
        return ok;
    }
};

template<typename RA>
static void check_stats(RA& a, const Model& m) {
    auto s = a.statistics();
    u64 gaps = 0;
    m.gaps([&](u64, u64) { gaps++; });
    MC_CHECK(s.total_capacity == m.cap, "capacity");
    MC_CHECK(s.allocated_size == m.used(), "allocated_size %lu, expected %lu", s.allocated_size, m.used());
    MC_CHECK(s.free_size == m.cap - m.used(), "free_size %lu, expected %lu", s.free_size, m.cap - m.used());
    MC_CHECK(s.allocated_blocks == m.live.size(), "allocated_blocks %lu", s.allocated_blocks);
    MC_CHECK(s.free_blocks == gaps, "free_blocks %lu but %lu gaps: neighbours not merged", s.free_blocks, gaps);
    MC_CHECK(s.high_water == m.high, "high_water %lu, expected %lu", s.high_water, m.high);
    MC_CHECK(s.total_allocs == m.allocs && s.total_frees == m.frees, "counts");
    MC_CHECK(s.total_alloc_size == m.alloc_size && s.total_free_size == m.free_size, "sizes");
    u64 sum = 0;
    for(auto b : s.bucket_sizes) sum += b;
    MC_CHECK(sum == gaps, "buckets hold %lu of %lu free blocks", sum, gaps);
    for(auto& l : m.live) {
        auto* b = (typename RA::Range)l.handle;
        MC_CHECK(b->offset == l.offset && b->length() == l.len && b->offset - b->padding() == l.start, "a live range changed");
    }
}
template<typename RA>
static bool do_alloc(RA& a, Model& m, u64 size, u64 align) {
    auto r = a.allocate(size, align);
    bool can = m.fits(size, align);
    MC_CHECK(r.ok() == can, "allocate(%lu, %lu) %s", size, align, r.ok() ? "succeeds although nothing fits" : "fails although a free range fits");
    if(!r.ok()) return false;
    auto* b = *r;
    MC_CHECK(b->offset % align == 0, "offset %lu not aligned to %lu", b->offset, align);
    MC_CHECK(b->length() == size, "length %lu, asked %lu", b->length(), size);
    Live l{b->offset - b->padding(), b->length() + b->padding(), b->offset, b->length(), b};
    MC_CHECK(l.start + l.size <= m.cap && l.start + l.size >= l.start, "range [%lu,+%lu) outside the heap", l.start, l.size);
    for(auto& o : m.live) MC_CHECK(l.start + l.size <= o.start || o.start + o.size <= l.start, "range [%lu,+%lu) overlaps [%lu,+%lu)", l.start, l.size, o.start, o.size);
    m.live.push_back(l);
    std::sort(m.live.begin(), m.live.end(), [](const Live& x, const Live& y) { return x.start < y.start; });
    m.allocs++;
    m.alloc_size += l.size;
    m.high = std::max(m.high, m.used());
    return true;
}
template<typename RA>
static void do_free(RA& a, Model& m, u64 i) {
    Live l = m.live[i];
    a.free((typename RA::Range)l.handle);
    m.live.erase(m.live.begin() + (long)i);
    m.frees++;
    m.free_size += l.size;
}
static u64 state(const Model& m) {
    u64 h = m.cap;
    for(auto& l : m.live) h = mc::mix(mc::mix(h, l.start), l.size);
    return h;
}

template<typename RA>
static void body(mc::Ctx& c, u64 cap, std::vector<u64> sizes, std::vector<u64> aligns, int depth) {
    begin_exec();
    {
        RA a(cap);
        Model m;
        m.cap = cap;
        check_stats(a, m);
        bool moved = false;
        for(int d = 0; d < depth; d++) {
            u32 na = (u32)(sizes.size() * aligns.size()), nl = (u32)m.live.size();
            u32 w = c.choose(na + nl + (moved ? 0 : 1));
            if(w < na) {
                u64 s = sizes[w / aligns.size()], al = aligns[w % aligns.size()];
                bool ok = do_alloc(a, m, s, al);
                c.op("allocate(%lu, %lu) -> %d", s, al, ok);
            } else if(w < na + nl) {
                c.op("free(#%u at %lu)", w - na, m.live[w - na].offset);
                do_free(a, m, w - na);
            } else {
                moved = true;
                c.op("move");
                RA b = rpp::move(a);
                auto r = a.allocate(1, 1);
                MC_CHECK(!r.ok(), "a moved-from allocator allocates");
                a = rpp::move(b);
            }
            check_stats(a, m);
            c.state(state(m));
        }
        while(!m.live.empty()) {
            do_free(a, m, m.live.size() / 2);
            check_stats(a, m);
        }
        MC_CHECK(do_alloc(a, m, cap, 1), "everything was freed but the whole heap is not available");
        do_free(a, m, 0);
        auto s = a.statistics();
        s.assert_clear();
    }
    end_exec("allocator destroyed");
}
// fragmentation: fill the heap with n equal ranges, free any subset in any of two orders, then ask
template<typename RA>
static void fragment(mc::Ctx& c, u64 unit, int n) {
    begin_exec();
    {
        RA a(unit * (u64)n);
        Model m;
        m.cap = unit * (u64)n;
        for(int i = 0; i < n; i++) MC_CHECK(do_alloc(a, m, unit, 1), "fill");
        MC_CHECK(!a.allocate(1, 1).ok(), "full heap allocates");
        std::vector<void*> h;
        for(auto& l : m.live) h.push_back(l.handle);
        u32 subset = c.choose(1u << n);
        bool down = c.flip(), odd_first = c.flip();
        std::vector<int> order;
        for(int pass = 0; pass < 2; pass++)
            for(int i = 0; i < n; i++)
                if((subset >> i & 1) && (odd_first ? (i & 1) != pass : pass == 0)) order.push_back(i);
        if(down) std::reverse(order.begin(), order.end());
        for(int i : order)
            for(u64 k = 0; k < m.live.size(); k++)
                if(m.live[k].handle == h[(size_t)i]) {
                    do_free(a, m, k);
                    break;
                }
        c.op("free subset %x", subset);
        check_stats(a, m);
        c.state(state(m));
        u32 q = c.choose((u32)n * 3);
        u64 al = q % 3 == 0 ? 1 : q % 3 == 1 ? unit * 2 : unit + 1;
        do_alloc(a, m, unit * (q / 3 + 1) - (q % 3 == 1 ? 1 : 0), al);
        c.op("allocate");
        check_stats(a, m);
        while(!m.live.empty()) do_free(a, m, 0);
        check_stats(a, m);
        a.statistics().assert_clear();
    }
    end_exec("allocator destroyed");
}
static void extremes(mc::Ctx& c) {
    begin_exec();
    {
        static const u64 caps[] = {1, 2, 1000, 1ull << 32, (1ull << 40) + 7, ~0ull};
        static const u64 vals[] = {1, 3, 999, 1000, 1ull << 31, (1ull << 40) + 6, 1ull << 63, ~0ull - 1, ~0ull};
        Model m;
        m.cap = caps[c.choose(6)];
        Range_Allocator<TA> a(m.cap);
        for(int k = 0; k < 2; k++) {
            u64 s = vals[c.choose(9)], al = vals[c.choose(9)];
            do_alloc(a, m, s, al);
            c.op("allocate(%lu, %lu)", s, al);
            check_stats(a, m);
            c.state(state(m));
        }
        while(!m.live.empty()) do_free(a, m, 0);
        a.statistics().assert_clear();
    }
    end_exec("allocator destroyed");
}

// many ranges at once: fill, free by a pattern, refill with other sizes, free in another order
template<typename RA>
static void crowd(mc::Ctx& c) {
    static const u64 units[] = {1, 3, 256, 257, 1ull << 20, (1ull << 33) + 5};
    static const u32 counts[] = {1, 2, 15, 16, 17, 33, 64, 129, 257};
    static const u64 aligns[] = {1, 2, 7, 64, 4096, 1ull << 34};
    u64 unit = units[c.choose(6, "unit")];
    u32 n = counts[c.choose((u32)c.tier(8, 9), "ranges")];
    u32 grow = c.choose(4, "sizes"), pat = c.choose(6, "pattern");
    u64 al = aligns[c.choose(6, "alignment")];
    auto size = [&](u32 i) { return grow == 0 ? unit : grow == 1 ? unit * (1 + i % 7) : grow == 2 ? unit << (i % 12) : unit + i * 31; };
    begin_exec();
    {
        Model m;
        for(u32 i = 0; i < n; i++) m.cap += size(i);
        m.cap += unit * 3;
        RA a(m.cap);
        std::vector<void*> h;
        auto get = [&](u64 s, u64 al_) {
            if(!do_alloc(a, m, s, al_)) return;
            h.clear();
        };
        for(u32 i = 0; i < n; i++) get(size(i), al);
        check_stats(a, m);
        c.state(state(m));
        auto drop = [&](u32 p) {
            for(auto& l : m.live) h.push_back(l.handle);
            u64 k = h.size();
            for(u64 i = 0; i < k; i++) {
                u64 j = p & 1 ? k - 1 - i : i;
                bool take = p / 2 == 0 ? j % 2 == 0 : p / 2 == 1 ? j % 5 != 0 : (j * j + j / 3) % 3 == 1;
                if(!take) continue;
                for(u64 q = 0; q < m.live.size(); q++)
                    if(m.live[q].handle == h[j]) {
                        do_free(a, m, q);
                        break;
                    }
            }
            h.clear();
        };
        drop(pat);
        check_stats(a, m);
        c.state(state(m));
        for(u32 i = 0; i < n; i++) get(size(n - 1 - i) * (i % 3 + 1), i % 4 ? al : 1);
        check_stats(a, m);
        // half-way through the life of the ranges, the allocator moves
        RA b = rpp::move(a);
        check_stats(b, m);
        a = rpp::move(b);
        drop((pat + 3) % 6);
        check_stats(a, m);
        c.state(state(m));
        while(!m.live.empty()) {
            do_free(a, m, pat & 1 ? m.live.size() - 1 : m.live.size() / 3);
            if(m.live.size() % 16 == 0) check_stats(a, m);
        }
        MC_CHECK(do_alloc(a, m, m.cap, 1), "everything was freed but the whole heap is not available");
        do_free(a, m, 0);
        a.statistics().assert_clear();
        c.op("%u ranges of about %llu", n, (unsigned long long)unit);
    }
    end_exec("allocator destroyed");
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "M02";
    m.bounds = "every sequence of 6 (thorough 8) allocate/free/move operations over heaps of 12-64 units with 4 sizes and 2-3 alignments and five "
               "bucket configurations; every subset of 9 (thorough 11) equal ranges freed in four orders followed by every request; extreme sizes; up to 129 (thorough 257) ranges of 4 kinds of sizes from 1 to 2^45 and 6 alignments allocated, freed by 6 patterns, refilled and freed in 3 bucket configurations";
    m.assumptions = {"an allocator is destroyed only after its ranges were freed"};
    m.add("b24-bias0", [](mc::Ctx& c) { body<Range_Allocator<TA, 24, 0>>(c, 12, {1, 2, 3, 6}, {1, 4}, c.tier(6, 8)); }, 2);
    m.add("b24-bias0-align3", [](mc::Ctx& c) { body<Range_Allocator<TA, 24, 0>>(c, 32, {1, 4, 5, 16}, {1, 3}, c.tier(6, 8)); }, 2);
    m.add("b2-bias0", [](mc::Ctx& c) { body<Range_Allocator<TA, 2, 0>>(c, 16, {1, 2, 4, 7}, {1, 8}, c.tier(6, 8)); }, 2);
    m.add("b3-bias1", [](mc::Ctx& c) { body<Range_Allocator<TA, 3, 1>>(c, 64, {1, 8, 9, 31}, {1, 16}, c.tier(6, 8)); }, 2);
    m.add("default", [](mc::Ctx& c) { body<Range_Allocator<TA>>(c, 4096, {1, 256, 511, 1500}, {1, 512}, c.tier(6, 8)); }, 2);
    m.add("default-align", [](mc::Ctx& c) { body<Range_Allocator<TA>>(c, 4096, {100, 600, 1024}, {1, 7, 1024}, c.tier(6, 8)); }, 2);
    m.add("fragment-small", [](mc::Ctx& c) { fragment<Range_Allocator<TA, 24, 0>>(c, 3, c.tier(9, 11)); }, 1);
    m.add("fragment", [](mc::Ctx& c) { fragment<Range_Allocator<TA>>(c, 200, c.tier(9, 11)); }, 1);
    m.add("extremes", extremes, 1);
    m.add("crowd", crowd<Range_Allocator<TA>>, 1);
    m.add("crowd-small", crowd<Range_Allocator<TA, 5, 2>>, 1);
    m.add("crowd-wide", crowd<Range_Allocator<TA, 64, 0>>, 1);
    return m.run(argc, argv);
}
