// N03: every seed gives a reproducible stream whose draws stay in their bounds and reach all of them.
#include "elem.h"
#include <rpp/base.h>
#include <rpp/rng.h>
#include <limits>
#include <map>
#include <set>
using namespace rpp;
using namespace el;
using RNG::Stream;
// a seed whose first draw is y, when the generator is the documented hash; otherwise any seed
static u64 inv_mul(u64 a) {
    u64 x = a;
    for(int i = 0; i < 6; i++) x *= 2 - a * x;
    return x;
}
static u64 inv_shift(u64 y, u32 s) {
    u64 x = y;
    for(u32 i = 0; i < 64 / s + 1; i++) x = y ^ (x >> s);
    return x;
}
static bool seed_for(u64 y, u64& seed) {
    u64 a = inv_shift(y, 17) * inv_mul(0xD8081C73F0FAA127ul);
    a = inv_shift(a, 15) - 0xDB8BDB77D7DF9811ul;
    a = inv_shift(a, 13) * inv_mul(0xEC705118C5FBDA13ul);
    a = inv_shift(a, 11) - 0x9D9FDC30FD876B1Dul;
    a = inv_shift(a, 9) * inv_mul(0xA278032FB08BA40Dul);
    seed = a;
    return Stream{a}() == y;
}
static void same(mc::Ctx& c) {
    u64 s = c.choose(256, "seed");
    if(c.choose(2, "form")) s = hash(s);
    Stream a{s}, b{s + 1}, d{};
    std::set<u64> seen;
    d();
    u64 mid = 0;
    Stream copy{0};
    for(u32 i = 0; i < 2000; i++) {
        if(i == 1000) copy = a;
        if(i % 3 == 0) (void)b();
        u64 v = a();
        if(i == 1000) mid = v;
        MC_CHECK(seen.insert(v).second, "value %u repeats", i);
    }
    b.seed(s);
    for(u32 i = 0; i < 2000; i++) {
        u64 v = b();
        MC_CHECK(seen.count(v), "reseeding with the same value gives another stream (draw %u)", i);
    }
    MC_CHECK(copy() == mid, "a copied stream continues differently");
    Stream e{s}, f{s};
    for(u32 i = 0; i < 50; i++) { // mixed draws agree too
        MC_CHECK(e.unit<f32>() == f.unit<f32>() && e.integer<i16>() == f.integer<i16>() && e.range<i32>(-5, 9) == f.range<i32>(-5, 9) && e.coin_flip(0.5f) == f.coin_flip(0.5f) && e.unit<f64>() == f.unit<f64>(), "draw %u differs", i);
    }
    c.op("seed %llu", (unsigned long long)s);
    c.state(s);
}
template<typename F>
static void unit_one(Stream s, u64* bucket) {
    F v = s.unit<F>();
    MC_CHECK(v >= 0 && v < 1, "unit() is %a", (f64)v);
    bucket[(u32)(v * 16)]++;
}
static void units(mc::Ctx& c) {
    u32 k = c.choose(64, "seed block");
    u64 b32[16] = {}, b64[16] = {};
    u32 n = (u32)c.tier(16384, 262144);
    for(u32 i = 0; i < n; i++) {
        u64 seed = (u64)k * n + i;
        unit_one<f32>(Stream{seed}, b32);
        unit_one<f64>(Stream{seed}, b64);
    }
    for(u32 i = 0; i < 16; i++) {
        MC_CHECK(b32[i] > n / 20 && b32[i] < n / 13, "%llu of %u f32 draws fall in sixteenth %u", (unsigned long long)b32[i], n, i);
        MC_CHECK(b64[i] > n / 20 && b64[i] < n / 13, "%llu of %u f64 draws fall in sixteenth %u", (unsigned long long)b64[i], n, i);
    }
    c.op("units of seeds %u..", k * n);
    c.state(k);
}
static void extremes(mc::Ctx& c) {
    u32 bit = c.choose(65, "bits");
    u32 lowones = c.choose(2, "which");
    for(i32 d = -2; d <= 2; d++) {
        u64 y = bit == 64 ? 0 : (u64)1 << bit;
        if(lowones) y = ~y;
        y += (u64)(i64)d;
        u64 seed;
        if(!seed_for(y, seed)) return;
        f32 f = Stream{seed}.unit<f32>();
        f64 g = Stream{seed}.unit<f64>();
        MC_CHECK(f >= 0 && f < 1 && g >= 0 && g < 1, "unit of draw %llx is %a and %a", (unsigned long long)y, f, g);
        MC_CHECK(!Stream{seed}.coin_flip(0.0f) && Stream{seed}.coin_flip(1.0f) && !Stream{seed}.coin_flip(0.0) && Stream{seed}.coin_flip(1.0), "certain coin flips");
        c.state(y);
    }
    c.op("extreme draw, bit %u", bit);
}
template<typename I>
static void range_one(u64 seed, I lo, I hi) {
    I v = Stream{seed}.range<I>(lo, hi);
    MC_CHECK(v >= lo && v < hi, "range(%lld, %lld) gives %lld (seed %llu)", (long long)lo, (long long)hi, (long long)v, (unsigned long long)seed);
}
template<typename I>
static void ranges(mc::Ctx& c) {
    typedef std::numeric_limits<I> L;
    std::vector<I> ends;
    for(int i = 0; i < 3; i++) ends.push_back((I)(L::min() + i)), ends.push_back((I)(L::max() - i));
    for(int i = -2; i <= 3; i++) ends.push_back((I)i), ends.push_back((I)(L::max() / 2 + i));
    for(int i = 4; i < 20; i += 5) ends.push_back((I)i), ends.push_back((I)-i);
    std::sort(ends.begin(), ends.end());
    ends.erase(std::unique(ends.begin(), ends.end()), ends.end());
    I lo = ends[c.choose((u32)ends.size(), "min")], hi = ends[c.choose((u32)ends.size(), "max")];
    if(!(lo < hi)) return;
    for(u32 s = 0; s < 256; s++) range_one<I>(s, lo, hi);
    for(u32 bit = 0; bit <= 64; bit++)
        for(i32 d = -2; d <= 2; d++) {
            u64 seed;
            u64 y = (bit == 64 ? 0 : (u64)1 << bit) + (u64)(i64)d;
            if(seed_for(y, seed)) range_one<I>(seed, lo, hi);
            if(seed_for(~y, seed)) range_one<I>(seed, lo, hi);
        }
    __int128 width = (__int128)hi - lo;
    if(width <= 300) { // every value is reached, about equally often
        u32 n = (u32)width, draws = n * 600;
        std::vector<u32> hits(n);
        Stream s{(u64)lo * 31 + (u64)hi};
        for(u32 i = 0; i < draws; i++) {
            I v = s.range<I>(lo, hi);
            MC_CHECK(v >= lo && v < hi, "range(%lld, %lld) gives %lld", (long long)lo, (long long)hi, (long long)v);
            hits[(u32)((__int128)v - lo)]++;
        }
        // 8-bit draws are reduced modulo the width, so a value may be up to twice as likely as another
        u32 least = sizeof(I) == 1 ? 180 : 400, most = sizeof(I) == 1 ? 1500 : 800;
        for(u32 i = 0; i < n; i++) MC_CHECK(hits[i] > least && hits[i] < most, "%u of %u draws of range(%lld, %lld) give %lld", hits[i], draws, (long long)lo, (long long)hi, (long long)((__int128)lo + i));
    } else { // both halves are reached
        u32 low = 0;
        Stream s{7};
        for(u32 i = 0; i < 256; i++) low += ((__int128)s.range<I>(lo, hi) - lo) < width / 2;
        MC_CHECK(low > 64 && low < 192, "%u of 256 draws of range(%lld, %lld) are in its lower half", low, (long long)lo, (long long)hi);
    }
    c.op("range(%lld, %lld)", (long long)lo, (long long)hi);
    c.state(mc::mix((u64)lo, (u64)hi));
}
template<typename I>
static void integers(mc::Ctx& c) {
    u32 hit = 0, n = 1u << 16;
    u64 ones = 0, zeros = 0;
    std::vector<char> seen(256);
    u64 k = c.choose(16, "block");
    for(u32 i = 0; i < n; i++) {
        I v = Stream{k * n + i}.integer<I>();
        if(sizeof(I) == 1 && !seen[(u8)v]) seen[(u8)v] = 1, hit++;
        ones |= (u64)v;
        zeros |= ~(u64)v;
    }
    if(sizeof(I) == 1) MC_CHECK(hit == 256, "only %u of 256 values are drawn", hit);
    u64 mask = ~(u64)0 >> (64 - 8 * sizeof(I));
    MC_CHECK((ones & mask) == mask && (zeros & mask) == mask, "a bit never changes: %llx %llx", (unsigned long long)ones, (unsigned long long)zeros);
    c.op("integers of %u bytes", (u32)sizeof(I));
    c.state(mc::mix(sizeof(I), k));
}
static void shuffles(mc::Ctx& c) {
    u32 n = c.choose((u32)c.tier(6, 7), "length");
    u32 kind = c.choose(2, "element");
    std::map<std::vector<u32>, u32> perms;
    u32 fact = 1;
    for(u32 i = 2; i <= n; i++) fact *= i;
    u32 seeds = fact * 3000;
    if(kind) seeds = 64;
    u64 base = (u64)c.choose(4, "seed block") * seeds;
    for(u32 s = 0; s < seeds; s++) {
        std::vector<u32> p;
        if(kind) {
            begin_exec();
            {
                Vec<MTok, TA> v;
                for(u32 i = 0; i < n; i++) v.emplace((int)i);
                Stream r{base + s};
                r.shuffle(v);
                MC_CHECK(v.length() == n, "length");
                for(u32 i = 0; i < n; i++) p.push_back((u32)v[i].val);
            }
            end_exec("shuffle");
        } else {
            Vec<u32> v;
            for(u32 i = 0; i < n; i++) v.push((u32)i);
            Stream r{base + s};
            r.shuffle(v);
            MC_CHECK(v.length() == n, "length");
            for(u32 x : v) p.push_back(x);
        }
        std::vector<u32> q = p;
        std::sort(q.begin(), q.end());
        for(u32 i = 0; i < n; i++) MC_CHECK(q[i] == i, "shuffling %u elements is not a permutation (seed %llu)", n, (unsigned long long)(base + s));
        perms[p]++;
    }
    if(!kind) {
        MC_CHECK(perms.size() == fact, "only %zu of %u orders are reached", perms.size(), fact);
        for(auto& [p, k] : perms) MC_CHECK(k > 2700 && k < 3300, "an order of %u elements comes up %u times instead of 3000", n, k);
    }
    c.op("shuffle %u", n);
    c.state(mc::mix(n, mc::mix(kind, base)));
}
static void coins(mc::Ctx& c) {
    u32 k = c.choose(17, "p");
    u64 block = c.choose(8, "seed block");
    f64 p = k / 16.0;
    u32 n = (u32)c.tier(16384, 131072), f = 0, d = 0;
    for(u32 i = 0; i < n; i++) {
        f += Stream{block * n + i}.coin_flip((f32)p);
        d += Stream{block * n + i}.coin_flip(p);
    }
    f64 tol = n * 0.02;
    if(k == 0 || k == 16) tol = 0;
    MC_CHECK(f >= n * p - tol && f <= n * p + tol, "coin_flip(%gf) is true %u times of %u", p, f, n);
    MC_CHECK(d >= n * p - tol && d <= n * p + tol, "coin_flip(%g) is true %u times of %u", p, d, n);
    c.op("coin %g", p);
    c.state(mc::mix(k, block));
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "N03";
    m.bounds = "seeds: 0..255 and their hashes for reproducibility, 2^20 (thorough 2^24) consecutive seeds for unit draws; draws whose generator output is within 2 of 0, a power of two or a complement of one; "
               "ranges between all pairs of about 25 boundary values of each of the eight integer types; shuffles of up to 5 (thorough 6) elements with 4 blocks of 3000 n! seeds.";
    m.assumptions.push_back("the extreme draws are reached by inverting the generator's hash; if the hash changes they are skipped");
    m.add("reproducible", same, 1);
    m.add("unit", units, 1);
    m.add("extremes", extremes, 1);
    m.add("range_i8", ranges<i8>, 1);
    m.add("range_u8", ranges<u8>, 1);
    m.add("range_i16", ranges<i16>, 1);
    m.add("range_u16", ranges<u16>, 1);
    m.add("range_i32", ranges<i32>, 1);
    m.add("range_u32", ranges<u32>, 1);
    m.add("range_i64", ranges<i64>, 1);
    m.add("range_u64", ranges<u64>, 1);
    m.add("integer_8", integers<i8>, 1);
    m.add("integer_u16", integers<u16>, 1);
    m.add("integer_i32", integers<i32>, 1);
    m.add("integer_u64", integers<u64>, 1);
    m.add("shuffle", shuffles, 3);
    m.add("coin", coins, 2);
    return m.run(argc, argv);
}
