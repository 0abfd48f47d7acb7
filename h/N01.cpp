// N01: arithmetic helpers return the mathematically defined result for every input.
#include "mc.h"
#include <rpp/base.h>
#include <cmath>
#include <limits>
using namespace rpp;
namespace M = rpp::Math;
typedef unsigned __int128 u128;
typedef __int128 i128;

// --- bit functions: all of [0, 2^32) in blocks of 65536 (quick: the blocks around powers of two and a lattice)
static u8 g_pop[65536];
static void init_pop() {
    for(u32 i = 1; i < 65536; i++) g_pop[i] = (u8)(g_pop[i / 2] + i % 2);
}
static void bits_block(u32 hi) {
    u32 v = hi << 16;
    u32 lg = 0; // floor(log2(v)) kept incrementally
    for(u32 k = 0; k < 32; k++)
        if(v >> k) lg = k;
    u32 bad = 0;
    const char* what = "";
    u64 got = 0;
    auto want = [&](bool ok, const char* w, u64 g) {
        if(!ok && !bad) bad = 1, what = w, got = g;
    };
    for(u32 lo = 0; lo < 65536 && !bad; lo++, v++) {
        if(v && lg < 31 && v == (2u << lg)) lg++;
        want(M::popcount(v) == (u32)g_pop[hi] + g_pop[lo], "popcount", M::popcount(v));
        if(v == 0) {
            want(M::ctlz(v) == 32, "ctlz", M::ctlz(v));
            want(M::prev_pow2(v) == 0, "prev_pow2", M::prev_pow2(v));
            continue;
        }
        u32 p = 1u << lg;
        want(M::ctlz(v) == 31 - lg, "ctlz", M::ctlz(v));
        want(M::log2(v) == lg, "log2", M::log2(v));
        want(M::prev_pow2(v) == p, "prev_pow2", M::prev_pow2(v));
        if(v <= 0x80000000u) want(M::next_pow2(v) == (v == p ? v : 2 * p), "next_pow2", M::next_pow2(v));
    }
    MC_CHECK(!bad, "%s(%u) is %llu", what, v - 1, (unsigned long long)got);
}
static void bits32(mc::Ctx& c) {
    init_pop();
    u32 hi;
    if(c.thorough) {
        hi = c.choose(256, "byte 3") << 8;
        hi += c.choose(256, "byte 2");
    } else {
        u32 k = c.choose(3 * 17 + 64, "block");
        if(k < 51) {
            u32 p = k / 3 == 16 ? 0x10000 : 1u << (k / 3);
            hi = (p + (k % 3) - 1) & 0xffff;
        } else
            hi = (k - 51) * 1021 + 7;
    }
    bits_block(hi);
    c.op("32-bit values %#x0000..%#xffff", hi, hi);
    c.state(hi);
}
static void bits64(mc::Ctx& c) {
    u32 a = c.choose(64, "bit");
    u32 b = c.choose(65, "second bit");
    u32 sub = c.choose(2, "minus");
    for(i32 d = -3; d <= 3; d++) {
        u64 v = (u64)1 << a;
        u64 w = b == 64 ? 0 : (u64)1 << b;
        v = sub ? v - w : v + w;
        v += (u64)(i64)d;
        u32 pop = 0, lg = 0;
        for(u32 k = 0; k < 64; k++) {
            pop += (v >> k) & 1;
            if((v >> k) & 1) lg = k;
        }
        MC_CHECK(M::popcount(v) == pop, "popcount(%llu)", (unsigned long long)v);
        if(!v) {
            MC_CHECK(M::ctlz(v) == 64 && M::prev_pow2(v) == 0, "bit functions of 0");
            continue;
        }
        u64 p = (u64)1 << lg;
        MC_CHECK(M::ctlz(v) == 63 - lg, "ctlz(%llu) is %llu", (unsigned long long)v, (unsigned long long)M::ctlz(v));
        MC_CHECK(M::log2(v) == lg, "log2(%llu) is %llu", (unsigned long long)v, (unsigned long long)M::log2(v));
        MC_CHECK(M::prev_pow2(v) == p, "prev_pow2(%llu)", (unsigned long long)v);
        if(v <= (u64)1 << 63) MC_CHECK(M::next_pow2(v) == (v == p ? v : 2 * p), "next_pow2(%llu) is %llu", (unsigned long long)v, (unsigned long long)M::next_pow2(v));
        c.state(v);
    }
    c.op("bits %u,%u", a, b);
}
// --- alignment
template<typename T>
static void align_one(T x, T al) {
    T down = (T)((u128)x / al * al);
    u128 up = ((u128)x + al - 1) / al * al;
    MC_CHECK(M::align_down(x, al) == down, "align_down(%llu, %llu) is %llu", (unsigned long long)x, (unsigned long long)al, (unsigned long long)M::align_down(x, al));
    bool pow2 = (al & (al - 1)) == 0;
    if(pow2) MC_CHECK(M::align_down_pow2(x, al) == down, "align_down_pow2(%llu, %llu) is %llu", (unsigned long long)x, (unsigned long long)al, (unsigned long long)M::align_down_pow2(x, al));
    if(up <= (u128)(T)~(T)0) {
        MC_CHECK(M::align(x, al) == (T)up, "align(%llu, %llu) is %llu", (unsigned long long)x, (unsigned long long)al, (unsigned long long)M::align(x, al));
        if(pow2) MC_CHECK(M::align_pow2(x, al) == (T)up, "align_pow2(%llu, %llu) is %llu", (unsigned long long)x, (unsigned long long)al, (unsigned long long)M::align_pow2(x, al));
    }
}
static void aligns(mc::Ctx& c) {
    u32 wide = c.choose(2, "width");
    u32 k = c.choose(66 + 40, "alignment");
    u64 al = k < 66 ? k + 1 : (u64)1 << (k - 66);
    if(k >= 66 && (k - 66) & 1) al += 1;
    if(!wide && al > 0xffffffffull) return;
    u64 top = wide ? ~0ull : 0xffffffffull;
    u32 n = (u32)c.tier(300, 3000);
    for(u32 i = 0; i < n; i++) {
        for(u32 where = 0; where < 4; where++) {
            u64 x = where == 0 ? i : where == 1 ? top - i : where == 2 ? al * 3 + i - n / 2 : top / 2 + i - n / 2;
            if(wide) align_one<u64>(x, al);
            else align_one<u32>((u32)x, (u32)al);
        }
    }
    c.op("align %llu", (unsigned long long)al);
    c.state(mc::mix(wide, al));
}
// --- integer pow, where the result is representable
template<typename I>
static void pows(mc::Ctx& c, const char* name) {
    i64 lo = std::is_signed_v<I> ? -40 : 0;
    i64 base = lo + (i64)c.choose((u32)(300 - lo), "base");
    if((i128)base > (i128)std::numeric_limits<I>::max()) return;
    for(u32 e = 0; e <= (sizeof(I) == 1 ? 100u : 64u); e++) {
        i128 r = 1;
        bool fits = true;
        for(u32 i = 0; i < e && fits; i++) {
            r *= base;
            fits = r <= (i128)std::numeric_limits<I>::max() && r >= (i128)std::numeric_limits<I>::min();
        }
        if(!fits) continue;
        I got = M::pow((I)base, (I)e);
        MC_CHECK((i128)got == r, "pow(%lld, %u) of %s is %lld", (long long)base, e, name, (long long)got);
    }
    c.op("pow<%s>(%lld, ...)", name, (long long)base);
    c.state(mc::mix(sizeof(I) * 2 + std::is_signed_v<I>, (u64)base));
}
// --- order
template<typename T>
static void order_all(mc::Ctx& c, const std::vector<T>& v) {
    u32 n = (u32)v.size();
    T a = v[c.choose(n, "a")], b = v[c.choose(n, "b")];
    T mn = M::min(a, b), mx = M::max(a, b);
    MC_CHECK((mn == a || mn == b) && !(a < mn) && !(b < mn), "min");
    MC_CHECK((mx == a || mx == b) && !(mx < a) && !(mx < b), "max");
    for(T x : v) {
        T mn3 = M::min({a, b, x}), mx3 = M::max({a, b, x});
        MC_CHECK((mn3 == a || mn3 == b || mn3 == x) && !(a < mn3) && !(b < mn3) && !(x < mn3), "min of a list");
        MC_CHECK((mx3 == a || mx3 == b || mx3 == x) && !(mx3 < a) && !(mx3 < b) && !(mx3 < x), "max of a list");
        if(!(b < a)) {
            T r = M::clamp(x, a, b);
            T want = x < a ? a : b < x ? b : x;
            MC_CHECK(r == want, "clamp");
        }
    }
    MC_CHECK(M::min({a}) == a && M::max({a}) == a, "min or max of one value");
    c.op("order of %g and %g", (double)a, (double)b);
    c.state(mc::mix(mc::hash_bytes(&a, sizeof a), mc::hash_bytes(&b, sizeof b)));
}
template<typename T>
static std::vector<T> ints() {
    std::vector<T> r;
    T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    for(int i = 0; i < 4; i++) r.push_back((T)(lo + i)), r.push_back((T)(hi - i));
    for(int i = -3; i <= 3; i++) {
        r.push_back((T)i);
        r.push_back((T)(hi / 2 + i));
    }
    return r;
}
template<typename T>
static std::vector<T> floats() {
    typedef std::numeric_limits<T> L;
    return {0, (T)0.5, (T)-0.5, 1, -1, (T)1.5, 2, (T)-2.25, 3, L::max(), -L::max(), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), (T)(1 + L::epsilon()), (T)1e10, (T)-1e10};
}
// --- limits
static void limits(mc::Ctx& c) {
    u32 k = c.choose(10, "type");
    auto one = [&](auto z) {
        typedef decltype(z) T;
        MC_CHECK(Limits<T>::max() == std::numeric_limits<T>::max() && Limits<T>::min() == std::numeric_limits<T>::lowest(), "limits of type %u", k);
    };
    auto fl = [&](auto z) {
        typedef decltype(z) T;
        one(z);
        MC_CHECK(Limits<T>::epsilon() == std::numeric_limits<T>::epsilon() && Limits<T>::smallest_norm() == std::numeric_limits<T>::min() && Limits<T>::smallest_denorm() == std::numeric_limits<T>::denorm_min(), "float limits of type %u", k);
    };
    switch(k) {
    case 0: one((u8)0); break;
    case 1: one((u16)0); break;
    case 2: one((u32)0); break;
    case 3: one((u64)0); break;
    case 4: one((i8)0); break;
    case 5: one((i16)0); break;
    case 6: one((i32)0); break;
    case 7: one((i64)0); break;
    case 8: fl((f32)0); break;
    default: fl((f64)0); break;
    }
    MC_CHECK(M::KB(3) == 3072 && M::MB(3) == 3145728ull && M::GB(9) == 9663676416ull, "sizes");
    c.op("limits %u", k);
    c.state(k);
}
// --- floats: every sign and exponent with a set of mantissas (thorough: every f32)
static f32 from_bits(u32 b) {
    f32 f;
    memcpy(&f, &b, 4);
    return f;
}
static u32 to_bits(f32 f) {
    u32 b;
    memcpy(&b, &f, 4);
    return b;
}
static void float_one(f32 x) {
    u32 b = to_bits(x);
    MC_CHECK(to_bits(M::abs(x)) == (b & 0x7fffffff), "abs of %a", x);
    MC_CHECK(M::abs((f64)x) == (f64)from_bits(b & 0x7fffffff), "f64 abs of %a", x);
    f32 s = x > 0 ? 1.0f : x < 0 ? -1.0f : 0.0f;
    MC_CHECK(M::sign(x) == s && M::sign((f64)x) == (f64)s, "sign of %a", x);
    // integers below 2^24 are the only ones with a fraction next to them
    f64 t = (M::abs((f64)x) < 16777216.0) ? (f64)(i64)x : (f64)x; // truncated
    f64 fl = t > x ? t - 1 : t, ce = t < x ? t + 1 : t;
    f64 away = (f64)x - t, ro = away >= 0.5 ? t + 1 : away <= -0.5 ? t - 1 : t;
    MC_CHECK(M::floor(x) == (f32)fl && M::floor((f64)x) == fl, "floor of %a", x);
    MC_CHECK(M::ceil(x) == (f32)ce && M::ceil((f64)x) == ce, "ceil of %a", x);
    MC_CHECK(M::round(x) == (f32)ro && M::round((f64)x) == ro, "round of %a", x);
    if(M::abs(x) < 9e18f) {
        f32 fr = M::frac(x);
        MC_CHECK(fr == (f32)((f64)x - t), "frac of %a is %a", x, fr);
    }
    if(x >= 0) {
        f32 r = M::sqrt(x);
        MC_CHECK((f64)r * r == (f64)x || r == (f32)::sqrt((f64)x), "sqrt of %a is %a", x, r);
        f64 d = M::sqrt((f64)x);
        MC_CHECK(::fabs((f64)((long double)d * d - (long double)x)) <= 4e-16 * (f64)x || x < 1e-37f, "f64 sqrt of %a is %a", x, d);
    }
}
static void floats32(mc::Ctx& c) {
    if(c.thorough) {
        u32 hi = c.choose(256, "byte 3") << 24;
        hi |= c.choose(256, "byte 2") << 16;
        for(u32 lo = 0; lo < 65536; lo++) {
            f32 x = from_bits(hi | lo);
            if(std::isnan(x) || std::isinf(x)) continue;
            float_one(x);
        }
        c.state(hi);
        c.op("f32 %08x..%08x", hi, hi | 0xffff);
    } else {
        u32 hi = c.choose(512, "sign and exponent") << 23;
        for(u32 i = 0; i < 200; i++) {
            u32 m = i < 64 ? i : i < 128 ? 0x7fffff - (i - 64) : i < 151 ? 1u << (i - 128) : i < 174 ? (0x7fffffu << (i - 151)) & 0x7fffff : (0x400000 + (i - 187)) & 0x7fffff;
            f32 x = from_bits(hi | m);
            if(std::isnan(x) || std::isinf(x)) continue;
            float_one(x);
        }
        c.state(hi);
        c.op("f32 exponent %08x", hi);
    }
}
// --- transcendental functions: the right function of the right argument, to the precision of the type
static bool near(long double got, long double want, double eps) {
    if(std::isnan(want)) return std::isnan(got);
    if(std::isinf(want) || std::isinf(got)) return got == want || fabsl(want) > 3e38L;
    long double e = fabsl(got - want);
    return e <= eps * fmaxl(fabsl(want), 1e-30L);
}
static void funcs(mc::Ctx& c) {
    // lattice of k/32 in [-8, 8] and decades
    u32 i = c.choose(513 + 40, "x");
    f64 x = i < 513 ? ((i32)i - 256) / 32.0 : std::pow(10.0, (i32)(i - 513) / 2 - 10) * ((i & 1) ? -1 : 1);
    f32 xf = (f32)x;
    long double l = xf, ld = x;
    struct Fn {
        const char* n;
        f32 (*f)(f32);
        f64 (*d)(f64);
        long double (*ref)(long double);
        bool (*dom)(long double);
    };
    static const Fn fns[] = {
        {"cos", M::cos, M::cos, cosl, [](long double) { return true; }},
        {"sin", M::sin, M::sin, sinl, [](long double) { return true; }},
        {"tan", M::tan, M::tan, tanl, [](long double) { return true; }},
        {"acos", M::acos, M::acos, acosl, [](long double v) { return fabsl(v) <= 1; }},
        {"asin", M::asin, M::asin, asinl, [](long double v) { return fabsl(v) <= 1; }},
        {"atan", M::atan, M::atan, atanl, [](long double) { return true; }},
        {"exp", M::exp, M::exp, expl, [](long double v) { return fabsl(v) < 80; }},
    };
    for(const Fn& f : fns) {
        if(f.dom(l)) MC_CHECK(near(f.f(xf), f.ref(l), 1e-6), "%s(%a) of f32 is %a, not %La", f.n, xf, f.f(xf), f.ref(l));
        if(f.dom(ld)) MC_CHECK(near(f.d(x), f.ref(ld), 1e-14), "%s(%a) of f64 is %a, not %La", f.n, x, f.d(x), f.ref(ld));
    }
    static const f64 ys[] = {-8, -3.5, -2, -1, -0.5, -0.125, 0, 0.125, 0.5, 1, 2, 3.5, 8};
    for(f64 y : ys) {
        f32 yf = (f32)y;
        MC_CHECK(near(M::atan2(yf, xf), atan2l(yf, l), 1e-6) && near(M::atan2(y, x), atan2l(y, ld), 1e-14), "atan2(%a, %a)", y, x);
        MC_CHECK(near(M::hypot(yf, xf), hypotl(yf, l), 1e-6) && near(M::hypot(y, x), hypotl(y, ld), 1e-14), "hypot(%a, %a)", y, x);
        if(x > 0) MC_CHECK(near(M::pow(xf, yf), powl(l, yf), 1e-5) && near(M::pow(x, y), powl(ld, y), 1e-13), "pow(%a, %a) is %a", x, y, M::pow(x, y));
    }
    MC_CHECK(near(M::radians(xf), l * 3.14159265358979323846L / 180, 1e-6), "radians(%a) is %a", xf, M::radians(xf));
    MC_CHECK(near(M::degrees(xf), l * 180 / 3.14159265358979323846L, 1e-6), "degrees(%a) is %a", xf, M::degrees(xf));
    MC_CHECK(near(M::radians(x), ld * 3.14159265358979323846L / 180, 1e-6) && near(M::degrees(x), ld * 180 / 3.14159265358979323846L, 1e-6), "f64 radians or degrees of %a", x);
    c.op("functions at %g", x);
    c.state(i);
}
static void interp(mc::Ctx& c) {
    static const f32 vs[] = {-4, -1, -0.5f, 0, 0.25f, 1, 3, 8};
    f32 a = vs[c.choose(8, "a")], b = vs[c.choose(8, "b")];
    f32 prev = -1;
    for(i32 k = 0; k <= 64; k++) {
        f32 t = k / 64.0f;
        f32 want = (f32)((f64)a + ((f64)b - a) * t);
        MC_CHECK(M::lerp(a, b, t) == want && M::lerp((f64)a, (f64)b, (f64)t) == (f64)a + ((f64)b - a) * t, "lerp(%g, %g, %g)", a, b, t);
        if(a < b) {
            for(i32 out = -1; out <= 1; out++) {
                f32 x = out == 0 ? want : out < 0 ? a - t : b + t;
                f32 r = M::smoothstep(a, b, x);
                f64 u = ((f64)x - a) / ((f64)b - a);
                u = u < 0 ? 0 : u > 1 ? 1 : u;
                f64 w = u * u * (3 - 2 * u);
                MC_CHECK(::fabs(r - w) < 1e-6 && r >= 0 && r <= 1, "smoothstep(%g, %g, %g) is %g", a, b, x, r);
                if(out == 0) {
                    MC_CHECK(r >= prev, "smoothstep decreases");
                    prev = r;
                }
            }
        }
    }
    i64 ia = (i64)a * 1000, ib = (i64)b * 1000;
    MC_CHECK(M::lerp(ia, ib, (i64)0) == ia && M::lerp(ia, ib, (i64)1) == ib, "integer lerp");
    for(i64 d = 0; d < 3; d++) {
        MC_CHECK(M::abs(ia - d) == (ia - d < 0 ? -(ia - d) : ia - d) && M::abs((i32)(ia - d)) == (i32)(ia - d < 0 ? -(ia - d) : ia - d), "integer abs");
        i64 big = ((i64)1 << 62) + d;
        MC_CHECK(M::abs(-big) == big && M::abs(big) == big && M::abs(-(i32)(0x7ffffff0 + d)) == (i32)(0x7ffffff0 + d), "integer abs of large values");
    }
    c.op("interpolate %g..%g", a, b);
    c.state(mc::mix(to_bits(a), to_bits(b)));
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "N01";
    m.bounds = "bit functions: quick 115 blocks of 65536 values around powers of two and on a lattice, thorough every u32; u64: all sums and differences of two powers of two plus -3..3. "
               "Alignment to 1..66 and powers of two (plus one) of values near 0, near the alignment and near the type's end. Integer pow wherever representable for bases up to 300. "
               "Float rounding and sqrt: quick every sign and exponent with 200 mantissas, thorough every finite f32. Other functions on a lattice of 553 arguments.";
    m.add("bits32", bits32, 1);
    m.add("bits64", bits64, 1);
    m.add("align", aligns, 2);
    m.add("pow_i8", [](mc::Ctx& c) { pows<i8>(c, "i8"); }, 1);
    m.add("pow_u8", [](mc::Ctx& c) { pows<u8>(c, "u8"); }, 1);
    m.add("pow_i16", [](mc::Ctx& c) { pows<i16>(c, "i16"); }, 1);
    m.add("pow_i32", [](mc::Ctx& c) { pows<i32>(c, "i32"); }, 1);
    m.add("pow_u32", [](mc::Ctx& c) { pows<u32>(c, "u32"); }, 1);
    m.add("pow_i64", [](mc::Ctx& c) { pows<i64>(c, "i64"); }, 1);
    m.add("pow_u64", [](mc::Ctx& c) { pows<u64>(c, "u64"); }, 1);
    m.add("order_i8", [](mc::Ctx& c) { order_all(c, ints<i8>()); }, 1);
    m.add("order_u16", [](mc::Ctx& c) { order_all(c, ints<u16>()); }, 1);
    m.add("order_i32", [](mc::Ctx& c) { order_all(c, ints<i32>()); }, 1);
    m.add("order_u32", [](mc::Ctx& c) { order_all(c, ints<u32>()); }, 1);
    m.add("order_i64", [](mc::Ctx& c) { order_all(c, ints<i64>()); }, 1);
    m.add("order_u64", [](mc::Ctx& c) { order_all(c, ints<u64>()); }, 1);
    m.add("order_f32", [](mc::Ctx& c) { order_all(c, floats<f32>()); }, 1);
    m.add("order_f64", [](mc::Ctx& c) { order_all(c, floats<f64>()); }, 1);
    m.add("limits", limits, 1);
    m.add("floats32", floats32, 1);
    m.add("functions", funcs, 1);
    m.add("interpolate", interp, 1);
    return m.run(argc, argv);
}
