// N02: vectors, matrices, quaternions and boxes compute their mathematical definitions, lane by lane.
#include "mc.h"
#include <rpp/base.h>
#include <rpp/vmath.h>
#include <cmath>
#include <limits>
#include <memory>
using namespace rpp;
using namespace rpp::Math;
static bool near(f64 a, f64 b, f64 eps = 1e-5) {
    if(std::isnan(a) || std::isnan(b)) return false;
    return ::fabs(a - b) <= eps * (1 + ::fabs(a) + ::fabs(b));
}
template<typename T>
static bool same(T a, T b) {
    if constexpr(std::is_floating_point_v<T>) return a == b || ::fabs(a - b) <= 4e-7 * (::fabs(a) + ::fabs(b));
    else return a == b;
}
template<typename T, u64 N>
static std::string str(const Vect<T, N>& v) {
    std::string s = "(";
    for(u64 i = 0; i < N; i++) s += (i ? " " : "") + std::to_string(v[i]);
    return s + ")";
}
#define EACH(expr, want, what)                                                                     \
    do {                                                                                           \
        Vect<T, N> e_ = (expr);                                                                    \
        for(u64 i = 0; i < N; i++)                                                                 \
            if(!same<T>(e_[i], (T)(want))) mc::fail(what " of %s and %s (s = %g): lane %llu is %g", str(a).c_str(), str(b).c_str(), (f64)s, (unsigned long long)i, (f64)e_[i]); \
        mc::count_check();                                                                         \
    } while(0)
// every operation on every pair of vectors with lanes from a small set, against the lane arithmetic
template<typename T, u64 N>
static void vect(mc::Ctx& c) {
    constexpr bool fl = std::is_floating_point_v<T>, sg = fl || std::is_signed_v<T>;
    std::vector<T> va = {(T)0, (T)1, (T)3}, vb = {(T)1, (T)2, (T)5};
    if(fl) va = {(T)-1.5, (T)0, (T)3}, vb = {(T)-2, (T)0.25, (T)3};
    else if(sg) va = {(T)-3, (T)0, (T)7}, vb = {(T)-2, (T)1, (T)7};
    if(N <= 3) {
        va.push_back((T)8), vb.push_back((T)4);
        if(sg) va.push_back((T)-4), vb.push_back((T)-8);
    }
    Vect<T, N> a, b, z;
    MC_CHECK(z[0] == 0 && z[N - 1] == 0, "a default vector is not zero");
    for(u64 i = 0; i < N; i++) a[i] = va[c.choose((u32)va.size(), "a")];
    for(u64 i = 0; i < N; i++) b[i] = vb[c.choose((u32)vb.size(), "b")];
    const Vect<T, N> a0 = a, b0 = b;
    T s = vb[(size_t)((u64)a[0] + (u64)b[0] * 3) % vb.size()];
    EACH(a + b, a[i] + b[i], "+");
    EACH(a - b, a[i] - b[i], "-");
    EACH(a * b, a[i] * b[i], "*");
    EACH(a / b, a[i] / b[i], "/");
    EACH(a + s, a[i] + s, "+ scalar");
    EACH(a - s, a[i] - s, "- scalar");
    EACH(a * s, a[i] * s, "* scalar");
    EACH(a / s, a[i] / s, "/ scalar");
    EACH(s + b, s + b[i], "scalar +");
    EACH(s - b, s - b[i], "scalar -");
    EACH(s * b, s * b[i], "scalar *");
    EACH(s / b, s / b[i], "scalar /");
    {
        Vect<T, N> x = a, y;
        y = (x += b); EACH(x, a[i] + b[i], "+="); EACH(y, x[i], "result of +=");
        x = a; y = (x -= b); EACH(x, a[i] - b[i], "-="); EACH(y, x[i], "result of -=");
        x = a; y = (x *= b); EACH(x, a[i] * b[i], "*="); EACH(y, x[i], "result of *=");
        x = a; y = (x /= b); EACH(x, a[i] / b[i], "/="); EACH(y, x[i], "result of /=");
        x = a; y = (x += s); EACH(x, a[i] + s, "+= scalar"); EACH(y, x[i], "result of += scalar");
        x = a; y = (x -= s); EACH(x, a[i] - s, "-= scalar"); EACH(y, x[i], "result of -= scalar");
        x = a; y = (x *= s); EACH(x, a[i] * s, "*= scalar"); EACH(y, x[i], "result of *= scalar");
        x = a; y = (x /= s); EACH(x, a[i] / s, "/= scalar"); EACH(y, x[i], "result of /= scalar");
    }
    EACH(Math::min(a, b), a[i] < b[i] ? a[i] : b[i], "min");
    EACH(Math::max(a, b), a[i] > b[i] ? a[i] : b[i], "max");
    EACH(Math::clamp(a, b - (T)1, b + (T)1), a[i] < (T)(b[i] - 1) ? (T)(b[i] - 1) : a[i] > (T)(b[i] + 1) ? (T)(b[i] + 1) : a[i], "clamp");
    bool eq = true;
    T mn = a[0], mx = a[0];
    T dt = 0, n2 = 0;
    for(u64 i = 0; i < N; i++) {
        eq = eq && a[i] == b[i];
        mn = a[i] < mn ? a[i] : mn;
        mx = a[i] > mx ? a[i] : mx;
        dt += a[i] * b[i];
        n2 += a[i] * a[i];
    }
    MC_CHECK((a == b) == eq && (a != b) == !eq && a == a && !(a != a), "equality of %s and %s", str(a).c_str(), str(b).c_str());
    MC_CHECK(a.min() == mn && a.max() == mx, "min or max lane of %s", str(a).c_str());
    MC_CHECK(same<T>(Math::dot(a, b), dt) && same<T>(a.norm2(), n2), "dot of %s and %s is %g", str(a).c_str(), str(b).c_str(), (f64)Math::dot(a, b));
    if constexpr(sg) {
        EACH(-a, (T)-a[i], "negation");
        EACH(a.abs(), a[i] < 0 ? (T)-a[i] : a[i], "abs");
        EACH(Math::abs(a), a[i] < 0 ? (T)-a[i] : a[i], "abs()");
        EACH(-(-a), a[i], "double negation");
    }
    if constexpr(fl) {
        f64 n = ::sqrt((f64)n2);
        MC_CHECK(near(a.norm(), n, 1e-6), "norm of %s is %g", str(a).c_str(), (f64)a.norm());
        EACH(a.floor(), std::floor(a[i]), "floor");
        EACH(a.ceil(), std::ceil(a[i]), "ceil");
        EACH(Math::lerp(a, b, (T)0.25), a[i] + (b[i] - a[i]) * (T)0.25, "lerp");
        if(n2 > 0) {
            Vect<T, N> u = a.unit(), w = Math::normalize(a), x = a;
            Vect<T, N> y = x.normalize();
            for(u64 i = 0; i < N; i++) MC_CHECK(near(u[i], a[i] / n, 1e-6) && near(w[i], a[i] / n, 1e-6) && near(x[i], a[i] / n, 1e-6) && near(y[i], a[i] / n, 1e-6), "unit vector of %s", str(a).c_str());
        }
    }
    if constexpr(N > 2) {
        Vect<T, N - 1> p = b.proj(), q;
        for(u64 i = 0; i + 1 < N; i++) MC_CHECK(same<T>(p[i], b[i] / b[N - 1]), "proj of %s", str(b).c_str());
        for(u64 i = 0; i + 1 < N; i++) q[i] = a[i];
        EACH((Vect<T, N>{q, s}), i + 1 < N ? a[i] : s, "extension");
    }
    EACH((Vect<T, N>{s}), s, "broadcast");
    auto i8s = b.template as<i8>();
    auto d64 = b.template as<f64>();
    for(u64 i = 0; i < N; i++) MC_CHECK(i8s[i] == (i8)b[i] && d64[i] == (f64)b[i], "conversion of %s", str(b).c_str());
    u64 k = 0;
    for(T& v : a) { MC_CHECK(&v == &a[k], "iteration"); k++; }
    MC_CHECK(k == N && b.end() - b.begin() == (i64)N && a0.end() - a0.begin() == (i64)N, "iteration visits %llu lanes", (unsigned long long)k);
    MC_CHECK(rpp::hash(a) == rpp::hash(a0) && (!eq || rpp::hash(a) == rpp::hash(b)), "hash");
    MC_CHECK(a == a0 && b == b0, "an operation changed its operand");
    c.op("%s . %s", str(a).c_str(), str(b).c_str());
    c.state(mc::hash_bytes(&a, sizeof a, mc::hash_bytes(&b, sizeof b)));
}
template<typename T>
static void swizzle(mc::Ctx& c) {
    u32 lane = c.choose(4, "lane");
    Vect<T, 4> v{(T)1, (T)2, (T)3, (T)4};
    const Vect<T, 4>& cv = v;
    Vect<T, 3> w{(T)1, (T)2, (T)3};
    const Vect<T, 3>& cw = w;
    MC_CHECK(v.x == 1 && v.y == 2 && v.z == 3 && v.w == 4 && v[0] == 1 && v[3] == 4, "names");
    auto is2 = [](const Vect<T, 2>& q, T x, T y) { return q.x == x && q.y == y; };
    auto is3 = [](const Vect<T, 3>& q, T x, T y, T z) { return q.x == x && q.y == y && q.z == z; };
    v[lane] = (T)9;
    T e[4] = {1, 2, 3, 4};
    e[lane] = 9;
    MC_CHECK(is2(v.xy(), e[0], e[1]) && is2(v.yz(), e[1], e[2]) && is2(v.zw(), e[2], e[3]), "pairs");
    MC_CHECK(is2(cv.xy(), e[0], e[1]) && is2(cv.yz(), e[1], e[2]) && is2(cv.zw(), e[2], e[3]), "const pairs");
    MC_CHECK(is3(v.xyz(), e[0], e[1], e[2]) && is3(v.yzw(), e[1], e[2], e[3]) && is3(cv.xyz(), e[0], e[1], e[2]) && is3(cv.yzw(), e[1], e[2], e[3]), "triples");
    v.xy() = Vect<T, 2>{(T)5, (T)6};
    v.zw() = Vect<T, 2>{(T)7, (T)8};
    MC_CHECK(v[0] == 5 && v[1] == 6 && v[2] == 7 && v[3] == 8, "writing through pairs");
    v.yzw() = Vect<T, 3>{(T)1, (T)2, (T)3};
    MC_CHECK(v[0] == 5 && v[1] == 1 && v[2] == 2 && v[3] == 3, "writing through a triple");
    if(lane < 3) {
        T f[3] = {1, 2, 3};
        w[lane] = f[lane] = 9;
        MC_CHECK(is2(w.xy(), f[0], f[1]) && is2(w.yz(), f[1], f[2]) && is2(cw.xy(), f[0], f[1]) && is2(cw.yz(), f[1], f[2]), "pairs of three");
    }
    c.op("swizzle %u", lane);
    c.state(lane);
}
static void crossp(mc::Ctx& c) {
    static const f32 v[] = {-2, 0, 1, 3};
    Vec3 a, b;
    for(int i = 0; i < 3; i++) a[i] = v[c.choose(4, "a")];
    for(int i = 0; i < 3; i++) b[i] = v[c.choose(4, "b")];
    Vec3 r = cross(a, b), m = cross(b, a);
    for(int i = 0; i < 3; i++) {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        MC_CHECK(r[i] == a[j] * b[k] - a[k] * b[j] && r[i] == -m[i], "cross of %s and %s is %s", str(a).c_str(), str(b).c_str(), str(r).c_str());
    }
    c.op("cross");
    c.state(mc::hash_bytes(&a, sizeof a, mc::hash_bytes(&b, sizeof b)));
}
// --- SIMD lanes with special values
static void simd(mc::Ctx& c) {
    using SIMD::F32x4;
    typedef std::numeric_limits<f32> L;
    static const f32 v[] = {0.0f, -0.0f, 1.0f, -1.0f, 0.5f, -2.5f, 1e30f, -1e30f, L::max(), L::min(), L::denorm_min(), 8388609.5f, L::infinity(), -L::infinity(), L::quiet_NaN()};
    u32 n = sizeof v / sizeof *v;
    f32 p = v[c.choose(n, "p")], q = v[c.choose(n, "q")];
    u32 lane = c.choose(4, "lane");
    f32 a[4] = {1, 2, 3, 4}, b[4] = {8, 4, 2, 1};
    a[lane] = p;
    b[lane] = q;
    F32x4 x = F32x4::set(a[0], a[1], a[2], a[3]), y = F32x4::set(b[0], b[1], b[2], b[3]);
    auto chk = [&](F32x4 r, f32 (*f)(f32, f32), const char* what, bool nan_ok = false) {
        for(int i = 0; i < 4; i++) {
            f32 w = f(a[i], b[i]), g = r.data[i];
            if(nan_ok && (std::isnan(a[i]) || std::isnan(b[i]))) continue;
            MC_CHECK(g == w || (std::isnan(g) && std::isnan(w)), "%s of %g and %g is %g", what, a[i], b[i], g);
        }
    };
    chk(F32x4::add(x, y), [](f32 l, f32 r) { return l + r; }, "add");
    chk(F32x4::sub(x, y), [](f32 l, f32 r) { return l - r; }, "sub");
    chk(F32x4::mul(x, y), [](f32 l, f32 r) { return l * r; }, "mul");
    chk(F32x4::div(x, y), [](f32 l, f32 r) { return l / r; }, "div");
    chk(F32x4::min(x, y), [](f32 l, f32 r) { return r < l ? r : l; }, "min", true);
    chk(F32x4::max(x, y), [](f32 l, f32 r) { return r > l ? r : l; }, "max", true);
    chk(F32x4::floor(x), [](f32 l, f32) { return ::floorf(l); }, "floor");
    chk(F32x4::ceil(x), [](f32 l, f32) { return ::ceilf(l); }, "ceil");
    chk(F32x4::abs(x), [](f32 l, f32) { return std::isnan(l) ? l : l < 0 ? -l : l; }, "abs");
    MC_CHECK(!std::signbit((f32)F32x4::abs(F32x4::set1(-0.0f)).data[lane]), "abs of -0");
    f64 d = 0;
    for(int i = 0; i < 4; i++) d += (f64)a[i] * b[i];
    f32 g = F32x4::dp(x, y);
    f64 mag = 0;
    for(int i = 0; i < 4; i++) mag += ::fabs((f64)a[i] * b[i]);
    if(mag < 3e38) MC_CHECK(::fabs(g - d) <= 1e-6 * mag, "dot product is %g not %g", g, d);
    bool eq = true, eqa = true;
    for(int i = 0; i < 4; i++) eq = eq && a[i] == b[i], eqa = eqa && a[i] == a[i];
    MC_CHECK(F32x4::cmpeq_all(x, y) == eq && F32x4::cmpeq_all(x, x) == eqa, "comparison");
    f32 e[4] = {a[0], a[1], a[2], a[3]};
    e[lane] = q;
    MC_CHECK(F32x4::cmpeq_all(x, F32x4::set(e[0], e[1], e[2], e[3])) == (p == q), "comparison of vectors that differ in lane %u (%g, %g)", lane, p, q);
    MC_CHECK((Vec4{x} == Vec4{F32x4::set(e[0], e[1], e[2], e[3])}) == (p == q), "Vec4 comparison of vectors that differ in lane %u", lane);
    for(int i = 0; i < 4; i++) MC_CHECK(F32x4::zero().data[i] == 0 && F32x4::one().data[i] == 1 && F32x4::set1(7).data[i] == 7, "constants");
    c.op("simd %g %g lane %u", p, q, lane);
    c.state(mc::mix(mc::mix(lane, mc::hash_bytes(&p, 4)), mc::hash_bytes(&q, 4)));
}
// --- matrices: a reference in double precision, m[column][row]
struct D4 {
    f64 m[4][4] = {};
    static D4 id() {
        D4 r;
        for(int i = 0; i < 4; i++) r.m[i][i] = 1;
        return r;
    }
    D4 operator*(const D4& o) const {
        D4 r;
        for(int col = 0; col < 4; col++)
            for(int row = 0; row < 4; row++)
                for(int k = 0; k < 4; k++) r.m[col][row] += m[k][row] * o.m[col][k];
        return r;
    }
};
static D4 of(const Mat4& a) {
    D4 r;
    for(u64 i = 0; i < 4; i++)
        for(u64 j = 0; j < 4; j++) r.m[i][j] = a[i][j];
    return r;
}
static f64 det(const D4& a) {
    f64 d = 0;
    int p[4] = {0, 1, 2, 3};
    std::sort(p, p + 4);
    do {
        int inv = 0;
        for(int i = 0; i < 4; i++)
            for(int j = i + 1; j < 4; j++) inv += p[i] > p[j];
        f64 t = inv % 2 ? -1 : 1;
        for(int i = 0; i < 4; i++) t *= a.m[i][p[i]];
        d += t;
    } while(std::next_permutation(p, p + 4));
    return d;
}
static bool nearm(const Mat4& a, const D4& b, f64 eps = 1e-5) {
    f64 mag = 0;
    for(int i = 0; i < 4; i++)
        for(int j = 0; j < 4; j++) mag = std::max(mag, ::fabs(b.m[i][j]));
    for(u64 i = 0; i < 4; i++)
        for(u64 j = 0; j < 4; j++)
            if(!(::fabs(a[i][j] - b.m[i][j]) <= eps * (1 + mag))) return false;
    return true;
}
static std::string str(const Mat4& a) {
    std::string s;
    for(u64 i = 0; i < 4; i++) s += str(a[i]);
    return s;
}
static D4 rodrigues(f64 deg, Vec3 ax) {
    f64 n = ::sqrt((f64)ax.x * ax.x + (f64)ax.y * ax.y + (f64)ax.z * ax.z);
    f64 u[3] = {ax.x / n, ax.y / n, ax.z / n};
    f64 t = deg * M_PI / 180, co = ::cos(t), si = ::sin(t);
    f64 K[3][3] = {{0, -u[2], u[1]}, {u[2], 0, -u[0]}, {-u[1], u[0], 0}}; // [row][col]
    D4 r = D4::id();
    for(int row = 0; row < 3; row++)
        for(int col = 0; col < 3; col++) r.m[col][row] = co * (row == col) + si * K[row][col] + (1 - co) * u[row] * u[col];
    return r;
}
static Mat4 gen(u32 k) {
    switch(k) {
    case 0: return Mat4::translate(Vec3{1.0f, -2.0f, 3.0f});
    case 1: return Mat4::scale(Vec3{2.0f, 0.5f, -1.0f});
    case 2: return Mat4::rotate(90.0f, Vec3{1.0f, 0.0f, 0.0f});
    case 3: return Mat4::rotate(37.0f, Vec3{1.0f, 2.0f, -3.0f});
    case 4: return Mat4::swap_x_z;
    case 5: return Mat4{1.0f, 2.0f, 0.0f, 0.5f, -1.0f, 1.0f, 3.0f, 0.0f, 0.0f, 2.0f, 1.0f, -1.0f, 4.0f, 0.0f, -2.0f, 1.0f};
    case 6: return Mat4::proj(60.0f, 1.5f, 0.5f);
    default: return Mat4::I;
    }
}
static void matrices(mc::Ctx& c) {
    u32 n = c.choose((u32)c.tier(4, 5), "length") + 1;
    Mat4 m = Mat4::I, prev = Mat4::I;
    D4 r = D4::id();
    Mat4 last = Mat4::I;
    for(u32 i = 0; i < n; i++) {
        last = gen(c.choose(8, "factor"));
        prev = m;
        r = of(m) * of(last);
        m = m * last;
        MC_CHECK(nearm(m, r), "product is %s", str(m).c_str());
        r = of(m);
    }
    const Mat4 m0 = m;
    D4 rt;
    for(int i = 0; i < 4; i++)
        for(int j = 0; j < 4; j++) rt.m[i][j] = r.m[j][i];
    MC_CHECK(nearm(m.T(), rt, 0) && nearm(Mat4::transpose(m), rt, 0) && m.T().T() == m, "transpose of %s", str(m).c_str());
    static const f32 vs[][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {1, -2, 3, -4}, {0.5f, 0.25f, -7, 2}};
    for(auto& v : vs) {
        Vec4 v4{v[0], v[1], v[2], v[3]};
        Vec3 v3{v[0], v[1], v[2]};
        Vec4 g = m * v4;
        Vec3 pt = m * v3, dir = m.rotate(v3);
        for(u64 row = 0; row < 4; row++) {
            f64 w = 0, mag = 1;
            for(u64 k = 0; k < 3; k++) w += r.m[k][row] * v[k], mag += ::fabs(r.m[k][row] * v[k]);
            mag += ::fabs(r.m[3][row]) * (1 + ::fabs(v[3]));
            MC_CHECK(::fabs(g[row] - (w + r.m[3][row] * v[3])) < 1e-5 * mag, "matrix times Vec4, row %llu", (unsigned long long)row);
            if(row < 3) {
                MC_CHECK(::fabs(pt[row] - (w + r.m[3][row])) < 1e-5 * mag, "matrix times point, row %llu", (unsigned long long)row);
                MC_CHECK(::fabs(dir[row] - w) < 1e-5 * mag, "matrix times direction, row %llu", (unsigned long long)row);
            }
        }
        // composition
        Vec4 h = prev * (last * v4);
        for(u64 row = 0; row < 4; row++) {
            f64 mag = 1;
            for(int k = 0; k < 4; k++)
                for(int j = 0; j < 4; j++) mag += ::fabs(of(prev).m[k][row] * of(last).m[j][k] * v[j]);
            MC_CHECK(::fabs(h[row] - g[row]) < 1e-5 * mag, "(A B) v is not A (B v), row %llu", (unsigned long long)row);
        }
    }
    f64 d = det(r);
    Mat4 inv = m.inverse();
    MC_CHECK(inv == Mat4::inverse(m), "the two inverses differ");
    D4 ri = of(inv), p1 = r * ri, p2 = ri * r;
    f64 cond = 0;
    for(int i = 0; i < 4; i++)
        for(int j = 0; j < 4; j++)
            for(int k = 0; k < 4; k++) cond = std::max(cond, ::fabs(r.m[k][j] * ri.m[i][k])), cond = std::max(cond, ::fabs(ri.m[k][j] * r.m[i][k]));
    MC_CHECK(d != 0 && cond < 1e7 && cond > 0, "inverse of %s is %s", str(m).c_str(), str(inv).c_str());
    if(cond < 1e3)
        for(int i = 0; i < 4; i++)
            for(int j = 0; j < 4; j++) MC_CHECK(::fabs(p1.m[i][j] - (i == j)) < 1e-4 * cond && ::fabs(p2.m[i][j] - (i == j)) < 1e-4 * cond, "inverse of %s is %s", str(m).c_str(), str(inv).c_str());
    Mat4 q = gen(5);
    Mat4 add = m + q, sub = m - q, as = m + 2.0f, ss = m - 2.0f, ms = m * 2.0f, ds = m / 4.0f;
    for(u64 i = 0; i < 4; i++)
        for(u64 j = 0; j < 4; j++) {
            f32 e = m[i][j], f = q[i][j];
            MC_CHECK(add[i][j] == e + f && sub[i][j] == e - f && as[i][j] == e + 2 && ss[i][j] == e - 2 && ms[i][j] == e * 2 && ds[i][j] == e / 4, "element-wise operation");
            MC_CHECK(m.data[4 * i + j] == e && (m.begin() + i)->data[j] == e, "element access");
        }
    u32 el = n == 1 ? c.choose(16, "element") : (u32)(mc::hash_bytes(&m, sizeof m) & 15);
    Mat4 o = m;
    MC_CHECK(o == m && !(o != m), "equality of copies");
    o[el / 4][el % 4] += 1000.0f;
    MC_CHECK(!(o == m) && o != m, "matrices that differ in one element compare equal");
    MC_CHECK(m == m0 && m.end() - m.begin() == 4, "an operation changed its operand");
    c.op("%s", str(m).c_str());
    c.state(mc::hash_bytes(&m, sizeof m));
}
static const f32 kDir[] = {-1, -0.3f, 0, 0.5f, 2};
static Vec3 pick_dir(mc::Ctx& c) {
    Vec3 v;
    do {
        for(int i = 0; i < 3; i++) v[i] = kDir[c.choose(5, "direction")];
    } while(0);
    return v;
}
static bool is_rotation(const Mat4& m, f64 eps = 1e-4) {
    D4 d = of(m), t;
    for(int i = 0; i < 4; i++)
        for(int j = 0; j < 4; j++) t.m[i][j] = d.m[j][i];
    D4 p = d * t;
    for(int i = 0; i < 4; i++)
        for(int j = 0; j < 4; j++)
            if(::fabs(p.m[i][j] - (i == j)) > eps) return false;
    return near(det(d), 1, eps) && ::fabs(d.m[3][0]) + ::fabs(d.m[3][1]) + ::fabs(d.m[3][2]) == 0;
}
static void builders(mc::Ctx& c) {
    Vec3 v = pick_dir(c);
    f64 n = ::sqrt((f64)v.x * v.x + (f64)v.y * v.y + (f64)v.z * v.z);
    Mat4 t = Mat4::translate(v), s = Mat4::scale(v);
    for(u64 i = 0; i < 4; i++)
        for(u64 j = 0; j < 4; j++) {
            MC_CHECK(t[i][j] == (i == j ? 1.0f : i == 3 ? v[j] : 0.0f), "translate");
            MC_CHECK(s[i][j] == (i != j ? 0.0f : i == 3 ? 1.0f : v[i]), "scale");
            MC_CHECK(Mat4{}[i][j] == (f32)(i == j) && Mat4::I[i][j] == (f32)(i == j) && Mat4::zero[i][j] == 0, "constants");
        }
    if(n == 0) return;
    for(i32 a = -360; a <= 360; a += 15) {
        D4 want = rodrigues(a, v);
        Mat4 m = Mat4::rotate((f32)a, v);
        MC_CHECK(nearm(m, want), "rotate(%d, %s) is %s", a, str(v).c_str(), str(m).c_str());
        Quat q = Quat::axis_angle(v, (f32)a);
        MC_CHECK(nearm(q.to_mat(), want), "axis_angle(%s, %d) is %s", str(v).c_str(), a, str(q.to_mat()).c_str());
        MC_CHECK(near(q.norm(), 1), "axis_angle is not a unit quaternion");
    }
    for(u32 near_axis = 0; near_axis < 4; near_axis++) {
        Vec3 d = v;
        if(near_axis) d = Vec3{v.x * 1e-4f * (f32)near_axis, v.y, v.z * 1e-4f * (f32)near_axis};
        f64 dn = ::sqrt((f64)d.x * d.x + (f64)d.y * d.y + (f64)d.z * d.z);
        if(dn == 0) continue;
        const Vec3 d0 = d;
        Mat4 y = Mat4::rotate_y_to(d), z = Mat4::rotate_z_to(d);
        // near the poles the basis is computed from small differences
        MC_CHECK(is_rotation(y, 2e-3) && is_rotation(z, 2e-3), "rotate_y_to or rotate_z_to of %s is not a rotation: %s %s", str(d).c_str(), str(y).c_str(), str(z).c_str());
        for(u64 i = 0; i < 3; i++) {
            MC_CHECK(near(y[1][i], d0[i] / dn, 2e-3), "rotate_y_to(%s) takes y to %s", str(d).c_str(), str(y[1]).c_str());
            MC_CHECK(near(::fabs(z[2][i]), ::fabs(d0[i] / dn), 2e-3), "rotate_z_to(%s) does not take z to that line", str(d).c_str());
        }
        f64 al = 0;
        for(u64 i = 0; i < 3; i++) al += z[2][i] * d0[i] / dn;
        MC_CHECK(near(::fabs(al), 1, 2e-3), "rotate_z_to(%s) does not take z to that line", str(d).c_str());
    }
    c.op("%s", str(v).c_str());
    c.state(mc::hash_bytes(&v, sizeof v));
}
static void cameras(mc::Ctx& c) {
    static const f32 ps[] = {-2, 0, 3};
    u32 kind = c.choose(3, "kind");
    if(kind == 0) {
        Vec3 pos, at, up = c.choose(2, "up") ? Vec3{0.0f, 1.0f, 0.0f} : Vec3{0.0f, 0.5f, 2.0f};
        for(int i = 0; i < 3; i++) pos[i] = ps[c.choose(3, "position")];
        for(int i = 0; i < 3; i++) at[i] = ps[c.choose(3, "target")] + 0.25f * (f32)i;
        Vec3 f = at - pos;
        if(cross(f, up).norm() < 1e-3f) return;
        Mat4 m = Mat4::look_at(pos, at, up);
        Vec3 o = m * pos, t = m * at, u = m.rotate(up);
        MC_CHECK(near(o.norm(), 0), "look_at takes the eye to %s", str(o).c_str());
        MC_CHECK(near(t.x, 0) && near(t.y, 0) && near(t.z, -f.norm()), "look_at takes the target to %s", str(t).c_str());
        MC_CHECK(near(u.x, 0) && u.y > 0, "look_at takes up to %s", str(u).c_str());
        Mat4 r = m;
        r[3] = Vec4{0.0f, 0.0f, 0.0f, 1.0f};
        MC_CHECK(is_rotation(r) && m[3].w == 1 && m[0].w == 0 && m[1].w == 0 && m[2].w == 0, "look_at is not rigid");
        c.state(mc::hash_bytes(&m, sizeof m));
    } else if(kind == 1) {
        static const f32 lo[] = {-3, 0, 1}, wd[] = {0.5f, 2, 8};
        f32 l = lo[c.choose(3)], r = l + wd[c.choose(3)], b = lo[c.choose(3)], t = b + wd[c.choose(3)], n = lo[c.choose(3)], f = n + wd[c.choose(3)];
        Mat4 m = Mat4::ortho(l, r, b, t, n, f);
        for(u32 k = 0; k < 27; k++) {
            f32 e[3] = {(f32)(k % 3) / 2, (f32)(k / 3 % 3) / 2, (f32)(k / 9) / 2};
            Vec3 p{l + (r - l) * e[0], b + (t - b) * e[1], -(n + (f - n) * e[2])};
            Vec4 q = m * Vec4{p, 1.0f};
            MC_CHECK(near(q.x, 2 * e[0] - 1) && near(q.y, 2 * e[1] - 1) && near(q.z, e[2]) && q.w == 1, "ortho(%g, %g, %g, %g, %g, %g) takes %s to %s", l, r, b, t, n, f, str(p).c_str(), str(q).c_str());
        }
        c.state(mc::hash_bytes(&m, sizeof m));
    } else {
        static const f32 fv[] = {30, 60, 90, 120}, ar[] = {0.5f, 1, 2}, nr[] = {0.125f, 1, 4};
        f32 fov = fv[c.choose(4)], a = ar[c.choose(3)], n = nr[c.choose(3)];
        Mat4 m = Mat4::proj(fov, a, n);
        f64 h = ::tan(fov * M_PI / 360);
        for(f32 dist : {n, 2 * n, 100 * n})
            for(i32 ex = -1; ex <= 1; ex++)
                for(i32 ey = -1; ey <= 1; ey++) {
                    Vec4 q = m * Vec4{(f32)(ex * h * a * dist), (f32)(ey * h * dist), -dist, 1.0f};
                    MC_CHECK(near(q.w, dist) && near(q.x / q.w, ex) && near(q.y / q.w, -ey) && near(q.z / q.w, n / dist), "proj(%g, %g, %g) at distance %g, corner %d %d: %s", fov, a, n, dist, ex, ey, str(q).c_str());
                }
        c.state(mc::hash_bytes(&m, sizeof m));
    }
    c.op("camera %u", kind);
}
// --- quaternions
static void quats(mc::Ctx& c) {
    static const f32 v[] = {-1, 0, 0.5f, 2};
    f32 a[4], b[4];
    for(f32& x : a) x = v[c.choose(4, "a")];
    for(f32& x : b) x = v[c.choose(4, "b")];
    Quat p{a[0], a[1], a[2], a[3]}, q{Vec3{b[0], b[1], b[2]}, b[3]}, w{Vec4{a[0], a[1], a[2], a[3]}};
    MC_CHECK(p == w && p[0] == a[0] && p[1] == a[1] && p[2] == a[2] && p[3] == a[3] && p.real() == a[3] && p.complex() == (Vec3{a[0], a[1], a[2]}), "components");
    MC_CHECK(Quat{} == (Quat{0.0f, 0.0f, 0.0f, 1.0f}), "the default quaternion is not the identity");
    // Hamilton: i j = k
    f64 e[4] = {a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0], a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]};
    Quat m = p * q;
    Quat cj = p.conjugate();
    for(int i = 0; i < 4; i++) {
        MC_CHECK(m[i] == (f32)e[i], "product component %d is %g not %g", i, m[i], e[i]);
        MC_CHECK((p + q)[i] == a[i] + b[i] && (p - q)[i] == a[i] - b[i] && (-p)[i] == -a[i] && (p * 3.0f)[i] == 3 * a[i] && cj[i] == (i < 3 ? -a[i] : a[i]), "component-wise operation, component %d", i);
        Quat o = p;
        o[i] += 1.0f;
        MC_CHECK(!(o == p) && o != p && p == p && !(p != p), "quaternions that differ in component %d", i);
    }
    MC_CHECK(p.end() - p.begin() == 4 && *p.begin() == a[0], "iteration");
    f64 n2 = 0;
    for(f32 x : a) n2 += (f64)x * x;
    MC_CHECK(p.norm2() == (f32)n2 && near(p.norm(), ::sqrt(n2)), "norm");
    f64 nb = 0;
    for(f32 x : b) nb += (f64)x * x;
    if(n2 > 0 && nb > 0) {
        Quat u = p.unit(), x = q.unit();
        for(int i = 0; i < 4; i++) MC_CHECK(near(u[i], a[i] / ::sqrt(n2)), "unit");
        Quat id = u * u.inverse(), id2 = u.inverse() * u;
        MC_CHECK(near(id.w, 1) && near(id.x, 0) && near(id.y, 0) && near(id.z, 0) && near(id2.w, 1), "inverse of a unit quaternion");
        for(Vec3 t : {Vec3{1.0f, 0.0f, 0.0f}, Vec3{0.0f, 1.0f, 0.0f}, Vec3{0.5f, -2.0f, 3.0f}}) {
            Vec3 r1 = u.rotate(t), r2 = u.to_mat() * t, r3 = u.rotate(x.rotate(t)), r4 = (u * x).rotate(t), r5 = u.to_mat().rotate(x.to_mat().rotate(t));
            for(u64 i = 0; i < 3; i++) MC_CHECK(near(r1[i], r2[i]) && near(r3[i], r4[i]) && near(r3[i], r5[i]), "rotating %s: quaternion and matrix disagree", str(t).c_str());
            MC_CHECK(near(r1.norm(), t.norm()), "rotation changes a length");
        }
        MC_CHECK(is_rotation(u.to_mat()), "matrix of a unit quaternion");
        D4 want = of(u.to_mat());
        Vec3 eu = u.to_euler(), ep = p.to_euler();
        MC_CHECK(nearm(Quat::euler(eu).to_mat(), want, 2e-3) && nearm(Quat::euler(ep).to_mat(), want, 2e-3), "to_euler of (%g %g %g %g) is %s", a[0], a[1], a[2], a[3], str(eu).c_str());
    }
    c.op("(%g %g %g %g) (%g %g %g %g)", a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]);
    c.state(mc::hash_bytes(a, sizeof a, mc::hash_bytes(b, sizeof b)));
}
static void eulers(mc::Ctx& c) {
    i32 step = c.tier(30, 15);
    u32 n = (u32)(720 / step + 1);
    i32 x = (i32)c.choose(n, "x") * step - 360, y = (i32)c.choose(n, "y") * step - 360, z = (i32)c.choose(n, "z") * step - 360;
    D4 want = rodrigues(z, Vec3{0.0f, 0.0f, 1.0f}) * rodrigues(y, Vec3{0.0f, 1.0f, 0.0f}) * rodrigues(x, Vec3{1.0f, 0.0f, 0.0f});
    Quat q = Quat::euler(Vec3{(f32)x, (f32)y, (f32)z});
    Mat4 m = q.to_mat();
    MC_CHECK(nearm(m, want, 1e-4), "euler(%d, %d, %d) is %s", x, y, z, str(m).c_str());
    Vec3 e = m.to_euler();
    Mat4 back = Quat::euler(e).to_mat();
    MC_CHECK(nearm(back, want, 2e-3), "to_euler of the rotation (%d, %d, %d) is %s", x, y, z, str(e).c_str());
    c.op("euler %d %d %d", x, y, z);
    c.state(mc::mix(mc::mix((u64)x, (u64)y), (u64)z));
}
// --- boxes
static void boxes(mc::Ctx& c) {
    static const f32 v[] = {-2, 0, 1};
    u32 n = c.choose(3, "points");
    BBox box;
    MC_CHECK(box.empty() && box.surface_area() == 0, "a new box is not empty");
    f32 lo[3], hi[3];
    for(u32 k = 0; k < n; k++) {
        Vec3 p;
        for(int i = 0; i < 3; i++) {
            p[i] = v[c.choose(3, "coordinate")];
            lo[i] = k ? std::min(lo[i], p[i]) : p[i];
            hi[i] = k ? std::max(hi[i], p[i]) : p[i];
        }
        if(k == 1) { // the same through a box
            BBox other, copy = box;
            other.enclose(p);
            copy.enclose(other);
            BBox e;
            copy.enclose(e);
            for(u64 i = 0; i < 3; i++) MC_CHECK(copy.min[i] == lo[i] && copy.max[i] == hi[i], "enclosing a box");
        }
        box.enclose(p);
    }
    MC_CHECK(box.empty() == (n == 0), "empty");
    if(n) {
        for(u64 i = 0; i < 3; i++) MC_CHECK(box.min[i] == lo[i] && box.max[i] == hi[i] && box.center()[i] == (lo[i] + hi[i]) / 2, "bounds of the points");
        f64 x = hi[0] - lo[0], y = hi[1] - lo[1], z = hi[2] - lo[2];
        MC_CHECK(box.surface_area() == (f32)(2 * (x * y + y * z + z * x)), "surface area");
    }
    Mat4 m = gen(c.choose(6, "transform")); // affine except 5
    m[0].w = m[1].w = m[2].w = 0.0f, m[3].w = 1.0f;
    if(c.choose(2, "moved")) m = Mat4::translate(Vec3{0.5f, 4.0f, -1.0f}) * m;
    BBox t = box;
    t.transform(m);
    if(n == 0) MC_CHECK(t.empty(), "transforming an empty box gives a box");
    else {
        f64 tl[3], th[3];
        for(u32 k = 0; k < 8; k++) {
            Vec3 p = m * Vec3{k & 1 ? hi[0] : lo[0], k & 2 ? hi[1] : lo[1], k & 4 ? hi[2] : lo[2]};
            for(u64 i = 0; i < 3; i++) {
                tl[i] = k ? std::min(tl[i], (f64)p[i]) : p[i];
                th[i] = k ? std::max(th[i], (f64)p[i]) : p[i];
            }
        }
        for(u64 i = 0; i < 3; i++) MC_CHECK(near(t.min[i], tl[i]) && near(t.max[i], th[i]), "the transformed box has %g..%g for %g..%g in dimension %llu", t.min[i], t.max[i], tl[i], th[i], (unsigned long long)i);
        if(tl[2] >= 0) {
            Vec2 a, b;
            box.project(m, a, b);
            MC_CHECK(near(a.x, tl[0]) && near(a.y, tl[1]) && near(b.x, th[0]) && near(b.y, th[1]), "projected bounds");
        }
    }
    BBox r = t;
    r.reset();
    MC_CHECK(r.empty(), "a reset box is not empty");
    BBox lit{Vec3{-1.0f, 2.0f, 3.0f}, Vec3{1.0f, 2.0f, 5.0f}};
    MC_CHECK(!lit.empty() && lit.surface_area() == 8.0f && lit.center() == (Vec3{0.0f, 2.0f, 4.0f}), "literal box");
    lit.max[c.choose(3, "inverted")] = -9.0f;
    MC_CHECK(lit.empty() && lit.surface_area() == 0, "an inverted box is not empty");
    c.op("box of %u points", n);
    c.state(mc::hash_bytes(&t, sizeof t, mc::hash_bytes(&box, sizeof box)));
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "N02";
    m.bounds = "all pairs of vectors of 2-5 lanes of f32, f64, i32, u32 (and i64, u8 of 3) with lanes from 3-5 values; SIMD lanes over all pairs of 15 special values in each position; all products of up to 4 (thorough 5) of 8 matrices; "
               "125 directions with 49 angles; cameras over lattices; all pairs of quaternions over 4 values per component; Euler angles in steps of 30 (thorough 15) degrees over two turns each way; boxes of up to 2 of 27 points under 12 affine maps.";
    m.assumptions.push_back("floating point results are compared within a tolerance wherever rounding may differ; exact lattice values are compared exactly");
    m.add("f32x2", vect<f32, 2>, 2);
    m.add("f32x3", vect<f32, 3>, 3);
    m.add("f32x4", vect<f32, 4>, 3);
    m.add("f32x5", vect<f32, 5>, 3);
    m.add("f64x3", vect<f64, 3>, 3);
    m.add("f64x4", vect<f64, 4>, 3);
    m.add("i32x2", vect<i32, 2>, 2);
    m.add("i32x3", vect<i32, 3>, 3);
    m.add("i32x4", vect<i32, 4>, 3);
    m.add("u32x3", vect<u32, 3>, 3);
    m.add("u32x4", vect<u32, 4>, 3);
    m.add("i64x3", vect<i64, 3>, 3);
    m.add("swizzle_f32", swizzle<f32>, 1);
    m.add("swizzle_i32", swizzle<i32>, 1);
    m.add("cross", crossp, 3);
    m.add("simd", simd, 2);
    m.add("matrices", matrices, 3);
    m.add("builders", builders, 2);
    m.add("cameras", cameras, 3);
    m.add("quaternions", quats, 3);
    m.add("euler", eulers, 2);
    m.add("boxes", boxes, 3);
    return m.run(argc, argv);
}
