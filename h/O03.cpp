// O03: Function keeps its callable: every history of construction, moving, replacement and calls.
#include "elem.h"
#include <utility>
#include <errno.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <rpp/base.h>
#include <rpp/box.h>
#include <rpp/vec.h>
using namespace rpp;
using namespace el;

// Callables: k = kind, v = identity. Calling with x yields v * 1000 + x * 10 + (calls made before).
// kind 0: no captures; 1: trivial; 2: owns a Tok; 3: as large as the storage; 4: move-only and copyable values; 5: 16-aligned
struct alignas(16) Wide {
    u64 a, b;
};
constexpr int kKinds = 6;
constexpr i64 kTokens[] = {0, 0, 1, 1, 2, 0};
template<typename F>
static F make(int kind, i32 v) {
    switch(kind) {
    case 0: return F([](i32 x) -> i32 { return 0 * x - 1; });
    case 1: return F([v, n = 0](i32 x) mutable -> i32 { return v * 1000 + x * 10 + n++; });
    case 2: return F([t = Tok(v), n = 0](i32 x) mutable -> i32 { return t.get() * 1000 + x * 10 + n++; });
    case 3: {
        auto f = [t = Tok(v), n = (u32)0, g = (u32)0x600df00d](i32 x) mutable -> i32 {
            MC_CHECK(g == 0x600df00d, "captures damaged");
            return t.get() * 1000 + x * 10 + (i32)n++;
        };
        static_assert(sizeof(f) == 32);
        return F(rpp::move(f));
    }
    case 4: { // move-only values of both kinds, through a box
        struct Two {
            MTok a;
            CTok b;
        };
        return F([t = Box<Two, TA>(Two{MTok(v), CTok(v)}), n = 0](i32 x) mutable -> i32 {
            MC_CHECK(t->a.get() == t->b.get(), "captures damaged");
            return t->a.get() * 1000 + x * 10 + n++;
        });
    }
    default: {
        Wide w{(u64)v, ~(u64)v};
        auto f = [w, n = 0](i32 x) mutable -> i32 {
            MC_CHECK((u64)&w % 16 == 0 && w.b == ~w.a, "captures damaged or misaligned");
            return (i32)w.a * 1000 + x * 10 + n++;
        };
        static_assert(sizeof(f) == 32 && alignof(decltype(f)) == 16);
        return F(rpp::move(f));
    }
    }
}
template<typename F>
static void history(mc::Ctx& c) {
    begin_exec();
    {
        constexpr int N = 2;
        int kind[N] = {1, 2}, calls[N] = {0, 0};
        i32 id[N] = {1, 2};
        bool empty[N] = {};
        F s[N] = {make<F>(1, 1), make<F>(2, 2)};
        i32 next = 3;
        auto call = [&](F& f, int k, i32 v, int n, i32 x) {
            i32 r = f(i32{x});
            MC_CHECK(r == (k == 0 ? -1 : v * 1000 + x * 10 + n), "called with %d: result %d of callable %d (kind %d, call %d)", x, r, v, k, n);
        };
        for(int d = 0; d < c.tier(4, 5); d++) {
            u32 k = c.choose(1 + 2 * (4 + kKinds), "op");
            if(k == 0) break;
            int a = (int)(k - 1) & 1, op = (int)(k - 1) >> 1, b = 1 - a;
            if(op >= 4) {
                s[a] = make<F>(op - 4, next);
                kind[a] = op - 4, id[a] = next++, calls[a] = 0, empty[a] = false;
            } else if(op == 0) {
                s[a] = rpp::move(s[b]);
                kind[a] = kind[b], id[a] = id[b], calls[a] = calls[b], empty[a] = empty[b], empty[b] = true;
            } else if(op == 1) {
                F t(rpp::move(s[a]));
                if(!empty[a]) call(t, kind[a], id[a], calls[a]++, 7);
                s[b] = rpp::move(t);
                kind[b] = kind[a], id[b] = id[a], calls[b] = calls[a], empty[b] = empty[a], empty[a] = true;
            } else if(op == 2) {
                if(empty[a]) return;
                call(s[a], kind[a], id[a], calls[a]++, d + 1);
            } else {
                Vec<F, TA> v; // grows: elements are moved
                v.push(rpp::move(s[a]));
                for(int i = 0; i < 9; i++) v.push(make<F>(2, 50 + i));
                if(!empty[a]) call(v[0], kind[a], id[a], calls[a]++, 3);
                for(int i = 0; i < 9; i++) call(v[(u64)i + 1], 2, 50 + i, 0, i);
                s[a] = rpp::move(v[0]);
            }
            i64 alive = 0;
            for(int i = 0; i < N; i++) {
                if(empty[i]) continue;
                alive += kTokens[kind[i]];
                call(s[i], kind[i], id[i], calls[i]++, 4);
            }
            MC_CHECK(L.nlive == alive, "%lld captured values alive, %lld expected", (long long)L.nlive, (long long)alive);
            c.op("function %d op %d", a, op);
            c.state((u64)kind[0] * 32 + (u64)kind[1] * 4 + (u64)empty[0] * 2 + (u64)empty[1]);
        }
    }
    end_exec("function");
}
// arguments and results pass through exactly once, by value, by reference and by move
static void arguments(mc::Ctx& c) {
    begin_exec();
    {
        u32 k = c.choose(9, "signature");
        i32 v = (i32)c.choose(3, "value") + 5;
        bool moved = c.flip("moved before");
        auto via = [&](auto f, auto&& use) {
            if(moved) {
                auto g = rpp::move(f);
                use(g);
                use(g);
            } else {
                use(f);
                use(f);
            }
        };
        c.op("signature %u", k);
        switch(k) {
        case 0: via(Function<MTok(MTok)>([](MTok t) { return MTok(t.get() + 1); }), [&](auto& f) { MC_CHECK(f(MTok(v)).get() == v + 1, "moved argument"); }); break;
        case 1: via(Function<void(Tok&)>([](Tok& t) { t = Tok(t.get() + 1); }), [&](auto& f) { Tok t(v); f(t); MC_CHECK(t.get() == v + 1, "reference argument"); }); break;
        case 2: via(Function<i32(const Tok&, i32, MTok&&)>([](const Tok& a, i32 b, MTok&& m) { MTok n = rpp::move(m); return a.get() * 100 + b * 10 + n.get(); }), [&](auto& f) { Tok t(v); MC_CHECK(f(t, 3, MTok(v)) == v * 101 + 30, "mixed arguments"); }); break;
        case 3: via(Function<Tok&(Tok&)>([](Tok& t) -> Tok& { return t; }), [&](auto& f) { Tok t(v); MC_CHECK(&f(t) == &t, "reference result"); }); break;
        case 4: via(Function<CTok(const CTok&)>([](const CTok& t) { return CTok(t); }), [&](auto& f) { CTok t(v); MC_CHECK(f(t).get() == v && t.get() == v, "copied result"); }); break;
        case 5: via(Function<i32()>([t = Tok(v)]() { return t.get(); }), [&](auto& f) { MC_CHECK(f() == v, "no arguments"); }); break;
        case 6: via(Function<u64(u8, u16, u32, u64, f32, f64, bool)>([](u8 a, u16 b, u32 d, u64 e, f32 x, f64 y, bool z) -> u64 { return a + b * 10ull + d * 100ull + e * 1000 + (u64)(x * 10000) + (u64)(y * 100000) + z * 1000000ull; }),
                    [&](auto& f) { MC_CHECK(f(1, 2, 3, 4, 5.0f, 6.0, true) == 1654321, "many arguments"); }); break;
        case 7: via(FunctionN<8, i32(i32)>([a = Tok(v), b = Tok(v + 1)](i32 x) { return a.get() * 100 + b.get() * 10 + x; }), [&](auto& f) { MC_CHECK(f(3) == v * 110 + 13, "large storage"); }); break;
        case 8: { // a function holding a function
            Function<i32(i32)> in = [t = Box<Tok, TA>(v)](i32 x) { return t->get() + x; };
            via(FunctionN<8, i32(i32)>([in = rpp::move(in)](i32 x) mutable { return in(x) * 2; }), [&](auto& f) { MC_CHECK(f(3) == (v + 3) * 2, "nested"); });
        } break;
        }
        c.state(k * 8 + (u64)moved);
    }
    end_exec("arguments");
}
// calling an empty function stops the program instead of running anything
template<typename F>
static bool runs(F&& f) {
    pid_t p = fork();
    if(p == 0) {
        struct rlimit none = {0, 0};
        setrlimit(RLIMIT_CORE, &none);
        int n = ::open("/dev/null", O_RDWR);
        dup2(n, 1), dup2(n, 2);
        f();
        _exit(0);
    }
    int st = 0;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static void emptied(mc::Ctx& c) {
    begin_exec();
    {
    int kind = (int)c.choose(kKinds, "kind"), way = (int)c.choose(4, "way");
    using F = Function<i32(i32)>;
    F f = make<F>(kind, 5);
    MC_CHECK(runs([&] { (void)f(1); }), "a function that holds a callable does not run");
    F g = make<F>(1, 6);
    if(way == 0) F h(rpp::move(f));
    else if(way == 1) g = rpp::move(f);
    else if(way == 2) g = rpp::move(f), f = rpp::move(g), g = rpp::move(f);
    else {
        F h(rpp::move(g));
        f = rpp::move(g);
    }
    MC_CHECK(!runs([&] { (void)f(1); }), "a function moved from (way %d) still runs", way);
    f = make<F>(kind, 7);
    MC_CHECK(runs([&] { (void)f(1); }), "a function assigned to after it was moved from does not run");
    c.op("emptied kind %d way %d", kind, way);
    c.state((u64)kind * 4 + (u64)way);
    }
    end_exec("emptied");
}
// a function is assigned itself, or a function that its own callable owns
struct Link {
    Function<i32(i32)> inner;
    Tok t;
};
static void from_itself(mc::Ctx& c) {
    begin_exec();
    {
        using F = Function<i32(i32)>;
        int kind = (int)c.choose(kKinds, "kind"), way = (int)c.choose(3, "way");
        if(way == 0) {
            F f = make<F>(kind, 5);
            F& same = f;
            f = rpp::move(same);
            MC_CHECK(f(1) == (kind == 0 ? -1 : 5010), "a function assigned to itself changes");
        } else {
            // the callable's data holds the function that replaces it
            Box<Link, TA> b{Link{make<F>(kind, 6), Tok(3)}};
            Link* inside = &*b;
            F f([b = rpp::move(b)](i32 x) mutable { return b->inner(x) + b->t.get(); });
            if(way == 2) MC_CHECK(f(2) == (kind == 0 ? 2 : 6023), "nested call");
            f = rpp::move(inside->inner);
            i32 want = kind == 0 ? -1 : 6010 + (way == 2);
            MC_CHECK(f(1) == want, "a function replaced by one of its callable's parts");
        }
        c.op("kind %d way %d", kind, way);
        c.state((u64)kind * 3 + (u64)way);
    }
    end_exec("from itself");
}
// every size of callable in storages of many sizes, called, moved through a vector and called again
template<u64 W, u64 N>
static void sized() {
    struct Bytes {
        u8 b[N];
        u64 operator()(u64 x) {
            u64 h = x;
            for(u64 i = 0; i < N; i++) h = h * 31 + b[i];
            b[x % N]++;
            return h;
        }
    };
    struct Owner { // the same, owning
        Tok t;
        u8 b[N];
        u64 operator()(u64 x) {
            return (u64)t.get() * 1000 + b[x % N];
        }
    };
    Bytes b;
    for(u64 i = 0; i < N; i++) b.b[i] = (u8)(i * 7 + N);
    u8 keep[N];
    memcpy(keep, b.b, N);
    auto expect = [&](u64 x) {
        u64 h = x;
        for(u64 i = 0; i < N; i++) h = h * 31 + keep[i];
        keep[x % N]++;
        return h;
    };
    using F = FunctionN<W, u64(u64)>;
    F f(Bytes{b});
    MC_CHECK(f(3) == expect(3), "a callable of %llu bytes in %llu words", (unsigned long long)N, (unsigned long long)W);
    F g(rpp::move(f));
    MC_CHECK(g(N - 1) == expect(N - 1), "a callable of %llu bytes after a move", (unsigned long long)N);
    Vec<F, TA> v;
    v.push(rpp::move(g));
    for(u64 i = 0; i < 20; i++) v.push(F(Bytes{b}));
    MC_CHECK(v[0](0) == expect(0), "a callable of %llu bytes in a vector", (unsigned long long)N);
    f = rpp::move(v[0]);
    MC_CHECK(f(5) == expect(5), "a callable of %llu bytes assigned", (unsigned long long)N);
    if constexpr(sizeof(Owner) <= W * 8) {
        Owner o{Tok(9), {}};
        memcpy(o.b, b.b, N);
        F h(rpp::move(o));
        MC_CHECK(h(N / 2) == 9000u + b.b[N / 2], "an owning callable with %llu bytes", (unsigned long long)N);
        v[3] = rpp::move(h);
        MC_CHECK(v[3](0) == 9000u + b.b[0], "an owning callable with %llu bytes after a move", (unsigned long long)N);
        f = rpp::move(v[3]);
        MC_CHECK(f(0) == 9000u + b.b[0], "an owning callable with %llu bytes after two moves", (unsigned long long)N);
    }
}
template<u64 W, u64... I>
static void all_sized(std::integer_sequence<u64, I...>) {
    (sized<W, I + 1>(), ...);
}
static void sizes(mc::Ctx& c) {
    begin_exec();
    u32 k = c.choose(7, "words");
    switch(k) {
    case 0: all_sized<1>(std::make_integer_sequence<u64, 8>{}); break;
    case 1: all_sized<2>(std::make_integer_sequence<u64, 16>{}); break;
    case 2: all_sized<3>(std::make_integer_sequence<u64, 24>{}); break;
    case 3: all_sized<4>(std::make_integer_sequence<u64, 32>{}); break;
    case 4: all_sized<5>(std::make_integer_sequence<u64, 40>{}); break;
    case 5: all_sized<8>(std::make_integer_sequence<u64, 64>{}); break;
    default: sized<16, 127>(), sized<16, 128>(), sized<33, 256>(), sized<33, 264>(), sized<64, 511>(), sized<64, 512>(), sized<512, 4095>(), sized<512, 4096>(); break;
    }
    c.op("words %u", k);
    c.state(k);
    end_exec("sizes");
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "O03";
    m.bounds = "every history of 4 (thorough 5) operations on two functions over six kinds of callable (none, trivial, owning, exactly as large as the storage, boxed, 16-aligned); nine signatures; every way of becoming empty; assignment from itself and from its own callable's parts; callables of every size up to 64 bytes, and some up to 4096, in storages of 1-512 words";
    m.assumptions = {"callables are moved in (functions of references do not compile)", "calling an empty function stops the program"};
    m.add("history", history<Function<i32(i32)>>, 3);
    m.add("history-8", history<FunctionN<8, i32(i32)>>, 3);
    m.add("arguments", arguments, 1);
    m.add("emptied", emptied, 1);
    m.add("from-itself", from_itself, 1);
    m.add("sizes", sizes, 1);
    return m.run(argc, argv);
}
