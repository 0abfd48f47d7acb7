// O02, second part: variants of many alternatives.
#include "elem.h"
#include <rpp/base.h>
#include <rpp/variant.h>
using namespace rpp;
using namespace el;
// --- as many alternatives and components as there can be
template<u64 I>
struct Case {
    i32 v;
    Tok t;
    u8 pad[I % 29 + 1];
    explicit Case(i32 x) : v(x), t(x) {
        memset(pad, (int)I, sizeof pad);
    }
    Case(Case&&) = default;
    Case& operator=(Case&&) = default;
    Case clone() const {
        return Case(v);
    }
};
template<u64... I>
static void wide(mc::Ctx& c, Index_Sequence<I...>) {
    constexpr u64 N = sizeof...(I);
    using V = Variant<Case<I>...>;
    using Make = V (*)(i32);
    static constexpr Make make[] = {+[](i32 x) -> V { return V(Case<I>(x)); }...};
    begin_exec();
    {
        u64 i = c.choose((u32)N, "alternative"), j = c.choose(4, "other");
        j = j == 0 ? 0 : j == 1 ? N - 1 : j == 2 ? (i + 1) % N : (i + N / 2) % N;
        auto holds = [](V& v, u64 alt, i32 val) {
            const V& cv = v;
            int calls = 0;
            auto look = [&]<u64 K>(const Case<K>& x) -> u64 {
                calls++;
                if(x.v != val || x.t.get() != val || x.pad[0] != (u8)K || x.pad[sizeof x.pad - 1] != (u8)K) mc::fail("alternative %llu holds %d, expected %d", (unsigned long long)K, x.v, val);
                return K;
            };
            u64 a = v.match([&](auto& x) -> u64 { return look(x); }), b = cv.match([&](auto& x) -> u64 { return look(x); });
            if(v.index() != alt || a != alt || b != alt || calls != 2) mc::fail("alternative %llu of %llu was stored, %llu/%llu/%u found", (unsigned long long)alt, (unsigned long long)N, (unsigned long long)a, (unsigned long long)b, v.index());
        };
        V v = make[i](5), w = make[j](6);
        holds(v, i, 5);
        holds(w, j, 6);
        V k = v.clone();
        holds(k, i, 5);
        w = rpp::move(v);
        holds(w, i, 5);
        v = make[j](7);
        holds(v, j, 7);
        rpp::swap(v, w);
        holds(v, i, 5);
        holds(w, j, 7);
        u64 seen = rpp::move(v).match([](auto&& x) -> u64 {
            auto y = rpp::move(x);
            return (u64)y.t.get() * 1000 + y.pad[0];
        });
        if(seen != 5000 + (u8)i) mc::fail("rvalue match of alternative %llu", (unsigned long long)i);
        v = w.clone();
        holds(v, j, 7);
        if(L.nlive != 3) mc::fail("%lld values alive, 3 held", (long long)L.nlive);
        c.op("%llu/%llu of %llu", (unsigned long long)i, (unsigned long long)j, (unsigned long long)N);
        c.state(i * 256 + j);
    }
    end_exec("wide");
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "O02";
    m.bounds = "variants of 9, 64 and 131 alternatives: each alternative against four others through creation, clone, moves, assignment, swap and matching";
    m.add("wide-9", [](mc::Ctx& c) { wide(c, Make_Index_Sequence<9>{}); }, 1);
    m.add("wide-64", [](mc::Ctx& c) { wide(c, Make_Index_Sequence<64>{}); }, 1);
    m.add("wide-131", [](mc::Ctx& c) { wide(c, Make_Index_Sequence<131>{}); }, 1);
    return m.run(argc, argv);
}
