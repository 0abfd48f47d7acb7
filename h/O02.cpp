// O02: Opt, Variant, Tuple, Pair and Storage hold exactly what was put in, for every history.
#include "elem.h"
#include <rpp/base.h>
#include <rpp/box.h>
#include <rpp/tuple.h>
#include <rpp/variant.h>
using namespace rpp;
using namespace el;

// --- Opt
// model: -1 empty, -2 moved from (contents unspecified), else the value
template<typename T>
static void opt(mc::Ctx& c) {
    begin_exec();
    {
        constexpr int N = 2;
        Opt<T> s[N];
        int val[N] = {-1, -1};
        int next = 0;
        for(int d = 0; d < c.tier(5, 6); d++) {
            u32 k = c.choose(1 + 2 * 9, "op");
            if(k == 0) break;
            int a = (int)(k - 1) / 9, op = (int)(k - 1) % 9, b = 1 - a;
            switch(op) {
            case 0: s[a] = T(next), val[a] = next++; break;
            case 1: s[a] = Opt<T>(next), val[a] = next++; break;
            case 2: s[a].emplace(next), val[a] = next++; break;
            case 3:
                if(val[b] == -2) return;
                s[a] = rpp::move(s[b]);
                val[a] = val[b];
                if(val[b] >= 0 && !is_pod<T>::v) val[b] = -2;
                break;
            case 4:
                s[a] = rpp::move(s[a]);
                if(val[a] >= 0 && !s[a].ok()) val[a] = -1;
                break;
            case 5:
                if(val[b] == -2) return;
                if constexpr(Clone<T> || Copy_Constructable<T>) s[a] = s[b].clone(), val[a] = val[b];
                break;
            case 6: s[a].clear(), val[a] = -1; break;
            case 7: {
                if(val[a] == -2) return;
                Opt<T> t(rpp::move(s[a]));
                MC_CHECK(t.ok() == (val[a] >= 0), "moved");
                if(val[a] >= 0) MC_CHECK(t->get() == val[a], "moved value");
                s[a] = rpp::move(t);
            } break;
            case 8: // its own value
                if(val[a] < 0) return;
                s[a] = rpp::move(*s[a]);
                break;
            }
            c.op("opt %d op %d", a, op);
            i64 alive = 0;
            for(int i = 0; i < N; i++) {
                if(val[i] == -2) continue;
                MC_CHECK(s[i].ok() == (val[i] >= 0), "ok() of option %d is %d", i, s[i].ok());
                T other(99);
                const Opt<T>& cs = s[i];
                T& r = s[i].value_or(other);
                MC_CHECK(r.get() == (val[i] >= 0 ? val[i] : 99), "value_or");
                if(val[i] < 0) continue;
                alive++;
                MC_CHECK(s[i]->get() == val[i] && (*s[i]).get() == val[i] && cs->get() == val[i] && (*cs).get() == val[i], "option %d holds another value", i);
            }
            if(!is_pod<T>::v) MC_CHECK(L.nlive == alive, "%lld values alive, %lld held", (long long)L.nlive, (long long)alive);
            c.state((u64)(val[0] + 2 > 2 ? 3 : val[0] + 2) * 4 + (u64)(val[1] + 2 > 2 ? 3 : val[1] + 2));
        }
    }
    end_exec("opt");
}
static void opt_copy(mc::Ctx& c) { // trivially copyable options are copied
    Opt<Pod> s[2];
    int val[2] = {-1, -1};
    for(int d = 0; d < 5; d++) {
        u32 k = c.choose(9, "op");
        if(k == 0) break;
        int a = (int)(k - 1) & 1, op = (int)(k - 1) >> 1;
        if(op == 0) s[a] = Opt<Pod>(d), val[a] = d;
        if(op == 1) s[a] = s[1 - a], val[a] = val[1 - a];
        if(op == 2) {
            Opt<Pod> t(s[a]);
            s[1 - a] = rpp::move(t), val[1 - a] = val[a];
        }
        if(op == 3) s[a] = Opt<Pod>(), val[a] = -1;
        for(int i = 0; i < 2; i++) {
            MC_CHECK(s[i].ok() == (val[i] >= 0), "ok");
            if(val[i] >= 0) MC_CHECK(s[i]->get() == val[i], "value");
        }
        c.op("opt<Pod> %d %d", op, a);
        c.state((u64)(val[0] >= 0) * 2 + (u64)(val[1] >= 0));
    }
}
struct Chain {
    Tok v;
    Opt<Box<Chain, TA>> next;
    explicit Chain(i32 x) : v(x) {
    }
    Chain(Chain&&) = default;
    Chain& operator=(Chain&&) = default;
};
static void opt_chain(mc::Ctx& c) { // an option replaced by one inside its value
    begin_exec();
    {
        Opt<Box<Chain, TA>> head;
        std::vector<i32> model;
        for(int d = 0; d < 8; d++) {
            u32 k = c.choose(4, "op");
            if(k == 0) break;
            if(k == 3) { // the value of an option inside its value
                if(model.size() < 2) return;
                head = rpp::move(*(*head)->next);
                model.erase(model.begin());
            } else if(k == 1) {
                Box<Chain, TA> n{Chain(d)};
                n->next = rpp::move(head);
                head = Opt<Box<Chain, TA>>(rpp::move(n));
                model.insert(model.begin(), d);
            } else {
                if(model.empty()) return;
                u64 i = c.choose((u32)model.size(), "which");
                auto* p = &head;
                for(u64 j = 0; j < i; j++) p = &(**p)->next;
                *p = rpp::move((**p)->next);
                model.erase(model.begin() + (long)i);
            }
            auto* p = &head;
            for(i32 v : model) {
                MC_CHECK(p->ok() && (**p).ok() && (**p)->v.get() == v, "element %d", v);
                p = &(**p)->next;
            }
            MC_CHECK(!p->ok() || !(**p).ok(), "longer than expected");
            MC_CHECK(L.nlive == (i64)model.size(), "values alive");
            c.op("chain %u", k);
            c.state(model.size());
        }
    }
    end_exec("chain");
}
// --- Variant: alternative i holds value v; V::Alt<i>
template<typename V, u64 I> struct Alt;
template<typename... Ts, u64 I> struct Alt<Variant<Ts...>, I> {
    using T = Choose<I, Ts...>;
};
template<typename V> struct Count;
template<typename... Ts> struct Count<Variant<Ts...>> {
    static constexpr u64 n = sizeof...(Ts);
};
static i32 read(const Tok& t) { return t.get(); }
static i32 read(const CTok& t) { return t.get(); }
static i32 read(const MTok& t) { return t.get(); }
static i32 read(const Pod& t) { return t.get(); }
static i32 read(i32 t) { return t; }
static i32 read(u8 t) { return t; }
static i32 read(u64 t) { return (i32)t; }
template<Literal N, typename T> static i32 read(const Named<N, T>& t) { return read(t.value); }
template<typename T, u64 I> static i32 read(const Box<Tok, TA>& t) { return t->get(); }
static i32 read(const Box<Tok, TA>& t) { return t->get(); }
template<typename T> struct Mk {
    static T of(i32 v) { return T(v); }
};
template<Literal N, typename T> struct Mk<Named<N, T>> {
    static Named<N, T> of(i32 v) { return Named<N, T>{T(v)}; }
};
template<typename V> using Maker = V (*)(i32);
template<typename V, u64 I> static V make_alt(i32 v) {
    return V(Mk<typename Alt<V, I>::T>::of(v));
}
template<typename V, u64... Is> static V make_n(u64 i, i32 v, Index_Sequence<Is...>) {
    static constexpr Maker<V> table[] = {&make_alt<V, Is>...};
    return table[i](v);
}
template<typename V> static V make_v(u64 i, i32 v) {
    return make_n<V>(i, v, Make_Index_Sequence<Count<V>::n>{});
}
template<typename V> struct Which;
template<typename... Ts> struct Which<Variant<Ts...>> {
    template<typename T> static constexpr u64 of() {
        u64 i = 0, r = 99;
        ((Same<T, Ts> ? r = i++ : i++), ...);
        return r;
    }
};
template<typename V>
static void check_variant(V& v, u64 alt, i32 val) {
    const V& cv = v;
    MC_CHECK(v.index() == alt, "index %u, expected %lu", v.index(), alt);
    int calls = 0;
    u64 seen = v.match([&](auto& x) -> u64 {
        calls++;
        MC_CHECK(read(x) == val, "alternative %lu holds %d, expected %d", alt, read(x), val);
        return Which<V>::template of<Decay<decltype(x)>>();
    });
    MC_CHECK(calls == 1 && seen == alt, "match visited alternative %lu, holds %lu", seen, alt);
    seen = cv.match([&](const auto& x) -> u64 {
        MC_CHECK(read(x) == val, "alternative %lu holds %d, expected %d", alt, read(x), val);
        return Which<V>::template of<Decay<decltype(x)>>();
    });
    MC_CHECK(seen == alt, "const match visited alternative %lu, holds %lu", seen, alt);
}
template<typename V>
static void variant(mc::Ctx& c, bool clones, i64 tokens_per[]) {
    begin_exec();
    {
        constexpr u64 n = Count<V>::n;
        u64 alt[2] = {0, n - 1};
        i32 val[2] = {100, 101};
        bool moved[2] = {false, false};
        V s[2] = {make_v<V>(0, 100), make_v<V>(n - 1, 101)};
        i32 next = 1;
        for(int d = 0; d < c.tier(n > 8 ? 3 : n > 4 ? 4 : 5, n > 4 ? 5 : 6); d++) {
            u32 k = c.choose(1 + 2 * (5 + (u32)n), "op");
            if(k == 0) break;
            int a = (int)(k - 1) & 1, op = (int)(k - 1) >> 1, b = 1 - a;
            if(op >= 5) {
                s[a] = make_v<V>((u64)op - 5, next);
                alt[a] = (u64)op - 5, val[a] = next++, moved[a] = false;
            } else if(op == 0) {
                if(moved[b]) return;
                s[a] = rpp::move(s[b]);
                alt[a] = alt[b], val[a] = val[b], moved[a] = false, moved[b] = true;
            } else if(op == 1) {
                if(moved[a]) return;
                s[a] = rpp::move(s[a]);
            } else if(op == 2) {
                if(moved[b] || !clones) return;
                if constexpr(requires { s[b].clone(); }) s[a] = s[b].clone();
                alt[a] = alt[b], val[a] = val[b], moved[a] = false;
            } else if(op == 3) {
                if(moved[a]) return;
                V t(rpp::move(s[a]));
                check_variant(t, alt[a], val[a]);
                s[a] = rpp::move(t);
            } else { // take the value out through an rvalue match
                if(moved[a]) return;
                u64 seen = rpp::move(s[a]).match([&](auto&& x) -> u64 {
                    auto y = rpp::move(x);
                    MC_CHECK(read(y) == val[a], "rvalue match");
                    return Which<V>::template of<Decay<decltype(x)>>();
                });
                MC_CHECK(seen == alt[a], "rvalue match visited alternative %lu, holds %lu", seen, alt[a]);
                moved[a] = true;
            }
            c.op("variant %d op %d", a, op);
            i64 alive = 0;
            for(int i = 0; i < 2; i++) {
                if(moved[i]) continue;
                check_variant(s[i], alt[i], val[i]);
                alive += tokens_per[alt[i]];
            }
            MC_CHECK(L.nlive == alive, "%lld values alive, %lld held", (long long)L.nlive, (long long)alive);
            c.state(alt[0] * 64 + alt[1] * 4 + (u64)moved[0] * 2 + (u64)moved[1]);
        }
    }
    end_exec("variant");
}
template<Literal N, typename T> using Nm = Named<N, T>;
using VMix = Variant<Tok, i32, Pod>;
using VCopy = Variant<u8, CTok, u64, Tok>;
using VPod = Variant<u8, u64, Pod>;
using VMove = Variant<MTok, Box<Tok, TA>>;
using VOne = Variant<Tok>;
using V8 = Variant<Nm<"a", Tok>, Nm<"b", Tok>, Nm<"c", i32>, Nm<"d", Tok>, Nm<"e", u8>, Nm<"f", Tok>, Nm<"g", u64>, Nm<"h", Tok>>;
using V11 = Variant<Nm<"a", Tok>, Nm<"b", u8>, Nm<"c", Tok>, Nm<"d", i32>, Nm<"e", Tok>, Nm<"f", u64>, Nm<"g", Tok>, Nm<"h", i32>, Nm<"i", Tok>, Nm<"j", u8>, Nm<"k", Tok>>;
static i64 tMix[] = {1, 0, 0}, tCopy[] = {0, 1, 0, 1}, tPod[] = {0, 0, 0}, tMove[] = {1, 1}, tOne[] = {1}, t8[] = {1, 1, 0, 1, 0, 1, 0, 1}, t11[] = {1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1};

struct Expr;
using ExprV = Variant<Nm<"leaf", Tok>, Nm<"neg", Box<Expr, TA>>>;
struct Expr {
    ExprV v;
    Expr(Expr&&) = default;
    explicit Expr(ExprV&& x) : v(rpp::move(x)) {
    }
};
static void variant_tree(mc::Ctx& c) { // a variant replaced by part of its own value
    begin_exec();
    {
        ExprV e = Nm<"leaf", Tok>{Tok(7)};
        u64 depth = 0;
        for(int d = 0; d < 7; d++) {
            u32 k = c.choose(4, "op");
            if(k == 0) break;
            if(k == 1) { // wrap
                Nm<"neg", Box<Expr, TA>> w{Box<Expr, TA>(rpp::move(e))};
                e = ExprV(rpp::move(w));
                depth++;
            } else if(k == 2) { // unwrap
                if(!depth) return;
                Expr* in = nullptr;
                e.match(Overload{[](Nm<"leaf", Tok>&) {}, [&](Nm<"neg", Box<Expr, TA>>& b) { in = &*b.value; }});
                e = rpp::move(in->v);
                depth--;
            } else e = rpp::move(e);
            u64 n = 0;
            ExprV* p = &e;
            while(p->index() == 1) {
                ExprV* q = nullptr;
                p->match(Overload{[](Nm<"leaf", Tok>&) {}, [&](Nm<"neg", Box<Expr, TA>>& b) { q = &b.value->v; }});
                p = q;
                n++;
            }
            MC_CHECK(n == depth && L.nlive == 1, "depth %lu, expected %lu", n, depth);
            p->match(Overload{[](Nm<"leaf", Tok>& t) { MC_CHECK(t.value.get() == 7, "leaf"); }, [](Nm<"neg", Box<Expr, TA>>&) {}});
            c.op("tree %u", k);
            c.state(depth);
        }
    }
    end_exec("variant tree");
}
// --- Tuple and Pair
static void tuples(mc::Ctx& c) {
    begin_exec();
    {
        using T3 = Tuple<Tok, i32, MTok>;
        using T4 = Tuple<CTok, Tok, u8, Tok>;
        T3 a(Tok(1), 2, MTok(3)), b(Tok(4), 5, MTok(6));
        T4 p(CTok(7), Tok(8), u8(9), Tok(10)), q(CTok(11), Tok(12), u8(13), Tok(14));
        i32 ma[3] = {1, 2, 3}, mb[3] = {4, 5, 6}, mp[4] = {7, 8, 9, 10}, mq[4] = {11, 12, 13, 14};
        bool moved[4] = {};
        auto cp = [](i32* d, i32* s, int n) { memcpy(d, s, sizeof(i32) * (size_t)n); };
        for(int d = 0; d < c.tier(5, 6); d++) {
            u32 k = c.choose(9, "op");
            if(k == 0) break;
            switch(k) {
            case 1:
                if(moved[1]) return;
                a = rpp::move(b), cp(ma, mb, 3), moved[0] = false, moved[1] = true;
                break;
            case 2: b = T3(Tok(20 + d), 30 + d, MTok(40 + d)), mb[0] = 20 + d, mb[1] = 30 + d, mb[2] = 40 + d, moved[1] = false; break;
            case 3: {
                if(moved[0]) return;
                T3 t(rpp::move(a));
                MC_CHECK(t.get<0>().get() == ma[0] && t.get<1>() == ma[1] && t.get<2>().get() == ma[2], "moved tuple");
                a = rpp::move(t);
            } break;
            case 4:
                if(moved[3]) return;
                p = q.clone(), cp(mp, mq, 4), moved[2] = false;
                break;
            case 5:
                if(moved[2]) return;
                q = rpp::move(p), cp(mq, mp, 4), moved[3] = false, moved[2] = true;
                break;
            case 6:
                if(moved[2]) return;
                p.get<1>() = Tok(50 + d), mp[1] = 50 + d, p.get<2>() = (u8)(60 + d), mp[2] = 60 + d;
                break;
            case 7: {
                if(moved[3]) return;
                i32 sum = q.invoke([&](const CTok& w, const Tok& x, u8 y, const Tok& z) { return w.get() * 1000000 + x.get() * 10000 + y * 100 + z.get(); });
                MC_CHECK(sum == mq[0] * 1000000 + mq[1] * 10000 + mq[2] * 100 + mq[3], "invoke passes other values");
            } break;
            case 8: {
                if(moved[2]) return;
                auto& [w, x, y, z] = p;
                MC_CHECK(w.get() == mp[0] && x.get() == mp[1] && y == mp[2] && z.get() == mp[3], "bindings");
                y = (u8)(70 + d), mp[2] = 70 + d;
            } break;
            }
            i64 alive = 0;
            const T3* ts[2] = {&a, &b};
            const T4* fs[2] = {&p, &q};
            for(int i = 0; i < 2; i++)
                if(!moved[i]) {
                    i32* m = i ? mb : ma;
                    MC_CHECK(ts[i]->get<0>().get() == m[0] && ts[i]->get<1>() == m[1] && ts[i]->get<2>().get() == m[2], "tuple %d", i);
                    alive += 2;
                }
            for(int i = 0; i < 2; i++)
                if(!moved[2 + i]) {
                    i32* m = i ? mq : mp;
                    MC_CHECK(fs[i]->get<0>().get() == m[0] && fs[i]->get<1>().get() == m[1] && fs[i]->get<2>() == m[2] && fs[i]->get<3>().get() == m[3], "tuple %d", 2 + i);
                    alive += 3;
                }
            MC_CHECK(a.length() == 3 && p.length() == 4 && Tuple<>{}.length() == 0, "length");
            // a defaulted move assignment of a class with copy-only members copies them
            MC_CHECK(L.nlive >= alive && L.nlive <= alive + 2, "%lld values alive, %lld held", (long long)L.nlive, (long long)alive);
            c.op("tuple op %u", k);
            c.state((u64)moved[0] * 8 + (u64)moved[1] * 4 + (u64)moved[2] * 2 + (u64)moved[3]);
        }
    }
    end_exec("tuple");
}
template<typename A, typename B>
static void pairs(mc::Ctx& c) {
    begin_exec();
    {
        using P = Pair<A, B>;
        P s[2] = {P(A(1), B(2)), P(A(3), B(4))};
        i32 m[2][2] = {{1, 2}, {3, 4}};
        bool moved[2] = {};
        for(int d = 0; d < 5; d++) {
            u32 k = c.choose(11, "op");
            if(k == 0) break;
            int a = (int)(k - 1) & 1, op = (int)(k - 1) >> 1, b = 1 - a;
            if(op == 0) s[a] = P(A(10 + d), B(20 + d)), m[a][0] = 10 + d, m[a][1] = 20 + d, moved[a] = false;
            else if(op == 1) {
                if(moved[b]) return;
                s[a] = rpp::move(s[b]), m[a][0] = m[b][0], m[a][1] = m[b][1], moved[a] = false, moved[b] = true;
            } else if(op == 2) {
                if(moved[b]) return;
                if constexpr(requires { s[b].clone(); }) s[a] = s[b].clone(), m[a][0] = m[b][0], m[a][1] = m[b][1], moved[a] = false;
            } else if(op == 3) {
                if(moved[a]) return;
                auto& [x, y] = s[a];
                MC_CHECK(read(x) == m[a][0] && read(y) == m[a][1], "bindings");
                s[a].second = B(30 + d), m[a][1] = 30 + d;
            } else {
                if(moved[a]) return;
                P t(rpp::move(s[a]));
                MC_CHECK(read(t.first) == m[a][0] && read(t.second) == m[a][1], "moved");
                s[a] = rpp::move(t);
            }
            for(int i = 0; i < 2; i++)
                if(!moved[i]) {
                    const P& cp = s[i];
                    MC_CHECK(read(s[i].first) == m[i][0] && read(s[i].second) == m[i][1], "pair %d", i);
                    MC_CHECK(read(s[i].template get<0>()) == m[i][0] && read(cp.template get<1>()) == m[i][1], "get of pair %d", i);
                    MC_CHECK(read(cp.template get<0>()) == m[i][0] && read(s[i].template get<1>()) == m[i][1], "get of const pair %d", i);
                }
            c.op("pair op %u", k);
            c.state((u64)moved[0] * 2 + (u64)moved[1]);
        }
    }
    end_exec("pair");
}
// --- values of many sizes and alignments
#define IS(x, seed) \
    if(!(x).is(seed)) mc::fail("%s of a value of %llu bytes aligned to %llu is not what was put in", #x, (unsigned long long)N, (unsigned long long)A)
template<u64 N, u64 A, typename T>
static void sized(bool owns) {
    i64 base = L.nlive;
    {
        using U = Bulk<N / 2 + 1, 2>;
        T a(1), b(2);
        rpp::swap(a, b);
        IS(a, 2);
        IS(b, 1);
        rpp::swap(a, a);
        IS(a, 2);
        Opt<T> o, q(T(3));
        MC_CHECK(!o.ok() && q.ok(), "ok");
        IS(*q, 3);
        o = rpp::move(q);
        IS(*o, 3);
        Opt<T> r(rpp::move(o));
        IS(*r, 3);
        Opt<T> k = r.clone();
        IS(*k, 3);
        IS(*r, 3);
        k = T(9);
        IS(*k, 9);
        k.emplace(8u);
        IS(*k, 8);
        k.clear();
        MC_CHECK(!k.ok(), "cleared");
        rpp::swap(k, r);
        MC_CHECK(k.ok() && !r.ok(), "swapped options");
        IS(*k, 3);
        using V = Variant<U, T, u8>;
        V v(T(4)), w(U(5));
        auto holds = [](V& v, u32 seed) {
            const V& cv = v;
            MC_CHECK(v.index() == 1, "index");
            bool ok = v.match(Overload{[&](T& x) { return x.is(seed); }, [](U&) { return false; }, [](u8&) { return false; }});
            ok = ok && cv.match(Overload{[&](const T& x) { return x.is(seed); }, [](const U&) { return false; }, [](const u8&) { return false; }});
            if(!ok) mc::fail("a variant of a value of %llu bytes aligned to %llu holds something else", (unsigned long long)N, (unsigned long long)A);
        };
        holds(v, 4);
        w = rpp::move(v);
        holds(w, 4);
        if constexpr(requires { w.clone(); }) {
            V x = w.clone();
            holds(x, 4);
            holds(w, 4);
        }
        V y(rpp::move(w));
        holds(y, 4);
        w = V(U(6));
        MC_CHECK(w.index() == 0 && w.match(Overload{[&](U& x) { return x.is(6); }, [](T&) { return false; }, [](u8&) { return false; }}), "the other alternative");
        w = V(u8(200));
        MC_CHECK(w.index() == 2, "a byte");
        rpp::swap(w, y);
        holds(w, 4);
        Pair<T, U> p(T(10), U(11));
        IS(p.first, 10);
        IS(p.second, 11);
        Pair<T, U> p2(rpp::move(p));
        IS(p2.first, 10);
        p = rpp::move(p2);
        IS(p.first, 10);
        IS(p.second, 11);
        Tuple<u8, T, U, T> t(u8(1), T(12), U(13), T(14));
        auto t2 = rpp::move(t);
        t = rpp::move(t2);
        IS(t.template get<1>(), 12);
        IS(t.template get<2>(), 13);
        IS(t.template get<3>(), 14);
        auto t3 = t.clone();
        IS(t3.template get<1>(), 12);
        IS(t3.template get<3>(), 14);
        IS(t.template get<3>(), 14);
        Storage<T> st;
        st.construct(15u);
        IS(*st, 15);
        st.destruct();
    }
    if(owns && L.nlive != base) mc::fail("%lld values of %llu bytes left alive", (long long)(L.nlive - base), (unsigned long long)N);
}
template<u64 N>
static void sized_all() {
    sized<N, 1, Bulk<N, 1>>(false);
    sized<N, 16, Bulk<N, 16>>(false);
    sized<N, 8, Owned<N, 8>>(true);
}
static void sizes(mc::Ctx& c) {
    begin_exec();
    u32 k = c.choose(14, "size");
    switch(k) {
    case 0: sized_all<1>(), sized_all<3>(); break;
    case 1: sized_all<7>(); break;
    case 2: sized_all<8>(), sized_all<12>(); break;
    case 3: sized_all<15>(), sized_all<16>(), sized_all<17>(); break;
    case 4: sized_all<32>(), sized_all<33>(); break;
    case 5: sized_all<64>(), sized_all<65>(); break;
    case 6: sized_all<128>(), sized_all<129>(); break;
    case 7: sized_all<255>(); break;
    case 8: sized_all<256>(), sized_all<257>(); break;
    case 9: sized_all<513>(); break;
    case 10: sized_all<1024>(), sized_all<4097>(); break;
    case 11: sized_all<32768>(); break;
    case 12: sized_all<65535>(), sized_all<65536>(); break;
    default: sized_all<65537>(), sized_all<70001>(); break;
    }
    c.op("size %u", k);
    c.state(k);
    end_exec("sizes");
}
// --- many components
template<u64 I>
struct Case {
    i32 v;
    Tok t;
    u8 pad[I % 29 + 1];
    explicit Case(i32 x) : v(x), t(x) {
        memset(pad, (int)I, sizeof pad);
    }
    Case(Case&&) = default;
    Case& operator=(Case&&) = default;
    Case clone() const {
        return Case(v);
    }
};
template<u64... I>
static void long_tuple(Index_Sequence<I...>) {
    constexpr u64 N = sizeof...(I);
    using T = Tuple<Case<I>...>;
    {
        T t(Case<I>((i32)I * 3)...);
        MC_CHECK(t.length() == N, "length");
        auto same = [](auto& t, i32 add) {
            bool ok = ((t.template get<I>().v == (i32)I * 3 + (I == N / 2 ? add : 0) && t.template get<I>().t.get() == t.template get<I>().v && t.template get<I>().pad[0] == (u8)I) && ...);
            if(!ok) mc::fail("a tuple of %llu components holds something else", (unsigned long long)N);
        };
        same(t, 0);
        T u(rpp::move(t));
        same(u, 0);
        t = rpp::move(u);
        same(t, 0);
        u = t.clone();
        const T& cu = u;
        same(cu, 0);
        t.template get<N / 2>() = Case<N / 2>((i32)(N / 2) * 3 + 1000);
        same(t, 1000);
        same(u, 0);
        u = rpp::move(t);
        same(u, 1000);
    }
    if(L.nlive) mc::fail("%lld values left alive", (long long)L.nlive);
}
static void long_tuples(mc::Ctx& c) {
    begin_exec();
    u32 k = c.choose(8, "components");
    switch(k) {
    case 0: long_tuple(Make_Index_Sequence<1>{}); break;
    case 1: long_tuple(Make_Index_Sequence<2>{}); break;
    case 2: long_tuple(Make_Index_Sequence<5>{}); break;
    case 3: long_tuple(Make_Index_Sequence<7>{}); break;
    case 4: long_tuple(Make_Index_Sequence<8>{}); break;
    case 5: long_tuple(Make_Index_Sequence<9>{}); break;
    case 6: long_tuple(Make_Index_Sequence<17>{}); break;
    default: long_tuple(Make_Index_Sequence<33>{}); break;
    }
    c.op("tuple %u", k);
    c.state(k);
    end_exec("long tuples");
}
// names around values, tuples of nothing, raw storage
static void small_forms(mc::Ctx& c) {
    begin_exec();
    {
        i32 x = 1 + (i32)c.choose(40, "value");
        Named<"Size", i32> n{x};
        const auto& cn = n;
        i32& r = n;
        const i32& cr = cn;
        MC_CHECK(&r == &n.value && &cr == &n.value && r == x, "a named value refers to something else");
        r = x + 1;
        MC_CHECK(n.value == x + 1, "changed through its reference");
        Named<"Token", Tok> t{Tok(x)};
        Tok& tr = t;
        const Tok& ctr = static_cast<const Named<"Token", Tok>&>(t);
        MC_CHECK(tr.get() == x && &ctr == &tr, "named token");
        MC_CHECK(Tuple<>{}.invoke([x] { return x * 2; }) == x * 2, "invoke of nothing");
        Tuple<Tok> one{Tok(x)};
        auto add = [x](const Tok& y) { return y.get() + x; };
        MC_CHECK(one.invoke(add) == x * 2, "invoke of one");
        Storage<Tok> s;
        const Storage<Tok>& cs = s;
        s.construct(x);
        MC_CHECK((*s).get() == x && s->get() == x && (*cs).get() == x && cs->get() == x && (const void*)cs.data() == (const void*)&*s && (void*)s.data() == (void*)&*s, "storage");
        *s = Tok(x + 3);
        MC_CHECK(cs->get() == x + 3, "assigned storage");
        s.destruct();
        s.construct(Tok(x + 4));
        MC_CHECK(cs->get() == x + 4, "storage filled again");
        s.destruct();
        Storage<Pod> p;
        p.construct(x);
        Storage<Pod> p2 = p, p3;
        p3 = p;
        *p = Pod(x + 9);
        MC_CHECK(p2->get() == x && p3->get() == x && p->get() == x + 9, "copied storage");
        c.op("%d", x);
        c.state((u64)x);
    }
    end_exec("small forms");
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "O02";
    m.bounds = "every history of 5 (thorough 6) operations on two options, 3-5 (5-6) on two variants of 1, 2, 3, 4, 8 and 11 alternatives, 5 (6) on tuples and 5 on pairs; "
               "move-only, cloneable, copy-only and trivial values; options and variants replaced by part of their value; values of 23 sizes up to 70001 bytes, plain and owning; tuples of up to 33 components";
    m.assumptions = {"what a moved-from value holds is unspecified"};
    m.add("opt<Tok>", opt<Tok>, 3);
    m.add("opt<CTok>", opt<CTok>, 3);
    m.add("opt<MTok>", opt<MTok>, 3);
    m.add("opt<Pod>", opt<Pod>, 3);
    m.add("opt-copy", opt_copy, 2);
    m.add("opt-chain", opt_chain, 2);
    m.add("variant-mix", [](mc::Ctx& c) { variant<VMix>(c, true, tMix); }, 2);
    m.add("variant-copy", [](mc::Ctx& c) { variant<VCopy>(c, true, tCopy); }, 2);
    m.add("variant-pod", [](mc::Ctx& c) { variant<VPod>(c, true, tPod); }, 2);
    m.add("variant-move", [](mc::Ctx& c) { variant<VMove>(c, false, tMove); }, 2);
    m.add("variant-1", [](mc::Ctx& c) { variant<VOne>(c, true, tOne); }, 2);
    m.add("variant-8", [](mc::Ctx& c) { variant<V8>(c, false, t8); }, 2);
    m.add("variant-11", [](mc::Ctx& c) { variant<V11>(c, false, t11); }, 2);
    m.add("variant-tree", variant_tree, 2);
    m.add("tuples", tuples, 2);
    m.add("pairs-tok-tok", pairs<Tok, Tok>, 2);
    m.add("pairs-ctok-tok", pairs<CTok, Tok>, 2);
    m.add("pairs-tok-ctok", pairs<Tok, CTok>, 2);
    m.add("pairs-pod-ctok", pairs<Pod, CTok>, 2);
    m.add("pairs-mtok-pod", pairs<MTok, Pod>, 2);
    m.add("sizes", sizes, 1);
    m.add("long-tuples", long_tuples, 1);
    m.add("small-forms", small_forms, 1);
    return m.run(argc, argv);
}
