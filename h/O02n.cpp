// O02, second part: options, variants, tuples and pairs of the library's own types.
#include "nest.h"
using namespace nest;

struct Mark {
    i32 v;
};
template<typename K>
static void body(mc::Ctx& c) {
    using T = typename K::T;
    using Va = Variant<T, Mark>;
    i32 next = 1;
    Opt<T> a, b;
    i32 oa = -2, ob = -2; // -2: empty, -3: moved from
    Va v{Mark{0}}, w{K::make(next)};
    i32 mv = -2, mw = next++; // -2: a mark
    Tuple<i32, T> t{i32{5}, K::make(next)};
    i32 mt = next++;
    Pair<T, T> p{K::make(next), K::make(next + 1)};
    i32 mp[2] = {next, next + 1};
    next += 2;
    for(int d = 0; d < c.tier(5, 6); d++) {
        u32 op = c.choose(15, "op");
        if(op == 0) break;
        switch(op) {
        case 1: a = Opt<T>{K::make(next)}, oa = next++; break;
        case 2: a.clear(), oa = -2; break;
        case 3: a = rpp::move(b), oa = ob, ob = -3; break;
        case 4: a.emplace(K::make(next)), oa = next++; break;
        case 5:
            if(ob == -3) return;
            swap(a, b), std::swap(oa, ob);
            break;
        case 6:
            if constexpr(can_clone<T>) b = a.clone(), ob = oa;
            else return;
            break;
        case 7: v = Va{K::make(next)}, mv = next++; break;
        case 8: v = Va{Mark{0}}, mv = -2; break;
        case 9: swap(v, w), std::swap(mv, mw); break;
        case 10: {
            Va x = rpp::move(v);
            MC_CHECK(x.match(Overload{[&](const T& y) { return mv >= 0 && K::is(y, mv); }, [&](const Mark&) { return mv == -2; }}), "moved variant");
            v = rpp::move(x);
        } break;
        case 11:
            if constexpr(can_clone<T>) t.template get<1>() = p.first.clone(), mt = mp[0];
            else t.template get<1>() = K::make(next), mt = next++;
            break;
        case 12: {
            Tuple<i32, T> x = rpp::move(t);
            MC_CHECK(x.template get<0>() == 5 && K::is(x.template get<1>(), mt), "moved tuple");
            t = rpp::move(x);
        } break;
        case 13: swap(p.first, p.second), std::swap(mp[0], mp[1]); break;
        case 14: {
            Pair<T, T> x = rpp::move(p);
            p = Pair<T, T>{K::make(next), rpp::move(x.first)};
            mp[1] = mp[0], mp[0] = next++;
        } break;
        }
        const Opt<T>&ca = a, &cb = b;
        if(oa != -3 && (ca.ok() != (oa >= 0) || (ca.ok() && !K::is(*ca, oa)))) mc::fail("option after operation %u", op);
        if(ob != -3 && (cb.ok() != (ob >= 0) || (cb.ok() && !K::is(*cb, ob)))) mc::fail("second option after operation %u", op);
        if(oa == -3) a.clear(), oa = -2;
        auto is = [&](const Va& x, i32 m) { return x.match(Overload{[&](const T& y) { return m >= 0 && K::is(y, m); }, [&](const Mark&) { return m == -2; }}); };
        if(!is(v, mv) || !is(w, mw)) mc::fail("variants after operation %u", op);
        const auto& ct = t;
        if(ct.template get<0>() != 5 || !K::is(ct.template get<1>(), mt)) mc::fail("tuple after operation %u", op);
        if(!K::is(p.first, mp[0]) || !K::is(p.second, mp[1])) mc::fail("pair after operation %u", op);
        c.op("op %u", op);
        i32 st[] = {oa, ob, mv, mw, mt, mp[0], mp[1]};
        c.state(mc::hash_bytes(st, sizeof st));
    }
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "O02";
    m.bounds = "every history of 5 (thorough 6) of 14 operations on two options, two variants, a tuple and a pair of 17 of the library's own types";
    m.assumptions = {};
    m.add("nested", [](mc::Ctx& c) {
        begin_exec();
        any_kind(c, [&]<typename K>() { body<K>(c); });
        end_exec("nested");
    }, 3);
    return m.run(argc, argv);
}
