// C03, second part: maps whose values are themselves values of the library.
#include "nest.h"
using namespace nest;

template<typename K>
static void body(mc::Ctx& c) {
    using T = typename K::T;
    Map<i32, T, TA> a, b;
    std::vector<i32> ma(12, -2), mb = ma; // -2: absent, -1: a default value
    i32 next = 1;
    static const u32 kStart[] = {0, 3, 7};
    u32 start = kStart[c.choose(3, "start")];
    for(u32 i = 0; i < start; i++) a.insert((i32)i, K::make(next)), ma[i] = next++;
    auto same = [](const T& x, i32 v) {
        if constexpr(has_blank<K>)
            if(v == -1) return K::blank(x);
        return K::is(x, v);
    };
    auto size = [](const std::vector<i32>& m) {
        u64 n = 0;
        for(i32 v : m) n += v != -2;
        return n;
    };
    for(int d = 0; d < c.tier(4, 5); d++) {
        u32 op = c.choose(11, "op");
        if(op == 0) break;
        i32 k = 0;
        if(op <= 3 || op == 9 || op == 10) k = (i32)c.choose(3, "key") * 4 + (op == 10); // first, mostly present, absent
        switch(op) {
        case 1: a.insert(i32{k}, K::make(next)), ma[(u32)k] = next++; break;
        case 2: {
            bool had = a.try_erase(k);
            MC_CHECK(had == (ma[(u32)k] != -2), "try_erase(%d)", k);
            ma[(u32)k] = -2;
        } break;
        case 3:
            if constexpr(has_blank<K>) {
                T& x = a.get_or_insert(k);
                if(ma[(u32)k] == -2) ma[(u32)k] = -1;
                MC_CHECK(same(x, ma[(u32)k]), "get_or_insert(%d)", k);
            } else return;
            break;
        case 4: a = rpp::move(b), ma = mb, mb.assign(12, -2), b = Map<i32, T, TA>{}; break;
        case 5: swap(a, b), std::swap(ma, mb); break;
        case 6: a.clear(), ma.assign(12, -2); break;
        case 7: a.reserve(a.length() * 2 + 3); break;
        case 8:
            if constexpr(can_clone<T>) b = a.clone(), mb = ma;
            else return;
            break;
        case 9: {
            auto f = a.try_get(k);
            MC_CHECK(f.ok() == (ma[(u32)k] != -2), "try_get(%d)", k);
            if(f.ok()) **f = K::make(next), ma[(u32)k] = next++;
        } break;
        case 10: a.emplace(i32{k}, K::make(next)), ma[(u32)k] = next++; break;
        }
        const Map<i32, T, TA>* ms[2] = {&a, &b};
        for(int w = 0; w < 2; w++) {
            auto& m = w ? mb : ma;
            u64 n = size(m);
            if(ms[w]->length() != n) mc::fail("%llu entries, not %llu", (unsigned long long)ms[w]->length(), (unsigned long long)n);
            for(i32 i = 0; i < 12; i++) {
                auto f = ms[w]->try_get(i);
                if(f.ok() != (m[(u32)i] != -2) || (f.ok() && !same(**f, m[(u32)i]))) mc::fail("entry %d after operation %u", i, op);
                if(f.ok() && &ms[w]->get(i) != &**f) mc::fail("two values for one key");
            }
            u64 seen = 0;
            for(auto& [key, value] : *ms[w]) {
                if(key < 0 || key > 11 || m[(u32)key] == -2 || !same(value, m[(u32)key])) mc::fail("iteration meets a wrong entry %d", key);
                seen++;
            }
            if(seen != n) mc::fail("iteration meets %llu of %llu entries", (unsigned long long)seen, (unsigned long long)n);
        }
        c.op("op %u key %d", op, k);
        c.state(mc::hash_bytes(ma.data(), ma.size() * 4, mc::hash_bytes(mb.data(), mb.size() * 4)));
    }
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "C03";
    m.bounds = "every history of 4 (thorough 5) of 10 operations on two maps of 0, 3 and 7 entries whose values are of 17 of the library's own types";
    m.assumptions = {};
    m.add("nested", [](mc::Ctx& c) {
        begin_exec();
        any_kind(c, [&]<typename K>() { body<K>(c); });
        end_exec("nested");
    }, 3);
    return m.run(argc, argv);
}
