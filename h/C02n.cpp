// C02, second part: queues whose elements are themselves values of the library.
#include "nest.h"
using namespace nest;

template<typename K>
static void body(mc::Ctx& c) {
    using T = typename K::T;
    Queue<T, TA> a, b;
    std::vector<i32> ma, mb;
    i32 next = 1;
    // wrapped around the end of the storage in every way
    u32 start = c.choose(4, "start"), turn = start ? c.choose(8, "turn") : 0;
    static const u32 kStart[] = {0, 3, 7, 8};
    for(u32 i = 0; i < turn; i++) a.push(K::make(0)), a.pop();
    for(u32 i = 0; i < kStart[start]; i++) a.push(K::make(next)), ma.push_back(next++);
    for(int d = 0; d < c.tier(4, 5); d++) {
        u32 k = c.choose(10, "op");
        if(k == 0) break;
        switch(k) {
        case 1: a.push(K::make(next)), ma.push_back(next++); break;
        case 2:
            if(ma.empty()) return;
            a.pop(), ma.erase(ma.begin());
            break;
        case 3: a = rpp::move(b), ma = mb, mb.clear(), b = Queue<T, TA>{}; break;
        case 4: swap(a, b), std::swap(ma, mb); break;
        case 5: a.clear(), ma.clear(); break;
        case 6: a.reserve(a.length() * 2 + 3); break;
        case 7:
            if(ma.size() < 2) return;
            swap(a.front(), a.back()), std::swap(ma.front(), ma.back());
            break;
        case 8:
            if(ma.empty()) return;
            a[ma.size() / 2] = K::make(next), ma[ma.size() / 2] = next++;
            break;
        case 9:
            if constexpr(can_clone<T>) b = a.clone(), mb = ma;
            else return;
            break;
        }
        if(a.length() != ma.size() || b.length() != mb.size()) mc::fail("lengths are %llu and %llu, not %zu and %zu", (unsigned long long)a.length(), (unsigned long long)b.length(), ma.size(), mb.size());
        u64 i = 0;
        for(const T& x : a)
            if(!K::is(x, ma[i++])) mc::fail("element %llu after operation %u", (unsigned long long)i - 1, k);
        for(i = 0; i < mb.size(); i++)
            if(!K::is(b[i], mb[i])) mc::fail("element %llu of the other after operation %u", (unsigned long long)i, k);
        MC_CHECK(ma.empty() || (K::is(a.front(), ma.front()) && K::is(a.back(), ma.back())), "ends");
        c.op("op %u", k);
        c.state(mc::hash_bytes(ma.data(), ma.size() * 4, mc::hash_bytes(mb.data(), mb.size() * 4)));
    }
    u32 left = c.choose(2, "drain");
    while(left && !ma.empty()) {
        MC_CHECK(K::is(a.front(), ma[0]), "front");
        a.pop(), ma.erase(ma.begin());
    }
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "C02";
    m.bounds = "every history of 4 (thorough 5) of 9 operations on two queues of 0, 3, 7 and 8 elements, begun at 8 places of the storage, of 17 of the library's own types";
    m.assumptions = {};
    m.add("nested", [](mc::Ctx& c) {
        begin_exec();
        any_kind(c, [&]<typename K>() { body<K>(c); });
        end_exec("nested");
    }, 3);
    return m.run(argc, argv);
}
