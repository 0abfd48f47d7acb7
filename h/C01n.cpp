// C01, second part: sequences whose elements are themselves values of the library.
#include "nest.h"
using namespace nest;

// Two vectors and a stack under every history; -1 stands for a default element.
template<typename K>
static void body(mc::Ctx& c) {
    using T = typename K::T;
    Vec<T, TA> a, b;
    Stack<T, TA> s;
    std::vector<i32> ma, mb, ms;
    i32 next = 1;
    u32 start = c.choose(4, "start");
    for(u32 i = 0; i < start * 4 - (start == 2); i++) a.push(K::make(next)), ma.push_back(next++); // 0, 4, 7, 12
    auto same = [](const T& x, i32 v) {
        if constexpr(has_blank<K>)
            if(v < 0) return K::blank(x);
        return K::is(x, v);
    };
    for(int d = 0; d < c.tier(4, 5); d++) {
        u32 k = c.choose(12, "op");
        if(k == 0) break;
        switch(k) {
        case 1: a.push(K::make(next)), ma.push_back(next++); break;
        case 2:
            if(ma.empty()) return;
            a.pop(), ma.pop_back();
            break;
        case 3: a = rpp::move(b), ma = mb, mb.clear(), b = Vec<T, TA>{}; break;
        case 4: swap(a, b), std::swap(ma, mb); break;
        case 5: a.clear(), ma.clear(); break;
        case 6: a.reserve(a.capacity() + 1); break;
        case 7:
            if(ma.size() < 2) return;
            swap(a[0], a[ma.size() - 1]), std::swap(ma[0], ma[ma.size() - 1]);
            break;
        case 8:
            if(ma.empty()) return;
            a[ma.size() / 2] = K::make(next), ma[ma.size() / 2] = next++;
            break;
        case 9: s.push(K::make(next)), ms.push_back(next++), s.push(K::make(next)), ms.push_back(next++); break;
        case 10: {
            u64 n = ma.size() / 2 + (u64)c.choose(2, "more") * (ma.size() + 3);
            if constexpr(has_blank<K>) a.resize(n), ma.resize(n, -1);
            else return;
        } break;
        case 11:
            if constexpr(can_clone<T>) b = a.clone(), mb = ma;
            else return;
            break;
        }
        if(a.length() != ma.size() || b.length() != mb.size()) mc::fail("lengths are %llu and %llu, not %zu and %zu", (unsigned long long)a.length(), (unsigned long long)b.length(), ma.size(), mb.size());
        u64 i = 0;
        for(const T& x : a)
            if(!same(x, ma[i++])) mc::fail("element %llu after operation %u", (unsigned long long)i - 1, k);
        i = 0;
        for(const T& x : b)
            if(!same(x, mb[i++])) mc::fail("element %llu of the other after operation %u", (unsigned long long)i - 1, k);
        MC_CHECK(s.empty() == ms.empty() && (ms.empty() || same(s.top(), ms.back())), "stack");
        c.op("op %u", k);
        c.state(mc::hash_bytes(ma.data(), ma.size() * 4, mc::hash_bytes(mb.data(), mb.size() * 4, ms.size())));
    }
    while(!ms.empty()) {
        MC_CHECK(same(s.top(), ms.back()), "top of the stack");
        s.pop(), ms.pop_back();
    }
    if constexpr(has_blank<K>) {
        auto m = Vec<T, TA>::make(start * 3);
        for(const T& x : m) MC_CHECK(K::blank(x), "made element");
        Array<T, 3> arr;
        for(const T& x : arr) MC_CHECK(K::blank(x), "element of an array");
        arr[1] = K::make(next);
        Array<T, 3> brr = rpp::move(arr);
        MC_CHECK(K::is(brr[1], next) && K::blank(brr[0]) && K::blank(brr[2]), "moved array");
        if constexpr(can_clone<T>) {
            Array<T, 3> crr = brr.clone();
            MC_CHECK(K::is(crr[1], next) && K::is(brr[1], next) && K::blank(crr[2]), "cloned array");
        }
    }
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "C01";
    m.bounds = "every history of 4 (thorough 5) of 11 operations on two vectors and a stack of 0, 4, 7 and 12 elements of 17 of the library's own types";
    m.assumptions = {};
    m.add("nested", [](mc::Ctx& c) {
        begin_exec();
        any_kind(c, [&]<typename K>() { body<K>(c); });
        end_exec("nested");
    }, 3);
    return m.run(argc, argv);
}
