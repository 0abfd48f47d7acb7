// C04: Heap against a multiset.
#include "elem.h"
#include <rpp/heap.h>
#include <algorithm>
using namespace rpp;
using namespace el;

using M = std::vector<int>;

template<typename HH>
static void check_h(const char* w, HH& q, const M& m) {
    const HH& cq = q;
    MC_CHECK(q.length() == m.size(), "%s: length %lu, expected %zu", w, q.length(), m.size());
    MC_CHECK(q.empty() == m.empty(), "%s", w);
    if(!m.empty()) {
        int best = 99;
        for(int v : m) best = std::min(best, v & 7);
        MC_CHECK((q.top().get() & 7) == best && (cq.top().get() & 7) == best,
                 "%s: top has priority %d, least is %d", w, q.top().get() & 7, best);
    }
    M seen;
    for(auto& x : q) seen.push_back(x.get());
    M seen2;
    for(const auto& x : cq) seen2.push_back(x.get());
    M want = m;
    std::sort(seen.begin(), seen.end());
    std::sort(seen2.begin(), seen2.end());
    std::sort(want.begin(), want.end());
    MC_CHECK(seen == want && seen2 == want, "%s: contents differ from what was inserted", w);
}

template<typename T>
static void body(mc::Ctx& c) {
    begin_exec();
    key_mask = 7;
    {
        Heap<T, TA> a, b;
        M ma, mb;
        int id = 0;
        int cap = c.choose(4) * 3;
        if(cap) a = Heap<T, TA>(u64(cap));
        auto fresh = [&](int k) { return (++id << 3) | k; };
        int depth = c.tier(5, 6);
        for(int d = 0; d < depth; d++) {
            int op = c.choose(13);
            switch(op) {
            case 0:
            case 1:
            case 2:
            case 3: {
                int v = fresh(op);
                c.op("push(priority %d)", op);
                a.push(T(v));
                ma.push_back(v);
            } break;
            case 4: {
                if(ma.empty()) break;
                int v = a.top().get();
                c.op("pop");
                a.pop();
                ma.erase(std::find(ma.begin(), ma.end(), v));
            } break;
            case 5: {
                int v = fresh(1);
                c.op("emplace(priority 1)");
                a.emplace(v);
                ma.push_back(v);
            } break;
            case 6:
                c.op("clear");
                a.clear();
                ma.clear();
                break;
            case 7:
                if constexpr(rpp::Clone<T> || rpp::Copy_Constructable<T>) {
                    c.op("b = a.clone()");
                    b = a.clone();
                    mb = ma;
                }
                break;
            case 8:
                c.op("b = move(a)");
                b = rpp::move(a);
                mb = ma;
                ma.clear();
                break;
            case 9:
                c.op("swap");
                rpp::swap(a, b);
                std::swap(ma, mb);
                break;
            case 10:
                c.op("reserve");
                a.reserve(ma.size() + 3);
                break;
            case 11: {
                c.op("Heap t(move(a)); push; a = move(t)");
                Heap<T, TA> t(rpp::move(a));
                MC_CHECK(a.empty(), "moved-from heap not empty");
                int v = fresh(2);
                t.push(T(v));
                ma.push_back(v);
                a.push(T(0));
                a = rpp::move(t);
            } break;
            case 12: {
                int x = fresh(2), y = fresh(0), z = fresh(1);
                c.op("a = {2, 0, 1}");
                a = Heap<T, TA>(T(x), T(y), T(z));
                ma = {x, y, z};
            } break;
            }
            check_h("a", a, ma);
            check_h("b", b, mb);
            MC_CHECK(L.nlive == (i64)(is_pod<T>::v ? 0 : ma.size() + mb.size()), "values alive");
            u64 h = a.full();
            for(auto& x : a) h = mc::mix(h, x.get() & 7);
            h = mc::mix(h, 77);
            for(auto& x : b) h = mc::mix(h, x.get() & 7);
            c.state(h);
        }
    }
    end_exec("heap");
}

// every insertion sequence of n priorities, k pops, then every further insertion, then drain in order
template<typename T>
static void orders(mc::Ctx& c) {
    begin_exec();
    key_mask = 7;
    {
        Heap<T, TA> a;
        M ma;
        int id = 0;
        int n = c.tier(8, 9);
        for(int i = 0; i < n; i++) {
            int k = c.choose(4);
            c.op("push %d", k);
            int v = (++id << 3) | k;
            a.push(T(v));
            ma.push_back(v);
        }
        int pops = c.choose(3) * 2;
        auto pop = [&]() {
            int best = 99;
            for(int v : ma) best = std::min(best, v & 7);
            int v = a.top().get();
            MC_CHECK((v & 7) == best, "popping priority %d while %d is present", v & 7, best);
            auto it = std::find(ma.begin(), ma.end(), v);
            MC_CHECK(it != ma.end(), "top is not an element");
            ma.erase(it);
            a.pop();
            MC_CHECK(a.length() == ma.size(), "length");
        };
        for(int i = 0; i < pops; i++) pop();
        if(pops) {
            int k = c.choose(4);
            c.op("pop x%d, push %d", pops, k);
            int v = (++id << 3) | k;
            a.push(T(v));
            ma.push_back(v);
        }
        check_h("a", a, ma);
        u64 h = 0;
        for(auto& x : a) h = mc::mix(h, x.get() & 7);
        c.state(h);
        while(!ma.empty()) pop();
        MC_CHECK(a.empty(), "empty after draining");
    }
    end_exec("heap");
}

// long: all 3-letter periodic patterns, up to 70 elements
static void longer(mc::Ctx& c) {
    begin_exec();
    key_mask = 7;
    {
        Heap<Tok, TA> a;
        M ma;
        int n = 9 + c.choose(62);
        int p[4];
        for(int& x : p) x = c.choose(5);
        c.op("%d elements, pattern %d%d%d%d", n, p[0], p[1], p[2], p[3]);
        for(int i = 0; i < n; i++) {
            int k = (p[i % 4] + (i / 4) % 3 * p[(i + 1) % 4]) & 7;
            a.push(Tok((i << 3) | k));
            ma.push_back((i << 3) | k);
        }
        check_h("a", a, ma);
        int last = -1;
        for(int i = 0; i < n; i++) {
            int v = a.top().get() & 7;
            MC_CHECK(v >= last, "popped priority %d after %d", v, last);
            last = v;
            a.pop();
        }
        MC_CHECK(a.empty(), "empty after draining");
        c.state(mc::mix(n, last));
    }
    end_exec("heap");
}

template<typename T>
static void large(mc::Ctx& c, u64 top) {
    begin_exec();
    key_mask = -1;
    {
        u64 n = large_size(c, c.tier(top, 16 * top));
        u32 pat = c.choose(9, "order"), res = c.choose(2, "reserved"), mid = c.choose(3, "in between");
        Heap<T, TA> a;
        if(res) a.reserve(n);
        std::vector<int> all;
        auto value = [&](u64 i) -> int {
            switch(pat) {
            case 0: return (int)i;
            case 1: return (int)(n - i);
            case 2: return 7;
            case 3: return (int)(i % 2 ? i : n + n - i);
            case 4: return (int)(i < n / 2 ? i : n - i);
            case 5: return (int)(i * 7919 % (n + 1));
            case 6: return (int)(i * 40503 % 61);
            case 7: return -(int)(i * i % 1009);
            default: return (int)((i ^ (i >> 1)) * 2654435761u >> 12);
            }
        };
        auto drain = [&](u64 k) {
            std::sort(all.begin(), all.end());
            for(u64 i = 0; i < k; i++) {
                MC_CHECK(a.length() == all.size() - i, "length");
                int v = a.top().get();
                MC_CHECK(v == all[i], "popped %d, the least is %d", v, all[i]);
                a.pop();
            }
            all.erase(all.begin(), all.begin() + (i64)k);
        };
        c.op("%lu elements, order %u%s, %u", n, pat, res ? ", reserved" : "", mid);
        for(u64 i = 0; i < n; i++) {
            int v = value(i);
            if(i % 3) a.push(T(v));
            else a.emplace(v);
            all.push_back(v);
        }
        if(mid == 1) {
            drain(n / 2);
            for(u64 i = 0; i < n / 3; i++) {
                int v = value(n - 1 - i);
                a.push(T(v));
                all.push_back(v);
            }
        }
        if(mid == 2) {
            if constexpr(rpp::Clone<T> || rpp::Copy_Constructable<T>) {
                Heap<T, TA> t = a.clone();
                auto u = a.template clone<TB>();
                auto sorted = all;
                std::sort(sorted.begin(), sorted.end());
                for(int v : sorted) {
                    MC_CHECK(u.top().get() == v, "clone into another allocator");
                    u.pop();
                }
                MC_CHECK(u.empty(), "clone into another allocator");
                a = rpp::move(t);
            }
        }
        drain(all.size());
        MC_CHECK(a.empty(), "empty after draining");
        c.state(mc::mix(n, pat * 6 + res * 3 + mid));
    }
    end_exec("heap");
}

// elements of every size: all of each element must follow it
template<typename T>
struct Ranked { // ordered by a rank beside the bulk
    u32 rank;
    T t;
    explicit Ranked(u32 r) : rank(r), t(r) {
    }
    Ranked(Ranked&&) = default;
    Ranked& operator=(Ranked&&) = default;
    Ranked(const Ranked&)
        requires rpp::Copy_Constructable<T>
    = default;
    Ranked& operator=(const Ranked&)
        requires rpp::Copy_Constructable<T>
    = default;
    Ranked clone() const {
        return Ranked(rank);
    }
    bool operator<(const Ranked& o) const {
        return rank < o.rank;
    }
};
template<typename T>
static void width(mc::Ctx& c) {
    u32 n = c.choose(21, "length"), order = c.choose(4, "order"), op = c.choose(5, "op");
    using H = Heap<Ranked<T>, TA>;
    H a;
    std::vector<u32> m;
    auto put = [&](u32 i) {
        u32 r = order == 0 ? i : order == 1 ? 100 - i : order == 2 ? i * 7 % 11 : 5;
        if(i % 2) a.push(Ranked<T>(r));
        else a.emplace(r);
        m.push_back(r);
    };
    auto drain = [&](auto& h, std::vector<u32> m) {
        std::sort(m.begin(), m.end());
        for(u32 r : m) {
            if(h.empty() || h.top().rank != r || !h.top().t.is(r)) mc::fail("the top is not the least element, or damaged (elements of %zu bytes)", sizeof(T));
            h.pop();
        }
        MC_CHECK(h.empty() && h.length() == 0, "drained");
    };
    for(u32 i = 0; i < n; i++) put(i);
    switch(op) {
    case 0: a.reserve(n + 9); break;
    case 1: {
        auto b = a.clone();
        auto d = a.template clone<TB>();
        drain(d, m);
        H e = b.clone();
        drain(e, m);
        a = rpp::move(b);
    } break;
    case 2: {
        H b(rpp::move(a));
        a = rpp::move(b);
    } break;
    case 3:
        std::sort(m.begin(), m.end());
        for(u32 i = 0; i < n / 2; i++) a.pop(), m.erase(m.begin());
        for(u32 i = 0; i < n; i++) put(i + 3);
        break;
    case 4: {
        u64 seen = 0, ranks = 0, want = 0;
        const auto& ca = a;
        for(const auto& x : ca) seen += x.t.is(x.rank), ranks += x.rank;
        for(u32 r : m) want += r;
        MC_CHECK(seen == n && ranks == want, "iteration");
        a.grow();
    } break;
    }
    drain(a, m);
    put(1);
    MC_CHECK(a.length() == 1 && a.top().t.is(a.top().rank), "used again");
    c.op("%u elements of %zu bytes, order %u, operation %u", n, sizeof(T), order, op);
    c.state(mc::mix(sizeof(T) * 64 + n, op * 16 + order));
}
static void widths(mc::Ctx& c) {
    key_mask = -1;
    begin_exec();
    switch(c.choose(14, "width")) {
    case 0: width<Bulk<1, 1>>(c); break;
    case 1: width<Bulk<2, 1>>(c); break;
    case 2: width<Bulk<3, 1>>(c); break;
    case 3: width<Bulk<5, 1>>(c); break;
    case 4: width<Bulk<12, 4>>(c); break;
    case 5: width<Bulk<16, 16>>(c); break;
    case 6: width<Bulk<17, 1>>(c); break;
    case 7: width<Bulk<64, 8>>(c); break;
    case 8: width<Bulk<255, 1>>(c); break;
    case 9: width<Bulk<257, 1>>(c); break;
    case 10: width<Bulk<65537, 1>>(c); break;
    case 11: width<Owned<1, 8>>(c); break;
    case 12: width<Owned<40, 16>>(c); break;
    case 13: width<Owned<1000, 8>>(c); break;
    }
    end_exec("widths");
}

int main(int argc, char** argv) {
    mc::Main m;
    m.property = "C04";
    m.bounds = "all sequences of 5 (6) operations over 13 operations and 4 priorities from 4 capacities; every insertion "
               "sequence of 8 (9) priorities out of 4 followed by pops, one insertion and a drain; periodic patterns to 70 elements; 9 insertion orders of 0..40 elements and around every "
               "power of two up to 256 (trivial elements 2048; thorough 16 times as many); 5 operations on 0..20 elements of 14 sizes up to 65537 bytes in 4 orders";
    m.assumptions = {"operator< of the element type is a strict weak order"};
    m.add("ops<Tok>", body<Tok>, 3);
    m.add("ops<CTok>", body<CTok>, 3);
    m.add("ops<Pod>", body<Pod>, 3);
    m.add("orders<Tok>", orders<Tok>, 3);
    m.add("orders<Pod>", orders<Pod>, 3);
    m.add("longer", longer, 2);
    m.add("large<Tok>", [](mc::Ctx& c) { large<Tok>(c, 256); }, 2);
    m.add("large<CTok>", [](mc::Ctx& c) { large<CTok>(c, 256); }, 2);
    m.add("large<Pod>", [](mc::Ctx& c) { large<Pod>(c, 2048); }, 2);
    m.add("widths", widths, 2);
    return m.run(argc, argv);
}
