// C02: Queue against a plain FIFO list.
#include "elem.h"
using namespace rpp;
using namespace el;

template<typename T>
using Q = Queue<T, TA>;
using M = std::vector<int>;

template<typename QQ>
static void check_q(const char* w, QQ& q, const M& m) {
    const QQ& cq = q;
    MC_CHECK(q.length() == m.size(), "%s: length %lu, expected %zu", w, q.length(), m.size());
    MC_CHECK(q.empty() == m.empty(), "%s", w);
    for(u64 i = 0; i < m.size(); i++)
        MC_CHECK(q[i].get() == m[i] && cq[i].get() == m[i], "%s: [%lu] is %d, expected %d", w, i,
                 q[i].get(), m[i]);
    u64 i = 0;
    for(auto& x : q) {
        MC_CHECK(i < m.size() && x.get() == m[i], "%s: iteration at %lu", w, i);
        i++;
    }
    MC_CHECK(i == m.size(), "%s: iterated %lu of %zu", w, i, m.size());
    i = 0;
    for(const auto& x : cq) {
        MC_CHECK(i < m.size() && x.get() == m[i], "%s: const iteration at %lu", w, i);
        i++;
    }
    MC_CHECK(i == m.size(), "%s: iterated %lu of %zu", w, i, m.size());
    i = 0;
    for(auto it = q.begin(); !(it == q.end()); it++, i++)
        MC_CHECK(i < m.size() && it->get() == m[i], "%s: iterator at %lu", w, i);
    MC_CHECK(i == m.size(), "%s: iterated %lu of %zu", w, i, m.size());
    if(!m.empty()) {
        MC_CHECK(q.front().get() == m.front() && cq.front().get() == m.front(), "%s: front", w);
        MC_CHECK(q.back().get() == m.back() && cq.back().get() == m.back(), "%s: back", w);
    }
    if(m.size() > 1)
        MC_CHECK(q.penultimate().get() == m[m.size() - 2] && cq.penultimate().get() == m[m.size() - 2],
                 "%s: penultimate", w);
}

template<typename T>
static void body(mc::Ctx& c) {
    begin_exec();
    key_mask = 3;
    {
        Q<T> a, b;
        M ma, mb;
        int next = 0;
        auto fresh = [&]() { return (next += 4) + (next / 4) % 3; };
        // start: capacity, rotation, fill
        static const int caps[] = {0, 1, 2, 3, 4, 5};
        int cap = caps[c.choose(6, "capacity")];
        if(cap) {
            if constexpr(is_pod<T>::v) a = Q<T>(u64(cap));
            else {
                if(c.choose(2)) a = Q<T>(u64(cap));
                else a.reserve(cap);
            }
            int rot = c.choose(cap, "rotation");
            for(int i = 0; i < rot; i++) {
                a.push(T(-1));
                a.pop();
            }
            int fill = c.choose(cap + 1, "fill");
            for(int i = 0; i < fill; i++) {
                int v = fresh();
                a.push(T(v));
                ma.push_back(v);
            }
            c.op("capacity %d, %d rotations, %d values", cap, rot, fill);
        }
        check_q("a", a, ma);
        int depth = c.tier(4, 5);
        for(int d = 0; d < depth; d++) {
            switch(c.choose(17)) {
            case 0: {
                int v = fresh();
                c.op("push(%d)", v);
                T& r = a.push(T(v));
                MC_CHECK(r.get() == v, "push returns the new element");
                ma.push_back(v);
            } break;
            case 1:
                if(!ma.empty()) {
                    c.op("pop");
                    a.pop();
                    ma.erase(ma.begin());
                }
                break;
            case 2:
            case 3:
            case 4: { // erase the first element with key k
                int k = 0;
                if(ma.empty()) k = 1;
                else {
                    // first, middle, last element's key
                    k = ma[0] & 3;
                }
                if(c.path[c.pos - 1] == 3 && !ma.empty()) k = ma.back() & 3;
                if(c.path[c.pos - 1] == 4 && !ma.empty()) k = ma[ma.size() / 2] & 3;
                T t(k);
                c.op("erase_first(key %d)", k);
                bool r = a.erase_first(t);
                bool exp = false;
                for(size_t i = 0; i < ma.size(); i++)
                    if((ma[i] & 3) == k) {
                        ma.erase(ma.begin() + i);
                        exp = true;
                        break;
                    }
                MC_CHECK(r == exp, "erase_first returned %d", r);
            } break;
            case 5: {
                T t(3); // no element has key 3
                c.op("erase_first(absent)");
                MC_CHECK(!a.erase_first(t), "erase_first of an absent value");
            } break;
            case 6: {
                int v = fresh();
                c.op("emplace(%d)", v);
                MC_CHECK(a.emplace(v).get() == v, "emplace returns the new element");
                ma.push_back(v);
            } break;
            case 7:
                if constexpr(rpp::Copy_Constructable<T>) {
                    if(!ma.empty()) {
                        u64 k = ma.size() / 2;
                        c.op("push(a[%lu])", k);
                        int v = ma[k];
                        MC_CHECK(a.push(static_cast<const T&>(a[k])).get() == v, "push");
                        ma.push_back(v);
                    }
                }
                break;
            case 8: {
                u64 n = ma.size() + c.choose(3) * 3;
                c.op("reserve(%lu)", n);
                a.reserve(n);
            } break;
            case 9:
                c.op("clear");
                a.clear();
                ma.clear();
                break;
            case 10:
                c.op("b = move(a)");
                b = rpp::move(a);
                mb = ma;
                ma.clear();
                break;
            case 11:
                c.op("a = move(b)");
                a = rpp::move(b);
                ma = mb;
                mb.clear();
                break;
            case 12:
                if constexpr(rpp::Clone<T> || rpp::Copy_Constructable<T>) {
                    c.op("b = a.clone()");
                    b = a.clone();
                    mb = ma;
                }
                break;
            case 13:
                c.op("swap");
                rpp::swap(a, b);
                std::swap(ma, mb);
                break;
            case 14: {
                int x = fresh(), y = fresh(), z = fresh();
                c.op("a = {x, y, z}");
                a = Q<T>(T(x), T(y), T(z));
                ma = {x, y, z};
            } break;
            case 15: {
                c.op("Q t(move(a)); t.push; a.push; a = move(t)");
                Q<T> t(rpp::move(a));
                MC_CHECK(a.empty() && a.length() == 0, "moved-from");
                int v = fresh();
                t.push(T(v));
                ma.push_back(v);
                a.push(T(-4));
                a = rpp::move(t);
            } break;
            case 16:
                c.op("grow");
                a.grow();
                MC_CHECK(!a.full(), "grow left the queue full");
                break;
            }
            check_q("a", a, ma);
            check_q("b", b, mb);
            MC_CHECK(L.nlive == (i64)(is_pod<T>::v ? 0 : ma.size() + mb.size()),
                     "%lld values alive, %zu expected", (long long)L.nlive, ma.size() + mb.size());
            c.state(mc::hash_bytes(ma.data(), ma.size() * 4,
                                   mc::hash_bytes(mb.data(), mb.size() * 4, a.full() + 2 * cap)));
        }
    }
    end_exec("queue");
}

// long FIFO runs: every combination of "burst" pushes and pops, crossing growth while wrapped
template<typename T>
static void bursts(mc::Ctx& c) {
    begin_exec();
    key_mask = 3;
    {
        Q<T> a;
        M ma;
        int next = 0;
        static const int push_n[] = {1, 5, 8, 9};
        static const int pop_n[] = {1, 4, 7, 100};
        int depth = c.tier(6, 7);
        for(int d = 0; d < depth; d++) {
            u32 k = c.choose(10);
            if(k < 4) {
                c.op("push x%d", push_n[k]);
                for(int i = 0; i < push_n[k]; i++) {
                    a.push(T(next));
                    ma.push_back(next++);
                }
            } else if(k < 8) {
                int n = pop_n[k - 4];
                c.op("pop x%d", n);
                for(int i = 0; i < n && !ma.empty(); i++) {
                    MC_CHECK(a.front().get() == ma[0], "front");
                    a.pop();
                    ma.erase(ma.begin());
                }
            } else if(k == 8) {
                if constexpr(rpp::Clone<T> || rpp::Copy_Constructable<T>) {
                    c.op("a = a.clone()");
                    Q<T> t = a.clone();
                    a = rpp::move(t);
                }
            } else {
                if(ma.empty()) continue;
                int key = ma[ma.size() / 2] & 3;
                c.op("erase_first(%d)", key);
                bool ok = a.erase_first(T(key));
                MC_CHECK(ok, "erase_first did not find a present value");
                for(size_t i = 0; i < ma.size(); i++)
                    if((ma[i] & 3) == key) {
                        ma.erase(ma.begin() + i);
                        break;
                    }
            }
            check_q("a", a, ma);
            c.state(mc::hash_bytes(ma.data(), ma.size() * 4));
        }
    }
    end_exec("queue");
}

template<typename T>
static void large(mc::Ctx& c, u64 top) {
    begin_exec();
    key_mask = -1;
    {
        u64 n = large_size(c, c.tier(top, 16 * top));
        u32 rot = c.choose(5, "rotation"), fill = c.choose(3, "fill"), op = c.choose(9, "operation");
        u64 cap = n + fill * (fill == 2 ? n / 2 : 1), r = rot == 0 ? 0 : rot == 1 ? 1 : rot == 2 ? n / 2 : rot == 3 ? n - (n > 0) : n + 1;
        Q<T> a;
        M ma;
        int next = 0;
        a.reserve(cap);
        if(cap)
            for(u64 i = 0; i < r; i++) {
                a.push(T(-1));
                a.pop();
            }
        auto add = [&](u64 k) {
            for(u64 i = 0; i < k; i++) a.push(T(next)), ma.push_back(next++);
        };
        auto take = [&](u64 k) {
            for(u64 i = 0; i < k; i++) {
                MC_CHECK(a.front().get() == ma[i], "front");
                a.pop();
            }
            ma.erase(ma.begin(), ma.begin() + (i64)k);
        };
        add(n);
        c.op("%lu elements in %lu slots from slot %lu, operation %u", n, cap, r, op);
        switch(op) {
        case 0: add(1); break;
        case 1: add(n / 2 + 2); break;
        case 2: take(n / 2); add(n); break;
        case 3: a.reserve(cap + 3); add(5); break;
        case 4: take(n / 3); a.reserve(2 * cap + 1); break;
        case 5:
            if(n) {
                int v = ma[n / 2];
                MC_CHECK(a.erase_first(T(v)), "erase_first did not find a present value");
                ma.erase(ma.begin() + (i64)n / 2);
                MC_CHECK(!a.erase_first(T(v)), "erase_first found a removed value");
                add(2);
            }
            break;
        case 6: a.clear(); ma.clear(); add(n); break;
        case 7:
            if constexpr(rpp::Clone<T> || rpp::Copy_Constructable<T>) {
                Q<T> t = a.clone();
                auto u = a.template clone<TB>();
                check_q("clone", u, ma);
                take(n / 2);
                check_q("a", a, ma);
                a = rpp::move(t);
                ma.clear();
                for(u64 i = 0; i < n; i++) ma.push_back((int)i);
            }
            break;
        case 8: {
            Q<T> t(rpp::move(a));
            check_q("moved-from", a, {});
            a = rpp::move(t);
            take(n);
        } break;
        }
        check_q("a", a, ma);
        c.state(mc::hash_bytes(ma.data(), ma.size() * 4, mc::mix(rot, fill)));
    }
    end_exec("queue");
}

// elements of every size: all of each element must follow it, wherever the ring begins
template<typename T>
static void width(mc::Ctx& c) {
    u32 n = c.choose(12, "length"), rot = c.choose(9, "rotation"), op = c.choose(6, "op");
    Q<T> a;
    M m;
    auto is = [&](auto& q, const M& m, const char* what) {
        const auto& cq = q;
        if(q.length() != m.size()) mc::fail("%s: length", what);
        for(u64 i = 0; i < m.size(); i++)
            if(!q[i].is((u32)m[i])) mc::fail("%s: element %llu of %zu is damaged (elements of %zu bytes)", what, (unsigned long long)i, m.size(), sizeof(T));
        u64 k = 0;
        for(auto it = cq.begin(); it != cq.end(); it++, k++)
            if(k >= m.size() || !it->is((u32)m[k]) || &*it != &cq[k] || it.operator->() != &cq[k]) mc::fail("%s: iteration", what);
        if(k != m.size()) mc::fail("%s: iterated %llu of %zu", what, (unsigned long long)k, m.size());
    };
    for(u32 i = 0; i < rot; i++) {
        a.push(T(1));
        a.pop();
    }
    for(u32 i = 0; i < n; i++) {
        if(i % 2) a.push(T(i));
        else a.emplace(i);
        m.push_back((int)i);
    }
    is(a, m, "pushed");
    switch(op) {
    case 0: a.reserve(n + 9); break;
    case 1: {
        auto b = a.clone();
        auto d = a.template clone<TB>();
        is(b, m, "clone");
        is(d, m, "clone into another allocator");
        a = rpp::move(b);
    } break;
    case 2: {
        Q<T> b(rpp::move(a));
        is(b, m, "moved");
        a = rpp::move(b);
    } break;
    case 3:
        for(u32 i = 0; i < n / 2; i++) a.pop(), m.erase(m.begin());
        for(u32 i = 0; i < n; i++) a.push(T(70 + i)), m.push_back(70 + (int)i);
        break;
    case 4: a.grow(); break;
    case 5: {
        Q<Q<T>> v;
        for(u32 i = 0; i < n; i++) {
            Q<T> w;
            for(u32 k = 0; k < i; k++) w.push(T(k + i));
            v.push(rpp::move(w));
        }
        auto u = v.clone();
        v.clear();
        for(u32 i = 0; i < n; i++)
            for(u32 k = 0; k < i; k++)
                if(!u[i][k].is(k + i)) mc::fail("nested element");
    } break;
    }
    is(a, m, "afterwards");
    c.op("%u elements of %zu bytes from %u, operation %u", n, sizeof(T), rot, op);
    c.state(mc::mix(sizeof(T) * 64 + n, op * 16 + rot));
}
static void widths(mc::Ctx& c) {
    begin_exec();
    switch(c.choose(14, "width")) {
    case 0: width<Bulk<1, 1>>(c); break;
    case 1: width<Bulk<2, 1>>(c); break;
    case 2: width<Bulk<3, 1>>(c); break;
    case 3: width<Bulk<5, 1>>(c); break;
    case 4: width<Bulk<12, 4>>(c); break;
    case 5: width<Bulk<16, 16>>(c); break;
    case 6: width<Bulk<17, 1>>(c); break;
    case 7: width<Bulk<64, 8>>(c); break;
    case 8: width<Bulk<255, 1>>(c); break;
    case 9: width<Bulk<257, 1>>(c); break;
    case 10: width<Bulk<65537, 1>>(c); break;
    case 11: width<Owned<1, 8>>(c); break;
    case 12: width<Owned<40, 16>>(c); break;
    case 13: width<Owned<1000, 8>>(c); break;
    }
    end_exec("widths");
}

int main(int argc, char** argv) {
    mc::Main m;
    m.property = "C02";
    m.bounds = "all sequences of 4 operations (thorough 5) over 17 operations, from every (capacity<=5, "
               "rotation, fill) ring position; all sequences of 6 (7) bursts; move-only, copyable, trivial elements; 9 operations on 0..40 elements and around "
               "every power of two up to 512 (trivial elements 4096; thorough 16 times as many) at 5 rotations and 3 fillings; 6 operations on 0..11 elements of 14 sizes up to 65537 bytes at 9 rotations";
    m.assumptions = {"the queue inspects element values only through =="};
    m.add("ops<Tok>", body<Tok>, 5);
    m.add("ops<CTok>", body<CTok>, 5);
    m.add("ops<Pod>", body<Pod>, 5);
    m.add("bursts<Tok>", bursts<Tok>, 3);
    m.add("bursts<CTok>", bursts<CTok>, 3);
    m.add("bursts<Pod>", bursts<Pod>, 3);
    m.add("large<Tok>", [](mc::Ctx& c) { large<Tok>(c, 512); }, 2);
    m.add("large<CTok>", [](mc::Ctx& c) { large<CTok>(c, 512); }, 2);
    m.add("large<Pod>", [](mc::Ctx& c) { large<Pod>(c, 4096); }, 2);
    m.add("widths", widths, 2);
    return m.run(argc, argv);
}
