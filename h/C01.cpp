// C01: sequence containers (Vec, Stack, Array, Slice) against a plain list model.
#include "elem.h"
#include <rpp/stack.h>
#include <rpp/heap.h>
using namespace rpp;
using namespace el;

template<typename T>
using V = Vec<T, TA>;
using M = std::vector<int>;

template<typename VV>
static void check_vec(const char* w, VV& v, const M& m) {
    MC_CHECK(v.length() == m.size(), "%s: length %lu, expected %zu", w, v.length(), m.size());
    MC_CHECK(v.empty() == m.empty(), "%s", w);
    MC_CHECK(v.capacity() >= v.length(), "%s: capacity %lu < length %lu", w, v.capacity(), v.length());
    MC_CHECK(v.full() == (v.length() == v.capacity()), "%s", w);
    for(u64 i = 0; i < m.size(); i++)
        MC_CHECK(v[i].get() == m[i], "%s: [%lu] is %d, expected %d", w, i, v[i].get(), m[i]);
    u64 i = 0;
    for(auto& x : v) {
        MC_CHECK(i < m.size() && x.get() == m[i], "%s: iteration at %lu", w, i);
        i++;
    }
    MC_CHECK(i == m.size(), "%s: iterated %lu of %zu", w, i, m.size());
    const VV& cv = v;
    i = 0;
    for(const auto& x : cv) {
        MC_CHECK(i < m.size() && x.get() == m[i], "%s: const iteration at %lu", w, i);
        i++;
    }
    MC_CHECK(i == m.size(), "%s", w);
    if(!m.empty()) {
        MC_CHECK(v.front().get() == m.front() && cv.front().get() == m.front(), "%s", w);
        MC_CHECK(v.back().get() == m.back() && cv.back().get() == m.back(), "%s", w);
        MC_CHECK(cv[m.size() - 1].get() == m.back(), "%s", w);
    }
    auto sl = v.slice();
    auto csl = cv.slice();
    MC_CHECK(sl.length() == m.size() && csl.length() == m.size(), "%s: slice length", w);
    MC_CHECK(sl.empty() == m.empty(), "%s", w);
    MC_CHECK(sl.bytes() == m.size() * sizeof(sl[0]) && v.bytes() == sl.bytes(), "%s: bytes", w);
    for(u64 k = 0; k < m.size(); k++)
        MC_CHECK(sl[k].get() == m[k] && csl[k].get() == m[k], "%s: slice[%lu]", w, k);
    MC_CHECK(sl.data() == v.data(), "%s", w);
}

static uint64_t h(const M& m, uint64_t s) {
    return mc::mix(mc::hash_bytes(m.data(), m.size() * sizeof(int)), s);
}

template<typename T>
static void vec_body(mc::Ctx& c) {
    begin_exec();
    {
        static const int starts[] = {0, 1, 2, 7, 8, 16};
        V<T> a, b;
        M ma, mb;
        int next = 1;
        u64 hist = 0;
        int n0 = starts[c.choose(c.tier(5, 6), "start")];
        switch(c.choose(3, "ctor")) {
        case 0: break;
        case 1: // explicit capacity
            a = V<T>(u64(n0));
            MC_CHECK(a.capacity() >= (u64)n0 && a.length() == 0, "Vec(capacity)");
            break;
        case 2:
            if constexpr(!is_pod<T>::v) {
                a = V<T>::make(u64(n0));
                for(int i = 0; i < n0; i++) {
                    MC_CHECK(a[i].get() == 0, "make: element %d not default", i);
                    a[i] = T(next);
                    ma.push_back(next++);
                }
                n0 = 0;
            } else {
                a = V<T>::make(u64(n0));
                MC_CHECK(a.length() == (u64)n0, "make(%d) has length %lu", n0, a.length());
                for(int i = 0; i < n0; i++) {
                    a[i] = T(next);
                    ma.push_back(next++);
                }
                n0 = 0;
            }
            break;
        }
        for(int i = 0; i < n0; i++) {
            a.push(T(next));
            ma.push_back(next++);
        }
        c.op("start: a holds %zu values", ma.size());
        int depth = c.tier(4, 5);
        for(int d = 0; d < depth; d++) {
            const void* before = a.data();
            u64 cap = a.capacity();
            u64 newlen = a.length();
            bool same = true; // operation is on `a` and must not relocate unless it had to grow
            u32 op = c.choose(17, "op");
            switch(op) {
            case 0: {
                c.op("a.push(%d)", next);
                T& r = a.push(T(next));
                ma.push_back(next++);
                newlen++;
                MC_CHECK(&r == &a.back(), "push returns a reference to the new element");
            } break;
            case 1: {
                c.op("a.emplace(%d)", next);
                T& r = a.emplace(next);
                ma.push_back(next++);
                newlen++;
                MC_CHECK(&r == &a.back(), "emplace returns a reference to the new element");
            } break;
            case 2:
                if constexpr(requires(const T& t) { T{t}; }) {
                    if(!ma.empty()) { // push of an element of itself
                        u64 k = c.choose(2) ? ma.size() - 1 : 0;
                        c.op("a.push(a[%lu])", k);
                        a.push(static_cast<const T&>(a[k]));
                        ma.push_back(int(ma[k]));
                        newlen++;
                    } else {
                        T t(next);
                        c.op("a.push(const %d)", next);
                        a.push(static_cast<const T&>(t));
                        ma.push_back(next++);
                        newlen++;
                    }
                }
                break;
            case 3:
                if(!ma.empty()) {
                    c.op("a.pop()");
                    a.pop();
                    ma.pop_back();
                }
                break;
            case 4:
                c.op("a.clear()");
                a.clear();
                ma.clear();
                break;
            case 5: {
                static const int plus[] = {0, 1, 5};
                u64 n = a.capacity() + plus[c.choose(3)];
                if(n == cap && n) n = cap - 1; // a smaller request
                c.op("a.reserve(%lu)", n);
                a.reserve(n);
                MC_CHECK(a.capacity() >= n, "reserve(%lu) gave capacity %lu", n, a.capacity());
                MC_CHECK(a.capacity() >= cap, "reserve shrank the capacity");
                newlen = n > cap ? cap + 1 : newlen;
            } break;
            case 6: { // resize up
                u64 by = 1 + c.choose(2) * 8;
                c.op("a.resize(+%lu)", by);
                u64 old = a.length();
                a.resize(old + by);
                newlen = old + by;
                for(u64 i = old; i < old + by; i++) {
                    if constexpr(!is_pod<T>::v)
                        MC_CHECK(a[i].get() == 0, "resize: new element %lu not default", i);
                    a[i] = T(next);
                    ma.push_back(next++);
                }
            } break;
            case 7:
                if(ma.size() >= 1) {
                    u64 n = c.choose(2) ? ma.size() - 1 : ma.size() / 2;
                    c.op("a.resize(%lu)", n);
                    a.resize(n);
                    ma.resize(n);
                }
                break;
            case 8: {
                c.op("a.extend(3)");
                u64 old = a.length();
                a.extend(3);
                newlen = old + 3;
                MC_CHECK(a.length() == old + 3, "extend");
                for(u64 i = old; i < old + 3; i++) {
                    a[i] = T(next);
                    ma.push_back(next++);
                }
            } break;
            case 9:
                c.op("a.grow()");
                a.grow();
                MC_CHECK(a.capacity() > cap, "grow did not grow");
                newlen = cap + 1;
                break;
            case 10:
                c.op("b = move(a)");
                b = rpp::move(a);
                mb = ma;
                ma.clear();
                same = false;
                MC_CHECK(a.length() == 0 && a.empty(), "moved-from container not empty");
                break;
            case 11:
                c.op("a = move(b)");
                a = rpp::move(b);
                ma = mb;
                mb.clear();
                same = false;
                MC_CHECK(b.length() == 0, "moved-from container not empty");
                break;
            case 12:
                c.op("swap(a, b)");
                rpp::swap(a, b);
                std::swap(ma, mb);
                same = false;
                break;
            case 13:
                if constexpr(rpp::Clone<T> || rpp::Copy_Constructable<T>) {
                    c.op("b = a.clone()");
                    b = a.clone();
                    mb = ma;
                    if(!ma.empty()) MC_CHECK(b.data() != a.data(), "clone shares storage");
                }
                break;
            case 14:
                if constexpr(rpp::Clone<T> || rpp::Copy_Constructable<T>) {
                    c.op("t = a.clone(); t.push; drop t");
                    V<T> t = a.clone();
                    t.push(T(-1));
                    MC_CHECK(t.length() == ma.size() + 1 && t.back().get() == -1, "clone, push");
                    for(u64 i = 0; i < ma.size(); i++)
                        MC_CHECK(t[i].get() == ma[i], "clone[%lu]", i);
                }
                break;
            case 15: { // initialiser form
                c.op("a = {x, y, z}");
                int x = next++, y = next++, z = next++;
                a = V<T>(T(x), T(y), T(z));
                ma = {x, y, z};
                same = false;
            } break;
            case 16: { // moved-constructed, original keeps being usable
                c.op("V t(move(a)); t.push; a = move(t)");
                V<T> t(rpp::move(a));
                MC_CHECK(a.length() == 0, "moved-from container not empty");
                a.push(T(-5));
                t.push(T(next));
                ma.push_back(next++);
                a = rpp::move(t);
                same = false;
            } break;
            }
            if(same && newlen <= cap && cap)
                MC_CHECK(a.data() == before, "operation %u relocated although capacity sufficed", op);
            check_vec("a", a, ma);
            check_vec("b", b, mb);
            hist = h(ma, h(mb, mc::mix(a.capacity(), b.capacity())));
            c.state(hist);
            MC_CHECK(L.nlive == (i64)(is_pod<T>::v ? 0 : ma.size() + mb.size()),
                     "%lld values alive, %zu expected", (long long)L.nlive, ma.size() + mb.size());
        }
    }
    end_exec("vec");
}

template<typename T>
static void stack_body(mc::Ctx& c) {
    begin_exec();
    {
        Stack<T, TA> a, b;
        M ma, mb;
        int next = 1;
        static const int starts[] = {0, 1, 7, 8};
        int n0 = starts[c.choose(4)];
        if(c.choose(2)) a = Stack<T, TA>(u64(n0));
        for(int i = 0; i < n0; i++) {
            a.push(T(next));
            ma.push_back(next++);
        }
        int depth = c.tier(6, 7);
        for(int d = 0; d < depth; d++) {
            switch(c.choose(10)) {
            case 0:
                c.op("push(%d)", next);
                MC_CHECK(a.push(T(next)).get() == next, "push returns the new element");
                ma.push_back(next++);
                break;
            case 1:
                c.op("emplace(%d)", next);
                MC_CHECK(a.emplace(next).get() == next, "emplace returns the new element");
                ma.push_back(next++);
                break;
            case 2:
                if(!ma.empty()) {
                    c.op("pop");
                    a.pop();
                    ma.pop_back();
                }
                break;
            case 3:
                c.op("clear");
                a.clear();
                ma.clear();
                break;
            case 4:
                c.op("b = move(a)");
                b = rpp::move(a);
                mb = ma;
                ma.clear();
                break;
            case 5:
                c.op("a = move(b)");
                a = rpp::move(b);
                ma = mb;
                mb.clear();
                break;
            case 6:
                if constexpr(rpp::Clone<T> || rpp::Copy_Constructable<T>) {
                    c.op("b = clone(a)");
                    b = a.clone();
                    mb = ma;
                }
                break;
            case 7:
                if constexpr(rpp::Copy_Constructable<T>) {
                    if(!ma.empty()) {
                        c.op("push(top)");
                        a.push(static_cast<const T&>(a.top()));
                        ma.push_back(int(ma.back()));
                    }
                }
                break;
            case 8:
                c.op("a = {x, y}");
                ma = {next, next + 1};
                a = Stack<T, TA>(T(next), T(next + 1));
                next += 2;
                break;
            case 9:
                if(!ma.empty()) {
                    c.op("top() = %d", next);
                    a.top() = T(next);
                    ma.back() = next++;
                }
                break;
            }
            for(auto* p : {&a, &b}) {
                auto& s = *p;
                const auto& cs = s;
                M& m = p == &a ? ma : mb;
                MC_CHECK(s.length() == m.size() && s.empty() == m.empty(), "stack length");
                if(!m.empty()) MC_CHECK(s.top().get() == m.back() && cs.top().get() == m.back(), "top");
                u64 i = 0;
                for(auto& x : s) {
                    MC_CHECK(i < m.size() && x.get() == m[i], "stack iteration");
                    i++;
                }
                MC_CHECK(i == m.size(), "stack iteration");
                i = 0;
                for(const auto& x : cs) {
                    MC_CHECK(i < m.size() && x.get() == m[i], "stack const iteration");
                    i++;
                }
                MC_CHECK(i == m.size(), "stack iteration");
            }
            c.state(h(ma, h(mb, a.full() * 2 + b.full())));
        }
    }
    end_exec("stack");
}

template<typename T>
static void array_slice_body(mc::Ctx& c) {
    begin_exec();
    {
        Array<T, 4> a{T(1), T(2), T(3), T(4)}, b{T(5), T(6), T(7), T(8)};
        int ma[4] = {1, 2, 3, 4}, mb[4] = {5, 6, 7, 8};
        bool dead = false; // a was moved from
        int next = 10;
        int depth = c.tier(5, 6);
        for(int d = 0; d < depth; d++) {
            switch(c.choose(7)) {
            case 0: {
                u64 i = c.choose(4);
                c.op("a[%lu] = %d", i, next);
                if(!dead) a[i] = T(next), ma[i] = next;
                next++;
            } break;
            case 1:
                if constexpr(rpp::Clone<T> || rpp::Copy_Constructable<T>) {
                    if(dead) break;
                    c.op("b = a.clone()");
                    b = a.clone();
                    memcpy(mb, ma, sizeof ma);
                }
                break;
            case 2:
                c.op("a = move(b); b refilled");
                a = rpp::move(b);
                memcpy(ma, mb, sizeof ma);
                dead = false;
                for(int i = 0; i < 4; i++) b[i] = T(next), mb[i] = next++;
                break;
            case 3: {
                if(dead) break;
                c.op("Array t(move(a)); a = move(t)");
                Array<T, 4> t(rpp::move(a));
                for(int i = 0; i < 4; i++) MC_CHECK(t[i].get() == ma[i], "array move");
                a = rpp::move(t);
            } break;
            case 4: { // write through a slice
                if(dead) break;
                u64 i = c.choose(4);
                c.op("a.slice()[%lu] = %d", i, next);
                auto s = a.slice();
                s[i] = T(next);
                ma[i] = next++;
            } break;
            case 5:
                if constexpr(rpp::Copy_Constructable<T>) {
                    if(dead) break;
                    c.op("b = a");
                    b = a;
                    memcpy(mb, ma, sizeof ma);
                }
                break;
            case 6: {
                if(dead) break;
                c.op("swap(a, b)");
                rpp::swap(a, b);
                std::swap(ma, mb);
            } break;
            }
            for(int w = 0; w < 2; w++) {
                if(w == 0 && dead) continue;
                auto& x = w ? b : a;
                int* m = w ? mb : ma;
                const auto& cx = x;
                MC_CHECK(x.length() == 4 && x.capacity == 4, "array length");
                u64 i = 0;
                for(auto& y : x) {
                    MC_CHECK(i < 4 && y.get() == m[i], "array iteration");
                    i++;
                }
                MC_CHECK(i == 4, "array iteration");
                i = 0;
                for(const auto& y : cx) {
                    MC_CHECK(i < 4 && y.get() == m[i] && cx[i].get() == m[i], "array iteration");
                    i++;
                }
                auto s = x.slice();
                auto cs = cx.slice();
                MC_CHECK(s.length() == 4 && cs.length() == 4, "slice");
                for(u64 st = 0; st <= 4; st++)
                    for(u64 ln = 0; st + ln <= 4; ln++) {
                        auto u = s.sub(st, ln);
                        auto cu = cs.sub(st, ln);
                        MC_CHECK(u.length() == ln && cu.length() == ln && u.empty() == !ln, "sub");
                        for(u64 k = 0; k < ln; k++)
                            MC_CHECK(u[k].get() == m[st + k] && cu[k].get() == m[st + k],
                                     "sub(%lu, %lu)[%lu]", st, ln, k);
                        if(ln) {
                            MC_CHECK(u.front().get() == m[st], "sub front");
                            MC_CHECK(u.back().get() == m[st + ln - 1], "sub back");
                        }
                        u64 k = 0;
                        for(auto& y : u) {
                            MC_CHECK(y.get() == m[st + k], "sub iteration");
                            k++;
                        }
                        MC_CHECK(k == ln, "sub iteration");
                        auto by = u.to_bytes();
                        MC_CHECK(by.length() == ln * sizeof(T) && u.bytes() == by.length(), "bytes");
                        MC_CHECK(!ln || (const void*)by.data() == (const void*)&u[0],
                                 "to_bytes aliases the elements");
                    }
            }
            c.state(mc::hash_bytes(ma, sizeof ma, mc::hash_bytes(mb, sizeof mb)));
        }
    }
    end_exec("array");
}

// every operation on containers of every size, grown in each way
template<typename T>
static void large(mc::Ctx& c, u64 top) {
    begin_exec();
    {
        u64 n = large_size(c, c.tier(top, 16 * top));
        u32 how = c.choose(5, "how"), op = c.choose(12, "op");
        V<T> a;
        M ma;
        int next = 1;
        if(how == 1) a.reserve(n);
        if(how == 2) a.reserve(n / 2);
        if(how == 3) a.reserve(2 * n + 3);
        if(how == 4) {
            a.resize(n);
            for(u64 i = 0; i < n; i++) a[i] = T(next), ma.push_back(next++);
        } else
            for(u64 i = 0; i < n; i++) a.push(T(next)), ma.push_back(next++);
        const void* at = a.data();
        u64 cap = a.capacity(), len = n;
        c.op("%lu elements (%u), operation %u", n, how, op);
        auto add = [&](u64 k) {
            for(u64 i = 0; i < k; i++) a.push(T(next)), ma.push_back(next++);
            len += k;
        };
        bool moves = false;
        switch(op) {
        case 0: break;
        case 1: add(1); break;
        case 2: add(n / 2 + 1); break;
        case 3: for(u64 i = 0; i < n / 2; i++) a.pop(), ma.pop_back(); break;
        case 4: a.resize(n / 3); ma.resize(n / 3); break;
        case 5: {
            u64 by = n / 2 + 2;
            a.extend(by);
            len += by;
            for(u64 i = n; i < len; i++) a[i] = T(next), ma.push_back(next++);
        } break;
        case 6: {
            u64 want = cap + n / 4 + 1;
            a.reserve(want);
            MC_CHECK(a.capacity() >= want, "reserve");
            moves = true;
        } break;
        case 7: a.clear(); ma.clear(); add(n); break;
        case 8: {
            V<T> t(rpp::move(a));
            check_vec("moved-from", a, {});
            a = rpp::move(t);
        } break;
        case 9: a.grow(); MC_CHECK(a.capacity() > cap, "grow"); moves = true; break;
        case 10:
            if constexpr(rpp::Clone<T> || rpp::Copy_Constructable<T>) {
                V<T> t = a.clone();
                check_vec("clone", t, ma);
                M mt = ma;
                t.push(T(-1));
                mt.push_back(-1);
                check_vec("clone", t, mt);
                auto u = a.template clone<TB>();
                check_vec("clone", u, ma);
            }
            break;
        case 11: {
            Stack<T, TA> st;
            for(u64 i = 0; i < n; i++) st.push(T((int)i));
            if constexpr(rpp::Clone<T> || rpp::Copy_Constructable<T>) {
                Stack<T, TA> t = st.clone();
                Stack<T, TB> u = t.template clone<TB>();
                MC_CHECK(u.length() == n, "clone into another allocator");
                for(u64 i = n; i-- > 0; u.pop()) MC_CHECK(u.top().get() == (int)i, "clone into another allocator");
                st = rpp::move(t);
            }
            MC_CHECK(st.length() == n, "stack length");
            for(u64 i = n; i-- > 0;) {
                MC_CHECK(st.top().get() == (int)i, "top of the stack");
                st.pop();
            }
            MC_CHECK(st.empty(), "stack length");
        } break;
        }
        if(!moves && len <= cap && cap) MC_CHECK(a.data() == at, "operation %u relocated although capacity sufficed", op);
        check_vec("a", a, ma);
        c.state(h(ma, a.capacity()));
    }
    end_exec("vec");
}

// elements of every size: all of each element must follow it
template<typename T, bool PLAIN>
static void width(mc::Ctx& c) {
    u32 n = c.choose(21, "length"), op = c.choose(9, "op");
    auto is = [&](auto& v, const M& m, const char* what) {
        if(v.length() != m.size()) mc::fail("%s: length", what);
        for(u64 i = 0; i < m.size(); i++)
            if(!v[i].is((u32)m[i])) mc::fail("%s: element %llu of %zu is damaged (elements of %zu bytes)", what, (unsigned long long)i, m.size(), sizeof(T));
    };
    V<T> a;
    M m;
    for(u32 i = 0; i < n; i++) {
        if(i % 2) a.push(T(i));
        else a.emplace(i);
        m.push_back((int)i);
    }
    is(a, m, "pushed");
    switch(op) {
    case 0: a.reserve(n + 9); break;
    case 1: {
        auto b = a.clone();
        auto d = a.template clone<TB>();
        is(b, m, "clone");
        is(d, m, "clone into another allocator");
        a = rpp::move(b);
    } break;
    case 2: {
        V<T> b(rpp::move(a));
        is(b, m, "moved");
        a = rpp::move(b);
    } break;
    case 3: for(u32 i = 0; i < n / 2; i++) a.pop(), m.pop_back(); a.push(T(77)); m.push_back(77); break;
    case 4:
        a.grow();
        a.grow();
        break;
    case 5:
        if constexpr(PLAIN) {
            auto by = a.slice().to_bytes();
            const auto& ca = a;
            auto sl = ca.slice();
            auto cby = sl.to_bytes();
            MC_CHECK(by.length() == n * sizeof(T) && a.bytes() == by.length() && cby.length() == by.length(), "bytes");
            if(n && memcmp(by.data(), a.data(), by.length()) != 0) mc::fail("to_bytes shows other bytes");
            for(u32 i = 0; i <= n; i++) {
                auto part = sl.sub(i, n - i);
                for(u32 k = i; k < n; k++)
                    if(!part[k - i].is(k)) mc::fail("sub-slice from %u", i);
            }
            const auto& cs = sl;
            MC_CHECK(cs.data() == ca.data() && sl.data() == ca.data(), "a constant view");
        }
        break;
    case 6: {
        Stack<T, TA> s;
        for(u32 i = 0; i < n; i++) s.push(T(i));
        auto t = s.clone();
        for(u32 i = n; i-- > 0; t.pop())
            if(!t.top().is(i)) mc::fail("top of a stack of elements of %zu bytes", sizeof(T));
    } break;
    case 7: {
        V<V<T>> v;
        for(u32 i = 0; i < n; i++) {
            V<T> w;
            for(u32 k = 0; k < i; k++) w.push(T(k + i));
            v.push(rpp::move(w));
        }
        auto u = v.clone();
        v.clear();
        for(u32 i = 0; i < n; i++) {
            MC_CHECK(u[i].length() == i, "nested length");
            for(u32 k = 0; k < i; k++)
                if(!u[i][k].is(k + i)) mc::fail("nested element");
        }
    } break;
    case 8:
        if constexpr(PLAIN && rpp::Default_Constructable<T>) {
            Array<T, 21> x;
            for(u32 i = 0; i < 21; i++) x[i] = T(i + n);
            Array<T, 21> y = x.clone(), z = x;
            x[n] = T(99);
            M mx;
            for(u32 i = 0; i < 21; i++) mx.push_back((int)(i + n));
            is(y, mx, "cloned array");
            is(z, mx, "copied array");
            const auto& cy = y;
            auto sl = cy.slice();
            is(sl, mx, "slice of a constant array");
            MC_CHECK(cy.data() == &cy[0] && sl.data() == cy.data(), "data of a constant array");
            z = rpp::move(x);
            mx[n] = 99;
            is(z, mx, "moved array");
        }
        break;
    }
    is(a, m, "afterwards");
    c.op("%u elements of %zu bytes, operation %u", n, sizeof(T), op);
    c.state(mc::mix(sizeof(T) * 64 + n, op));
}
static void widths(mc::Ctx& c) {
    begin_exec();
    switch(c.choose(16, "width")) {
    case 0: width<Bulk<1, 1>, true>(c); break;
    case 1: width<Bulk<2, 1>, true>(c); break;
    case 2: width<Bulk<3, 1>, true>(c); break;
    case 3: width<Bulk<5, 1>, true>(c); break;
    case 4: width<Bulk<12, 4>, true>(c); break;
    case 5: width<Bulk<16, 16>, true>(c); break;
    case 6: width<Bulk<17, 1>, true>(c); break;
    case 7: width<Bulk<31, 1>, true>(c); break;
    case 8: width<Bulk<64, 8>, true>(c); break;
    case 9: width<Bulk<255, 1>, true>(c); break;
    case 10: width<Bulk<257, 1>, true>(c); break;
    case 11: width<Bulk<4097, 1>, true>(c); break;
    case 12: width<Bulk<65537, 1>, true>(c); break;
    case 13: width<Owned<1, 8>, false>(c); break;
    case 14: width<Owned<40, 16>, false>(c); break;
    case 15: width<Owned<1000, 8>, false>(c); break;
    }
    end_exec("widths");
}
// truth values, through every kind of view
static void bools(mc::Ctx& c) {
    begin_exec();
    {
        u32 n = c.choose(8, "length"), from = c.choose(n + 1, "from");
        bool want[8];
        V<bool> v;
        for(u32 i = 0; i < n; i++) want[i] = c.flip("value"), v.push(want[i]);
        const V<bool>& cv = v;
        Slice<bool> s = v.slice();
        Slice<const bool> t = cv.slice(), u = s, k = t.clone(), p = t.sub(from, n - from);
        auto is = [&](auto& x, u32 at) {
            MC_CHECK(x.length() == n - at, "length of a view");
            for(u32 i = at; i < n; i++) MC_CHECK(x[i - at] == want[i] && &x[i - at] == &v[i], "element %u of a view", i);
        };
        is(s, 0), is(t, 0), is(u, 0), is(k, 0), is(p, from);
        Array<bool, 3> a{n > 0 && want[0], n > 1 && want[1], n > 2 && want[2]};
        const auto& ca = a;
        Slice<const bool> as = ca.slice();
        MC_CHECK(as.length() == 3 && as.data() == ca.data(), "constant array");
        Slice<const bool> lit{true, false, true};
        static_cast<void>(lit);
        auto total = [](Slice<const i32> x) {
            i32 r = 0;
            for(i32 y : x) r = r * 10 + y;
            return r;
        };
        MC_CHECK(total(Slice<const i32>{1, 2, 3}) == 123 && total(Slice<const i32>{}) == 0, "slice of a list");
        V<i32> f(8u);
        f.unsafe_fill();
        MC_CHECK(f.length() == f.capacity() && f.full(), "unsafe_fill");
        c.op("%u from %u", n, from);
        c.state(n * 8 + from);
    }
    end_exec("bools");
}

int main(int argc, char** argv) {
    mc::Main m;
    m.property = "C01";
    m.bounds = "all operation sequences up to depth 4 (vec), 6 (stack), 5 (array/slice) over 17/10/7 "
               "operations from every start length in {0,1,2,7,8[,16]} and 3 constructors, for move-only, "
               "copyable, and trivial elements; thorough: one deeper; 12 operations on 0..40 elements and around every power of two up to 1024 (trivial "
               "elements 8192; thorough 16 times as many), grown in 5 ways; 9 operations on 0..20 elements of 16 sizes up to 65537 bytes; views of truth values";
    m.assumptions = {"element types: move-only with clone, copy-only, trivially copyable",
                     "values outside the small alphabet behave alike (containers never inspect them)"};
    m.add("vec<Tok>", vec_body<Tok>, 3);
    m.add("vec<CTok>", vec_body<CTok>, 3);
    m.add("vec<Pod>", vec_body<Pod>, 3);
    m.add("stack<Tok>", stack_body<Tok>, 3);
    m.add("stack<CTok>", stack_body<CTok>, 3);
    m.add("stack<Pod>", stack_body<Pod>, 3);
    m.add("array<Tok>", array_slice_body<Tok>, 2);
    m.add("array<CTok>", array_slice_body<CTok>, 2);
    m.add("array<Pod>", array_slice_body<Pod>, 2);
    m.add("large<Tok>", [](mc::Ctx& c) { large<Tok>(c, 1024); }, 2);
    m.add("large<CTok>", [](mc::Ctx& c) { large<CTok>(c, 1024); }, 2);
    m.add("large<Pod>", [](mc::Ctx& c) { large<Pod>(c, 8192); }, 2);
    m.add("widths", widths, 2);
    m.add("bools", bools, 1);
    return m.run(argc, argv);
}
