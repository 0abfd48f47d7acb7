// O01: owning pointers (Box, Rc, Arc): every history of handles, and owners nested in what they own.
#include "elem.h"
#include <rpp/base.h>
#include <rpp/box.h>
#include <rpp/map.h>
#include <rpp/queue.h>
#include <rpp/rc.h>
#include <rpp/vec.h>
#include <rpp/function.h>
#include <rpp/opt.h>
#include <rpp/tuple.h>
#include <rpp/variant.h>
using namespace rpp;
using namespace el;

// --- as many handles of one value as fit in no small counter
template<typename H, typename P>
static void crowd(mc::Ctx& c) {
    static const u32 kCount[] = {1, 2, 3, 15, 16, 17, 126, 127, 128, 129, 254, 255, 256, 257, 511, 513, 1000, 4095, 4097, 32766, 32767, 32769, 65534, 65535, 65536, 65537, 70000};
    u32 n = kCount[c.choose(27, "count")], order = c.choose(4, "order"), how = c.choose(2, "how");
    begin_exec();
    {
        std::vector<H> v;
        v.reserve(n);
        v.emplace_back(7);
        for(u32 i = 1; i < n; i++) {
            if(how == 0) v.push_back(v[i / 2].dup());
            else v.push_back(H::from_this(&*v[i - 1]));
            if(v[0].references() != i + 1) mc::fail("%lu references reported, %u taken", v[0].references(), i + 1);
        }
        P* at = &*v[0];
        u32 left = n;
        auto drop = [&](u32 i) {
            if(&*v[i] != at || L.nlive != 1 || at->get() != 7) mc::fail("the value is gone while %u of %u handles are left", left, n);
            if(i % 2) v[i].clear();
            else v[i] = H();
            left--;
            if((L.nlive == 1) != (left > 0)) mc::fail("%lld values alive with %u of %u handles left", (long long)L.nlive, left, n);
        };
        if(order == 0)
            for(u32 i = 0; i < n; i++) drop(i);
        if(order == 1)
            for(u32 i = n; i-- > 0;) drop(i);
        if(order == 2) {
            for(u32 i = 0; i < n; i += 2) drop(i);
            for(u32 i = 1; i < n; i += 2) drop(i);
        }
        if(order == 3) { // down to a half, up again, down
            for(u32 i = n / 2; i < n; i++)
                if(i) drop(i);
            for(u32 i = n / 2; i < n; i++)
                if(i) v[i] = v[0].dup(), left++;
            MC_CHECK(v[0].references() == n, "%lu references, %u taken", v[0].references(), n);
            for(u32 i = 0; i < n; i++) drop(i);
        }
    }
    c.op("%u handles, order %u, %u", n, order, how);
    c.state(n * 10 + order);
    end_exec("crowd");
}
// --- chains of owners of every length, and values of every size
struct BoxLink {
    Tok v;
    Box<BoxLink, TA> next;
    explicit BoxLink(i32 x) : v(x) {
    }
};
struct RcLink {
    Tok v;
    Rc<RcLink, TA> next;
    explicit RcLink(i32 x) : v(x) {
    }
};
template<typename H>
static void chain(mc::Ctx& c) {
    u32 n = 1 + c.choose(300, "length"), cut = c.choose(3, "cut");
    begin_exec();
    {
        H head;
        for(u32 i = 0; i < n; i++) {
            H h = H((i32)i);
            h->next = rpp::move(head);
            head = rpp::move(h);
        }
        MC_CHECK(L.nlive == n, "%lld values alive in a chain of %u", (long long)L.nlive, n);
        H* p = &head;
        for(u32 i = 0; i < (cut == 0 ? n : cut == 1 ? n / 2 : 0); i++) {
            if((*p)->v.get() != (i32)(n - 1 - i)) mc::fail("link %u of %u", i, n);
            p = &(*p)->next;
        }
        u32 left = cut == 0 ? n : cut == 1 ? n / 2 : 0;
        { H below = rpp::move(*p); } // everything below
        MC_CHECK(L.nlive == left, "%lld values alive after cutting a chain of %u to %u", (long long)L.nlive, n, left);
        while(head.ok()) { // the tail of the head replaces it
            head = rpp::move(head->next);
            left--;
            MC_CHECK(L.nlive == left, "%lld values alive in a chain of %u", (long long)L.nlive, left);
        }
    }
    c.op("chain of %u, cut %u", n, cut);
    c.state(n * 4 + cut);
    end_exec("chain");
}
template<u64 N> struct Sized {
    u8 d[N];
    explicit Sized(u8 x) {
        for(u64 i = 0; i < N; i++) d[i] = (u8)(x + i);
    }
    bool is(u8 x) const {
        for(u64 i = 0; i < N; i++)
            if(d[i] != (u8)(x + i)) return false;
        return true;
    }
};
template<template<typename> class H, u64 N>
static void sized1() {
    H<Sized<N>> a(u8(3)), b(u8(90));
    MC_CHECK(a->is(3) && b->is(90), "values of %lu bytes", N);
    H<Sized<N>> t = rpp::move(a);
    a = rpp::move(b);
    b = rpp::move(t);
    MC_CHECK(b->is(3) && a->is(90), "values of %lu bytes after a swap", N);
    { auto gone = rpp::move(a); }
    MC_CHECK(b->is(3) && !a.ok(), "values of %lu bytes after a clear", N);
}
template<template<typename> class H, u64... N>
static void sized2(mc::Ctx& c) {
    using F = void (*)();
    static const F f[] = {&sized1<H, N>...};
    u32 k = c.choose((u32)sizeof...(N), "size");
    begin_exec();
    f[k]();
    c.op("size #%u", k);
    c.state(k);
    end_exec("sized");
}
template<template<typename> class H>
static void sized(mc::Ctx& c) {
    sized2<H, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 4095, 4096, 4097>(c);
}
template<typename T> using BoxT = Box<T, TA>;
template<typename T> using BoxM = Box<T, Mpool>;
template<typename T> using RcT = Rc<T, TA>;
template<typename T> using ArcM = Arc<T, Mpool>;
// --- shared handles
template<typename H>
static void shared(mc::Ctx& c) {
    begin_exec();
    {
        constexpr int N = 3;
        H s[N];
        int obj[N] = {-1, -1, -1};
        int next = 0;
        auto refs = [&](int o) {
            int n = 0;
            for(int k = 0; k < N; k++) n += obj[k] == o;
            return n;
        };
        for(int d = 0; d < c.tier(5, 6); d++) {
            u32 k = c.choose(1 + 3 * 6, "op");
            if(k == 0) break;
            int a = (int)(k - 1) / 6, op = (int)(k - 1) % 6;
            auto other = [&] { return (int)c.choose(N, "from"); };
            switch(op) {
            case 0:
                s[a] = H(next);
                obj[a] = next++;
                c.op("s%d = new", a);
                break;
            case 1: {
                int b = other();
                s[a] = s[b].dup();
                obj[a] = obj[b];
                c.op("s%d = s%d.dup()", a, b);
            } break;
            case 2: {
                int b = other();
                s[a] = rpp::move(s[b]);
                if(a != b) {
                    obj[a] = obj[b];
                    obj[b] = -1;
                    MC_CHECK(!s[b].ok(), "a moved-from handle still owns");
                } else if(!s[a].ok()) obj[a] = -1; // self-move: kept or dropped
                c.op("s%d = move(s%d)", a, b);
            } break;
            case 3:
                s[a].clear();
                obj[a] = -1;
                c.op("s%d.clear()", a);
                break;
            case 4: {
                int b = other();
                if(obj[b] < 0) return;
                s[a] = H::from_this(&*s[b]);
                obj[a] = obj[b];
                c.op("s%d = from_this(s%d)", a, b);
            } break;
            case 5: { // through temporaries
                int b = other();
                H t(rpp::move(s[b]));
                if(obj[b] >= 0) MC_CHECK(t->get() == obj[b] && t.references() == (u64)refs(obj[b]), "moved handle");
                H u = t.dup();
                MC_CHECK(u.references() == (obj[b] < 0 ? 0u : (u64)refs(obj[b]) + 1), "references with a temporary");
                s[b] = H();
                if(a == b) s[a] = rpp::move(u);
                else {
                    s[a] = H::make(next);
                    obj[a] = next++;
                    s[b] = rpp::move(t);
                }
                c.op("temporaries %d %d", a, b);
            } break;
            }
            u64 h = 0;
            int alive = 0;
            for(int i = 0; i < next; i++) alive += refs(i) > 0;
            MC_CHECK(L.nlive == alive, "%lld objects alive, %d have a handle", (long long)L.nlive, alive);
            for(int i = 0; i < N; i++) {
                MC_CHECK(s[i].ok() == (obj[i] >= 0), "ok() of handle %d", i);
                const H& cs = s[i];
                if(obj[i] >= 0) {
                    MC_CHECK(s[i]->get() == obj[i] && (*s[i]).get() == obj[i] && cs->get() == obj[i] && (*cs).get() == obj[i], "handle %d refers to another object", i);
                    MC_CHECK(s[i].references() == (u64)refs(obj[i]), "%lu references reported, %d handles", s[i].references(), refs(obj[i]));
                } else MC_CHECK(s[i].references() == 0, "references of an empty handle");
                h = mc::mix(h, (u64)(obj[i] < 0 ? 0 : refs(obj[i])) * 4 + (u64)(obj[i] >= 0 && obj[i] == obj[(i + 1) % N]));
            }
            c.state(h);
        }
    }
    end_exec("shared");
}
// --- unique handles
struct Base {
    Tok v;
    explicit Base(i32 x) : v(x) {
    }
    Base(Base&&) = default;
    virtual ~Base() = default;
    virtual i32 id() const {
        return v.get();
    }
};
struct Derived : Base {
    Tok w;
    explicit Derived(i32 x) : Base(x), w(x + 1000) {
    }
    Derived(Derived&&) = default;
    i32 id() const override {
        return w.get();
    }
};
template<typename T, typename A>
static void unique(mc::Ctx& c) {
    begin_exec();
    {
        constexpr int N = 2;
        using B = Box<T, A>;
        B s[N];
        int val[N] = {-1, -1};
        int next = 0;
        for(int d = 0; d < c.tier(5, 6); d++) {
            u32 k = c.choose(1 + 2 * 7, "op");
            if(k == 0) break;
            int a = (int)(k - 1) / 7, op = (int)(k - 1) % 7, b = 1 - a;
            switch(op) {
            case 0: s[a] = B(T(next)), val[a] = next++; break;
            case 1: s[a] = B(next), val[a] = next++; break;
            case 2: s[a].emplace(next), val[a] = next++; break;
            case 3: s[a] = rpp::move(s[b]), val[a] = val[b], val[b] = -1; break;
            case 4:
                s[a] = rpp::move(s[a]);
                if(!s[a].ok()) val[a] = -1;
                break;
            case 5:
                if constexpr(Clone<T> || Copy_Constructable<T>) {
                    auto t = s[b].template clone<TB>(); // through another allocator
                    MC_CHECK(t.ok() == (val[b] >= 0) && (!t.ok() || t->get() == val[b]), "clone into another allocator");
                    s[a] = s[b].clone(), val[a] = val[b];
                } else s[a] = B(), val[a] = -1;
                break;
            case 6: { // out and back in
                B t(rpp::move(s[a]));
                MC_CHECK(!s[a].ok() && t.ok() == (val[a] >= 0), "moved");
                s[a] = B::make(next);
                s[b] = rpp::move(t);
                val[b] = val[a];
                val[a] = next++;
            } break;
            }
            c.op("box %d op %d", a, op);
            int alive = 0;
            for(int i = 0; i < N; i++) {
                MC_CHECK(s[i].ok() == (val[i] >= 0), "ok() of box %d", i);
                if(val[i] < 0) continue;
                alive++;
                const B& cs = s[i];
                MC_CHECK(s[i]->get() == val[i] && (*s[i]).get() == val[i] && cs->get() == val[i] && (*cs).get() == val[i], "box %d holds another value", i);
            }
            if(!is_pod<T>::v) MC_CHECK(L.nlive == alive, "%lld values alive in %d boxes", (long long)L.nlive, alive);
            c.state((u64)alive * 8 + (u64)(val[0] >= 0) * 2 + (u64)(val[1] >= 0));
        }
    }
    end_exec("box");
}
static void derived(mc::Ctx& c) {
    begin_exec();
    {
        Box<Base, TA> s[2];
        int val[2] = {-1, -1};
        int next = 0;
        for(int d = 0; d < c.tier(5, 6); d++) {
            u32 k = c.choose(7, "op");
            if(k == 0) break;
            int a = (int)(k - 1) % 2, op = (int)(k - 1) / 2;
            if(op == 0) s[a] = Box<Base, TA>(Base(next)), val[a] = next++;
            if(op == 1) {
                Box<Derived, TA> x(next);
                s[a] = Box<Base, TA>(rpp::move(x));
                MC_CHECK(!x.ok(), "moved-from box owns");
                val[a] = 1000 + next++;
            }
            if(op == 2) s[a] = rpp::move(s[1 - a]), val[a] = val[1 - a], val[1 - a] = -1;
            int alive = 0;
            for(int i = 0; i < 2; i++) {
                MC_CHECK(s[i].ok() == (val[i] >= 0), "ok");
                if(val[i] >= 0) {
                    MC_CHECK(s[i]->id() == val[i], "another value");
                    alive += val[i] >= 1000 ? 2 : 1;
                }
            }
            MC_CHECK(L.nlive == alive, "%lld values alive, expected %d: not destroyed as what it is", (long long)L.nlive, alive);
            c.op("derived %d %d", op, a);
            c.state((u64)(val[0] >= 1000) * 4 + (u64)(val[1] >= 1000) * 2 + (u64)alive * 16);
        }
    }
    end_exec("derived");
}
// --- linked lists of owners: remove, insert, splice, reverse at any place
template<template<typename, typename> typename P, typename A>
struct Lnk {
    Tok v;
    P<Lnk, A> next;
    explicit Lnk(i32 x) : v(x) {
    }
    Lnk(Lnk&&) = default;
};
template<typename T, typename A> using BoxP = Box<T, A>;
template<typename T, typename A> using RcP = Rc<T, A>;
template<typename T, typename A> using ArcP = Arc<T, A>;
template<template<typename, typename> typename P, typename A>
static void list(mc::Ctx& c) {
    begin_exec();
    {
        using N = Lnk<P, A>;
        P<N, A> head;
        std::vector<i32> model;
        i32 next = 0;
        auto at = [&](u64 i) -> P<N, A>* {
            P<N, A>* p = &head;
            while(i--) p = &(*p)->next;
            return p;
        };
        for(int d = 0; d < c.tier(8, 9); d++) {
            u32 k = c.choose(6, "op");
            if(k == 0) break;
            u64 n = model.size();
            if(k == 1 || k == 2) { // insert at the front or end
                u64 i = k == 1 ? 0 : n;
                P<N, A> x{N(next)};
                x->next = rpp::move(*at(i));
                *at(i) = rpp::move(x);
                model.insert(model.begin() + (long)i, next++);
            } else if(k == 3) { // remove any
                if(!n) return;
                u64 i = c.choose((u32)n, "which");
                P<N, A>* p = at(i);
                *p = rpp::move((*p)->next);
                model.erase(model.begin() + (long)i);
            } else if(k == 4) { // cut after a place
                u64 i = c.choose((u32)n + 1, "where");
                *at(i) = P<N, A>();
                model.resize(i);
            } else { // reverse
                P<N, A> r;
                while(head.ok()) {
                    P<N, A> rest = rpp::move(head->next);
                    head->next = rpp::move(r);
                    r = rpp::move(head);
                    head = rpp::move(rest);
                }
                head = rpp::move(r);
                model = {model.rbegin(), model.rend()};
            }
            c.op("list op %u", k);
            u64 i = 0;
            for(P<N, A>* p = &head; p->ok(); p = &(*p)->next, i++)
                MC_CHECK(i < model.size() && (*p)->v.get() == model[i], "element %lu", i);
            MC_CHECK(i == model.size() && L.nlive == (i64)i, "%lu nodes in the list, %lld alive, expected %zu", i, (long long)L.nlive, model.size());
            c.state(i);
        }
    }
    end_exec("list");
}
// --- containers nested in their own elements: a subtree replaces the tree that holds it
struct VT {
    Tok v;
    Vec<VT, TA> kids;
    explicit VT(i32 x) : v(x) {
    }
    VT(VT&&) = default;
    VT& operator=(VT&&) = default;
    void add(VT&& k) {
        kids.push(rpp::move(k));
    }
    VT& kid(u64 i) {
        return kids[i];
    }
};
struct QT {
    Tok v;
    Queue<Box<QT, TA>, TA> kids;
    explicit QT(i32 x) : v(x) {
    }
    QT(QT&&) = default;
    QT& operator=(QT&&) = default;
    void add(QT&& k) {
        kids.push(Box<QT, TA>(rpp::move(k)));
    }
    QT& kid(u64 i) {
        return *kids[i];
    }
};
struct MT {
    Tok v;
    Map<i32, Box<MT, TA>, TA> kids;
    explicit MT(i32 x) : v(x) {
    }
    MT(MT&&) = default;
    MT& operator=(MT&&) = default;
    void add(MT&& k) {
        i32 n = (i32)kids.length();
        kids.insert(i32{n}, Box<MT, TA>(rpp::move(k)));
    }
    MT& kid(u64 i) {
        return *kids.get((i32)i);
    }
};
struct Model {
    i32 v;
    std::vector<Model> kids;
};
template<typename T>
static void same(T& t, Model& m, i64& n) {
    MC_CHECK(t.v.get() == m.v, "node holds %d, expected %d", t.v.get(), m.v);
    MC_CHECK(t.kids.length() == m.kids.size(), "%lu children, expected %zu", t.kids.length(), m.kids.size());
    n++;
    for(u64 i = 0; i < m.kids.size(); i++) same(t.kid(i), m.kids[i], n);
}
template<typename T>
static void nested(mc::Ctx& c) {
    begin_exec();
    {
        T root(0);
        Model m{0, {}};
        i32 next = 1;
        for(int d = 0; d < c.tier(8, 9); d++) {
            u32 k = c.choose(4, "op");
            if(k == 0) break;
            T* t = &root;
            Model* mm = &m;
            while(mm->kids.size()) { // walk down
                u32 i = c.choose((u32)mm->kids.size() + 1, "down");
                if(i == mm->kids.size()) break;
                t = &t->kid(i);
                mm = &mm->kids[i];
            }
            if(k == 1) {
                t->add(T(next));
                mm->kids.push_back({next++, {}});
            } else if(k == 2) { // the children of a child replace the children
                if(mm->kids.empty()) return;
                u32 i = c.choose((u32)mm->kids.size(), "child");
                t->kids = rpp::move(t->kid(i).kids);
                auto mk = std::move(mm->kids[i].kids);
                mm->kids = std::move(mk);
            } else { // self
                t->kids = rpp::move(t->kids);
                if(t->kids.length() == 0) mm->kids.clear();
            }
            c.op("tree op %u", k);
            i64 n = 0;
            same(root, m, n);
            MC_CHECK(L.nlive == n, "%lld values alive, %lld nodes", (long long)L.nlive, (long long)n);
            c.state((u64)n * 16 + m.kids.size());
        }
    }
    end_exec("nested");
}
// --- graphs of handles, cycles included: a value that holds a handle to itself (as one that keeps itself alive does) ends when it lets go of it
template<template<typename, typename> typename P, typename A>
struct Gn {
    Tok v;
    P<Gn, A> out[2];
    explicit Gn(i32 x) : v(x) {
    }
    Gn(Gn&&) = default;
};
template<template<typename, typename> typename P, typename A, int EDGES, int DEPTH = 6>
static void graph(mc::Ctx& c) {
    constexpr bool shared_ = !std::is_same_v<P<i32, Mdefault>, Box<i32, Mdefault>>;
    constexpr int N = 3, R = 2;
    using G = Gn<P, A>;
    begin_exec();
    {
        P<G, A> root[R];
        G* node[N] = {};
        int mroot[R] = {-1, -1}, mout[N][2], cnt[N] = {};
        bool alive[N] = {};
        int made = 0;
        for(auto& o : mout) o[0] = o[1] = -1;
        auto release = [&](auto& self, int n) -> void {
            if(n < 0 || --cnt[n] > 0) return;
            alive[n] = false;
            for(int e = 0; e < 2; e++) {
                int t = mout[n][e];
                mout[n][e] = -1;
                self(self, t);
            }
        };
        int place_n = 0;
        auto place = [&](u32 p) -> std::pair<P<G, A>*, int*> { // roots, then the handles inside the live values
            if(p < R) return {&root[p], &mroot[p]};
            p -= R;
            for(int i = 0; i < made; i++)
                if(alive[i]) {
                    if(p < EDGES) return {&node[i]->out[p], &mout[i][p]};
                    p -= EDGES;
                }
            return {nullptr, nullptr};
        };
        auto count = [&] {
            place_n = R;
            for(int i = 0; i < made; i++) place_n += alive[i] ? EDGES : 0;
            return (u32)place_n;
        };
        auto verify = [&] {
            i64 n = 0;
            for(int i = 0; i < made; i++) n += alive[i];
            MC_CHECK(L.nlive == n, "%lld values alive, %lld have handles", (long long)L.nlive, (long long)n);
            for(u32 p = 0; p < count(); p++) {
                auto [h, m] = place(p);
                MC_CHECK(h->ok() == (*m >= 0), "handle %u is %s", p, h->ok() ? "not empty" : "empty");
                if(*m < 0) continue;
                MC_CHECK(&**h == node[*m] && (*h)->v.get() == *m, "handle %u refers to another value", p);
                if constexpr(shared_) MC_CHECK(h->references() == (u64)cnt[*m], "%lu references reported, %d exist", h->references(), cnt[*m]);
            }
        };
        for(int d = 0; d < c.tier(DEPTH, DEPTH + 1); d++) {
            u32 k = c.choose(shared_ ? 6 : 4, "op");
            if(k == 0) break;
            u32 a = c.choose(count(), "handle");
            auto [h, m] = place(a);
            if(k == 1) { // let go
                if(*m < 0) return;
                int old = *m;
                *m = -1;
                if constexpr(shared_) h->clear();
                else *h = P<G, A>();
                release(release, old);
            } else if(k == 2) { // a new value
                if(made == N) return;
                int old = *m;
                *h = P<G, A>(made);
                *m = made;
                // the value held before may own this handle
                alive[made] = true;
                cnt[made] = 1;
                int i = made++;
                bool inside = a >= R;
                node[i] = nullptr;
                if(inside) { // does the owner of this handle survive?
                    int owner = -1;
                    for(int q = 0; q < i; q++)
                        for(int e = 0; e < EDGES; e++)
                            if(m == &mout[q][e]) owner = q;
                    release(release, old);
                    if(owner >= 0 && alive[owner]) node[i] = &**h;
                } else {
                    node[i] = &**h;
                    release(release, old);
                }
            } else if(k == 3) { // move
                u32 b = c.choose(count(), "from");
                auto [hb, mb] = place(b);
                *h = rpp::move(*hb);
                if(a != b) {
                    int old = *m;
                    *m = *mb;
                    *mb = -1;
                    release(release, old);
                } else if(*m >= 0) { // itself: kept or let go, both leave one place fewer or none
                    bool ended = L.nlive < [&] { i64 n = 0; for(int i = 0; i < made; i++) n += alive[i]; return n; }();
                    if(ended || !h->ok()) {
                        int old = *m;
                        *m = -1;
                        release(release, old);
                    }
                }
            } else if(k == 4) {
                if constexpr(shared_) {
                    u32 b = c.choose(count(), "from");
                    auto [hb, mb] = place(b);
                    *h = hb->dup();
                    int old = *m;
                    *m = *mb;
                    if(*m >= 0) cnt[*m]++;
                    release(release, old);
                }
            } else {
                if constexpr(shared_) {
                    int i = (int)c.choose((u32)N, "which");
                    if(i >= made || !alive[i]) return;
                    *h = P<G, A>::from_this(node[i]);
                    int old = *m;
                    *m = i;
                    cnt[i]++;
                    release(release, old);
                }
            }
            c.op("graph op %u on %u", k, a);
            verify();
            u64 key = 0;
            for(int i = 0; i < N; i++) key = key * 32 + (u64)(alive[i] ? 1 + (mout[i][0] + 1) * 4 + (mout[i][1] + 1) : 0);
            c.state(key * 16 + (u64)(mroot[0] + 1) * 4 + (u64)(mroot[1] + 1));
        }
        // the cycles end as well when their values let go
        for(int i = 0; i < made; i++)
            for(int e = 0; e < EDGES; e++)
                if(alive[i] && mout[i][e] >= 0) {
                    int old = mout[i][e];
                    mout[i][e] = -1;
                    if constexpr(shared_) node[i]->out[e].clear();
                    else node[i]->out[e] = P<G, A>();
                    release(release, old);
                    verify();
                }
    }
    end_exec("graph");
}
// a value made from a part of the one it replaces
template<typename A>
static void emplace_part(mc::Ctx& c) {
    begin_exec();
    {
        u32 n = 1 + c.choose(4, "length");
        Box<Lnk<BoxP, A>, A> head;
        for(u32 i = 0; i < n; i++) {
            Box<Lnk<BoxP, A>, A> x{Lnk<BoxP, A>((i32)(n - 1 - i))};
            x->next = rpp::move(head);
            head = rpp::move(x);
        }
        u32 first = 0;
        for(u32 d = 0; d < 4; d++) {
            if(c.choose(2, "stop") || !head->next.ok()) break;
            u32 skip = 1 + c.choose(n - first - 1, "part");
            Box<Lnk<BoxP, A>, A>* p = &head;
            for(u32 i = 0; i < skip; i++) p = &(*p)->next;
            head.emplace(rpp::move(**p));
            first += skip;
            c.op("emplace part %u", skip);
            u32 i = first;
            for(Box<Lnk<BoxP, A>, A>* q = &head; q->ok(); q = &(*q)->next, i++) MC_CHECK((*q)->v.get() == (i32)i, "element %u holds %d", i, (*q)->v.get());
            MC_CHECK(i == n && L.nlive == n - first, "%lld values alive, %u in the list", (long long)L.nlive, n - first);
            c.state(first * 8 + n);
        }
    }
    end_exec("emplace-part");
}
// --- a value that keeps itself alive through something else that holds the handle ends when that is assigned over, and only then
template<template<typename, typename> typename P>
static void kept(mc::Ctx& c) {
    u32 how = c.choose(8, "holder"), act = c.choose(3, "act");
    begin_exec();
    {
        auto run = [&]<typename K>(K* k, auto put, auto over, auto again, auto clear) {
            using X = typename K::X;
            P<X, TA> h = k->make();
            X* x = &*h;
            put(x, rpp::move(h));
            MC_CHECK(L.nlive == 1 && x->v.get() == 1, "gone while it holds itself");
            again(x); // move out and back in
            MC_CHECK(L.nlive == 1 && x->v.get() == 1, "gone while it holds itself");
            if(act == 0) over(x);
            else if(act == 1) clear(x);
            else { // through another holder
                auto other = rpp::move(x->m);
                MC_CHECK(L.nlive == 1 && x->v.get() == 1, "gone while it is held");
            }
            MC_CHECK(L.nlive == 0, "still alive");
        };
        if(how == 0) {
            struct K {
                struct X : Tok {
                    Tok& v = *this;
                    Vec<P<X, TA>, TA> m;
                    explicit X(i32 i) : Tok(i) {
                    }
                };
                auto make() { return P<X, TA>::make(1); }
            } k;
            run(&k, [](auto* x, auto&& h) { x->m.push(rpp::move(h)); }, [](auto* x) { x->m = decltype(x->m){}; }, [](auto* x) { auto t = rpp::move(x->m); x->m = rpp::move(t); },
                [](auto* x) { x->m[0] = {}; });
        } else if(how == 1) {
            struct K {
                struct X : Tok {
                    Tok& v = *this;
                    Queue<P<X, TA>, TA> m;
                    explicit X(i32 i) : Tok(i) {
                    }
                };
                auto make() { return P<X, TA>::make(1); }
            } k;
            run(&k, [](auto* x, auto&& h) { x->m.push(rpp::move(h)); }, [](auto* x) { x->m = decltype(x->m){}; }, [](auto* x) { auto t = rpp::move(x->m); x->m = rpp::move(t); },
                [](auto* x) { x->m.front() = {}; });
        } else if(how == 2) {
            struct K {
                struct X : Tok {
                    Tok& v = *this;
                    Map<i32, P<X, TA>, TA> m;
                    explicit X(i32 i) : Tok(i) {
                    }
                };
                auto make() { return P<X, TA>::make(1); }
            } k;
            run(&k, [](auto* x, auto&& h) { x->m.insert(5, rpp::move(h)); }, [](auto* x) { x->m = decltype(x->m){}; }, [](auto* x) { auto t = rpp::move(x->m); x->m = rpp::move(t); },
                [](auto* x) { x->m.get(5) = {}; });
        } else if(how == 3) {
            struct K {
                struct X : Tok {
                    Tok& v = *this;
                    Opt<P<X, TA>> m;
                    explicit X(i32 i) : Tok(i) {
                    }
                };
                auto make() { return P<X, TA>::make(1); }
            } k;
            run(&k, [](auto* x, auto&& h) { x->m = Opt<P<typename K::X, TA>>(rpp::move(h)); }, [](auto* x) { x->m = decltype(x->m){}; },
                [](auto* x) { auto t = rpp::move(x->m); x->m = rpp::move(t); }, [](auto* x) { x->m.clear(); });
        } else if(how == 4) {
            struct K {
                struct X : Tok {
                    Tok& v = *this;
                    Opt<P<X, TA>> m;
                    explicit X(i32 i) : Tok(i) {
                    }
                };
                auto make() { return P<X, TA>::make(1); }
            } k;
            run(&k, [](auto* x, auto&& h) { x->m = rpp::move(h); }, [](auto* x) { x->m = P<typename K::X, TA>{}; }, [](auto* x) { auto t = rpp::move(*x->m); x->m = rpp::move(t); },
                [](auto* x) { *x->m = P<typename K::X, TA>{}; });
        } else if(how == 5) {
            struct K {
                struct X : Tok {
                    Tok& v = *this;
                    Variant<i32, P<X, TA>> m{3};
                    explicit X(i32 i) : Tok(i) {
                    }
                };
                auto make() { return P<X, TA>::make(1); }
            } k;
            using V = Variant<i32, P<typename K::X, TA>>;
            run(&k, [](auto* x, auto&& h) { x->m = V(rpp::move(h)); }, [](auto* x) { x->m = V(4); }, [](auto* x) { auto t = rpp::move(x->m); x->m = rpp::move(t); },
                [](auto* x) { x->m.match(Overload{[](i32&) {}, [](P<typename K::X, TA>& h) { h = {}; }}); });
        } else if(how == 6) {
            struct K {
                struct X : Tok {
                    Tok& v = *this;
                    Function<void()> m{[] {}};
                    explicit X(i32 i) : Tok(i) {
                    }
                };
                auto make() { return P<X, TA>::make(1); }
            } k;
            run(&k, [](auto* x, auto&& h) { x->m = Function<void()>([h = rpp::move(h)]() mutable {}); }, [](auto* x) { x->m = Function<void()>([] {}); },
                [](auto* x) { auto t = rpp::move(x->m); x->m = rpp::move(t); },
                [](auto* x) {
                    Function<void()> none([] {}), taken(rpp::move(none));
                    x->m = rpp::move(none); // an empty one
                });
        } else {
            struct K {
                struct X : Tok {
                    Tok& v = *this;
                    Tuple<i32, P<X, TA>> m;
                    explicit X(i32 i) : Tok(i) {
                    }
                };
                auto make() { return P<X, TA>::make(1); }
            } k;
            run(&k, [](auto* x, auto&& h) { x->m = Tuple<i32, P<typename K::X, TA>>(2, rpp::move(h)); }, [](auto* x) { x->m = Tuple<i32, P<typename K::X, TA>>(3, P<typename K::X, TA>{}); },
                [](auto* x) { auto t = rpp::move(x->m); x->m = rpp::move(t); }, [](auto* x) { x->m.template get<1>() = {}; });
        }
    }
    c.op("holder %u act %u", how, act);
    c.state(how * 3 + act);
    end_exec("kept");
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "O01";
    m.bounds = "every history of 4 (thorough 5) operations on three shared handles and 5 (6) on two boxes; every history of 8 (9) operations on linked lists of owners "
               "and on trees of containers, including moves from inside the assigned owner; 27 numbers of handles up to 70000 in 4 orders; chains of every length to 300; values of 40 sizes to 4097; every graph of up to 3 values with 1 or 2 handles inside each, cycles included, over 6 (7) operations";
    
    m.add("rc", shared<Rc<Tok, TA>>, 3);
    m.add("rc-pool", shared<Rc<CTok, Mpool>>, 3);
    m.add("arc", shared<Arc<Tok, TA>>, 3);
    m.add("arc-pool", shared<Arc<CTok, Mpool>>, 3);
    m.add("box<Tok>", unique<Tok, TA>, 3);
    m.add("box<CTok>", unique<CTok, TA>, 3);
    m.add("box<Pod>", unique<Pod, TA>, 3);
    m.add("box<MTok>", unique<MTok, Mpool>, 3);
    m.add("box-derived", derived, 2);
    m.add("list-box", list<BoxP, TA>, 3);
    m.add("list-rc", list<RcP, TA>, 3);
    m.add("list-arc", list<ArcP, TA>, 3);
    m.add("nested-vec", nested<VT>, 3);
    m.add("nested-queue", nested<QT>, 3);
    m.add("nested-map", nested<MT>, 3);
    m.add("graph-rc", graph<RcP, TA, 1>, 3);
    m.add("graph-rc2", graph<RcP, Mpool, 2, 5>, 3);
    m.add("graph-arc", graph<ArcP, TA, 1>, 3);
    m.add("graph-box", graph<BoxP, TA, 2>, 3);
    m.add("kept-rc", kept<RcP>, 1);
    m.add("kept-arc", kept<ArcP>, 1);
    m.add("kept-box", kept<BoxP>, 1);
    m.add("emplace-part", emplace_part<TA>, 1);
    m.add("emplace-part-pool", emplace_part<Mpool>, 1);
    m.add("crowd-rc", crowd<Rc<Tok, TA>, Tok>, 2);
    m.add("crowd-arc", crowd<Arc<Tok, TA>, Tok>, 2);
    m.add("chain-box", chain<Box<BoxLink, TA>>, 2);
    m.add("chain-rc", chain<Rc<RcLink, TA>>, 2);
    m.add("sized-box", sized<BoxT>, 1);
    m.add("sized-box-pool", sized<BoxM>, 1);
    m.add("sized-rc", sized<RcT>, 1);
    m.add("sized-arc-pool", sized<ArcM>, 1);
    return m.run(argc, argv);
}
