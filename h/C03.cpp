// C03: Map against a plain association list, with fully controlled hash values.
#include "elem.h"
using namespace rpp;
using namespace el;

static u64 g_hash[64]; // hash of key k
template<typename T>
struct KeyT {
    T t;
    explicit KeyT(int k) noexcept : t(k) {
    }
    KeyT(KeyT&&) noexcept = default;
    KeyT& operator=(KeyT&&) noexcept = default;
    KeyT(const KeyT&) noexcept
        requires rpp::Copy_Constructable<T>
    = default;
    KeyT clone() const noexcept
        requires rpp::Clone<T>
    {
        return KeyT(t.get());
    }
    bool operator==(const KeyT& o) const noexcept {
        return t.get() == o.t.get();
    }
};
struct Crowd { // a key whose place is chosen
    u64 k, h;
    bool operator==(const Crowd& o) const {
        return k == o.k;
    }
};
namespace rpp::Hash {
template<>
struct Hash<Crowd> {
    static u64 hash(const Crowd& c) {
        return c.h;
    }
};
template<typename T>
struct Hash<KeyT<T>> {
    static u64 hash(const KeyT<T>& k) noexcept {
        int v = k.t.get();
        if(v < 0 || v >= 64) mc::fail("hashed a key that was never used: %d", v);
        return g_hash[v];
    }
};
}
template<typename T>
struct Reflect::Refl<KeyT<T>> {
    using underlying = i32;
    constexpr static Literal name = "Key";
    constexpr static Reflect::Kind kind = Reflect::Kind::i32_;
};
namespace rpp::Format {
template<typename T>
struct Measure<KeyT<T>> {
    static u64 measure(const KeyT<T>&) noexcept {
        return 1;
    }
};
template<Allocator O, typename T>
struct Write<O, KeyT<T>> {
    static u64 write(String<O>& o, u64 i, const KeyT<T>&) noexcept {
        return o.write(i, 'k');
    }
};
}

struct Model {
    int val[64];
    bool has[64];
    int n = 0;
    Model() {
        memset(has, 0, sizeof has);
        memset(val, 0, sizeof val);
    }
};

template<typename K, typename MM>
static void check_map(const char* w, MM& m, const Model& mo, int nkeys, bool absent_probe = true) {
    const MM& cm = m;
    MC_CHECK(m.length() == (u64)mo.n, "%s: length %lu, expected %d", w, m.length(), mo.n);
    MC_CHECK(m.empty() == (mo.n == 0), "%s", w);
    for(int k = 0; k < nkeys + (absent_probe ? 1 : 0); k++) {
        K key(k);
        bool has = k < nkeys && mo.has[k];
        auto r = m.try_get(key);
        auto cr = cm.try_get(key);
        MC_CHECK(r.ok() == has, "%s: try_get(%d) %s", w, k, has ? "did not find it" : "found it");
        MC_CHECK(cr.ok() == has, "%s: const try_get(%d)", w, k);
        MC_CHECK(cm.contains(key) == has, "%s: contains(%d)", w, k);
        if(has) {
            MC_CHECK((**r).get() == mo.val[k], "%s: value of %d is %d, expected %d", w, k,
                     (**r).get(), mo.val[k]);
            MC_CHECK((**cr).get() == mo.val[k], "%s: const value of %d", w, k);
            MC_CHECK(m.get(key).get() == mo.val[k] && cm.get(key).get() == mo.val[k], "%s: get", w);
        }
    }
    bool seen[64] = {};
    int n = 0;
    for(auto& [k, v] : m) {
        int kk = k.t.get();
        MC_CHECK(kk >= 0 && kk < nkeys && mo.has[kk] && !seen[kk], "%s: iteration gave key %d", w, kk);
        MC_CHECK(v.get() == mo.val[kk], "%s: iteration gave %d for %d", w, v.get(), kk);
        seen[kk] = true;
        n++;
    }
    MC_CHECK(n == mo.n, "%s: iterated %d of %d", w, n, mo.n);
    n = 0;
    for(const auto& [k, v] : cm) {
        MC_CHECK(v.get() == mo.val[k.t.get()], "%s: const iteration", w);
        n++;
    }
    MC_CHECK(n == mo.n, "%s: const iterated %d of %d", w, n, mo.n);
    n = 0;
    for(auto it = m.begin(); !(it == m.end()); it++) n += it->second.get() == mo.val[it->first.t.get()];
    MC_CHECK(n == mo.n, "%s: iterator %d of %d", w, n, mo.n);
}

// key k hashes into one of a few buckets near the ends of the table, optionally with an equal full hash
static u64 bucket_hash(u32 b, int k, bool same_full) {
    static const u64 top[] = {0xFull << 60, 0, 0xEull << 60, 1ull << 60};
    u64 h = top[b];
    return (same_full ? h | 2 : h | (u64(k) << 8)) & ~1ull;
}

template<typename T, typename VT, typename MAP>
static void ops_from(mc::Ctx& c, MAP& a, Model& ma, int nkeys, int depth, int maxkeys, bool full_alpha) {
    using K = KeyT<T>;
    MAP b;
    Model mb;
    int nb_keys = 0;
    int next = 100;
    for(int d = 0; d < depth; d++) {
        int nnew = nkeys < maxkeys ? 6 : 0; // fresh key in bucket 0..3 (0 and 1 also with an equal hash)
        int nop = nnew + 2 * nkeys + (full_alpha ? 8 : 2);
        int op = c.choose(nop);
        if(op < nnew) {
            int k = nkeys++;
            static const int bk[] = {0, 1, 0, 1, 2, 3};
            g_hash[k] = bucket_hash(bk[op], k, op == 2 || op == 3);
            g_hash[nkeys] = bucket_hash(bk[op], 63, op == 2 || op == 3); // the absent probe collides with it
            c.op("insert(new key %d, hash %lx)", k, g_hash[k]);
            VT& r = a.insert(K(k), VT(next));
            MC_CHECK(r.get() == next, "insert returned a reference to %d, expected %d", r.get(), next);
            MC_CHECK(&r == &a.get(K(k)), "insert returned a reference to another entry");
            ma.has[k] = true;
            ma.val[k] = next++;
            ma.n++;
        } else if((op -= nnew) < nkeys) {
            int k = op;
            int how = c.choose(2);
            c.op("%s(key %d)", how ? "emplace" : "insert", k);
            VT* r;
            if(how) r = &a.emplace(K(k), next);
            else {
                if constexpr(rpp::Copy_Constructable<K> && rpp::Copy_Constructable<VT>) {
                    const K kk(k);
                    const VT vv(next);
                    r = &a.insert(kk, vv);
                } else r = &a.insert(K(k), VT(next));
            }
            MC_CHECK(r->get() == next, "insert returned a reference to %d, expected %d", r->get(), next);
            MC_CHECK(r == &a.get(K(k)), "insert returned a reference to another entry");
            if(!ma.has[k]) ma.n++;
            ma.has[k] = true;
            ma.val[k] = next++;
        } else if((op -= nkeys) < nkeys) {
            int k = op;
            c.op("erase(key %d)", k);
            if(ma.has[k] && c.choose(2)) a.erase(K(k));
            else {
                bool r = a.try_erase(K(k));
                MC_CHECK(r == ma.has[k], "try_erase(%d) returned %d", k, r);
            }
            if(ma.has[k]) ma.n--;
            ma.has[k] = false;
        } else
            switch(op -= nkeys) {
            case 0: { // absent key
                g_hash[nkeys] = g_hash[nkeys ? nkeys - 1 : 0];
                c.op("try_erase(absent)");
                MC_CHECK(!a.try_erase(K(nkeys)), "try_erase of an absent key succeeded");
            } break;
            case 1:
                c.op("clear");
                a.clear();
                memset(ma.has, 0, sizeof ma.has);
                ma.n = 0;
                break;
            case 2:
                c.op("grow");
                a.grow();
                break;
            case 3: {
                if constexpr(requires { a.clone(); }) {
                    c.op("b = a.clone()");
                    b = a.clone();
                    mb = ma;
                    nb_keys = nkeys;
                }
            } break;
            case 4:
                c.op("swap(a, b)");
                rpp::swap(a, b);
                std::swap(ma, mb);
                nb_keys = nkeys;
                break;
            case 5: {
                u64 n = 1 + c.choose(6) * 2 + (ma.n & ~1);
                c.op("reserve(%lu)", n);
                a.reserve(n);
            } break;
            case 6: {
                c.op("MAP t(move(a)); a.insert; a = move(t)");
                MAP t(rpp::move(a));
                MC_CHECK(a.empty() && a.length() == 0, "moved-from map not empty");
                if(nkeys) {
                    a.insert(K(0), VT(-5));
                    MC_CHECK(a.length() == 1 && a.get(K(0)).get() == -5, "reused moved-from map");
                }
                a = rpp::move(t);
            } break;
            case 7:
                if constexpr(rpp::Default_Constructable<VT>) {
                    if(!nkeys) break;
                    int k = c.choose(nkeys);
                    c.op("get_or_insert(key %d) = %d", k, next);
                    VT& r = a.get_or_insert(K(k));
                    if(ma.has[k]) MC_CHECK(r.get() == ma.val[k], "get_or_insert changed the value");
                    else if constexpr(!is_pod<VT>::v)
                        MC_CHECK(r.get() == 0, "get_or_insert: not a default value");
                    r = VT(next);
                    if(!ma.has[k]) ma.n++;
                    ma.has[k] = true;
                    ma.val[k] = next++;
                }
                break;
            }
        check_map<K>("a", a, ma, nkeys);
        if(full_alpha && nb_keys) check_map<K>("b", b, mb, nb_keys, false);
        u64 h = nkeys;
        for(int k = 0; k < nkeys; k++) h = mc::mix(h, g_hash[k] + ma.has[k] + 2 * mb.has[k]);
        c.state(mc::mix(h, a.full()));
    }
}

// from a tiny table: collisions, wrap-around, growth
template<typename T, typename VT>
static void small(mc::Ctx& c) {
    begin_exec();
    {
        using MAP = Map<KeyT<T>, VT, TA>;
        static const u64 caps[] = {0, 4, 8};
        u64 cap = caps[c.choose(3, "capacity")];
        MAP a;
        if(cap) a = MAP(cap);
        Model ma;
        g_hash[0] = bucket_hash(0, 63, false);
        ops_from<T, VT>(c, a, ma, 0, c.tier(is_pod<T>::v ? 6 : 5, 6), 6, false);
    }
    end_exec("map");
}
// the whole interface
template<typename T, typename VT>
static void full(mc::Ctx& c) {
    begin_exec();
    {
        using MAP = Map<KeyT<T>, VT, TA>;
        u64 cap = c.choose(9, "capacity");
        MAP a;
        if(c.choose(2)) a = MAP(cap);
        else a.reserve(cap);
        Model ma;
        g_hash[0] = bucket_hash(0, 63, false);
        int n = c.choose(4); // pre-populate
        for(int k = 0; k < n; k++) {
            g_hash[k] = bucket_hash(k & 1, k, false);
            g_hash[k + 1] = bucket_hash(k & 1, 63, false);
            a.insert(KeyT<T>(k), VT(k));
            ma.has[k] = true;
            ma.val[k] = k;
            ma.n++;
        }
        c.op("capacity %lu, %d entries", cap, n);
        check_map<KeyT<T>>("a", a, ma, n);
        ops_from<T, VT>(c, a, ma, n, c.tier(3, 4), n + 2, true);
    }
    end_exec("map");
}
// dense clusters: n keys whose ideal buckets are chosen exhaustively in an 8-slot table, then erased in
// every position, then re-inserted
template<typename T, typename VT>
static void clusters(mc::Ctx& c) {
    begin_exec();
    {
        using K = KeyT<T>;
        Map<K, VT, TA> a(8);
        Model ma;
        const int n = c.tier(6, 6);
        for(int k = 0; k < n; k++) {
            static const u64 bu[] = {0, 1, 6, 7};
            u64 b = bu[c.choose(4, "bucket")];
            g_hash[k] = (b << 61) | (u64(k) << 8);
            g_hash[k + 1] = (b << 61) | (63u << 8);
            c.op("insert(%d in bucket %lu)", k, b);
            VT& r = a.insert(K(k), VT(k));
            MC_CHECK(r.get() == k && &r == &a.get(K(k)), "insert returned a reference to another entry");
            ma.has[k] = true;
            ma.val[k] = k;
            ma.n++;
        }
        check_map<K>("a", a, ma, n);
        for(int round = 0; round < 2; round++) {
            int k = c.choose(n, "erase");
            c.op("erase(%d)", k);
            bool r = a.try_erase(K(k));
            MC_CHECK(r == ma.has[k], "try_erase(%d) returned %d", k, r);
            if(ma.has[k]) ma.n--;
            ma.has[k] = false;
            check_map<K>("a", a, ma, n);
            u64 h = 0;
            for(int q = 0; q < n; q++) h = mc::mix(h, g_hash[q] + ma.has[q]);
            c.state(h);
        }
        for(int k = 0; k < n; k++)
            if(!ma.has[k]) {
                c.op("insert(%d)", k);
                a.insert(K(k), VT(50 + k));
                ma.has[k] = true;
                ma.val[k] = 50 + k;
                ma.n++;
                check_map<K>("a", a, ma, n);
            }
        c.op("overwrite all");
        for(int k = 0; k < n; k++) {
            a.insert(K(k), VT(70 + k));
            ma.val[k] = 70 + k;
        }
        check_map<K>("a", a, ma, n);
    }
    end_exec("map");
}

// many entries with the library's own hashes across several growths, erase patterns
static void bulk(mc::Ctx& c) {
    begin_exec();
    {
        static const int ns[] = {1, 2, 3, 23, 24, 25, 47, 48, 49, 96, 97, 200};
        int n = ns[c.choose(12)];
        u64 cap = c.choose(40);
        u32 pat = c.choose(6);
        u32 seed = c.choose(c.tier(8, 64));
        c.op("n %d capacity %lu pattern %u seed %u", n, cap, pat, seed);
        Map<i32, i32, TA> m;
        if(cap) m.reserve(cap);
        std::vector<int> has(n + 1, 0);
        int len = 0;
        auto key = [&](int i) { return (i32)(i * (2 * seed + 1) + seed * 7919); };
        auto check = [&]() {
            MC_CHECK(m.length() == (u64)len, "length %lu, expected %d", m.length(), len);
            for(int i = 0; i <= n; i++) {
                auto r = m.try_get(key(i));
                MC_CHECK(r.ok() == (has[i] != 0), "key %d of %d", i, n);
                if(has[i]) MC_CHECK(**r == has[i], "value of key %d", i);
            }
            int cnt = 0;
            for(auto& [k, v] : m) cnt++, (void)k, (void)v;
            MC_CHECK(cnt == len, "iterated %d of %d", cnt, len);
        };
        for(int i = 0; i < n; i++) {
            m.insert(key(i), i + 1);
            has[i] = i + 1;
            len++;
        }
        check();
        for(int i = 0; i < n; i++) {
            bool del = pat == 0   ? i % 2
                       : pat == 1 ? i < n / 2
                       : pat == 2 ? i >= n / 2
                       : pat == 3 ? i % 3 == 0
                       : pat == 4 ? true
                                  : false;
            if(del) {
                m.erase(key(i));
                has[i] = 0;
                len--;
            }
        }
        check();
        auto cl = m.clone();
        MC_CHECK(cl.length() == m.length(), "clone");
        for(int i = 0; i < n; i++) MC_CHECK(cl.contains(key(i)) == (has[i] != 0), "clone");
        for(int i = 0; i < n; i++) {
            m.insert(key(i), 2 * i + 1);
            if(!has[i]) len++;
            has[i] = 2 * i + 1;
        }
        check();
        for(int i = n - 1; i >= 0; i--) {
            MC_CHECK(m.try_erase(key(i)), "erase");
            MC_CHECK(!m.try_erase(key(i)), "erase twice");
            has[i] = 0;
            len--;
            if(i % 16 == 0) check();
        }
        c.state(mc::mix(n, cap * 8 + pat));
    }
    end_exec("map");
}

// string keys: owned strings looked up through views
static void strings(mc::Ctx& c) {
    begin_exec();
    {
        static const char* keys[] = {"", "a", "b", "ab", "ba", "a\0b", "a\0c", "abc"};
        static const u64 lens[] = {0, 1, 1, 2, 2, 3, 3, 3};
        auto view = [&](int k) { return String_View{(const u8*)keys[k], lens[k]}; };
        Map<String<TA>, Tok, TA> a;
        bool has[8] = {};
        int val[8] = {}, n = 0, next = 1;
        if(c.choose(2)) a.reserve(4);
        int depth = c.tier(5, 6);
        for(int d = 0; d < depth; d++) {
            int k = c.choose(8);
            switch(c.choose(2)) {
            case 0:
                c.op("insert(#%d)", k);
                a.insert(view(k).string<TA>(), Tok(next));
                if(!has[k]) n++;
                has[k] = true;
                val[k] = next++;
                break;
            case 1:
                c.op("erase(#%d)", k);
                MC_CHECK(a.try_erase(view(k).string<TA>()) == has[k], "try_erase");
                if(has[k]) n--;
                has[k] = false;
                break;
            }
            MC_CHECK(a.length() == (u64)n, "length %lu, expected %d", a.length(), n);
            u64 h = 0;
            for(int q = 0; q < 8; q++) {
                MC_CHECK(a.contains(view(q)) == has[q], "contains(view #%d)", q);
                auto r = a.try_get(view(q));
                MC_CHECK(r.ok() == has[q], "try_get(view #%d)", q);
                if(has[q]) {
                    MC_CHECK((**r).get() == val[q], "try_get(view #%d) value", q);
                    MC_CHECK(a.get(view(q)).get() == val[q], "get(view)");
                    String<TA> s = view(q).string<TA>();
                    MC_CHECK(a.get(s).get() == val[q], "get(string)");
                }
                h = h * 2 + has[q];
            }
            c.state(h);
        }
    }
    end_exec("map");
}

// float keys: equal keys are the same key
static void floats(mc::Ctx& c) {
    begin_exec();
    {
        static const f64 ks[] = {0.0, -0.0, 1.0, -1.0};
        int i = c.choose(4), j = c.choose(4);
        c.op("insert(%g), look up %g", ks[i], ks[j]);
        {
            Map<f64, i32, TA> m;
            m.insert(f64{ks[i]}, 1);
            MC_CHECK(m.contains(ks[j]) == (ks[i] == ks[j]), "f64 key");
            m.insert(f64{ks[j]}, 2);
            MC_CHECK(m.length() == (ks[i] == ks[j] ? 1u : 2u), "f64 key");
        }
        {
            Map<f32, i32, TA> m;
            m.insert((f32)ks[i], 1);
            MC_CHECK(m.contains((f32)ks[j]) == (ks[i] == ks[j]), "f32 key");
        }
        c.state(i * 4 + j);
    }
    end_exec("map");
}

// every size, with plain keys in strides that exercise the hash, and values that own memory
template<typename K, typename T>
static void large(mc::Ctx& c, u64 top) {
    begin_exec();
    {
        u64 n = large_size(c, c.tier(top, 16 * top));
        static const u64 kStride[] = {1, 8, 4096, 0x100000001, 0x10000000000, 0xfffffffffffffff1};
        u64 stride = kStride[c.choose(6, "stride")];
        u32 how = c.choose(3, "reserve"), op = c.choose(5, "operation");
        auto key = [&](u64 i) { return (K)(i * stride + 5); };
        Map<K, T, TA> a;
        if(how) a.reserve(how == 1 ? n : 2 * n);
        std::unordered_map<u64, int> m;
        c.op("%lu keys %lu apart, operation %u", n, stride, op);
        auto put = [&](u64 i, int v) {
            T& r = a.insert(key(i), T(v));
            MC_CHECK(r.get() == v, "insert returns another entry");
            m[(u64)key(i)] = v;
        };
        auto check = [&](auto& x, const std::unordered_map<u64, int>& want) {
            MC_CHECK(x.length() == want.size(), "length %lu, expected %zu", x.length(), want.size());
            u64 seen = 0;
            for(auto& kv : x) {
                auto it = want.find((u64)kv.first);
                if(it == want.end() || kv.second.get() != it->second) mc::fail("iteration meets a wrong entry");
                seen++;
            }
            MC_CHECK(seen == want.size(), "iterated %lu of %zu", seen, want.size());
            for(auto& [k, v] : want) {
                auto r = x.try_get((K)k);
                if(!r.ok() || (**r).get() != v) mc::fail("key %lu is not found or has another value", k);
            }
            for(u64 i = 0; i < 20; i++)
                if(!want.count((u64)key(n + i))) MC_CHECK(!x.contains(key(n + i)), "an absent key is found");
        };
        for(u64 i = 0; i < n; i++) put(i, (int)i);
        check(a, m);
        switch(op) {
        case 0:
            for(u64 i = 0; i < n; i += 2)
                if(m.erase((u64)key(i))) a.erase(key(i));
            break;
        case 1:
            for(u64 i = n; i-- > n / 3;)
                if(m.erase((u64)key(i))) MC_CHECK(a.try_erase(key(i)) && !a.try_erase(key(i)), "erase");
            for(u64 i = 0; i < n; i++) put(i, -(int)i);
            break;
        case 2: {
            for(u64 i = 0; i < n; i++) put(i, 3 * (int)i);
            check(a, m);
            a.clear();
            m.clear();
            check(a, m);
            for(u64 i = 0; i < n / 2; i++) put(i, (int)i);
        } break;
        case 3:
            if constexpr(rpp::Clone<T> || rpp::Copy_Constructable<T>) {
                Map<K, T, TA> t = a.clone();
                auto mt = m;
                auto u = a.template clone<TB>();
                check(u, m);
                for(u64 i = 0; i < n; i += 3)
                    if(m.erase((u64)key(i))) a.erase(key(i));
                check(a, m);
                a = rpp::move(t);
                m = mt;
            }
            break;
        case 4: {
            a.reserve(4 * n);
            Map<K, T, TA> t(rpp::move(a));
            MC_CHECK(a.empty() && a.length() == 0, "moved-from");
            for(u64 i = 0; i < n; i++) {
                T& r = t.get(key(i));
                r = T((int)i + 9);
                m[(u64)key(i)] = (int)i + 9;
            }
            a = rpp::move(t);
        } break;
        }
        check(a, m);
        c.state(mc::mix(mc::mix(n, stride), how * 8 + op));
    }
    end_exec("map");
}

// values of every size, every way of inserting, and keys of other kinds
template<typename T>
static void width(mc::Ctx& c) {
    u32 n = c.choose(14, "length"), how = c.choose(6, "insertion"), op = c.choose(5, "op");
    Map<u64, T, TA> a;
    auto key = [](u32 i) { return (u64)i * 0x100000001ull + 3; };
    auto is = [&](auto& m, u32 n, u32 add, const char* what) {
        const auto& cm = m;
        if(m.length() != n) mc::fail("%s: length %llu, expected %u", what, (unsigned long long)m.length(), n);
        for(u32 i = 0; i < n; i++) {
            auto r = m.try_get(key(i));
            if(!r.ok() || !(**r).is(i + add)) mc::fail("%s: value %u of %u is damaged (values of %zu bytes)", what, i, n, sizeof(T));
        }
        u32 k = 0;
        for(auto it = cm.begin(); it != cm.end(); ++it, k++)
            if(!it->second.is((u32)((it->first - 3) & 0xffffffff) + add) || &(*it).second != &it->second) mc::fail("%s: iteration", what);
        if(k != n) mc::fail("%s: iterated %u of %u", what, k, n);
        k = 0;
        for(auto it = m.begin(); it != m.end(); ++it, k++)
            if(!it->second.is((u32)((it->first - 3) & 0xffffffff) + add)) mc::fail("%s: iteration", what);
        if(k != n) mc::fail("%s: iterated %u of %u", what, k, n);
    };
    for(u32 i = 0; i < n; i++) {
        u64 k = key(i);
        const u64 ck = k;
        T* r = nullptr;
        u32 w = how == 5 ? i % 5 : how;
        if constexpr(rpp::Copy_Constructable<T>) {
            const T v(i);
            if(w == 1) r = &a.insert(u64{k}, v);
            if(w == 2) r = &a.insert(ck, v);
        }
        if(w == 3) r = &a.insert(ck, T(i));
        if constexpr(rpp::Default_Constructable<T>)
            if(w == 4) r = &a.get_or_insert(ck), *r = T(i), r = &a.get_or_insert(ck);
        if(!r) r = i % 2 ? &a.insert(u64{k}, T(i)) : &a.emplace(u64{k}, i);
        if(!r->is(i)) mc::fail("the entry returned by insertion %u", how);
    }
    is(a, n, 0, "inserted");
    switch(op) {
    case 0: a.reserve(4 * n + 9); break;
    case 1: {
        auto b = a.clone();
        auto d = a.template clone<TB>();
        is(b, n, 0, "clone");
        is(d, n, 0, "clone into another allocator");
        a = rpp::move(b);
    } break;
    case 2: {
        Map<u64, T, TA> b(rpp::move(a));
        is(b, n, 0, "moved");
        a = rpp::move(b);
    } break;
    case 3:
        for(u32 i = n / 2; i < n; i++) a.erase(key(i));
        is(a, n / 2, 0, "erased");
        for(u32 i = n / 2; i < n; i++) a.insert(key(i), T(i));
        break;
    case 4:
        for(u32 i = 0; i < n; i++) a.insert(key(i), T(i + 50));
        is(a, n, 50, "overwritten");
        a.clear();
        for(u32 i = 0; i < n; i++) a.insert(key(i), T(i));
        break;
    }
    is(a, n, 0, "afterwards");
    c.op("%u values of %zu bytes, insertion %u, operation %u", n, sizeof(T), how, op);
    c.state(mc::mix(sizeof(T) * 64 + n, op * 16 + how));
}
static void widths(mc::Ctx& c) {
    begin_exec();
    switch(c.choose(14, "width")) {
    case 0: width<Bulk<1, 1>>(c); break;
    case 1: width<Bulk<2, 1>>(c); break;
    case 2: width<Bulk<3, 1>>(c); break;
    case 3: width<Bulk<5, 1>>(c); break;
    case 4: width<Bulk<12, 4>>(c); break;
    case 5: width<Bulk<16, 16>>(c); break;
    case 6: width<Bulk<17, 1>>(c); break;
    case 7: width<Bulk<64, 8>>(c); break;
    case 8: width<Bulk<255, 1>>(c); break;
    case 9: width<Bulk<257, 1>>(c); break;
    case 10: width<Bulk<65537, 1>>(c); break;
    case 11: width<Owned<1, 8>>(c); break;
    case 12: width<Owned<40, 16>>(c); break;
    case 13: width<Owned<1000, 8>>(c); break;
    }
    end_exec("widths");
}

// keys of every kind that has a hash of its own
template<typename K, typename F>
static void keyed(mc::Ctx& c, const char* what, u32 n, F key) {
    Map<K, CTok, TA> a;
    u32 stride = 1 + c.choose(3, "stride"), op = c.choose(3, "op");
    auto is = [&](auto& m, const char* when) {
        u32 has = 0;
        for(u32 i = 0; i < n; i++) {
            bool in = i % stride == 0;
            auto r = m.try_get(key(i));
            MC_CHECK(r.ok() == in && m.contains(key(i)) == in, "%s keys, %s: key %u", what, when, i);
            if(in) MC_CHECK((**r).get() == (i32)i, "%s keys, %s: value of key %u", what, when, i);
            has += in;
        }
        MC_CHECK(m.length() == has, "%s keys, %s: length", what, when);
    };
    for(u32 i = 0; i < n; i += stride) a.insert(key(i), CTok((i32)i));
    is(a, "inserted");
    if(op == 1) {
        if constexpr(requires { a.clone(); }) {
            auto b = a.clone();
            is(b, "cloned");
            auto d = a.template clone<TB>();
            is(d, "cloned into another allocator");
            a = rpp::move(b);
        }
    }
    if(op == 2) {
        for(u32 i = 0; i < n; i += stride)
            if(i % 4 < 2) MC_CHECK(a.try_erase(key(i)) && !a.contains(key(i)), "%s keys: erase", what);
        for(u32 i = 0; i < n; i += stride)
            if(i % 4 < 2) a.insert(key(i), CTok((i32)i));
    }
    is(a, "afterwards");
    c.op("%s keys, every %u, %u", what, stride, op);
    c.state(mc::mix(mc::hash_bytes(what, strlen(what)), stride * 4 + op));
}
static void keys(mc::Ctx& c) {
    begin_exec();
    static u32 place[300];
    switch(c.choose(11, "kind")) {
    case 0: keyed<u8>(c, "u8", 256, [](u32 i) { return (u8)i; }); break;
    case 1: keyed<i8>(c, "i8", 256, [](u32 i) { return (i8)i; }); break;
    case 2: keyed<u16>(c, "u16", 300, [](u32 i) { return (u16)(i * 257); }); break;
    case 3: keyed<i16>(c, "i16", 300, [](u32 i) { return (i16)(i * 257); }); break;
    case 4: keyed<u32>(c, "u32", 300, [](u32 i) { return i << 23 | i; }); break;
    case 5: keyed<i32>(c, "i32", 300, [](u32 i) { return -(i32)i; }); break;
    case 6: keyed<i64>(c, "i64", 300, [](u32 i) { return (i64)i * -0x123456789abll; }); break;
    case 7: keyed<u32*>(c, "pointer", 300, [](u32 i) { return &place[i]; }); break;
    case 8: keyed<const u32*>(c, "pointer to const", 300, [](u32 i) { return i ? (const u32*)&place[i] : nullptr; }); break;
    case 9: keyed<String<TA>>(c, "string", 300, [](u32 i) {
        u8 b[8];
        memcpy(b, &i, 4);
        return String_View{b, 4}.string<TA>();
    }); break;
    case 10: keyed<char>(c, "char", 256, [](u32 i) { return (char)i; }); break;
    }
    end_exec("keys");
}

// long chains: very many keys for one place (equal or neighbouring hashes), at the front, the middle and the end of the table
template<typename T>
static void crowds(mc::Ctx& c, u64 top) {
    begin_exec();
    {
        std::vector<u32> ns;
        for(u32 i = 0; i <= 20; i++) ns.push_back(i);
        for(u32 x : {31, 33, 62, 63, 64, 65, 66, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 513, 700, 1025, 66000})
            if(x <= top) ns.push_back(x);
        u32 n = ns[c.choose((u32)ns.size(), "keys")], place = c.choose(3, "place"), spread = n > 5000 ? 0 : c.choose(3, "spread"), op = c.choose(4, "operation");
        auto key = [&](u64 i) {
            u64 h = place == 0 ? 0 : place == 1 ? 1ull << 63 : ~0ull << 1;
            if(spread == 1) h += (i % 3) << 40; // different hashes, one place
            if(spread == 2) h += (i % 4) << 54; // and a few places
            return Crowd{i, h};
        };
        Map<Crowd, T, TA> a;
        std::vector<i32> m(n + 1, 0);
        u64 len = 0;
        bool whole = n <= 5000; // comparing with every key is quadratic
        auto check = [&] {
            MC_CHECK(a.length() == len, "length %llu, expected %llu", (unsigned long long)a.length(), (unsigned long long)len);
            for(u64 i = 0; i <= n; i += whole ? 1 : 4999) {
                auto r = a.try_get(key(i));
                if(r.ok() != (m[i] != 0) || (r.ok() && (**r).get() != m[i])) mc::fail("key %llu of %u in one place", (unsigned long long)i, n);
            }
            u64 seen = 0;
            for(auto& kv : a) {
                if(kv.first.k > n || m[kv.first.k] != kv.second.get()) mc::fail("iteration meets a wrong entry");
                seen++;
            }
            MC_CHECK(seen == len, "iterated %llu of %llu", (unsigned long long)seen, (unsigned long long)len);
        };
        auto put = [&](u64 i, i32 v) {
            MC_CHECK(a.insert(key(i), T(v)).get() == v, "insert returns another entry");
            len += m[i] == 0;
            m[i] = v;
        };
        auto drop = [&](u64 i) {
            if(a.try_erase(key(i)) != (m[i] != 0)) mc::fail("erase of key %llu of %u in one place", (unsigned long long)i, n);
            len -= m[i] != 0;
            m[i] = 0;
        };
        for(u64 i = 0; i < n; i++) put(i, (i32)i + 1);
        check();
        switch(op) {
        case 0:
            for(u64 i = 0; i < n; i++) drop(i);
            break;
        case 1:
            for(u64 i = n; i-- > 0;)
                if(whole || i > n - 40) drop(i), drop(i);
            break;
        case 2:
            for(u64 i = 0; i < n; i += whole ? 2 : 1999) drop(i);
            check();
            for(u64 i = 0; i < n; i += whole ? 1 : 1333) put(i, -(i32)i - 1);
            break;
        case 3: {
            if constexpr(rpp::Clone<T>) {
                auto b = a.clone();
                for(u64 i = n / 2; i < n && i < n / 2 + 50; i++) drop(i);
                check();
                a = rpp::move(b);
                for(u64 i = 0; i < n; i++)
                    if(m[i] == 0) m[i] = (i32)i + 1, len++;
            }
        } break;
        }
        check();
        c.op("%u keys at %u spread %u operation %u", n, place, spread, op);
        c.state((u64)n * 64 + place * 16 + spread * 4 + op);
    }
    end_exec("crowds");
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "C03";
    m.bounds = "all operation sequences of depth 5 (6) on up to 6 keys with adversarial hashes from tables of capacity "
               "0/4/8; depth 3 (4) over the whole interface from every capacity 0..8 and 0..3 entries; every assignment "
               "of 6 keys to 4 end buckets of an 8-slot table, every erase pair and re-insertion; bulk runs up to 200 keys; 5 operations on 0..40 keys and around every power of two up to 256 (trivial values 4096; thorough 16 times as many) in 6 strides; values of 14 sizes up to 65537 bytes put in in 6 ways; 11 types of keys; up to 1025 (thorough 66000) keys with one place";
    m.assumptions = {"hash and == of the key type agree (the harness supplies both)"};
    m.add("small<Tok,Tok>", small<Tok, Tok>, 3);
    m.add("small<CTok,CTok>", small<CTok, CTok>, 3);
    m.add("small<Pod,Pod>", small<Pod, Pod>, 3);
    m.add("full<Tok,Tok>", full<Tok, Tok>, 4);
    m.add("full<CTok,CTok>", full<CTok, CTok>, 4);
    m.add("full<Pod,Tok>", full<Pod, Tok>, 4);
    m.add("full<MTok,MTok>", full<MTok, MTok>, 4);
    m.add("full<Pod,Pod>", full<Pod, Pod>, 4);
    m.add("clusters<Tok>", clusters<Tok, Tok>, 3);
    m.add("clusters<Pod>", clusters<Pod, Pod>, 3);
    m.add("bulk", bulk, 2);
    m.add("strings", strings, 3);
    m.add("floats", floats, 1);
    m.add("large<u64,Pod>", [](mc::Ctx& c) { large<u64, Pod>(c, 4096); }, 2);
    m.add("large<u64,Tok>", [](mc::Ctx& c) { large<u64, Tok>(c, 256); }, 2);
    m.add("large<i32,CTok>", [](mc::Ctx& c) { large<i32, CTok>(c, 256); }, 2);
    m.add("widths", widths, 2);
    m.add("keys", keys, 1);
    m.add("crowds<Pod>", [](mc::Ctx& c) { crowds<Pod>(c, c.tier(1025, 66000)); }, 2);
    m.add("crowds<Tok>", [](mc::Ctx& c) { crowds<Tok>(c, 1025); }, 2);
    return m.run(argc, argv);
}
