// S01: String and String_View behave as byte strings, whatever bytes they hold.
#include "elem.h"
#include <rpp/base.h>
using namespace rpp;
using namespace el;
using B = std::vector<u8>;

static const u8 kAlpha[] = {0, 'a', 'b', 0x80, 0xff};
static B pick(mc::Ctx& c, int maxlen, int nalpha = 5) {
    B r;
    u32 n = c.choose(maxlen + 1, "length");
    for(u32 i = 0; i < n; i++) r.push_back(kAlpha[c.choose(nalpha, "byte")]);
    return r;
}
// the bytes in a heap block of exactly their size, so that any overrun is seen
struct Exact {
    u8* p;
    u64 n;
    explicit Exact(const B& b) : p((u8*)malloc(b.size() ? b.size() : 1)), n(b.size()) {
        if(n) memcpy(p, b.data(), n);
    }
    ~Exact() {
        free(p);
    }
    Exact(const Exact&) = delete;
    String_View view() const {
        return n ? String_View{p, n} : String_View{};
    }
};
template<typename S>
static bool same(const S& s, const B& m) {
    return s.length() == m.size() && (m.empty() || memcmp(s.data(), m.data(), m.size()) == 0);
}
static std::string show(const B& m) {
    std::string r = "\"";
    char t[8];
    for(u8 x : m) snprintf(t, 8, x >= 32 && x < 127 ? "%c" : "\\x%02x", x), r += t;
    return r + "\"";
}
#define SHOW(m) show(m).c_str()

// what is hashed during compilation
static_assert(hash_literal("abc") == hash_literal("abc") && hash_literal("abc", 5) == hash_literal("abc", 5) && hash_literal("abc") != 0 && hash_literal("") != 0);
static void pairs(mc::Ctx& c) {
    begin_exec();
    {
        B a = pick(c, c.tier(3, 4)), b = pick(c, 3);
        Exact ea(a), eb(b);
        String_View va = ea.view(), vb = eb.view();
        auto sa = va.string<TA>();
        auto sb = vb.string<TA>();
        auto ta = va.string<TB>();
        bool eq = a == b, lt = a < b; // std::vector<u8>: lexicographic by unsigned byte
        MC_CHECK((va == vb) == eq, "view %s == view %s", SHOW(a), SHOW(b));
        MC_CHECK((sa == vb) == eq, "string %s == view %s", SHOW(a), SHOW(b));
        MC_CHECK((va == sb) == eq, "view %s == string %s", SHOW(a), SHOW(b));
        MC_CHECK((sa == sb) == eq, "string %s == string %s", SHOW(a), SHOW(b));
        MC_CHECK((ta == sb) == eq, "string (B) %s == string %s", SHOW(a), SHOW(b));
        MC_CHECK((va != vb) == !eq && (sa != sb) == !eq, "!= of %s and %s", SHOW(a), SHOW(b));
        MC_CHECK((va < vb) == lt, "view %s < view %s", SHOW(a), SHOW(b));
        MC_CHECK((sa < sb) == lt, "string %s < string %s", SHOW(a), SHOW(b));
        MC_CHECK((ta < sb) == lt, "string (B) %s < string %s", SHOW(a), SHOW(b));
        if(eq) MC_CHECK(rpp::hash(va) == rpp::hash(vb) && rpp::hash(sa) == rpp::hash(vb) && rpp::hash(sa) == rpp::hash(sb), "equal strings hash differently");
        B ab = a;
        ab.insert(ab.end(), b.begin(), b.end());
        {
            auto r = va.append<TA>(vb);
            MC_CHECK(same(r, ab), "view append of %s and %s", SHOW(a), SHOW(b));
            auto q = sa.append<TB>(sb);
            MC_CHECK(same(q, ab), "string append of %s and %s", SHOW(a), SHOW(b));
        }
        MC_CHECK(same(va, a) && same(vb, b) && same(sa, a) && same(sb, b), "operands changed");
        c.op("pair %s %s", SHOW(a), SHOW(b));
        c.state(mc::hash_bytes(ab.data(), ab.size(), a.size()));
    }
    end_exec("pairs");
}

static void single(mc::Ctx& c) {
    begin_exec();
    {
        B a = pick(c, c.tier(5, 6), 4);
        Exact e(a);
        String_View v = e.view();
        auto s = v.string<TA>();
        const auto& cs = s;
        MC_CHECK(same(v, a) && same(s, a), "contents");
        MC_CHECK(v.empty() == a.empty() && s.empty() == a.empty(), "empty");
        MC_CHECK(s.capacity() >= s.length(), "capacity");
        u64 n = 0;
        for(u8 x : v) { MC_CHECK(n < a.size() && x == a[n], "view iteration"); n++; }
        MC_CHECK(n == a.size(), "view iteration length");
        n = 0;
        for(u8& x : s) { MC_CHECK(n < a.size() && x == a[n], "iteration"); n++; }
        n = 0;
        for(const u8& x : cs) { MC_CHECK(n < a.size() && x == a[n], "const iteration"); n++; }
        MC_CHECK(n == a.size(), "iteration length");
        for(u64 i = 0; i < a.size(); i++) MC_CHECK(v[i] == a[i] && s[i] == a[i] && cs[i] == a[i], "index %lu", i);
        for(u64 i = 0; i <= a.size(); i++)
            for(u64 j = i; j <= a.size(); j++) {
                B m(a.begin() + i, a.begin() + j);
                String_View p = v.sub(i, j), q = cs.sub(i, j);
                MC_CHECK(same(p, m) && same(q, m), "sub(%lu, %lu) of %s", i, j, SHOW(a));
                if(i < j) MC_CHECK(p.data() == v.data() + i && q.data() == s.data() + i, "sub is not a view of its source");
            }
        B z = a;
        z.push_back(0);
        MC_CHECK(same(v.terminate<TA>(), z), "terminate of %s", SHOW(a));
        MC_CHECK(same(s.terminate<TB>(), z), "string terminate of %s", SHOW(a));
        auto k = s.clone();
        MC_CHECK(same(k, a), "clone of %s", SHOW(a));
        auto kb = s.clone<TB>();
        MC_CHECK(same(kb, a), "clone into another allocator of %s", SHOW(a));
        MC_CHECK(same(s.view(), a) && same(v.clone(), a), "view");
        if(!a.empty()) {
            MC_CHECK(k.data() != s.data() && (void*)kb.data() != (void*)s.data() && s.data() != v.data(), "a copy shares its buffer");
            k[0] ^= 0x55;
            kb[0] ^= 0x55;
            MC_CHECK(same(s, a), "clone is not independent");
            s[0] ^= 0x55;
            MC_CHECK(same(v, a), "string is not independent of the view it was made from");
        }
        // from C strings
        u64 cl = 0;
        while(cl < a.size() && a[cl]) cl++;
        Exact t(z);
        String_View fromc{(const char*)t.p};
        MC_CHECK(fromc.length() == cl && fromc.data() == t.p, "view of a C string");
        c.op("%s", SHOW(a));
        c.state(mc::hash_bytes(a.data(), a.size()));
    }
    end_exec("single");
}

// histories on two strings with a capacity
static void history(mc::Ctx& c) {
    begin_exec();
    {
        String<TA> s[2] = {};
        B m[2];
        u64 cap[2] = {0, 0};
        bool known[2] = {true, true}; // contents known (set_length beyond the old length leaves new bytes unspecified)
        u8 next = 1;
        for(int d = 0; d < c.tier(4, 6); d++) {
            u32 k = c.choose(1 + 2 * 10, "op");
            if(!k) break;
            int a = (k - 1) / 10, b = 1 - a;
            switch((k - 1) % 10) {
            case 0: {
                u64 n = c.choose(4, "capacity");
                s[a] = String<TA>(n);
                m[a].clear();
                cap[a] = n;
                MC_CHECK(s[a].capacity() == n && s[a].length() == 0, "new string of capacity %lu", n);
            } break;
            case 1: {
                B z = {next++, 0, 0xff};
                s[a] = String_View{z.data(), 3}.string<TA>();
                m[a] = z;
                cap[a] = s[a].capacity();
            } break;
            case 2:
                s[a] = rpp::move(s[b]);
                m[a] = m[b], cap[a] = cap[b];
                m[b].clear(), cap[b] = 0;
                break;
            case 3: {
                String<TA>& alias = s[a];
                s[a] = rpp::move(alias);
                MC_CHECK(s[a].length() == m[a].size() || s[a].length() == 0, "self-move");
                if(s[a].length() == 0) m[a].clear();
                cap[a] = s[a].capacity();
            } break;
            case 4:
                s[a] = s[b].clone();
                m[a] = m[b];
                cap[a] = s[a].capacity();
                MC_CHECK(cap[a] >= m[a].size(), "capacity of a clone");
                break;
            case 5: { // shorten, or lengthen to the capacity and fill
                u64 n = c.choose((u32)cap[a] + 1, "length");
                u64 old = m[a].size();
                s[a].set_length(n);
                for(u64 i = old; i < n; i++) s[a][i] = next;
                m[a].resize(n, next++);
            } break;
            case 6:
                if(m[a].empty()) break;
                {
                    u64 i = c.choose((u32)m[a].size(), "index");
                    u64 r = s[a].write(i, (char)next);
                    MC_CHECK(r == i + 1, "write of a char returns %lu", r);
                    m[a][i] = next++;
                }
                break;
            case 7: { // write the other string
                if(m[a].size() < m[b].size()) break;
                u64 i = c.choose((u32)(m[a].size() - m[b].size()) + 1, "index");
                u64 r = c.flip("as view") ? s[a].write(i, s[b].view()) : s[a].write(i, s[b]);
                MC_CHECK(r == i + m[b].size(), "write of a string returns %lu", r);
                std::copy(m[b].begin(), m[b].end(), m[a].begin() + i);
            } break;
            case 8:
                s[a] = s[a].append<TA>(s[b]);
                m[a].insert(m[a].end(), m[b].begin(), m[b].end());
                cap[a] = s[a].capacity();
                break;
            case 9: {
                String<TA> t(rpp::move(s[a]));
                MC_CHECK(same(t, m[a]) && s[a].empty() && s[a].length() == 0, "moved");
                s[a] = rpp::move(t);
            } break;
            }
            (void)known;
            for(int i = 0; i < 2; i++) {
                MC_CHECK(same(s[i], m[i]), "string %d holds the wrong bytes, expected %s", i, SHOW(m[i]));
                MC_CHECK(s[i].capacity() == cap[i] && cap[i] >= m[i].size(), "capacity of string %d", i);
                MC_CHECK(s[i].empty() == m[i].empty(), "empty");
            }
            MC_CHECK((s[0] == s[1]) == (m[0] == m[1]) && (s[0] < s[1]) == (m[0] < m[1]), "comparison");
            c.op("string %d op %u", a, (k - 1) % 10);
            c.state(mc::hash_bytes(m[0].data(), m[0].size(), mc::hash_bytes(m[1].data(), m[1].size(), cap[0] * 16 + cap[1])));
        }
    }
    end_exec("history");
}

static void concats(mc::Ctx& c) {
    begin_exec();
    {
        static const B kW[] = {{}, {'a'}, {'b', 0}, {0xff, ',', ' '}};
        static const B kSep[] = {{}, {','}, {',', ' '}, {0}};
        B sep = kSep[c.choose(4, "sep")];
        u32 n = c.choose(5, "count");
        B w[4], m;
        for(u32 i = 0; i < n; i++) {
            w[i] = kW[c.choose(4, "word")];
            if(i) m.insert(m.end(), sep.begin(), sep.end());
            m.insert(m.end(), w[i].begin(), w[i].end());
        }
        Exact es(sep), e0(w[0]), e1(w[1]), e2(w[2]), e3(w[3]);
        String_View s = es.view();
        auto V = [](const Exact& e) { return e.view(); };
        auto S = [](const Exact& e) { return e.view().string<TB>(); };
        String<TA> r;
        bool str = c.flip("strings");
        if(n == 0) r = concat<TA>(s);
        if(n == 1) r = str ? concat<TA>(s, S(e0)) : concat<TA>(s, V(e0));
        if(n == 2) r = str ? concat<TA>(s, S(e0), V(e1)) : concat<TA>(s, V(e0), V(e1));
        if(n == 3) r = str ? concat<TA>(s, V(e0), S(e1), S(e2)) : concat<TA>(s, V(e0), V(e1), V(e2));
        if(n == 4) r = str ? concat<TA>(s, S(e0), V(e1), V(e2), S(e3)) : concat<TA>(s, V(e0), V(e1), V(e2), V(e3));
        MC_CHECK(same(r, m), "concat gives %s instead of %s", SHOW(B(r.begin(), r.end())), SHOW(m));
        c.op("concat %s", SHOW(m));
        c.state(mc::hash_bytes(m.data(), m.size()));
    }
    end_exec("concat");
}

// long strings: a difference at each place of each length
static void lengths(mc::Ctx& c) {
    static const u32 kBig[] = {255, 256, 257, 300, 511, 512, 513, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 70001, 131077};
    u32 dense = (u32)c.tier(161, 321), n = c.choose(dense + 16, "length"), at = 0, off = c.choose(2) * 3;
    if(n < dense) at = n ? c.choose(n, "place") : 0;
    else { // sparse
        n = kBig[n - dense];
        const u32 places[] = {0, 1, 7, 8, 63, 127, 128, 254, 255, 256, 257, n / 3, n / 2, n - 257, n - 256, n - 9, n - 8, n - 7, n - 2, n - 1, 65535, 65536};
        at = places[c.choose(22, "place")];
        if(at >= n) return;
    }
    begin_exec();
    {
        B a(n), b;
        for(u32 i = 0; i < n; i++) a[i] = (u8)(i * 37 + n);
        b = a;
        static const u8 kFlip[] = {0, 1, 0x80, 0x7f, 0xff};
        B pad(off, 9);
        pad.insert(pad.end(), a.begin(), a.end());
        Exact ea(pad);
        String_View va = off ? ea.view().sub(off, off + n) : ea.view();
        auto sa = va.string<TA>();
        if(!same(va, a) || !same(sa, a)) mc::fail("contents of %u bytes", n);
        for(u8 f : kFlip) {
            if(n) b[at] = a[at] ^ f;
            Exact eb(b);
            String_View vb = eb.view();
            auto sb = vb.string<TB>();
            bool eq = a == b, lt = a < b, gt = b < a;
            if((va == vb) != eq || (sa == vb) != eq || (va == sb) != eq || (sa == sb) != eq || (va != vb) == eq) mc::fail("equality of %u bytes that differ in byte %u by %02x", n, at, f);
            if((va < vb) != lt || (vb < va) != gt || (sa < sb) != lt || (sb < sa) != gt) mc::fail("order of %u bytes that differ in byte %u by %02x", n, at, f);
            if(eq && (rpp::hash(va) != rpp::hash(vb) || rpp::hash(sa) != rpp::hash(vb) || rpp::hash(va) != rpp::hash(sb))) mc::fail("equal strings of %u bytes hash differently", n);
            b = a;
        }
        // a part of it, and it together with a part
        String_View head = va.sub(0, at), tail = va.sub(at, n);
        B mh(a.begin(), a.begin() + at), mt(a.begin() + at, a.end());
        if(!same(head, mh) || !same(tail, mt)) mc::fail("parts of %u bytes cut at %u", n, at);
        if((head == va) != (at == n) || (head < va) != (at < n) || va < head) mc::fail("comparison of %u bytes with their first %u", n, at);
        if(!same(head.append<TA>(tail), a) || !same(head.string<TB>().append<TA>(tail.string<TA>()), a)) mc::fail("%u bytes appended to %u", n - at, at);
        if(!same(concat<TA>(head.sub(0, at ? 1 : 0), head.clone(), va.clone(), tail.string<TB>()), [&] {
               B m = mh, one(mh.begin(), mh.begin() + (at ? 1 : 0));
               m.insert(m.end(), one.begin(), one.end());
               m.insert(m.end(), a.begin(), a.end());
               m.insert(m.end(), one.begin(), one.end());
               m.insert(m.end(), mt.begin(), mt.end());
               return m;
           }())) mc::fail("concatenation of %u, %u and %u bytes", at, n, n - at);
        B z = a;
        z.push_back(0);
        if(!same(va.terminate<TA>(), z) || !same(sa.terminate<TB>(), z)) mc::fail("terminate of %u bytes", n);
        auto k = sa.clone();
        auto kb = sa.clone<TB>();
        if(!same(k, a) || !same(kb, a)) mc::fail("clone of %u bytes", n);
        String<TA> w(n + 5);
        w.set_length(n + 5);
        for(u32 i = 0; i < n + 5; i++) w[i] = 1;
        u64 r = w.write(at, tail);
        bool ok = r == n;
        for(u32 i = 0; i < n + 5; i++) ok = ok && w[i] == (i >= at && i < n ? a[i] : 1);
        if(!ok) mc::fail("writing %u bytes at %u", n - at, at);
        if(n) {
            B t(n, (u8)'x');
            t.push_back(0);
            t[at] = 0;
            Exact et(t);
            String_View fromc{(const char*)et.p};
            if(fromc.length() != at || fromc.data() != et.p) mc::fail("view of a C string of %u bytes", at);
        }
        c.state(n * 1000 + at);
    }
    c.op("%u bytes, place %u", n, at);
    end_exec("lengths");
}
// strings as map keys: every pair of keys that differ anywhere are different keys
static void keys(mc::Ctx& c) {
    begin_exec();
    {
        B a = pick(c, 3), b = pick(c, 2);
        Map<String<TA>, i32, TA> map;
        map.insert(String_View{a.data(), a.size()}.string<TA>(), 1);
        map.insert(String_View{b.data(), b.size()}.string<TA>(), 2);
        bool eq = a == b;
        MC_CHECK(map.length() == (eq ? 1u : 2u), "%s and %s give %lu keys", SHOW(a), SHOW(b), map.length());
        MC_CHECK(map.get(String_View{a.data(), a.size()}) == (eq ? 2 : 1) && map.get(String_View{b.data(), b.size()}) == 2, "lookup");
        c.op("keys %s %s", SHOW(a), SHOW(b));
    }
    end_exec("keys");
}
static void ascii_all(mc::Ctx& c) {
    u8 x = (u8)c.choose(256, "byte");
    u8 up = x >= 'a' && x <= 'z' ? x - 32 : x, lo = x >= 'A' && x <= 'Z' ? x + 32 : x;
    MC_CHECK(ascii::to_uppercase(x) == up && ascii::to_lowercase(x) == lo, "case of %u", x);
    bool sp = x == ' ' || (x >= 9 && x <= 13 && x != 12);
    if(x != 12) MC_CHECK(ascii::is_whitespace(x) == sp, "whitespace %u", x); // form feed: unspecified
    c.op("%u", x);
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "S01";
    m.bounds = "every string of up to 5 (thorough 6) bytes over {0, 'a', 'b', 0x80}, every pair of strings of up to 3 (4) over those and 0xff, every history of 4 (6) "
               "operations on two strings, every concatenation of up to 4 of 4 words with 4 separators; every length to 160 (thorough 320) with a difference, cut or write at each place; every byte";
    m.assumptions = {"whether form feed is whitespace is unspecified"};
    m.add("pairs", pairs, 2);
    m.add("single", single, 2);
    m.add("history", history, 3);
    m.add("lengths", lengths, 2);
    m.add("concat", concats, 2);
    m.add("map-keys", keys, 2);
    m.add("ascii", ascii_all, 1);
    return m.run(argc, argv);
}
