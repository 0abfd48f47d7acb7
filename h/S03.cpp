// S03: the text parsers accept exactly the longest valid prefix and return the rest, for every short input.
#include "elem.h"
#include <rpp/base.h>
using namespace rpp;
using namespace el;
enum class Word : i16 { a = -3, b, ab = 500, ba, toolongname };
RPP_ENUM(Word, a, RPP_CASE(a), RPP_CASE(b), RPP_CASE(ab), RPP_CASE(ba), RPP_CASE(toolongname));

struct Text { // an input in a block of exactly its size
    std::string s;
    u8* p;
    explicit Text(std::string t) : s(std::move(t)), p((u8*)malloc(s.size() ? s.size() : 1)) {
        memcpy(p, s.data(), s.size());
    }
    ~Text() {
        free(p);
    }
    String_View v() const {
        return s.size() ? String_View{p, s.size()} : String_View{};
    }
    bool is(String_View got, size_t from) const { // got is the rest of the text from there on
        if(got.length() != s.size() - from) return false;
        return got.empty() || got.data() == p + from;
    }
};
static std::string any(mc::Ctx& c, const char* alpha, int na, int maxlen) {
    std::string r;
    u32 n = c.choose(maxlen + 1, "length");
    for(u32 i = 0; i < n; i++) r += alpha[c.choose(na, "char")];
    return r;
}
static std::string show(const std::string& s) {
    std::string r = "\"";
    char t[8];
    for(u8 x : s) snprintf(t, 8, x >= 32 && x < 127 ? "%c" : "\\x%02x", x), r += t;
    return r + "\"";
}
static bool space(char x) {
    return x == ' ' || (x >= '\t' && x <= '\r');
}
static void check_i64(mc::Ctx& c, const Text& t) {
    const std::string& s = t.s;
    size_t i = 0;
    while(i < s.size() && space(s[i])) i++;
    bool neg = false;
    if(i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i] == '-', i++;
    size_t d0 = i;
    unsigned __int128 val = 0;
    bool big = false;
    while(i < s.size() && s[i] >= '0' && s[i] <= '9') {
        val = val * 10 + (s[i] - '0');
        if(val > (((unsigned __int128)1) << 100)) val = ((unsigned __int128)1) << 100;
        i++;
    }
    bool ok = i > d0;
    big = val > ((unsigned __int128)1 << 63) - (neg ? 0 : 1);
    auto r = Format::parse_i64(t.v());
    MC_CHECK(r.ok() == ok, "parse_i64 of %s %s", show(s).c_str(), ok ? "fails" : "succeeds");
    if(ok) {
        if(!big) {
            i64 want = neg ? (i64)(-(__int128)val) : (i64)val;
            MC_CHECK(r->first == want, "parse_i64 of %s is %ld", show(s).c_str(), r->first);
        } else {
            MC_CHECK(r->first == (neg ? INT64_MIN : INT64_MAX), "parse_i64 of %s, out of range, is %ld", show(s).c_str(), r->first);
        }
        MC_CHECK(t.is(r->second, i), "rest after parse_i64 of %s", show(s).c_str());
    }
    c.op("parse_i64 %s", show(s).c_str());
    c.state(mc::hash_bytes(s.data(), s.size()));
}
static void i64_short(mc::Ctx& c) {
    static const char kA[] = {' ', '-', '+', '0', '7', 'x', '\n', 0};
    Text t(any(c, kA, 8, c.tier(5, 6)));
    check_i64(c, t);
}
static void i64_limits(mc::Ctx& c) {
    static const char* pre[] = {"", "-", "+", " \t", " -", "000", "-0"};
    static const char* post[] = {"", "0", "9", " ", "a", ".5"};
    u32 k = c.choose(64, "power"), d = c.choose(5, "delta");
    unsigned __int128 base = ((unsigned __int128)1 << k) + d - 2;
    if(k < 2 && d < 2) base = d;
    std::string digits;
    do digits.insert(digits.begin(), (char)('0' + (int)(base % 10))), base /= 10;
    while(base);
    Text t(pre[c.choose(7, "prefix")] + digits + post[c.choose(6, "suffix")]);
    check_i64(c, t);
}
static void round_trip(mc::Ctx& c) { // what format wrote, parse_i64 reads
    i64 v;
    if(c.flip("wide")) {
        u32 k = c.choose(64, "power"), d = c.choose(3, "delta");
        v = (i64)(((u64)1 << k) + d - 1);
        if(c.flip("negate")) v = (i64)(0 - (u64)v);
    } else {
        v = (i16)(c.choose(256, "high") << 8);
        v = (i16)(v | (i64)c.choose(256, "low"));
    }
    auto s = format<Mdefault>("%"_v, v);
    auto r = Format::parse_i64(s.view());
    MC_CHECK(r.ok() && r->first == v && r->second.empty(), "%ld does not survive formatting and parsing", v);
    c.op("%ld", v);
}
static void check_f32(mc::Ctx& c, const Text& t) {
    const std::string& s = t.s;
    // longest valid decimal floating-point prefix
    size_t i = 0;
    while(i < s.size() && space(s[i])) i++;
    size_t st = i;
    if(i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
    size_t nd = 0;
    while(i < s.size() && isdigit((u8)s[i])) i++, nd++;
    if(i < s.size() && s[i] == '.') {
        size_t j = i + 1, fd = 0;
        while(j < s.size() && isdigit((u8)s[j])) j++, fd++;
        if(nd + fd) i = j, nd += fd;
    }
    bool ok = nd > 0;
    if(ok && i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        size_t j = i + 1;
        if(j < s.size() && (s[j] == '-' || s[j] == '+')) j++;
        size_t ed = 0;
        while(j < s.size() && isdigit((u8)s[j])) j++, ed++;
        if(ed) i = j;
    }
    auto r = Format::parse_f32(t.v());
    MC_CHECK(r.ok() == ok, "parse_f32 of %s %s", show(s).c_str(), ok ? "fails" : "succeeds");
    if(ok) {
        f32 want = strtof(s.substr(st, i - st).c_str(), nullptr);
        MC_CHECK(memcmp(&r->first, &want, 4) == 0, "parse_f32 of %s is %a, not %a", show(s).c_str(), r->first, want);
        MC_CHECK(t.is(r->second, i), "rest after parse_f32 of %s", show(s).c_str());
    }
    c.op("parse_f32 %s", show(s).c_str());
    c.state(mc::hash_bytes(s.data(), s.size()));
}
static void f32_short(mc::Ctx& c) {
    static const char kA[] = {'1', '0', '.', '-', 'e', ' ', 'z', '+'};
    Text t(any(c, kA, 7, c.tier(6, 7)));
    check_f32(c, t);
}
static void f32_values(mc::Ctx& c) { // every exponent, several mantissas, printed exactly: read back exactly
    u32 e = c.choose(255, "exponent"), m = c.choose(6, "mantissa"), sg = c.choose(2, "sign");
    static const u32 kM[] = {0, 1, 0x7fffff, 0x400000, 0x2aaaaa, 0x123456};
    u32 bits = sg << 31 | e << 23 | kM[m];
    f32 f;
    memcpy(&f, &bits, 4);
    char buf[128];
    snprintf(buf, sizeof buf, "%.9g", f);
    Text t(std::string(buf) + (c.flip("suffix") ? " tail" : ""));
    auto r = Format::parse_f32(t.v());
    MC_CHECK(r.ok() && memcmp(&r->first, &f, 4) == 0, "parse_f32 of %s gives %a", t.s.c_str(), r.ok() ? r->first : 0.0f);
    MC_CHECK(t.is(r->second, strlen(buf)), "rest");
    c.op("%s", t.s.c_str());
}
static bool wsp(char x) { // whitespace of the library: form feed not in the alphabet
    return x == ' ' || x == '\t' || x == '\n' || x == '\r' || x == '\v';
}
static void check_token(mc::Ctx& c, const Text& t) {
    const std::string& s = t.s;
    size_t i = 0;
    while(i < s.size() && wsp(s[i])) i++;
    size_t j = i;
    while(j < s.size() && !wsp(s[j])) j++;
    String_View sk = Format::skip_whitespace(t.v());
    MC_CHECK(t.is(sk, i), "skip_whitespace of %s leaves %lu", show(s).c_str(), sk.length());
    auto r = Format::parse_string(t.v());
    MC_CHECK(r.ok() == (j > i), "parse_string of %s %s", show(s).c_str(), j > i ? "fails" : "succeeds");
    size_t rest = j < s.size() ? j + 1 : j; // the separator is consumed
    if(r.ok()) {
        MC_CHECK(r->first.length() == j - i && r->first.data() == t.p + i, "parse_string of %s yields %lu characters", show(s).c_str(), r->first.length());
        MC_CHECK(t.is(r->second, rest), "rest after parse_string of %s", show(s).c_str());
    }
    std::string w = s.substr(i, j - i);
    auto e = Format::parse_enum<Word>(t.v());
    static const struct { const char* n; Word v; } kW[] = {{"a", Word::a}, {"b", Word::b}, {"ab", Word::ab}, {"ba", Word::ba}};
    bool found = false;
    for(auto& x : kW)
        if(w == x.n) {
            found = true;
            MC_CHECK(e.ok() && e->first == x.v, "parse_enum of %s", show(s).c_str());
            MC_CHECK(t.is(e->second, rest), "rest after parse_enum of %s", show(s).c_str());
        }
    if(!found) MC_CHECK(!e.ok(), "parse_enum of %s succeeds", show(s).c_str());
    c.op("token %s", show(s).c_str());
    c.state(mc::hash_bytes(s.data(), s.size()));
}
static void tokens(mc::Ctx& c) {
    static const char kA[] = {' ', 'a', 'b', '\n', 0, '\t', (char)0xa0};
    Text t(any(c, kA, c.thorough ? 7 : 6, c.tier(6, 7)));
    check_token(c, t);
}
// splitting a whole line token by token gives exactly its words
static void split(mc::Ctx& c) {
    static const char kA[] = {' ', 'a', '\n', 'b'};
    Text t(any(c, kA, 3, c.tier(8, 10)));
    std::vector<std::string> want, got;
    for(size_t i = 0; i < t.s.size();) {
        while(i < t.s.size() && wsp(t.s[i])) i++;
        size_t j = i;
        while(j < t.s.size() && !wsp(t.s[j])) j++;
        if(j > i) want.push_back(t.s.substr(i, j - i));
        i = j;
    }
    String_View v = t.v();
    for(;;) {
        auto r = Format::parse_string(v);
        if(!r.ok()) break;
        got.emplace_back((const char*)r->first.data(), r->first.length());
        v = r->second;
        if(got.size() > 20) mc::fail("parse_string makes no progress");
    }
    MC_CHECK(got == want, "%s splits into %zu words", show(t.s).c_str(), got.size());
    c.op("split %s", show(t.s).c_str());
}
static void enums(mc::Ctx& c) { // names and values correspond both ways
    static const struct { const char* n; Word v; } kW[] = {{"a", Word::a}, {"b", Word::b}, {"ab", Word::ab}, {"ba", Word::ba}, {"toolongname", Word::toolongname}};
    u32 k = c.choose(5, "case");
    MC_CHECK(strcmp(Format::enum_name(kW[k].v), kW[k].n) == 0, "enum_name");
    auto e = Format::parse_enum<Word>(String_View{kW[k].n});
    MC_CHECK(e.ok() && e->first == kW[k].v && e->second.empty(), "parse_enum of %s", kW[k].n);
    u32 i = 0;
    Reflect::iterate_enum<Word>([&](const Literal& n, Word v) {
        MC_CHECK(i < 5 && strcmp(n, kW[i].n) == 0 && v == kW[i].v, "case %u", i);
        i++;
    });
    MC_CHECK(i == 5, "%u cases", i);
    using K = Reflect::Kind;
    static const struct { const char* n; K v; } kK[] = {
        {"void_", K::void_}, {"char_", K::char_}, {"i8_", K::i8_}, {"i16_", K::i16_}, {"i32_", K::i32_}, {"i64_", K::i64_},
        {"u8_", K::u8_}, {"u16_", K::u16_}, {"u32_", K::u32_}, {"u64_", K::u64_}, {"f32_", K::f32_}, {"f64_", K::f64_},
        {"bool_", K::bool_}, {"array_", K::array_}, {"pointer_", K::pointer_}, {"enum_", K::enum_}, {"record_", K::record_}};
    for(auto& x : kK) {
        MC_CHECK(strcmp(Format::enum_name(x.v), x.n) == 0, "name of Kind::%s", x.n);
        auto p = Format::parse_enum<K>(String_View{x.n});
        MC_CHECK(p.ok() && p->first == x.v, "parse of Kind::%s", x.n);
    }
    c.op("%s", kW[k].n);
}
// long inputs: n characters of one kind in front of, inside, or behind a number or word
static void longs(mc::Ctx& c) {
    static const char* kFill[] = {" ", "0", "9", "\n\t", "a", "12", "-", "."};
    u32 n = c.choose(c.tier(301, 1201), "length"), f = c.choose(8, "filler"), shape = c.choose(9, "shape");
    std::string fill;
    while(fill.size() < n) fill += kFill[f];
    fill.resize(n);
    static const char* kPre[] = {"", "-", "1", "0.", " +", "1e", "5.", "", "x"};
    static const char* kPost[] = {"", "7", " 2", "e3", ".5", "", "e-20", "e+9 tail", "x y"};
    Text t(kPre[shape] + fill + kPost[shape]);
    check_i64(c, t);
    if(shape != 5 || n < 60) check_f32(c, t); // strtof of absurd exponents is the C library's
    check_token(c, t);
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "S03";
    m.bounds = "every input of up to 5-6 (thorough 6-7) characters over the significant ones for each parser, every power of two +-2 as an integer with 7 prefixes and 6 suffixes, "
               "every f32 exponent with 6 mantissas, every i16 written by format, every line of up to 8 (10) characters split into words; runs of every length to 300 (thorough 1200) of 8 fillers in 9 positions";
    m.assumptions = {"whether form feed separates tokens is unspecified", "hexadecimal floats, inf and nan are not covered"};
    m.add("i64", i64_short, 2);
    m.add("i64-limits", i64_limits, 2);
    m.add("round-trip", round_trip, 2);
    m.add("f32", f32_short, 2);
    m.add("f32-values", f32_values, 2);
    m.add("tokens", tokens, 2);
    m.add("split", split, 2);
    m.add("longs", longs, 2);
    m.add("enums", enums, 1);
    return m.run(argc, argv);
}
