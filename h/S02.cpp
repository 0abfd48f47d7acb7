// S02: formatting writes exactly the text of each value, and its announced length is exact.
#include "elem.h"
#include <type_traits>
#include <rpp/base.h>
#include <rpp/box.h>
#include <rpp/function.h>
#include <rpp/heap.h>
#include <rpp/rc.h>
#include <rpp/stack.h>
#include <rpp/tuple.h>
#include <rpp/variant.h>
#include <rpp/vmath.h>
using namespace rpp;
using namespace el;
using std::string;

struct Ints {
    i32 i;
    u16 u;
};
RPP_RECORD(Ints, RPP_FIELD(i), RPP_FIELD(u));
struct None_ {};
RPP_RECORD(None_);
struct Deep {
    i8 a;
    Ints in;
    i32 arr[3];
    String_View s;
    bool b;
    const void* p;
};
RPP_RECORD(Deep, RPP_FIELD(a), RPP_FIELD(in), RPP_FIELD(arr), RPP_FIELD(s), RPP_FIELD(b), RPP_FIELD(p));
enum class Color : u8 { red = 7, green, blue = 200 };
RPP_ENUM(Color, red, RPP_CASE(red), RPP_CASE(green), RPP_CASE(blue));
enum class Far : i64 { lo = INT64_MIN, hi = INT64_MAX };
RPP_NAMED_ENUM(Far, "Distance", lo, RPP_CASE(lo), RPP_CASE(hi));
template<typename T>
struct Holder {
    T one;
    T two;
};
template<typename T>
RPP_TEMPLATE_RECORD(Holder, T, RPP_FIELD(one), RPP_FIELD(two));

enum class Many : i32 { a0 = -1, a1, a2, a3 = 100, a4, a5, a6, a7, a8, a9, a10, a11, the_longest_name_an_enum_can_ha = 1 << 30 };
RPP_ENUM(Many, a0, RPP_CASE(a0), RPP_CASE(a1), RPP_CASE(a2), RPP_CASE(a3), RPP_CASE(a4), RPP_CASE(a5), RPP_CASE(a6), RPP_CASE(a7), RPP_CASE(a8), RPP_CASE(a9), RPP_CASE(a10), RPP_CASE(a11),
         RPP_CASE(the_longest_name_an_enum_can_ha));
struct Wide {
    i32 f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, the_longest_name_a_field_can_ha;
};
RPP_RECORD(Wide, RPP_FIELD(f0), RPP_FIELD(f1), RPP_FIELD(f2), RPP_FIELD(f3), RPP_FIELD(f4), RPP_FIELD(f5), RPP_FIELD(f6), RPP_FIELD(f7), RPP_FIELD(f8), RPP_FIELD(f9), RPP_FIELD(f10),
           RPP_FIELD(the_longest_name_a_field_can_ha));
// --- model: the text of a value, written independently
template<typename T>
struct Txt;
template<typename T>
static string txt(const T& v) {
    return Txt<T>::of(v);
}
#define INT_TXT(T)                                                                                 \
    template<>                                                                                     \
    struct Txt<T> {                                                                                \
        static string of(T v) {                                                                    \
            return std::to_string(+v);                                                             \
        }                                                                                          \
        static string name() {                                                                     \
            return #T;                                                                             \
        }                                                                                          \
    };
INT_TXT(i8) INT_TXT(u8) INT_TXT(i16) INT_TXT(u16) INT_TXT(i32) INT_TXT(u32) INT_TXT(i64) INT_TXT(u64)
#define SIMPLE_TXT(T, EXPR)                                                                        \
    template<>                                                                                     \
    struct Txt<T> {                                                                                \
        static string of(const T& v) {                                                             \
            return EXPR;                                                                           \
        }                                                                                          \
        static string name() {                                                                     \
            return #T;                                                                             \
        }                                                                                          \
    };
static string fl(double d) {
    char b[512];
    snprintf(b, sizeof b, "%.6f", d);
    return b;
}
SIMPLE_TXT(f32, fl(v))
SIMPLE_TXT(f64, fl(v))
SIMPLE_TXT(bool, v ? "true" : "false")
SIMPLE_TXT(char, string(1, v))
SIMPLE_TXT(String_View, string((const char*)v.data(), v.length()))
SIMPLE_TXT(Ints, "Ints{i : " + txt(v.i) + ", u : " + txt(v.u) + "}")
SIMPLE_TXT(None_, "None_{}")
SIMPLE_TXT(Color, v == Color::red ? "Color::red" : v == Color::green ? "Color::green" : "Color::blue")
template<>
struct Txt<Far> {
    static string of(Far v) {
        return v == Far::lo ? "Distance::lo" : "Distance::hi";
    }
    static string name() {
        return "Distance";
    }
};
template<typename T, typename U>
struct Txt_Ptr {
    static string of(const void* v) {
        if(!v) return "(null)";
        char b[40];
        snprintf(b, sizeof b, "(0x%lx)", (unsigned long)v);
        return b;
    }
};
template<typename T>
struct Txt<T*> : Txt_Ptr<T, void> {
    static string name() {
        return Txt<T>::name() + "*";
    }
};
template<>
struct Txt<const void*> : Txt_Ptr<void, void> {};
template<>
struct Txt<void> {
    static string name() {
        return "void";
    }
};
template<>
struct Txt<decltype(null)> : Txt_Ptr<void, void> {};
template<typename A>
struct Txt<String<A>> {
    static string of(const String<A>& v) {
        return string((const char*)v.data(), v.length());
    }
    static string name() {
        return "String";
    }
};
SIMPLE_TXT(Deep, "Deep{a : " + txt(v.a) + ", in : " + txt(v.in) + ", arr : [" + txt(v.arr[0]) + ", " + txt(v.arr[1]) + ", " + txt(v.arr[2]) + "], s : " + txt(v.s) +
                     ", b : " + txt(v.b) + ", p : " + txt(v.p) + "}")
template<typename C>
static string seq(const char* open, const C& v) {
    string r = open;
    bool first = true;
    for(const auto& x : v) {
        if(!first) r += ", ";
        first = false;
        r += Txt<std::remove_cvref_t<decltype(x)>>::of(x);
    }
    return r + "]";
}
template<typename T, u64 N>
struct Txt<T[N]> {
    static string of(const T (&v)[N]) {
        return seq("[", v);
    }
    static string name() {
        return Txt<T>::name() + "[" + std::to_string(N) + "]";
    }
};
#define SEQ_TXT(C, OPEN)                                                                           \
    template<typename T, typename A>                                                               \
    struct Txt<C<T, A>> {                                                                          \
        static string of(const C<T, A>& v) {                                                       \
            return seq(OPEN, v);                                                                   \
        }                                                                                          \
        static string name() {                                                                     \
            return string(#C "<") + Txt<T>::name() + ">";                                          \
        }                                                                                          \
    };
SEQ_TXT(Vec, "Vec[") SEQ_TXT(Queue, "Queue[") SEQ_TXT(Stack, "Stack[") SEQ_TXT(Heap, "Heap[")
template<typename T>
struct Txt<Slice<T>> {
    static string of(const Slice<T>& v) {
        return seq("Slice[", v);
    }
    static string name() {
        return "Slice<" + Txt<T>::name() + ">";
    }
};
template<typename T, u64 N>
struct Txt<Array<T, N>> {
    static string of(const Array<T, N>& v) {
        return seq("[", v);
    }
    static string name() {
        return "Array<" + Txt<T>::name() + ", " + std::to_string(N) + ">";
    }
};
template<typename K, typename V, typename A>
struct Txt<Map<K, V, A>> {
    static string of(const Map<K, V, A>& m) {
        string r = "Map[";
        bool first = true;
        for(const auto& p : m) {
            if(!first) r += ", ";
            first = false;
            r += "{" + txt(p.first) + " : " + txt(p.second) + "}";
        }
        return r + "]";
    }
    static string name() {
        return "Map<" + Txt<K>::name() + ", " + Txt<V>::name() + ">";
    }
};
#define HANDLE_TXT(C, OK, NO)                                                                      \
    template<typename T>                                                                           \
    struct Txt<C> {                                                                                \
        static string of(const C& v) {                                                             \
            return v.ok() ? OK : NO;                                                               \
        }                                                                                          \
    };
template<typename T>
struct Txt<Opt<T>> {
    static string of(const Opt<T>& v) {
        return v.ok() ? "Opt{" + txt(*v) + "}" : "Opt{None}";
    }
    static string name() {
        return "Opt<" + Txt<T>::name() + ">";
    }
};
template<typename T>
struct Txt<Ref<T>> {
    static string of(const Ref<T>& v) {
        return v.ok() ? "Ref{" + txt(*v) + "}" : "Ref{null}";
    }
    static string name() {
        return "Ref<" + Txt<T>::name() + ">";
    }
};
template<typename T, typename A>
struct Txt<Box<T, A>> {
    static string of(const Box<T, A>& v) {
        return v.ok() ? "Box{" + txt(*v) + "}" : "Box{null}";
    }
    static string name() {
        return "Box<" + Txt<T>::name() + ">";
    }
};
template<typename T, typename A>
struct Txt<Rc<T, A>> {
    static string of(const Rc<T, A>& v) {
        return v.ok() ? "Rc[" + std::to_string(v.references()) + "]{" + txt(*v) + "}" : "Rc{null}";
    }
    static string name() {
        return "Rc<" + Txt<T>::name() + ">";
    }
};
template<typename T, typename A>
struct Txt<Arc<T, A>> {
    static string of(const Arc<T, A>& v) {
        return v.ok() ? "Arc[" + std::to_string(v.references()) + "]{" + txt(*v) + "}" : "Arc{null}";
    }
    static string name() {
        return "Arc<" + Txt<T>::name() + ">";
    }
};
template<typename L, typename R>
struct Txt<Pair<L, R>> {
    static string of(const Pair<L, R>& v) {
        return "Pair{" + txt(v.first) + ", " + txt(v.second) + "}";
    }
    static string name() {
        return "Pair<" + Txt<L>::name() + ", " + Txt<R>::name() + ">";
    }
};
template<>
struct Txt<Tuple<>> {
    static string of(const Tuple<>&) {
        return "Tuple{}";
    }
    static string name() {
        return "Tuple<>";
    }
};
template<typename T0>
struct Txt<Tuple<T0>> {
    static string of(const Tuple<T0>& v) {
        return "Tuple{" + txt(v.template get<0>()) + "}";
    }
    static string name() {
        return "Tuple<" + Txt<T0>::name() + ">";
    }
};
template<typename T0, typename T1>
struct Txt<Tuple<T0, T1>> {
    static string of(const Tuple<T0, T1>& v) {
        return "Tuple{" + txt(v.template get<0>()) + ", " + txt(v.template get<1>()) + "}";
    }
    static string name() {
        return "Tuple<" + Txt<T0>::name() + ", " + Txt<T1>::name() + ">";
    }
};
template<typename T0, typename T1, typename T2>
struct Txt<Tuple<T0, T1, T2>> {
    static string of(const Tuple<T0, T1, T2>& v) {
        return "Tuple{" + txt(v.template get<0>()) + ", " + txt(v.template get<1>()) + ", " + txt(v.template get<2>()) + "}";
    }
    static string name() {
        return "Tuple<" + Txt<T0>::name() + ", " + Txt<T1>::name() + ", " + Txt<T2>::name() + ">";
    }
};
template<typename... Ts>
struct Txt<Variant<Ts...>> {
    static string of(const Variant<Ts...>& v) {
        string r = "Variant{";
        v.match(Overload{[&](const Ts& x) { r += txt(x); }...});
        return r + "}";
    }
};
template<Literal N, typename T>
struct Txt<Named<N, T>> {
    static string of(const Named<N, T>& v) {
        return string(N.c_string) + "{" + txt(v.value) + "}";
    }
};
template<typename T>
struct Txt<Holder<T>> {
    static string of(const Holder<T>& v) {
        return "Holder{one : " + txt(v.one) + ", two : " + txt(v.two) + "}";
    }
    static string name() {
        return "Holder<" + Txt<T>::name() + ">";
    }
};

static string filler(u32 n) {
    string r;
    for(u32 i = 0; i < n; i++) r += (char)('a' + i % 26);
    return r;
}
// --- the check
template<typename T>
static void same_text(mc::Ctx& c, const T& v, const string& want) {
    auto s = format<TA>("%"_v, v);
    MC_CHECK(s.length() == want.size() && memcmp(s.data(), want.data(), want.size()) == 0, "formats as %.*s instead of %s", (int)s.length(), (const char*)s.data(),
             want.c_str());
    MC_CHECK(format_length("%"_v, v) == want.size() && Format::Measure<T>::measure(v) == want.size(), "announced length of %s", want.c_str());
    c.op("%s", want.substr(0, 200).c_str());
    u64 h = mc::hash_bytes(want.data(), want.size());
    c.state(h);
    // the same far into a longer text
    for(u32 before : {300u, 70001u}) {
        if(before > 300 && h % (c.tier(64, 16)) && want.size() < 300) continue;
        static string f[2] = {filler(300) + "%-", filler(70001) + "%-"};
        string& p = f[before > 300];
        auto l = format<TA>(String_View{(const u8*)p.data(), p.size()}, v);
        bool ok = l.length() == before + want.size() + 1 && memcmp(l.data(), p.data(), before) == 0 && memcmp(l.data() + before, want.data(), want.size()) == 0 && l[l.length() - 1] == '-';
        MC_CHECK(ok, "%s is written differently after %u characters", want.substr(0, 200).c_str(), before);
        MC_CHECK(format_length(String_View{(const u8*)p.data(), p.size()}, v) == before + want.size() + 1, "announced length of %s after %u characters", want.substr(0, 200).c_str(), before);
    }
}
template<typename T>
static void check(mc::Ctx& c, const T& v) {
    same_text(c, v, txt(v));
}
template<typename T>
static void ints(mc::Ctx& c) {
    begin_exec();
    T v;
    if constexpr(sizeof(T) == 1) v = (T)c.choose(256, "value");
    else if constexpr(sizeof(T) == 2) {
        u32 h = c.choose(256, "high");
        v = (T)(h << 8 | c.choose(256, "low"));
    } else {
        u32 kind = c.choose(2, "kind");
        if(kind == 0) { // powers of two
            u32 k = c.choose(sizeof(T) * 8, "bit");
            v = (T)(((u64)1 << k) + c.choose(3, "delta") - 1);
        } else { // powers of ten
            u32 k = c.choose(20, "digits");
            u64 p = 1;
            for(u32 i = 0; i < k; i++) p *= 10;
            v = (T)(p + c.choose(3, "delta") - 1);
        }
        if(c.flip("negate")) v = (T)(0 - (u64)v);
    }
    check(c, v);
    end_exec("ints");
}
template<typename F, typename U>
static void floats(mc::Ctx& c) {
    begin_exec();
    constexpr int EB = sizeof(F) == 4 ? 8 : 11, MB = sizeof(F) == 4 ? 23 : 52;
    U e = c.choose(1 << EB, "exponent"), sg = c.choose(2, "sign"), k = c.choose(6, "mantissa");
    U full = ((U)1 << MB) - 1;
    U m = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? full : k == 3 ? full / 3 : k == 4 ? full / 2 + 1 : full / 7;
    U bits = sg << (EB + MB) | e << MB | m;
    F f;
    memcpy(&f, &bits, sizeof f);
    check(c, f);
    end_exec("floats");
}
static void simple(mc::Ctx& c) {
    begin_exec();
    switch(c.choose(9, "kind")) {
    case 0: check(c, c.flip("value")); break;
    case 1: check(c, (char)c.choose(256, "char")); break;
    case 2: {
        u32 k = c.choose(49, "bit");
        const void* p = k ? (const void*)((1ul << (k - 1)) + c.choose(2, "low")) : nullptr;
        check(c, (const void*)p);
        check(c, (i32*)p);
        check(c, (Ints*)p);
    } break;
    case 3: check(c, null); break;
    case 4: check(c, c.choose(3, "color") == 0 ? Color::red : c.flip("green") ? Color::green : Color::blue); break;
    case 5: check(c, c.flip("hi") ? Far::hi : Far::lo); break;
    case 6: check(c, None_{}); break;
    case 7: check(c, Log::Location{"fun"_v, "a/b.cpp"_v, 7}.line); break;
    case 8: { // a value that is not a case: no more than the name of the type
        Color x = (Color)c.choose(7, "value");
        auto s = format<TA>("%"_v, x);
        MC_CHECK(s.length() >= 5 && memcmp(s.data(), "Color", 5) == 0 && s.length() == Format::Measure<Color>::measure(x), "unnamed case");
        c.op("unnamed");
    } break;
    }
    end_exec("simple");
}
static const i32 kI[] = {0, -7, 123456, INT32_MIN};
static const char* kS[] = {"", "x", "%", "a, b}"};
template<typename T>
static T gen(mc::Ctx& c);
#define GEN(T, N, EXPR)                                                                            \
    template<>                                                                                     \
    T gen<T>(mc::Ctx & c) {                                                                        \
        u32 k = c.choose(N, #T);                                                                   \
        return EXPR;                                                                               \
    }
GEN(i32, 4, kI[k])
GEN(bool, 2, k == 1)
GEN(f32, 3, k == 0 ? 0.0f : k == 1 ? -1.5f : 3.4e38f)
GEN(u16, 2, (u16)(k ? 65535 : 3))
GEN(String_View, 4, String_View{kS[k]})
GEN(Ints, 3, (Ints{kI[k], (u16)(k * 30000)}))
GEN(Color, 3, k == 0 ? Color::red : k == 1 ? Color::green : Color::blue)
GEN(String<TA>, 4, String_View{kS[k]}.string<TA>())
GEN(Tuple<>, 1, (void(k), Tuple<>{}))
template<typename C, typename T, int MAX>
static C list(mc::Ctx& c) {
    C v;
    u32 n = c.choose(MAX + 1, "length");
    for(u32 i = 0; i < n; i++) v.push(gen<T>(c));
    return v;
}
using VI = Vec<i32, TA>;
template<>
VI gen<VI>(mc::Ctx& c) {
    return list<VI, i32, 2>(c);
}
using BI = Box<i32, TA>;
template<>
BI gen<BI>(mc::Ctx& c) {
    return c.flip("null") ? BI{} : BI{gen<i32>(c)};
}
using OI = Opt<i32>;
template<>
OI gen<OI>(mc::Ctx& c) {
    return c.flip("none") ? OI{} : OI{gen<i32>(c)};
}
template<typename T>
static void handles(mc::Ctx& c) {
    begin_exec();
    {
        T v = gen<T>(c);
        switch(c.choose(5, "handle")) {
        case 0:
            check(c, Opt<T>{});
            check(c, Opt<T>{rpp::move(v)});
            break;
        case 1:
            check(c, Ref<T>{});
            check(c, Ref<T>{v});
            break;
        case 2:
            check(c, Box<T, TA>{});
            check(c, Box<T, TA>{rpp::move(v)});
            break;
        case 3: {
            Rc<T, TA> a, b, r{rpp::move(v)};
            check(c, a);
            u32 n = c.choose(3, "dups");
            if(n > 0) a = r.dup();
            if(n > 1) b = a.dup();
            check(c, r);
            check(c, a);
        } break;
        case 4: {
            Arc<T, TA> a, b, r{rpp::move(v)};
            check(c, a);
            u32 n = c.choose(3, "dups");
            if(n > 0) a = r.dup();
            if(n > 1) b = a.dup();
            check(c, r);
            check(c, a);
        } break;
        }
    }
    end_exec("handles");
}
template<typename T, int MAX>
static void sequences(mc::Ctx& c) {
    begin_exec();
    {
        switch(c.choose(6, "container")) {
        case 0: check(c, list<Vec<T, TA>, T, MAX>(c)); break;
        case 1: {
            Queue<T, TA> q;
            u32 rot = c.choose(MAX > 2 ? 4 : 2, "rotation");
            for(u32 i = 0; i < rot; i++) q.push(gen<T>(c)), q.pop();
            u32 n = c.choose(MAX + 1, "length");
            for(u32 i = 0; i < n; i++) q.push(gen<T>(c));
            check(c, q);
        } break;
        case 2: check(c, list<Stack<T, TA>, T, MAX>(c)); break;
        case 3: {
            Vec<T, TA> v = list<Vec<T, TA>, T, MAX>(c);
            check(c, v.slice());
            check(c, Slice<T>{});
        } break;
        case 4: {
            Array<T, 2> a{gen<T>(c), gen<T>(c)};
            check(c, a);
            Array<T, 1> b{gen<T>(c)};
            check(c, b);
        } break;
        case 5:
            if constexpr(requires(T a, T b) { a < b; }) {
                check(c, list<Heap<T, TA>, T, MAX>(c));
            }
            break;
        }
    }
    end_exec("sequences");
}
static void products(mc::Ctx& c) {
    begin_exec();
    {
        switch(c.choose(14, "kind")) {
        case 0: check(c, Pair<i32, String_View>{gen<i32>(c), gen<String_View>(c)}); break;
        case 1: check(c, Pair<VI, BI>{gen<VI>(c), gen<BI>(c)}); break;
        case 2: check(c, Tuple<>{}); break;
        case 3: check(c, Tuple<bool>{gen<bool>(c)}); break;
        case 4: check(c, Tuple<String_View, i32>{gen<String_View>(c), gen<i32>(c)}); break;
        case 5: check(c, Tuple<i32, VI, OI>{gen<i32>(c), gen<VI>(c), gen<OI>(c)}); break;
        case 6: {
            using V = Variant<i32, String_View, VI>;
            u32 k = c.choose(3, "alt");
            if(k == 0) check(c, V{gen<i32>(c)});
            if(k == 1) check(c, V{gen<String_View>(c)});
            if(k == 2) check(c, V{gen<VI>(c)});
        } break;
        case 7: {
            using N1 = Named<"One", i32>;
            using N2 = Named<"Two", i32>;
            using V = Variant<N1, N2>;
            if(c.flip("alt")) check(c, V{N1{gen<i32>(c)}});
            else check(c, V{N2{gen<i32>(c)}});
        } break;
        case 8: check(c, gen<Ints>(c)); break;
        case 9: {
            Deep d{(i8)c.choose(3, "a"), gen<Ints>(c), {1, gen<i32>(c), 3}, gen<String_View>(c), gen<bool>(c), (const void*)(u64)(c.choose(2, "p") * 0x1000)};
            check(c, d);
        } break;
        case 10: {
            Map<i32, String<TA>, TA> m;
            u32 n = c.choose(4, "length");
            for(u32 i = 0; i < n; i++) {
                i32 k = gen<i32>(c); // (sequenced)
                m.insert(rpp::move(k), gen<String<TA>>(c));
            }
            check(c, m);
        } break;
        case 11: {
            Map<String_View, VI, TA> m;
            u32 n = c.choose(3, "length");
            for(u32 i = 0; i < n; i++) {
                String_View k = gen<String_View>(c);
                m.insert(rpp::move(k), gen<VI>(c));
            }
            check(c, m);
        } break;
        case 12: {
            i32 a[3] = {gen<i32>(c), gen<i32>(c), gen<i32>(c)};
            check(c, a);
            String_View b[1] = {gen<String_View>(c)};
            check(c, b);
            Ints e[2] = {gen<Ints>(c), {1, 2}};
            check(c, e);
        } break;
        case 13:
            check(c, Holder<i32>{gen<i32>(c), gen<i32>(c)});
            check(c, Holder<OI>{gen<OI>(c), gen<OI>(c)});
            break;
        }
    }
    end_exec("products");
}
static void maths(mc::Ctx& c) {
    begin_exec();
    f32 f[6];
    for(int i = 0; i < 6; i++) f[i] = i < 4 ? gen<f32>(c) : (f32)i;
    auto F = [&](int i) { return fl(f[i]); };
    same_text(c, Vec2{f[0], f[1]}, "Vec2{" + F(0) + ", " + F(1) + "}");
    same_text(c, Vec3{f[0], f[1], f[2]}, "Vec3{" + F(0) + ", " + F(1) + ", " + F(2) + "}");
    same_text(c, Vec4{f[0], f[1], f[2], f[3]}, "Vec4{" + F(0) + ", " + F(1) + ", " + F(2) + ", " + F(3) + "}");
    same_text(c, Math::VecN<5>{f[0], f[1], f[2], f[3], f[4]}, "Vec5{" + F(0) + ", " + F(1) + ", " + F(2) + ", " + F(3) + ", " + F(4) + "}");
    same_text(c, Quat{f[0], f[1], f[2], f[3]}, "Quat{" + F(0) + ", " + F(1) + ", " + F(2) + ", " + F(3) + "}");
    same_text(c, BBox{Vec3{f[0], f[1], f[2]}, Vec3{f[3], f[4], f[5]}},
              "BBox{{" + F(0) + ", " + F(1) + ", " + F(2) + "}, {" + F(3) + ", " + F(4) + ", " + F(5) + "}}");
    i32 i0 = kI[c.choose(4, "int")];
    u32 u0 = (u32)i0;
    string I = std::to_string(i0), U = std::to_string(u0);
    same_text(c, Vec2i{i0, 1}, "Vec2i{" + I + ", 1}");
    same_text(c, Vec3i{i0, 1, 2}, "Vec3i{" + I + ", 1, 2}");
    same_text(c, Vec4i{i0, 1, 2, i0}, "Vec4i{" + I + ", 1, 2, " + I + "}");
    same_text(c, Vec2u{u0, 1u}, "Vec2u{" + U + ", 1}");
    same_text(c, Vec3u{u0, 1u, 2u}, "Vec3u{" + U + ", 1, 2}");
    same_text(c, Vec4u{u0, 1u, 2u, u0}, "Vec4u{" + U + ", 1, 2, " + U + "}");
    Mat4 m = Mat4::I;
    string t = "Mat4{";
    for(int i = 0; i < 4; i++) {
        t += i ? ", {" : "{";
        for(int j = 0; j < 4; j++) {
            m[i][j] = f[(i + j) % 6];
            t += (j ? ", " : "") + F((i + j) % 6);
        }
        t += "}";
    }
    same_text(c, m, t + "}");
    end_exec("maths");
}
// every format string, with the right number of arguments
static void formats(mc::Ctx& c) {
    begin_exec();
    {
        static const char kA[] = {'%', 'x', ' '};
        string f, want;
        u32 n = c.choose(c.tier(7, 9), "length");
        for(u32 i = 0; i < n; i++) f += kA[c.choose(n > 5 ? 2 : 3, "char")];
        String_View fmt{(const u8*)f.data(), f.size()};
        std::vector<string> args = {"-12", "%", "", "true", "Ints{i : 1, u : 2}", "c"};
        u32 na = 0;
        for(u32 i = 0; i < n; i++) {
            if(f[i] == '%') {
                if(i + 1 < n && f[i + 1] == '%') want += '%', i++;
                else {
                    if(na == 6) return;
                    want += args[na++];
                }
            } else want += f[i];
        }
        i32 a0 = -12;
        String_View a1 = "%"_v;
        auto a2 = ""_v.string<TB>();
        bool a3 = true;
        Ints a4{1, 2};
        char a5 = 'c';
        String<TA> r;
        u64 len = 0;
        switch(na) {
        case 0: r = format<TA>(fmt), len = format_length(fmt); break;
        case 1: r = format<TA>(fmt, a0), len = format_length(fmt, a0); break;
        case 2: r = format<TA>(fmt, a0, a1), len = format_length(fmt, a0, a1); break;
        case 3: r = format<TA>(fmt, a0, a1, a2), len = format_length(fmt, a0, a1, a2); break;
        case 4: r = format<TA>(fmt, a0, a1, a2, a3), len = format_length(fmt, a0, a1, a2, a3); break;
        case 5: r = format<TA>(fmt, a0, a1, a2, a3, a4), len = format_length(fmt, a0, a1, a2, a3, a4); break;
        case 6: r = format<TA>(fmt, a0, a1, a2, a3, a4, a5), len = format_length(fmt, a0, a1, a2, a3, a4, a5); break;
        }
        MC_CHECK(r.length() == want.size() && memcmp(r.data(), want.data(), want.size()) == 0, "format \"%s\" gives \"%.*s\" instead of \"%s\"", f.c_str(),
                 (int)r.length(), (const char*)r.data(), want.c_str());
        MC_CHECK(len == want.size(), "announced length");
        c.op("format \"%s\" -> \"%s\"", f.c_str(), want.c_str());
        c.state(mc::hash_bytes(f.data(), f.size()));
    }
    end_exec("formats");
}
// formatting on a region, whose scratch allocations come and go meanwhile
static void regions(mc::Ctx& c) {
    begin_exec();
    {
        Region(R) {
            Vec<i32, Mregion<R>> v;
            u32 n = c.choose(5, "length");
            string want = "<Vec[";
            for(u32 i = 0; i < n; i++) {
                i32 x = gen<i32>(c);
                v.push(x);
                want += (i ? ", " : "") + std::to_string(x);
            }
            want += "] - -1.500000>";
            auto s = format<Mregion<R>>("<% - %>"_v, v, -1.5f);
            auto t = format<Mregion<R>>("<%|%>"_v, s, s);
            string w2 = "<" + want + "|" + want + ">";
            MC_CHECK(s.length() == want.size() && memcmp(s.data(), want.data(), want.size()) == 0, "first");
            MC_CHECK(t.length() == w2.size() && memcmp(t.data(), w2.data(), w2.size()) == 0, "second");
            c.op("%s", want.c_str());
            c.state(mc::hash_bytes(want.data(), want.size()));
        }
    }
    end_exec("regions");
}
// long values: every length, and every number of digits in front of and behind them
template<typename... Ts>
static void same_format(mc::Ctx& c, const string& f, const string& want, const Ts&... args) {
    String_View fmt{(const u8*)f.data(), f.size()};
    auto s = format<TA>(fmt, args...);
    MC_CHECK(s.length() == want.size() && memcmp(s.data(), want.data(), want.size()) == 0, "format \"%s\" gives \"%.*s\" instead of \"%s\"", f.c_str(), (int)s.length(),
             (const char*)s.data(), want.c_str());
    MC_CHECK(format_length(fmt, args...) == want.size(), "announced length of \"%s\"", want.c_str());
    c.state(mc::hash_bytes(want.data(), want.size()));
}
// a long text inside every kind of value that holds one
static void long_inside(mc::Ctx& c, u32 kind, String_View tv) {
    using SV = String_View;
    switch(kind) {
    case 0: check(c, Pair<i32, SV>{3, tv}); check(c, Pair<SV, SV>{tv, tv}); break;
    case 1: check(c, Tuple<SV, i32, SV>{tv, -4, tv}); break;
    case 2: {
        using N1 = Named<"One", SV>;
        using N2 = Named<"Two", i32>;
        Variant<N1, N2> v{N1{tv}};
        check(c, v);
        check(c, N1{tv});
        check(c, Variant<i32, SV>{SV{tv}});
    } break;
    case 3: check(c, Deep{1, {2, 3}, {4, 5, 6}, tv, true, nullptr}); check(c, Holder<SV>{tv, tv}); break;
    case 4: check(c, Array<SV, 3>{SV{tv}, "x"_v, SV{tv}}); break;
    case 5: {
        check(c, Box<SV, TA>{tv});
        check(c, Rc<SV, TA>{tv});
        check(c, Arc<SV, TA>{tv});
        check(c, Opt<SV>{tv});
        SV copy = tv;
        check(c, Ref<SV>{copy});
    } break;
    case 6: {
        Map<SV, SV, TA> m;
        m.insert(SV{tv}, SV{tv});
        m.insert("x"_v, SV{tv});
        check(c, m);
    } break;
    default: {
        Stack<SV, TA> st;
        Queue<SV, TA> q;
        Vec<SV, TA> v;
        for(int i = 0; i < 3; i++) st.push(SV{tv}), q.push(SV{tv}), v.push(SV{tv});
        check(c, st);
        check(c, q);
        check(c, v);
        check(c, v.slice());
    }
    }
}
template<u64 N>
static void array_of(mc::Ctx& c) {
    static Array<i32, N> a;
    for(u64 i = 0; i < N; i++) a[i] = (i32)(i * 7919u) >> (i % 31);
    check(c, a);
    static Array<u8, N> b;
    for(u64 i = 0; i < N; i++) b[i] = (u8)i;
    check(c, b);
}
static void longs_inside(mc::Ctx& c) {
    begin_exec();
    {
        static const u32 ls[] = {0, 1, 100, 240, 250, 254, 255, 256, 257, 300, 1000, 65000, 65500, 65520, 65530, 65534, 65535, 65536, 65537, 70001};
        u32 kind = c.choose(9, "kind");
        if(kind == 8) {
            u32 k = c.choose(7, "array");
            if(k == 0) array_of<50>(c);
            if(k == 1) array_of<127>(c);
            if(k == 2) array_of<255>(c);
            if(k == 3) array_of<256>(c);
            if(k == 4) array_of<257>(c);
            if(k == 5) array_of<65536>(c);
            if(k == 6) array_of<70001>(c);
            c.op("array %u", k);
        } else {
            string t = filler(ls[c.choose(20, "length")]);
            long_inside(c, kind, String_View{(const u8*)t.data(), t.size()});
            c.op("kind %u length %zu", kind, t.size());
        }
    }
    end_exec("longs inside");
}
static void longs(mc::Ctx& c) {
    begin_exec();
    {
        u32 kind = c.choose(9, "kind"), n = c.choose(c.tier(303, 1203), "length"), top = c.tier(301, 1201);
        if(n >= top) n = n == top ? 7000 : 70001; // beyond what 8 and 16 bits can count
        string t = filler(n);
        String_View tv{(const u8*)t.data(), t.size()};
        switch(kind) {
        case 0: check(c, tv); break;
        case 1: check(c, tv.string<TA>()); break;
        case 2: { // between long literals
            string f = t + "%." + t + "%%." + t + "%";
            same_format(c, f, t + "-5." + t + "%." + t + t, i32{-5}, tv);
        } break;
        case 3: {
            Vec<i32, TA> v;
            for(u32 i = 0; i < n; i++) v.push((i32)(i * 7919u) >> (i % 31));
            check(c, v);
            check(c, v.slice());
        } break;
        case 4: {
            Queue<String_View, TA> q;
            for(u32 i = 0; i < n; i++) {
                q.push(tv.sub(0, i % 17 < n ? i % 17 : 0));
                if(i % 3 == 2) q.pop();
            }
            check(c, q);
        } break;
        case 5: {
            Map<i32, String_View, TA> m;
            for(u32 i = 0; i < n; i++) m.insert((i32)(i * 7919u), tv.sub(0, n > 5000 ? i % 97 : i));
            check(c, m);
        } break;
        case 6: { // one value inside another
            Vec<Vec<i32, TA>, TA> v;
            for(u32 i = 0; i < n % 20; i++) {
                Vec<i32, TA> w;
                for(u32 j = 0; j < n / 20; j++) w.push((i32)(i * j));
                v.push(rpp::move(w));
            }
            check(c, Opt{rpp::move(v)});
        } break;
        case 7: {
            Stack<bool, TA> st;
            Heap<i32, TA> h;
            for(u32 i = 0; i < n; i++) st.push(i % 3 == 0), h.push((i32)(i * 31 % 101));
            check(c, st);
            check(c, h);
        } break;
        case 8: { // percent signs only
            string f, want;
            for(u32 i = 0; i < n; i++) f += "%%", want += "%";
            same_format(c, f + "%", want + "true", true);
            same_format(c, "%|" + f, "true|" + want, true);
            same_format(c, f, want);
        } break;
        }
        c.op("kind %u length %u", kind, n);
    }
    end_exec("longs");
}
// many arguments, fields, cases and alternatives
static void wides(mc::Ctx& c) {
    begin_exec();
    {
        u32 kind = c.choose(5, "kind");
        if(kind == 0) {
            static const Many kM[] = {Many::a0, Many::a1, Many::a2, Many::a3, Many::a4, Many::a5, Many::a6, Many::a7, Many::a8, Many::a9, Many::a10, Many::a11,
                                      Many::the_longest_name_an_enum_can_ha};
            static const char* kN[] = {"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8", "a9", "a10", "a11", "the_longest_name_an_enum_can_ha"};
            u32 k = c.choose(13, "case");
            same_text(c, kM[k], string("Many::") + kN[k]);
            u32 i = 0;
            bool ok = true;
            Reflect::iterate_enum<Many>([&](const Literal& n, Many x) {
                ok = ok && i < 13 && x == kM[i] && String_View{n} == String_View{kN[i]};
                i++;
            });
            MC_CHECK(ok && i == 13, "cases of an enumeration");
        } else if(kind == 1) {
            i32 v[12];
            string want = "Wide{";
            u32 big = c.choose(12, "field");
            for(u32 i = 0; i < 12; i++) {
                v[i] = i == big ? INT32_MIN : (i32)i;
                want += (i ? ", " : "") + (i < 11 ? "f" + std::to_string(i) : string("the_longest_name_a_field_can_ha")) + " : " + std::to_string(v[i]);
            }
            same_text(c, Wide{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]}, want + "}");
        } else if(kind == 2) {
            u32 big = c.choose(16, "argument");
            i32 a[16];
            string f = c.flip("text") ? "<" : "", want = f;
            for(u32 i = 0; i < 16; i++) {
                a[i] = i == big ? 123456789 : (i32)i;
                f += i % 3 ? "%," : "%;;";
                want += std::to_string(a[i]) + (i % 3 ? "," : ";;");
            }
            same_format(c, f, want, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
        } else if(kind == 3) {
            using V = Variant<bool, i8, i16, i32, i64, u8, u16, u32, u64, String_View>;
            switch(c.choose(10, "alternative")) {
            case 0: check(c, V{true}); break;
            case 1: check(c, V{i8{-8}}); break;
            case 2: check(c, V{i16{-16}}); break;
            case 3: check(c, V{i32{-32}}); break;
            case 4: check(c, V{i64{-64}}); break;
            case 5: check(c, V{u8{8}}); break;
            case 6: check(c, V{u16{16}}); break;
            case 7: check(c, V{u32{32}}); break;
            case 8: check(c, V{u64{64}}); break;
            case 9: check(c, V{"text"_v}); break;
            }
        } else {
            u32 k = c.choose(8, "value");
            i32 v = 0;
            for(u32 i = 0; i < k; i++) v = v * 10 + 7;
            string I = std::to_string(v);
            same_text(c, Tuple<i32, i32, i32, i32, i32, i32, i32, i32>{v, 1, 2, v, 4, 5, 6, v}, "Tuple{" + I + ", 1, 2, " + I + ", 4, 5, 6, " + I + "}");
            same_text(c, Array<i32, 12>{v, 1, 2, v, 4, 5, 6, v, 8, 9, 10, v}, "[" + I + ", 1, 2, " + I + ", 4, 5, 6, " + I + ", 8, 9, 10, " + I + "]");
        }
        c.op("kind %u", kind);
    }
    end_exec("wides");
}
// the names of types
template<typename T>
static void named(mc::Ctx& c, const string& want) {
    auto s = format_typename<T, TA>();
    MC_CHECK(s.length() == want.size() && memcmp(s.data(), want.data(), want.size()) == 0, "type name %.*s instead of %s", (int)s.length(), (const char*)s.data(),
             want.c_str());
    c.op("%s", want.c_str());
    c.state(mc::hash_bytes(want.data(), want.size()));
}
template<typename T>
static void quals(mc::Ctx& c, const string& n) {
    named<T>(c, n);
    named<const T>(c, "const " + n);
    named<volatile T>(c, "volatile " + n);
    named<const volatile T>(c, "const volatile " + n);
    named<T&>(c, n + "&");
    named<const T&>(c, "const " + n + "&");
    named<T&&>(c, n + "&&");
    named<T*>(c, n + "*");
    named<const T*>(c, "const " + n + "*");
    named<T**>(c, n + "**");
    named<T*&>(c, n + "*&");
    named<T[3]>(c, n + "[3]");
    named<Slice<const T>>(c, "Slice<const " + n + ">");
    named<Function<T(T)>>(c, "Function<" + n + "(" + n + ")>");
    named<Function<void(T, const T&)>>(c, "Function<void(" + n + ", const " + n + "&)>");
}
template<typename T>
static void wraps(mc::Ctx& c, u32 w) {
    string n = Txt<T>::name();
    switch(w) {
    case 0: quals<T>(c, n); break;
    case 1: quals<Vec<T>>(c, "Vec<" + n + ">"); break;
    case 2: quals<Opt<T>>(c, "Opt<" + n + ">"); break;
    case 3: quals<Box<T>>(c, "Box<" + n + ">"); break;
    case 4: quals<Rc<T>>(c, "Rc<" + n + ">"); break;
    case 5: quals<Arc<T>>(c, "Arc<" + n + ">"); break;
    case 6: quals<Queue<T>>(c, "Queue<" + n + ">"); break;
    case 7: quals<Stack<T>>(c, "Stack<" + n + ">"); break;
    case 8:
        if constexpr(requires(T a, T b) { a < b; }) quals<Heap<T>>(c, "Heap<" + n + ">");
        break;
    case 9: quals<Map<i32, T>>(c, "Map<i32, " + n + ">"); break;
    case 10: quals<Pair<T, f32>>(c, "Pair<" + n + ", f32>"); break;
    case 11: quals<Tuple<T, T, u8>>(c, "Tuple<" + n + ", " + n + ", u8>"); break;
    case 12: quals<Array<T, 12>>(c, "Array<" + n + ", 12>"); break;
    case 13: quals<Ref<T>>(c, "Ref<" + n + ">"); break;
    case 14: quals<Storage<T>>(c, "Storage<" + n + ">"); break;
    case 15: quals<Variant<T, Tuple<>>>(c, "Variant<" + n + ", Tuple<>>"); break;
    case 16: quals<Holder<T>>(c, "Holder<" + n + ">"); break;
    }
}
static void typenames(mc::Ctx& c) {
    begin_exec();
    u32 w = c.choose(17, "wrapper");
    switch(c.choose(6, "type")) {
    case 0: wraps<i32>(c, w); break;
    case 1: wraps<f64>(c, w); break;
    case 2: wraps<Ints>(c, w); break;
    case 3: wraps<Color>(c, w); break;
    case 4: wraps<Vec<u16>>(c, w); break;
    case 5: wraps<Far>(c, w); break;
    }
    end_exec("typenames");
}
// functions
static void functions(mc::Ctx& c) {
    begin_exec();
    switch(c.choose(5, "kind")) {
    case 0: same_text(c, Function<void()>{[]() {}}, "Function{void()}"); break;
    case 1: same_text(c, Function<i32(f32)>{[](f32) { return 1; }}, "Function{i32(f32)}"); break;
    case 2: same_text(c, Function<bool(i32, Vec<i32>&, u8*)>{[](i32, Vec<i32>&, u8*) { return true; }}, "Function{bool(i32, Vec<i32>&, u8*)}"); break;
    case 3: same_text(c, Storage<Ints>{}, "Storage<Ints>"); break;
    case 4: {
        i32 x = gen<i32>(c);
        same_text(c, Thread::Atomic{x}, "Atomic{value_ : " + std::to_string(x) + "}");
    } break;
    }
    end_exec("functions");
}
// iterate_record visits each field once, in order, with its name and the field itself
struct Visit {
    template<typename T>
    void apply(const Literal& name, const T& f) {
        names += string(name.c_string) + ";";
        addrs.push_back(&f);
        sizes.push_back(sizeof(f));
    }
    string names;
    std::vector<const void*> addrs;
    std::vector<u64> sizes;
};
struct Change : Visit {
    template<typename T>
    void apply(const Literal& name, T& f) {
        Visit::apply<T>(name, f);
        if constexpr(std::is_same_v<std::remove_cvref_t<T>, i8>) f = 77;
    }
};
static void reflection(mc::Ctx& c) {
    Deep d{1, {2, 3}, {4, 5, 6}, "s"_v, true, nullptr};
    std::vector<const void*> addrs = {&d.a, &d.in, &d.arr, &d.s, &d.b, &d.p};
    std::vector<u64> sizes = {sizeof d.a, sizeof d.in, sizeof d.arr, sizeof d.s, sizeof d.b, sizeof d.p};
    if(c.flip("const")) {
        Visit v;
        Reflect::iterate_record(v, (const Deep&)d);
        MC_CHECK(v.names == "a;in;arr;s;b;p;" && v.addrs == addrs && v.sizes == sizes, "fields are %s", v.names.c_str());
        MC_CHECK(d.a == 1, "const");
    } else {
        Change v;
        Reflect::iterate_record(v, d);
        MC_CHECK(v.names == "a;in;arr;s;b;p;" && v.addrs == addrs && v.sizes == sizes, "fields are %s", v.names.c_str());
        MC_CHECK(d.a == 77, "a field cannot be changed through its reference");
    }
    string cs;
    std::vector<int> vals;
    Reflect::iterate_enum<Color>([&](const Literal& n, Color x) { cs += string(n.c_string) + ";", vals.push_back((int)x); });
    MC_CHECK(cs == "red;green;blue;" && vals == (std::vector<int>{7, 8, 200}), "cases are %s", cs.c_str());
    static_assert(Same<Reflect::Reverse<List<i32, f32, u8>>, List<u8, f32, i32>>);
    static_assert(Reflect::List_Length<List<i32, f32, u8>> == 3);
    c.op("reflection");
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "S02";
    m.bounds = "every i8, u8, i16, u16 and char; every power of two and ten +-1 of i32, u32, i64, u64; every exponent of f32 and f64 with 6 mantissas and both signs; every format string of up to "
               "6 (thorough 8) characters over {% x space} with up to 6 arguments; every container of up to 3 elements, handle, record, tuple and variant over sample values; strings, containers and formats of every length to 300 (thorough 1200); up to 16 arguments, 12 fields, 13 cases, 10 alternatives; every type "
               "name of 6 types in 17 wrappers and 15 qualifications";
    m.assumptions = {"the text of an enumeration value that is no case is unspecified after its type name"};
    m.add("i8", ints<i8>, 1);
    m.add("u8", ints<u8>, 1);
    m.add("i16", ints<i16>, 1);
    m.add("u16", ints<u16>, 1);
    m.add("i32", ints<i32>, 2);
    m.add("u32", ints<u32>, 2);
    m.add("i64", ints<i64>, 2);
    m.add("u64", ints<u64>, 2);
    m.add("f32", floats<f32, u32>, 1);
    m.add("f64", floats<f64, u64>, 1);
    m.add("simple", simple, 2);
    m.add("handles-i32", handles<i32>, 2);
    m.add("handles-view", handles<String_View>, 2);
    m.add("handles-ints", handles<Ints>, 2);
    m.add("handles-vec", handles<VI>, 2);
    m.add("sequences-i32", sequences<i32, 3>, 2);
    m.add("sequences-view", sequences<String_View, 3>, 2);
    m.add("sequences-bool", sequences<bool, 3>, 2);
    m.add("sequences-vec", sequences<VI, 2>, 2);
    m.add("sequences-box", sequences<BI, 2>, 2);
    m.add("sequences-ints", sequences<Ints, 3>, 2);
    m.add("products", products, 2);
    m.add("maths", maths, 2);
    m.add("formats", formats, 2);
    m.add("regions", regions, 2);
    m.add("longs", longs, 2);
    m.add("longs-inside", longs_inside, 2);
    m.add("wides", wides, 2);
    m.add("typenames", typenames, 2);
    m.add("functions", functions, 1);
    m.add("reflection", reflection, 1);
    return m.run(argc, argv);
}
