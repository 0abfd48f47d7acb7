// The library's own types as elements of one another: how to make one from a number, and how to tell.
#pragma once
#include "elem.h"
#include <rpp/base.h>
#include <rpp/array.h>
#include <rpp/box.h>
#include <rpp/function.h>
#include <rpp/heap.h>
#include <rpp/map.h>
#include <rpp/opt.h>
#include <rpp/queue.h>
#include <rpp/rc.h>
#include <rpp/stack.h>
#include <rpp/tuple.h>
#include <rpp/variant.h>
#include <rpp/vec.h>
namespace nest {
using namespace rpp;
using namespace el;
inline i32 places[4096];

// Every kind: make(v) for v >= 0, is(x, v), and blank(x) for a default one where there is one.
struct KPair {
    using T = Pair<i32, Tok>;
    static T make(i32 v) {
        return T{i32{v}, Tok(v + 1)};
    }
    static bool is(const T& x, i32 v) {
        return x.first == v && x.second.get() == v + 1;
    }
    static bool blank(const T& x) {
        return x.second.get() == 0;
    }
};
struct KTuple {
    using T = Tuple<Tok, i32, Tok>;
    static T make(i32 v) {
        return T{Tok(v), i32{v + 1}, Tok(v + 2)};
    }
    static bool is(const T& x, i32 v) {
        return x.get<0>().get() == v && x.get<1>() == v + 1 && x.get<2>().get() == v + 2;
    }
    static bool blank(const T& x) {
        return x.get<0>().get() == 0 && x.get<2>().get() == 0;
    }
};
struct KVariant {
    using T = Variant<Tok, i32, Vec<Tok, TA>>;
    static T make(i32 v) {
        if(v % 3 == 0) return T{Tok(v)};
        if(v % 3 == 1) return T{i32{v}};
        Vec<Tok, TA> w;
        w.push(Tok(v));
        return T{rpp::move(w)};
    }
    static bool is(const T& x, i32 v) {
        return x.match(Overload{[v](const Tok& t) { return v % 3 == 0 && t.get() == v; }, [v](const i32& t) { return v % 3 == 1 && t == v; },
                                [v](const Vec<Tok, TA>& t) { return v % 3 == 2 && t.length() == 1 && t[0].get() == v; }});
    }
};
struct KOpt {
    using T = Opt<Tok>;
    static T make(i32 v) {
        if(v % 3 == 0) return {};
        return T{Tok(v)};
    }
    static bool is(const T& x, i32 v) {
        return x.ok() == (v % 3 != 0) && (!x.ok() || (*x).get() == v);
    }
    static bool blank(const T& x) {
        return !x.ok();
    }
};
template<template<typename, typename> class H>
struct KHandle {
    using T = H<Tok, TA>;
    static T make(i32 v) {
        if(v % 5 == 0) return {};
        return T{Tok(v)};
    }
    static bool is(const T& x, i32 v) {
        return x.ok() == (v % 5 != 0) && (!x.ok() || (*x).get() == v);
    }
    static bool blank(const T& x) {
        return !x.ok();
    }
};
template<typename A, typename B> using RcOf = Rc<A, B>;
template<typename A, typename B> using ArcOf = Arc<A, B>;
template<typename A, typename B> using BoxOf = Box<A, B>;
using KBox = KHandle<BoxOf>;
using KRc = KHandle<RcOf>;
using KArc = KHandle<ArcOf>;
struct KString {
    using T = String<TA>;
    static T make(i32 v) {
        u8 b[9];
        for(i32 i = 0; i < 9; i++) b[i] = (u8)(v * 7 + i);
        return String_View{b, (u64)(v % 10)}.string<TA>();
    }
    static bool is(const T& x, i32 v) {
        if(x.length() != (u64)(v % 10)) return false;
        for(i32 i = 0; i < v % 10; i++)
            if(x[(u64)i] != (u8)(v * 7 + i)) return false;
        return true;
    }
    static bool blank(const T& x) {
        return x.length() == 0;
    }
};
// containers of v % 4 values
template<typename C>
struct KSeq {
    using T = C;
    static T make(i32 v) {
        T c;
        for(i32 i = 0; i < v % 4; i++) c.push(Tok(v + i));
        return c;
    }
    static bool is(const T& x, i32 v) {
        if(x.length() != (u64)(v % 4)) return false;
        i32 i = 0;
        for(const Tok& t : x)
            if(t.get() != v + i++) return false;
        return i == v % 4;
    }
    static bool blank(const T& x) {
        return x.empty();
    }
};
using KVec = KSeq<Vec<Tok, TA>>;
using KQueue = KSeq<Queue<Tok, TA>>;
using KHeap = KSeq<Heap<Tok, TA>>;
struct KStack {
    using T = Stack<Tok, TA>;
    static T make(i32 v) {
        T c;
        for(i32 i = 0; i < v % 4; i++) c.push(Tok(v + i));
        return c;
    }
    static bool is(const T& x, i32 v) {
        return x.empty() == (v % 4 == 0) && (x.empty() || x.top().get() == v + v % 4 - 1);
    }
    static bool blank(const T& x) {
        return x.empty();
    }
};
struct KMap {
    using T = Map<i32, Tok, TA>;
    static T make(i32 v) {
        T m;
        for(i32 i = 0; i < v % 4; i++) m.insert(v + i, Tok(v * 2 + i));
        return m;
    }
    static bool is(const T& x, i32 v) {
        if(x.length() != (u64)(v % 4)) return false;
        for(i32 i = 0; i < v % 4; i++)
            if(!x.contains(v + i) || x.get(v + i).get() != v * 2 + i) return false;
        return true;
    }
    static bool blank(const T& x) {
        return x.empty();
    }
};
struct KRef {
    using T = Ref<i32>;
    static T make(i32 v) {
        return T{places[v]};
    }
    static bool is(const T& x, i32 v) {
        return x.ok() && &*x == &places[v];
    }
    static bool blank(const T& x) {
        return !x.ok();
    }
};
struct KFn {
    using T = Function<i32(i32)>;
    static T make(i32 v) {
        if(v % 2) return T{[t = Tok(v)](i32 x) { return t.get() + x; }};
        return T{[v](i32 x) { return v + x; }};
    }
    static bool is(const T& x, i32 v) {
        return const_cast<T&>(x)(100) == v + 100;
    }
};
struct KArray {
    using T = Array<Tok, 3>;
    static T make(i32 v) {
        return T{Tok(v), Tok(v + 1), Tok(v + 2)};
    }
    static bool is(const T& x, i32 v) {
        return x[0].get() == v && x[1].get() == v + 1 && x[2].get() == v + 2;
    }
    static bool blank(const T& x) {
        return x[0].get() == 0 && x[2].get() == 0;
    }
};
struct KDeep {
    using T = Opt<Pair<String<TA>, Box<Vec<Opt<Tok>, TA>, TA>>>;
    static T make(i32 v) {
        if(v % 4 == 0) return {};
        Vec<Opt<Tok>, TA> w;
        for(i32 i = 0; i < v % 3; i++) w.push(KOpt::make(v + i));
        return T{Pair<String<TA>, Box<Vec<Opt<Tok>, TA>, TA>>{KString::make(v), Box<Vec<Opt<Tok>, TA>, TA>{rpp::move(w)}}};
    }
    static bool is(const T& x, i32 v) {
        if(x.ok() != (v % 4 != 0)) return false;
        if(!x.ok()) return true;
        if(!KString::is(x->first, v) || x->second->length() != (u64)(v % 3)) return false;
        for(i32 i = 0; i < v % 3; i++)
            if(!KOpt::is((*x->second)[(u64)i], v + i)) return false;
        return true;
    }
    static bool blank(const T& x) {
        return !x.ok();
    }
};
template<typename K>
constexpr bool has_blank = requires(const typename K::T& x) { K::blank(x); };
template<typename T>
constexpr bool can_clone = requires(const T& x) { x.clone(); };

// body<K>() for the kind chosen
template<typename F>
inline void any_kind(mc::Ctx& c, F&& body) {
    switch(c.choose(17, "kind")) {
    case 0: body.template operator()<KPair>(); break;
    case 1: body.template operator()<KTuple>(); break;
    case 2: body.template operator()<KVariant>(); break;
    case 3: body.template operator()<KOpt>(); break;
    case 4: body.template operator()<KBox>(); break;
    case 5: body.template operator()<KRc>(); break;
    case 6: body.template operator()<KArc>(); break;
    case 7: body.template operator()<KString>(); break;
    case 8: body.template operator()<KVec>(); break;
    case 9: body.template operator()<KQueue>(); break;
    case 10: body.template operator()<KHeap>(); break;
    case 11: body.template operator()<KStack>(); break;
    case 12: body.template operator()<KMap>(); break;
    case 13: body.template operator()<KRef>(); break;
    case 14: body.template operator()<KFn>(); break;
    case 15: body.template operator()<KArray>(); break;
    default: body.template operator()<KDeep>(); break;
    }
}
} // namespace nest
