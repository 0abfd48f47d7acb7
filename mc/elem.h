// Instrumented element types and allocator shared by the container harnesses.
// Ownership oracle: every value constructed is a token; a move transfers the token to its destination,
// so a moved-from object owns nothing (destroying it or not makes no difference). At the end of an
// execution every token must have been released exactly once and every block freed exactly once.
#pragma once
#include "mc.h"
#include <unordered_map>
#include <vector>
#include <rpp/base.h>

namespace el {

using namespace rpp;

constexpr u32 kAlive = 0x600DF00Du, kDead = 0xDEADDEADu;

struct Ledger {
    std::vector<unsigned char> live; // token id -> 1 live, 2 released
    i64 nlive = 0;
    i64 blocks = 0;
    u64 allocs = 0;
    void reset() {
        live.clear();
        live.push_back(0);
        nlive = 0;
        blocks = 0;
        allocs = 0;
    }
    u32 fresh() {
        live.push_back(1);
        nlive++;
        return (u32)live.size() - 1;
    }
    void release(u32 id) {
        if(id == 0 || id >= live.size()) mc::fail("destroyed a value that was never constructed");
        if(live[id] != 1) mc::fail("value destroyed twice");
        live[id] = 2;
        nlive--;
    }
};
inline Ledger L;
inline i32 key_mask = -1; // == and < compare value & key_mask

// move-only (with clone), self-referential: a bitwise relocation is detected
template<bool COPY, bool CLONE>
struct TokT {
    u32 magic;
    i32 val;
    u32 id; // 0: moved from, owns nothing
    const void* self;

    explicit TokT(i32 v) noexcept : magic(kAlive), val(v), id(L.fresh()), self(this) {
    }
    TokT() noexcept : TokT(0) {
    }
    ~TokT() noexcept {
        check("destroy");
        if(id) L.release(id);
        magic = kDead;
        id = 0;
        self = nullptr;
    }
    TokT(TokT&& o) noexcept : magic(kAlive), val(o.val), id(o.id), self(this) {
        o.check("move from");
        o.id = 0;
        o.val = -777;
    }
    TokT& operator=(TokT&& o) noexcept {
        check("assign to");
        o.check("move-assign from");
        if(this == &o) return *this;
        if(id) L.release(id);
        val = o.val;
        id = o.id;
        o.id = 0;
        o.val = -777;
        return *this;
    }
    TokT(const TokT& o) noexcept
        requires COPY
        : magic(kAlive), val(o.val), id(0), self(this) {
        o.check("copy from");
        if(!o.id) mc::fail("copied a moved-from object");
        id = L.fresh();
    }
    TokT& operator=(const TokT& o) noexcept
        requires COPY
    {
        check("assign to");
        o.check("copy-assign from");
        if(this == &o) return *this;
        if(!o.id) mc::fail("copied a moved-from object");
        if(!id) id = L.fresh();
        val = o.val;
        return *this;
    }
    [[nodiscard]] TokT clone() const noexcept
        requires CLONE
    {
        check("clone");
        if(!id) mc::fail("cloned a moved-from object");
        return TokT{val};
    }
    void check(const char* what) const noexcept {
        if(magic != kAlive || self != this)
            mc::fail("%s: not a live object (uninitialised, destroyed or bitwise-relocated)", what);
    }
    i32 get() const noexcept {
        check("read");
        if(!id) mc::fail("read a moved-from object");
        return val;
    }
    bool operator==(const TokT& o) const noexcept {
        return (get() & key_mask) == (o.get() & key_mask);
    }
    bool operator<(const TokT& o) const noexcept {
        return (get() & key_mask) < (o.get() & key_mask);
    }
};
using Tok = TokT<false, true>;  // move + clone
using CTok = TokT<true, false>; // copy
using MTok = TokT<false, false>; // move only

// plain trivially copyable element
struct Pod {
    i32 val;
    i32 chk;
    Pod() noexcept = default;
    explicit Pod(i32 v) noexcept : val(v), chk(~v) {
    }
    i32 get() const {
        if(chk != ~val) mc::fail("read garbage (torn or uninitialised element)");
        return val;
    }
    bool operator==(const Pod& o) const noexcept {
        return (get() & key_mask) == (o.get() & key_mask);
    }
    bool operator<(const Pod& o) const noexcept {
        return (get() & key_mask) < (o.get() & key_mask);
    }
};

template<typename T>
struct is_pod {
    static constexpr bool v = false;
};
template<>
struct is_pod<Pod> {
    static constexpr bool v = true;
};

// tracking allocator: junk-filled blocks from the (ASan) heap
struct TA {
    constexpr static Literal name = "TA";
    static void* alloc(u64 size) noexcept {
        if(!size) return nullptr;
        if(size > (1ull << 30)) mc::fail("absurd allocation of %lu bytes", size);
        L.blocks++;
        L.allocs++;
        void* p = ::malloc(size);
        ::memset(p, 0xCB, size);
        return p;
    }
    static void free(void* p) noexcept {
        if(!p) return;
        L.blocks--;
        if(L.blocks < 0) mc::fail("more blocks freed than allocated");
        ::free(p);
    }
};
// A second one, distinguishable: clone<B> must allocate from B
struct TB {
    constexpr static Literal name = "TB";
    static inline i64 blocks = 0;
    static void* alloc(u64 size) noexcept {
        if(!size) return nullptr;
        blocks++;
        void* p = ::malloc(size + 64);
        ::memset(p, 0xBD, size + 64);
        return (u8*)p + 64;
    }
    static void free(void* p) noexcept {
        if(!p) return;
        blocks--;
        if(blocks < 0) mc::fail("more blocks freed than allocated (second allocator)");
        ::free((u8*)p - 64);
    }
};

inline void begin_exec() {
    L.reset();
    TB::blocks = 0;
}
inline void end_exec(const char* what) {
    if(L.nlive != 0) mc::fail("%s: %lld value(s) never destroyed", what, (long long)L.nlive);
    if(L.blocks != 0) mc::fail("%s: %lld block(s) never freed", what, (long long)L.blocks);
    if(TB::blocks != 0) mc::fail("%s: %lld block(s) of allocator B never freed", what, (long long)TB::blocks);
}

// --- values of any size and alignment, recognisable by the number they were made from
template<u64 N, u64 A>
struct alignas(A) Bulk { // trivially copyable
    u8 b[N];
    Bulk() = default;
    explicit Bulk(u32 seed) {
        for(u64 i = 0; i < N; i++) b[i] = (u8)((seed + 1) * (i * 7 + 11) + (i >> 8) * 3);
    }
    bool is(u32 seed) const {
        for(u64 i = 0; i < N; i++)
            if(b[i] != (u8)((seed + 1) * (i * 7 + 11) + (i >> 8) * 3)) return false;
        return (u64)this % A == 0;
    }
};
template<u64 N, u64 A>
struct alignas(A) Owned { // the same with an owner in it
    Bulk<N, A> b;
    Tok t;
    explicit Owned(u32 seed) : b(seed), t((i32)seed) {
    }
    Owned(Owned&&) = default;
    Owned& operator=(Owned&&) = default;
    Owned clone() const {
        return Owned((u32)t.get());
    }
    bool is(u32 seed) const {
        return b.is(seed) && t.get() == (i32)seed;
    }
};

// sizes for scale scenarios: every small one, then around the powers of two
inline u64 large_size(mc::Ctx& c, u64 top) {
    std::vector<u64> v;
    for(u64 i = 0; i <= 40; i++) v.push_back(i);
    for(u64 p = 64; p <= top; p *= 2)
        for(i64 d = -1; d <= 1; d++) v.push_back(p + d);
    for(u64 x : {50, 100, 1000, 3000}) v.push_back(x);
    v.push_back(70001); // beyond what 16 bits can count
    if(top > 300)
        for(u64 x : {65535, 65536, 65537, 131075}) v.push_back(x);
    return v[c.choose((u32)v.size(), "size")];
}
} // namespace el

// reflection, so that they can be formatted
namespace rpp {
template<bool C, bool D>
struct Reflect::Refl<el::TokT<C, D>> {
    using underlying = i32;
    constexpr static Literal name = "Tok";
    constexpr static Reflect::Kind kind = Reflect::Kind::i32_;
};
}
