// Every small program of coroutines: a tree in which each has up to two steps that start another one,
// and waits in between on whatever the harness puts there (W::pass(i)).
#pragma once
#include "ilv.h"
#include <rpp/base.h>
#include <rpp/async.h>
namespace mc {
using rpp::u32;
using rpp::u64;
// reg 699: live values; reg 700+k: ends of coroutine k
struct Value {
    int v = 0;
    bool full = false;
    Value() noexcept {
        sched::add(699, 1);
    }
    explicit Value(int v) noexcept : v(v), full(true) {
        sched::add(699, 1);
    }
    Value(Value&& o) noexcept : v(o.v), full(o.full) {
        o.full = false;
        sched::add(699, 1);
    }
    Value& operator=(Value&& o) noexcept {
        v = o.v;
        full = o.full;
        o.full = false;
        return *this;
    }
    ~Value() noexcept {
        v = -1;
        sched::add(699, -1);
    }
};
inline void planned_end(int k) {
    MC_CHECK(sched::add(700 + k, 1) == 1, "coroutine %d ended twice", k);
}
inline bool planned_ran(int k) {
    return sched::get(700 + k) == 1;
}
enum Mode { kAwait, kLater, kDrop, kHold, kMove, kThen, kReplace, kPoll, kModes };
struct Plan {
    struct Step {
        int child = -1, mode = 0, door = -1;
    };
    struct Node {
        int before = -1, after = -1;
        Step step[2];
    } node[5];
    int nodes = 0, doors = 0;
    int want(int k) const { // what node k returns
        int v = 1 << k;
        for(const Step& s : node[k].step)
            if(s.child >= 0 && s.mode != kDrop && s.mode != kHold && s.mode != kReplace) v += want(s.child);
        return v;
    }
    u64 hash() const {
        u64 h = 7;
        for(int i = 0; i < nodes; i++) {
            h = mc::mix(h, (u64)(node[i].before + 1) * 64 + (u64)(node[i].after + 1));
            for(const Step& s : node[i].step) h = mc::mix(h, (u64)(s.child + 1) * 4096 + (u64)s.mode * 64 + (u64)(s.door + 1));
        }
        return h;
    }
};
struct Planned {
    Plan p;
};
template<typename World>
rpp::Async::Task<Value> node(World& w, int k) {
    const Plan::Node& n = w.p.node[k];
    Value local{k};
    if(n.before >= 0) co_await w.pass(n.before);
    int v = 1 << k;
    for(const Plan::Step& s : n.step) {
        if(s.child < 0) continue;
        switch(s.mode) {
        case kAwait: v += (co_await node(w, s.child)).v; break;
        case kLater: {
            auto t = node(w, s.child);
            co_await w.pass(s.door);
            Value x = co_await t;
            v += x.v;
        } break;
        case kDrop: { auto t = node(w, s.child); } break;
        case kHold: {
            auto t = node(w, s.child);
            co_await w.pass(s.door);
        } break;
        case kMove: {
            auto t = node(w, s.child);
            auto u = rpp::move(t);
            MC_CHECK(!t.ok() && u.ok(), "a task moved from is still there");
            v += (co_await u).v;
        } break;
        case kThen: {
            auto t = node(w, s.child);
            auto u = t.then([&w, k](Value x) -> rpp::Async::Task<Value> {
                MC_CHECK(x.full, "a continuation was given nothing");
                co_return Value{x.v + 1000};
            });
            v += (co_await u).v - 1000;
        } break;
        case kReplace: {
            auto t = node(w, s.child);
            t = rpp::Async::Task<Value>{};
            MC_CHECK(!t.ok(), "an empty task");
        } break;
        case kPoll: {
            auto t = node(w, s.child);
            if(t.done()) MC_CHECK(planned_ran(s.child), "done before its end");
            co_await w.pass(s.door);
            if(t.done()) MC_CHECK(planned_ran(s.child), "done before its end");
            v += (co_await t).v;
        } break;
        }
        MC_CHECK(s.mode == kDrop || s.mode == kHold || s.mode == kReplace || planned_ran(s.child), "awaited coroutine %d did not end", s.child);
    }
    if(n.after >= 0) co_await w.pass(n.after);
    MC_CHECK(local.full && local.v == k, "local of a coroutine");
    planned_end(k);
    co_return Value{v};
}
inline int doors(mc::Ctx& c, Plan& p, int most) {
    if(!most) return -1;
    return c.choose(2, "door") ? p.doors++ : -1;
}
inline int grow(mc::Ctx& c, Plan& p, int depth, int shape) {
    int k = p.nodes++;
    Plan::Node n;
    bool slim = shape == 0 && depth > 1;
    n.before = doors(c, p, depth > 0 && !slim);
    for(int i = 0; i < (depth == 0 ? 2 : 1); i++) {
        if(depth == 2 || p.nodes == 4) break;
        if(depth && !c.choose(2, "starts another")) break;
        if(i && !c.choose(2, "starts another")) break;
        n.step[i].mode = (int)c.choose(kModes, "how");
        if(n.step[i].mode == kLater || n.step[i].mode == kHold || n.step[i].mode == kPoll) n.step[i].door = p.doors++;
        n.step[i].child = grow(c, p, i ? 2 : depth + 1, shape);
    }
    n.after = doors(c, p, depth == 0 ? shape : depth == 1 ? 1 : slim ? 1 : 0);
    p.node[k] = n;
    return k;
}
} // namespace mc
