// O01, second part: owning pointers to the library's own types.
#include "nest.h"
using namespace nest;

template<typename K>
static void body(mc::Ctx& c) {
    using T = typename K::T;
    i32 next = 1;
    Box<T, TA> a, b;
    i32 ma = -2, mb = -2; // -2: empty
    Rc<T, TA> r[3];
    i32 mr[3] = {-2, -2, -2};
    Arc<T, TA> q[2];
    i32 mq[2] = {-2, -2};
    for(int d = 0; d < c.tier(5, 6); d++) {
        u32 op = c.choose(13, "op");
        if(op == 0) break;
        switch(op) {
        case 1: a = Box<T, TA>{K::make(next)}, ma = next++; break;
        case 2: a = Box<T, TA>{}, ma = -2; break;
        case 3: a = rpp::move(b), ma = mb, mb = -2; break;
        case 4: swap(a, b), std::swap(ma, mb); break;
        case 5:
            if constexpr(can_clone<T>) {
                if(ma == -2) return;
                b = a.clone(), mb = ma;
            } else return;
            break;
        case 6: r[0] = Rc<T, TA>{K::make(next)}, mr[0] = next++; break;
        case 7: r[1] = r[0].dup(), mr[1] = mr[0]; break;
        case 8: r[2] = rpp::move(r[1]), mr[2] = mr[1], mr[1] = -2; break;
        case 9: r[0] = Rc<T, TA>{}, mr[0] = -2; break;
        case 10: // a new value behind every handle of it
            if(mr[0] == -2) return;
            *r[0] = K::make(next);
            for(int i = 2; i >= 0; i--)
                if(mr[i] == mr[0]) mr[i] = next;
            next++;
            break;
        case 11: q[0] = Arc<T, TA>{K::make(next)}, mq[0] = next++; break;
        case 12: q[1] = q[0].dup(), mq[1] = mq[0]; break;
        }
        if(a.ok() != (ma >= 0) || (ma >= 0 && !K::is(*a, ma)) || b.ok() != (mb >= 0) || (mb >= 0 && !K::is(*b, mb))) mc::fail("boxes after operation %u", op);
        for(int i = 0; i < 3; i++) {
            if(r[i].ok() != (mr[i] >= 0) || (mr[i] >= 0 && !K::is(*r[i], mr[i]))) mc::fail("handle %d after operation %u", i, op);
            u64 n = 0;
            for(int j = 0; j < 3; j++) n += mr[i] >= 0 && mr[j] == mr[i];
            if(r[i].references() != n) mc::fail("%llu references after operation %u", (unsigned long long)r[i].references(), op);
        }
        for(int i = 0; i < 2; i++)
            if(q[i].ok() != (mq[i] >= 0) || (mq[i] >= 0 && !K::is(*q[i], mq[i])) || q[i].references() != (u64)(mq[i] >= 0) + (u64)(mq[i] >= 0 && mq[0] == mq[1])) mc::fail("shared handle %d after operation %u", i, op);
        c.op("op %u", op);
        i32 st[] = {ma, mb, mr[0], mr[1], mr[2], mq[0], mq[1]};
        c.state(mc::hash_bytes(st, sizeof st));
    }
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "O01";
    m.bounds = "every history of 5 (thorough 6) of 12 operations on two boxes, three counted and two shared handles of 17 of the library's own types";
    m.assumptions = {};
    m.add("nested", [](mc::Ctx& c) {
        begin_exec();
        any_kind(c, [&]<typename K>() { body<K>(c); });
        end_exec("nested");
    }, 3);
    return m.run(argc, argv);
}
