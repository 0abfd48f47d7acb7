// Mutex, Lock and Cond under every interleaving.
#include "ilv.h"
#include <rpp/base.h>
#include <rpp/thread.h>
using namespace rpp;
using sched::Opts;

static Opts full() {
    Opts o;
    o.preempt = -1;
    return o;
}
static Opts bounded(int p, int dev = 0) {
    Opts o;
    o.preempt = p;
    o.deviations = dev;
    return o;
}

// N threads increment R times under the lock: the counter is a plain variable, so an overlap of two
// critical sections is a data race as well as a lost update.
static void counter(int threads, int rounds) {
    Thread::Mutex m;
    u64 n = 0;
    {
        Vec<Thread::Thread<>> ts;
        for(int t = 0; t < threads; t++)
            ts.push(Thread::Thread([&m, &n, rounds, t] {
                for(int i = 0; i < rounds; i++) {
                    if(t & 1) {
                        m.lock();
                        u64 v = n;
                        n = v + 1;
                        m.unlock();
                    } else {
                        Thread::Lock l(m);
                        n++;
                    }
                }
            }));
    }
    MC_CHECK(n == u64(threads * rounds), "%llu of %d increments survived", (unsigned long long)n, threads * rounds);
    MC_CHECK(m.try_lock(), "free mutex refuses try_lock");
    m.unlock();
}

// reg 0: 1 exactly while some thread holds the mutex
static void trylock(int threads) {
    Thread::Mutex m;
    u64 n = 0, got = 0;
    {
        Thread::Thread a([&] {
            for(int i = 0; i < 2; i++) {
                m.lock();
                sched::set(0, 1);
                n++;
                m.unlock();
                sched::set(0, 0);
            }
        });
        Vec<Thread::Thread<>> ts;
        for(int k = 1; k < threads; k++)
            ts.push(Thread::Thread([&] {
                for(int i = 0; i < 2; i++) {
                    bool ok = m.try_lock();
                    MC_CHECK(ok == (sched::get(0) == 0), "try_lock answered %d while the mutex was %s", ok, sched::get(0) ? "held" : "free");
                    if(ok) {
                        sched::set(0, 1);
                        n++;
                        got++;
                        m.unlock();
                        sched::set(0, 0);
                    }
                }
            }));
    }
    MC_CHECK(n == 2 + got, "%llu", (unsigned long long)n);
}

// Lock objects: moved-from locks release nothing, a replaced lock releases what it held
static void lock_moves() {
    Thread::Mutex m1, m2;
    u64 n1 = 0, n2 = 0;
    Thread::Thread t([&] {
        {
            Thread::Lock l(m1);
            n1++;
        }
        {
            Thread::Lock l(m2);
            n2++;
        }
    });
    {
        Thread::Lock a(m1);
        n1++;
        Thread::Lock b(rpp::move(a));
        n1++;
        {
            Thread::Lock c(m2);
            n2++;
            b = rpp::move(c);
        }
        n2++;
    }
    t.join();
    MC_CHECK(n1 == 3 && n2 == 3, "n1=%llu n2=%llu", (unsigned long long)n1, (unsigned long long)n2);
}
// the assignment keeps holding the new mutex: another thread cannot get in
static void lock_assign_holds() {
    Thread::Mutex m1, m2;
    u64 n1 = 0, n2 = 0;
    Thread::Thread t([&] {
        Thread::Lock l(m2);
        n2++;
    });
    Thread::Thread u([&] {
        Thread::Lock l(m1);
        n1++;
    });
    {
        Thread::Lock b(m1);
        n1++;
        b = Thread::Lock(m2);
        n2++;
    }
    t.join();
    u.join();
    MC_CHECK(n1 == 2 && n2 == 2, "n1=%llu n2=%llu", (unsigned long long)n1, (unsigned long long)n2);
}

// bounded buffer
static void buffer(int producers, int consumers, int items, u64 cap) {
    struct Buf {
        Thread::Mutex m;
        Thread::Cond not_empty, not_full;
        Queue<i32> q;
    } b;
    u64 sum = 0, count = 0;
    int per = items / consumers;
    {
        Vec<Thread::Thread<>> ts;
        for(int p = 0; p < producers; p++)
            ts.push(Thread::Thread([&b, p, items, producers, cap] {
                for(int i = 0; i < items / producers; i++) {
                    Thread::Lock l(b.m);
                    while(b.q.length() >= cap) b.not_full.wait(b.m);
                    b.q.push(p * 10 + i + 1);
                    b.not_empty.signal();
                }
            }));
        for(int c = 0; c < consumers; c++)
            ts.push(Thread::Thread([&b, &sum, &count, per] {
                for(int i = 0; i < per; i++) {
                    Thread::Lock l(b.m);
                    while(b.q.empty()) b.not_empty.wait(b.m);
                    sum += b.q.front();
                    count++;
                    b.q.pop();
                    b.not_full.signal();
                }
            }));
    }
    u64 want = 0;
    for(int p = 0; p < producers; p++)
        for(int i = 0; i < items / producers; i++) want += p * 10 + i + 1;
    MC_CHECK(sum == want && count == u64(items), "sum=%llu", (unsigned long long)sum);
}

// one broadcast releases every waiter; the signaller may hold the mutex or not
static void broadcast(int waiters, bool holding) {
    Thread::Mutex m;
    Thread::Cond c;
    bool go = false;
    u64 passed = 0;
    {
        Vec<Thread::Thread<>> ts;
        for(int i = 0; i < waiters; i++)
            ts.push(Thread::Thread([&] {
                Thread::Lock l(m);
                while(!go) c.wait(m);
                passed++;
            }));
        m.lock();
        go = true;
        if(holding) c.broadcast();
        m.unlock();
        if(!holding) c.broadcast();
    }
    MC_CHECK(passed == u64(waiters), "%llu", (unsigned long long)passed);
}
// one signal releases one waiter, and a waiter holds the mutex when it wakes
static void signal_each(int waiters) {
    Thread::Mutex m;
    Thread::Cond c;
    int tokens = 0;
    u64 passed = 0;
    {
        Vec<Thread::Thread<>> ts;
        for(int i = 0; i < waiters; i++)
            ts.push(Thread::Thread([&] {
                Thread::Lock l(m);
                while(tokens == 0) c.wait(m);
                tokens--;
                passed++;
            }));
        for(int i = 0; i < waiters; i++) {
            {
                Thread::Lock l(m);
                tokens++;
            }
            c.signal();
        }
    }
    MC_CHECK(passed == u64(waiters) && tokens == 0, "%llu", (unsigned long long)passed);
}
// ping-pong through one condition variable
static void pingpong() {
    Thread::Mutex m;
    Thread::Cond c;
    int turn = 0;
    u64 log = 0;
    {
        Thread::Thread a([&] {
            for(int i = 0; i < 2; i++) {
                Thread::Lock l(m);
                while(turn != 0) c.wait(m);
                log = log * 4 + 1;
                turn = 1;
                c.broadcast();
            }
        });
        Thread::Thread b([&] {
            for(int i = 0; i < 2; i++) {
                Thread::Lock l(m);
                while(turn != 1) c.wait(m);
                log = log * 4 + 2;
                turn = 0;
                c.broadcast();
            }
        });
    }
    MC_CHECK(log == ((1 * 4 + 2) * 4 + 1) * 4 + 2, "order %llx", (unsigned long long)log);
}
// Atomic: every read-modify-write is atomic and returns the value of its own step
static void atomics() {
    Thread::Atomic x{10}, y{0}, claim{0};
    u64 won = 0;
    {
        Vec<Thread::Thread<>> ts;
        for(int i = 0; i < 2; i++)
            ts.push(Thread::Thread([&, i] {
                i64 a = x.incr();
                MC_CHECK(a == 11 || a == 12, "incr returned %lld", (long long)a);
                i64 seen = 1ll << (a - 11);
                MC_CHECK(!(sched::add(1, seen) & ~3), "two incr returned %lld", (long long)a);
                i64 b = y.decr();
                MC_CHECK(b == -1 || b == -2, "decr returned %lld", (long long)b);
                MC_CHECK(!(sched::add(2, b == -1 ? 1 : 2) & ~3), "two decr returned %lld", (long long)b);
                if(claim.compare_and_swap(0, i + 1) == 0) won++; // at most one gets here: plain variable
                MC_CHECK(claim.load() != 0, "nobody won");
            }));
    }
    MC_CHECK(x.load() == 12 && y.load() == -2 && won == 1, "x=%lld y=%lld won=%llu", (long long)x.load(), (long long)y.load(), (unsigned long long)won);
    MC_CHECK(sched::get(1) == 3 && sched::get(2) == 3, "return values");
    i64 c = claim.load();
    MC_CHECK(claim.compare_and_swap(9, 77) == c && claim.load() == c, "failed CAS changed the value");
    MC_CHECK(claim.compare_and_swap(c, 77) == c && claim.load() == 77, "CAS");
    MC_CHECK(claim.exchange(5) == 77 && claim.load() == 5, "exchange");
}
// hand-over through exchange: whoever takes the token may write the plain variable
static void exchange_token(int threads) {
    Thread::Atomic token{1};
    u64 n = 0, taken = 0;
    {
        Vec<Thread::Thread<>> ts;
        for(int i = 0; i < threads; i++)
            ts.push(Thread::Thread([&] {
                for(int k = 0; k < 2; k++)
                    if(token.exchange(0) == 1) {
                        n++;
                        taken++;
                        i64 prev = token.exchange(1);
                        MC_CHECK(prev == 0, "token duplicated: %lld", (long long)prev);
                    }
            }));
    }
    MC_CHECK(n == taken && n >= 1 && token.load() == 1, "n=%llu", (unsigned long long)n);
}

// ---- more threads, under a bound on the departures from round robin
static Opts delayed(int d, int dev = 0) {
    Opts o;
    o.delays = d;
    o.deviations = dev;
    return o;
}
// several mutexes: each protects its own counter, and holding one never keeps anybody out of another
static void stripes(int threads, int locks, int rounds) {
    struct Stripe {
        Thread::Mutex m;
        u64 n = 0;
    };
    Stripe st[8];
    {
        Vec<Thread::Thread<>> ts;
        for(int t = 0; t < threads; t++)
            ts.push(Thread::Thread([&st, t, locks, rounds] {
                for(int i = 0; i < rounds; i++) {
                    Stripe& a = st[(t + i) % locks];
                    Stripe& b = st[(t + i + 1) % locks];
                    if(i & 1) {
                        Thread::Lock l(a.m);
                        a.n++;
                        if(b.m.try_lock()) {
                            b.n++;
                            b.m.unlock();
                            a.n += 1000;
                        }
                    } else if(&a < &b) {
                        Thread::Lock la(a.m), lb(b.m);
                        a.n++, b.n++;
                    } else {
                        Thread::Lock lb(b.m), la(a.m);
                        a.n++, b.n++;
                    }
                }
            }));
    }
    u64 sum = 0;
    for(int i = 0; i < locks; i++) {
        MC_CHECK(st[i].m.try_lock(), "a free mutex refuses try_lock");
        sum += st[i].n % 1000 + st[i].n / 1000;
        st[i].m.unlock();
    }
    u64 per = 0;
    for(int i = 0; i < rounds; i++) per += i & 1 ? 1 : 2;
    u64 extra = 0;
    for(int i = 0; i < locks; i++) extra += st[i].n / 1000;
    MC_CHECK(sum == per * (u64)threads + 2 * extra, "%llu increments, expected %llu and %llu", (unsigned long long)sum, (unsigned long long)(per * (u64)threads), (unsigned long long)(2 * extra));
}
// nothing but the mutex in question blocks: a thread that holds one mutex waits on the condition of another
static void two_conds(int pairs) {
    struct Station {
        Thread::Mutex m;
        Thread::Cond c;
        int turn = 0;
    };
    Station st[4];
    u64 n = 0;
    {
        Vec<Thread::Thread<>> ts;
        for(int i = 0; i < pairs; i++) // passes a token along the ring of stations
            ts.push(Thread::Thread([&st, &n, i, pairs] {
                for(int round = 1; round <= 2; round++) {
                    {
                        Thread::Lock l(st[i].m);
                        while(st[i].turn < round) st[i].c.wait(st[i].m);
                        n++; // only the holder of the token gets here
                    }
                    Station& next = st[(i + 1) % pairs];
                    Thread::Lock l(next.m);
                    next.turn++;
                    next.c.signal();
                }
            }));
        Thread::Lock l(st[0].m);
        st[0].turn++;
        st[0].c.signal();
    }
    MC_CHECK(n == 2u * (u64)pairs, "%llu", (unsigned long long)n);
}
// one condition variable used with different mutexes, one after the other
static void cond_reused() {
    Thread::Mutex m[3];
    Thread::Cond c;
    int at = 0;
    u64 n = 0;
    for(int i = 0; i < 3; i++) {
        Thread::Thread t([&, i] {
            Thread::Lock l(m[i]);
            while(at <= i) c.wait(m[i]);
            n++;
        });
        {
            Thread::Lock l(m[i]);
            at = i + 1;
            if(i & 1) c.signal();
            else c.broadcast();
        }
        t.join();
    }
    MC_CHECK(n == 3, "%llu", (unsigned long long)n);
}
// a thread that runs for ever elsewhere does not matter; locks in arrays, vectors and returned from functions
static Thread::Lock take(Thread::Mutex& m) {
    return Thread::Lock(m);
}
static void lock_passing(int threads) {
    Thread::Mutex m;
    u64 n = 0;
    {
        Vec<Thread::Thread<>> ts;
        for(int t = 0; t < threads; t++)
            ts.push(Thread::Thread([&, t] {
                for(int i = 0; i < 2; i++) {
                    Thread::Lock l = take(m);
                    u64 v = n;
                    if((t + i) & 1) {
                        Thread::Lock k(rpp::move(l));
                        n = v + 1;
                    } else {
                        Vec<Thread::Lock> ls;
                        ls.push(rpp::move(l));
                        n = v + 1;
                    }
                }
            }));
    }
    MC_CHECK(n == 2 * (u64)threads, "%llu", (unsigned long long)n);
    MC_CHECK(m.try_lock(), "a free mutex refuses try_lock");
    m.unlock();
}
// ---- every small program of two threads ----
// Atomics: what the operations returned and left is what some order of all of them gives.
struct AtomStep {
    int op, var; // 0 incr, 1 decr, 2 exchange(5), 3 cas(0,7), 4 cas(5,1), 5 load
    i64 ret = 0;
};
static i64 model(int op, i64& v) {
    i64 old = v;
    switch(op) {
    case 0: return ++v;
    case 1: return --v;
    case 2: v = 5; return old;
    case 3: if(v == 0) v = 7; return old;
    case 4: if(v == 5) v = 1; return old;
    default: return old;
    }
}
static bool explained(const AtomStep* a, int na, const AtomStep* b, int nb, i64 x, i64 y, i64 fx, i64 fy) {
    if(!na && !nb) return x == fx && y == fy;
    for(int w = 0; w < 2; w++) {
        if(!(w ? nb : na)) continue;
        const AtomStep& s = w ? *b : *a;
        i64 v[2] = {x, y};
        if(model(s.op, v[s.var]) == s.ret && explained(w ? a : a + 1, w ? na : na - 1, w ? b + 1 : b, w ? nb - 1 : nb, v[0], v[1], fx, fy)) return true;
    }
    return false;
}
static void atom_programs(mc::Ctx& c, int na, int nb, u32 vars) {
    AtomStep s[2][4];
    int n[2] = {na, nb};
    for(int t = 0; t < 2; t++)
        for(int i = 0; i < n[t]; i++) s[t][i].op = (int)c.choose(6, "operation"), s[t][i].var = vars > 1 ? (int)c.choose(vars, "variable") : 0;
    sched::run(c, full(), [&] {
        Thread::Atomic v[2];
        auto perform = [&](int t) {
            for(int i = 0; i < n[t]; i++) {
                Thread::Atomic& a = v[s[t][i].var];
                i64& r = s[t][i].ret;
                switch(s[t][i].op) {
                case 0: r = a.incr(); break;
                case 1: r = a.decr(); break;
                case 2: r = a.exchange(5); break;
                case 3: r = a.compare_and_swap(0, 7); break;
                case 4: r = a.compare_and_swap(5, 1); break;
                default: r = a.load(); break;
                }
            }
        };
        {
            Thread::Thread other([&] { perform(1); });
            perform(0);
        }
        MC_CHECK(explained(s[0], na, s[1], nb, 0, 0, v[0].load(), v[1].load()), "no order of the operations gives what they returned (left %lld, %lld)", (long long)v[0].load(), (long long)v[1].load());
    });
}
// Mutexes: plain variables written only under their mutex; any access not ordered by it is a race.
enum Under { kM0, kM1, kNested, kTry0, kTry1, kMoved, kEarly, kOuter, kBare, kUnders };
static void lock_programs(mc::Ctx& c, int na, int nb) {
    Under s[2][4];
    int n[2] = {na, nb};
    u64 want[2] = {};
    for(int t = 0; t < 2; t++)
        for(int i = 0; i < n[t]; i++) {
            s[t][i] = (Under)c.choose(kUnders, "section");
            if(s[t][i] != kM1 && s[t][i] != kTry0 && s[t][i] != kTry1) want[0]++;
            if(s[t][i] == kM1 || s[t][i] == kNested || s[t][i] == kOuter) want[1]++;
        }
    sched::run(c, full(), [&] {
        Thread::Mutex m0, m1;
        u64 x0 = 0, x1 = 0;
        auto perform = [&](int t) {
            for(int i = 0; i < n[t]; i++) switch(s[t][i]) {
                case kM0: { Thread::Lock l(m0); x0++; } break;
                case kM1: { Thread::Lock l(m1); x1++; } break;
                case kNested: {
                    Thread::Lock l(m0);
                    Thread::Lock k(m1);
                    x1++;
                    x0++;
                } break;
                case kTry0:
                    if(m0.try_lock()) {
                        x0++;
                        sched::add(20, 1);
                        m0.unlock();
                    }
                    break;
                case kTry1:
                    if(m1.try_lock()) {
                        x1++;
                        sched::add(21, 1);
                        m1.unlock();
                    }
                    break;
                case kMoved: {
                    Thread::Lock l(m0);
                    Thread::Lock k(rpp::move(l));
                    x0++;
                } break;
                case kEarly: { // another lock while the first goes
                    Thread::Lock l(m0);
                    x0++;
                    { Thread::Lock gone(rpp::move(l)); }
                } break;
                case kOuter: {
                    Thread::Lock k(m1);
                    x1++;
                    if(m0.try_lock()) {
                        x0++;
                        m0.unlock();
                    } else sched::add(20, -1);
                } break;
                default:
                    m0.lock();
                    x0++;
                    m0.unlock();
                    break;
                }
        };
        {
            Thread::Thread other([&] { perform(1); });
            perform(0);
        }
        MC_CHECK((i64)x0 == (i64)want[0] + sched::get(20) && (i64)x1 == (i64)want[1] + sched::get(21), "%llu and %llu of %llu and %llu sections", (unsigned long long)x0, (unsigned long long)x1, (unsigned long long)want[0], (unsigned long long)want[1]);
        MC_CHECK(m0.try_lock() && m1.try_lock(), "a mutex is left locked");
        m0.unlock();
        m1.unlock();
    });
}
// every kind of operation on values around every boundary
static void values(mc::Ctx& c) {
    static const i64 vs[] = {0, 1, -1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7ffffffell, 0x7fffffffll, 0x80000000ll, 0xfffffffell, 0xffffffffll, 0x100000000ll, -0x7fffffffll, -0x80000000ll, -0x80000001ll, -0xffffffffll, -0x100000000ll, 1ll << 62, 0x7ffffffffffffffell, 0x7fffffffffffffffll, -0x7fffffffffffffffll, (i64)0x8000000000000000ull};
    i64 x = vs[c.choose(28, "value")];
    i64 y = vs[c.choose(28, "other value")];
    Thread::Atomic a{x};
    MC_CHECK(a.load() == x, "load");
    MC_CHECK(a.load<i64>() == x && a.load<u64>() == (u64)x && a.load<i32>() == (i32)x && a.load<u32>() == (u32)x && a.load<u16>() == (u16)x && a.load<i8>() == (i8)x && a.load<u8>() == (u8)x,
             "load as a narrower integer of %lld", (long long)x);
    if(x != vs[25]) {
        i64 r = a.incr();
        MC_CHECK(r == x + 1 && a.load() == x + 1, "incr of %lld", (long long)x);
        r = a.decr();
        MC_CHECK(r == x && a.load() == x, "decr to %lld", (long long)x);
    }
    if(x != vs[27]) {
        i64 r = a.decr();
        MC_CHECK(r == x - 1 && a.load() == x - 1, "decr of %lld", (long long)x);
        r = a.incr();
        MC_CHECK(r == x && a.load() == x, "incr to %lld", (long long)x);
    }
    i64 r = a.exchange(y);
    MC_CHECK(r == x && a.load() == y, "exchange of %lld for %lld", (long long)x, (long long)y);
    r = a.compare_and_swap(x, 3);
    i64 now = x == y ? 3 : y;
    MC_CHECK(r == y && a.load() == now, "compare_and_swap(%lld) on %lld", (long long)x, (long long)y);
    r = a.compare_and_swap(now, x);
    MC_CHECK(r == now && a.load() == x, "compare_and_swap to %lld", (long long)x);
    c.op("%lld %lld", (long long)x, (long long)y);
    c.state(mc::mix((u64)x, (u64)y));
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "T01";
    m.bounds = "2-4 threads, 1-3 rounds each; every interleaving (sleep-set reduction) where named full, preemption "
               "bound 3 (thorough 4) elsewhere, with up to one spurious wake-up; every choice of signalled waiter; "
               "up to 10 threads with up to 3 (thorough 5) departures from round robin; every atomic operation on 28 x 28 boundary values; every program of two threads with 2-3 atomic operations each or 2 (3) critical sections of 9 kinds, every interleaving";
    m.assumptions = {"pthread mutexes and condition variables behave as POSIX says (they are modelled by the explorer)",
                     "interleavings are sequentially consistent; missing ordering shows up as a data race",
                     "only the Linux/pthread implementation is explored"};
    m.add("counter-2x3-full", [](mc::Ctx& c) { sched::run(c, full(), [] { counter(2, 3); }); }, 6);
    m.add("counter-3x2-full", [](mc::Ctx& c) { sched::run(c, full(), [] { counter(3, 2); }); }, 6);
    m.add("counter-4x1-full", [](mc::Ctx& c) { sched::run(c, full(), [] { counter(4, 1); }); }, 6);
    m.add("counter-3x4-full", [](mc::Ctx& c) { sched::run(c, full(), [] { counter(3, 4); }); }, 6, true);
    m.add("trylock-2-full", [](mc::Ctx& c) { sched::run(c, full(), [] { trylock(2); }); }, 6);
    m.add("trylock-3", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(4, 5)), [] { trylock(3); }); }, 8);
    m.add("lock-moves-full", [](mc::Ctx& c) { sched::run(c, full(), [] { lock_moves(); }); }, 4);
    m.add("lock-assign-full", [](mc::Ctx& c) { sched::run(c, full(), [] { lock_assign_holds(); }); }, 4);
    m.add("buffer-1-1", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(4, 6), 1), [] { buffer(1, 1, 3, 1); }); }, 8);
    m.add("buffer-2-1", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(3, 4), 1), [] { buffer(2, 1, 2, 1); }); }, 8);
    m.add("buffer-1-2", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(3, 4), 1), [] { buffer(1, 2, 2, 1); }); }, 8);
    m.add("buffer-1-1-full", [](mc::Ctx& c) { sched::run(c, full(), [] { buffer(1, 1, 3, 1); }); }, 8);
    m.add("broadcast-2", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(3, 4), 1), [] { broadcast(2, true); }); }, 8);
    m.add("broadcast-2-free", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(3, 4), 1), [] { broadcast(2, false); }); }, 8);
    m.add("broadcast-3-full", [](mc::Ctx& c) { sched::run(c, full(), [] { broadcast(3, false); }); }, 8);
    m.add("signal-2-full", [](mc::Ctx& c) { sched::run(c, full(), [] { signal_each(2); }); }, 8);
    m.add("signal-3", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(3, 4), 1), [] { signal_each(3); }); }, 8);
    m.add("pingpong-full", [](mc::Ctx& c) { sched::run(c, full(), [] { pingpong(); }); }, 8);
    m.add("atomics-full", [](mc::Ctx& c) { sched::run(c, full(), [] { atomics(); }); }, 8);
    m.add("exchange-full", [](mc::Ctx& c) { sched::run(c, full(), [] { exchange_token(2); }); }, 8);
    m.add("exchange-3", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(3, 4)), [] { exchange_token(3); }); }, 8);
    m.add("atom-programs-2", [](mc::Ctx& c) { atom_programs(c, c.tier(2, 3), 3, 2); }, 3);
    m.add("atom-programs-1", [](mc::Ctx& c) { atom_programs(c, 3, c.tier(3, 4), 1); }, 3);
    m.add("lock-programs", [](mc::Ctx& c) { lock_programs(c, 3, c.tier(2, 3)); }, 3);
    m.add("values", [](mc::Ctx& c) {
        auto* cp = &c;
        sched::run(c, bounded(0), [cp] { values(*cp); });
    }, 2);
    m.add("stripes-2-full", [](mc::Ctx& c) { sched::run(c, full(), [] { stripes(2, 2, 2); }); }, 6);
    m.add("stripes-3", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(3, 4)), [] { stripes(3, 3, 2); }); }, 8);
    m.add("ring-3", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(2, 4), 1), [] { two_conds(3); }); }, 8);
    m.add("cond-reused", [](mc::Ctx& c) { sched::run(c, bounded(c.tier(5, 8), 1), [] { cond_reused(); }); }, 8);
    m.add("lock-passing-2-full", [](mc::Ctx& c) { sched::run(c, full(), [] { lock_passing(2); }); }, 8);
    // many threads
    m.add("counter-10", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 3)), [] { counter(10, 3); }); }, 6);
    m.add("stripes-8", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 3)), [] { stripes(8, 8, 3); }); }, 6);
    m.add("stripes-8-2", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 3)), [] { stripes(8, 2, 2); }); }, 6);
    m.add("trylock-6", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(3, 4)), [] { trylock(6); }); }, 6);
    m.add("buffer-3-3", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 3), 1), [] { buffer(3, 3, 6, 2); }); }, 6);
    m.add("buffer-5-5", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 3)), [] { buffer(5, 5, 10, 3); }); }, 6);
    m.add("broadcast-10", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 4), 1), [] { broadcast(10, true); }); }, 6);
    m.add("broadcast-10-free", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 4), 1), [] { broadcast(10, false); }); }, 6);
    m.add("signal-10", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 4), 1), [] { signal_each(10); }); }, 6);
    m.add("exchange-8", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 4)), [] { exchange_token(8); }); }, 6);
    m.add("ring-4", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(3, 5), 1), [] { two_conds(4); }); }, 6);
    m.add("lock-passing-8", [](mc::Ctx& c) { sched::run(c, delayed(c.tier(2, 4)), [] { lock_passing(8); }); }, 6);
    return m.run(argc, argv);
}
