#include <map>
#include "ilv.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <poll.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define REAL(r, f, args) extern "C" r __real_##f args
REAL(void*, malloc, (size_t));
REAL(void, free, (void*));
REAL(void*, calloc, (size_t, size_t));
REAL(void*, realloc, (void*, size_t));
REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*));
REAL(int, __cxa_thread_atexit, (void (*)(void*), void*, void*));
REAL(int, pthread_join, (pthread_t, void**));
REAL(int, pthread_detach, (pthread_t));
REAL(pthread_t, pthread_self, (void));
REAL(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*));
REAL(int, pthread_mutex_destroy, (pthread_mutex_t*));
REAL(int, pthread_mutex_lock, (pthread_mutex_t*));
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*));
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*));
REAL(int, pthread_cond_init, (pthread_cond_t*, const pthread_condattr_t*));
REAL(int, pthread_cond_destroy, (pthread_cond_t*));
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*));
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const timespec*));
REAL(int, pthread_cond_signal, (pthread_cond_t*));
REAL(int, pthread_cond_broadcast, (pthread_cond_t*));
REAL(int, pthread_setaffinity_np, (pthread_t, size_t, const cpu_set_t*));
REAL(int, pthread_setschedprio, (pthread_t, int));
REAL(int, sched_yield, (void));
REAL(int, usleep, (useconds_t));
REAL(unsigned, sleep, (unsigned));
REAL(int, clock_nanosleep, (clockid_t, int, const timespec*, timespec*));
REAL(int, nanosleep, (const timespec*, timespec*));
REAL(int, clock_gettime, (clockid_t, timespec*));
REAL(time_t, time, (time_t*));
REAL(long, sysconf, (int));
REAL(int, eventfd, (unsigned, int));
REAL(int, poll, (pollfd*, nfds_t, int));
REAL(int, epoll_create1, (int));
REAL(int, epoll_ctl, (int, int, int, epoll_event*));
REAL(int, epoll_wait, (int, epoll_event*, int, int));
REAL(int, timerfd_create, (int, int));
REAL(int, timerfd_settime, (int, int, const itimerspec*, itimerspec*));
REAL(ssize_t, read, (int, void*, size_t));
REAL(ssize_t, write, (int, const void*, size_t));
REAL(int, close, (int));
extern "C" long __real_syscall(long, ...);

#define ENG __attribute__((section("mcengine")))
extern "C" char __start_mcengine[], __stop_mcengine[];

namespace sched {

constexpr int MAXT = 12;
constexpr int VFD0 = 1000000;
constexpr int MAXFD = 160;

enum Kind : uint8_t {
    K_START, K_ATOMIC_R, K_ATOMIC_W, K_LOCK, K_TRYLOCK, K_UNLOCK, K_CWAIT, K_CWAKE, K_CSIGNAL,
    K_CBROAD, K_FUTEX_WAIT, K_FUTEX_SLEEP, K_FUTEX_WAKE, K_JOIN, K_FINISH, K_YIELD, K_FD, K_EPOLL,
    K_PLAIN_R, K_PLAIN_W, K_MDESTROY, K_CDESTROY, K_TIMEDWAKE
};
ENG static const char* kind_name[] = {"start", "atomic-read", "atomic-write", "lock", "try_lock", "unlock", "cond-wait",
    "cond-wakeup", "cond-signal", "cond-broadcast", "futex-wait", "futex-sleep", "futex-wake", "join", "finish",
    "yield", "fd-op", "epoll-wait", "read", "write", "mutex-destroy", "cond-destroy", "timed-wakeup"};

struct VC {
    uint32_t c[MAXT];
    void join(const VC& o) {
        for(int i = 0; i < MAXT; i++)
            if(o.c[i] > c[i]) c[i] = o.c[i];
    }
};

struct Op {
    Kind kind;
    const void* a; // object
    const void* b; // second object or null
    bool write;
    uintptr_t pc;
};

struct Thr {
    int idx;
    uint64_t vid; // what pthread_self answers
    std::atomic<uint32_t> word;
    bool used, finished, detached, joined;
    Op op;
    // blocking state
    bool woken;      // cond/futex: signalled
    bool waiting;    // in a cond/futex queue
    uint64_t wait_seq;
    const void* wait_on;
    bool spurious;   // resumed by deviation
    bool timed_wait, timed_out;
    int epfd;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    pthread_t real;
    VC vc;
    uint32_t nops;
    bool yielded;
    bool have_os;
    int ndtor;
    struct {
        void (*f)(void*);
        void* o;
    } dtor[64];
};

struct Obj { // sync object
    const void* addr;
    uint32_t gen;
    int owner; // mutex
    VC vc;
    int ord;
};

struct Rec {
    uint32_t clk;
    uint8_t tid, mask, flags; // 1 write, 2 atomic
    uintptr_t pc;
};
struct Cell {
    uintptr_t key;
    uint32_t gen;
    uint8_t n, next;
    Rec r[6];
};

struct Alloc {
    uintptr_t p;
    size_t n;
    bool freed;
    bool relax;
    int ftid;
    uintptr_t apc, fpc;
};

struct Vfd {
    uint8_t type; // 0 free 1 eventfd 2 epoll 3 timerfd
    bool nonblock, armed, fired;
    uint64_t count, deadline;
    int nreg;
    struct {
        int fd;
        uint32_t ev;
        epoll_data_t data;
    } reg[72];
};

constexpr size_t ARENA = 32u << 20;
constexpr size_t NWORD = ARENA / 8;
constexpr size_t NOBJ = 4096;
constexpr size_t NHASH = 1u << 16;

struct State {
    mc::Ctx* c;
    Opts o;
    Thr t[MAXT];
    int nt, cur;
    int preempts, devs, steps, delays;
    bool free_run, active, redundant;
    std::atomic<uint32_t> done;
    const std::function<void()>* body;
    Obj obj[NOBJ];
    int nobj;
    uint32_t gen;
    char* arena;
    size_t bump, maxbump;
    uint32_t* owner; // word -> alloc id + 1
    Cell* acell;
    Cell* hcell;
    Alloc* al;
    uint32_t nal;
    long live, expect_leak, live_fd;
    Vfd fd[MAXFD];
    uint64_t seq, clockv;
    int64_t reg[1024];
    uint64_t hb;
    Op sleep[MAXT];
    bool asleep[MAXT];
    struct { uintptr_t p; size_t n; } watch[16];
    int nwatch;
    bool relax;
    pthread_t root;
    char* snap;
    uintptr_t lo, hi;
    uintptr_t base;
};
ENG static State* S;
static thread_local Thr* t_me __attribute__((tls_model("initial-exec")));
static thread_local bool t_in __attribute__((tls_model("initial-exec")));

struct In { // library code called by the engine may have been compiled with instrumentation
    bool was = t_in;
    In() { t_in = true; }
    ~In() { t_in = was; }
};
static void fwait(std::atomic<uint32_t>& w) {
    while(w.load(std::memory_order_acquire) == 0) __real_syscall(SYS_futex, &w, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    w.store(0, std::memory_order_relaxed);
}
static void fwake(std::atomic<uint32_t>& w) {
    w.store(1, std::memory_order_release);
    __real_syscall(SYS_futex, &w, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

extern "C" int __real_clock_gettime(clockid_t, struct timespec*);
static std::string sym(uintptr_t pc) {
    char b[512];
    bool was_in = t_in;
    if(S && S->c && S->c->verbose && pc) {
        // starting the symbolizer can take a second on a busy machine: remember answers, and give up after a while
        static std::map<uintptr_t, std::string>* known;
        static double spent;
        t_in = true;
        if(!known) known = new std::map<uintptr_t, std::string>();
        auto it = known->find(pc);
        if(it != known->end()) {
            std::string r = it->second;
            t_in = was_in;
            return r;
        }
        t_in = was_in;
        if(spent > 15) {
            snprintf(b, sizeof b, "pc+0x%lx", (unsigned long)(pc - S->base));
            return b;
        }
        struct timespec a0, a1;
        char cmd[256];
        snprintf(cmd, sizeof cmd, "llvm-symbolizer-18 -e /proc/%d/exe --functions=short --inlining=false -s 0x%lx 2>/dev/null", getpid(),
                 (unsigned long)(pc - S->base - 1));
        t_in = true;
        __real_clock_gettime(CLOCK_MONOTONIC, &a0);
        FILE* f = popen(cmd, "r");
        std::string out;
        if(f) {
            while(fgets(b, sizeof b, f)) {
                if(strlen(b) < 2) continue;
                b[strlen(b) - 1] = 0;
                if(!out.empty()) out += " ";
                out += b;
            }
            pclose(f);
        }
        __real_clock_gettime(CLOCK_MONOTONIC, &a1);
        spent += (double)(a1.tv_sec - a0.tv_sec) + 1e-9 * (double)(a1.tv_nsec - a0.tv_nsec);
        (*known)[pc] = out;
        t_in = was_in;
        return out;
    }
    snprintf(b, sizeof b, "pc+0x%lx", (unsigned long)(pc - (S ? S->base : 0)));
    return b;
}

static Obj& obj(const void* a) {
    uint64_t h = ((uint64_t)a * 0x9e3779b97f4a7c15ull) >> 52;
    for(size_t i = 0; i < NOBJ; i++, h = (h + 1) & (NOBJ - 1)) {
        Obj& o = S->obj[h];
        if(o.gen != S->gen) {
            o.gen = S->gen;
            o.addr = a;
            o.owner = -1;
            o.ord = S->nobj++;
            memset(&o.vc, 0, sizeof o.vc);
            return o;
        }
        if(o.addr == a) return o;
    }
    mc::fail("harness error: too many synchronisation objects");
}

static std::string describe(const Op& op) {
    char b[128];
    snprintf(b, sizeof b, "%s obj%d", kind_name[op.kind], op.a ? obj(op.a).ord : -1);
    std::string s = b;
    if(op.pc) s += " at " + sym(op.pc);
    return s;
}

static bool fd_ready(int vfd) {
    Vfd& f = S->fd[vfd - VFD0];
    if(f.type == 1) return f.count > 0;
    if(f.type == 3) return f.armed;
    return false;
}

static void fire(int vfd) { // virtual time passes when a timer is seen to have expired
    Vfd& f = S->fd[vfd - VFD0];
    if(f.type != 3 || f.fired) return;
    f.fired = true;
    if(S->clockv < f.deadline) S->clockv = f.deadline;
}

static bool enabled(Thr& t) {
    if(!t.used || t.finished) return false;
    switch(t.op.kind) {
    case K_LOCK: return obj(t.op.a).owner == -1;
    case K_CWAKE: return t.woken && obj(t.op.b).owner == -1;
    case K_FUTEX_SLEEP: return t.woken;
    case K_JOIN: return ((Thr*)t.op.a)->finished;
    case K_EPOLL: {
        Vfd& e = S->fd[t.epfd - VFD0];
        for(int i = 0; i < e.nreg; i++)
            if(e.reg[i].fd >= VFD0 && S->fd[e.reg[i].fd - VFD0].type && (e.reg[i].ev & EPOLLIN) && fd_ready(e.reg[i].fd)) return true;
        return t.timed_wait;
    }
    default: return true;
    }
}
static bool can_deviate(Thr& t) {
    if(!t.used || t.finished || t.woken) return false;
    if(t.op.kind == K_CWAKE) return obj(t.op.b).owner == -1;
    return t.op.kind == K_FUTEX_SLEEP || t.op.kind == K_EPOLL;
}
static bool can_timeout(Thr& t) { // a timed wait may time out whenever
    return t.used && !t.finished && !t.woken && t.timed_wait && t.op.kind == K_CWAKE && obj(t.op.b).owner == -1;
}

static bool dependent(const Op& x, const Op& y) {
    auto same = [&](const void* p) { return p && (p == y.a || p == y.b); };
    if(!(same(x.a) || same(x.b))) return false;
    return x.write || y.write;
}

[[noreturn]] static void deadlock() {
    std::string m = "deadlock: no thread can proceed;";
    for(int i = 0; i < S->nt; i++)
        if(!S->t[i].finished) m += " T" + std::to_string(i) + " waits at " + describe(S->t[i].op) + ";";
    mc::fail("%s", m.c_str());
}

// A choice among n whose default is the first; with a delay bound only so many others are taken.
static int pickn(int n, const char* what) {
    if(n < 2 || S->free_run || (S->o.delays >= 0 && S->delays >= S->o.delays)) return 0;
    int k = (int)S->c->choose((uint32_t)n, what);
    if(k) S->delays++;
    return k;
}
// choose who performs its pending operation next
static Thr* pick(Thr* me) {
    int opt[MAXT * 2], dev[MAXT * 2], n = 0;
    bool me_en = me && !me->finished && enabled(*me);
    bool full = S->o.preempt < 0;
    bool must_yield = me && me->op.kind == K_YIELD && me->yielded == false;
    int others = 0;
    for(int i = 0; i < S->nt; i++)
        if(&S->t[i] != me && enabled(S->t[i])) others++;
    if(S->free_run) {
        if(me_en && !(must_yield && others)) return me;
        for(int i = 0; i < S->nt; i++) {
            int k = me ? (me->idx + 1 + i) % S->nt : i;
            if(&S->t[k] != me && enabled(S->t[k])) return &S->t[k];
        }
        if(me_en) return me;
        for(int i = 0; i < S->nt; i++) if(can_timeout(S->t[i])) { S->t[i].timed_out = true; return &S->t[i]; }
        bool all = true;
        for(int i = 0; i < S->nt; i++) all &= S->t[i].finished;
        if(all) return nullptr;
        deadlock();
    }
    auto allow = [&](int i) { return !(full && S->asleep[i]); };
    if(me_en && !(must_yield && others) && allow(me->idx)) opt[n] = me->idx, dev[n] = 0, n++;
    bool can_switch = !me_en || must_yield || full || S->preempts < S->o.preempt;
    if(can_switch)
        for(int j = 0; j < S->nt; j++) {
            int i = S->o.delays >= 0 && me ? (me->idx + 1 + j) % S->nt : j;
            if(&S->t[i] != me && enabled(S->t[i]) && allow(i)) opt[n] = i, dev[n] = 0, n++;
        }
    for(int i = 0; i < S->nt; i++)
        if(can_timeout(S->t[i]) && (can_switch || &S->t[i] == me)) opt[n] = i, dev[n] = 2, n++;
    if(S->devs < S->o.deviations)
        for(int i = 0; i < S->nt; i++)
            if(can_deviate(S->t[i]) && (can_switch || &S->t[i] == me)) opt[n] = i, dev[n] = 1, n++;
    if(n == 0) {
        bool any = others > 0 || me_en;
        if(any) { // everything enabled is asleep: an equivalent execution was explored already
            S->free_run = true;
            S->redundant = true;
            return pick(me);
        }
        bool all = true;
        for(int i = 0; i < S->nt; i++) all &= S->t[i].finished;
        if(all) return nullptr;
        deadlock();
    }
    int k = pickn(n, "thread");
    Thr* t = &S->t[opt[k]];
    if(full) {
        for(int j = 0; j < k; j++)
            if(!dev[j]) S->asleep[opt[j]] = true, S->sleep[opt[j]] = S->t[opt[j]].op;
        for(int i = 0; i < S->nt; i++)
            if(S->asleep[i] && (i == t->idx || dependent(S->sleep[i], t->op) || dev[k])) S->asleep[i] = false;
    }
    if(dev[k] == 1) {
        S->devs++;
        t->spurious = true;
    } else if(dev[k] == 2) t->timed_out = true;
    if(me_en && t != me && !must_yield) S->preempts++;
    return t;
}

static void acquire(Thr* t, const void* a) {
    t->vc.join(obj(a).vc);
}
static void release(Thr* t, const void* a) {
    obj(a).vc.join(t->vc);
    t->vc.c[t->idx]++;
}

static void step_done(Thr* t) {
    uint64_t h = mc::mix(t->idx + 1, t->nops++);
    h = mc::mix(h, t->op.kind);
    for(int i = 0; i < MAXT; i++) h = mc::mix(h, t->vc.c[i]);
    S->hb += h;
}

// Announce an operation and wait to be chosen. On return the caller performs it.
static void point(Thr* me, Kind k, const void* a, bool write, uintptr_t pc, const void* b = nullptr) {
    In in;
    me->op = Op{k, a, b, write, pc};
    if(++S->steps > S->o.max_steps) mc::fail("livelock: more than %d visible operations in one execution", S->o.max_steps);
    Thr* n = pick(me);
    if(n != me) {
        S->cur = n->idx;
        fwake(n->word);
        fwait(me->word);
    }
    if(S->c->verbose || S->c->sampling)
        S->c->op("T%d %s%s%s", me->idx, describe(me->op).c_str(), me->spurious ? " (spurious/EINTR)" : "", S->free_run ? " (repetition)" : "");
    else S->c->op("%s", "");
    step_done(me);
}

// --- plain accesses -----------------------------------------------------------------------------
static bool in_arena(uintptr_t p) {
    return p - (uintptr_t)S->arena < ARENA;
}
static Cell& cell(uintptr_t word) {
    if(in_arena(word << 3)) {
        Cell& c = S->acell[(word << 3) - (uintptr_t)S->arena >> 3];
        if(c.gen != S->gen) c.gen = S->gen, c.n = c.next = 0, c.key = word;
        return c;
    }
    uint64_t h = (word * 0x9e3779b97f4a7c15ull) >> 48;
    for(size_t i = 0; i < NHASH; i++, h = (h + 1) & (NHASH - 1)) {
        Cell& c = S->hcell[h];
        if(c.gen != S->gen) {
            c.gen = S->gen, c.n = c.next = 0, c.key = word;
            return c;
        }
        if(c.key == word) return c;
    }
    mc::fail("harness error: shadow table full");
}

static bool relaxed_block(uintptr_t p) {
    if(!in_arena(p)) return false;
    uint32_t id = S->owner[(p - (uintptr_t)S->arena) >> 3];
    return id && S->al[id - 1].relax;
}
static void check_word(Thr* me, uintptr_t word, uint8_t mask, uint8_t flags, uintptr_t pc) {
    Cell& c = cell(word);
    Rec* slot = nullptr;
    for(int i = 0; i < c.n; i++) {
        Rec& r = c.r[i];
        if(r.tid == me->idx) {
            if(r.mask == mask && r.flags == flags) slot = &r;
            continue;
        }
        if(!(r.mask & mask)) continue;
        if(!((r.flags | flags) & 1)) continue;
        if((r.flags & 2) && (flags & 2)) continue;
        if(r.clk <= me->vc.c[r.tid]) continue;
        if(!(r.flags & flags & 1) && relaxed_block(word << 3)) continue;
        if(S->o.races && !S->redundant)
            mc::fail("data race on %p: T%d %s%s at %s; T%d %s%s at %s", (void*)(word << 3), r.tid, r.flags & 2 ? "atomic " : "",
                     r.flags & 1 ? "write" : "read", sym(r.pc).c_str(), me->idx, flags & 2 ? "atomic " : "", flags & 1 ? "write" : "read", sym(pc).c_str());
    }
    if(!slot) {
        if(c.n < 6) slot = &c.r[c.n++];
        else slot = &c.r[c.next], c.next = (c.next + 1) % 6;
    }
    *slot = Rec{me->vc.c[me->idx], (uint8_t)me->idx, mask, flags, pc};
}

static void range(Thr* me, uintptr_t p, size_t n, uint8_t flags, uintptr_t pc) {
    if(!n) return;
    if(n > 4096) n = 4096;
    uintptr_t e = p + n;
    while(p < e) {
        uintptr_t w = p >> 3;
        unsigned off = p & 7, len = 8 - off;
        if(len > e - p) len = (unsigned)(e - p);
        uint8_t mask = (uint8_t)(((1u << len) - 1) << off);
        check_word(me, w, mask, flags, pc);
        p += len;
    }
}

static void heap_check(Thr* me, uintptr_t p, size_t n, bool write, uintptr_t pc) {
    if(!in_arena(p)) return;
    size_t w = (p - (uintptr_t)S->arena) >> 3;
    uint32_t id = S->owner[w];
    if(id == 0) mc::fail("%s outside any allocated block (%p) by T%d at %s", write ? "write" : "read", (void*)p, me->idx, sym(pc).c_str());
    Alloc& a = S->al[id - 1];
    if(a.freed)
        mc::fail("%s of freed memory (%p, block of %zu bytes freed by T%d at %s) by T%d at %s", write ? "write" : "read", (void*)p, a.n, a.ftid,
                 sym(a.fpc).c_str(), me->idx, sym(pc).c_str());
    if(p + n > a.p + a.n)
        mc::fail("%s of %zu bytes past the end of a block of %zu bytes by T%d at %s", write ? "write" : "read", n, a.n, me->idx, sym(pc).c_str());
}

static bool g_off() {
    return !S || !S->active || t_in || !t_me;
}

static void plain(uintptr_t p, size_t n, bool write, uintptr_t pc) {
    if(g_off()) return;
    Thr* me = t_me;
    In in;
    heap_check(me, p, n, write, pc);
    if(S->o.race_points)
        for(int i = 0; i < S->nwatch; i++)
            if(p < S->watch[i].p + S->watch[i].n && S->watch[i].p < p + n) {
                point(me, write ? K_PLAIN_W : K_PLAIN_R, (void*)S->watch[i].p, write, pc);
                heap_check(me, p, n, write, pc);
                return;
            }
    range(me, p, n, write ? 1 : 0, pc);
}

// --- allocation ---------------------------------------------------------------------------------
static void* arena_alloc(size_t n, uintptr_t pc) {
    size_t al = (S->bump + 15) & ~(size_t)15;
    size_t words = (n + 7) / 8;
    if(words == 0) words = 1;
    if(al + words * 8 + 32 > ARENA) mc::fail("harness error: arena exhausted");
    void* p = S->arena + al;
    uint32_t id = ++S->nal;
    S->al[id - 1] = Alloc{(uintptr_t)p, n, false, S->relax, -1, pc, 0};
    for(size_t i = 0; i < words; i++) S->owner[al / 8 + i] = id;
    S->bump = al + words * 8 + 16; // a red zone of two words
    S->live++;
    memset(p, 0xA5, n);
    return p;
}
static void arena_free(void* p, uintptr_t pc) {
    Thr* me = t_me;
    size_t w = ((uintptr_t)p - (uintptr_t)S->arena) >> 3;
    uint32_t id = S->owner[w];
    if(!id || S->al[id - 1].p != (uintptr_t)p) mc::fail("free of a pointer that is not the start of a block by T%d at %s", me ? me->idx : -1, sym(pc).c_str());
    Alloc& a = S->al[id - 1];
    if(a.freed) mc::fail("double free by T%d at %s (first freed by T%d at %s)", me->idx, sym(pc).c_str(), a.ftid, sym(a.fpc).c_str());
    if(me) range(me, a.p, a.n, 1, pc);
    a.freed = true;
    a.ftid = me ? me->idx : -1;
    a.fpc = pc;
    S->live--;
    memset(p, 0xDD, a.n);
}

// --- thread bodies ------------------------------------------------------------------------------
// Threads of the explored program run on cached OS threads (creating real ones at the rate executions
// go by exhausts the kernel). Thread-local storage is re-initialised before each use and thread-local
// destructors run, scheduled like everything else, when the function returns.
struct Tls {
    char* base;
    const char* image;
    size_t filesz, memsz;
};
static int tls_cb(dl_phdr_info* i, size_t, void* p) {
    Tls* t = (Tls*)p;
    t->base = (char*)i->dlpi_tls_data;
    for(int k = 0; k < i->dlpi_phnum; k++)
        if(i->dlpi_phdr[k].p_type == PT_TLS) {
            t->image = (const char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            t->filesz = i->dlpi_phdr[k].p_filesz;
            t->memsz = i->dlpi_phdr[k].p_memsz;
        }
    return 1; // the executable comes first
}
static void* os_thread(void* p) {
    Thr* me = (Thr*)p; // the slot never changes for this OS thread
    Tls tls = {};
    dl_iterate_phdr(tls_cb, &tls);
    while(true) {
        t_in = true;
        fwait(me->word);
        memcpy(tls.base, tls.image, tls.filesz);
        memset(tls.base + tls.filesz, 0, tls.memsz - tls.filesz);
        t_in = true;
        if(S->c->verbose || S->c->sampling) S->c->op("T%d start", me->idx);
        acquire(me, me);
        t_me = me;
        t_in = false;
        me->ret = me->fn(me->arg);
        while(me->ndtor) {
            auto d = me->dtor[--me->ndtor];
            d.f(d.o);
        }
        t_in = true;
        point(me, K_FINISH, me, true, 0);
        release(me, me);
        me->finished = true;
        Thr* n = pick(me);
        t_me = nullptr;
        if(n) {
            S->cur = n->idx;
            fwake(n->word);
        } else {
            S->done.store(1);
            __real_syscall(SYS_futex, &S->done, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
        }
    }
}

static Thr* new_thread(void* (*fn)(void*), void* arg) {
    if(S->nt == MAXT) mc::fail("harness error: too many threads");
    Thr* t = &S->t[S->nt];
    t->idx = S->nt++;
    t->used = true;
    t->finished = t->detached = t->joined = t->woken = t->waiting = t->spurious = t->yielded = t->timed_wait = t->timed_out = false;
    t->word.store(0);
    t->fn = fn;
    t->arg = arg;
    t->nops = 0;
    t->ndtor = 0;
    memset(&t->vc, 0, sizeof t->vc);
    t->vc.c[t->idx] = 1;
    t->op = Op{K_START, t, nullptr, true, 0};
    uint64_t v = 0x7f0000001000ull;
    for(;; v += 0x1000) {
        bool taken = false;
        for(int i = 0; i < t->idx; i++) {
            Thr& o = S->t[i];
            if(o.vid == v && !(o.finished && (o.detached || o.joined))) taken = true;
        }
        if(!taken) break;
    }
    t->vid = v;
    return t;
}
static void launch(Thr* t) {
    if(t->have_os) return;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 512 * 1024);
    bool was = t_in;
    t_in = true;
    int r = __real_pthread_create(&t->real, &at, os_thread, t);
    t_in = was;
    pthread_attr_destroy(&at);
    if(r) mc::fail("harness error: pthread_create: %d", r);
    t->have_os = true;
}
static Thr* by_vid(pthread_t v) {
    for(int i = S->nt - 1; i >= 0; i--)
        if(S->t[i].vid == (uint64_t)v) return &S->t[i];
    return nullptr;
}

static void* body_main(void*) {
    (*S->body)();
    return nullptr;
}

static void init() {
    S = (State*)mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    new(S) State();
    auto map = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
    S->arena = (char*)mmap((void*)0x600000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(S->arena == MAP_FAILED) mc::fail("harness error: arena");
    S->owner = (uint32_t*)map(NWORD * 4);
    S->acell = (Cell*)map(NWORD * sizeof(Cell));
    S->hcell = (Cell*)map(NHASH * sizeof(Cell));
    S->al = (Alloc*)map(sizeof(Alloc) * (1 << 20));
    // writable data of the executable, excluding the engine's
    extern char __data_start[] __asm__("__data_start"), _end[] __asm__("_end");
    S->lo = (uintptr_t)__data_start;
    S->hi = (uintptr_t)_end;
    S->snap = (char*)map(S->hi - S->lo + 4096);
    memcpy(S->snap, (void*)S->lo, S->hi - S->lo);
    Dl_info di;
    extern const char eh[] __asm__("__ehdr_start");
    S->base = (uintptr_t)eh;
    cpu_set_t cs, all;
    CPU_ZERO(&all);
    if(sched_getaffinity(0, sizeof all, &all) == 0) {
        int want = (int)(mc::g_slot_index % CPU_COUNT(&all)), k = 0;
        for(int i = 0; i < CPU_SETSIZE; i++)
            if(CPU_ISSET(i, &all) && k++ == want) {
                CPU_ZERO(&cs);
                CPU_SET(i, &cs);
                sched_setaffinity(0, sizeof cs, &cs);
                break;
            }
    }
}
static void restore() {
    uintptr_t a = (uintptr_t)__start_mcengine, b = (uintptr_t)__stop_mcengine;
    if(a < S->lo || a > S->hi) { a = b = S->hi; }
    memcpy((void*)S->lo, S->snap, a - S->lo);
    memcpy((void*)b, S->snap + (b - S->lo), S->hi - b);
}

void run(mc::Ctx& c, const Opts& o, const std::function<void()>& body) {
    if(!S) init();
    else restore();
    S->c = &c;
    S->o = o;
    S->body = &body;
    S->nt = 0;
    S->preempts = S->devs = S->steps = S->delays = 0;
    S->free_run = S->redundant = false;
    S->done.store(0);
    S->nobj = 0;
    S->gen++;
    memset(S->owner, 0, (S->bump + 64) / 8 * 4);
    S->bump = 0;
    S->nal = 0;
    S->live = S->expect_leak = S->live_fd = 0;
    memset(S->fd, 0, sizeof S->fd);
    S->seq = 0;
    S->clockv = 1000000000000ull;
    memset(S->reg, 0, sizeof S->reg);
    S->hb = 0;
    memset(S->asleep, 0, sizeof S->asleep);
    S->nwatch = 0;
    S->relax = false;
    Thr* t0 = new_thread(body_main, nullptr);
    S->active = true;
    launch(t0);
    fwake(t0->word);
    while(S->done.load() == 0) __real_syscall(SYS_futex, &S->done, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    S->active = false;
    if(!S->redundant) {
        c.state(S->hb);
        if(o.leaks && S->live > S->expect_leak) {
            std::string m;
            int k = 0;
            for(uint32_t i = 0; i < S->nal && k < 4; i++)
                if(!S->al[i].freed) {
                    m += " [" + std::to_string(S->al[i].n) + " bytes allocated at " + sym(S->al[i].apc) + "]";
                    k++;
                }
            mc::fail("%ld memory blocks still allocated at the end:%s", S->live, m.c_str());
        }
        if(o.leaks && S->live_fd > 0) mc::fail("%ld descriptors still open at the end", S->live_fd);
    }
}

static int64_t& reg(int r) {
    if(r < 0 || r >= 1024) mc::fail("harness error: register %d", r);
    return S->reg[r];
}
int64_t get(int r) { return reg(r); }
void set(int r, int64_t v) { reg(r) = v; }
int64_t add(int r, int64_t v) { return reg(r) += v; }
int64_t stamp() { return (int64_t)++S->seq; }
int self() { return t_me ? t_me->idx : -1; }
void watch(const volatile void* p, size_t n) {
    if(S->nwatch < 16) S->watch[S->nwatch].p = (uintptr_t)p, S->watch[S->nwatch].n = n, S->nwatch++;
}
uint64_t now_ns() { return S->clockv; }
void relax(bool on) { S->relax = on; }
void expect_leaks(int n) { S->expect_leak = n; }
long live_blocks() { return S->live; }
long live_fds() { return S->live_fd; }
bool redundant() { return S->redundant; }
bool freed(const void* p) {
    if(!in_arena((uintptr_t)p)) return false;
    uint32_t id = S->owner[((uintptr_t)p - (uintptr_t)S->arena) >> 3];
    return id && S->al[id - 1].freed;
}
long live_threads() {
    long n = 0;
    for(int i = 0; i < S->nt; i++) n += !S->t[i].finished;
    return n;
}
static void do_yield(uintptr_t pc) {
    Thr* me = t_me;
    me->yielded = false;
    point(me, K_YIELD, nullptr, false, pc);
}
void yield() {
    if(!g_off()) do_yield((uintptr_t)__builtin_return_address(0));
}

} // namespace sched

using namespace sched;
#define PC ((uintptr_t)__builtin_return_address(0))
#define WRAP(r, f, args) extern "C" r __wrap_##f args

// What the library allocates while the program starts is part of the static data restored before
// every execution, so it lives in a static buffer.
static char prearena[1 << 16] __attribute__((aligned(16)));
static size_t prebump;
static bool in_prearena(void* p) { return (char*)p >= prearena && (char*)p < prearena + sizeof prearena; }
static void* pre_alloc(size_t n) {
    size_t a = prebump;
    if(a + n + 16 > sizeof prearena) mc::fail("harness error: too much memory allocated at startup");
    prebump = (a + n + 31) & ~(size_t)15;
    *(size_t*)(prearena + a) = n;
    return prearena + a + 16;
}

// a critical section of the engine: guards against recursion through libc
WRAP(void*, malloc, (size_t n)) {
    if(!S) return pre_alloc(n);
    if(g_off()) return __real_malloc(n);
    return arena_alloc(n, PC);
}
WRAP(void, free, (void* p)) {
    if(!p) return;
    if(S && in_arena((uintptr_t)p)) {
        if(S->active) arena_free(p, PC);
        return;
    }
    if(in_prearena(p)) return;
    __real_free(p);
}
WRAP(void*, calloc, (size_t a, size_t b)) {
    if(!S) return pre_alloc(a * b);
    if(g_off()) return __real_calloc(a, b);
    void* p = arena_alloc(a * b, PC);
    memset(p, 0, a * b);
    return p;
}
WRAP(void*, realloc, (void* p, size_t n)) {
    if(!S || in_prearena(p)) {
        size_t m = p ? ((size_t*)p)[-2] : 0;
        void* q = S ? arena_alloc(n, PC) : pre_alloc(n);
        memcpy(q, p, m < n ? m : n);
        return q;
    }
    if(g_off() || (p && !in_arena((uintptr_t)p))) return __real_realloc(p, n);
    void* q = arena_alloc(n, PC);
    if(p) {
        size_t w = ((uintptr_t)p - (uintptr_t)S->arena) >> 3;
        uint32_t id = S->owner[w];
        size_t m = id ? S->al[id - 1].n : 0;
        memcpy(q, p, m < n ? m : n);
        arena_free(p, PC);
    }
    return q;
}
WRAP(void*, aligned_alloc, (size_t, size_t n)) {
    if(!S) return pre_alloc(n);
    if(g_off()) return __real_malloc(n);
    return arena_alloc(n, PC);
}

WRAP(int, pthread_create, (pthread_t * out, const pthread_attr_t* at, void* (*fn)(void*), void* arg)) {
    if(g_off()) return __real_pthread_create(out, at, fn, arg);
    Thr* me = t_me;
    Thr* t = new_thread(fn, arg);
    release(me, t);
    launch(t);
    range(me, (uintptr_t)out, sizeof *out, 1, PC);
    *out = (pthread_t)t->vid;
    return 0;
}
WRAP(int, __cxa_thread_atexit, (void (*f)(void*), void* o, void* dso)) {
    if(g_off()) return __real___cxa_thread_atexit(f, o, dso);
    Thr* me = t_me;
    if(me->ndtor == 64) mc::fail("harness error: too many thread-local destructors");
    me->dtor[me->ndtor].f = f;
    me->dtor[me->ndtor++].o = o;
    return 0;
}
WRAP(int, pthread_join, (pthread_t v, void** ret)) {
    if(g_off()) return __real_pthread_join(v, ret);
    Thr* t = by_vid(v);
    if(!t) return ESRCH;
    if(t->detached || t->joined) return EINVAL;
    if(t == t_me) return EDEADLK;
    point(t_me, K_JOIN, t, true, PC);
    acquire(t_me, t);
    t->joined = true;
    if(ret) *ret = t->ret;
    return 0;
}
WRAP(int, pthread_detach, (pthread_t v)) {
    if(g_off()) return __real_pthread_detach(v);
    Thr* t = by_vid(v);
    if(!t) return ESRCH;
    if(t->detached || t->joined) return EINVAL;
    t->detached = true;
    return 0;
}
WRAP(pthread_t, pthread_self, (void)) {
    if(g_off()) return __real_pthread_self();
    return (pthread_t)t_me->vid;
}
WRAP(int, pthread_setaffinity_np, (pthread_t t, size_t n, const cpu_set_t* s)) {
    if(g_off()) return __real_pthread_setaffinity_np(t, n, s);
    for(int i = S->o.ncpu; i < CPU_SETSIZE && i < (int)n * 8; i++)
        if(CPU_ISSET(i, s)) return EINVAL;
    if(CPU_COUNT(s) == 0) return EINVAL;
    return 0;
}
WRAP(int, pthread_setschedprio, (pthread_t t, int p)) {
    if(g_off()) return __real_pthread_setschedprio(t, p);
    return 0;
}

WRAP(int, pthread_mutex_init, (pthread_mutex_t * m, const pthread_mutexattr_t* a)) {
    if(g_off()) return __real_pthread_mutex_init(m, a);
    range(t_me, (uintptr_t)m, sizeof *m, 1, PC);
    heap_check(t_me, (uintptr_t)m, sizeof *m, true, PC);
    obj(m).owner = -1;
    return 0;
}
WRAP(int, pthread_mutex_destroy, (pthread_mutex_t * m)) {
    if(g_off()) return __real_pthread_mutex_destroy(m);
    point(t_me, K_MDESTROY, m, true, PC);
    heap_check(t_me, (uintptr_t)m, sizeof *m, true, PC);
    if(obj(m).owner != -1) return EBUSY;
    range(t_me, (uintptr_t)m, sizeof *m, 1, PC);
    return 0;
}
static void mutex_use(Thr* me, void* m, uintptr_t pc) { // an access to the mutex, racing with its destruction only
    heap_check(me, (uintptr_t)m, sizeof(pthread_mutex_t), true, pc);
    range(me, (uintptr_t)m, 8, 2, pc);
}
WRAP(int, pthread_mutex_lock, (pthread_mutex_t * m)) {
    if(g_off()) return __real_pthread_mutex_lock(m);
    heap_check(t_me, (uintptr_t)m, sizeof *m, true, PC);
    if(obj(m).owner == t_me->idx && !S->redundant) mc::fail("deadlock: T%d locks a mutex it already holds at %s", t_me->idx, sym(PC).c_str());
    point(t_me, K_LOCK, m, true, PC);
    mutex_use(t_me, m, PC);
    obj(m).owner = t_me->idx;
    acquire(t_me, m);
    return 0;
}
WRAP(int, pthread_mutex_trylock, (pthread_mutex_t * m)) {
    if(g_off()) return __real_pthread_mutex_trylock(m);
    point(t_me, K_TRYLOCK, m, true, PC);
    mutex_use(t_me, m, PC);
    Obj& o = obj(m);
    if(o.owner != -1) return EBUSY;
    o.owner = t_me->idx;
    acquire(t_me, m);
    return 0;
}
WRAP(int, pthread_mutex_unlock, (pthread_mutex_t * m)) {
    if(g_off()) return __real_pthread_mutex_unlock(m);
    point(t_me, K_UNLOCK, m, true, PC);
    mutex_use(t_me, m, PC);
    Obj& o = obj(m);
    if(o.owner != t_me->idx) mc::fail("T%d unlocks a mutex held by %s at %s", t_me->idx, o.owner < 0 ? "nobody" : "another thread", sym(PC).c_str());
    release(t_me, m);
    o.owner = -1;
    return 0;
}
WRAP(int, pthread_cond_init, (pthread_cond_t * c, const pthread_condattr_t* a)) {
    if(g_off()) return __real_pthread_cond_init(c, a);
    range(t_me, (uintptr_t)c, sizeof *c, 1, PC);
    return 0;
}
WRAP(int, pthread_cond_destroy, (pthread_cond_t * c)) {
    if(g_off()) return __real_pthread_cond_destroy(c);
    point(t_me, K_CDESTROY, c, true, PC);
    heap_check(t_me, (uintptr_t)c, sizeof *c, true, PC);
    for(int i = 0; i < S->nt; i++)
        if(S->t[i].waiting && S->t[i].wait_on == c && !S->t[i].woken) mc::fail("condition variable destroyed while T%d waits on it", i);
    range(t_me, (uintptr_t)c, sizeof *c, 1, PC);
    return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uintptr_t pc) {
    Thr* me = t_me;
    point(me, K_CWAIT, c, true, pc, m);
    heap_check(me, (uintptr_t)c, sizeof *c, true, pc);
    range(me, (uintptr_t)c, 8, 2, pc);
    if(obj(m).owner != me->idx) mc::fail("condition wait by T%d without holding the mutex at %s", me->idx, sym(pc).c_str());
    release(me, m);
    obj(m).owner = -1;
    me->waiting = true;
    me->woken = false;
    me->wait_on = c;
    me->wait_seq = ++S->seq;
    me->spurious = me->timed_out = false;
    me->timed_wait = timed;
    point(me, K_CWAKE, c, true, pc, m);
    me->waiting = false;
    me->timed_wait = false;
    obj(m).owner = me->idx;
    acquire(me, m);
    bool to = me->timed_out && !me->woken;
    me->spurious = me->timed_out = false;
    return to ? ETIMEDOUT : 0;
}
WRAP(int, pthread_cond_wait, (pthread_cond_t * c, pthread_mutex_t* m)) {
    if(g_off()) return __real_pthread_cond_wait(c, m);
    return cond_wait(c, m, false, PC);
}
WRAP(int, pthread_cond_timedwait, (pthread_cond_t * c, pthread_mutex_t* m, const timespec* ts)) {
    if(g_off()) return __real_pthread_cond_timedwait(c, m, ts);
    return cond_wait(c, m, true, PC);
}
WRAP(int, pthread_cond_signal, (pthread_cond_t * c)) {
    if(g_off()) return __real_pthread_cond_signal(c);
    point(t_me, K_CSIGNAL, c, true, PC);
    heap_check(t_me, (uintptr_t)c, sizeof *c, true, PC);
    range(t_me, (uintptr_t)c, 8, 2, PC);
    int w[MAXT], n = 0;
    for(int i = 0; i < S->nt; i++)
        if(S->t[i].waiting && S->t[i].wait_on == c && !S->t[i].woken) w[n++] = i;
    if(n) S->t[w[pickn(n, "waiter")]].woken = true;
    return 0;
}
WRAP(int, pthread_cond_broadcast, (pthread_cond_t * c)) {
    if(g_off()) return __real_pthread_cond_broadcast(c);
    point(t_me, K_CBROAD, c, true, PC);
    heap_check(t_me, (uintptr_t)c, sizeof *c, true, PC);
    range(t_me, (uintptr_t)c, 8, 2, PC);
    for(int i = 0; i < S->nt; i++)
        if(S->t[i].waiting && S->t[i].wait_on == c) S->t[i].woken = true;
    return 0;
}
WRAP(int, sched_yield, (void)) {
    if(g_off()) return __real_sched_yield();
    do_yield(PC);
    return 0;
}
// Virtual time advances by the whole delay, or, as a deviation, by half of it before a signal interrupts.
static int delay(uint64_t ns, timespec* rem, uintptr_t pc) {
    uint64_t left = 0;
    if(S->devs < S->o.deviations && ns > 1 && pickn(2, "sleep interrupted")) S->devs++, left = ns / 2;
    S->clockv += ns - left;
    do_yield(pc);
    if(!left) return 0;
    if(rem) rem->tv_sec = (time_t)(left / 1000000000ull), rem->tv_nsec = (long)(left % 1000000000ull);
    return EINTR;
}
static uint64_t ts_ns(const timespec* a) {
    return (uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec;
}
static bool ts_bad(const timespec* a) {
    return a->tv_sec < 0 || a->tv_nsec < 0 || a->tv_nsec > 999999999;
}
static int result(int e) {
    if(!e) return 0;
    errno = e;
    return -1;
}
WRAP(int, usleep, (useconds_t u)) {
    if(g_off()) return __real_usleep(u);
    return result(delay((uint64_t)u * 1000, nullptr, PC));
}
WRAP(unsigned, sleep, (unsigned s)) {
    if(g_off()) return __real_sleep(s);
    timespec rem = {};
    return delay((uint64_t)s * 1000000000ull, &rem, PC) ? (unsigned)rem.tv_sec + !!rem.tv_nsec : 0;
}
WRAP(int, nanosleep, (const timespec* a, timespec* b)) {
    if(g_off()) return __real_nanosleep(a, b);
    return result(ts_bad(a) ? EINVAL : delay(ts_ns(a), b, PC));
}
WRAP(int, clock_nanosleep, (clockid_t id, int flags, const timespec* a, timespec* b)) {
    if(g_off()) return __real_clock_nanosleep(id, flags, a, b);
    if(ts_bad(a)) return EINVAL;
    if(!(flags & TIMER_ABSTIME)) return delay(ts_ns(a), b, PC);
    uint64_t at = ts_ns(a);
    return delay(at > S->clockv ? at - S->clockv : 0, nullptr, PC);
}
WRAP(int, clock_gettime, (clockid_t id, timespec* ts)) {
    if(g_off()) return __real_clock_gettime(id, ts);
    S->clockv += 1000;
    ts->tv_sec = (time_t)(S->clockv / 1000000000ull);
    ts->tv_nsec = (long)(S->clockv % 1000000000ull);
    return 0;
}
WRAP(time_t, time, (time_t * t)) {
    if(g_off()) return __real_time(t);
    time_t v = (time_t)(S->clockv / 1000000000ull);
    if(t) *t = v;
    return v;
}
WRAP(long, sysconf, (int n)) {
    if(!g_off() && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return S->o.ncpu;
    return __real_sysconf(n);
}

extern "C" long __wrap_syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for(auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    if(g_off() || n != SYS_futex) return __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    uint32_t* u = (uint32_t*)a[0];
    int cmd = (int)a[1] & FUTEX_CMD_MASK;
    Thr* me = t_me;
    if(cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        point(me, K_FUTEX_WAIT, u, false, PC);
        heap_check(me, (uintptr_t)u, 4, false, PC);
        if(*u != (uint32_t)a[2]) {
            errno = EAGAIN;
            return -1;
        }
        me->waiting = true;
        me->woken = false;
        me->wait_on = u;
        me->spurious = false;
        point(me, K_FUTEX_SLEEP, u, true, PC);
        me->waiting = false;
        if(me->spurious) {
            me->spurious = false;
            errno = EINTR;
            return -1;
        }
        return 0;
    }
    if(cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        // Waking never touches the memory, only the address (the word may already be gone).
        point(me, K_FUTEX_WAKE, u, true, PC);
        int w[MAXT], k = 0;
        long want = (int)a[2], done = 0;
        for(int i = 0; i < S->nt; i++)
            if(S->t[i].waiting && S->t[i].wait_on == u && !S->t[i].woken) w[k++] = i;
        while(k && done < want) {
            int j = (want - done) < k ? pickn(k, "futex waiter") : 0;
            S->t[w[j]].woken = true;
            w[j] = w[--k];
            done++;
        }
        return done;
    }
    mc::fail("harness error: unmodelled futex operation %ld", a[1]);
}

// --- descriptors --------------------------------------------------------------------------------
static int new_fd(uint8_t type) {
    for(int i = 0; i < MAXFD; i++)
        if(!S->fd[i].type) {
            memset(&S->fd[i], 0, sizeof S->fd[i]);
            S->fd[i].type = type;
            S->live_fd++;
            return VFD0 + i;
        }
    mc::fail("harness error: too many descriptors");
}
static Vfd* vfd(int fd, uint8_t type) {
    if(fd < VFD0 || fd >= VFD0 + MAXFD) return nullptr;
    Vfd* f = &S->fd[fd - VFD0];
    return f->type == type || (type == 0 && f->type) ? f : nullptr;
}
static char fd_obj;
WRAP(int, eventfd, (unsigned v, int flags)) {
    if(g_off()) return __real_eventfd(v, flags);
    point(t_me, K_FD, &fd_obj, true, PC);
    int fd = new_fd(1);
    S->fd[fd - VFD0].count = v;
    S->fd[fd - VFD0].nonblock = flags & 04000;
    return fd;
}
WRAP(int, timerfd_create, (int c, int flags)) {
    if(g_off()) return __real_timerfd_create(c, flags);
    point(t_me, K_FD, &fd_obj, true, PC);
    return new_fd(3);
}
WRAP(int, timerfd_settime, (int fd, int fl, const itimerspec* s, itimerspec* o)) {
    if(g_off()) return __real_timerfd_settime(fd, fl, s, o);
    point(t_me, K_FD, &fd_obj, true, PC);
    Vfd* f = vfd(fd, 3);
    if(!f) {
        errno = EBADF;
        return -1;
    }
    if(s->it_value.tv_nsec < 0 || s->it_value.tv_nsec > 999999999) {
        errno = EINVAL;
        return -1;
    }
    f->armed = s->it_value.tv_sec || s->it_value.tv_nsec;
    f->fired = false;
    f->deadline = ((fl & TFD_TIMER_ABSTIME) ? 0 : S->clockv) + (uint64_t)s->it_value.tv_sec * 1000000000ull + (uint64_t)s->it_value.tv_nsec;
    return 0;
}
WRAP(int, epoll_create1, (int fl)) {
    if(g_off()) return __real_epoll_create1(fl);
    point(t_me, K_FD, &fd_obj, true, PC);
    return new_fd(2);
}
WRAP(int, epoll_ctl, (int ep, int op, int fd, epoll_event* e)) {
    if(g_off() || ep < VFD0) return __real_epoll_ctl(ep, op, fd, e);
    point(t_me, K_FD, &fd_obj, true, PC);
    Vfd* p = vfd(ep, 2);
    if(!p || !vfd(fd, 0)) {
        errno = EBADF;
        return -1;
    }
    int at = -1;
    for(int i = 0; i < p->nreg; i++)
        if(p->reg[i].fd == fd) at = i;
    if(op == EPOLL_CTL_ADD) {
        if(at >= 0) {
            errno = EEXIST;
            return -1;
        }
        if(p->nreg == 32) mc::fail("harness error: epoll set full");
        p->reg[p->nreg].fd = fd;
        p->reg[p->nreg].ev = e->events;
        p->reg[p->nreg++].data = e->data;
        return 0;
    }
    if(at < 0) {
        errno = ENOENT;
        return -1;
    }
    if(op == EPOLL_CTL_MOD) {
        p->reg[at].ev = e->events;
        p->reg[at].data = e->data;
    } else {
        p->reg[at] = p->reg[--p->nreg];
    }
    return 0;
}
WRAP(int, epoll_wait, (int ep, epoll_event* out, int max, int timeout)) {
    if(g_off() || ep < VFD0) return __real_epoll_wait(ep, out, max, timeout);
    Thr* me = t_me;
    me->epfd = ep;
    if(!vfd(ep, 2)) {
        errno = EBADF;
        return -1;
    }
    me->timed_wait = timeout >= 0;
    me->woken = false;
    me->spurious = false;
    point(me, K_EPOLL, &fd_obj, true, PC);
    bool timed = me->timed_wait;
    me->timed_wait = false;
    if(me->spurious) {
        me->spurious = false;
        errno = EINTR;
        return -1;
    }
    acquire(me, &fd_obj);
    Vfd* p = vfd(ep, 2);
    if(!p) mc::fail("epoll descriptor closed while T%d waits on it", me->idx);
    int r[72], n = 0;
    for(int i = 0; i < p->nreg; i++)
        if(vfd(p->reg[i].fd, 0) && (p->reg[i].ev & EPOLLIN) && fd_ready(p->reg[i].fd)) r[n++] = i;
    int k = 0;
    while(n && k < max) {
        int j = max < n + k ? pickn(n, "ready descriptor") : 0;
        out[k].events = EPOLLIN;
        fire(p->reg[r[j]].fd);
        out[k++].data = p->reg[r[j]].data;
        r[j] = r[--n];
    }
    (void)timed;
    return k;
}
WRAP(int, poll, (pollfd * p, nfds_t n, int timeout)) {
    if(g_off() || (n && p[0].fd < VFD0)) return __real_poll(p, n, timeout);
    if(timeout != 0) mc::fail("harness error: blocking poll");
    point(t_me, K_FD, &fd_obj, true, PC);
    int k = 0;
    for(nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        if(!vfd(p[i].fd, 0)) p[i].revents = POLLNVAL;
        else if((p[i].events & POLLIN) && fd_ready(p[i].fd)) {
            Vfd& f = S->fd[p[i].fd - VFD0];
            if(f.type == 3 && !f.fired && (S->free_run || (S->o.delays < 0 && !S->c->choose(2, "timer expired")))) continue;
            fire(p[i].fd);
            p[i].revents = POLLIN;
        }
        k += p[i].revents != 0;
    }
    if(k) acquire(t_me, &fd_obj);
    return k;
}
WRAP(ssize_t, read, (int fd, void* b, size_t n)) {
    if(g_off() || fd < VFD0) return __real_read(fd, b, n);
    point(t_me, K_FD, &fd_obj, true, PC);
    Vfd* f = vfd(fd, 1);
    if(!f) {
        f = vfd(fd, 3);
        if(f) {
            if(!f->armed) mc::fail("harness error: read of an idle timer");
            fire(fd);
            f->armed = false;
            *(uint64_t*)b = 1;
            return 8;
        }
        errno = EBADF;
        return -1;
    }
    if(n < 8) {
        errno = EINVAL;
        return -1;
    }
    if(!f->count) {
        if(!f->nonblock) mc::fail("harness error: blocking read of an eventfd");
        errno = EAGAIN;
        return -1;
    }
    acquire(t_me, f);
    *(uint64_t*)b = f->count;
    f->count = 0;
    return 8;
}
WRAP(ssize_t, write, (int fd, const void* b, size_t n)) {
    if(g_off() || fd < VFD0) return __real_write(fd, b, n);
    point(t_me, K_FD, &fd_obj, true, PC);
    Vfd* f = vfd(fd, 1);
    if(!f) {
        errno = EBADF;
        return -1;
    }
    if(n < 8) {
        errno = EINVAL;
        return -1;
    }
    release(t_me, &fd_obj);
    release(t_me, f);
    f->count += *(const uint64_t*)b;
    return 8;
}
WRAP(int, close, (int fd)) {
    if(g_off() || fd < VFD0) return __real_close(fd);
    point(t_me, K_FD, &fd_obj, true, PC);
    Vfd* f = vfd(fd, 0);
    if(!f) {
        errno = EBADF;
        return -1;
    }
    for(int i = 0; i < MAXFD; i++)
        if(S->fd[i].type == 2)
            for(int j = 0; j < S->fd[i].nreg; j++)
                if(S->fd[i].reg[j].fd == fd) {
                    S->fd[i].reg[j] = S->fd[i].reg[--S->fd[i].nreg];
                    j--;
                }
    f->type = 0;
    S->live_fd--;
    return 0;
}

// --- compiler instrumentation -------------------------------------------------------------------
#define T(r, name, args) extern "C" r name args
T(void, __tsan_init, ()) {}
T(void, __tsan_func_entry, (void*)) {}
T(void, __tsan_func_exit, ()) {}
T(void, __tsan_ignore_thread_begin, ()) {}
T(void, __tsan_ignore_thread_end, ()) {}
#define ACC(n)                                                                                     \
    T(void, __tsan_read##n, (void* p)) { plain((uintptr_t)p, n, false, PC); }                      \
    T(void, __tsan_write##n, (void* p)) { plain((uintptr_t)p, n, true, PC); }                      \
    T(void, __tsan_unaligned_read##n, (void* p)) { plain((uintptr_t)p, n, false, PC); }            \
    T(void, __tsan_unaligned_write##n, (void* p)) { plain((uintptr_t)p, n, true, PC); }            \
    T(void, __tsan_read_write##n, (void* p)) { plain((uintptr_t)p, n, true, PC); }                 \
    T(void, __tsan_unaligned_read_write##n, (void* p)) { plain((uintptr_t)p, n, true, PC); }       \
    T(void, __tsan_volatile_read##n, (void* p)) { plain((uintptr_t)p, n, false, PC); }             \
    T(void, __tsan_volatile_write##n, (void* p)) { plain((uintptr_t)p, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
T(void, __tsan_vptr_update, (void** p, void*)) { plain((uintptr_t)p, 8, true, PC); }
T(void, __tsan_vptr_read, (void** p)) { plain((uintptr_t)p, 8, false, PC); }
T(void, __tsan_read_range, (void* p, size_t n)) { plain((uintptr_t)p, n, false, PC); }
T(void, __tsan_write_range, (void* p, size_t n)) { plain((uintptr_t)p, n, true, PC); }
T(void*, __tsan_memcpy, (void* d, const void* s, size_t n)) {
    if(n) plain((uintptr_t)s, n, false, PC), plain((uintptr_t)d, n, true, PC);
    return memcpy(d, s, n);
}
T(void*, __tsan_memmove, (void* d, const void* s, size_t n)) {
    if(n) plain((uintptr_t)s, n, false, PC), plain((uintptr_t)d, n, true, PC);
    return memmove(d, s, n);
}
T(void*, __tsan_memset, (void* d, int v, size_t n)) {
    if(n) plain((uintptr_t)d, n, true, PC);
    return memset(d, v, n);
}

static void atomic_acc(uintptr_t p, size_t n, bool w, uintptr_t pc) {
    heap_check(t_me, p, n, w, pc);
    range(t_me, p, n, w ? 3 : 2, pc);
}
static void sync_in(void* a, int mo) {
    if(mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) acquire(t_me, a);
}
static void sync_out(void* a, int mo, bool rmw) {
    if(mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) {
        if(!rmw) { // a plain atomic store starts a new release sequence
            obj(a).vc = t_me->vc;
            t_me->vc.c[t_me->idx]++;
        } else release(t_me, a);
    } else if(!rmw) memset(&obj(a).vc, 0, sizeof(VC));
}
#define AT(bits, ty)                                                                               \
    T(ty, __tsan_atomic##bits##_load, (const volatile ty* a, int mo)) {                            \
        if(g_off()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                   \
        point(t_me, K_ATOMIC_R, (void*)a, false, PC);                                              \
        atomic_acc((uintptr_t)a, sizeof(ty), false, PC);                                           \
        sync_in((void*)a, mo);                                                                     \
        return *a;                                                                                 \
    }                                                                                              \
    T(void, __tsan_atomic##bits##_store, (volatile ty* a, ty v, int mo)) {                         \
        if(g_off()) return __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                               \
        point(t_me, K_ATOMIC_W, (void*)a, true, PC);                                               \
        atomic_acc((uintptr_t)a, sizeof(ty), true, PC);                                            \
        sync_out((void*)a, mo, false);                                                             \
        *a = v;                                                                                    \
    }                                                                                              \
    RMW(bits, ty, exchange, v)                                                                     \
    RMW(bits, ty, fetch_add, (ty)(old + v))                                                        \
    RMW(bits, ty, fetch_sub, (ty)(old - v))                                                        \
    RMW(bits, ty, fetch_and, (ty)(old & v))                                                        \
    RMW(bits, ty, fetch_or, (ty)(old | v))                                                         \
    RMW(bits, ty, fetch_xor, (ty)(old ^ v))                                                        \
    RMW(bits, ty, fetch_nand, (ty) ~(old & v))                                                     \
    static int cas##bits(volatile ty* a, ty* c, ty v, int mo, int fmo, uintptr_t pc, bool weak) {  \
        point(t_me, K_ATOMIC_W, (void*)a, true, pc);                                               \
        atomic_acc((uintptr_t)a, sizeof(ty), true, pc);                                            \
        if(*a == *c) {                                                                             \
            sync_in((void*)a, mo);                                                                 \
            sync_out((void*)a, mo, true);                                                          \
            *a = v;                                                                                \
            return 1;                                                                              \
        }                                                                                          \
        sync_in((void*)a, fmo);                                                                    \
        *c = *a;                                                                                   \
        return 0;                                                                                  \
    }                                                                                              \
    T(int, __tsan_atomic##bits##_compare_exchange_strong, (volatile ty* a, ty* c, ty v, int mo, int fmo)) { \
        if(g_off()) return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        return cas##bits(a, c, v, mo, fmo, PC, false);                                             \
    }                                                                                              \
    T(int, __tsan_atomic##bits##_compare_exchange_weak, (volatile ty* a, ty* c, ty v, int mo, int fmo)) { \
        if(g_off()) return __atomic_compare_exchange_n(a, c, v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        return cas##bits(a, c, v, mo, fmo, PC, true);                                              \
    }                                                                                              \
    T(ty, __tsan_atomic##bits##_compare_exchange_val, (volatile ty* a, ty c, ty v, int mo, int fmo)) { \
        if(g_off()) {                                                                              \
            __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);      \
            return c;                                                                              \
        }                                                                                          \
        cas##bits(a, &c, v, mo, fmo, PC, false);                                                   \
        return c;                                                                                  \
    }
#define RMW(bits, ty, name, expr)                                                                  \
    T(ty, __tsan_atomic##bits##_##name, (volatile ty* a, ty v, int mo)) {                          \
        bool off = g_off();                                                                        \
        if(!off) {                                                                                 \
            point(t_me, K_ATOMIC_W, (void*)a, true, PC);                                           \
            atomic_acc((uintptr_t)a, sizeof(ty), true, PC);                                        \
            sync_in((void*)a, mo);                                                                 \
            sync_out((void*)a, mo, true);                                                          \
        }                                                                                          \
        ty old = *a;                                                                               \
        *a = expr;                                                                                 \
        return old;                                                                                \
    }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
T(void, __tsan_atomic_thread_fence, (int mo)) {
    if(g_off()) return;
    static char f;
    point(t_me, K_ATOMIC_W, &f, true, PC);
    acquire(t_me, &f);
    release(t_me, &f);
}
T(void, __tsan_atomic_signal_fence, (int)) {}
