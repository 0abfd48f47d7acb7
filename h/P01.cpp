// P01: profiler timing trees, for every sequence of scopes and frames and from several threads.
#include "ilv.h"
#include <rpp/base.h>
#include <rpp/thread.h>
#include <map>
#include <vector>
using namespace rpp;
using sched::Opts;

// The clock advances by 1000 ns per reading, so a scope's time counts the readings inside it; the
// reference tree is fed with the same readings (sched::now_ns() right after each library call).
struct Node {
    int name, parent;
    u64 calls = 0, total = 0, begin = 0;
    std::vector<int> kids;
};
struct Tree {
    std::vector<Node> n;
    int cur = 0;
    u64 t0 = 0, t1 = 0;
};
static const char* kNames[] = {"Frame", "aa", "bb", "aa-2"};
static bool places; // scopes are told apart by their place in the source instead of their name
static Log::Location place_of(int i) {
    if(!places || i == 0) return Log::Location{String_View{kNames[i]}, ""_v, 0};
    if(i == 1) return Log::Location{"fn"_v, "a.cpp"_v, 7};
    if(i == 2) return Log::Location{"fn"_v, "b.cpp"_v, 7};
    return Log::Location{"fn"_v, "a.cpp"_v, 8};
}
static bool same(const Log::Location& a, const Log::Location& b) {
    return a.function == b.function && a.file == b.file && a.line == b.line;
}
#define QUIET __attribute__((no_sanitize("thread")))

static String_View (*named)(int);
static const char* call_it(int n) {
    return named ? (const char*)named(n).data() : kNames[n];
}
static Tree last_tree;
static void compare(const Tree& t) {
    u64 i = 0;
    Profile::iterate_timings([&](Thread::Id id, const Profile::Timing_Node& g) {
        MC_CHECK(id == Thread::this_id(), "timings of an unknown thread");
        MC_CHECK(i < t.n.size(), "more timing nodes than scopes entered");
        const Node& n = t.n[i];
        MC_CHECK(i ? (named ? g.loc.function == named(n.name) : same(g.loc, place_of(n.name))) : g.loc.function == "Frame"_v, "node %llu is another scope", (unsigned long long)i);
        if(i) MC_CHECK(g.calls == n.calls, "scope %s: %llu calls recorded, %llu made", call_it(n.name), (unsigned long long)g.calls, (unsigned long long)n.calls);
        MC_CHECK((int)g.parent == n.parent, "scope %s: parent %llu, expected %d", call_it(n.name), (unsigned long long)g.parent, n.parent);
        u64 heir = i ? n.total : t.t1 - t.t0;
        MC_CHECK(g.heir_time == heir, "scope %s: total time %llu, expected %llu", call_it(n.name), (unsigned long long)g.heir_time, (unsigned long long)heir);
        u64 kids = 0;
        MC_CHECK(g.children.length() == n.kids.size(), "scope %s: %llu children, expected %zu", call_it(n.name), (unsigned long long)g.children.length(), n.kids.size());
        for(u64 k = 0; k < n.kids.size(); k++) {
            MC_CHECK((int)g.children[k] == n.kids[k], "children");
            kids += t.n[(size_t)n.kids[k]].total;
        }
        MC_CHECK(g.self_time == heir - kids, "scope %s: own time %llu, expected %llu", call_it(n.name), (unsigned long long)g.self_time, (unsigned long long)(heir - kids));
        i++;
    });
    MC_CHECK(i == t.n.size(), "%llu timing nodes, %zu scopes entered", (unsigned long long)i, t.n.size());
}
static void none() {
    Profile::iterate_timings([](Thread::Id, const Profile::Timing_Node&) { MC_CHECK(false, "timings without a finished frame"); });
}

static QUIET void history(mc::Ctx& c, int depth, int frame_heavy) {
    std::vector<Tree> done;
    Tree cur;
    bool in = false;
    int open = 0;
    u64 last_begin = 0;
    for(int d = 0; d < depth; d++) {
        // 0: begin/end frame 1..3: enter name 4: exit 5: iterate
        u32 w = frame_heavy ? (c.choose(3) * 2) % 5 : c.choose(5);
        if(frame_heavy && w == 2) w = 1;
        if(w == 0) {
            if(in) {
                if(open) continue;
                Profile::end_frame();
                cur.t1 = sched::now_ns();
                done.push_back(cur);
                in = false;
                c.op("end_frame");
                compare(cur);
            } else {
                f32 dt = Profile::begin_frame();
                cur = Tree{};
                cur.t0 = sched::now_ns();
                cur.n.push_back(Node{0, 0});
                f32 want = done.empty() ? 0.0f : (f32)((cur.t0 - last_begin) / 1e9);
                MC_CHECK(dt >= want * 0.999f && dt <= want * 1.001f, "begin_frame yields %g s, expected %g", dt, want);
                last_begin = cur.t0;
                in = true;
                c.op("begin_frame");
                if(done.empty()) none();
                else compare(done.back());
            }
        } else if(w <= 3) {
            if(open > 5) continue;
            if(places) Profile::enter(place_of((int)w));
            else Profile::enter(String_View{kNames[w]});
            open++;
            c.op("enter %s", kNames[w]);
            if(in) {
                int at = -1;
                for(int k : cur.n[(size_t)cur.cur].kids)
                    if(cur.n[(size_t)k].name == (int)w) at = k;
                if(at < 0) {
                    at = (int)cur.n.size();
                    cur.n.push_back(Node{(int)w, cur.cur});
                    cur.n[(size_t)cur.cur].kids.push_back(at);
                }
                cur.n[(size_t)at].calls++;
                cur.n[(size_t)at].begin = sched::now_ns();
                cur.cur = at;
            } else { // outside a frame scopes are ignored
                Profile::exit();
                open--;
            }
        } else {
            if(!open) continue;
            Profile::exit();
            open--;
            Node& n = cur.n[(size_t)cur.cur];
            n.total += sched::now_ns() - n.begin;
            cur.cur = n.parent;
            c.op("exit");
        }
        u64 h = done.size() * 7 + in;
        for(auto& n : cur.n) h = mc::mix(h, n.calls * 10 + (u64)n.name + (u64)n.parent * 1000);
        c.state(h);
        if(!in && done.empty()) none();
        else if(!in) compare(done.back());
    }
    if(in) { // close whatever is open
        while(open--) {
            Profile::exit();
            Node& n = cur.n[(size_t)cur.cur];
            n.total += sched::now_ns() - n.begin;
            cur.cur = n.parent;
        }
        Profile::end_frame();
        cur.t1 = sched::now_ns();
        compare(cur);
    }
}

// --- many frames, scopes nested deeply, many scopes side by side: all of one shape
static char many_names[400][8];
static String_View many_name(int i) {
    return String_View{(u8*)many_names[i], 4};
}
struct Walk {
    Tree t;
    QUIET void begin() {
        Profile::begin_frame();
        t = Tree{};
        t.t0 = sched::now_ns();
        t.n.push_back(Node{0, 0});
    }
    QUIET void end() {
        Profile::end_frame();
        t.t1 = sched::now_ns();
    }
    QUIET void enter(int name) {
        Profile::enter(many_name(name));
        int at = -1;
        for(int k : t.n[(size_t)t.cur].kids)
            if(t.n[(size_t)k].name == name) at = k;
        if(at < 0) {
            at = (int)t.n.size();
            t.n.push_back(Node{name, t.cur});
            t.n[(size_t)t.cur].kids.push_back(at);
        }
        t.n[(size_t)at].calls++;
        t.n[(size_t)at].begin = sched::now_ns();
        t.cur = at;
    }
    QUIET void exit() {
        Profile::exit();
        Node& n = t.n[(size_t)t.cur];
        n.total += sched::now_ns() - n.begin;
        t.cur = n.parent;
    }
};
static QUIET void many(mc::Ctx& c) {
    static const int kFrames[] = {1, 2, 7, 8, 9, 15, 16, 17, 33, 100}, kSize[] = {1, 2, 8, 9, 17, 65, 130, 300};
    u32 shape = c.choose(4, "shape");
    int size = kSize[c.choose(8, "size")], frames = size > 20 ? 2 : kFrames[c.choose(10, "frames")], reps = 1 + (int)c.choose(3, "calls");
    for(int i = 0; i < 400; i++) snprintf(many_names[i], sizeof many_names[i], "N%03d", i);
    named = many_name;
    Walk w;
    long held = -1;
    for(int f = 0; f < frames; f++) {
        w.begin();
        if(f) compare(last_tree);
        int n = size + (shape == 3 ? f % 3 : 0);
        if(shape == 0) { // one inside the other
            for(int r = 0; r < reps; r++) {
                for(int i = 0; i < n; i++) w.enter(i % 7);
                for(int i = 0; i < n; i++) w.exit();
            }
        } else if(shape == 1) { // side by side
            for(int r = 0; r < reps; r++)
                for(int i = 0; i < n; i++) w.enter(r % 2 ? n - 1 - i : i), w.exit();
        } else if(shape == 2) { // pairs below others
            for(int i = 0; i < n; i++) {
                w.enter(i % 10);
                for(int r = 0; r < reps; r++) {
                    w.enter(i / 10 + 10);
                    w.enter(r);
                    w.exit();
                    w.exit();
                }
                w.exit();
            }
        } else { // repeated calls of one
            for(int i = 0; i < n * reps; i++) w.enter(0), w.exit();
        }
        w.end();
        compare(w.t);
        last_tree = w.t;
        // frames of the past do not pile up
        if(f == 20) held = sched::live_blocks();
        if(f > 20 && shape != 3) MC_CHECK(sched::live_blocks() <= held, "%ld blocks held after frame %d, %ld after frame 20", sched::live_blocks(), f, held);
    }
    c.op("shape %u, %d scopes, %d frames, %d calls", shape, size, frames, reps);
    c.state(mc::mix(shape * 1000 + (u64)size, (u64)frames * 10 + (u64)reps));
}
static void conversions(mc::Ctx& c) {
    u32 p = c.choose(64, "power"), k = c.choose(5, "offset");
    u64 t = (1ull << p) + (u64)k - 2;
    if(p < 2) t = k + p * 5;
    else if(p == 63) t = 1000000007ull * (k + 1);
    f32 ms = Profile::ms(t), s = Profile::s(t);
    f64 wm = (f64)t / 1e6, ws = (f64)t / 1e9;
    MC_CHECK(ms >= wm * 0.999999 && ms <= wm * 1.000001, "%llu ns are %g ms, not %g", (unsigned long long)t, wm, ms);
    MC_CHECK(s >= ws * 0.999999 && s <= ws * 1.000001, "%llu ns are %g s, not %g", (unsigned long long)t, ws, s);
    c.op("%llu", (unsigned long long)t);
    c.state(t);
}
// --- several threads ---------------------------------------------------------------------------
static void work(int k) {
    Profile::begin_frame();
    Trace("outer") {
        for(int i = 0; i < k; i++) {
            Trace("inner") {
            }
        }
    }
    Profile::end_frame();
}
struct Seen {
    u64 nodes = 0, threads = 0;
};
static Seen look() {
    Seen s;
    Thread::Id last = 0;
    Profile::iterate_timings([&](Thread::Id id, const Profile::Timing_Node& g) {
        if(s.nodes == 0 || id != last) s.threads++;
        last = id;
        s.nodes++;
        MC_CHECK(g.heir_time == g.end - g.begin || g.calls > 1, "an unfinished scope in a finished frame");
        MC_CHECK(g.heir_time > 0, "a scope without time in a finished frame");
        MC_CHECK(g.loc.function == "Frame"_v || g.loc.function == "outer"_v || g.loc.function == "inner"_v, "unknown scope");
        if(g.loc.function == "inner"_v) MC_CHECK(g.calls == 2, "inner called %llu times", (unsigned long long)g.calls);
    });
    return s;
}
static void threads(int v) {
    if(v == 0) { // reading while another thread profiles
        Thread::Thread t([] { work(2); });
        look();
        look();
        t.join();
        MC_CHECK(look().nodes == 0, "timings of a thread that has exited");
    } else if(v == 1) { // two threads at once
        Thread::Flag a, b;
        Thread::Thread t([&] {
            work(2);
            a.signal();
            b.block();
        });
        work(2);
        a.block();
        auto s = look();
        MC_CHECK(s.threads == 2 && s.nodes == 6, "%llu nodes of %llu threads", (unsigned long long)s.nodes, (unsigned long long)s.threads);
        b.signal();
        t.join();
        s = look();
        MC_CHECK(s.threads == 1 && s.nodes == 3, "%llu nodes of %llu threads", (unsigned long long)s.nodes, (unsigned long long)s.threads);
    } else if(v == 2) { // a thread exits during its frame, while timings are read
        Thread::Thread t([] {
            work(2);
            Profile::begin_frame();
        });
        look();
        t.join();
        MC_CHECK(look().nodes == 0, "timings of a thread that has exited");
    } else if(v == 3) { // threads come and go
        for(int i = 0; i < 2; i++) {
            Thread::Thread t([] { work(2); }), u([] { work(2); });
            look();
        }
        MC_CHECK(look().nodes == 0, "timings of a thread that has exited");
    } else { // known: a callback that allocates during a frame
        Profile::begin_frame();
        Profile::end_frame();
        Vec<u64> v;
        Profile::iterate_timings([&](Thread::Id, const Profile::Timing_Node& g) { v.push(g.calls); });
    }
}

// ---- every pair of small scripts of frames and scopes, run by two threads at once ----
// A look shows, of each thread, one of its finished frames (or nothing before the first), and never an
// older one than an earlier look by the same thread showed.
enum Do { kBegin, kEnd, kIn, kIn2, kOut, kLook, kDos };
struct Script {
    int n = 0, op[12];
    std::vector<Tree> frames;
};
static QUIET Script script(mc::Ctx& c, int n) {
    Script s;
    Tree t;
    bool in = false;
    int open = 0;
    auto put = [&](int w) {
        s.op[s.n++] = w;
        if(w == kBegin) t = Tree{}, t.n.push_back(Node{0, 0}), in = true;
        else if(w == kEnd) s.frames.push_back(t), in = false;
        else if(w == kOut) open--, t.cur = t.n[(size_t)t.cur].parent;
        else if(w != kLook) {
            int name = w - kIn + 1, at = -1;
            open++;
            for(int k : t.n[(size_t)t.cur].kids)
                if(t.n[(size_t)k].name == name) at = k;
            if(at < 0) {
                at = (int)t.n.size();
                t.n.push_back(Node{name, t.cur});
                t.n[(size_t)t.cur].kids.push_back(at);
            }
            t.n[(size_t)at].calls++;
            t.cur = at;
        }
    };
    for(int i = 0; i < n; i++) {
        int can[kDos];
        u32 m = 0;
        if(!in) can[m++] = kBegin, can[m++] = kLook;
        else {
            if(open) can[m++] = kOut;
            else can[m++] = kEnd;
            if(open < 2) can[m++] = kIn, can[m++] = kIn2;
            can[m++] = kLook;
        }
        put(can[c.choose(m, "step")]);
    }
    while(open) put(kOut);
    if(in) put(kEnd);
    return s;
}
static QUIET void programs(mc::Ctx& c, int na, int nb, Opts o) {
    Script sc[2] = {script(c, na), script(c, nb)};
    sched::run(c, o, [&] {
        Thread::Id ids[2] = {Thread::this_id(), 0};
        int seen[2][2] = {{-1, -1}, {-1, -1}}, done[2] = {-1, -1}; // seen[by][of]
        auto look_by = [&](int by) QUIET {
            int at[2] = {-1, -1};
            u64 nodes[2] = {0, 0};
            bool is[2][12];
            for(auto& r : is)
                for(bool& b : r) b = true;
            Profile::iterate_timings([&](Thread::Id id, const Profile::Timing_Node& g) QUIET {
                int who = id == ids[0] ? 0 : 1;
                u64 i = nodes[who]++;
                for(size_t f = 0; f < sc[who].frames.size(); f++) {
                    const Tree& t = sc[who].frames[f];
                    bool ok = i < t.n.size();
                    if(ok) {
                        const Node& w = t.n[i];
                        ok = g.loc.function == (i ? String_View{kNames[w.name]} : "Frame"_v) && (!i || g.calls == w.calls) && (int)g.parent == w.parent && g.children.length() == w.kids.size();
                        for(u64 k = 0; ok && k < w.kids.size(); k++) ok = (int)g.children[k] == w.kids[k];
                    }
                    if(!ok) is[who][f] = false;
                }
                MC_CHECK(g.heir_time > 0 && g.self_time <= g.heir_time, "scope times: %llu own, %llu in all", (unsigned long long)g.self_time, (unsigned long long)g.heir_time);
            });
            for(int who = 0; who < 2; who++) {
                if(!nodes[who]) {
                    MC_CHECK(seen[by][who] < 0, "the frames of a thread are gone");
                    if(who == by) MC_CHECK(done[by] < 0, "a finished frame is not shown");
                    continue;
                }
                // the newest frame of that shape: seen frames do not go back
                for(int f = (int)sc[who].frames.size() - 1; f >= 0 && at[who] < 0; f--)
                    if(is[who][f] && sc[who].frames[(size_t)f].n.size() == nodes[who] && (who != by || f <= done[by])) at[who] = f;
                MC_CHECK(at[who] >= 0, "timings of thread %d match none of its frames", who);
                MC_CHECK(at[who] >= seen[by][who], "timings of thread %d are of an older frame", who);
                if(who == by) {
                    MC_CHECK(at[who] == done[by], "own timings are of frame %d of %d", at[who], done[by]);
                    seen[by][who] = at[who];
                } else { // the oldest frame it can be, so that equal shapes raise no alarm
                    int least = -1;
                    for(size_t f = 0; f < sc[who].frames.size() && least < 0; f++)
                        if((int)f >= seen[by][who] && is[who][f] && sc[who].frames[f].n.size() == nodes[who]) least = (int)f;
                    seen[by][who] = least;
                }
            }
        };
        auto go = [&](int by) QUIET {
            for(int i = 0; i < sc[by].n; i++) switch(sc[by].op[i]) {
                case kBegin: Profile::begin_frame(); break;
                case kEnd: Profile::end_frame(); done[by]++; break;
                case kIn: Profile::enter(String_View{kNames[1]}); break;
                case kIn2: Profile::enter(String_View{kNames[2]}); break;
                case kOut: Profile::exit(); break;
                case kLook: look_by(by); break;
                }
        };
        Thread::Flag a, b;
        {
            Thread::Thread t([&] {
                go(1);
                a.signal();
                b.block();
            });
            go(0);
            a.block();
            look_by(0);
            MC_CHECK((sc[1].frames.empty() ? -1 : 0) <= seen[0][1], "the other thread's frames are not shown");
            b.signal();
        }
        u64 left = 0;
        Profile::iterate_timings([&](Thread::Id id, const Profile::Timing_Node&) { MC_CHECK(id == ids[0], "timings of a thread that has exited"); left++; });
        MC_CHECK(left == (sc[0].frames.empty() ? 0 : sc[0].frames.back().n.size()), "%llu nodes at the end", (unsigned long long)left);
    });
}

int main(int argc, char** argv) {
    mc::Main m;
    m.property = "P01";
    m.bounds = "every sequence of 9 (thorough 10) begin-frame, end-frame, enter (3 names, or 3 source locations that differ in file or line only) and exit steps; every sequence of 20 (thorough 22) steps over one "
               "name; 4 shapes of up to 900 scopes, 300 deep or side by side, in up to 100 frames; time conversions at every power of two; 2-3 threads with every interleaving within preemption bound 3 (thorough 4); every pair of scripts of 4 and 4 (5 and 4) or 3 and 7 (4 and 7) frame, scope and look steps in two threads within preemption bound 1-2 (2-3)";
    m.assumptions = {"the clock is virtual and advances with every reading", "scopes are closed before their frame ends, as the Trace macro guarantees"};
    Opts o;
    o.leaks = false;
    m.add("history", [o](mc::Ctx& c) { sched::run(c, o, [&c] { history(c, c.tier(9, 10), 0); }); }, 3);
    m.add("places", [o](mc::Ctx& c) { sched::run(c, o, [&c] { places = true, history(c, c.tier(8, 9), 0); }); }, 3);
    m.add("history-frames", [o](mc::Ctx& c) { sched::run(c, o, [&c] { history(c, c.tier(13, 15), 1); }); }, 4);
    Opts big = o;
    big.max_steps = 100000;
    m.add("many", [big](mc::Ctx& c) { sched::run(c, big, [&c] { many(c); }); }, 3);
    m.add("conversions", [o](mc::Ctx& c) { sched::run(c, o, [&c] { conversions(c); }); }, 1);
    for(int v = 0; v < 4; v++)
        m.add("threads-" + std::to_string(v), [o, v](mc::Ctx& c) {
            Opts p = o;
            p.preempt = c.tier(v == 3 ? 2 : 3, v == 3 ? 3 : 4);
            sched::run(c, p, [v] { threads(v); });
        }, 6);
    m.add("programs", [o](mc::Ctx& c) {
        Opts p = o;
        p.preempt = c.tier(2, 3);
        programs(c, c.tier(4, 5), c.tier(4, 4), p);
    }, 5);
    m.add("programs-long", [o](mc::Ctx& c) {
        Opts p = o;
        p.preempt = c.tier(1, 2);
        programs(c, c.tier(3, 4), c.tier(7, 7), p);
    }, 5);
    m.add("known-allocating-reader", [o](mc::Ctx& c) { sched::run(c, o, [] { threads(4); }); }, 2);
    return m.run(argc, argv);
}
