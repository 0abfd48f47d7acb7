// Logging: delivery of messages to subscribers and to the output, from several threads.
#include "ilv.h"
#include "capture.h"
#include <rpp/base.h>
#include <rpp/log_callback.h>
#include <rpp/thread.h>
#include <rpp/vec.h>
#include <vector>
using namespace rpp;
using sched::Opts;

// column at which the message starts, after the header
RAW static int indent_of(const char* what) {
    int i = line_of(what, false);
    if(i < 0) return -1;
    const char* p = strstr(lines[i].text, "]: ");
    return p ? (int)(strstr(lines[i].text, what) - (p + 3)) : -1;
}
static Opts bounded(int p) {
    Opts o;
    o.preempt = p;
    return o;
}
static Opts delayed(int d) {
    Opts o;
    o.delays = d;
    o.preempt = 99;
    return o;
}
// reg 10*s+m: times subscriber s saw message m; reg 200+s: last sequence number of thread in s
static int parse(String_View msg, char& who) { // "msg <who><n>"
    MC_CHECK(msg.length() == 6 && msg[0] == 'm' && msg[3] == ' ', "text of length %llu", (unsigned long long)msg.length());
    who = (char)msg[4];
    return msg[5] - '0';
}
struct Sub {
    int id;
    u64* busy; // plain: concurrent callbacks are a race
    bool live = false;
};
static Log::Token sub(Sub& s) {
    return Log::subscribe([&s](Log::Level level, Thread::Id thread, Log::Time, Log::Location loc, String_View msg) {
        *s.busy += 1;
        char who;
        int n = parse(msg, who);
        MC_CHECK(thread == Thread::this_id(), "message attributed to another thread");
        MC_CHECK(level == (n & 1 ? Log::Level::warn : Log::Level::info), "level");
        MC_CHECK(loc.line == (who == 'a' ? 1001u : 1002u) && loc.file == "T08.cpp"_v, "location");
        MC_CHECK(sched::get(300 + s.id) == 0, "subscriber %d called after unsubscribe returned", s.id);
        sched::add(100 * s.id + (who - 'a') * 10 + n, 1);
        i64 last = sched::get(400 + s.id * 10 + who - 'a');
        MC_CHECK(n > last - 1, "message %c%d after %c%lld", who, n, who, (long long)(last - 1));
        sched::set(400 + s.id * 10 + who - 'a', n + 1);
    });
}
static void say(char who, int n) {
    Log::Location loc{"say"_v, "T08.cpp"_v, who == 'a' ? 1001u : 1002u};
    char w[2] = {who, (char)('0' + n)};
    String_View sv{(const u8*)w, 2};
    Log::log(n & 1 ? Log::Level::warn : Log::Level::info, loc, "msg %"_v, sv);
}
static i64 seen(int s, char who, int n) {
    return sched::get(100 * s + (who - 'a') * 10 + n);
}

static void concurrent(int v) {
    u64 busy = 0;
    start();
    if(v == 0) { // each message once to each subscriber, in order
        Sub s{1, &busy}, s2{2, &busy};
        auto t = sub(s), t2 = sub(s2);
        MC_CHECK(t != t2, "tokens collide");
        {
            Thread::Thread a([] { say('a', 0); say('a', 1); });
            say('b', 0);
            say('b', 1);
        }
        Log::unsubscribe(t);
        sched::set(301, 1);
        say('b', 2);
        Log::unsubscribe(t2);
        sched::set(302, 1);
        say('b', 4);
        for(char w = 'a'; w <= 'b'; w++)
            for(int n = 0; n < 2; n++) MC_CHECK(seen(1, w, n) == 1 && seen(2, w, n) == 1, "%c%d seen %lld/%lld times", w, n, (long long)seen(1, w, n), (long long)seen(2, w, n));
        MC_CHECK(seen(1, 'b', 2) == 0 && seen(2, 'b', 2) == 1 && seen(2, 'b', 4) == 0, "after unsubscribe");
        MC_CHECK(busy == 9, "%llu callbacks", (unsigned long long)busy);
        for(int f = 0; f < 2; f++) {
            MC_CHECK(count_lines("msg a0", f) == 1 && count_lines("msg a1", f) == 1 && count_lines("msg b0", f) == 1 && count_lines("msg b1", f) == 1 &&
                         count_lines("msg b4", f) == 1, "lines written");
            MC_CHECK(line_of("msg a0", f) < line_of("msg a1", f) && line_of("msg b0", f) < line_of("msg b1", f), "order of lines");
        }
    } else if(v == 1) { // subscription and removal concurrent with logging
        Sub s{1, &busy};
        Thread::Thread a([] { say('a', 0); say('a', 1); });
        auto t = sub(s);
        say('b', 0);
        Log::unsubscribe(t);
        sched::set(301, 1);
        a.join();
        MC_CHECK(seen(1, 'b', 0) == 1, "b0 seen %lld times", (long long)seen(1, 'b', 0));
        MC_CHECK(seen(1, 'a', 0) <= 1 && seen(1, 'a', 1) <= 1, "delivered twice");
    } else if(v == 2) { // two threads subscribe, log and unsubscribe
        Sub s{1, &busy}, s2{2, &busy};
        auto one = [](Sub& s, char who) {
            auto t = sub(s);
            MC_CHECK(sched::add(500 + (int)t, 1) == 1, "token %llu handed out twice", (unsigned long long)t);
            say(who, 0);
            MC_CHECK(seen(s.id, who, 0) == 1, "own message not delivered");
            Log::unsubscribe(t);
            sched::set(300 + s.id, 1);
        };
        Thread::Thread a([&] { one(s, 'a'); });
        one(s2, 'b');
        a.join();
        say('b', 2);
        Sub s3{3, &busy};
        auto t = sub(s3);
        say('b', 3);
        MC_CHECK(seen(3, 'b', 3) == 1, "a later subscription works");
        Log::unsubscribe(t);
    } else { // indentation belongs to the thread
        Thread::Thread a([] {
            Log_Indent {
                say('a', 0);
                Log_Indent {
                    say('a', 2);
                }
            }
            say('a', 4);
        });
        say('b', 0);
        Log_Indent {
            say('b', 2);
        }
        a.join();
        MC_CHECK(indent_of("msg b0") == 0 && indent_of("msg b2") == 4, "own indentation");
        MC_CHECK(indent_of("msg a0") == 4 && indent_of("msg a2") == 8 && indent_of("msg a4") == 0, "indentation");
    }
    capture = false;
}
// many threads: each logs in scopes of its own, each with or without a subscription of its own
static void party(int threads, int rounds, bool subscribe) {
    u64 busy = 0; // plain: concurrent callbacks are a race
    start();
    auto listen = [&busy](int id) { // counts in reg 100*id + thread*8 + n; order in reg 900 + id*12 + thread
        return Log::subscribe([id, &busy](Log::Level, Thread::Id thread, Log::Time, Log::Location, String_View msg) {
            busy += 1;
            MC_CHECK(thread == Thread::this_id(), "message attributed to another thread");
            char who;
            int n = parse(msg, who), w = who - 'a';
            MC_CHECK(sched::get(850 + id) == 0, "subscriber %d called after unsubscribe returned", id);
            MC_CHECK(sched::add(60 * id + w * 6 + n, 1) == 1, "%s delivered twice to subscriber %d", "message", id);
            MC_CHECK(n >= sched::get(900 + id * 10 + w), "messages of thread %d out of order", w);
            sched::set(900 + id * 10 + w, n + 1);
        });
    };
    auto whole = listen(9);
    {
        std::vector<Thread::Thread<>> ts;
        for(int w = 0; w < threads; w++) {
            ts.emplace_back([&listen, w, rounds, subscribe] {
                Log::Token t = 0;
                if(subscribe) {
                    t = listen(w);
                    MC_CHECK(sched::add(700 + (int)t, 1) == 1, "token %llu handed out twice", (unsigned long long)t);
                }
                for(int n = 0; n < rounds; n++) {
                    Log::Scope in[3];
                    say((char)('a' + w), n);
                    if(subscribe) MC_CHECK(sched::get(60 * w + w * 6 + n) == 1, "own message not delivered");
                    if(n % 2) {
                        Log::Scope deeper;
                        n++;
                        if(n < rounds) say((char)('a' + w), n);
                    }
                }
                if(subscribe) {
                    Log::unsubscribe(t);
                    sched::set(850 + w, 1);
                }
            });
        }
    }
    Log::unsubscribe(whole);
    capture = false;
    for(int w = 0; w < threads; w++) {
        int last[2] = {-1, -1};
        for(int n = 0; n < rounds; n++) {
            char t[16];
            snprintf(t, sizeof t, "msg %c%d", 'a' + w, n);
            MC_CHECK(sched::get(60 * 9 + w * 6 + n) == 1, "%s delivered %lld times", t, (long long)sched::get(60 * 9 + w * 6 + n));
            for(int f = 0; f < 2; f++) {
                MC_CHECK(count_lines(t, f) == 1, "%s printed %d times", t, count_lines(t, f));
                int l = line_of(t, f);
                MC_CHECK(l > last[f], "%s printed before the message before it", t);
                last[f] = l;
            }
            MC_CHECK(indent_of(t) == (n && n % 2 == 0 ? 16 : 12), "%s indented by %d", t, indent_of(t));
        }
    }
}
// What a subscription captured ends when it is removed, and may itself log, subscribe and unsubscribe.
struct Parting {
    char who = 0;
    int n = 0, then = 0;
    Log::Token inner = 0;
    Parting(char who, int n, int then) noexcept : who(who), n(n), then(then) {
        if(then == 2)
            inner = Log::subscribe([](Log::Level, Thread::Id, Log::Time, Log::Location, String_View) { sched::add(600, 1); });
    }
    Parting(Parting&& o) noexcept : who(o.who), n(o.n), then(o.then), inner(o.inner) {
        o.who = 0;
    }
    ~Parting() noexcept {
        if(!who) return;
        MC_CHECK(sched::add(610 + who - 'a', 1) == 1, "what a subscription captured ended twice");
        if(then == 1) {
            auto t = Log::subscribe([](Log::Level, Thread::Id, Log::Time, Log::Location, String_View) { sched::add(601, 1); });
            say(who, n);
            Log::unsubscribe(t);
            MC_CHECK(sched::get(601) >= 1, "a subscription made on the way out is not called");
        } else {
            say(who, n);
            if(then == 2) Log::unsubscribe(inner);
        }
    }
};
static void parting(int threads, int then) {
    u64 busy = 0;
    start();
    Sub whole{1, &busy};
    auto all = sub(whole);
    auto one = [then](char who) {
        auto t = Log::subscribe([p = Parting{who, 3, then}, who](Log::Level, Thread::Id, Log::Time, Log::Location, String_View) {
            sched::add(620 + who - 'a', 1);
        });
        say(who, 0);
        i64 before = sched::get(610 + who - 'a');
        MC_CHECK(before == 0, "what a subscription captured is gone while it is subscribed");
        Log::unsubscribe(t);
        MC_CHECK(sched::get(610 + who - 'a') == 1, "what a subscription captured is still there");
        i64 calls = sched::get(620 + who - 'a');
        say(who, 4);
        MC_CHECK(calls >= 1 && sched::get(620 + who - 'a') == calls, "called after unsubscribe returned");
    };
    if(threads == 1) one('a');
    else {
        Thread::Thread b([one] { one('b'); });
        one('a');
        b.join();
    }
    Log::unsubscribe(all);
    capture = false;
    for(int w = 0; w < threads; w++)
        for(int n : {0, 3, 4}) {
            char t[16];
            snprintf(t, sizeof t, "msg %c%d", 'a' + w, n);
            MC_CHECK(seen(1, (char)('a' + w), n) == 1, "%s delivered %lld times", t, (long long)seen(1, (char)('a' + w), n));
            for(int f = 0; f < 2; f++) MC_CHECK(count_lines(t, f) == 1, "%s printed %d times", t, count_lines(t, f));
        }
}
// ---- every small program of two threads: who must and who must not have seen what ----
struct Life { // when a subscription was asked for, made, asked to end and ended; when a message was begun and over
    i64 t[4] = {};
};
static void programs(mc::Ctx& c, int na, int nb, int p) {
    int s[2][5], n[2] = {na, nb};
    for(int t = 0; t < 2; t++) {
        int live = 0;
        for(int i = 0; i < n[t]; i++) {
            s[t][i] = (int)c.choose(live ? 3 : 2, "step"); // say, subscribe, unsubscribe the oldest
            live += s[t][i] == 1 ? 1 : s[t][i] == 2 ? -1 : 0;
        }
    }
    sched::run(c, bounded(p), [&] {
        static Life sub[2][5], msg[2][5];
        static int nsub[2], nmsg[2];
        static u8 got[2][5][2][5];
        memset(sub, 0, sizeof sub);
        memset(msg, 0, sizeof msg);
        memset(got, 0, sizeof got);
        nsub[0] = nsub[1] = nmsg[0] = nmsg[1] = 0;
        start();
        auto perform = [&](int t) {
            Log::Token tok[5];
            int oldest = 0;
            auto leave = [&] {
                Life& l = sub[t][oldest];
                l.t[2] = sched::stamp();
                Log::unsubscribe(tok[oldest]);
                l.t[3] = sched::stamp();
                oldest++;
            };
            for(int i = 0; i < n[t]; i++) {
                if(s[t][i] == 0) {
                    int k = nmsg[t]++;
                    msg[t][k].t[0] = sched::stamp();
                    say((char)('a' + t), k);
                    msg[t][k].t[1] = sched::stamp();
                } else if(s[t][i] == 1) {
                    int k = nsub[t]++;
                    sub[t][k].t[0] = sched::stamp();
                    tok[k] = Log::subscribe([t, k](Log::Level level, Thread::Id thread, Log::Time, Log::Location, String_View m) {
                        char who;
                        int j = parse(m, who);
                        MC_CHECK(thread == Thread::this_id(), "message attributed to another thread");
                        MC_CHECK(level == (j & 1 ? Log::Level::warn : Log::Level::info), "level");
                        MC_CHECK(!got[t][k][who - 'a'][j]++, "a message is delivered twice");
                        for(int later = j + 1; later < 5; later++) MC_CHECK(!got[t][k][who - 'a'][later], "messages of one thread out of order");
                    });
                    sub[t][k].t[1] = sched::stamp();
                } else leave();
            }
            while(oldest < nsub[t]) leave();
        };
        {
            Thread::Thread other([&] { perform(1); });
            perform(0);
        }
        capture = false;
        for(int t = 0; t < 2; t++)
            for(int k = 0; k < nsub[t]; k++)
                for(int u = 0; u < 2; u++)
                    for(int j = 0; j < nmsg[u]; j++) {
                        const Life &l = sub[t][k], &m = msg[u][j];
                        int seen = got[t][k][u][j];
                        if(l.t[1] < m.t[0] && m.t[1] < l.t[2]) MC_CHECK(seen == 1, "a subscriber missed a message");
                        if(m.t[1] < l.t[0] || l.t[3] < m.t[0]) MC_CHECK(seen == 0, "a message for a subscriber that was not there");
                    }
        for(int u = 0; u < 2; u++)
            for(int j = 0; j < nmsg[u]; j++) {
                char text[16];
                snprintf(text, sizeof text, "msg %c%d", 'a' + u, j);
                for(int f = 0; f < 2; f++) MC_CHECK(count_lines(text, f) == 1, "%s printed %d times", text, count_lines(text, f));
            }
    });
}
// Every sequence of subscribe/unsubscribe/log up to a depth against a list of live subscribers.
static void history(mc::Ctx& c) {
    static constexpr int N = 4;
    static u64 got[8];
    Log::Token tok[N] = {};
    bool live[N] = {};
    u64 expect[N] = {};
    for(auto& g : got) g = 0;
    start();
    int depth = c.tier(7, 9);
    int said = 0;
    for(int d = 0; d < depth; d++) {
        u32 w = c.choose(2 * N + 1);
        if(w < N) {
            if(live[w]) {
                Log::unsubscribe(tok[w]);
                live[w] = false;
                c.op("unsubscribe %u", w);
            } else {
                tok[w] = Log::subscribe([w](Log::Level, Thread::Id, Log::Time, Log::Location, String_View) { got[w]++; });
                live[w] = true;
                for(int k = 0; k < N; k++) MC_CHECK(k == (int)w || !live[k] || tok[k] != tok[w], "token handed out twice");
                c.op("subscribe %u", w);
            }
        } else if(w < 2 * N) { // a message of each level
            if(w - N == 3) break;
            Log::Location loc{"f"_v, "T08.cpp"_v, 5};
            Log::log(w - N == 0 ? Log::Level::info : w - N == 1 ? Log::Level::warn : Log::Level::fatal, loc, "text %"_v, said);
            char t[32];
            snprintf(t, sizeof t, ": text %d", said);
            const char* lv = w - N == 0 ? "[info/" : w - N == 1 ? "[warn/" : "[fatal/";
            for(int f = 0; f < 2; f++) {
                int l = line_of(t, f);
                MC_CHECK(has(l, lv) && has(l, "[T08.cpp:5]") && count_lines(t, f) == 1, "line for message %d", said);
            }
            said++;
            for(int k = 0; k < N; k++) expect[k] += live[k];
            c.op("log");
        } else break;
        u64 h = 1;
        for(int k = 0; k < N; k++) {
            MC_CHECK(got[k] == expect[k], "subscriber %d got %llu of %llu messages", k, (unsigned long long)got[k], (unsigned long long)expect[k]);
            h = mc::mix(h, live[k] * 100 + got[k]);
        }
        c.state(h);
    }
    for(int k = 0; k < N; k++)
        if(live[k]) Log::unsubscribe(tok[k]);
    capture = false;
}

// messages of every length, with and without arguments, in scopes of every depth
static char want_text[1 << 18] MCE;
static int want_len MCE, deliveries MCE;
static bool ends_with(int f, int level) {
    const char* tail = level ? "\033[0m" : "";
    int t = (int)strlen(tail), n = last_len[f];
    return n >= want_len + t && !memcmp(partial[f] + n - t, tail, (size_t)t) && !memcmp(partial[f] + n - t - want_len, want_text, (size_t)want_len) &&
           (want_len == n - t || partial[f][n - t - want_len - 1] == ' ');
}
static void nested(int depth, mc::Ctx& c, int len, int level) {
    if(depth > 100) { // too deep for the stack
        auto* scopes = new Log::Scope[(size_t)depth];
        nested(0, c, len, level);
        delete[] scopes;
        return;
    }
    if(depth) {
        Log_Indent {
            nested(depth - 1, c, len, level);
        }
        return;
    }
    Log::Location loc{"f"_v, "T08.cpp"_v, 77};
    static u8 buf[1 << 18] MCE;
    for(int i = 0; i < len; i++) buf[i] = (u8)('!' + (i * 7 + len) % 90);
    memcpy(want_text, buf, (size_t)len);
    want_len = len;
    deliveries = 0;
    String_View v{buf, (u64)len};
    Log::log(level == 0 ? Log::Level::info : level == 1 ? Log::Level::warn : Log::Level::fatal, loc, "%"_v, v);
    MC_CHECK(deliveries == 1, "a message of %d bytes was delivered %d times", len, deliveries);
}
static void shape(mc::Ctx& c, int len, int level, int depth) {
    start();
    auto t = Log::subscribe([](Log::Level, Thread::Id, Log::Time, Log::Location l, String_View m) {
        if((int)m.length() == want_len && !memcmp(m.data(), want_text, (size_t)want_len) && l.line == 77) deliveries++;
    });
    nested(depth, c, len, level);
    for(int f = 0; f < 2; f++) {
        MC_CHECK(nlines == 2 && ends_with(f, level), "a message of %d bytes is not printed whole", len);
        char* p = (char*)memmem(partial[f], (size_t)last_len[f], "T08.cpp:77]: ", 13);
        MC_CHECK(p, "header");
        MC_CHECK(last_len[f] - (int)(p - partial[f]) - 13 - (level ? 4 : 0) - want_len == 4 * depth, "message in %d scopes is indented by %d", depth, last_len[f] - (int)(p - partial[f]) - 13 - (level ? 4 : 0) - want_len);
    }
    Log::unsubscribe(t);
    capture = false;
    c.op("%d bytes, level %d, depth %d", len, level, depth);
    c.state(mc::mix((u64)len, (u64)(depth * 4 + level)));
}
static void lengths(mc::Ctx& c) {
    int len = (int)c.choose(c.tier(1200, 4096), "length"), level = (int)c.choose(3, "level"), depth = len < 40 ? (int)c.choose(40, "depth") : 0;
    shape(c, len, level, depth);
}
// sizes at which a narrow counter or a fixed buffer would show
static void scales(mc::Ctx& c) {
    static const int kLen[] = {0, 1, 100, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70001, 131075};
    static const int kDepth[] = {0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 513, 1000, 16384, 16385, 65535, 65536, 65537};
    int d = (int)c.choose(27, "depth"), k = (int)c.choose(kDepth[d] > 1000 ? 3 : 27, "length");
    shape(c, kLen[k], (int)c.choose(3, "level"), kDepth[d]);
}
// any number of subscribers, some of which leave
static void crowd(mc::Ctx& c) {
    static u8 got[256];
    int n = 1 + (int)c.choose(c.tier(70, 200), "subscribers"), every = 1 + (int)c.choose(4, "leave"), again = (int)c.choose(2, "join again");
    memset(got, 0, sizeof got);
    Log::Token tok[256];
    bool live[256] = {};
    start();
    auto join = [&](int i) {
        tok[i] = Log::subscribe([i](Log::Level, Thread::Id, Log::Time, Log::Location, String_View) { got[i]++; });
        for(int k = 0; k < n; k++) MC_CHECK(!live[k] || tok[k] != tok[i], "token handed out twice");
        live[i] = true;
    };
    for(int i = 0; i < n; i++) join(i);
    auto shout = [&](int round) {
        u8 before[256];
        memcpy(before, got, sizeof got);
        say('a', round);
        for(int i = 0; i < n; i++) MC_CHECK(got[i] == before[i] + live[i], "subscriber %d of %d got %d messages instead of %d", i, n, got[i] - before[i], (int)live[i]);
    };
    shout(0);
    for(int i = n; i-- > 0;)
        if(i % every == 0) Log::unsubscribe(tok[i]), live[i] = false;
    shout(1);
    if(again)
        for(int i = 0; i < n; i++)
            if(!live[i] && i % 3 != 2) join(i);
    shout(2);
    for(int i = 0; i < n; i++)
        if(live[i]) Log::unsubscribe(tok[i]), live[i] = false;
    shout(3);
    capture = false;
    c.op("%d subscribers, every %d leaves, %d", n, every, again);
    c.state(mc::mix((u64)n, (u64)(every * 2 + again)));
}

int main(int argc, char** argv) {
    mc::Main m;
    m.property = "T08";
    m.bounds = "2 threads, 1-3 subscribers, 2-5 messages, every interleaving within preemption bound 8 (thorough 20); up to 9 threads, each logging in scopes of its own with its own subscription, within 2-5 (3-7) delays; every sequence of 7 (thorough "
               "9) subscribe/unsubscribe/log operations over 4 subscribers and 3 levels; messages of every length up to 1200 (4096) bytes, of each level, the short ones in up to 39 scopes; 27 lengths up to 131075 bytes in up to 1000 (short ones up to 65537) scopes; up to 70 (200) subscribers; captured values that log, subscribe and unsubscribe as they end, in 1-2 threads within preemption bound 3 (6); every program of two threads with 4 (one with 5) say/subscribe/unsubscribe steps within preemption bound 3 (4)";
    m.assumptions = {"what the library prints is captured at printf/fprintf, which are themselves thread safe",
                     "a callback does not log or (un)subscribe itself (the log lock is not recursive)"};
    for(int v = 0; v < 4; v++)
        m.add("threads-" + std::to_string(v), [v](mc::Ctx& c) { sched::run(c, bounded(c.tier(8, 20)), [v] { concurrent(v); }); }, 6);
    m.add("programs", [](mc::Ctx& c) { programs(c, 4, c.tier(4, 5), c.tier(3, 4)); }, 4);
    for(int threads = 1; threads <= 2; threads++)
        for(int then = 0; then < 3; then++)
            m.add("parting-" + std::to_string(threads) + "-" + std::to_string(then), [threads, then](mc::Ctx& c) {
                sched::run(c, bounded(c.tier(3, 6)), [threads, then] { parting(threads, then); });
            }, 2);
    struct P {
        int threads, rounds, quick, deep;
        bool subscribe;
    };
    static const P kP[] = {{2, 3, 5, 7, true}, {3, 2, 4, 5, true}, {3, 3, 4, 6, false}, {5, 2, 3, 4, true}, {7, 2, 2, 4, false}, {9, 1, 2, 3, true}};
    for(const P& p : kP)
        m.add("party-" + std::to_string(p.threads) + "x" + std::to_string(p.rounds) + (p.subscribe ? "s" : ""),
              [&p](mc::Ctx& c) { sched::run(c, delayed(c.tier(p.quick, p.deep)), [&p] { party(p.threads, p.rounds, p.subscribe); }); }, 6);
    m.add("history", [](mc::Ctx& c) {
        auto* cp = &c;
        sched::run(c, bounded(0), [cp] { history(*cp); });
    }, 4);
    m.add("lengths", [](mc::Ctx& c) {
        auto* cp = &c;
        sched::run(c, bounded(0), [cp] { lengths(*cp); });
    }, 2);
    m.add("scales", [](mc::Ctx& c) {
        auto* cp = &c;
        sched::run(c, bounded(0), [cp] { scales(*cp); });
    }, 2);
    m.add("crowd", [](mc::Ctx& c) {
        auto* cp = &c;
        sched::run(c, bounded(0), [cp] { crowd(*cp); });
    }, 2);
    return m.run(argc, argv);
}
