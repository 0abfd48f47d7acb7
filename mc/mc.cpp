#include "mc.h"
#include <dirent.h>
#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>

namespace mc {

// Engine B restores the program's static data between executions, except this section.
#define ENG __attribute__((section("mcengine")))
ENG Ctx* g_ctx = nullptr;
ENG Slot* g_slot = nullptr;
ENG int g_slot_index = 0;

constexpr uint64_t kSetSize = 1ull << 22;
struct Shared {
    Slot slot[kWorkers];
    std::atomic<uint32_t> stop;
    std::atomic<uint64_t> nstates, set_full;
    std::atomic<uint64_t> set[kSetSize];
    std::atomic<uint8_t> claimed[1u << 20];
};
ENG static Shared* sh = nullptr;

static double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// time the machine gave this process: a pause of the whole machine counts as one poll
struct Patience {
    double last = now(), used = 0;
    double poll() {
        double t = now(), d = t - last;
        last = t;
        return used += d < 0.25 ? d : 0.25;
    }
};

// A thread tied to one processor can be runnable there and yet not run for a long time on a busy machine:
// when an execution seems stuck, let its threads run anywhere before judging.
static void untie(pid_t pid) {
    cpu_set_t all;
    if(sched_getaffinity(0, sizeof all, &all)) return;
    char d[64];
    snprintf(d, sizeof d, "/proc/%d/task", (int)pid);
    if(DIR* dir = opendir(d)) {
        while(dirent* e = readdir(dir))
            if(pid_t t = (pid_t)atoi(e->d_name)) sched_setaffinity(t, sizeof all, &all);
        closedir(dir);
    }
}

void fail(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_slot->msg, sizeof(g_slot->msg), fmt, ap);
    va_end(ap);
    if(g_ctx && g_ctx->verbose) {
        fprintf(stderr, "%s  FAIL: %s\n", g_ctx->trace.c_str(), g_slot->msg);
        fflush(stderr);
    }
    g_slot->failed.store(1);
    _exit(86);
}

ENG static uint64_t t_checks = 0;
void count_check() {
    t_checks++;
}

uint32_t Ctx::choose(uint32_t n, const char* what) {
    if(n > 65535) { fprintf(stderr, "choose(%u): too wide\n", n); abort(); }
    if(n == 0) fail("harness error: choose(0) at %s", what);
    if(n > 65535) fail("harness error: choose(%u) at %s", n, what);
    uint32_t c = 0;
    if(pos < replay_len) {
        c = replay[pos];
        if(c >= n) fail("replay divergence at choice %u (%u of %u) %s", pos, c, n, what);
        if(pos < fresh_from && width[pos] != n && width[pos] != 0 && !verbose)
            fail("replay divergence at choice %u: width %u was %u %s", pos, n, width[pos], what);
    }
    if(pos >= kMaxChoices) fail("harness error: too many choices");
    path[pos] = (uint16_t)c;
    width[pos] = (uint16_t)n;
    g_slot->choice[pos] = (uint16_t)c;
    pos++;
    g_slot->len.store(pos, std::memory_order_relaxed);
    return c;
}

void Ctx::op(const char* fmt, ...) {
    if(pos > fresh_from || fresh_from == 0)
        g_slot->steps.store(g_slot->steps.load(std::memory_order_relaxed) + 1,
                            std::memory_order_relaxed);
    if(verbose || sampling) {
        char buf[512];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        trace += "  ";
        trace += buf;
        trace += verbose ? "\n" : ";";
        if(verbose) {
            fprintf(stderr, "  %s\n", buf);
        }
    }
}

void Ctx::note(const char* fmt, ...) {
    if(!verbose) return;
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    fprintf(stderr, "  # %s\n", buf);
}

void Ctx::state(uint64_t h) {
    if(pos <= fresh_from && fresh_from != 0) return;
    if(h == 0) h = 1;
    uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> 42;
    for(int probe = 0; probe < 256; probe++, i = (i + 1) & (kSetSize - 1)) {
        uint64_t cur = sh->set[i].load(std::memory_order_relaxed);
        if(cur == h) return;
        if(cur == 0) {
            if(sh->set[i].compare_exchange_strong(cur, h)) {
                sh->nstates.fetch_add(1, std::memory_order_relaxed);
                return;
            }
            if(cur == h) return;
        }
    }
    sh->set_full.store(1);
}

static void run_one(Ctx& c, const Body& body) {
    c.pos = 0;
    c.trace.clear();
    g_ctx = &c;
    g_slot->len.store(0, std::memory_order_relaxed);
    body(c);
    g_slot->beat.fetch_add(1, std::memory_order_relaxed);
}

ENG static double g_deadline = 0;

// explore all choice sequences of `body`; this worker takes the prefixes it claims.
static void worker(int w, const Scenario& s, bool thorough) {
    Slot& slot = sh->slot[w];
    g_slot = &slot;
    g_slot_index = w;
    Ctx& c = *new Ctx();
    c.thorough = thorough;
    std::vector<uint16_t> choices;
    std::vector<uint16_t> widths;
    uint64_t prefix_id = 0;
    bool owned = false;
    bool first = true;
    int split = s.split;
    uint32_t fresh = 0;
    uint64_t checks = 0;
    while(true) {
        if(sh->stop.load(std::memory_order_relaxed)) _exit(0);
        bool new_prefix = first || (int)fresh < split;
        if(new_prefix) {
            uint64_t id = first ? 0 : ++prefix_id;
            if(s.serial) owned = (w == 0);
            else if(id >= (1u << 20)) owned = (id % kWorkers) == (uint64_t)w;
            else owned = sh->claimed[id].exchange(1) == 0;
        }
        if(s.serial && w != 0) break;
        first = false;
        c.replay = choices.data();
        c.replay_len = (uint32_t)choices.size();
        c.fresh_from = owned ? fresh : UINT32_MAX;
        memset(c.width, 0, sizeof(uint16_t) * choices.size());
        for(size_t i = 0; i < widths.size() && i < fresh; i++) c.width[i] = widths[i];
        uint64_t e = slot.execs.load(std::memory_order_relaxed);
        c.sampling = owned && slot.nsample.load() < 4 &&
                     (e == 0 || e == 37 || e == 1009 || e == 20011);
        t_checks = 0;
        run_one(c, s.body);
        if(c.pos < c.replay_len)
            fail("replay divergence: execution ended after %u of %u choices", c.pos, c.replay_len);
        if(owned) {
            checks += t_checks;
            slot.execs.store(e + 1, std::memory_order_relaxed);
            slot.checks.fetch_add(t_checks, std::memory_order_relaxed);
            if(c.pos > slot.maxlen.load()) slot.maxlen.store(c.pos);
            if(c.sampling) {
                uint32_t k = slot.nsample.fetch_add(1);
                snprintf(slot.sample[k], sizeof slot.sample[k], "%s: %s", s.name.c_str(),
                         c.trace.c_str());
            }
        }
        // next
        uint32_t n = c.pos;
        // if not owned, only the first `split` choices matter
        uint32_t lim = owned ? n : (n < (uint32_t)split ? n : (uint32_t)split);
        int i = (int)lim - 1;
        while(i >= 0 && c.path[i] + 1 >= c.width[i]) i--;
        if(i < 0) break;
        choices.assign(c.path, c.path + i + 1);
        choices[i]++;
        widths.assign(c.width, c.width + i + 1);
        fresh = (uint32_t)i; // choice i itself is new; ops after it are fresh
        if((e & 255) == 0 && g_deadline > 0 && now() > g_deadline) {
            slot.capped.store(1);
            break;
        }
    }
    slot.done.store(1);
    _exit(0);
}

static std::string g_dir;

static int replay_child(const Scenario& s, bool thorough, const std::vector<uint16_t>& ch,
                        const char* logpath, int timeout_s, std::string& why) {
    Slot& slot = sh->slot[0];
    slot.failed.store(0);
    slot.msg[0] = 0;
    pid_t p = fork();
    if(p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if(logpath) {
            int fd = open(logpath, O_WRONLY | O_CREAT | O_APPEND, 0644);
            if(fd >= 0) {
                dup2(fd, 2);
                dup2(fd, 1);
            }
        }
        g_slot = &slot;
        Ctx& c = *new Ctx();
        c.thorough = thorough;
        c.replay = ch.data();
        c.replay_len = (uint32_t)ch.size();
        c.verbose = true;
        run_one(c, s.body);
        _exit(0);
    }
    Patience patience;
    int st = 0;
    double untied = 0;
    while(true) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if(r == p) break;
        double used = patience.poll();
        if(used - untied > 8) {
            untie(p);
            untied = used;
        }
        if(used > timeout_s) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            why = "the execution does not terminate";
            return 1;
        }
        usleep(2000);
    }
    if(WIFSIGNALED(st)) {
        char b[128];
        snprintf(b, sizeof b, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        why = b;
        return 1;
    }
    if(WEXITSTATUS(st) == 0) return 0;
    if(WEXITSTATUS(st) == 86) {
        why = slot.msg;
        return 1;
    }
    char b[128];
    snprintf(b, sizeof b, "exit status %d (sanitizer report or assertion)", WEXITSTATUS(st));
    why = b;
    return 1;
}

static std::string json_escape(const std::string& s) {
    std::string o;
    for(unsigned char ch : s) {
        if(ch == '"' || ch == '\\') {
            o += '\\';
            o += (char)ch;
        } else if(ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else o += (char)ch;
    }
    return o;
}

// A line "known: property=P scenario=S match=TEXT :: description" of the committed file names one
// failing scenario and the failure it shows; anything else that fails there is a violation.
static std::string known_finding(const std::string& file, const std::string& prop,
                                 const std::string& scenario, const std::string& why) {
    FILE* f = file.empty() ? nullptr : fopen(file.c_str(), "r");
    if(!f) return "";
    char line[4096];
    std::string found, head = "known: property=" + prop + " scenario=" + scenario + " match=";
    while(fgets(line, sizeof line, f)) {
        std::string l = line;
        while(!l.empty() && l.back() == '\n') l.pop_back();
        if(l.compare(0, head.size(), head)) continue;
        size_t sep = l.find(" :: ");
        if(sep == std::string::npos) continue;
        if(why.find(l.substr(head.size(), sep - head.size())) == std::string::npos) continue;
        found = scenario + ": " + l.substr(sep + 4);
        break;
    }
    fclose(f);
    return found;
}

int Main::run(int argc, char** argv) {
    double t0 = now();
    const char* tier = getenv("VERIF_TIER");
    bool thorough = tier && !strcmp(tier, "thorough");
    const char* seed = getenv("VERIF_SEED");
    std::string outdir = "/verif/out", evdir = "/verif/evidence", replayf, only, knownf;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if(a == "--replay" && i + 1 < argc) replayf = argv[++i];
        else if(a == "--only" && i + 1 < argc) only = argv[++i];
        else if(a == "--out" && i + 1 < argc) outdir = argv[++i];
        else if(a == "--evidence" && i + 1 < argc) evdir = argv[++i];
        else if(a == "--known" && i + 1 < argc) knownf = argv[++i];
        else if(a == "--thorough") thorough = true;
    }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
                       -1, 0);
    mkdir(outdir.c_str(), 0755);
    mkdir(evdir.c_str(), 0755);

    if(!replayf.empty()) {
        FILE* f = fopen(replayf.c_str(), "r");
        if(!f) {
            perror("replay");
            return 2;
        }
        char line[65536], name[256] = "", t[32] = "quick";
        std::vector<uint16_t> ch;
        while(fgets(line, sizeof line, f)) {
            if(sscanf(line, "scenario: %255s", name) == 1) continue;
            if(sscanf(line, "tier: %31s", t) == 1) continue;
            if(!strncmp(line, "choices:", 8)) {
                char* p = line + 8;
                while(true) {
                    char* e;
                    long v = strtol(p, &e, 10);
                    if(e == p) break;
                    ch.push_back((uint16_t)v);
                    p = e;
                }
            }
        }
        fclose(f);
        for(auto& s : scenarios)
            if(s.name == name) {
                std::string why;
                int r = replay_child(s, !strcmp(t, "thorough"), ch, nullptr, s.hang_s, why);
                printf("%s: %s\n", r ? "REPRODUCED" : "no failure", why.c_str());
                return r;
            }
        fprintf(stderr, "no such scenario %s\n", name);
        return 2;
    }

    struct Res {
        std::string name;
        uint64_t execs, steps, states, checks;
        uint32_t maxlen;
        bool capped;
        double wall;
        bool known = false;
    };
    std::vector<Res> results;
    std::vector<std::string> samples, known_seen;
    int violations = 0;
    double budget = thorough ? 3000 : 420; // a safety net; reported as a cap if it is ever hit
    if(const char* b = getenv("VERIF_BUDGET_S")) budget = atof(b);
    g_deadline = t0 + budget;

    std::vector<Scenario*> todo;
    for(auto& s : scenarios) todo.push_back(&s);
    int attempt = 0;
    for(size_t at = 0; at < todo.size(); at++) {
        Scenario& s = *todo[at];
        if(s.thorough_only && !thorough) continue;
        if(!only.empty() && s.name.find(only) == std::string::npos) continue;
        attempt = at && todo[at - 1] == &s ? attempt + 1 : 0;
        // reset shared
        for(auto& sl : sh->slot) {
            sl.beat = 0;
            sl.len = 0;
            sl.failed = 0;
            sl.msg[0] = 0;
            sl.execs = 0;
            sl.steps = 0;
            sl.checks = 0;
            sl.maxlen = 0;
            sl.done = 0;
            sl.capped = 0;
            sl.nsample = 0;
        }
        sh->stop = 0;
        sh->nstates = 0;
        sh->set_full = 0;
        memset((void*)sh->set, 0, sizeof sh->set);
        memset((void*)sh->claimed, 0, sizeof sh->claimed);
        double s0 = now();
        {
            std::string rp = outdir + "/" + property + "-" + s.name + ".replay";
            unlink(rp.c_str());
        }
        pid_t pid[kWorkers];
        uint64_t lastbeat[kWorkers] = {};
        double lasttime[kWorkers];
        double untied[kWorkers];
        std::string errlog = outdir + "/" + property + ".stderr";
        for(int w = 0; w < kWorkers; w++) {
            lasttime[w] = 0;
            untied[w] = 0;
            pid[w] = fork();
            if(pid[w] == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                int fd = open(errlog.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                if(fd >= 0) {
                    dup2(fd, 2);
                    dup2(fd, 1);
                }
                worker(w, s, thorough);
                _exit(0);
            }
        }
        int alive = kWorkers;
        int bad = -1, badst = 0;
        bool hang = false;
        Patience patience;
        while(alive > 0 && bad < 0) {
            double used = patience.poll();
            for(int w = 0; w < kWorkers; w++) {
                if(pid[w] < 0) continue;
                int st;
                pid_t r = waitpid(pid[w], &st, WNOHANG);
                if(r == pid[w]) {
                    pid[w] = -1;
                    alive--;
                    if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                        bad = w;
                        badst = st;
                        break;
                    }
                    continue;
                }
                uint64_t b = sh->slot[w].beat.load();
                if(b != lastbeat[w]) {
                    lastbeat[w] = b;
                    lasttime[w] = used;
                } else if(used - lasttime[w] > 8 && used - untied[w] > 8) {
                    untie(pid[w]);
                    untied[w] = used;
                } else if(used - lasttime[w] > s.hang_s) {
                    bad = w;
                    hang = true;
                    break;
                }
            }
            usleep(1000);
        }
        sh->stop = 1;
        for(int w = 0; w < kWorkers; w++)
            if(pid[w] > 0) {
                kill(pid[w], SIGKILL);
                int st;
                waitpid(pid[w], &st, 0);
            }
        Res r{s.name, 0, 0, sh->nstates.load(), 0, 0, false, 0};
        for(auto& sl : sh->slot) {
            r.execs += sl.execs;
            r.steps += sl.steps;
            r.checks += sl.checks;
            if(sl.maxlen > r.maxlen) r.maxlen = sl.maxlen;
            if(sl.capped) r.capped = true;
        }
        uint32_t got = 0;
        for(auto& sl : sh->slot)
            for(uint32_t k = 0; k < sl.nsample && k < 4 && got < 2; k++, got++)
                samples.push_back(sl.sample[k]);
        r.wall = now() - s0;
        if(bad >= 0) {
            // sh->slot[bad] holds the choices made; confirm by replaying them alone.
            Slot& sl = sh->slot[bad];
            std::vector<uint16_t> ch(sl.choice, sl.choice + sl.len.load());
            char how[64];
            if(WIFSIGNALED(badst)) snprintf(how, sizeof how, "crash, signal %d", WTERMSIG(badst));
            else snprintf(how, sizeof how, "exit status %d", WEXITSTATUS(badst));
            std::string first_msg = sl.failed ? sl.msg : (hang ? "no progress" : how);
            std::string rp = outdir + "/" + property + "-" + s.name + ".replay";
            for(auto& cc : rp)
                if(cc == ' ') cc = '_';
            FILE* f = fopen(rp.c_str(), "w");
            fprintf(f, "property: %s\nscenario: %s\ntier: %s\nchoices:", property.c_str(),
                    s.name.c_str(), thorough ? "thorough" : "quick");
            for(auto v : ch) fprintf(f, " %u", v);
            fprintf(f, "\ntrace of the replayed execution:\n");
            fclose(f);
            std::string why;
            int rr = replay_child(s, thorough, ch, rp.c_str(), hang ? 3 * s.hang_s : s.hang_s * 2 + 30,
                                  why);
            if(rr && !hang && why == "the execution does not terminate") why = first_msg; // reporting was slow
            if(!rr && attempt < 2) { // a crowded machine, or a failure that depends on more than the choices: look again
                fprintf(stderr, "%s/%s: first report (%s) did not reproduce in isolation, exploring again\n", property.c_str(), s.name.c_str(),
                        first_msg.c_str());
                todo.insert(todo.begin() + (long)at, &s);
                continue;
            }
            if(!rr) {
                // failure may need the executions before it in the same process: retry whole slice
                fprintf(stderr,
                        "%s/%s: first report (%s) did not reproduce in isolation, exploring "
                        "serially\n",
                        property.c_str(), s.name.c_str(), first_msg.c_str());
                for(auto& s2 : sh->slot) {
                    s2.failed = 0;
                    s2.execs = 0;
                    s2.steps = 0;
                    s2.done = 0;
                }
                sh->stop = 0;
                memset((void*)sh->claimed, 0, sizeof sh->claimed);
                pid_t p = fork();
                if(p == 0) {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    int fd = open(rp.c_str(), O_WRONLY | O_APPEND);
                    dup2(fd, 2);
                    g_deadline = now() + 120;
                    worker(0, s, thorough);
                }
                int st;
                waitpid(p, &st, 0);
                if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                    rr = 1;
                    why = first_msg + " (needs the preceding executions in the same process)";
                } else {
                    fprintf(stderr, "not reproducible: %s\n", first_msg.c_str());
                    if(!hang) return 2;
                    r.capped = true; // every execution ended when it was given the time
                }
            }
            if(rr) {
                f = fopen(rp.c_str(), "a");
                fprintf(f, "result: %s\n", why.c_str());
                fclose(f);
                std::string kf = known_finding(knownf, property, s.name, why);
                if(!kf.empty()) {
                    printf("KNOWN-FINDING: property=%s %s\n", property.c_str(), kf.c_str());
                    known_seen.push_back(kf);
                    r.known = true;
                } else {
                    printf("%s/%s: %s\n", property.c_str(), s.name.c_str(), why.c_str());
                    printf("VIOLATION property=%s replay=%s\n", property.c_str(), rp.c_str());
                    violations++;
                }
                fflush(stdout);
            }
        }
        printf("%-36s execs=%-10llu ops=%-11llu states=%-8llu checks=%-11llu depth=%u%s%s %.1fs\n",
               s.name.c_str(), (unsigned long long)r.execs, (unsigned long long)r.steps,
               (unsigned long long)r.states, (unsigned long long)r.checks, r.maxlen,
               r.capped ? " CAPPED" : "", sh->set_full ? " (state set saturated)" : "", r.wall);
        fflush(stdout);
        results.push_back(r);
        if(violations) break;
    }

    uint64_t E = 0, S = 0, T = 0, C = 0;
    bool capped = false;
    for(auto& r : results) {
        E += r.execs;
        S += r.states;
        T += r.steps;
        C += r.checks;
        capped |= r.capped;
    }
    std::string ev = evdir + "/" + property + ".json";
    FILE* f = fopen((ev + ".tmp").c_str(), "w");
    fprintf(f,
            "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": "
            "\"model_checking\",\n \"coverage\": {\n  \"states\": %llu,\n  \"transitions\": %llu,\n "
            " \"traces_validated_against_impl\": %llu,\n  \"oracle_checks\": %llu,\n  "
            "\"exhaustive\": %s,\n  \"bounds\": \"%s\",\n  \"scenarios\": [\n",
            property.c_str(), thorough ? "thorough" : "quick", seed ? atoi(seed) : 1,
            (unsigned long long)S, (unsigned long long)T, (unsigned long long)E,
            (unsigned long long)C, capped || violations ? "false" : "true",
            json_escape(bounds).c_str());
    for(size_t i = 0; i < results.size(); i++) {
        auto& r = results[i];
        fprintf(f,
                "   {\"name\": \"%s\", \"executions\": %llu, \"operations\": %llu, "
                "\"distinct_observable_states\": %llu, \"oracle_checks\": %llu, "
                "\"max_choices\": %u, \"time_cap_hit\": %s, \"known_finding\": %s, \"wall_s\": "
                "%.2f}%s\n",
                json_escape(r.name).c_str(), (unsigned long long)r.execs,
                (unsigned long long)r.steps, (unsigned long long)r.states,
                (unsigned long long)r.checks, r.maxlen, r.capped ? "true" : "false",
                r.known ? "true" : "false", r.wall, i + 1 < results.size() ? "," : "");
    }
    fprintf(f, "  ],\n  \"samples\": [");
    for(size_t i = 0; i < samples.size() && i < 12; i++)
        fprintf(f, "%s\n   \"%s\"", i ? "," : "", json_escape(samples[i]).c_str());
    fprintf(f, "]\n },\n \"assumptions\": [");
    for(size_t i = 0; i < assumptions.size(); i++)
        fprintf(f, "%s\n  \"%s\"", i ? "," : "", json_escape(assumptions[i]).c_str());
    fprintf(f, "],\n \"known_findings\": [");
    for(size_t i = 0; i < known_seen.size(); i++)
        fprintf(f, "%s\n  \"%s\"", i ? "," : "", json_escape(known_seen[i]).c_str());
    fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now() - t0, violations);
    fclose(f);
    rename((ev + ".tmp").c_str(), ev.c_str());
    return violations ? 1 : 0;
}

} // namespace mc
