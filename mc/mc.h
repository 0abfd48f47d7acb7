// Engine A: stateless exhaustive exploration of choice sequences on the real code.
// A harness supplies bodies `void f(mc::Ctx& c)`; every call of c.choose(n) is a branch point and
// the engine enumerates every combination of answers (depth-first, in parallel processes).
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

constexpr int kMaxChoices = 4096;
constexpr int kWorkers = 8;

struct Slot { // one per worker, shared memory
    std::atomic<uint64_t> beat;
    std::atomic<uint32_t> len; // choices made so far in the current execution
    std::atomic<uint32_t> failed;
    uint16_t choice[kMaxChoices];
    char msg[2048];
    // statistics
    std::atomic<uint64_t> execs, steps, checks;
    std::atomic<uint32_t> maxlen;
    std::atomic<uint32_t> done;
    std::atomic<uint32_t> capped;
    char sample[4][1024];
    std::atomic<uint32_t> nsample;
};

struct Ctx {
    // --- used by harness bodies
    uint32_t choose(uint32_t n, const char* what = "");
    bool flip(const char* what = "") {
        return choose(2, what) != 0;
    }
    void op(const char* fmt, ...) __attribute__((format(printf, 2, 3))); // one transition
    void state(uint64_t h); // observable state reached (hash)
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    bool thorough = false;
    int tier(int quick, int thor) const {
        return thorough ? thor : quick;
    }
    // --- engine
    const uint16_t* replay = nullptr;
    uint32_t replay_len = 0;
    uint32_t fresh_from = 0; // choices at index >= fresh_from are new in this execution
    uint32_t pos = 0;
    uint16_t path[kMaxChoices];
    uint16_t width[kMaxChoices];
    bool verbose = false, sampling = false;
    std::string trace;
};

extern Ctx* g_ctx;
extern Slot* g_slot;
extern int g_slot_index;

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void count_check();

#define MC_CHECK(cond, ...)                                                                        \
    do {                                                                                           \
        ::mc::count_check();                                                                       \
        if(!(cond)) ::mc::fail("check `" #cond "` failed: " __VA_ARGS__);                          \
    } while(0)

using Body = std::function<void(Ctx&)>;

struct Scenario {
    std::string name;
    Body body;
    int split; // prefix length used to distribute work
    bool thorough_only = false;
    int hang_s = 30;
    bool serial = false; // run in one worker only (uses process-global resources)
};

struct Known { // a known finding: reported, never an alarm
    std::string id, what;
};

struct Main {
    std::string property;
    std::vector<Scenario> scenarios;
    std::vector<std::string> assumptions;
    std::string bounds;
    void add(const std::string& name, Body b, int split = 2, bool thorough_only = false,
             int hang_s = 30) {
        scenarios.push_back({name, b, split, thorough_only, hang_s, false});
    }
    void add_serial(const std::string& name, Body b, int hang_s = 30) {
        scenarios.push_back({name, b, 0, false, hang_s, true});
    }
    int run(int argc, char** argv);
};

// hashing helper
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* b = (const unsigned char*)p;
    for(size_t i = 0; i < n; i++) h = mix(h, b[i]);
    return h;
}

} // namespace mc
