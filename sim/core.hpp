// Deterministic-simulation core: choice tape (the single source of every
// decision), world (event log, violations, fault/probe counters) and the
// simulated allocator that VMs are given through nkxVmCreateEx().
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <functional>
#include <memory>
#include <algorithm>

typedef std::string Str;

Str strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------------
// Choice tape. In generation mode values come from a PRNG and are
// recorded; in replay mode they come from the recorded vector (0 past
// its end, 0 always being the simplest choice).
extern uint32_t *g_mirror;      // shared copy, so a crash does not lose the tape
extern uint32_t *g_mirrorLen;
extern uint32_t g_mirrorCap;

struct Tape
{
    uint64_t state = 0;
    bool replay = false;
    std::vector<uint32_t> rec;
    std::vector<uint32_t> src;
    size_t pos = 0;

    void seed(uint64_t s) { state = s; }
    uint64_t next64()
    {
        // splitmix64
        uint64_t z = (state += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    // Uniform in [0, n).
    uint32_t draw(uint32_t n)
    {
        uint32_t v;
        if(n <= 1) { return 0; }
        if(replay) {
            v = pos < src.size() ? src[pos] % n : 0;
            pos++;
        } else {
            v = (uint32_t)((next64() >> 11) % n);
        }
        rec.push_back(v);
        if(g_mirror && *g_mirrorLen < g_mirrorCap) { g_mirror[(*g_mirrorLen)++] = v; }
        return v;
    }
    // True with probability num/den (false is the simple choice).
    bool chance(uint32_t num, uint32_t den)
    {
        return draw(den) >= den - num;
    }
    int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }
};

// ---------------------------------------------------------------------
struct World
{
    Tape &t;
    Str prop;
    uint64_t hash = 1469598103934665603ULL;
    bool keepLog = false;
    Str vclass;  // first violation
    Str vmsg;
    std::map<Str, uint64_t> counters; // "fault.x", "probe.x", "action.x"
    uint64_t instrs = 0;              // simulated time: VM instructions
    uint64_t signature = 0;           // state/interleaving signature
    bool trivial = true;
    Str scenario;                     // human-readable scenario (program etc.)
    uint64_t events = 0;

    explicit World(Tape &tt) : t(tt) { }

    void mix(const void *p, size_t n)
    {
        const unsigned char *c = (const unsigned char *)p;
        for(size_t i = 0; i < n; i++) { hash = (hash ^ c[i]) * 1099511628211ULL; }
    }
    void ev(const Str &s)
    {
        mix(s.data(), s.size());
        mix("\n", 1);
        events++;
        if(keepLog && events < 20000) { fprintf(stderr, "%s\n", s.c_str()); }
    }
    // Detail for the log only; never part of the recorded history.
    void note(const Str &s) { if(keepLog && events < 20000) { fprintf(stderr, "    %s\n", s.c_str()); } }
    void setScenario(const Str &s)
    {
        scenario = s;
        if(keepLog) { fprintf(stderr, "--- program\n%s\n--- events\n", s.c_str()); }
    }
    void sig(uint64_t v) { signature = (signature ^ v) * 0x9e3779b97f4a7c15ULL; signature ^= signature >> 29; }
    void sig(const Str &s) { uint64_t h = 1469598103934665603ULL; for(char c : s) h = (h ^ (unsigned char)c) * 1099511628211ULL; sig(h); }
    void count(const Str &k, uint64_t n = 1) { counters[k] += n; }
    void fail(const Str &cls, const Str &msg)
    {
        if(vclass.empty()) {
            vclass = cls;
            vmsg = msg;
            ev("VIOLATION " + cls + ": " + msg);
        }
    }
    bool bad() const { return !vclass.empty(); }
};

// ---------------------------------------------------------------------
// Simulated allocator.
struct SimAlloc
{
    World *w = nullptr;
    uint64_t cookie = 0x51a110c8;
    Str name;
    std::unordered_map<void *, uint32_t> live;
    uint64_t nAllocs = 0;
    uint64_t bytes = 0;
    uint64_t peak = 0;
    uint64_t hardCap = 256u << 20;   // the "machine" runs out here
    uint64_t failAt = ~0ULL;         // fail this allocation number (0-based)
    uint64_t failCount = 1;          // and the following ones
    uint64_t failsFired = 0;
    unsigned char fill = 0xa5;
    bool fillRandom = false;
    uint32_t fillState = 1;
    int place = 0;                   // 0 host heap, 1 ascending, 2 descending, 3 scattered addresses
    uint32_t placeState = 1;
    uint32_t vmBlock = 0;            // size of the first block (struct NKVM)
    void *vmPtr = nullptr;
    uint64_t limit = ~0ULL;          // ceiling promised by the VM (bytes excluding vmBlock)
    bool deny = false;               // no allocation is expected at all now
    std::function<void(uint32_t)> onAlloc;

    explicit SimAlloc(World *ww);
    SimAlloc(const SimAlloc &) = delete;
    ~SimAlloc();
    void *alloc(uint32_t size);
    void release(void *p);
    void *raw(uint32_t size);        // a block, wherever this allocator puts blocks
    void rawFree(void *p, uint32_t size);
    struct Arena *arena = nullptr;
    uint64_t held() const { return bytes - vmBlock; }
};

void *simMalloc(uint32_t size, void *ud);
void simFree(void *p, void *ud);
extern SimAlloc *g_fallbackAlloc; // used when a callback gets a wrong userData

// ---------------------------------------------------------------------
typedef void (*ScenarioFn)(World &);
struct Scenario { const char *prop; ScenarioFn fn; uint32_t quickRuns; };
extern Scenario g_scenarios[];
