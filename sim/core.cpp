#include "core.hpp"
extern "C" void __sanitizer_print_stack_trace(void);
#include <cstdarg>

Str strf(const char *fmt, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    return buf;
}

SimAlloc *g_fallbackAlloc = nullptr;

// A region at a fixed address, so that where blocks lie is a choice of the
// simulation too. Everything but the blocks handed out is poisoned.
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
struct Arena
{
    char *base = nullptr;
    size_t size = 256u << 20;
    size_t lo = 0, hi = 0;
    bool used = false;
    std::map<uint32_t, std::vector<char *>> freed;
};
static Arena g_arena;

static Arena *takeArena()
{
    Arena &a = g_arena;
    if(a.used) return nullptr;
    if(!a.base) {
        void *p = mmap((void *)0x200000000000ULL, a.size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if(p == MAP_FAILED) return nullptr;
        a.base = (char *)p;
    } else {
        __asan_poison_memory_region(a.base, a.lo);
        __asan_poison_memory_region(a.base + a.hi, a.size - a.hi);
    }
    a.lo = 0;
    a.hi = a.size;
    a.freed.clear();
    a.used = true;
    return &a;
}

void *SimAlloc::raw(uint32_t size)
{
    if(place && !arena) { arena = takeArena(); if(!arena) place = 0; }
    if(!place) return ::malloc(size ? size : 1);
    uint32_t cls = (size + 15) & ~15u;
    auto rnd = [this] { placeState = placeState * 1664525u + 1013904223u; return placeState >> 16; };
    std::vector<char *> &f = arena->freed[cls];
    char *p = nullptr;
    if(f.size() > 4 && (place != 3 || rnd() % 2)) {
        size_t i = place == 1 ? f.size() - 1 : place == 2 ? 0 : rnd() % f.size();
        p = f[i];
        f.erase(f.begin() + (long)i);
    } else {
        size_t pad = 32 + (place == 3 ? (rnd() % 64) * 16 : 0);
        if(arena->hi - arena->lo < (size_t)cls + pad) return nullptr;
        bool down = place == 2 || (place == 3 && rnd() % 2);
        if(down) { arena->hi -= cls + pad; p = arena->base + arena->hi; __asan_poison_memory_region(p, cls + pad); }
        else { p = arena->base + arena->lo; arena->lo += cls + pad; __asan_poison_memory_region(p, cls + pad); }
    }
    __asan_unpoison_memory_region(p, size);
    return p;
}

void SimAlloc::rawFree(void *p, uint32_t size)
{
    if(!place) { ::free(p); return; }
    __asan_poison_memory_region(p, size);
    arena->freed[(size + 15) & ~15u].push_back((char *)p);
}

static std::set<SimAlloc *> g_allocs;

SimAlloc::SimAlloc(World *ww) : w(ww)
{
    g_allocs.insert(this);
    g_fallbackAlloc = this;
}

SimAlloc::~SimAlloc()
{
    g_allocs.erase(this);
    if(g_fallbackAlloc == this) { g_fallbackAlloc = nullptr; }
    for(auto &p : live) { rawFree(p.first, p.second); }
    if(arena) { arena->used = false; }
}

void *SimAlloc::alloc(uint32_t size)
{
    uint64_t n = nAllocs++;
    static const char *bt = getenv("SIM_BT");
    if(bt && n == strtoull(bt, nullptr, 10)) { fprintf(stderr, "alloc %llu of %u in %s holding %llu\n", (unsigned long long)n, size, name.c_str(), (unsigned long long)bytes); __sanitizer_print_stack_trace(); }
    if(onAlloc) { onAlloc(size); }
    if(n >= failAt && n - failAt < failCount) {
        failsFired++;
        w->count("fault.malloc_null");
        return nullptr;
    }
    if(bytes + size > hardCap) {
        w->count("fault.host_out_of_memory");
        return nullptr;
    }
    void *p = raw(size);
    if(!p) { w->count("fault.host_out_of_memory"); return nullptr; }
    if(fillRandom) {
        unsigned char *c = (unsigned char *)p;
        for(uint32_t i = 0; i < size; i++) {
            fillState = fillState * 1664525u + 1013904223u;
            c[i] = (unsigned char)(fillState >> 24);
        }
    } else {
        memset(p, fill, size);
    }
    live[p] = size;
    bytes += size;
    if(!vmPtr) { vmPtr = p; vmBlock = size; }
    if(bytes > peak) { peak = bytes; }
    if(bytes - vmBlock > limit) {
        w->fail("memory-ceiling", strf("VM '%s' holds %llu bytes, configured ceiling is %llu",
                name.c_str(), (unsigned long long)(bytes - vmBlock), (unsigned long long)limit));
    }
    return p;
}

void SimAlloc::release(void *p)
{
    if(!p) { return; }
    auto it = live.find(p);
    if(it == live.end()) {
        w->fail("foreign-free", strf("VM '%s' freed a block that is not outstanding from its allocator", name.c_str()));
        return;
    }
    memset(p, 0xdd, it->second);
    uint32_t size = it->second;
    bytes -= size;
    live.erase(it);
    if(p == vmPtr) { vmPtr = nullptr; vmBlock = 0; }
    rawFree(p, size);
}

static SimAlloc *resolve(void *ud, const char *what)
{
    SimAlloc *a = (SimAlloc *)ud;
    if(g_allocs.count(a)) { return a; }
    if(g_fallbackAlloc) {
        g_fallbackAlloc->w->fail("allocator-userdata",
            strf("%s callback did not receive the host's userData", what));
        return g_fallbackAlloc;
    }
    return nullptr;
}

void *simMalloc(uint32_t size, void *ud)
{
    SimAlloc *a = resolve(ud, "malloc");
    return a ? a->alloc(size) : nullptr;
}

void simFree(void *p, void *ud)
{
    SimAlloc *a = resolve(ud, "free");
    if(a) { a->release(p); }
}
