// Scenarios about memory: allocation failure, ceilings, uninitialised data.
#include "life.hpp"

// Every API call on a failed VM: nothing may happen.
static void harmless(Node &n, const Life &l)
{
    World &w = n.w;
    NKVM *vm = n.vm;
    NKValue v = nkNil(), k = nkInt(3), r = nkNil(), o = nkNil();
    size_t evs = n.ev.size(), fins = n.finals.size();
    uint64_t allocs = n.alloc.nAllocs, marks = n.markCalls;
    auto still = [&](const char *what) {
        if(w.bad()) return;
        if(!n.oom()) w.fail("failure-lost", Str(what) + " cleared the allocation failure");
        else if(!nkxVmHasErrors(vm) || !nkxGetErrorCount(vm)) w.fail("failure-lost", Str("no error reported after ") + what);
        else if(n.errors().find("llocation") == Str::npos) w.fail("failure-lost", Str("the error text does not name the allocation failure: '") + n.errors() + "'");
        else if(n.ev.size() != evs) w.fail("failed-vm-acts", Str(what) + " ran script on a failed VM: " + n.ev.back());
        else if(n.finals.size() != fins) w.fail("failed-vm-acts", Str(what) + " finalised an object of a failed VM");
        else if(n.markCalls != marks) w.fail("failed-vm-acts", Str(what) + " called a mark callback of a failed VM");
        else if(n.alloc.nAllocs != allocs) w.fail("failed-vm-acts", Str(what) + " allocated in a failed VM");
    };
    still("nothing");
    int acts = 4 + (int)w.t.draw(20);
    for(int i = 0; i < acts && !w.bad(); i++) {
        uint32_t a = w.t.draw(44);
        w.ev(strf("on the failed VM: call %u", a));
        o.type = NK_VALUETYPE_OBJECTID;
        o.objectId = w.t.draw(20);
        switch(a) {
            case 0: nkxVmIterate(vm, 1 + w.t.draw(500)); break;
            case 1: if(nkxVmExecuteProgram(vm)) w.fail("failure-lost", "nkxVmExecuteProgram succeeded on a failed VM"); break;
            case 2: nkxVmGarbageCollect(vm); break;
            case 3: nkxVmShrink(vm); break;
            case 4: { Stream s; if(n.save(s)) w.fail("failure-lost", "a failed VM could be saved"); } break;
            case 5: { Stream s; s.data = l.image; if(n.load(s)) w.fail("failure-lost", "a failed VM could be loaded"); } break;
            case 6: nkxCreateObject(vm, &o); break;
            case 7: nkxValueSetString(vm, &v, "abc"); break;
            case 8: nkxVmObjectAcquireHandle(vm, &o); break;
            case 9: nkxVmObjectReleaseHandle(vm, &o); break;
            case 10: nkxVmObjectFindOrAddEntry(vm, &o, &k, nkfalse); break;
            case 11: nkxVmObjectClearEntry(vm, &o, &k); break;
            case 12: nkxVmObjectGetSize(vm, &o); break;
            case 13: if(nkxMalloc(vm, 10)) w.fail("failure-lost", "nkxMalloc gave memory from a failed VM"); break;
            case 14: if(nkxStrdup(vm, "x")) w.fail("failure-lost", "nkxStrdup gave memory from a failed VM"); break;
            case 15: nkxFree(vm, nullptr); break;
            case 16: nkxRealloc(vm, nullptr, 5); break;
            case 17: nkxAddError(vm, "more"); break;
            case 18: nkxAddErrorEx(vm, "more", "file", 3); break;
            case 19: n.errors(); break;
            case 20: { static FILE *nul = fopen("/dev/null", "w"); nkxDbgDumpState(vm, l.m.p.src.c_str(), nul); } break;
            case 21: nkxVmRegisterExternalFunction(vm, "late", nullptr); break;
            case 22: nkxVmRegisterExternalType(vm, "Late", nullptr, nullptr, nullptr); break;
            case 23: nkxVmFindExternalType(vm, "SimRes"); nkxVmGetExternalTypeName(vm, n.tRes); break;
            case 24: nkxInitSubsystem(vm, nullptr, "late", nullptr, nullptr, nullptr); break;
            case 25: nkxGetExternalSubsystemData(vm, "simsys"); break;
            case 26: nkxGetExternalSubsystemDataOrError(vm, "nonesuch"); break;
            case 27: { nkuint32_t i2 = 0; while(nkxGetNextObjectOfExternalType(vm, n.tRes, &v, &i2)) { } } break;
            case 28: if(nkxCompilerCreate(vm)) w.fail("failure-lost", "a compiler was made for a failed VM"); break;
            case 29: nkxVmFindGlobalVariable(vm, nullptr, "out"); break;
            case 30: nkxVmProgramHasEnded(vm); break;
            case 31: nkxVmGetCurrentMemoryUsage(vm); nkxVmGetPeakMemoryUsage(vm); break;
            case 32: nkxSetMaxAllocatedMemory(vm, 0xffffffffu); nkxSetMaxStackSize(vm, 0xffffffffu); nkxSetRemainingInstructionLimit(vm, 100000); nkxSetGarbageCollectionInterval(vm, 1); break;
            case 33: { NKValue f = nkNil(); f.type = NK_VALUETYPE_FUNCTIONID; f.functionId.id = w.t.draw(4); nkxVmCallFunction(vm, &f, 1, &k, &r); } break;
            case 34: nkxValueToString(vm, &k); nkxValueToInt(vm, &k); nkxValueToFloat(vm, &k); break;
            case 35: nkxForceCatastrophicFailure(vm); break;
            case 36: nkxVmObjectGetExternalHandleCount(vm, &o); break;
            case 37: nkxVmObjectGetExternalData(vm, &o); nkxVmObjectGetExternalType(vm, &o); break;
            case 38: nkxVmObjectSetExternalData(vm, &o, &n); break;
            case 39: nkxMallocArray(vm, 3, 4); nkxReallocArray(vm, nullptr, 3, 4); break;
            case 40: { NKVMExternalFunctionID id; id.id = w.t.draw(30); nkxVmGetOrCreateInternalFunctionForExternalFunction(vm, id); } break;
            case 41: nkxVmSetupExternalFunction(vm, n.cs, "late2", nullptr, nktrue, 2, (int)NK_VALUETYPE_INT, (int)NK_VALUETYPE_INT); break;
            case 42: if(n.cs) { if(nkxCompilerCompileScript(n.cs, "var zz = 1;", "x")) w.fail("failure-lost", "a failed VM compiled"); nkxCompilerCreateGlobalVariable(n.cs, "zz2"); } break;
            default: if(n.cs && w.t.chance(1, 2)) { nkxCompilerFinalize(n.cs); n.cs = nullptr; } break;
        }
        still(strf("call %u", a).c_str());
    }
    w.count("action.calls_on_failed_vm", (uint64_t)acts);
}

void scP01(World &w)
{
    Life l = drawLife(w, true);
    if(!l.m.usable || w.bad()) return;
    NodeOpt o = pickNode(w.t);
    if(w.t.chance(1, 2)) o.gcInterval = 1 + w.t.draw(50);
    // Dry run: how many allocations there are, and where they fall.
    uint64_t total, create;
    std::vector<uint64_t> marksAt;
    std::vector<uint64_t> inHost, inNested;   // allocations made by host functions
    {
        Node n(w, o, "dry");
        n.alloc.onAlloc = [&](uint32_t) {
            if(n.hostDepth > 0) inHost.push_back(n.alloc.nAllocs - 1);
            if(n.hostDepth > 1) inNested.push_back(n.alloc.nAllocs - 1);
        };
        Hooks h;
        h.boundary = [&](Node &nn, const char *) { marksAt.push_back(nn.alloc.nAllocs); };
        Trace t;
        live(n, l, h, t);
        create = marksAt.empty() ? 0 : marksAt[0];
        n.destroy();
        total = n.alloc.nAllocs;
        if(w.bad()) return;
    }
    w.count("probe.allocations_in_dry_runs", total);
    uint64_t setupEnd = marksAt.size() > 1 ? marksAt[1] : total;
    int rounds = 6;
    int fired = 0;
    for(int i = 0; i < rounds && !w.bad(); i++) {
        NodeOpt f = o;
        uint32_t where = w.t.draw(12);
        if(where >= 10 && !inNested.empty()) f.failAt = inNested[w.t.draw((uint32_t)inNested.size())];
        else if(where >= 8 && !inHost.empty()) f.failAt = inHost[w.t.draw((uint32_t)inHost.size())];
        else if(where >= 4 && marksAt.size() > 4) {
            // Any action is as likely as another, however little it allocates.
            size_t b = 3 + w.t.draw((uint32_t)marksAt.size() - 3);
            uint64_t lo = marksAt[b - 1], hi = marksAt[b];
            f.failAt = hi > lo ? lo + w.t.draw((uint32_t)(hi - lo)) : lo;
        }
        else if(where == 0) f.failAt = w.t.draw((uint32_t)create + 1);
        else if(where == 1) f.failAt = w.t.draw((uint32_t)setupEnd + 1);
        else if(where == 2) f.failAt = total - 1 - w.t.draw((uint32_t)std::min<uint64_t>(total, 8));
        else f.failAt = setupEnd + w.t.draw((uint32_t)(total - setupEnd + 1));
        f.failCount = w.t.chance(1, 2) ? 1 : w.t.chance(1, 2) ? 1 + w.t.draw(4) : ~0ULL;
        f.fill = "\xa5\x00\xff\x5a"[w.t.draw(4)];
        f.blobs = o.blobs;
        Node n(w, f, strf("oom%d", i));
        bool failedBefore = false;
        Hooks h;
        h.boundary = [&](Node &nn, const char *where2) {
            if(nn.alloc.failsFired && !nn.oom()) w.fail("failure-hidden", Str("an allocation failed but the VM does not say so after ") + where2);
            if(nn.oom() && !nn.alloc.failsFired) w.fail("failure-invented", Str("the VM reports an allocation failure that did not happen, after ") + where2);
            failedBefore = nn.oom();
        };
        w.ev(strf("run %d: allocation %llu of %llu fails (%llu in a row)", i, (unsigned long long)f.failAt, (unsigned long long)total, (unsigned long long)f.failCount));
        Trace t;
        live(n, l, h, t);
        if(w.bad()) return;
        if(!n.vm) {
            if(!n.alloc.failsFired) w.fail("failure-invented", "nkxVmCreateEx gave no VM");
            if(!n.alloc.live.empty()) w.fail("leak", "nkxVmCreateEx gave no VM but kept memory");
            fired++;
            continue;
        }
        if(n.alloc.failsFired && !failedBefore) w.fail("failure-hidden", "no boundary saw the failure");
        if(n.alloc.failsFired) {
            fired++;
            harmless(n, l);
            if(w.bad()) return;
        } else {
            // Not reached yet: it strikes inside nkxVmDelete, or never.
            n.wantFinals = false;
            n.destroy();
            w.count(n.alloc.failsFired ? "fault.malloc_null_in_delete" : "probe.failure_not_reached");
            if(!w.bad() && n.sysCleanups != 1) w.fail("finalise", strf("subsystem cleanup ran %d times", n.sysCleanups));
            continue;
        }
        // The subsystem callback may never have been registered.
        bool reg = n.nodeRegistered();
        if(!reg) n.wantFinals = false;
        n.destroy();
        if(reg && !w.bad() && n.sysCleanups != 1) w.fail("finalise", strf("subsystem cleanup ran %d times", n.sysCleanups));
    }
    w.trivial = fired == 0;
    w.sig(l.m.p.src);
    w.sig(w.hash);
}

// ---------------------------------------------------------------------
struct Req { uint64_t before; uint32_t size; };

void scP02(World &w)
{
    Life l = drawLife(w, true, true);
    if(!l.m.usable || w.bad()) return;
    NodeOpt o = pickNode(w.t);
    if(w.t.chance(1, 2)) o.gcInterval = 1 + w.t.draw(50);
    auto account = [&](Node &n, const char *where) {
        uint64_t cur = nkxVmGetCurrentMemoryUsage(n.vm), peak = nkxVmGetPeakMemoryUsage(n.vm);
        if(cur != n.alloc.held()) w.fail("accounting", strf("after %s: usage %llu, outstanding %llu", where, (unsigned long long)cur, (unsigned long long)n.alloc.held()));
        else if(peak != n.alloc.peak - n.alloc.vmBlock) w.fail("accounting", strf("after %s: peak %llu, real peak %llu", where, (unsigned long long)peak, (unsigned long long)(n.alloc.peak - n.alloc.vmBlock)));
    };
    // Unlimited life: the exact sequence of requests.
    std::vector<Req> reqs;
    std::vector<uint64_t> bounds;      // request count at each boundary
    Trace t0;
    uint64_t endPeak = 0;
    {
        Node n(w, o, "unlimited");
        n.alloc.onAlloc = [&](uint32_t size) { Req r = { n.alloc.vmBlock ? n.alloc.held() : 0, size }; reqs.push_back(r); };
        Hooks h;
        h.boundary = [&](Node &nn, const char *where) { account(nn, where); bounds.push_back(reqs.size()); };
        live(n, l, h, t0);
        if(w.bad()) return;
        endPeak = n.alloc.peak - n.alloc.vmBlock;
        n.destroy();
        if(w.bad()) return;
    }
    // Under ceilings. The limit in force may change at action boundaries.
    int hits = 0;
    for(int i = 0; i < 4 && !w.bad(); i++) {
        NodeOpt f = o;
        uint64_t base = reqs.size() > 3 ? reqs[std::min<size_t>(reqs.size() - 1, (size_t)bounds[0])].before : 0;
        switch(w.t.draw(6)) {
            case 0: f.maxMem = (uint32_t)endPeak; break;
            case 1: f.maxMem = (uint32_t)endPeak - 1 - w.t.draw(3); break;
            case 2: f.maxMem = 1 + w.t.draw((uint32_t)endPeak + 100); break;
            case 3: f.maxMem = (uint32_t)base + w.t.draw((uint32_t)(endPeak - base) + 1); break;
            case 4: f.maxMem = (uint32_t)endPeak + 1 + w.t.draw(500); break;
            default: { size_t k = w.t.draw((uint32_t)reqs.size()); f.maxMem = (uint32_t)(reqs[k].before + reqs[k].size) - w.t.draw(3); } break;
        }
        if(!f.maxMem) f.maxMem = 1;
        int changeAt = w.t.chance(1, 3) ? (int)w.t.draw((uint32_t)bounds.size()) : -1;
        uint32_t newMax = changeAt >= 0 ? w.t.draw((uint32_t)endPeak + 200) + 1 : 0;
        // Where the model says the VM must fail: the first request that goes
        // over the ceiling in force. nkxVmCreateEx runs before any ceiling.
        uint64_t mustFail = ~0ULL;
        uint64_t b = 0;
        for(size_t k = (size_t)bounds[0]; k < reqs.size(); k++) {
            while(b < bounds.size() && bounds[b] <= k) b++;
            // Requests after boundary number b-1 belong to the next action.
            uint64_t lim = changeAt >= 0 && (int)b - 1 >= changeAt ? newMax : f.maxMem;
            if(reqs[k].before + reqs[k].size > lim) { mustFail = k; break; }
        }
        bool inDelete = mustFail != ~0ULL && mustFail >= bounds.back();
        Node n(w, f, strf("max%u", f.maxMem));
        n.alloc.limit = ~0ULL;
        size_t bi = 0;
        Hooks h;
        h.boundary = [&](Node &nn, const char *where) {
            account(nn, where);
            if(bi == 0) nn.alloc.limit = std::max<uint64_t>(f.maxMem, nn.alloc.held());
            if((int)bi == changeAt) {
                nkxSetMaxAllocatedMemory(nn.vm, newMax);
                nn.alloc.limit = std::max<uint64_t>(newMax, nn.alloc.held());
                w.count("action.ceiling_changed");
                if(nkxGetMaxAllocatedMemory(nn.vm) != newMax) w.fail("accounting", "the ceiling reads back differently");
            }
            bi++;
        };
        w.ev(strf("ceiling %u (then %u at boundary %d): request %lld must fail", f.maxMem, newMax, changeAt, (long long)mustFail));
        Trace t;
        live(n, l, h, t);
        if(w.bad()) return;
        if(mustFail == ~0ULL || inDelete) {
            if(n.oom()) w.fail("ceiling-too-low", strf("the VM failed below its ceiling %u at request %llu, holding %llu", f.maxMem, (unsigned long long)n.alloc.nAllocs, (unsigned long long)n.alloc.held()));
            else if(t.ev != t0.ev) w.fail("ceiling-visible", "output differs under a ceiling that was never reached");
            if(inDelete) n.wantFinals = false;
        } else {
            hits++;
            w.count("fault.ceiling_reached");
            if(!n.oom()) w.fail("ceiling-ignored", strf("request %llu would hold more than %u but the VM did not fail", (unsigned long long)mustFail, f.maxMem));
            else if(n.alloc.nAllocs != mustFail) w.fail("ceiling-inexact", strf("failed at request %llu, the ceiling is reached at %llu", (unsigned long long)n.alloc.nAllocs, (unsigned long long)mustFail));
            if(!w.bad()) harmless(n, l);
        }
        if(w.bad()) return;
        bool reg = n.nodeRegistered();
        if(!reg) n.wantFinals = false;
        n.destroy();
    }
    // Absurd requests.
    if(w.t.chance(1, 4) && !w.bad()) {
        Node n(w, o, "huge");
        if(!n.build(l.m.p)) { w.fail("compile", "rejected"); return; }
        static const uint32_t sizes[] = { 0xffffffffu, 0xfffffff0u, 0xffffffd8u, 0xffffffc0u, 0x80000000u, 0xf0000000u };
        uint32_t s = sizes[w.t.draw(6)];
        uint32_t k = w.t.draw(4);
        if(w.t.chance(1, 2)) nkxSetMaxAllocatedMemory(n.vm, 100000000u + w.t.draw(1000));
        void *p = k == 0 ? nkxMalloc(n.vm, s) : k == 1 ? nkxMallocArray(n.vm, s, 1 + w.t.draw(5)) : k == 2 ? nkxMallocArray(n.vm, 2 + w.t.draw(5), s) : nkxRealloc(n.vm, nkxMalloc(n.vm, 10), s);
        w.count("fault.absurd_request");
        if(p || !n.oom()) w.fail("ceiling-ignored", strf("a request of %u bytes was granted", s));
        account(n, "absurd request");
        if(!w.bad()) { harmless(n, l); }
        n.destroy();
    }
    w.trivial = reqs.size() < 10;
    w.count("probe.ceilings_hit", (uint64_t)hits);
    w.sig(l.m.p.src);
    w.sig(w.hash);
}

// ---------------------------------------------------------------------
void scP24(World &w)
{
    Life l = drawLife(w, true, true);
    if(!l.m.usable || w.bad()) return;
    NodeOpt o = pickNode(w.t);
    o.fill = 0;
    uint32_t failAt = 0;
    struct Rec { uint64_t hash, allocs, bytes, peak; std::vector<Str> ev; Str err; Str dump; std::vector<Bytes> saves; std::vector<uint32_t> sizes; bool oom; };
    std::vector<Rec> recs;
    if(w.t.chance(1, 4)) failAt = 1 + w.t.draw(2000);
    for(int i = 0; i < 3 && !w.bad(); i++) {
        NodeOpt f = o;
        if(i == 1) f.fill = (unsigned char)(1 + w.t.draw(255));
        f.fillSeed = w.t.draw(1000000) + 1;
        f.fillRandom = i == 2;
        f.place = i + 1;
        if(failAt) f.failAt = failAt;
        Node n(w, f, strf("fill%d", i));
        Rec r;
        std::vector<Bytes> *saves = &r.saves;
        std::vector<uint32_t> *sizes = &r.sizes;
        n.alloc.onAlloc = [sizes](uint32_t s) { sizes->push_back(s); };
        Hooks h;
        h.boundary = [&](Node &nn, const char *where) {
            // An image at every boundary.
            if(nn.oom() || nn.cs) return;
            if(strncmp(where, "act", 3)) return;
            Stream s;
            nn.save(s);
            saves->push_back(s.data);
        };
        Trace t;
        // The log of each life must be the same too.
        uint64_t h0 = w.hash;
        w.hash = 1;
        live(n, l, h, t);
        r.hash = w.hash;
        w.hash = h0 ^ r.hash;
        if(w.bad()) return;
        r.oom = n.oom();
        r.err = n.vm ? n.errors() : "";
        r.ev = n.ev;
        if(n.vm && !n.oom()) r.dump = n.dumpGlobals(l.m.p.globals);
        r.allocs = n.alloc.nAllocs;
        r.bytes = n.alloc.bytes;
        r.peak = n.alloc.peak;
        if(!n.nodeRegistered() || r.oom) n.wantFinals = false;
        n.destroy();
        n.alloc.onAlloc = nullptr;
        recs.push_back(r);
    }
    if(w.bad()) return;
    for(size_t i = 1; i < recs.size(); i++) {
        const Rec &a = recs[0], &b = recs[i];
        if(a.ev != b.ev) w.fail("fill-visible", "output depends on what allocated memory contains or where it lies");
        else if(a.err != b.err) w.fail("fill-visible", "errors depend on what allocated memory contains or where it lies: '" + a.err + "' vs '" + b.err + "'");
        else if(a.dump != b.dump) w.fail("fill-visible", "final data depend on what allocated memory contains or where it lies: " + dumpDiff(a.dump, b.dump));
        else if(a.sizes != b.sizes || a.bytes != b.bytes || a.peak != b.peak || a.allocs != b.allocs || a.oom != b.oom) w.fail("fill-visible", strf("allocator traffic depends on what allocated memory contains or where it lies (%llu and %llu requests, peak %llu and %llu)", (unsigned long long)a.allocs, (unsigned long long)b.allocs, (unsigned long long)a.peak, (unsigned long long)b.peak));
        else if(a.saves != b.saves) {
            size_t k = 0;
            while(k < a.saves.size() && k < b.saves.size() && a.saves[k] == b.saves[k]) k++;
            size_t x = 0;
            if(k < a.saves.size() && k < b.saves.size()) while(x < a.saves[k].size() && x < b.saves[k].size() && a.saves[k][x] == b.saves[k][x]) x++;
            w.fail("fill-in-snapshot", strf("snapshot %zu differs at byte %zu when allocated memory contains something else or lies elsewhere", k, x));
        }
        else if(a.hash != b.hash) w.fail("fill-visible", "the event log depends on what allocated memory contains or where it lies");
    }
    w.trivial = recs[0].ev.empty() && recs[0].saves.empty();
    w.count("probe.snapshots_compared", recs[0].saves.size() * 2);
    w.sig(l.m.p.src);
    w.sig(w.hash);
}
