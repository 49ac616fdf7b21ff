// Scenarios: failing snapshot streams, damaged snapshots.
#include "life.hpp"

// Anything a host might do with a VM whose load went wrong.
static void abuse(World &w, Node &n, const Model &m, int acts)
{
    NKVM *vm = n.vm;
    for(int i = 0; i < acts && !w.bad(); i++) {
        uint32_t k = w.t.draw(20);
        w.ev(strf("%s: use %u", n.name.c_str(), k));
        switch(k) {
            case 0: case 1: case 2: n.iterate(1 + w.t.draw(w.t.chance(1, 3) ? 2000 : 20)); break;
            case 3: case 4: n.collect("damaged"); break;
            case 5: case 6: nkxVmShrink(vm); break;
            case 7: { Stream s; s.limit = 8u << 20; n.save(s); } break;
            case 8: n.dumpGlobals(m.p.globals); break;
            case 9: lookAt(n, m, w.t.draw(9)); break;
            case 10: {
                static FILE *nul = fopen("/dev/null", "w");
                nkxDbgDumpState(vm, m.p.src.c_str(), nul);
            } break;
            case 11: {
                NKValue o = nkNil(), key = nkInt((int)w.t.draw(5));
                nkxCreateObject(vm, &o);
                if(n.oom() || o.type != NK_VALUETYPE_OBJECTID) break;
                NKValue *x = nkxVmObjectFindOrAddEntry(vm, &o, &key, nkfalse);
                if(x) *x = o;
                NKValue *gl = nkxVmFindGlobalVariable(vm, nullptr, "go0");
                if(gl && w.t.chance(1, 2)) *gl = o;
            } break;
            case 12: { NKValue v = nkNil(); nkxValueSetString(vm, &v, strf("s%u", w.t.draw(30)).c_str()); nkxValueToString(vm, &v); } break;
            case 13: {
                NKValue f = nkNil(), a[2] = { nkInt(3), nkNil() }, r = nkNil();
                f.type = NK_VALUETYPE_FUNCTIONID;
                f.functionId.id = w.t.draw(45);
                uint32_t argc = w.t.draw(3);
                // May run for ever otherwise.
                nkxSetRemainingInstructionLimit(vm, 3000);
                nkxVmCallFunction(vm, &f, argc, a, &r);
            } break;
            case 14: {
                NKValue o = nkNil(), key = nkNil();
                o.type = NK_VALUETYPE_OBJECTID;
                o.objectId = w.t.draw(40);
                nkxVmObjectGetSize(vm, &o);
                nkxVmObjectFindOrAddEntry(vm, &o, &key, nkfalse);
                nkxVmObjectClearEntry(vm, &o, &key);
                nkxVmObjectAcquireHandle(vm, &o);
                if(w.t.chance(1, 2)) nkxVmObjectReleaseHandle(vm, &o);
                n.extOf(o);
            } break;
            case 15: nkxVmProgramHasEnded(vm); n.errors(); nkxGetErrorCount(vm); break;
            case 16: nkxSetRemainingInstructionLimit(vm, 3000); nkxVmExecuteProgram(vm); break;
            case 17: {
                NKVMExternalDataTypeID ty[2] = { n.tRes, n.tBox };
                for(int j = 0; j < 2; j++) {
                    NKValue v;
                    nkuint32_t idx = 0;
                    while(nkxGetNextObjectOfExternalType(vm, ty[j], &v, &idx)) { n.extOf(v); nkxVmObjectGetExternalHandleCount(vm, &v); }
                }
            } break;
            case 18: nkxSetGarbageCollectionInterval(vm, 1 + w.t.draw(20)); nkxSetGarbageCollectionNewObjectInterval(vm, 1 + w.t.draw(5)); break;
            default: nkxVmGetCurrentMemoryUsage(vm); nkxVmGetPeakMemoryUsage(vm); nkxGetExternalSubsystemData(vm, "simsys"); break;
        }
        w.count("action.use_after_bad_load");
    }
}

// A running VM at some point of a program, and its image.
static bool origin(World &w, Node &n, const Model &m, Stream &s)
{
    if(!n.build(m.p)) { w.fail("compile", "a valid program was rejected: " + n.errors()); return false; }
    uint64_t k = w.t.chance(1, 8) ? 0 : w.t.draw((uint32_t)std::min<uint64_t>(m.r.steps * 3 + 10, 6000));
    SlicePolicy sp(w.t);
    for(uint64_t i = 0; i < k && !n.hasErr() && !n.ended(); ) { uint32_t q = sp.next(); n.iterate(q); i += q; }
    s.keepMarks = true;
    if(!n.save(s)) { w.fail("snapshot", "saving failed: " + n.errors()); return false; }
    return true;
}

static void place(World &w, Stream &s, const Stream &ref)
{
    // Which transfer, or which byte.
    if(w.t.chance(1, 2)) s.failCall = w.t.draw((uint32_t)ref.marks.size());
    else {
        uint32_t at = ref.marks[w.t.draw((uint32_t)ref.marks.size())];
        s.failByte = w.t.chance(1, 2) ? at : w.t.draw((uint32_t)ref.data.size());
        s.partial = w.t.chance(1, 2);
    }
    s.transient = w.t.chance(1, 4);
}

static Str describe(const Stream &s)
{
    return strf("%s %llu%s%s", s.failCall != ~0ULL ? "call" : "byte", s.failCall != ~0ULL ? (unsigned long long)s.failCall : (unsigned long long)s.failByte,
                s.partial ? " partial" : "", s.transient ? " transient" : "");
}

void scP07(World &w)
{
    GenOpt g = pickGen(w.t);
    if(w.t.chance(1, 2)) { g.wExt = 6; g.wCo = 8; g.wHandle = 4; }
    Model m = makeModel(w, g);
    if(!m.usable) return;
    Trace b = baseline(w, m);
    if(w.bad()) return;
    NodeOpt o = pickNode(w.t);
    Node n(w, o, "vm");
    Stream ref;
    if(!origin(w, n, m, ref)) return;
    n.quietSer = true;
    bool hadErr = n.hasErr();
    Str errs = n.errors(), dump = n.dumpGlobals(m.p.globals);
    // (Looking up field names makes strings.)
    ref = Stream();
    ref.keepMarks = true;
    if(!n.save(ref)) { w.fail("snapshot", "saving failed: " + n.errors()); return; }
    // Saves that fail.
    int fails = 1 + (int)w.t.draw(8);
    bool first = true;
    for(int i = 0; i < fails && !w.bad(); i++) {
        Stream s;
        place(w, s, ref);
        w.ev("save failing at " + describe(s));
        bool ok = n.save(s);
        if(!s.fired) { if(!ok || s.data != ref.data) w.fail("snapshot", "a save that met no fault failed or differs"); continue; }
        if(ok) { w.fail("failed-save", "the stream failed at " + describe(s) + " but the save succeeded"); break; }
        if(n.oom()) { w.fail("failed-save", "a failed save left the VM with an allocation failure"); break; }
        if(n.hasErr() != hadErr || n.errors() != errs) { w.fail("failed-save", "a save failing at " + describe(s) + " left errors in the running VM: " + n.errors()); break; }
        w.count("action.failed_save");
        if(w.t.chance(1, 2)) {
            Stream again;
            if(!n.save(again)) { w.fail("failed-save", "after a failed save at " + describe(s) + " the next one fails too: " + n.errors()); break; }
            if(again.data != ref.data) { w.fail("failed-save", "after a failed save at " + describe(s) + " the next image differs"); break; }
        }
        if(first && i == fails - 1 && n.dumpGlobals(m.p.globals) != dump) w.fail("failed-save", "a failed save changed the VM's data");
    }
    if(w.bad()) return;
    // Loads that fail.
    int loads = 2 + (int)w.t.draw(6);
    for(int i = 0; i < loads && !w.bad(); i++) {
        NodeOpt q = pickNode(w.t);
        q.untyped = o.untyped;
        Node r(w, q, strf("load%d", i));
        if(!r.create() || !r.setup(false)) { w.fail("restore", "registration failed: " + r.errors()); return; }
        r.limits();
        r.quietSer = w.t.chance(1, 2);
        r.tolerant = true;
        Stream s;
        s.data = ref.data;
        bool torn = w.t.chance(1, 3);
        if(torn) {
            size_t at = w.t.chance(1, 2) ? ref.marks[w.t.draw((uint32_t)ref.marks.size())] : w.t.draw((uint32_t)ref.data.size());
            s.data.resize(at);
            w.ev(strf("load of an image cut at byte %zu of %zu", at, ref.data.size()));
        } else {
            place(w, s, ref);
            w.ev("load failing at " + describe(s));
        }
        bool ok = r.load(s);
        if(s.fired && ok && !s.transient && r.hasErr() == hadErr) w.fail("failed-load", "the load met a stream failure at " + (torn ? strf("end of a cut image (%zu)", s.data.size()) : describe(s)) + " and reports success");
        if(s.fired && ok && s.transient) w.fail("failed-load", "the load met a passing stream failure at " + describe(s) + " and reports success");
        if(!s.fired && !ok) w.fail("failed-load", "a load that met no fault failed: " + r.errors());
        w.count("action.failed_load");
        abuse(w, r, m, (int)w.t.draw(8));
        if(!w.bad()) r.destroy();
    }
    if(w.bad()) return;
    // The image that was saved properly is still good, and so is the VM.
    if(w.t.chance(1, 2)) {
        Node r(w, o, "restored");
        if(!r.create() || !r.setup(false)) { w.fail("restore", "registration failed: " + r.errors()); return; }
        r.limits();
        Stream s;
        s.data = ref.data;
        if(!r.load(s)) { w.fail("restore", "a valid snapshot was refused: " + r.errors()); return; }
        r.limits();
        r.ev = n.ev;
        Trace t;
        SlicePolicy sp(w.t);
        drive(r, stepBound(m), [&] { return sp.next(); }, nullptr, t);
        t = finish(r, m, t);
        if(!sameTrace(w, "failed-save", b, t, "uninterrupted vs restored from the image between failures")) return;
        r.destroy();
    }
    Trace t;
    SlicePolicy sp(w.t);
    drive(n, stepBound(m), [&] { return sp.next(); }, nullptr, t);
    t = finish(n, m, t);
    if(!sameTrace(w, "failed-save", b, t, "undisturbed vs after failed saves")) return;
    n.destroy();
    w.trivial = false;
    w.sig(m.p.src);
    w.sig(w.hash);
}

// ---------------------------------------------------------------------
static void damage(World &w, Bytes &d, const std::vector<uint32_t> &marks, const Bytes &other)
{
    auto span = [&](uint32_t &at, uint32_t &len) {
        uint32_t i = w.t.draw((uint32_t)marks.size());
        at = marks[i];
        uint32_t end = i + 1 < marks.size() ? marks[i + 1] : (uint32_t)d.size();
        if(at > d.size()) at = (uint32_t)d.size();
        if(end > d.size()) end = (uint32_t)d.size();
        len = end - at;
    };
    uint32_t at, len;
    span(at, len);
    if(d.empty()) return;
    uint32_t k = w.t.draw(14);
    w.count("fault.image_damaged");
    switch(k) {
        case 0: case 1: case 2: case 3: case 4: {
            // A word of some field becomes an interesting number.
            static const uint32_t vals[] = { 0, 1, 0xffffffffu, 0x7fffffffu, 0x80000000u, 2, 0x10000u, 0xffffu, 0x40000000u, 3, 16, 255, 256, 0xfffffffeu, 0x20000000u };
            uint32_t v = w.t.chance(1, 2) ? vals[w.t.draw(15)] : w.t.draw(64);
            if(len < 4) { if(len) d[at] = (unsigned char)v; break; }
            uint32_t off = at + 4 * w.t.draw(len / 4);
            if(w.t.chance(1, 4)) { uint32_t old; memcpy(&old, &d[off], 4); v = w.t.chance(1, 2) ? old + 1 + w.t.draw(3) : old - 1 - w.t.draw(3); }
            w.ev(strf("word at %u (field of %u) becomes %u", off, len, v));
            memcpy(&d[off], &v, 4);
        } break;
        case 5: case 6: { uint32_t p = len ? at + w.t.draw(len) : w.t.draw((uint32_t)d.size()); if(p < d.size()) d[p] ^= (unsigned char)(1u << w.t.draw(8)); w.ev(strf("bit at %u", p)); } break;
        case 7: { uint32_t p = w.t.draw((uint32_t)d.size()); d[p] = (unsigned char)w.t.draw(256); w.ev(strf("byte at %u", p)); } break;
        case 8: {
            uint32_t a2, l2;
            span(a2, l2);
            uint32_t l = std::min(len, l2);
            w.ev(strf("fields at %u and %u change places", at, a2));
            for(uint32_t i = 0; i < l; i++) std::swap(d[at + i], d[a2 + i]);
        } break;
        case 9: {
            uint32_t a2, l2;
            span(a2, l2);
            uint32_t l = std::min(len, l2);
            w.ev(strf("field at %u copied to %u", a2, at));
            if(l) memmove(&d[at], &d[a2], l);
        } break;
        case 10: { uint32_t c = 1 + w.t.draw(16); if(at + c > d.size()) c = (uint32_t)d.size() - at; d.erase(d.begin() + at, d.begin() + at + c); w.ev(strf("%u bytes missing at %u", c, at)); } break;
        case 11: { uint32_t c = 1 + w.t.draw(16); d.insert(d.begin() + at, c, (unsigned char)w.t.draw(256)); w.ev(strf("%u bytes too many at %u", c, at)); } break;
        case 12:
            // The tail is from another image.
            if(at < other.size()) { d.resize(at); d.insert(d.end(), other.begin() + at, other.end()); w.ev(strf("another image's tail from %u", at)); }
            break;
        default: {
            // A block of a sector size lost.
            uint32_t c = 1 + w.t.draw(512);
            for(uint32_t i = at; i < at + c && i < d.size(); i++) d[i] = 0;
            w.ev(strf("%u bytes zeroed at %u", c, at));
        } break;
    }
}

void scP08(World &w)
{
    GenOpt g = pickGen(w.t);
    g.rootStmts = 2 + (int)w.t.draw(10);
    g.bodyStmts = 3;
    if(w.t.chance(1, 2)) { g.wExt = 6; g.wCo = 8; g.wHandle = 4; }
    Model m = makeModel(w, g);
    if(!m.usable) return;
    Stream ref, later;
    {
        Node n(w, pickNode(w.t), "vm");
        if(!origin(w, n, m, ref)) return;
        n.iterate(1 + w.t.draw(200));
        if(!n.save(later)) { w.fail("snapshot", "saving failed: " + n.errors()); return; }
        n.destroy();
    }
    if(w.bad()) return;
    int loads = 6 + (int)w.t.draw(10);
    uint32_t accepted = 0;
    for(int i = 0; i < loads && !w.bad(); i++) {
        NodeOpt q = pickNode(w.t);
        q.maxMem = (1u << 20) << w.t.draw(4);
        q.untyped = false;
        Node r(w, q, strf("load%d", i));
        if(!r.create() || !r.setup(false)) { w.fail("restore", "registration failed: " + r.errors()); return; }
        r.limits();
        r.tolerant = true;
        r.quietSer = w.t.chance(1, 2);
        nkxSetRemainingInstructionLimit(r.vm, 5000);
        Stream s;
        s.data = ref.data;
        int dm = w.t.chance(2, 3) ? 1 : 1 + (int)w.t.draw(6);
        for(int k = 0; k < dm; k++) damage(w, s.data, ref.marks, later.data);
        bool ok = r.load(s);
        if(ok && !r.hasErr()) accepted++;
        w.ev(strf("load: %d, %d", ok, r.hasErr()));
        abuse(w, r, m, 2 + (int)w.t.draw(10));
        if(!w.bad()) r.destroy();
    }
    w.count("probe.damaged_images_accepted", accepted);
    w.trivial = false;
    w.sig(m.p.src);
    w.sig(w.hash);
}
