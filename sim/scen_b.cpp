// Scenarios: garbage collection, observation, coroutines, errors, shrinking,
// host calls into scripts, object maps.
#include "life.hpp"

// Acts of the environment between instructions and inside host callbacks.
struct Adv
{
    uint32_t gcB = 0, gcCb = 0, gcMark = 0;      // 1-in-n chances, 0: never
    uint32_t shrinkB = 0, saveB = 0, lookB = 0, saveCb = 0;
};

void lookAt(Node &n, const Model &m, uint32_t what)
{
    NKVM *vm = n.vm;
    switch(what % 9) {
        case 0: n.dumpGlobals(m.p.globals); break;
        case 1: nkxVmGetCurrentMemoryUsage(vm); nkxVmGetPeakMemoryUsage(vm); break;
        case 2: {
            static FILE *nul = fopen("/dev/null", "w");
            nkxDbgDumpState(vm, m.p.src.c_str(), nul);
        } break;
        case 3: nkxGetErrorCount(vm); n.errors(); break;
        case 4: nkxGetMaxStackSize(vm); nkxGetRemainingInstructionLimit(vm); nkxGetMaxFieldsPerObject(vm);
                nkxGetGarbageCollectionInterval(vm); nkxGetMaxAllocatedMemory(vm); break;
        case 5: {
            NKVMExternalDataTypeID ty[2] = { n.tRes, n.tBox };
            for(int k = 0; k < 2; k++) {
                NKValue v;
                nkuint32_t idx = 0;
                while(nkxGetNextObjectOfExternalType(vm, ty[k], &v, &idx)) {
                    nkxVmObjectGetExternalHandleCount(vm, &v);
                    nkxVmObjectGetSize(vm, &v);
                    n.extOf(v);
                }
            }
        } break;
        case 6: nkxVmFindExternalType(vm, "SimRes"); nkxVmFindExternalType(vm, "coroutine"); nkxGetUserData(vm); break;
        case 7: nkxVmIterate(vm, 0); nkxVmProgramHasEnded(vm); break;
        default:
            for(auto &g : m.p.globals) {
                NKValue *v = nkxVmFindGlobalVariable(vm, nullptr, g.c_str());
                if(v && v->type != NK_VALUETYPE_OBJECTID) { NKValue c = *v; nkxValueToString(vm, &c); }
            }
            break;
    }
    n.w.count("action.observe");
}

static void advArm(Node &n, const Adv &a)
{
    World &w = n.w;
    if(a.gcCb || a.saveCb) {
        n.hook = [&w, a](Node &nn, int, NKVMFunctionCallbackData *d) {
            if(a.gcCb && w.t.chance(1, a.gcCb)) { nkxVmGarbageCollect(d->vm); w.count("action.gc_in_callback"); }
            (void)nn;
        };
    }
}

static void advBetween(Node &n, const Adv &a, const Model &m)
{
    World &w = n.w;
    if(n.hasErr()) return;
    if(a.gcB && w.t.chance(1, a.gcB)) n.collect("between_slices");
    if(a.shrinkB && w.t.chance(1, a.shrinkB)) { nkxVmShrink(n.vm); w.count("action.shrink"); }
    if(a.saveB && w.t.chance(1, a.saveB)) {
        Stream s;
        if(!n.save(s)) w.fail("snapshot", "saving a healthy VM failed: " + n.errors());
        w.count("action.save");
        if(w.t.chance(1, 3) && !w.bad()) {
            Stream s2;
            if(!n.save(s2)) w.fail("snapshot", "saving twice failed: " + n.errors());
            if(s.data != s2.data) w.fail("snapshot-unstable", strf("two saves in a row differ (%zu and %zu bytes)", s.data.size(), s2.data.size()));
            w.count("action.save_twice");
        }
    }
    if(a.lookB && w.t.chance(1, a.lookB)) lookAt(n, m, w.t.draw(9));
}

static Trace advRun(World &w, Node &n, const Model &m, const Adv &a, uint32_t cap = 0, uint32_t probe = 0)
{
    Trace t;
    if(!n.build(m.p)) {
        w.fail("compile", "a valid program was rejected: " + n.errors());
        return t;
    }
    advArm(n, a);
    SlicePolicy sp(w.t);
    drive(n, stepBound(m), [&] { uint32_t k = sp.next(); return cap && k > cap ? cap : k; },
          [&](Node &nn) {
              advBetween(nn, a, m);
              if(probe && !nn.hasErr() && w.t.chance(1, probe)) callProbe(nn);
          }, t);
    if(w.bad()) return t;
    n.hook = nullptr;
    return finish(n, m, t);
}

static uint32_t rate(Tape &t)
{
    static const uint32_t r[] = { 1, 2, 5, 20, 100 };
    return r[t.draw(5)];
}

// ---------------------------------------------------------------------
void scP03(World &w)
{
    GenOpt g = pickGen(w.t);
    g.wGc = 3;
    Model m = makeModel(w, g);
    if(!m.usable) return;
    NodeOpt base;
    base.gcInterval = 1000000000;
    base.gcNewObj = 1000000000;
    Trace b = baseline(w, m, base);
    if(w.bad()) return;
    NodeOpt o;
    Adv a;
    switch(w.t.draw(5)) {
        case 0: o.gcInterval = 1; break;
        case 1: o.gcInterval = 1 + w.t.draw(30); o.gcNewObj = 1 + w.t.draw(5); break;
        case 2: a.gcB = rate(w.t); break;
        case 3: a.gcCb = 1 + w.t.draw(3); break;
        default: a.gcB = rate(w.t); a.gcCb = 1 + w.t.draw(4); o.gcInterval = 1 + w.t.draw(200); o.gcNewObj = 1; break;
    }
    o.fill = (unsigned char)w.t.draw(256);
    o.blobs = w.t.chance(1, 3);
    Node n(w, o, "gc");
    Trace t = advRun(w, n, m, a, a.gcB ? 3 : 0);
    if(!sameTrace(w, "gc-visible", b, t, "no collection vs collected")) return;
    if(!t.err) {
        n.collect("final");
        if(n.dumpGlobals(m.p.globals) != b.dump) w.fail("gc-visible", "data changed in the final collection");
    }
    n.destroy();
    w.trivial = m.r.heap.size() < 2;
    w.sig(m.p.src);
    w.sig(w.hash);
}

// ---------------------------------------------------------------------
void scP04(World &w)
{
    GenOpt g = pickGen(w.t);
    g.wGc = 5;
    g.wExt = 6;
    if(w.t.chance(1, 2)) g.wHandle = 5;
    Model m = makeModel(w, g);
    if(!m.usable) return;
    NodeOpt o = pickNode(w.t);
    Adv a;
    if(w.t.chance(1, 2)) a.gcB = rate(w.t);
    if(w.t.chance(1, 3)) a.gcCb = 1 + w.t.draw(4);
    Node n(w, o, "gc");
    Trace t = advRun(w, n, m, a);
    // The "live" events carry the exact set of objects after each collection
    // asked for by the script.
    if(!matchesModel(w, "live-set", m, t, "collected run")) return;
    auto liveOf = [](const Ref &r) {
        std::vector<int> u;
        for(int x : r.reachable()) if(r.heap[x].kind == K_RES || r.heap[x].kind == K_BOX) u.push_back(r.heap[x].uid);
        std::sort(u.begin(), u.end());
        Str s;
        for(int x : u) s += strf(" %d", x);
        return s;
    };
    size_t created = 0, steps = 0;
    for(auto &x : m.r.heap) if(x.kind == K_RES || x.kind == K_BOX) created++;
    if(!t.err) {
        Ref &r = m.r;
        auto compare = [&](const char *what) {
            n.collect("final");
            steps++;
            Str want = liveOf(r), got = n.liveUids();
            if(want != got) w.fail("live-set", strf("after %s a full collection left objects [%s], reachable are [%s]", what, got.c_str(), want.c_str()));
        };
        compare("the program's end");
        // Drop roots one at a time; each time exactly the newly unreachable go.
        std::vector<int> roots;
        for(size_t i = 0; i < m.p.globals.size(); i++) roots.push_back((int)i);
        for(int i = 0; i < NSLOTS; i++) roots.push_back(-1 - i);
        for(size_t i = roots.size(); i > 1 && !w.bad(); i--) std::swap(roots[i - 1], roots[w.t.draw((uint32_t)i)]);
        for(int k : roots) {
            if(w.bad()) break;
            if(k >= 0) {
                if(r.g[k].t != R_OBJ) continue;
                NKValue *v = nkxVmFindGlobalVariable(n.vm, nullptr, m.p.globals[k].c_str());
                if(!v) { w.fail("live-set", "a global variable disappeared: " + m.p.globals[k]); break; }
                if(w.t.chance(1, 2)) { nkxValueSetNil(n.vm, v); r.g[k] = RV(); }
                else { nkxValueSetInt(n.vm, v, 7); r.g[k] = RV::Int(7); }
            } else {
                int s = -1 - k;
                if(r.slots[s].t != R_OBJ) continue;
                nkxVmObjectReleaseHandle(n.vm, &n.slots[s]);
                n.slotUsed[s] = false;
                n.slots[s] = nkNil();
                r.heap[r.slots[s].i].handles--;
                r.slots[s] = RV();
                w.count("action.release");
            }
            w.count("action.drop_root");
            compare("dropping a root");
        }
        if(!w.bad()) {
            for(auto &f : n.finals) if(f.second != 1) w.fail("finalise", strf("object %d finalised %d times", f.first, f.second));
            if(!w.bad() && n.finals.size() + n.exts.size() != created) w.fail("finalise", strf("%zu finalised and %zu alive of %zu created", n.finals.size(), n.exts.size(), created));
        }
    }
    n.destroy();
    if(!w.bad() && n.finals.size() != created) w.fail("finalise", strf("%zu of %zu external objects finalised by the end", n.finals.size(), created));
    w.trivial = created == 0 || (t.err && m.r.ev.size() < 2);
    w.count("probe.external_objects", created);
    w.sig(m.p.src);
    w.sig(w.hash);
}

// ---------------------------------------------------------------------
void scP06(World &w)
{
    Model m = makeModel(w, pickGen(w.t));
    if(!m.usable) return;
    NodeOpt o = pickNode(w.t);
    Trace b = baseline(w, m, o);
    if(w.bad()) return;
    Node n(w, o, "watched");
    Adv a;
    a.saveB = rate(w.t);
    a.lookB = rate(w.t);
    if(w.t.chance(1, 3)) a.lookB = 0;
    else if(w.t.chance(1, 3)) a.saveB = 0;
    Trace t = advRun(w, n, m, a, 40);
    if(!sameTrace(w, "observer-effect", b, t, "unwatched vs watched")) return;
    // Step by step: memory in use, finalised data, collections and budgets
    // are those of a VM nobody looks at.
    if(w.t.chance(1, 3)) {
        NodeOpt oo = o;
        if(w.t.chance(2, 3)) { oo.gcInterval = w.t.chance(1, 2) ? 1 + w.t.draw(30) : 1u << 20; oo.gcNewObj = 1 + w.t.draw(12); }
        oo.instrLimit = w.t.chance(1, 2) ? 0x3fffffff : 0;
        Node x(w, oo, "alone"), y(w, oo, "looked-at");
        if(!x.build(m.p) || !y.build(m.p)) { w.fail("compile", "rejected"); return; }
        uint32_t r = 1 + w.t.draw(30), saves = 0;
        SlicePolicy sp(w.t);
        uint64_t bound = std::min<uint64_t>(stepBound(m), 6000), g = 0;
        while(g < bound && !x.ended() && !x.hasErr() && !w.bad()) {
            uint32_t k = std::min<uint32_t>(sp.next(), 200);
            x.iterate(k);
            y.iterate(k);
            g += k;
            if(nkxVmGetCurrentMemoryUsage(x.vm) != nkxVmGetCurrentMemoryUsage(y.vm)) {
                w.fail("observer-effect", strf("%u bytes are in use after %llu instructions, %u in a VM that is looked at", nkxVmGetCurrentMemoryUsage(x.vm), (unsigned long long)g, nkxVmGetCurrentMemoryUsage(y.vm)));
                break;
            }
            if(x.finals != y.finals) { w.fail("observer-effect", "other data are finalised in a VM that is looked at"); break; }
            if(x.markCalls != y.markCalls) { w.fail("observer-effect", "a VM that is looked at collects at other times"); break; }
            if(nkxGetRemainingInstructionLimit(x.vm) != nkxGetRemainingInstructionLimit(y.vm)) { w.fail("observer-effect", "a VM that is looked at has another budget left"); break; }
            if(y.hasErr()) continue;
            if(w.t.chance(1, r)) {
                if(w.t.chance(1, 2) && saves++ < 60) {
                    Stream s;
                    if(!y.save(s)) { w.fail("snapshot", "saving a healthy VM failed: " + y.errors()); break; }
                } else lookAt(y, m, 1 + w.t.draw(7)); // (the others make strings)
            }
        }
        if(w.bad()) return;
        if(x.hasErr() != y.hasErr() || x.errors() != y.errors()) { w.fail("observer-effect", "a VM that is looked at fails otherwise: '" + x.errors() + "' vs '" + y.errors() + "'"); return; }
        w.count("probe.lockstep_runs");
        x.destroy();
        y.destroy();
        if(w.bad()) return;
    }
    // Saving a just-restored VM reproduces the image it came from.
    if(!n.hasErr()) {
        Stream s;
        if(!n.save(s)) { w.fail("snapshot", "saving a finished VM failed: " + n.errors()); return; }
    }
    n.destroy();
    {
        Node p(w, o, "orig");
        if(!p.build(m.p)) { w.fail("compile", "rejected"); return; }
        uint32_t stopAt = w.t.draw((uint32_t)std::min<uint64_t>(b.n + 1, 100000));
        for(uint32_t i = 0; i < stopAt && !p.hasErr() && !p.ended(); ) { uint32_t k = std::min<uint32_t>(stopAt - i, 50); p.iterate(k); i += k; }
        if(!p.hasErr()) {
            Stream s;
            s.keepMarks = true;
            if(!p.save(s)) { w.fail("snapshot", "saving a healthy VM failed: " + p.errors()); return; }
            // Two generations on (entries with colliding hashes change places
            // on every restore) the image is the original again.
            Bytes img = s.data;
            for(int gen = 0; gen < 2 && !w.bad(); gen++) {
                Node q(w, o, "copy");
                if(!q.create() || !q.setup(false)) { w.fail("restart", "fresh VM failed"); return; }
                Stream in;
                in.data = img;
                if(!q.load(in)) { w.fail("restore", "a valid snapshot was refused: " + q.errors()); return; }
                Stream s2;
                if(!q.save(s2)) { w.fail("restore", "a restored VM cannot be saved: " + q.errors()); return; }
                w.count("action.save_restored");
                if(s2.data.size() != s.data.size()) w.fail("snapshot-unstable", strf("the image of a restored VM has another size: %zu, not %zu", s2.data.size(), s.data.size()));
                img = s2.data;
                q.destroy();
            }
            if(!w.bad() && img != s.data) {
                size_t k = 0, c = 0;
                while(img[k] == s.data[k]) k++;
                while(c + 1 < s.marks.size() && s.marks[c + 1] <= k) c++;
                w.fail("snapshot-unstable", strf("image of a restored VM differs at byte %zu, in transfer %zu at byte %u", k, c, s.marks[c]));
                if(w.keepLog) for(size_t i = c > 8 ? c - 8 : 0; i < c + 8 && i + 1 < s.marks.size(); i++) {
                    Str h;
                    for(uint32_t x = s.marks[i]; x < s.marks[i + 1]; x++) h += strf(" %02x/%02x", s.data[x], img[x]);
                    w.note(strf("transfer %zu at %u:%s", i, s.marks[i], h.c_str()));
                }
            }
        }
        p.destroy();
    }
    w.trivial = b.n < 10;
    w.sig(m.p.src);
    w.sig(w.hash);
}

// ---------------------------------------------------------------------
void scP11(World &w)
{
    GenOpt g = pickGen(w.t);
    g.wCo = 8 + (int)w.t.draw(10);
    g.maxFns = 5;
    if(w.t.chance(1, 2)) g.wErr = 0;
    Model m = makeModel(w, g);
    if(!m.usable) return;
    NodeOpt o = pickNode(w.t);
    Adv a;
    if(w.t.chance(1, 3)) a.gcB = rate(w.t);
    if(w.t.chance(1, 4)) a.gcCb = 1 + w.t.draw(4);
    if(w.t.chance(1, 5)) a.shrinkB = 5 + w.t.draw(50);
    if(w.t.chance(1, 5)) a.saveB = 10 + w.t.draw(100);
    Node n(w, o, "co");
    Trace t = advRun(w, n, m, a);
    if(!matchesModel(w, "coroutine-semantics", m, t, "run")) return;
    n.destroy();
    w.trivial = m.r.switches == 0 && !m.r.err;
    w.sig(m.p.src);
    w.sig(w.hash);
}

// ---------------------------------------------------------------------
// After a script error: a VM that answers, collects, shrinks, saves and dies.
static void afterError(Node &n, const Model &m, const Str &dump)
{
    World &w = n.w;
    size_t evs = n.ev.size();
    Str err = n.errors();
    int acts = 1 + (int)w.t.draw(5);
    for(int i = 0; i < acts && !w.bad(); i++) {
        uint32_t act = w.t.draw(7);
        w.ev(strf("after the error: act %u", act));
        switch(act) {
            case 0: n.collect("after_error"); break;
            case 1: nkxVmIterate(n.vm, 1 + w.t.draw(100)); w.count("action.iterate_after_error"); break;
            case 2: lookAt(n, m, w.t.draw(9)); break;
            case 3: nkxVmShrink(n.vm); w.count("action.shrink_after_error"); break;
            case 4: nkxVmExecuteProgram(n.vm); w.count("action.execute_after_error"); break;
            case 5: {
                Stream s;
                n.save(s);
                w.count("action.save_after_error");
            } break;
            default: n.dumpGlobals(m.p.globals); break;
        }
    }
    if(w.bad()) return;
    if(n.ev.size() != evs) { w.fail("effects-after-error", strf("the script went on after an error: '%s'", n.ev[evs].c_str())); return; }
    if(!n.hasErr()) { w.fail("error-lost", "the error disappeared"); return; }
    if(n.oom()) { w.fail("error-lost", "the error became an allocation failure"); return; }
    if(n.errors().substr(0, err.size()) != err) { w.fail("error-lost", "the error text changed from '" + err + "' to '" + n.errors() + "'"); return; }
    Str d = n.dumpGlobals(m.p.globals);
    if(d != dump) { w.fail("data-after-error", "data changed after the error: " + dumpDiff(dump, d)); return; }
}

void scP13(World &w)
{
    GenOpt g = pickGen(w.t);
    int how = (int)w.t.draw(4);
    if(how == 0) g.wErr = 3 + (int)w.t.draw(4);
    if(how == 1) { g.wFp = 4; g.wErr = 0; }
    if(how >= 2) g.wErr = w.t.chance(1, 2) ? 2 : 0;
    Model m = makeModel(w, g);
    if(!m.usable) return;
    NodeOpt o = pickNode(w.t);
    Adv a;
    if(w.t.chance(1, 3)) a.gcB = rate(w.t);
    if(how == 1) {
        // Arm each fault point that the program reaches, one per run.
        int reached = m.r.fpCount;
        if(reached) {
            o.fpArm = (int)w.t.draw((uint32_t)reached);
            runModel(m, o.fpArm, 0xffffffffu, 20000);
            w.count("probe.fault_points", 1);
        }
    }
    uint64_t stopAt = ~0ULL;
    Trace b;
    if(how == 2) {
        // The host reports an error of its own between two instructions.
        b = baseline(w, m, o);
        if(w.bad()) return;
        stopAt = w.t.draw((uint32_t)std::min<uint64_t>(b.n + 1, 1000000));
        Node n(w, o, "host-err");
        if(!n.build(m.p)) { w.fail("compile", "rejected"); return; }
        for(uint64_t i = 0; i < stopAt && !n.hasErr() && !n.ended(); i++) n.iterate(1);
        if(!n.hasErr()) {
            Str d = n.dumpGlobals(m.p.globals);
            nkxAddError(n.vm, "host gave up");
            w.count("fault.host_error_between_instructions");
            if(n.errors().find("host gave up") == Str::npos) w.fail("error-lost", "nkxAddError's text is not reported");
            if(!w.bad()) afterError(n, m, d);
        }
        n.destroy();
        w.trivial = stopAt < 3;
    } else {
        Node n(w, o, "err");
        Trace t = advRun(w, n, m, a);
        if(!matchesModel(w, "error-semantics", m, t, "run")) return;
        if(t.err) afterError(n, m, t.dump);
        n.destroy();
        w.trivial = !t.err;
    }
    w.sig(m.p.src);
    w.sig(w.hash);
}

// ---------------------------------------------------------------------
void scP15(World &w)
{
    Model m = makeModel(w, pickGen(w.t));
    if(!m.usable) return;
    NodeOpt o = pickNode(w.t);
    Trace b = baseline(w, m, o);
    if(w.bad()) return;
    std::unique_ptr<Node> n(new Node(w, o, "shrunk"));
    if(!n->build(m.p)) { w.fail("compile", "rejected"); return; }
    SlicePolicy sp(w.t);
    uint32_t r = rate(w.t);
    uint32_t other = w.t.draw(4);
    uint64_t shrinks = 0, moved = 0;
    Trace t;
    bool done = false;
    while(!done && !w.bad()) {
        done = n->hasErr() || n->ended() || t.n >= stepBound(m);
        if(t.n >= stepBound(m)) t.stuck = !(n->hasErr() || n->ended());
        if(!n->hasErr() && (w.t.chance(1, r) || done)) {
            Str d0 = w.t.chance(1, 8) ? n->dumpGlobals(m.p.globals) : Str();
            uint64_t before = n->alloc.held();
            int reps = w.t.chance(1, 4) ? 2 : 1;
            while(reps--) { nkxVmShrink(n->vm); shrinks++; }
            if(n->hasErr()) { w.fail("shrink-error", "shrinking reported: " + n->errors()); break; }
            uint64_t after = n->alloc.held();
            if(after > before) w.fail("shrink-grows", strf("%llu bytes before, %llu after", (unsigned long long)before, (unsigned long long)after));
            if(after < before) moved++;
            if(!d0.empty() && n->dumpGlobals(m.p.globals) != d0) w.fail("shrink-visible", "data changed by shrinking");
            if(other == 1 && w.t.chance(1, 3)) n->collect("after_shrink");
            if(other >= 2 && w.t.chance(1, 10)) {
                Stream s;
                if(!n->save(s)) { w.fail("snapshot", "a shrunk VM cannot be saved: " + n->errors()); break; }
                if(other == 3) {
                    std::unique_ptr<Node> q(new Node(w, o, "restored"));
                    if(!q->create() || !q->setup(false)) { w.fail("restart", "fresh VM failed"); break; }
                    Stream in;
                    in.data = s.data;
                    if(!q->load(in)) { w.fail("restore", "the snapshot of a shrunk VM was refused: " + q->errors()); break; }
                    q->ev = n->ev;
                    n->destroy();
                    n = std::move(q);
                    w.count("action.restore_shrunk");
                }
            }
        }
        if(done) break;
        uint32_t k = sp.next();
        if(r < 20 && k > 20) k = 20;
        n->iterate(k);
        t.n += k;
    }
    if(w.bad()) return;
    w.count("action.shrink", shrinks);
    w.count("probe.shrinks_that_freed", moved);
    t = finish(*n, m, t);
    if(!sameTrace(w, "shrink-visible", b, t, "plain vs shrunk")) return;
    if(!t.err) {
        n->collect("final");
        if(n->dumpGlobals(m.p.globals) != b.dump) w.fail("shrink-visible", "data changed in a collection after shrinking");
    }
    n->destroy();
    w.trivial = shrinks == 0;
    w.sig(m.p.src);
    w.sig(w.hash);
}

// ---------------------------------------------------------------------
void scP17(World &w)
{
    GenOpt g = pickGen(w.t);
    g.wHcall = 8 + (int)w.t.draw(6);
    g.maxFns = 5;
    if(w.t.chance(1, 4)) g.wErr = 3;
    if(w.t.chance(1, 4)) g.wFp = 3;
    g.hostBoundaryYield = w.t.chance(1, 4);
    Model m = makeModel(w, g);
    if(!m.usable) return;
    addProbe(w, m.p);
    NodeOpt o = pickNode(w.t);
    if(g.wFp && m.r.fpCount) {
        o.fpArm = (int)w.t.draw((uint32_t)m.r.fpCount);
        runModel(m, o.fpArm, 0xffffffffu, 20000);
    }
    Adv a;
    if(w.t.chance(1, 3)) a.gcCb = 1 + w.t.draw(4);
    if(w.t.chance(1, 4)) a.gcB = rate(w.t);
    Node n(w, o, "hcall");
    uint32_t probe = w.t.chance(1, 2) ? rate(w.t) : 0;
    Trace t = advRun(w, n, m, a, probe && probe < 20 ? 3 : 0, probe);
    if(!matchesModel(w, "host-call", m, t, "run")) return;
    if(t.err && w.t.chance(1, 2)) afterError(n, m, t.dump);
    n.destroy();
    w.trivial = m.r.hcalls == 0;
    w.count("probe.host_calls_into_script", m.r.hcalls);
    w.sig(m.p.src);
    w.sig(w.hash);
}

// ---------------------------------------------------------------------
void scP18(World &w)
{
    GenOpt g = pickGen(w.t);
    g.wObj = 10;
    g.wHost = 8;
    g.rootStmts = 16 + (int)w.t.draw(20);
    uint32_t lim = 0xffffffffu;
    if(w.t.chance(1, 3)) lim = 1 + w.t.draw(6);
    Model m = makeModel(w, g, -1, lim);
    if(!m.usable) return;
    NodeOpt o = pickNode(w.t);
    if(lim != 0xffffffffu) o.maxFields = lim;
    Adv a;
    if(w.t.chance(1, 3)) a.gcB = rate(w.t);
    if(w.t.chance(1, 5)) a.shrinkB = 5 + w.t.draw(50);
    Node n(w, o, "map");
    Trace t = advRun(w, n, m, a);
    if(!matchesModel(w, "object-map", m, t, lim != 0xffffffffu ? "run with a field limit" : "run")) return;
    if(t.err) afterError(n, m, t.dump);
    n.destroy();
    w.trivial = m.r.heap.size() < 2;
    w.sig(m.p.src);
    w.sig(w.hash);
}
