// Scenarios: slicing, crash and restore, saving.
#include "exec.hpp"
#include "scen.hpp"

GenOpt pickGen(Tape &t)
{
    GenOpt o;
    // Swarm testing: each run switches whole feature groups off or up.
    switch(t.draw(6)) {
        case 0: break;
        case 1: o.wCo = 10; o.wObj = 3; o.wHost = 1; break;
        case 2: o.wCo = 0; o.wObj = 10; o.wHost = 6; break;
        case 3: o.wExt = 8; o.wHandle = 5; break;
        case 4: o.wHcall = 8; o.wRec = 3; break;
        default: o.wStr = 8; o.wObj = 8; o.rootStmts = 14; break;
    }
    if(t.chance(1, 6)) { o.rootStmts += 14; o.bodyStmts += 4; }
    if(t.chance(1, 4)) o.wErr = 1 + (int)t.draw(4);
    o.wTick = 1;
    return o;
}

NodeOpt pickNode(Tape &t)
{
    NodeOpt o;
    o.fill = "\xa5\x00\xff\x5a"[t.draw(4)];
    if(t.chance(1, 3)) o.gcInterval = 1 + t.draw(t.chance(1, 2) ? 4 : 300);
    if(t.chance(1, 3)) o.gcNewObj = 1 + t.draw(8);
    o.blobs = t.chance(1, 3);
    o.untyped = t.chance(1, 10);
    return o;
}

void scP10(World &w)
{
    Model m = makeModel(w, pickGen(w.t));
    if(!m.usable) return;
    addProbe(w, m.p);
    Trace b = baseline(w, m);
    if(w.bad()) return;
    // Whole program in one call.
    {
        Node n(w, NodeOpt(), "exec");
        if(!n.build(m.p)) { w.fail("compile", "rejected: " + n.errors()); return; }
        Trace t;
        nkbool r = nkxVmExecuteProgram(n.vm);
        t = finish(n, m, t);
        w.count("action.execute_program");
        if(!sameTrace(w, "slicing", b, t, "one-step slices vs nkxVmExecuteProgram")) return;
        if((r != nkfalse) == b.err) { w.fail("slicing", "nkxVmExecuteProgram's result disagrees with the outcome"); return; }
        n.destroy();
    }
    // Random slices with host work in between.
    NodeOpt o = pickNode(w.t);
    o.untyped = false;
    o.fill = (unsigned char)w.t.draw(256);
    Node n(w, o, "sliced");
    if(!n.build(m.p)) { w.fail("compile", "rejected: " + n.errors()); return; }
    SlicePolicy sp(w.t);
    int work = (int)w.t.draw(4);
    uint64_t slices = 0;
    Trace t;
    drive(n, stepBound(m), [&] { slices++; return sp.next(); }, [&](Node &nn) {
        if(work && w.t.chance(1, 6)) {
            switch(w.t.draw(6)) {
                case 0: nn.collect("between_slices"); break;
                case 1: nn.dumpGlobals(m.p.globals); w.count("action.inspect"); break;
                case 2: nkxVmIterate(nn.vm, 0); w.count("action.empty_slice"); break;
                case 4: callProbe(nn); break;
                case 3: nkxVmGetCurrentMemoryUsage(nn.vm); nn.errors(); break;
                default: if(work == 3) { nkxVmShrink(nn.vm); w.count("action.shrink"); } break;
            }
        }
    }, t);
    if(w.bad()) return;
    w.count("action.slices", slices);
    // A finished program stays finished and silent.
    if(!n.hasErr() && n.ended() && w.t.chance(1, 2)) {
        for(int i = 0; i < 3; i++) nkxVmIterate(n.vm, 1 + w.t.draw(50));
        if(!n.ended()) w.fail("slicing", "a finished program did not stay finished");
        w.count("action.iterate_after_end");
    } else if(n.hasErr() && w.t.chance(1, 2)) {
        for(int i = 0; i < 3; i++) nkxVmIterate(n.vm, 1 + w.t.draw(50));
    }
    t = finish(n, m, t);
    if(!sameTrace(w, "slicing", b, t, "one-step slices vs random slices")) return;
    // Each slice is bounded by what was asked for: single-step count is a
    // lower bound on the instructions granted.
    if(t.n < b.n && !b.err) w.fail("slicing", strf("finished after %llu granted instructions, needs %llu", (unsigned long long)t.n, (unsigned long long)b.n));
    n.destroy();
    w.trivial = slices < 3;
    w.sig(w.hash);
    w.sig(m.p.src);
    w.sig(slices);
}

// ---------------------------------------------------------------------
struct Snap
{
    Bytes img;
    std::vector<Str> ev;
    uint64_t n = 0;
    std::map<int, int> finals;
};

void scP05(World &w)
{
    Model m = makeModel(w, pickGen(w.t));
    if(!m.usable) return;
    NodeOpt o = pickNode(w.t);
    Trace b = baseline(w, m, o);
    if(w.bad()) return;
    std::unique_ptr<Node> n(new Node(w, o, "p0"));
    if(!n->build(m.p)) { w.fail("compile", "rejected: " + n->errors()); return; }
    Snap snap;
    bool have = false;
    uint64_t crashes = 0, saves = 0;
    // Crash rate relative to the length of the program.
    uint64_t crashBudget = 1 + w.t.draw(6);
    uint32_t rate = 1 + (uint32_t)(b.n / (crashBudget + 1));
    if(rate > 4000) rate = 4000;
    SlicePolicy sp(w.t);
    uint64_t granted = 0, bound = stepBound(m) * 2;
    Trace t;
    auto takeSnap = [&](const char *where) {
        Stream s;
        if(!n->save(s)) { w.fail("snapshot", Str("saving a healthy VM failed ") + where + ": " + n->errors()); return; }
        snap.img = s.data;
        snap.ev = n->ev;
        snap.n = granted;
        snap.finals = n->finals;
        have = true;
        saves++;
        w.ev(strf("save %s at %llu bytes %zu", where, (unsigned long long)granted, s.data.size()));
    };
    while(!w.bad()) {
        bool stop = n->hasErr() || n->ended();
        if(!stop && granted >= bound) { t.stuck = true; break; }
        bool doSnap = w.t.chance(1, rate) || (stop && crashBudget && w.t.chance(1, 2));
        if(doSnap && crashBudget) {
            takeSnap("between instructions");
            if(w.bad()) return;
            // Work done after the snapshot is lost in the crash.
            if(w.t.chance(1, 2)) {
                uint32_t extra = 1 + w.t.draw(40);
                n->iterate(extra);
                w.count("probe.lost_instructions", extra);
                if(w.t.chance(1, 4)) {
                    // Torn save: the process dies inside the write.
                    Stream s;
                    s.failByte = w.t.draw((uint32_t)snap.img.size() + 1);
                    s.partial = true;
                    n->save(s);
                    w.count("fault.crash_during_save");
                }
            }
            if(w.t.chance(1, 3)) {
                n->destroy();
                w.count("fault.clean_restart");
            } else {
                w.count("fault.crash");
            }
            crashes++;
            crashBudget--;
            NodeOpt o2 = o;
            o2.fill = (unsigned char)w.t.draw(256);
            n.reset(new Node(w, o2, strf("p%llu", (unsigned long long)crashes)));
            if(!n->create() || !n->setup(false)) { w.fail("restart", "fresh VM failed"); return; }
            Stream s;
            s.data = snap.img;
            if(!n->load(s)) { w.fail("restore", "a valid snapshot was refused: " + n->errors()); return; }
            if(s.pos != s.data.size()) { w.fail("restore", strf("restore consumed %zu of %zu bytes", s.pos, s.data.size())); return; }
            n->ev = snap.ev;
            granted = snap.n;
            w.ev(strf("restored at %llu", (unsigned long long)granted));
            continue;
        }
        if(stop) break;
        uint32_t k = sp.next();
        if(k > rate) k = rate;
        n->iterate(k);
        granted += k;
    }
    if(w.bad()) return;
    t = finish(*n, m, t);
    if(!sameTrace(w, "restore-divergence", b, t, "uninterrupted vs crashed and restored")) return;
    // Everything still reachable is reachable in the same form after a collection.
    if(!t.err) {
        n->collect("final");
        Str d = n->dumpGlobals(m.p.globals);
        if(d != b.dump) w.fail("restore-divergence", "data changed in the first collection after the restored run");
    }
    n->destroy();
    w.trivial = crashes == 0;
    w.sig(m.p.src);
    w.sig(w.hash);
    w.count("action.saves", saves);
    (void)have;
}
