// Scenarios: instruction budgets and stack limits.
#include "life.hpp"

// ---------------------------------------------------------------------
// P09: the instruction budget.
static const uint32_t kBig = 0x7fffffffu;

// Text that never ends, to be put after a program. `nested` tells whether
// it spins in a call made by host code.
static Str spinner(Tape &t, bool &nested)
{
    nested = false;
    switch(t.draw(20)) {
        case 0: return "while(1) { tick(); }\n";
        case 1: return strf("var si = 0;\nwhile(1) { si = si + 1; if(si %% %u == 0) { tick(); } }\n", 2 + t.draw(9));
        case 2: return "function spf(a) { tick(); return a + 1; }\nvar sv = 0;\nwhile(1) { sv = spf(sv) % 100; }\n";
        case 3: return strf("function spr(n) { tick(); if(n < 1) { return 0; } return spr(n - 1) + 1; }\nwhile(1) { spr(%u); }\n", 1 + t.draw(8));
        case 4: return "function spc(a) { while(1) { a = yield(a); tick(); } }\nvar sc = coroutine(spc, 0);\nwhile(1) { resume(sc, 1); }\n";
        case 5: return "function sps(a) { while(1) { tick(); } }\nvar sc = coroutine(sps, 0);\nresume(sc, 0);\n";
        case 6: return "var so;\nwhile(1) { var o = object(); o.a = o; o.b = so; so = o; tick(); if(hsize(o) > 1) { so = nil; } }\n";
        case 7: return "function spd(a) { tick(); yield(a); }\nwhile(1) { var c = coroutine(spd, 3); resume(c, 0); }\n";
        case 8: return "var sj = 0;\nwhile(1) { var s = \"x\" + sj; sj = (sj + 1) % 50; tick(); }\n";
        case 9: return "do { tick(); } while(1);\n";
        case 10: return "for(var i = 0; i < 10; i = i % 3) { tick(); i = i + 1; }\n";
        case 11: return "function spx(d) { if(d < 1) { while(1) { tick(); } } var c = coroutine(spx, d - 1); resume(c, 0); }\nspx(3);\n";
        case 12: return "function spe(a) { var c = coroutine(spe, a); tick(); return 1; }\nvar sc;\nwhile(1) { sc = coroutine(spe, 1); resume(sc, 0); if(is_finished(sc)) { tick(); } }\n";
        case 13: return "while(1) { gcnow(); tick(); }\n";
        default: nested = true; break;
    }
    switch(t.draw(6)) {
        case 0: return "function spn(a) { while(1) { tick(); } }\nhcall(spn, 0);\n";
        case 1: return "function spn(a) { while(1) { tick(); } }\nfunction spm(a) { tick(); hcall(spn, a); }\nhcall(spm, 0);\n";
        case 2: return "function spn(a) { while(1) { tick(); } }\nfunction spk(a) { tick(); hcall(spn, a); }\nvar sc = coroutine(spk, 0);\nresume(sc, 0);\n";
        case 3: return "function spf(a) { tick(); return a; }\nwhile(1) { hcall(spf, 1); }\n";
        case 4: return "function spc(a) { while(1) { a = yield(a); tick(); } }\nvar sc = coroutine(spc, 0);\nfunction spn(a) { while(1) { resume(sc, 0); } }\nhcall(spn, 0);\n";
        default: return "function spq(a) { if(a < 1) { while(1) { tick(); } } tick(); return hcall(spq, a - 1); }\nspq(3);\n";
    }
}

void scP09(World &w)
{
    GenOpt g = pickGen(w.t);
    if(w.t.chance(1, 2)) { g.rootStmts = 5; g.bodyStmts = 3; }
    bool endless = w.t.chance(5, 6);
    if(endless) g.wErr = 0;
    bool flat = w.t.chance(1, 3);
    if(flat) g.wHcall = 0;
    Model m = makeModel(w, g);
    if(!m.usable) return;
    bool nested = false;
    if(endless && !m.r.err) m.p.src += spinner(w.t, nested);
    else endless = false;
    if(nested || m.r.hcalls) flat = false;
    w.setScenario(m.p.src);

    uint32_t n;
    switch(w.t.draw(4)) {
        case 0: n = w.t.draw(40); break;
        case 1: n = w.t.draw(400); break;
        case 2: n = w.t.draw(3000); break;
        default: n = (uint32_t)(m.r.steps * 2 + w.t.draw(600)); break;
    }
    uint32_t I;
    switch(w.t.draw(4)) {
        case 0: I = 1 + w.t.draw(4); break;
        case 1: I = 1 + w.t.draw(60); break;
        case 2: I = 1 + w.t.draw(800); break;
        default: I = 1024; break;
    }
    bool exact = w.t.chance(1, 4);
    if(exact && I < 200) n = I * w.t.draw(20) + (w.t.chance(1, 2) ? 0 : I - 1);
    uint32_t reconf = w.t.chance(1, 3) ? 1 + w.t.draw(3) : 0;
    std::vector<uint32_t> newI;
    uint32_t Imax = I;
    for(uint32_t k = 0; k < reconf; k++) { newI.push_back(1 + w.t.draw(w.t.chance(1, 2) ? 20 : 500)); Imax = std::max(Imax, newI.back()); }
    uint64_t pre = w.t.chance(1, 2) ? 0 : w.t.draw((uint32_t)std::min<uint64_t>(m.r.steps * 3 + 200, 4000)); // instructions before the budget is set
    uint64_t need = pre + n + (2 + reconf) * (uint64_t)Imax + 500;

    // The clock: with an interval of one, the budget left tells exactly how
    // many instructions ran when each host function was called.
    std::vector<uint64_t> T;
    std::vector<Str> ref;
    uint64_t Tend = 0;
    bool finite = false;
    Str refErr;
    {
        NodeOpt o;
        o.gcInterval = 1;
        o.instrLimit = kBig;
        Node c(w, o, "clock");
        if(!c.build(m.p)) { w.fail("compile", "a valid program was rejected: " + c.errors()); return; }
        bool stop = false;
        c.hook = [&](Node &x, int, NKVMFunctionCallbackData *) {
            T.push_back(kBig - nkxGetRemainingInstructionLimit(x.vm));
            if(T.back() > need || T.size() > 60000) { stop = true; nkxAddError(x.vm, "far enough"); }
        };
        uint64_t granted = 0;
        while(!stop && !c.hasErr() && !c.ended()) {
            c.iterate(1);
            granted++;
            uint32_t used = kBig - nkxGetRemainingInstructionLimit(c.vm);
            if(flat && used != granted) {
                w.fail("budget-count", strf("after %llu single steps with an interval of 1 the budget is %u lower", (unsigned long long)granted, used));
                return;
            }
            if(granted > need * 4 + 100000) break;
        }
        Tend = kBig - nkxGetRemainingInstructionLimit(c.vm);
        if(!stop) { finite = true; refErr = c.errors(); }
        ref = c.ev;
        c.destroy();
        if(w.bad()) return;
    }
    if(T.size() > 60000) return;
    auto before = [&](uint64_t k) { return k == 0 || T.empty() ? 0 : T[std::min<uint64_t>(k, T.size()) - 1]; };
    auto after = [&](uint64_t k) { return k < T.size() ? T[k] : finite ? Tend : T.empty() ? need : T.back(); };

    NodeOpt o = pickNode(w.t);
    o.gcInterval = I;
    std::unique_ptr<Node> v(new Node(w, o, "vm"));
    if(!v->build(m.p)) { w.fail("compile", "a valid program was rejected: " + v->errors()); return; }
    bool set = false, tooFar = false;
    uint64_t calls = 0, k0 = 0, granted = 0, grantedAtSet = 0;
    bool exactSet = false;
    uint32_t lastLeft = 0, restores = 0, used = 0;
    int busyRate = 4 + (int)w.t.draw(40);
    uint64_t setCall = w.t.chance(1, 4) && !T.empty() ? w.t.draw((uint32_t)std::min<size_t>(T.size(), 60)) + 1 : 0;
    // Sometimes the host does the same thing again and again, more often
    // than the budget is looked at.
    int only = -1;
    uint32_t maxRestores = 6, restoreRate = 40;
    if(w.t.chance(1, 3)) {
        busyRate = 1 + (int)w.t.draw(3);
        only = (int)w.t.draw(9);
        if(only == 8) { maxRestores = 80; restoreRate = 2; busyRate = 1000; }
        w.count("probe.storms");
    }
    auto look = [&](const char *where) {
        if(!set || w.bad()) return;
        uint32_t left = nkxGetRemainingInstructionLimit(v->vm);
        if(left > lastLeft) w.fail("budget-grows", strf("the remaining budget grew from %u to %u %s", lastLeft, left, where));
        lastLeft = left;
    };
    auto setBudget = [&](bool inCall) {
        set = true;
        exactSet = inCall;
        k0 = calls;
        grantedAtSet = granted;
        nkxSetRemainingInstructionLimit(v->vm, n);
        lastLeft = nkxGetRemainingInstructionLimit(v->vm);
        if(lastLeft != n) w.fail("budget-grows", strf("a budget of %u reads as %u", n, lastLeft));
    };
    auto hostWork = [&](bool inCall) {
        switch(only >= 0 ? (uint32_t)only : w.t.draw(8)) {
            case 0: v->collect(inCall ? "in_callback" : "between_slices"); break;
            case 1: if(used < newI.size()) { nkxSetGarbageCollectionInterval(v->vm, newI[used++]); w.count("action.interval_change"); } break;
            case 2: nkxSetGarbageCollectionInterval(v->vm, nkxGetGarbageCollectionInterval(v->vm)); break;
            case 3: if(set) nkxSetRemainingInstructionLimit(v->vm, nkxGetRemainingInstructionLimit(v->vm)); break;
            case 4: lookAt(*v, m, w.t.draw(8)); w.count("action.observe"); break;
            case 5: { Stream s; v->save(s); w.count("action.save"); } break;
            case 6: if(!inCall) { nkxVmShrink(v->vm); w.count("action.shrink"); } break;
            default: {
                NKValue x = nkNil();
                nkxCreateObject(v->vm, &x);
                nkxSetGarbageCollectionNewObjectInterval(v->vm, 1 + w.t.draw(5));
            } break;
        }
        look("after host work");
    };
    auto arm = [&] {
        v->hook = [&](Node &x, int fn, NKVMFunctionCallbackData *) {
            calls++;
            look("in the script");
            if(!set && setCall && calls == setCall) setBudget(true);
            if(set && fn != H_GCNOW && fn != H_DUMP && w.t.chance(1, (uint32_t)busyRate)) hostWork(true);
            if(set && !tooFar && before(calls) > after(k0) + n + 2 * (uint64_t)Imax + 100) { tooFar = true; nkxAddError(x.vm, "stopped by the simulator"); }
            if(calls + !finite > T.size()) { tooFar = true; nkxAddError(x.vm, "stopped by the simulator"); }
        };
    };
    arm();
    SlicePolicy sp(w.t);
    bool single = flat && w.t.chance(1, 2);
    if(pre == 0 && !setCall) setBudget(false);
    while(!v->hasErr() && !v->ended() && !w.bad()) {
        if(!set && !setCall && granted >= pre) { setBudget(false); }
        uint32_t s = single ? 1 : sp.next();
        if(!set && !setCall) s = (uint32_t)std::min<uint64_t>(s, pre - granted);
        v->iterate(s);
        granted += s;
        look("between slices");
        if(w.bad() || v->hasErr() || v->ended()) break;
        if(granted > need * 6 + 100000) { w.fail("budget-evaded", "the script runs on although its budget is spent"); break; }
        if(w.t.chance(1, (uint32_t)busyRate)) hostWork(false);
        if(w.t.chance(1, restoreRate) && restores < maxRestores && !w.bad()) {
            Stream s2;
            if(!v->save(s2)) { w.fail("snapshot", "saving failed: " + v->errors()); break; }
            uint32_t left = nkxGetRemainingInstructionLimit(v->vm);
            bool clean = w.t.chance(1, 2);
            std::vector<Str> ev = v->ev;
            if(clean) v->destroy();
            v.reset(new Node(w, o, strf("vm%u", ++restores)));
            if(!v->create() || !v->setup(false)) { w.fail("restore", "registration failed"); break; }
            if(!v->load(s2) || v->hasErr()) { w.fail("restore", "a valid snapshot was refused: " + v->errors()); break; }
            if(set) nkxSetRemainingInstructionLimit(v->vm, left);
            v->ev = ev;
            arm();
            look("after a restore");
            w.count(clean ? "fault.clean_restart" : "fault.crash");
        }
    }
    if(w.bad()) return;
    Str err = v->errors();
    w.count(finite ? "probe.finite_programs" : "probe.endless_programs");
    if(tooFar) {
        if(set && before(calls) > after(k0) + n + Imax) w.fail("budget-evaded", strf("a script with a budget of %u and an interval of at most %u was at instruction %llu of its run, %llu after the budget was set", n, Imax,
                       (unsigned long long)before(calls), (unsigned long long)(before(calls) - after(k0))));
        return;
    }
    for(size_t i = 0; i < v->ev.size(); i++) {
        if(i < ref.size() && v->ev[i] == ref[i]) continue;
        w.fail("budget-effect", strf("event %zu is '%.200s' and without a budget '%.200s'", i, v->ev[i].c_str(), i < ref.size() ? ref[i].c_str() : "(none)"));
        return;
    }
    bool limited = err.find("Instruction count limit reached.") != Str::npos;
    if(limited && !set) { w.fail("budget-early", "the budget error came although no budget was set"); return; }
    // How many instructions ran with the budget: between lo and hi.
    uint64_t endLo = before(calls), endHi = v->ended() || (!limited && v->hasErr()) ? Tend : after(calls);
    if(!limited && finite) endLo = Tend;
    uint64_t setLo = before(k0), setHi = exactSet ? setLo : after(k0);
    if(!exactSet && k0 == 0 && grantedAtSet == 0) setLo = setHi = 0;
    uint64_t lo = endLo > setHi ? endLo - setHi : 0, hi = endHi - setLo;
    if(set && single && !exactSet) { lo = granted - grantedAtSet; hi = lo; if(limited) { lo--; hi--; } }
    if(set && lo > (uint64_t)n + Imax) {
        w.fail("budget-evaded", strf("%llu instructions ran with a budget of %u and an interval of at most %u", (unsigned long long)lo, n, Imax));
        return;
    }
    if(limited) {
        w.count("fault.budget_exhausted");
        uint64_t slack = (1 + (uint64_t)used) * Imax;
        if(hi + slack < n) {
            w.fail("budget-early", strf("only %llu instructions ran with a budget of %u, an interval of at most %u and %u interval changes", (unsigned long long)hi, n, Imax, used));
            return;
        }
        // Nothing more happens.
        uint64_t c1 = calls;
        size_t e1 = v->ev.size();
        uint32_t rem = nkxGetRemainingInstructionLimit(v->vm);
        if(rem) { w.fail("budget-grows", strf("%u instructions are left of a budget that is spent", rem)); return; }
        uint32_t acts = 1 + w.t.draw(4);
        for(uint32_t i = 0; i < acts; i++) {
            switch(w.t.draw(6)) {
                case 0: nkxVmIterate(v->vm, 1 + w.t.draw(5000)); break;
                case 1: nkxVmExecuteProgram(v->vm); break;
                case 2: v->collect("after_budget"); break;
                case 3: nkxSetGarbageCollectionInterval(v->vm, 1 + w.t.draw(100)); nkxVmIterate(v->vm, 3000); break;
                case 4: nkxSetRemainingInstructionLimit(v->vm, n); nkxVmIterate(v->vm, 3000); nkxSetRemainingInstructionLimit(v->vm, 0); break;
                default: {
                    Stream s;
                    nkxVmShrink(v->vm);
                    v->save(s);
                    nkxVmIterate(v->vm, 3000);
                } break;
            }
            if(calls != c1 || v->ev.size() != e1) { w.fail("budget-evaded", "the script ran on after its budget was spent"); return; }
            if(!v->hasErr() || v->errors().find("Instruction count limit reached.") == Str::npos) { w.fail("budget-evaded", "the budget error went away"); return; }
        }
    } else {
        if(!finite) {
            w.fail(v->hasErr() ? "budget-effect" : "budget-evaded", "an endless script stopped without the budget error: '" + err.substr(0, 200) + "'");
            return;
        }
        if(err != refErr) { w.fail("budget-effect", "a script that stayed in its budget failed differently: '" + err.substr(0, 200) + "' and not '" + refErr.substr(0, 200) + "'"); return; }
        if(v->ev.size() != ref.size()) { w.fail("budget-effect", "a script that stayed in its budget printed less"); return; }
    }
    v->hook = nullptr;
    v->destroy();
    w.trivial = !limited;
    w.sig(m.p.src);
    w.sig(w.hash);
    w.sig(n);
}

// ---------------------------------------------------------------------
// P20: limits on the size of a stack.
struct StackSeen
{
    uint32_t cap = 0, size = 0;
    std::vector<Str> el;
};
struct Stacks
{
    std::map<Str, StackSeen> ctx;   // "root" or the object's index
    Str statics;
    uint32_t maxSize() const { uint32_t m = 0; for(auto &c : ctx) m = std::max(m, c.second.size); return m; }
    uint32_t maxCap() const { uint32_t m = 0; for(auto &c : ctx) m = std::max(m, c.second.cap); return m; }
};

// What the VM itself says about its stacks.
static Stacks stacksOf(Node &n, const Str &src)
{
    Stacks r;
    char *buf = nullptr;
    size_t len = 0;
    FILE *f = open_memstream(&buf, &len);
    nkxDbgDumpState(n.vm, src.c_str(), f);
    fclose(f);
    Str last = "root";
    StackSeen *cur = nullptr;
    bool statics = false;
    const char *p = buf, *e = buf + len;
    while(p < e) {
        const char *q = (const char *)memchr(p, '\n', (size_t)(e - p));
        if(!q) q = e;
        Str s(p, q);
        p = q + 1;
        if(s == "Execution context:") { cur = &r.ctx[last]; statics = false; continue; }
        if(s.compare(0, 13, "      index: ") == 0) { last = s.substr(13); cur = nullptr; continue; }
        if(s == "Statics:") { statics = true; cur = nullptr; continue; }
        if(s == "Instructions:") { statics = false; continue; }
        if(statics) { r.statics += s + "\n"; continue; }
        if(!cur) continue;
        if(s.compare(0, 15, "    Capacity:  ") == 0) cur->cap = (uint32_t)strtoul(s.c_str() + 15, nullptr, 10);
        else if(s.compare(0, 15, "    Size:      ") == 0) cur->size = (uint32_t)strtoul(s.c_str() + 15, nullptr, 10);
        else if(s.compare(0, 6, "      ") == 0 && s.size() > 6 && isdigit((unsigned char)s[6]) && cur->el.size() < cur->size) cur->el.push_back(s);
    }
    free(buf);
    return r;
}

static uint32_t floorPow2(uint32_t x)
{
    uint32_t p = 1;
    while(p <= x / 2) p *= 2;
    return p;
}

static Str deepText(Tape &t, bool &runaway)
{
    runaway = false;
    uint32_t k = 1 + t.draw(t.chance(1, 4) ? 300 : 40);
    switch(t.draw(12)) {
        case 0: return strf("function dr(n) { tick(); if(n < 1) { return 0; } return dr(n - 1) + 1; }\nout(901, dr(%u));\n", k);
        case 1: {
            Str e = "1";
            uint32_t d = 1 + t.draw(60);
            for(uint32_t i = 0; i < d; i++) e = strf("(%u + ", i % 7) + e + ")";
            return "out(902, " + e + ");\n";
        }
        case 2: return strf("function dr(n) { if(n < 1) { tick(); return 0; } return dr(n - 1) + 1; }\nfunction dc(n) { yield(dr(n)); return dr(n + 3); }\nvar dq = coroutine(dc, %u);\nout(903, resume(dq, 0));\nout(904, resume(dq, 0));\n", k);
        case 3: return strf("function dh(n) { tick(); if(n < 1) { return 0; } return hcall(dh, n - 1) + 1; }\nout(905, dh(%u));\n", k % 40);
        case 4: return strf("function dd(n) { tick(); if(n < 1) { return 0; } var c = coroutine(dd, n - 1); resume(c, 0); return n; }\nout(906, dd(%u));\n", k % 30);
        case 5: {
            Str a, b;
            uint32_t d = 1 + t.draw(20);
            for(uint32_t i = 0; i < d; i++) { a += strf("%sa%u", i ? ", " : "", i); b += strf("%s%u", i ? ", " : "", i); }
            return "function da(" + a + ") { tick(); return a0; }\nout(907, da(" + b + "));\n";
        }
        case 6: {
            Str a;
            uint32_t d = 1 + t.draw(40);
            for(uint32_t i = 0; i < d; i++) a += strf("var v%u = %u; ", i, i);
            return "function dv(n) { " + a + "tick(); return n + v0; }\nout(908, dv(5));\n";
        }
        case 7: return strf("var dnv;\nfunction dm(n) { if(n < 1) { tick(); return \"e\"; } return \"a\" + dnv(n - 1); }\nfunction dn(n) { if(n < 1) { return \"f\"; } return dm(n - 1); }\ndnv = dn;\nout(909, dm(%u));\n", k % 100);
        case 8: return strf("function dg(n) { var o = object(); o.a = n; if(n < 1) { gcnow(); return o; } o.b = dg(n - 1); return o; }\nout(910, len(dg(%u)));\n", k % 60);
        case 9: return strf("function dy(n) { if(n > 0) { dy(n - 1); } yield(n); tick(); }\nvar dz = coroutine(dy, %u);\nwhile(is_finished(dz) == 0) { out(911, resume(dz, 0)); }\n", k % 30);
        case 10: runaway = true; return "function du(n) { return du(n + 1) + 1; }\nout(912, du(0));\n";
        default: runaway = true; return "function dw(n) { return dw(n + 1) + n; }\nvar dx = coroutine(dw, 1);\nresume(dx, 0);\n";
    }
}

struct StackRun { Trace t; uint32_t maxSeen = 0; Stacks end; bool limited = false; bool overflow = false; };

void scP20(World &w)
{
    GenOpt g = pickGen(w.t);
    if(w.t.chance(1, 2)) { g.rootStmts = 5; g.bodyStmts = 3; }
    Model m = makeModel(w, g);
    if(!m.usable) return;
    bool runaway = false, deep = w.t.chance(4, 5) && !m.r.err;
    if(deep) m.p.src += deepText(w.t, runaway);
    w.setScenario(m.p.src);
    NodeOpt o = pickNode(w.t);
    if(runaway) { o.gcInterval = 1000; o.gcNewObj = 0; }
    uint64_t bound = stepBound(m) + 3000000;
    uint32_t rate = runaway ? 100000 : 20 + w.t.draw(60);
    SlicePolicy sp(w.t);

    auto run = [&](uint32_t limit, const char *name, bool single) {
        StackRun r;
        NodeOpt o2 = o;
        o2.maxStack = limit;
        uint32_t eff = limit ? floorPow2(limit) : 0;
        Node n(w, o2, name);
        if(!n.build(m.p)) { w.fail("compile", "a valid program was rejected: " + n.errors()); return r; }
        uint32_t looks = 0;
        auto look = [&](const char *where) {
            if(n.oom()) return;
            Stacks s = stacksOf(n, m.p.src);
            r.maxSeen = std::max(r.maxSeen, s.maxSize());
            if(eff && s.maxSize() > eff) w.fail("stack-limit", strf("a stack holds %u values under a limit of %u %s", s.maxSize(), limit, where));
            r.end = s;
            looks++;
        };
        n.hook = [&](Node &, int, NKVMFunctionCallbackData *) { if(looks < 60 && w.t.chance(1, 3)) look("in a host function"); };
        drive(n, bound, [&] { return runaway && !single ? 20000u : single ? 1u : sp.next(); }, [&](Node &) {
            if(looks < 60 && w.t.chance(1, rate)) look("between slices");
        }, r.t);
        if(w.bad()) return r;
        if(n.hasErr()) {
            look("after the error");
            Str e = n.errors();
            r.limited = e.find("Reached stack capacity limit.") != Str::npos;
            r.overflow = e.find("Stack overflow.") != Str::npos;
            size_t evs = n.ev.size();
            Stacks a = r.end;
            nkxVmIterate(n.vm, 1 + w.t.draw(2000));
            nkxVmExecuteProgram(n.vm);
            if(n.ev.size() != evs) { w.fail("stack-limit", "the script ran on after its stack was full"); return r; }
            look("after the error");
            for(auto &c : a.ctx) {
                if(r.end.ctx[c.first].el != c.second.el) { w.fail("stack-damage", "the stack of a stopped script changed"); return r; }
            }
        }
        r.t = finish(n, m, r.t);
        if(n.hasErr()) r.t.dump.clear();
        n.hook = nullptr;
        n.destroy();
        return r;
    };

    StackRun base = run(0, "base", false);
    if(w.bad()) return;
    if(runaway && !base.overflow) { w.fail("stack-limit", "endless recursion did not overflow the stack: '" + base.t.errText.substr(0, 200) + "'"); return; }
    if(base.end.maxCap() > 0x10000 || base.maxSeen > 0x10000) { w.fail("stack-limit", strf("a stack grew to %u", base.end.maxCap())); return; }
    auto judge = [&](const StackRun &r, uint32_t limit) {
        uint32_t eff = floorPow2(limit);
        if(r.limited) {
            w.count("fault.stack_limit_hit");
            for(size_t i = 0; i < r.t.ev.size(); i++) {
                if(i < base.t.ev.size() && r.t.ev[i] == base.t.ev[i]) continue;
                w.fail("stack-effect", strf("event %zu is '%.200s' under a limit of %u and '%.200s' without", i, r.t.ev[i].c_str(), limit, i < base.t.ev.size() ? base.t.ev[i].c_str() : "(none)"));
                return;
            }
            if(eff >= 128) {
                // The stop was due: some stack is as full as it may be, but
                // for what a failing call gives back.
                bool full = false;
                for(auto &c : r.end.ctx) if(c.second.cap == eff && (c.second.size + 64 >= eff || m.p.src.find("hcall") != Str::npos)) full = true;
                if(!full) w.fail("stack-early", strf("the script was stopped under a limit of %u with no stack over %u values (capacity %u)", limit, r.end.maxSize(), r.end.maxCap()));
            }
        } else {
            if(base.maxSeen > eff && !(base.overflow && eff >= 0x10000)) {
                w.fail("stack-limit", strf("the script needs a stack of %u values and was not stopped under a limit of %u", base.maxSeen, limit));
                return;
            }
            sameTrace(w, "stack-effect", base.t, r.t, strf("without a limit vs under a limit of %u", limit));
        }
    };
    // Each power of two up to the first that is enough.
    uint32_t enough = 0, tight = 0;
    StackRun last;
    std::map<uint32_t, StackRun> byPow;
    uint32_t lo = runaway ? 1u << (6 + w.t.draw(12)) : 1;
    for(uint32_t p = lo; p <= 0x40000; p *= 2) {
        if(p > 1 && p < 0x8000 && !runaway && base.maxSeen > 8 * p && w.t.chance(1, 2)) continue;
        StackRun r = run(p, strf("limit%u", p).c_str(), false);
        if(w.bad()) return;
        judge(r, p);
        if(w.bad()) return;
        byPow[p] = r;
        if(!r.limited) { enough = p; break; }
        tight = p;
        if(runaway) break;
    }
    if(runaway) {
        w.trivial = false;
        w.sig(m.p.src);
        w.sig(lo);
        return;
    }
    if(!enough) { w.fail("stack-early", "no limit is enough"); return; }
    // A larger limit changes nothing.
    {
        uint32_t p = enough << (1 + w.t.draw(3));
        StackRun r = run(p, "larger", false);
        if(!w.bad()) judge(r, p);
        if(!w.bad() && r.limited) w.fail("stack-early", strf("stopped under a limit of %u, not under %u", p, enough));
        if(w.bad()) return;
    }
    // Limits between powers of two, and other slices.
    for(int k = 0; k < 2 && !w.bad(); k++) {
        uint32_t p = k == 0 && tight ? tight : enough;
        uint32_t lim = p + w.t.draw(p);
        StackRun r = run(lim, strf("limit%u", lim).c_str(), w.t.chance(1, 3));
        if(w.bad()) return;
        judge(r, lim);
        if(!w.bad() && r.limited != (p != enough)) w.fail("stack-limit", strf("a limit of %u does not act like %u", lim, p));
        if(!w.bad() && p != enough && r.t.ev != byPow[p].t.ev) w.fail("stack-limit", strf("a limit of %u stops elsewhere than %u", lim, p));
    }
    if(w.bad()) return;
    // The refused push leaves everything else alone.
    if(tight) {
        StackRun r = run(tight, "find", true);
        if(w.bad()) return;
        judge(r, tight);
        NodeOpt o2 = o;
        o2.maxStack = tight;
        Node n(w, o2, "stop");
        if(!n.build(m.p)) { w.fail("compile", "a valid program was rejected: " + n.errors()); return; }
        for(uint64_t i = 1; i < r.t.n; i++) n.iterate(1);
        if(n.hasErr()) { w.fail("stack-effect", "the same run failed sooner: " + n.errors()); return; }
        Stacks a = stacksOf(n, m.p.src);
        uint64_t calls = n.hostCalls;
        n.iterate(1);
        if(!n.hasErr()) { w.fail("stack-effect", "the same run did not fail at the same place"); return; }
        Stacks b = stacksOf(n, m.p.src);
        bool plain = n.hostCalls == calls;
        for(auto &c : a.ctx) {
            if(!plain && c.first != "root") continue;
            auto it = b.ctx.find(c.first);
            if(it == b.ctx.end()) { if(plain) w.fail("stack-damage", "a coroutine is gone after the refused push"); continue; }
            size_t keep = std::min(c.second.el.size(), it->second.el.size());
            keep = keep > 24 ? keep - 24 : 0;
            for(size_t i = 0; i < keep; i++) {
                if(c.second.el[i] == it->second.el[i]) continue;
                w.fail("stack-damage", strf("the refused push changed a value below it from '%s' to '%s' (stack %s of size %u, limit %u)", c.second.el[i].c_str() + 6, it->second.el[i].c_str() + 6, c.first.c_str(), c.second.size, tight));
                return;
            }
        }
        if(plain && a.statics != b.statics) { w.fail("stack-damage", "the refused push changed a global variable"); return; }
        n.destroy();
        if(w.bad()) return;
    }
    // Snapshots: with the same limit nothing changes; a smaller one is
    // enforced or the snapshot refused.
    {
        NodeOpt o2 = o;
        o2.maxStack = w.t.chance(1, 2) ? enough : 0;
        std::unique_ptr<Node> n(new Node(w, o2, "snap"));
        if(!n->build(m.p)) { w.fail("compile", "a valid program was rejected: " + n->errors()); return; }
        uint64_t k = w.t.draw((uint32_t)std::min<uint64_t>(base.t.n + 1, 5000));
        n->iterate((uint32_t)k);
        if(n->hasErr()) return;
        Stacks s = stacksOf(*n, m.p.src);
        Stream st;
        if(!n->save(st)) { w.fail("snapshot", "saving failed: " + n->errors()); return; }
        std::vector<Str> ev = n->ev;
        n->destroy();
        uint32_t lim = w.t.chance(1, 2) ? 1 + w.t.draw(2 * enough) : s.maxCap() + w.t.draw(3) - 1;
        if(!lim) lim = 1;
        NodeOpt o3 = o;
        o3.maxStack = lim;
        Node q(w, o3, "limited");
        if(!q.create() || !q.setup(false)) { w.fail("restore", "registration failed"); return; }
        q.limits();
        bool ok = q.load(st) && !q.hasErr();
        w.count(ok ? "action.restore_under_limit" : "fault.restore_refused_by_limit");
        if(!ok) {
            if(s.maxCap() <= floorPow2(lim)) { w.fail("stack-early", strf("a snapshot with stacks of at most %u values was refused under a limit of %u: %s", s.maxCap(), lim, q.errors().c_str())); return; }
            q.tolerant = true;
            q.destroy();
        } else {
            q.limits();
            q.ev = ev;
            Trace t;
            t.n = k;
            bool over = false;
            drive(q, bound, [&] { return sp.next(); }, [&](Node &) {
                if(w.t.chance(1, rate * 3)) { Stacks z = stacksOf(q, m.p.src); if(z.maxSize() > floorPow2(lim)) over = true; }
            }, t);
            Stacks z = stacksOf(q, m.p.src);
            if(over || z.maxSize() > floorPow2(lim)) { w.fail("stack-limit", strf("after a restore a stack holds over %u values under a limit of %u", floorPow2(lim), lim)); return; }
            bool limited = q.errors().find("Reached stack capacity limit.") != Str::npos;
            t = finish(q, m, t);
            if(q.hasErr()) t.dump.clear();
            if(!limited) {
                if(lim < enough) { w.fail("stack-limit", strf("after a restore a limit of %u did not stop what it stops otherwise", lim)); return; }
                sameTrace(w, "stack-effect", base.t, t, strf("without a limit vs restored under a limit of %u", lim));
            } else if(floorPow2(lim) >= enough) { w.fail("stack-early", strf("stopped after a restore under a limit of %u; %u is enough", lim, enough)); return; }
            if(w.bad()) return;
            q.destroy();
        }
    }
    w.trivial = !tight;
    w.sig(m.p.src);
    w.sig(w.hash);
    w.sig(enough);
}
