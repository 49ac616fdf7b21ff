#include "exec.hpp"

uint32_t subseed(Tape &t) { return t.draw(0x7fffffff) + 1; }

void runModel(Model &m, int fpArm, uint32_t fieldLimit, uint64_t cap)
{
    m.r = Ref();
    m.r.cap = cap;
    m.r.fpArm = fpArm;
    m.r.fieldLimit = fieldLimit;
    m.r.init(m.p);
    m.r.run();
    m.usable = !m.r.capped;
    m.dump = m.usable ? m.r.finalDump() : Str();
}

Model makeModel(World &w, const GenOpt &o, int fpArm, uint32_t fieldLimit, uint64_t cap)
{
    Model m;
    m.p = generate(w.t, o);
    w.setScenario(m.p.src);
    runModel(m, fpArm, fieldLimit, cap);
    if(m.usable) {
        w.count("probe.model_steps", m.r.steps);
        w.count("probe.coroutine_switches", m.r.switches);
        w.count("probe.script_calls", m.r.calls);
        w.count("probe.events", m.r.ev.size());
        if(m.r.err) w.count("probe.script_errors");
    } else {
        w.count("probe.model_capped");
    }
    return m;
}

uint64_t stepBound(const Model &m) { return 200 * m.r.steps + 10000; }

void drive(Node &n, uint64_t bound, const Slicer &slice, const Between &between, Trace &t)
{
    while(true) {
        if(n.w.bad()) return;
        if(n.hasErr() || n.ended()) break;
        if(t.n >= bound) { t.stuck = true; break; }
        uint32_t s = slice();
        n.iterate(s);
        t.n += s;
        if(between && !n.hasErr()) between(n);
    }
}

Trace finish(Node &n, const Model &m, Trace t)
{
    t.built = true;
    t.ev = n.ev;
    t.oom = n.oom();
    t.err = n.hasErr();
    t.errText = n.errors();
    t.ended = n.ended();
    if(!t.oom && !n.w.bad()) t.dump = n.dumpGlobals(m.p.globals);
    for(auto &e : t.ev) n.w.ev(n.name + ": " + e);
    n.w.ev(strf("%s: err '%s' ended %d granted %llu", n.name.c_str(), t.errText.c_str(), t.ended, (unsigned long long)t.n));
    n.w.mix(t.dump.data(), t.dump.size());
    return t;
}

Trace baseline(World &w, const Model &m, const NodeOpt &o)
{
    Node n(w, o, "base");
    Trace t;
    if(!n.build(m.p)) {
        t.errText = n.errors();
        w.fail("compile", "a valid program was rejected: " + t.errText);
        return t;
    }
    drive(n, stepBound(m), [] { return 1u; }, nullptr, t);
    t = finish(n, m, t);
    n.destroy();
    return t;
}

static Str firstDiff(const std::vector<Str> &a, const std::vector<Str> &b)
{
    size_t i = 0;
    while(i < a.size() && i < b.size() && a[i] == b[i]) i++;
    return strf("at event %zu: '%.300s' vs '%.300s'", i, i < a.size() ? a[i].c_str() : "(none)", i < b.size() ? b[i].c_str() : "(none)");
}

Str dumpDiff(const Str &a, const Str &b)
{
    size_t i = 0, line = 0;
    while(i < a.size() && i < b.size() && a[i] == b[i]) { if(a[i] == '\n') line = i + 1; i++; }
    auto cut = [&](const Str &s) { size_t e = s.find('\n', i < s.size() ? i : s.size()); return s.substr(line < s.size() ? line : s.size(), e == Str::npos ? Str::npos : e - line); };
    return strf("'%.400s' vs '%.400s'", cut(a).c_str(), cut(b).c_str());
}

bool sameTrace(World &w, const Str &cls, const Trace &a, const Trace &b, const Str &what, bool withDump, bool withErrText)
{
    if(w.bad()) return false;
    if(b.oom != a.oom) { w.fail(cls, what + ": allocation failure differs"); return false; }
    if(a.ev != b.ev) { w.fail(cls, what + ": output differs " + firstDiff(a.ev, b.ev)); return false; }
    if(b.stuck && !a.stuck) { w.fail(cls, what + ": no progress (neither end nor error within the step bound)"); return false; }
    if(a.err != b.err || (withErrText && a.errText != b.errText)) {
        w.fail(cls, what + ": errors differ '" + a.errText.substr(0, 300) + "' vs '" + b.errText.substr(0, 300) + "'");
        return false;
    }
    if(!a.err && a.ended != b.ended) { w.fail(cls, what + ": end of program differs"); return false; }
    if(withDump && a.dump != b.dump) { w.fail(cls, what + ": final data differ " + dumpDiff(a.dump, b.dump)); return false; }
    return true;
}

bool matchesModel(World &w, const Str &cls, const Model &m, const Trace &t, const Str &what, bool withDump)
{
    if(w.bad()) return false;
    if(m.r.ev != t.ev) { w.fail(cls, what + ": output differs from the reference " + firstDiff(m.r.ev, t.ev)); return false; }
    if(t.stuck) { w.fail(cls, what + ": no progress (neither end nor error within the step bound)"); return false; }
    if(m.r.err != t.err) {
        w.fail(cls, what + strf(": reference %s ('%s'), real %s ('%.300s')", m.r.err ? "failed" : "succeeded", m.r.errText.c_str(), t.err ? "failed" : "succeeded", t.errText.c_str()));
        return false;
    }
    if(m.r.err && t.errText.find(m.r.errText) == Str::npos) {
        w.fail(cls, what + ": error does not name '" + m.r.errText + "': '" + t.errText.substr(0, 300) + "'");
        return false;
    }
    if(!m.r.err && !t.ended) { w.fail(cls, what + ": not at the end of the program"); return false; }
    if(withDump && m.dump != t.dump) { w.fail(cls, what + ": final data differ from the reference " + dumpDiff(m.dump, t.dump)); return false; }
    return true;
}

void addProbe(World &w, Prog &p)
{
    p.src = "function hostProbeGen(a) { var x = yield(a + 1); return x * 2; }\n"
        "function hostProbe(a, b) { var o = object(); o.x = a; var i = 0;"
        " while(i < b) { i = i + 1; o.x = o.x + i; }"
        " var c = coroutine(hostProbeGen, o.x); var r = resume(c, 0); r = r + resume(c, 5);"
        " return r + len(o); }\n" + p.src;
    w.setScenario(p.src);
}

void callProbe(Node &n)
{
    World &w = n.w;
    NKValue *f = nkxVmFindGlobalVariable(n.vm, nullptr, "hostProbe");
    if(!f) { w.fail("host-call", "a global function of the script cannot be found"); return; }
    if(f->type != NK_VALUETYPE_FUNCTIONID) return;   // not there yet
    NKValue fn = *f, args[2], ret = nkNil();
    int a = (int)w.t.draw(100), b = (int)w.t.draw(12), want = a + b * (b + 1) / 2 + 12;
    bool keep = w.t.chance(3, 4);
    args[0] = nkInt(a);
    args[1] = nkInt(b);
    nkxVmCallFunction(n.vm, &fn, 2, args, keep ? &ret : nullptr);
    w.count("action.host_call_between_slices");
    if(n.hasErr()) { w.fail("host-call", "a script function called between two slices failed: " + n.errors()); return; }
    if(keep && (ret.type != NK_VALUETYPE_INT || ret.intData != want))
        w.fail("host-call", strf("a script function called between two slices returned %s instead of %d", n.valStr(ret).c_str(), want));
}

SlicePolicy::SlicePolicy(Tape &tt) : t(tt)
{
    mode = (int)t.draw(5);
    fixed = 1 + t.draw(64);
}

uint32_t SlicePolicy::next()
{
    switch(mode) {
        case 0: return fixed;
        case 1: return 1;
        case 2: return 1 + t.draw(8);
        case 3: return 1 + t.draw(400);
        default: return t.chance(1, 8) ? 1 + t.draw(2000) : 1 + t.draw(3);
    }
}

void runProgramFile(World &w, const char *file, unsigned long max)
{
    Str src;
    FILE *f = fopen(file, "rb");
    int c;
    while(f && (c = fgetc(f)) != EOF) src += (char)c;
    NodeOpt o;
    Node n(w, o);
    if(!n.build(src)) { printf("build: %s\n", n.errors().c_str()); return; }
    size_t shown = 0;
    unsigned long i = 0;
    for(; i < max && !n.ended() && !n.hasErr(); i++) {
        n.iterate(1);
        for(; shown < n.ev.size(); shown++) printf("%lu %s\n", i, n.ev[shown].c_str());
    }
    printf("steps %lu ended %d err %s\n", i, n.ended(), n.errors().c_str());
    n.destroy();
    printf("%s %s\n", w.vclass.c_str(), w.vmsg.c_str());
}
