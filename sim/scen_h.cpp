// Scenario: interactive sessions (P14).
#include "life.hpp"

// ---------------------------------------------------------------------
// P14: a session that survives its own errors.  The same lines are entered
// into two sessions; one of them also gets lines that fail.  Everything the
// good lines do must be the same in both.
namespace {

struct BadLine
{
    Str src;
    int kind = 0;           // 0 does not compile, 1 fails when run, 2 runs out of budget
    const char *what = "";
    int errLine = 0;        // line of the statement that fails, if it is known
};

// Marks the statement that fails; taken out again before the text is used.
const char *const kMark = "\x01";
Str unmark(const Str &s)
{
    Str r;
    for(char c : s) if(c != kMark[0]) r += c;
    return r;
}

Str zz(Tape &t) { return strf("zz%u", t.draw(6)); }

// Things a failing line may do before it fails; all of it is its own.
Str prelude(Tape &t)
{
    Str s;
    int n = (int)t.draw(3);
    for(int i = 0; i < n; i++) {
        Str v = strf("zz%d", i * 2 + (int)t.draw(2));
        switch(t.draw(7)) {
            case 0: s += "var " + v + " = 3;\n"; break;
            case 1: s += "var " + v + " = object(); " + v + ".a = " + v + "; " + v + "[\"k\" + 1] = \"v\" + 2;\n"; break;
            case 2: s += "function " + v + "(a) { return a + 1; }\n" + v + "(2);\n"; break;
            case 3: s += "var " + v + " = coroutine(function(a) { while(1) { a = yield(a); } }, 1);\nresume(" + v + ", 2);\n"; break;
            case 4: s += "var " + v + " = \"s\" + 1;\n"; break;
            case 5: s += "{ var " + v + " = 1; { var q = " + v + "; q = q + 1; } }\n"; break;
            default: s += "for(var " + v + " = 0; " + v + " < 3; " + v + " = " + v + " + 1) { var o = object(); }\n"; break;
        }
    }
    return s;
}

Str failing(Tape &t)
{
    switch(t.draw(8)) {
        case 0: return "takeint(\"x\");";
        case 1: return "len(1);";
        case 2: return "resume(7, 1);";
        case 3: return "object() + 1;";
        case 4: return "nil(3);";
        case 5: return "1 / (len(\"\"));";
        case 6: return "hget(1, 2);";
        default: return "herr(\"boom\");";
    }
}

// A statement that fails when it is run, somewhere inside something.
Str failingStatement(Tape &t, bool yieldToo)
{
    Str plain = failing(t);
    bool y = yieldToo && t.chance(1, 10);
    Str e = kMark + (y ? Str("yield(1);") : plain);
    switch(t.draw(12)) {
        case 0: return "function zzf(n) { var l = n; if(n < 1) { " + e + " } return zzf(n - 1) + l; }\nzzf(" + strf("%u", t.draw(6)) + ");";
        case 1: if(y) e = kMark + Str("nil();"); return "function zzc(a) { a = yield(a); var l = a; " + e + " }\nvar zzv = coroutine(zzc, 1);\nresume(zzv, 1); resume(zzv, 2);";
        case 2: if(y) e = kMark + Str("nil();"); return "function zzd(d) { if(d < 1) { " + e + " } var c = coroutine(zzd, d - 1); resume(c, 1); }\nzzd(" + strf("%u", 1 + t.draw(5)) + ");";
        case 3: return "function zzh(a) { " + e + " }\nhcall(zzh, 1);";
        case 4: return "function zzh(a) { if(a < 1) { " + e + " } hcall(zzh, a - 1); }\nhcall(zzh, " + strf("%u", t.draw(4)) + ");";
        case 5: if(y) e = kMark + Str("nil();"); return "function zzi(a) { " + e + " }\nfunction zzj(a) { hcall(zzi, a); }\nfunction zzk(a) { var c = coroutine(zzj, a); resume(c, 0); }\nhcall(zzk, 1);";
        case 6: return "for(var zi = 0; zi < 4; zi = zi + 1) { var a = zi; while(1) { var b = a; if(zi > 2) { " + e + " } break; } }";
        case 7: return "{ var a = 1; { var b = 2; { var c = 3; " + e + " } } }";
        case 8: return "var zzo = object(); zzo.a = function(s) { " + e + " return 1; };\nzzo.b = zzo.a(zzo) + 1;";
        default: return e;
    }
}

BadLine badLine(Tape &t, const Str &next, bool smallStack)
{
    BadLine b;
    bool pure = next.compare(0, 9, "function ") == 0 || (next.compare(0, 4, "var ") == 0 && next.find("coroutine") == Str::npos && next.find("(") == Str::npos);
    switch(t.draw(16)) {
        case 0: b.src = "var ;"; b.what = "syntax"; break;
        case 1: b.src = prelude(t) + "nosuch = 1;"; b.what = "undefined"; break;
        case 2: b.src = prelude(t) + "var " + zz(t) + " = 1; out(1)"; b.what = "no-semicolon"; break;
        case 3: {
            const char *const o[] = { "{ var a = 1;", "while(1) {", "function zzq(a, b) {", "if(1) { var b = 3; {", "for(var i = 0; i < 3; i = i + 1) { var k = i; while(k) { var m = k;", "do {", "function zzq(a) { function zzr(b) { while(b) { var c = 2;", "var zzo = function(a) { var x = a; {", "out(function(a) { var x = a; out(" };
            b.src = prelude(t) + o[t.draw(9)];
            b.what = "unclosed";
        } break;
        case 4: b.src = prelude(t) + "}"; b.what = "extra-brace"; break;
        case 5: {
            const char *const o[] = { "out(1) @ 2;", "out(\"abc);", "1 = 2;", "a b c;", "function (", "function zzq", "function zzq(a,", "function zzq(1) { }", "else { }", "var x = ;", "var 5 = 3;", "return 3;", "break;", "(((", "x.;", "len(1, 2);", "for(;;) { }", "while() { }", "do { } while(1)", "if 1 { }", "resume();", "yield(1, 2, 3);", "out(1 2);", "var = 3;", "x->;", "x[;", "coroutine();", "is_finished(1, 2);", "1 +;", "+ * 2;", "++;", "-;", "!;" };
            b.src = prelude(t) + o[t.draw(sizeof(o) / sizeof(o[0]))];
            b.what = "malformed";
        } break;
        case 6: {
            uint32_t n = 200 + t.draw(200);
            const char *const open[] = { "(", "{", "!", "if(1) ", "[", "while(1) { var a = 1; ", "function() { return ", "-" };
            uint32_t k = t.draw(8);
            b.src = prelude(t);
            for(uint32_t i = 0; i < n; i++) b.src += open[k];
            b.src += "1;\nnosuch = 1;";
            b.what = "deep";
        } break;
        case 7: {
            // The next line, with something wrong after it.
            const char *const tail[] = { "nosuch = 2;", "}", "var ;", "function zzq( {", "{ var a = 1; nosuch(a); }", "while(nosuch) { }" };
            b.src = next + tail[t.draw(6)];
            b.what = "next-line-broken";
        } break;
        case 8: {
            // The next line, cut short.
            size_t n = next.empty() ? 0 : t.draw((uint32_t)next.size());
            b.src = next.substr(0, n) + "\n} nosuch = ;\n";
            b.what = "next-line-cut";
        } break;
        case 9:
            if(pure) { b.kind = 1; b.src = next + failingStatement(t, false); b.what = "next-line-fails"; break; }
            // Fall through.
        case 10: case 11: case 12: case 13:
            b.kind = 1;
            b.src = prelude(t) + failingStatement(t, true);
            b.what = "runtime";
            break;
        case 14:
            b.kind = 1;
            b.src = prelude(t);
            if(!smallStack) { b.src += failingStatement(t, true); b.what = "runtime"; break; }
            switch(t.draw(4)) {
                case 0: b.src += "function zzs(a) { return zzs(a + 1) + 1; }\nzzs(0);"; break;
                case 1: b.src += "function zzs(a) { return zzs(a + 1) + 1; }\nvar zzc = coroutine(zzs, 0);\nresume(zzc, 0);"; break;
                case 2: b.src += "function zzs(a) { return hcall(zzs, a + 1) + 1; }\nhcall(zzs, 0);"; break;
                default: b.src += "function zzs(a) { var b = a; var c = b; zzs(c); return zzs(a + 1) + 1; }\nfunction zzt(a) { hcall(zzs, a); }\nvar zzc = coroutine(zzt, 0);\nresume(zzc, 0);"; break;
            }
            b.what = "stack-overflow";
            break;
        default:
            b.kind = 2;
            b.src = prelude(t);
            switch(t.draw(4)) {
                case 0: b.src += "while(1) { tick(); }"; break;
                case 1: b.src += "function zzs(a) { while(1) { a = a + 1; } }\nvar zzc = coroutine(zzs, 0);\nresume(zzc, 0);"; break;
                case 2: b.src += "function zzs(a) { while(1) { var o = object(); o.o = o; } }\nhcall(zzs, 0);"; break;
                default: b.src += "function zzs(a) { while(1) { a = yield(a); } }\nvar zzc = coroutine(zzs, 0);\nfunction zzt(a) { while(1) { resume(zzc, 0); } }\nhcall(zzt, 0);"; break;
            }
            b.what = "budget";
            break;
    }
    size_t m = b.src.find(kMark);
    if(m != Str::npos) b.errLine = 1 + (int)std::count(b.src.begin(), b.src.begin() + (long)m, '\n');
    b.src = unmark(b.src);
    return b;
}

// A line that does something lasting. With `fail` it also fails, after
// everything it does is done.
struct Lasting { Str good, fails; std::vector<Str> later; };
Lasting lasting(Tape &t, int id)
{
    Lasting l;
    Str v = strf("es%d", id);
    uint32_t k = t.draw(50);
    switch(t.draw(6)) {
        case 0:
            l.good = v + strf(" = function(a) { out(a); return a + %u; };\n", k);
            l.later.push_back("out(" + v + "(3));\n");
            l.later.push_back("out(hcall(" + v + ", 4));\n");
            break;
        case 1:
            l.good = v + strf(" = coroutine(function(a) { var b = a; while(b < %u) { out(b); a = yield(a + b); b = b + 1; } return \"done\"; }, %u);\nout(resume(%s, 1));\n", k + 2, k, v.c_str());
            l.later.push_back("out(resume(" + v + ", 5)); out(is_finished(" + v + "));\n");
            l.later.push_back("out(resume(" + v + ", 7)); out(is_finished(" + v + "));\n");
            break;
        case 2:
            l.good = v + " = object();\n" + v + strf(".s = \"fresh\" + %u; ", k) + v + ".o = object(); " + v + ".o.p = " + v + ";\n";
            l.later.push_back("out(" + v + ".s); out(" + v + ".o.p.s); gcnow();\n");
            break;
        case 3:
            l.good = v + " = object();\n" + v + ".m = function(s) { return s.n + 1; }; " + v + strf(".n = %u;\n", k);
            l.later.push_back("out(" + v + ".m(" + v + "));\n");
            l.later.push_back("out(" + v + "->m());\n");
            break;
        case 4:
            l.good = v + strf(" = coroutine(function(a) { var f = function(b) { b = yield(b); return b + 1; }; out(f(a)); return f(a + 1); }, %u);\nresume(%s, 1);\n", k, v.c_str());
            l.later.push_back("out(resume(" + v + ", 5));\n");
            l.later.push_back("out(resume(" + v + ", 6)); out(is_finished(" + v + "));\n");
            break;
        default:
            l.good = v + strf(" = \"lasting\" + %u; out(%s);\n", k, v.c_str());
            l.later.push_back("out(" + v + ");\n");
            break;
    }
    l.fails = l.good + unmark(failingStatement(t, true));
    return l;
}

struct Session
{
    Node &n;
    World &w;
    uint64_t bound;
    SlicePolicy *slices = nullptr;
    Between between;
    uint32_t lastStart = 0;
    bool stuck = false;

    Session(Node &nn, uint64_t b) : n(nn), w(nn.w), bound(b) { }
    // True if the line did what it should without an error.
    bool enter(const Str &src)
    {
        lastStart = nkxCompilerGetInstructionWriteIndex(n.cs);
        bool ok = nkxCompilerCompileScript(n.cs, src.c_str(), "<line>");
        if(n.oom()) return false;
        if(!ok && !n.hasErr()) { w.fail("silent-failure", "compiling a line failed without an error: " + src.substr(0, 200)); return false; }
        if(n.hasErr()) return false;
        if(!nkxCompilerIsAtRootContext(n.cs)) { w.fail("context", "a line compiled but the compiler is not at the root context: " + src.substr(0, 200)); return false; }
        nkxCompilerPartiallyFinalize(n.cs);
        if(n.oom()) return false;
        uint64_t g = 0;
        while(!n.hasErr() && !n.ended() && !w.bad()) {
            if(g >= bound) { stuck = true; return true; }
            uint32_t s = slices ? slices->next() : 100000;
            n.iterate(s);
            g += s;
            if(between && !n.hasErr()) between(n);
        }
        return !n.oom() && !n.hasErr();
    }
    void clear()
    {
        nkxCompilerClearReplErrorState(n.cs, lastStart);
    }
};

} // namespace

void scP14(World &w)
{
    GenOpt g = pickGen(w.t);
    g.wErr = 0;
    g.wFp = 0;
    if(w.t.chance(1, 2)) { g.rootStmts = 6; g.bodyStmts = 3; }
    Model m = makeModel(w, g);
    if(!m.usable || m.r.err) return;

    // The lines of the session.
    struct Line { Str src, fails; };
    std::vector<Line> lines;
    std::vector<Str> names = m.p.globals;
    std::vector<Lasting> las;
    int nLasting = w.t.chance(1, 2) ? (int)w.t.draw(4) : 0;
    for(int i = 0; i < nLasting; i++) {
        las.push_back(lasting(w.t, i));
        lines.push_back(Line{ strf("var es%d;\n", i), "" });
        names.push_back(strf("es%d", i));
    }
    {
        std::vector<size_t> at(las.size(), 0);
        for(size_t i = 0; i < m.p.lines.size(); i++) {
            lines.push_back(Line{ m.p.lines[i], "" });
            if(las.size() && w.t.chance(1, 3)) {
                size_t k = w.t.draw((uint32_t)las.size());
                if(at[k] == 0) lines.push_back(Line{ las[k].good, las[k].fails });
                else lines.push_back(Line{ las[k].later[(at[k] - 1) % las[k].later.size()], "" });
                at[k]++;
            }
        }
        for(size_t k = 0; k < las.size(); k++) {
            if(!at[k]) lines.push_back(Line{ las[k].good, las[k].fails });
            for(auto &l : las[k].later) lines.push_back(Line{ l, "" });
        }
    }
    // Long sessions.
    if(w.t.chance(1, 12)) {
        uint32_t n = 100 + w.t.draw(400);
        uint32_t kind = w.t.draw(4);
        for(uint32_t i = 0; i < n; i++) {
            switch(kind) {
                case 0: lines.push_back(Line{ strf("var long%u = %u;\n", i, i), "" }); break;
                case 1: lines.push_back(Line{ strf("function long%u(a) { return a + %u; }\n", i, i), "" }); break;
                case 2: lines.push_back(Line{ strf("{ var a = %u; var b = a; if(b) { var c = b; } }\n", i), "" }); break;
                default: lines.push_back(Line{ "out(1); out(function(a) { return a; }(2));\n", "" }); break;
            }
        }
        w.count("probe.long_sessions");
    }
    Str all;
    for(auto &l : lines) all += l.src + "---\n";
    w.setScenario(all);
    // An error the host sees at the end, whose text should be the same too.
    Str last = "var zz0 = 1;\nvar zz1 = 2;\nzz0 = 5;\n" + unmark(failingStatement(w.t, true));

    NodeOpt o = pickNode(w.t);
    bool smallStack = w.t.chance(1, 4);
    uint64_t bound = 400 * m.r.steps + 100000;

    // The session without failures.
    std::vector<Str> evGood;
    Str dumpGood, errGood;
    {
        Node a(w, o, "good");
        if(!a.create() || !a.setup(true)) { w.fail("setup", "a VM cannot be set up: " + a.errors()); return; }
        a.limits();
        Session s(a, bound);
        for(auto &l : lines) {
            if(!s.enter(l.src)) {
                if(!w.bad()) w.fail("good-line", "a valid line of a session failed: '" + l.src.substr(0, 300) + "': " + a.errors());
                return;
            }
            if(s.stuck) { w.fail("good-line", "no progress in a line of a session: " + l.src.substr(0, 300)); return; }
            if(w.bad()) return;
        }
        evGood = a.ev;
        dumpGood = a.dumpGlobals(names);
        if(s.enter(last)) { w.fail("no-error", "a failing line did not fail: " + last); return; }
        errGood = a.errors();
        s.clear();
        nkxCompilerFinalize(a.cs);
        a.cs = nullptr;
        for(auto &e : evGood) w.ev("good: " + e);
        if(las.empty() && lines.size() == m.p.lines.size()) {
            if(evGood != m.r.ev) { w.fail("repl-model", "a session entered line by line differs from the reference"); return; }
            if(dumpGood != m.dump) { w.fail("repl-model", "a session entered line by line: final data differ from the reference " + dumpDiff(m.dump, dumpGood)); return; }
        }
        a.destroy();
        if(w.bad()) return;
    }

    // The session with failures, collections, snapshots, ...
    NodeOpt o2 = o;
    o2.fillSeed = subseed(w.t);
    Node b(w, o2, "bad");
    if(smallStack) b.opt.maxStack = 1024;
    if(!b.create() || !b.setup(true)) { w.fail("setup", "a VM cannot be set up: " + b.errors()); return; }
    b.limits();
    w.note(strf("maxStack %u gc %u/%u small %d", b.opt.maxStack, b.opt.gcInterval, b.opt.gcNewObj, smallStack));
    Session s(b, bound);
    SlicePolicy sp(w.t);
    if(w.t.chance(1, 2)) s.slices = &sp;
    uint32_t busy = w.t.draw(3), nBusy = 0;
    s.between = [&](Node &n) {
        if(!busy || !w.t.chance(1, 40)) return;
        if(++nBusy > 40) return;
        switch(w.t.draw(3)) {
            case 0: nkxVmGarbageCollect(n.vm); w.count("fault.collect"); break;
            case 1: nkxVmShrink(n.vm); w.count("fault.shrink"); break;
            default: { Stream st; n.save(st); w.count("fault.snapshot"); } break;
        }
    };
    uint32_t failRate = 1 + w.t.draw(6);
    uint32_t storm = w.t.chance(1, 12) ? 50 + w.t.draw(450) : 0;
    size_t stormAt = lines.empty() ? 0 : w.t.draw((uint32_t)lines.size());
    bool budgets = w.t.chance(1, 3);
    uint64_t failures = 0;
    bool oomPlan = w.t.chance(1, 10);
    uint64_t oomLine = oomPlan ? w.t.draw((uint32_t)lines.size() + 4) : 0;
    if(storm) w.count("fault.storms");

    auto failLine = [&](const Str &next) {
        BadLine bl = badLine(w.t, next, smallStack);
        size_t evs = b.ev.size();
        uint32_t finals = (uint32_t)b.finals.size();
        (void)finals;
        if(bl.kind == 2 || budgets) nkxSetRemainingInstructionLimit(b.vm, bl.kind == 2 ? 500 + w.t.draw(5000) : 0x7fffffff);
        w.note("bad line: " + bl.src);
        bool ok = s.enter(bl.src);
        if(w.bad() || b.oom()) return false;
        if(s.stuck) { w.fail("no-error", "a line that should fail runs on: " + bl.src.substr(0, 300)); return false; }
        if(ok) {
            w.fail("no-error", strf("a line that should fail (%s) was accepted: ", bl.what) + bl.src.substr(0, 300));
            return false;
        }
        failures++;
        w.count(strf("fault.%s", bl.what));
        w.sig(Str(bl.what));
        w.ev(strf("%s failed: %.100s", bl.what, b.errors().c_str()));
        if(bl.errLine && b.errors().compare(0, 8 + strf("%d", bl.errLine).size(), strf("<line>:%d:", bl.errLine)) != 0) {
            w.fail("error-line", strf("a failing statement in line %d is reported as '%.200s'", bl.errLine, b.errors().c_str()));
            return false;
        }
        if(!nkxGetErrorCount(b.vm)) { w.fail("no-error", "a failing line left no error text"); return false; }
        if(bl.kind != 0 && w.t.chance(1, 4)) { nkxVmIterate(b.vm, 100); nkxVmGarbageCollect(b.vm); }
        s.clear();
        if(b.oom()) return false;
        if(b.hasErr() || nkxGetErrorCount(b.vm)) { w.fail("not-cleared", "an error is still reported after clearing: " + b.errors()); return false; }
        if(!b.ended()) { w.fail("not-cleared", "a cleared session is not at its end"); return false; }
        if(bl.kind != 2 && b.ev.size() != evs) {
            // Only what the prelude prints, which is nothing.
            w.fail("stray-output", "a failing line made host calls it should not: " + b.ev.back());
            return false;
        }
        b.ev.resize(evs);
        if(bl.kind == 2 || budgets) {
            nkxSetRemainingInstructionLimit(b.vm, NK_INVALID_VALUE);
        }
        // Names it declared are gone.
        if(w.t.chance(1, 4)) {
            Str z = zz(w.t);
            if(nkxVmFindGlobalVariable(b.vm, w.t.chance(1, 2) ? b.cs : nullptr, z.c_str())) {
                w.fail("leftover", "a variable declared by a failing line is still found: " + z);
                return false;
            }
        }
        return true;
    };

    // Coroutines that were running when a line failed, kept in an object
    // that outlives the line.  None of them can be resumed.
    bool haveKeep = false;
    int nDead = 0;
    auto deadCoroutines = [&]() {
        if(!haveKeep) {
            if(!s.enter("var zk = object();\n")) return b.oom() ? false : (w.fail("good-line", "a valid line failed: " + b.errors()), false);
            haveKeep = true;
        }
        int d = 1 + (int)w.t.draw(4), id = nDead++;
        bool early = w.t.chance(1, 3);                 // each of them has been suspended once
        bool viaHost = w.t.chance(1, 4);
        bool fromHost = w.t.chance(1, 5);
        Str key = strf("\"d%d_\" + ", id);
        Str go = viaHost ? "hcall(zzr, c)" : "resume(c, 1)";
        Str src = prelude(w.t) + "function zzr(c) { return resume(c, 1); }\n"
            "function zzd(n) { " + Str(early ? "yield(n); " : "") + "if(n < 1) { " + (w.t.chance(1, 3) ? "var f = function(a) { " + failing(w.t) + " }; f(1);" : failing(w.t)) + " }"
            " var l = n; var c = coroutine(zzd, n - 1); zk[" + key + "n] = c; " + (early ? "resume(c, 1); " : "") + "var r = " + go + "; out(\"carried on\"); return l + 1; }\n"
            "var zzc = coroutine(zzd, " + strf("%d", d) + "); zk[" + key + "\"x\"] = zzc;\n" + (early ? "resume(zzc, 1);\n" : "")
            + (fromHost ? "hcall(zzr, zzc);" : "resume(zzc, 1);") + " out(\"carried on\");\n";
        size_t evs = b.ev.size();
        w.note("dead coroutines: " + src);
        auto mustFail = [&](const Str &l, const char *why) {
            bool ok = s.enter(l);
            if(w.bad() || b.oom()) return false;
            if(ok || s.stuck || b.ev.size() != evs) { w.fail("dead-coroutine", Str(why) + ": " + l.substr(0, 600) + (b.ev.size() != evs ? " prints " + b.ev.back().substr(0, 100) : "")); return false; }
            failures++;
            s.clear();
            if(b.oom()) return false;
            if(b.hasErr()) { w.fail("not-cleared", "an error is still reported after clearing: " + b.errors()); return false; }
            return true;
        };
        if(!mustFail(src, "a line that fails in a coroutine goes on")) return false;
        w.count("fault.dead-coroutines");
        for(int i = 0; i <= d; i++) {
            if(w.t.chance(1, 4)) continue;
            if(w.t.chance(1, 6)) nkxVmGarbageCollect(b.vm);
            if(w.t.chance(1, 10)) nkxVmShrink(b.vm);
            Str c = "zk[" + key + (i < d ? strf("%d", i + 1) : Str("\"x\"")) + "]";
            switch(w.t.draw(3)) {
                case 0:
                    if(!mustFail("out(resume(" + c + ", 1));\n", "a coroutine that an error stopped is resumed")) return false;
                    break;
                case 1:
                    if(!mustFail("var zzq = coroutine(function(a) { out(resume(a, 2)); }, " + c + "); resume(zzq, 1);\n", "a coroutine that an error stopped is resumed")) return false;
                    break;
                default:
                    if(!s.enter("is_finished(" + c + ");\n")) {
                        if(b.oom()) return false;
                        w.fail("good-line", "is_finished of a coroutine that an error stopped: " + b.errors());
                        return false;
                    }
                    break;
            }
        }
        return true;
    };
    bool keepers = w.t.chance(1, 3);

    bool dead = false;
    for(size_t i = 0; i < lines.size() && !dead; i++) {
        if(keepers && w.t.chance(1, 6) && nDead < 6 && !deadCoroutines()) { if(w.bad()) return; dead = true; break; }
        if(oomPlan && oomLine == i) { b.alloc.failAt = b.alloc.nAllocs + w.t.draw(60); b.alloc.failCount = w.t.chance(1, 2) ? 1 : ~0ULL; }
        uint32_t k = w.t.chance(1, failRate) ? 1 + w.t.draw(3) : 0;
        if(storm && i == stormAt) k += storm;
        for(uint32_t j = 0; j < k && !dead; j++) {
            if(!failLine(lines[i].src)) { if(w.bad()) return; dead = true; }
        }
        if(dead) break;
        if(w.t.chance(1, 10)) {
            switch(w.t.draw(3)) {
                case 0: nkxVmGarbageCollect(b.vm); w.count("fault.collect"); break;
                case 1: nkxVmShrink(b.vm); w.count("fault.shrink"); break;
                default: {
                    // A snapshot of the session restores to its data.
                    Stream st;
                    if(!b.save(st)) { if(b.oom()) { dead = true; break; } w.fail("save", "a session cannot be saved: " + b.errors()); return; }
                    std::vector<Str> sofar;
                    for(auto &nm : names) if(nkxVmFindGlobalVariable(b.vm, b.cs, nm.c_str())) sofar.push_back(nm);
                    Str d1 = b.dumpGlobals(sofar, false);
                    if(b.oom()) { dead = true; break; }
                    Node r(w, o, "restored");
                    if(!r.create() || !r.setup(false) || !r.load(st)) { w.fail("restore", "a snapshot of a session cannot be restored: " + r.errors()); return; }
                    if(r.opt.maxStack) nkxSetMaxStackSize(r.vm, r.opt.maxStack);
                    Str d2 = r.dumpGlobals(sofar, false);
                    // The table of names is the one of the last line that ran.
                    if(d1 != d2) { w.fail("restore", "a restored session has other data " + dumpDiff(d1, d2)); return; }
                    if(r.ended() != b.ended()) { w.fail("restore", "a restored session is not at its end"); return; }
                    if(r.ended()) nkxVmIterate(r.vm, 100);
                    nkxVmGarbageCollect(r.vm);
                    if(r.hasErr()) { w.fail("restore", "a restored session fails: " + r.errors()); return; }
                    r.destroy();
                    w.count("fault.snapshot");
                } break;
            }
            if(w.bad()) return;
            if(b.oom()) dead = true;
            if(dead) break;
        }
        bool fails = !lines[i].fails.empty() && w.t.chance(3, 4);
        const Str &src = fails ? lines[i].fails : lines[i].src;
        if(w.keepLog) w.note("line: " + src);
        bool ok = s.enter(src);
        if(w.bad()) return;
        if(b.oom()) { dead = true; break; }
        if(s.stuck) { w.fail("good-line", "no progress in a line after failures: " + src.substr(0, 300)); return; }
        if(fails) {
            if(ok) { w.fail("no-error", "a failing line did not fail: " + src.substr(0, 300)); return; }
            failures++;
            w.count("fault.lasting");
            s.clear();
            if(b.oom()) { dead = true; break; }
            if(b.hasErr()) { w.fail("not-cleared", "an error is still reported after clearing: " + b.errors()); return; }
        } else if(!ok) {
            w.fail("good-line", strf("after %llu failing lines a valid line failed: '", (unsigned long long)failures) + src.substr(0, 300) + "': " + b.errors());
            return;
        }
        size_t c = std::min(evGood.size(), b.ev.size());
        for(size_t e = c > 0 ? c - 1 : 0; e < b.ev.size(); e++) {
            if(e >= evGood.size() || evGood[e] != b.ev[e]) {
                w.fail("output", strf("after %llu failing lines the line '%.200s' gives '%.200s', not '%.200s'", (unsigned long long)failures, src.c_str(), b.ev[e].c_str(), e < evGood.size() ? evGood[e].c_str() : "(nothing)"));
                return;
            }
        }
    }
    b.alloc.failAt = ~0ULL;
    w.count("probe.failing_lines", failures);
    w.instrs = w.counters["probe.model_steps"]; // what was granted says nothing here
    w.sig(failures);
    w.trivial = failures == 0;
    if(!dead) {
        if(b.ev != evGood) { w.fail("output", "the output of a session with failing lines differs from one without"); return; }
        Str d = b.dumpGlobals(names);
        if(d != dumpGood) { w.fail("data", "the data of a session with failing lines differ from one without " + dumpDiff(dumpGood, d)); return; }
        if(s.enter(last)) { w.fail("no-error", "a failing line did not fail: " + last); return; }
        if(b.errors() != errGood) { w.fail("error-text", "after failing lines an error reads '" + b.errors().substr(0, 300) + "', not '" + errGood.substr(0, 300) + "'"); return; }
        s.clear();
    } else {
        if(!b.oom() || !b.alloc.failsFired) { w.fail("oom", "an allocation failure without a failing allocation"); return; }
        w.count("fault.host_alloc_fail");
        s.clear();
        if(!b.oom()) { w.fail("oom", "an allocation failure was cleared"); return; }
    }
    nkxCompilerFinalize(b.cs);
    b.cs = nullptr;
    if(!dead) {
        nkxVmIterate(b.vm, 100);
        if(b.hasErr() || !b.ended()) { w.fail("end", "a finished session does not end: " + b.errors()); return; }
    }
    b.destroy();
}
