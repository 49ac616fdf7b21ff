// Scenario: where errors are reported.
#include "exec.hpp"
#include "scen.hpp"

struct Place { Str file; uint32_t line = 0; };
struct Unit { Str name, text; };

// Writes the program's lines into source files as a build would assemble
// them: several files, preprocessor directives, comments, blank lines and
// either kind of line end. Keeps the place each line should be reported at.
struct Layout
{
    Tape &t;
    std::vector<Unit> units;
    std::map<std::pair<int, int>, Place> at;
    Place cur;
    Str eol = "\n";
    int noise = 0, directives = 0;
    explicit Layout(Tape &tt) : t(tt) { }

    Str fileName()
    {
        static const char *n[] = { "main.nks", "lib/util.nks", "a b.nks", "gen-x.nks", "m.nks" };
        return n[t.draw(5)];
    }
    static Str plain(const Str &n)   // as it reads once the escapes are taken out
    {
        Str r;
        for(size_t i = 0; i < n.size(); i++) { if(n[i] == '\\' && i + 1 < n.size()) i++; r += n[i]; }
        return r;
    }
    void open()
    {
        Unit u;
        u.name = t.chance(1, 8) ? Str("m.nks") : strf("u%zu.nks", units.size());
        units.push_back(u);
        cur.file = u.name;
        cur.line = 1;
        eol = t.chance(1, 4) ? "\r\n" : "\n";
    }
    void put(const Str &s) { units.back().text += s + eol; cur.line++; }
    void filler()
    {
        switch(t.draw(6)) {
            case 0: put(""); break;
            case 1: put("// a comment; with { things } \"in it"); break;
            case 2: put("   \t "); break;
            case 3: {
                uint32_t n = 1 + t.draw(t.chance(1, 4) ? 100000 : 400);
                put(strf("#line %u", n));
                cur.line = n;
                directives++;
            } break;
            case 4: {
                uint32_t n = 1 + t.draw(400);
                Str f = fileName();
                put(strf("#line %u \"%s\"", n, f.c_str()));
                cur.line = n;
                cur.file = plain(f);
                directives++;
            } break;
            default: {
                Str f = fileName();
                put(strf("#file \"%s\"", f.c_str()));
                cur.file = plain(f);
                directives++;
            } break;
        }
    }
    void code(int entry, const Str &text)
    {
        int line = 0;
        size_t i = 0;
        while(i < text.size()) {
            size_t e = text.find('\n', i);
            if(e == Str::npos) e = text.size();
            while(noise && t.chance(1, 12)) filler();
            at[std::make_pair(entry, line)] = cur;
            put(text.substr(i, e - i) + (noise && t.chance(1, 16) ? " // remark" : ""));
            line++;
            i = e + 1;
        }
    }
};

// Programs that fail, spread over files; the failure must be reported at the
// line of the statement that failed, whatever happened to the VM before.
void scP25(World &w)
{
    GenOpt g = pickGen(w.t);
    if(w.t.chance(2, 3)) g.wErr = 2 + (int)w.t.draw(4);
    bool fp = w.t.chance(1, 3);
    if(fp) g.wFp = 3;
    g.hostBoundaryYield = w.t.chance(1, 6);
    Model m = makeModel(w, g);
    if(!m.usable) return;
    int arm = -1;
    if(fp && m.r.fpCount) {
        arm = (int)w.t.draw((uint32_t)m.r.fpCount);
        runModel(m, arm, 0xffffffffu, 20000);
        if(!m.usable) return;
    }
    // Endings for programs that would not fail.
    enum { E_NONE, E_LOOP, E_RECURSE, E_CORO, E_COMPILE, E_HOSTARGS, E_HOSTFN };
    int ending = E_NONE;
    std::vector<Str> tail;
    int badLine = 0, badLast = 0, tailEntry = (int)m.p.lines.size();
    Str wantText = m.r.errText;
    if(w.t.chance(1, 8)) {
        ending = E_COMPILE;
    } else if(!m.r.err) {
        ending = E_LOOP + (int)w.t.draw(6);
        if(ending == E_COMPILE) ending = E_LOOP;
    }
    Layout L(w.t);
    L.noise = (int)w.t.draw(3) > 0;
    int pre = (int)w.t.draw(4);
    Str text;
    switch(ending) {
        case E_LOOP: case E_CORO:
            for(int i = 0; i < pre; i++) text += strf("var ez%d = %d;\n", i, i);
            if(ending == E_CORO) {
                text += "function ezl() {\n    var n = 0;\n    while(n < 1) {\n        n = 0;\n    }\n}\nvar ezc = coroutine(ezl);\nresume(ezc, 1);\n";
                badLine = pre + 2; badLast = pre + 5;
            } else {
                text += "var ezl = 0;\nwhile(ezl < 1) {\n    if(ezl > 5) {\n        ezl = 3;\n    }\n}\nezl = 4;\n";
                badLine = pre + 1; badLast = pre + 6;
            }
            // (The jump back belongs to the token after the loop.)
            wantText = "Instruction count limit";
            break;
        case E_RECURSE:
            text = "function ezr(n) {\n    var a = 1;\n    return ezr(n + 1) + 1;\n}\n";
            badLine = 1; badLast = 2;
            for(int i = 0; i < pre; i++) text += strf("var ez%d = %d;\n", i, i);
            text += "ezr(1);\n";
            wantText = "stack capacity";
            break;
        case E_HOSTARGS: case E_HOSTFN: {
            // A call made by a host function that cannot be made.
            text = "function ezf(a) {\n    return a;\n}\n";
            bool co = w.t.chance(1, 3), fn = w.t.chance(1, 2);
            Str call = ending == E_HOSTARGS ? Str("hcall(ezf, 1, 2)") : Str("hcall(herr, \"host said so\")");
            wantText = ending == E_HOSTARGS ? "Incorrect argument count" : "host said so";
            if(fn || co) {
                text += "function ezg() {\n    var b = 2;\n    " + call + ";\n    return b;\n}\n";
                badLine = badLast = 5;
                text += co ? "var ezc = coroutine(ezg);\nvar ezd = 1;\nresume(ezc, 1);\n" : w.t.chance(1, 2) ? "ezg();\n" : "hcall(ezg);\n";
            } else {
                badLine = badLast = 3;
                text += call + ";\n";
            }
            text += "var ezz = 1;\n";
        } break;
        case E_COMPILE: {
            static const char *bad[] = {
                "undefinedzz = 1;", "var ezq = undefinedzz + 1;", "gi0 = 1 + ;", "var 3 = 4;", "gi0 = (1 + 2;", "break;",
                "return 3 +;", "function (;", "if(gi0 > ) { }", "go0[ = 3;", "@;", "while) { }", "gi0 = = 3;", "go0. = 3;", "nosuchfn(1);",
                "for(gi0 = 1) { }", "1 = 2;", "gi0 = 3 4;", "var ezq = \"a\" 3;", "yield(;", "else { }", "}", "function ezb(a { }", "var function;"
            };
            for(int i = 0; i < pre; i++) text += strf("var ez%d = %d;\n", i, i);
            bool in = w.t.chance(1, 3);
            if(in) text += "function ezw(a) {\n    a = a + 1;\n";
            Str b = bad[w.t.draw(24)];
            if(in && b == "}") b = "@;"; // (that would end the function)
            text += (in ? "    " : "") + b + "\n";
            badLine = badLast = pre + (in ? 2 : 0);
            if(in) text += "    a = 2;\n    return a;\n}\n";
            text += "gi0 = 2;\nvar ezz = 1;\n";
            wantText = b;
        } break;
        default: break;
    }
    if(!text.empty()) m.p.lines.push_back(text);
    // Assemble.
    L.open();
    for(size_t i = 0; i < m.p.lines.size(); i++) {
        bool fresh = (int)i == tailEntry ? w.t.chance(1, 2) : w.t.chance(1, 10);
        if(fresh) {
            Str &x = L.units.back().text;
            if(w.t.chance(1, 4) && !x.empty()) x.resize(x.size() - L.eol.size()); // no newline at the end of the file
            L.open();
        }
        L.code((int)i, m.p.lines[i]);
    }
    Str shown;
    for(auto &u : L.units) shown += "// file " + u.name + "\n" + u.text + "\n";
    w.setScenario(shown);
    // What must be reported.
    std::vector<Place> want;
    if(ending) {
        for(int i = badLine; i <= badLast; i++) want.push_back(L.at[std::make_pair(tailEntry, i)]);
    } else if(m.r.err) {
        if(!m.r.errId) { w.count("probe.place_unknown"); return; }
        want.push_back(L.at[m.p.where[m.r.errId]]);
    } else return;

    NodeOpt o = pickNode(w.t);
    o.fpArm = arm;
    if(ending == E_RECURSE) o.maxStack = 1024u << w.t.draw(3);
    std::unique_ptr<Node> n(new Node(w, o, "p0"));
    if(!n->create() || !n->setup(true)) { w.fail("compile", "set-up failed: " + n->errors()); return; }
    bool ok = true;
    for(auto &u : L.units) {
        if(w.t.chance(1, 6)) n->collect("between_files");
        ok = nkxCompilerCompileScript(n->cs, u.text.c_str(), u.name.c_str());
        if(!ok) break;
    }
    auto judge = [&](Node &nn, const Str &what) {
        Str e = nn.errors();
        Str first = e.substr(0, e.find('\n'));
        bool good = false;
        Str wanted;
        for(auto &p : want) {
            Str pre2 = strf("%s:%u:", p.file.c_str(), p.line);
            wanted += (wanted.empty() ? "" : " or ") + pre2;
            if(first.compare(0, pre2.size(), pre2) == 0) good = true;
        }
        w.ev(what + ": " + first);
        if(!good) w.fail(ending == E_COMPILE ? "place-compile" : "place-run", what + ": the error in '" + wantText + "' is reported as '" + first.substr(0, 200) + "' instead of at " + wanted);
        else w.count("probe.place_checked");
        return good;
    };
    if(ending == E_COMPILE) {
        if(ok) { w.fail("compile", "a broken program was accepted"); return; }
        judge(*n, "compiling");
        w.count("fault.broken_text");
        w.trivial = false;
        w.sig(shown);
        nkxCompilerFinalize(n->cs);
        n->cs = nullptr;
        n->destroy();
        return;
    }
    if(!ok) { w.fail("compile", "a valid program was rejected: " + n->errors()); return; }
    nkxCompilerFinalize(n->cs);
    n->cs = nullptr;
    n->limits();
    SlicePolicy sp(w.t);
    uint64_t granted = 0, bound = stepBound(m) * 2 + 50000;
    bool limited = ending == E_LOOP || ending == E_CORO;
    uint32_t budget = limited ? (uint32_t)(m.r.steps * 40 + 20000) : 0;
    if(limited) nkxSetRemainingInstructionLimit(n->vm, budget);
    uint32_t faults = w.t.draw(6);
    uint32_t rate = 1 + (uint32_t)(m.r.steps * 3 / (faults + 1));
    while(!w.bad() && !n->hasErr() && !n->ended() && granted < bound) {
        uint32_t s = sp.next();
        n->iterate(s);
        granted += s;
        if(n->hasErr() || n->ended() || !faults || !w.t.chance(1, rate)) continue;
        faults--;
        switch(w.t.draw(5)) {
            case 0: n->collect("between_slices"); break;
            case 1: nkxVmShrink(n->vm); w.count("action.shrink"); break;
            case 2: n->dumpGlobals(m.p.globals); w.count("action.inspect"); break;
            default: {
                Stream st;
                if(!n->save(st)) { w.fail("snapshot", "saving failed: " + n->errors()); return; }
                std::unique_ptr<Node> r(new Node(w, o, "restored"));
                r->ev = n->ev;
                r->fpCount = n->fpCount;
                if(w.t.chance(1, 3)) r->opt.orderSeed = 1 + w.t.draw(1000);
                if(!r->create() || !r->setup(false)) { w.fail("compile", "set-up failed: " + r->errors()); return; }
                r->limits();
                if(!r->load(st)) { w.fail("restore", "a valid snapshot was refused: " + r->errors()); return; }
                n.reset(); // the first process is gone
                n = std::move(r);
                if(limited) nkxSetRemainingInstructionLimit(n->vm, budget);
                w.count("fault.crash_restore");
            } break;
        }
    }
    if(w.bad()) return;
    if(!n->hasErr()) { w.fail("place-run", "the program did not fail with '" + wantText + "'"); return; }
    if(n->oom()) { w.fail("place-run", "the program ran out of memory: " + n->errors()); return; }
    Str e = n->errors();
    if(e.find(wantText) == Str::npos) { w.fail("place-run", "the error does not name '" + wantText + "': " + e.substr(0, 300)); return; }
    if(!judge(*n, "running")) return;
    // The report is the same when it is read again, and after a restart.
    for(int i = 0; i < 2; i++) nkxVmIterate(n->vm, 1 + w.t.draw(30));
    if(n->errors() != e) { w.fail("place-run", "the report changed: " + n->errors().substr(0, 300)); return; }
    if(w.t.chance(1, 3)) {
        Stream st;
        if(n->save(st)) {
            Node r(w, o, "after");
            if(!r.create() || !r.setup(false)) { w.fail("compile", "set-up failed: " + r.errors()); return; }
            if(!r.load(st) && !r.hasErr()) { w.fail("restore", "a snapshot of a failed program was refused: " + r.errors()); return; }
            if(r.errors() != e) { w.fail("place-restored", "the report was restored as '" + r.errors().substr(0, 300) + "'"); return; }
            w.count("fault.crash_after_error");
            r.destroy();
        }
    }
    n->destroy();
    w.count(strf("probe.ending_%d", ending));
    if(L.directives) w.count("probe.directives", (uint64_t)L.directives);
    w.trivial = false;
    w.sig(shown);
    w.sig(w.hash);
}
