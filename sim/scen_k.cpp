// Scenario: calls from scripts into native functions (P26).
#include "exec.hpp"
#include "scen.hpp"

namespace {

const int NFN = 8;
// Argument kinds: N anything, I int, F float, S string, G function, O any
// object, R SimRes, B SimBox, C coroutine.
struct Sig
{
    int mode = 0;        // 0 checked by the VM, 1 unchecked, 2 checks its argument count itself,
                         // 3 checks its arguments itself, 4 decodes one external argument itself
    int argc = 0;
    char type[4] = { 'N', 'N', 'N', 'N' };
    int which = 0;       // argument to decode
    char want = 'R';     // its type; X a type that does not exist
    Str str() const
    {
        if(mode == 1) return "(...)";
        if(mode == 4) return strf("(decodes %d as %c)", which, want);
        Str s = mode ? strf("(mode%d", mode) : Str("(");
        for(int i = 0; i < argc; i++) { s += ' '; s += mode == 2 ? '?' : type[i]; }
        return s + ")";
    }
};

struct Entry
{
    int fn;
    std::vector<Str> args;
    std::vector<char> kinds;
    Str result;
    char kind = 'I';
    bool failed = false;
    std::vector<Str> errs;
};

struct ArgX { Str text; char kind = 'N'; Str desc; int from = -1; };
struct CallX { int fn; std::vector<ArgX> args; };

struct Nat
{
    World &w;
    Node *n = nullptr;
    Sig sig[NFN];
    std::vector<Entry> entries;
    std::vector<Str> names;              // globals that give objects and functions their names
    int tag = 100;
    int depth = 0;
    int wantErr = 0;                     // entries may fail (percent)
    bool starved = false;
    NKVMExternalDataTypeID coType;
    explicit Nat(World &ww) : w(ww) { coType.id = NK_INVALID_VALUE; }

    Str fn(int k) const { return strf("s%d", k); }
    uint32_t typeId(char c)
    {
        switch(c) {
            case 'R': return n->tRes.id;
            case 'B': return n->tBox.id;
            case 'C': return coType.id;
            case 'X': return 0xfffffff0u;
            default: return NK_INVALID_VALUE;
        }
    }
    char kindOf(NKValue v)
    {
        switch(v.type) {
            case NK_VALUETYPE_INT: return 'I';
            case NK_VALUETYPE_FLOAT: return 'F';
            case NK_VALUETYPE_STRING: return 'S';
            case NK_VALUETYPE_FUNCTIONID: return 'G';
            case NK_VALUETYPE_NIL: return 'N';
            case NK_VALUETYPE_OBJECTID: {
                uint32_t id = nkxVmObjectGetExternalType(n->vm, &v).id;
                if(id == NK_INVALID_VALUE) return 'O';
                return id == n->tRes.id ? 'R' : id == n->tBox.id ? 'B' : id == coType.id ? 'C' : '?';
            }
            default: return '?';
        }
    }
    NKValue get(const Str &nm)
    {
        NKValue *g = nkxVmFindGlobalVariable(n->vm, n->cs, nm.c_str());
        return g ? *g : nkNil();
    }
    Str describe(NKValue v)
    {
        char k = kindOf(v);
        switch(k) {
            case 'I': return strf("i%d", v.intData);
            case 'F': return strf("f%.9g", v.floatData);
            case 'S': { const char *s = nkxValueToString(n->vm, &v); return s ? Str("s:") + s : Str("oom"); }
            case 'N': return "nil";
            case '?': return "bad value";
            default: break;
        }
        for(auto &nm : names) {
            NKValue g = get(nm);
            if(g.type != v.type) continue;
            if(k == 'G' ? g.functionId.id == v.functionId.id : g.objectId == v.objectId) return nm;
        }
        if(k == 'G') return "fn";
        if(k == 'R' || k == 'B') { Ext *e = n->extOf(v); return e ? strf("%c%d", k, e->data) : Str("ext?"); }
        if(k == 'C') return "coroutine";
        NKValue key = nkNil();
        nkxValueSetString(n->vm, &key, "id");
        NKValue *x = nkxVmObjectFindOrAddEntry(n->vm, &v, &key, nktrue);
        return "o:" + (x && x->type == NK_VALUETYPE_INT ? strf("%d", x->intData) : Str("none"));
    }
    int valueType(char c)
    {
        switch(c) {
            case 'I': return NK_VALUETYPE_INT;
            case 'F': return NK_VALUETYPE_FLOAT;
            case 'S': return NK_VALUETYPE_STRING;
            case 'G': return NK_VALUETYPE_FUNCTIONID;
            case 'N': return NK_VALUETYPE_NIL;
            default: return NK_VALUETYPE_OBJECTID;
        }
    }
    static const char *typeName(char c)
    {
        switch(c) {
            case 'I': return "integer";
            case 'F': return "float";
            case 'S': return "string";
            case 'G': return "function";
            case 'N': return "nil";
            default: return "object";
        }
    }
    static const char *extName(char c) { return c == 'R' ? "SimRes" : c == 'B' ? "SimBox" : "coroutine"; }

    Sig drawSig()
    {
        Tape &t = w.t;
        Sig s;
        s.mode = t.chance(1, 3) ? 1 + (int)t.draw(4) : 0;
        s.argc = (int)t.draw(5);
        for(int i = 0; i < 4; i++) s.type[i] = "NIFSGORBC"[t.draw(9)];
        s.which = (int)t.draw(3);
        s.want = "RBCX"[t.draw(4)];
        return s;
    }
    // What the VM should say instead of calling; empty if it should call.
    Str refusal(int f, const std::vector<char> &k)
    {
        const Sig &s = sig[f];
        if(s.mode) return "";
        if((int)k.size() != s.argc) return "Tried to call an external function " + fn(f) + " with an incorrect number of arguments.";
        for(int i = 0; i < s.argc; i++) {
            char c = s.type[i];
            if(c == 'N') continue;
            if(valueType(c) != valueType(k[i]))
                return strf("Incorrect argument type in call to s%d. Expected %s but got %s for argument %d.", f, typeName(c), typeName(k[i]), i);
            if(valueType(c) == NK_VALUETYPE_OBJECTID && c != 'O' && c != k[i])
                return strf("Bad external object type passed to external function s%d for argument %d.", f, i);
        }
        return "";
    }
    // What the function's own checks should say.
    Str complaint(int f, const std::vector<char> &k)
    {
        const Sig &s = sig[f];
        if(s.mode == 2 && (int)k.size() != s.argc) return "Bad argument count in " + fn(f);
        if(s.mode == 3) {
            if((int)k.size() != s.argc) return strf("s%d: Expected %d arguments, but passed %d.", f, s.argc, (int)k.size());
            for(int i = 0; i < s.argc; i++) {
                if(valueType(s.type[i]) != valueType(k[i]))
                    return strf("s%d: Argument %d: Expected %s but passed %s.", f, i, typeName(s.type[i]), typeName(k[i]));
            }
        }
        if(s.mode == 4) {
            if(s.which >= (int)k.size()) return fn(f) + ": Tried to decode an external object that is beyond the end of the arguments list.";
            if(valueType(k[s.which]) != NK_VALUETYPE_OBJECTID)
                return strf("s%d: Tried to decode an external object that is not even an object for argument %d.", f, s.which);
            if(s.want == 'X') return strf("s%d: Argument %d: Bad type specified in external function.", f, s.which);
            if(k[s.which] != s.want)
                return strf("s%d: Argument %d: Type mismatch. Expected %s.", f, s.which, extName(s.want));
        }
        return "";
    }
    void setupOne(int f, bool global);
    void entered(int f, NKVMFunctionCallbackData *d);
    bool verify(const std::vector<CallX> &plan, bool ok, const Str &err, const Str &what);
};

Nat *g_nat = nullptr;
template<int K> void natFn(NKVMFunctionCallbackData *d) { g_nat->entered(K, d); }
NKVMFunctionCallback g_cbs[NFN] = { natFn<0>, natFn<1>, natFn<2>, natFn<3>, natFn<4>, natFn<5>, natFn<6>, natFn<7> };

void Nat::setupOne(int f, bool global)
{
    const Sig &s = sig[f];
    int v[8];
    int c = 0;
    for(int i = 0; i < 4; i++) {
        v[c++] = valueType(s.type[i]) == NK_VALUETYPE_NIL ? (int)NK_VALUETYPE_NIL : valueType(s.type[i]);
        if(valueType(s.type[i]) == NK_VALUETYPE_OBJECTID) v[c++] = (int)typeId(s.type[i]);
    }
    while(c < 8) v[c++] = 0;
    nkxVmSetupExternalFunction(n->vm, n->cs, fn(f).c_str(), g_cbs[f], global,
        s.mode ? NK_INVALID_VALUE : (uint32_t)s.argc, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
}

void Nat::entered(int f, NKVMFunctionCallbackData *d)
{
    if(!n || d->vm != n->vm) { w.fail("call", "a native function was called for another VM"); return; }
    if(d->argumentCount > 64) { w.fail("call", strf("s%d got %u arguments", f, d->argumentCount)); return; }
    Entry e;
    e.fn = f;
    for(uint32_t i = 0; i < d->argumentCount; i++) {
        e.args.push_back(describe(d->arguments[i]));
        e.kinds.push_back(kindOf(d->arguments[i]));
    }
    if(nkxVmHasErrors(d->vm) && !starved) w.fail("call", strf("s%d was called although there is an error already: ", f) + n->errors());
    size_t at = entries.size();
    entries.push_back(e);
    w.count("probe.native_calls");
    if(starved) return;
    Tape &t = w.t;
    depth++;
    if(depth > 1) w.count("probe.nested_native_calls");
    // What a native function may do to the VM before it looks at what it got.
    for(uint32_t k = t.draw(3); k > 0; k--) {
        switch(t.draw(5)) {
            case 0: n->collect("in_native"); break;
            case 1: for(int i = 0; i < 20; i++) { NKValue o = nkNil(); nkxCreateObject(d->vm, &o); } break;
            case 2: for(int i = 0; i < 20; i++) { NKValue s = nkNil(); nkxValueSetString(d->vm, &s, strf("noise%u_%d", t.draw(1000), i).c_str()); } break;
            case 3: {
                if(depth > 2) break;
                NKValue g = get("gg"), a = nkInt(3), r = nkNil();
                w.count("action.host_call_into_script");
                nkxVmCallFunction(d->vm, &g, 1, &a, &r);
                if(describe(r) != "i3") w.fail("call", "a script function called from a native function returned " + describe(r));
            } break;
            default: n->collect("in_native"); break;
        }
    }
    for(uint32_t i = 0; i < d->argumentCount; i++) {
        if(describe(d->arguments[i]) != e.args[i]) w.fail("arguments", strf("argument %u of s%d was ", i, f) + e.args[i] + " and became " + describe(d->arguments[i]));
    }
    Entry out = e;
    // The function's own checks.
    const Sig &s = sig[f];
    Str c = complaint(f, e.kinds);
    bool pass = true;
    if(s.mode == 2) pass = nkxFunctionCallbackCheckArgCount(d, (uint32_t)s.argc, fn(f).c_str());
    if(s.mode == 3) pass = nkxFunctionCallbackCheckArguments(d, fn(f).c_str(), (uint32_t)s.argc,
            valueType(s.type[0]), valueType(s.type[1]), valueType(s.type[2]), valueType(s.type[3]));
    if(s.mode == 4) {
        NKVMExternalDataTypeID id;
        id.id = typeId(s.want);
        void *p = nkxFunctionCallbackGetExternalDataArgument(d, fn(f).c_str(), (uint32_t)s.which, id);
        pass = c.empty();
        void *x = pass ? nkxVmObjectGetExternalData(d->vm, &d->arguments[s.which]) : nullptr;
        if(p != x) w.fail("decode", strf("s%d decoded argument %d wrongly", f, s.which));
    }
    if(pass != c.empty()) w.fail("decode", strf("s%d's check of its arguments said %d, expected: ", f, pass) + (c.empty() ? "nothing" : c));
    if(!c.empty()) {
        out.failed = true;
        out.errs.push_back(c);
        w.count("fault.bad_arguments");
    } else if((int)t.draw(100) >= 100 - wantErr) {
        out.failed = true;
        int k = (int)t.draw(3);
        out.errs.push_back(strf("boom%d in s%d", (int)entries.size(), f));
        if(k == 1) {
            nkxAddErrorEx(d->vm, out.errs[0].c_str(), "other.txt", 77);
            out.errs[0] = "other.txt:77: " + out.errs[0];
        } else nkxAddError(d->vm, out.errs[0].c_str());
        if(k == 2) {
            out.errs.push_back("and again");
            nkxAddError(d->vm, "and again");
        }
        w.count("fault.native_error");
    } else {
        NKValue r = nkNil();
        bool set = true;
        switch(t.draw(10)) {
            case 0: set = false; break;
            case 1: case 2:
                if(d->argumentCount) r = d->arguments[t.draw(d->argumentCount)];
                break;
            case 3: nkxValueSetInt(d->vm, &r, t.range(-1000000, 1000000)); break;
            case 4: nkxValueSetFloat(d->vm, &r, (float)t.range(-4000, 4000) / 4); break;
            case 5: nkxValueSetString(d->vm, &r, strf("ret%u", t.draw(50)).c_str()); break;
            case 6: {
                nkxCreateObject(d->vm, &r);
                NKValue key = nkNil();
                nkxValueSetString(d->vm, &key, "id");
                NKValue *x = nkxVmObjectFindOrAddEntry(d->vm, &r, &key, nkfalse);
                if(x) nkxValueSetInt(d->vm, x, ++tag);
            } break;
            case 7: {
                int g = (int)t.draw(NFN);
                NKVMExternalFunctionID id = nkxVmRegisterExternalFunction(d->vm, fn(g).c_str(), g_cbs[g]);
                nkxValueSetFunction(d->vm, &r, nkxVmGetOrCreateInternalFunctionForExternalFunction(d->vm, id));
                if(describe(r) != fn(g) && n->cs) w.fail("function-id", "the function for " + fn(g) + " is not the one its global variable holds");
            } break;
            case 8: {
                nkxCreateObject(d->vm, &r);
                bool box = t.chance(1, 2);
                nkxVmObjectSetExternalType(d->vm, &r, box ? n->tBox : n->tRes);
                Ext *x = new Ext();
                x->box = box;
                x->uid = n->nextUid++;
                x->data = ++tag;
                x->link = nkNil();
                nkxVmObjectSetExternalData(d->vm, &r, x);
                n->exts[x] = 1;
            } break;
            default: nkxValueSetNil(d->vm, &r); break;
        }
        if(set) d->returnValue = r; else r = nkInt(0);
        out.result = describe(r);
        out.kind = kindOf(r);
    }
    depth--;
    entries[at] = out;
}

bool Nat::verify(const std::vector<CallX> &plan, bool ok, const Str &err, const Str &what)
{
    size_t e = 0;
    Str expErr;
    bool stop = false;
    for(auto &c : plan) {
        std::vector<char> kinds;
        std::vector<Str> args;
        for(auto &a : c.args) {
            if(a.from >= 0) { kinds.push_back(entries[a.from].kind); args.push_back(entries[a.from].result); }
            else { kinds.push_back(a.kind); args.push_back(a.desc); }
        }
        Str r = refusal(c.fn, kinds);
        if(!r.empty()) {
            if(entries.size() > e && !w.bad()) w.fail("refusal", what + ": a call that should be refused (" + r + ") reached the native function");
            expErr = r;
            stop = true;
            w.count("fault.refused_call");
            break;
        }
        if(entries.size() <= e) {
            if(starved) return true;
            w.fail("call", what + ": the native function " + fn(c.fn) + " was not called; error: " + err);
            return false;
        }
        if(entries[e].fn != c.fn) { w.fail("call", what + ": " + fn(entries[e].fn) + " was called instead of " + fn(c.fn)); return false; }
        if(entries[e].args != args) {
            Str g, x;
            for(auto &s : entries[e].args) g += " " + s;
            for(auto &s : args) x += " " + s;
            w.fail("arguments", what + ": " + fn(c.fn) + " got" + g + " instead of" + x);
            return false;
        }
        if(entries[e].failed) {
            for(auto &s : entries[e].errs) expErr = expErr.empty() ? s : expErr;
            for(auto &s : entries[e].errs) if(err.find(s) == Str::npos && !starved) { w.fail("error", what + ": the error '" + s + "' is missing in: " + err); return false; }
            stop = true;
            e++;
            break;
        }
        e++;
    }
    if(w.bad()) return false;
    if(entries.size() != e) { w.fail("call", what + strf(": %zu native calls instead of %zu", entries.size(), e)); return false; }
    if(starved) return true;
    if(stop == ok) { w.fail("outcome", what + (ok ? ": no error, expected: " + expErr : ": unexpected error: " + err)); return false; }
    if(stop && err.find(expErr) == Str::npos) { w.fail("error", what + ": expected '" + expErr + "', got: " + err); return false; }
    return true;
}

struct Val { Str name; char kind; Str desc; };

} // namespace

void scP26(World &w)
{
    Tape &t = w.t;
    Nat nat(w);
    g_nat = &nat;
    struct Out { ~Out() { g_nat = nullptr; } } out;
    nat.wantErr = t.chance(1, 3) ? 0 : 8;
    NodeOpt o = pickNode(t);
    o.untyped = false;
    o.hardCap = 64u << 20;
    Node n(w, o, "session");
    nat.n = &n;
    if(!n.create() || !n.setup(true)) { w.fail("setup", "a VM cannot be set up: " + n.errors()); return; }
    n.limits();
    if(o.gcNewObj && nkxGetGarbageCollectionNewObjectInterval(n.vm) != o.gcNewObj) w.fail("limit", "the new-object interval reads back differently");
    nat.coType = nkxVmFindExternalType(n.vm, "coroutine");
    if(nkxVmFindExternalType(n.vm, "nope").id != NK_INVALID_VALUE || nkxVmFindExternalType(n.vm, "SimRes").id != n.tRes.id ||
        nkxVmFindExternalType(n.vm, "SimBox").id != n.tBox.id || nat.coType.id == NK_INVALID_VALUE ||
        Str(nkxVmGetExternalTypeName(n.vm, n.tRes)) != "SimRes" || n.hasErr())
    { w.fail("type", "external types are not found by their names"); return; }
    if(nkxGetExternalSubsystemData(n.vm, "simsys") != (void *)&n || nkxGetExternalSubsystemData(n.vm, "simsyz") || n.hasErr()) {
        w.fail("subsystem", "a subsystem's data is not found by its name");
        return;
    }
    Str desc;
    for(int k = 0; k < NFN; k++) {
        nat.sig[k] = nat.drawSig();
        nat.setupOne(k, true);
        desc += nat.fn(k) + nat.sig[k].str() + "\n";
    }
    // The session's variables.
    std::vector<Val> vals;
    const char *intro =
        "function gg(x) { return x; }\n"
        "var vI = 5; var vF = 1.5; var vS = \"str\" + 1; var vG = gg; var vN = nil;\n"
        "var vO = object(); vO.id = 1;\nvar vR = extnew(0, 2);\nvar vB = extnew(1, 3);\n"
        "var vC = coroutine(gg, 1);\nvar vM = object(); vM.id = 4;\nvar vH = s0;\n"
        "var r = 1; var tmp; var tmp2;\n";
    nat.names = { "gg", "vO", "vR", "vB", "vC", "vM" };
    for(int k = 0; k < NFN; k++) nat.names.push_back(nat.fn(k));
    vals = { { "vI", 'I', "i5" }, { "vF", 'F', "f1.5" }, { "vS", 'S', "s:str1" }, { "vG", 'G', "gg" }, { "vN", 'N', "nil" },
             { "vO", 'O', "vO" }, { "vR", 'R', "vR" }, { "vB", 'B', "vB" }, { "vC", 'C', "vC" }, { "vM", 'O', "vM" }, { "vH", 'G', "s0" } };

    SlicePolicy sp(t);
    uint32_t ip = 0;
    bool shrinks = t.chance(1, 3);
    auto between = [&] {
        if(t.chance(1, 12)) n.collect("between_slices");
        else if(shrinks && t.chance(1, 12)) { nkxVmShrink(n.vm); w.count("action.shrink"); }
    };
    // Enters a line; true if it ran without an error.
    auto enter = [&](const Str &src) -> bool {
        ip = nkxCompilerGetInstructionWriteIndex(n.cs);
        if(!nkxCompilerCompileScript(n.cs, src.c_str(), "<line>")) {
            if(!n.oom()) w.fail("compile", "a valid line was rejected: '" + src + "': " + n.errors());
            return false;
        }
        nkxCompilerPartiallyFinalize(n.cs);
        uint64_t g = 0;
        while(!n.hasErr() && !n.ended() && !w.bad()) {
            if(g > 200000) { w.fail("progress", "a line does not end: " + src); return false; }
            uint32_t s = sp.next();
            n.iterate(s);
            g += s;
            if(!n.hasErr()) between();
        }
        return !n.hasErr();
    };
    if(!enter(intro)) { if(!w.bad()) w.fail("compile", "the session's first lines failed: " + n.errors()); return; }
    Str log = desc + intro;

    auto drawArg = [&](char want) -> ArgX {
        ArgX a;
        if(want == 'N') want = "IFSGORBCN"[t.draw(9)];
        std::vector<Val> c;
        for(auto &v : vals) if(v.kind == want || (want == 'O' && strchr("RBC", v.kind) && t.chance(1, 4))) c.push_back(v);
        if(c.empty() || t.chance(1, 3)) {
            a.kind = want;
            int k = ++nat.tag;
            switch(want) {
                case 'I': a.text = strf("%d", k); a.desc = strf("i%d", k); return a;
                case 'F': a.text = strf("%d.25", k); a.desc = strf("f%d.25", k); return a;
                case 'S': a.text = strf("\"lit%d\"", k); a.desc = strf("s:lit%d", k); return a;
                case 'G': a.text = "function(q) { return q; }"; a.desc = "fn"; return a;
                case 'O': a.text = "object()"; a.desc = "o:none"; return a;
                case 'R': a.text = strf("extnew(0, %d)", k); a.desc = strf("R%d", k); return a;
                case 'B': a.text = strf("extnew(1, %d)", k); a.desc = strf("B%d", k); return a;
                case 'C': a.text = "coroutine(gg, 2)"; a.desc = "coroutine"; return a;
                default: a.text = "nil"; a.desc = "nil"; return a;
            }
        }
        Val v = c[t.draw((uint32_t)c.size())];
        a.text = v.name;
        a.kind = v.kind;
        a.desc = v.desc;
        return a;
    };
    // Arguments that fit, or nearly.
    auto drawArgs = [&](int f, size_t fixed) {
        const Sig &s = nat.sig[f];
        std::vector<ArgX> a;
        int argc = s.mode == 1 || s.mode == 4 ? (int)t.draw(5) : s.argc;
        if(t.chance(1, 10)) argc = (int)t.draw(7);
        for(int i = (int)fixed; i < argc; i++) {
            char want = s.mode == 1 || s.mode == 2 || i >= 4 ? 'N' : s.type[i];
            if(s.mode == 3 && want == 'N') { ArgX x; x.text = "nil"; x.kind = 'N'; x.desc = "nil"; a.push_back(x); continue; }
            if(s.mode == 4) want = i == s.which && s.want != 'X' ? s.want : 'N';
            if(t.chance(1, 12)) want = 'N';
            a.push_back(drawArg(want));
        }
        return a;
    };
    auto list = [](const std::vector<ArgX> &a) {
        Str s;
        for(size_t i = 0; i < a.size(); i++) s += (i ? ", " : "") + a[i].text;
        return s;
    };
    auto expectR = [&](const Str &want, const Str &what) {
        Str got = nat.describe(nat.get("r"));
        if(got != want && !w.bad()) w.fail("result", what + ": the script got " + got + " where the native function returned " + want);
    };
    auto checkVals = [&](const Str &what) {
        for(auto &v : vals) {
            Str g = nat.describe(nat.get(v.name));
            if(g != v.desc && !w.bad()) w.fail("value", what + ": the variable " + v.name + " became " + g);
        }
    };

    int lines = 4 + (int)t.draw(16);
    int serial = 0;
    int calls = 0;
    for(int li = 0; li < lines && !w.bad(); li++) {
        uint32_t form = t.draw(16);
        int f = (int)t.draw(NFN);
        Str S = nat.fn(f);
        nat.entries.clear();
        std::vector<CallX> plan;
        Str src;
        Str special;          // expected result, if not the last call's
        std::vector<Str> pre; // lines that define what is needed first
        if(form == 12) {
            // Another signature for the same function.
            Sig old = nat.sig[f];
            nat.sig[f] = t.chance(1, 4) ? old : nat.drawSig();
            nat.setupOne(f, false);
            uint64_t held = n.alloc.held();
            for(int i = 0; i < 3; i++) nat.setupOne(f, false);
            if(n.alloc.held() != held) w.fail("memory", strf("setting up a native function again takes memory each time (%llu, then %llu bytes)", (unsigned long long)held, (unsigned long long)n.alloc.held()));
            if(n.hasErr()) w.fail("setup", "setting up a native function again failed: " + n.errors());
            log += "// " + S + " is now " + nat.sig[f].str() + "\n";
            w.count("action.new_signature");
            continue;
        }
        if(form == 13) {
            // Mistakes of the host.
            uint32_t at = nkxCompilerGetInstructionWriteIndex(n.cs);
            Str want;
            switch(t.draw(3)) {
                case 0: {
                    nkxVmRegisterExternalType(n.vm, "SimRes", nullptr, nullptr, nullptr);
                    want = "Attempted to register an external type twice.";
                } break;
                case 1: {
                    NKValue f2 = nat.get(vals[t.draw(2)].name), r2 = nkNil();
                    nkxVmCallFunction(n.vm, &f2, 0, nullptr, &r2);
                    want = "Tried to call a non-function";
                } break;
                default: {
                    if(nkxGetExternalSubsystemDataOrError(n.vm, "nosuch")) w.fail("subsystem", "data of an unknown subsystem");
                    want = "Could not find subsystem data: nosuch";
                } break;
            }
            if(n.errors().find(want) == Str::npos) w.fail("error", "expected '" + want + "', got: " + n.errors());
            nkxCompilerClearReplErrorState(n.cs, at);
            w.count("fault.host_mistake");
            continue;
        }
        if(form == 14) {
            // The session goes on: other values.
            Val &v = vals[t.draw(3)];
            int k = ++nat.tag;
            Str lit = v.kind == 'I' ? strf("%d", k) : v.kind == 'F' ? strf("%d.5", k) : strf("\"v\" + %d", k);
            v.desc = v.kind == 'I' ? strf("i%d", k) : v.kind == 'F' ? strf("f%d.5", k) : strf("s:v%d", k);
            src = v.name + " = " + lit + ";\n";
            log += src;
            if(!enter(src)) { if(!w.bad()) w.fail("outcome", "a plain assignment failed: " + n.errors()); return; }
            continue;
        }
        if(form == 11) {
            // The host calls it.
            std::vector<ArgX> a;
            std::vector<NKValue> v;
            for(auto &x : drawArgs(f, 0)) {
                ArgX y = x;
                bool isVar = false;
                for(auto &q : vals) if(q.name == x.text) isVar = true;
                NKValue b = nkNil();
                if(isVar) b = nat.get(x.text);
                else if(x.kind == 'S') nkxValueSetString(n.vm, &b, x.desc.c_str() + 2);
                else if(x.kind == 'F') nkxValueSetFloat(n.vm, &b, (float)atof(x.text.c_str()));
                else if(x.kind == 'I') nkxValueSetInt(n.vm, &b, atoi(x.text.c_str()));
                else { b = nkNil(); y.kind = 'N'; y.desc = "nil"; }
                a.push_back(y);
                v.push_back(b);
            }
            plan.push_back(CallX{ f, a });
            NKValue fv = nat.get(S), r = nkInt(-12345);
            uint32_t at = nkxCompilerGetInstructionWriteIndex(n.cs);
            bool useRet = !t.chance(1, 4);
            log += "// host calls " + S + "(" + list(a) + ")\n";
            w.setScenario(log);
            nkxVmCallFunction(n.vm, &fv, (uint32_t)v.size(), v.empty() ? nullptr : v.data(), useRet ? &r : nullptr);
            bool ok = !n.hasErr();
            if(!nat.verify(plan, ok, n.errors(), "host call of " + S)) return;
            if(ok && useRet && nat.describe(r) != nat.entries.back().result) w.fail("result", "the host got " + nat.describe(r) + " where the native function returned " + nat.entries.back().result);
            if(!ok) nkxCompilerClearReplErrorState(n.cs, at);
            w.count("probe.form_host");
            calls++;
            checkVals("host call of " + S);
            continue;
        }
        switch(form) {
            default:
            case 0: case 1: {
                auto a = drawArgs(f, 0);
                src = "r = " + S + "(" + list(a) + ");\n";
                plan.push_back(CallX{ f, a });
            } break;
            case 2: {
                auto a = drawArgs(f, 0);
                src = "r = hcall(" + S + (a.empty() ? "" : ", ") + list(a) + ");\n";
                plan.push_back(CallX{ f, a });
            } break;
            case 3: {
                auto a = drawArgs(f, 0);
                src = "tmp = coroutine(" + S + (a.empty() ? "" : ", ") + list(a) + ");\nr = is_finished(tmp);\nresume(tmp, 1);\n";
                plan.push_back(CallX{ f, a });
                special = "i1";
            } break;
            case 4: {
                // A callable object, perhaps one inside another.
                bool two = t.chance(1, 3);
                std::vector<ArgX> d;
                const Sig &s = nat.sig[f];
                for(int i = 0; i < (two ? 2 : 1); i++) {
                    ArgX x;
                    do { x = drawArg(s.mode == 0 && i < s.argc ? s.type[i] : 'N'); } while(x.kind == 'N');
                    d.push_back(x);
                }
                auto a = drawArgs(f, d.size());
                src = "tmp = object(); tmp._exec = " + S + "; tmp._data = " + d[0].text + ";\n";
                if(two) src += "tmp2 = object(); tmp2._exec = tmp; tmp2._data = " + d[1].text + ";\nr = tmp2(" + list(a) + ");\n";
                else src += "r = tmp(" + list(a) + ");\n";
                auto all = d;
                all.insert(all.end(), a.begin(), a.end());
                plan.push_back(CallX{ f, all });
            } break;
            case 5: {
                auto a = drawArgs(f, 1);
                bool self = t.chance(1, 2);
                src = "vM.m = " + S + ";\nr = vM" + (self ? "->" : ".") + "m(" + list(a) + ");\n";
                if(self) {
                    ArgX x;
                    x.text = "vM"; x.kind = 'O'; x.desc = "vM";
                    a.insert(a.begin(), x);
                }
                plan.push_back(CallX{ f, a });
            } break;
            case 6: {
                auto a = drawArgs(f, 0);
                Str p;
                for(size_t i = 0; i < a.size(); i++) p += strf("%sp%zu", i ? ", " : "", i);
                Str wn = strf("w%d", serial++);
                pre.push_back("function " + wn + "(" + p + ") { var loc = 3; return " + S + "(" + p + "); }\n");
                src = "r = " + wn + "(" + list(a) + ");\n";
                plan.push_back(CallX{ f, a });
            } break;
            case 7: {
                // Between two yields of a coroutine.
                auto a = drawArgs(f, 0);
                Str p;
                for(size_t i = 0; i < a.size(); i++) p += strf("%sp%zu", i ? ", " : "", i);
                Str wn = strf("w%d", serial++);
                pre.push_back("function " + wn + "(" + p + ") { var q = yield(1); q = " + S + "(" + p + "); yield(q); return 7; }\n");
                src = "tmp = coroutine(" + wn + (a.empty() ? "" : ", ") + list(a) + ");\nresume(tmp, 0);\nr = resume(tmp, 0);\n";
                plan.push_back(CallX{ f, a });
            } break;
            case 8: {
                // One call's result is another's argument.
                int g = (int)t.draw(NFN);
                auto b = drawArgs(g, 0);
                plan.push_back(CallX{ g, b });
                auto a = drawArgs(f, 0);
                if(a.empty()) a.push_back(drawArg('N'));
                size_t i = t.draw((uint32_t)a.size());
                a[i].text = nat.fn(g) + "(" + list(b) + ")";
                a[i].from = 0;
                src = "r = " + S + "(" + list(a) + ");\n";
                plan.push_back(CallX{ f, a });
            } break;
            case 9: {
                auto a = drawArgs(f, 0);
                switch(t.draw(3)) {
                    case 0: src = "tmp = " + S + ";\nr = tmp(" + list(a) + ");\n"; break;
                    case 1: src = "tmp = object(); tmp[3] = " + S + ";\nr = tmp[3](" + list(a) + ");\n"; break;
                    default: src = "r = (gg(" + S + "))(" + list(a) + ");\n"; break;
                }
                plan.push_back(CallX{ f, a });
            } break;
            case 10: {
                // A statement of its own, in a loop.
                auto a = drawArgs(f, 0);
                uint32_t k = 1 + t.draw(3);
                src = strf("for(tmp = 0; tmp < %u; tmp = tmp + 1) { %s(%s); }\nr = 1;\n", k, S.c_str(), list(a).c_str());
                for(uint32_t i = 0; i < k; i++) plan.push_back(CallX{ f, a });
                special = "i1";
            } break;
        }
        for(auto &p : pre) {
            log += p;
            if(!enter(p)) { if(!w.bad()) w.fail("outcome", "defining a function failed: " + n.errors()); return; }
        }
        log += src;
        w.setScenario(log);
        Str rBefore = nat.describe(nat.get("r"));
        nat.entries.clear();
        nat.depth = 0;
        bool ok = enter(src);
        if(w.bad()) return;
        calls++;
        w.count(strf("probe.form_%u", form));
        if(!nat.verify(plan, ok, ok ? Str() : n.errors(), "'" + src.substr(0, 200) + "'")) return;
        if(ok) expectR(special.empty() ? nat.entries.back().result : special, src);
        else {
            expectR(rBefore, "(after an error) " + src);
            nkxCompilerClearReplErrorState(n.cs, ip);
        }
        checkVals(src);
        Str one;
        for(auto &e : nat.entries) one += nat.fn(e.fn) + "->" + (e.failed ? "error" : e.result) + " ";
        w.ev(src + one);
        w.sig(form);
        w.sig((uint64_t)nat.entries.size() * 2 + ok);
    }
    if(w.bad()) return;
    if(calls) w.trivial = false;

    uint32_t last = t.draw(3);
    if(last == 0) {
        // No memory for a call.
        int f = (int)t.draw(NFN);
        auto a = drawArgs(f, 0);
        std::vector<CallX> plan = { CallX{ f, a } };
        nat.entries.clear();
        nat.depth = 0;
        nat.starved = true;
        Str src = "r = " + nat.fn(f) + "(" + list(a) + ");\n";
        log += "// starved: " + src;
        w.setScenario(log);
        ip = nkxCompilerGetInstructionWriteIndex(n.cs);
        bool okc = nkxCompilerCompileScript(n.cs, src.c_str(), "<line>");
        if(!okc) { w.fail("compile", "a valid line was rejected: " + n.errors()); return; }
        nkxCompilerPartiallyFinalize(n.cs);
        n.alloc.failAt = n.alloc.nAllocs + t.draw(8);
        n.alloc.failCount = 1 + t.draw(3);
        uint64_t g = 0;
        while(!n.hasErr() && !n.ended() && g++ < 2000) n.iterate(1);
        if(n.oom()) w.count("fault.alloc_fail_in_call");
        n.alloc.failAt = ~0ULL;
        if(!n.oom()) nat.verify(plan, !n.hasErr(), n.errors(), "a call in want of memory");
        else if(nat.entries.size() > 1) w.fail("call", "a call in want of memory reached the native function twice");
        else nat.verify(plan, false, "", "a call in want of memory");
        if(w.bad()) return;
        nkxCompilerFinalize(n.cs);
        n.cs = nullptr;
        n.destroy();
        return;
    }
    // The program moves to another host, whose native functions have been set
    // up in another order and for other arguments.
    nkxCompilerFinalize(n.cs);
    n.cs = nullptr;
    if(last == 1) { n.destroy(); return; }
    Stream s;
    if(!n.save(s)) { w.fail("save", "saving failed: " + n.errors()); return; }
    n.destroy();
    if(w.bad()) return;
    NodeOpt o2 = pickNode(t);
    o2.untyped = false;
    o2.orderSeed = t.draw(1000);
    o2.extraFns = (int)t.draw(4);
    Node m(w, o2, "restored");
    nat.n = &m;
    if(!m.create()) { w.fail("setup", "a VM cannot be created"); return; }
    std::vector<int> order;
    for(int k = 0; k < NFN; k++) order.push_back(k);
    for(int k = NFN - 1; k > 0; k--) std::swap(order[k], order[t.draw((uint32_t)k + 1)]);
    bool other = t.chance(2, 3);
    log += "// restored in another host\n";
    nat.coType = nkxVmFindExternalType(m.vm, "coroutine");
    size_t early = t.draw(NFN + 1);
    auto reg = [&](size_t from, size_t to) {
        for(size_t i = from; i < to; i++) {
            int k = order[i];
            if(other) {
                nat.sig[k] = nat.drawSig();
                // Types are registered with the rest of the host.
                if(from == 0 && !m.nodeRegistered()) for(char &c : nat.sig[k].type) if(c == 'R' || c == 'B') c = 'C';
            } else if(!m.nodeRegistered()) for(char &c : nat.sig[k].type) if(c == 'R' || c == 'B') c = 'O';
            nat.setupOne(k, false);
            log += "// " + nat.fn(k) + nat.sig[k].str() + "\n";
        }
    };
    reg(0, early);
    if(!m.setup(false)) { w.fail("setup", "a VM cannot be set up: " + m.errors()); return; }
    reg(early, NFN);
    w.setScenario(log);
    w.count("fault.crash_restore");
    if(!m.load(s)) { w.fail("load", "loading failed: " + m.errors()); return; }
    m.limits();
    checkVals("after a restore");
    for(int i = 0; i < 12 && !w.bad(); i++) {
        int f = (int)t.draw(NFN);
        nat.entries.clear();
        nat.depth = 0;
        std::vector<ArgX> a;
        std::vector<NKValue> v;
        const Sig &sg = nat.sig[f];
        int argc = sg.mode == 1 || sg.mode == 4 ? (int)t.draw(4) : sg.argc;
        if(t.chance(1, 12)) argc = (int)t.draw(6);
        for(int k = 0; k < argc; k++) {
            char want = sg.mode == 4 && k == sg.which ? sg.want : k < 4 ? sg.type[k] : 'N';
            std::vector<Val> c;
            for(auto &x : vals) if(want == 'N' ? sg.mode != 3 || x.kind == 'N' : x.kind == want || (want == 'O' && nat.valueType(x.kind) == NK_VALUETYPE_OBJECTID)) c.push_back(x);
            Val &x = c.empty() || t.chance(1, 16) ? vals[t.draw((uint32_t)vals.size())] : c[t.draw((uint32_t)c.size())];
            ArgX y;
            y.text = x.name; y.kind = x.kind; y.desc = x.desc;
            a.push_back(y);
            v.push_back(nat.get(x.name));
        }
        std::vector<CallX> plan = { CallX{ f, a } };
        NKValue fv = nat.get(nat.fn(f)), r = nkNil();
        log += "// host calls " + nat.fn(f) + "(" + list(a) + ")\n";
        w.setScenario(log);
        nkxVmCallFunction(m.vm, &fv, (uint32_t)v.size(), v.empty() ? nullptr : v.data(), &r);
        bool ok = !m.hasErr();
        if(!nat.verify(plan, ok, m.errors(), "in a restored VM: call of " + nat.fn(f))) return;
        if(ok && nat.describe(r) != nat.entries.back().result) w.fail("result", "the host got " + nat.describe(r) + " where the native function returned " + nat.entries.back().result);
        w.count("probe.calls_after_restore");
        if(!ok) break;
        checkVals("call in a restored VM");
        if(t.chance(1, 4)) m.collect("between_calls");
    }
    if(w.bad()) return;
    m.destroy();
}
