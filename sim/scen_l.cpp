// Scenario: the host and the script share global variables (P23).
#include "exec.hpp"
#include "scen.hpp"

namespace {

// What the host knows; rolled back together with the program.
struct HS
{
    int sent = 0, got = 0;       // messages into and out of the script
    int cfg = 1;                 // only ever grows
    int keepR = 0, keepO = 0;    // tags of what the host left in two variables
    int ticks = 0, mirror = 0, seen = 0;
    std::map<Str, Str> decoys;   // variables nobody else writes
    bool stopped = false;
};

struct Share
{
    World &w;
    Tape &t;
    Node *n = nullptr;
    HS h;
    int total = 0;
    uint32_t seed = 0;
    std::map<Str, NKValue *> ptrs;   // as found when the program was ready
    bool pinned = false;
    bool shrinks = false;
    int keepUid = 0;
    int tagNo = 1000;
    uint64_t acts = 0;
    bool inHook = false;
    bool acting = false;
    Share(World &ww) : w(ww), t(ww.t) { }

    uint32_t mix(int i) const { uint64_t z = (seed + 1) * 0x9e3779b97f4a7c15ULL + (uint64_t)i * 0xbf58476d1ce4e5b9ULL; z ^= z >> 31; z *= 0x94d049bb133111ebULL; return (uint32_t)(z >> 33); }
    NKValue *find(const Str &name)
    {
        NKValue *v = nkxVmFindGlobalVariable(n->vm, n->cs, name.c_str());
        if(!v) w.fail("find", "the global variable " + name + " is not found");
        else if(pinned) {
            auto it = ptrs.find(name);
            if(it == ptrs.end()) ptrs[name] = v;
            else if(it->second != v) w.fail("pointer", "the global variable " + name + " moved although no variable was added");
        }
        return v;
    }
    NKValue read(const Str &name) { NKValue *v = find(name); return v ? *v : nkNil(); }
    int readInt(const Str &name)
    {
        NKValue v = read(name);
        if(v.type != NK_VALUETYPE_INT && !w.bad()) { w.fail("value", "the global variable " + name + " is no longer an integer: " + n->valStr(v)); return 0; }
        return v.intData;
    }
    void write(const Str &name, const NKValue &v) { NKValue *p = find(name); if(p) *p = v; }
    Str describe(NKValue v)
    {
        if(v.type == NK_VALUETYPE_OBJECTID) {
            NKVMExternalDataTypeID ty = nkxVmObjectGetExternalType(n->vm, &v);
            if(ty.id == n->tRes.id || ty.id == n->tBox.id) { Ext *e = n->extOf(v); return e ? strf("%s:%d", e->box ? "box" : "res", e->data) : Str("ext?"); }
            Str r = "obj";
            for(const char *f : { "id", "seen" }) {
                NKValue key = nkNil();
                nkxValueSetString(n->vm, &key, f);
                NKValue *x = nkxVmObjectFindOrAddEntry(n->vm, &v, &key, nktrue);
                r += x && x->type == NK_VALUETYPE_INT ? strf(":%d", x->intData) : Str(":-");
            }
            return r;
        }
        return n->valStr(v);
    }
    NKValue makeObj(int id)
    {
        NKValue o = nkNil(), key = nkNil();
        nkxCreateObject(n->vm, &o);
        if(o.type != NK_VALUETYPE_OBJECTID) return nkNil();
        nkxValueSetString(n->vm, &key, "id");
        NKValue *x = nkxVmObjectFindOrAddEntry(n->vm, &o, &key, nkfalse);
        if(x) nkxValueSetInt(n->vm, x, id);
        return o;
    }
    NKValue makeExt(int id, bool box, int *uid = nullptr)
    {
        NKValue o = nkNil();
        nkxCreateObject(n->vm, &o);
        if(o.type != NK_VALUETYPE_OBJECTID) return nkNil();
        if(!nkxVmObjectSetExternalType(n->vm, &o, box ? n->tBox : n->tRes)) return nkNil();
        Ext *e = new Ext();
        e->box = box;
        e->uid = n->nextUid++;
        e->data = id;
        e->link = nkNil();
        if(!nkxVmObjectSetExternalData(n->vm, &o, e)) { delete e; return nkNil(); }
        n->exts[e] = 1;
        if(uid) *uid = e->uid;
        return o;
    }
    // Message number i, and how it comes back.
    NKValue message(int i)
    {
        NKValue v = nkNil();
        int k = (int)(mix(i) % 100000);
        switch(mix(i) % 7) {
            case 0: nkxValueSetInt(n->vm, &v, k); break;
            case 1: nkxValueSetFloat(n->vm, &v, (float)k / 8); break;
            case 2: nkxValueSetString(n->vm, &v, strf("msg %d", k).c_str()); break;
            case 3: case 4: v = makeObj(k); break;
            case 5: v = makeExt(k, k & 1); break;
            default: break;
        }
        return v;
    }
    Str echo(int i)
    {
        int k = (int)(mix(i) % 100000);
        switch(mix(i) % 7) {
            case 0: return strf("%d", k);
            case 1: return strf("%.9gf", (float)k / 8);
            case 2: return strf("\"msg %d\"", k);
            case 3: case 4: return strf("obj:%d:%d", k, i + 1);
            case 5: return strf("%s:%d", k & 1 ? "box" : "res", k);
            default: return "nil";
        }
    }
    void keepers(bool init)
    {
        if(init || t.chance(1, 2)) {
            int uid = 0;
            int tag = ++tagNo;
            NKValue v = makeExt(tag, true, &uid);
            if(n->hasErr()) return;
            write("keepR", v);
            h.keepR = tag;
            keepUid = uid;
        }
        if(init || t.chance(1, 2)) {
            int tag = ++tagNo;
            NKValue v = makeObj(tag);
            if(n->hasErr()) return;
            write("keepO", v);
            h.keepO = tag;
        }
    }
    void checkAll(const char *when)
    {
        if(w.bad() || n->hasErr()) return;
        NKValue r = read("keepR"), o = read("keepO");
        if(w.bad()) return;
        if(describe(r) != strf("box:%d", h.keepR)) w.fail("value", strf("%s: keepR holds ", when) + describe(r) + strf(" instead of box:%d", h.keepR));
        if(describe(o) != strf("obj:%d:-", h.keepO)) w.fail("value", strf("%s: keepO holds ", when) + describe(o) + strf(" instead of obj:%d", h.keepO));
        if(keepUid && n->finals.count(keepUid)) w.fail("early-final", strf("%s: an object in a global variable was finalised", when));
        for(auto &d : h.decoys) {
            Str g = describe(read(d.first));
            if(g != d.second && !w.bad()) w.fail("value", strf("%s: ", when) + d.first + " holds " + g + " instead of " + d.second);
        }
        int seen = readInt("seen"), ticks = readInt("ticks"), mirror = readInt("mirror");
        int full = readInt("inFull");
        if(w.bad()) return;
        if(ticks < h.ticks || seen < h.seen || mirror < h.mirror) w.fail("monotone", strf("%s: a counter went back: ticks %d->%d seen %d->%d mirror %d->%d", when, h.ticks, ticks, h.seen, seen, h.mirror, mirror));
        if(mirror > h.cfg) w.fail("value", strf("%s: the script read %d, the host has written no more than %d", when, mirror, h.cfg));
        // The script counts a message before it declares the box empty.
        int open = h.sent - seen;
        if(open < 0 || open > (full ? 1 : 0)) w.fail("delivery", strf("%s: %d messages sent, inFull %d, but the script counted %d", when, h.sent, full, seen));
        h.ticks = ticks;
        h.seen = seen;
        h.mirror = mirror;
    }
    // Something the host does between two instructions, or inside one of its
    // functions.
    void act(bool hook)
    {
        if(w.bad() || n->hasErr() || acting) return;
        acting = true;
        acts++;
        switch(t.draw(hook ? 7 : 10)) {
            case 0: case 1:
                if(h.sent < total && readInt("inFull") == 0 && !w.bad()) {
                    NKValue m = message(h.sent);
                    if(n->hasErr()) break;
                    write("inBox", m);
                    if(t.chance(1, 4)) n->collect("mailbox_full");
                    if(n->hasErr()) break;
                    write("inFull", nkInt(1));
                    h.sent++;
                    w.count("probe.messages_in");
                }
                break;
            case 2: case 3:
                if(readInt("outFull") == 1 && !w.bad()) {
                    Str g = describe(read("outBox")), x = h.got < total ? echo(h.got) : Str("nothing more");
                    if(g != x && !w.bad()) w.fail("delivery", strf("message %d came back as ", h.got) + g + " instead of " + x);
                    if(w.bad() || n->hasErr()) break;
                    write("outBox", nkNil());
                    write("outFull", nkInt(0));
                    h.got++;
                    w.count("probe.messages_out");
                }
                break;
            case 4: h.cfg += 1 + (int)t.draw(3); write("cfg", nkInt(h.cfg)); break;
            case 5: checkAll(hook ? "in a native function" : "between two slices"); break;
            case 6: keepers(false); break;
            case 7: n->collect("between_slices"); break;
            case 8: if(shrinks && !n->cs) { nkxVmShrink(n->vm); w.count("action.shrink"); } break;
            default:
                for(const char *nm : { "nosuch", "inBo", "inBoxx", "", "x", "step!" }) {
                    if(nkxVmFindGlobalVariable(n->vm, n->cs, nm)) w.fail("find", Str("a variable is found under a name that does not exist: ") + nm);
                }
                if(n->hasErr() && !n->oom()) w.fail("find", "looking for a variable that does not exist left an error: " + n->errors());
                break;
        }
        acting = false;
    }
};

const char *kDecoys[] = { "a", "ab", "a1", "abc", "inB", "inBox2", "outfull", "Stop", "_", "__a", "q2", "aVeryLongNameOfAVariableThatNobodyElseUses0123456789" };

} // namespace

void scP23(World &w)
{
    Tape &t = w.t;
    int style = (int)t.draw(5);     // 0 loop, 1 coroutine, 2 two coroutines, 3 called by the host, 4 session
    bool session = style == 4;
    // The program.
    bool hostMade[8];
    const char *shared[8] = { "inBox", "inFull", "outBox", "outFull", "stop", "cfg", "keepR", "keepO" };
    for(int i = 0; i < 8; i++) hostMade[i] = t.chance(1, 2);
    Str decl;
    int nDecoys = (int)t.draw(13);
    std::vector<Str> decoyDecl(nDecoys);
    std::vector<bool> decoyHost(nDecoys);
    for(int i = 0; i < nDecoys; i++) decoyHost[i] = t.chance(1, 2);
    // Sometimes the very last place of the table is one the host uses.
    Str late;
    int pads = t.chance(1, 2) ? (int)t.draw(70) : 0;
    for(int i = 0; i < pads; i++) late += strf("var pad%d;%s", i, i % 8 == 7 ? "\n" : " ");
    if(pads) late += "\n";
    bool lateKeep = t.chance(1, 2);
    for(int i = 0; i < 8; i++) if(!hostMade[i]) (i >= 6 && lateKeep ? late : decl) += strf("var %s%s;\n", shared[i], i == 1 || i == 3 || i == 4 || i == 5 || t.chance(1, 2) ? " = 0" : "");
    for(int i = 0; i < nDecoys; i++) if(!decoyHost[i]) decl += strf("var %s = %d;\n", kDecoys[i], i * 11);
    decl += "var seen = 0; var ticks = 0; var mirror = 0;\nvar q = object(); var head = 0; var tail = 0;\n";
    bool poke = t.chance(1, 2);
    Str tick = poke ? "tick(); " : "";
    Str body;
    body += "function shadow(inBox, outFull) { var stop = 1; var keepR = nil; inBox = 9; outFull = inBox + stop; { var seen = 50; cfg2 = seen; } return outFull; }\n";
    Str take =
        "    if(inFull) {\n"
        "        var x = inBox;\n"
        "        inBox = nil;\n"
        "        " + tick + "seen = seen + 1;\n"
        "        if(isobj(x)) { if(exttag(x) < 0) { x.seen = seen; } }\n"
        "        q[tail] = x;\n"
        "        tail = tail + 1;\n"
        "        " + tick + "inFull = 0;\n"
        "    }\n";
    // The count goes up before the box is declared empty.
    Str send =
        "    if((outFull == 0) && (head < tail)) {\n"
        "        outBox = q[head];\n"
        "        q[head] = nil;\n"
        "        head = head + 1;\n"
        "        " + tick + "outFull = 1;\n"
        "    }\n";
    Str house = "    ticks = ticks + 1;\n    mirror = cfg;\n" + Str(t.chance(1, 2) ? "    shadow(1, 2);\n" : "") + (t.chance(1, 2) ? "    var garbage = object(); garbage.s = \"g\" + ticks;\n" : "");
    decl = "var cfg2 = 0; var ready = 0;\n" + decl;
    body += "function step() {\n" + take + send + house + "    return seen;\n}\n";
    body += "function consume() { while(1) {\n" + take + "    yield(0);\n} }\nfunction produce() { while(1) {\n" + send + "    yield(0);\n} }\n";
    Str main;
    Str go = late + "ready = 1;\n";
    switch(style) {
        case 0: main += go + "while(stop == 0) {\n" + take + send + house + "}\n"; break;
        case 1: main += "var c1 = coroutine(consume);\n" + go + "while(stop == 0) { resume(c1, 0);\n" + send + house + "}\n"; break;
        case 2: main += "var c1 = coroutine(consume); var c2 = coroutine(produce);\n" + go + "while(stop == 0) { resume(c1, 0); resume(c2, 0);\n" + house + "}\n"; break;
        default: main += go; break;
    }
    Str src = decl + body + main;
    w.setScenario(src);

    Share s(w);
    s.total = 2 + (int)t.draw(20);
    s.seed = t.draw(1u << 30);
    s.shrinks = t.chance(1, 2);
    NodeOpt o = pickNode(t);
    bool crashes = t.chance(2, 3) && !session;
    bool oomFault = crashes && t.chance(1, 3);
    SlicePolicy sp(t);
    Str log;

    // Starts the program from its text.
    auto boot = [&](Node &n) -> bool {
        s.n = &n;
        s.h = HS();
        s.pinned = false;
        s.ptrs.clear();
        if(!n.create() || !n.setup(true)) { if(!n.oom()) w.fail("setup", "a VM cannot be set up"); return false; }
        std::map<Str, NKValue> init;
        auto make = [&](const char *nm, const NKValue &v) {
            NKValue *p = nkxCompilerCreateGlobalVariable(n.cs, nm);
            if(!p) { w.fail("create", Str("the host could not create the variable ") + nm); return; }
            if(p->type != NK_VALUETYPE_INT || p->intData != 0) w.fail("create", Str("a new variable is not 0: ") + nm);
            *p = v;
        };
        for(int i = 0; i < 8 && !w.bad(); i++) if(hostMade[i]) make(shared[i], nkInt(i == 5 ? 1 : 0));
        for(int i = 0; i < nDecoys && !w.bad(); i++) if(decoyHost[i]) make(kDecoys[i], nkInt(i * 11));
        if(w.bad()) return false;
        if(!nkxCompilerCompileScript(n.cs, src.c_str(), "share.nks")) { w.fail("compile", "a valid program was rejected: " + n.errors()); return false; }
        if(session) nkxCompilerPartiallyFinalize(n.cs);
        else { nkxCompilerFinalize(n.cs); n.cs = nullptr; s.pinned = true; }
        n.limits();
        for(int i = 0; i < nDecoys; i++) if(decoyHost[i] && s.describe(s.read(kDecoys[i])) != strf("%d", i * 11)) w.fail("value", Str("the initial value of ") + kDecoys[i] + " is lost");
        // Until the script has initialised its variables.
        for(int g = 0; g < 20000 && !w.bad() && !n.hasErr(); g++) {
            n.iterate(1);
            NKValue *r = nkxVmFindGlobalVariable(n.vm, n.cs, "ready");
            if(r && r->type == NK_VALUETYPE_INT && r->intData == 1) break;
        }
        if(w.bad()) return false;
        if(n.hasErr()) { w.fail("run", "a valid program failed: " + n.errors()); return false; }
        for(int i = 0; i < nDecoys; i++) {
            Str x = strf("%d", i * 11);
            if(s.describe(s.read(kDecoys[i])) != x && !w.bad()) w.fail("value", Str("the initial value of ") + kDecoys[i] + " is lost");
            if(t.chance(1, 2)) {
                NKValue v = s.makeObj(i + 500);
                s.write(kDecoys[i], v);
                x = strf("obj:%d:-", i + 500);
            }
            s.h.decoys[kDecoys[i]] = x;
        }
        s.write("cfg", nkInt(1));
        s.keepers(true);
        return !w.bad();
    };
    auto hook = [&](Node &n) {
        n.hook = [&](Node &, int, NKVMFunctionCallbackData *) { if(!s.acting && t.chance(1, 2)) { w.count("probe.acts_in_callback"); s.act(true); } };
    };

    std::unique_ptr<Node> n(new Node(w, o, "shared"));
    if(!boot(*n)) return;
    hook(*n);
    w.trivial = false;

    // In a session: more variables, made by either side.
    std::map<Str, Str> extra;
    int lineNo = 0;
    uint32_t ip = 0;
    auto enter = [&](const Str &line) -> bool {
        ip = nkxCompilerGetInstructionWriteIndex(n->cs);
        log += line;
        w.setScenario(src + "// session\n" + log);
        if(!nkxCompilerCompileScript(n->cs, line.c_str(), "<line>")) { w.fail("compile", "a valid line was rejected: " + line + ": " + n->errors()); return false; }
        nkxCompilerPartiallyFinalize(n->cs);
        uint64_t g = 0;
        while(!n->hasErr() && !n->ended() && !w.bad()) {
            if(g++ > 20000) { w.fail("progress", "a line does not end: " + line); return false; }
            n->iterate(sp.next());
            if(!n->hasErr()) s.act(false);
        }
        return !w.bad();
    };

    Bytes image;
    HS saved;
    bool haveImage = false;
    uint64_t granted = 0;
    uint64_t bound = 200000 + (uint64_t)s.total * 40000;
    int restarts = 0;
    uint32_t callsSince = 0;
    while(!w.bad()) {
        if(granted > bound) {
            w.fail("progress", strf("no progress: %d of %d messages sent, %d back", s.h.sent, s.total, s.h.got));
            return;
        }
        if(s.h.got == s.total && !s.h.stopped) { s.write("stop", nkInt(1)); s.h.stopped = true; }
        if(style == 3 || session) {
            if(s.h.stopped) break;
            if(session) {
                uint32_t k = t.draw(4);
                if(k == 1) {
                    // A variable of the script's.
                    Str nm = strf("e%d", lineNo++);
                    if(!enter(strf("var %s = \"v\" + %d;\n", nm.c_str(), lineNo))) return;
                    extra[nm] = strf("\"v%d\"", lineNo);
                } else if(k == 2) {
                    // Variables of the host's.
                    for(uint32_t c = 1 + t.draw(4); c > 0 && !w.bad(); c--) {
                        Str nm = strf("h%d", lineNo++);
                        NKValue *p = nkxCompilerCreateGlobalVariable(n->cs, nm.c_str());
                        if(!p) { w.fail("create", "the host could not create a variable in a session: " + n->errors()); return; }
                        nkxValueSetString(n->vm, p, strf("host%d", lineNo).c_str());
                        extra[nm] = strf("\"host%d\"", lineNo);
                        w.count("probe.host_variables");
                    }
                } else if(k == 3 && t.chance(1, 3)) {
                    uint32_t at = nkxCompilerGetInstructionWriteIndex(n->cs);
                    Str dup = extra.empty() || t.chance(1, 2) ? Str(shared[t.draw(8)]) : extra.begin()->first;
                    if(nkxCompilerCreateGlobalVariable(n->cs, dup.c_str())) w.fail("create", "a variable was created twice: " + dup);
                    else if(n->errors().find("Redundant variable declaration.") == Str::npos) w.fail("create", "creating a variable twice left no such error: " + n->errors());
                    nkxCompilerClearReplErrorState(n->cs, at);
                    w.count("fault.redundant_variable");
                }
                if(w.bad()) return;
                if(!enter(t.chance(1, 3) ? "step(); step();\n" : "step();\n")) return;
                for(auto &e : extra) {
                    Str g = s.describe(s.read(e.first));
                    if(g != e.second && !w.bad()) w.fail("value", "in a session: " + e.first + " holds " + g + " instead of " + e.second);
                }
            } else {
                NKValue f = s.read("step"), r = nkNil();
                if(w.bad()) return;
                w.count("action.host_call_into_script");
                nkxVmCallFunction(n->vm, &f, 0, nullptr, &r);
                if(!n->hasErr() && r.intData != s.readInt("seen") && !w.bad()) w.fail("value", "what a function returned is not what the variable holds");
            }
            granted += 100;
            if(!n->hasErr()) s.act(false);
        } else {
            uint32_t k = std::min<uint32_t>(sp.next(), 200);
            n->iterate(k);
            granted += k;
            if(!n->hasErr()) {
                if(n->ended()) break;
                s.act(false);
            }
        }
        callsSince++;
        if(w.bad()) return;
        if(n->hasErr() && !n->oom()) { w.fail("run", "a valid program failed: " + n->errors()); return; }
        if(crashes && !n->oom() && t.chance(1, 12) && (n->ended() == (style == 3))) {
            Stream st;
            if(!n->save(st)) { w.fail("save", "saving failed: " + n->errors()); return; }
            image = st.data;
            saved = s.h;
            haveImage = true;
            w.count("action.snapshot");
        }
        if(oomFault && !n->oom() && t.chance(1, 150)) {
            n->alloc.failAt = n->alloc.nAllocs + t.draw(30);
            n->alloc.failCount = 1;
        }
        bool crash = n->oom() || (crashes && restarts < 4 && t.chance(1, 40));
        if(crash) {
            if(n->oom()) w.count("fault.out_of_memory");
            w.count("fault.crash_restore");
            restarts++;
            bound += 100000;
            if(restarts > 6) oomFault = false;
            NodeOpt o2 = pickNode(t);
            if(n->oom()) n->destroy();
            if(w.bad()) return;
            s.pinned = false;
            s.ptrs.clear();
            n.reset(new Node(w, o2, "restored"));
            s.keepUid = 0;
            if(!haveImage) {
                if(!boot(*n)) return;
            } else {
                s.n = n.get();
                if(!n->create() || !n->setup(false)) { w.fail("setup", "a VM cannot be set up"); return; }
                Stream st;
                st.data = image;
                if(!n->load(st)) { w.fail("load", "loading failed: " + n->errors()); return; }
                n->limits();
                s.h = saved;
                s.pinned = true;
            }
            hook(*n);
            s.checkAll("after a restore");
        }
    }
    if(w.bad()) return;
    if(style < 3) {
        if(s.h.got != s.total) { w.fail("delivery", strf("the program ended after %d of %d messages", s.h.got, s.total)); return; }
    }
    s.checkAll("at the end");
    if(w.bad()) return;
    // What is in no variable any more goes, what is stays.
    n->hook = nullptr;
    n->collect("end");
    n->collect("end");
    if(n->hasErr()) { if(!n->oom()) w.fail("run", "an error at the end: " + n->errors()); return; }
    if(n->exts.size() != 1) w.fail("lifetime", strf("%zu external objects left where only one is in a variable: ", n->exts.size()) + n->liveUids());
    s.checkAll("after the last collection");
    w.ev(strf("style %d messages %d restarts %d ticks %d", style, s.total, restarts, s.h.ticks));
    w.sig((uint64_t)style * 1000003 + s.acts * 31 + (uint64_t)s.h.ticks);
    w.sig((uint64_t)s.total * 7 + restarts);
    if(w.bad()) return;
    if(session) {
        nkxCompilerFinalize(n->cs);
        n->cs = nullptr;
        // And all of it in another process.
        Stream st;
        if(!n->save(st)) { w.fail("save", "saving failed: " + n->errors()); return; }
        n->destroy();
        Node m(w, pickNode(t), "later");
        s.n = &m;
        if(!m.create() || !m.setup(false) || !m.load(st)) { w.fail("load", "loading failed: " + m.errors()); return; }
        s.keepUid = 0;
        s.pinned = true;
        s.ptrs.clear();
        s.checkAll("after the session was restored");
        for(auto &e : extra) {
            Str g = s.describe(s.read(e.first));
            if(g != e.second && !w.bad()) w.fail("value", "after the session was restored: " + e.first + " holds " + g + " instead of " + e.second);
        }
        w.count("fault.crash_restore");
        if(!w.bad()) m.destroy();
        return;
    }
    n->destroy();
}
