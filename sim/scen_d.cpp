// Scenarios: several VMs in one process, host handles, host-attached data in
// snapshots, differently registered hosts.
#include "life.hpp"

// ---------------------------------------------------------------------
// P12: each of several VMs, interleaved at will, behaves as it does alone.
struct Party
{
    Life l;
    NodeOpt o;
    Node *n = nullptr;
    Hooks h;
    Trace t;
    LifeRun *run = nullptr;
    std::vector<Str> rec;
    bool done = false, busy = false;
    int stepNo = 0;

    void begin(World &w, const Str &name)
    {
        n = new Node(w, o, name);
        t = Trace();
        rec.clear();
        done = busy = false;
        stepNo = 0;
        run = new LifeRun(*n, l, h, t);
    }
    void end()
    {
        delete run;
        run = nullptr;
        delete n;
        n = nullptr;
    }
    void step()
    {
        busy = true;
        bool more = run->step();
        Str s = strf("step %d stage %d: %zu events, %llu host calls, %llu requests, %llu bytes, peak %llu", stepNo++, run->stage, n->ev.size(),
                     (unsigned long long)n->hostCalls, (unsigned long long)n->alloc.nAllocs, (unsigned long long)n->alloc.bytes, (unsigned long long)n->alloc.peak);
        if(n->vm) {
            s += strf(", usage %u peak %u, budget %u, errors '%s'", nkxVmGetCurrentMemoryUsage(n->vm), nkxVmGetPeakMemoryUsage(n->vm),
                      nkxGetRemainingInstructionLimit(n->vm), n->errors().c_str());
        }
        s += strf(", saves %llx", (unsigned long long)n->saveHash);
        if(!more) {
            if(n->vm) s += " data " + (n->hasErr() ? Str("-") : n->dumpGlobals(l.m.p.globals));
            if(!n->nodeRegistered()) n->wantFinals = false;
            n->destroy();
            s += strf("; deleted: %zu outstanding, %zu finalised, %d subsystem", n->alloc.live.size(), n->finals.size(), n->sysCleanups);
            for(auto &e : n->ev) s += "\n" + e;
            done = true;
        }
        rec.push_back(s);
        busy = false;
    }
};

void scP12(World &w)
{
    int n = 2 + (int)w.t.draw(2);
    std::vector<Party> ps((size_t)n);
    Str all;
    for(int i = 0; i < n; i++) {
        Party &p = ps[i];
        p.l = drawLife(w, true, true);
        if(w.bad() || !p.l.m.usable) return;
        all += strf("# VM %d\n", i) + p.l.m.p.src;
        p.o = pickNode(w.t);
        if(w.t.chance(1, 3)) p.o.gcInterval = 1 + w.t.draw(40);
        switch(w.t.draw(8)) {
            case 1: p.o.instrLimit = 1 + w.t.draw(2000); break;
            case 2: p.o.maxStack = 8 + w.t.draw(60); p.l.mayRefuse = true; break;
            case 3: p.o.maxFields = 1 + w.t.draw(8); p.l.mayRefuse = true; break;
            case 4: p.o.fpArm = (int)w.t.draw(4); break;
            case 5:
                if(p.l.restored && !p.l.image.empty()) {
                    p.l.mayRefuse = true;
                    p.l.image.resize(w.t.draw((uint32_t)p.l.image.size()));
                    w.count("fault.stream_truncated");
                }
                break;
            case 6: p.o.failSerIdx = (int)w.t.draw(6); p.l.mayRefuse = true; break;
            default: break;
        }
    }
    w.setScenario(all);
    // Alone.
    std::vector<std::vector<Str>> solo;
    std::vector<uint64_t> allocs;
    for(int i = 0; i < n; i++) {
        Party &p = ps[i];
        p.begin(w, strf("solo%d", i));
        while(!p.done && !w.bad()) p.step();
        allocs.push_back(p.n->alloc.nAllocs);
        if(w.bad()) { p.end(); return; }
        // An allocation failure for some of them; then the reference is
        // the same life with the same failure.
        if(w.t.chance(1, 3)) {
            p.end();
            p.o.failAt = w.t.draw((uint32_t)allocs.back());
            p.o.failCount = w.t.chance(1, 2) ? 1 : ~0ULL;
            p.begin(w, strf("solo%d", i));
            while(!p.done && !w.bad()) p.step();
        }
        solo.push_back(p.rec);
        p.end();
        if(w.bad()) return;
    }
    // Together.
    for(int i = 0; i < n; i++) ps[i].begin(w, strf("vm%d", i));
    int depth = 0;
    uint64_t nested = 0, switches = 0;
    uint32_t rate = 3 + w.t.draw(30);
    uint32_t rateAlloc = w.t.chance(1, 2) ? 20 + w.t.draw(300) : 0;
    std::function<void(const char *)> other = [&](const char *) {
        if(depth >= 3 || w.bad() || nested > 400) return;
        std::vector<Party *> c;
        for(auto &p : ps) if(!p.done && !p.busy) c.push_back(&p);
        if(c.empty()) return;
        depth++;
        nested++;
        c[w.t.draw((uint32_t)c.size())]->step();
        depth--;
    };
    for(auto &p : ps) {
        p.n->hook = [&](Node &, int, NKVMFunctionCallbackData *) { if(w.t.chance(1, rate)) other("host function"); };
        if(rateAlloc) p.n->alloc.onAlloc = [&](uint32_t) { if(w.t.chance(1, rateAlloc)) other("allocator"); };
        p.n->onStream = [&] { if(w.t.chance(1, rate * 8)) other("stream"); };
        p.n->onFinal = [&](Ext *) { if(w.t.chance(1, rate)) other("cleanup"); };
    }
    Party *last = nullptr;
    while(!w.bad()) {
        std::vector<Party *> c;
        for(auto &p : ps) if(!p.done) c.push_back(&p);
        if(c.empty()) break;
        Party *q = c[w.t.draw((uint32_t)c.size())];
        if(q != last) switches++;
        last = q;
        q->step();
    }
    for(int i = 0; i < n && !w.bad(); i++) {
        auto &a = solo[i], &b = ps[i].rec;
        size_t k = 0;
        while(k < a.size() && k < b.size() && a[k] == b[k]) k++;
        if(k < a.size() || k < b.size()) {
            w.fail("isolation", strf("VM %d alone and among others differ: %s", i, dumpDiff(k < a.size() ? a[k] : "(none)", k < b.size() ? b[k] : "(none)").c_str()));
        }
        for(auto &s : b) w.ev(strf("vm%d ", i) + s);
    }
    for(auto &p : ps) { if(p.n->vm && !w.bad()) p.n->destroy(); p.end(); }
    w.count("action.vm_switches", switches);
    w.count("action.nested_in_callback", nested);
    w.trivial = switches + nested < 4;
    w.sig(all);
    w.sig(w.hash);
}

// ---------------------------------------------------------------------
// P16: a host holds handles on objects of its own making.
struct Held
{
    NKValue v;
    int uid = 0;              // 0: a plain object
    uint32_t handles = 0;
    std::map<int, int> f;     // key -> index of object, or -1 - integer
    int gone = 0;             // 0 alive, 1 may have been collected, 2 collected
};

struct HandleWorld
{
    World &w;
    Node *n;
    std::vector<Held> obs;
    int root[2] = { -1, -1 };
    int uids = 70000;
    uint64_t acts = 0;
    explicit HandleWorld(World &ww) : w(ww), n(nullptr) { }

    std::set<int> reach()
    {
        std::set<int> r;
        std::vector<int> todo;
        auto add = [&](int i) { if(i >= 0 && r.insert(i).second) todo.push_back(i); };
        for(size_t i = 0; i < obs.size(); i++) if(obs[i].handles) add((int)i);
        add(root[0]);
        add(root[1]);
        while(!todo.empty()) {
            int i = todo.back();
            todo.pop_back();
            for(auto &e : obs[i].f) add(e.second);
        }
        return r;
    }
    // What nothing refers to any more may go at any time.
    void settle(bool collected)
    {
        std::set<int> r = reach();
        for(size_t i = 0; i < obs.size(); i++) {
            if(!r.count((int)i) && obs[i].gone < 2) obs[i].gone = collected ? 2 : 1;
        }
    }
    void check(const char *when, bool deep)
    {
        if(w.bad() || n->oom()) return;
        std::map<int, int> alive;
        for(auto &e : n->exts) alive[e.first->uid]++;
        for(size_t i = 0; i < obs.size() && !w.bad(); i++) {
            Held &h = obs[i];
            int a = h.uid ? alive.count(h.uid) ? alive[h.uid] : 0 : -1;
            if(h.gone == 2) {
                if(a > 0) w.fail("handle-release", strf("object %zu (uid %d) is unreachable but was not collected %s", i, h.uid, when));
                continue;
            }
            if(h.gone == 1) continue;
            if(a == 0) { w.fail("handle-lost", strf("object %zu (uid %d, %u handles) was finalised %s", i, h.uid, h.handles, when)); continue; }
            if(a > 1) { w.fail("handle-lost", strf("object %zu has its data attached %d times %s", i, a, when)); continue; }
            uint32_t c = nkxVmObjectGetExternalHandleCount(n->vm, &h.v);
            if(n->hasErr()) { w.fail("handle-lost", strf("object %zu (%u handles) is not there %s: %s", i, h.handles, when, n->errors().c_str())); continue; }
            if(c != h.handles) { w.fail("handle-count", strf("object %zu has handle count %u, acquisitions less releases are %u, %s", i, c, h.handles, when)); continue; }
            if(!deep) continue;
            if(h.uid) {
                Ext *e = n->extOf(h.v);
                if(!e || e->uid != h.uid) { w.fail("handle-lost", strf("object %zu carries other data %s", i, when)); continue; }
            }
            uint32_t sz = nkxVmObjectGetSize(n->vm, &h.v);
            if(sz != h.f.size()) { w.fail("handle-changed", strf("object %zu has %u fields, not %zu, %s", i, sz, h.f.size(), when)); continue; }
            for(auto &e : h.f) {
                NKValue k = nkNil();
                nkxValueSetInt(n->vm, &k, e.first);
                NKValue *x = nkxVmObjectFindOrAddEntry(n->vm, &h.v, &k, nktrue);
                bool ok = x && (e.second >= 0 ? x->type == NK_VALUETYPE_OBJECTID && x->objectId == obs[e.second].v.objectId
                                               : x->type == NK_VALUETYPE_INT && x->intData == -1 - e.second);
                if(!ok) { w.fail("handle-changed", strf("field %d of object %zu changed %s", e.first, i, when)); break; }
            }
        }
    }
    // Shrinking may renumber what the host holds no handle on; such
    // objects are found again through what refers to them.
    void refind()
    {
        std::set<int> known;
        std::vector<int> todo;
        for(size_t i = 0; i < obs.size(); i++) if(obs[i].handles) { known.insert((int)i); todo.push_back((int)i); }
        for(int k = 0; k < 2; k++) {
            if(root[k] < 0 || !known.insert(root[k]).second) continue;
            NKValue *g = nkxVmFindGlobalVariable(n->vm, nullptr, k ? "hB" : "hA");
            if(!g || g->type != NK_VALUETYPE_OBJECTID) { w.fail("handle-changed", "a global variable lost its object in a shrink"); return; }
            obs[root[k]].v = *g;
            todo.push_back(root[k]);
        }
        while(!todo.empty()) {
            int i = todo.back();
            todo.pop_back();
            for(auto &e : obs[i].f) {
                if(e.second < 0 || !known.insert(e.second).second) continue;
                NKValue key = nkNil();
                nkxValueSetInt(n->vm, &key, e.first);
                NKValue *x = nkxVmObjectFindOrAddEntry(n->vm, &obs[i].v, &key, nktrue);
                if(!x || x->type != NK_VALUETYPE_OBJECTID) { w.fail("handle-changed", strf("field %d of object %d lost its object in a shrink", e.first, i)); return; }
                obs[e.second].v = *x;
                todo.push_back(e.second);
            }
        }
    }
    int pickAlive()
    {
        std::vector<int> c;
        for(size_t i = 0; i < obs.size(); i++) if(!obs[i].gone) c.push_back((int)i);
        return c.empty() ? -1 : c[w.t.draw((uint32_t)c.size())];
    }
    void setRoot(int k, int i)
    {
        NKValue *g = nkxVmFindGlobalVariable(n->vm, nullptr, k ? "hB" : "hA");
        if(!g) { w.fail("handle-changed", "a global variable is missing"); return; }
        *g = i >= 0 ? obs[i].v : nkNil();
        root[k] = i;
    }
    void op(bool inside = false)
    {
        if(w.bad() || n->hasErr()) return;
        acts++;
        NKVM *vm = n->vm;
        uint32_t k = w.t.draw(16);
        // Shrinking renumbers what the arguments of the host function in
        // progress refer to, so that is not done there.
        if(inside && k == 14) k = 15;
        switch(k) {
            case 0: case 1: case 2: {
                if(obs.size() > 60) break;
                Held h;
                h.v = nkNil();
                nkxCreateObject(vm, &h.v);
                if(n->hasErr()) return;
                if(w.t.chance(2, 3)) {
                    nkxVmObjectSetExternalType(vm, &h.v, n->tRes);
                    Ext *e = new Ext();
                    e->link = nkNil();
                    e->uid = h.uid = ++uids;
                    if(!nkxVmObjectSetExternalData(vm, &h.v, e)) { delete e; w.fail("handle-lost", "data cannot be attached to a new object"); return; }
                    n->exts[e] = 1;
                }
                nkxVmObjectAcquireHandle(vm, &h.v);
                h.handles = 1;
                obs.push_back(h);
            } break;
            case 3: case 4: {
                int i = pickAlive();
                if(i < 0) break;
                uint32_t times = w.t.chance(1, 6) ? 1 + w.t.draw(5) : 1;
                for(uint32_t j = 0; j < times; j++) { nkxVmObjectAcquireHandle(vm, &obs[i].v); obs[i].handles++; }
                w.count("action.acquire", times);
            } break;
            case 5: case 6: case 7: case 8: {
                std::vector<int> c;
                for(size_t i = 0; i < obs.size(); i++) if(obs[i].handles) c.push_back((int)i);
                if(c.empty()) break;
                int i = c[w.t.draw((uint32_t)c.size())];
                nkxVmObjectReleaseHandle(vm, &obs[i].v);
                obs[i].handles--;
                w.count("action.release");
                settle(false);
            } break;
            case 9: case 10: {
                int i = pickAlive(), j = w.t.chance(2, 3) ? pickAlive() : -1 - (int)w.t.draw(100);
                if(i < 0) break;
                NKValue key = nkNil();
                int kk = (int)w.t.draw(6);
                nkxValueSetInt(vm, &key, kk);
                NKValue *x = nkxVmObjectFindOrAddEntry(vm, &obs[i].v, &key, nkfalse);
                if(!x) { if(!n->hasErr()) w.fail("handle-changed", "adding a field failed"); break; }
                *x = j >= 0 ? obs[j].v : nkInt(-1 - j);
                obs[i].f[kk] = j;
                settle(false);
            } break;
            case 11: {
                int i = pickAlive();
                if(i < 0 || obs[i].f.empty()) break;
                auto it = obs[i].f.begin();
                std::advance(it, (long)w.t.draw((uint32_t)obs[i].f.size()));
                NKValue key = nkNil();
                nkxValueSetInt(vm, &key, it->first);
                nkxVmObjectClearEntry(vm, &obs[i].v, &key);
                obs[i].f.erase(it);
                settle(false);
            } break;
            case 12: {
                setRoot((int)w.t.draw(2), w.t.chance(1, 3) ? -1 : pickAlive());
                settle(false);
            } break;
            case 13: n->collect("between_slices"); settle(true); check("after a collection", true); break;
            case 14: nkxVmShrink(vm); w.count("action.shrink"); refind(); check("after a shrink", true); break;
            default: check("in passing", w.t.chance(1, 2)); break;
        }
        if(k < 13) check("after a host operation", false);
        if(n->hasErr() && !w.bad()) w.fail("handle-error", "a host operation on a live object raised " + n->errors());
    }
};

void scP16(World &w)
{
    GenOpt g = pickGen(w.t);
    g.wErr = 0;
    g.wGc = 3;
    g.wHandle = 4;
    if(w.t.chance(1, 2)) { g.rootStmts = 6; g.bodyStmts = 3; }
    Model m = makeModel(w, g);
    if(!m.usable) return;
    // The script makes and drops objects at the end, so that freed ones
    // are used again at once.
    uint32_t churn = w.t.draw(60);
    m.p.src = "var hA;\nvar hB;\n" + m.p.src +
        strf("var hi = 0;\nvar hl = nil;\nwhile(hi < %u) { var o = object(); o.n = hi; if(hi %% 3) { o.p = hl; } hl = o; hi = hi + 1; tick(); }\n", churn);
    w.setScenario(m.p.src);
    NodeOpt o = pickNode(w.t);
    o.untyped = false;
    if(w.t.chance(1, 2)) { o.gcInterval = 1 + w.t.draw(20); o.gcNewObj = 1 + w.t.draw(3); }
    HandleWorld hw(w);
    uint32_t pre = 12 + w.t.draw(20); // past the two declarations
    std::unique_ptr<Node> n(new Node(w, o, "vm"));
    hw.n = n.get();
    if(!n->build(m.p)) { w.fail("compile", "a valid program was rejected: " + n->errors()); return; }
    n->iterate(pre);
    bool inHook = w.t.chance(1, 2);
    uint32_t hookRate = 2 + w.t.draw(6);
    auto arm = [&] {
        // The script's own collections may take what is unreachable; the
        // host's own inside a host function must.
        n->hook = [&](Node &, int fn, NKVMFunctionCallbackData *) {
            if(inHook && fn != H_GCNOW && w.t.chance(1, hookRate)) hw.op(true);
        };
    };
    arm();
    SlicePolicy sp(w.t);
    int rounds = 20 + (int)w.t.draw(120);
    uint32_t restores = 0;
    for(int i = 0; i < rounds && !w.bad(); i++) {
        uint32_t ops = w.t.draw(4);
        for(uint32_t k = 0; k < ops; k++) hw.op();
        if(n->hasErr() || w.bad()) break;
        if(!n->ended()) {
            n->iterate(sp.next());
            if(n->hasErr()) { if(!n->oom() && m.r.err) break; w.fail("handle-error", "the script failed: " + n->errors()); break; }
            hw.check("after a slice", w.t.chance(1, 4));
        }
        if(w.t.chance(1, 12)) {
            Stream s;
            if(!n->save(s)) { w.fail("snapshot", "saving failed: " + n->errors()); break; }
            bool clean = w.t.chance(1, 2);
            hw.settle(false);
            std::map<int, int> before;
            for(auto &e : n->exts) before[e.first->uid]++;
            if(clean) n->destroy();
            n.reset(new Node(w, o, strf("vm%u", ++restores)));
            hw.n = n.get();
            if(!n->create() || !n->setup(false)) { w.fail("restore", "registration failed"); break; }
            n->limits();
            if(!n->load(s) || n->hasErr()) { w.fail("restore", "a valid snapshot was refused: " + n->errors()); break; }
            n->limits();
            std::map<int, int> after;
            for(auto &e : n->exts) after[e.first->uid]++;
            if(before != after) { w.fail("handle-lost", "the attached data after a restore are not those saved"); break; }
            w.count(clean ? "fault.clean_restart" : "fault.crash");
            arm();
            hw.check("after a restore", true);
            if(w.t.chance(1, 2)) { n->collect("after_restore"); hw.settle(true); hw.check("after a restore and a collection", true); }
        }
    }
    n->hook = nullptr;
    if(!w.bad() && !n->hasErr()) {
        // Give everything back, in any order.
        n->collect("final");
        hw.settle(true);
        hw.check("at the end", true);
        while(!w.bad()) {
            std::vector<int> c;
            for(size_t i = 0; i < hw.obs.size(); i++) if(hw.obs[i].handles) c.push_back((int)i);
            if(c.empty()) break;
            int i = c[w.t.draw((uint32_t)c.size())];
            nkxVmObjectReleaseHandle(n->vm, &hw.obs[i].v);
            hw.obs[i].handles--;
            bool gc = w.t.chance(1, 3);
            if(gc) n->collect("final");
            hw.settle(gc);
            hw.check("while giving back", gc);
        }
        if(!w.bad() && w.t.chance(1, 2)) {
            // One release too many.
            hw.setRoot(0, -1);
            NKValue v = nkNil();
            nkxCreateObject(n->vm, &v);
            NKValue *ga = nkxVmFindGlobalVariable(n->vm, nullptr, "hA");
            if(ga) *ga = v;
            uint32_t times = 1 + w.t.draw(3);
            Str before = n->dumpGlobals(m.p.globals);
            for(uint32_t k = 0; k < times; k++) nkxVmObjectReleaseHandle(n->vm, &v);
            w.count("fault.unbalanced_release", times);
            if(!n->hasErr()) w.fail("handle-count", "releasing a handle that is not held was not reported");
            uint32_t c = nkxVmObjectGetExternalHandleCount(n->vm, &v);
            if(c != 0 && !w.bad()) w.fail("handle-count", strf("after releasing a handle that is not held the count is %u", c));
            if(!w.bad()) { n->collect("final"); }
            if(!w.bad() && n->dumpGlobals(m.p.globals) != before) w.fail("handle-changed", "an unbalanced release changed other data");
        }
    }
    if(!w.bad()) n->destroy();
    w.trivial = hw.obs.size() < 3;
    w.sig(m.p.src);
    w.sig(w.hash);
    w.sig(hw.acts);
}

// ---------------------------------------------------------------------
// P22: what the host attached, in snapshots.
static void sweep(Node &n, std::vector<Str> &out)
{
    NKVMExternalDataTypeID ty[2] = { n.tRes, n.tBox };
    for(int k = 0; k < 2; k++) {
        NKValue v;
        nkuint32_t idx = 0;
        while(nkxGetNextObjectOfExternalType(n.vm, ty[k], &v, &idx)) {
            Ext *e = n.extOf(v);
            out.push_back(strf("%u %s%d:%d", v.objectId, k ? "box" : "res", e ? e->uid : -1, e ? e->data : -1));
        }
    }
}

// Objects of the host's types with no data attached, which get some later,
// lose it, change their type or are dropped.
struct BareWorld
{
    World &w;
    struct Slot { bool used = false; bool box = false; int uid = -1; };
    Slot slot[3];
    int nextUid = 500000;
    explicit BareWorld(World &ww) : w(ww) { }

    NKValue *var(Node &n, int k) { return nkxVmFindGlobalVariable(n.vm, nullptr, strf("hT%d", k).c_str()); }
    void op(Node &n)
    {
        int k = (int)w.t.draw(3);
        Slot &s = slot[k];
        NKValue *v = var(n, k);
        if(!v) { w.fail("external-data", "a global variable cannot be found"); return; }
        NKValue ob = *v;
        if(!s.used) {
            NKValue o = nkNil();
            nkxCreateObject(n.vm, &o);
            s.box = w.t.chance(1, 2);
            s.uid = -1;
            if(o.type != NK_VALUETYPE_OBJECTID || !nkxVmObjectSetExternalType(n.vm, &o, s.box ? n.tBox : n.tRes)) { w.fail("external-data", "an object of an external type cannot be made: " + n.errors()); return; }
            v = var(n, k);
            *v = o;
            s.used = true;
            w.count("action.bare_object");
        } else switch(w.t.draw(6)) {
            case 0:
                *v = nkNil();
                s.used = false;
                break;
            case 1:
                if(s.uid >= 0) break;
                {
                    Ext *e = new Ext();
                    e->box = s.box;
                    e->uid = s.uid = nextUid++;
                    e->data = 7;
                    e->link = nkNil();
                    n.exts[e] = 1;
                    if(n.opt.blobs) e->blob = nkxMalloc(n.vm, 24);
                    if(!nkxVmObjectSetExternalData(n.vm, &ob, e)) w.fail("external-data", "data cannot be attached: " + n.errors());
                }
                break;
            case 2: case 3: {
                // The host takes its data away again.
                if(s.uid < 0) break;
                Ext *e = (Ext *)nkxVmObjectGetExternalData(n.vm, &ob);
                if(!e || !n.exts.count(e)) { w.fail("external-data", "attached data is gone"); break; }
                bool all = w.t.chance(1, 2);
                NKVMExternalDataTypeID none = { NK_INVALID_VALUE };
                if(!nkxVmObjectSetExternalData(n.vm, &ob, nullptr) || (all && !nkxVmObjectSetExternalType(n.vm, &ob, none))) { w.fail("external-data", "data cannot be taken away: " + n.errors()); break; }
                n.exts.erase(e);
                if(e->blob) nkxFree(n.vm, e->blob);
                delete e;
                s.uid = -1;
                if(all) { *v = nkNil(); s.used = false; }
            } break;
            case 4:
                if(s.uid >= 0) break;
                s.box = !s.box;
                if(!nkxVmObjectSetExternalType(n.vm, &ob, s.box ? n.tBox : n.tRes)) w.fail("external-data", "a type cannot be changed: " + n.errors());
                break;
            default: {
                int f0 = n.bareFinals;
                std::vector<Str> a;
                int bare0 = bareCount(n), keep = 0;
                for(auto &x : slot) if(x.used && x.uid < 0) keep++;
                n.collect("bare");
                if(n.bareFinals - f0 != bare0 - keep) w.fail("finalise", strf("%d objects without data were unreachable, %d cleanup calls", bare0 - keep, n.bareFinals - f0));
            } break;
        }
        check(n, "after a host operation");
    }
    int bareCount(Node &n)
    {
        std::vector<Str> a;
        sweep(n, a);
        int c = 0;
        for(auto &x : a) if(x.find("-1:-1") != Str::npos) c++;
        return c;
    }
    void check(Node &n, const char *when)
    {
        for(int k = 0; k < 3 && !w.bad(); k++) {
            if(!slot[k].used) continue;
            NKValue *v = var(n, k);
            if(!v || v->type != NK_VALUETYPE_OBJECTID) { w.fail("external-data", strf("%s a host object is gone", when)); return; }
            NKValue ob = *v;
            NKVMExternalDataTypeID t = nkxVmObjectGetExternalType(n.vm, &ob);
            if(t.id != (slot[k].box ? n.tBox : n.tRes).id) { w.fail("external-data", strf("%s an object without data has another type", when)); return; }
            Ext *e = (Ext *)nkxVmObjectGetExternalData(n.vm, &ob);
            if(slot[k].uid < 0 ? e != nullptr : !e || !n.exts.count(e) || e->uid != slot[k].uid) w.fail("external-data", strf("%s the data attached to an object are not the host's", when));
        }
    }
};

void scP22(World &w)
{
    GenOpt g = pickGen(w.t);
    g.wExt = 7;
    g.wHandle = 4;
    if(w.t.chance(1, 2)) g.wCo = 8;
    Model m = makeModel(w, g);
    if(!m.usable) return;
    Trace b = baseline(w, m);
    if(w.bad()) return;
    NodeOpt o = pickNode(w.t);
    o.blobs = w.t.chance(1, 2);
    // The host may also keep objects of its types that have no data (yet).
    BareWorld bare(w);
    o.bare = w.t.chance(1, 2);
    if(o.bare) { m.p.src = "var hT0; var hT1; var hT2; " + m.p.src; w.setScenario(m.p.src); }
    std::unique_ptr<Node> n(new Node(w, o, "vm"));
    if(!n->build(m.p)) { w.fail("compile", "a valid program was rejected: " + n->errors()); return; }
    if(o.bare) n->iterate(20);
    std::vector<Str> ev;
    SlicePolicy sp(w.t);
    uint32_t saves = 1 + w.t.draw(6);
    uint64_t bound = stepBound(m), used = 0;
    Trace t;
    bool any = false;
    for(uint32_t i = 0; i < saves && !w.bad(); i++) {
        uint64_t k = w.t.draw((uint32_t)std::min<uint64_t>(m.r.steps * 3 / saves + 20, 4000));
        for(uint64_t j = 0; j < k && !n->hasErr() && !n->ended(); ) { uint32_t s = sp.next(); n->iterate(s); used += s; j += s; }
        if(n->hasErr()) break;
        if(o.bare) { for(uint32_t j = w.t.draw(6); j > 0 && !w.bad(); j--) bare.op(*n); if(w.bad()) break; }
        bool failing = w.t.chance(1, 3);
        n->ser.clear();
        std::vector<Str> before, after;
        sweep(*n, before);
        Str dump = n->dumpGlobals(m.p.globals);
        std::set<int> uids;
        for(auto &e : n->exts) uids.insert(e.first->uid);
        // A failing callback on save.
        if(failing && w.t.chance(1, 2)) {
            Node twin(w, o, "failing-save");
            Stream s0;
            if(!n->save(s0)) { w.fail("snapshot", "saving failed: " + n->errors()); break; }
            n->ser.clear();
            if(!twin.create() || !twin.setup(false)) { w.fail("restore", "registration failed"); break; }
            twin.limits();
            if(!twin.load(s0)) { w.fail("restore", "a valid snapshot was refused: " + twin.errors()); break; }
            twin.failSer = (int)w.t.draw((uint32_t)before.size() + 1);
            Stream s;
            bool ok = twin.save(s);
            if(ok) w.fail("callback-failure", "a serialization callback failed but the save succeeded");
            if(!w.bad() && !twin.hasErr()) w.fail("callback-failure", "a serialization callback's error was lost");
            std::vector<Str> a2;
            sweep(twin, a2);
            if(a2 != before && !w.bad()) w.fail("external-data", "a failed save changed the attached data");
            if(!w.bad()) twin.destroy();
        }
        if(w.bad()) break;
        Stream s;
        if(!n->save(s)) { w.fail("snapshot", "saving failed: " + n->errors()); break; }
        w.count("action.save");
        std::vector<Str> saved = n->ser;
        if(saved.empty() || saved[0] != "save sys") { w.fail("ser-order", "the subsystem was not saved first"); break; }
        std::set<Str> seen;
        size_t nBare = 0;
        for(auto &x : before) if(x.find("-1:-1") != Str::npos) nBare++;
        for(auto &x : saved) if(x[x.size() - 1] != '-' && !seen.insert(x).second) { w.fail("ser-order", x + " was offered twice"); }
        if(saved.size() != uids.size() + nBare + 1) { w.fail("ser-order", strf("%zu objects with attached data and %zu without, %zu offered on save", uids.size(), nBare, saved.size() - 1)); break; }
        if(uids.size()) any = true;
        // A failing callback on load.
        if(failing) {
            Node twin(w, o, "failing-load");
            if(!twin.create() || !twin.setup(false)) { w.fail("restore", "registration failed"); break; }
            twin.limits();
            twin.failSer = (int)w.t.draw((uint32_t)before.size() + 1);
            Stream c;
            c.data = s.data;
            bool ok = twin.load(c);
            if(ok && !twin.hasErr()) w.fail("callback-failure", "a serialization callback failed but the load succeeded");
            if(w.t.chance(1, 2)) { twin.collect("after_failed_load"); nkxVmShrink(twin.vm); }
            if(w.t.chance(1, 2)) { twin.iterate(50); }
            if(!w.bad()) twin.destroy();
        }
        if(w.bad()) break;
        bool clean = w.t.chance(1, 2);
        std::vector<Str> evSoFar = n->ev;
        if(clean) n->destroy();
        n.reset(new Node(w, o, strf("vm%u", i)));
        if(!n->create() || !n->setup(false)) { w.fail("restore", "registration failed"); break; }
        n->limits();
        if(!n->load(s) || n->hasErr()) { w.fail("restore", "a valid snapshot was refused: " + n->errors()); break; }
        n->limits();
        w.count(clean ? "fault.clean_restart" : "fault.crash");
        n->ev = evSoFar;
        std::vector<Str> loaded = n->ser;
        for(auto &x : saved) x = "load" + x.substr(4);
        if(saved != loaded) { w.fail("ser-order", strf("the load callbacks ran for other objects or in another order than on save (%zu and %zu)", saved.size(), loaded.size())); break; }
        sweep(*n, after);
        if(before != after) { w.fail("external-data", "attached data moved or changed across the restore"); break; }
        Str dump2 = n->dumpGlobals(m.p.globals);
        if(dump != dump2) { w.fail("external-data", "what the script can reach differs after the restore: " + dumpDiff(dump, dump2)); break; }
        if(o.bare && w.t.chance(1, 2)) bare.check(*n, "after a restore");
        if(w.t.chance(1, 3)) n->collect("after_restore");
    }
    if(w.bad()) return;
    drive(*n, bound, [&] { return sp.next(); }, nullptr, t);
    t = finish(*n, m, t);
    if(o.bare && !n->hasErr() && !w.bad()) { n->collect("final"); bare.check(*n, "at the end"); }
    sameTrace(w, "external-data", b, t, "uninterrupted vs restored");
    if(!w.bad()) n->destroy();
    w.trivial = !any;
    w.sig(m.p.src);
    w.sig(w.hash);
}

// ---------------------------------------------------------------------
// P21: a snapshot meets a host that is set up differently.
void scP21(World &w)
{
    GenOpt g = pickGen(w.t);
    if(w.t.chance(1, 2)) g.wExt = 7;
    g.wHcall = 4;
    Model m = makeModel(w, g);
    if(!m.usable) return;
    Trace b = baseline(w, m);
    if(w.bad()) return;
    // (The order of external types is part of what has to match.)
    bool swapped = w.t.chance(1, 3);
    // (What the script's host had compiled in is needed, called or not.)
    int need = 0;
    auto vary = [&](NodeOpt &o) {
        if(w.t.chance(3, 4)) o.orderSeed = subseed(w.t);
        if(w.t.chance(1, 2)) o.extraFns = (int)w.t.draw(7);
        if(o.extraFns < need) o.extraFns = need;
        if(w.t.chance(1, 5)) o.untyped = true;
        o.swapTypes = swapped;
    };
    NodeOpt o;
    vary(o);
    need = o.extraFns;
    std::unique_ptr<Node> n(new Node(w, o, "origin"));
    if(!n->build(m.p)) { w.fail("compile", "a valid program was rejected: " + n->errors()); return; }
    SlicePolicy sp(w.t);
    uint32_t saves = 1 + w.t.draw(4);
    bool refused = false;
    for(uint32_t i = 0; i < saves && !w.bad(); i++) {
        uint64_t k = w.t.draw((uint32_t)std::min<uint64_t>(m.r.steps * 3 / saves + 20, 4000));
        for(uint64_t j = 0; j < k && !n->hasErr() && !n->ended(); ) { uint32_t s = sp.next(); n->iterate(s); j += s; }
        if(n->hasErr()) break;
        Stream s;
        if(!n->save(s)) { w.fail("snapshot", "saving failed: " + n->errors()); break; }
        if(w.t.chance(1, 2)) {
            // Something the snapshot needs is not there.
            NodeOpt bad;
            vary(bad);
            const char *what = "";
            bool live = false;
            switch(w.t.draw(6)) {
                case 4: bad.swapTypes = !swapped; what = "the order of types"; break;
                case 0: bad.skipFn = (int)w.t.draw(H_COUNT); what = "a function"; break;
                case 1: bad.skipRes = true; what = "an external type"; break;
                case 2: bad.skipBox = true; what = "an external type"; break;
                case 3: bad.skipSys = true; what = "a subsystem"; break;
                default: bad.extraType = true; what = "type list"; break;
            }
            if(bad.skipRes) bad.untyped = true;
            if(w.t.chance(1, 4) && (bad.skipRes || bad.skipBox)) { bad.extraType = true; live = true; }
            w.count("fault.registration_missing");
            Node r(w, bad, "mismatched");
            if(!r.create() || !r.setup(false)) { w.fail("restore", "registration failed: " + r.errors()); break; }
            Stream c;
            c.data = s.data;
            bool ok = r.load(c);
            refused = true;
            if(ok) w.fail("mismatch-accepted", strf("the snapshot was accepted although the host lacks %s%s", what, live ? " (another in its place)" : ""));
            if(!w.bad() && !r.hasErr()) w.fail("mismatch-accepted", strf("no error was reported although the host lacks %s", what));
            // Nothing may run.
            size_t evs = r.ev.size();
            uint64_t hc = r.hostCalls;
            r.iterate(1 + w.t.draw(100));
            if(w.t.chance(1, 2)) { nkxVmExecuteProgram(r.vm); }
            if(!w.bad() && (r.ev.size() != evs || r.hostCalls != hc)) w.fail("mismatch-accepted", "a refused snapshot ran");
            if(w.t.chance(1, 2)) { r.collect("after_failed_load"); }
            if(w.t.chance(1, 2)) { nkxVmShrink(r.vm); }
            if(!w.bad()) r.destroy();
        }
        if(w.bad()) break;
        NodeOpt q;
        vary(q);
        std::vector<Str> ev = n->ev;
        bool clean = w.t.chance(1, 2);
        if(clean) n->destroy();
        n.reset(new Node(w, q, strf("host%u", i)));
        if(!n->create() || !n->setup(false)) { w.fail("restore", "registration failed: " + n->errors()); break; }
        if(!n->load(s) || n->hasErr()) { w.fail("restore", "a host registered in another order was refused: " + n->errors()); break; }
        n->ev = ev;
        w.count(clean ? "fault.clean_restart" : "fault.crash");
        w.count("action.differently_registered");
    }
    if(w.bad()) return;
    Trace t;
    drive(*n, stepBound(m), [&] { return sp.next(); }, nullptr, t);
    t = finish(*n, m, t);
    sameTrace(w, "remap", b, t, "one host vs differently registered hosts", true, !m.r.err);
    if(!w.bad()) n->destroy();
    w.trivial = false;
    (void)refused;
    w.sig(m.p.src);
    w.sig(w.hash);
}
