#include "host.hpp"

NKValue nkNil() { NKValue v; memset(&v, 0, sizeof(v)); v.type = NK_VALUETYPE_NIL; return v; }
NKValue nkInt(int i) { NKValue v; memset(&v, 0, sizeof(v)); v.type = NK_VALUETYPE_INT; v.intData = i; return v; }
bool isNk(const NKValue &v, enum NKValueType t) { return v.type == t; }

nkbool streamIo(void *data, nkuint32_t size, void *ud, nkbool writeMode)
{
    Stream *s = (Stream *)ud;
    uint64_t call = s->calls++;
    if(s->onCall) s->onCall();
    bool hit = call == s->failCall || (s->failByte != (size_t)-1 && s->pos + size > s->failByte);
    if(s->transient && s->fired) hit = false;
    if(hit) {
        if(!s->fired && s->w) {
            s->w->count(Str("fault.stream_") + (writeMode ? "write_" : "read_") +
                        (s->lie ? "lost" : s->partial ? "short" : "error"));
        }
        s->fired = true;
        if(s->partial && s->failByte != (size_t)-1 && s->pos < s->failByte) {
            size_t n = s->failByte - s->pos;
            if(n > size) n = size;
            if(writeMode) s->data.insert(s->data.end(), (unsigned char *)data, (unsigned char *)data + n);
            else if(s->pos + n <= s->data.size()) memcpy(data, &s->data[s->pos], n);
            s->pos += n;
        }
        return s->lie ? nktrue : nkfalse;
    }
    if(s->keepMarks) s->marks.push_back((uint32_t)s->pos);
    if(writeMode) {
        if(s->data.size() + size > s->limit) return nkfalse;
        s->data.insert(s->data.end(), (unsigned char *)data, (unsigned char *)data + size);
    } else {
        if(s->pos + size > s->data.size()) {
            if(s->w && !s->fired) s->w->count("fault.stream_truncated");
            s->fired = true;
            return nkfalse;
        }
        if(size) memcpy(data, &s->data[s->pos], size);
    }
    s->pos += size;
    return nktrue;
}

static Node *nodeOf(NKVM *vm) { return (Node *)nkxGetUserData(vm); }

// ---------------------------------------------------------------------
// External types and the host's subsystem.
static void cbExtSerialize(NKVM *vm, NKValue *value, void *internal)
{
    Node *n = nodeOf(vm);
    Ext *e = (Ext *)internal;
    bool write = nkxSerializerGetWriteMode(vm);
    if(n->failSer >= 0 && n->serCount++ == n->failSer) {
        n->w.count("fault.callback_serialize");
        nkxAddError(vm, "simulated serializer failure");
        return;
    }
    bool box = nkxVmObjectGetExternalType(vm, value).id == n->tBox.id;
    if(n->opt.bare) {
        // Says first whether there is any data.
        if(write && e && !n->exts.count(e)) { n->w.fail("external-data", "save callback without the object's own data"); return; }
        uint32_t some = e ? 1 : 0;
        if(!nkxSerializeData(vm, &some, 4)) { if(!n->quietSer) nkxAddError(vm, "external object failed"); return; }
        if(!some) {
            if(e) n->w.fail("external-data", "load callback with data already attached");
            n->ser.push_back(strf("%s %s-", write ? "save" : "load", box ? "box" : "res"));
            return;
        }
    }
    if(write) {
        if(!e && n->tolerant) return;
        if(!e || !n->exts.count(e)) {
            n->w.fail("external-data", "save callback without the object's own data");
            return;
        }
        n->ser.push_back(strf("save %s%d", box ? "box" : "res", e->uid));
    } else {
        if(e) { n->w.fail("external-data", "load callback with data already attached"); return; }
        e = new Ext();
        e->link = nkNil();
        e->box = box;
    }
    uint32_t uid = (uint32_t)e->uid;
    uint32_t data = (uint32_t)e->data;
    bool ok = nkxSerializeData(vm, &uid, 4) && nkxSerializeData(vm, &data, 4);
    if(ok && box) ok = nkxSerializeData(vm, &e->link, sizeof(e->link));
    if(!write) {
        if(!ok) { delete e; if(!n->quietSer) nkxAddError(vm, "short external object"); return; }
        e->uid = n->tolerant ? 1000000 + ++n->loadedUids : (int)uid;
        e->data = (int)data;
        if(!nkxVmObjectSetExternalData(vm, value, e)) {
            delete e;
            return;
        }
        n->exts[e] = 1;
        if(n->opt.blobs) {
            e->blob = nkxMalloc(vm, 24);
        }
        n->ser.push_back(strf("load %s%d", box ? "box" : "res", e->uid));
    } else if(!ok && !n->quietSer) {
        nkxAddError(vm, "external object not written");
    }
}

static void cbExtCleanup(NKVM *vm, NKValue *value, void *internal)
{
    Node *n = nodeOf(vm);
    Ext *e = (Ext *)internal;
    // Objects whose data was never attached (half-made or half-loaded).
    if(!e) { n->bareFinals++; return; }
    if(!n->exts.count(e)) {
        n->w.fail("finalise", "cleanup callback with data that is not attached (double finalise?)");
        return;
    }
    if(n->onFinal) n->onFinal(e);
    n->finals[e->uid]++;
    n->exts.erase(e);
    if(e->blob) nkxFree(vm, e->blob);
    (void)value;
    delete e;
}

static void cbExtMark(NKVM *vm, NKValue *value, void *internal, NKVMGCState *gc)
{
    Node *n = nodeOf(vm);
    Ext *e = (Ext *)internal;
    (void)value;
    if(!e) return;
    n->markCalls++;
    if(!n->exts.count(e)) {
        n->w.fail("external-data", "mark callback with data that is not attached");
        return;
    }
    if(e->box) nkxVmGarbageCollect_markValue(vm, gc, &e->link);
    if(n->onMark) n->onMark();
}

static void cbSysSerialize(NKVM *vm, void *internal)
{
    Node *n = (Node *)internal;
    bool write = nkxSerializerGetWriteMode(vm);
    if(n->failSer >= 0 && n->serCount++ == n->failSer) {
        n->w.count("fault.callback_serialize");
        nkxAddError(vm, "simulated subsystem serializer failure");
        return;
    }
    n->ser.push_back(write ? "save sys" : "load sys");
    uint32_t m = 0x51e0;
    bool ok = nkxSerializeData(vm, &m, 4);
    uint32_t nu = (uint32_t)n->nextUid, fp = (uint32_t)n->fpCount;
    ok = ok && nkxSerializeData(vm, &nu, 4) && nkxSerializeData(vm, &fp, 4);
    NKValue sl[NSLOTS];
    uint32_t used[NSLOTS];
    for(int i = 0; i < NSLOTS; i++) { sl[i] = n->slotUsed[i] ? n->slots[i] : nkNil(); used[i] = n->slotUsed[i]; }
    for(int i = 0; i < NSLOTS && ok; i++) {
        ok = nkxSerializeData(vm, &used[i], 4) && nkxSerializeData(vm, &sl[i], sizeof(NKValue));
    }
    if(!ok && n->quietSer) return;
    if(!ok || m != 0x51e0) { nkxAddError(vm, "host subsystem data damaged"); return; }
    if(!write) {
        if(!n->tolerant) n->nextUid = (int)nu;
        n->fpCount = (int)fp;
        for(int i = 0; i < NSLOTS; i++) { n->slotUsed[i] = used[i] == 1; n->slots[i] = sl[i]; }
    }
}

static void cbSysCleanup(NKVM *vm, void *internal)
{
    Node *n = (Node *)internal;
    (void)vm;
    n->sysCleanups++;
    if(n->sysCleanups > 1) n->w.fail("finalise", "subsystem cleanup ran twice");
    if(!n->inDelete) n->w.fail("finalise", "subsystem cleanup ran outside nkxVmDelete");
    // A failed VM gives no per-object callbacks; the subsystem finds its
    // objects itself, as the documentation asks.
    if(nkxVmHasAllocationFailure(vm)) {
        NKVMExternalDataTypeID ty[2] = { n->tRes, n->tBox };
        for(int k = 0; k < 2; k++) {
            if(ty[k].id == NK_INVALID_VALUE) continue;
            NKValue v;
            nkuint32_t idx = 0;
            while(nkxGetNextObjectOfExternalType(vm, ty[k], &v, &idx)) {
                Ext *e = (Ext *)nkxVmObjectGetExternalData(vm, &v);
                if(!e) continue;
                if(!n->exts.count(e)) {
                    n->w.fail("external-data", "object iteration in a failed VM returned foreign data");
                    continue;
                }
                n->finals[e->uid]++;
                n->exts.erase(e);
                delete e;
            }
        }
    }
}

// ---------------------------------------------------------------------
Node::Node(World &ww, const NodeOpt &o, const Str &nm) : w(ww), opt(o), alloc(&ww), name(nm)
{
    alloc.name = nm;
    alloc.fill = o.fill;
    alloc.fillRandom = o.fillRandom;
    alloc.fillState = o.fillSeed;
    alloc.place = o.place;
    alloc.placeState = o.fillSeed;
    alloc.failAt = o.failAt;
    alloc.failCount = o.failCount;
    failSer = o.failSerIdx;
    if(o.hardCap) alloc.hardCap = o.hardCap;
    if(o.maxMem) alloc.limit = o.maxMem;
    tRes.id = tBox.id = NK_INVALID_VALUE;
    for(int i = 0; i < NSLOTS; i++) { slots[i] = nkNil(); slotUsed[i] = false; }
}

Node::~Node()
{
    for(auto &p : exts) delete p.first;
}

bool Node::create()
{
    NKVMCreateParams p;
    memset(&p, 0, sizeof(p));
    p.mallocReplacement = simMalloc;
    p.freeReplacement = simFree;
    p.mallocAndFreeReplacementUserData = &alloc;
    vm = nkxVmCreateEx(&p);
    if(!vm) return false;
    nkxSetUserData(vm, this);
    if(opt.maxMem) nkxSetMaxAllocatedMemory(vm, opt.maxMem);
    return !oom();
}

template<int N> static void tramp(NKVMFunctionCallbackData *d) { hostCallback(N, d); }
static void extraCb(NKVMFunctionCallbackData *d)
{
    Node *n = nodeOf(d->vm);
    n->w.fail("wrong-callback", "a host function no script refers to was called");
}
template<int N> static void extraTramp(NKVMFunctionCallbackData *d) { (void)N; extraCb(d); }
static const NKVMFunctionCallback g_cbs[H_COUNT] = {
    tramp<0>, tramp<1>, tramp<2>, tramp<3>, tramp<4>, tramp<5>, tramp<6>, tramp<7>, tramp<8>,
    tramp<9>, tramp<10>, tramp<11>, tramp<12>, tramp<13>, tramp<14>, tramp<15>, tramp<16>,
    tramp<17>, tramp<18>, tramp<19>, tramp<20>, tramp<21>, tramp<22>, tramp<23>, tramp<24>, tramp<25>, tramp<26>
};
static const NKVMFunctionCallback g_extraCbs[6] = {
    extraTramp<0>, extraTramp<1>, extraTramp<2>, extraTramp<3>, extraTramp<4>, extraTramp<5>
};

static void regFn(Node *n, NKCompilerState *cs, int i)
{
    const HostFnInfo &h = g_hostFns[i];
    NKVM *vm = n->vm;
    NKVMExternalDataTypeID any, res = n->tRes;
    any.id = NK_INVALID_VALUE;
    NKVMFunctionCallback cb = g_cbs[i];
    if(n->opt.untyped && i != H_TAKERES && i != H_TAKEINT) {
        // The longer way round that the API also offers.
        nkxVmRegisterExternalFunction(vm, h.name, cb);
        if(cs) nkxCompilerCreateCFunctionVariable(cs, h.name, cb);
        return;
    }
#define SETUP(argc, ...) nkxVmSetupExternalFunction(vm, cs, h.name, cb, nktrue, argc, ##__VA_ARGS__)
#define tI ((int)NK_VALUETYPE_INT)
#define tS ((int)NK_VALUETYPE_STRING)
#define tA ((int)NK_VALUETYPE_NIL)
#define tO ((int)NK_VALUETYPE_OBJECTID)
    Str t = h.types;
    if(h.argc < 0) SETUP(NK_INVALID_VALUE);
    else if(t == "") SETUP(0);
    else if(t == "A") SETUP(1, tA);
    else if(t == "I") SETUP(1, tI);
    else if(t == "S") SETUP(1, tS);
    else if(t == "O") SETUP(1, tO, any);
    else if(t == "R") SETUP(1, tO, res);
    else if(t == "II") SETUP(2, tI, tI);
    else if(t == "AI") SETUP(2, tA, tI);
    else if(t == "AA") SETUP(2, tA, tA);
    else if(t == "IA") SETUP(2, tI, tA);
    else if(t == "OA") SETUP(2, tO, any, tA);
    else if(t == "OAA") SETUP(3, tO, any, tA, tA);
    else abort();
#undef SETUP
}

bool Node::setup(bool withCompiler)
{
    if(withCompiler) {
        cs = nkxCompilerCreate(vm);
        if(!cs) return false;
    }
    if(!opt.skipSys) {
        nkxInitSubsystem(vm, cs, "simsys", this, cbSysCleanup, cbSysSerialize);
        if(oom()) return false;
        sysRegistered = true;
    }
    for(int k = 0; k < 2; k++) {
        bool box = (k == 1) != opt.swapTypes;
        if(box && opt.skipBox) continue;
        if(!box && opt.skipRes) continue;
        NKVMExternalDataTypeID id = nkxVmRegisterExternalType(
            vm, box ? "SimBox" : "SimRes", cbExtSerialize, cbExtCleanup, cbExtMark);
        if(box) tBox = id; else tRes = id;
        if(oom()) return false;
    }
    if(opt.extraType) nkxVmRegisterExternalType(vm, "SimOther", cbExtSerialize, cbExtCleanup, cbExtMark);
    for(int i = 0; i < opt.extraFns && i < 6; i++) {
        Str nm = strf("extra%d", i);
        nkxVmSetupExternalFunction(vm, cs, nm.c_str(), g_extraCbs[i], nktrue, NK_INVALID_VALUE);
    }
    std::vector<int> order;
    for(int i = 0; i < H_COUNT; i++) if(i != opt.skipFn) order.push_back(i);
    if(opt.orderSeed) {
        Tape sh;
        sh.seed(opt.orderSeed);
        for(size_t i = order.size() - 1; i > 0; i--) std::swap(order[i], order[sh.draw((uint32_t)i + 1)]);
    }
    for(int i : order) {
        regFn(this, cs, i);
        if(oom()) return false;
    }
    return !oom();
}

void Node::limits()
{
    if(opt.gcInterval) nkxSetGarbageCollectionInterval(vm, opt.gcInterval);
    if(opt.gcNewObj) nkxSetGarbageCollectionNewObjectInterval(vm, opt.gcNewObj);
    if(opt.maxStack) nkxSetMaxStackSize(vm, opt.maxStack);
    if(opt.maxFields) nkxSetMaxFieldsPerObject(vm, opt.maxFields);
    if(opt.instrLimit) nkxSetRemainingInstructionLimit(vm, opt.instrLimit);
}

bool Node::build(const Str &src)
{
    if(!create()) return false;
    if(!setup(true)) return false;
    bool ok = nkxCompilerCompileScript(cs, src.c_str(), "sim.nks");
    if(oom()) return false;
    nkxCompilerFinalize(cs);
    cs = nullptr;
    if(oom()) return false;
    limits();
    return ok && !hasErr();
}

Str Node::errors()
{
    if(!nkxVmHasErrors(vm)) return "";
    uint32_t n = nkxGetErrorLength(vm);
    std::vector<char> b(n + 1, 0);
    nkxGetErrorText(vm, &b[0]);
    return Str(&b[0]);
}

bool Node::save(Stream &s)
{
    s.w = &w;
    serCount = 0;
    if(onStream) s.onCall = onStream;
    nkbool r = nkxVmSerialize(vm, streamIo, &s, nktrue);
    for(unsigned char c : s.data) saveHash = (saveHash ^ c) * 1099511628211ULL;
    return r;
}

bool Node::load(Stream &s)
{
    s.w = &w;
    s.pos = 0;
    s.calls = 0;
    serCount = 0;
    if(onStream) s.onCall = onStream;
    loading = true;
    nkbool r = nkxVmSerialize(vm, streamIo, &s, nkfalse);
    loading = false;
    return r;
}

Ext *Node::extOf(NKValue &v)
{
    if(v.type != NK_VALUETYPE_OBJECTID) return nullptr;
    NKVMExternalDataTypeID t = nkxVmObjectGetExternalType(vm, &v);
    if(t.id == NK_INVALID_VALUE) return nullptr;
    if(t.id != tRes.id && t.id != tBox.id) return nullptr;
    Ext *e = (Ext *)nkxVmObjectGetExternalData(vm, &v);
    if(!e) return nullptr;
    if(!exts.count(e)) {
        w.fail("external-data", "a script object carries data that was already finalised or is foreign");
        return nullptr;
    }
    if(e->box != (t.id == tBox.id)) {
        if(tolerant) return nullptr;
        w.fail("external-data", "external type and data disagree");
        return nullptr;
    }
    return e;
}

Str Node::valStr(NKValue &v)
{
    switch(v.type) {
        case NK_VALUETYPE_INT: return strf("%d", v.intData);
        case NK_VALUETYPE_FLOAT: return strf("%.9gf", v.floatData);
        case NK_VALUETYPE_STRING: {
            const char *s = nkxValueToString(vm, &v);
            if(!s) return "oom";
            size_t n = strlen(s);
            return n > 3000 ? strf("longstr%zu", n) : Str("\"") + s + "\"";
        }
        case NK_VALUETYPE_FUNCTIONID: return "fn";
        case NK_VALUETYPE_NIL: return "nil";
        case NK_VALUETYPE_OBJECTID: {
            NKVMExternalDataTypeID t = nkxVmObjectGetExternalType(vm, &v);
            if(t.id == NK_INVALID_VALUE) return "obj";
            if(t.id == tRes.id || t.id == tBox.id) {
                Ext *e = extOf(v);
                if(!e) return "ext?";
                return strf("%s%d:%d", e->box ? "box" : "res", e->uid, e->data);
            }
            const char *nm = nkxVmGetExternalTypeName(vm, t);
            if(nm && !strcmp(nm, "coroutine")) return "coro";
            return strf("type:%s", nm ? nm : "?");
        }
        default: break;
    }
    return strf("badtype%u", (unsigned)v.type_uint);
}

struct RealDump : DumpSource
{
    Node &n;
    std::vector<std::unique_ptr<NKValue>> keep;
    std::vector<NKValue> keys;
    explicit RealDump(Node &nn) : n(nn)
    {
        for(auto &k : keyUniverse()) {
            NKValue key = nkNil();
            switch(k.t) {
                case R_INT: nkxValueSetInt(n.vm, &key, k.i); break;
                case R_FLOAT: nkxValueSetFloat(n.vm, &key, k.f); break;
                default: nkxValueSetString(n.vm, &key, k.s.c_str()); break;
            }
            keys.push_back(key);
        }
    }
    NKValue &V(const void *v) { return *(NKValue *)v; }
    bool isObj(const void *v, Str &prim) override
    {
        if(V(v).type == NK_VALUETYPE_OBJECTID) return true;
        prim = n.valStr(V(v));
        return false;
    }
    uint64_t objId(const void *v) override { return V(v).objectId; }
    Str objHeader(const void *v) override
    {
        return strf("(%s n%u h%u)", n.valStr(V(v)).c_str(), nkxVmObjectGetSize(n.vm, &V(v)),
                    nkxVmObjectGetExternalHandleCount(n.vm, &V(v)));
    }
    const void *find(const void *v, NKValue *key)
    {
        NKValue *x = nkxVmObjectFindOrAddEntry(n.vm, &V(v), key, nktrue);
        if(!x || x->type == NK_VALUETYPE_NIL) return nullptr;
        keep.push_back(std::unique_ptr<NKValue>(new NKValue(*x)));
        return keep.back().get();
    }
    const void *getKey(const void *v, const RV &k) override
    {
        size_t i = (size_t)(&k - &keyUniverse()[0]);
        return find(v, &keys[i]);
    }
    const void *getObjKey(const void *v, const void *k) override { return find(v, &V(k)); }
    const void *getLink(const void *v) override
    {
        Ext *e = n.extOf(V(v));
        if(!e || !e->box) return nullptr;
        keep.push_back(std::unique_ptr<NKValue>(new NKValue(e->link)));
        return keep.back().get();
    }
};

Str Node::dumpValue(NKValue v)
{
    RealDump d(*this);
    std::vector<std::pair<Str, const void *>> roots;
    roots.push_back(std::make_pair(Str("v"), (const void *)&v));
    return canonicalDump(d, roots);
}

Str Node::dumpGlobals(const std::vector<Str> &names, bool withSlots)
{
    if(oom()) return "oom";
    RealDump d(*this);
    std::vector<std::pair<Str, const void *>> roots;
    NKValue missing = nkNil();
    std::vector<NKValue> vals(names.size());
    for(size_t i = 0; i < names.size(); i++) {
        NKValue *g = nkxVmFindGlobalVariable(vm, cs, names[i].c_str());
        vals[i] = g ? *g : missing;
    }
    for(size_t i = 0; i < names.size(); i++) roots.push_back(std::make_pair(names[i], (const void *)&vals[i]));
    NKValue nil = nkNil();
    if(withSlots) {
        for(int i = 0; i < NSLOTS; i++) {
            roots.push_back(std::make_pair(strf("slot%d", i), (const void *)(slotUsed[i] ? &slots[i] : &nil)));
        }
    }
    return canonicalDump(d, roots);
}

Str Node::liveUids() const
{
    std::vector<int> u;
    for(auto &p : exts) if(!opt.bare || p.first->uid < 500000) u.push_back(p.first->uid); // not the host's own
    std::sort(u.begin(), u.end());
    Str s;
    for(int x : u) s += strf(" %d", x);
    return s;
}

void Node::checkAccounting(const char *where)
{
    if(!vm) return;
    uint32_t cur = nkxVmGetCurrentMemoryUsage(vm);
    // The VM counts requested bytes; block headers are its own.
    (void)cur;
    (void)where;
}

void Node::collect(const char *why)
{
    w.count(Str("action.gc_") + why);
    nkxVmGarbageCollect(vm);
}

void Node::destroy()
{
    if(!vm) return;
    bool failed = nkxVmHasAllocationFailure(vm);
    bool sysOk = !opt.skipSys;
    inDelete = true;
    uint64_t fired = alloc.failsFired;
    nkxVmDelete(vm);
    // Out of memory in the middle of that: subsystems only.
    bool finalsDue = wantFinals && alloc.failsFired == fired;
    inDelete = false;
    vm = nullptr;
    cs = nullptr;
    if(!alloc.live.empty()) {
        w.fail("leak", strf("%zu blocks (%llu bytes) still outstanding after nkxVmDelete of %s",
               alloc.live.size(), (unsigned long long)alloc.bytes, failed ? "a failed VM" : "a VM"));
    }
    if(!exts.empty() && finalsDue) {
        w.fail("finalise", strf("%zu external objects never finalised by nkxVmDelete (%s)",
               exts.size(), liveUids().c_str()));
    }
    for(auto &f : finals) {
        if(f.second != 1) w.fail("finalise", strf("object %d finalised %d times", f.first, f.second));
    }
    if(sysOk && wantFinals && sysCleanups != 1) {
        w.fail("finalise", strf("subsystem cleanup ran %d times", sysCleanups));
    }
}

// ---------------------------------------------------------------------
void hostCallback(int fn, NKVMFunctionCallbackData *d)
{
    NKVM *vm = d->vm;
    Node *n = nodeOf(vm);
    World &w = n->w;
    n->hostCalls++;
    struct Depth { int &d; Depth(int &x) : d(x) { d++; } ~Depth() { d--; } } depth(n->hostDepth);
    if(nkxVmHasAllocationFailure(vm)) { w.fail("failed-vm-acts", strf("%s was called from script after an allocation failure", g_hostFns[fn].name)); return; }
    // (The host itself may call a host function through the VM.)
    if(n->tolerant && n->hostDepth == 1 && nkxVmHasErrors(vm)) return;
    if(nkxVmHasErrors(vm)) { w.fail("failed-vm-acts", strf("%s was called from script after an error", g_hostFns[fn].name)); return; }
    if(n->hook) n->hook(*n, fn, d);
    if(w.bad() || nkxVmHasErrors(vm)) return;
    // Copies: nested calls may move the stack the arguments live on.
    std::vector<NKValue> a(d->arguments, d->arguments + d->argumentCount);
    const HostFnInfo &h = g_hostFns[fn];
    if(h.argc >= 0 && (int)a.size() != h.argc) {
        if(n->tolerant) return;
        if(n->opt.untyped) {
            nkxAddError(vm, "host function called with an incorrect number of arguments");
        } else {
            w.fail("call-contract", strf("%s called with %zu arguments past the argument check", h.name, a.size()));
        }
        return;
    }
    for(int i = 0; h.argc >= 0 && i < h.argc; i++) {
        char t = h.types[i];
        bool ok = true;
        if(t == 'I') ok = a[i].type == NK_VALUETYPE_INT;
        if(t == 'S') ok = a[i].type == NK_VALUETYPE_STRING;
        if(t == 'O' || t == 'R') ok = a[i].type == NK_VALUETYPE_OBJECTID;
        if(t == 'R' && ok) ok = nkxVmObjectGetExternalType(vm, &a[i]).id == n->tRes.id;
        if(!ok) {
            if(n->tolerant) return;
            if(n->opt.untyped) nkxAddError(vm, "Incorrect argument type in call to host function");
            else w.fail("call-contract", strf("%s got argument %d of a type it does not accept", h.name, i));
            return;
        }
    }
    NKValue r = nkInt(0);
    auto isObj = [](NKValue &v) { return v.type == NK_VALUETYPE_OBJECTID; };
    switch(fn) {
        case H_OUT: {
            Str s = "out";
            for(auto &v : a) s += " " + n->valStr(v);
            n->ev.push_back(s);
            r = nkInt((int)a.size());
        } break;
        case H_DUMP: n->ev.push_back("dump " + n->dumpValue(a[0])); break;
        case H_ISOBJ: r = nkInt(isObj(a[0])); break;
        case H_ISFN: r = nkInt(a[0].type == NK_VALUETYPE_FUNCTIONID); break;
        case H_HCALL: {
            if(a.empty() || a[0].type != NK_VALUETYPE_FUNCTIONID) { nkxAddError(vm, "hcall: non-function"); break; }
            NKValue ret = nkNil();
            w.count("action.host_call_into_script");
            nkxVmCallFunction(vm, &a[0], (uint32_t)a.size() - 1, a.data() + 1, &ret);
            if(nkxVmHasErrors(vm)) return;
            n->ev.push_back("hcall-> " + n->valStr(ret));
            r = ret;
        } break;
        case H_HCALLV: {
            // The same, by a host that does not care what is returned.
            if(a.empty() || a[0].type != NK_VALUETYPE_FUNCTIONID) { nkxAddError(vm, "hcall: non-function"); break; }
            w.count("action.host_call_into_script");
            nkxVmCallFunction(vm, &a[0], (uint32_t)a.size() - 1, a.size() > 1 ? a.data() + 1 : nullptr, nullptr);
            if(nkxVmHasErrors(vm)) return;
            n->ev.push_back("hcallv");
            r = nkInt((int)a.size());
        } break;
        case H_EXTNEW: {
            NKValue o = nkNil();
            nkxCreateObject(vm, &o);
            if(nkxVmHasErrors(vm) || o.type != NK_VALUETYPE_OBJECTID) return;
            bool box = a[0].intData & 1;
            if(!nkxVmObjectSetExternalType(vm, &o, box ? n->tBox : n->tRes)) return;
            Ext *e = new Ext();
            e->box = box;
            e->uid = n->nextUid++;
            e->data = a[1].intData;
            e->link = nkNil();
            if(!nkxVmObjectSetExternalData(vm, &o, e)) { delete e; return; }
            n->exts[e] = 1;
            if(n->opt.blobs) e->blob = nkxMalloc(vm, 24);
            r = o;
        } break;
        case H_EXTTAG: { Ext *e = n->extOf(a[0]); r = nkInt(e ? e->data : -1); } break;
        case H_EXTSET: { Ext *e = n->extOf(a[0]); if(e) { e->data = a[1].intData; r = nkInt(1); } } break;
        case H_EXTLINK: { Ext *e = n->extOf(a[0]); if(e && e->box) { e->link = a[1]; r = nkInt(1); } } break;
        case H_EXTLINKGET: { Ext *e = n->extOf(a[0]); r = e && e->box ? e->link : nkNil(); } break;
        case H_HOLD: {
            int s = (unsigned)a[0].intData % NSLOTS;
            if(n->slotUsed[s]) {
                nkxVmObjectReleaseHandle(vm, &n->slots[s]);
                n->slotUsed[s] = false;
                n->slots[s] = nkNil();
            }
            if(isObj(a[1])) {
                nkxVmObjectAcquireHandle(vm, &a[1]);
                n->slots[s] = a[1];
                n->slotUsed[s] = true;
                r = nkInt(1);
            }
        } break;
        case H_HELD: {
            int s = (unsigned)a[0].intData % NSLOTS;
            r = n->slotUsed[s] ? n->slots[s] : nkNil();
        } break;
        case H_DROP: {
            int s = (unsigned)a[0].intData % NSLOTS;
            if(n->slotUsed[s]) {
                nkxVmObjectReleaseHandle(vm, &n->slots[s]);
                n->slotUsed[s] = false;
                n->slots[s] = nkNil();
                r = nkInt(1);
            }
        } break;
        case H_HCOUNT: if(isObj(a[0])) r = nkInt((int)nkxVmObjectGetExternalHandleCount(vm, &a[0])); break;
        case H_GCNOW:
            w.count("action.gc_from_callback");
            nkxVmGarbageCollect(vm);
            n->ev.push_back("live" + n->liveUids());
            break;
        case H_FP:
            if(n->fpCount++ == n->opt.fpArm) {
                w.count("fault.host_function_error");
                nkxAddError(vm, "simulated host failure");
                return;
            }
            r = nkInt(n->fpCount);
            break;
        case H_HSET: {
            if(a[2].type == NK_VALUETYPE_NIL) { nkxVmObjectClearEntry(vm, &a[0], &a[1]); break; }
            NKValue *x = nkxVmObjectFindOrAddEntry(vm, &a[0], &a[1], nkfalse);
            if(x) { *x = a[2]; r = nkInt(1); }
            else if(!nkxVmHasErrors(vm)) w.fail("object-map", "adding an entry gave no entry and no error");
        } break;
        case H_HGET: {
            NKValue *x = nkxVmObjectFindOrAddEntry(vm, &a[0], &a[1], nktrue);
            r = x ? *x : nkNil();
        } break;
        case H_HDEL: nkxVmObjectClearEntry(vm, &a[0], &a[1]); break;
        case H_HSIZE: r = nkInt((int)nkxVmObjectGetSize(vm, &a[0])); break;
        case H_HNEW: {
            NKValue o = nkNil();
            nkxCreateObject(vm, &o);
            if(nkxVmHasErrors(vm) || o.type != NK_VALUETYPE_OBJECTID) return;
            if(a[0].type != NK_VALUETYPE_NIL) {
                NKValue k = nkNil();
                nkxValueSetString(vm, &k, "k0");
                if(nkxVmHasErrors(vm)) return;
                NKValue *x = nkxVmObjectFindOrAddEntry(vm, &o, &k, nkfalse);
                if(!x) return;
                *x = a[0];
            }
            r = o;
        } break;
        case H_TICK: n->ev.push_back("tick"); break;
        case H_HERR: {
            const char *s = nkxValueToString(vm, &a[0]);
            if(!s) return;
            w.count("fault.host_function_error");
            nkxAddError(vm, s);
            return;
        }
        case H_TAKEINT: r = nkInt(a[0].intData % 1000); break;
        case H_TAKERES: { Ext *e = n->extOf(a[0]); r = nkInt(e ? e->data : -1); } break;
        case H_EXTSETTYPE: break;
    }
    if(nkxVmHasAllocationFailure(vm)) return;
    d->returnValue = r;
}
