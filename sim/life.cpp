#include "life.hpp"

Life drawLife(World &w, bool allowRestore, bool limits)
{
    Life l;
    Tape &t = w.t;
    l.m = makeModel(w, pickGen(t));
    if(!l.m.usable) return l;
    int n = 3 + (int)t.draw(14);
    for(int i = 0; i < n; i++) {
        Act a;
        static const int mix[] = { A_ITER, A_ITER, A_ITER, A_ITER, A_GC, A_SHRINK, A_SAVE, A_LOOK, A_OBJ, A_OBJ, A_BLOCK, A_STR, A_DUMPSTATE, A_ERRTEXT, A_RUN, A_CALL, A_EXT, A_DROP, A_ITER, A_LIMIT };
        a.k = mix[t.draw(20)];
        if(a.k == A_LIMIT && !limits) a.k = A_ITER;
        a.a = t.draw(1000);
        a.b = t.draw(1000);
        a.c = t.draw(1000);
        l.acts.push_back(a);
    }
    if(t.chance(1, 8)) { Act a = { A_ADDERR, 0, 0, 0 }; l.acts.push_back(a); Act b = { A_SAVE, 0, 0, 0 }; l.acts.push_back(b); }
    if(allowRestore && t.chance(1, 2)) {
        Node p(w, NodeOpt(), "origin");
        if(!p.build(l.m.p)) { w.fail("compile", "a valid program was rejected: " + p.errors()); return l; }
        uint64_t k = t.draw(3000) % (l.m.r.steps * 3 + 1);
        for(uint64_t i = 0; i < k && !p.hasErr() && !p.ended(); i++) p.iterate(1);
        Stream s;
        if(!p.save(s)) { w.fail("snapshot", "saving failed: " + p.errors()); return l; }
        l.image = s.data;
        l.restored = true;
        p.destroy();
    }
    return l;
}

static void act(Node &n, const Life &l, const Act &a, Trace &t, std::vector<NKValue> &held, std::vector<std::pair<void *, uint32_t>> &blocks)
{
    NKVM *vm = n.vm;
    World &w = n.w;
    switch(a.k) {
        case A_ITER: n.iterate(1 + a.a % (a.b % 3 ? 30 : 600)); break;
        case A_GC: nkxVmGarbageCollect(vm); break;
        case A_SHRINK: nkxVmShrink(vm); break;
        case A_SAVE: {
            Stream s;
            bool had = n.hasErr();
            bool ok = n.save(s);
            if(!ok && !had && !n.hasErr()) w.fail("snapshot", "saving failed without an error");
            w.mix(s.data.data(), s.data.size());
        } break;
        case A_LOOK: lookAt(n, l.m, a.a % 9 == 2 ? 1 : a.a); break;
        case A_OBJ: {
            NKValue o = nkNil(), k = nkNil(), v = nkNil();
            nkxCreateObject(vm, &o);
            if(n.oom() || o.type != NK_VALUETYPE_OBJECTID) break;
            nkxVmObjectAcquireHandle(vm, &o);
            held.push_back(o);
            uint32_t cnt = a.a % 12;
            for(uint32_t i = 0; i < cnt && !n.oom(); i++) {
                if((a.b + i) % 3 == 0) nkxValueSetInt(vm, &k, (int)(i * 17));
                else { nkxValueSetString(vm, &k, strf("key%u", (a.b + i) % 40).c_str()); if(n.oom()) return; }
                nkxValueSetString(vm, &v, strf("val%u", (a.c + i) % 300).c_str());
                if(n.oom()) return;
                NKValue *e = nkxVmObjectFindOrAddEntry(vm, &o, &k, nkfalse);
                if(e) *e = v;
                if(a.c % 5 == 0 && i % 2) nkxVmObjectClearEntry(vm, &o, &k);
            }
        } break;
        case A_BLOCK: {
            uint32_t sz = a.a % 4 == 0 ? a.b * 31 : a.b % 100;
            void *p = nullptr;
            switch(a.c % 4) {
                case 0: p = nkxMalloc(vm, sz); break;
                case 1: p = nkxMallocArray(vm, 1 + a.b % 16, sz / 16); sz = (1 + a.b % 16) * (sz / 16); break;
                case 2: p = nkxStrdup(vm, Str(a.b % 200, 'x').c_str()); sz = a.b % 200 + 1; break;
                default:
                    if(!blocks.empty()) {
                        auto &b = blocks[a.b % blocks.size()];
                        uint32_t ns = 1 + a.a;
                        unsigned char first = b.second ? *(unsigned char *)b.first : 0;
                        void *q = a.c % 8 < 4 ? nkxRealloc(vm, b.first, ns) : nkxReallocArray(vm, b.first, 1, ns);
                        if(!q) { if(!n.oom()) w.fail("allocator", "nkxRealloc gave nothing without a failure"); blocks.erase(blocks.begin() + (long)(a.b % blocks.size())); return; }
                        if(b.second && *(unsigned char *)q != first) w.fail("allocator", "nkxRealloc lost the data");
                        b.first = q; b.second = ns;
                        memset(q, 0x42, ns);
                        return;
                    }
            }
            if(p) { if(a.c % 4 != 2) memset(p, 0x42, sz); blocks.push_back(std::make_pair(p, sz)); }
            if(!p && sz && a.c % 4 != 3 && !n.oom()) w.fail("allocator", "an allocation gave nothing without a failure");
        } break;
        case A_STR: {
            NKValue v = nkNil();
            nkxValueSetString(vm, &v, strf("host string %u", a.a).c_str());
            if(n.oom()) return;
            nkxValueSetFloat(vm, &v, (float)a.b * 0.25f);
            const char *s = nkxValueToString(vm, &v);
            if(s) w.ev(s);
        } break;
        case A_DUMPSTATE: lookAt(n, l.m, 2); break;
        case A_ERRTEXT: nkxGetErrorCount(vm); n.errors(); break;
        case A_RUN: for(int i = 0; i < 40 && !n.hasErr() && !n.ended(); i++) n.iterate(100); break;
        case A_CALL: {
            // A script function called from outside any callback.
            if(n.hasErr()) break;
            std::vector<NKValue> fns;
            for(auto &g : l.m.p.globals) {
                NKValue *v = nkxVmFindGlobalVariable(vm, nullptr, g.c_str());
                if(v && v->type == NK_VALUETYPE_FUNCTIONID) fns.push_back(*v);
            }
            if(fns.empty()) break;
            NKValue arg = nkInt((int)a.b), ret = nkNil();
            nkxVmCallFunction(vm, &fns[a.a % fns.size()], a.c % 3 ? 1 : 0, &arg, &ret);
        } break;
        case A_EXT: {
            if(n.opt.skipRes) break;
            NKValue o = nkNil();
            nkxCreateObject(vm, &o);
            if(n.oom() || o.type != NK_VALUETYPE_OBJECTID) break;
            if(!nkxVmObjectSetExternalType(vm, &o, n.tRes)) break;
            Ext *e = new Ext();
            e->link = nkNil();
            e->uid = 50000 + n.nextUid++;
            e->data = (int)a.a;
            if(!nkxVmObjectSetExternalData(vm, &o, e)) { delete e; break; }
            n.exts[e] = 1;
            if(a.b % 2) { nkxVmObjectAcquireHandle(vm, &o); if(!n.oom()) held.push_back(o); }
            if(n.opt.blobs && !n.oom()) e->blob = nkxMalloc(vm, 24);
        } break;
        case A_DROP:
            if(a.a % 2 && !held.empty()) {
                size_t i = a.b % held.size();
                nkxVmObjectReleaseHandle(vm, &held[i]);
                held.erase(held.begin() + (long)i);
            } else if(!blocks.empty()) {
                size_t i = a.b % blocks.size();
                nkxFree(vm, blocks[i].first);
                blocks.erase(blocks.begin() + (long)i);
            }
            break;
        case A_ADDERR: nkxAddError(vm, "host error in the plan"); break;
        default: break;
    }
    (void)t;
}

bool LifeRun::at(const char *where)
{
    if(n.vm && h.boundary) h.boundary(n, where);
    return !n.oom() && !n.w.bad() && !(h.stop && h.stop(n));
}

// One host action; false when there is nothing more to do.
bool LifeRun::step()
{
    World &w = n.w;
    switch(stage) {
        case 0:
            stage = 9;
            if(!n.create()) { at("create"); return false; }
            if(!at("create")) return false;
            stage = 1;
            return true;
        case 1:
            stage = 9;
            if(!n.setup(!l.restored)) { at("setup"); return false; }
            if(!at("setup")) return false;
            stage = l.restored ? 4 : 2;
            return true;
        case 2: {
            stage = 9;
            bool ok = nkxCompilerCompileScript(n.cs, l.m.p.src.c_str(), "sim.nks");
            if(!at("compile")) return false;
            if(!ok) { w.fail("compile", "a valid program was rejected: " + n.errors()); return false; }
            stage = 3;
            return true;
        }
        case 3: {
            stage = 9;
            // Even a failing finalize hands the compiler back.
            NKCompilerState *c = n.cs;
            n.cs = nullptr;
            nkxCompilerFinalize(c);
            if(!at("finalize")) return false;
            n.limits();
            stage = 5;
            return true;
        }
        case 4: {
            stage = 9;
            n.limits();
            Stream s;
            s.data = l.image;
            bool ok = n.load(s);
            if(!at("load")) return false;
            if(!ok && l.mayRefuse) return false;
            if(!ok) { w.fail("restore", "a valid snapshot was refused: " + n.errors()); return false; }
            stage = 5;
            return true;
        }
        case 5:
            if(pos < l.acts.size()) {
                const Act &a = l.acts[pos++];
                act(n, l, a, t, held, blocks);
                if(w.keepLog) w.note(strf("act %zu kind %d: allocs %llu err '%s'", pos, a.k, (unsigned long long)n.alloc.nAllocs, n.vm ? n.errors().c_str() : ""));
                if(!at(strf("act %zu (kind %d)", pos, a.k).c_str())) pos = l.acts.size();
                return true;
            }
            stage = 9;
            // The host frees what it still owns.
            if(!n.oom()) {
                for(auto &b : blocks) nkxFree(n.vm, b.first);
                for(auto &v : held) nkxVmObjectReleaseHandle(n.vm, &v);
                at("release");
            }
            t.ev = n.ev;
            return false;
        default: return false;
    }
}

void live(Node &n, const Life &l, const Hooks &h, Trace &t)
{
    LifeRun r(n, l, h, t);
    while(r.step()) { }
}
