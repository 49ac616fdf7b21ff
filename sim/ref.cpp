#include "ref.hpp"
#include <cmath>

const HostFnInfo g_hostFns[H_COUNT] = {
    { "out", -1, "" }, { "dump", 1, "A" }, { "isobj", 1, "A" }, { "isfn", 1, "A" },
    { "hcall", -1, "" }, { "extnew", 2, "II" }, { "exttag", 1, "A" }, { "extset", 2, "AI" },
    { "extlink", 2, "AA" }, { "extlinkget", 1, "A" }, { "hold", 2, "IA" }, { "held", 1, "I" },
    { "drop", 1, "I" }, { "hcount", 1, "A" }, { "gcnow", 0, "" }, { "fp", 0, "" },
    { "hset", 3, "OAA" }, { "hget", 2, "OA" }, { "hdel", 2, "OA" }, { "hsize", 1, "O" },
    { "hnew", 1, "A" }, { "tick", 0, "" }, { "herr", 1, "S" }, { "takeint", 1, "I" },
    { "takeres", 1, "R" }, { "extsettype", 1, "A" }, { "hcallv", -1, "" }
};

const std::vector<RV> &keyUniverse()
{
    static std::vector<RV> k;
    if(k.empty()) {
        for(int i = -7; i <= 23; i++) k.push_back(RV::Int(i));
        for(int i = 0; i < 8; i++) k.push_back(RV::S(strf("k%d", i)));
        k.push_back(RV::Flt(0.5f)); k.push_back(RV::Flt(1.5f)); k.push_back(RV::Flt(2.5f));
        k.push_back(RV::S("next")); k.push_back(RV::S("m")); k.push_back(RV::S("_exec")); k.push_back(RV::S("_data"));
        // Chosen to share hash buckets with small integers (int keys hash to themselves).
        k.push_back(RV::Int(256)); k.push_back(RV::Int(257)); k.push_back(RV::Int(4096));
    }
    return k;
}

static Str keyStr(const RV &k)
{
    switch(k.t) {
        case R_INT: return strf("%d", k.i);
        case R_FLOAT: return strf("%gf", k.f);
        default: return k.s;
    }
}

Str canonicalDump(DumpSource &s, const std::vector<std::pair<Str, const void *>> &roots)
{
    Str out;
    std::map<uint64_t, int> num;
    std::vector<const void *> order;
    size_t done = 0;
    auto ref = [&](const void *v) -> Str {
        Str prim;
        if(!s.isObj(v, prim)) return prim;
        uint64_t id = s.objId(v);
        auto it = num.find(id);
        if(it == num.end()) {
            it = num.insert(std::make_pair(id, (int)order.size())).first;
            order.push_back(v);
        }
        return strf("#%d", it->second);
    };
    for(auto &r : roots) {
        out += r.first + "=" + ref(r.second) + "\n";
    }
    while(done < order.size() && order.size() < 3000) {
        const void *v = order[done];
        out += strf("#%d%s {", (int)done, s.objHeader(v).c_str());
        done++;
        for(auto &k : keyUniverse()) {
            const void *x = s.getKey(v, k);
            if(x) out += " " + keyStr(k) + ":" + ref(x);
        }
        for(size_t i = 0; i < done && i < 12; i++) {
            const void *x = s.getObjKey(v, order[i]);
            if(x) out += strf(" [#%d]:", (int)i) + ref(x);
        }
        const void *l = s.getLink(v);
        if(l) out += " link:" + ref(l);
        out += " }\n";
    }
    return out;
}

// ---------------------------------------------------------------------
void Ref::init(const Prog &pr)
{
    p = &pr;
    g.assign(pr.globals.size(), RV::Int(0));
    heap.clear();
    ctx.assign(1, RCtx());
    ctx[0].fr.push_back(RFrame{0, 0, 0, false});
    cur = 0;
}

bool Ref::finished() const
{
    if(err) return true;
    const RCtx &c = ctx[cur];
    if(cur != 0 || c.fr.size() != 1) return false;
    return p->fns[0].code[c.fr[0].pc].op == O_END;
}

Str Ref::valStr(const RV &v) const
{
    switch(v.t) {
        case R_INT: return strf("%d", v.i);
        case R_FLOAT: return strf("%.9gf", v.f);
        case R_STR: return v.s.size() > 3000 ? strf("longstr%zu", v.s.size()) : "\"" + v.s + "\"";
        case R_FN: return "fn";
        case R_NIL: return "nil";
        default: {
            const RObj &o = heap[v.i];
            if(o.kind == K_CORO) return "coro";
            if(o.kind == K_RES) return strf("res%d:%d", o.uid, o.data);
            if(o.kind == K_BOX) return strf("box%d:%d", o.uid, o.data);
            return "obj";
        }
    }
}

struct RefDump : DumpSource
{
    const Ref &r;
    std::vector<std::unique_ptr<RV>> keep;
    explicit RefDump(const Ref &rr) : r(rr) { }
    const RV &V(const void *v) { return *(const RV *)v; }
    bool isObj(const void *v, Str &prim) override
    {
        if(V(v).t == R_OBJ) return true;
        prim = r.valStr(V(v));
        return false;
    }
    uint64_t objId(const void *v) override { return (uint64_t)V(v).i; }
    Str objHeader(const void *v) override
    {
        const RObj &o = r.heap[V(v).i];
        return strf("(%s n%d h%d)", r.valStr(V(v)).c_str(), (int)o.f.size(), o.handles);
    }
    const void *getKey(const void *v, const RV &k) override
    {
        auto &f = r.heap[V(v).i].f;
        auto it = f.find(k);
        return it == f.end() ? nullptr : &it->second;
    }
    const void *getObjKey(const void *v, const void *k) override { return getKey(v, V(k)); }
    const void *getLink(const void *v) override
    {
        const RObj &o = r.heap[V(v).i];
        return o.kind == K_BOX ? &o.link : nullptr;
    }
};

Str Ref::dumpValue(const RV &v) const
{
    RefDump d(*this);
    std::vector<std::pair<Str, const void *>> roots;
    roots.push_back(std::make_pair(Str("v"), (const void *)&v));
    return canonicalDump(d, roots);
}

Str Ref::finalDump() const
{
    RefDump d(*this);
    std::vector<std::pair<Str, const void *>> roots;
    for(size_t i = 0; i < p->globals.size(); i++) roots.push_back(std::make_pair(p->globals[i], (const void *)&g[i]));
    for(int i = 0; i < NSLOTS; i++) roots.push_back(std::make_pair(strf("slot%d", i), (const void *)&slots[i]));
    return canonicalDump(d, roots);
}

std::set<int> Ref::reachable() const
{
    std::set<int> seen;
    std::vector<int> work;
    auto add = [&](const RV &v) { if(v.t == R_OBJ && seen.insert(v.i).second) work.push_back(v.i); };
    auto addCtx = [&](int c) {
        for(auto &v : ctx[c].st) add(v);
        if(ctx[c].parent >= 0 && ctx[ctx[c].parent].obj >= 0) add(RV::Obj(ctx[ctx[c].parent].obj));
    };
    for(auto &v : g) add(v);
    addCtx(0);
    if(ctx[cur].obj >= 0) add(RV::Obj(ctx[cur].obj));
    for(size_t i = 0; i < heap.size(); i++) if(heap[i].handles > 0) add(RV::Obj((int)i));
    while(!work.empty()) {
        int o = work.back();
        work.pop_back();
        for(auto &kv : heap[o].f) { add(kv.first); add(kv.second); }
        if(heap[o].kind == K_CORO && heap[o].ctx >= 0) addCtx(heap[o].ctx);
        if(heap[o].kind == K_BOX) add(heap[o].link);
    }
    return seen;
}

int Ref::toInt(const RV &v)
{
    switch(v.t) {
        case R_INT: return v.i;
        case R_FLOAT: return (int)v.f;
        case R_STR: return (int)atol(v.s.c_str());
        case R_OBJ: return 1;
        case R_FN: error("Cannot convert type function"); return 0;
        default: return 0;
    }
}

float Ref::toFloat(const RV &v)
{
    switch(v.t) {
        case R_INT: return (float)v.i;
        case R_FLOAT: return v.f;
        case R_STR: return (float)atof(v.s.c_str());
        case R_NIL: return 0;
        default: error("Cannot convert type"); return 0;
    }
}

Str Ref::toStr(const RV &v)
{
    switch(v.t) {
        case R_INT: return strf("%d", v.i);
        case R_FLOAT: return strf("%f", v.f);
        case R_STR: return v.s;
        case R_NIL: return "<nil:0>";
        default: return v.t == R_OBJ ? "<object:" : "<function:"; // (ids are not modelled)
    }
}

void Ref::doCall(int argc, bool boundary)
{
    RCtx &c = ctx[cur];
    size_t fi = c.st.size() - argc - 1;
    RV fn = c.st[fi];
    int redir = 0;
    while(fn.t == R_OBJ) {
        if(++redir > 10) { error("Too many callable object redirections"); return; }
        RV *ex = field(fn.i, RV::S("_exec"));
        RV *da = field(fn.i, RV::S("_data"));
        RV next = ex ? *ex : RV();
        if(da) { RV d = *da; c.st.insert(c.st.begin() + fi + 1, d); argc++; }
        fn = next;
    }
    if(fn.t != R_FN) { error("not a function id or a callable object"); return; }
    if(fn.i < HOSTBASE) {
        const FnDef &d = p->fns[fn.i];
        if((int)d.ptypes.size() != argc) { error("Incorrect argument count for function call"); return; }
        calls++;
        c.fr.push_back(RFrame{fn.i, 0, (int)fi + 1, boundary});
    } else {
        const HostFnInfo &h = g_hostFns[fn.i - HOSTBASE];
        if(h.argc >= 0 && h.argc != argc) { error("with an incorrect number of arguments"); return; }
        std::vector<RV> a(c.st.end() - argc, c.st.end());
        for(int i = 0; h.argc >= 0 && i < argc; i++) {
            char t = h.types[i];
            if(t == 'I' && a[i].t != R_INT) { error("Incorrect argument type in call to"); return; }
            if(t == 'S' && a[i].t != R_STR) { error("Incorrect argument type in call to"); return; }
            if(t == 'O' && a[i].t != R_OBJ) { error("Incorrect argument type in call to"); return; }
            if(t == 'R') {
                if(a[i].t != R_OBJ) { error("Incorrect argument type in call to"); return; }
                if(heap[a[i].i].kind != K_RES) { error("Bad external object type passed"); return; }
            }
        }
        hostDepth++;
        RV r = hostCall(fn.i - HOSTBASE, a);
        hostDepth--;
        RCtx &c2 = ctx[cur];
        if(err) return;
        c2.st.resize(fi);
        c2.st.push_back(r);
    }
}

RV Ref::hostCall(int fn, std::vector<RV> &a)
{
    RV r = RV::Int(0);
    switch(fn) {
        case H_OUT: {
            Str s = "out";
            for(auto &v : a) s += " " + valStr(v);
            ev.push_back(s);
            r = RV::Int((int)a.size());
        } break;
        case H_DUMP: ev.push_back("dump " + dumpValue(a[0])); break;
        case H_ISOBJ: r = RV::Int(a[0].t == R_OBJ); break;
        case H_ISFN: r = RV::Int(a[0].t == R_FN); break;
        case H_HCALLV:
        case H_HCALL: {
            if(a.empty() || a[0].t != R_FN) { error("non-function"); break; }
            hcalls++;
            int c0 = cur, id0 = curId;
            for(auto &v : a) ctx[c0].st.push_back(v);
            size_t depth = ctx[c0].fr.size();
            doCall((int)a.size() - 1, true);
            if(err) break;
            if(ctx[c0].fr.size() > depth) { run((int)depth, c0); }
            if(err || capped) break;
            curId = id0;
            r = ctx[c0].st.back();
            ctx[c0].st.pop_back();
            if(fn == H_HCALLV) { r = RV::Int((int)a.size()); ev.push_back("hcallv"); break; }
            ev.push_back("hcall-> " + valStr(r));
        } break;
        case H_EXTNEW: {
            int o = newObj();
            heap[o].kind = (a[0].i & 1) ? K_BOX : K_RES;
            heap[o].uid = nextUid++;
            heap[o].data = a[1].i;
            r = RV::Obj(o);
        } break;
        case H_EXTTAG:
            r = RV::Int(-1);
            if(a[0].t == R_OBJ && heap[a[0].i].kind >= K_RES) r = RV::Int(heap[a[0].i].data);
            break;
        case H_EXTSET:
            if(a[0].t == R_OBJ && heap[a[0].i].kind >= K_RES) { heap[a[0].i].data = a[1].i; r = RV::Int(1); }
            break;
        case H_EXTLINK:
            if(a[0].t == R_OBJ && heap[a[0].i].kind == K_BOX) { heap[a[0].i].link = a[1]; r = RV::Int(1); }
            break;
        case H_EXTLINKGET:
            r = RV();
            if(a[0].t == R_OBJ && heap[a[0].i].kind == K_BOX) r = heap[a[0].i].link;
            break;
        case H_HOLD: {
            int s = (unsigned)a[0].i % NSLOTS;
            if(slots[s].t == R_OBJ) { heap[slots[s].i].handles--; slots[s] = RV(); }
            if(a[1].t == R_OBJ) { slots[s] = a[1]; heap[a[1].i].handles++; r = RV::Int(1); }
        } break;
        case H_HELD: r = slots[(unsigned)a[0].i % NSLOTS]; break;
        case H_DROP: {
            int s = (unsigned)a[0].i % NSLOTS;
            if(slots[s].t == R_OBJ) { heap[slots[s].i].handles--; slots[s] = RV(); r = RV::Int(1); }
        } break;
        case H_HCOUNT: if(a[0].t == R_OBJ) r = RV::Int(heap[a[0].i].handles); break;
        case H_GCNOW: {
            Str s = "live";
            std::vector<int> u;
            for(int o : reachable()) if(heap[o].kind >= K_RES) u.push_back(heap[o].uid);
            std::sort(u.begin(), u.end());
            for(int x : u) s += strf(" %d", x);
            ev.push_back(s);
        } break;
        case H_FP:
            if(fpCount++ == fpArm) { error("simulated host failure"); }
            r = RV::Int(fpCount);
            break;
        case H_HSET: {
            // Returns 1 when stored, 0 when refused by the field limit.
            if(a[2].t == R_NIL) { heap[a[0].i].f.erase(a[1]); break; }
            if(!field(a[0].i, a[1]) && heap[a[0].i].f.size() >= fieldLimit) {
                error("Reached object field count limit");
                break;
            }
            heap[a[0].i].f[a[1]] = a[2];
            r = RV::Int(1);
        } break;
        case H_HGET: {
            RV *x = field(a[0].i, a[1]);
            r = x ? *x : RV();
        } break;
        case H_HDEL: heap[a[0].i].f.erase(a[1]); break;
        case H_HSIZE: r = RV::Int((int)heap[a[0].i].f.size()); break;
        case H_HNEW: {
            int o = newObj();
            if(a[0].t != R_NIL) heap[o].f[RV::S("k0")] = a[0];
            r = RV::Obj(o);
        } break;
        case H_TICK: ev.push_back("tick"); break;
        case H_HERR: error(a[0].s); break;
        case H_TAKEINT: r = RV::Int(a[0].i % 1000); break;
        case H_TAKERES: r = RV::Int(heap[a[0].i].data); break;
        case H_EXTSETTYPE: break;
    }
    return r;
}

int Ref::cmp(const RV &a, const RV &b)
{
    if(a.t == R_NIL) return b.t == R_NIL ? 0 : 1;
    if(b.t == R_NIL) return -1;
    switch(a.t) {
        case R_INT: { int o = toInt(b); return a.i > o ? 1 : a.i == o ? 0 : -1; }
        case R_FLOAT: { float o = toFloat(b); return a.f > o ? 1 : a.f == o ? 0 : -1; }
        case R_STR: { int c = a.s.compare(toStr(b)); return c > 0 ? 1 : c == 0 ? 0 : -1; }
        default: return a.t == b.t && a.i == b.i ? 0 : 1;
    }
}

void Ref::step()
{
    steps++;
    if(steps > cap || heap.size() > heapCap) { capped = true; return; }
    RCtx *c = &ctx[cur];
    RFrame &f = c->fr.back();
    const Op &op = p->fns[f.fn].code[f.pc];
    auto &st = c->st;
    if(st.size() > maxLive) maxLive = st.size();
    f.pc++;
    curId = op.id;
    switch(op.op) {
        case O_CONST: st.push_back(op.v); break;
        case O_GGET: st.push_back(g[op.a]); break;
        case O_GSET: g[op.a] = st.back(); st.pop_back(); break;
        case O_LGET: { RV v = st[f.base + op.a]; st.push_back(v); } break;
        case O_LSET: st[f.base + op.a] = st.back(); st.pop_back(); break;
        case O_POP: st.resize(st.size() - op.a); break;
        case O_NEG: {
            RV &v = st.back();
            if(v.t == R_INT) v.i = -v.i; else if(v.t == R_FLOAT) v.f = -v.f; else error("Negation unimplemented");
        } break;
        case O_NOT: { RV v = st.back(); st.back() = RV::Int(!toInt(v)); } break;
        case O_BIN: {
            RV b = st.back(); st.pop_back();
            RV a = st.back(); st.pop_back();
            RV r = RV::Int(0);
            switch(op.a) {
                case '+':
                    if(a.t == R_INT) r = RV::Int(a.i + toInt(b));
                    else if(a.t == R_FLOAT) r = RV::Flt(a.f + toFloat(b));
                    else if(a.t == R_STR) r = RV::S(a.s + toStr(b));
                    else error("Addition unimplemented");
                    break;
                case '-':
                    if(a.t == R_INT) r = RV::Int(a.i - toInt(b));
                    else if(a.t == R_FLOAT) r = RV::Flt(a.f - toFloat(b));
                    else error("Subtraction unimplemented");
                    break;
                case '*':
                    if(a.t == R_INT) r = RV::Int(a.i * toInt(b));
                    else if(a.t == R_FLOAT) r = RV::Flt(a.f * toFloat(b));
                    else error("Multiplication unimplemented");
                    break;
                case '/':
                    if(a.t == R_INT) { int d = toInt(b); if(err) break; if(!d) error("divide-by-zero"); else r = RV::Int(a.i / d); }
                    else if(a.t == R_FLOAT) r = RV::Flt(a.f / toFloat(b));
                    else error("Division unimplemented");
                    break;
                case '%':
                    if(a.t == R_INT) { int d = toInt(b); if(err) break; if(!d) error("divide-by-zero"); else r = RV::Int(a.i % d); }
                    else error("Modulo unimplemented");
                    break;
                case '<': r = RV::Int(cmp(a, b) == -1); break;
                case '>': r = RV::Int(cmp(a, b) == 1); break;
                case 'l': { int x = cmp(a, b); r = RV::Int(x == 0 || x == -1); } break;
                case 'g': { int x = cmp(a, b); r = RV::Int(x == 0 || x == 1); } break;
                case '=': r = RV::Int(cmp(a, b) == 0); break;
                case '!': r = RV::Int(cmp(a, b) != 0); break;
                case 'e': r = RV::Int(a.t == b.t && cmp(a, b) == 0); break;
                case '&': { bool y = toInt(b) != 0, x = toInt(a) != 0; r = RV::Int(x && y); } break;
                case '|': { bool y = toInt(b) != 0, x = toInt(a) != 0; r = RV::Int(x || y); } break;
            }
            st.push_back(r);
        } break;
        case O_JZ: { RV v = st.back(); st.pop_back(); if(!toInt(v)) f.pc += op.a; } break;
        case O_JMP: f.pc += op.a; break;
        case O_CALL: doCall(op.a, false); break;
        case O_SELFGET: {
            RV o = st.back(); st.pop_back();
            if(o.t != R_OBJ) { error("not an object"); break; }
            RV *x = field(o.i, op.v);
            st.push_back(x ? *x : RV());
            st.push_back(o);
        } break;
        case O_RET: {
            RV v = st.back();
            RFrame fr = c->fr.back();
            st.resize(fr.base - 1);
            c->fr.pop_back();
            if(c->fr.empty()) {
                c->state = C_FINISHED;
                int par = c->parent;
                c->parent = -1;
                cur = par;
                switches++;
                ctx[cur].st.push_back(v);
            } else {
                st.push_back(v);
            }
        } break;
        case O_NEWOBJ: { int o = newObj(); ctx[cur].st.push_back(RV::Obj(o)); } break;
        case O_FGET: {
            RV k = st.back(); st.pop_back();
            RV o = st.back(); st.pop_back();
            if(o.t != R_OBJ) { error("not an object"); break; }
            RV *x = field(o.i, k);
            st.push_back(x ? *x : RV());
        } break;
        case O_FSET: {
            RV k = st.back(); st.pop_back();
            RV o = st.back(); st.pop_back();
            RV v = st.back(); st.pop_back();
            if(o.t != R_OBJ) { error("not an object"); break; }
            if(v.t == R_NIL) heap[o.i].f.erase(k);
            else {
                if(!field(o.i, k) && heap[o.i].f.size() >= fieldLimit) { error("Reached object field count limit"); break; }
                heap[o.i].f[k] = v;
            }
            st.push_back(v);
        } break;
        case O_COCREATE: {
            creates++;
            RCtx n;
            n.st.assign(st.end() - op.a - 1, st.end());
            st.resize(st.size() - op.a - 1);
            n.state = C_CREATED;
            int o = newObj();
            heap[o].kind = K_CORO;
            n.obj = o;
            heap[o].ctx = (int)ctx.size();
            st.push_back(RV::Obj(o));
            int save = cur;
            ctx.push_back(n);
            cur = (int)ctx.size() - 1;
            ctx[cur].parent = save;
            doCall(op.a, false);
            if(err) break;
            if(ctx[cur].fr.empty()) ctx[cur].state = C_FINISHED; // a host function has run already
            ctx[cur].parent = -1;
            cur = save;
        } break;
        case O_YIELD: {
            if(cur == 0) { error("yield from the root"); break; }
            bool cross = false;
            for(auto &fr : c->fr) if(fr.host) cross = true;
            if(cross) { error("yield across"); break; }
            RV v = st.back(); st.pop_back();
            cur = c->parent;
            c->parent = -1;
            switches++;
            ctx[cur].st.push_back(v);
        } break;
        case O_RESUME: {
            RV v = st.back(); st.pop_back();
            RV o = st.back(); st.pop_back();
            if(o.t != R_OBJ || heap[o.i].kind != K_CORO) { error("not a coroutine"); break; }
            int n = heap[o.i].ctx;
            if(ctx[n].state == C_FINISHED) { st.push_back(RV()); break; }
            if(ctx[n].parent >= 0) { error("active coroutine"); break; }
            ctx[n].parent = cur;
            cur = n;
            switches++;
            if(ctx[n].state == C_CREATED) ctx[n].state = C_RUNNING;
            else ctx[n].st.push_back(v);
        } break;
        case O_ISFIN: {
            RV o = st.back(); st.pop_back();
            if(o.t != R_OBJ || heap[o.i].kind != K_CORO) { error("wrong object type"); break; }
            st.push_back(RV::Int(ctx[heap[o.i].ctx].state == C_FINISHED));
        } break;
        case O_LEN: {
            RV o = st.back(); st.pop_back();
            if(o.t != R_OBJ) { error("Non-object"); break; }
            st.push_back(RV::Int((int)heap[o.i].f.size()));
        } break;
        case O_END: f.pc--; break;
    }
}

void Ref::run(int stopFrames, int stopCtx)
{
    while(!err && !capped) {
        if(stopFrames >= 0) {
            if(cur == stopCtx && (int)ctx[cur].fr.size() == stopFrames) return;
        } else if(finished()) {
            return;
        }
        step();
    }
}
