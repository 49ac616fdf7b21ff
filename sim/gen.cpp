// Seeded generator of Ninkasi programs.  Source text and reference code are
// emitted together, so the oracle never parses Ninkasi source.
#include "gen.hpp"

static E lit(const Str &s, const RV &v)
{
    E e;
    e.s = s;
    e.c.push_back(Op{O_CONST, 0, v});
    return e;
}

static void app(Code &a, const Code &b) { a.insert(a.end(), b.begin(), b.end()); }

Gen::Gen(Tape &tt, const GenOpt &oo) : t(tt), o(oo)
{
    fns.resize(1);
    fns[0].name = "<root>";
}

int Gen::addGlobal(const Str &n, char type)
{
    globals.push_back(n);
    gtypes.push_back(type);
    return (int)globals.size() - 1;
}

E Gen::intLit(int lo, int hi)
{
    int v = t.range(0, hi - lo);
    v = v <= hi ? v : hi - v; // 0,1,..hi,-1,..lo: small tape values are simple
    if(v < 0) {
        E e;
        e.s = strf("(-%d)", -v);
        e.c.push_back(Op{O_CONST, 0, RV::Int(v)});
        return e;
    }
    return lit(strf("%d", v), RV::Int(v));
}

E Gen::host(HostFn h, const std::vector<E> &args)
{
    E e;
    e.s = Str(g_hostFns[h].name) + "(";
    e.c.push_back(Op{O_CONST, 0, RV::Fn(HOSTBASE + h)});
    for(size_t i = 0; i < args.size(); i++) {
        e.s += (i ? ", " : "") + args[i].s;
        app(e.c, args[i].c);
    }
    e.s += ")";
    e.c.push_back(Op{O_CALL, (int)args.size(), RV()});
    return e;
}

E Gen::bin(char op, const E &a, const E &b)
{
    const char *s = "?";
    switch(op) {
        case 'l': s = "<="; break; case 'g': s = ">="; break; case '=': s = "=="; break;
        case '!': s = "!="; break; case 'e': s = "==="; break; case '&': s = "&&"; break; case '|': s = "||"; break;
        case '+': s = "+"; break; case '-': s = "-"; break; case '*': s = "*"; break; case '/': s = "/"; break;
        case '%': s = "%"; break; case '<': s = "<"; break; case '>': s = ">"; break;
    }
    E e;
    e.s = "(" + a.s + " " + s + " " + b.s + ")";
    e.c = a.c;
    app(e.c, b.c);
    e.c.push_back(Op{O_BIN, op, RV()});
    return e;
}

E Gen::neg(const E &a)
{
    E e = a;
    e.s = "(-" + a.s + ")";
    e.c.push_back(Op{O_NEG, 0, RV()});
    return e;
}

E Gen::floatLit()
{
    int k = t.draw(12);
    return lit(strf("%.1f", 0.5 * k), RV::Flt(0.5f * k));
}

// A string that is also a number, or starts with one, or does not.
E Gen::numStr()
{
    static const char *n[] = { "0", "12", "-3", "7abc", "x1", "2.5", " 4", "" };
    const char *x = n[t.draw(8)];
    return lit(strf("\"%s\"", x), RV::S(x));
}

// v++ and its relatives; the text reads v, writes it, and yields the old or new value.
E Gen::incDec(Fc &f, bool statement)
{
    auto v = vars(f, "I", true);
    Var x = v[t.draw((uint32_t)v.size())];
    bool dec = t.chance(1, 3);
    bool post = t.chance(1, 2);
    const char *op = dec ? "--" : "++";
    E e;
    e.s = post ? x.name + op : op + x.name;
    if(!statement) e.s = "(" + e.s + ")";
    e.c = readVar(x).c;
    e.c.push_back(Op{O_CONST, 0, RV::Int(1)});
    e.c.push_back(Op{O_BIN, dec ? '-' : '+', RV()});
    e.c.push_back(Op{x.local ? O_LSET : O_GSET, x.idx, RV()});
    app(e.c, readVar(x).c);
    if(post) {
        e.c.push_back(Op{O_CONST, 0, RV::Int(1)});
        e.c.push_back(Op{O_BIN, dec ? '+' : '-', RV()});
    }
    return e;
}

E Gen::resume(Fc &f, const E &co, int d)
{
    E e = co;
    if(t.chance(1, 6)) {
        e.s = "resume(" + co.s + ")";
        e.c.push_back(Op{O_CONST, 0, RV()});
    } else {
        E v = expr(f, 'A', d);
        e.s = "resume(" + co.s + ", " + v.s + ")";
        app(e.c, v.c);
    }
    e.c.push_back(Op{O_RESUME, 0, RV()});
    return e;
}

// All variables of a type readable here: globals then locals.
std::vector<Var> Gen::vars(Fc &f, const char *types, bool writable)
{
    std::vector<Var> r;
    for(size_t i = 0; i < globals.size(); i++) {
        if(strchr(types, gtypes[i])) r.push_back(Var{globals[i], false, (int)i, gtypes[i]});
    }
    for(size_t i = 0; i < f.locals.size(); i++) {
        char ty = f.locals[i].type;
        if(ty == 'c' && !writable) ty = 'I'; // loop counters are read-only ints
        if(strchr(types, ty)) r.push_back(Var{f.locals[i].name, true, (int)i, ty});
    }
    return r;
}

E Gen::readVar(const Var &v)
{
    E e;
    e.s = v.name;
    e.c.push_back(Op{v.local ? O_LGET : O_GGET, v.idx, RV()});
    return e;
}

// Marks the operations from `from` on, and the line of the text that starts
// at `at`, as one statement.
void Gen::stamp(Code &c, size_t from, Str &s, size_t at)
{
    int id = ++stmtId;
    for(size_t i = from; i < c.size(); i++) if(!c[i].id) c[i].id = id;
    s.insert(at, strf("\001%d\002", id));
}

// Takes the marks out of a text again.
static Str unmark(const Str &s, int entry, std::map<int, std::pair<int, int>> *where)
{
    Str r;
    int line = 0;
    for(size_t i = 0; i < s.size(); i++) {
        if(s[i] == '\001') {
            int id = atoi(s.c_str() + i + 1);
            i = s.find('\002', i);
            if(where) (*where)[id] = std::make_pair(entry, line);
            continue;
        }
        if(s[i] == '\n') line++;
        r += s[i];
    }
    return r;
}

void Gen::assign(Fc &f, Code &c, Str &s, const Var &v, const E &e)
{
    size_t from = c.size(), at = s.size();
    s += f.ind() + v.name + " = " + e.s + ";\n";
    app(c, e.c);
    c.push_back(Op{v.local ? O_LSET : O_GSET, v.idx, RV()});
    stamp(c, from, s, at);
}

E Gen::callFn(Fc &f, int j, int d)
{
    E e;
    e.s = fns[j].name + "(";
    e.c.push_back(Op{O_CONST, 0, RV::Fn(j)});
    for(size_t i = 0; i < fns[j].ptypes.size(); i++) {
        E a = expr(f, fns[j].ptypes[i], d - 1);
        e.s += (i ? ", " : "") + a.s;
        app(e.c, a.c);
    }
    e.s += ")";
    e.c.push_back(Op{O_CALL, (int)fns[j].ptypes.size(), RV()});
    return e;
}

int Gen::pickFn(Fc &f, const char *rtypes, bool allowYield)
{
    std::vector<int> c;
    for(size_t j = 1; j < fns.size(); j++) {
        if((int)j <= f.idx) continue;
        if(fns[j].rtype == 'X') continue;
        if(rtypes && !strchr(rtypes, fns[j].rtype)) continue;
        if(fns[j].yields && !allowYield) continue;
        c.push_back((int)j);
    }
    if(c.empty()) return -1;
    return c[t.draw((uint32_t)c.size())];
}

E Gen::keyExpr(Fc &f, int d)
{
    switch(t.draw(o.objKeys ? 9 : 8)) {
        case 7: { // a string that exists only because something made it at run time
            int n = t.draw(4);
            return bin('+', lit(strf("\"d%d_\"", n), RV::S(strf("d%d_", n))), expr(f, 'I', 0));
        }
        case 0: case 1: case 2: { int k = t.draw(8); return lit(strf("\"k%d\"", k), RV::S(strf("k%d", k))); }
        case 3: case 4: return intLit(-7, 7);
        case 5: return bin('%', expr(f, 'I', d - 1), lit("8", RV::Int(8)));
        case 6:
            switch(t.draw(4)) {
                case 0: return lit("1.5", RV::Flt(1.5f));
                case 1: return lit("0.5", RV::Flt(0.5f));
                case 2: return lit("256", RV::Int(256));
                default: return lit("4096", RV::Int(4096));
            }
        default: return expr(f, 'O', 0);
    }
}

E Gen::fieldGet(const E &ob, const E &key)
{
    E e;
    // Sometimes use dotted syntax for plain string keys.
    if(key.c.size() == 1 && key.c[0].op == O_CONST && key.c[0].v.t == R_STR && t.chance(1, 2)) {
        e.s = ob.s + "." + key.c[0].v.s;
    } else {
        e.s = ob.s + "[" + key.s + "]";
    }
    e.c = ob.c;
    app(e.c, key.c);
    e.c.push_back(Op{O_FGET, 0, RV()});
    return e;
}

E Gen::expr(Fc &f, char type, int d)
{
    auto pickVar = [&](const char *ty) -> E {
        auto v = vars(f, ty, false);
        return readVar(v[t.draw((uint32_t)v.size())]);
    };
    switch(type) {
        case 'I': {
            if(d <= 0) return t.chance(1, 2) ? pickVar("I") : intLit(-9, 9);
            switch(t.draw(17)) {
                case 0: return intLit(-20, 20);
                case 1: return pickVar("I");
                case 2: case 3: {
                    static const char ops[] = "+-*";
                    char op = ops[t.draw(3)];
                    E a = expr(f, 'I', d - 1);
                    E b = expr(f, 'I', d - 1);
                    return bin('%', bin(op, a, b), lit("10007", RV::Int(10007)));
                }
                case 4: {
                    int v = 1 + t.draw(9);
                    return bin(t.chance(1, 2) ? '/' : '%', expr(f, 'I', d - 1), lit(strf("%d", v), RV::Int(v)));
                }
                case 5: {
                    static const char ops[] = "<>lg=!&|";
                    char op = ops[t.draw(8)];
                    E a = expr(f, 'I', d - 1);
                    E b = expr(f, 'I', d - 1);
                    if(op == '&' || op == '|') {
                        a = bin('<', a, lit("3", RV::Int(3)));
                        b = bin('>', b, lit("1", RV::Int(1)));
                    }
                    return bin(op, a, b);
                }
                case 6: {
                    E a = expr(f, 'S', 0);
                    E b = expr(f, 'S', d - 1);
                    return bin(t.chance(1, 2) ? '=' : '!', a, b);
                }
                case 7: {
                    if(t.chance(1, 2)) {
                        E e = expr(f, 'O', 0);
                        e.s = "len(" + e.s + ")";
                        e.c.push_back(Op{O_LEN, 0, RV()});
                        return e;
                    }
                    E e = expr(f, 'I', d - 1);
                    e.s = "(!" + e.s + ")";
                    e.c.push_back(Op{O_NOT, 0, RV()});
                    return e;
                }
                case 8: case 9: {
                    int j = pickFn(f, "I", f.yields);
                    if(j < 0) return pickVar("I");
                    return callFn(f, j, d);
                }
                case 10: {
                    if(t.draw(10) < (uint32_t)o.wExt) return host(H_EXTTAG, { expr(f, 'A', 0) });
                    return host(t.chance(1, 3) ? H_ISFN : H_ISOBJ, { expr(f, 'A', d - 1) });
                }
                case 11: {
                    E a = expr(f, 'A', d - 1);
                    E b = expr(f, t.chance(1, 2) ? 'A' : 'O', 0);
                    return bin('e', a, b);
                }
                case 12: return incDec(f, false);
                case 13: return neg(expr(f, 'I', d - 1));
                case 14: { // the left operand decides the type
                    static const char ops[] = "+-*";
                    E a = expr(f, 'I', d - 1);
                    E x = bin(ops[t.draw(3)], a, t.chance(1, 2) ? floatLit() : numStr());
                    return bin('%', x, lit("10007", RV::Int(10007)));
                }
                case 15: { // comparisons between types
                    static const char ops[] = "<>lg=!e";
                    char op = ops[t.draw(7)];
                    switch(t.draw(4)) {
                        case 0: return bin(op, expr(f, 'F', d - 1), expr(f, 'F', 0));
                        case 1: return bin(op, expr(f, 'F', d - 1), t.chance(1, 2) ? expr(f, 'I', 0) : numStr());
                        case 2: return bin(op, expr(f, 'S', d - 1), expr(f, "SIF"[t.draw(3)], 0));
                        default: return bin(op, expr(f, 'I', d - 1), t.chance(1, 2) ? floatLit() : numStr());
                    }
                }
                default: { // truth of anything that has one
                    static const char *ty = "IIOFS";
                    E a = expr(f, ty[t.draw(5)], d - 1);
                    E b = expr(f, ty[t.draw(5)], 0);
                    if(t.chance(1, 8)) b = lit("256", RV::Int(256));
                    return bin("&|"[t.draw(2)], a, b);
                }
            }
        }
        case 'F': {
            if(d <= 0 || t.chance(1, 3)) {
                if(t.chance(1, 2)) return pickVar("F");
                int k = t.draw(8);
                float v = 0.5f * k;
                return lit(strf("%.1f", v), RV::Flt(v));
            }
            if(t.chance(1, 3)) return bin('*', expr(f, 'F', 0), lit("0.5", RV::Flt(0.5f)));
            switch(t.draw(8)) {
                case 4: return neg(expr(f, 'F', d - 1));
                case 5: return bin('/', pickVar("F"), t.chance(1, 2) ? lit("4.0", RV::Flt(4)) : lit("2", RV::Int(2)));
                case 6: return bin("+-"[t.draw(2)], expr(f, 'F', d - 1), t.chance(1, 2) ? expr(f, 'I', 0) : numStr());
                default: break;
            }
            E a = expr(f, 'F', d - 1);
            E b = expr(f, 'F', 0);
            return bin(t.chance(1, 2) ? '+' : '-', a, b);
        }
        case 'S': {
            uint32_t k = d <= 0 ? t.draw(2) : t.draw(7);
            switch(k) {
                case 0: { int n = t.draw(10); return lit(strf("\"s%d\"", n), RV::S(strf("s%d", n))); }
                case 1: return pickVar("S");
                case 2: case 3: {
                    int n = t.draw(6);
                    E a = lit(strf("\"q%d_\"", n), RV::S(strf("q%d_", n)));
                    return bin('+', a, expr(f, 'I', d - 1));
                }
                case 5: { // special characters, written as escapes
                    static const char *src[] = { "\\n", "\\t", "\\r", "\\\"", "\\q", "//", "#" };
                    static const char *val[] = { "\n", "\t", "\r", "\"", "\\q", "//", "#" };
                    uint32_t a = t.draw(7), b = t.draw(7);
                    int n = t.draw(4);
                    Str text = strf("\"e%d%s%s\"", n, src[a], src[b]);
                    if(t.chance(1, 3)) text = strf("\"e%d%s\" \"%s\"", n, src[a], src[b]); // neighbours are one string
                    return lit(text, RV::S(strf("e%d%s%s", n, val[a], val[b])));
                }
                case 6: {
                    int n = t.draw(4);
                    E a = lit(strf("\"y%d_\"", n), RV::S(strf("y%d_", n)));
                    if(t.chance(1, 6)) { E e; e.s = "nil"; e.c.push_back(Op{O_CONST, 0, RV()}); return bin('+', a, e); }
                    return bin('+', a, floatLit());
                }
                default: {
                    int n = t.draw(6);
                    return bin('+', lit(strf("\"z%d_\"", n), RV::S(strf("z%d_", n))), pickVar("S"));
                }
            }
        }
        case 'O': {
            if(d <= 0) return pickVar("O");
            switch(t.draw(6)) {
                case 0: {
                    int j = pickFn(f, "O", f.yields);
                    if(j >= 0) return callFn(f, j, d);
                    return pickVar("O");
                }
                case 1: {
                    E e;
                    e.s = "object()";
                    if(t.chance(1, 2)) e.s = "newobject";
                    e.c.push_back(Op{O_NEWOBJ, 0, RV()});
                    return e;
                }
                case 2:
                    if(t.draw(10) < (uint32_t)o.wHost) return host(H_HNEW, { expr(f, 'A', d - 1) });
                    return pickVar("O");
                case 3:
                    if(t.draw(10) < (uint32_t)o.wExt) return host(H_EXTNEW, { o.links ? intLit(0, 1) : lit("0", RV::Int(0)), expr(f, 'I', 0) });
                    return pickVar("O");
                default: return pickVar("O");
            }
        }
        case 'C': {
            auto v = vars(f, "C", false);
            std::vector<Var> ok;
            for(auto &x : v) {
                if(x.local || rank(x.idx) > f.idx) ok.push_back(x);
            }
            if(ok.empty()) return E();
            return readVar(ok[t.draw((uint32_t)ok.size())]);
        }
        default: { // 'A'
            if(d <= 0) {
                switch(t.draw(4)) {
                    case 0: { E e; e.s = "nil"; e.c.push_back(Op{O_CONST, 0, RV()}); return e; }
                    case 1: return pickVar("A");
                    case 2: return pickVar("O");
                    default: return pickVar("I");
                }
            }
            switch(t.draw(14)) {
                case 0: return expr(f, 'I', d - 1);
                case 1: return expr(f, 'S', d - 1);
                case 2: return expr(f, 'O', d - 1);
                case 3: return pickVar("A");
                case 4: case 5: case 6: {
                    E ob = pickVar("O");
                    E k = keyExpr(f, d - 1);
                    return fieldGet(ob, k);
                }
                case 7: {
                    int j = pickFn(f, "A", f.yields);
                    if(j >= 0) return callFn(f, j, d);
                    return expr(f, 'F', d - 1);
                }
                case 8: {
                    if(t.draw(10) >= (uint32_t)o.wExt) return pickVar("A");
                    E k = lit("0", RV::Int(0));
                    if(o.links) k = intLit(0, 1);
                    return host(H_EXTNEW, { k, expr(f, 'I', 0) });
                }
                case 9: {
                    if(t.draw(10) >= (uint32_t)o.wHandle) return pickVar("A");
                    return host(H_HELD, { intLit(0, 3) });
                }
                case 10: {
                    if(t.draw(10) >= (uint32_t)o.wHost) return pickVar("A");
                    E ob = pickVar("O");
                    return host(H_HGET, { ob, keyExpr(f, d - 1) });
                }
                case 11: {
                    if(t.draw(10) >= (uint32_t)o.wCo) return pickVar("A");
                    // Either one kept in a variable, or one nothing else
                    // refers to while it runs.
                    E c = t.chance(1, 3) ? coCreate(f, 0, d - 1) : expr(f, 'C', 0);
                    if(c.c.empty()) return pickVar("A");
                    return resume(f, c, d - 1);
                }
                case 12: {
                    int j = pickFn(f, nullptr, true);
                    if(j < 0) return pickVar("A");
                    E e;
                    e.s = fns[j].name;
                    e.c.push_back(Op{O_CONST, 0, RV::Fn(j)});
                    return e;
                }
                default: {
                    if(!o.links || t.draw(10) >= (uint32_t)o.wExt) return pickVar("A");
                    return host(H_EXTLINKGET, { pickVar("A") });
                }
            }
        }
    }
}

E Gen::coCreate(Fc &f, int minFn, int d)
{
    // Prefer yielding functions.
    std::vector<int> y, n;
    for(size_t j = 1; j < fns.size(); j++) {
        if((int)j < minFn || (int)j <= f.idx || fns[j].rtype == 'X') continue;
        (fns[j].yields ? y : n).push_back((int)j);
    }
    std::vector<int> *c = &y;
    if(t.chance(1, 12)) { // one made from a host function, which runs at once
        HostFn h = H_OUT;
        std::vector<E> a;
        switch(t.draw(5)) {
            case 0: a.push_back(lit(strf("%d", ++outId), RV::Int(outId))); a.push_back(expr(f, 'A', d - 1)); break;
            case 1: h = H_HNEW; a.push_back(expr(f, 'A', d - 1)); break;
            case 2: if(o.wGc) { h = H_GCNOW; break; } /* fall through */
            case 3: h = H_TAKEINT; a.push_back(expr(f, 'I', d - 1)); break;
            default: if(o.wFp) { h = H_FP; fps++; } else { h = H_ISOBJ; a.push_back(expr(f, 'A', d - 1)); } break;
        }
        E e;
        e.s = Str("coroutine(") + g_hostFns[h].name;
        e.c.push_back(Op{O_CONST, 0, RV::Fn(HOSTBASE + h)});
        for(auto &x : a) { e.s += ", " + x.s; app(e.c, x.c); }
        e.s += ")";
        e.c.push_back(Op{O_COCREATE, (int)a.size(), RV()});
        return e;
    }
    if(y.empty() || (!n.empty() && t.chance(1, 6))) c = &n;
    if(c->empty()) return E();
    int j = (*c)[t.draw((uint32_t)c->size())];
    E e;
    e.s = "coroutine(" + fns[j].name;
    e.c.push_back(Op{O_CONST, 0, RV::Fn(j)});
    for(char p : fns[j].ptypes) {
        E a = expr(f, p, d - 1);
        e.s += ", " + a.s;
        app(e.c, a.c);
    }
    e.s += ")";
    e.c.push_back(Op{O_COCREATE, (int)fns[j].ptypes.size(), RV()});
    return e;
}

void Gen::hostStmt(Fc &f, Code &c, Str &s, HostFn h, const std::vector<E> &args)
{
    E e = host(h, args);
    exprStmt(f, c, s, e);
}

void Gen::exprStmt(Fc &f, Code &c, Str &s, const E &e)
{
    size_t from = c.size(), at = s.size();
    s += f.ind() + e.s + ";\n";
    app(c, e.c);
    c.push_back(Op{O_POP, 1, RV()});
    stamp(c, from, s, at);
}

void Gen::out(Fc &f, Code &c, Str &s, std::vector<E> args)
{
    int n = ++outId;
    args.insert(args.begin(), lit(strf("%d", n), RV::Int(n)));
    hostStmt(f, c, s, H_OUT, args);
}

void Gen::popLocals(Fc &f, Code &c, size_t keep)
{
    if(f.locals.size() > keep) {
        c.push_back(Op{O_POP, (int)(f.locals.size() - keep), RV()});
        f.locals.resize(keep);
    }
}

// Emits a nested block "{ ... }" with its own scope.
void Gen::block(Fc &f, Code &c, Str &s, int n)
{
    size_t keep = f.locals.size();
    s += "{\n";
    f.depth++;
    for(int i = 0; i < n; i++) stmt(f, c, s);
    popLocals(f, c, keep);
    f.depth--;
    s += f.ind() + "}";
}

// Breaks are emitted as JMPs tagged "break"; the innermost enclosing loop
// resolves them once its code is laid out.
static void fixBreaks(Code &c, size_t from)
{
    for(size_t i = from; i < c.size(); i++) {
        if(c[i].op == O_JMP && c[i].v.t == R_STR) {
            c[i].v = RV();
            c[i].a = (int)c.size() - (int)i - 1;
        }
    }
}

void Gen::loop(Fc &f, Code &c, Str &s)
{
    int kind = t.draw(3);
    int n = 1 + t.draw(4);
    Str v = strf("w%d", ++nameId);
    size_t keep = f.locals.size();
    int idx = (int)keep;
    f.loops++;

    Code init, cond, inc;
    init.push_back(Op{O_CONST, 0, RV::Int(0)});
    cond.push_back(Op{O_LGET, idx, RV()});
    cond.push_back(Op{O_CONST, 0, RV::Int(n)});
    cond.push_back(Op{O_BIN, '<', RV()});
    inc.push_back(Op{O_LGET, idx, RV()});
    inc.push_back(Op{O_CONST, 0, RV::Int(1)});
    inc.push_back(Op{O_BIN, '+', RV()});
    inc.push_back(Op{O_LSET, idx, RV()});

    Str ind = f.ind();
    int nst = 1 + t.draw(3);
    Code body;
    Str bs;

    if(kind) { s += ind + "{\n"; f.depth++; }
    f.locals.push_back(Local{v, 'c'});
    size_t saveB = f.loopBase;
    f.loopBase = f.locals.size();
    block(f, body, bs, nst);
    f.loopBase = saveB;

    app(c, init);
    size_t start = c.size();
    if(kind == 0) {
        Str step = "++" + v;
        switch(t.draw(3)) {
            case 1: step = v + "++"; break;
            case 2: step = v + " = " + v + " + 1"; break;
            default: break;
        }
        s += ind + strf("for(var %s = 0; %s < %d; %s) ", v.c_str(), v.c_str(), n, step.c_str()) + bs + "\n";
        app(c, cond);
        c.push_back(Op{O_JZ, (int)(body.size() + inc.size() + 1), RV()});
        app(c, body);
        app(c, inc);
        c.push_back(Op{O_JMP, (int)start - (int)c.size() - 1, RV()});
        fixBreaks(c, start);
        popLocals(f, c, keep);
    } else {
        Str ind2 = f.ind();
        size_t brace = bs.find('\n');
        Str pre = bs.substr(0, brace + 1);
        Str post = bs.substr(brace + 1);
        Str incS = ind2 + "    " + (t.chance(1, 2) ? strf("++%s;\n", v.c_str()) : strf("%s = %s + 1;\n", v.c_str(), v.c_str()));
        s += ind2 + strf("var %s = 0;\n", v.c_str());
        if(kind == 1) {
            s += ind2 + strf("while(%s < %d) ", v.c_str(), n) + pre + incS + post + "\n";
            app(c, cond);
            c.push_back(Op{O_JZ, (int)(inc.size() + body.size() + 1), RV()});
            app(c, inc);
            app(c, body);
            c.push_back(Op{O_JMP, (int)start - (int)c.size() - 1, RV()});
        } else {
            s += ind2 + "do " + pre + incS + post + strf(" while(%s < %d);\n", v.c_str(), n);
            app(c, inc);
            app(c, body);
            app(c, cond);
            c.push_back(Op{O_JZ, 1, RV()});
            c.push_back(Op{O_JMP, (int)start - (int)c.size() - 1, RV()});
        }
        fixBreaks(c, start);
        popLocals(f, c, keep);
        f.depth--;
        s += f.ind() + "}\n";
    }
    f.loops--;
}

void Gen::errorStmt(Fc &f, Code &c, Str &s)
{
    E e;
    auto ivars = vars(f, "I", false);
    E iv = readVar(ivars[t.draw((uint32_t)ivars.size())]);
    auto konst = [](const RV &v) { Code k; k.push_back(Op{O_CONST, 0, v}); return k; };
    auto fnRef = [&](int j) {
        E x;
        x.s = j >= 0 ? fns[j].name : Str("out");
        x.c = konst(RV::Fn(j >= 0 ? j : HOSTBASE + H_OUT));
        return x;
    };
    switch(t.draw(18)) {
        case 0: e = bin(t.chance(1, 2) ? '/' : '%', iv, bin('-', iv, iv)); break;
        case 9: { // negation
            auto ov = vars(f, "OS", false);
            e = neg(readVar(ov[t.draw((uint32_t)ov.size())]));
        } break;
        case 10: { // a function, or an object, where a number is needed
            static const char ops[] = "+-*/%<=&";
            auto fv = vars(f, "F", false);
            if(t.chance(1, 3)) e = bin("+-*/"[t.draw(4)], readVar(fv[t.draw((uint32_t)fv.size())]), readVar(vars(f, "O", false)[0]));
            else e = bin(ops[t.draw(8)], iv, fnRef(pickFn(f, nullptr, true)));
        } break;
        case 11: { // is_finished of something else
            E ob = t.chance(1, 2) ? iv : readVar(vars(f, "O", false)[0]);
            e.s = "is_finished(" + ob.s + ")";
            e.c = ob.c;
            e.c.push_back(Op{O_ISFIN, 0, RV()});
        } break;
        case 12: { // an object that calls itself
            auto ov = vars(f, "O", false);
            E ob = readVar(ov[t.draw((uint32_t)ov.size())]);
            E st;
            st.s = ob.s + "._exec = " + ob.s;
            st.c = ob.c; app(st.c, ob.c);
            st.c.push_back(Op{O_CONST, 0, RV::S("_exec")});
            st.c.push_back(Op{O_FSET, 0, RV()});
            exprStmt(f, c, s, st);
            e.s = ob.s + "(1)";
            e.c = ob.c;
            e.c.push_back(Op{O_CONST, 0, RV::Int(1)});
            e.c.push_back(Op{O_CALL, 1, RV()});
        } break;
        case 13: { // an object that cannot be called
            E ob = readVar(vars(f, "O", false)[0]);
            E st;
            st.s = ob.s + "._exec = nil";
            st.c = konst(RV()); app(st.c, ob.c);
            st.c.push_back(Op{O_CONST, 0, RV::S("_exec")});
            st.c.push_back(Op{O_FSET, 0, RV()});
            exprStmt(f, c, s, st);
            e.s = ob.s + "(1)";
            e.c = ob.c;
            e.c.push_back(Op{O_CONST, 0, RV::Int(1)});
            e.c.push_back(Op{O_CALL, 1, RV()});
        } break;
        case 14: { // a coroutine of something that is not a function
            e.s = "coroutine(" + iv.s + ", 1)";
            e.c = iv.c;
            e.c.push_back(Op{O_CONST, 0, RV::Int(1)});
            e.c.push_back(Op{O_COCREATE, 1, RV()});
        } break;
        case 15: { // a coroutine with the wrong number of arguments
            int j = pickFn(f, nullptr, true);
            if(j < 0) { e = neg(readVar(vars(f, "O", false)[0])); break; }
            int n = (int)fns[j].ptypes.size() + 1 + (int)t.draw(2);
            e.s = "coroutine(" + fns[j].name;
            e.c = fnRef(j).c;
            for(int i = 0; i < n; i++) { e.s += ", 1"; e.c.push_back(Op{O_CONST, 0, RV::Int(1)}); }
            e.s += ")";
            e.c.push_back(Op{O_COCREATE, n, RV()});
        } break;
        case 16: { // any coroutine, perhaps one that is running
            auto v = vars(f, "C", false);
            if(v.empty()) { e = fieldGet(iv, intLit(0, 3)); break; }
            e = resume(f, readVar(v[t.draw((uint32_t)v.size())]), 1);
        } break;
        case 17: { // truth of a function
            E x = fnRef(pickFn(f, nullptr, true));
            if(t.chance(1, 2)) { e = x; e.s = "(!" + x.s + ")"; e.c.push_back(Op{O_NOT, 0, RV()}); break; }
            s += f.ind() + "if(" + x.s + ") { }\n";
            app(c, x.c);
            c.push_back(Op{O_JZ, 0, RV()});
            return;
        }
        case 1: {
            auto ov = vars(f, "O", false);
            static const char ops[] = "+-*/%";
            e = bin(ops[t.draw(5)], readVar(ov[t.draw((uint32_t)ov.size())]), iv);
        } break;
        case 2:
            e = iv;
            e.s += "(1)";
            e.c.push_back(Op{O_CONST, 0, RV::Int(1)});
            e.c.push_back(Op{O_CALL, 1, RV()});
            break;
        case 3: {
            int j = pickFn(f, nullptr, true);
            if(j < 0) { e = host(H_HERR, { lit("\"boom\"", RV::S("boom")) }); break; }
            e.s = fns[j].name + "(";
            e.c.push_back(Op{O_CONST, 0, RV::Fn(j)});
            int n = (int)fns[j].ptypes.size() + 1;
            for(int i = 0; i < n; i++) { e.s += i ? ", 1" : "1"; e.c.push_back(Op{O_CONST, 0, RV::Int(1)}); }
            e.s += ")";
            e.c.push_back(Op{O_CALL, n, RV()});
        } break;
        case 4: e = fieldGet(iv, lit("\"k0\"", RV::S("k0"))); break;
        case 5: e = host(H_HERR, { lit("\"boom\"", RV::S("boom")) }); break;
        case 6: {
            E ob = readVar(vars(f, "O", false)[0]);
            e.s = "resume(" + ob.s + ", 1)";
            e.c = ob.c;
            e.c.push_back(Op{O_CONST, 0, RV::Int(1)});
            e.c.push_back(Op{O_RESUME, 0, RV()});
        } break;
        case 7:
            if(f.yields || o.repl) { e = host(H_TAKEINT, { lit("\"x\"", RV::S("x")) }); break; }
            e.s = "yield(1)";
            e.c.push_back(Op{O_CONST, 0, RV::Int(1)});
            e.c.push_back(Op{O_YIELD, 0, RV()});
            break;
        case 8: e = host(H_TAKERES, { expr(f, 'O', 0) }); break;
        default:
            e = iv;
            e.s = "len(" + iv.s + ")";
            e.c.push_back(Op{O_LEN, 0, RV()});
            break;
    }
    exprStmt(f, c, s, e);
}

void Gen::stmt(Fc &f, Code &c, Str &s)
{
    size_t from = c.size(), at = s.size();
    stmtKind(f, c, s);
    stamp(c, from, s, at);
}

void Gen::stmtKind(Fc &f, Code &c, Str &s)
{
    if(budget <= 0) { // minimal statement
        out(f, c, s, { expr(f, 'I', 0) });
        return;
    }
    budget--;
    bool deep = f.depth < o.maxDepth;
    struct W { int k; int w; };
    enum { ASSIGN, FSET, FDEL, OUT, IF, LOOP, BLOCK, CALL, RESUME, MKCO, YIELD, EXT, HOLD, GC, HOST, HCALL, FP,
           TICK, ERR, DUMP, SELF, CALLOBJ, GRAPH, RET, BREAK, VAR, STRCHURN, CONARROW, INC, BARE };
    W ws[] = {
        { OUT, o.wOut }, { ASSIGN, 6 }, { FSET, o.wObj }, { FDEL, o.wObj / 3 }, { IF, deep ? 3 : 0 },
        { LOOP, deep && f.loops < 2 ? 3 : 0 }, { BLOCK, deep ? 1 : 0 }, { CALL, 3 },
        { RESUME, o.wCo }, { MKCO, (o.wCo + 1) / 2 }, { YIELD, f.yields ? o.wCo + 4 : 0 },
        { EXT, o.wExt }, { HOLD, o.wHandle }, { GC, o.wGc }, { HOST, o.wHost }, { HCALL, o.wHcall },
        { FP, o.wFp }, { TICK, o.wTick }, { ERR, o.wErr }, { DUMP, o.wDump }, { SELF, o.wObj / 4 },
        { CALLOBJ, o.wObj / 4 }, { GRAPH, o.wObj / 3 }, { RET, f.idx > 0 && f.depth > 1 ? 1 : 0 },
        { BREAK, f.loops ? 1 : 0 }, { VAR, f.depth || f.idx ? 3 : 0 }, { STRCHURN, o.wStr },
        { CONARROW, o.wObj / 5 }, { INC, 2 }, { BARE, deep ? 1 : 0 }
    };
    int tot = 0;
    for(auto &w : ws) tot += w.w;
    int r = (int)t.draw((uint32_t)tot);
    int k = OUT;
    for(auto &w : ws) { if(r < w.w) { k = w.k; break; } r -= w.w; }

    auto any = [&](const char *ty) { auto v = vars(f, ty, false); return readVar(v[t.draw((uint32_t)v.size())]); };
    switch(k) {
        case ASSIGN: {
            auto v = vars(f, "IISFAAO", true);
            Var x = v[t.draw((uint32_t)v.size())];
            E e = expr(f, x.type, 3);
            assign(f, c, s, x, e);
        } break;
        case FSET: case CONARROW: {
            // RHS, object, key order of evaluation.
            E val = expr(f, "AAIISOF"[t.draw(7)], 2);
            E ob = any("O");
            E key = keyExpr(f, 1);
            E e;
            Str dst = ob.s + "[" + key.s + "]";
            if(key.c.size() == 1 && key.c[0].op == O_CONST && key.c[0].v.t == R_STR && t.chance(1, 2)) dst = ob.s + "." + key.c[0].v.s;
            if(k == CONARROW) {
                // Assignment as expression.
                auto av = vars(f, "A", true);
                Var x = av[t.draw((uint32_t)av.size())];
                e.s = x.name + " = (" + dst + " = " + val.s + ")";
                e.c = val.c; app(e.c, ob.c); app(e.c, key.c);
                e.c.push_back(Op{O_FSET, 0, RV()});
                s += f.ind() + e.s + ";\n";
                app(c, e.c);
                c.push_back(Op{x.local ? O_LSET : O_GSET, x.idx, RV()});
                break;
            }
            e.s = dst + " = " + val.s;
            e.c = val.c; app(e.c, ob.c); app(e.c, key.c);
            e.c.push_back(Op{O_FSET, 0, RV()});
            exprStmt(f, c, s, e);
        } break;
        case FDEL: {
            E ob = any("O");
            E key = keyExpr(f, 1);
            E e;
            e.s = ob.s + "[" + key.s + "] = nil";
            e.c.push_back(Op{O_CONST, 0, RV()});
            app(e.c, ob.c); app(e.c, key.c);
            e.c.push_back(Op{O_FSET, 0, RV()});
            exprStmt(f, c, s, e);
        } break;
        case OUT: {
            std::vector<E> a;
            int n = 1 + t.draw(3);
            for(int i = 0; i < n; i++) a.push_back(expr(f, "IAASFO"[t.draw(6)], 3));
            out(f, c, s, a);
        } break;
        case IF: {
            E cond = expr(f, 'I', 2);
            if(t.chance(1, 2)) { E i2 = cond; cond = bin('%', i2, lit("2", RV::Int(2))); }
            Code a, b;
            Str sa, sb;
            block(f, a, sa, 1 + t.draw(3));
            bool els = t.chance(1, 2);
            s += f.ind() + "if(" + cond.s + ") " + sa;
            if(els) {
                block(f, b, sb, 1 + t.draw(2));
                s += " else " + sb;
            }
            s += "\n";
            // Patch breaks: positions recorded relative to their own buffers are
            // resolved through markers (see BREAK), so splice with fix-ups.
            app(c, cond.c);
            c.push_back(Op{O_JZ, (int)a.size() + (els ? 1 : 0), RV()});
            app(c, a);
            if(els) {
                c.push_back(Op{O_JMP, (int)b.size(), RV()});
                app(c, b);
            }
        } break;
        case LOOP: loop(f, c, s); break;
        case BLOCK: {
            Str b;
            s += f.ind();
            block(f, c, b, 1 + t.draw(3));
            s += b + "\n";
        } break;
        case CALL: {
            int j = pickFn(f, nullptr, f.yields);
            if(j < 0) { out(f, c, s, { any("I") }); break; }
            E e = callFn(f, j, 2);
            auto v = vars(f, fns[j].rtype == 'I' ? "IA" : fns[j].rtype == 'O' ? "OA" : "A", true);
            if(t.chance(1, 2)) assign(f, c, s, v[t.draw((uint32_t)v.size())], e);
            else exprStmt(f, c, s, e);
        } break;
        case RESUME: {
            E co = expr(f, 'C', 0);
            if(co.c.empty()) { out(f, c, s, { any("A") }); break; }
            if(t.chance(1, 4)) {
                E e = co;
                e.s = "is_finished(" + co.s + ")";
                e.c.push_back(Op{O_ISFIN, 0, RV()});
                out(f, c, s, { e });
                break;
            }
            E e = resume(f, co, 2);
            if(t.chance(2, 3)) out(f, c, s, { e });
            else {
                auto av = vars(f, "A", true);
                assign(f, c, s, av[t.draw((uint32_t)av.size())], e);
            }
        } break;
        case MKCO: {
            // Replace a global coroutine, or make a local one.
            std::vector<Var> ok;
            for(auto &x : vars(f, "C", true)) if(!x.local && rank(x.idx) > f.idx) ok.push_back(x);
            bool local = (f.depth || f.idx) && t.chance(1, 2);
            if(local || ok.empty()) {
                if(!(f.depth || f.idx)) { out(f, c, s, { any("A") }); break; }
                E e = coCreate(f, f.idx + 1, 2);
                if(e.c.empty()) { out(f, c, s, { any("A") }); break; }
                Str n = strf("l%d", ++nameId);
                s += f.ind() + "var " + n + " = " + e.s + ";\n";
                app(c, e.c);
                f.locals.push_back(Local{n, 'C'});
            } else {
                Var x = ok[t.draw((uint32_t)ok.size())];
                E e = coCreate(f, rank(x.idx), 2);
                if(e.c.empty()) { out(f, c, s, { any("A") }); break; }
                assign(f, c, s, x, e);
            }
        } break;
        case YIELD: {
            E e;
            if(t.chance(1, 6)) {
                e.s = "yield()";
                e.c.push_back(Op{O_CONST, 0, RV()});
            } else {
                e = expr(f, 'A', 2);
                e.s = "yield(" + e.s + ")";
            }
            e.c.push_back(Op{O_YIELD, 0, RV()});
            if(t.chance(1, 2)) {
                auto av = vars(f, "A", true);
                assign(f, c, s, av[t.draw((uint32_t)av.size())], e);
            } else if(t.chance(1, 2)) {
                out(f, c, s, { e });
            } else {
                exprStmt(f, c, s, e);
            }
        } break;
        case EXT: {
            switch(t.draw(o.links ? 5 : 3)) {
                case 0: case 1: {
                    E e = host(H_EXTNEW, { o.links ? intLit(0, 1) : lit("0", RV::Int(0)), expr(f, 'I', 1) });
                    if(t.chance(1, 2)) {
                        E ob = any("O");
                        E key = keyExpr(f, 0);
                        E x;
                        x.s = ob.s + "[" + key.s + "] = " + e.s;
                        x.c = e.c; app(x.c, ob.c); app(x.c, key.c);
                        x.c.push_back(Op{O_FSET, 0, RV()});
                        exprStmt(f, c, s, x);
                    } else {
                        auto av = vars(f, "A", true);
                        assign(f, c, s, av[t.draw((uint32_t)av.size())], e);
                    }
                } break;
                case 2: hostStmt(f, c, s, H_EXTSET, { expr(f, 'A', 1), expr(f, 'I', 1) }); break;
                case 3: hostStmt(f, c, s, H_EXTLINK, { any("A"), expr(f, 'A', 1) }); break;
                default: out(f, c, s, { host(H_EXTLINKGET, { expr(f, 'A', 1) }) }); break;
            }
        } break;
        case HOLD: {
            switch(t.draw(4)) {
                case 0: hostStmt(f, c, s, H_HOLD, { intLit(0, 3), expr(f, t.chance(1, 2) ? 'O' : 'A', 1) }); break;
                case 1: hostStmt(f, c, s, H_DROP, { intLit(0, 3) }); break;
                case 2: out(f, c, s, { host(H_HCOUNT, { expr(f, 'A', 0) }) }); break;
                default: out(f, c, s, { host(H_HELD, { intLit(0, 3) }) }); break;
            }
        } break;
        case GC: hostStmt(f, c, s, H_GCNOW, {}); break;
        case HOST: {
            switch(t.draw(4)) {
                case 0: case 1: {
                    E ob = any("O");
                    E key = keyExpr(f, 1);
                    hostStmt(f, c, s, H_HSET, { ob, key, expr(f, 'A', 2) });
                } break;
                case 2: { E ob = any("O"); hostStmt(f, c, s, H_HDEL, { ob, keyExpr(f, 1) }); } break;
                default: { E ob = any("O"); out(f, c, s, { host(H_HSIZE, { ob }), host(H_HGET, { ob, keyExpr(f, 1) }) }); } break;
            }
        } break;
        case HCALL: {
            int j = pickFn(f, nullptr, o.hostBoundaryYield && t.chance(1, 3));
            if(j < 0) { out(f, c, s, { any("O") }); break; }
            std::vector<E> a;
            E fe;
            fe.s = fns[j].name;
            fe.c.push_back(Op{O_CONST, 0, RV::Fn(j)});
            a.push_back(fe);
            for(char p : fns[j].ptypes) a.push_back(expr(f, p, 1));
            E e = host(t.chance(1, 4) ? H_HCALLV : H_HCALL, a);
            if(t.chance(1, 2)) out(f, c, s, { e });
            else {
                auto av = vars(f, "A", true);
                assign(f, c, s, av[t.draw((uint32_t)av.size())], e);
            }
        } break;
        case FP: fps++; hostStmt(f, c, s, H_FP, {}); break;
        case TICK: hostStmt(f, c, s, H_TICK, {}); break;
        case ERR: errorStmt(f, c, s); break;
        case DUMP: hostStmt(f, c, s, H_DUMP, { any("OA") }); break;
        case SELF: {
            // o.m = fj; o->m(args)
            std::vector<int> cand;
            for(size_t j = 1; j < fns.size(); j++)
                if((int)j > f.idx && fns[j].ptypes.size() && (fns[j].ptypes[0] == 'O' || fns[j].ptypes[0] == 'A') && (!fns[j].yields || f.yields) && fns[j].rtype != 'X')
                    cand.push_back((int)j);
            if(cand.empty()) { out(f, c, s, { any("A") }); break; }
            int j = cand[t.draw((uint32_t)cand.size())];
            E ob = any("O");
            E st;
            st.s = ob.s + ".m = " + fns[j].name;
            st.c.push_back(Op{O_CONST, 0, RV::Fn(j)});
            app(st.c, ob.c);
            st.c.push_back(Op{O_CONST, 0, RV::S("m")});
            st.c.push_back(Op{O_FSET, 0, RV()});
            exprStmt(f, c, s, st);
            E e;
            e.s = ob.s + "->m(";
            e.c = ob.c;
            e.c.push_back(Op{O_SELFGET, 0, RV::S("m")});
            for(size_t i = 1; i < fns[j].ptypes.size(); i++) {
                E a = expr(f, fns[j].ptypes[i], 1);
                e.s += (i > 1 ? ", " : "") + a.s;
                app(e.c, a.c);
            }
            e.s += ")";
            e.c.push_back(Op{O_CALL, (int)fns[j].ptypes.size(), RV()});
            out(f, c, s, { e });
        } break;
        case CALLOBJ: {
            int j = pickFn(f, nullptr, f.yields);
            if(j < 0) { out(f, c, s, { any("A") }); break; }
            E ob = any("O");
            E st;
            st.s = ob.s + "._exec = " + fns[j].name;
            st.c.push_back(Op{O_CONST, 0, RV::Fn(j)});
            app(st.c, ob.c);
            st.c.push_back(Op{O_CONST, 0, RV::S("_exec")});
            st.c.push_back(Op{O_FSET, 0, RV()});
            exprStmt(f, c, s, st);
            size_t first = 0;
            bool withData = fns[j].ptypes.size() && t.chance(1, 2);
            E d;
            if(withData) {
                d = expr(f, fns[j].ptypes[0], 1);
                first = 1;
            } else {
                d.s = "nil";
                d.c.push_back(Op{O_CONST, 0, RV()});
            }
            E sd;
            sd.s = ob.s + "._data = " + d.s;
            sd.c = d.c;
            app(sd.c, ob.c);
            sd.c.push_back(Op{O_CONST, 0, RV::S("_data")});
            sd.c.push_back(Op{O_FSET, 0, RV()});
            exprStmt(f, c, s, sd);
            // Only int/object/string data is certain to be stored (nil removes it).
            if(withData && fns[j].ptypes[0] == 'A') { break; }
            E e;
            e.s = ob.s + "(";
            e.c = ob.c;
            for(size_t i = first; i < fns[j].ptypes.size(); i++) {
                E a = expr(f, fns[j].ptypes[i], 1);
                e.s += (i > first ? ", " : "") + a.s;
                app(e.c, a.c);
            }
            e.s += ")";
            e.c.push_back(Op{O_CALL, (int)(fns[j].ptypes.size() - first), RV()});
            out(f, c, s, { e });
        } break;
        case GRAPH: {
            // Build a chain / cycle hanging off an object variable.
            auto ov = vars(f, "O", true);
            Var x = ov[t.draw((uint32_t)ov.size())];
            E n;
            n.s = "newobject";
            n.c.push_back(Op{O_NEWOBJ, 0, RV()});
            if(t.chance(1, 2) && x.local == false) {
                // prepend: tmp = new; tmp.next = x; x = tmp  (via any variable)
                auto av = vars(f, "A", true);
                Var tmp = av[t.draw((uint32_t)av.size())];
                assign(f, c, s, tmp, n);
                E st;
                st.s = tmp.name + ".next = " + x.name;
                app(st.c, readVar(x).c); app(st.c, readVar(tmp).c);
                st.c.push_back(Op{O_CONST, 0, RV::S("next")});
                st.c.push_back(Op{O_FSET, 0, RV()});
                exprStmt(f, c, s, st);
                assign(f, c, s, x, readVar(tmp));
            } else {
                E y = any("O");
                E st;
                st.s = x.name + ".next = " + y.s;
                app(st.c, y.c); app(st.c, readVar(x).c);
                st.c.push_back(Op{O_CONST, 0, RV::S("next")});
                st.c.push_back(Op{O_FSET, 0, RV()});
                exprStmt(f, c, s, st);
                if(t.chance(1, 2)) assign(f, c, s, x, n);
            }
        } break;
        case RET: {
            E cond = bin('=', expr(f, 'I', 1), intLit(-3, 3));
            E v = expr(f, fns[f.idx].rtype, 1);
            s += f.ind() + "if(" + cond.s + ") { return " + v.s + "; }\n";
            app(c, cond.c);
            c.push_back(Op{O_JZ, (int)v.c.size() + 1, RV()});
            app(c, v.c);
            c.push_back(Op{O_RET, 0, RV()});
        } break;
        case BREAK: {
            E cond = bin('=', expr(f, 'I', 1), intLit(-3, 3));
            s += f.ind() + "if(" + cond.s + ") { break; }\n";
            app(c, cond.c);
            size_t pop = f.locals.size() - f.loopBase;
            c.push_back(Op{O_JZ, (pop ? 1 : 0) + 1, RV()});
            if(pop) c.push_back(Op{O_POP, (int)pop, RV()});
            Op j{O_JMP, 0, RV()};
            j.v = RV::S("break"); // resolved by fixBreaks()
            c.push_back(j);
        } break;
        case VAR: {
            char ty = "IIAOSF"[t.draw(6)];
            Str n = strf("l%d", ++nameId);
            if(ty == 'A' && t.chance(1, 3)) {
                s += f.ind() + "var " + n + ";\n";
                c.push_back(Op{O_CONST, 0, RV::Int(0)});
            } else {
                E e = expr(f, ty, 2);
                s += f.ind() + "var " + n + " = " + e.s + ";\n";
                app(c, e.c);
            }
            f.locals.push_back(Local{n, ty});
        } break;
        case INC: {
            if(t.chance(1, 2)) { exprStmt(f, c, s, incDec(f, true)); break; }
            // A field: made an integer first, then counted up or down.
            E ob = any("O");
            int n = t.draw(8);
            E key = lit(strf("\"k%d\"", n), RV::S(strf("k%d", n)));
            if(t.chance(1, 3)) key = intLit(-7, 7);
            Str dst = key.c[0].v.t == R_STR && t.chance(1, 2) ? ob.s + "." + key.c[0].v.s : ob.s + "[" + key.s + "]";
            E val = expr(f, 'I', 1);
            E st;
            st.s = dst + " = " + val.s;
            st.c = val.c; app(st.c, ob.c); app(st.c, key.c);
            st.c.push_back(Op{O_FSET, 0, RV()});
            exprStmt(f, c, s, st);
            bool dec = t.chance(1, 3), post = t.chance(1, 2);
            E e;
            e.s = post ? dst + (dec ? "--" : "++") : (dec ? "--" : "++") + dst;
            e.c = ob.c; app(e.c, key.c);
            e.c.push_back(Op{O_FGET, 0, RV()});
            e.c.push_back(Op{O_CONST, 0, RV::Int(1)});
            e.c.push_back(Op{O_BIN, dec ? '-' : '+', RV()});
            app(e.c, ob.c); app(e.c, key.c);
            e.c.push_back(Op{O_FSET, 0, RV()});
            if(t.chance(1, 2)) { exprStmt(f, c, s, e); break; }
            if(post) {
                e.c.push_back(Op{O_CONST, 0, RV::Int(1)});
                e.c.push_back(Op{O_BIN, dec ? '+' : '-', RV()});
            }
            out(f, c, s, { e });
        } break;
        case BARE: {
            // Bodies without braces, and else-if chains.
            auto bare = [&](Code &bc, Str &bs) {
                Fc g = f;
                g.depth++;
                if(t.chance(1, 2)) exprStmt(g, bc, bs, incDec(g, true));
                else out(g, bc, bs, { expr(g, 'A', 1) });
            };
            int arms = 1 + (int)t.draw(3);
            bool els = t.chance(1, 2);
            std::vector<E> conds;
            std::vector<Code> codes(arms + els);
            std::vector<Str> texts(arms + els);
            std::vector<Str> heads(arms + els);
            for(int i = 0; i < arms + els; i++) {
                if(i < arms) conds.push_back(bin("=<>"[t.draw(3)], expr(f, 'I', 1), intLit(-3, 3)));
                bare(codes[i], texts[i]);
            }
            // Laid out from the last arm backwards.
            Code rest;
            if(els) rest = codes[arms];
            for(int i = arms - 1; i >= 0; i--) {
                Code x = conds[i].c;
                stamp(x, 0, heads[i], 0);
                bool more = !rest.empty();
                x.push_back(Op{O_JZ, (int)codes[i].size() + (more ? 1 : 0), RV()});
                app(x, codes[i]);
                if(more) {
                    x.push_back(Op{O_JMP, (int)rest.size(), RV()});
                    app(x, rest);
                }
                rest = x;
            }
            for(int i = 0; i < arms + els; i++) {
                s += heads[i] + f.ind();
                if(i) s += "else ";
                if(i < arms) s += "if(" + conds[i].s + ")";
                s += "\n" + texts[i];
            }
            app(c, rest);
        } break;
        case STRCHURN: {
            auto v = vars(f, "S", true);
            Var x = v[t.draw((uint32_t)v.size())];
            E e = expr(f, 'S', 3);
            assign(f, c, s, x, e);
        } break;
    }
}

int Gen::rank(int g)
{
    auto it = ranks.find(g);
    return it == ranks.end() ? 1 : it->second;
}

void Gen::function(int j)
{
    FnDef &d = fns[j];
    Fc f;
    f.idx = j;
    f.yields = d.yields;
    Str args, body;
    for(size_t i = 0; i < d.ptypes.size(); i++) {
        Str n = strf("p%d_%d", j, (int)i);
        args += (i ? ", " : "") + n;
        f.locals.push_back(Local{n, d.ptypes[i]});
    }
    Code c;
    int n = 1 + t.draw((uint32_t)o.bodyStmts);
    for(int i = 0; i < n; i++) stmt(f, c, body);
    if(t.chance(7, 8)) {
        E v = expr(f, d.rtype, 2);
        size_t from = c.size(), at = body.size();
        body += "    return " + v.s + ";\n";
        app(c, v.c);
        stamp(c, from, body, at);
    } else {
        d.rtype = d.rtype == 'O' ? 'O' : d.rtype;
        if(d.rtype == 'O') {
            E v = expr(f, 'O', 0);
            body += "    return " + v.s + ";\n";
            app(c, v.c);
        } else {
            c.push_back(Op{O_CONST, 0, RV::Int(0)}); // implicit return value
        }
    }
    c.push_back(Op{O_RET, 0, RV()});
    fns[j].code = c;
    fns[j].src = "function " + fns[j].name + "(" + args + ") {\n" + body + "}\n";
}

Prog Gen::program()
{
    Prog p;
    int nf = (int)t.draw((uint32_t)o.maxFns + 1);
    for(int i = 0; i < 1 + (o.nGlobals > 2); i++) addGlobal(strf("gi%d", i), 'I');
    addGlobal("gi9", 'I');
    for(int i = 0; i < 2; i++) addGlobal(strf("gs%d", i), 'S');
    addGlobal("gf0", 'F');
    for(int i = 0; i < o.nGlobals; i++) addGlobal(strf("go%d", i), 'O');
    for(int i = 0; i < o.nGlobals; i++) addGlobal(strf("ga%d", i), 'A');

    for(int j = 1; j <= nf; j++) {
        FnDef d;
        d.name = strf("f%d", j);
        int np = (int)t.draw(4);
        for(int i = 0; i < np; i++) d.ptypes += "IOAS"[t.draw(4)];
        d.rtype = "IIAO"[t.draw(4)];
        d.yields = o.wCo > 0 && t.draw(10) < (uint32_t)o.wCo;
        fns.push_back(d);
    }
    // Bounded recursion: fw(n) calls rec(n % k).
    int rec = -1;
    if(o.wRec && nf && t.draw(4) < (uint32_t)o.wRec) {
        FnDef d;
        d.name = "fw";
        d.ptypes = "I";
        d.yields = o.wCo > 0 && t.chance(1, 3);
        fns.push_back(d);
        d.name = "rec";
        d.ptypes = "IA";
        d.rtype = 'X';
        fns.push_back(d);
        rec = (int)fns.size() - 1;
    }
    int ngc = nf && o.wCo ? 1 + (int)t.draw(2) : 0;
    for(int i = 0; i < ngc; i++) {
        int g = addGlobal(strf("gc%d", i), 'C');
        ranks[g] = 1 + (int)t.draw((uint32_t)nf);
    }

    budget = o.rootStmts + o.bodyStmts * 4;
    if(rec >= 0) {
        bool y = fns[rec].yields;
        Code c;
        Str b = strf("function rec(n, a) {\n    if(n < 1) { return 0; }\n    var o = newobject;\n    o.k0 = a;\n");
        c.push_back(Op{O_LGET, 0, RV()});
        c.push_back(Op{O_CONST, 0, RV::Int(1)});
        c.push_back(Op{O_BIN, '<', RV()});
        c.push_back(Op{O_JZ, 2, RV()});
        c.push_back(Op{O_CONST, 0, RV::Int(0)});
        c.push_back(Op{O_RET, 0, RV()});
        c.push_back(Op{O_NEWOBJ, 0, RV()});
        c.push_back(Op{O_LGET, 1, RV()});
        c.push_back(Op{O_LGET, 2, RV()});
        c.push_back(Op{O_CONST, 0, RV::S("k0")});
        c.push_back(Op{O_FSET, 0, RV()});
        c.push_back(Op{O_POP, 1, RV()});
        if(y) {
            b += "    a = yield(n);\n";
            c.push_back(Op{O_LGET, 0, RV()});
            c.push_back(Op{O_YIELD, 0, RV()});
            c.push_back(Op{O_LSET, 1, RV()});
        } else if(t.chance(1, 2)) {
            b += "    gcnow();\n";
            c.push_back(Op{O_CONST, 0, RV::Fn(HOSTBASE + H_GCNOW)});
            c.push_back(Op{O_CALL, 0, RV()});
            c.push_back(Op{O_POP, 1, RV()});
        }
        b += strf("    var r = rec(n - 1, o);\n    return (r + len(o));\n}\n");
        c.push_back(Op{O_CONST, 0, RV::Fn(rec)});
        c.push_back(Op{O_LGET, 0, RV()});
        c.push_back(Op{O_CONST, 0, RV::Int(1)});
        c.push_back(Op{O_BIN, '-', RV()});
        c.push_back(Op{O_LGET, 2, RV()});
        c.push_back(Op{O_CALL, 2, RV()});
        c.push_back(Op{O_LGET, 3, RV()});
        c.push_back(Op{O_LGET, 2, RV()});
        c.push_back(Op{O_LEN, 0, RV()});
        c.push_back(Op{O_BIN, '+', RV()});
        c.push_back(Op{O_RET, 0, RV()});
        fns[rec].code = c;
        fns[rec].src = b;
        int k = 2 + (int)t.draw(12);
        Code w;
        w.push_back(Op{O_CONST, 0, RV::Fn(rec)});
        w.push_back(Op{O_LGET, 0, RV()});
        w.push_back(Op{O_CONST, 0, RV::Int(k)});
        w.push_back(Op{O_BIN, '%', RV()});
        w.push_back(Op{O_CONST, 0, RV()});
        w.push_back(Op{O_CALL, 2, RV()});
        w.push_back(Op{O_RET, 0, RV()});
        fns[rec - 1].code = w;
        fns[rec - 1].src = strf("function fw(n) { return rec(n %% %d, nil); }\n", k);
    }
    for(int j = nf; j >= 1; j--) function(j);

    Fc f;
    Code c;
    std::vector<Str> lines;
    // Globals.
    for(size_t i = 0; i < globals.size(); i++) {
        char ty = gtypes[i];
        Str d = "var " + globals[i];
        RV v;
        switch(ty) {
            case 'I': { int n = (int)t.draw(10); d += strf(" = %d", n); v = RV::Int(n); } break;
            case 'S': d += strf(" = \"i%d\"", (int)i); v = RV::S(strf("i%d", (int)i)); break;
            case 'F': d += " = 1.5"; v = RV::Flt(1.5f); break;
            case 'O': d += " = object()"; break;
            default: if(t.chance(1, 2)) d += " = nil"; else v = RV::Int(0); break;
        }
        if(ty == 'O') c.push_back(Op{O_NEWOBJ, 0, RV()});
        else c.push_back(Op{O_CONST, 0, v});
        c.push_back(Op{O_GSET, (int)i, RV()});
        lines.push_back(d + ";\n");
        if(o.repl) { c.push_back(Op{O_END, 1, RV()}); }
    }
    for(int j = (int)fns.size() - 1; j >= 1; j--) {
        int g = addGlobal(fns[j].name, 'f');
        c.push_back(Op{O_CONST, 0, RV::Fn(j)});
        c.push_back(Op{O_GSET, g, RV()});
        lines.push_back(fns[j].src);
    }
    for(size_t i = 0; i < globals.size(); i++) {
        if(gtypes[i] != 'C') continue;
        Str s;
        E e = coCreate(f, rank((int)i), 1);
        assign(f, c, s, Var{globals[i], false, (int)i, 'C'}, e);
        lines.push_back(s);
    }
    budget = o.rootStmts + 6;
    int n = 2 + (int)t.draw((uint32_t)o.rootStmts);
    for(int i = 0; i < n; i++) {
        Str s;
        stmt(f, c, s);
        lines.push_back(s);
    }
    c.push_back(Op{O_END, 0, RV()});
    fns[0].code = c;
    p.fns = fns;
    p.globals = globals;
    p.gtypes = gtypes;
    for(size_t i = 0; i < lines.size(); i++) lines[i] = unmark(lines[i], (int)i, &p.where);
    for(auto &d : p.fns) d.src = unmark(d.src, 0, nullptr);
    p.lines = lines;
    p.fps = fps;
    for(auto &l : lines) p.src += l;
    return p;
}

Prog generate(Tape &t, const GenOpt &o)
{
    Gen g(t, o);
    return g.program();
}
