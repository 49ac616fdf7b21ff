#pragma once
#include "ref.hpp"

struct E { Str s; Code c; };          // expression: text and reference code
struct Var { Str name; bool local; int idx; char type; };
struct Local { Str name; char type; };

struct Fc                              // function being generated
{
    int idx = 0;
    bool yields = false;
    int depth = 0;
    int loops = 0;
    size_t loopBase = 0;
    std::vector<Local> locals;
    Str ind() const { return Str((size_t)(depth + (idx ? 1 : 0)) * 4, ' '); }
};

struct Gen
{
    Tape &t;
    GenOpt o;
    std::vector<FnDef> fns;
    std::vector<Str> globals;
    Str gtypes;
    std::map<int, int> ranks;
    int budget = 100;
    int nameId = 0;
    int outId = 0;
    int fps = 0;
    int stmtId = 0;

    Gen(Tape &tt, const GenOpt &oo);
    int addGlobal(const Str &n, char type);
    int rank(int g);
    E intLit(int lo, int hi);
    E host(HostFn h, const std::vector<E> &args);
    E bin(char op, const E &a, const E &b);
    E neg(const E &a);
    E floatLit();
    E numStr();
    E incDec(Fc &f, bool statement);
    E resume(Fc &f, const E &co, int d);
    std::vector<Var> vars(Fc &f, const char *types, bool writable);
    E readVar(const Var &v);
    void assign(Fc &f, Code &c, Str &s, const Var &v, const E &e);
    E callFn(Fc &f, int j, int d);
    int pickFn(Fc &f, const char *rtypes, bool allowYield);
    E keyExpr(Fc &f, int d);
    E fieldGet(const E &ob, const E &key);
    E expr(Fc &f, char type, int d);
    E coCreate(Fc &f, int minFn, int d);
    void hostStmt(Fc &f, Code &c, Str &s, HostFn h, const std::vector<E> &args);
    void stamp(Code &c, size_t from, Str &s, size_t at);
    void stmtKind(Fc &f, Code &c, Str &s);
    void exprStmt(Fc &f, Code &c, Str &s, const E &e);
    void out(Fc &f, Code &c, Str &s, std::vector<E> args);
    void popLocals(Fc &f, Code &c, size_t keep);
    void block(Fc &f, Code &c, Str &s, int n);
    void loop(Fc &f, Code &c, Str &s);
    void errorStmt(Fc &f, Code &c, Str &s);
    void stmt(Fc &f, Code &c, Str &s);
    void function(int j);
    Prog program();
};
