// Program generator and reference interpreter (the oracle).
#pragma once
#include "core.hpp"

enum RT { R_INT, R_FLOAT, R_STR, R_FN, R_OBJ, R_NIL };

struct RV
{
    int t = R_NIL;
    int i = 0;      // int / function index / object index
    float f = 0;
    Str s;
    static RV Int(int v) { RV r; r.t = R_INT; r.i = v; return r; }
    static RV Flt(float v) { RV r; r.t = R_FLOAT; r.f = v; return r; }
    static RV S(const Str &v) { RV r; r.t = R_STR; r.s = v; return r; }
    static RV Fn(int v) { RV r; r.t = R_FN; r.i = v; return r; }
    static RV Obj(int v) { RV r; r.t = R_OBJ; r.i = v; return r; }
    bool operator<(const RV &o) const
    {
        if(t != o.t) return t < o.t;
        if(i != o.i) return i < o.i;
        if(f != o.f) return f < o.f;
        return s < o.s;
    }
    bool operator==(const RV &o) const { return t == o.t && i == o.i && f == o.f && s == o.s; }
};

enum OpCode {
    O_CONST, O_GGET, O_GSET, O_LGET, O_LSET, O_POP, O_BIN, O_NEG, O_NOT, O_JZ, O_JMP,
    O_CALL, O_SELFGET, O_RET, O_NEWOBJ, O_FGET, O_FSET, O_COCREATE, O_YIELD, O_RESUME,
    O_ISFIN, O_LEN, O_END
};

struct Op { int op; int a = 0; RV v; int id = 0; };   // id: the statement it belongs to
typedef std::vector<Op> Code;

struct FnDef
{
    Str name;
    Str ptypes;   // one char per parameter: I S O A
    char rtype = 'I';
    bool yields = false;
    Code code;
    Str src;
    bool anon = false;
};

struct Prog
{
    std::vector<FnDef> fns;  // fns[0] is the root program
    std::vector<Str> globals;
    Str gtypes;
    Str src;                 // whole source text
    std::vector<Str> lines;  // (REPL) one entry per top-level input
    std::map<int, std::pair<int, int>> where;   // statement -> entry of lines, line in it (from 0)
    int fps = 0;             // number of fault points in the text
    int findGlobal(const Str &n) const
    {
        for(size_t i = 0; i < globals.size(); i++) if(globals[i] == n) return (int)i;
        return -1;
    }
};

// ---------------------------------------------------------------------
// Host functions, known to both the model and the real host.
enum HostFn {
    H_OUT, H_DUMP, H_ISOBJ, H_ISFN, H_HCALL, H_EXTNEW, H_EXTTAG, H_EXTSET, H_EXTLINK,
    H_EXTLINKGET, H_HOLD, H_HELD, H_DROP, H_HCOUNT, H_GCNOW, H_FP, H_HSET, H_HGET, H_HDEL,
    H_HSIZE, H_HNEW, H_TICK, H_HERR, H_TAKEINT, H_TAKERES, H_EXTSETTYPE, H_HCALLV, H_COUNT
};
struct HostFnInfo { const char *name; int argc; const char *types; };
extern const HostFnInfo g_hostFns[H_COUNT];
static const int HOSTBASE = 100000;
static const int NSLOTS = 4;

enum ObKind { K_PLAIN, K_CORO, K_RES, K_BOX };

struct RObj
{
    std::map<RV, RV> f;
    int kind = K_PLAIN;
    int uid = 0;
    int data = 0;
    RV link;
    int ctx = -1;
    int handles = 0;
};

struct RFrame { int fn; int pc; int base; bool host; };
enum CoState { C_CREATED, C_RUNNING, C_FINISHED };
struct RCtx
{
    std::vector<RV> st;
    std::vector<RFrame> fr;
    int state = C_RUNNING;
    int parent = -1;
    int obj = -1;
};

struct Ref
{
    const Prog *p = nullptr;
    std::vector<RV> g;
    std::vector<RObj> heap;
    std::vector<RCtx> ctx;
    int cur = 0;
    std::vector<Str> ev;
    std::vector<size_t> evStep;
    bool err = false;
    Str errText;
    int curId = 0, errId = 0;   // statement being executed, and the one that failed
    bool capped = false;
    uint64_t steps = 0;
    uint64_t cap = 20000;
    uint32_t fieldLimit = 0xffffffffu;
    RV slots[NSLOTS];
    int nextUid = 1;
    int fpCount = 0;
    int fpArm = -1;
    size_t maxLive = 0;
    size_t switches = 0, calls = 0, hcalls = 0, creates = 0;
    int hostDepth = 0;
    uint64_t heapCap = 4000;

    void init(const Prog &pr);
    void run(int stopFrames = -1, int stopCtx = -1); // until end / error / nested return
    void step();
    void error(const Str &s) { if(!err) { err = true; errText = s; errId = curId; } }
    RV hostCall(int fn, std::vector<RV> &a);
    void doCall(int argc, bool boundary);
    int toInt(const RV &v);
    float toFloat(const RV &v);
    Str toStr(const RV &v);
    int cmp(const RV &a, const RV &b);
    int newObj() { heap.push_back(RObj()); return (int)heap.size() - 1; }
    std::set<int> reachable() const;
    Str valStr(const RV &v) const;
    Str dumpValue(const RV &v) const;
    Str finalDump() const;
    bool finished() const;
    RV *field(int ob, const RV &k)
    {
        auto it = heap[ob].f.find(k);
        return it == heap[ob].f.end() ? nullptr : &it->second;
    }
};

// Canonical dump shared by model and real side.
struct DumpSource
{
    virtual ~DumpSource() { }
    virtual bool isObj(const void *v, Str &prim) = 0;      // prim set if not an object
    virtual uint64_t objId(const void *v) = 0;
    virtual Str objHeader(const void *v) = 0;               // kind/size/handles
    virtual const void *getKey(const void *v, const RV &k) = 0; // value or null; valid until release
    virtual const void *getObjKey(const void *v, const void *keyObj) = 0;
    virtual const void *getLink(const void *v) = 0;
};
Str canonicalDump(DumpSource &s, const std::vector<std::pair<Str, const void *>> &roots);
const std::vector<RV> &keyUniverse();

// ---------------------------------------------------------------------
struct GenOpt
{
    int maxFns = 4;
    int rootStmts = 10;
    int bodyStmts = 5;
    int maxDepth = 3;      // nesting of blocks
    int wCo = 6;           // weights of feature groups
    int wObj = 6;
    int wExt = 3;
    int wHandle = 2;
    int wGc = 2;
    int wHost = 3;         // host object operations
    int wHcall = 2;
    int wErr = 0;
    int wFp = 0;
    int wTick = 0;
    int wOut = 4;
    int wStr = 3;
    int wDump = 1;
    int wRec = 1;
    bool objKeys = true;
    bool links = true;     // boxes holding references through gcMark
    bool hostBoundaryYield = false;
    bool repl = false;
    int nGlobals = 3;
};

Prog generate(Tape &t, const GenOpt &o);

// ---------------------------------------------------------------------
// Pieces of the generator exposed for REPL sessions.
struct Gen;
