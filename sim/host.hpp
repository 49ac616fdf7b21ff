// One simulated host process: an allocator, a VM, and everything the host
// keeps in its own memory.  A "crash" drops the whole object; only what was
// written to a snapshot survives.
#pragma once
#include "ref.hpp"
extern "C" {
#include "nkx.h"
}

typedef std::vector<unsigned char> Bytes;

struct Ext
{
    uint32_t magic = 0xe87e87e8;
    int uid = 0;
    int data = 0;
    bool box = false;
    NKValue link;
    void *blob = nullptr;   // host data allocated from the VM (nkxMalloc)
};

struct Stream
{
    Bytes data;
    size_t pos = 0;
    uint64_t calls = 0;
    size_t failByte = (size_t)-1;   // the device stops working here
    uint64_t failCall = ~0ULL;
    bool lie = false;               // reports success but does nothing past failByte
    bool partial = false;           // transfers the part before failByte, then reports failure
    bool transient = false;         // only the one transfer fails; later ones work again
    bool fired = false;
    World *w = nullptr;
    std::vector<uint32_t> marks;    // start offsets of each transfer
    bool keepMarks = false;
    uint64_t limit = 64u << 20;
    std::function<void()> onCall;
};
nkbool streamIo(void *data, nkuint32_t size, void *ud, nkbool writeMode);

struct NodeOpt
{
    uint32_t gcInterval = 0;         // 0: leave default
    uint32_t gcNewObj = 0;
    uint32_t maxStack = 0;
    uint32_t maxFields = 0;
    uint32_t maxMem = 0;
    uint32_t instrLimit = 0;
    unsigned char fill = 0xa5;
    bool fillRandom = false;
    uint32_t fillSeed = 1;
    int place = 0;
    bool blobs = false;              // external objects own nkxMalloc blocks
    bool bare = false;               // objects of a type may have no data attached
    int fpArm = -1;
    int failSerIdx = -1;             // this serialization callback fails
    int skipFn = -1;                 // leave this host function out
    int extraFns = 0;                // register this many other functions first
    uint32_t orderSeed = 0;          // 0: declaration order
    bool untyped = false;            // register without argument types
    bool swapTypes = false;          // register SimBox before SimRes
    bool skipRes = false, skipBox = false, skipSys = false;
    bool extraType = false;
    bool mallocReg = false;
    uint64_t failAt = ~0ULL, failCount = 1;
    uint64_t hardCap = 0;
};

struct Node;
typedef std::function<void(Node &, int fn, NKVMFunctionCallbackData *)> CallHook;

struct Node
{
    World &w;
    NodeOpt opt;
    SimAlloc alloc;
    Str name;
    NKVM *vm = nullptr;
    NKCompilerState *cs = nullptr;
    NKVMExternalDataTypeID tRes, tBox;
    std::vector<Str> ev;
    NKValue slots[NSLOTS];
    bool slotUsed[NSLOTS];
    int nextUid = 1, loadedUids = 0;
    int fpCount = 0;
    std::map<Ext *, int> exts;           // attached data not yet finalised
    std::map<int, int> finals;           // uid -> cleanup calls
    std::vector<Str> ser;                // serialization callbacks, in order
    int sysCleanups = 0;
    int bareFinals = 0;                  // cleanup calls for objects without data
    uint64_t hostCalls = 0;
    uint64_t markCalls = 0;
    CallHook hook;                       // before each host function
    std::function<void(Ext *)> onFinal;
    std::function<void()> onMark;
    int hostDepth = 0;                   // host functions in progress
    int failSer = -1;                    // fail this serialization callback (count from 0)
    int serCount = 0;
    bool serAddError = false;
    bool inDelete = false;
    bool wantFinals = true;              // cleanup must be called for every object by delete
    bool loading = false;
    uint64_t saveHash = 0;               // of everything saved so far
    std::function<void()> onStream;      // before each transfer of a save or load
    bool tolerant = false;               // state is known to be damaged: take what comes
    bool quietSer = false;               // serialization callbacks report no error of their own
    uint64_t executed = 0;               // instructions granted so far
    Str errTail;

    Node(World &ww, const NodeOpt &o, const Str &nm = "vm");
    ~Node();                             // a crash, unless destroy() was called first
    bool create();
    bool nodeRegistered() const { return sysRegistered; }
    bool sysRegistered = false;
    bool setup(bool withCompiler);       // register types, subsystem, functions
    bool build(const Str &src);          // create + setup + compile + finalize
    bool build(const Prog &p) { return build(p.src); }
    void limits();
    void iterate(uint32_t n) { w.instrs += n; executed += n; nkxVmIterate(vm, n); }
    bool ended() { return nkxVmProgramHasEnded(vm); }
    bool hasErr() { return nkxVmHasErrors(vm); }
    bool oom() { return !vm || nkxVmHasAllocationFailure(vm); }
    Str errors();
    bool save(Stream &s);
    bool load(Stream &s);
    Str dumpGlobals(const std::vector<Str> &names, bool withSlots = true);
    Str dumpValue(NKValue v);
    Str valStr(NKValue &v);
    Ext *extOf(NKValue &v);
    void destroy();                      // nkxVmDelete and account for everything
    Str liveUids() const;
    void checkAccounting(const char *where);
    void collect(const char *why);
};

NKValue nkNil();
NKValue nkInt(int v);
bool isNk(const NKValue &v, enum NKValueType t);
void hostCallback(int fn, NKVMFunctionCallbackData *d);
