// A host's whole use of one VM as a list of actions drawn up front, so that
// the same life can be lived again under another fault.
#pragma once
#include "scen.hpp"

struct Act { int k; uint32_t a, b, c; };
enum { A_ITER, A_GC, A_SHRINK, A_SAVE, A_LOOK, A_OBJ, A_BLOCK, A_STR, A_DUMPSTATE, A_ERRTEXT, A_RUN, A_CALL, A_EXT, A_DROP, A_LIMIT, A_ADDERR, A_KINDS };

struct Life
{
    Model m;
    std::vector<Act> acts;
    Bytes image;            // restored instead of compiled, if not empty
    bool restored = false;
    bool fillOnly = false;
    bool mayRefuse = false; // the image is damaged
};

struct Hooks
{
    std::function<void(Node &, const char *where)> boundary;   // after each API action
    std::function<bool(Node &)> stop;                          // give up on the rest
};

struct LifeRun
{
    Node &n;
    const Life &l;
    const Hooks &h;
    Trace &t;
    std::vector<NKValue> held;
    std::vector<std::pair<void *, uint32_t>> blocks;
    int stage = 0;
    size_t pos = 0;
    LifeRun(Node &nn, const Life &ll, const Hooks &hh, Trace &tt) : n(nn), l(ll), h(hh), t(tt) { }
    bool at(const char *where);
    bool step();
};

Life drawLife(World &w, bool allowRestore, bool limits = false);
// Lives the life up to (not including) nkxVmDelete.
void live(Node &n, const Life &l, const Hooks &h, Trace &t);
void lookAt(Node &n, const Model &m, uint32_t what);
