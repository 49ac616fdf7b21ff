// Helpers shared by the scenarios: run a program in the model, run it in a
// simulated process, compare what can be observed.
#pragma once
#include "gen.hpp"
#include "host.hpp"

struct Trace
{
    bool built = false;
    std::vector<Str> ev;
    bool err = false;
    Str errText;
    bool oom = false;
    bool ended = false;
    bool stuck = false;      // no end and no error within the step bound
    Str dump;
    uint64_t n = 0;          // instructions granted
};

struct Model
{
    Prog p;
    Ref r;
    Str dump;
    bool usable = false;     // terminated within the model's own bound
};

uint32_t subseed(Tape &t);
Model makeModel(World &w, const GenOpt &o, int fpArm = -1, uint32_t fieldLimit = 0xffffffffu, uint64_t cap = 20000);
void runModel(Model &m, int fpArm, uint32_t fieldLimit, uint64_t cap);
uint64_t stepBound(const Model &m);

// Grants instructions one slice at a time until the program ends, fails or
// the bound is hit. `slice` chooses the next slice; `between` runs between.
typedef std::function<uint32_t()> Slicer;
typedef std::function<void(Node &)> Between;
void drive(Node &n, uint64_t bound, const Slicer &slice, const Between &between, Trace &t);
Trace finish(Node &n, const Model &m, Trace t);
void contractChecks(Node &n, Trace &t);
Trace baseline(World &w, const Model &m, const NodeOpt &o = NodeOpt());

// Comparison. Returns false (and records the violation) on a difference.
bool sameTrace(World &w, const Str &cls, const Trace &a, const Trace &b, const Str &what, bool withDump = true, bool withErrText = true);
bool matchesModel(World &w, const Str &cls, const Model &m, const Trace &t, const Str &what, bool withDump = true);

Str dumpDiff(const Str &a, const Str &b);

struct SlicePolicy
{
    Tape &t;
    int mode;
    uint32_t fixed;
    explicit SlicePolicy(Tape &tt);
    uint32_t next();
};

// A script function for the host to call between slices, and its result.
void addProbe(World &w, Prog &p);
void callProbe(Node &n);
