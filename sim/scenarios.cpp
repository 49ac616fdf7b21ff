#include "scen.hpp"
Scenario g_scenarios[] = {
#define X(p) { #p, sc##p, 30000 },
    SCEN(X)
#undef X
    { nullptr, nullptr, 0 }
};
