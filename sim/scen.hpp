#pragma once
#include "exec.hpp"
GenOpt pickGen(Tape &t);
NodeOpt pickNode(Tape &t);
#define SCEN(X) X(P01) X(P02) X(P24) X(P03) X(P04) X(P05) X(P06) X(P10) X(P11) X(P13) X(P15) X(P17) X(P18) X(P12) X(P16) X(P21) X(P22) X(P07) X(P08) X(P09) X(P20) X(P19) X(P14) X(P31) X(P25) X(P26) X(P23)
#define X(p) void sc##p(World &w);
SCEN(X)
#undef X
