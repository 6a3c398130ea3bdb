// Independent model of the encodings, shared by the Ada (A01) and Scala (S01) checks.  The back end executes one
// operation of the runtime under test: encode a value into, or decode one from, a buffer at a bit position.
#pragma once
#include "../mc.hpp"
using namespace mc;
enum Op {
#define OP(x) O_##x,
#include "ops.inc"
#undef OP
NOPS };
enum { MAXS = 70000, MAXB = 140000, RES_FAIL = 0, RES_OK = 1, RES_EXC = 2, RES_NA = 3 };
extern "C" struct VecReq {
    int64_t p[6]; int64_t v; int32_t op, w, off, n1, n2, nb, st, pos, ns, pad;
    uint8_t s1[MAXS], s2[256], buf[MAXB], s[MAXS];
};
extern VecReq R;                     // request and answer
bool has(int op, int w);             // does the runtime offer this operation?
void call();                         // runs R.op; fills st, pos, v, s, ns and buf
extern const bool g_contracts;       // contracts (pre- and postconditions) are checked: operations outside them are left out
extern const char* g_backend;
