// Expression core of the symbolic runtime: mathematical-integer linear forms over
// atoms (variables, if-then-else, floor division, modulus), boolean formulas, and
// dyadic rationals.  Machine integers of width w are represented by their signed value;
// wrap-around is encoded with an explicit modulus whenever interval analysis cannot
// exclude it, so the encoding is exact for LLVM's two's complement semantics.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
typedef __int128 i128;
struct E; struct Atom;
struct Term { Atom *a; i128 c; };
enum Kind : uint8_t { INT, BLE, BEQ, BNOT, BAND, BOR, BCONST, REAL };
enum AOp : uint8_t { A_VAR, A_ITE, A_DIV, A_MOD };
struct E {
  Kind kind; uint32_t id; std::vector<Term> t; i128 k = 0; i128 lo = 0, hi = 0; // INT
  E *x = nullptr, *y = nullptr; int sh = 0;                                    // BOOL children / REAL num
  i128 cval = 0; void *z = nullptr; uint32_t ep = 0; i128 ev = 0; E *neg = nullptr;
  bool isConst() const { return kind == BCONST || (kind == INT && t.empty()); }
};
struct Atom { AOp op; uint32_t id; E *x = nullptr, *y = nullptr, *c = nullptr; i128 k = 0; i128 lo, hi; i128 cval; int var = -1; int dom = -1; void *z = nullptr; uint32_t ep = 0; i128 ev = 0; };

struct VarInfo { std::string name; int64_t lo, hi; Atom *a; };
extern std::vector<VarInfo> gVars;

E *mkConst(i128 v);
E *mkBool(bool b);
E *mkVar(int id, i128 lo, i128 hi, i128 cval);
E *lin(std::vector<Term> t, i128 k);
E *addE(E *a, E *b, int sb = 1);
E *mulK(E *a, i128 k);
E *addK(E *a, i128 k);
E *divF(E *a, i128 k);   // floor division by positive constant
E *modF(E *a, i128 k);   // floor modulus by positive constant
E *iteE(E *c, E *a, E *b);
E *leZ(E *a);            // a <= 0
E *eqZ(E *a);            // a == 0
E *leE(E *a, E *b);
E *eqE(E *a, E *b);
E *notE(E *a);
E *andE(E *a, E *b);
E *orE(E *a, E *b);
E *mkReal(E *num, int sh);
E *wrapS(E *a, int w);   // to signed range of width w
E *toU(E *a, int w);     // signed value -> unsigned value
E *b2i(E *b);
E *i2b(E *i);            // i != 0
i128 evalE(E *e, const std::vector<int64_t> &m, uint32_t epoch);
std::string showE(E *e, int depth = 0);
std::string i2s(i128 v);
inline i128 pow2(int n) { return (i128)1 << n; }
E *boolOf(E *e);
E *intOf(E *e);
E *subE(E *a, E *b);
E *mkXor(E *a, E *b);
// statistics
extern uint64_t gExprCount;
