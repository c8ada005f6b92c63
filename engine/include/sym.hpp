// Harness-side view of symbolic values: formulas are built without splitting paths.
#pragma once
#include "../rt/rt.hpp"
#include <string>
#include <vector>
namespace sym {
struct Bool {
  SymE *e;
  Bool() : e(symx_bool(0)) {}
  Bool(bool b) : e(symx_bool(b)) {}
  explicit Bool(SymE *x) : e(x) {}
  bool conc() const { return symx_eval(e) != 0; }
};
struct Int {
  SymE *e;
  Int() : e(symx_const(0)) {}
  Int(long v) : e(symx_of(v)) {}
  Int(int v) : e(symx_of((long)v)) {}
  explicit Int(SymE *x) : e(x) {}
  long conc() const { return symx_eval(e); }
  long value() const { return symx_value(e); }
};
inline Int operator+(Int a, Int b) { return Int(symx_add(a.e, b.e)); }
inline Int operator-(Int a, Int b) { return Int(symx_sub(a.e, b.e)); }
inline Int operator*(Int a, long k) { return Int(symx_mulc(a.e, k)); }
inline Bool operator<=(Int a, Int b) { return Bool(symx_le(a.e, b.e)); }
inline Bool operator>=(Int a, Int b) { return Bool(symx_le(b.e, a.e)); }
inline Bool operator<(Int a, Int b) { return Bool(symx_not(symx_le(b.e, a.e))); }
inline Bool operator>(Int a, Int b) { return Bool(symx_not(symx_le(a.e, b.e))); }
inline Bool operator==(Int a, Int b) { return Bool(symx_eq(a.e, b.e)); }
inline Bool operator!=(Int a, Int b) { return Bool(symx_not(symx_eq(a.e, b.e))); }
inline Bool operator!(Bool a) { return Bool(symx_not(a.e)); }
inline Bool operator&(Bool a, Bool b) { return Bool(symx_and(a.e, b.e)); }
inline Bool operator|(Bool a, Bool b) { return Bool(symx_or(a.e, b.e)); }
inline Bool &operator&=(Bool &a, Bool b) { a = a & b; return a; }
inline Bool &operator|=(Bool &a, Bool b) { a = a | b; return a; }
inline Int &operator+=(Int &a, Int b) { a = a + b; return a; }
inline Bool implies(Bool a, Bool b) { return (!a) | b; }
inline Bool iff(Bool a, Bool b) { return (a & b) | ((!a) & (!b)); }
inline Int ite(Bool c, Int a, Int b) { return Int(symx_ite(c.e, a.e, b.e)); }
inline Bool ite(Bool c, Bool a, Bool b) { return (c & a) | ((!c) & b); }
inline Int min(Int a, Int b) { return ite(a <= b, a, b); }
inline Int max(Int a, Int b) { return ite(a <= b, b, a); }
inline void check(Bool b, const std::string &label) { symx_check(b.e, label.c_str()); }
inline void assume(Bool b) { symx_assume(b.e); }
inline void fail(const std::string &label, const std::string &detail = "") { symx_fail(label.c_str(), detail.c_str()); }
inline void reach(const std::string &l) { symx_reach(l.c_str()); }
inline bool fork(Bool b) { return symx_fork(b.e) != 0; }
}
