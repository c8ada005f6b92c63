// Deep comparison of two answers whose numbers may be symbolic.
#pragma once
#include "vt.hpp"
namespace vt {
// off: shift(key) tells by how much the number under that key must have moved
inline Bool eqJson(const json &a, const json &b, std::string &where, const std::function<Int(const std::string &)> &off = nullptr, const std::string &key = "") {
  if (a.is_number() && b.is_number()) {
    if (a.is_number_float() || b.is_number_float()) { double x = a.get<double>(), y = b.get<double>(); if (x == y) return Bool(true); where = key; return Bool(false); }
    long x = a.get<long>(), y = b.get<long>(); Bool r = off ? Int(x) + off(key) == Int(y) : Int(x) == Int(y); if (!r.conc() && where.empty()) where = key; return r;
  }
  if (a.type() != b.type()) { where = key + " (type)"; return Bool(false); }
  if (a.is_object()) { if (a.size() != b.size()) { where = key + " (members)"; return Bool(false); } Bool r(true); auto i = a.begin(), k = b.begin(); for (; i != a.end(); ++i, ++k) { if (i.key() != k.key()) { where = i.key(); return Bool(false); } r &= eqJson(i.value(), k.value(), where, off, i.key()); } return r; }
  if (a.is_array()) { if (a.size() != b.size()) { where = key + " (length)"; return Bool(false); } Bool r(true); for (size_t i = 0; i < a.size(); i++) r &= eqJson(a[i], b[i], where, off, key); return r; }
  if (a == b) return Bool(true); where = key; return Bool(false);
}
inline void checkEq(const json &a, const json &b, const std::string &label, const std::function<Int(const std::string &)> &off = nullptr) {
  std::string w; Bool r = eqJson(a, b, w, off); if (!w.empty() && symx_arg_int("show", 0)) fprintf(stderr, "differs at %s\n", w.c_str()); check(r, label);
}
}
