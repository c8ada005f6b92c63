// Difference-bound domain over atoms with propagation of general linear constraints.
// refute()==true is a sound proof of infeasibility over the integers; models it proposes are
// validated by evaluation.  Whatever it leaves open goes to z3.
#pragma once
#include "core.hpp"
static const int64_t DINF = (int64_t)1 << 61;
struct Dom {
  int n = 1, cap = 0; std::vector<int64_t> d; std::vector<Atom *> atoms{nullptr}; std::vector<E *> kary; bool bad = false;
  static const int MAXN = 160;
  int64_t &at(int i, int j) { return d[(size_t)i * cap + j]; }
  void grow(int m) {
    if (m <= cap) return; int nc = std::max(16, cap * 2); while (nc < m) nc *= 2; std::vector<int64_t> x((size_t)nc * nc, DINF);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) x[(size_t)i * nc + j] = cap ? d[(size_t)i * cap + j] : 0;
    d.swap(x); cap = nc;
  }
  Dom() { grow(1); at(0, 0) = 0; }
  static inline int64_t sadd(int64_t a, int64_t b) { if (a >= DINF || b >= DINF) return DINF; int64_t r = a + b; return r >= DINF ? DINF : r; }
  int node(Atom *a, bool create) {
    if (a->dom > 0 && a->dom < n && atoms[a->dom] == a) return a->dom;
    if (!create || n >= MAXN) return -1;
    i128 L = (i128)1 << 59; int64_t hi = a->hi > L ? DINF : (int64_t)(a->hi < -L ? -L : a->hi), ml = -a->lo > L ? DINF : (int64_t)(-a->lo < -L ? -L : -a->lo);
    grow(n + 1); int i = n++; atoms.push_back(a); a->dom = i;
    at(i, i) = 0; at(i, 0) = hi; at(0, i) = ml;
    for (int j = 1; j < i; j++) { at(i, j) = sadd(hi, at(0, j)); at(j, i) = sadd(at(j, 0), ml); }
    return i;
  }
  bool tighten(int i, int j, i128 kk) { // x_i - x_j <= k
    if (kk >= DINF) return !bad; int64_t k = kk < -(DINF / 2) ? -(DINF / 2) : (int64_t)kk;
    if (k >= at(i, j)) return !bad;
    if (at(j, i) < DINF && at(j, i) + k < 0) { bad = true; return false; }
    for (int a = 0; a < n; a++) { int64_t l = sadd(at(a, i), k); if (l >= DINF) continue; int64_t *ra = &d[(size_t)a * cap], *rj = &d[(size_t)j * cap]; for (int b = 0; b < n; b++) { int64_t v = rj[b] >= DINF ? DINF : l + rj[b]; if (v < ra[b]) { ra[b] = v; if (a == b && v < 0) { bad = true; return false; } } } }
    changed = true;
    return true;
  }
  bool changed = false;
  // min of c*x, or false when unbounded
  bool tmin(int i, i128 c, i128 &r) { if (c > 0) { if (at(0, i) >= DINF) return false; r = -(i128)at(0, i) * c; } else { if (at(i, 0) >= DINF) return false; r = (i128)at(i, 0) * c; } return true; }
  bool propLin(E *l) { // l <= 0
    int m = l->t.size(); if (m == 0) { if (l->k > 0) bad = true; return !bad; }
    int idx[12]; if (m > 12) return true;
    for (int i = 0; i < m; i++) { idx[i] = node(l->t[i].a, true); if (idx[i] < 0) return true; }
    if (m == 1) { i128 c = l->t[0].c; if (c > 0) return tighten(idx[0], 0, floordiv(-l->k, c)); return tighten(0, idx[0], floordiv(-l->k, -c)); }
    if (m == 2 && l->t[0].c == 1 && l->t[1].c == -1) return tighten(idx[0], idx[1], -l->k);
    if (m == 2 && l->t[0].c == -1 && l->t[1].c == 1) return tighten(idx[1], idx[0], -l->k);
    i128 mn[12]; int unb = 0, ub1 = -1, ub2 = -1; i128 tot = 0;
    for (int i = 0; i < m; i++) { if (!tmin(idx[i], l->t[i].c, mn[i])) { unb++; ub2 = ub1; ub1 = i; mn[i] = 0; } else tot += mn[i]; }
    if (unb > 2) return true;
    for (int i = 0; i < m && !bad; i++) { if (unb > 1 || (unb == 1 && ub1 != i)) continue; i128 c = l->t[i].c, rest = -l->k - (tot - mn[i]);
      if (m == 3) { int p = (i + 1) % 3, q = (i + 2) % 3; i128 cp = l->t[p].c, cq = l->t[q].c; if (cp == -cq && (cp == 1 || cp == -1)) { int64_t u = cp == 1 ? at(idx[q], idx[p]) : at(idx[p], idx[q]); if (u < DINF) rest = std::min(rest, -l->k + (i128)u); } }
      if (c > 0) tighten(idx[i], 0, floordiv(rest, c)); else tighten(0, idx[i], floordiv(rest, -c)); }
    for (int i = 0; i < m && !bad; i++) if (l->t[i].c == 1) for (int j = 0; j < m && !bad; j++) if (l->t[j].c == -1) {
      i128 o = 0; bool ok = true; int p = -1, q = -1, cnt = 0;
      for (int z = 0; z < m; z++) if (z != i && z != j) { i128 v; if (!tmin(idx[z], l->t[z].c, v)) ok = false; else o += v; cnt++; if (l->t[z].c == 1) p = z; else if (l->t[z].c == -1) q = z; }
      if (cnt == 2 && p >= 0 && q >= 0 && at(idx[q], idx[p]) < DINF) { i128 v = -(i128)at(idx[q], idx[p]); if (!ok || v > o) { o = v; ok = true; } }
      if (ok) tighten(idx[i], idx[j], -l->k - o);
    }
    return !bad;
  }
  static i128 floordiv(i128 a, i128 b) { i128 q = a / b; if ((a % b) != 0 && ((a < 0) != (b < 0))) q--; return q; }
  void addLin(E *l) { if (bad) return; if (!simple(l)) kary.push_back(l); propLin(l); }
  static bool simple(E *l) { return l->t.size() <= 1 || (l->t.size() == 2 && ((l->t[0].c == 1 && l->t[1].c == -1) || (l->t[0].c == -1 && l->t[1].c == 1))); }
  bool fix(int rounds = 5) { for (int r = 0; r < rounds && !bad; r++) { changed = false; for (E *l : kary) if (!propLin(l)) return false; if (!changed) break; } return !bad; }
  // conjunction of atoms only; disjunctions are ignored (weaker, still sound for refutation)
  void addCond(E *c) {
    if (bad) return;
    switch (c->kind) {
    case BCONST: if (!c->cval) bad = true; break;
    case BLE: addLin(c->x); break;
    case BEQ: addLin(c->x); addLin(mulK(c->x, -1)); break;
    case BAND: addCond(c->x); addCond(c->y); break;
    default: break;
    }
  }
};
