#include "core.hpp"
std::vector<VarInfo> gVars;
uint64_t gExprCount = 0;
static uint32_t nextId = 1;
static std::unordered_multimap<uint64_t, E *> eTab;
static std::unordered_multimap<uint64_t, Atom *> aTab;
static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
std::string i2s(i128 v) {
  if (v == 0) return "0";
  bool n = v < 0; std::string s; unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
  while (u) { s += char('0' + (int)(u % 10)); u /= 10; } if (n) s += '-'; std::reverse(s.begin(), s.end()); return s;
}
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if ((a % b) != 0 && ((a < 0) != (b < 0))) q--; return q; }
static i128 fmod_(i128 a, i128 b) { return a - b * fdiv(a, b); }
static E *newE(Kind k) { E *e = new E; e->kind = k; e->id = nextId++; gExprCount++; return e; }

E *lin(std::vector<Term> t, i128 k) {
  std::sort(t.begin(), t.end(), [](const Term &a, const Term &b) { return a.a->id < b.a->id; });
  size_t o = 0;
  for (size_t i = 0; i < t.size();) { i128 c = 0; size_t j = i; for (; j < t.size() && t[j].a == t[i].a; j++) c += t[j].c; if (c != 0) { t[o].a = t[i].a; t[o].c = c; o++; } i = j; }
  t.resize(o);
  uint64_t h = mix(0x1234, (uint64_t)k); h = mix(h, (uint64_t)(k >> 64));
  for (auto &x : t) { h = mix(h, x.a->id); h = mix(h, (uint64_t)x.c); }
  auto r = eTab.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { E *e = it->second; if (e->kind == INT && e->k == k && e->t.size() == t.size()) { bool same = true; for (size_t i = 0; i < t.size() && same; i++) same = e->t[i].a == t[i].a && e->t[i].c == t[i].c; if (same) return e; } }
  E *e = newE(INT); e->t = t; e->k = k; i128 lo = k, hi = k, cv = k;
  for (auto &x : t) { if (x.c > 0) { lo += x.c * x.a->lo; hi += x.c * x.a->hi; } else { lo += x.c * x.a->hi; hi += x.c * x.a->lo; } cv += x.c * x.a->cval; }
  e->lo = lo; e->hi = hi; e->cval = cv;
  eTab.emplace(h, e); return e;
}
E *mkConst(i128 v) { return lin({}, v); }
static E *B01[2] = {nullptr, nullptr};
E *mkBool(bool b) { if (!B01[b]) { B01[b] = newE(BCONST); B01[b]->cval = b; } return B01[b]; }
static Atom *atom(AOp op, E *x, E *y, E *c, i128 k, i128 lo, i128 hi, i128 cv) {
  uint64_t h = mix(op, x ? x->id : 0); h = mix(h, y ? y->id : 0); h = mix(h, c ? c->id : 0); h = mix(h, (uint64_t)k); h = mix(h, (uint64_t)(k >> 64));
  auto r = aTab.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { Atom *a = it->second; if (a->op == op && a->x == x && a->y == y && a->c == c && a->k == k) return a; }
  Atom *a = new Atom; a->op = op; a->id = nextId++; a->x = x; a->y = y; a->c = c; a->k = k; a->lo = lo; a->hi = hi; a->cval = cv;
  aTab.emplace(h, a); return a;
}
E *mkVar(int id, i128 lo, i128 hi, i128 cval) {
  Atom *a = new Atom; a->op = A_VAR; a->id = nextId++; a->var = id; a->lo = lo; a->hi = hi; a->cval = cval;
  if ((int)gVars.size() <= id) gVars.resize(id + 1);
  gVars[id].a = a;
  return lin({{a, 1}}, 0);
}
E *addE(E *a, E *b, int sb) {
  std::vector<Term> t = a->t; t.reserve(t.size() + b->t.size());
  for (auto &x : b->t) t.push_back({x.a, x.c * sb});
  return lin(std::move(t), a->k + sb * b->k);
}
E *subE(E *a, E *b) { return addE(a, b, -1); }
E *mulK(E *a, i128 k) { if (k == 1) return a; std::vector<Term> t = a->t; for (auto &x : t) x.c *= k; return lin(std::move(t), a->k * k); }
E *addK(E *a, i128 k) { if (k == 0) return a; return lin(a->t, a->k + k); }
E *divF(E *a, i128 k) {
  if (k == 1) return a;
  std::vector<Term> q, r;
  for (auto &x : a->t) { if (x.c % k == 0) q.push_back({x.a, x.c / k}); else r.push_back(x); }
  i128 kq = fdiv(a->k, k), kr = fmod_(a->k, k);
  E *re = lin(r, kr);
  if (fdiv(re->lo, k) == fdiv(re->hi, k)) return lin(std::move(q), kq + fdiv(re->lo, k));
  Atom *at = atom(A_DIV, re, nullptr, nullptr, k, fdiv(re->lo, k), fdiv(re->hi, k), fdiv(re->cval, k));
  q.push_back({at, 1});
  return lin(std::move(q), kq);
}
E *modF(E *a, i128 k) {
  if (k == 1) return mkConst(0);
  std::vector<Term> r; std::vector<E *> extra; 
  E *acc = mkConst(fmod_(a->k, k));
  for (auto &x : a->t) {
    i128 c = fmod_(x.c, k); if (c == 0) continue;
    if (c > k / 2) c -= k;
    if (x.a->op == A_MOD && x.a->k % k == 0) { acc = addE(acc, mulK(x.a->x, c)); continue; }
    acc = addE(acc, lin({{x.a, c}}, 0));
  }
  // reductions may have exposed new multiples
  { std::vector<Term> t; bool ch = false; for (auto &x : acc->t) { if (fmod_(x.c, k) == 0) { ch = true; continue; } t.push_back(x); } if (ch) acc = lin(t, acc->k); }
  // choose the offset (multiple of k) that may bring the interval inside [0,k)
  i128 q = fdiv(acc->lo, k); E *cand = addK(acc, -q * k);
  if (cand->lo >= 0 && cand->hi < k) return cand;
  // also try the unreduced form
  { i128 q2 = fdiv(a->lo, k); if (fdiv(a->hi, k) == q2) return addK(a, -q2 * k); }
  acc = addK(acc, fmod_(acc->k, k) - acc->k);
  Atom *at = atom(A_MOD, acc, nullptr, nullptr, k, 0, k - 1, fmod_(acc->cval, k));
  return lin({{at, 1}}, 0);
}
E *wrapS(E *a, int w) {
  if (w >= 120) return a;
  i128 lo = -pow2(w - 1), hi = pow2(w - 1) - 1;
  if (a->lo >= lo && a->hi <= hi) return a;
  E *m = modF(addK(a, pow2(w - 1)), pow2(w));
  return addK(m, -pow2(w - 1));
}
E *toU(E *a, int w) { if (a->lo >= 0) return a; if (a->hi < 0) return addK(a, pow2(w)); return modF(a, pow2(w)); }
E *iteE(E *c, E *a, E *b) {
  if (a == b) return a;
  if (c->kind == BCONST) return c->cval ? a : b;
  if (c->kind == BNOT) return iteE(c->x, b, a);
  Atom *at = atom(A_ITE, a, b, c, 0, std::min(a->lo, b->lo), std::max(a->hi, b->hi), c->cval ? a->cval : b->cval);
  return lin({{at, 1}}, 0);
}
static E *boolNode(Kind kd, E *x, E *y, i128 cv) {
  uint64_t h = mix(kd + 77, x->id); h = mix(h, y ? y->id : 0);
  auto r = eTab.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { E *e = it->second; if (e->kind == kd && e->x == x && e->y == y) return e; }
  E *e = newE(kd); e->x = x; e->y = y; e->cval = cv; eTab.emplace(h, e); return e;
}
static i128 g128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
// l is c*ITE(cond,x,y)+k with constant x,y : evaluate comparison per side
static E *iteCmp(E *l, bool eq) {
  if (l->t.size() != 1 || l->t[0].a->op != A_ITE) return nullptr;
  Atom *a = l->t[0].a; i128 c = l->t[0].c;
  E *vx = addK(mulK(a->x, c), l->k), *vy = addK(mulK(a->y, c), l->k);
  E *rx = nullptr, *ry = nullptr;
  auto quick = [&](E *v) -> E * { if (eq) { if (v->isConst()) return mkBool(v->k == 0); if (v->lo > 0 || v->hi < 0) return mkBool(false); } else { if (v->hi <= 0) return mkBool(true); if (v->lo > 0) return mkBool(false); } return nullptr; };
  rx = quick(vx); ry = quick(vy);
  if (!rx && !ry) return nullptr;
  if (!rx) rx = eq ? eqZ(vx) : leZ(vx);
  if (!ry) ry = eq ? eqZ(vy) : leZ(vy);
  return orE(andE(a->c, rx), andE(notE(a->c), ry));
}
E *leZ(E *a) {
  if (a->hi <= 0) return mkBool(true);
  if (a->lo > 0) return mkBool(false);
  if (E *r = iteCmp(a, false)) return r;
  i128 g = 0; for (auto &x : a->t) g = g128(g, x.c);
  if (g > 1) { std::vector<Term> t = a->t; for (auto &x : t) x.c /= g; a = lin(std::move(t), -fdiv(-a->k, g)); } // ceil(k/g)
  if (a->hi <= 0) return mkBool(true);
  if (a->lo > 0) return mkBool(false);
  if (a->t.size() == 1 && a->t[0].a->op == A_DIV) { // floor division against a constant is linear in the dividend
    Atom *d = a->t[0].a; i128 c = a->t[0].c; // |c| == 1 after the gcd step
    if (c == 1) return leZ(addK(d->x, -(d->k * -a->k + d->k - 1)));   // x/k <= -K
    if (c == -1) return leZ(addK(mulK(d->x, -1), d->k * a->k));        // x/k >= K
  }
  return boolNode(BLE, a, nullptr, a->cval <= 0);
}
E *eqZ(E *a) {
  if (a->lo > 0 || a->hi < 0) return mkBool(false);
  if (a->isConst()) return mkBool(a->k == 0);
  if (E *r = iteCmp(a, true)) return r;
  i128 g = 0; for (auto &x : a->t) g = g128(g, x.c);
  if (a->k % g != 0) return mkBool(false);
  if (a->t[0].c < 0) g = -g;
  if (g != 1) { std::vector<Term> t = a->t; for (auto &x : t) x.c /= g; a = lin(std::move(t), a->k / g); }
  if (a->t.size() == 1 && a->t[0].a->op == A_DIV) { Atom *d = a->t[0].a; i128 v = -a->k; return andE(leZ(addK(d->x, -(d->k * v + d->k - 1))), leZ(addK(mulK(d->x, -1), d->k * v))); }
  return boolNode(BEQ, a, nullptr, a->cval == 0);
}
E *leE(E *a, E *b) { return leZ(subE(a, b)); }
E *eqE(E *a, E *b) { return eqZ(subE(a, b)); }
E *notE(E *a) {
  if (a->neg) return a->neg;
  E *r;
  if (a->kind == BCONST) r = mkBool(!a->cval);
  else if (a->kind == BNOT) r = a->x;
  else if (a->kind == BLE) { E *n = addK(mulK(a->x, -1), 1); r = leZ(n); } // not(x<=0) == 1-x<=0
  else if (a->kind == BAND) r = orE(notE(a->x), notE(a->y));
  else if (a->kind == BOR) r = andE(notE(a->x), notE(a->y));
  else r = boolNode(BNOT, a, nullptr, !a->cval);
  a->neg = r; if (!r->neg) r->neg = a; return r;
}
E *andE(E *a, E *b) {
  if (a->kind == BCONST) return a->cval ? b : a;
  if (b->kind == BCONST) return b->cval ? a : b;
  if (a == b) return a;
  if (a->neg == b) return mkBool(false);
  if (a->id > b->id) std::swap(a, b);
  return boolNode(BAND, a, b, a->cval && b->cval);
}
E *orE(E *a, E *b) {
  if (a->kind == BCONST) return a->cval ? a : b;
  if (b->kind == BCONST) return b->cval ? b : a;
  if (a == b) return a;
  if (a->neg == b) return mkBool(true);
  if (a->id > b->id) std::swap(a, b);
  return boolNode(BOR, a, b, a->cval || b->cval);
}
E *mkXor(E *a, E *b) { return orE(andE(a, notE(b)), andE(notE(a), b)); }
E *b2i(E *b) { return iteE(b, mkConst(1), mkConst(0)); }
E *i2b(E *i) { return notE(eqZ(i)); }
E *boolOf(E *e) { if (e->kind == INT) return i2b(e); return e; }
E *intOf(E *e) { if (e->kind == INT) return e; return b2i(e); }
E *mkReal(E *num, int sh) {
  while (sh > 0) { bool ev = num->k % 2 == 0; for (auto &x : num->t) ev = ev && x.c % 2 == 0; if (!ev) break; std::vector<Term> t = num->t; for (auto &x : t) x.c /= 2; num = lin(t, num->k / 2); sh--; }
  uint64_t h = mix(991, num->id); h = mix(h, sh);
  auto r = eTab.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { E *e = it->second; if (e->kind == REAL && e->x == num && e->sh == sh) return e; }
  E *e = newE(REAL); e->x = num; e->sh = sh; e->cval = num->cval; eTab.emplace(h, e); return e;
}
static i128 evalA(Atom *a, const std::vector<int64_t> &m, uint32_t ep);
i128 evalE(E *e, const std::vector<int64_t> &m, uint32_t ep) {
  if (e->ep == ep) return e->ev;
  i128 v = 0;
  switch (e->kind) {
  case INT: v = e->k; for (auto &x : e->t) v += x.c * evalA(x.a, m, ep); break;
  case BLE: v = evalE(e->x, m, ep) <= 0; break;
  case BEQ: v = evalE(e->x, m, ep) == 0; break;
  case BNOT: v = !evalE(e->x, m, ep); break;
  case BAND: v = evalE(e->x, m, ep) && evalE(e->y, m, ep); break;
  case BOR: v = evalE(e->x, m, ep) || evalE(e->y, m, ep); break;
  case BCONST: v = e->cval; break;
  case REAL: v = evalE(e->x, m, ep); break;
  }
  e->ep = ep; e->ev = v; return v;
}
static i128 evalA(Atom *a, const std::vector<int64_t> &m, uint32_t ep) {
  if (a->ep == ep) return a->ev;
  i128 v = 0;
  switch (a->op) {
  case A_VAR: v = a->var < (int)m.size() ? m[a->var] : a->cval; break;
  case A_ITE: v = evalE(a->c, m, ep) ? evalE(a->x, m, ep) : evalE(a->y, m, ep); break;
  case A_DIV: v = fdiv(evalE(a->x, m, ep), a->k); break;
  case A_MOD: v = fmod_(evalE(a->x, m, ep), a->k); break;
  }
  a->ep = ep; a->ev = v; return v;
}
std::string showE(E *e, int d) {
  if (d > 12) return "...";
  switch (e->kind) {
  case INT: { std::string s; for (auto &x : e->t) { if (x.c != 1) s += i2s(x.c) + "*"; Atom *a = x.a; if (a->op == A_VAR) s += gVars[a->var].name; else if (a->op == A_ITE) s += "ite(" + showE(a->c, d + 1) + "," + showE(a->x, d + 1) + "," + showE(a->y, d + 1) + ")"; else s += std::string(a->op == A_DIV ? "div(" : "mod(") + showE(a->x, d + 1) + "," + i2s(a->k) + ")"; s += " + "; } return s + i2s(e->k); }
  case BLE: return "(" + showE(e->x, d + 1) + " <= 0)";
  case BEQ: return "(" + showE(e->x, d + 1) + " == 0)";
  case BNOT: return "!" + showE(e->x, d + 1);
  case BAND: return "(" + showE(e->x, d + 1) + " & " + showE(e->y, d + 1) + ")";
  case BOR: return "(" + showE(e->x, d + 1) + " | " + showE(e->y, d + 1) + ")";
  case BCONST: return e->cval ? "true" : "false";
  case REAL: return "real(" + showE(e->x, d + 1) + "/2^" + std::to_string(e->sh) + ")";
  }
  return "?";
}
