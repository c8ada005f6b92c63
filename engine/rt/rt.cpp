// Symbolic runtime: shadow state, path condition, solver, exhaustive explorer.
#include "core.hpp"
#include "rt.hpp"
#include "dom.hpp"
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <malloc.h>
#include <cmath>
#include <cstdarg>
#include <map>
#include <set>
#include <deque>
#include <time.h>
#include <errno.h>
#include <poll.h>

#define API extern "C" __attribute__((visibility("default")))
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- shadow memory
struct ByteSh { E *e; uint32_t idx; uint32_t n; };
static const int PB = 8; static const uint64_t PS = 1u << PB;                 // bytes per shadow page
struct Page { ByteSh b[1u << PB]; };
static int inSolver = 0;   // inside the runtime's own containers or the solver: heap hooks do nothing
static const uint32_t FN = 1u << 18; static uint16_t filt[FN];                // symbolic bytes per 64-byte line (aliased)
static inline uint32_t fidx(uint64_t a) { return (uint32_t)((a >> 6) ^ (a >> 29)) & (FN - 1); }
static inline bool maybe(uint64_t a) { return filt[fidx(a)] != 0; }
struct Ent { uint64_t key; Page *p; };
static Ent *tab = nullptr; static size_t tabN = 0, tabUsed = 0;
static void growTab() {
  size_t n = tabN ? tabN * 2 : 1024; Ent *t = (Ent *)calloc(n, sizeof(Ent));
  for (size_t i = 0; i < tabN; i++) if (tab[i].p) { size_t h = (tab[i].key * 0x9E3779B97F4A7C15ull >> 20) & (n - 1); while (t[h].p) h = (h + 1) & (n - 1); t[h] = tab[i]; }
  free(tab); tab = t; tabN = n;
}
static uint64_t lastPg = ~0ull; static Page *lastPage = nullptr;
static inline Page *getPage(uint64_t a, bool create) {
  uint64_t pg = a >> PB; if (pg == lastPg) return lastPage;
  if (!tabN) { if (!create) return nullptr; growTab(); }
  size_t h = (pg * 0x9E3779B97F4A7C15ull >> 20) & (tabN - 1);
  while (tab[h].p && tab[h].key != pg) h = (h + 1) & (tabN - 1);
  Page *p = tab[h].p;
  if (!p) { if (!create) return nullptr; p = (Page *)calloc(1, sizeof(Page)); tab[h] = {pg, p}; if (++tabUsed * 2 > tabN) growTab(); }
  lastPg = pg; lastPage = p; return p;
}
static inline void setByte(uint64_t a, E *e, uint32_t idx, uint32_t n) {
  if (!e && !maybe(a)) return;
  Page *p = getPage(a, e != nullptr); if (!p) return;
  ByteSh &s = p->b[a & (PS - 1)];
  if (s.e && !e) filt[fidx(a)]--; else if (!s.e && e) filt[fidx(a)]++;
  s.e = e; s.idx = idx; s.n = n;
}
static inline ByteSh getByte(uint64_t a) { if (!maybe(a)) return {nullptr, 0, 0}; Page *p = getPage(a, false); if (!p) return {nullptr, 0, 0}; return p->b[a & (PS - 1)]; }
static void clearRange(uint64_t a, uint64_t n) {
  uint64_t end = a + n;
  while (a < end) {
    uint64_t pe = (a | 63) + 1; if (pe > end) pe = end;
    if (maybe(a)) { if (Page *p = getPage(a, false)) { (void)p; for (uint64_t x = a; x < pe; x++) setByte(x, nullptr, 0, 0); } }
    a = pe;
  }
}
static uint64_t nStale = 0, nFullDrop = 0;

// ---------------------------------------------------------------- run state
struct ItemHdr { uint32_t nin, bound, nimp, nconc; uint64_t hash; };
struct Item { std::vector<int64_t> in; std::vector<uint8_t> has; uint32_t bound = 0; std::vector<uint8_t> imp; std::vector<std::pair<uint32_t, int64_t>> conc; uint64_t hash = 0; };
static Item cur;                // item being executed
static bool inRun = false; static __thread bool isMain;
static uint32_t nBranch = 0; static uint64_t pathHash = 0;
static std::vector<uint8_t> impBits;      // per branch: implied (not asserted)
static std::vector<std::pair<uint32_t, int64_t>> concHist;
static std::vector<E *> pc; static size_t pcAsserted = 0;
static std::unordered_set<E *> known;     // conditions already on the path
static std::unordered_map<uint64_t, std::vector<std::pair<E *, std::pair<i128, i128>>>> bnds;
static uint32_t epoch = 1;
static int nVars = 0;
static bool gTrace = false;
static long gMaxBranch = 200000; static double gQueryTO = 5000;
static std::map<std::string, std::string> gOpts;
static bool gSingle = false;

// shared slot for child -> parent
struct Slot { uint32_t magic; uint32_t status; uint64_t len; uint64_t nq, nsat, nunsat, nunk, ncache, nbranch, nasserts, nconcr, nsyntactic, nfu, nfs, nxc; double tsolve, tfast; uint32_t nitems; uint32_t nviol; uint32_t nin; uint32_t pad; int64_t in[4096]; uint32_t nameLen; char names[65536]; uint8_t data[1]; };
static const size_t SLOTSZ = 64u << 20;
static Slot *slot = nullptr; static Slot dummySlot;
static void put(const void *p, size_t n) { if (slot == &dummySlot) return; if (sizeof(Slot) + slot->len + n > SLOTSZ) { slot->status = 77; _exit(77); } memcpy(slot->data + slot->len, p, n); slot->len += n; }
static void putRec(uint8_t tag, const std::string &s) { uint32_t n = s.size(); put(&tag, 1); put(&n, 4); put(s.data(), n); }
enum { R_ITEM = 1, R_VIOL = 2, R_REACH = 3, R_NOTE = 4, R_SITE = 5, R_INC = 6, R_NAMES = 7, R_INPUT = 8 };
static std::set<std::string> reached, incompl; static std::set<uint32_t> sites;

static std::string encItem(const Item &it) {
  std::string s; ItemHdr h{(uint32_t)it.in.size(), it.bound, (uint32_t)it.imp.size(), (uint32_t)it.conc.size(), it.hash};
  s.append((char *)&h, sizeof h); s.append((char *)it.in.data(), it.in.size() * 8); s.append((char *)it.has.data(), it.has.size());
  s.append((char *)it.imp.data(), it.imp.size()); for (auto &c : it.conc) { s.append((char *)&c.first, 4); s.append((char *)&c.second, 8); }
  return s;
}
static Item decItem(const std::string &s) {
  Item it; const char *p = s.data(); ItemHdr h; memcpy(&h, p, sizeof h); p += sizeof h; it.bound = h.bound; it.hash = h.hash;
  it.in.resize(h.nin); memcpy(it.in.data(), p, h.nin * 8); p += h.nin * 8; it.has.resize(h.nin); memcpy(it.has.data(), p, h.nin); p += h.nin;
  it.imp.resize(h.nimp); memcpy(it.imp.data(), p, h.nimp); p += h.nimp;
  for (uint32_t i = 0; i < h.nconc; i++) { std::pair<uint32_t, int64_t> c; memcpy(&c.first, p, 4); memcpy(&c.second, p + 4, 8); p += 12; it.conc.push_back(c); }
  return it;
}

// ---------------------------------------------------------------- z3
static Z3_context zc; static Z3_solver zs; static Z3_sort zInt;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(78); }
static void zinit() {
  if (const char *pp = getenv("SYM_Z3PARAMS")) { std::string q = pp; size_t p = 0; while (p < q.size()) { size_t e = q.find(';', p); if (e == std::string::npos) e = q.size(); std::string kv = q.substr(p, e - p); size_t m = kv.find('='); if (m != std::string::npos) Z3_global_param_set(kv.substr(0, m).c_str(), kv.substr(m + 1).c_str()); p = e + 1; } }
  Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(zc, zerr);
  zs = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, zs); zInt = Z3_mk_int_sort(zc); Z3_inc_ref(zc, (Z3_ast)zInt);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "arith.solver"), 2); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), (unsigned)gQueryTO); Z3_solver_set_params(zc, zs, p); Z3_params_dec_ref(zc, p);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(zc, a); return a; }
static Z3_ast znum(i128 v) { if (v >= INT64_MIN && v <= INT64_MAX) return keep(Z3_mk_int64(zc, (int64_t)v, zInt)); return keep(Z3_mk_numeral(zc, i2s(v).c_str(), zInt)); }
static Z3_ast zE(E *e);
static Z3_ast zA(Atom *a) {
  if (a->z) return (Z3_ast)a->z;
  Z3_ast r;
  switch (a->op) {
  case A_VAR: r = keep(Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("v" + std::to_string(a->var)).c_str()), zInt)); break;
  case A_ITE: r = keep(Z3_mk_ite(zc, zE(a->c), zE(a->x), zE(a->y))); break;
  case A_DIV: r = keep(Z3_mk_div(zc, zE(a->x), znum(a->k))); break;
  default: r = keep(Z3_mk_mod(zc, zE(a->x), znum(a->k))); break;
  }
  a->z = r; return r;
}
static Z3_ast zE(E *e) {
  if (e->z) return (Z3_ast)e->z;
  Z3_ast r = nullptr;
  switch (e->kind) {
  case INT: {
    std::vector<Z3_ast> ts;
    for (auto &x : e->t) { Z3_ast a = zA(x.a); if (x.c != 1) { Z3_ast m[2] = {znum(x.c), a}; a = keep(Z3_mk_mul(zc, 2, m)); } ts.push_back(a); }
    if (e->k != 0 || ts.empty()) ts.push_back(znum(e->k));
    r = ts.size() == 1 ? ts[0] : Z3_mk_add(zc, ts.size(), ts.data()); break; }
  case BLE: { // sum + k <= 0  ->  sum <= -k
    std::vector<Z3_ast> ts; for (auto &x : e->x->t) { Z3_ast a = zA(x.a); if (x.c != 1) { Z3_ast m[2] = {znum(x.c), a}; a = keep(Z3_mk_mul(zc, 2, m)); } ts.push_back(a); }
    Z3_ast s = ts.size() == 1 ? ts[0] : keep(Z3_mk_add(zc, ts.size(), ts.data())); r = Z3_mk_le(zc, s, znum(-e->x->k)); break; }
  case BEQ: { std::vector<Z3_ast> ts; for (auto &x : e->x->t) { Z3_ast a = zA(x.a); if (x.c != 1) { Z3_ast m[2] = {znum(x.c), a}; a = keep(Z3_mk_mul(zc, 2, m)); } ts.push_back(a); }
    Z3_ast s = ts.size() == 1 ? ts[0] : keep(Z3_mk_add(zc, ts.size(), ts.data())); r = Z3_mk_eq(zc, s, znum(-e->x->k)); break; }
  case BNOT: r = Z3_mk_not(zc, zE(e->x)); break;
  case BAND: { Z3_ast m[2] = {zE(e->x), zE(e->y)}; r = Z3_mk_and(zc, 2, m); break; }
  case BOR: { Z3_ast m[2] = {zE(e->x), zE(e->y)}; r = Z3_mk_or(zc, 2, m); break; }
  case BCONST: r = e->cval ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
  case REAL: fprintf(stderr, "REAL in formula\n"); _exit(79);
  }
  e->z = keep(r); return r;
}
// --- syntactic entailment from single linear bounds
static uint64_t linKey(E *l, bool &negd) {
  negd = l->t[0].c < 0; uint64_t h = 7;
  for (auto &x : l->t) { h = h * 1000003u + x.a->id; h = h * 1000003u + (uint64_t)(negd ? -x.c : x.c); }
  return h;
}
static std::pair<i128, i128> *findB(E *l, bool create) {
  bool ng; uint64_t h = linKey(l, ng); auto &v = bnds[h];
  for (auto &p : v) { E *o = p.first; if (o->t.size() != l->t.size()) continue; bool on = o->t[0].c < 0, same = true; for (size_t i = 0; i < o->t.size() && same; i++) same = o->t[i].a == l->t[i].a && (on ? -o->t[i].c : o->t[i].c) == (ng ? -l->t[i].c : l->t[i].c); if (same) return &p.second; }
  if (!create) return nullptr;
  v.push_back({l, {-(pow2(120)), pow2(120)}}); return &v.back().second;
}
static Dom dom;
static void learn(E *c, bool top = true) {
  if (top) dom.addCond(c);
  known.insert(c);
  if (c->kind == BAND) { learn(c->x, false); learn(c->y, false); return; }
  if (c->kind == BLE) { bool ng; linKey(c->x, ng); auto *b = findB(c->x, true); if (!ng) b->second = std::min(b->second, -c->x->k); else b->first = std::max(b->first, c->x->k); }
  if (c->kind == BEQ) { bool ng; linKey(c->x, ng); auto *b = findB(c->x, true); i128 v = ng ? c->x->k : -c->x->k; b->first = std::max(b->first, v); b->second = std::min(b->second, v); }
}
// 1: entailed, 0: refuted, -1: unknown
static int entail(E *c) {
  if (c->kind == BCONST) return (int)c->cval;
  if (known.count(c)) return 1; if (known.count(notE(c))) return 0;
  if (c->kind == BLE) { auto *b = findB(c->x, false); if (b) { bool ng; linKey(c->x, ng); if (!ng) { if (b->second <= -c->x->k) return 1; if (b->first > -c->x->k) return 0; } else { if (b->first >= c->x->k) return 1; if (b->second < c->x->k) return 0; } } }
  if (c->kind == BEQ) { auto *b = findB(c->x, false); if (b) { bool ng; linKey(c->x, ng); i128 v = ng ? c->x->k : -c->x->k; if (v < b->first || v > b->second) return 0; if (b->first == v && b->second == v) return 1; } }
  if (c->kind == BAND) { int a = entail(c->x), b = entail(c->y); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; }
  if (c->kind == BOR) { int a = entail(c->x), b = entail(c->y); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; }
  if (c->kind == BNOT) { int a = entail(c->x); if (a >= 0) return !a; }
  return -1;
}
static void addPc(E *c, bool assertIt) {
  learn(c);
  if (!assertIt) return;
  pc.push_back(c);
}
// a single bound that a later, tighter bound on the same linear form makes redundant
static bool subsumed(E *c) {
  if (c->kind != BLE) return false;
  auto *b = findB(c->x, false); if (!b) return false; bool ng; linKey(c->x, ng);
  return ng ? b->first > c->x->k : b->second < -c->x->k;
}
static size_t varsAsserted = 0;
static std::set<std::string> nothing;
static void flushPc() {
  for (; varsAsserted < (size_t)nVars; varsAsserted++) {
    VarInfo &v = gVars[varsAsserted]; Z3_ast a = zA(v.a);
    Z3_solver_assert(zc, zs, keep(Z3_mk_ge(zc, a, znum(v.lo)))); Z3_solver_assert(zc, zs, keep(Z3_mk_le(zc, a, znum(v.hi))));
  }
  for (; pcAsserted < pc.size(); pcAsserted++) if (!subsumed(pc[pcAsserted])) Z3_solver_assert(zc, zs, zE(pc[pcAsserted]));
}
static bool gFast = true; static unsigned gCross = 97;
static void splitOr(E *f, std::vector<E *> &o, int lim = 24) {
  if ((int)o.size() >= lim) { o.push_back(f); return; }
  if (f->kind == BOR) { splitOr(f->x, o, lim); splitOr(f->y, o, lim); return; }
  if (f->kind == BAND && (f->x->kind == BOR || f->y->kind == BOR)) { E *a = f->x, *b = f->y; if (a->kind != BOR) std::swap(a, b); splitOr(andE(a->x, b), o, lim); splitOr(andE(a->y, b), o, lim); return; }
  if (f->kind == BNOT && f->x->kind == BEQ) { E *l = f->x->x; o.push_back(leZ(addK(l, 1))); o.push_back(leZ(addK(mulK(l, -1), 1))); return; }
  o.push_back(f);
}
static bool satisfies(const std::vector<int64_t> &m, E *f) { ++epoch; if (!evalE(f, m, epoch)) return false; for (size_t i = pc.size(); i-- > 0;) if (!evalE(pc[i], m, epoch)) return false; return true; }
static bool complete(Dom &q, std::vector<int64_t> &m, bool far) {
  m = cur.in; m.resize(nVars);
  // variables whose current value is outside the tightened interval first, then the rest
  for (int pass = 0; pass < 2; pass++) for (int i = 0; i < nVars; i++) {
    Atom *a = gVars[i].a; int nd = q.node(a, false); if (nd < 0) continue;
    int64_t lo = -q.at(0, nd), hi = q.at(nd, 0); int64_t v = m[i]; bool outside = v < lo || v > hi;
    if (pass == 0 && !outside) continue;
    if (lo > hi) return false;
    if (outside) v = far ? lo + (hi - lo) / 2 : (v < lo ? lo : hi);
    m[i] = v; if (lo != hi) { if (!q.tighten(nd, 0, v) || !q.tighten(0, nd, -(i128)v) || !q.fix(2)) return false; }
  }
  return true;
}
static int fastQuery(E *f, std::vector<int64_t> &model) {
  std::vector<E *> alts; splitOr(f, alts); bool allUnsat = true;
  for (E *g : alts) {
    if (g->kind == BCONST && !g->cval) continue;
    Dom q = dom; if (q.bad) { return -1; }
    q.addCond(g); if (q.bad || !q.fix()) continue;
    allUnsat = false;
    Dom q2 = q; std::vector<int64_t> m;
    if (complete(q2, m, false) && satisfies(m, f)) { model = m; return 1; }
    if (complete(q, m, true) && satisfies(m, f)) { model = m; return 1; }
  }
  return allUnsat ? 0 : -1;
}
// returns 1 sat (model filled), 0 unsat, -1 unknown
static int query(E *f, std::vector<int64_t> &model, bool useZ3 = false) {
  if (f->kind == BCONST && !f->cval) return 0;
  double t0 = now();
  int fast = -1;
  if (gFast) {
    fast = fastQuery(f, model);
    slot->tfast += now() - t0;
    if (fast == 1) { slot->nfs++; return 1; }
    if (fast == 0) { slot->nfu++; if (!useZ3 && (!gCross || (pathHash + slot->nfu) % gCross)) return 0; }
    t0 = now();
  }
  inSolver++;
  flushPc();
  Z3_solver_push(zc, zs);
  Z3_solver_assert(zc, zs, zE(f));
  Z3_lbool r = Z3_solver_check(zc, zs);
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (res == 1) {
    Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m);
    model.assign(nVars, 0);
    for (int i = 0; i < nVars; i++) {
      Z3_ast v = nullptr; int64_t x = gVars[i].lo > 0 ? gVars[i].lo : (gVars[i].hi < 0 ? gVars[i].hi : 0);
      if (Z3_model_eval(zc, m, zA(gVars[i].a), false, &v) && v) { if (Z3_get_ast_kind(zc, v) == Z3_NUMERAL_AST) Z3_get_numeral_int64(zc, v, &x); else x = (int64_t)gVars[i].a->cval; }
      if (x < gVars[i].lo || x > gVars[i].hi) x = (int64_t)gVars[i].a->cval;
      model[i] = x;
    }
    Z3_model_dec_ref(zc, m);
    // validate the model against pc and f (guards the encoding)
    ++epoch; bool ok = evalE(f, model, epoch) != 0; for (E *c : pc) if (!evalE(c, model, epoch)) { ok = false; break; }
    if (!ok) { fprintf(stderr, "[rt] solver model does not satisfy the path condition\n"); res = -1; }
  }
  Z3_solver_pop(zc, zs, 1); inSolver--;
  if (fast == 0) { slot->nxc++; if (res == 1) { fprintf(stderr, "[rt] internal: refutation disagrees with z3 on %s\n", showE(f).c_str()); slot->status = 73; _exit(73); } if (res == -1) res = 0; }
  slot->tsolve += now() - t0; slot->nq++; if (res == 1) slot->nsat++; else if (res == 0) slot->nunsat++; else slot->nunk++;
  return res;
}
static void emitItem(const std::vector<int64_t> &model, uint32_t bound, const std::vector<uint8_t> &imp, uint64_t hash) {
  Item it; it.in = model; it.has.assign(model.size(), 1); it.bound = bound; it.imp = imp; it.conc = concHist; it.hash = hash;
  putRec(R_ITEM, encItem(it)); slot->nitems++;
}
static void branch(uint32_t site, E *c, bool flip = true) {
  // c is true under the current input
  if (!inRun) { return; }
  int en = entail(c);
  if (en == 1) { slot->nsyntactic++; return; }
  if (en == 0) { fprintf(stderr, "[rt] internal: path condition refuted by current input: %s\n", showE(c).c_str()); slot->status = 70; _exit(70); }
  sites.insert(site);
  uint32_t i = nBranch++; slot->nbranch++;
  uint64_t h0 = pathHash;
  pathHash = (pathHash ^ (site * 0x9E3779B97F4A7C15ull)) * 0xff51afd7ed558ccdull + 1;
  if (gTrace) fprintf(stderr, "[br %u site %x] %s\n", i, site, showE(c).c_str());
  if (i < cur.bound) {
    bool im = i < cur.imp.size() && cur.imp[i];
    impBits.push_back(im); addPc(c, !im);
    if (i + 1 == cur.bound && cur.hash && pathHash != cur.hash) { slot->status = 71; putRec(R_INC, "divergent re-execution"); if (getenv("SYMDBG")) { std::string s = "DIVERGE"; for (auto v : cur.in) s += " " + std::to_string(v); s += " bound " + std::to_string(cur.bound) + "\n"; fputs(s.c_str(), stderr); } }
    return;
  }
  bool im = false;
  if (flip) {
    if ((long)i > gMaxBranch) { putRec(R_INC, "branch limit"); slot->status = 72; _exit(72); }
    std::vector<int64_t> m; int r = query(notE(c), m);
    if (r == 1) { std::vector<uint8_t> ib = impBits; ib.push_back(0); emitItem(m, i + 1, ib, pathHash); }
    else if (r == 0) im = true;
    else incompl.insert("solver unknown at a branch");
    (void)h0;
  }
  impBits.push_back(im); addPc(c, !im);
}
static void decide(uint32_t site, E *e, bool taken) {
  if (e->kind == REAL) return;
  e = boolOf(e);
  if ((e->cval != 0) != taken) { nStale++; return; }
  branch(site, taken ? e : notE(e));
}
static void concretize(E *e, uint32_t site = 1) {
  if (!inRun || !e) return;
  if (e->kind == REAL) e = e->x;
  if (e->kind != INT) { branch(site, e->cval ? e : notE(e)); return; }
  slot->nconcr++;
  // enumerate the values of e: every split is convex (below / at / above a pivot)
  for (size_t guard = 0; guard < 200000; guard++) {
    i128 v = e->cval, t = v; uint32_t idx = nBranch;
    if (entail(eqE(e, mkConst(v))) == 1) return;
    if (idx < cur.bound) for (auto &p : cur.conc) if (p.first == idx) { t = p.second; break; }
    if (t >= INT64_MIN && t <= INT64_MAX) concHist.push_back({idx, (int64_t)t});
    E *ge = leE(mkConst(t), e);
    if (v < t) { branch(site, notE(ge)); if (nBranch == idx) return; continue; }
    branch(site, ge);
    E *le = leE(e, mkConst(t));
    if (v > t) { branch(site, notE(le)); if (nBranch == idx) return; continue; }
    branch(site, le);
    return;
  }
}

// ---------------------------------------------------------------- instrumentation entry points
static void *gCallee = nullptr; struct Slot1 { E *e; int64_t v; bool byval; };
static Slot1 gArgs[32]; static int gNArgs = 0; static Slot1 gPend[32]; static E *gRet[16];
static inline i128 sx(int64_t v, int w) { return v; }
static E *val(E *e, int64_t v, int w) { if (e) return e; if (w == 1) return mkBool(v & 1); return mkConst(v); }
static inline E *out(E *e) { return (!e || e->isConst()) ? nullptr : e; }

API E *__sym_arg(void *f, int i, int64_t v) {
  if (gCallee != f) return nullptr; if (i >= gNArgs) return nullptr;
  E *e = gArgs[i].e; if (!e || gArgs[i].byval) return nullptr;
  if (e->kind == REAL) return e;
  if (e->kind == INT ? ((int64_t)e->cval != v) : ((e->cval != 0) != ((v & 1) != 0))) { nStale++; return nullptr; }
  return e;
}
API void __sym_memcpy(void *d, void *s, uint64_t n);
API void __sym_byval(void *f, int i, void *p, uint64_t n) { if (gCallee != f || i >= gNArgs || !gArgs[i].byval) { clearRange((uint64_t)p, n); return; } __sym_memcpy(p, gArgs[i].e, n); }
API void __sym_entered(void *f) { gCallee = nullptr; }
API void __sym_setarg(int i, E *e, int64_t v) { gPend[i].e = e; gPend[i].v = v; gPend[i].byval = v == -1 && e && false; }
API void __sym_setargp(int i, void *p) { gPend[i].e = (E *)p; gPend[i].byval = true; }
API void __sym_call(void *f, int n) { memcpy(gArgs, gPend, sizeof(Slot1) * n); gNArgs = n; gCallee = f; }
static std::map<void *, uint64_t> silent;
API void __sym_calldone(void *f) {
  if (gCallee == f) { // not consumed: callee is not instrumented -> the call depended on concrete values only
    gCallee = nullptr;
    if (inRun) { silent[f]++; for (int i = 0; i < gNArgs; i++) if (!gArgs[i].byval && gArgs[i].e && gArgs[i].e->kind != REAL) concretize(gArgs[i].e, 2); }
  }
}
API void __sym_clrret(int n) { for (int i = 0; i < n; i++) gRet[i] = nullptr; }
API void __sym_setret(int i, E *e) { gRet[i] = e; }
API E *__sym_ret(int i, int64_t v) {
  E *e = gRet[i]; if (!e) return nullptr; gRet[i] = nullptr;
  if (e->kind == REAL) return e;
  if (e->kind == INT ? ((int64_t)e->cval != v) : ((e->cval != 0) != ((v & 1) != 0))) { nStale++; return nullptr; }
  return e;
}
static int nbytes(int w) { if (w > 100) return (w - 100) / 8; return (w + 7) / 8; }
static E *byteOf(E *e, uint32_t idx) { return modF(divF(e, pow2(8 * idx)), 256); }
API E *__sym_load(void *ptr, int w, int64_t v) {
  uint64_t a = (uint64_t)ptr; int n = nbytes(w);
  if (!maybe(a) && !maybe(a + n - 1)) return nullptr;
  ByteSh b0 = getByte(a);
  bool any = b0.e != nullptr, whole = b0.e && b0.idx == 0 && b0.n == (uint32_t)n;
  ByteSh bs[8]; bs[0] = b0;
  for (int i = 1; i < n; i++) { bs[i] = getByte(a + i); if (bs[i].e) any = true; if (bs[i].e != b0.e || bs[i].idx != (uint32_t)i || bs[i].n != (uint32_t)n) whole = false; }
  if (!any) return nullptr;
  E *r = nullptr;
  if (whole) {
    r = b0.e;
    if (r->kind == REAL) {
      double d; if (n == 4) { float f; int32_t x = (int32_t)v; memcpy(&f, &x, 4); d = f; } else memcpy(&d, &v, 8);
      if (d != std::ldexp((double)(int64_t)r->x->cval, -r->sh)) { nStale++; clearRange(a, n); return nullptr; }
      return r;
    }
    if (w == 1) { E *b = boolOf(r); if ((b->cval != 0) != ((v & 1) != 0)) { nStale++; clearRange(a, n); return nullptr; } return out(b); }
    if (w < 8 * n) r = wrapS(r, w);
    if ((int64_t)r->cval != v) { nStale++; clearRange(a, n); return nullptr; }
    return out(r);
  }
  // assemble
  r = mkConst(0);
  for (int i = 0; i < n;) {
    if (!bs[i].e) { uint8_t cb = *((uint8_t *)ptr + i); r = addK(r, (i128)cb << (8 * i)); i++; continue; }
    if (bs[i].e->kind == REAL) return nullptr;
    int j = i + 1; while (j < n && bs[j].e == bs[i].e && bs[j].idx == bs[i].idx + (j - i)) j++;
    E *piece = modF(divF(bs[i].e, pow2(8 * bs[i].idx)), pow2(8 * (j - i)));
    r = addE(r, mulK(piece, pow2(8 * i))); i = j;
  }
  if (w < 100) { if (w < 8 * n && w == 1) r = wrapS(modF(r, 2), 2); r = wrapS(r, w == 1 ? 8 : w); } else return nullptr;
  if (w == 1) { E *b = i2b(r); return out(b); }
  if ((int64_t)r->cval != v) { nStale++; return nullptr; }
  return out(r);
}
API void __sym_store(void *ptr, int w, E *e) {
  uint64_t a = (uint64_t)ptr; int n = nbytes(w);
  if (!e) { if (maybe(a) || maybe(a + n - 1)) clearRange(a, n); return; }
  if (e->kind != REAL) e = intOf(e);
  if (e->isConst()) { clearRange(a, n); return; }
  for (int i = 0; i < n; i++) setByte(a + i, e, i, n);
}
API void __sym_memcpy(void *d, void *s, uint64_t n) {
  uint64_t D = (uint64_t)d, S = (uint64_t)s; if (n == 0 || D == S) return;
  if (n > (1u << 28)) return;
  bool any = false; for (uint64_t p = S & ~63ull; p < S + n; p += 64) if (maybe(p)) { any = true; break; }
  if (!any) { clearRange(D, n); return; }
  if (D < S) for (uint64_t i = 0; i < n; i++) { ByteSh b = getByte(S + i); setByte(D + i, b.e, b.idx, b.n); }
  else for (uint64_t i = n; i-- > 0;) { ByteSh b = getByte(S + i); setByte(D + i, b.e, b.idx, b.n); }
}
API void __sym_memset(void *d, E *e, uint64_t n) { if (!e) { clearRange((uint64_t)d, n); return; } for (uint64_t i = 0; i < n; i++) setByte((uint64_t)d + i, e, 0, 1); }
API void __sym_clear(void *d, uint64_t n) { clearRange((uint64_t)d, n); }
API void __sym_concretize(E *e, int64_t v) { if (e) concretize(e); }

// LLVM opcodes (18): Add 13 FAdd 14 Sub 15 FSub 16 Mul 17 FMul 18 UDiv 19 SDiv 20 FDiv 21 URem 22 SRem 23 FRem 24 Shl 25 LShr 26 AShr 27 And 28 Or 29 Xor 30
static int tz128(i128 v) { int n = 0; if (v == 0) return 100; while (!(v & 1)) { v >>= 1; n++; } return n; }
static int tzOf(E *e, int depth = 0) { int t = tz128(e->k); for (auto &x : e->t) { int c = tz128(x.c); if (x.a->op == A_ITE && depth < 6) c += std::min(tzOf(x.a->x, depth + 1), tzOf(x.a->y, depth + 1)); t = std::min(t, c); } return std::min(t, 100); }
static bool isPow2(i128 v, int &k) { if (v <= 0 || (v & (v - 1))) return false; k = 0; while (v > 1) { v >>= 1; k++; } return true; }
API E *__sym_bin(int op, int w, E *a, E *b, int64_t va, int64_t vb) {
  if (!a && !b) return nullptr;
  if ((a && a->kind == REAL) || (b && b->kind == REAL)) { if (a) concretize(a); if (b) concretize(b); return nullptr; }
  E *A = val(a, va, w), *B = val(b, vb, w);
  if (w == 1) {
    A = boolOf(A); B = boolOf(B);
    switch (op) { case 28: return out(andE(A, B)); case 29: return out(orE(A, B)); case 30: case 13: case 15: return out(mkXor(A, B)); }
    concretize(A); concretize(B); return nullptr;
  }
  A = intOf(A); B = intOf(B);
  bool ca = A->isConst(), cb = B->isConst();
  switch (op) {
  case 13: return out(wrapS(addE(A, B), w));
  case 15: return out(wrapS(subE(A, B), w));
  case 17:
    if (!ca && !cb) { if (B->hi - B->lo <= A->hi - A->lo) { concretize(B); B = mkConst(B->cval); } else { concretize(A); A = mkConst(A->cval); std::swap(A, B); } cb = true; }
    if (ca) std::swap(A, B);
    return out(wrapS(mulK(A, B->k), w));
  case 19: case 22: {
    if (!cb) { concretize(B); B = mkConst(B->cval); }
    A = toU(A, w); i128 k = toU(B, w)->k; if (k == 0) return nullptr;
    E *q = divF(A, k); if (op == 19) return out(wrapS(q, w)); return out(wrapS(subE(A, mulK(q, k)), w)); }
  case 20: case 23: {
    if (!cb) { concretize(B); B = mkConst(B->cval); }
    i128 k = B->k; if (k == 0) return nullptr; bool neg = k < 0; if (neg) k = -k;
    E *q; if (A->lo >= 0) q = divF(A, k); else if (A->hi <= 0) q = mulK(divF(mulK(A, -1), k), -1);
    else q = iteE(leZ(mulK(A, -1)), divF(A, k), mulK(divF(mulK(A, -1), k), -1));
    if (op == 20) return out(wrapS(neg ? mulK(q, -1) : q, w));
    return out(subE(A, mulK(q, k))); }
  case 25: if (!cb) { concretize(B); B = mkConst(B->cval); } if (B->k >= w || B->k < 0) return nullptr; return out(wrapS(mulK(A, pow2((int)B->k)), w));
  case 26: if (!cb) { concretize(B); B = mkConst(B->cval); } if (B->k >= w || B->k < 0) return nullptr; return out(wrapS(divF(toU(A, w), pow2((int)B->k)), w));
  case 27: if (!cb) { concretize(B); B = mkConst(B->cval); } if (B->k >= w || B->k < 0) return nullptr; return out(divF(A, pow2((int)B->k)));
  case 28: case 29: case 30: {
    auto is01 = [](E *e) { return e->lo >= 0 && e->hi <= 1; };
    if (is01(A) && is01(B)) { E *x = i2b(A), *y = i2b(B); return out(b2i(op == 28 ? andE(x, y) : op == 29 ? orE(x, y) : mkXor(x, y))); }
    if (ca) { std::swap(A, B); std::swap(ca, cb); }
    if (op == 28 && cb) {
      i128 m = B->k; if (m == 0) return nullptr; int k;
      if (m == -1) return out(A);
      if (m > 0 && isPow2(m + 1, k)) return out(wrapS(modF(A, m + 1), w));
      if (m < 0 && isPow2(-m, k)) return out(wrapS(subE(A, modF(A, -m)), w));
      i128 um = m < 0 ? m + pow2(w) : m; int lo = 0; while (!((um >> lo) & 1)) lo++; i128 hi = um >> lo;
      if (isPow2(hi + 1, k)) return out(wrapS(mulK(modF(divF(A, pow2(lo)), hi + 1), pow2(lo)), w));
    }
    if (op == 29 || op == 30) {
      if (cb && B->k == -1 && op == 30) return out(addK(mulK(A, -1), -1));
      if (cb && B->k == -pow2(w - 1) && op == 30) return out(wrapS(addK(A, pow2(w - 1)), w));
      if (cb && B->k == 1 && op == 30 && is01(A)) return out(addK(mulK(A, -1), 1));
      // disjoint bits: one operand multiple of 2^t, the other within [0,2^t)
      E *UA = toU(A, w), *UB = toU(B, w);
      int ta = tzOf(UA), tb = tzOf(UB);
      if (ta < 100 && UB->lo >= 0 && UB->hi < pow2(ta)) return out(wrapS(addE(UA, UB), w));
      if (tb < 100 && UA->lo >= 0 && UA->hi < pow2(tb)) return out(wrapS(addE(UA, UB), w));
    }
    concretize(A); concretize(B); return nullptr; }
  }
  concretize(A); concretize(B); return nullptr;
}
// predicates: EQ 32 NE 33 UGT 34 UGE 35 ULT 36 ULE 37 SGT 38 SGE 39 SLT 40 SLE 41
API E *__sym_cmp(int p, int w, E *a, E *b, int64_t va, int64_t vb) {
  if (!a && !b) return nullptr;
  if ((a && a->kind == REAL) || (b && b->kind == REAL)) { if (a) concretize(a); if (b) concretize(b); return nullptr; }
  E *A = val(a, va, w), *B = val(b, vb, w);
  if (w == 1) {
    A = boolOf(A); B = boolOf(B);
    if (p == 32) return out(notE(mkXor(A, B))); if (p == 33) return out(mkXor(A, B));
    if (p == 34 || p == 40) return out(andE(A, notE(B))); if (p == 36 || p == 38) return out(andE(notE(A), B));
    if (p == 35 || p == 41) return out(orE(A, notE(B))); return out(orE(notE(A), B));
  }
  A = intOf(A); B = intOf(B);
  if (p >= 34 && p <= 37) { A = toU(A, w); B = toU(B, w); p += 4; }
  switch (p) {
  case 32: return out(eqE(A, B));
  case 33: return out(notE(eqE(A, B)));
  case 38: return out(notE(leE(A, B)));
  case 39: return out(leE(B, A));
  case 40: return out(notE(leE(B, A)));
  case 41: return out(leE(A, B));
  }
  return nullptr;
}
// casts: Trunc 38 ZExt 39 SExt 40 FPToUI 41 FPToSI 42 UIToFP 43 SIToFP 44 FPTrunc 45 FPExt 46 PtrToInt 47 IntToPtr 48 BitCast 49
API E *__sym_cast(int op, int sw, int dw, E *a, int64_t v) {
  if (!a) return nullptr; if (a->kind == REAL) { return op == 49 ? a : nullptr; }
  switch (op) {
  case 38: if (dw == 1) { if (a->kind != INT) return a; if (a->lo >= 0 && a->hi <= 1) return out(i2b(a)); return out(i2b(modF(a, 2))); } return out(wrapS(intOf(a), dw));
  case 39: return out(a->kind == INT ? wrapS(toU(a, sw), dw) : b2i(a));
  case 40: return out(a->kind == INT ? a : mulK(b2i(a), -1));
  case 49: return a;
  }
  concretize(a); return nullptr;
}
API E *__sym_select(int w, E *c, E *a, E *b, int64_t vc, int64_t va, int64_t vb) {
  if (!c) return (vc & 1) ? a : b;
  if (w > 100 || (a && a->kind == REAL) || (b && b->kind == REAL)) { decide(3, c, vc & 1); return (vc & 1) ? a : b; }
  E *C = boolOf(c);
  if (w == 1) { E *A = boolOf(val(a, va, 1)), *B = boolOf(val(b, vb, 1)); return out(orE(andE(C, A), andE(notE(C), B))); }
  return out(iteE(C, intOf(val(a, va, w)), intOf(val(b, vb, w))));
}
API void __sym_decide(E *c, int64_t v) { if (c) decide(4, c, v & 1); }
API void __sym_branch(int site, E *c, int64_t v) { if (c && inRun) decide((uint32_t)site, c, v & 1); }
API void __sym_switch(int site, E *c, int64_t v, int64_t k) {
  if (!c || !inRun || c->kind == REAL) return; E *e = intOf(c); if ((int64_t)e->cval != v) { nStale++; return; }
  E *q = eqE(e, mkConst(k)); if (q->isConst()) return; branch((uint32_t)site, v == k ? q : notE(q));
}
API E *__sym_minmax(int k, int w, E *a, E *b, int64_t va, int64_t vb) {
  if (!a && !b) return nullptr;
  if ((a && a->kind == REAL) || (b && b->kind == REAL)) return nullptr;
  E *A = intOf(val(a, va, w)), *B = intOf(val(b, vb, w));
  if (k >= 2) { E *UA = toU(A, w), *UB = toU(B, w); E *le = leE(UA, UB); if (k == 4) return out(wrapS(iteE(le, mkConst(0), subE(UA, UB)), w)); return out(k == 2 ? iteE(le, B, A) : iteE(le, A, B)); }
  E *le = leE(A, B); return out(k == 0 ? iteE(le, B, A) : iteE(le, A, B));
}
static double fval(int w, int64_t v) { if (w == 132) { float f; int32_t x = (int32_t)v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
// exact dyadic constant -> REAL; false when not representable within 60 fractional bits
static bool dyadic(double d, i128 &n, int &sh) { if (!std::isfinite(d)) return false; sh = 0; while (d != std::floor(d)) { d *= 2; if (++sh > 60) return false; } if (std::fabs(d) > 9e17) return false; n = (i128)d; return true; }
static int mant(int w) { return w == 132 ? 24 : 53; }
static E *rchk(E *num, int sh, int w) { E *r = mkReal(num, sh); i128 lim = pow2(mant(w)); if (r->x->lo < -lim || r->x->hi > lim) return nullptr; return r; }
static E *rval(E *e, int64_t v, int w) { if (e) { if (e->kind == REAL) return e; return nullptr; } i128 n; int sh; if (!dyadic(fval(w, v), n, sh)) return nullptr; return mkReal(mkConst(n), sh); }
API E *__sym_fbin(int op, int w, E *a, E *b, int64_t va, int64_t vb) {
  if (!a && !b) return nullptr;
  E *A = rval(a, va, w), *B = rval(b, vb, w);
  if (A && B) {
    E *r = nullptr;
    if (op == 14 || op == 16) { int s = std::max(A->sh, B->sh); E *x = mulK(A->x, pow2(s - A->sh)), *y = mulK(B->x, pow2(s - B->sh)); r = rchk(addE(x, y, op == 14 ? 1 : -1), s, w); }
    else if (op == 18 && (A->x->isConst() || B->x->isConst())) { if (A->x->isConst()) std::swap(A, B); r = rchk(mulK(A->x, B->x->k), A->sh + B->sh, w); }
    else if (op == 21 && !b && B->x->isConst()) { int k; i128 n = B->x->k; if (isPow2(n, k)) { r = rchk(mulK(A->x, pow2(B->sh)), A->sh + k, w); } }
    if (r) return r->x->isConst() ? nullptr : r;
  }
  if (a) concretize(a); if (b) concretize(b); return nullptr;
}
API E *__sym_fcmp(int p, int w, E *a, E *b, int64_t va, int64_t vb) {
  if (!a && !b) return nullptr;
  E *A = rval(a, va, w), *B = rval(b, vb, w);
  if (!A || !B) {
    // comparison against a non-dyadic / infinite constant: fold by range when possible, else concretise
    if (a) concretize(a); if (b) concretize(b); return nullptr; }
  int s = std::max(A->sh, B->sh); E *x = mulK(A->x, pow2(s - A->sh)), *y = mulK(B->x, pow2(s - B->sh));
  switch (p & 7) { // ignore unordered bit: values are finite
  case 1: return out(eqE(x, y)); case 2: return out(notE(leE(x, y))); case 3: return out(leE(y, x)); case 4: return out(notE(leE(y, x))); case 5: return out(leE(x, y)); case 6: return out(notE(eqE(x, y)));
  case 7: case 0: return nullptr; }
  return nullptr;
}
API E *__sym_fcast(int op, int sw, int dw, E *a, int64_t v) {
  if (!a) return nullptr;
  switch (op) {
  case 43: case 44: { E *x = intOf(a); if (op == 43) x = toU(x, sw); E *r = rchk(x, 0, dw); if (r) return r; break; }
  case 45: { if (a->kind != REAL) break; E *r = rchk(a->x, a->sh, dw); if (r) return r; break; }
  case 46: if (a->kind == REAL) return a; break;
  case 41: case 42: { if (a->kind != REAL) break; E *x = a->x; i128 k = pow2(a->sh); E *q = x->lo >= 0 ? divF(x, k) : iteE(leZ(mulK(x, -1)), divF(x, k), mulK(divF(mulK(x, -1), k), -1)); if (q->lo < -pow2(dw - 1) || q->hi >= pow2(dw - 1)) break; return out(q); }
  case 49: return a;
  }
  concretize(a); return nullptr;
}
API E *__sym_un(int k, int w, E *a, int64_t v) {
  if (!a) return nullptr;
  if (k == 0 && a->kind != REAL) { E *x = intOf(a); return out(wrapS(iteE(leZ(mulK(x, -1)), x, mulK(x, -1)), w)); }
  if (a->kind == REAL) {
    i128 p = pow2(a->sh); E *x = a->x;
    switch (k) {
    case 1000: return mkReal(mulK(x, -1), a->sh);
    case 1001: { E *q = mulK(divF(mulK(x, -1), p), -1); return q->isConst() ? nullptr : mkReal(q, 0); }
    case 1002: { E *q = divF(x, p); return q->isConst() ? nullptr : mkReal(q, 0); }
    case 1004: return mkReal(iteE(leZ(mulK(x, -1)), x, mulK(x, -1)), a->sh);
    }
  }
  concretize(a); return nullptr;
}
// default (no-op) race hooks; the scheduler module overrides them
API __attribute__((weak)) void __sym_race_load(void *, int) {}
API __attribute__((weak)) void __sym_race_store(void *, int) {}
API __attribute__((weak)) void __sym_race_range(void *, uint64_t, int) {}
API __attribute__((weak)) void __sym_race_atomic(void *, int, int, int) {}
// another thread of the program under test runs on: values in flight between a call and its callee are not its own
API void __sym_thread() { gCallee = nullptr; gNArgs = 0; for (auto &r : gRet) r = nullptr; isMain = true; }
API int __sym_busy() { return inSolver; }

// ---------------------------------------------------------------- harness API
API int symx_native() { return 0; }
static E *argE(int i, void *self, int64_t v) { E *e = nullptr; if (gCallee == self && i < gNArgs && gArgs[i].e && !gArgs[i].byval) e = gArgs[i].e; if (gCallee == self) gCallee = nullptr; if (e && e->kind == REAL) e = nullptr; if (e) { e = intOf(e); if ((int64_t)e->cval != v) { nStale++; e = nullptr; } } return e ? e : mkConst(v); }
API long symx_int(const char *name, long lo, long hi, long init) {
  if (gCallee == (void *)symx_int) gCallee = nullptr;
  int id = nVars++; int64_t v = init; if (v < lo) v = lo; if (v > hi) v = hi;
  if (id < (int)cur.in.size() && cur.has[id]) v = cur.in[id];
  if (v < lo || v > hi) { v = lo; }
  E *e = mkVar(id, lo, hi, v); gVars[id].name = name; gVars[id].lo = lo; gVars[id].hi = hi;
  if (id >= (int)cur.in.size()) { cur.in.resize(id + 1, 0); cur.has.resize(id + 1, 0); }
  cur.in[id] = v; cur.has[id] = 1;
  if (slot && id < 4096) { slot->in[id] = v; slot->nin = id + 1; size_t nl = strlen(name); if (slot->nameLen + nl + 1 < sizeof slot->names) { memcpy(slot->names + slot->nameLen, name, nl); slot->nameLen += nl; slot->names[slot->nameLen++] = '\n'; } }
  if (lo == hi) return v;
  gRet[0] = e; return v;
}
API void symx_mark_bytes(void *p, size_t n, const char *name) {
  for (size_t i = 0; i < n; i++) { uint8_t *q = (uint8_t *)p + i; long v = symx_int(name, -128, 127, (int8_t)*q); *q = (uint8_t)v; E *e = gRet[0]; gRet[0] = nullptr; if (e) setByte((uint64_t)q, e, 0, 1); }
}
API long symx_choice(const char *name, long n) { long v = symx_int(name, 0, n - 1, 0); E *e = gRet[0]; gRet[0] = nullptr; if (e && n > 1) concretize(e, 5); return v; }
API SymE *symx_of(long v) { return argE(0, (void *)symx_of, v); }
API SymE *symx_const(long v) { gCallee = nullptr; return mkConst(v); }
API SymE *symx_add(E *a, E *b) { return addE(a, b); }
API SymE *symx_sub(E *a, E *b) { return subE(a, b); }
API SymE *symx_mulc(E *a, long k) { return mulK(a, k); }
API SymE *symx_div(E *a, long k) { return divF(a, k); }
API SymE *symx_mod(E *a, long k) { return modF(a, k); }
API SymE *symx_le(E *a, E *b) { return leE(a, b); }
API SymE *symx_eq(E *a, E *b) { return eqE(a, b); }
API SymE *symx_and(E *a, E *b) { return andE(a, b); }
API SymE *symx_or(E *a, E *b) { return orE(a, b); }
API SymE *symx_not(E *a) { return notE(a); }
API SymE *symx_ite(E *c, E *a, E *b) { return iteE(c, a, b); }
API SymE *symx_bool(int b) { gCallee = nullptr; return mkBool(b != 0); }
API long symx_eval(E *e) { return (long)e->cval; }
API int symx_is_const(E *e) { return e->isConst(); }
API const char *symx_show(E *e) { static std::string s[4]; static int i; std::string &r = s[i++ & 3]; r = showE(e); return r.c_str(); }
API long symx_value(E *e) { long v = (long)e->cval; if (e->kind != INT) e = b2i(e); gRet[0] = out(e); return v; }
API long symx_fork(E *e) { if (!e->isConst()) branch(6, e->cval ? e : notE(e)); return e->cval != 0; }
static void flushSets() { for (auto &s : reached) putRec(R_REACH, s); reached.clear(); for (auto &s : incompl) putRec(R_INC, s); incompl.clear(); std::string t; for (uint32_t s : sites) t.append((char *)&s, 4); putRec(R_SITE, t); sites.clear(); }
static void putNames() { std::string s; for (int i = 0; i < nVars; i++) { s += gVars[i].name; s += '\n'; } putRec(R_NAMES, s); }
API void symx_done() { flushSets(); if (slot) slot->status = 1; if (gSingle) { fflush(nullptr); } _exit(0); }
API void symx_assume(E *c) {
  if (c->kind == BCONST) { if (c->cval) return; flushSets(); slot->status = 2; _exit(0); }
  if (entail(c) == 1) return;
  // assumptions are indexed like branches but their negation is never explored
  uint32_t i = nBranch++;
  pathHash = (pathHash ^ 0xa55a) * 0xff51afd7ed558ccdull + 1;
  if (!c->cval) {
    std::vector<int64_t> m; int r = query(c, m);
    if (r == 1) { std::vector<uint8_t> ib = impBits; ib.push_back(0); emitItem(m, i + 1, ib, pathHash); }
    else if (r == -1) incompl.insert("solver unknown at an assumption");
    flushSets(); slot->status = 2; _exit(0);
  }
  impBits.push_back(0); addPc(c, true);
}
static void violation(const char *label, const char *detail, const std::vector<int64_t> &in) {
  std::string s; uint32_t n = in.size(); s.append((char *)&n, 4); s.append((char *)in.data(), n * 8); s += label; s += '\0'; s += detail ? detail : ""; 
  putNames(); putRec(R_VIOL, s); slot->nviol++;
}
API void symx_fail(const char *label, const char *detail) { if (gSingle) fprintf(stderr, "FAIL %s: %s\n", label, detail ? detail : ""); violation(label, detail, cur.in); symx_done(); }
API void symx_check(E *c, const char *label) {
  slot->nasserts++;
  if (c->kind == BCONST && c->cval) return;
  if (!c->cval) { if (gSingle) fprintf(stderr, "CHECK FAILED (concretely) %s: %s\n", label, showE(c).c_str()); violation(label, "", cur.in); if (c->kind != BCONST) { /* continue assuming it held would be unsound; stop the path */ } symx_done(); }
  if (entail(c) == 1) return;
  std::vector<int64_t> m; int r = query(notE(c), m, true);
  if (r == 1) { if (gSingle) { fprintf(stderr, "CHECK FAILED %s:\n  %s\n", label, showE(c).c_str()); for (size_t i = 0; i < m.size(); i++) fprintf(stderr, "  %s=%ld\n", gVars[i].name.c_str(), m[i]); } violation(label, "", m); symx_done(); }
  if (r == -1) { incompl.insert(std::string("solver unknown at assertion ") + label); }
  learn(c);
}
API void symx_reach(const char *l) { if (reached.size() < 2000) reached.insert(l); }
API void symx_incomplete(const char *w) { incompl.insert(w); }
API void symx_note(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); if (gSingle) fprintf(stderr, "NOTE %s\n", b); putRec(R_NOTE, b); }
API const char *symx_arg(const char *k, const char *d) { auto it = gOpts.find(k); return it == gOpts.end() ? d : it->second.c_str(); }
API long symx_arg_int(const char *k, long d) { auto it = gOpts.find(k); return it == gOpts.end() ? d : atol(it->second.c_str()); }

// ---------------------------------------------------------------- heap hygiene
#ifndef SYM_NO_HEAP_HOOKS
extern "C" void __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
static void onMalloc(const volatile void *p, size_t n) { if (inRun && isMain && !inSolver && p) clearRange((uint64_t)p, n); }
#endif
// plain builds: operator delete/free leave shadows behind; operator new clears them
API void __sym_heap_free(void *p) { if (inRun && isMain && !inSolver && p) clearRange((uint64_t)p, malloc_usable_size(p)); }

// ---------------------------------------------------------------- explorer
struct Viol { std::string label, detail; std::vector<int64_t> in; std::string names; };
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static void runChild(void (*body)(), const std::string &enc, Slot *s, const char *errfile, double tmo) {
  slot = s; memset(s, 0, offsetof(Slot, in)); s->nameLen = 0; s->magic = 1;
  if (!gSingle) { int fd = open(errfile, O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); dup2(fd, 1); close(fd); }
  struct rlimit rl; rl.rlim_cur = (rlim_t)tmo; rl.rlim_max = (rlim_t)tmo + 5; if (!gSingle) setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  cur = decItem(enc); inRun = true; isMain = true;
  body();
  symx_done();
}
API int sym_main(int argc, char **argv, void (*body)()) {
  int jobs = 8; double tlim = 60; long maxPaths = 1L << 60; double pathTO = 20; const char *outf = nullptr; const char *tmpd = "/tmp"; const char *single = nullptr; int maxViol = 6; long seed = 1; int order = 0; double memGB = 20;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--time") tlim = atof(argv[++i]); else if (a == "--max-paths") maxPaths = atol(argv[++i]);
    else if (a == "--path-time") pathTO = atof(argv[++i]); else if (a == "--out") outf = argv[++i]; else if (a == "--tmp") tmpd = argv[++i];
    else if (a == "--single") single = argv[++i]; else if (a == "--trace") gTrace = true; else if (a == "--max-viol") maxViol = atoi(argv[++i]);
    else if (a == "--seed") seed = atol(argv[++i]); else if (a == "--order") order = atoi(argv[++i]); else if (a == "--no-fast") gFast = false; else if (a == "--cross") gCross = atoi(argv[++i]); else if (a == "--query-ms") gQueryTO = atof(argv[++i]);
    else if (a == "-o") { std::string kv = argv[++i]; size_t p = kv.find('='); gOpts[kv.substr(0, p)] = p == std::string::npos ? "1" : kv.substr(p + 1); }
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
  }
#ifndef SYM_NO_HEAP_HOOKS
  if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, [](const volatile void *) {});
#endif
  zinit();
  { // warm the solver so that children inherit initialised state
    Z3_solver_push(zc, zs); Z3_ast x = keep(Z3_mk_const(zc, Z3_mk_string_symbol(zc, "w"), zInt)); Z3_solver_assert(zc, zs, keep(Z3_mk_ge(zc, x, znum(3)))); Z3_solver_check(zc, zs); Z3_solver_pop(zc, zs, 1);
  }
  if (single) { // run one input in-process, values comma separated (empty = defaults)
    gSingle = true; Item it; std::string s = single; size_t p = 0; while (p < s.size()) { size_t q = s.find(',', p); if (q == std::string::npos) q = s.size(); it.in.push_back(atol(s.substr(p, q - p).c_str())); it.has.push_back(1); p = q + 1; }
    it.bound = gTrace ? 0 : 0;
    Slot *sl = (Slot *)mmap(nullptr, SLOTSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pid_t pid = fork(); if (pid == 0) runChild(body, encItem(it), sl, "/dev/null", pathTO);
    int st; waitpid(pid, &st, 0);
    fprintf(stderr, "single: wait=%x status=%u branches=%lu queries=%lu sat=%lu unsat=%lu fsat=%lu funsat=%lu tfast=%.3f synt=%lu conc=%lu asserts=%lu items=%u tsolve=%.3f viol=%u\n", st, sl->status, sl->nbranch, sl->nq, sl->nsat, sl->nunsat, sl->nfs, sl->nfu, sl->tfast, sl->nsyntactic, sl->nconcr, sl->nasserts, sl->nitems, sl->tsolve, sl->nviol);
    return 0;
  }
  std::vector<Slot *> slots; std::vector<pid_t> pids(jobs, 0); std::vector<std::string> running(jobs); std::vector<double> tstart(jobs, 0); std::vector<std::string> errs;
  for (int i = 0; i < jobs; i++) { slots.push_back((Slot *)mmap(nullptr, SLOTSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); errs.push_back(std::string(tmpd) + "/sym_err_" + std::to_string(getpid()) + "_" + std::to_string(i)); }
  std::deque<std::string> work; work.push_back(encItem(Item()));
  double t0 = now(), tf = 0; long paths = 0, pruned = 0, crashes = 0, hangs = 0, internal = 0; uint64_t nq = 0, nsat = 0, nunsat = 0, nunk = 0, ncache = 0, nfu = 0, nfs = 0, nxc = 0, nbr = 0, nas = 0, nconc = 0, nsyn = 0; double ts = 0; long workBytes = work[0].size();
  std::map<std::string, long> reach, inc, notes; std::vector<Viol> viols; std::set<uint32_t> allSites; std::map<std::string, int> labelCount; long maxDepth = 0;
  uint64_t rng = seed * 6364136223846793005ull + 1442695040888963407ull;
  bool stop = false; int live = 0; std::string names; std::vector<std::string> samplePaths;
  while (true) {
    if (now() - t0 > tlim || paths >= maxPaths) stop = true;
    if ((int)viols.size() >= maxViol) stop = true;
    while (!stop && live < jobs && !work.empty()) {
      int i = 0; while (pids[i]) i++;
      std::string w;
      if (order == 1) { w = std::move(work.front()); work.pop_front(); }
      else if (order == 2) { rng = rng * 6364136223846793005ull + 1442695040888963407ull; size_t k = (rng >> 33) % work.size(); std::swap(work[k], work.back()); w = std::move(work.back()); work.pop_back(); }
      else { w = std::move(work.back()); work.pop_back(); }
      workBytes -= w.size();
      running[i] = w; tstart[i] = now(); slots[i]->len = 0; slots[i]->nin = 0; slots[i]->nameLen = 0; slots[i]->status = 0;
      fflush(nullptr);
      pid_t p = fork(); if (p == 0) runChild(body, w, slots[i], errs[i].c_str(), pathTO);
      if (p < 0) { usleep(10000); work.push_back(w); workBytes += w.size(); break; }
      pids[i] = p; live++;
    }
    if (live == 0) break;
    int st; pid_t p = waitpid(-1, &st, stop ? WNOHANG : 0);
    if (p == 0) { usleep(2000); if (now() - t0 > tlim + pathTO + 2 || (int)viols.size() >= maxViol || now() - t0 > tlim) { for (int i = 0; i < jobs; i++) if (pids[i]) { kill(pids[i], SIGKILL); } } }
    if (p <= 0) { if (p < 0 && errno == ECHILD) break; continue; }
    int i = 0; while (i < jobs && pids[i] != p) i++; if (i == jobs) continue;
    pids[i] = 0; live--; Slot *s = slots[i];
    bool killedByUs = stop && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
    if (killedByUs) { work.push_back(running[i]); continue; }
    paths++;
    nq += s->nq; nsat += s->nsat; nunsat += s->nunsat; nunk += s->nunk; ncache += s->ncache; nfu += s->nfu; nfs += s->nfs; nxc += s->nxc; tf += s->tfast; nbr += s->nbranch; nas += s->nasserts; nconc += s->nconcr; nsyn += s->nsyntactic; ts += s->tsolve; maxDepth = std::max(maxDepth, (long)s->nbranch);
    if (s->status == 2) { paths--; pruned++; }
    size_t o = 0; std::vector<int64_t> crashIn = decItem(running[i]).in; std::string nm;
    while (o + 5 <= s->len) {
      uint8_t tag = s->data[o]; uint32_t n; memcpy(&n, s->data + o + 1, 4); if (o + 5 + n > s->len) break; std::string r((char *)s->data + o + 5, n); o += 5 + n;
      if (tag == R_ITEM) { workBytes += r.size(); work.push_back(std::move(r)); }
      else if (tag == R_REACH) reach[r]++; else if (tag == R_INC) inc[r]++; else if (tag == R_NOTE) notes[r]++;
      else if (tag == R_SITE) { for (size_t k = 0; k + 4 <= r.size(); k += 4) { uint32_t x; memcpy(&x, r.data() + k, 4); allSites.insert(x); } }
      else if (tag == R_NAMES) nm = r;
      else if (tag == R_INPUT) { crashIn.resize(r.size() / 8); memcpy(crashIn.data(), r.data(), r.size()); }
      else if (tag == R_VIOL) { Viol v; uint32_t k; memcpy(&k, r.data(), 4); v.in.resize(k); memcpy(v.in.data(), r.data() + 4, k * 8); v.label = r.c_str() + 4 + k * 8; v.detail = r.c_str() + 4 + k * 8 + v.label.size() + 1; v.names = nm; if (labelCount[v.label]++ < 3) viols.push_back(v); }
    }
    bool crash = false; std::string why;
    if (WIFSIGNALED(st)) { crash = true; why = std::string("signal ") + strsignal(WTERMSIG(st)); if (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) { why = "no answer within the CPU limit"; hangs++; } else crashes++; }
    else if (WEXITSTATUS(st) != 0) { if (s->status >= 70 && s->status < 80) { internal++; inc["engine: internal status " + std::to_string(s->status)]++; } else { crash = true; why = "exit code " + std::to_string(WEXITSTATUS(st)); crashes++; } }
    if (crash) {
      FILE *f = fopen(errs[i].c_str(), "r"); std::string d; if (f) { char b[6000]; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; d = b; fclose(f); }
      Viol v; v.label = std::string("crash: ") + why; v.detail = d; v.in.assign(s->in, s->in + std::min(s->nin, 4096u)); v.names = std::string(s->names, s->nameLen); if (labelCount[v.label]++ < 3) viols.push_back(v);
    } else if (s->status >= 70) { internal++; inc["engine: internal status " + std::to_string(s->status)]++; }
    if ((double)workBytes > memGB * 1e9) { inc["frontier memory limit"]++; stop = true; }
  }
  for (auto &e : errs) unlink(e.c_str());
  double el = now() - t0; bool complete = work.empty() && inc.empty() && hangs == 0 && internal == 0 && nunk == 0;
  FILE *f = outf ? fopen(outf, "w") : stdout;
  fprintf(f, "{\"paths\":%ld,\"pruned\":%ld,\"frontier\":%zu,\"complete\":%s,\"crashes\":%ld,\"hangs\":%ld,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"fast_sat\":%lu,\"fast_unsat\":%lu,\"cross_checked\":%lu,\"fast_s\":%.3f,\"syntactic\":%lu,\"branches\":%lu,\"assertions\":%lu,\"concretised\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"max_depth\":%ld,\"sites\":[", paths, pruned, work.size(), complete ? "true" : "false", crashes, hangs, nq, nsat, nunsat, nunk, nfs, nfu, nxc, tf, nsyn, nbr, nas, nconc, ts, el, maxDepth);
  { bool c = false; for (auto x : allSites) { fprintf(f, "%s%u", c ? "," : "", x); c = true; } }
  auto dumpMap = [&](const char *n, std::map<std::string, long> &m) { fprintf(f, ",\"%s\":{", n); bool c = false; int k = 0; for (auto &x : m) { if (k++ > 400) break; fprintf(f, "%s\"%s\":%ld", c ? "," : "", jesc(x.first).c_str(), x.second); c = true; } fprintf(f, "}"); };
  fprintf(f, "]"); dumpMap("reached", reach); dumpMap("incomplete", inc); dumpMap("notes", notes);
  fprintf(f, ",\"violations\":[");
  for (size_t i = 0; i < viols.size(); i++) { auto &v = viols[i]; fprintf(f, "%s{\"label\":\"%s\",\"detail\":\"%s\",\"names\":\"%s\",\"inputs\":[", i ? "," : "", jesc(v.label).c_str(), jesc(v.detail).c_str(), jesc(v.names).c_str()); for (size_t k = 0; k < v.in.size(); k++) fprintf(f, "%s%ld", k ? "," : "", v.in[k]); fprintf(f, "]}"); }
  fprintf(f, "]}\n"); if (outf) fclose(f);
  return 0;
}
// decimal text tokens: "0...0<value>" where the number of leading zeros (>=8) names the token
static std::vector<E *> gTok;
API const char *symx_text(long v) {
  E *e = argE(0, (void *)symx_text, v);
  static std::string s[16]; static int i; std::string &r = s[i++ & 15];
  if (e->isConst()) { r = std::to_string(v); return r.c_str(); }
  gTok.push_back(e); size_t z = 7 + gTok.size();
  r = std::string(v < 0 ? "-" : "") + std::string(z, '0') + std::to_string(v < 0 ? -(i128)v > INT64_MAX ? (unsigned long)1 << 63 : (unsigned long)-v : (unsigned long)v);
  return r.c_str();
}
API long symx_text_lookup(const char *s, int *found) {
  *found = 0; gCallee = nullptr; while (*s == ' ') s++; bool neg = *s == '-'; if (neg) s++;
  size_t z = 0; while (s[z] == '0') z++; if (z < 8) return 0;
  const char *d = s + z; unsigned __int128 v = 0; size_t n = 0; while (d[n] >= '0' && d[n] <= '9' && n < 25) { v = v * 10 + (d[n] - '0'); n++; }
  size_t id = z - 8; i128 x = neg ? -(i128)v : (i128)v;
  if (n == 0) { // value 0: one zero belongs to the number itself
    if (z < 9) return 0; id = z - 9; x = 0; }
  if (id >= gTok.size() || gTok[id]->cval != x) return 0;
  *found = 1; gRet[0] = gTok[id]; return (long)x;
}
