// Small networks whose times, walks, permissions and limits are symbolic.
#pragma once
#include "vt.hpp"
namespace nets {
using namespace vt;
inline long S(const std::string &n, long lo, long hi, long init) { return symx_int(n.c_str(), lo, hi, init); }
inline void le(long a, long b) { assume(Int(a) <= Int(b)); }
inline void lt(long a, long b) { assume(Int(a) < Int(b)); }
// walk offered by the router
inline void walk(World &w, int place, int stop, long t, long d = -1) { w.places[place].walks.push_back({stop, t, d < 0 ? 100 + 10 * stop + place : d}); }
// a trip over a path with symbolic times: departure from stop k, arrival at k+1; base + within [lo,hi]
struct Rng { long lo, hi; };
inline int symTrip(World &w, int path, const std::string &name, Rng r, bool strict = true, bool dwell = false, int service = 0) {
  size_t n = w.paths[path].stops.size(); std::vector<long> arr(n), dep(n);
  long span = r.hi - r.lo;
  for (size_t k = 0; k < n; k++) {
    long i0 = r.lo + span * (2 * k) / (2 * n);
    if (k == 0) { dep[0] = S(name + ".dep0", r.lo, r.hi, i0); arr[0] = dep[0]; }
    else {
      arr[k] = S(name + ".arr" + std::to_string(k), r.lo, r.hi, i0);
      if (strict) lt(dep[k - 1], arr[k]); else le(dep[k - 1], arr[k]);
      if (k + 1 < n && dwell) { dep[k] = S(name + ".dep" + std::to_string(k), r.lo, r.hi, i0 + 5); le(arr[k], dep[k]); } else dep[k] = arr[k];
    }
  }
  return w.trip(path, service, arr, dep);
}
struct Net { const char *name; const char *what; void (*make)(World &, Req &); };
// ---- generated structures: the shape comes from a seed, K of the values stay symbolic ----------
struct Lcg { unsigned long s; explicit Lcg(unsigned long x) : s(x * 6364136223846793005ul + 1442695040888963407ul) { next(); next(); }
  unsigned next() { s = s * 6364136223846793005ul + 1442695040888963407ul; return (unsigned)(s >> 33); }
  long in(long lo, long hi) { return lo + (long)(next() % (unsigned long)(hi - lo + 1)); }
  bool p(int pct) { return (int)(next() % 100) < pct; } };
struct GenOpt {
  long base = 36000;       // centre of the clock values
  bool zero = false;       // hops and dwells of 0 s
  bool special = false;    // lines of the special 'transferable' mode
  bool flags = true;       // stops where boarding or alighting is forbidden
  bool revisit = true;     // paths that visit a stop twice
  int scen = 0;            // 1: several services/agencies/modes and a restricting scenario; 2: one restriction only, 3: two lists of different kinds
  unsigned long pair = 0;  // which kinds
  int trips = 4, stops = 5, sym = 2; // sym: how many trips have symbolic times
  long span = 240;         // half-width of the symbolic ranges
  int walksSym = 0;        // symbolic access/egress/transfer walks
  long mw = 180;
  bool openJaw = false;    // nothing connects now and then
};
inline void genScen(World &w, Lcg &g, const GenOpt &o, int nl) {
  if (o.scen) {
    Scen s; auto some = [&](std::vector<int> &v, int m) { v.push_back((int)g.in(0, m - 1)); if (g.p(30)) v.push_back((int)g.in(0, m - 1)); };
    if (o.scen == 3) {  // two lists of different kinds; every pair of kinds comes up in 15 consecutive seeds
      s.services = {0, 1, 2}; int pr = (int)(o.pair % 15), a = 0; while (pr >= 5 - a) { pr -= 5 - a; a++; } int b = a + 1 + pr;
      for (int k : {a, b}) switch (k) { case 0: s.exceptLines = {(int)g.in(0, nl - 1)}; break; case 1: s.exceptModes = {g.p(35) ? "bus" : "metro"}; break; case 2: s.exceptAgencies = {g.p(35) ? 0 : 1}; break; case 3: { int x = g.in(0, nl - 1); for (int i = 0; i < nl; i++) if (i != x) s.onlyLines.push_back(i); if (s.onlyLines.empty()) s.onlyLines = {0}; break; } case 4: s.onlyModes = {g.p(65) ? "bus" : "metro"}; break; default: s.onlyAgencies = {g.p(65) ? 0 : 1}; }
      if (a == 2 && b == 5 && g.p(60)) s.onlyAgencies = {0, 1}; if (a == 1 && b == 4 && g.p(60)) s.onlyModes = {"bus", "metro"};  // the one list takes out of the other
    } else if (o.scen == 2) { s.services = {0, 1, 2}; switch (g.in(0, 6)) { case 0: s.services = {0, (int)g.in(1, 2)}; break; case 1: some(s.exceptLines, nl); break; case 2: s.exceptAgencies = {(int)g.in(0, 1)}; break; case 3: s.exceptModes = {g.p(50) ? "bus" : "metro"}; break; case 4: s.onlyModes = {g.p(60) ? "bus" : "metro"}; break; case 5: s.onlyAgencies = {(int)g.in(0, 1)}; break; default: for (int i = 0; i < nl; i++) if (g.p(75)) s.onlyLines.push_back(i); } }
    else {
    s.services = {0}; if (g.p(60)) s.services.push_back(1); if (g.p(40)) s.services.push_back(2);
    if (g.p(25)) some(s.onlyLines, nl); if (g.p(40)) some(s.exceptLines, nl); if (g.p(20)) s.onlyAgencies = {(int)g.in(0, 1)}; if (g.p(20)) s.exceptAgencies = {(int)g.in(0, 1)};
    if (g.p(20)) s.onlyModes = {g.p(50) ? "bus" : "metro"}; if (g.p(20)) s.exceptModes = {g.p(50) ? "bus" : "metro"};
    }
    w.scenarios[0] = s; Scen all; all.services = {0, 1, 2}; w.scenarios.push_back(all);
  }
}
// distances are independent of times: some walks of 0 m take time
inline void varyDist(World &w, unsigned long seed) {
  Lcg g(seed * 31 + 7); for (size_t i = 0; i < w.stops.size(); i++) for (auto &f : w.stops[i].foot) if (f.to != (int)i && g.p(15)) f.dist = 0;
  for (auto &p : w.places) for (auto &x : p.walks) if (g.p(12)) x.dist = 0;
  for (auto &p : w.paths) for (auto &x : p.segDist) if (g.p(12)) x = 0;
}
inline void genNet(World &w, Req &r, unsigned long seed, const GenOpt &o) {
  Lcg g(seed * 2654435761ul + 17);
  w = World(); basics(w);
  if (o.scen) { w.agencies.push_back({"AG1", "Agency 1"}); w.services.push_back({"service 1"}); w.services.push_back({"service 2"}); }
  int n = (int)g.in(3, o.stops); for (int i = 0; i < n; i++) addStop(w);
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b && g.p(25)) { addFoot(w, a, b, g.p(15) ? 0 : g.in(1, 20) * 15, 100 + 10 * a + b); if (g.p(85)) addFoot(w, b, a, g.in(1, 20) * 15, 500 + 10 * a + b); }
  // a skeleton journey (legs joined by a footpath or at the same stop) with extra lines around it
  int legs = g.p(75) ? (int)g.in(1, 3) : 0; int extra = legs == 0 ? (int)g.in(2, 4) : (int)g.in(legs == 1 ? 1 : 0, 2); int nl = std::max(2, legs + extra - (g.p(30) ? 1 : 0)), np = legs + extra; if (np < nl) np = nl;
  for (int i = 0; i < nl; i++) addLine(w, o.scen && g.p(40) ? 1 : 0, o.special && g.p(30) ? "transferable" : (o.scen && g.p(35)) ? "metro" : "bus");
  std::vector<std::pair<int, int>> skel; std::vector<long> baseDep; int cur = (int)g.in(0, n - 1); int first = cur; long clock = o.base - 900 + g.in(0, 6) * 60;
  for (int i = 0; i < np; i++) {
    std::vector<int> st; int len = (int)g.in(2, 4); int at = 0, off = (int)g.in(1, 2);
    if (i < legs) { if (i > 0) { if (g.p(50)) { int c = (int)g.in(0, n - 1); if (c != cur) { bool have = false; for (auto &f : w.stops[cur].foot) if (f.to == c) have = true; if (!have) { addFoot(w, cur, c, g.in(0, 10) * 30, 300 + c); if (g.p(60)) addFoot(w, c, cur, g.in(0, 10) * 30, 700 + c); } cur = c; } } }
      if (g.p(30)) { int c = (int)g.in(0, n - 1); if (c != cur) { st.push_back(c); at = 1; } } st.push_back(cur); len = std::max(len, at + 2); }
    else if (g.p(60)) st.push_back(g.p(50) ? first : cur); else st.push_back((int)g.in(0, n - 1));
    for (int tries = 0; (int)st.size() < len && tries < 200; tries++) { int c = (int)g.in(0, n - 1); if (c == st.back()) continue; bool seen = false; for (int x : st) if (x == c) seen = true; if (seen && !(o.revisit && g.p(50))) continue; st.push_back(c); }
    if (st.size() < 2) st.push_back((st[0] + 1) % n);
    if (i < legs) { int al = std::min((int)st.size() - 1, at + off); cur = st[al]; skel.push_back({at, al}); baseDep.push_back(clock); clock += 60 * g.in(2, 12) + 180; }
    else baseDep.push_back(o.base + g.in(-18, 14) * 60);
    addPath(w, i < nl ? i : (int)g.in(0, nl - 1), st);
  }
  int nt = (int)g.in(std::max(2, std::min(legs, o.trips)), std::max(2, o.trips));
  std::vector<int> tp(nt); for (int i = 0; i < nt; i++) tp[i] = i < np ? i : (int)g.in(0, np - 1);
  std::vector<bool> symb(nt, false); { int k = o.sym; for (int tries = 0; k > 0 && tries < 50; tries++) { int i = (int)g.in(0, nt - 1); if (!symb[i]) { symb[i] = true; k--; } } }
  for (int i = 0; i < nt; i++) {
    size_t m = w.paths[tp[i]].stops.size(); std::vector<long> arr(m), dep(m); long t = i < np ? baseDep[i] : baseDep[tp[i]] + g.in(-8, 10) * 60; std::string nm(1, (char)('A' + i));
    long sh = symb[i] ? S(nm + ".shift", -o.span, o.span, 0) : 0; bool free = symb[i] && g.p(35);
    for (size_t k = 0; k < m; k++) {
      if (k > 0) { t += (o.zero && g.p(30)) ? 0 : g.in(1, 6) * 60; }
      arr[k] = t; if (k + 1 < m && k > 0 && g.p(30)) t += g.in(0, 4) * 30; dep[k] = t;
    }
    for (size_t k = 0; k < m; k++) { arr[k] += sh; dep[k] += sh; }
    if (free) { size_t k = (size_t)g.in(1, (long)m - 1); long lo = o.zero ? 0 : 1; long d = S(nm + ".hop" + std::to_string(k), lo, 300, 120); long old = arr[k] - dep[k - 1]; for (size_t j = k; j < m; j++) { arr[j] += d - old; dep[j] += d - old; } }
    int t2 = w.trip(tp[i], o.scen ? (int)g.in(0, 2) : 0, arr, dep);
    if (o.flags) for (size_t k = 0; k < m; k++) { if (g.p(9)) w.trips[t2].board[k] = 0; if (g.p(9)) w.trips[t2].unboard[k] = 0; }
  }
  int na = (int)g.in(1, 3), ne = (int)g.in(1, 3); int ws = o.walksSym;
  auto put = [&](int place, int cnt, const char *nm) {
    std::vector<int> used; 
    for (int i = 0; i < cnt; i++) { int s = i == 0 ? (place == 0 ? first : cur) : (int)g.in(0, n - 1); bool dup = false; for (int u : used) if (u == s) dup = true; if (dup) continue; used.push_back(s);
      long t = g.in(0, 12) * 30; if (ws > 0 && g.p(60)) { ws--; t = S(std::string(nm) + std::to_string(s), 0, 600, t); } walk(w, place, s, t); }
  };
  put(0, na, "access"); put(1, ne, "egress");
  genScen(w, g, o, nl); varyDist(w, seed);
  r.mw = o.mw; if (g.p(30)) r.mw = g.in(0, 5) * 60;
  long T0 = r.forward ? o.base - 1500 : o.base + 1500;
  long Tlo = std::max(0L, T0 - 900), Thi = std::min(115199L, T0 + 900);
  r.T = S("T", Tlo, Thi, std::min(std::max(T0, Tlo), Thi));
  for (auto &t : w.trips) for (size_t k = 0; k < t.arr.size(); k++) { assume(Int(t.arr[k]) >= Int(0)); assume(Int(t.dep[k]) <= Int(115199)); }
}
// layered networks: access stops -> feeders -> footpaths or same-stop changes -> trunks -> egress stops, with direct lines
// competing; nearly every request has several journeys whose walks, limits and times pull in different directions
inline void genLayer(World &w, Req &r, unsigned long seed, const GenOpt &o) {
  Lcg g(seed * 40503 + 91); w = World(); basics(w);
  if (o.scen) { w.agencies.push_back({"AG1", "Agency 1"}); w.services.push_back({"service 1"}); w.services.push_back({"service 2"}); }
  int nA = (int)g.in(1, 3), nB = (int)g.in(1, 2), nC = (int)g.in(1, 2), nE = (int)g.in(1, 4), n = nA + nB + nC + nE;
  for (int i = 0; i < n; i++) addStop(w);
  std::vector<int> pm(n); for (int i = 0; i < n; i++) pm[i] = i; for (int i = n - 1; i > 0; i--) std::swap(pm[i], pm[g.in(0, i)]);
  std::vector<int> A(pm.begin(), pm.begin() + nA), B(pm.begin() + nA, pm.begin() + nA + nB), C(pm.begin() + nA + nB, pm.begin() + nA + nB + nC), E(pm.begin() + nA + nB + nC, pm.end());
  auto ft = [&]() -> long { return g.p(12) ? 0 : g.p(25) ? g.in(20, 34) * 30 : g.in(1, 12) * 30; };
  std::vector<std::pair<int, int>> fp;
  for (int b : B) for (int c : C) if (g.p(75)) { fp.push_back({b, c}); addFoot(w, b, c, ft(), 300 + b * 10 + c); if (g.p(70)) addFoot(w, c, b, ft(), 800 + b * 10 + c); }
  if (nE > 1 && g.p(30)) addFoot(w, E[0], E[1], ft(), 77);
  if (nA > 1 && g.p(25)) addFoot(w, A[0], A[1], ft(), 78);
  if (o.walksSym > 0 && fp.size()) { auto &q = fp[g.in(0, (long)fp.size() - 1)]; for (auto &f : w.stops[q.first].foot) if (f.to == q.second) f.time = S("foot", 0, 900, f.time); }
  int nt = (int)g.in(3, std::max(3, o.trips + 1)); std::vector<bool> symb(nt, false); { int k = o.sym; for (int tr = 0; k > 0 && tr < 50; tr++) { int i = (int)g.in(0, nt - 1); if (!symb[i]) { symb[i] = true; k--; } } }
  auto one = [&](std::vector<int> &v) { return v[g.in(0, (long)v.size() - 1)]; };
  int made = 0; std::vector<int> kinds; int nl = 0;
  for (int i = 0; i < nt; i++) {
    int kind = i == 0 ? 0 : i == 1 ? 1 : (int)g.in(0, 3); std::vector<int> st; long t0;
    if (kind == 0) { st = {one(A)}; if (g.p(25) && nA > 1) { int c = one(A); if (c != st[0]) st.push_back(c); } if (g.p(25)) { int c = one(B); st.push_back(c); } int c = g.p(25) ? one(C) : one(B); if (c != st.back()) st.push_back(c); t0 = o.base - 900 + g.in(0, 9) * 60; }
    else if (kind == 1) { if (g.p(25)) st.push_back(one(B)); st.push_back(one(C)); if (g.p(25) && nC > 1) { int c = one(C); if (c != st.back()) st.push_back(c); } st.push_back(one(E)); if (g.p(30) && nE > 1) { int c = one(E); if (c != st.back()) st.push_back(c); } t0 = o.base - 120 + g.in(0, 12) * 60; }
    else if (kind == 2) { st = {one(A)}; if (g.p(40)) st.push_back(one(B)); st.push_back(one(E)); if (g.p(25) && nE > 1) { int c = one(E); if (c != st.back()) st.push_back(c); } t0 = o.base - 900 + g.in(0, 20) * 60; }
    else { st = {one(A), one(B), one(C), one(E)}; t0 = o.base - 800 + g.in(0, 14) * 60; }
    int ln; if (nl > 0 && g.p(20)) ln = (int)g.in(0, nl - 1); else { ln = addLine(w, o.scen && g.p(40) ? 1 : 0, o.special && g.p(25) ? "transferable" : (o.scen && g.p(35)) ? "metro" : "bus"); nl++; }
    int pa = addPath(w, ln, st); size_t m = st.size(); std::vector<long> arr(m), dep(m); long t = t0; std::string nm(1, (char)('A' + i));
    long sh = symb[i] ? S(nm + ".shift", -o.span, o.span, 0) : 0;
    for (size_t k = 0; k < m; k++) { if (k > 0) t += (o.zero && g.p(30)) ? 0 : g.in(1, 6) * 60; arr[k] = t + sh; if (k + 1 < m && k > 0 && g.p(25)) t += g.in(1, 4) * 30; dep[k] = t + sh; }
    int t2 = w.trip(pa, o.scen ? (int)g.in(0, 2) : 0, arr, dep); made++;
    if (o.flags) for (size_t k = 0; k < m; k++) { if (g.p(7)) w.trips[t2].board[k] = 0; if (g.p(7)) w.trips[t2].unboard[k] = 0; }
  }
  bool skew = seed % 3 == 0;  // one stop far, the others close
  int ws = o.walksSym; auto put = [&](int place, std::vector<int> &v, const char *nm) { for (size_t i = 0; i < v.size(); i++) { if (i > 0 && g.p(20)) continue; long t = g.in(0, 20) * 30; if (skew) t = g.p(35) ? g.in(20, 38) * 30 : g.in(0, 5) * 20; if (ws > 0 && g.p(50)) { ws--; t = S(std::string(nm) + std::to_string(v[i]), 0, 900, t); } walk(w, place, v[i], t); } };
  if (seed & 1) { put(0, A, "access"); put(1, E, "egress"); } else { put(1, E, "egress"); put(0, A, "access"); }
  genScen(w, g, o, nl); varyDist(w, seed);
  r.mw = o.mw; if (g.p(40)) r.mw = g.in(0, 5) * 60;
  if (g.p(35)) { r.maxTransfer = g.in(2, 20) * 30; } if (g.p(15)) r.maxAccess = g.in(4, 18) * 30; if (g.p(15)) r.maxEgress = g.in(4, 18) * 30; if (g.p(20)) r.maxTravel = g.in(20, 50) * 60;
  long T0 = r.forward ? o.base - 1400 : o.base + 1400; long Tlo = std::max(0L, T0 - 900), Thi = std::min(115199L, T0 + 900);
  r.T = S("T", Tlo, Thi, std::min(std::max(T0, Tlo), Thi));
  for (auto &t : w.trips) for (size_t k = 0; k < t.arr.size(); k++) { assume(Int(t.arr[k]) >= Int(0)); assume(Int(t.dep[k]) <= Int(115199)); }
}
}
