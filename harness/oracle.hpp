// Reference semantics over the abstract dataset, as formulas (no path splitting).
#pragma once
#include "vt.hpp"
namespace vt {
struct Query { bool forward; Int T, maxTravel, maxAccess, maxEgress, maxTransfer, maxFirst; long mw; int scen; bool firstCapped; Int firstRaw; };
inline Query norm(const Req &r) {
  Query q; q.forward = r.forward; q.T = Int(r.T); q.maxTravel = r.lim(r.maxTravel); q.maxAccess = r.lim(r.maxAccess); q.maxEgress = r.lim(r.maxEgress); q.maxTransfer = r.lim(r.maxTransfer); q.firstRaw = Int(r.maxFirst); q.mw = r.mw; q.scen = r.scen;
  return q;
}
inline bool isFalse(Bool b) { return symx_is_const(b.e) && !b.conc(); }
struct Journey {
  Bool adm;                    // everything but the global limits
  Int dep;                     // leave the origin at the latest: first boarding - minimum waiting - access walk
  Int boardReady;              // latest time to be at the first stop: first boarding - minimum waiting
  Int firstDep, lastArr, access; int first, last; std::vector<int> trips, boardIdx, alightIdx;
};
// enumerates journeys that start by being at stop s at time `ready` (ready = nullptr: any time) and end by alighting
struct Enum {
  const World &w; const Query &q; int maxRides; std::function<void(const Journey &)> out; bool boundReady;
  void from(int s, Bool cond, Int ready, Int access, Journey j, unsigned used, int rides) {
    if (rides >= maxRides) return;
    for (size_t t = 0; t < w.trips.size(); t++) {
      if ((used >> t) & 1) continue; if (!admitted(w, q.scen, t)) continue;
      const Trip_ &tr = w.trips[t]; const Path_ &p = w.paths[tr.path]; long mw = mwOf(w, t, q.mw);
      for (size_t i = 0; i + 1 < p.stops.size(); i++) {
        if (p.stops[i] != s) continue;
        Bool c = cond & (Int(tr.board[i]) == Int(1));
        bool first = j.trips.empty();
        if (!first || boundReady) c &= Int(tr.dep[i]) >= ready + Int(mw);
        if (isFalse(c)) continue;
        for (size_t k = i + 1; k < p.stops.size(); k++) {
          Bool c2 = c & (Int(tr.unboard[k]) == Int(1)); if (isFalse(c2)) continue;
          Journey n = j; n.trips.push_back(t); n.boardIdx.push_back(i); n.alightIdx.push_back(k);
          if (first) { n.firstDep = Int(tr.dep[i]); n.boardReady = Int(tr.dep[i]) - Int(mw); n.access = access; n.dep = n.boardReady - access; n.first = s; }
          n.lastArr = Int(tr.arr[k]); n.last = p.stops[k]; n.adm = c2; out(n);
          for (const Foot &f : w.stops[p.stops[k]].foot) { Bool c3 = c2 & (Int(f.time) <= q.maxTransfer); if (isFalse(c3)) continue; from(f.to, c3, Int(tr.arr[k]) + Int(f.time), access, n, used | (1u << t), rides + 1); }
        }
      }
    }
  }
};
inline std::vector<Journey> journeysFrom(const World &w, const Query &q, int place, int maxRides = 9) {  // access walks from a place, boarded at or after T
  std::vector<Journey> v; Enum e{w, q, maxRides, [&](const Journey &j) { v.push_back(j); }, q.forward};
  for (const Walk &a : w.places[place].walks) e.from(a.stop, Int(a.time) <= q.maxAccess, q.T + Int(a.time), Int(a.time), Journey(), 0, 0);
  return v;
}
inline std::vector<Journey> journeysFromStops(const World &w, const Query &q, int maxRides = 9) {
  std::vector<Journey> v; Enum e{w, q, maxRides, [&](const Journey &j) { v.push_back(j); }, false};
  for (size_t s = 0; s < w.stops.size(); s++) e.from(s, Bool(true), Int(0), Int(0), Journey(), 0, 0);
  return v;
}
struct Trav { Bool ok; Int dep, arr; Journey j; };  // with the egress walk
inline std::vector<Trav> withEgress(const World &w, const Query &q, const std::vector<Journey> &js, int place) {
  std::vector<Trav> v;
  for (auto &j : js) for (const Walk &e : w.places[place].walks) if (e.stop == j.last) v.push_back({j.adm & (Int(e.time) <= q.maxEgress), j.dep, j.lastArr + Int(e.time), j});
  return v;
}
inline Bool anyOf(const std::vector<Bool> &v) { Bool r(false); for (auto &x : v) r |= x; return r; }

// ---- one route of an answer, read back from the JSON steps
struct RStep { std::string action; const json *j; };
// C01: executable itinerary; C02: limits; C06: totals
void checkC01(const json &route, const World &w, const Req &r);
void checkC02(const json &route, const World &w, const Req &r);
void checkC06(const json &route, const World &w, const Req &r);
std::multiset<std::string> linesOf(const json &route);
}
