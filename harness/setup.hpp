// Command-line options -> dataset and request, shared by the query harnesses.
#pragma once
#include "oracle.hpp"
#include "nets.hpp"
#include "geo.hpp"
namespace nets {
using namespace vt;
inline const long H = 36000;  // the hour boundary the symbolic clock values straddle
inline Rng R0{H - 900, H + 900};
// C: capped walk and limit parameters; L: how many of the limits are symbolic
inline void limits(Req &r, const std::string &which) {
  if (which.find('w') != std::string::npos) r.mw = S("min_waiting", 0, 600, 180);
  if (which.find('m') != std::string::npos) r.maxTravel = S("max_travel", -1, 3000, 1800);
  if (which.find('t') != std::string::npos) r.maxTransfer = S("max_transfer", -1, 900, 300);
  if (which.find('f') != std::string::npos) r.maxFirst = S("max_first", -1, 900, 300);
  if (which.find('a') != std::string::npos) r.maxAccess = S("max_access", -1, 900, 300);
  long step = walkTol ? 4 * walkTol : 1;
  // 'A', 'E': concrete maxima at, just below or just above a walk the router offers
  auto at = [&](int place, int k) -> long { auto &v = W.places[place].walks; if (v.empty()) return 300; return std::max(1L, v[k % v.size()].time + (walkTol ? ((k / 3) % 2 ? step : -step) : (k / 3) % 3 - 1)); };
  if (which.find('A') != std::string::npos) r.maxAccess = at(0, symx_arg_int("seed", 1)); if (which.find('E') != std::string::npos) r.maxEgress = at(1, symx_arg_int("seed", 1) + 1);
  if (which.find('e') != std::string::npos) r.maxEgress = S("max_egress", -1, 900, 300);
}
inline void netPair(World &w, Req &r) {  // two vehicles compete on one hop
  basics(w); for (int i = 0; i < 2; i++) addStop(w);
  int l0 = addLine(w), l1 = addLine(w); int p0 = addPath(w, l0, {0, 1}), p1 = addPath(w, l1, {0, 1});
  symTrip(w, p0, "A", R0); symTrip(w, p1, "B", R0);
  walk(w, 0, 0, S("access", 0, 600, 120)); walk(w, 1, 1, S("egress", 0, 600, 60));
  r.T = S("T", R0.lo - 600, R0.hi + 600, H - 800);
}
inline void netChain(World &w, Req &r) {  // a transfer by footpath between two lines, one alternative feeder
  basics(w); for (int i = 0; i < 4; i++) addStop(w); addFoot(w, 1, 2, S("foot12", 0, 600, 90), 111); addFoot(w, 2, 1, 90, 112);
  int l0 = addLine(w), l1 = addLine(w); int p0 = addPath(w, l0, {0, 1}), p1 = addPath(w, l1, {2, 3});
  symTrip(w, p0, "A", R0); symTrip(w, p1, "B", R0);
  walk(w, 0, 0, S("access", 0, 600, 120)); walk(w, 1, 3, S("egress", 0, 600, 60));
  r.T = S("T", R0.lo - 600, R0.hi + 600, H - 1200);
}
inline void netTri(World &w, Req &r) {  // direct line competes with a two-leg journey over a same-stop change
  basics(w); for (int i = 0; i < 3; i++) addStop(w);
  int l0 = addLine(w), l1 = addLine(w), l2 = addLine(w); int p0 = addPath(w, l0, {0, 1}), p1 = addPath(w, l1, {1, 2}), p2 = addPath(w, l2, {0, 2});
  symTrip(w, p0, "A", R0); symTrip(w, p1, "B", R0); symTrip(w, p2, "C", R0);
  walk(w, 0, 0, 120); walk(w, 1, 2, 60);
  r.T = S("T", R0.lo - 600, R0.hi + 600, H - 1200);
}
inline void fan(World &w, Req &r, bool out) {  // three vehicles, each to (from) its own stop, whose walks compete
  basics(w); for (int i = 0; i < 4; i++) addStop(w); const long q[3] = {1080, 60, 240};
  for (int i = 0; i < 3; i++) { int l = addLine(w), p = addPath(w, l, out ? std::vector<int>{0, i + 1} : std::vector<int>{i + 1, 0}); symTrip(w, p, std::string(1, 'A' + i), R0); walk(w, out ? 1 : 0, i + 1, S((out ? "egress" : "access") + std::to_string(i), 0, 1200, q[i])); }
  walk(w, out ? 0 : 1, 0, 120); r.T = S("T", R0.lo - 600, R0.hi + 600, r.forward ? H - 1200 : H + 1500);
}
inline void netFan(World &w, Req &r) { fan(w, r, true); }
inline void netFanIn(World &w, Req &r) { fan(w, r, false); }
inline void netParams(World &w, Req &r) {  // walks, waits and a transfer whose lengths surround the default limits
  basics(w); for (int i = 0; i < 4; i++) addStop(w); addFoot(w, 1, 2, S("foot12", 0, 1400, 1190), 111); addFoot(w, 2, 1, 90, 112);
  int l0 = addLine(w), l1 = addLine(w), l2 = addLine(w); int p0 = addPath(w, l0, {0, 1}), p1 = addPath(w, l1, {2, 3}), p2 = addPath(w, l2, {1, 0});
  symTrip(w, p0, "A", {H - 300, H + 300}); symTrip(w, p1, "B", {H + 900, H + 2100}); symTrip(w, p2, "C", {H - 300, H + 300});
  walk(w, 0, 0, S("access", 0, 1400, 1190)); walk(w, 1, 3, S("egress", 0, 1400, 1190)); walk(w, 1, 1, 1200); walk(w, 0, 1, 1201);
  r.T = H - 1500;
}
inline std::vector<Net> NETS = {{"params", "", netParams}, {"fan", "", netFan}, {"fanin", "", netFanIn}, {"pair", "", netPair}, {"chain", "", netChain}, {"tri", "", netTri}};

inline std::string P;                    // property whose assertions are enabled
inline bool on(const char *p) { return P == p; }
inline Req setup() {
  P = symx_arg("prop", "C03"); std::string net = symx_arg("net", "pair"), lim = symx_arg("lim", "");
  Req r; r.forward = symx_arg_int("fwd", 1); r.endpoint = symx_arg("ep", "/v2/route"); r.alternatives = symx_arg_int("alt", 0);
  bool found = false;
  if (net == "gen" || net == "layer") { GenOpt o; o.base = symx_arg_int("base", 36000); o.zero = symx_arg_int("zero", 0); o.special = symx_arg_int("special", 0); o.scen = symx_arg_int("scen", 0); o.pair = symx_arg_int("pair", symx_arg_int("seed", 1)); o.flags = symx_arg_int("flags", 1); o.sym = symx_arg_int("sym", 2); o.trips = symx_arg_int("trips", 4); o.span = symx_arg_int("span", 240); o.walksSym = symx_arg_int("walks", 0); if (net == "gen") genNet(W, r, symx_arg_int("seed", 1), o); else genLayer(W, r, symx_arg_int("seed", 1), o); found = true; }
  for (auto &n : NETS) if (net == n.name) { n.make(W, r); found = true; } if (!found) sym::fail("harness: unknown net");
  r.scen = symx_arg_int("rscen", 0);
  bool noacc = symx_arg_int("noacc", 0), noegr = symx_arg_int("noegr", 0); if (noacc) W.places[0].walks.clear(); if (noegr) W.places[1].walks.clear();
  std::string rt = symx_arg("router", ""); if (rt == "euclid") { walkTol = 6; geoEuclid(W, symx_arg_int("seed", 1)); } if (rt == "osrm") { serverArgs = {"--useEuclideanDistance=0"}; geoOsrm(W, noacc, noegr); }
  limits(r, lim);
  long cap = rt == "euclid" ? 1195 : rt == "osrm" && (noacc || noegr) ? 1500 : 0;  // no limit would let the router offer stops at any distance; 1195 s of walking end inside the ring geoEuclid keeps empty
  if (cap) { if (r.maxAccess <= 0 || rt == "euclid" && r.maxAccess > cap) r.maxAccess = cap; if (r.maxEgress <= 0 || rt == "euclid" && r.maxEgress > cap) r.maxEgress = cap; }
  enc = symx_arg_int("enc", symx_arg_int("seed", 1) & 15); withSources = symx_arg_int("seed", 1) % 3 == 0;
  return r;
}
}
