// C10: alternatives; C19: summary against the routes of the same query.
#include "setup.hpp"
#include "eqjson.hpp"
using namespace vt; using namespace nets;
// many parallel lines, so that the caps on calculations and on valid alternatives are reached
static void netMany(World &w, Req &r, int k) {
  basics(w); for (int i = 0; i < 3; i++) addStop(w);
  long base = 36000; Lcg g(symx_arg_int("seed", 1)); int legs = symx_arg_int("legs", 1);
  for (int i = 0; i < k; i++) { int l = addLine(w); int two = legs == 2 && i % 2; int p = legs == 2 ? addPath(w, l, two ? std::vector<int>{1, 2} : std::vector<int>{0, 1}) : addPath(w, l, {0, 2}); long d = base + 60 * g.in(0, 20) + (two ? 1500 : 0); if (i == 0) d += S("A.shift", -600, 600, 0); w.trip(p, 0, {d, d + 60 * g.in(5, 10)}, {d, d + 600}); w.trips.back().dep[1] = w.trips.back().arr[1]; }
  walk(w, 0, 0, 60); walk(w, 1, 2, 90);
  r.T = r.forward ? base - 600 : base + 60 * 20 + 1500 + 1200;
}
static void body() {
  std::string net = symx_arg("net", ""); Req r;
  if (net == "many") { P = symx_arg("prop", "C10"); r.forward = symx_arg_int("fwd", 1); netMany(W, r, symx_arg_int("k", 60)); limits(r, symx_arg("lim", "")); } else r = setup();
  bool special = false; for (auto &l : W.lines) if (l.mode == "transferable") special = true; bool zero = symx_arg_int("zero", 0);
  if (on("C19")) r.alternatives = symx_arg_int("alt", 0); else r.alternatives = false;
  serve([&] {
    Resp a = get(r); wellFormed(a, "route"); std::string st = a.j.value("status", ""); sym::reach("status " + st); bool ok = st == "success"; Query q = norm(r);
    if (on("C10")) {
      Req r2 = r; r2.alternatives = true; Resp b = get(r2); wellFormed(b, "alternatives");
      if (b.code != a.code || b.j.value("status", "") != st) sym::fail("C10: status differs with alternatives=true", st + " / " + b.j.value("status", ""));
      if (!ok) { if (b.j.value("reason", "") != a.j.value("reason", "")) sym::fail("C10: reason differs with alternatives=true"); return; }
      const json &ra = a.j.at("result").at("routes"), &rb = b.j.at("result").at("routes"); size_t n = rb.size();
      if (ra.size() != 1) sym::fail("C10: the plain query does not return one route"); if (n < 1) sym::fail("C10: no route with alternatives=true");
      sym::reach(n == 1 ? "1 route" : n < 5 ? "2-4 routes" : n < 50 ? "5-49 routes" : "50 routes");
      if (n > 50) sym::fail("C10: more than 50 routes");
      check(num(b.j.at("result"), "totalRoutesCalculated") >= Int((long)n), "C10: totalRoutesCalculated is less than the number of routes");
      checkEq(ra[0], rb[0], "C10: routes[0] is not the route of the plain query");
      for (size_t i = 1; i < n; i++) {
        checkC01(rb[i], W, r2); checkC02(rb[i], W, r2); checkC06(rb[i], W, r2);
        for (size_t k = 0; k < i; k++) if (linesOf(rb[i]) == linesOf(rb[k])) sym::fail("C10: two routes board the same multiset of lines");
        if (!special && !zero) { if (r.forward) check(implies(q.firstRaw <= Int(0), num(rb[i], "arrivalTime") >= num(rb[0], "arrivalTime")), "C10: a further route arrives earlier than routes[0]"); else check(implies(q.firstRaw <= Int(0), num(rb[i], "departureTime") <= num(rb[0], "departureTime")), "C10: a further route departs later than routes[0]"); }
      }
    } else {
      Req r2 = r; r2.endpoint = "/v2/summary"; Resp b = get(r2); wellFormed(b, "summary");
      if (b.code != a.code) sym::fail("C19: HTTP status differs between summary and route");
      if (b.j.value("status", "") != "success") sym::fail("C19: summary of an answered query is not a success", b.j.value("status", ""));
      checkEq(a.j.at("query"), b.j.at("query"), "C19: the summary echoes another query");
      const json &res = b.j.at("result"); long n = ok ? (long)a.j["result"]["routes"].size() : 0; sym::reach(n == 0 ? "0 routes" : n == 1 ? "1 route" : "2+ routes");
      check(num(res, "nbRoutes") == Int(n), "C19: nbRoutes is not the number of routes");
      std::map<std::string, long> cnt; std::map<std::string, json> ident;
      if (ok) for (auto &rt : a.j["result"]["routes"]) for (auto &s : rt.at("steps")) if (s.value("action", "") == "boarding") { std::string u = s.value("lineUuid", ""); cnt[u]++; int l = idx(LINE, u); if (l < 0 || l >= (int)W.lines.size()) sym::fail("C19: unknown line"); }
      std::set<std::string> seen;
      for (auto &x : res.at("lines")) {
        std::string u = x.value("lineUuid", ""); if (!seen.insert(u).second) sym::fail("C19: a line is listed twice"); if (!cnt.count(u)) sym::fail("C19: a line that no route boards is listed");
        const Line_ &l = W.lines[idx(LINE, u)]; const Agency_ &g = W.agencies[l.agency];
        if (x.value("lineShortname", "?") != l.shortname || x.value("lineLongname", "?") != l.longname || idx(AGENCY, x.value("agencyUuid", "")) != l.agency || x.value("agencyAcronym", "?") != g.acronym || x.value("agencyName", "?") != g.name) sym::fail("C19: identifying fields of a line are wrong", x.dump());
        check(num(x, "alternativeCount") == Int(cnt[u]), "C19: a line's count is not its number of boardings");
      }
      if (seen.size() != cnt.size()) sym::fail("C19: a boarded line is not listed");
    }
  });
  symx_done();
}
int main(int argc, char **argv) { return sym_main(argc, argv, body); }
