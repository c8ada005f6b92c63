// C11 (restriction = deletion), C12 (time shift), C13 (history independence): two runs of the real server compared.
#include "setup.hpp"
#include "eqjson.hpp"
using namespace vt; using namespace nets;
static bool clockKey(const std::string &k) { return k == "departureTime" || k == "arrivalTime" || k == "readyToBoardAt" || k == "timeOfTrip" || k == "nodeTime"; }
static void clocks(const json &j, const std::string &key, std::vector<Int> &out) {
  if (j.is_object()) for (auto i = j.begin(); i != j.end(); ++i) clocks(i.value(), i.key(), out);
  else if (j.is_array()) for (auto &x : j) clocks(x, key, out); else if (clockKey(key) && j.is_number()) out.push_back(Int(j.get<long>()));
}
static void body() {
  Req r = setup(); bool acc = r.endpoint == "/v2/accessibility"; if (acc && !r.forward) r.origin = 1;
  std::vector<std::string> args; if (symx_arg_int("cacheall", 0)) args.push_back("--cacheAllConnectionSets=1");
  if (on("C11")) {
    Resp a, b; serve([&] { a = get(r); }, args); wellFormed(a, "restricted scenario");
    World keep = W; for (size_t t = 0; t < W.trips.size(); t++) W.trips[t].present = admitted(keep, r.scen, t);
    bool dropped = false; for (auto &t : W.trips) if (!t.present) dropped = true; bool any = false; for (auto &t : W.trips) if (t.present) any = true;
    // nothing left: a copy without any schedule is 'data not ready', not a dataset; the restricted answer must still be a plain no
    if (!any) { sym::reach("trivial"); if (a.j.value("status", "") == "success" && (!acc || a.j["result"]["nodes"].size())) sym::fail("C11: an answer rides trips although the scenario excludes all"); return; }
    sym::reach(dropped ? "some trips excluded" : "no trip excluded");
    Scen all; for (size_t s = 0; s < W.services.size(); s++) all.services.push_back(s); W.scenarios = {all}; Req r2 = r; r2.scen = 0;
    serve([&] { b = get(r2); }, args); wellFormed(b, "reduced data");
    std::string st = a.j.value("status", ""); sym::reach("status " + st);
    if (st != b.j.value("status", "") || a.code != b.code) sym::fail("C11: status differs from the data without the excluded trips", st + " / " + b.j.value("status", ""));
    if (a.j.value("reason", "") != b.j.value("reason", "")) sym::fail("C11: reason differs from the data without the excluded trips", a.j.value("reason", "") + " / " + b.j.value("reason", ""));
    if (st != "success") return;
    const json &ra = a.j["result"], &rb = b.j["result"];
    if (acc) {
      check(num(ra, "totalNodeCount") == num(rb, "totalNodeCount"), "C11: totalNodeCount differs");
      std::map<std::string, const json *> m; for (auto &x : rb["nodes"]) m[x.value("nodeUuid", "")] = &x;
      if (m.size() != ra["nodes"].size()) sym::fail("C11: the accessibility maps list different stops");
      for (auto &x : ra["nodes"]) { auto i = m.find(x.value("nodeUuid", "")); if (i == m.end()) sym::fail("C11: the accessibility maps list different stops"); check((num(x, "nodeTime") == num(*i->second, "nodeTime")) & (num(x, "totalTravelTime") == num(*i->second, "totalTravelTime")), "C11: a stop's time differs from the data without the excluded trips"); }
    } else check((num(ra["routes"][0], "departureTime") == num(rb["routes"][0], "departureTime")) & (num(ra["routes"][0], "arrivalTime") == num(rb["routes"][0], "arrivalTime")), "C11: departure or arrival time differs from the data without the excluded trips");
  } else if (on("C12")) {
    long d = symx_arg_int("dbase", 0) + S("offset", -symx_arg_int("dspan", 1800), symx_arg_int("dspan", 1800), 900); Resp a, b;
    serve([&] { a = get(r); }, args); wellFormed(a, "original");
    for (auto &t : W.trips) for (size_t k = 0; k < t.arr.size(); k++) { t.arr[k] += d; t.dep[k] += d; assume((Int(t.arr[k]) >= Int(0)) & (Int(t.arr[k]) < Int(115200)) & (Int(t.dep[k]) >= Int(0)) & (Int(t.dep[k]) < Int(115200))); }
    Req r2 = r; r2.T = r.T + d; assume((Int(r2.T) >= Int(0)) & (Int(r2.T) < Int(115200)));
    serve([&] { b = get(r2); }, args); wellFormed(b, "shifted");
    std::string st = a.j.value("status", ""); sym::reach("status " + st);
    Bool inside(true); std::vector<Int> ca, cb; clocks(a.j, "", ca); clocks(b.j, "", cb);
    for (auto &c : ca) inside &= (c >= Int(0)) & (c < Int(115200)) & (c + Int(d) >= Int(0)) & (c + Int(d) < Int(115200)); for (auto &c : cb) inside &= (c >= Int(0)) & (c < Int(115200)) & (c - Int(d) >= Int(0)) & (c - Int(d) < Int(115200));
    std::string w; Bool same = Bool(a.code == b.code) & eqJson(a.j, b.j, w, [&](const std::string &k) { return clockKey(k) ? Int(d) : Int(0); });
    if (symx_arg_int("show", 0)) fprintf(stderr, "differs at %s\n", w.c_str());
    check(implies(inside, same), "C12: the shifted query is not answered by the shifted answer (" + st + ")");
  } else {
    // scenarios that differ in one list only: same services in the same or another order, different exclusions
    Lcg g(symx_arg_int("seed", 1) * 77 + 5); int len = symx_arg_int("hist", 3);
    if (W.services.size() < 2) { W.services.push_back({"service 1"}); if (g.p(70)) W.scenarios[0].services.push_back(1); for (size_t t = 0; t < W.trips.size(); t++) if (g.p(40)) W.trips[t].service = 1; }
    Scen base = W.scenarios[r.scen], s2 = base, s3 = base, s4 = base; s2.exceptLines = {(int)W.lines.size() - 1}; if (g.p(50)) s3.exceptModes = {"bus"}; else s3.onlyLines = {0}; std::swap(s4.services.front(), s4.services.back()); s4.exceptAgencies = {0};
    W.scenarios.push_back(s2); W.scenarios.push_back(s3); W.scenarios.push_back(s4); if (g.p(40)) { W.scenarios[r.scen] = s2; W.scenarios[W.scenarios.size() - 3] = base; } int ns = W.scenarios.size();
    Resp a, b; serve([&] { a = get(r); }, args); wellFormed(a, "fresh server");
    auto lim = [&] { return g.p(60) ? 0L : g.p(20) ? -1L : g.in(1, 25) * 60; }; int symT = 0;
    serve([&] {
      for (int i = 0; i < len; i++) {
        Req h = r; int k = g.in(0, 9);
        if (k < 7) {
          h.scen = g.in(0, ns - 1); if (g.p(50)) h.T = symT++ == 0 ? S("history.T", 0, 115199, 36000) : r.T; else h.T = g.in(5, 12) * 3600; if (g.p(40)) h.forward = !h.forward;
          if (g.p(30)) h.endpoint = "/v2/accessibility"; else if (g.p(30)) h.endpoint = "/v2/summary"; else { h.endpoint = "/v2/route"; h.alternatives = g.p(40); }
          if (g.p(20)) std::swap(h.origin, h.dest); if (g.p(30)) h.mw = g.in(0, 600); if (g.p(20)) h.maxTravel = g.in(60, 3600); if (g.p(40)) { h.maxAccess = lim(); h.maxEgress = lim(); h.maxTransfer = lim(); h.maxFirst = lim(); }
          if (g.p(30)) {  // a place nearby, from which the walks are others
            Place keep = W.places[h.origin]; auto d = [&] { return g.in(1, 60) / 65536.0 * (g.p(50) ? 1 : -1); }; W.places[h.origin].lat += d(); if (g.p(60)) W.places[h.origin].lon += d();
            if (symx_arg("router", "") != "euclid") { auto &v = W.places[h.origin].walks; for (auto &x : v) x.time += 60; if (g.p(40) && v.size() > 1) v.pop_back(); }
            get(h); W.places[h.origin] = keep; continue;
          }
          get(h); }
        else if (k == 7) switch (g.in(0, 3)) { case 0: get("/updateCache", g.p(50) ? "names=all" : "names=schedules"); break; case 1: get("/updateCache", "names=unknown"); break; case 2: get("/v2/accessibility", "place=1"); break; default: get("/v2/route", "origin=1,2"); }
        else if (k == 8) { if (g.p(50)) { h.scen = 99; get(h); } else get("/v2/summary", h.query() + "&scenario_id=zz"); }
        else { static const char *BAD[] = {"&time_of_trip=abc", "&min_waiting_time=x", "&max_travel_time=", "&max_first_waiting_time=9e9", "&time_type=1&alternatives=true&max_transfer_travel_time=?", "&max_access_travel_time=1&max_egress_travel_time=a"}; get(g.p(50) ? "/v2/route" : g.p(50) ? "/v2/summary" : "/v2/accessibility", h.query() + BAD[g.in(0, 5)]); }
      }
      b = get(r); Resp c = get(r); wellFormed(b, "after other requests"); wellFormed(c, "repeated"); sym::reach("status " + a.j.value("status", ""));
      if (b.code != a.code || c.code != a.code) sym::fail("C13: HTTP status depends on earlier requests");
      checkEq(a.j, b.j, "C13: the answer depends on earlier requests"); checkEq(a.j, c.j, "C13: the repeated request is answered differently");
    }, args);
  }
  symx_done();
}
int main(int argc, char **argv) { return sym_main(argc, argv, body); }
