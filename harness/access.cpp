// C08 / C09: the accessibility map lists exactly the reachable (usable) stops with the best times.
#include "setup.hpp"
using namespace vt; using namespace nets;
static void body() {
  Req r = setup(); r.endpoint = "/v2/accessibility";
  if (!r.forward) r.origin = 1;
  serve([&] {
    Resp a = get(r); wellFormed(a, "accessibility"); std::string st = a.j.value("status", ""); sym::reach("status " + st);
    Query q = norm(r); std::map<int, const json *> listed; size_t n = 0;
    if (st == "success") {
      const json &res = a.j.at("result"); check(num(res, "totalNodeCount") == Int((long)W.stops.size()), P + ": totalNodeCount is not the number of stops");
      for (auto &x : res.at("nodes")) { int s = idx(STOP, x.value("nodeUuid", "")); if (s < 0 || s >= (int)W.stops.size()) sym::fail(P + ": an unknown stop is listed"); if (listed.count(s)) sym::fail(P + ": a stop is listed twice"); listed[s] = &x; n++;
        if (x.value("nodeName", "") != W.stops[s].name || x.value("nodeCode", "") != W.stops[s].code) sym::fail(P + ": name or code of a listed stop is not the stop's");
        const json &c = x.at("nodeCoordinates"); if (c.size() != 2 || std::fabs(c[0].get<double>() - W.stops[s].lon) > 2e-6 || std::fabs(c[1].get<double>() - W.stops[s].lat) > 2e-6) sym::fail(P + ": nodeCoordinates are not the stop's"); }
    } else if (st != "no_routing_found") sym::fail(P + ": status is neither success nor no_routing_found", st);
    sym::reach(n == 0 ? "no stop listed" : n == 1 ? "1 stop listed" : "2+ stops listed");
    if (on("C08")) {
      std::vector<std::vector<std::pair<Bool, Int>>> ex(W.stops.size());
      for (auto &j : journeysFrom(W, q, 0)) ex[j.last].push_back({j.adm & (j.lastArr - q.T <= q.maxTravel), j.lastArr});
      for (size_t s = 0; s < W.stops.size(); s++) {
        bool in = listed.count(s); Bool any(false); for (auto &e : ex[s]) any |= e.first;
        if (!in) { check(!any, "C08: a reachable stop is not listed"); continue; }
        Int t = num(*listed[s], "nodeTime"); Bool hit(false);
        for (auto &e : ex[s]) { hit |= e.first & (e.second == t); check(implies(e.first, e.second >= t), "C08: a stop can be reached earlier than its nodeTime"); }
        check(any, "C08: a stop that no admissible journey reaches is listed");
        check(hit, "C08: nodeTime is the time of no admissible journey");
        check(num(*listed[s], "totalTravelTime") == t - q.T, "C08: totalTravelTime is not nodeTime minus the requested time");
      }
    } else {
      std::vector<std::vector<std::pair<Bool, Int>>> ex(W.stops.size());
      for (auto &t : withEgress(W, q, journeysFromStops(W, q), 1)) ex[t.j.first].push_back({t.ok & (t.arr <= q.T) & (q.T - t.j.boardReady <= q.maxTravel), t.j.boardReady});
      for (size_t s = 0; s < W.stops.size(); s++) {
        bool in = listed.count(s); Bool any(false); for (auto &e : ex[s]) any |= e.first;
        if (!in) { check(!any, "C09: a usable stop is not listed"); continue; }
        Int t = num(*listed[s], "nodeTime"); Bool hit(false);
        for (auto &e : ex[s]) { hit |= e.first & (e.second == t); check(implies(e.first, e.second <= t), "C09: a stop can be reached later than its nodeTime"); }
        check(any, "C09: a stop from which no admissible journey arrives in time is listed");
        check(hit, "C09: nodeTime is the time of no admissible journey");
        check(num(*listed[s], "totalTravelTime") == q.T - t, "C09: totalTravelTime is not the requested time minus nodeTime");
      }
    }
  });
  symx_done();
}
int main(int argc, char **argv) { return sym_main(argc, argv, body); }
