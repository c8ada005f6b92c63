#include "oracle.hpp"
namespace vt {
static std::string str(const json &j, const char *k) { auto it = j.find(k); if (it == j.end() || !it->is_string()) sym::fail(std::string("missing text field ") + k, ""); return it->get<std::string>(); }
static void need(bool b, const std::string &l) { if (!b) sym::fail(l); }
struct RideRef { int trip, bi, ai; const json *b, *a; };
struct Parsed { const json *access, *egress; std::vector<RideRef> rides; std::vector<const json *> transfers; };
// the step grammar, identities of trips and stops (all of this is concrete on a path)
static Parsed parse(const json &route, const World &w) {
  Parsed p; const json &st = route.at("steps"); need(st.is_array() && st.size() >= 4, "C01: steps are not access, rides, egress");
  size_t n = st.size();
  need(str(st[0], "action") == "walking" && str(st[0], "type") == "access", "C01: the first step is not the access walk"); p.access = &st[0];
  need(str(st[n - 1], "action") == "walking" && str(st[n - 1], "type") == "egress", "C01: the last step is not the egress walk"); p.egress = &st[n - 1];
  size_t i = 1;
  while (true) {
    need(i + 1 < n && str(st[i], "action") == "boarding" && str(st[i + 1], "action") == "unboarding", "C01: a ride is not a boarding followed by an unboarding");
    RideRef r; r.b = &st[i]; r.a = &st[i + 1]; r.trip = idx(TRIP, str(*r.b, "tripUuid")); need(r.trip >= 0 && r.trip < (int)w.trips.size() && w.trips[r.trip].present, "C01: ride on an unknown trip");
    need(idx(TRIP, str(*r.a, "tripUuid")) == r.trip, "C01: boarding and alighting name different trips");
    const Trip_ &tr = w.trips[r.trip]; const Path_ &pa = w.paths[tr.path]; long m = pa.stops.size();
    long bs = r.b->at("stopSequenceInTrip").get<long>(), as = r.a->at("stopSequenceInTrip").get<long>();
    need(bs >= 1 && bs <= m && as >= 1 && as <= m, "C01: stop sequence outside the trip"); r.bi = bs - 1; r.ai = as - 1;
    need(r.bi < r.ai, "C01: alighting does not come after boarding along the trip");
    need(r.b->at("legSequenceInTrip").get<long>() == bs && r.a->at("legSequenceInTrip").get<long>() == as - 1, "C01: leg sequence does not match the stops");
    need(idx(STOP, str(*r.b, "nodeUuid")) == pa.stops[r.bi], "C01: boarding stop is not the stop of the trip at that sequence");
    need(idx(STOP, str(*r.a, "nodeUuid")) == pa.stops[r.ai], "C01: alighting stop is not the stop of the trip at that sequence");
    p.rides.push_back(r); i += 2;
    if (i == n - 1) break;
    need(str(st[i], "action") == "walking" && str(st[i], "type") == "transfer", "C01: rides are not separated by a transfer walk"); p.transfers.push_back(&st[i]); i++;
  }
  return p;
}
void checkC01(const json &route, const World &w, const Req &r) {
  Parsed p = parse(route, w);
  auto walkIn = [&](const std::vector<Walk> &v, int s, Int t) { Bool b(false); for (auto &x : v) if (x.stop == s) b |= walkTol ? (Int(x.time) - Int(walkTol) <= t) & (t <= Int(x.time) + Int(walkTol)) : Int(x.time) == t; return b; };
  int f = w.paths[w.trips[p.rides[0].trip].path].stops[p.rides[0].bi]; RideRef &L = p.rides.back(); int l = w.paths[w.trips[L.trip].path].stops[L.ai];
  check(walkIn(w.places[r.origin].walks, f, num(*p.access, "travelTime")), "C01: access walk is not one the walking router offers to the boarding stop");
  check(walkIn(w.places[r.dest].walks, l, num(*p.egress, "travelTime")), "C01: egress walk is not one the walking router offers from the alighting stop");
  Int ready = num(*p.access, "departureTime") + num(*p.access, "travelTime");
  for (size_t k = 0; k < p.rides.size(); k++) {
    RideRef &R = p.rides[k]; const Trip_ &tr = w.trips[R.trip];
    check(num(*R.b, "departureTime") == Int(tr.dep[R.bi]), "C01: boarding time is not the scheduled departure");
    check(num(*R.a, "arrivalTime") == Int(tr.arr[R.ai]), "C01: alighting time is not the scheduled arrival");
    check(Int(tr.board[R.bi]) == Int(1), "C01: boards where boarding is not permitted");
    check(Int(tr.unboard[R.ai]) == Int(1), "C01: alights where alighting is not permitted");
    check(Int(tr.dep[R.bi]) >= ready + Int(mwOf(w, R.trip, r.mw)), k ? "C01: a connection is missed (arrival + minimum waiting after the departure)" : "C01: the first vehicle is missed (arrival at the stop + minimum waiting after the departure)");
    if (k + 1 < p.rides.size()) {
      const json &t = *p.transfers[k]; int a = w.paths[tr.path].stops[R.ai]; RideRef &N = p.rides[k + 1]; int b = w.paths[w.trips[N.trip].path].stops[N.bi];
      Bool m(false); for (auto &x : w.stops[a].foot) if (x.to == b) m |= Int(x.time) == num(t, "travelTime");
      if (a == b) m |= num(t, "travelTime") == Int(0);
      check(m, "C01: transfer walk is not the footpath between the two stops");
      ready = Int(tr.arr[R.ai]) + num(t, "travelTime");
    }
  }
  sym::reach(p.rides.size() == 1 ? "route with 1 ride" : p.rides.size() == 2 ? "route with 2 rides" : "route with 3+ rides");
}
void checkC02(const json &route, const World &w, const Req &r) {
  Query q = norm(r); Int dep = num(route, "departureTime"), arr = num(route, "arrivalTime"); const json &st = route.at("steps");
  if (r.forward) { check(dep >= q.T, "C02: leaves before the requested departure time"); check(arr - q.T <= q.maxTravel, "C02: span from the requested departure exceeds max_travel_time"); }
  else { check(arr <= q.T, "C02: arrives after the requested arrival time"); check(q.T - dep <= q.maxTravel, "C02: span back from the requested arrival exceeds max_travel_time"); }
  Int access(0); bool first = true;
  for (auto &s : st) {
    std::string a = str(s, "action");
    if (a == "walking") {
      std::string t = str(s, "type"); Int tt = num(s, "travelTime");
      if (t == "access") { access = tt; check(tt <= q.maxAccess, "C02: access walk exceeds its maximum"); }
      else if (t == "egress") check(tt <= q.maxEgress, "C02: egress walk exceeds its maximum");
      else check(tt <= q.maxTransfer, "C02: transfer walk exceeds its maximum");
    } else if (a == "boarding") {
      int t = idx(TRIP, str(s, "tripUuid")); need(t >= 0 && t < (int)w.trips.size(), "C02: unknown trip");
      need(admitted(w, r.scen, t), "C02: rides a trip the scenario does not admit");
      if (first && r.forward) check(implies(q.firstRaw > Int(0), num(s, "departureTime") - (q.T + access) <= q.firstRaw), "C02: wait at the first stop exceeds max_first_waiting_time");
      first = false;
    }
  }
}
void checkC06(const json &route, const World &w, const Req &r) {
  const json &st = route.at("steps"); Int clock = num(route, "departureTime"), access(0), egress(0), transfer(0), inveh(0), wait(0), wait1(0); Int dist(0), tdist(0), vdist(0), adist(0), edist(0); bool dists = true; int boards = 0; bool special = false, first = true; Int bdep(0);
  Int lastBoardReady(0); bool haveReady = false;
  for (size_t i = 0; i < st.size(); i++) {
    const json &s = st[i]; std::string a = str(s, "action");
    if (a == "walking") {
      std::string t = str(s, "type"); Int tt = num(s, "travelTime");
      check(num(s, "departureTime") == clock, i ? "C06: a walk does not start when the previous ride ends" : "C06: the access walk does not start at the route's departure time");
      check(num(s, "arrivalTime") == num(s, "departureTime") + tt, "C06: walk arrival is not departure plus travel time");
      clock = num(s, "arrivalTime");
      (t == "access" ? access : t == "egress" ? egress : transfer) += tt;
      (t == "transfer" ? tdist : dist) += num(s, "distance"); (t == "access" ? adist : t == "egress" ? edist : tdist) += t == "transfer" ? Int(0) : num(s, "distance");
      if (t != "egress") {
        // the departure this walk leads to
        if (i + 1 < st.size() && str(st[i + 1], "action") == "boarding") { int tr = idx(TRIP, str(st[i + 1], "tripUuid")); need(tr >= 0 && tr < (int)w.trips.size(), "C06: unknown trip"); check(num(s, "readyToBoardAt") == clock + Int(mwOf(w, tr, r.mw)), "C06: readyToBoardAt is not the walk's arrival plus the minimum waiting time"); }
      }
    } else if (a == "boarding") {
      int tr = idx(TRIP, str(s, "tripUuid")); need(tr >= 0 && tr < (int)w.trips.size(), "C06: unknown trip"); if (w.lines[w.paths[w.trips[tr].path].line].mode == "transferable") special = true;
      check(num(s, "waitingTime") == num(s, "departureTime") - clock, "C06: waiting time is not the departure minus the preceding arrival");
      wait += num(s, "waitingTime"); if (first) wait1 = num(s, "waitingTime"); first = false; boards++; clock = num(s, "departureTime"); bdep = clock;
    } else {
      check(num(s, "inVehicleTime") == num(s, "arrivalTime") - bdep, "C06: in-vehicle time is not alighting minus boarding time");
      inveh += num(s, "inVehicleTime"); vdist += num(s, "inVehicleDistance"); { int tr = idx(TRIP, str(s, "tripUuid")); need(tr >= 0 && tr < (int)w.trips.size(), "C06: unknown trip"); const Path_ &pa = w.paths[w.trips[tr].path]; if (pa.segDist.size() + 1 != pa.stops.size()) dists = false; } clock = num(s, "arrivalTime");
    }
  }
  Int dep = num(route, "departureTime"), arr = num(route, "arrivalTime"), tot = num(route, "totalTravelTime");
  check(clock == arr, "C06: arrivalTime is not the end of the last step");
  check(tot == arr - dep, "C06: totalTravelTime is not arrivalTime - departureTime");
  check(tot == access + egress + transfer + inveh + wait, "C06: totalTravelTime is not the sum of its parts");
  check(num(route, "totalWaitingTime") == wait, "C06: totalWaitingTime is not the sum over the boardings");
  check(num(route, "firstWaitingTime") == wait1, "C06: firstWaitingTime is not the first boarding's waiting time");
  check(num(route, "totalWaitingTime") == num(route, "firstWaitingTime") + num(route, "transferWaitingTime"), "C06: totalWaitingTime is not firstWaitingTime + transferWaitingTime");
  check(num(route, "totalInVehicleTime") == inveh, "C06: totalInVehicleTime is not the sum over the rides");
  check(num(route, "accessTravelTime") == access, "C06: accessTravelTime is not the access walk");
  check(num(route, "egressTravelTime") == egress, "C06: egressTravelTime is not the egress walk");
  if (!special) {
    check(num(route, "transferWalkingTime") == transfer, "C06: transferWalkingTime is not the sum of the transfer walks");
    check(num(route, "totalNonTransitTravelTime") == access + egress + transfer, "C06: totalNonTransitTravelTime is not the sum of the walks");
    if (dists) {
      check(num(route, "transferWalkingDistance") == tdist, "C06: transferWalkingDistance is not the sum of the transfer walks");
      check(num(route, "totalNonTransitDistance") == dist + tdist, "C06: totalNonTransitDistance is not the sum of the walks");
      check(num(route, "totalInVehicleDistance") == vdist, "C06: totalInVehicleDistance is not the sum over the rides");
      check(num(route, "totalDistance") == dist + tdist + vdist, "C06: totalDistance is not the sum over the steps");
      check(num(route, "accessDistance") == adist, "C06: accessDistance is not the access walk");
      check(num(route, "egressDistance") == edist, "C06: egressDistance is not the egress walk");
    }
    check(num(route, "numberOfBoardings") == Int(boards), "C06: numberOfBoardings is not the number of vehicles boarded");
    check(num(route, "numberOfTransfers") == Int(boards - 1), "C06: numberOfTransfers is not numberOfBoardings - 1");
  }
  sym::reach(boards == 1 ? "totals of 1 ride" : boards == 2 ? "totals of 2 rides" : "totals of 3+ rides");
}
std::multiset<std::string> linesOf(const json &route) { std::multiset<std::string> m; for (auto &s : route.at("steps")) if (str(s, "action") == "boarding") m.insert(str(s, "lineUuid")); return m; }
}
