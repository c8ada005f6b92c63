// C07: the reason of a no_routing_found answer is the most specific one that is true.
#include "setup.hpp"
using namespace vt; using namespace nets;
// catchable departures (forward) / usable arrivals (reverse) at the stops the walking router offers.
// strong: also the ride itself lies within the limits; weak: the departure (arrival) alone does.
static void service(const Query &q, int place, bool forward, Bool &weak, Bool &strong) {
  weak = Bool(false); strong = Bool(false);
  for (const Walk &a : W.places[place].walks) for (size_t t = 0; t < W.trips.size(); t++) {
    if (!admitted(W, q.scen, t)) continue; const Trip_ &tr = W.trips[t]; const Path_ &p = W.paths[tr.path]; Int mw(mwOf(W, t, q.mw)); size_t n = p.stops.size();
    const Int k(walkTol), near = Int(a.time) - k, far = Int(a.time) + k;  // the walk is known up to k seconds (bird distance) or exactly
    if (forward) for (size_t i = 0; i + 1 < n; i++) {
      if (p.stops[i] != a.stop) continue; Int dep(tr.dep[i]); Bool here = (Int(tr.board[i]) == Int(1)) & (dep - q.T <= q.maxTravel);
      weak |= here & (near <= q.maxAccess) & (dep >= q.T + near + mw) & implies(q.firstRaw > Int(0), dep - q.T - far <= q.firstRaw);
      strong |= here & (far <= q.maxAccess) & (dep >= q.T + far + mw) & implies(q.firstRaw > Int(0), dep - q.T - near <= q.firstRaw) & (Int(tr.arr[i + 1]) - q.T <= q.maxTravel);
    } else for (size_t j = 1; j < n; j++) {
      if (p.stops[j] != a.stop) continue; Int arr(tr.arr[j]); Bool here = (Int(tr.unboard[j]) == Int(1)) & (q.T - arr <= q.maxTravel);
      weak |= here & (near <= q.maxEgress) & (arr + near <= q.T);
      Bool b(false); for (size_t i = 0; i < j; i++) b |= (Int(tr.board[i]) == Int(1)) & (Int(tr.dep[i]) - mw >= Int(0)) & (q.T - (Int(tr.dep[i]) - mw) <= q.maxTravel);
      strong |= here & (far <= q.maxEgress) & (arr + far <= q.T) & b;
    }
  }
}
// whether the walking router offers a stop: possibly, certainly
static Bool offered(int place, Int max, long slack) { Bool any(false); for (const Walk &a : W.places[place].walks) any |= Int(a.time) + Int(slack) <= max; return any; }
static void body() {
  Req r = setup(); bool acc = r.endpoint == "/v2/accessibility"; if (acc && !r.forward) r.origin = 1;
  serve([&] {
    Resp a = get(r); wellFormed(a, "route"); Query q = norm(r); std::string st = a.j.value("status", ""), why = a.j.value("reason", ""); sym::reach(st + " " + why);
    int here = r.forward ? 0 : 1; Bool weak, strong; service(q, here, r.forward, weak, strong);
    Bool o = offered(0, q.maxAccess, -walkTol), d = offered(1, q.maxEgress, -walkTol), no = !offered(0, q.maxAccess, walkTol), nd = !offered(1, q.maxEgress, walkTol);
    if (acc) {
      Bool h = r.forward ? o : d, nh = r.forward ? no : nd;
      if (st == "success") { check(h, "C07: success although the walking router offers no stop at the place"); check(weak, "C07: success although there is no service at the place"); return; }
      if (st != "no_routing_found") sym::fail("C07: unexpected status", st);
      if (why == "NO_ACCESS_AT_PLACE") check(nh, "C07: NO_ACCESS_AT_PLACE although a stop is offered");
      else if (why == "NO_SERVICE_AT_PLACE") { check(h, "C07: NO_SERVICE_AT_PLACE although no stop is offered"); check(!strong, "C07: NO_SERVICE_AT_PLACE although a vehicle can be used"); }
      else sym::fail("C07: reason not documented for the accessibility endpoint", why);
      return;
    }
    if (st == "success") return;
    if (st != "no_routing_found") sym::fail("C07: unexpected status", st);
    if (why == "NO_ACCESS_AT_ORIGIN_AND_DESTINATION") check(no & nd, "C07: NO_ACCESS_AT_ORIGIN_AND_DESTINATION is not true");
    else if (why == "NO_ACCESS_AT_ORIGIN") check(no & d, "C07: NO_ACCESS_AT_ORIGIN is not the most specific reason");
    else if (why == "NO_ACCESS_AT_DESTINATION") check(o & nd, "C07: NO_ACCESS_AT_DESTINATION is not the most specific reason");
    else {
      check(o & d, "C07: no access reason given although the walking router offers no stop");
      if (why == "NO_SERVICE_FROM_ORIGIN" && r.forward) check(!strong, "C07: NO_SERVICE_FROM_ORIGIN although a departure can be caught");
      else if (why == "NO_SERVICE_TO_DESTINATION" && !r.forward) check(!strong, "C07: NO_SERVICE_TO_DESTINATION although an arrival is usable");
      else if (why == "NO_ROUTING_FOUND") check(weak, r.forward ? "C07: NO_ROUTING_FOUND although no departure can be caught" : "C07: NO_ROUTING_FOUND although no arrival is usable");
      else sym::fail("C07: wrong reason for this query", why);
    }
  });
  symx_done();
}
int main(int argc, char **argv) { return sym_main(argc, argv, body); }
