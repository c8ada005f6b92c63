#include "setup.hpp"
#include "disknames.hpp"
using namespace vt; using namespace nets;
static void body() {
  Req r = setup();
  serve([&] {
    Resp a = get(r); wellFormed(a, "route"); 
    std::string st = a.j.value("status", ""); sym::reach("status " + st);
    bool ok = st == "success";
    if (ok) for (auto &rt : a.j["result"]["routes"]) { if (on("C01")) checkC01(rt, W, r); if (on("C02")) checkC02(rt, W, r); if (on("C06")) checkC06(rt, W, r); if (symx_arg_int("text", 0)) checkNames(rt, W); }
    Query q = norm(r);
    if (on("C03")) {
      auto js = withEgress(W, q, journeysFrom(W, q, r.origin), r.dest); std::vector<Bool> ex;
      for (auto &t : js) ex.push_back(t.ok & (t.arr - q.T <= q.maxTravel));
      check(sym::iff(Bool(ok), anyOf(ex)), ok ? "C03: success although no admissible journey exists" : "C03: no route although an admissible journey exists");
      if (ok) { Int A = num(a.j["result"]["routes"][0], "arrivalTime"); Bool hit(false); if (symx_arg_int("show", 0)) fprintf(stderr, "A %s dep %s tt %s\n", symx_show(A.e), symx_show(num(a.j["result"]["routes"][0], "departureTime").e), symx_show(num(a.j["result"]["routes"][0], "totalTravelTime").e)); for (size_t i = 0; i < js.size(); i++) { hit |= ex[i] & (js[i].arr == A); check(implies(ex[i], js[i].arr >= A), "C03: an admissible journey arrives earlier"); } check(hit, "C03: the reported arrival is met by no admissible journey"); }
    }
    if (on("C04")) {
      auto js = withEgress(W, q, journeysFrom(W, q, r.origin), r.dest); std::vector<Bool> ex;
      for (auto &t : js) ex.push_back(t.ok & (t.arr <= q.T) & (t.dep >= Int(0)) & (q.T - t.dep <= q.maxTravel));
      check(sym::iff(Bool(ok), anyOf(ex)), ok ? "C04: success although no admissible journey exists" : "C04: no route although an admissible journey exists");
      if (ok) { Int D = num(a.j["result"]["routes"][0], "departureTime"); Bool hit(false); for (size_t i = 0; i < js.size(); i++) { hit |= ex[i] & (js[i].dep == D); check(implies(ex[i], js[i].dep <= D), "C04: an admissible journey departs later"); } check(hit, "C04: the reported departure is met by no admissible journey"); }
    }
    if (on("C05") && ok) {
      auto js = withEgress(W, q, journeysFrom(W, q, r.origin), r.dest); Int D = num(a.j["result"]["routes"][0], "departureTime"), A = num(a.j["result"]["routes"][0], "arrivalTime"); Bool hit(false);
      for (auto &t : js) { Bool e = t.ok & (t.arr <= A) & (t.dep >= q.T); hit |= e & (t.dep == D); check(implies(e, t.dep <= D), "C05: a later departure still meets the reported arrival"); }
      check(hit, "C05: the reported departure is met by no admissible journey");
    }
  });
  symx_done();
}
int main(int argc, char **argv) { return sym_main(argc, argv, body); }
