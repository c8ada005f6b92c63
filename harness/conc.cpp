// C14: N requests in flight at once, every interleaving of their synchronisation operations, against the same requests
// each served alone by a server of its own; afterwards the same server answers them all once more.
#include "setup.hpp"
#include "eqjson.hpp"
#include "sched.hpp"
using namespace vt; using namespace nets;
static std::vector<Req> Q; static std::vector<Resp> R; static int nChoice;
static int pick(int n) {
  long v = S("schedule" + std::to_string(nChoice++), 0, n - 1, 0); int lo = 0, hi = n - 1;
  while (lo < hi) { int m = (lo + hi) / 2; if (sym::fork(Int(v) <= Int(m))) hi = m; else lo = m + 1; } return lo;
}
static void failed(const char *l, const char *d) { sym::fail(l, d); }
static void one(int i) { R[i] = get(Q[i]); }
static void body() {
  Req r = setup(); Lcg g(symx_arg_int("seed", 1) * 6151 + 17); int n = symx_arg_int("n", 2), pre = symx_arg_int("pre", g.in(0, 2));
  if (symx_arg_int("fixT", 1)) r.T = r.forward ? 34500 + 300 * (symx_arg_int("seed", 1) % 3) : 37500;
  std::vector<std::string> args; if (symx_arg_int("cacheall", 0)) args.push_back("--cacheAllConnectionSets=1"); args.push_back("--threads=" + std::to_string(n));
  // scenarios that lead to different sets of trips
  if (W.services.size() < 2) W.services.push_back({"service 1"}); for (size_t t = 0; t < W.trips.size(); t++) if (g.p(40)) W.trips[t].service = 1; W.scenarios[0].services = {0, 1};
  Scen s1, s2, s3; s1.services = {0, 1}; s1.exceptLines = {(int)W.lines.size() - 1}; s2.services = {0}; s3.services = {0, 1}; s3.exceptLines = {0}; W.scenarios.push_back(s1); W.scenarios.push_back(s2); W.scenarios.push_back(s3); int ns = W.scenarios.size();
  std::string ops = symx_arg("ops", "mixed"); int same = symx_arg_int("same", 0);
  for (int i = 0; i < n; i++) {
    Req h = r; h.scen = i == 0 ? r.scen : same ? r.scen : i == 1 || g.p(60) ? 1 + g.in(0, ns - 2) : g.in(0, ns - 1);
    if (i && g.p(50)) h.T = r.T + g.in(-10, 10) * 60; if (i && g.p(30)) h.forward = !h.forward; if (i && g.p(20)) std::swap(h.origin, h.dest); if (i && g.p(25)) h.mw = g.in(0, 6) * 60; if (i && g.p(25)) h.maxTravel = g.in(10, 60) * 60;
    int k = ops == "route" ? 0 : ops == "access" ? 1 : ops == "alternatives" ? 2 : g.in(0, 3);
    h.alternatives = false; if (k == 1) { h.endpoint = "/v2/accessibility"; if (!h.forward && h.origin == 0) h.origin = 1; } else if (k == 2) h.alternatives = true; else if (k == 3) { h.endpoint = "/v2/summary"; h.alternatives = g.p(50); }
    Q.push_back(h);
  }
  std::vector<Req> first; for (int i = 0; i < pre; i++) { Req h = Q[g.in(0, n - 1)]; if (g.p(40)) h.scen = g.in(0, ns - 1); first.push_back(h); }
  std::vector<Resp> alone; for (auto &q : Q) { Resp a; serve([&] { a = get(q); }, args); wellFormed(a, "C14: a request alone"); alone.push_back(a); }
  serve([&] {
    for (auto &q : first) get(q);
    R.assign(n, Resp());
    sched::Stats st = sched::runAll(n, one, pick, failed, symx_arg_int("pb", -1), symx_arg_int("after", 1));
    sym::reach("status " + alone[0].j.value("status", "") + "/" + alone[n - 1].j.value("status", "")); sym::reach("preemptions " + std::to_string(st.preemptions)); if (symx_arg_int("show", 0)) fprintf(stderr, "points %d choices %d preemptions %d\n", st.points, st.choices, st.preemptions);
    if (st.choices < 2) sym::reach("trivial");
    for (int i = 0; i < n; i++) { wellFormed(R[i], "C14: concurrent request"); if (R[i].code != alone[i].code) sym::fail("C14: HTTP status of a concurrent request differs from the one it has alone"); checkEq(alone[i].j, R[i].j, "C14: a concurrent request is not answered as it is alone"); }
    for (int i = n - 1; i >= 0; i--) { Resp b = get(Q[i]); wellFormed(b, "C14: later request"); if (b.code != alone[i].code) sym::fail("C14: HTTP status of a later request differs"); checkEq(alone[i].j, b.j, "C14: a request after concurrent ones is not answered as on an idle server"); }
  }, args);
  symx_done();
}
int main(int argc, char **argv) { return sym_main(argc, argv, body); }
