// C15: after /updateCache every request is answered like by a server newly started on the files now on disk.
// One server lives through: requests, the files change, a refresh (possibly again), requests; another starts on the last files.
#include "setup.hpp"
#include "eqjson.hpp"
#include "disk.hpp"
using namespace vt; using namespace nets;
extern "C" void __sym_heap_now(int) __attribute__((weak));
static Lcg *G; static bool sameSize = false;
// the timetable changes (what a refresh of the schedules alone re-reads), everything else stays
static void newSchedules(World &w, int round) {
  Lcg &g = *G; int n = w.trips.size(); std::string p = "v" + std::to_string(round + 2); std::vector<Trip_> out; bool changed = false; int symbolic = 0, want = symx_arg_int("sym2", 1);
  for (int i = 0; i < n; i++) {
    Trip_ t = w.trips[i]; if (!sameSize && g.p(18) && n > 1) { t.present = false; changed = true; }
    long d = g.p(25) ? 0 : g.in(-8, 8) * 60; if (d) changed = true; if (symbolic < want && (g.p(60) || i + 1 == n)) { symbolic++; changed = true; d += S(p + ".shift" + std::to_string(i), -300, 300, 0); }
    for (size_t k = 0; k < t.arr.size(); k++) { t.arr[k] += d; t.dep[k] += d; }
    if (g.p(15)) { t.board[0] = !t.board[0]; changed = true; } if (g.p(15)) { t.unboard.back() = !t.unboard.back(); changed = true; } if (g.p(15) && w.services.size() > 1) { t.service = g.in(0, w.services.size() - 1); changed = true; }
    if (g.p(15)) for (size_t q = 0; q < w.paths.size(); q++) if ((int)q != t.path && w.paths[q].stops.size() == t.arr.size()) { t.path = q; changed = true; break; }
    out.push_back(t);
  }
  // trips keep their position, which is their identifier; new ones come after
  int more = sameSize ? 0 : g.in(0, 2); for (int i = 0; i < more; i++) { int b = g.in(0, n - 1); Trip_ t = w.trips[b]; t.present = true; long d = g.in(-12, 12) * 60 + 30; for (size_t k = 0; k < t.arr.size(); k++) { t.arr[k] += d; t.dep[k] += d; } out.push_back(t); changed = true; }
  if (!changed) for (size_t k = 0; k < out[0].arr.size(); k++) { out[0].arr[k] += 120; out[0].dep[k] += 120; }
  for (auto &t : out) for (size_t k = 0; k < t.arr.size(); k++) { assume(Int(t.arr[k]) >= Int(0)); assume(Int(t.dep[k]) <= Int(115199)); }
  w.trips = out; if (g.p(6)) for (auto &t : w.trips) t.present = false;
}
static void newScenarios(World &w) {
  Lcg &g = *G; for (auto &s : w.scenarios) { switch (g.in(0, 6)) { case 0: s.exceptLines = {(int)g.in(0, w.lines.size() - 1)}; break; case 1: s.exceptLines.clear(); s.onlyLines.clear(); break; case 2: s.services.clear(); for (size_t k = 0; k < w.services.size(); k++) if (g.p(70)) s.services.push_back(k); break; case 3: s.onlyLines = {(int)g.in(0, w.lines.size() - 1)}; break; case 4: s.exceptModes = {g.p(50) ? "bus" : "metro"}; break; case 5: std::reverse(s.services.begin(), s.services.end()); s.exceptAgencies.clear(); break; default: break; } }
  if (g.p(30)) { Scen s; for (size_t k = 0; k < w.services.size(); k++) s.services.push_back(k); w.scenarios.push_back(s); } else if (g.p(20) && w.scenarios.size() > 1) w.scenarios.pop_back();
}
static void newAll(World &w, int round) {
  Lcg &g = *G; Req dummy; World keep = w; GenOpt o; o.base = symx_arg_int("base", 36000); o.scen = g.p(50) ? symx_arg_int("scen", 0) : g.in(0, 2); o.pair = symx_arg_int("seed", 1) + round; o.sym = symx_arg_int("sym2", 1); o.trips = symx_arg_int("trips", 4); o.special = symx_arg_int("special", 0);
  int kind = g.in(0, 9);
  if (kind < 5) { if (g.p(50)) genNet(w, dummy, symx_arg_int("seed", 1) + 500 * (round + 1), o); else genLayer(w, dummy, symx_arg_int("seed", 1) + 500 * (round + 1), o); }
  else if (kind < 8) {  // one collection changes, with what refers to it
    for (auto &s : w.stops) { if (g.p(40)) for (auto &f : s.foot) if (f.time > 0 && g.p(50)) f.time = std::max<long>(0, f.time + g.in(-4, 4) * 30); if (g.p(20)) s.name += " (new)"; }
    for (auto &l : w.lines) { if (g.p(30)) l.mode = l.mode == "bus" ? "metro" : "bus"; if (g.p(30)) l.shortname += "x"; } for (auto &a : w.agencies) if (g.p(50)) a.name += " Inc."; if (g.p(40)) { w.services.push_back({"service " + std::to_string(w.services.size())}); for (auto &t : w.trips) if (g.p(40)) t.service = w.services.size() - 1; }
    if (g.p(20)) { w.agencies.push_back({"AG9", "Agency 9"}); for (auto &l : w.lines) if (g.p(50)) l.agency = w.agencies.size() - 1; }
    if (g.p(50)) newSchedules(w, round); if (g.p(50)) newScenarios(w);
  } else { newSchedules(w, round); newScenarios(w); }
  for (int p = 0; p < 2; p++) { w.places[p].lon = keep.places[p].lon; w.places[p].lat = keep.places[p].lat; }
}
static std::string cacheNames;
static void refresh(const std::vector<std::string> &calls, const std::string &path = "") { for (auto &c : calls) { Resp u = get("/updateCache", "names=" + c + path); wellFormed(u, "C15: /updateCache"); if (u.code != 200 || u.j.value("status", "") != "success") sym::fail("C15: /updateCache did not succeed", u.body); } }
static std::vector<Fault> someFaults() {
  Lcg &g = *G; std::vector<Fault> v; auto fs = files(); int n = g.p(50) ? 0 : g.p(75) ? 1 : 2; for (int i = 0; i < n; i++) { Fault f; f.file = fs[g.in(0, fs.size() - 1)]; f.kind = g.p(70) ? MISSING : g.p(50) ? DENIED : BROKEN; v.push_back(f); } return v;
}
static void body() {
  Req r = setup(); Lcg g(symx_arg_int("seed", 1) * 7919 + 3); G = &g; std::string names = symx_arg("names", "all"); int rounds = symx_arg_int("rounds", 1), withFaults = symx_arg_int("faults", 0), custom = symx_arg_int("custom", 0);
  if (symx_arg_int("reuse", 0)) { if (__sym_heap_now) __sym_heap_now(1); sameSize = g.p(70); }  // addresses come back: what is remembered by address meets other data
  std::vector<std::string> args; if (symx_arg_int("cacheall", 0)) args.push_back("--cacheAllConnectionSets=1");
  if (W.services.size() < 2) { W.services.push_back({"service 1"}); for (size_t t = 0; t < W.trips.size(); t++) if (g.p(30)) W.trips[t].service = 1; if (g.p(60)) W.scenarios[0].services.push_back(1); }
  { Scen s = W.scenarios[0]; s.services.push_back(1); s.exceptLines = {(int)W.lines.size() - 1}; W.scenarios.push_back(s); Scen a; for (size_t k = 0; k < W.services.size(); k++) a.services.push_back(k); W.scenarios.push_back(a); }
  // a scenario may name what only comes with a refresh
  if (names == "all" && g.p(40)) { auto &s = W.scenarios[g.p(60) ? r.scen : 1]; s.services.push_back(W.services.size()); if (g.p(30)) s.exceptLines.push_back(W.lines.size()); if (g.p(30)) s.exceptAgencies.push_back(W.agencies.size()); }
  std::vector<Fault> f0, f1; if (withFaults) { f0 = someFaults(); }
  World w0 = W; 
  std::vector<std::string> calls; bool all = names == "all", schedOnly = names == "schedules";
  // one or several calls that together re-read what changed
  if (all) { if (g.p(70)) calls = {"all"}; else if (g.p(50)) calls = {"all,schedules"}; else calls = {"all", "schedules"}; }
  else if (schedOnly) calls = {"schedules"};
  else switch (g.in(0, 3)) { case 0: calls = {"scenarios,schedules"}; break; case 1: calls = {"schedules,scenarios"}; break; case 2: calls = {"scenarios", "schedules"}; break; default: calls = {"schedules", "scenarios"}; }
  std::vector<Req> before, after; int nb = symx_arg_int("hist", 3), na = symx_arg_int("asks", 3);
  auto ask = [&](bool sameT) { Req h = r; h.scen = g.p(60) ? r.scen : g.in(0, 2); if (!sameT) h.T = g.p(60) ? r.T : g.in(9, 10) * 3600 + g.in(0, 59) * 60; if (g.p(25)) h.forward = !h.forward; if (g.p(35)) h.endpoint = "/v2/accessibility"; else if (g.p(30)) h.endpoint = "/v2/summary"; else h.alternatives = g.p(30); if (h.endpoint == "/v2/accessibility" && !h.forward) h.origin = 1; return h; };
  for (int i = 0; i < nb; i++) before.push_back(ask(i == 0)); if (nb) before[0].scen = r.scen; after.push_back(r); for (int i = 1; i < na; i++) after.push_back(ask(false)); if (nb && na > 1) after[na - 1] = before[nb - 1];
  std::vector<Resp> got; int again = g.p(40);
  faults = f0;
  serve([&] {
    for (auto &q : before) wellFormed(get(q), "before the refresh");
    for (int k = 0; k < rounds; k++) {
      // a refresh replaces data, so what failed to be read before is read now and the other way round
      World old = W; static const char *PATH[] = {"&path=custom", "&custom_path=custom", "&custom_cache_path=custom"};
      if (all) newAll(W, k); else { newSchedules(W, k); if (!schedOnly) newScenarios(W); }
      if (withFaults && all) faults = someFaults();
      if (custom) {  // the new files lie below a custom path, the old ones stay where they are
        World fresh = W; W = old; customWorld = &fresh; refresh(calls, PATH[g.in(0, 2)]); customWorld = nullptr; W = fresh;
        if (g.p(35)) { for (auto &q : after) wellFormed(get(q), "after the refresh from a custom path"); World keep = W; W = old; refresh(calls); W = old; (void)keep; }
      } else refresh(calls); if (k + 1 < rounds) for (auto &q : before) if (g.p(60)) wellFormed(get(q), "between the refreshes");
    }
    for (auto &q : after) { got.push_back(get(q)); wellFormed(got.back(), "after the refresh"); }
    if (again && !custom) { refresh(calls); Resp x = get(r); wellFormed(x, "after a second refresh of the same files"); checkEq(got[0].j, x.j, "C15: a second refresh of unchanged files changes the answer"); }
  }, args);
  (void)w0;
  serve([&] { for (size_t i = 0; i < after.size(); i++) { Resp x = get(after[i]); wellFormed(x, "newly started server"); sym::reach("status " + x.j.value("status", "") + " " + x.j.value("errorCode", "")); if (x.code != got[i].code) sym::fail("C15: HTTP status differs from a newly started server's", got[i].status + " / " + x.status); checkEq(got[i].j, x.j, "C15: the answer after the refresh is not a newly started server's (" + after[i].endpoint + ")"); } }, args);
  symx_done();
}
int main(int argc, char **argv) { return sym_main(argc, argv, body); }
