// C20: faults of the external walking router, at any of its lookups, and recovery. The OSRM client of /repo runs for real,
// the router's replies are scripted here.
#include "setup.hpp"
#include "eqjson.hpp"
using namespace vt; using namespace nets;
static bool sameFault = false;  // streak: every lookup has the same fault
static int fresh_(const std::string &n, int k) { if (k <= 1) return 0; long v = S(n, 0, k - 1, 0); int lo = 0, hi = k - 1; while (lo < hi) { int m = (lo + hi) / 2; if (sym::fork(Int(v) <= Int(m))) hi = m; else lo = m + 1; } return lo; }
static int choose(const std::string &n, int k) { static std::map<std::string, int> m; if (!sameFault) return fresh_(n, k); auto i = m.find(n); if (i == m.end()) i = m.emplace(n, fresh_(n, k)).first; return std::min(i->second, std::max(0, k - 1)); }
// TOTAL faults leave the client without a usable table, PARTIAL ones with some entries
struct Made { SimpleWeb::VtReply r; bool total = true, faulty = true; std::vector<int> lost; int place = -1; };  // lost: stops without a duration
static std::string table(const std::string &d, const std::string &m) { return "{\"code\":\"Ok\",\"durations\":" + d + ",\"distances\":" + m + "}"; }
static Made fault(const std::string &name, const std::string &path) {
  Made x; SimpleWeb::VtReply good = osrmReply(path); Table t = tableOf(path); std::vector<std::string> d, m; if (t.ok) osrmNumbers(t, d, m); x.r = good; int n = d.size(); x.place = t.place;
  auto cut = [](std::vector<std::string> v, int k) { v.resize(std::max(0, k)); return v; };
  static const char *GROUPS[] = {"connection", "status", "body", "shape", "entries"}; int g = choose(name + ".group", symx_arg_int("benign", !sameFault) ? 6 : 5);
  if (g == 5) { x.faulty = x.total = false; return x; }
  (void)GROUPS;
  if (g == 0) { x.r.fail = true; return x; }
  if (g == 1) { static const char *ST[] = {"500 Internal Server Error", "400 Bad Request", "404 Not Found", "503 Service Unavailable", "429 Too Many Requests", "204 No Content", "302 Found", "", "200"}; x.r.status = ST[choose(name + ".status", 9)]; int b = choose(name + ".body", 3); if (b == 1) x.r.body = ""; if (b == 2) x.r.body = "{\"message\":\"no\"}"; return x; }
  if (g == 2) {
    static const char *B[] = {"", "<html></html>", "{", "[", "null", "0", "\"x\"", "true", "[]", "{}", "{\"code\":\"Ok\"}", "{\"code\":\"NoTable\",\"message\":\"none\"}", "\xff\xfe", "{\"durations\":", "Ok", " ", "[1,2]", "{\"code\":\"Ok\"}}"}; int k = choose(name + ".text", 19);
    if (k < 18) x.r.body = B[k]; else x.r.body = good.body.substr(0, choose(name + ".cut", good.body.size())); return x;
  }
  if (g == 3) {  // a well-formed JSON document that is no table
    static const char *V[] = {"null", "[]", "[[]]", "[null]", "{}", "\"x\"", "7", "[7]", "[\"x\"]", "[{}]", "true", "[true]", "[[null]]", "[[0]]", "{\"0\":[0,1]}"}; int w = choose(name + ".which", 5); std::string D = row(d), M = row(m); D = "[" + D + "]"; M = "[" + M + "]";
    std::string v = V[choose(name + ".value", 15)];
    switch (w) { case 0: x.r.body = table(v, M); break; case 1: x.r.body = table(D, v); x.total = false; break; case 2: x.r.body = table(v, v); break; case 3: x.r.body = "{\"code\":\"Ok\",\"distances\":" + M + "}"; break; default: x.r.body = "{\"code\":\"Ok\",\"durations\":" + D + "}"; x.total = false; }
    // whether the durations alone may be used is the client's choice
    return x;
  }
  x.total = false; int which = choose(name + ".list", 3), how = choose(name + ".how", 5); auto bend = [&](std::vector<std::string> v) {
    switch (how) {
      case 0: v[choose(name + ".null", n)] = "null"; break;
      case 1: v = cut(v, choose(name + ".fewer", n)); break;
      case 2: for (auto &z : v) z = "null"; break;
      case 3: { int more = 1 + choose(name + ".more", 40); for (int i = 0; i < more; i++) v.push_back(std::to_string(5 + i) + ".5"); break; }
      default: v[choose(name + ".wrong", n)] = choose(name + ".kind", 2) ? "\"12\"" : "{}"; break;
    } return v; };
  auto dd = which != 1 ? bend(d) : d; auto mm = which == 1 ? bend(m) : which == 2 && dd.size() >= 1 && how != 3 ? (how == 1 ? cut(m, dd.size()) : how == 0 || how == 4 ? [&] { auto q = m; for (int i = 0; i < n; i++) if (dd[i] != d[i]) q[i] = dd[i]; return q; }() : dd) : m;
  // an entry that is null or missing is no walk
  for (int i = 1; i < n; i++) if (i >= (int)dd.size() || dd[i] == "null" || dd[i] == "{}") x.lost.push_back(t.stops[i - 1]); x.total = n > 1 && (int)x.lost.size() == n - 1;
  x.r.body = table("[" + row(dd) + "]", "[" + row(mm) + "]"); return x;
}
static bool oneOf(const std::string &s, std::initializer_list<const char *> l) { for (auto x : l) if (s == x) return true; return false; }
static void body() {
  Req r = setup(); Lcg g(symx_arg_int("seed", 1) * 613 + 29); int nf = symx_arg_int("faults", 1), asks = symx_arg_int("asks", 2);
  geoOsrm(W); serverArgs = {"--useEuclideanDistance=0"}; if (symx_arg_int("fixT", 0)) r.T = r.forward ? 34500 : 37500;
  std::vector<Req> qs; for (int i = 0; i < asks; i++) { Req h = r; if (i && g.p(50)) h.T = 9 * 3600 + g.in(0, 90) * 60; if (i && g.p(30)) h.forward = !h.forward; int k = g.in(0, 9); if (k < 3) h.endpoint = "/v2/accessibility"; else if (k < 5) h.endpoint = "/v2/summary"; else if (k < 7) h.alternatives = true; if (i && g.p(20)) h.mw = 60; if (h.endpoint == "/v2/accessibility" && !h.forward) h.origin = 1; qs.push_back(h); }
  // which lookups fail: each request asks for its origin and its destination
  std::set<int> at; int calls = 0; bool total = false, partial = false; std::vector<std::pair<int, int>> lost; sameFault = symx_arg_int("streak", 0); if (sameFault) { nf = 2 * asks; int skip = g.p(30) ? (int)g.in(1, 2) : 0; for (int i = skip; i < nf; i++) at.insert(i); nf = 0; }
  while ((int)at.size() < nf) at.insert(g.in(0, 2 * asks - 1));
  SimpleWeb::vtRouter = [&](const std::string &, const std::string &, const std::string &path) { int k = calls++; if (!at.count(k)) return osrmReply(path); Made m = fault(sameFault ? "call" : "call" + std::to_string(k), path); for (int x : m.lost) lost.push_back({m.place, x}); if (m.faulty) { if (m.total) total = true; else partial = true; } return m.r; };
  std::vector<Resp> after, fresh;
  serve([&] {
    for (size_t i = 0; i < qs.size(); i++) {
      total = partial = false; lost.clear(); calls = 2 * i; Resp x = get(qs[i]); wellFormed(x, "C20: during the fault"); std::string st = x.j.value("status", ""), why = x.j.value("reason", ""); sym::reach(std::string(total ? "total " : partial ? "partial " : "healthy ") + qs[i].endpoint + " " + std::to_string(x.code) + " " + st);
      bool acc = qs[i].endpoint == "/v2/accessibility";
      if (x.code == 400) { if (st != "query_error" || !x.j.contains("errorCode")) sym::fail("C20: HTTP 400 without a query_error", x.body); if (!total && !partial) sym::fail("C20: a healthy request is refused", x.body); continue; }
      if (x.code != 200) sym::fail("C20: undocumented HTTP status", x.status);
      if (st == "no_routing_found") { if (qs[i].endpoint != "/v2/summary" && !(acc ? oneOf(why, {"NO_ROUTING_FOUND", "NO_ACCESS_AT_PLACE", "NO_SERVICE_AT_PLACE"}) : oneOf(why, {"NO_ROUTING_FOUND", "NO_ACCESS_AT_ORIGIN", "NO_ACCESS_AT_DESTINATION", "NO_ACCESS_AT_ORIGIN_AND_DESTINATION", "NO_SERVICE_FROM_ORIGIN", "NO_SERVICE_TO_DESTINATION"}))) sym::fail("C20: undocumented reason", x.body); continue; }
      if (st != "success") sym::fail("C20: undocumented status", st);
      // some table was there: what is answered must be walked on it
      if (qs[i].endpoint == "/v2/summary") { if (total && num(x.j["result"], "nbRoutes").value()) sym::fail("C20: routes although the router gave no table", x.body); continue; }
      if (total && !(acc && x.j["result"]["nodes"].empty())) sym::fail("C20: success although the router gave no table", x.body);
      if (!acc) { World keep = W; for (auto &l : lost) { auto &v = W.places[l.first].walks; v.erase(std::remove_if(v.begin(), v.end(), [&](auto &q) { return q.stop == l.second; }), v.end()); } for (auto &rt : x.j["result"]["routes"]) checkC01(rt, W, qs[i]); W = keep; }
    }
    SimpleWeb::vtRouter = [](const std::string &, const std::string &, const std::string &path) { return osrmReply(path); };
    for (auto &q : qs) { after.push_back(get(q)); wellFormed(after.back(), "C20: after the router recovered"); }
  });
  serve([&] { for (auto &q : qs) { fresh.push_back(get(q)); wellFormed(fresh.back(), "C20: without any fault"); } });
  for (size_t i = 0; i < qs.size(); i++) { if (after[i].code != fresh[i].code) sym::fail("C20: HTTP status after recovery differs", after[i].body); checkEq(after[i].j, fresh[i].j, "C20: an answer after recovery differs from one without the fault"); }
  symx_done();
}
int main(int argc, char **argv) { return sym_main(argc, argv, body); }
