// C17: missing, unreadable, truncated, corrupted or inconsistent cache files, at start-up and at /updateCache.
#include "setup.hpp"
#include "eqjson.hpp"
#include "disk.hpp"
using namespace vt; using namespace nets;
static int choose(const std::string &n, int k) { if (k <= 1) return 0; long v = S(n, 0, k - 1, 0); int lo = 0, hi = k - 1; while (lo < hi) { int m = (lo + hi) / 2; if (sym::fork(Int(v) <= Int(m))) hi = m; else lo = m + 1; } return lo; }
static const char *KIND[] = {"AGENCIES", "SERVICES", "NODES", "LINES", "PATHS", "SCENARIOS", "SCHEDULES"};
static const char *TOP[] = {"agencies.capnpbin", "services.capnpbin", "nodes.capnpbin", "lines.capnpbin", "paths.capnpbin", "scenarios.capnpbin"};
static int topOf(const std::string &f) { for (int i = 0; i < 6; i++) if (f == TOP[i]) return i; return f.compare(0, 6, "lines/") == 0 ? 6 : -1; }
static bool optional_(const std::string &f) { return f.compare(0, 11, "dataSources") == 0; }
static int lineOf(const std::string &f) { return f.compare(0, 11, "lines/line_") ? -1 : idx(LINE, f.substr(11, 36)); }
// what the plan does to the files
static std::string plan(const std::string &group, Lcg &g, std::vector<Fault> &fs, Edit &ed) {
  auto all = files(); std::string f = all[g.in(0, all.size() - 1)]; std::string only = symx_arg("file", ""); if (!only.empty()) { std::vector<std::string> m; for (auto &x : all) if (x.compare(0, only.size(), only) == 0) m.push_back(x); if (m.size()) f = m[g.in(0, m.size() - 1)]; }
  if (group == "files") {  // any one or two files missing, unreadable or truncated
    int n = 1 + choose("files", 2); for (int i = 0; i < n; i++) { Fault x; x.file = all[choose("file" + std::to_string(i), all.size())]; static const int K[] = {MISSING, BROKEN, DENIED}; x.kind = K[choose("kind" + std::to_string(i), 3)]; fs.push_back(x); } return "";
  }
  if (group == "edit") {
    ed.file = f; ed.what = 1 + choose("edit", E_COUNT - 1); int items = f == "agencies.capnpbin" ? W.agencies.size() : f == "services.capnpbin" ? W.services.size() : f == "nodes.capnpbin" ? W.stops.size() : f == "lines.capnpbin" ? W.lines.size() : f == "paths.capnpbin" ? W.paths.size() : f == "scenarios.capnpbin" ? W.scenarios.size() : lineOf(f) >= 0 ? 3 : 1;
    ed.item = choose("item", items); bool lens = ed.what == E_FEWER || ed.what == E_MORE || ed.what == E_NONE_LEFT; std::vector<int> pos;
    if (ed.what == E_DUP) pos = {0}; else if (ed.what == E_JSON) { if (f == "paths.capnpbin") pos = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}; else pos = {0}; }
    else if (f == "paths.capnpbin") { if (lens) pos = {2, 3, 9}; else pos = {0, 1, 10, 11, 12, 13}; } else if (f == "scenarios.capnpbin") { if (lens) pos = {2, 9}; else pos = {0, 1, 3, 4, 5, 6, 7}; }
    else if (topOf(f) >= 0 && topOf(f) < 6) { if (lens) pos = {9}; else pos = {0, 1, 2, 3}; } else for (int k = 0; k < 14; k++) pos.push_back(k);
    ed.pos = pos[choose("pos", pos.size())]; return f;
  }
  auto roles = rolesOf(f); if (roles.empty()) { Fault x; x.file = f; x.kind = 3 + choose("count", 5); if (x.kind == BROKENLATE) x.kind = TEXT; fs.push_back(x); return f; }
  auto with = [&](const std::string &k) { std::vector<int> v; for (size_t i = 0; i < roles.size(); i++) if (k.find(roles[i].kind) != std::string::npos) v.push_back(i); return v; };
  Fault x; x.file = f;
  if (group == "bits") { auto v = with("PD-"); if (v.empty()) return f; x.kind = BIT; x.word = v[choose("word", v.size())]; x.bit = choose("bit", 64); }
  else if (group == "zero") { auto v = with("PDTI-"); int a = choose("from", v.size()), n = 1 + choose("count", 4); for (int k = 0; k < n && a + k < (int)v.size(); k++) { Fault y; y.file = f; y.kind = ZERO; y.word = v[a + k]; fs.push_back(y); } return f; }
  else if (group == "ints") { auto v = with("I"); if (v.empty()) return f; x.kind = INTS; x.word = v[choose("word", v.size())]; x.lane = roles[x.word].lane; x.bit = choose("element", 8 / x.lane); x.value = x.lane == 1 ? S("value", -128, 127, 0) : x.lane == 2 ? S("value", -32768, 32767, 0) : S("value", -2147483648L, 2147483647L, 0); }
  else if (group == "text") { auto v = with("T"); if (v.empty()) return f; x.kind = TEXT; x.word = v[choose("word", v.size())]; x.bit = choose("char", 8); x.value = S("char value", -128, 127, 'f'); }
  fs.push_back(x); return f;
}
static std::vector<Req> asks(const Req &r) {
  std::vector<Req> v; Req a = r; a.forward = true; v.push_back(a); a.forward = false; a.T = r.T + (r.forward ? 2400 : 0); v.push_back(a); Req b = r; b.alternatives = true; v.push_back(b); Req c = r; c.endpoint = "/v2/accessibility"; if (!c.forward) c.origin = 1; v.push_back(c); Req d = r; d.endpoint = "/v2/summary"; v.push_back(d); return v;
}
static void body() {
  Req r = setup(); if (symx_arg_int("fixT", 1)) r.T = r.forward ? 36000 - 1500 + 300 * (symx_arg_int("seed", 1) % 3) : 36000 + 1500; Lcg g(symx_arg_int("seed", 1) * 104729 + 11); std::string group = symx_arg("group", "files"), phase = symx_arg("phase", "start"); std::vector<Fault> fs; Edit ed; std::string damaged = plan(group, g, fs, ed);
  std::vector<Req> qs = asks(r); std::vector<Resp> good; bool wantGood = phase == "repair"; bool opt = true; std::set<int> hitKinds; bool lineOnly = group == "files", some = false;
  for (auto &x : fs) { if (!optional_(x.file)) opt = false; int k = topOf(x.file); if (k >= 0) hitKinds.insert(k); if (k != 6 && !optional_(x.file)) lineOnly = false; if (k == 6) some = true; } if (!ed.file.empty() && !optional_(ed.file)) opt = false; lineOnly = lineOnly && some;
  bool scen = false; { auto touch = [&](const std::string &f) { int k = topOf(f); if (k == 5 || k == 1 || k == 0 || k == 3) scen = true; }; for (auto &x : fs) touch(x.file); touch(ed.file); }
  auto judge = [&](const std::vector<Resp> &a, const char *when) {
    int errs = 0; for (size_t i = 0; i < a.size(); i++) {
      const Resp &x = a[i]; wellFormed(x, std::string("C17: ") + when); std::string st = x.j.value("status", ""), code = x.j.value("errorCode", ""); sym::reach(std::string(when) + " " + st + " " + code);
      if (x.code == 400) { if (st != "query_error") sym::fail("C17: HTTP 400 without query_error", x.body); if (!(scen && (code == "EMPTY_SCENARIO" || code == "MISSING_PARAM_SCENARIO"))) sym::fail("C17: a valid request is refused because of a damaged file", code + " " + damaged); }
      else if (x.code != 200) sym::fail("C17: undocumented HTTP status", x.status);
      else if (st == "data_error") errs++; else if (st != "success" && st != "no_routing_found") sym::fail("C17: undocumented status", st);
    }
    if (errs && errs != (int)a.size()) sym::fail("C17: only some requests are answered with data_error");
    if (errs) { std::string code = a[0].j.value("errorCode", ""); for (auto &x : a) if (x.j.value("errorCode", "") != code) sym::fail("C17: data_error names different kinds of data"); }
    if (group == "files") {
      // top-level files that could not be read: that kind of data is missing, and the answer names such a kind
      bool top = false, lacks = false, missing = true; for (auto &f : fs) { int k = topOf(f.file); if (k >= 0 && k < 6) top = true; if (f.kind != MISSING) missing = false; (void)lacks; }
      std::string code = errs ? a[0].j.value("errorCode", "") : "";
      if (top && !errs) sym::fail(std::string("C17: requests are not answered with data_error although a whole kind of data is missing"), fs[0].file);
      if (errs) { bool ok = false; for (int k : hitKinds) if (code == std::string("MISSING_DATA_") + KIND[k]) ok = true; if (!ok && !(code == "DATA_ERROR" && !missing)) sym::fail("C17: data_error does not name the missing kind of data", code); }
    }
  };
  auto ask = [&] { std::vector<Resp> v; for (auto &q : qs) v.push_back(get(q)); return v; };
  auto refresh = [&](const char *n) { Resp u = get("/updateCache", std::string("names=") + n); wellFormed(u, "C17: /updateCache"); if (u.code != 200 || u.j.value("status", "") != "success") sym::fail("C17: /updateCache is not answered", u.body); };
  auto on_ = [&] { faults = fs; edit = ed; }; auto off = [&] { faults.clear(); edit = Edit(); };
  std::vector<Resp> bad; bool reference = opt || wantGood || lineOnly;
  if (phase == "start") { on_(); serve([&] { bad = ask(); judge(bad, "start"); }); }
  else if (phase == "refresh") { off(); serve([&] { get(qs[symx_arg_int("seed", 1) % qs.size()]); on_(); refresh("all"); bad = ask(); judge(bad, "refresh"); if (g.p(30)) { refresh("schedules"); auto again = ask(); judge(again, "refresh"); } }); }
  else { on_(); serve([&] { auto first = ask(); judge(first, "start"); off(); refresh("all"); bad = ask(); }); }
  if (!reference) { symx_done(); return; }
  // what an undamaged server answers, without the trips of the lines whose schedule file is gone
  off(); if (lineOnly && !wantGood) for (auto &t : W.trips) for (auto &x : fs) if (lineOf(x.file) == W.paths[t.path].line) t.present = false;
  serve([&] { good = ask(); });
  for (size_t i = 0; i < good.size(); i++) { if (good[i].code != bad[i].code) sym::fail("C17: HTTP status differs from an undamaged server's", bad[i].body); checkEq(bad[i].j, good[i].j, opt ? "C17: damage to an optional file changes the answer" : wantGood ? "C17: after the files were repaired and refreshed the answer differs from a fresh server's" : "C17: the answer is not that of the data that could be loaded"); }
  symx_done();
}
int main(int argc, char **argv) { return sym_main(argc, argv, body); }
