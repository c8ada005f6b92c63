// C18: classification, defaults, limits, echo and robustness of the answers for all query strings of a
// documented parameter list in which presence, form and numbers vary; /updateCache names.
#include "setup.hpp"
#include "eqjson.hpp"
using namespace vt; using namespace nets;
static int choose(const std::string &n, int k) { long v = S(n, 0, k - 1, 0); int lo = 0, hi = k - 1; while (lo < hi) { int m = (lo + hi) / 2; if (sym::fork(Int(v) <= Int(m))) hi = m; else lo = m + 1; } return lo; }
static std::string tx(long v) { return std::string(symx_text(v)); }
static const long BIG = 1l << 40;
static bool formsOnly = false;   // forms=1: concrete numbers, so that every combination of forms is reached
static long N(const std::string &n, long lo, long hi, long init) { return formsOnly ? init : S(n, lo, hi, init); }
static bool is(const std::string &a, const char *b) { return a == b; }
// A request under construction: text, and what is wrong with it.
struct Build {
  std::vector<std::string> parts;                       // in the order sent
  std::map<std::string, Bool> sure, maybe;              // errorCode -> condition under which that defect is certainly / possibly present
  std::string canon;                                    // the same request with every parameter present and in its normalised form
  Int T = Int(0); bool knownT = false; int timeType = -1; double o[2], d[2]; bool knownPlaces = true;
  void put(const std::string &k, const std::string &v) { parts.push_back(k + "=" + v); }
  void both(const std::string &c, Bool b) { add(sure, c, b); add(maybe, c, b); }
  void add(std::map<std::string, Bool> &m, const std::string &c, Bool b) { auto i = m.find(c); if (i == m.end()) m.emplace(c, b); else i->second |= b; }
  bool canonOk = true;
};
static std::string coord(const Place &p) { char b[80]; snprintf(b, sizeof b, "%.9g,%.9g", p.lon, p.lat); return b; }
static const std::vector<std::string> BADCOORD = {"", "abc", "1", "1,2,3", "-73.625,abc", "-73.625,45.5x", ",", "-73.625,", ",45.5", "nan,45.5", "-73.625,inf", "-73.625;45.5", "1e999,45.5", "-73.625,45.5,"};
static void point(Build &b, const std::string &key, const std::string &miss, const std::string &bad, const Place &p, int var, double *out) {
  out[0] = p.lon; out[1] = p.lat; std::string good = coord(p);
  switch (var) {
    case 0: b.put(key, good); break;
    case 1: b.both(miss, Bool(true)); break;
    case 2: { int k = choose(key + ".form", BADCOORD.size()); b.put(key, BADCOORD[k]); b.both(bad, Bool(true)); if (BADCOORD[k].empty()) b.add(b.maybe, miss, Bool(true)); break; }
    case 3: { std::string g = good; g.replace(g.find(','), 1, "%2C"); b.put(key, g); break; }
    case 4: b.put(key, good); b.put(key, good); break;
    case 5: { int k = choose(key + ".form", BADCOORD.size()); b.put(key, good); b.put(key, BADCOORD[k]); b.add(b.maybe, bad, Bool(true)); break; }
    case 6: b.put(key, choose(key + ".far", 2) ? "1e308,-1e308" : "-200,100"); b.knownPlaces = false; break;
  }
}
static void scenario(Build &b, int scen, int empty, int var) {
  switch (var) {
    case 0: b.put("scenario_id", uid(SCEN, scen)); break;
    case 1: b.both("MISSING_PARAM_SCENARIO", Bool(true)); break;
    case 2: b.put("scenario_id", uid(SCEN, 200)); b.both("MISSING_PARAM_SCENARIO", Bool(true)); break;
    case 3: if (empty == 0) { b.put("scenario_id", uid(SCEN, 199)); b.both("MISSING_PARAM_SCENARIO", Bool(true)); break; } b.put("scenario_id", uid(SCEN, empty)); b.both("EMPTY_SCENARIO", Bool(true)); break;
    case 4: { static const std::vector<std::string> bad = {"abc", "", "00000000-0000-4000-8000-00000000000", "zz000000-0000-4000-8000-000000000000", "00000000-0000-4000-8000-0000000000000"}; b.put("scenario_id", bad[choose("scenario.form", bad.size())]); b.both("MISSING_PARAM_SCENARIO", Bool(true)); break; }
    case 5: b.put("scenario_id", uid(SCEN, scen)); b.put("scenario_id", uid(SCEN, 200)); b.add(b.maybe, "MISSING_PARAM_SCENARIO", Bool(true)); break;
    case 6: b.put("scenario_id", uid(SCEN, scen)); b.put("scenario_id", uid(SCEN, empty)); if (empty) b.add(b.maybe, "EMPTY_SCENARIO", Bool(true)); break;
  }
}
static const std::vector<std::string> BADNUM = {"abc", "", "nan", "-", "12abc", "3600s", "--5", "0x", "one"};
static const std::vector<std::string> HUGENUM = {"2147483648", "-2147483649", "99999999999999999999", "9223372036854775808"};
static void number(Build &b, const std::string &key, int var, long deflt, int norm, long init) {  // norm 0: negative -> 0; 1: non-positive -> no limit
  auto canon = [&](Int v) { Int z = norm == 0 ? sym::max(v, Int(0)) : sym::ite(v <= Int(0), Int(INF), v); b.canon += "&" + key + "=" + tx(z.value()); };
  switch (var) {
    case 0: b.canon += "&" + key + "=" + std::to_string(deflt); break;                       // absent
    case 1: { long v = N(key, -BIG, BIG, init); b.put(key, tx(v)); b.both("INVALID_NUMERICAL_DATA", (Int(v) < Int(-2147483648L)) | (Int(v) > Int(2147483647L))); canon(Int(v)); break; }
    case 2: { b.put(key, BADNUM[choose(key + ".form", BADNUM.size())]); b.both("INVALID_NUMERICAL_DATA", Bool(true)); break; }
    case 3: { b.put(key, HUGENUM[choose(key + ".form", HUGENUM.size())]); b.add(b.maybe, "INVALID_NUMERICAL_DATA", Bool(true)); b.canonOk = false; break; }
    case 4: { b.put(key, std::to_string(init)); b.put(key, BADNUM[choose(key + ".form", BADNUM.size())]); b.add(b.maybe, "INVALID_NUMERICAL_DATA", Bool(true)); b.canon += "&" + key + "=" + std::to_string(init); break; }
    case 5: { long v = N(key, -BIG, BIG, init); b.put(key, tx(v)); b.put(key, tx(v)); b.both("INVALID_NUMERICAL_DATA", (Int(v) < Int(-2147483648L)) | (Int(v) > Int(2147483647L))); canon(Int(v)); break; }
    case 6: { static const long E[] = {2147483647L, -2147483648L, 0, -1, 1, 32767, 32768, 65535, 65536, 2147483646L, 1073741823L, 1073741824L}; long v = E[choose(key + ".extreme", 12)]; b.put(key, std::to_string(v)); canon(Int(v)); break; }
  }
}
static void tripTime(Build &b, int var, long init) {
  const char *miss = "MISSING_PARAM_TIME_OF_TRIP", *bad = "INVALID_NUMERICAL_DATA";
  switch (var) {
    case 0: case 1: { long v = N("time_of_trip", var ? 0 : -BIG, var ? 240000 : BIG, init); b.put("time_of_trip", tx(v)); b.T = Int(v); b.knownT = true; b.both(bad, (Int(v) < Int(-2147483648L)) | (Int(v) > Int(2147483647L))); b.both(miss, (Int(v) < Int(0)) & (Int(v) >= Int(-2147483648L))); b.add(b.maybe, bad, Int(v) < Int(0)); b.canon += "&time_of_trip=" + tx(v); break; }
    case 2: b.both(miss, Bool(true)); break;
    case 3: { int k = choose("time_of_trip.form", BADNUM.size()); b.put("time_of_trip", BADNUM[k]); b.both(bad, Bool(true)); if (BADNUM[k].empty()) b.add(b.maybe, miss, Bool(true)); break; }
    case 4: { b.put("time_of_trip", HUGENUM[choose("time_of_trip.form", HUGENUM.size())]); b.add(b.maybe, bad, Bool(true)); b.add(b.maybe, miss, Bool(true)); b.canonOk = false; break; }
    case 5: { b.put("time_of_trip", std::to_string(init)); b.put("time_of_trip", BADNUM[choose("time_of_trip.form", BADNUM.size())]); b.add(b.maybe, bad, Bool(true)); b.T = Int(init); b.knownT = true; b.canon += "&time_of_trip=" + std::to_string(init); break; }
    case 6: { static const long E[] = {2147483647L, 115200, 118799, 118800, 119000, 122400, 2147480000L, 0, 86400}; long v = E[choose("time_of_trip.extreme", 9)]; b.put("time_of_trip", std::to_string(v)); b.T = Int(v); b.knownT = true; b.canon += "&time_of_trip=" + std::to_string(v); break; }
  }
}
static const char *LIM[] = {"min_waiting_time", "max_travel_time", "max_access_travel_time", "max_egress_travel_time", "max_transfer_travel_time", "max_first_waiting_time"};
static const long DEF[] = {180, INF, 1200, 1200, 1200, 1800};
// Only documented error codes may be answered by the endpoint
static bool documented(const std::string &ep, const std::string &c) {
  if (is(c, "EMPTY_SCENARIO") || is(c, "MISSING_PARAM_SCENARIO") || is(c, "MISSING_PARAM_TIME_OF_TRIP") || is(c, "INVALID_NUMERICAL_DATA")) return true;
  if (ep == "/v2/accessibility") return is(c, "MISSING_PARAM_PLACE") || is(c, "INVALID_PLACE");
  return is(c, "MISSING_PARAM_ORIGIN") || is(c, "MISSING_PARAM_DESTINATION") || is(c, "INVALID_ORIGIN") || is(c, "INVALID_DESTINATION");
}
static bool pointEq(const json &j, const double *p) {
  auto n = [](double a, double b) { double e = a - b; return e < 1e-6 && e > -1e-6; };
  return j.is_array() && j.size() == 2 && j[0].is_number() && j[1].is_number() && n(j[0].get<double>(), p[0]) && n(j[1].get<double>(), p[1]);
}
static std::string notReady;      // expected errorCode of the data_error status, empty when ready
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : "&") + x; return s; }
static void judge(const std::string &ep, const Build &b, const Resp &a) {
  wellFormed(a, "C18"); std::string st = a.j.value("status", ""), code = a.j.value("errorCode", ""); sym::reach(ep + " " + std::to_string(a.code) + " " + st + " " + code);
  Bool must(false), may(false); for (auto &x : b.sure) must |= x.second; for (auto &x : b.maybe) may |= x.second;
  if (a.code == 400) {
    if (st != "query_error") sym::fail("C18: HTTP 400 with a status other than query_error", st);
    if (!documented(ep, code)) sym::fail("C18: errorCode is not documented for the endpoint", code);
    auto i = b.maybe.find(code); if (i == b.maybe.end()) sym::fail("C18: errorCode names a defect the request does not have", code);
    check(i->second, "C18: errorCode names a defect the request does not have (" + code + ")"); return;
  }
  if (a.code != 200) sym::fail("C18: HTTP status is neither 200 nor 400", a.status);
  if (st != "success" && st != "no_routing_found" && st != "data_error") sym::fail("C18: HTTP 200 with an undocumented status", st);
  if (!notReady.empty()) { if (st != "data_error") sym::fail("C18: data is not ready but the status is not data_error", st); if (code != notReady) sym::fail("C18: data_error does not name the missing data", code + " instead of " + notReady); return; }
  if (st == "data_error") sym::fail("C18: data_error although the data is ready", code);
  check(!must, "C18: a defective request is answered with HTTP 200");
  if (!a.j.contains("query")) sym::fail("C18: the request is not echoed");
  const json &q = a.j["query"];
  if (b.knownPlaces) { if (ep == "/v2/accessibility") { if (!pointEq(q["place"], b.o)) sym::fail("C18: place is not echoed"); } else if (!pointEq(q["origin"], b.o) || !pointEq(q["destination"], b.d)) sym::fail("C18: origin or destination is not echoed"); }
  if (b.knownT) check(num(q, "timeOfTrip") == b.T, "C18: timeOfTrip is not echoed");
  if (b.timeType >= 0) check(num(q, "timeType") == Int(b.timeType), "C18: timeType is not echoed");
}
static void updateCache(const Req &r) {
  static const std::vector<std::string> KN = {"all", "schedules", "scenarios", "nodes", "lines", "paths", "agencies", "services", "persons", "od_trips", "data_sources"}, UN = {"bogus", "", "Schedules", "all ", "schedule", "%22", "a%5Cb", "households_"};
  static const std::vector<std::string> KEY = {"names", "caches", "cache_names", "name", "cache", "cache_name"};
  static const std::vector<std::string> PATHS = {"", "&path=custom", "&custom_path=a%22b", "&custom_cache_path=a%5Cb", "&path=a%0Ab", "&path=%FF%FE", "&path=a=b", "&path"};
  Resp before = get(r); wellFormed(before, "C18: before the refresh");
  int n = choose("names", 4); std::string v; std::vector<std::string> known; Lcg g(symx_arg_int("seed", 1) * 31 + 7);
  for (int i = 0; i < n; i++) { bool k = sym::fork(Bool(symx_le(symx_of(S("known" + std::to_string(i), 0, 1, 0)), symx_const(0)))); std::string x = k ? KN[choose("kn" + std::to_string(i), KN.size())] : UN[choose("un" + std::to_string(i), UN.size())]; if (k) known.push_back(x); v += (i ? "," : "") + x; }
  std::string q = KEY[g.in(0, KEY.size() - 1)]; if (n) q += "=" + v; else if (g.p(50)) q = g.p(50) ? "" : q + "="; q += PATHS[choose("path", PATHS.size())]; if (!q.empty() && q[0] == '&') q = q.substr(1);
  Resp u = get(g.p(70) ? "/updateCache" : "/updateCache/", q); wellFormed(u, "C18: /updateCache");
  std::string st = u.j.value("status", ""); sym::reach("/updateCache " + st);
  if (known.empty()) { if (st != "error" || !u.j.contains("error")) sym::fail("C18: /updateCache without a known cache name is not answered with an error object", u.body); }
  else {
    if (u.code != 200 || st != "success") sym::fail("C18: /updateCache with a known cache name is not answered with a success object", u.body);
    std::set<std::string> got, want(known.begin(), known.end()); const json &c = u.j["cache_names"];
    if (c.is_string()) { std::string s = c.get<std::string>(), w; s += ","; for (char ch : s) if (ch == ',') { got.insert(w); w = ""; } else w += ch; } else if (c.is_array()) { for (auto &x : c) got.insert(x.get<std::string>()); }
    if (!want.count("all") && got != want) sym::fail("C18: /updateCache names other caches than the refreshed ones", u.body);
    if (want.count("all")) for (auto &x : got) if (std::find(KN.begin(), KN.end(), x) == KN.end()) sym::fail("C18: /updateCache names an unknown cache", u.body);
  }
  Resp after = get(r); wellFormed(after, "C18: after the refresh"); checkEq(before.j, after.j, "C18: the answer changed although the data did not");
}
static void body() {
  Req r = setup(); Lcg g(symx_arg_int("seed", 1) * 131 + 17); std::string mode = symx_arg("mode", "query"); formsOnly = symx_arg_int("forms", 0); if (formsOnly) r.T = r.forward ? 36000 - 1500 : 36000 + 1500;
  Scen none = W.scenarios[0]; none.services.clear(); switch (g.in(0, 4)) { case 0: none.onlyLines = {0}; break; case 1: none.onlyModes = {"bus"}; break; case 2: none.exceptLines = {0}; break; case 3: none.onlyAgencies = {0}; break; default: break; }
  bool alone = symx_arg_int("seed", 1) % 4 == 3; if (!alone) W.scenarios.push_back(none); else W.scenarios.resize(1); int empty = W.scenarios.size() - 1;
  switch (symx_arg_int("missing", 0)) {  // data that is not ready: what refers to the missing kind goes with it
    case 1: W.agencies.clear(); W.lines.clear(); W.paths.clear(); W.trips.clear(); W.scenarios.clear(); notReady = "MISSING_DATA_AGENCIES"; break;
    case 2: W.services.clear(); W.trips.clear(); W.scenarios.clear(); notReady = "MISSING_DATA_SERVICES"; break;
    case 3: W.stops.clear(); W.paths.clear(); W.trips.clear(); for (auto &p : W.places) p.walks.clear(); notReady = "MISSING_DATA_NODES"; break;
    case 4: W.lines.clear(); W.paths.clear(); W.trips.clear(); W.scenarios.clear(); notReady = "MISSING_DATA_LINES"; break;
    case 5: W.paths.clear(); W.trips.clear(); notReady = "MISSING_DATA_PATHS"; break;
    case 6: W.scenarios.clear(); notReady = "MISSING_DATA_SCENARIOS"; break;
    case 7: for (auto &t : W.trips) t.present = false; notReady = "MISSING_DATA_SCHEDULES"; break;
  }
  serve([&] {
    if (mode == "cache") { updateCache(r); return; }
    static const char *EP[] = {"/v2/route", "/v2/summary", "/v2/accessibility"}; std::string ep = EP[mode == "access" ? 2 : mode == "summary" ? 1 : 0]; bool acc = ep == EP[2];
    // other requests may have been answered before
    if (g.p(50)) { Req h = r; h.endpoint = ep; h.scen = 0; h.T = g.p(60) ? g.in(24, 33) * 3600 : g.in(8, 11) * 3600 + 120; h.forward = g.p(50); if (g.p(60)) std::swap(h.origin, h.dest); h.alternatives = g.p(30); get(h); if (g.p(30)) get(ep, "origin=1,2&place=3,4"); }
    // two or three of the parameters take any documented or defective form, the others one form each
    Build b; int np = acc ? 9 : 10; std::set<int> free; while ((int)free.size() < (int)symx_arg_int("free", 2)) free.insert(g.in(0, np - 1 + formsOnly)); int strict = symx_arg_int("strict", 0);  // strict: only forms without a defect
    auto form = [&](int k, const std::string &n, int count, int usual) { if (!free.count(k)) return usual; return choose(n, count); };
    int tt = form(0, "time_type.form", 4, g.p(50) ? 0 : 1);
    int place = !acc ? 0 : g.in(0, 1);
    // 'strict' leaves the presence and the values of the numbers free only
    auto pf = [&](int k, const std::string &n) { return strict ? 0 : form(k, n, 7, 0); };
    if (acc) point(b, "place", "MISSING_PARAM_PLACE", "INVALID_PLACE", W.places[place], pf(1, "place.var"), b.o); else { point(b, "origin", "MISSING_PARAM_ORIGIN", "INVALID_ORIGIN", W.places[0], pf(1, "origin.var"), b.o); point(b, "destination", "MISSING_PARAM_DESTINATION", "INVALID_DESTINATION", W.places[1], pf(9, "destination.var"), b.d); }
    scenario(b, 0, empty, strict ? 0 : form(2, "scenario.var", 7, 0));
    for (int i = 0; i < 6; i++) { static const int ST[] = {0, 1, 6}; int v = strict ? (free.count(3 + i) ? ST[choose(std::string(LIM[i]) + ".var", 3)] : g.p(50) ? 0 : 1) : form(3 + i, std::string(LIM[i]) + ".var", 7, g.p(70) ? 0 : 1); number(b, LIM[i], v, DEF[i], i ? 1 : 0, i ? 600 + i : 60); }
    { int v = formsOnly ? (free.count(np) ? choose("time_of_trip.var", 7) : 0) : strict || g.p(40) ? (strict && g.p(70) ? 1 : 0) : choose("time_of_trip.var", 7); tripTime(b, v, r.T); }
    switch (tt) { case 0: if (!free.count(0) || choose("time_type.absent", 2)) b.put("time_type", "0"); b.timeType = 0; break; case 1: b.put("time_type", "1"); b.timeType = 1; break; case 2: b.put("time_type", "0"); b.put("time_type", "0"); b.timeType = 0; break; case 3: b.put("time_type", "1"); b.put("time_type", "1"); b.timeType = 1; break; }
    std::string alt; if (!acc) { int k = g.p(60) ? 0 : formsOnly ? (int)g.in(0, 3) : choose("alternatives.var", 4); if (k) alt = k == 1 ? "true" : k == 2 ? "1" : "false"; if (k) b.put("alternatives", alt); }
    if (g.p(30)) b.put(g.p(50) ? "foo" : "originn", "bar");
    for (size_t i = b.parts.size(); i > 1; i--) std::swap(b.parts[i - 1], b.parts[g.in(0, i - 1)]);
    std::string q = join(b.parts), path = ep + (g.p(15) ? "/" : ""); Resp a = get(path, q); judge(ep, b, a);
    if (!notReady.empty() || a.code != 200) return;
    if (!b.canonOk || !b.knownT || !b.knownPlaces || b.timeType < 0) return;
    // the same request with every default and 'no limit' written out is answered alike
    std::string c = acc ? "place=" + coord(W.places[place]) : "origin=" + coord(W.places[0]) + "&destination=" + coord(W.places[1]);
    c += "&scenario_id=" + uid(SCEN, 0) + "&time_type=" + std::to_string(b.timeType) + b.canon + (acc ? "" : std::string("&alternatives=") + (alt == "true" || alt == "1" ? "true" : "false"));
    Resp d = get(ep, c); wellFormed(d, "C18: the request with every parameter written out"); if (d.code != 200) sym::fail("C18: the request with every parameter written out is refused", d.body);
    checkEq(a.j, d.j, "C18: a default or an unlimited value differs from its documented meaning");
  });
  symx_done();
}
int main(int argc, char **argv) { return sym_main(argc, argv, body); }
