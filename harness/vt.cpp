#include "vt.hpp"
#include "server_http.hpp"
#include "client_http.hpp"
#include <cstring>
#include <memory>
#include <dlfcn.h>
#include <pthread.h>
#include <time.h>
int trrouting_main(int argc, char **argv);
bool vt_regex_match(const std::string &pattern, const std::string &path);  // plain translation unit
namespace vt {
World W; std::vector<std::string> serverArgs; std::string cacheDir = "/vt"; long walkTol = 0; int enc = 0; bool withSources = false;
std::function<void()> gTest; bool gStarted;
static const char *HEX = "0123456789abcdef";
std::string uid(Kind k, int i) {
  std::string s = "00000000-0000-4000-8000-000000000000";
  s[0] = HEX[k & 15]; s[34] = HEX[(i >> 4) & 15]; s[35] = HEX[i & 15]; return s;
}
int idx(Kind k, const std::string &u) {
  for (int i = 0; i < 256; i++) if (uid(k, i) == u) return i;
  return -1;
}
int World::trip(int path, int service, std::vector<long> arr, std::vector<long> dep) {
  Trip_ t; t.path = path; t.service = service; t.arr = arr; t.dep = dep; t.board.assign(arr.size(), 1); t.unboard.assign(arr.size(), 1);
  trips.push_back(t); return trips.size() - 1;
}
int addStop(World &w, bool self) {
  int i = w.stops.size(); Stop s; s.name = (i % 3 == 1 ? "arr\xc3\xaat \"" : "stop ") + std::to_string(i) + (i % 3 == 1 ? "\"" : ""); s.code = "S" + std::to_string(i); s.lat = 45.5 + i * 0.001953125; s.lon = -73.5 - i * 0.00390625;
  if (self) s.foot.push_back({i, 0, 0});
  w.stops.push_back(s); return i;
}
void addFoot(World &w, int a, int b, long t, long d) { w.stops[a].foot.push_back({b, t, d}); }
int addLine(World &w, int agency, const std::string &mode) {
  int i = w.lines.size(); Line_ l; l.agency = agency; l.mode = mode; l.shortname = (i % 4 == 3 ? "\xc3\x89" : "L") + std::to_string(i); l.longname = (i % 2 ? "\xe7\xba\xbf\\" : "Line ") + std::to_string(i); w.lines.push_back(l); return i;
}
int addPath(World &w, int line, std::vector<int> stops) {
  int i = w.paths.size(); Path_ p; p.line = line; p.stops = stops;
  for (size_t k = 0; k + 1 < stops.size(); k++) { p.segDist.push_back(1000 * (i + 1) + 10 * k + 7); p.segTime.push_back(60 + k); }
  w.paths.push_back(p); return i;
}
void basics(World &w) {
  w.agencies.push_back({"AG0", "Agency 0"}); w.services.push_back({"service 0"});
  Scen s; s.services = {0}; w.scenarios.push_back(s);
  Place o; o.lon = -73.625; o.lat = 45.5; Place d; d.lon = -73.5; d.lat = 45.625; w.places = {o, d};
}
long mwOf(const World &w, int trip, long mw) { if (w.lines[w.paths[w.trips[trip].path].line].mode == "transferable") return 0; return mw; }
template <class T> static bool has(const std::vector<T> &v, const T &x) { for (auto &y : v) if (y == x) return true; return false; }
bool admitted(const World &w, int scen, int t) {
  const Scen &s = w.scenarios[scen]; const Trip_ &tr = w.trips[t]; int li = w.paths[tr.path].line; const Line_ &l = w.lines[li];
  if (!tr.present) return false;
  if (!s.services.empty() && !has(s.services, tr.service)) return false;
  if (!s.onlyLines.empty() && !has(s.onlyLines, li)) return false;
  if (!s.onlyModes.empty() && !has(s.onlyModes, l.mode)) return false;
  if (!s.onlyAgencies.empty() && !has(s.onlyAgencies, l.agency)) return false;
  return !has(s.exceptLines, li) && !has(s.exceptModes, l.mode) && !has(s.exceptAgencies, l.agency);
}
static std::string tx(long v) { return std::string(symx_text(v)); }
static std::string coord(const Place &p) { char b[80]; snprintf(b, sizeof b, "%.17g,%.17g", p.lon, p.lat); return b; }
std::string Req::query() const {
  std::string q;
  if (endpoint == "/v2/accessibility") q = "place=" + coord(W.places[origin]);
  else q = "origin=" + coord(W.places[origin]) + "&destination=" + coord(W.places[dest]);
  q += "&scenario_id=" + uid(SCEN, scen) + "&time_type=" + (forward ? "0" : "1");
  q += "&time_of_trip=" + tx(this->T); 
  q += "&min_waiting_time=" + tx(mw); q += "&max_travel_time=" + tx(maxTravel); q += "&max_access_travel_time=" + tx(maxAccess); q += "&max_egress_travel_time=" + tx(maxEgress);
  q += "&max_transfer_travel_time=" + tx(maxTransfer); q += "&max_first_waiting_time=" + tx(maxFirst);
  if (alternatives) q += "&alternatives=true";
  return q;
}
// ---- JSON text <-> value registry
struct Doc { std::string text; std::shared_ptr<json> val; };
static std::vector<Doc> docs; static thread_local Doc lastDoc;   // what this thread dumped last
extern "C" __attribute__((weak)) void vt_quiet(int);
struct Quiet { Quiet() { if (vt_quiet) vt_quiet(1); } ~Quiet() { if (vt_quiet) vt_quiet(-1); } };
static void regDoc(const std::string &t, const json &j) {
  Quiet q; lastDoc = {t, std::make_shared<json>(j)};
  for (auto &d : docs) if (d.text == t) { d.val = std::make_shared<json>(j); return; }
  docs.push_back({t, std::make_shared<json>(j)}); if (docs.size() > 64) docs.erase(docs.begin());
}
static const json *findDoc(const std::string &t) { Quiet q; if (lastDoc.val && lastDoc.text == t) return lastDoc.val.get(); for (auto &d : docs) if (d.text == t) return d.val.get(); return nullptr; }
std::string documentText(const json &j) { return j.dump(); }  // dump() registers it
}
void vt_json_dumped(const void *j, const std::string &text) { vt::regDoc(text, *(const json *)j); }
const void *vt_json_lookup(const std::string &text) { return vt::findDoc(text); }

// ---- server
namespace SimpleWeb {
static Server<HTTP> *srv = nullptr;
template <> Server<HTTP>::Server() { srv = this; }
std::function<VtReply(const std::string &, const std::string &, const std::string &)> vtRouter;
VtReply vt_router(const std::string &h, const std::string &m, const std::string &p) { if (vtRouter) return vtRouter(h, m, p); VtReply r; r.fail = true; return r; }
template <> void Server<HTTP>::start(const std::function<void(unsigned short)> &) { vt::gStarted = true; if (vt::gTest) vt::gTest(); }
}
namespace vt {
bool serverUp() { return SimpleWeb::srv != nullptr; }
Resp get(const std::string &path, const std::string &query) {
  typedef SimpleWeb::Server<SimpleWeb::HTTP> S; S *s = SimpleWeb::srv;
  auto rq = std::make_shared<S::Request>(); auto rs = std::make_shared<S::Response>();
  rq->method = "GET"; rq->path = path; rq->query_string = query;
  S::Handler *h = nullptr;
  { Quiet q; for (auto &r : s->resource) { auto m = r.second.find("GET"); if (m != r.second.end() && vt_regex_match(r.first, path)) { h = &m->second; break; } } }
  if (!h) { auto m = s->default_resource.find("GET"); if (m != s->default_resource.end()) h = &m->second; }
  Resp out; if (!h) return out;
  (*h)(rs, rq);
  out.raw = rs->text(); out.answered = !out.raw.empty();
  size_t e = out.raw.find("\r\n\r\n"); if (e == std::string::npos) return out;
  size_t p = out.raw.find("\r\n"); std::string line = out.raw.substr(0, p);
  if (line.compare(0, 9, "HTTP/1.1 ") == 0) { out.status = line.substr(9); out.code = atoi(out.status.c_str()); }
  out.body = out.raw.substr(e + 4);
  long cl = -1; int ncl = 0;
  while (p < e) { size_t q = out.raw.find("\r\n", p + 2); if (q == std::string::npos || q > e) q = e; std::string h1 = out.raw.substr(p + 2, q - p - 2); p = q; if (h1.compare(0, 16, "Content-Length: ") == 0) { cl = atol(h1.c_str() + 16); ncl++; } if (h1.compare(0, 14, "Content-Type: ") == 0) out.ctype = h1.substr(14); }
  out.lengthOk = ncl == 1 && cl == (long)out.body.size();
  if (symx_arg_int("show", 0)) fprintf(stderr, "GET %s?%s\n%s\n", path.c_str(), query.c_str(), out.body.c_str());
  const json *d = findDoc(out.body);
  if (d) { out.j = *d; out.parsed = true; }
  else { out.j = json::parse(out.body, nullptr, false); out.parsed = !out.j.is_discarded(); }
  return out;
}
void wellFormed(const Resp &r, const std::string &w) {
  if (!r.answered) sym::fail(w + ": no response was sent");
  if (r.status.empty()) sym::fail(w + ": malformed status line", r.raw);
  if (!r.lengthOk) sym::fail(w + ": Content-Length is not the length of the one body sent", r.raw);
  if (!r.parsed || !r.j.is_object()) sym::fail(w + ": body is not a JSON object", r.body);
}
Int num(const json &j, const char *k) { auto it = j.find(k); if (it == j.end() || !it->is_number()) { sym::fail(std::string("missing number ") + k, ""); } long v = it->get<long>(); Int r(v); if (symx_arg_int("show", 0)) fprintf(stderr, "num %s %s\n", k, symx_show(r.e)); return r; }
// every server of a run starts from the program's variables as they were before main()
extern "C" { extern char __start_vt_repo_data[], __stop_vt_repo_data[]; }
static std::vector<char> pristine;
void serve(std::function<void()> test, std::vector<std::string> args) {
  size_t n = __stop_vt_repo_data - __start_vt_repo_data; if (pristine.empty()) pristine.assign(__start_vt_repo_data, __stop_vt_repo_data); else memcpy(__start_vt_repo_data, pristine.data(), n);
  gTest = test;
  static std::vector<std::string> a; a = {"trRouting", "--cachePath=" + cacheDir}; for (auto &x : serverArgs) a.push_back(x); for (auto &x : args) a.push_back(x);
  bool router = false; for (auto &x : a) router |= x.compare(0, 23, "--useEuclideanDistance=") == 0; if (!router) a.push_back("--useEuclideanDistance=1");
  static std::vector<char *> av; av.clear(); for (auto &x : a) av.push_back((char *)x.c_str()); av.push_back(nullptr);
  gStarted = false; trrouting_main((int)a.size(), av.data());
  if (!gStarted) sym::fail("the server never came up");
}
}

// ---- environment of main(): the server thread runs synchronously, sleeping returns at once
extern "C" {
static int (*realCreate)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static bool fromHere(void *arg) { Dl_info a, b; if (!arg || !dladdr(*(void **)arg, &a) || !dladdr((void *)&trrouting_main, &b)) return false; return a.dli_fbase == b.dli_fbase; }
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *arg) {
  if (fromHere(arg)) { *t = (pthread_t)0x5eed0001ul; f(arg); return 0; }
  if (!realCreate) realCreate = (decltype(realCreate))dlsym(RTLD_NEXT, "pthread_create");
  return realCreate(t, at, f, arg);
}
int pthread_join(pthread_t t, void **r) {
  if (t == (pthread_t)0x5eed0001ul) return 0;
  static int (*rj)(pthread_t, void **); if (!rj) rj = (decltype(rj))dlsym(RTLD_NEXT, "pthread_join"); return rj(t, r);
}
int nanosleep(const struct timespec *, struct timespec *) { return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return 0; }
}
