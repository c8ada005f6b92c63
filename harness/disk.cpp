#include "disk.hpp"
#include <capnp/serialize-packed.h>
#include <capnp/message.h>
#include <kj/debug.h>
#include <kj/exception.h>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <cmath>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include "capnp/agencyCollection.capnp.h"
#include "capnp/serviceCollection.capnp.h"
#include "capnp/nodeCollection.capnp.h"
#include "capnp/node.capnp.h"
#include "capnp/lineCollection.capnp.h"
#include "capnp/line.capnp.h"
#include "capnp/pathCollection.capnp.h"
#include "capnp/scenarioCollection.capnp.h"
#include "capnp/dataSourceCollection.capnp.h"
#include "capnp/personCollection.capnp.h"
#include "capnp/odTripCollection.capnp.h"
namespace vt {
std::vector<Fault> faults; Edit edit; int opened = 0, broken = 0;
static std::string node(int i) { return "nodes/node_" + uid(STOP, i) + ".capnpbin"; }
static std::string lineF(int i) { return "lines/line_" + uid(LINE, i) + ".capnpbin"; }
static std::string src(const char *k) { return "dataSources/" + uid(DSRC, 0) + "/" + k; }
std::vector<std::string> files() {
  std::vector<std::string> v = {"agencies.capnpbin", "services.capnpbin", "nodes.capnpbin", "lines.capnpbin", "paths.capnpbin", "scenarios.capnpbin"};
  for (size_t i = 0; i < W.lines.size(); i++) v.push_back(lineF(i)); for (size_t i = 0; i < W.stops.size(); i++) v.push_back(node(i));
  if (withSources) { v.push_back("dataSources.capnpbin"); v.push_back(src("persons.capnpbin")); v.push_back(src("odTrips.capnpbin")); v.push_back(src("persons.capnpbin.count")); }
  return v;
}
typedef ::capnp::MallocMessageBuilder MB;
// identifiers, possibly edited
static std::string id(const std::string &f, int item, int pos, const std::string &u) {
  if (edit.what == E_NONE || edit.file != f || edit.item != item || edit.pos != pos) return u;
  switch (edit.what) { case E_UNKNOWN_ID: { std::string x = u; x[9] = 'f'; return x; } case E_BAD_ID: return "not-a-uuid"; case E_EMPTY_ID: return ""; case E_UTF8: return u.substr(0, 8) + "\xc3\x28\xff"; default: return u; }
}
static std::string txt(const std::string &f, int item, int pos, const std::string &t) { if (edit.what == E_UTF8 && edit.file == f && edit.item == item && edit.pos == pos) return t + "\xc3\x28\xff"; return t; }
static bool is(const std::string &f, int item, int what) { return edit.what == what && edit.file == f && edit.item == item; }
// sizes of parallel lists, possibly edited
static long len(const std::string &f, int item, int pos, long n) { if (edit.file != f || edit.item != item || edit.pos != pos) return n; if (edit.what == E_FEWER) return n > 0 ? n - 1 : 0; if (edit.what == E_MORE) return n + 1; if (edit.what == E_NONE_LEFT) return 0; return n; }
template <class L, class V> static void strs(L l, const V &v) { for (unsigned i = 0; i < l.size(); i++) l.set(i, v[i < v.size() ? i : v.size() - 1].c_str()); }
static int dup(const std::string &f, int i) { return is(f, i, E_DUP) ? 0 : i; }
static bool encode(const std::string &f, MB &m) {
  int base = enc & 1;
  if (f == "agencies.capnpbin") { auto l = m.initRoot<agencyCollection::AgencyCollection>().initAgencies(len(f, 0, 9, W.agencies.size()));
    for (unsigned i = 0; i < l.size() && i < W.agencies.size(); i++) { l[i].setUuid(id(f, i, 0, uid(AGENCY, dup(f, i)))); l[i].setAcronym(txt(f, i, 1, W.agencies[i].acronym)); l[i].setName(txt(f, i, 2, W.agencies[i].name)); if (enc & 2) l[i].setSimulationUuid(id(f, i, 3, uid(SCEN, 0))); } return true; }
  if (f == "services.capnpbin") { auto l = m.initRoot<serviceCollection::ServiceCollection>().initServices(len(f, 0, 9, W.services.size()));
    for (unsigned i = 0; i < l.size() && i < W.services.size(); i++) { l[i].setUuid(id(f, i, 0, uid(SERVICE, dup(f, i)))); l[i].setName(W.services[i].name); l[i].setMonday(1); l[i].setSunday(0); if (enc & 2) { l[i].setStartDate(is(f, i, E_JSON) ? "2024-13-45" : "2024-01-31"); l[i].setEndDate(is(f, i, E_BAD_ID) ? "soon" : "2024-12-31"); auto d = l[i].initOnlyDates(1); d.set(0, is(f, i, E_UTF8) ? "\xff" : "2024-02-29"); } } return true; }
  if (f == "nodes.capnpbin") { auto l = m.initRoot<nodeCollection::NodeCollection>().initNodes(len(f, 0, 9, W.stops.size()));
    for (unsigned i = 0; i < l.size() && i < W.stops.size(); i++) { auto &s = W.stops[i]; l[i].setUuid(id(f, i, 0, uid(STOP, dup(f, i)))); l[i].setId(i + 1); l[i].setCode(txt(f, i, 1, s.code)); l[i].setName(txt(f, i, 2, s.name)); l[i].setLatitude(llround(s.lat * 1e6)); l[i].setLongitude(llround(s.lon * 1e6)); l[i].setIsEnabled(1); } return true; }
  if (f == "lines.capnpbin") { auto l = m.initRoot<lineCollection::LineCollection>().initLines(len(f, 0, 9, W.lines.size()));
    for (unsigned i = 0; i < l.size() && i < W.lines.size(); i++) { auto &x = W.lines[i]; l[i].setUuid(id(f, i, 0, uid(LINE, dup(f, i)))); l[i].setAgencyUuid(id(f, i, 1, uid(AGENCY, x.agency))); l[i].setMode(is(f, i, E_JSON) ? "hovercraft" : x.mode); l[i].setShortname(txt(f, i, 2, x.shortname)); l[i].setLongname(x.longname); l[i].setAllowSameLineTransfers(x.sameLine); } return true; }
  if (f == "paths.capnpbin") { auto l = m.initRoot<pathCollection::PathCollection>().initPaths(len(f, 0, 9, W.paths.size()));
    for (unsigned i = 0; i < l.size() && i < W.paths.size(); i++) {
      auto &p = W.paths[i]; l[i].setUuid(id(f, i, 0, uid(PATH, dup(f, i)))); l[i].setLineUuid(id(f, i, 1, uid(LINE, p.line))); l[i].setDirection("outbound");
      long n = len(f, i, 2, p.stops.size()); auto s = l[i].initNodesUuids(n); for (long k = 0; k < n; k++) s.set(k, id(f, i, 10 + k, uid(STOP, p.stops[std::min<size_t>(k, p.stops.size() - 1)])).c_str());
      std::string j = "{\"segments\":["; long m2 = len(f, i, 3, p.segDist.size()); for (long k = 0; k < m2; k++) { j += k ? "," : ""; size_t q = std::min<size_t>(k, p.segDist.size() - 1); j += "{\"distanceMeters\":" + std::to_string(p.segDist[q]) + ",\"travelTimeSeconds\":" + std::to_string(p.segTime[q]) + "}"; } j += "]}";
      if (is(f, i, E_JSON)) { const char *bad[] = {"", "{", "null", "{\"segments\":null}", "{\"segments\":{}}", "{\"segments\":[1,2]}", "{\"segments\":[{\"distanceMeters\":\"x\"}]}", "[]", "{\"segments\":[{\"distanceMeters\":1e300,\"travelTimeSeconds\":-5}]}", "7"}; j = bad[edit.pos % 10]; }
      l[i].setData(j.c_str());
    } return true; }
  if (f == "scenarios.capnpbin") { auto l = m.initRoot<scenarioCollection::ScenarioCollection>().initScenarios(len(f, 0, 9, W.scenarios.size()));
    auto ids = [&](Kind k, const std::vector<int> &v, int i, int pos) { std::vector<std::string> r; for (int x : v) r.push_back(id(f, i, pos, uid(k, x))); return r; };
    for (unsigned i = 0; i < l.size() && i < W.scenarios.size(); i++) { auto &s = W.scenarios[i]; l[i].setUuid(id(f, i, 0, uid(SCEN, dup(f, i)))); l[i].setName("scenario"); if (!base) l[i].setSimulationUuid(id(f, i, 3, uid(SCEN, 0)));
      strs(l[i].initServicesUuids(len(f, i, 2, s.services.size())), ids(SERVICE, s.services, i, 1)); strs(l[i].initOnlyLinesUuids(s.onlyLines.size()), ids(LINE, s.onlyLines, i, 4)); strs(l[i].initExceptLinesUuids(s.exceptLines.size()), ids(LINE, s.exceptLines, i, 5));
      strs(l[i].initOnlyAgenciesUuids(s.onlyAgencies.size()), ids(AGENCY, s.onlyAgencies, i, 6)); strs(l[i].initExceptAgenciesUuids(s.exceptAgencies.size()), ids(AGENCY, s.exceptAgencies, i, 7));
      strs(l[i].initOnlyModesShortnames(s.onlyModes.size()), s.onlyModes); strs(l[i].initExceptModesShortnames(s.exceptModes.size()), s.exceptModes); } return true; }
  if (f == "dataSources.capnpbin") { auto l = m.initRoot<dataSourceCollection::DataSourceCollection>().initDataSources(1); l[0].setUuid(id(f, 0, 0, uid(DSRC, 0))); l[0].setName("source"); l[0].setType(dataSource::DataSource::Type::OD_TRIPS); return true; }
  if (f == src("persons.capnpbin") || f == src("persons.capnpbin.0") || f == src("persons.capnpbin.1")) { auto l = m.initRoot<personCollection::PersonCollection>().initPersons(1); l[0].setUuid(id(f, 0, 0, uid(PERSON, f.back() == '1'))); l[0].setDataSourceUuid(id(f, 0, 1, uid(DSRC, 0))); return true; }
  if (f == src("odTrips.capnpbin")) { auto l = m.initRoot<odTripCollection::OdTripCollection>().initOdTrips(1); l[0].setUuid(id(f, 0, 0, uid(OD, 0))); l[0].setDataSourceUuid(id(f, 0, 1, uid(DSRC, 0))); l[0].setPersonUuid(id(f, 0, 2, uid(PERSON, 0))); l[0].setMode(odTrip::OdTrip::Mode::TRANSIT); l[0].setDepartureTimeSeconds(36000); l[0].setArrivalTimeSeconds(37000); l[0].setExpansionFactor(1.5);
    for (int d = 0; d < 2; d++) { long n = W.stops.size(); auto u = d ? l[0].initDestinationNodesUuids(n) : l[0].initOriginNodesUuids(n); auto t = d ? l[0].initDestinationNodesTravelTimes(len(f, 0, 3 + 2 * d, n)) : l[0].initOriginNodesTravelTimes(len(f, 0, 3 + 2 * d, n)); auto x = d ? l[0].initDestinationNodesDistances(len(f, 0, 4 + 2 * d, n)) : l[0].initOriginNodesDistances(len(f, 0, 4 + 2 * d, n));
      for (long i = 0; i < n; i++) u.set(i, id(f, 0, 10 + i, uid(STOP, i)).c_str()); for (unsigned i = 0; i < t.size(); i++) t.set(i, 60 + i); for (unsigned i = 0; i < x.size(); i++) x.set(i, 50 + i); } return true; }
  for (size_t i = 0; i < W.stops.size(); i++) if (f == node(i)) {
    auto n = m.initRoot<::node::Node>(); auto &s = W.stops[i]; n.setUuid(uid(STOP, i)); n.setCode(s.code); n.setName(s.name); long c = s.foot.size();
    auto u = n.initTransferableNodesUuids(c); auto t = n.initTransferableNodesTravelTimes(len(f, 0, 1, c)); auto d = n.initTransferableNodesDistances(len(f, 0, 2, c));
    for (long k = 0; k < c; k++) { u.set(k, id(f, 0, 10 + k, uid(STOP, s.foot[k].to)).c_str()); if (k < (long)t.size()) t.set(k, (short)s.foot[k].time); if (k < (long)d.size()) d.set(k, (short)s.foot[k].dist); } return true; }
  for (size_t i = 0; i < W.lines.size(); i++) if (f == lineF(i)) {
    auto L = m.initRoot<line::Line>(); L.setUuid(uid(LINE, i)); L.setMode(W.lines[i].mode); L.setAgencyUuid(uid(AGENCY, W.lines[i].agency)); L.setShortname(W.lines[i].shortname);
    std::vector<std::vector<int>> by(W.services.size()); int ns = 0; for (size_t t = 0; t < W.trips.size(); t++) if (W.trips[t].present && W.paths[W.trips[t].path].line == (int)i) by[W.trips[t].service].push_back(t); for (auto &v : by) ns += !v.empty() || (enc & 4);
    auto S = L.initSchedules(ns); int k = 0, item = 0;
    for (size_t v = 0; v < by.size(); v++) { if (by[v].empty() && !(enc & 4)) continue; auto s = S[k++]; s.setUuid(uid(SERVICE, 128 + v)); s.setServiceUuid(id(f, k - 1, 8, uid(SERVICE, v)));
      // one or two periods
      size_t cut = (base && by[v].size() > 1) ? by[v].size() / 2 : by[v].size(); int np = cut < by[v].size() ? 2 : 1, gap = enc & 8 ? 1 : 0; auto P = s.initPeriods(np + gap); size_t at = 0; if (gap) P[np - 1].initTrips(0);
      for (int q = 0; q < np; q++) { size_t n = q == 0 ? cut : by[v].size() - cut; auto T = P[q < np - 1 ? q : q + gap].initTrips(n);
        for (size_t x = 0; x < n; x++) { int ti = by[v][at++]; auto &w = W.trips[ti]; auto t = T[x]; t.setUuid(id(f, item, 0, uid(TRIP, is(f, item, E_DUP) ? by[v][0] : ti))); t.setPathUuid(id(f, item, 1, uid(PATH, w.path))); long c = w.arr.size(); t.setDepartureTimeSeconds((int)w.dep[0]); t.setArrivalTimeSeconds((int)w.arr[c - 1]);
          auto A = t.initNodeArrivalTimesSeconds(len(f, item, 2, c)), D = t.initNodeDepartureTimesSeconds(len(f, item, 3, c)); auto B = t.initNodesCanBoard(len(f, item, 4, c)), U = t.initNodesCanUnboard(len(f, item, 5, c));
          for (long z = 0; z < c; z++) { if (z < (long)A.size()) A.set(z, z == 0 ? -1 : (int)w.arr[z]); if (z < (long)D.size()) D.set(z, z == c - 1 ? -1 : (int)w.dep[z]); if (z < (long)B.size()) B.set(z, z == c - 1 ? 0 : (signed char)w.board[z]); if (z < (long)U.size()) U.set(z, z == 0 ? 0 : (signed char)w.unboard[z]); }
          for (long z = c; z < (long)A.size(); z++) A.set(z, (int)w.arr[c - 1] + 60); for (long z = c; z < (long)D.size(); z++) D.set(z, (int)w.arr[c - 1] + 60); item++; } } }
    return true; }
  return false;
}
// ---- word roles, from the message's own pointers
static void walkStruct(const uint64_t *w, long n, long at, int data, int ptrs, std::vector<Role> &r, int depth);
static void walkPtr(const uint64_t *w, long n, long at, std::vector<Role> &r, int depth) {
  if (at < 0 || at >= n || depth > 12) return; r[at] = {'P', 8}; uint64_t p = w[at]; if (!p) return; long off = (int32_t)(uint32_t)p >> 2, to = at + 1 + off;
  if ((p & 3) == 0) { walkStruct(w, n, to, (p >> 32) & 0xffff, p >> 48, r, depth + 1); return; }
  if ((p & 3) != 1) return; int es = (p >> 32) & 7; long cnt = p >> 35; static const int bytes[] = {0, 0, 1, 2, 4, 8};
  if (es == 7) { if (to >= n) return; r[to] = {'P', 8}; long el = (int32_t)(uint32_t)w[to] >> 2; int d = (w[to] >> 32) & 0xffff, q = w[to] >> 48; for (long i = 0; i < el; i++) walkStruct(w, n, to + 1 + i * (d + q), d, q, r, depth + 1); return; }
  if (es == 6) { for (long i = 0; i < cnt; i++) walkPtr(w, n, to + i, r, depth + 1); return; }
  long words = es == 1 ? (cnt + 63) / 64 : es == 0 ? 0 : (cnt * bytes[es] + 7) / 8; bool text = false;
  if (es == 2 && cnt > 0) { const char *c = (const char *)(w + to); text = c[cnt - 1] == 0 && cnt > 1 && c[0] > 7; if (cnt == 1 && c[0] == 0) text = true; }
  for (long i = 0; i < words && to + i < n; i++) r[to + i] = {text ? 'T' : 'I', es >= 2 ? bytes[es] : 1};
}
static void walkStruct(const uint64_t *w, long n, long at, int data, int ptrs, std::vector<Role> &r, int depth) { for (int i = 0; i < data; i++) if (at + i < n && at + i >= 0) r[at + i] = {'D', 8}; for (int i = 0; i < ptrs; i++) walkPtr(w, n, at + data + i, r, depth); }
static std::vector<Role> rolesIn(const uint64_t *w, long n) { std::vector<Role> r(n, Role{'-', 0}); walkPtr(w, n, 0, r, 0); return r; }
std::vector<Role> rolesOf(const std::string &f) { MB m; if (!encode(f, m)) return {}; auto s = m.getSegmentsForOutput(); return rolesIn((const uint64_t *)s[0].begin(), s[0].size()); }
// ---- open files
struct OpenFile { std::unique_ptr<MB> m; kj::ArrayPtr<const kj::ArrayPtr<const capnp::word>> segs; bool broken = false, late = false; std::string name; std::vector<kj::ArrayPtr<const capnp::word>> own; };
static std::map<int, OpenFile> fds; static int nextFd = 50000;
static Fault *faultOf(const std::string &f) { for (auto &x : faults) if (x.file == f && x.kind != OK_) return &x; return nullptr; }
static void damage(OpenFile &o, Fault &x) {
  uint64_t *w = (uint64_t *)const_cast<capnp::word *>(o.segs[0].begin()); long n = o.segs[0].size(); if (x.word >= n) return; x.hit = true; char *b = (char *)(w + x.word);
  switch (x.kind) {
    case BIT: w[x.word] ^= 1ull << x.bit; break;
    case ZERO: w[x.word] = 0; break;
    case INTS: if (x.lane == 1) b[x.bit] = (char)x.value; else if (x.lane == 2) ((short *)b)[x.bit] = (short)x.value; else ((int *)b)[x.bit] = (int)x.value; break;
    case TEXT: b[x.bit] = (char)x.value; break;
    default: break;
  }
}
World *customWorld = nullptr; static bool elsewhere = false;
static int openFile(const std::string &f, int flags) {
  Fault *x = faultOf(f); if (x && (x->kind == MISSING || x->kind == DENIED)) { x->hit = true; errno = x->kind == MISSING ? ENOENT : EACCES; return -1; }
  OpenFile o; o.name = f; o.m.reset(new MB()); bool other = elsewhere && customWorld; if (other) std::swap(W, *customWorld); bool there = encode(f, *o.m); if (other) std::swap(W, *customWorld); if (!there) { errno = ENOENT; return -1; }
  o.segs = o.m->getSegmentsForOutput(); if (x) { if (x->kind == BROKEN) { o.broken = true; x->hit = true; } else damage(o, *x); }
  int fd = nextFd++; fds[fd] = std::move(o); opened++; return fd;
}
}
kj::ArrayPtr<const kj::ArrayPtr<const capnp::word>> vt_segments(int fd) {
  auto i = vt::fds.find(fd); if (i == vt::fds.end()) KJ_FAIL_SYSCALL("read", EBADF); if (i->second.broken) { vt::broken++; KJ_FAIL_REQUIRE("Premature EOF"); } return i->second.segs;
}
namespace capnp { void writePackedMessageToFd(int, MessageBuilder &) {} }
namespace kj { namespace _ { void inlineRequireFailure(const char *file, int line, const char *expect, const char *macro, const char *msg) { sym::fail("a list is read beyond its end", std::string(file) + ":" + std::to_string(line) + " " + expect); abort(); } } }
extern "C" {
static const char *under(const char *p) { size_t n = vt::cacheDir.size(); if (strncmp(p, vt::cacheDir.c_str(), n) || p[n] != '/') return nullptr; p += n; while (*p == '/') p++;
  vt::elsewhere = false; const char *e = strchr(p, '/'); if (e && strncmp(p, "nodes/", 6) && strncmp(p, "lines/", 6) && strncmp(p, "dataSources/", 12)) { vt::elsewhere = true; p = e; while (*p == '/') p++; }  // a custom cache path: customWorld, or another copy of the same dataset
  return p;
}
int open(const char *p, int flags, ...) {
  if (const char *f = under(p)) return vt::openFile(f, flags);
  static int (*real)(const char *, int, ...); if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open"); va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); return real(p, flags, m);
}
int open64(const char *p, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); return open(p, flags, m); }
int close(int fd) { auto i = vt::fds.find(fd); if (i != vt::fds.end()) { vt::fds.erase(i); return 0; } static int (*real)(int); if (!real) real = (int (*)(int))dlsym(RTLD_NEXT, "close"); return real(fd); }
static char countText[32];
FILE *fopen(const char *p, const char *mode) {
  if (const char *f = under(p)) {
    std::string n = f; vt::Fault *x = vt::faultOf(n); if (!vt::withSources || n != vt::src("persons.capnpbin.count") || (x && x->kind == vt::MISSING)) { if (x) x->hit = true; errno = ENOENT; return nullptr; }
    if (x) x->hit = true; strcpy(countText, x && x->kind == vt::BROKEN ? "" : x && x->kind == vt::BIT ? "r" : x && x->kind == vt::ZERO ? "0" : x && x->kind == vt::INTS ? "17" : x && x->kind == vt::TEXT ? "-2" : "2"); return fmemopen(countText, strlen(countText) ? strlen(countText) : 1, "r");
  }
  static FILE *(*real)(const char *, const char *); if (!real) real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen"); return real(p, mode);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
}
