// The two walking routers for real: places and stops get coordinates, the bird-distance filter or the OSRM client of /repo
// turns them into walks, and the table of expected walks (Place::walks) is derived independently.
#pragma once
#include "vt.hpp"
#include "client_http.hpp"
#include <cmath>
namespace SimpleWeb { extern std::function<VtReply(const std::string &, const std::string &, const std::string &)> vtRouter; }
namespace vt {
inline double metres(double la1, double lo1, double la2, double lo2) {  // on the ellipsoid, for points a few kilometres apart; the great circle beyond
  const double D = M_PI / 180, A = 6378137.0, E2 = 0.00669438; double m = (la1 + la2) / 2 * D, w = 1 - E2 * std::sin(m) * std::sin(m);
  if (std::fabs(la1 - la2) < 0.2 && std::fabs(lo1 - lo2) < 0.2) return std::hypot((la2 - la1) * D * A * (1 - E2) / (w * std::sqrt(w)), (lo2 - lo1) * D * A * std::cos(m) / std::sqrt(w));
  double a = std::sin((la2 - la1) * D / 2), b = std::sin((lo2 - lo1) * D / 2), h = a * a + std::cos(la1 * D) * std::cos(la2 * D) * b * b; return 2 * 6371008.8 * std::asin(std::sqrt(h));
}
inline std::string six(double v) { char b[40]; snprintf(b, sizeof b, "%.6f", v); return b; }
// bird distance at 5 km/h: stops listed by a place are spread around it, the others are far away
inline void geoEuclid(World &w, unsigned long seed) {
  unsigned long s = seed * 2862933555777941757ul + 3037000493ul; auto rnd = [&](long lo, long hi) { s = s * 6364136223846793005ul + 1442695040888963407ul; return lo + (long)((s >> 33) % (unsigned long)(hi - lo + 1)); };
  w.places[0].lat = 45.5 + rnd(0, 9) / 16.0; w.places[0].lon = -73.5; w.places[1].lat = rnd(0, 1) ? 45.625 + rnd(0, 9) / 16.0 : 30.25; w.places[1].lon = -73.25 - rnd(0, 9) / 32.0;
  if (std::fabs(w.places[1].lat - w.places[0].lat) < 0.25) w.places[1].lat = w.places[0].lat + 1.5;
  for (size_t i = 0; i < w.stops.size(); i++) {
    int p = -1; for (int k = 0; k < 2; k++) for (auto &x : w.places[k].walks) if (x.stop == (int)i && p < 0) p = k;
    if (p < 0) { w.stops[i].lat = 46.9 + i * 0.001953125; w.stops[i].lon = -72.0; continue; }
    double la, lo, d; long far = rnd(0, 9) < 6 ? 1 : 3; do { la = w.places[p].lat + rnd(-430 * far, 430 * far) / 100000.0; lo = w.places[p].lon + rnd(-600 * far, 600 * far) / 100000.0; d = metres(w.places[p].lat, w.places[p].lon, la, lo); } while (d > 1580 && d < 1740);
    w.stops[i].lat = la; w.stops[i].lon = lo;
  }
  for (auto &p : w.places) { p.walks.clear(); for (size_t i = 0; i < w.stops.size(); i++) { double d = metres(p.lat, p.lon, w.stops[i].lat, w.stops[i].lon); if (d < 1660) p.walks.push_back({(int)i, (long)(d * 3.6 / 5), (long)d}); } }
}
// OSRM: every stop is a stone's throw from both places, the router's table decides
inline std::vector<std::pair<std::string, std::string>> coordsOf(const std::string &path) {  // of a table request
  std::vector<std::pair<std::string, std::string>> r; size_t a = path.rfind('/'); if (a == std::string::npos) return r; size_t e = path.find('?', a); std::string c = path.substr(a + 1, e == std::string::npos ? e : e - a - 1), cur;
  c += ';'; for (char x : c) if (x == ';') { size_t k = cur.find(','); if (k != std::string::npos) r.push_back({cur.substr(0, k), cur.substr(k + 1)}); cur.clear(); } else cur += x;
  return r;
}
struct Table { int place = -1; std::vector<int> stops; bool ok = false; };
inline Table tableOf(const std::string &path) {
  Table t; auto c = coordsOf(path); if (c.empty()) return t;
  for (size_t p = 0; p < W.places.size(); p++) if (six(W.places[p].lon) == c[0].first && six(W.places[p].lat) == c[0].second) t.place = p;
  for (size_t k = 1; k < c.size(); k++) { int f = -1; for (size_t i = 0; i < W.stops.size(); i++) if (six(W.stops[i].lon) == c[k].first && six(W.stops[i].lat) == c[k].second) f = i; t.stops.push_back(f); }
  t.ok = t.place >= 0; for (int x : t.stops) if (x < 0) t.ok = false;
  return t;
}
inline void osrmNumbers(const Table &t, std::vector<std::string> &dur, std::vector<std::string> &dis) {
  dur = {"0"}; dis = {"0"};
  for (int s : t.stops) {
    std::string d = "7200.5", m = "9000.1"; for (auto &x : W.places[t.place].walks) if (x.stop == s) { d = x.time == 0 ? "0" : std::to_string(x.time - 1) + ".4"; m = x.dist == 0 ? "0" : std::to_string(x.dist - 1) + ".7"; }
    dur.push_back(d); dis.push_back(m);
  }
}
inline std::string row(const std::vector<std::string> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i]; return s + "]"; }
inline SimpleWeb::VtReply osrmReply(const std::string &path) {
  SimpleWeb::VtReply r; Table t = tableOf(path);
  if (!t.ok || path.compare(0, 18, "/table/v1/walking/") || path.find("sources=0") == std::string::npos) { r.status = "400 Bad Request"; r.body = "{\"code\":\"InvalidQuery\"}"; return r; }
  std::vector<std::string> a, b; osrmNumbers(t, a, b); r.body = "{\"code\":\"Ok\",\"durations\":[" + row(a) + "],\"distances\":[" + row(b) + "]}"; return r;
}
inline void geoOsrm(World &w, bool none0 = false, bool none1 = false) {
  w.places[0].lat = 45.5; w.places[0].lon = -73.5; w.places[1].lat = 45.50001; w.places[1].lon = -73.50002;
  for (size_t i = 0; i < w.stops.size(); i++) { w.stops[i].lat = 45.5 + 0.00001 * (i + 1); w.stops[i].lon = -73.5 - 0.00001 * i; }
  for (auto &p : w.places) for (auto &x : p.walks) if (x.time < 30) x.time = 30;
  for (auto &p : w.places) if (!(none0 && &p == &w.places[0]) && !(none1 && &p == &w.places[1])) for (int i = 0; i < (int)w.stops.size(); i++) if (std::none_of(p.walks.begin(), p.walks.end(), [&](auto &x) { return x.stop == i; })) p.walks.push_back({i, 7201, 9001});  // two hours: offered when there is no limit
  SimpleWeb::vtRouter = [](const std::string &, const std::string &, const std::string &path) { return osrmReply(path); };
}
}
