// C16: names, codes, identifiers, coordinates and distances of the answer are those of the dataset.
#pragma once
#include "oracle.hpp"
namespace vt {
inline void eqText(const json &s, const char *k, const std::string &v) { if (s.value(k, std::string("?")) != v) sym::fail(std::string("C16: ") + k + " is not the dataset's", s.dump()); }
inline void checkNames(const json &route, const World &w) {
  const json &st = route.at("steps"); const json *board = nullptr;
  for (auto &s : st) {
    std::string a = s.value("action", ""); if (a == "walking") continue;
    int t = idx(TRIP, s.value("tripUuid", "")); if (t < 0 || t >= (int)w.trips.size()) sym::fail("C16: unknown trip"); const Trip_ &tr = w.trips[t]; const Path_ &p = w.paths[tr.path]; const Line_ &l = w.lines[p.line];
    eqText(s, "pathUuid", uid(PATH, tr.path)); eqText(s, "lineUuid", uid(LINE, p.line)); eqText(s, "lineShortname", l.shortname); eqText(s, "lineLongname", l.longname); eqText(s, "agencyUuid", uid(AGENCY, l.agency)); eqText(s, "agencyAcronym", w.agencies[l.agency].acronym); eqText(s, "agencyName", w.agencies[l.agency].name); eqText(s, "mode", l.mode);
    long q = s.at("stopSequenceInTrip").get<long>(); if (q < 1 || q > (long)p.stops.size()) sym::fail("C16: stop sequence outside the trip"); const Stop &n = w.stops[p.stops[q - 1]];
    eqText(s, "nodeUuid", uid(STOP, p.stops[q - 1])); eqText(s, "nodeName", n.name); eqText(s, "nodeCode", n.code);
    const json &c = s.at("nodeCoordinates"); if (c.size() != 2 || std::fabs(c[0].get<double>() - n.lon) > 2e-6 || std::fabs(c[1].get<double>() - n.lat) > 2e-6) sym::fail("C16: nodeCoordinates are not the stop's", s.dump());
    if (a == "boarding") board = &s; else { long b = board->at("stopSequenceInTrip").get<long>(), d = 0; if (p.segDist.size() + 1 == p.stops.size()) { for (long k = b - 1; k < q - 1; k++) d += p.segDist[k]; check(num(s, "inVehicleDistance") == Int(d), "C16: inVehicleDistance is not the sum of the encoded segments"); } }
  }
  for (size_t i = 0; i < st.size(); i++) if (st[i].value("action", "") == "walking" && st[i].value("type", "") == "transfer") {
    int a = idx(STOP, st[i - 1].value("nodeUuid", "")), b = idx(STOP, st[i + 1].value("nodeUuid", "")); Bool m(a == b); if (a >= 0 && b >= 0) for (auto &f : w.stops[a].foot) if (f.to == b) m |= (Int(f.time) == num(st[i], "travelTime")) & (Int(f.dist) == num(st[i], "distance")); check(m, "C16: a transfer walk's distance is not the encoded one");
  }
}
}
