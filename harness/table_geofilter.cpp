// Walking router replaced by a table (the Euclidean filter's member function, other body).
#include "euclideangeofilter.hpp"
#include "node.hpp"
#include "point.hpp"
#include "vt.hpp"
namespace TrRouting {
EuclideanGeoFilter::EuclideanGeoFilter() {}
std::vector<NodeTimeDistance> EuclideanGeoFilter::getAccessibleNodesFootpathsFromPoint(const Point &point, const std::map<boost::uuids::uuid, Node> &nodes, int maxWalkingTravelTime, float, bool) {
  std::vector<NodeTimeDistance> r;
  for (auto &p : vt::W.places) if (p.lat == point.latitude && p.lon == point.longitude)
    for (auto &w : p.walks) for (auto &n : nodes) if (n.first.data[15] == w.stop && (long)w.time <= (long)maxWalkingTravelTime) r.push_back(NodeTimeDistance(n.second, w.time, w.dist));
  return r;
}
}
