// Shared harness layer: abstract dataset (World), requests through the real HTTP handlers, answers
// with symbolic numbers.
#pragma once
#include "sym.hpp"
#include <nlohmann/json.hpp>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
using json = nlohmann::json;
using sym::Int;
using sym::Bool;
using sym::check;
using sym::assume;
using sym::implies;

namespace vt {
const long INF = 2147483647L;
// ---- abstract dataset -------------------------------------------------------------------------
struct Foot { int to; long time, dist; };
struct Stop { std::string name, code; double lat, lon; std::vector<Foot> foot; };
struct Agency_ { std::string acronym, name; };
struct Line_ { int agency; std::string mode, shortname, longname; long sameLine = 0; };
struct Service_ { std::string name; };
struct Path_ { int line; std::vector<int> stops; std::vector<long> segDist; std::vector<long> segTime; };
struct Trip_ { int path, service; std::vector<long> arr, dep; std::vector<long> board, unboard; bool present = true; };
struct Scen { std::vector<int> services, onlyLines, exceptLines, onlyAgencies, exceptAgencies; std::vector<std::string> onlyModes, exceptModes; };
struct Walk { int stop; long time, dist; };
struct Place { double lon, lat; std::vector<Walk> walks; };
struct World {
  std::vector<Agency_> agencies; std::vector<Service_> services; std::vector<Line_> lines; std::vector<Stop> stops;
  std::vector<Path_> paths; std::vector<Trip_> trips; std::vector<Scen> scenarios; std::vector<Place> places;
  int trip(int path, int service, std::vector<long> arr, std::vector<long> dep);
};
extern World W;                         // the dataset "on disk"; fetchers read it when asked
enum Kind { AGENCY = 1, SERVICE, LINE, STOP, PATH, TRIP, SCEN, DSRC, PERSON, OD };
std::string uid(Kind k, int i);         // canonical uuid text
int idx(Kind k, const std::string &u);  // -1 when unknown
int addStop(World &w, bool self = true);
void addFoot(World &w, int a, int b, long t, long d);
int addLine(World &w, int agency = 0, const std::string &mode = "bus");
int addPath(World &w, int line, std::vector<int> stops);
void basics(World &w);                  // one agency, one service, one scenario admitting it, two places
long mwOf(const World &w, int trip, long mw);
bool admitted(const World &w, int scen, int trip);

// ---- requests ---------------------------------------------------------------------------------
struct Req {
  std::string endpoint = "/v2/route"; int origin = 0, dest = 1, scen = 0; bool forward = true, alternatives = false;
  long T = 0, mw = 180, maxTravel = 0, maxAccess = 0, maxEgress = 0, maxTransfer = 0, maxFirst = 0;  // values as sent
  std::string query() const;
  // limits after the documented normalisation (non-positive = no limit)
  Int lim(long v) const { return sym::ite(Int(v) <= Int(0), Int(INF), Int(v)); }
};
struct Resp { bool answered = false; std::string raw, status, ctype, body; json j; bool parsed = false; bool lengthOk = false; int code = 0; };
void serve(std::function<void()> test, std::vector<std::string> args = {});  // runs the real main(), then test() once the server is up
bool serverUp();
Resp get(const std::string &path, const std::string &query);
inline Resp get(const Req &r) { return get(r.endpoint, r.query()); }
void wellFormed(const Resp &r, const std::string &what);  // one response, length, JSON object
Int num(const json &j, const char *k);
// registers a JSON document with symbolic numbers as the meaning of its (concrete) text
std::string documentText(const json &j);
extern std::vector<std::string> serverArgs;   // passed to every server of the run
extern std::string cacheDir; extern int enc; extern bool withSources;  // encoding variant of the cache files; optional files exist
extern long walkTol;  // slack when a walk is compared with the router's
extern std::function<void()> gTest;
extern std::vector<Resp (*)(void)> dummy;
}
