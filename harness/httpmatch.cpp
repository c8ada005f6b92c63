#include <regex>
#include <string>
bool vt_regex_match(const std::string &pattern, const std::string &path) {
  if (pattern.find("^/updateCache") == 0 && path.find("/updateCache") != 0) return false;
  static std::string lp; static std::regex rx; if (lp != pattern) { rx = std::regex(pattern); lp = pattern; }
  return std::regex_match(path, rx);
}
