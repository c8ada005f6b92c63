// logging is given empty bodies: it is not the subject of any property
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cmath>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <limits>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
namespace spdlog {
namespace level { enum level_enum { trace, debug, info, warn, err, critical, off }; }
template <class... A> inline void trace(const A &...) {}
template <class... A> inline void debug(const A &...) {}
template <class... A> inline void info(const A &...) {}
template <class... A> inline void warn(const A &...) {}
template <class... A> inline void error(const A &...) {}
template <class... A> inline void critical(const A &...) {}
template <class... A> inline void log(level::level_enum, const A &...) {}
inline void set_level(level::level_enum) {}
inline level::level_enum get_level() { return level::info; }
inline bool should_log(level::level_enum) { return false; }
template <class... A> inline void set_pattern(const A &...) {}
inline void flush_on(level::level_enum) {}
}
