// Stand-in for the Simple-Web-Server transport: keeps the registration interface used by the
// application (resource / default_resource / on_error / start) and hands requests to the handlers
// without sockets. Query-string decoding is the repository's own utility.hpp.
#pragma once
#include <fstream>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <limits>
#include <list>
#include <set>
#include <unordered_set>
#include <vector>
#include <condition_variable>
#include "utility.hpp"
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <chrono>
#include <atomic>
#include <system_error>
#include <boost/system/error_code.hpp>
namespace SimpleWeb {
#ifndef VT_ERROR_CODE
#define VT_ERROR_CODE
using error_code = boost::system::error_code;
#endif
struct HTTP {};
template <class S> class Server {
public:
  class Response : public std::ostream {
  public:
    std::stringbuf buf;
    int sends = 0;
    Response() : std::ostream(nullptr), sends(0) { rdbuf(&buf); }
    bool close_connection_after_response = false;
    void send(const std::function<void(const error_code &)> & = nullptr) {}
    std::string text() const { return buf.str(); }
  };
  class Content : public std::istream {
  public:
    std::stringbuf buf;
    Content() : std::istream(nullptr) { rdbuf(&buf); }
    std::string string() const { return buf.str(); }
    std::size_t size() const { return buf.str().size(); }
  };
  class Request {
  public:
    std::string method, path, query_string, http_version = "1.1";
    Content content;
    CaseInsensitiveMultimap header;
    std::string path_match;
    CaseInsensitiveMultimap parse_query_string() const { return QueryString::parse(query_string); }
  };
  struct Config { unsigned short port = 80; std::size_t thread_pool_size = 1; std::string address; bool reuse_address = true; long timeout_request = 5, timeout_content = 300; std::size_t max_request_streambuf_size = (std::size_t)-1; bool fast_open = false; } config;
  using Handler = std::function<void(std::shared_ptr<Response>, std::shared_ptr<Request>)>;
  std::map<std::string, std::map<std::string, Handler>> resource;
  std::map<std::string, Handler> default_resource;
  std::function<void(std::shared_ptr<Request>, const error_code &)> on_error;
  std::function<void(unsigned short)> on_listen;
  Server();
  void start(const std::function<void(unsigned short)> & = nullptr);
  void stop() {}
};
template <> Server<HTTP>::Server();
template <> void Server<HTTP>::start(const std::function<void(unsigned short)> &);
}
