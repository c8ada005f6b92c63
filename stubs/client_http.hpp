// Stand-in for the Simple-Web-Server client: the external walking router's behaviour is supplied by
// the harness (vt_router), including refused connections, dropped replies and arbitrary bodies.
#pragma once
#include <iostream>
#include <sstream>
#include <algorithm>
#include <limits>
#include <mutex>
#include <thread>
#include <vector>
#include "utility.hpp"
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <boost/system/error_code.hpp>
#include <boost/system/system_error.hpp>
namespace SimpleWeb {
#ifndef VT_ERROR_CODE
#define VT_ERROR_CODE
using error_code = boost::system::error_code;
#endif
using system_error = boost::system::system_error;
struct HTTP;
struct VtReply { bool fail = false; std::string status = "200 OK", body; };
VtReply vt_router(const std::string &host, const std::string &method, const std::string &path);
template <class S> class Client {
public:
  class Content : public std::istream {
  public:
    std::stringbuf buf;
    explicit Content(const std::string &s) : std::istream(nullptr), buf(s) { rdbuf(&buf); }
    std::string string() const { return buf.str(); }
    std::size_t size() const { return buf.str().size(); }
  };
  class Response {
  public:
    std::string http_version = "1.1", status_code;
    Content content;
    CaseInsensitiveMultimap header;
    Response(const std::string &st, const std::string &b) : status_code(st), content(b) {}
  };
  struct Config { long timeout = 0, timeout_connect = 0; std::size_t max_response_streambuf_size = (std::size_t)-1; std::string proxy_server; } config;
  std::string host_port;
  explicit Client(const std::string &h) : host_port(h) {}
  std::shared_ptr<Response> request(const std::string &method, const std::string &path = "/", const std::string & = "", const CaseInsensitiveMultimap & = CaseInsensitiveMultimap()) {
    VtReply r = vt_router(host_port, method, path);
    if (r.fail) throw system_error(boost::system::errc::make_error_code(boost::system::errc::connection_refused));
    return std::make_shared<Response>(r.status, r.body);
  }
};
}
