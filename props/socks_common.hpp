// A scripted stream standing in for the connection to a proxy, and wrappers
// running one SOCKS operation over it.
#pragma once
#include "compat.hpp"
#include "asioext/socks/client.hpp"
#include "asioext/socks/error.hpp"
#include "asioext/linear_buffer.hpp"

namespace socks = asioext::socks;
typedef asioext::error_code error_code;

struct Pipe
{
  typedef asio::io_context::executor_type executor_type;
  asio::io_context& io;
  Gen& g;
  std::string in;             // what the peer sends
  std::size_t pos = 0;        // read so far
  std::string out;            // what was sent
  error_code read_error;      // once `in` is exhausted
  std::size_t write_limit = ~std::size_t(0); // fail writes beyond
  error_code write_error;
  std::size_t expect_before_read = 0;
  bool read_too_early = false;
  std::size_t reads = 0, writes = 0;

  Pipe(asio::io_context& i, Gen& gen) : io(i), g(gen), read_error(asio::error::eof) {}
  executor_type get_executor() { return io.get_executor(); }

  template <typename B, typename H>
  void async_read_some(const B& b, H h)
  {
    ++reads;
    if (out.size() < expect_before_read) read_too_early = true;
    std::size_t n = asio::buffer_size(b);
    error_code ec;
    if (n != 0) {
      if (pos == in.size()) { ec = read_error; n = 0; }
      else {
        n = std::min(n, in.size() - pos);
        if (!g.chance(1, 3)) n = 1 + g.below(n);
        asio::buffer_copy(b, asio::buffer(in.data() + pos, n));
        pos += n;
      }
    }
    asio::post(io, [h = std::move(h), ec, n]() mutable { h(ec, n); });
  }
  template <typename B, typename H>
  void async_write_some(const B& b, H h)
  {
    ++writes;
    std::size_t n = asio::buffer_size(b);
    error_code ec;
    if (n != 0) {
      if (!g.chance(1, 3)) n = 1 + g.below(n);
      if (out.size() + n > write_limit) n = write_limit - out.size();
      if (n == 0) ec = write_error;
      std::string d(n, '\0');
      asio::buffer_copy(asio::buffer(&d[0], n), b);
      out += d;
    }
    asio::post(io, [h = std::move(h), ec, n]() mutable { h(ec, n); });
  }
};

enum Kind { v4_endpoint, v4_host, v5_greet, v5_login, v5_endpoint, v5_host, kinds };
inline const char* kind_name(Kind k)
{
  static const char* const n[] = {"socks4 endpoint", "socks4 host", "greet", "login", "socks5 endpoint", "socks5 host"};
  return n[k];
}

struct Request
{
  Kind kind;
  socks::command cmd = socks::command::connect;
  asio::ip::tcp::endpoint ep;
  std::string host, user, password;
  std::uint16_t port = 0;
  std::vector<socks::auth_method> methods;
};

struct Outcome
{
  int calls = 0;
  error_code ec;
  socks::auth_method method = socks::auth_method::none;
  bool inside_initiation = false;
};

// Starts the operation and runs it to completion.
inline Outcome perform(Gen& g, Pipe& p, const Request& r, asioext::linear_buffer& lb)
{
  Outcome o;
  bool initiating = true;
  auto h = [&](error_code ec) { ++o.calls; o.ec = ec; o.inside_initiation |= initiating; };
  auto hg = [&](error_code ec, socks::auth_method m) { ++o.calls; o.ec = ec; o.method = m; o.inside_initiation |= initiating; };
  {
    // Strings only have to live for the duration of the initiating call.
    const std::unique_ptr<Request> t(new Request(r));
    switch (r.kind) {
      case v4_endpoint: socks::async_execute(p, t->cmd, t->ep, t->user, asioext::dynamic_buffer(lb), h); break;
      case v4_host: socks::async_execute(p, t->cmd, t->host, t->port, t->user, asioext::dynamic_buffer(lb), h); break;
      case v5_greet: socks::async_greet(p, t->methods.data(), t->methods.size(), asioext::dynamic_buffer(lb), hg); break;
      case v5_login: socks::async_login(p, t->user, t->password, asioext::dynamic_buffer(lb), h); break;
      case v5_endpoint: socks::async_execute(p, t->cmd, t->ep, asioext::dynamic_buffer(lb), h); break;
      default: socks::async_execute(p, t->cmd, t->host, t->port, asioext::dynamic_buffer(lb), h); break;
    }
  }
  initiating = false;
  p.io.restart();
  p.io.run();
  PBT_CHECK("once", o.calls == 1, "handler called %d times", o.calls);
  PBT_CHECK("initiation", !o.inside_initiation, "handler called from within the initiating function");
  return o;
}

inline asio::ip::tcp::endpoint gen_endpoint(Gen& g, bool v6)
{
  const std::uint16_t port = static_cast<std::uint16_t>(g.num(65535));
  if (v6) {
    asio::ip::address_v6::bytes_type b;
    for (auto& x : b) x = static_cast<unsigned char>(g.num(255));
    if (g.chance(1, 3)) {
      // those with a meaning of their own: mapped, compatible, loopback, unspecified, link-local, multicast
      const unsigned k = static_cast<unsigned>(g.below(6));
      if (k < 4) for (int i = 0; i != 12; ++i) b[i] = 0;
      if (k == 0) b[10] = b[11] = 0xff;
      if (k == 2 || k == 3) b[12] = b[13] = b[14] = 0, b[15] = k == 2;
      if (k == 4) b[0] = 0xfe, b[1] = 0x80;
      if (k == 5) b[0] = 0xff;
    }
    return asio::ip::tcp::endpoint(asio::ip::address_v6(b, static_cast<unsigned>(g.chance(1, 4) ? g.num(0xffffffffu) : 0)), port);
  }
  asio::ip::address_v4::bytes_type b;
  for (auto& x : b) x = static_cast<unsigned char>(g.num(255));
  return asio::ip::tcp::endpoint(asio::ip::address_v4(b), port);
}

// A string, mostly without NULs. (they can't be part of terminated strings)
inline std::string gen_text(Gen& g, std::size_t lo, std::size_t hi)
{
  const std::size_t n = lo + g.size(hi - lo);
  std::string s = g.bytes(n);
  for (auto& c : s) if (!c) c = 'n';
  if (n && g.chance(1, 12)) s[g.below(n)] = '\0';
  return s;
}

inline Request gen_request(Gen& g, Kind k, std::size_t max_len)
{
  Request r;
  r.kind = k;
  r.cmd = g.pick({socks::command::connect, socks::command::bind, socks::command::bind_udp});
  switch (k) {
    case v4_endpoint: r.ep = gen_endpoint(g, g.chance(1, 8)); r.user = gen_text(g, 0, max_len); break;
    case v4_host: r.host = gen_text(g, 1, max_len); r.port = static_cast<std::uint16_t>(g.num(65535)); r.user = gen_text(g, 0, max_len); break;
    case v5_greet: {
      const std::size_t n = g.size(std::min<std::size_t>(max_len, 300));
      for (std::size_t i = 0; i != n; ++i)
        r.methods.push_back(static_cast<socks::auth_method>(g.below(255)));
      break;
    }
    case v5_login:
      r.user = g.bytes(g.size(max_len));
      r.password = g.bytes(g.size(max_len));
      break;
    case v5_endpoint: r.ep = gen_endpoint(g, g.flip()); break;
    default: r.host = g.bytes(1 + g.size(max_len - 1)); r.port = static_cast<std::uint16_t>(g.num(65535)); break;
  }
  return r;
}

// The request as the protocol documents prescribe it. Returns false if the
// protocol cannot express it.
inline bool expected_bytes(const Request& r, std::string& b)
{
  auto put = [&](unsigned v) { b += static_cast<char>(v); };
  auto put16 = [&](unsigned v) { put(v >> 8); put(v & 255); };
  auto put_ep = [&] {
    if (r.ep.address().is_v4()) for (auto x : r.ep.address().to_v4().to_bytes()) put(x);
    else for (auto x : r.ep.address().to_v6().to_bytes()) put(x);
  };
  b.clear();
  switch (r.kind) {
    case v4_endpoint: // VN CD DSTPORT DSTIP USERID NULL
      if (!r.ep.address().is_v4() || r.user.find('\0') != std::string::npos) return false;
      put(4); put(static_cast<unsigned>(r.cmd)); put16(r.ep.port()); put_ep();
      b += r.user; put(0);
      return true;
    case v4_host: // SOCKS4A: DSTIP 0.0.0.x, host appended
      if (r.user.find('\0') != std::string::npos || r.host.find('\0') != std::string::npos) return false;
      put(4); put(static_cast<unsigned>(r.cmd)); put16(r.port);
      put(0); put(0); put(0); put(1);
      b += r.user; put(0); b += r.host; put(0);
      return true;
    case v5_greet:
      if (r.methods.size() > 255) return false;
      put(5); put(static_cast<unsigned>(r.methods.size()));
      for (auto m : r.methods) put(static_cast<unsigned>(m));
      return true;
    case v5_login:
      if (r.user.size() > 255 || r.password.size() > 255) return false;
      put(1);
      put(static_cast<unsigned>(r.user.size())); b += r.user;
      put(static_cast<unsigned>(r.password.size())); b += r.password;
      return true;
    case v5_endpoint:
      put(5); put(static_cast<unsigned>(r.cmd)); put(0);
      put(r.ep.address().is_v4() ? 1 : 4); put_ep(); put16(r.ep.port());
      return true;
    default:
      if (r.host.size() > 255) return false;
      put(5); put(static_cast<unsigned>(r.cmd)); put(0); put(3);
      put(static_cast<unsigned>(r.host.size())); b += r.host; put16(r.port);
      return true;
  }
}

inline std::string hex(std::string_view s, std::size_t max = 40)
{
  std::string r;
  for (std::size_t i = 0; i != s.size() && i != max; ++i) r += pbt::strf("%02x ", static_cast<unsigned char>(s[i]));
  if (s.size() > max) r += pbt::strf("... (%zu)", s.size());
  return r;
}
