// P07: SOCKS replies are consumed exactly and mapped to the right outcome.
#include "socks_common.hpp"

void pbt::setup(const std::string&) {}

namespace {

struct Expect
{
  enum { success, exact, some_socks_error } what;
  error_code ec;
  std::size_t consumed;       // if successful
  int method = -1;
};

error_code code(socks::error e) { return make_error_code(e); }

// What has to come out for the given bytes, from the protocol descriptions.
Expect expect(Kind k, const std::string& s, const error_code& end)
{
  auto u = [&](std::size_t i) { return static_cast<unsigned char>(s[i]); };
  const Expect cut{Expect::exact, end, 0};
  Expect e{Expect::exact, error_code(), 0};
  switch (k) {
    case v4_endpoint: case v4_host:
      if (s.size() < 8) return cut;
      if (u(0) != 0) { e.ec = code(socks::error::invalid_version); return e; }
      if (u(1) == 0x5a) return Expect{Expect::success, error_code(), 8};
      e.ec = code(u(1) == 0x5c ? socks::error::identd_not_reachable : u(1) == 0x5d ? socks::error::login_failed : socks::error::generic);
      return e;
    case v5_greet:
      if (s.size() < 2) return cut;
      if (u(0) != 5) { e.ec = code(socks::error::invalid_version); return e; }
      if (u(1) == 255) { e.ec = code(socks::error::no_acceptable_auth_method); return e; }
      return Expect{Expect::success, error_code(), 2, u(1)};
    case v5_login:
      if (s.size() < 2) return cut;
      if (u(0) != 1) { e.ec = code(socks::error::invalid_auth_version); return e; }
      if (u(1) != 0) { e.ec = code(socks::error::login_failed); return e; }
      return Expect{Expect::success, error_code(), 2};
    default: {
      // VER REP RSV ATYP BND.ADDR BND.PORT; a failure may be reported without
      // (all of) the address
      if (s.size() < 5) return cut;
      if (u(0) != 5) { e.ec = code(socks::error::invalid_version); return e; }
      if (u(1) != 0) {
        switch (u(1)) {
          case 2: e.ec = asio::error::no_permission; break;
          case 3: e.ec = asio::error::network_unreachable; break;
          case 4: e.ec = asio::error::host_unreachable; break;
          case 5: e.ec = asio::error::connection_refused; break;
          case 6: e.ec = asio::error::timed_out; break;
          case 7: e.ec = code(socks::error::command_not_supported); break;
          case 8: e.ec = asio::error::address_family_not_supported; break;
          default: e.ec = code(socks::error::generic); break;
        }
        return e;
      }
      std::size_t n;
      switch (u(3)) {
        case 1: n = 4 + 4 + 2; break;
        case 3: n = 4 + 1 + u(4) + 2; break;
        case 4: n = 4 + 16 + 2; break;
        default: e.ec = code(socks::error::generic); return e;
      }
      if (s.size() < n) return cut;
      return Expect{Expect::success, error_code(), n};
    }
  }
}

Request simple_request(Gen& g, Kind k)
{
  Request r;
  r.kind = k;
  r.ep = asio::ip::tcp::endpoint(asio::ip::address_v4(0x01020304), 80);
  r.host = "host.example";
  r.port = 443;
  r.user = "user";
  r.password = "secret";
  r.methods = {socks::auth_method::none, socks::auth_method::username_password};
  return r;
}

void run(Gen& g, Kind k, const std::string& bytes, error_code end, asioext::linear_buffer& lb, const std::string& trailing = "")
{
  const std::string all = bytes + trailing;
  g.note("%s: reply %s then %s", kind_name(k), hex(all).c_str(), end.message().c_str());
  const Expect e = expect(k, all, end);
  asio::io_context io;
  Pipe p(io, g);
  p.in = all;
  p.read_error = end;
  const Outcome o = perform(g, p, simple_request(g, k), lb);
  if (e.what == Expect::success) {
    PBT_CHECK("success", !o.ec, "failed with %s", o.ec.message().c_str());
    PBT_CHECK("consumed", p.pos == e.consumed, "consumed %zu bytes of a reply of %zu", p.pos, e.consumed);
    PBT_CHECK("buffer", lb.size() == 0, "%zu bytes left in the buffer", lb.size());
    if (e.method >= 0)
      PBT_CHECK("method", static_cast<int>(o.method) == e.method, "method %d", static_cast<int>(o.method));
    g.label("success");
  } else {
    PBT_CHECK("error", o.ec, "succeeded, expected %s", e.ec.message().c_str());
    PBT_CHECK("error", o.ec == e.ec, "error '%s' (%s), expected '%s' (%s)", o.ec.message().c_str(), o.ec.category().name(),
              e.ec.message().c_str(), e.ec.category().name());
    g.label(e.ec == end ? "truncated" : "refused");
  }
}

std::string gen_reply(Gen& g, Kind k)
{
  std::string s;
  auto put = [&](unsigned v) { s += static_cast<char>(v); };
  const bool odd = g.chance(1, 4);
  switch (k) {
    case v4_endpoint: case v4_host:
      put(odd ? g.num(255) : 0);
      put(g.flip() ? 0x5a : g.num(255));
      s += g.bytes(6);
      break;
    case v5_greet: put(odd ? g.num(255) : 5); put(g.num(255)); break;
    case v5_login: put(odd ? g.num(255) : 1); put(g.flip() ? 0 : g.num(255)); break;
    default: {
      put(odd ? g.num(255) : 5);
      put(g.chance(1, 4) ? g.num(255) : 0);
      put(g.num(255));
      const unsigned t = g.chance(1, 8) ? g.num(255) : g.pick({1u, 3u, 4u});
      put(t);
      if (t == 1) s += g.bytes(4);
      else if (t == 4) s += g.bytes(16);
      else if (t == 3) { const std::size_t n = g.size(255); put(n); s += g.bytes(n); }
      else s += g.bytes(g.size(20));
      s += g.bytes(2);
      break;
    }
  }
  return s;
}

error_code gen_end(Gen& g)
{ return g.pick({error_code(asio::error::eof), error_code(asio::error::eof), error_code(asio::error::connection_reset), error_code(asio::error::timed_out)}); }

PBT_PROP(replies, 6)
{
  const Kind k = static_cast<Kind>(g.below(kinds));
  std::string s = gen_reply(g, k);
  std::string trailing;
  if (g.chance(1, 3)) s.resize(g.below(s.size() + 1)); // truncated
  else if (g.flip()) trailing = g.bytes(1 + g.size(40)); // data for the application
  asioext::linear_buffer lb;
  if (g.flip()) lb.reserve(g.size(300));
  run(g, k, s, gen_end(g), lb, trailing);
  g.nontrivial();
}

// A negotiation: several messages over the same stream and storage; each
// operation must leave the next reply alone.
PBT_PROP(negotiations, 2)
{
  asio::io_context io;
  Pipe p(io, g);
  std::vector<Kind> ks;
  std::string all;
  const std::size_t n = 2 + g.below(3);
  std::vector<std::size_t> ends;
  for (std::size_t i = 0; i != n; ++i) {
    Kind k = static_cast<Kind>(g.below(kinds));
    std::string s;
    do s = gen_reply(g, k);
    while (expect(k, s, asio::error::eof).what != Expect::success && g.draws() < 2000);
    if (expect(k, s, asio::error::eof).what != Expect::success) throw pbt::Discard();
    s.resize(expect(k, s, asio::error::eof).consumed);
    ks.push_back(k);
    all += s;
    ends.push_back(all.size());
    g.note("%s: %s", kind_name(k), hex(s).c_str());
  }
  p.in = all + "application data";
  asioext::linear_buffer lb;
  for (std::size_t i = 0; i != n; ++i) {
    const Outcome o = perform(g, p, simple_request(g, ks[i]), lb);
    PBT_CHECK("success", !o.ec, "message %zu failed: %s", i, o.ec.message().c_str());
    PBT_CHECK("consumed", p.pos == ends[i], "message %zu consumed up to %zu, its reply ends at %zu", i, p.pos, ends[i]);
  }
  g.nontrivial();
}

// Failing or short writes are reported.
PBT_PROP(write_errors, 1)
{
  const Kind k = static_cast<Kind>(g.below(kinds));
  asio::io_context io;
  Pipe p(io, g);
  std::string req;
  const Request r = simple_request(g, k);
  expected_bytes(r, req);
  p.write_limit = g.below(req.size());
  p.write_error = gen_end(g);
  g.note("%s: writing fails after %zu of %zu bytes", kind_name(k), p.write_limit, req.size());
  p.in = gen_reply(g, k);
  asioext::linear_buffer lb;
  const Outcome o = perform(g, p, r, lb);
  PBT_CHECK("write-error", o.ec == p.write_error && p.pos == 0, "error '%s'", o.ec.message().c_str());
  g.nontrivial();
}

// All values of each header byte of a successful reply.
PBT_ENUM(header_bytes, 0, kinds * 4 * 256)
{
  const std::uint64_t n = g.below(kinds * 4 * 256);
  const Kind k = static_cast<Kind>(n / 1024);
  const std::size_t byte = n / 256 % 4;
  std::string s;
  switch (k) {
    case v4_endpoint: case v4_host: s = std::string("\0\x5a\1\2\3\4\5\6", 8); break;
    case v5_greet: s = std::string("\5\0", 2); break;
    case v5_login: s = std::string("\1\0", 2); break;
    default: s = std::string("\5\0\0\1\1\2\3\4\5\6", 10); break;
  }
  if (byte < s.size()) s[byte] = static_cast<char>(n % 256);
  asioext::linear_buffer lb;
  run(g, k, s, asio::error::eof, lb, "trailing application data, long enough for any address type, and some more so that hostnames fit as well....");
}

// All host name lengths and every truncation of a reply.
PBT_ENUM(truncations, 0, 256 + 3 * 24)
{
  const std::uint64_t n = g.below(256 + 3 * 24);
  asioext::linear_buffer lb;
  if (n < 256) {
    std::string s("\5\0\0\3", 4);
    s += static_cast<char>(n);
    s += std::string(n, 'h') + "pp";
    run(g, v5_host, s, asio::error::eof, lb, g.flip() ? "x" : "");
    return;
  }
  std::string s[3] = {std::string("\5\0\0\4", 4) + std::string(18, 'a'), std::string("\5\0\0\1abcdpp", 10), std::string("\0\x5a" "abcdef", 8)};
  const std::uint64_t i = (n - 256) / 24;
  s[i].resize(std::min<std::size_t>(s[i].size(), (n - 256) % 24));
  run(g, i == 2 ? v4_host : v5_endpoint, s[i], gen_end(g), lb);
}

} // namespace
