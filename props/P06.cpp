// P06: SOCKS requests are encoded byte for byte as the protocols prescribe.
#include "socks_common.hpp"

void pbt::setup(const std::string&) {}

namespace {

std::string good_reply(Kind k)
{
  switch (k) {
    case v4_endpoint: case v4_host: return std::string("\0\x5a\0\0\0\0\0\0", 8);
    case v5_greet: return std::string("\5\0", 2);
    case v5_login: return std::string("\1\0", 2);
    default: return std::string("\5\0\0\1\0\0\0\0\0\0", 10);
  }
}

void run(Gen& g, const Request& r, asioext::linear_buffer& lb)
{
  std::string want;
  const bool legal = expected_bytes(r, want);
  g.note("%s: cmd %d, endpoint %s:%d, host of %zu, port %d, user of %zu, password of %zu, %zu methods%s", kind_name(r.kind),
         int(r.cmd), r.ep.address().to_string().c_str(), int(r.ep.port()), r.host.size(), int(r.port), r.user.size(),
         r.password.size(), r.methods.size(), legal ? "" : " (illegal)");
  asio::io_context io;
  Pipe p(io, g);
  p.in = good_reply(r.kind);
  p.expect_before_read = want.size();
  const Outcome o = perform(g, p, r, lb);
  if (!legal) {
    PBT_CHECK("refused", o.ec == error_code(asio::error::invalid_argument), "error is %s", o.ec.message().c_str());
    PBT_CHECK("refused", p.out.empty() && p.writes == 0 && p.reads == 0, "something was sent: %s", hex(p.out).c_str());
    g.label("refused");
    return;
  }
  PBT_CHECK("bytes", p.out == want, "sent %s\nexpected %s", hex(p.out).c_str(), hex(want).c_str());
  PBT_CHECK("success", !o.ec, "%s", o.ec.message().c_str());
  PBT_CHECK("early-read", !p.read_too_early, "a reply was awaited before the request was sent");
  g.label(kind_name(r.kind) + (strchr(kind_name(r.kind), ' ') ? strcspn(kind_name(r.kind), " ") + 1 : 0));
}

PBT_PROP(requests, 4)
{
  const Kind k = static_cast<Kind>(g.below(kinds));
  const Request r = gen_request(g, k, 400);
  asioext::linear_buffer lb;
  if (g.flip()) lb.reserve(g.size(600));
  run(g, r, lb);
  g.nontrivial();
}

// One storage buffer reused for the messages of a whole negotiation.
PBT_PROP(negotiations, 2)
{
  asioext::linear_buffer lb;
  if (g.flip()) lb.reserve(g.size(100));
  const int n = 2 + static_cast<int>(g.below(4));
  for (int i = 0; i != n; ++i) {
    const Kind k = static_cast<Kind>(g.below(kinds));
    Request r = gen_request(g, k, 120);
    run(g, r, lb);
    PBT_CHECK("buffer", lb.size() == 0, "%zu bytes left in the buffer", lb.size());
  }
  g.nontrivial();
}

// Every length of the length-prefixed strings, around the limit and below.
PBT_ENUM(lengths, 0, 4 * 300)
{
  const std::uint64_t k = g.below(4 * 300);
  const std::size_t n = k % 300;
  Request r;
  switch (k / 300) {
    case 0: r.kind = v5_login; r.user = std::string(n, 'u'); r.password = "pw"; break;
    case 1: r.kind = v5_login; r.user = "me"; r.password = std::string(n, 'p'); break;
    case 2: r.kind = v5_host; r.host = std::string(n ? n : 1, 'h'); r.port = 0x1234; break;
    default: r.kind = v5_greet; r.methods.assign(n, socks::auth_method::gssapi); break;
  }
  asioext::linear_buffer lb;
  run(g, r, lb);
}

} // namespace
