// P04: parsing a well-formed URL yields exactly its components.
#include "url_common.hpp"

void pbt::setup(const std::string&) {}

namespace {

void check(const asioext::url_view& u, const Parts& p, const char* first, const char* last)
{
  auto inside = [&](std::string_view v) { return v.empty() || (v.data() >= first && v.data() + v.size() <= last); };
  PBT_CHECK("valid", u.is_valid() && static_cast<bool>(u), "not valid");
#define C(part) \
  PBT_CHECK(#part, u.part() == p.part, "%s: '%s', expected '%s'", #part, printable(u.part()).c_str(), printable(p.part).c_str()); \
  PBT_CHECK("view", inside(u.part()), "%s does not point into the input", #part)
  C(scheme); C(userinfo); C(host); C(path); C(query); C(fragment);
#undef C
  std::string port = p.port;
  int value = p.has_port ? atoi(p.port.c_str()) : 0;
  if (!p.has_port) {
    if (p.scheme == "http") { port = "80"; value = 80; }
    if (p.scheme == "https") { port = "443"; value = 443; }
    if (p.scheme == "ftp") { port = "21"; value = 21; }
  }
  PBT_CHECK("port", u.port() == port, "port '%s', expected '%s'", std::string(u.port()).c_str(), port.c_str());
  PBT_CHECK("port-value", u.port_value() == value, "port %d, expected %d", int(u.port_value()), value);
}

PBT_PROP(components, 1)
{
  Parts p;
  const std::string s = gen_url(g, p);
  g.note("%s", printable(s).c_str());
  // in memory of exactly this size
  std::unique_ptr<char[]> mem(new char[s.size()]);
  memcpy(mem.get(), s.data(), s.size());
  const std::string_view v(mem.get(), s.size());
  asioext::error_code ec = g.flip() ? asioext::error_code(asio::error::eof) : asioext::error_code();
  const asioext::url_view a(v, ec);
  PBT_CHECK("accepts", !ec, "rejected: %s", ec.message().c_str());
  check(a, p, v.data(), v.data() + v.size());
  try {
    const asioext::url_view b(v);
    check(b, p, v.data(), v.data() + v.size());
    asioext::url_view c;
    PBT_CHECK("default", !c.is_valid() && c.scheme().empty() && c.host().empty() && c.path().empty() && c.port().empty() && c.port_value() == 0, "");
    c = b;
    check(c, p, v.data(), v.data() + v.size());
    const asioext::url_view d(c);
    check(d, p, v.data(), v.data() + v.size());
  } catch (const sys::system_error& e) {
    pbt::fail("accepts", std::string("throwing form rejected: ") + e.what());
  }
  int n = !p.userinfo.empty();
  n += !p.host.empty(); n += p.has_port; n += !p.path.empty(); n += !p.query.empty(); n += !p.fragment.empty();
  if (n >= 2) g.nontrivial();
}

// All port numbers.
PBT_ENUM(ports, 0, 65536)
{
  const std::uint64_t n = g.below(65536);
  const std::string s = "http://h:" + std::to_string(n) + "/x";
  asioext::error_code ec;
  const asioext::url_view u(s, ec);
  PBT_CHECK("port", !ec && u.port_value() == n && u.port() == std::to_string(n) && u.host() == "h" && u.path() == "/x", "port %d", int(n));
}

} // namespace
