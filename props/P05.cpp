// P05: any string is either parsed consistently or rejected with an error.
#include "url_common.hpp"

void pbt::setup(const std::string&) {}

namespace {

void check(Gen& g, const std::string& s)
{
  std::unique_ptr<char[]> mem(new char[s.size()]);
  if (!s.empty()) memcpy(mem.get(), s.data(), s.size());
  const std::string_view v(mem.get(), s.size());
  asioext::error_code ec = asio::error::eof, ec2;
  const asioext::url_view a(v, ec);
  const asioext::url_view again(v, ec2);
  PBT_CHECK("deterministic", ec == ec2, "");
  bool threw = false;
  try {
    const asioext::url_view b(v);
    PBT_CHECK("agree", b.host() == a.host() && b.path() == a.path() && b.port() == a.port() && b.query() == a.query(), "forms differ");
  } catch (const sys::system_error& e) {
    threw = true;
    PBT_CHECK("agree", e.code() == ec, "different errors");
  }
  PBT_CHECK("agree", threw == !!ec, "throwing form %s, error-code form %s", threw ? "threw" : "did not throw", ec ? "failed" : "succeeded");
  const Parts ref = ref_parse(v);
  PBT_CHECK("accept", ref.ok == !ec, "%s: should be %s", ec ? ec.message().c_str() : "accepted", ref.ok ? "accepted" : "rejected");
  if (ec) {
    PBT_CHECK("valid", !a.is_valid() && !static_cast<bool>(a), "rejected, but claims to be valid");
    g.label("rejected");
    return;
  }
  g.label("accepted");
  PBT_CHECK("valid", a.is_valid() == !s.empty(), "");
  // The components appear in order and, with their delimiters, make up the input.
  const std::string_view port = a.port().data() >= v.data() && a.port().data() < v.data() + v.size() ? a.port() : std::string_view();
  std::size_t pos = 0;
  std::string rest;
  struct { std::string_view v; const char* name; } parts[] = {
    {a.scheme(), "scheme"}, {a.userinfo(), "userinfo"}, {a.host(), "host"}, {port, "port"},
    {a.path(), "path"}, {a.query(), "query"}, {a.fragment(), "fragment"}};
  for (auto& p : parts) {
    if (p.v.empty()) continue;
    PBT_CHECK("inside", p.v.data() >= v.data() && p.v.data() + p.v.size() <= v.data() + v.size(), "%s outside of the input", p.name);
    const std::size_t at = p.v.data() - v.data();
    PBT_CHECK("order", at >= pos, "%s starts at %zu, inside of or before the previous component", p.name, at);
    for (; pos != at; ++pos)
      PBT_CHECK("partition", in(v[pos], ":/@?#"), "'%c' before the %s belongs to no component", v[pos], p.name);
    pos += p.v.size();
  }
  for (; pos != v.size(); ++pos)
    PBT_CHECK("partition", in(v[pos], ":/@?#"), "'%c' belongs to no component", v[pos]);
#define C(part) PBT_CHECK(#part, a.part() == ref.part, "%s: '%s', expected '%s'", #part, printable(a.part()).c_str(), printable(ref.part).c_str())
  C(scheme); C(userinfo); C(host); C(path); C(query); C(fragment);
#undef C
  PBT_CHECK("port", port == ref.port, "port '%s', expected '%s'", printable(port).c_str(), ref.port.c_str());
  if (ref.has_port)
    PBT_CHECK("port", a.port_value() == atoi(ref.port.c_str()), "port %d", int(a.port_value()));
}

std::string mutate(Gen& g, std::string s)
{
  const std::size_t n = g.below(4);
  for (std::size_t i = 0; i != n; ++i) {
    const std::size_t p = g.below(s.size() + 1);
    auto ch = [&]() -> char {
      return g.flip() ? g.pick({'/', ':', '?', '#', '@', '[', ']', '%', '.', '0', '9', 'a', 'f', 'g', '-', '_', '~', '+', '&', ' ', '"', '\\', '\t', '\x7f'})
                      : static_cast<char>(g.below(256));
    };
    switch (g.below(6)) {
      case 0: if (p < s.size()) s.erase(p, 1 + g.below(3)); break;
      case 1: s.insert(p, 1, ch()); break;
      case 2: if (p < s.size()) s[p] = ch(); break;
      case 3: s.resize(p); break;
      case 4: if (p < s.size()) s.insert(p, s.substr(p, 1 + g.below(5))); break;
      default: {
        const std::size_t q = g.below(s.size() + 1);
        if (p < s.size() && q < s.size()) std::swap(s[p], s[q]);
        break;
      }
    }
  }
  return s;
}

PBT_PROP(mutated, 6)
{
  Parts p;
  const std::string s = mutate(g, gen_url(g, p));
  g.note("'%s'", printable(s).c_str());
  if (s.size() >= 4) g.nontrivial();
  check(g, s);
}

// Authorities are where most of the validation is.
PBT_PROP(authorities, 4)
{
  std::string s = "a://";
  const std::size_t n = g.below(10);
  for (std::size_t i = 0; i != n; ++i)
    switch (g.below(9)) {
      case 0: s += "@"; break;
      case 1: s += ":"; break;
      case 2: s += std::to_string(g.num(100000)); break;
      case 3: s += "["; break;
      case 4: s += "]"; break;
      case 5: s += "%25"; break;
      case 6: s += static_cast<char>(g.below(256)); break;
      case 7: s += g.pick({std::string("::1"), std::string("host"), std::string("fe80"), std::string("."), std::string("%"), std::string("%2")}); break;
      default: s += g.pick({'/', '?', '#', 'x', '-', '_', '~', '!', '0'}); break;
    }
  g.note("'%s'", printable(s).c_str());
  if (n >= 2) g.nontrivial();
  check(g, s);
}

PBT_PROP(arbitrary, 2)
{
  std::string s;
  const std::size_t n = g.below(20);
  for (std::size_t i = 0; i != n; ++i)
    s += g.flip() ? g.pick({'/', ':', '?', '#', '@', '[', ']', 'a', '1', '*', '.'}) : static_cast<char>(g.below(256));
  g.note("'%s'", printable(s).c_str());
  if (n >= 2) g.nontrivial();
  check(g, s);
}

// All strings of up to four characters over the interesting ones, after each
// of several prefixes.
const char alphabet[] = "a1/:?#@[]%.* g";
enum { A = sizeof(alphabet) - 1, N4 = A * A * A * A + A * A * A + A * A + A + 1 };
const char* const prefixes[] = {"", "a:", "a://", "a://[:", "a://h:655", "a://u@", "/", "a:/b?", "a://[1%25"};
PBT_ENUM(short_strings, 0, N4 * 9ull)
{
  std::uint64_t k = g.below(N4 * 9ull);
  std::string s = prefixes[k % 9];
  k /= 9;
  std::uint64_t count = 1;
  int len = 0;
  while (k >= count) { k -= count; count *= A; ++len; }
  for (int i = 0; i != len; ++i) { s += alphabet[k % A]; k /= A; }
  g.note("'%s'", printable(s).c_str());
  check(g, s);
}

// Every byte value in every position of a typical URL.
const char typical[] = "ab+c://u:p@ho-st.x:8080/p/a?q=1?#f";
PBT_ENUM(single_bytes, 0, (sizeof(typical) - 1) * 512)
{
  const std::uint64_t k = g.below((sizeof(typical) - 1) * 512);
  std::string s = typical;
  const std::size_t p = k / 512;
  if (k % 512 < 256) s[p] = static_cast<char>(k % 256);
  else s.insert(p, 1, static_cast<char>(k % 256));
  g.note("'%s'", printable(s).c_str());
  check(g, s);
}

} // namespace
