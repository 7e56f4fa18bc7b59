// Generator of well-formed URLs and a reference parser, both written from the
// property's text (RFC 3986 with the restrictions the parser documents).
#pragma once
#include "compat.hpp"
#include "asioext/url_view.hpp"
#include <memory>

struct Parts
{
  bool ok = false;
  std::string scheme, userinfo, host, port, path, query, fragment;
  bool has_port = false;
};

inline bool is_alpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool is_digit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool is_alnum(unsigned char c) { return is_alpha(c) || is_digit(c); }
inline bool in(unsigned char c, const char* s) { return c && strchr(s, c); }
// characters of paths, queries and fragments (other than '?' and '#')
inline bool is_uchar(unsigned char c) { return (c > 32 && c < 127 && c != '#' && c != '?') || c == 9 || c == 12; }
inline bool is_userchar(unsigned char c) { return is_alnum(c) || in(c, "-_.!~*'()%;:&=+$,"); }
inline bool is_hexd(unsigned char c) { return is_digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }

template <typename F>
bool all(std::string_view s, F f)
{ for (unsigned char c : s) if (!f(c)) return false; return true; }

inline bool ref_authority(std::string_view a, Parts& p)
{
  if (!all(a, [](unsigned char c) { return is_userchar(c) || in(c, "[]@"); })) return false;
  const auto at = a.find('@');
  if (at != a.npos) {
    p.userinfo = std::string(a.substr(0, at));
    if (!all(p.userinfo, is_userchar)) return false;
    a.remove_prefix(at + 1);
    if (a.empty()) return false; // host missing
  }
  std::size_t n;
  if (!a.empty() && a[0] == '[') {
    const auto e = a.find(']');
    if (e == a.npos) return false;
    std::string_view lit = a.substr(1, e - 1);
    std::size_t i = 0;
    while (i < lit.size() && (is_hexd(lit[i]) || lit[i] == ':' || lit[i] == '.')) ++i;
    if (i != lit.size()) {
      if (lit.substr(i, 3) != "%25") return false;
      if (!all(lit.substr(i + 3), [](unsigned char c) { return is_alnum(c) || in(c, "%.-_~"); })) return false;
    }
    n = e + 1;
  } else {
    n = std::min(a.find(':'), a.size());
    if (!all(a.substr(0, n), [](unsigned char c) { return is_alnum(c) || in(c, ".-_"); })) return false;
  }
  p.host = std::string(a.substr(0, n));
  a.remove_prefix(n);
  if (a.empty()) return true;
  if (a[0] != ':') return false;
  a.remove_prefix(1);
  if (a.size() > 5 || !all(a, is_digit)) return false;
  if (!a.empty() && atoi(std::string(a).c_str()) > 65535) return false;
  p.port = std::string(a);
  p.has_port = !a.empty();
  return true;
}

inline Parts ref_parse(std::string_view s)
{
  Parts p;
  if (s.empty()) { p.ok = true; return p; }
  std::string_view r = s;
  if (s[0] != '/' && s[0] != '*') {
    if (!is_alpha(s[0])) return p;
    std::size_t i = 0;
    while (i < s.size() && (is_alnum(s[i]) || in(s[i], "+-."))) ++i;
    p.scheme = std::string(s.substr(0, i));
    if (i == s.size()) { p.ok = true; return p; }
    if (s[i] != ':') return p;
    r = s.substr(i + 1);
    if (r.substr(0, 2) == "//") {
      r.remove_prefix(2);
      const std::size_t e = std::min(r.find_first_of("/?#"), r.size());
      const auto a = r.substr(0, e);
      if (!a.empty() && !ref_authority(a, p)) return p;
      r.remove_prefix(e);
    }
  }
  std::size_t e = std::min(r.find_first_of("?#"), r.size());
  p.path = std::string(r.substr(0, e));
  if (!all(p.path, is_uchar)) return p;
  r.remove_prefix(e);
  if (!r.empty() && r[0] == '?') {
    r.remove_prefix(1);
    e = std::min(r.find('#'), r.size());
    p.query = std::string(r.substr(0, e));
    if (!all(p.query, [](unsigned char c) { return is_uchar(c) || c == '?'; })) return p;
    r.remove_prefix(e);
  }
  if (!r.empty()) { // '#'
    r.remove_prefix(1);
    while (!r.empty() && r[0] == '#') r.remove_prefix(1);
    p.fragment = std::string(r);
    if (!all(p.fragment, [](unsigned char c) { return is_uchar(c) || c == '?' || c == '#'; })) return p;
  }
  p.ok = true;
  return p;
}

inline std::string chars(Gen& g, std::size_t n, bool (*f)(unsigned char))
{
  static std::map<void*, std::string> sets;
  std::string& set = sets[reinterpret_cast<void*>(f)];
  if (set.empty()) for (int c = 1; c < 256; ++c) if (f(static_cast<unsigned char>(c))) set += static_cast<char>(c);
  std::string r;
  for (std::size_t i = 0; i != n; ++i) r += set[g.below(set.size())];
  return r;
}
inline std::size_t small_len(Gen& g, std::size_t lo = 0)
{ return lo + (g.chance(1, 12) ? g.below(200) : g.below(9)); }

inline std::string gen_scheme(Gen& g)
{
  static const char* const known[] = {"http", "https", "ftp", "file", "ws", "wss", "socks5", "socks4a", "ssh", "h", "httpx", "htt", "ftps"};
  std::string s;
  if (g.flip()) s = g.pick(known);
  else {
    s = chars(g, 1, is_alpha) + chars(g, small_len(g), [](unsigned char c) { return is_alnum(c) || in(c, "+-."); });
    std::string l = s;
    for (auto& c : l) c = static_cast<char>(tolower(c));
    if (l == "http" || l == "https" || l == "ftp") s = l;
  }
  return s;
}

inline std::string gen_host(Gen& g)
{
  switch (g.below(4)) {
    case 0: return g.pick({std::string("example.com"), std::string("localhost"), std::string("a"), std::string("x_y-z.0")});
    case 1: return pbt::strf("%d.%d.%d.%d", int(g.below(256)), int(g.below(256)), int(g.below(256)), int(g.below(256)));
    case 2: {
      std::string s = "[";
      s += g.pick({std::string("::1"), std::string("fe80::ABcd:12"), std::string("::ffff:1.2.3.4"), std::string("1:2:3:4:5:6:7:8"), std::string("::")});
      if (g.chance(1, 3))
        s += "%25" + chars(g, small_len(g, 1), [](unsigned char c) { return is_alnum(c) || in(c, ".-_~"); });
      return s + "]";
    }
    default: return chars(g, small_len(g, 1), [](unsigned char c) { return is_alnum(c) || in(c, ".-_"); });
  }
}

// Assembles a URL; fills in the expected parts.
inline std::string gen_url(Gen& g, Parts& p)
{
  p = Parts();
  p.ok = true;
  std::string s;
  p.scheme = gen_scheme(g);
  s = p.scheme + ":";
  const auto kind = g.weighted({10, 2, 2, 1});
  if (kind == 0) { // with authority
    s += "//";
    if (g.flip()) {
      p.userinfo = chars(g, small_len(g), is_userchar);
      s += p.userinfo + "@";
    }
    p.host = gen_host(g);
    s += p.host;
    if (g.flip()) {
      s += ":";
      if (!g.chance(1, 8)) {
        p.has_port = true;
        p.port = std::to_string(g.num(65535));
        while (p.port.size() < 5 && g.chance(1, 4)) p.port = "0" + p.port;
      }
      s += p.port;
    }
    if (g.chance(2, 3)) p.path = "/" + chars(g, small_len(g), is_uchar);
  } else if (kind == 1) { // empty authority
    s += "//";
    p.path = "/" + chars(g, small_len(g), is_uchar);
  } else if (kind == 2) { // absolute path without authority
    p.path = "/" + chars(g, small_len(g), is_uchar);
    if (p.path.size() > 1 && p.path[1] == '/') p.path[1] = 'x';
  } else { // anything else
    p.path = chars(g, small_len(g), is_uchar);
    if (!p.path.empty() && p.path[0] == '/') p.path[0] = 'x';
  }
  s += p.path;
  if (g.flip()) {
    p.query = chars(g, small_len(g), [](unsigned char c) { return is_uchar(c) || c == '?'; });
    s += "?" + p.query;
  }
  if (g.flip()) {
    p.fragment = chars(g, small_len(g), [](unsigned char c) { return is_uchar(c) || c == '?'; });
    s += "#" + p.fragment;
  }
  return s;
}

inline std::string printable(std::string_view s)
{
  std::string r;
  for (unsigned char c : s) r += c < 32 || c > 126 ? pbt::strf("\\x%02x", c) : std::string(1, static_cast<char>(c));
  return r;
}
