// P25: error codes and services mean the same in every translation unit.
// P25b.cpp is the other one; both see the library through P25_tu.hpp.
#define TU tu_a
#include "P25_tu.hpp"
#include <map>
#include <thread>
extern const View tu_b;

void pbt::setup(const std::string&) {}

namespace {

const View& tu(int i) { return i ? tu_b : tu_a; }
const int counts[] = {4, 8}; // values defined by each category, from 0 on

int value(Gen& g, int cat)
{
  switch (g.weighted({6, 2, 1})) {
    case 0: return (int)g.below(counts[cat]);
    case 1: return (int)g.range(0, 300) - 20;
    default: return static_cast<int>(g.num(~0u));
  }
}

} // namespace

PBT_PROP(codes, 5)
{
  struct Code { int cat, v, tu; sys::error_code ec; };
  std::vector<Code> codes;
  const std::size_t n = g.range(2, 8);
  for (std::size_t i = 0; i != n; ++i) {
    Code c;
    c.cat = (int)g.below(2);
    c.v = value(g, c.cat);
    c.tu = (int)g.below(2);
    c.ec = tu(c.tu).make(c.cat, c.v);
    g.note("code %zu: category %d, value %d, unit %d", i, c.cat, c.v, c.tu);
    if (g.chance(1, 4)) { // it takes a trip
      const int thrower = (int)g.below(2), catcher = (int)g.below(2);
      sys::error_code out;
      const int r = tu(catcher).catch_it(tu(thrower).throw_it, c.ec, out);
      g.note("  thrown by unit %d, caught by %d", thrower, catcher);
      PBT_CHECK("thrown", r == (c.v != 0), "throw_error(%d) of category %d: %d", c.v, c.cat, r);
      if (r) c.ec = out;
    }
    if (g.chance(1, 8)) { // in another thread
      sys::error_code other;
      std::thread([&] { other = tu(1 - c.tu).make(c.cat, c.v); }).join();
      PBT_CHECK("thread", other == c.ec);
    }
    codes.push_back(c);
  }
  bool across = false;
  for (auto& a : codes) {
    PBT_CHECK("value", a.ec.value() == a.v && bool(a.ec) == (a.v != 0), "%d", a.ec.value());
    const int t = (int)g.below(2);
    PBT_CHECK("category", static_cast<const void*>(&a.ec.category()) == tu(t).category(a.cat), "a code of unit %d isn't of the category unit %d knows", a.tu, t);
    PBT_CHECK("name", !tu(t).category_name(a.cat).empty() && tu(t).category_name(a.cat) == a.ec.category().name());
    PBT_CHECK("names-differ", tu(t).category_name(0) != tu(t).category_name(1));
    const std::string m = tu(t).message(a.ec);
    PBT_CHECK("message", !m.empty() && m == tu(1 - t).message(a.ec) && m == a.ec.category().message(a.v), "'%s'", m.c_str());
    // no two defined values share a message, and other values have none of theirs
    for (int v = 0; v != counts[a.cat]; ++v) {
      if (v != a.v) PBT_CHECK("message-distinct", tu(t).message(tu(t).make(a.cat, v)) != m, "values %d and %d of category %d both say '%s'", v, a.v, a.cat, m.c_str());
      PBT_CHECK("is", tu(t).is(a.ec, a.cat, v) == (v == a.v), "value %d", v);
      PBT_CHECK("is-not", !tu(t).is(a.ec, 1 - a.cat, v));
    }
    for (auto& b : codes) {
      const bool same = a.cat == b.cat && a.v == b.v;
      PBT_CHECK("equal", (a.ec == b.ec) == same && (a.ec != b.ec) == !same, "category %d value %d, category %d value %d", a.cat, a.v, b.cat, b.v);
      PBT_CHECK("order", (a.ec < b.ec) + (b.ec < a.ec) == !same);
      if (same) PBT_CHECK("condition", a.ec == b.ec.default_error_condition());
      across |= same && a.tu != b.tu;
    }
    PBT_CHECK("others", a.v == 0 || (a.ec != sys::error_code(a.v, sys::system_category()) && a.ec != sys::error_code(a.v, sys::generic_category())));
    if (a.v < 0 || a.v >= counts[a.cat]) g.label("undefined-value");
  }
  if (across) g.nontrivial();
}

// Errors that come out of the library are what the units take them to be.
PBT_PROP(produced, 2)
{
  static const char* const urls[] = {"http:///p", "http://h:99999/", "http://h:x/", "h ttp://h/", "http://h/", "", "//", "http://", "http://[::1", "ftp://u@h:65536"};
  const std::string u = g.chance(3, 4) ? std::string(g.pick(urls)) : "http://" + g.bytes(g.below(6)) + "/";
  const sys::error_code a = tu_a.parse(u), b = tu_b.parse(u);
  PBT_CHECK("parse", a == b, "'%s': unit 0: %s, unit 1: %s", u.c_str(), a.message().c_str(), b.message().c_str());
  if (!a) return;
  PBT_CHECK("url-category", static_cast<const void*>(&a.category()) == tu_b.category(0) && a.value() > 0 && a.value() < counts[0]);
  PBT_CHECK("url-is", tu_b.is(a, 0, a.value()) && tu_a.is(b, 0, a.value()));
  g.note("'%s': %s", u.c_str(), a.message().c_str());
  g.nontrivial();
}

// There's one file service per execution context, whichever unit asks first.
PBT_PROP(services, 1)
{
  const std::size_t n = g.range(1, 3);
  std::vector<std::unique_ptr<asio::io_context>> io;
  for (std::size_t i = 0; i != n; ++i) io.emplace_back(new asio::io_context);
  std::map<std::size_t, const void*> seen;
  bool first[2] = {false, false};
  for (std::size_t i = g.range(2, 6); i != 0; --i) {
    const std::size_t c = g.below(n);
    const int t = (int)g.below(2);
    g.note("context %zu, unit %d", c, t);
    const void* s = tu(t).service(*io[c]);
    auto it = seen.find(c);
    if (it == seen.end()) {
      for (auto& x : seen) PBT_CHECK("shared", x.second != s, "two contexts share a file service");
      seen[c] = s;
      first[t] = true;
    } else {
      PBT_CHECK("service", it->second == s, "the units don't agree on the context's file service");
      g.nontrivial();
    }
  }
}
