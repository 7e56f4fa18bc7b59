// P29: on Windows, permissions, attributes and times are changed as asked, and
// nothing else is.
#include "win_common.hpp"
#include "asioext/chrono.hpp"
using namespace wc;
using asioext::file_perm_options;
using asioext::file_attr_options;
using asioext::file_times;

void pbt::setup(const std::string&) {}

namespace {

typedef asioext::file_clock fc;
fc::time_point ticks(std::uint64_t t) { return fc::time_point(fc::duration((std::int64_t)t)); }
std::uint64_t ticks(fc::time_point t) { return (std::uint64_t)t.time_since_epoch().count(); }

const DWORD mapped = FILE_ATTRIBUTE_HIDDEN | FILE_ATTRIBUTE_SYSTEM | FILE_ATTRIBUTE_NOT_CONTENT_INDEXED;
DWORD native(unsigned a) { return (a & 1 ? FILE_ATTRIBUTE_HIDDEN : 0u) | (a & 2 ? FILE_ATTRIBUTE_SYSTEM : 0u) | (a & 16 ? FILE_ATTRIBUTE_NOT_CONTENT_INDEXED : 0u); }
unsigned portable(DWORD n) { return (n & FILE_ATTRIBUTE_HIDDEN ? 1u : 0u) | (n & FILE_ATTRIBUTE_SYSTEM ? 2u : 0u) | (n & FILE_ATTRIBUTE_NOT_CONTENT_INDEXED ? 16u : 0u); }

std::uint64_t gen_time(Gen& g)
{
  switch (g.below(5)) {
    case 0: return 0;
    case 1: return g.range(1, 1000);
    case 2: return 116444736000000000ull + g.below(40000000000000000ull); // 1970 and later
    case 3: return (std::uint64_t)(((g.range(0, 3) << 30) | g.range(0, 3)) << 32 | g.below(4) * 0x55555555ull) & ~0ull >> 1;
    default: return ~0ull >> 1 >> g.below(63);
  }
}

struct Target
{
  std::shared_ptr<fw::Node> node;
  std::unique_ptr<Obj> obj;
  bool write, closed;
};

// What a function should have left alone.
struct State
{
  DWORD attrs;
  std::uint64_t size, c, a, m;
  explicit State(const fw::Node& n) : attrs(n.attrs), size(n.size), c(n.c), a(n.a), m(n.m) {}
};
void same(const State& x, const fw::Node& n, const char* what)
{
  PBT_CHECK("untouched", x.size == n.size, "%s changed the size", what);
  PBT_CHECK("untouched", x.c == n.c && x.a == n.a && x.m == n.m, "%s changed times", what);
  PBT_CHECK("untouched", x.attrs == n.attrs, "%s changed the attributes from %x to %x", what, x.attrs, n.attrs);
}

} // namespace

PBT_PROP(metadata, 5)
{
  Case c(g);
  std::vector<Target> t(g.range(1, 3));
  for (std::size_t i = 0; i != t.size(); ++i) {
    if (i && g.chance(1, 3)) t[i].node = t[i - 1].node;
    else {
      t[i].node = add("f" + std::to_string(i), g.bytes(g.below(4)));
      DWORD a = 0;
      if (!g.chance(1, 4))
        for (DWORD b : {FILE_ATTRIBUTE_READONLY, FILE_ATTRIBUTE_HIDDEN, FILE_ATTRIBUTE_SYSTEM, FILE_ATTRIBUTE_ARCHIVE, FILE_ATTRIBUTE_TEMPORARY, FILE_ATTRIBUTE_COMPRESSED, FILE_ATTRIBUTE_NOT_CONTENT_INDEXED})
          if (g.chance(1, 3)) a |= b;
      t[i].node->attrs = a;
    }
    t[i].write = !g.chance(1, 6);
    t[i].closed = g.chance(1, 20);
    HANDLE h = INVALID_HANDLE_VALUE;
    if (!t[i].closed) {
      auto o = std::make_shared<fw::Open>();
      o->node = t[i].node;
      o->access = t[i].write ? (g.flip() ? GENERIC_READ | GENERIC_WRITE : GENERIC_WRITE) : GENERIC_READ;
      o->share = 3;
      o->flags = 0;
      h = fw::put(o);
    }
    const int kind = (int)g.below(3);
    g.note("file %zu: %s%s, attributes %x%s%s", i, kind_name(kind), t[i].closed ? ", closed" : t[i].write ? "" : ", not writable", t[i].node->attrs,
           i && t[i].node == t[i - 1].node ? ", the same as the one before" : "", "");
    t[i].obj.reset(t[i].closed ? new Obj(kind, INVALID_HANDLE_VALUE) : new Obj(kind, h));
  }
  int changes = 0, reads = 0;
  const std::size_t steps = g.range(1, 12);
  for (std::size_t k = 0; k != steps; ++k) {
    Target& x = t[g.below(t.size())];
    fw::Node& n = *x.node;
    std::vector<State> before;
    for (auto& y : t) before.emplace_back(*y.node);
    const State was(n);
    if (g.chance(1, 10)) c.w.arm((int)g.range(1, 2), pick_error(g)); else c.w.arm(0, 0);
    // Whether it worked; checks the error otherwise.
    auto outcome = [&](const sys::error_code& ec, bool sets, bool supported) {
      if (!supported) {
        PBT_CHECK("outcome", ec == asio::error::operation_not_supported, "not supported: %s", ec.message().c_str());
        return false;
      }
      if (c.w.fired) { PBT_CHECK("outcome", is_system(ec, c.w.fault_error), "a function failed with %u, but %s", c.w.fault_error, ec.message().c_str()); return false; }
      if (x.closed) { PBT_CHECK("outcome", is_system(ec, ERROR_INVALID_HANDLE), "a closed file: %s", ec.message().c_str()); return false; }
      if (sets && !x.write) { PBT_CHECK("outcome", is_system(ec, ERROR_ACCESS_DENIED), "not writable: %s", ec.message().c_str()); return false; }
      PBT_CHECK("outcome", !ec, "%s", ec.message().c_str());
      return true;
    };
    switch (g.weighted({2, 4, 2, 4, 2, 3, 1})) {
      case 0: {
        const auto r = x.obj->with([&](auto& f) { return call<file_perms>(g, [&] { return f.permissions(); }, [&](sys::error_code& ec) { return f.permissions(ec); }); });
        g.note("permissions: %o, %s", (unsigned)r.value, r.ec.message().c_str());
        const bool ok = outcome(r.ec, false, has_info);
        PBT_CHECK("value", (unsigned)r.value == (!ok ? 0u : n.attrs & FILE_ATTRIBUTE_READONLY ? 0555u : 0777u), "the permissions are %o with the attributes %x", (unsigned)r.value, n.attrs);
        same(was, n, "getting permissions");
        reads += ok;
        break;
      }
      case 1: {
        const unsigned p = g.chance(1, 3) ? (unsigned)g.below(010000) & ~0222u : (unsigned)g.below(010000);
        const auto perms = static_cast<file_perms>(p);
        const int how = (int)g.below(4); // replace by default, replace, add, remove
        const auto opts = how == 3 ? file_perm_options::remove : how == 2 ? file_perm_options::add : file_perm_options::replace;
        const bool none = how >= 2 && !(p & 0222); // nothing to do
        const sys::error_code ec = x.obj->with([&](auto& f) {
          return how == 0 ? call_void(g, [&] { f.permissions(perms); }, [&](sys::error_code& e) { f.permissions(perms, e); })
                          : call_void(g, [&] { f.permissions(perms, opts); }, [&](sys::error_code& e) { f.permissions(perms, opts, e); });
        });
        g.note("%s permissions %o: %s, attributes %x", how < 2 ? "set" : how == 2 ? "add" : "remove", p, ec.message().c_str(), n.attrs);
        bool ok;
        if (none && has_info && !c.w.fired && (x.closed || !x.write)) ok = false; // may fail
        else ok = outcome(ec, true, has_info);
        DWORD want = was.attrs;
        if (ok && !none) want = (how < 2 ? !(p & 0222) : how == 3) ? want | FILE_ATTRIBUTE_READONLY : want & ~FILE_ATTRIBUTE_READONLY;
        PBT_CHECK("permissions", !(n.attrs & FILE_ATTRIBUTE_READONLY) == !(want & FILE_ATTRIBUTE_READONLY), "the file is %s", n.attrs & FILE_ATTRIBUTE_READONLY ? "read-only" : "writable");
        State w = was;
        w.attrs = want;
        same(w, n, "setting permissions");
        changes += ok && want != was.attrs;
        break;
      }
      case 2: {
        const auto r = x.obj->with([&](auto& f) { return call<file_attrs>(g, [&] { return f.attributes(); }, [&](sys::error_code& ec) { return f.attributes(ec); }); });
        g.note("attributes: %u, %s", (unsigned)r.value, r.ec.message().c_str());
        const bool ok = outcome(r.ec, false, has_info);
        // (Whether file_attrs::archive is returned isn't checked.)
        PBT_CHECK("value", ((unsigned)r.value & ~4u) == (ok ? portable(n.attrs) : 0u), "the attributes are %u with the attributes %x", (unsigned)r.value, n.attrs);
        same(was, n, "getting attributes");
        reads += ok;
        break;
      }
      case 3: {
        const unsigned a = g.chance(1, 4) ? 0 : (unsigned)g.below(512) & ~4u;
        const auto attrs = static_cast<file_attrs>(a);
        const int how = (int)g.below(4);
        const auto opts = how == 3 ? file_attr_options::remove : how == 2 ? file_attr_options::add : file_attr_options::replace;
        const sys::error_code ec = x.obj->with([&](auto& f) {
          return how == 0 ? call_void(g, [&] { f.attributes(attrs); }, [&](sys::error_code& e) { f.attributes(attrs, e); })
                          : call_void(g, [&] { f.attributes(attrs, opts); }, [&](sys::error_code& e) { f.attributes(attrs, opts, e); });
        });
        g.note("%s attributes %u: %s, attributes %x", how < 2 ? "set" : how == 2 ? "add" : "remove", a, ec.message().c_str(), n.attrs);
        const bool none = how >= 2 && !native(a);
        bool ok;
        if (none && has_info && !c.w.fired && !x.closed && !x.write) ok = false; // may fail
        else ok = outcome(ec, true, has_info);
        DWORD want = was.attrs;
        if (ok) want = how == 3 ? want & ~native(a) : how == 2 ? want | native(a) : (want & ~mapped) | native(a);
        PBT_CHECK("attributes", (n.attrs & mapped) == (want & mapped), "the attributes are %x instead of %x", n.attrs, want);
        PBT_CHECK("untouched", (n.attrs & FILE_ATTRIBUTE_READONLY) == (was.attrs & FILE_ATTRIBUTE_READONLY), "setting attributes made the file %s", n.attrs & FILE_ATTRIBUTE_READONLY ? "read-only" : "writable");
        State w = was;
        // (What replacing does to other attributes isn't checked.)
        w.attrs = ok && how < 2 ? n.attrs : want;
        same(w, n, "setting attributes");
        changes += ok && want != was.attrs;
        break;
      }
      case 4: {
        const auto r = x.obj->with([&](auto& f) { return call<file_times>(g, [&] { return f.times(); }, [&](sys::error_code& ec) { return f.times(ec); }); });
        g.note("times: %s", r.ec.message().c_str());
        if (outcome(r.ec, false, true)) {
          PBT_CHECK("times", ticks(r.value.ctime) == n.c && ticks(r.value.atime) == n.a && ticks(r.value.mtime) == n.m, "the times are %llu %llu %llu instead of %llu %llu %llu",
                    (unsigned long long)ticks(r.value.ctime), (unsigned long long)ticks(r.value.atime), (unsigned long long)ticks(r.value.mtime), (unsigned long long)n.c, (unsigned long long)n.a, (unsigned long long)n.m);
          ++reads;
        }
        same(was, n, "getting times");
        break;
      }
      case 5: {
        file_times ft;
        const std::uint64_t v[] = {gen_time(g), gen_time(g), gen_time(g)};
        ft.ctime = ticks(v[0]);
        ft.atime = ticks(v[1]);
        ft.mtime = ticks(v[2]);
        const sys::error_code ec = x.obj->with([&](auto& f) { return call_void(g, [&] { f.times(ft); }, [&](sys::error_code& e) { f.times(ft, e); }); });
        g.note("set times %llu %llu %llu: %s", (unsigned long long)v[0], (unsigned long long)v[1], (unsigned long long)v[2], ec.message().c_str());
        State w = was;
        if (!v[0] && !v[1] && !v[2] && !c.w.fired && (x.closed || !x.write)) {} // may fail
        else if (outcome(ec, true, true)) {
          if (v[0]) w.c = v[0];
          if (v[1]) w.a = v[1];
          if (v[2]) w.m = v[2];
          ++changes;
        }
        PBT_CHECK("times", w.c == n.c && w.a == n.a && w.m == n.m, "the times are %llu %llu %llu instead of %llu %llu %llu", (unsigned long long)n.c, (unsigned long long)n.a, (unsigned long long)n.m,
                  (unsigned long long)w.c, (unsigned long long)w.a, (unsigned long long)w.m);
        same(w, n, "setting times");
        break;
      }
      default: {
        // Now is neither before what it was nor after what it becomes.
        c.w.arm(0, 0);
        if (g.flip()) c.w.clock = std::max(c.w.clock, gen_time(g) >> 1);
        const std::uint64_t a = c.w.clock, v = ticks(fc::now());
        PBT_CHECK("now", v > a && v <= c.w.clock, "it is %llu, between %llu and %llu", (unsigned long long)v, (unsigned long long)a, (unsigned long long)c.w.clock);
        g.note("now");
      }
    }
    for (std::size_t i = 0; i != t.size(); ++i) if (t[i].node != x.node) same(before[i], *t[i].node, "changing another file");
  }
  for (auto& y : t)
    if (y.obj->kind == 0 && !y.closed) CloseHandle(y.obj->h);
  if (changes && reads) g.nontrivial();
}

// Conversions from and to time_t.
PBT_PROP(time_t_conversions, 1)
{
  // 100 ns since 1601 fit into 63 bits.
  const std::int64_t most = (std::int64_t)(~0ull >> 1) / 10000000, diff = 11644473600ll;
  std::int64_t s = 0;
  switch (g.below(4)) {
    case 0: s = (std::int64_t)g.below(5000000000ull); break;
    case 1: s = (std::int64_t)g.below(2 * diff) - diff; break; // from 1601
    case 2: s = most - diff - (std::int64_t)g.below(1000); break;
    default: s = (std::int64_t)(g.below((std::uint64_t)(most - diff))); break;
  }
  const auto t = fc::from_time_t((std::time_t)s);
  g.note("%lld s", (long long)s);
  PBT_CHECK("from", (std::int64_t)ticks(t) == (s + diff) * 10000000, "%lld s are %lld ticks", (long long)s, (long long)ticks(t));
  PBT_CHECK("to", fc::to_time_t(t) == (std::time_t)s, "%lld s became %lld s", (long long)s, (long long)fc::to_time_t(t));
  // Parts of a second are dropped.
  const std::uint64_t part = g.below(10000000);
  if (s >= 0 && s < most - diff) PBT_CHECK("to", fc::to_time_t(t + fc::duration((std::int64_t)part)) == (std::time_t)s, "%lld s and %llu ticks became %lld s", (long long)s, (unsigned long long)part, (long long)fc::to_time_t(t + fc::duration((std::int64_t)part)));
  if (s) g.nontrivial();
}
