// P28: on Windows, opening honours disposition, access, sharing, permissions,
// attributes and names; handles are closed exactly once.
#include "win_common.hpp"
#include "asioext/duplicate.hpp"
#include "asioext/standard_streams.hpp"
#include <new>
#include <set>
using namespace wc;

void pbt::setup(const std::string&) {}

namespace { bool no_memory = false; }

void* operator new[](std::size_t n, const std::nothrow_t&) noexcept
{
  if (no_memory) return nullptr;
  try { return ::operator new[](n); } catch (...) { return nullptr; }
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
  if (no_memory) return nullptr;
  try { return ::operator new(n); } catch (...) { return nullptr; }
}

namespace {

#if defined(ASIOEXT_WINDOWS_USE_UTF8_FILENAMES) || defined(ASIOEXT_WINDOWS_APP)
const bool utf8 = true;
#else
const bool utf8 = false;
#endif

struct Text
{
  std::string narrow;
  std::wstring wide;
  fw::Name units;
  bool ascii = true;
};

void append(Text& t, std::uint32_t c)
{
  if (!utf8) { // Latin-1
    c = c % 255 + 1;
    t.narrow += (char)c;
    t.wide += (wchar_t)c;
    t.units += (char32_t)c;
    return;
  }
  if (c < 0x80) t.narrow += (char)c;
  else if (c < 0x800) { t.narrow += (char)(0xc0 | c >> 6); t.narrow += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { t.narrow += (char)(0xe0 | c >> 12); t.narrow += (char)(0x80 | (c >> 6 & 63)); t.narrow += (char)(0x80 | (c & 63)); }
  else { t.narrow += (char)(0xf0 | c >> 18); t.narrow += (char)(0x80 | (c >> 12 & 63)); t.narrow += (char)(0x80 | (c >> 6 & 63)); t.narrow += (char)(0x80 | (c & 63)); }
  if (c < 0x10000) t.units += (char32_t)c;
  else { t.units += (char32_t)(0xd800 + ((c - 0x10000) >> 10)); t.units += (char32_t)(0xdc00 + ((c - 0x10000) & 0x3ff)); }
  t.wide.clear();
  for (char32_t u : t.units) t.wide += (wchar_t)u;
  t.ascii = t.ascii && c < 0x80;
}

Text gen_name(Gen& g)
{
  static const std::uint32_t chars[] = {'a', 'b', '.', ' ', 0x7f, 0x80, 0xe4, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff};
  Text t;
  std::size_t n = g.chance(1, 20) ? 0 : g.range(1, 5);
  if (g.chance(1, 3)) n = g.flip() ? g.range(254, 266) : g.range(86, 90);
  if (g.chance(1, 20)) n = g.range(200, 700);
  const std::size_t from = g.chance(1, 3) ? 1 : 16;
  std::string one;
  if (n > 5) {
    // A long name mostly repeats one character.
    Text c;
    const std::uint32_t u = chars[g.below(from)];
    append(c, u);
    for (std::size_t i = 0; i + 2 < n; ++i) { t.narrow += c.narrow; t.units += c.units; }
    t.ascii = c.ascii;
    for (char32_t u2 : t.units) t.wide += (wchar_t)u2;
    n = 2;
  }
  for (std::size_t i = 0; i != n; ++i) append(t, chars[g.below(from)]);
  return t;
}

// What opening should do, from the flags' documentation.
struct Expected
{
  bool valid;
  DWORD access, share, disposition, attrs;
};

Expected expect(unsigned flags, unsigned perms, unsigned attrs)
{
  Expected e{};
  const unsigned d = flags >> 2 & 31;
  static const DWORD dispositions[] = {CREATE_NEW, CREATE_ALWAYS, OPEN_EXISTING, OPEN_ALWAYS, TRUNCATE_EXISTING};
  e.valid = d && !(d & (d - 1));
  for (int i = 0; i != 5; ++i) if (d == 1u << i) e.disposition = dispositions[i];
  e.access = (flags & 1 ? GENERIC_READ : 0u) | (flags & 2 ? GENERIC_WRITE : 0u);
  e.share = (flags & 128 ? 0u : FILE_SHARE_READ) | (flags & 256 ? 0u : FILE_SHARE_WRITE);
  e.attrs = (attrs & 1 ? FILE_ATTRIBUTE_HIDDEN : 0u) | (attrs & 2 ? FILE_ATTRIBUTE_SYSTEM : 0u) | (attrs & 16 ? FILE_ATTRIBUTE_NOT_CONTENT_INDEXED : 0u) |
            (perms & 0222 ? 0u : FILE_ATTRIBUTE_READONLY);
  return e;
}

// A copy of the file system.
struct Copy
{
  fw::World w;
  explicit Copy(const fw::World& o)
  {
    std::map<const fw::Node*, std::shared_ptr<fw::Node>> nodes;
    auto copy = [&](const std::shared_ptr<fw::Node>& n) { auto& r = nodes[n.get()]; if (!r) r = std::make_shared<fw::Node>(*n); return r; };
    for (auto& n : o.names) w.names[n.first] = copy(n.second);
    for (auto& h : o.handles) { auto c = std::make_shared<fw::Open>(*h.second); c->node = copy(h.second->node); w.handles[h.first] = c; }
    w.next_handle = o.next_handle;
  }
};

struct Slot
{
  asioext::unique_file_handle h;
  std::unique_ptr<asioext::file> f; // or this
  HANDLE native = INVALID_HANDLE_VALUE;
};

struct History
{
  Gen& g;
  Case c;
  std::vector<Text> names;
  std::vector<Slot> slots;
  std::set<HANDLE> open; // handles that should be open
  int opened = 0, failed = 0;

  explicit History(Gen& gen) : g(gen), c(gen) {}
  ~History() { fw::world->arm(0, 0); slots.clear(); }

  void settle(const char* after)
  {
    bool same = fw::world->handles.size() == open.size();
    for (HANDLE h : open) same = same && fw::get(h);
    PBT_CHECK("handles", same, "%s: %zu handles are open instead of %zu, or others", after, fw::world->handles.size(), open.size());
    for (Slot& s : slots) {
      const bool is = s.native != INVALID_HANDLE_VALUE;
      PBT_CHECK("object", (s.f ? s.f->is_open() : s.h.is_open()) == is, "%s: is_open() is %d", after, !is);
      PBT_CHECK("object", (s.f ? (HANDLE)s.f->native_handle() : (HANDLE)s.h.get().native_handle()) == s.native, "%s: another native handle", after);
    }
  }
  // Fails, or doesn't, the next function.
  void arm(int most)
  {
    if (g.chance(1, 8)) fw::world->arm((int)g.range(1, most), pick_error(g)); else fw::world->arm(0, 0);
  }
  void do_open();
  void do_close();
  void do_duplicate();
  void do_move();
  void do_destroy();
  void do_use();
};

void History::do_open()
{
  if (slots.size() >= 6) return;
  if (names.size() < 4 && (names.empty() || g.flip())) names.push_back(gen_name(g));
  const Text& name = names[g.below(names.size())];
  static const unsigned disp[] = {4, 8, 16, 32, 64};
  const unsigned flags = (g.chance(1, 8) ? (unsigned)g.below(32) << 2 : disp[g.below(5)]) | (g.chance(1, 3) ? (unsigned)g.below(4) : 3u) |
                         (g.chance(1, 3) ? (unsigned)g.below(4) << 7 : 0u);
  const unsigned perms = g.chance(1, 2) ? 0666u : g.chance(1, 2) ? (unsigned)g.below(01000) : (unsigned)g.below(01000) & ~0222u;
  const unsigned attrs = g.chance(1, 2) ? 0u : (unsigned)g.below(512);
  const bool wide = g.flip();
  const auto F = static_cast<open_flags>(flags);
  const auto P = static_cast<file_perms>(perms);
  const auto A = static_cast<file_attrs>(attrs);
  const Expected e = expect(flags, perms, attrs);
  const asioext::open_args args(F, P, A);
  const unsigned d = flags >> 2 & 31;
  PBT_CHECK("valid", (d & (d - 1)) ? !args.is_valid() && !asioext::is_valid(F) : args.is_valid() && asioext::is_valid(F), "is_valid() for flags %u", flags);

  const bool oom = !wide && g.chance(1, 10);
  Copy expected(c.w);
  Copy before(c.w);
  arm(2);
  // What happens without faults.
  HANDLE eh = INVALID_HANDLE_VALUE;
  DWORD ee = 0;
  {
    fw::world = &expected.w;
    if (e.valid) eh = fw::create(name.units, e.access, e.share, e.disposition, e.attrs, 0, "open");
    if (eh == INVALID_HANDLE_VALUE && e.valid) ee = expected.w.failures.back();
    fw::world = &c.w;
  }
  Slot s;
  const int form = (int)g.below(4);
  no_memory = oom;
  sys::error_code ec;
  auto run = [&](auto n) {
    switch (form) {
      case 0: { auto r = call<asioext::unique_file_handle>(g, [&] { return asioext::open(n, args); }, [&](sys::error_code& x) { return asioext::open(n, args, x); }); s.h = std::move(r.value); ec = r.ec; break; }
      case 1: { ec = call_void(g, [&] { s.f.reset(new asioext::file(context(), n, args)); }, [&](sys::error_code& x) { s.f.reset(new asioext::file(context(), n, args, x)); }); break; }
      case 2: { s.f.reset(new asioext::file(context())); ec = call_void(g, [&] { s.f->open(n, args); }, [&](sys::error_code& x) { s.f->open(n, args, x); }); break; }
      default: {
        if (!slots.empty() && slots[0].f && slots[0].f->is_open() && g.chance(1, 2)) {
          // through an open file
          ec = call_void(g, [&] { slots[0].f->open(n, args); }, [&](sys::error_code& x) { slots[0].f->open(n, args, x); });
          PBT_CHECK("already-open", ec == asio::error::already_open, "opening an open file: %s", ec.message().c_str());
          eh = INVALID_HANDLE_VALUE;
          ee = ~0u;
          expected.w.names = before.w.names;
          break;
        }
        auto r = call<asioext::unique_file_handle>(g, [&] { return asioext::open(n, asioext::open_args(F, P, A)); }, [&](sys::error_code& x) { return asioext::open(n, asioext::open_args(F, P, A), x); });
        s.h = std::move(r.value);
        ec = r.ec;
      }
    }
  };
  if (wide) run(name.wide.c_str()); else run(name.narrow.c_str());
  no_memory = false;
  std::string shown = name.ascii ? name.narrow : "non-ascii";
  g.note("open %s (%zu bytes, %zu units), flags %u, permissions %o, attributes %u, form %d%s%s: %s", shown.substr(0, 8).c_str(), name.narrow.size(), name.units.size(), flags, perms, attrs, form,
         wide ? ", wide" : "", fw::world->fired ? ", failing" : oom ? ", without memory" : "", ec.message().c_str());
  const bool excused = ec && ((fw::world->fired && is_system(ec, fw::world->fault_error)) || (oom && ec == asio::error::no_memory && name.narrow.size() > 100));
  if (ee == ~0u || excused) {
    expected.w.names = before.w.names;
    eh = INVALID_HANDLE_VALUE;
    if (oom && excused) g.label("no-memory");
  } else if (eh != INVALID_HANDLE_VALUE) {
    PBT_CHECK("outcome", !ec, "opening failed with %s", ec.message().c_str());
  } else {
    PBT_CHECK("outcome", ec, "opening should have failed with %u", ee);
    if (e.valid && (!name.units.empty())) PBT_CHECK("outcome", is_system(ec, ee), "opening failed with %s %d instead of %u", ec.category().name(), ec.value(), ee);
    ++failed;
  }
  if (!ec) {
    s.native = s.f ? (HANDLE)s.f->native_handle() : (HANDLE)s.h.get().native_handle();
    const auto o = fw::get(s.native);
    PBT_CHECK("handle", o && !open.count(s.native), "opening gave no new handle");
    PBT_CHECK("access", fw::can_read(*o) == !!(flags & 1) && fw::can_write(*o) == !!(flags & 2), "the handle has other access rights");
    PBT_CHECK("sharing", (o->share & 3) == e.share, "the file is shared otherwise");
    PBT_CHECK("position", o->pos == 0);
    PBT_CHECK("synchronous", !(o->flags & FILE_FLAG_OVERLAPPED));
    open.insert(s.native);
    ++opened;
  } else PBT_CHECK("closed", s.native == INVALID_HANDLE_VALUE);
  // The files are as they should be.
  PBT_CHECK("files", c.w.names.size() == expected.w.names.size(), "%zu files instead of %zu", c.w.names.size(), expected.w.names.size());
  for (auto& n : expected.w.names) {
    auto it = c.w.names.find(n.first);
    PBT_CHECK("files", it != c.w.names.end(), "a file has another name");
    const fw::Node &x = *it->second, &y = *n.second;
    PBT_CHECK("files", x.size == y.size && x.data == y.data, "a file has another size or other contents");
    PBT_CHECK("attributes", x.attrs == y.attrs, "a file has the attributes %x instead of %x", x.attrs, y.attrs);
  }
  slots.push_back(std::move(s));
}

void History::do_close()
{
  if (slots.empty()) return;
  Slot& s = slots[g.below(slots.size())];
  arm(1);
  const bool was = s.native != INVALID_HANDLE_VALUE;
  const sys::error_code ec = s.f ? call_void(g, [&] { s.f->close(); }, [&](sys::error_code& x) { s.f->close(x); })
                                 : call_void(g, [&] { s.h.close(); }, [&](sys::error_code& x) { s.h.close(x); });
  g.note("close %s%s: %s", was ? "an open one" : "a closed one", fw::world->fired ? ", failing" : "", ec.message().c_str());
  if (!was) PBT_CHECK("outcome", !ec && fw::world->calls == 0, "closing nothing: %s", ec.message().c_str());
  else if (fw::world->fired) { PBT_CHECK("outcome", is_system(ec, fw::world->fault_error), "%s", ec.message().c_str()); }
  else { PBT_CHECK("outcome", !ec, "%s", ec.message().c_str()); open.erase(s.native); }
  s.native = INVALID_HANDLE_VALUE;
}

void History::do_duplicate()
{
  if (slots.empty() || slots.size() >= 6) return;
  Slot& s = slots[g.below(slots.size())];
  if (s.f) return;
  arm(1);
  auto r = call<asioext::unique_file_handle>(g, [&] { return asioext::duplicate(s.h.get()); }, [&](sys::error_code& x) { return asioext::duplicate(s.h.get(), x); });
  g.note("duplicate %s%s: %s", s.native != INVALID_HANDLE_VALUE ? "an open one" : "a closed one", fw::world->fired ? ", failing" : "", r.ec.message().c_str());
  Slot n;
  if (fw::world->fired || s.native == INVALID_HANDLE_VALUE) {
    PBT_CHECK("outcome", r.ec && reported(r.ec), "%s", r.ec.message().c_str());
    PBT_CHECK("handle", !r.value.is_open(), "a failed duplication returned an open handle");
  } else {
    PBT_CHECK("outcome", !r.ec, "%s", r.ec.message().c_str());
    n.native = (HANDLE)r.value.get().native_handle();
    PBT_CHECK("handle", n.native != s.native && !open.count(n.native) && fw::get(n.native), "no new handle");
    PBT_CHECK("handle", fw::get(n.native) == fw::get(s.native), "the duplicate has another position or other access rights");
    open.insert(n.native);
    g.label("duplicated");
  }
  n.h = std::move(r.value);
  slots.push_back(std::move(n));
}

void History::do_move()
{
  if (slots.empty()) return;
  Slot& s = slots[g.below(slots.size())];
  Slot& d = slots[g.below(slots.size())];
  if (&s == &d || !s.f != !d.f) return;
  fw::world->arm(0, 0);
  if (s.f) *d.f = std::move(*s.f); else d.h = std::move(s.h);
  if (d.native != INVALID_HANDLE_VALUE) open.erase(d.native);
  d.native = s.native;
  s.native = INVALID_HANDLE_VALUE;
  PBT_CHECK("closed-once", fw::world->failures.empty(), "%s failed with %u", fw::world->api.c_str(), fw::world->failures.back());
  g.note("move");
}

void History::do_destroy()
{
  if (slots.empty()) return;
  const std::size_t i = g.below(slots.size());
  fw::world->arm(0, 0);
  if (slots[i].native != INVALID_HANDLE_VALUE) {
    if (!slots[i].f && g.chance(1, 4)) {
      // keeps the handle open
      const HANDLE h = (HANDLE)slots[i].h.release().native_handle();
      PBT_CHECK("released", h == slots[i].native && fw::get(h));
      CloseHandle(h);
      g.note("release");
    }
    open.erase(slots[i].native);
  }
  slots.erase(slots.begin() + i);
  PBT_CHECK("closed-once", fw::world->failures.empty(), "%s failed with %u", fw::world->api.c_str(), fw::world->failures.back());
  g.note("destroy");
}

void History::do_use()
{
  if (slots.empty()) return;
  Slot& s = slots[g.below(slots.size())];
  fw::world->arm(0, 0);
  char x = 'x';
  sys::error_code ec = stale(g);
  const bool read = g.flip();
  const std::size_t n = s.f ? (read ? s.f->read_some(asio::buffer(&x, 1), ec) : s.f->write_some(asio::buffer(&x, 1), ec))
                            : (read ? s.h.read_some(asio::buffer(&x, 1), ec) : s.h.write_some(asio::buffer(&x, 1), ec));
  g.note("%s: %zu, %s", read ? "read" : "write", n, ec.message().c_str());
  if (s.native == INVALID_HANDLE_VALUE) PBT_CHECK("outcome", n == 0 && is_system(ec, ERROR_INVALID_HANDLE), "using a closed file: %s", ec.message().c_str());
}

} // namespace

PBT_PROP(history, 6)
{
  History t(g);
  // Some files with attributes of their own.
  const std::size_t n = g.below(3);
  for (std::size_t i = 0; i != n; ++i) {
    t.names.push_back(gen_name(g));
    if (t.names.back().units.empty()) continue;
    auto f = add("tmp", g.bytes(g.below(10)));
    f->attrs = (DWORD)(g.flip() ? FILE_ATTRIBUTE_ARCHIVE : g.pick({0u, FILE_ATTRIBUTE_READONLY, FILE_ATTRIBUTE_HIDDEN, FILE_ATTRIBUTE_SYSTEM, FILE_ATTRIBUTE_ARCHIVE | FILE_ATTRIBUTE_COMPRESSED}));
    fw::world->names.erase(name16("tmp"));
    fw::world->names[t.names.back().units] = f;
    g.note("file %zu: attributes %x", i, f->attrs);
  }
  const std::size_t steps = g.range(1, 14);
  for (std::size_t i = 0; i != steps; ++i) {
    switch (g.weighted({8, 2, 2, 2, 2, 2})) {
      case 0: t.do_open(); break;
      case 1: t.do_close(); break;
      case 2: t.do_duplicate(); break;
      case 3: t.do_move(); break;
      case 4: t.do_destroy(); break;
      default: t.do_use(); break;
    }
    t.settle("the operation");
  }
  fw::world->arm(0, 0);
  for (auto& s : t.slots) if (s.native != INVALID_HANDLE_VALUE) t.open.erase(s.native);
  t.slots.clear();
  t.settle("the end");
  if (t.failed) g.label("failed");
  if (t.opened >= 2) g.nontrivial();
}

// Names that aren't UTF-8 are converted as the system does it, or refused.
PBT_PROP(other_names, 1)
{
  Case c(g);
  std::string n;
  const std::size_t len = g.chance(1, 3) ? g.range(255, 265) : g.range(1, 10);
  while (n.size() < len) n += g.chance(1, 3) ? (char)g.range(1, 255) : 'a';
  fw::world->arm(0, 0);
  sys::error_code ec = stale(g);
  auto h = asioext::open(n.c_str(), open_flags::create_new | open_flags::access_write, ec);
  g.note("name of %zu bytes: %s", n.size(), ec.message().c_str());
  PBT_CHECK("outcome", ec ? !h.is_open() && c.w.names.empty() && c.w.handles.empty() : h.is_open() && c.w.names.size() == 1 && c.w.handles.size() == 1, "%s", ec.message().c_str());
  if (!ec) {
    // The same name finds the same file.
    sys::error_code e2 = stale(g);
    auto h2 = asioext::open(n.c_str(), open_flags::open_existing | open_flags::access_read, e2);
    PBT_CHECK("outcome", !e2 && c.w.names.size() == 1, "opening the file again: %s", e2.message().c_str());
    const fw::Name& u = c.w.names.begin()->first;
    for (std::size_t i = 0; i < u.size() && i < n.size() && (unsigned char)n[i] < 0x80; ++i) PBT_CHECK("name", u[i] == (char32_t)n[i], "the file has another name");
    g.nontrivial();
  }
}

PBT_PROP(standard_streams, 1)
{
  Case c(g);
  auto n = add("a", "");
  int valid = 0;
  for (int i = 0; i != 3; ++i) {
    if (g.chance(1, 3)) { c.w.std_errors[i] = pick_error(g); continue; }
    auto o = std::make_shared<fw::Open>();
    o->node = n;
    o->access = GENERIC_READ | GENERIC_WRITE;
    o->share = 3;
    o->flags = 0;
    c.w.std_handles[i] = fw::put(o);
    ++valid;
  }
  for (int k = 0; k != 4; ++k) {
    const int i = (int)g.below(3);
    fw::world->arm(0, 0);
    const auto r = i == 0 ? call<asioext::file_handle>(g, [] { return asioext::get_stdin(); }, [](sys::error_code& ec) { return asioext::get_stdin(ec); })
                 : i == 1 ? call<asioext::file_handle>(g, [] { return asioext::get_stdout(); }, [](sys::error_code& ec) { return asioext::get_stdout(ec); })
                          : call<asioext::file_handle>(g, [] { return asioext::get_stderr(); }, [](sys::error_code& ec) { return asioext::get_stderr(ec); });
    g.note("stream %d: %s", i, r.ec.message().c_str());
#if defined(ASIOEXT_WINDOWS_APP)
    PBT_CHECK("outcome", r.ec == asio::error::operation_not_supported && !r.value.is_open(), "an app has no standard streams: %s", r.ec.message().c_str());
#else
    if (c.w.std_handles[i] == INVALID_HANDLE_VALUE) PBT_CHECK("outcome", is_system(r.ec, c.w.std_errors[i]) && !r.value.is_open(), "%s", r.ec.message().c_str());
    else PBT_CHECK("outcome", !r.ec && (HANDLE)r.value.native_handle() == c.w.std_handles[i], "%s, or another handle", r.ec.message().c_str());
#endif
  }
  PBT_CHECK("handles", (int)c.w.handles.size() == valid, "a standard stream was closed");
  g.nontrivial();
}
