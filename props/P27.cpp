// P27: on Windows, reads, writes, seeks and sizes match a byte array, too.
#include "win_common.hpp"
#include "asioext/read_file.hpp"
#include "asioext/write_file.hpp"
#include <array>
#include <future>
using namespace wc;

void pbt::setup(const std::string&) {}

namespace {

const std::size_t room = 4096; // of the memory behind each transfer's buffers

// The file as it should be.
struct Model
{
  std::map<std::uint64_t, unsigned char> data;
  std::uint64_t size = 0;
  void resize(std::uint64_t n) { size = n; data.erase(data.lower_bound(n), data.end()); }
  unsigned char at(std::uint64_t i) const { auto it = data.find(i); return it == data.end() ? 0 : it->second; }
};

struct Buffers
{
  std::vector<std::pair<std::size_t, std::size_t>> parts; // offset in the memory, claimed size
  std::uint64_t total = 0;
  bool huge = false;
};

Buffers gen_buffers(Gen& g)
{
  Buffers b;
  std::size_t at = 0;
  const std::size_t n = g.chance(1, 3) ? 1 : g.below(5);
  for (std::size_t i = 0; i != n; ++i) {
    std::size_t k = g.chance(1, 4) ? 0 : g.chance(1, 10) ? g.below(1500) : g.below(20);
    if (at + k > room) k = 0;
    b.parts.push_back({at, k});
    at += k + g.below(3);
    b.total += k;
    if (at > room) at = room;
  }
  // A buffer beyond what a DWORD holds. (only its beginning exists, and is used)
  if (n && g.chance(1, 8)) {
    auto& p = b.parts.back();
    p.second = (std::size_t)(g.range(1, 3) << 32) + g.below(3) * g.below(100);
    p.first = std::min(p.first, room / 2);
    b.total += p.second;
    b.huge = true;
  }
  return b;
}
std::string show(const Buffers& b)
{
  std::string r;
  for (auto& p : b.parts) r += (r.empty() ? "" : ",") + std::to_string(p.second);
  return "{" + r + "}";
}
std::vector<asio::mutable_buffer> mutable_of(const Buffers& b, char* mem)
{
  std::vector<asio::mutable_buffer> r;
  for (auto& p : b.parts) r.push_back(asio::mutable_buffer(mem + p.first, p.second));
  return r;
}
std::vector<asio::const_buffer> const_of(const Buffers& b, const char* mem)
{
  std::vector<asio::const_buffer> r;
  for (auto& p : b.parts) r.push_back(asio::const_buffer(mem + p.first, p.second));
  return r;
}
// The memory position of the i-th byte.
std::size_t place(const Buffers& b, std::uint64_t i)
{
  for (auto& p : b.parts) {
    if (i < p.second) return p.first + (std::size_t)i;
    i -= p.second;
  }
  return room;
}

const unsigned char untouched = 0xa5;
const char* pattern()
{
  static const std::vector<char> p = [] { std::vector<char> v(room + 256); for (std::size_t i = 0; i != v.size(); ++i) v[i] = (char)(i * 7 + i / 256); return v; }();
  return p.data();
}

struct File
{
  std::shared_ptr<fw::Node> node;
  Model m;
  std::string name;
};
struct Handle
{
  std::unique_ptr<Obj> o;
  std::size_t file;
  std::shared_ptr<std::uint64_t> pos; // shared with duplicates
  DWORD access;
};

struct History
{
  Gen& g;
  Case c;
  std::vector<File> files;
  std::vector<Handle> handles;
  int transfers = 0, others = 0, faults = 0;

  explicit History(Gen& gen) : g(gen), c(gen) {}

  fw::Open& open_of(Handle& h) { return *fw::get(h.o->h); }
  // The system's file is as it should be.
  void compare(const char* after)
  {
    for (auto& f : files) {
      bool same = f.node->size == f.m.size;
      if (same) {
        for (auto& b : f.node->data) same = same && f.m.at(b.first) == b.second;
        for (auto& b : f.m.data) { auto it = f.node->data.find(b.first); same = same && b.second == (it == f.node->data.end() ? 0 : it->second); }
      }
      PBT_CHECK("contents", same, "%s left other contents or another size (%llu instead of %llu)", after, (unsigned long long)f.node->size, (unsigned long long)f.m.size);
    }
    for (auto& h : handles)
      PBT_CHECK("position", open_of(h).pos == *h.pos, "%s left the position at %llu instead of %llu", after, (unsigned long long)open_of(h).pos, (unsigned long long)*h.pos);
  }
  // Makes one of the next calls fail.
  void arm()
  {
    fw::world->max_transfer = g.chance(1, 4) ? g.range(1, 30) : g.chance(1, 8) ? room / 2 : 200;
    if (g.chance(1, 6)) fw::world->arm((int)g.range(1, 3), pick_error(g));
    else fw::world->arm(0, 0);
  }
  // A call was made to fail and the library says so.
  bool excused(const sys::error_code& ec)
  {
    if (!fw::world->fired) return false;
    ++faults;
    return ec && is_system(ec, fw::world->fault_error);
  }
  std::string errors()
  {
    std::string r;
    for (DWORD e : fw::world->failures) r += " " + std::to_string(e);
    return r.empty() ? " nothing" : r;
  }
  void wants_ok(const char* what, const sys::error_code& ec)
  {
    PBT_CHECK("outcome", !ec, "%s failed (%s), the system reported%s", what, ec.message().c_str(), errors().c_str());
  }
  void wants_failure(const char* what, const sys::error_code& ec)
  {
    PBT_CHECK("outcome", ec && reported(ec), "%s: %s %d instead of what the system reported:%s", what, ec ? ec.category().name() : "no error", ec.value(), errors().c_str());
  }

  void read(Handle& h);
  void write(Handle& h);
  void read_all(Handle& h);
  void write_all(Handle& h);
  void seek(Handle& h);
  void size(Handle& h);
  void truncate(Handle& h);
  std::uint64_t gen_offset(Handle& h)
  {
    const std::uint64_t s = files[h.file].m.size;
    switch (g.weighted({6, 2, 2, 1})) {
      case 0: return g.below((std::size_t)std::min<std::uint64_t>(s, 3000) + 10);
      case 1: return s;
      case 2: return s + g.below(30);
      default: return g.num((1ull << 43));
    }
  }
};

void History::read(Handle& h)
{
  Model& m = files[h.file].m;
  const Buffers b = gen_buffers(g);
  const bool at = g.flip();
  const std::uint64_t off = at ? gen_offset(h) : *h.pos;
  std::vector<char> mem(room, (char)untouched);
  const auto bufs = mutable_of(b, mem.data());
  arm();
  const Res<std::size_t> r = h.o->with([&](auto& f) {
    return at ? call<std::size_t>(g, [&] { return f.read_some_at(off, bufs); }, [&](sys::error_code& ec) { return f.read_some_at(off, bufs, ec); })
              : call<std::size_t>(g, [&] { return f.read_some(bufs); }, [&](sys::error_code& ec) { return f.read_some(bufs, ec); });
  });
  const char* const what = at ? "read_some_at" : "read_some";
  g.note("%s(%s) at %llu%s: %zu, %s", what, show(b).c_str(), (unsigned long long)off, fw::world->fired ? ", failing" : "", r.value, r.ec.message().c_str());
  if (b.huge) g.label("huge-buffer");
  if (excused(r.ec)) { PBT_CHECK("count", r.value == 0, "%s failed but returned %zu", what, r.value); }
  else if (!(h.access & GENERIC_READ) && b.total) { wants_failure(what, r.ec); PBT_CHECK("count", r.value == 0); }
  else if (b.total == 0) {
    PBT_CHECK("count", r.value == 0);
    if (h.access & GENERIC_READ) PBT_CHECK("outcome", !r.ec, "%s of nothing: %s", what, r.ec.message().c_str());
  }
  else if (off >= m.size) {
    PBT_CHECK("eof", r.ec == asio::error::eof && r.value == 0, "%s at the end of the file: %zu, %s (the system reported%s)", what, r.value, r.ec.message().c_str(), errors().c_str());
    g.label("eof");
  } else {
    wants_ok(what, r.ec);
    PBT_CHECK("count", r.value != 0 && r.value <= b.total && r.value <= m.size - off, "%s returned %zu", what, r.value);
    for (std::size_t i = 0; i != r.value; ++i) {
      const std::size_t p = place(b, i);
      PBT_CHECK("data", p < room && (unsigned char)mem[p] == m.at(off + i), "%s: byte %zu of the buffers isn't the file's", what, i);
      mem[p] = (char)untouched;
    }
    if (!at) *h.pos += r.value;
    ++transfers;
  }
  static const std::vector<char> clean(room, (char)untouched);
  PBT_CHECK("memory", std::memcmp(mem.data(), clean.data(), room) == 0, "%s changed more of its buffers than it says", what);
  if (at) *h.pos = open_of(h).pos; // unspecified
}

void History::write(Handle& h)
{
  Model& m = files[h.file].m;
  const Buffers b = gen_buffers(g);
  const bool at = g.flip();
  const std::uint64_t off = at ? gen_offset(h) : *h.pos;
  const unsigned char first = (unsigned char)g.below(256);
  const std::vector<char> mem(pattern() + first, pattern() + first + room);
  const auto bufs = const_of(b, mem.data());
  arm();
  const Res<std::size_t> r = h.o->with([&](auto& f) {
    return at ? call<std::size_t>(g, [&] { return f.write_some_at(off, bufs); }, [&](sys::error_code& ec) { return f.write_some_at(off, bufs, ec); })
              : call<std::size_t>(g, [&] { return f.write_some(bufs); }, [&](sys::error_code& ec) { return f.write_some(bufs, ec); });
  });
  const char* const what = at ? "write_some_at" : "write_some";
  g.note("%s(%s) at %llu%s: %zu, %s", what, show(b).c_str(), (unsigned long long)off, fw::world->fired ? ", failing" : "", r.value, r.ec.message().c_str());
  if (b.huge) g.label("huge-buffer");
  if (excused(r.ec)) { PBT_CHECK("count", r.value == 0, "%s failed but returned %zu", what, r.value); }
  else if (!(h.access & GENERIC_WRITE) && b.total) { wants_failure(what, r.ec); PBT_CHECK("count", r.value == 0); }
  else if (b.total == 0) {
    PBT_CHECK("count", r.value == 0);
    if (h.access & GENERIC_WRITE) PBT_CHECK("outcome", !r.ec, "%s of nothing: %s", what, r.ec.message().c_str());
  }
  else if (!r.ec) {
    PBT_CHECK("count", r.value != 0 && r.value <= b.total, "%s returned %zu", what, r.value);
    for (std::size_t i = 0; i != r.value; ++i) {
      const std::size_t p = place(b, i);
      PBT_CHECK("count", p < room, "%s says it has written %zu bytes", what, r.value);
      m.data[off + i] = (unsigned char)mem[p];
    }
    m.size = std::max(m.size, off + r.value);
    if (!at) *h.pos += r.value;
    ++transfers;
  } else { wants_failure(what, r.ec); PBT_CHECK("outcome", off > fw::max_file / 2, "%s failed with %s", what, r.ec.message().c_str()); PBT_CHECK("count", r.value == 0); }
  if (at) *h.pos = open_of(h).pos;
}

// Asio's composed operations.
void History::read_all(Handle& h)
{
  Model& m = files[h.file].m;
  const bool at = g.flip();
  const std::uint64_t off = at ? gen_offset(h) : *h.pos;
  std::vector<char> mem(g.below(600), (char)untouched);
  arm();
  fw::world->arm(0, 0);
  sys::error_code ec = stale(g);
  const std::size_t n = h.o->with([&](auto& f) { return at ? asio::read_at(f, off, asio::buffer(mem), ec) : asio::read(f, asio::buffer(mem), ec); });
  g.note("%s(%zu) at %llu: %zu, %s", at ? "read_at" : "read", mem.size(), (unsigned long long)off, n, ec.message().c_str());
  if (!(h.access & GENERIC_READ)) { if (!mem.empty()) wants_failure("read", ec); }
  else {
    const std::uint64_t left = off >= m.size ? 0 : m.size - off;
    PBT_CHECK("count", n == std::min<std::uint64_t>(left, mem.size()), "asio::read returned %zu", n);
    PBT_CHECK("eof", n == mem.size() ? !ec : ec == asio::error::eof, "asio::read: %s after %zu of %zu bytes", ec.message().c_str(), n, mem.size());
    for (std::size_t i = 0; i != n; ++i) PBT_CHECK("data", (unsigned char)mem[i] == m.at(off + i));
    if (!at) *h.pos += n;
    ++transfers;
  }
  if (at) *h.pos = open_of(h).pos;
}

void History::write_all(Handle& h)
{
  Model& m = files[h.file].m;
  const bool at = g.flip();
  const std::uint64_t off = at ? gen_offset(h) : *h.pos;
  const std::string s = g.bytes(g.below(200));
  arm();
  fw::world->arm(0, 0);
  sys::error_code ec = stale(g);
  const std::size_t n = h.o->with([&](auto& f) { return at ? asio::write_at(f, off, asio::buffer(s), ec) : asio::write(f, asio::buffer(s), ec); });
  g.note("%s(%zu) at %llu: %zu, %s", at ? "write_at" : "write", s.size(), (unsigned long long)off, n, ec.message().c_str());
  if (!(h.access & GENERIC_WRITE)) { if (!s.empty()) wants_failure("write", ec); }
  else if (ec) { wants_failure("write", ec); PBT_CHECK("outcome", off + s.size() > fw::max_file / 2, "asio::write failed with %s", ec.message().c_str()); }
  else PBT_CHECK("count", n == s.size(), "asio::write returned %zu", n);
  for (std::size_t i = 0; i != n; ++i) m.data[off + i] = (unsigned char)s[i];
  if (n) m.size = std::max(m.size, off + n);
  if (!at) *h.pos += n; else *h.pos = open_of(h).pos;
}

void History::seek(Handle& h)
{
  Model& m = files[h.file].m;
  arm();
  ++others;
  if (g.chance(1, 4)) {
    const auto r = h.o->with([&](auto& f) { return call<std::uint64_t>(g, [&] { return f.position(); }, [&](sys::error_code& ec) { return f.position(ec); }); });
    g.note("position(): %llu, %s", (unsigned long long)r.value, r.ec.message().c_str());
    if (excused(r.ec)) return;
    wants_ok("position", r.ec);
    PBT_CHECK("position", r.value == *h.pos, "position() returned %llu instead of %llu", (unsigned long long)r.value, (unsigned long long)*h.pos);
    return;
  }
  const seek_origin o = g.pick({seek_origin::from_begin, seek_origin::from_current, seek_origin::from_end});
  const std::int64_t off = g.chance(1, 12) ? (std::int64_t)g.num(~0ull) : g.chance(1, 6) ? (std::int64_t)g.num(1ull << 42) : (std::int64_t)g.range(0, 120) - 60;
  const auto r = h.o->with([&](auto& f) { return call<std::uint64_t>(g, [&] { return f.seek(o, off); }, [&](sys::error_code& ec) { return f.seek(o, off, ec); }); });
  g.note("seek(%d, %lld): %llu, %s", (int)o, (long long)off, (unsigned long long)r.value, r.ec.message().c_str());
  if (excused(r.ec)) return;
  const __int128 base = o == seek_origin::from_begin ? 0 : o == seek_origin::from_current ? *h.pos : m.size;
  const __int128 to = base + off;
  if (to < 0 || to > INT64_MAX) { wants_failure("seek", r.ec); g.label("seek-fails"); return; }
  wants_ok("seek", r.ec);
  PBT_CHECK("position", r.value == (std::uint64_t)to, "seek() returned %llu instead of %llu", (unsigned long long)r.value, (unsigned long long)to);
  *h.pos = (std::uint64_t)to;
}

void History::size(Handle& h)
{
  Model& m = files[h.file].m;
  arm();
  ++others;
  const auto r = h.o->with([&](auto& f) { return call<std::uint64_t>(g, [&] { return f.size(); }, [&](sys::error_code& ec) { return f.size(ec); }); });
  g.note("size(): %llu, %s", (unsigned long long)r.value, r.ec.message().c_str());
  if (excused(r.ec)) { PBT_CHECK("count", r.value == 0); return; }
  wants_ok("size", r.ec);
  PBT_CHECK("size", r.value == m.size, "size() returned %llu instead of %llu", (unsigned long long)r.value, (unsigned long long)m.size);
}

void History::truncate(Handle& h)
{
  File& f = files[h.file];
  arm();
  ++others;
  const std::uint64_t n = g.chance(1, 10) ? g.num(~0ull) : g.chance(1, 5) ? g.num(1ull << 43) : g.below((std::size_t)std::min<std::uint64_t>(f.m.size, 3000) + 50);
  const auto ec = h.o->with([&](auto& x) { return call_void(g, [&] { x.truncate(n); }, [&](sys::error_code& e) { x.truncate(n, e); }); });
  g.note("truncate(%llu)%s: %s", (unsigned long long)n, fw::world->fired ? ", failing" : "", ec.message().c_str());
  if (excused(ec)) {
    // The size may have been set all the same.
    PBT_CHECK("size", f.node->size == f.m.size || f.node->size == n, "a failed truncate() left %llu bytes", (unsigned long long)f.node->size);
    if (f.node->size == n) f.m.resize(n);
    *h.pos = open_of(h).pos;
    return;
  }
  if (!(h.access & GENERIC_WRITE) || n > fw::max_file) { wants_failure("truncate", ec); return; }
  wants_ok("truncate", ec);
  f.m.resize(n);
}

} // namespace

PBT_PROP(history, 6)
{
  History t(g);
  const std::size_t nfiles = g.range(1, 2);
  for (std::size_t i = 0; i != nfiles; ++i) {
    File f;
    f.name = i ? "b" : "a";
    const std::string s = g.bytes(g.chance(1, 5) ? 0 : g.chance(1, 8) ? g.below(1500) : g.below(60));
    f.node = add(f.name, s);
    f.m.size = s.size();
    for (std::size_t k = 0; k != s.size(); ++k) f.m.data[k] = (unsigned char)s[k];
    g.note("file %s of %zu bytes", f.name.c_str(), s.size());
    t.files.push_back(f);
  }
  const std::size_t nhandles = g.range(1, 3);
  for (std::size_t i = 0; i != nhandles; ++i) {
    Handle h;
    h.file = g.below(nfiles);
    h.access = g.chance(1, 8) ? (g.flip() ? GENERIC_READ : GENERIC_WRITE) : GENERIC_READ | GENERIC_WRITE;
    std::shared_ptr<fw::Open> o;
    if (i && g.chance(1, 4)) {
      // a duplicate
      Handle& s = t.handles[g.below(t.handles.size())];
      h.file = s.file; h.access = s.access; h.pos = s.pos;
      o = fw::get(s.o->h);
    } else {
      o = std::make_shared<fw::Open>();
      o->node = t.files[h.file].node;
      o->access = h.access;
      o->share = 3;
      o->flags = 0;
      h.pos = std::make_shared<std::uint64_t>(0);
    }
    const int kind = (int)g.below(3);
    g.note("handle %zu: a %s on %s%s", i, kind_name(kind), t.files[h.file].name.c_str(), h.access == (GENERIC_READ | GENERIC_WRITE) ? "" : h.access == GENERIC_READ ? ", for reading" : ", for writing");
    h.o.reset(new Obj(kind, fw::put(o)));
    t.handles.push_back(std::move(h));
  }
  const std::size_t n = g.range(2, 20);
  for (std::size_t i = 0; i != n; ++i) {
    const std::size_t k = g.below(t.handles.size());
    Handle& h = t.handles[k];
    switch (g.weighted({5, 5, 2, 2, 4, 1, 2})) {
      case 0: t.read(h); break;
      case 1: t.write(h); break;
      case 2: t.read_all(h); break;
      case 3: t.write_all(h); break;
      case 4: t.seek(h); break;
      case 5: t.size(h); break;
      default: t.truncate(h); break;
    }
    t.compare("the operation");
  }
  if (t.faults) g.label("faults");
  if (t.transfers >= 2 && t.others) g.nontrivial();
}

// Asynchronous operations give the synchronous results.
PBT_PROP(async, 1)
{
  Case c(g);
  const std::string s = g.bytes(g.below(200));
  auto node = add("a", s);
  fw::world->max_transfer = g.chance(1, 3) ? g.range(1, 30) : g.chance(1, 8) ? room / 2 : 200;
  asio::io_context io;
  asioext::file f(io, asioext::open("a", open_flags::open_existing | open_flags::access_read_write).release());
  std::string m = s;
  const std::size_t n = g.range(1, 4);
  for (std::size_t i = 0; i != n; ++i) {
    const std::uint64_t off = g.below(m.size() + 5);
    const Buffers b = gen_buffers(g);
    std::vector<char> mem(pattern() + i, pattern() + i + room);
    const bool read = g.flip();
    int called = 0;
    sys::error_code ec;
    std::size_t r = 0;
    auto handler = [&](sys::error_code e, std::size_t k) { ++called; ec = e; r = k; };
    if (g.chance(1, 6)) fw::world->arm(1, pick_error(g)); else fw::world->arm(0, 0);
    if (read) f.async_read_some_at(off, mutable_of(b, mem.data()), handler);
    else f.async_write_some_at(off, const_of(b, mem.data()), handler);
    io.restart();
    io.run();
    g.note("async_%s_some_at(%s) at %llu: %zu, %s", read ? "read" : "write", show(b).c_str(), (unsigned long long)off, r, ec.message().c_str());
    PBT_CHECK("handler", called == 1, "the handler was called %d times", called);
    if (fw::world->fired) { PBT_CHECK("outcome", is_system(ec, fw::world->fault_error) && r == 0, "%s instead of what the system reported", ec.message().c_str()); continue; }
    if (b.total == 0) { PBT_CHECK("outcome", !ec && r == 0, "%s", ec.message().c_str()); continue; }
    if (read && off >= m.size()) { PBT_CHECK("eof", ec == asio::error::eof && r == 0, "%s at the end of the file", ec.message().c_str()); continue; }
    PBT_CHECK("outcome", !ec && r != 0 && r <= b.total, "%s, %zu", ec.message().c_str(), r);
    if (!read && m.size() < off + r) m.resize(off + r);
    for (std::size_t k = 0; k != r; ++k) {
      const std::size_t p = place(b, k);
      PBT_CHECK("data", p < room && off + k < m.size());
      if (read) PBT_CHECK("data", mem[p] == m[off + k]);
      else m[off + k] = mem[p];
    }
    PBT_CHECK("contents", contents(*node) == m);
    g.nontrivial();
  }
}

// Reading and writing whole files.
PBT_PROP(whole_files, 2)
{
  Case c(g);
  const bool exists = g.chance(2, 3);
  const std::string old = g.bytes(g.chance(1, 6) ? g.below(3000) : g.below(60));
  if (exists) add("a", old);
  fw::world->max_transfer = g.chance(1, 2) ? g.range(1, 50) : room;
  const bool fault = g.chance(1, 3);
  if (fault) fw::world->arm((int)g.range(1, 6), pick_error(g)); else fw::world->arm(0, 0);
  const bool wide = g.flip();
  sys::error_code ec;
  const auto name_of = [] { auto it = fw::world->names.find(name16("a")); return it == fw::world->names.end() ? nullptr : it->second; };
  if (g.flip()) {
    std::string s(g.below(10), 'x');
    std::vector<unsigned char> v(g.below(10));
    const bool str = g.flip();
    auto run = [&](auto& to) {
      return wide ? call_void(g, [&] { asioext::read_file(L"a", to); }, [&](sys::error_code& e) { asioext::read_file(L"a", to, e); })
                  : call_void(g, [&] { asioext::read_file("a", to); }, [&](sys::error_code& e) { asioext::read_file("a", to, e); });
    };
    ec = str ? run(s) : run(v);
    if (!str) s.assign(v.begin(), v.end());
    g.note("read_file of %s: %zu bytes, %s", exists ? std::to_string(old.size()).c_str() : "nothing", s.size(), ec.message().c_str());
    if (!ec) PBT_CHECK("data", exists && s == old, "read_file read %zu bytes of %zu", s.size(), old.size());
    else PBT_CHECK("outcome", reported(ec), "%s isn't what the system reported", ec.message().c_str());
    if (!fw::world->fired) PBT_CHECK("outcome", !ec == exists, "%s", ec.message().c_str());
    PBT_CHECK("contents", exists ? name_of() && contents(*name_of()) == old : !name_of(), "read_file changed the file");
  } else {
    const std::string s = g.bytes(g.chance(1, 6) ? g.below(3000) : g.below(60));
    const int form = (int)g.below(2);
    auto run = [&](auto name) {
      const std::size_t cut = s.size() / 2;
      const std::array<asio::const_buffer, 3> parts = {asio::buffer(s.data(), cut), asio::const_buffer(), asio::buffer(s.data() + cut, s.size() - cut)};
      return form ? call_void(g, [&] { asioext::write_file(name, parts); }, [&](sys::error_code& e) { asioext::write_file(name, parts, e); })
                  : call_void(g, [&] { asioext::write_file(name, asio::buffer(s)); }, [&](sys::error_code& e) { asioext::write_file(name, asio::buffer(s), e); });
    };
    ec = wide ? run(L"a") : run("a");
    g.note("write_file of %zu bytes over %s: %s", s.size(), exists ? std::to_string(old.size()).c_str() : "nothing", ec.message().c_str());
    if (!ec) PBT_CHECK("data", name_of() && contents(*name_of()) == s, "write_file left other contents");
    else PBT_CHECK("outcome", reported(ec), "%s isn't what the system reported", ec.message().c_str());
    if (!fw::world->fired) PBT_CHECK("outcome", !ec, "%s", ec.message().c_str());
    // Closing the written file may fail unnoticed.
    if (!ec && fw::world->fired) PBT_CHECK("outcome", fw::world->api == "CloseHandle", "%s failed unnoticed", fw::world->api.c_str());
  }
  if (fw::world->fired) g.label("faults");
  PBT_CHECK("handles", fw::world->handles.empty() || fw::world->api == "CloseHandle", "a handle was left open");
  g.nontrivial();
}
