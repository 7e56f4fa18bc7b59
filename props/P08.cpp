// P08: file handles behave like a byte array with a position.
#include "file_common.hpp"
using namespace fx;

void pbt::setup(const std::string&) {}

namespace {

enum : unsigned { R = 1, W = 2 };

struct Inode { std::string path, data; int raw; };
struct Desc { std::size_t inode; std::uint64_t pos; unsigned access; };
struct Open { Handle h; int desc; }; // desc < 0: not open

const std::size_t limit = 300 * 1024; // size up to which files grow

class World
{
public:
  World(Gen& g) : g(g)
  {
    for (int i = 0; i != 2; ++i) {
      Inode n;
      n.path = pbt::scratch_dir() + "/f" + std::to_string(i);
      n.raw = ::open(n.path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
      PBT_CHECK("setup", n.raw != -1);
      n.data = g.bytes(g.size(g.chance(1, 8) ? 70000 : 600));
      PBT_CHECK("setup", ::pwrite(n.raw, n.data.data(), n.data.size(), 0) == (ssize_t)n.data.size());
      inodes.push_back(n);
    }
  }
  ~World()
  {
    for (auto& o : open)
      if (o->desc >= 0 && o->h.kind == plain) ::close(o->h.fd());
    open.clear();
    for (auto& n : inodes) { ::close(n.raw); ::unlink(n.path.c_str()); }
  }

  Open& some() { return *open[g.below(open.size())]; }
  Desc* desc(Open& o) { return o.desc < 0 ? nullptr : &descs[o.desc]; }

  void check(bool contents)
  {
    for (auto& n : inodes) {
      struct stat st;
      PBT_CHECK("setup", fstat(n.raw, &st) == 0);
      PBT_CHECK("file-size", (std::size_t)st.st_size == n.data.size(), "size is %ld, expected %zu", (long)st.st_size, n.data.size());
      if (contents) {
        const std::string now = slurp_fd(n.raw);
        if (now != n.data) {
          std::size_t i = 0;
          while (now[i] == n.data[i]) ++i;
          pbt::fail("file-contents", pbt::strf("contents differ at offset %zu of %zu: 0x%02x, expected 0x%02x",
                    i, n.data.size(), now[i] & 255, n.data[i] & 255));
        }
      }
    }
    for (auto& o : open) {
      if (o->desc < 0) continue;
      const off_t p = ::lseek(o->h.fd(), 0, SEEK_CUR);
      PBT_CHECK("file-position", (std::uint64_t)p == descs[o->desc].pos, "position is %ld, expected %llu",
                (long)p, (unsigned long long)descs[o->desc].pos);
    }
  }

  Gen& g;
  std::vector<Inode> inodes;
  std::vector<Desc> descs;
  std::vector<std::unique_ptr<Open>> open;
};

std::string put(std::string d, std::uint64_t pos, const std::string& w)
{
  if (w.empty()) return d;
  if (d.size() < pos + w.size()) d.resize(pos + w.size(), '\0');
  d.replace(pos, w.size(), w);
  return d;
}

void add_handle(World& w)
{
  Gen& g = w.g;
  const Kind k = static_cast<Kind>(g.below(nkinds));
  const std::size_t how = g.weighted({6, 2, 1, 2});
  auto o = std::make_unique<Open>();
  if (how == 2) { // not open
    g.note("handle %zu: empty %s", w.open.size(), name(k));
    o->h = Handle::empty(k);
    o->desc = -1;
    PBT_CHECK("empty-open", !o->h.is_open());
    w.open.push_back(std::move(o));
    return;
  }
  if (how == 3 && !w.open.empty()) { // shares the open file, and thus the position
    Open& src = w.some();
    if (src.desc < 0) return;
    g.note("handle %zu: %s, duplicate of fd of another one", w.open.size(), name(k));
    sys::error_code ec = stale();
    asioext::unique_file_handle d = asioext::duplicate(asioext::file_handle(src.h.fd()), ec);
    PBT_CHECK("duplicate", !ec && d.is_open() && d.get().native_handle() != src.h.fd());
    o->h = Handle::adopt(k, d.release().native_handle());
    o->desc = src.desc;
    w.open.push_back(std::move(o));
    return;
  }
  const std::size_t i = g.below(2);
  const unsigned access = g.weighted({1, 1, 4}) + 1;
  g.note("handle %zu: %s for file %zu, access %s%s", w.open.size(), name(k), i, access & R ? "r" : "", access & W ? "w" : "");
  const open_flags fl = open_flags::open_existing |
      (access == R ? open_flags::access_read : access == W ? open_flags::access_write : open_flags::access_read_write);
  if (how == 1) {
    o->h = Handle::adopt(k, ::open(w.inodes[i].path.c_str(), O_CLOEXEC | (access == R ? O_RDONLY : access == W ? O_WRONLY : O_RDWR)));
  } else if (k == object) {
    o->h = Handle::empty(k);
    o->h.f->open(w.inodes[i].path.c_str(), asioext::open_args(fl));
  } else {
    asioext::unique_file_handle u = asioext::open(w.inodes[i].path.c_str(), asioext::open_args(fl));
    o->h = Handle::adopt(k, u.release().native_handle());
  }
  PBT_CHECK("open", o->h.is_open());
  w.descs.push_back(Desc{i, 0, access});
  o->desc = (int)w.descs.size() - 1;
  w.open.push_back(std::move(o));
}

// Offsets around the interesting places of a file.
std::uint64_t gen_offset(Gen& g, std::uint64_t size, std::uint64_t pos)
{
  switch (g.below(6)) {
    case 0: return g.num(limit);
    case 1: return g.num(size);
    case 2: return size + g.below(3);
    case 3: return size > 1 ? size - 1 : 0;
    case 4: return pos;
    default: return size + g.num(5000);
  }
}

bool writes = false, reads = false, moves = false;

// How many of the wanted bytes an operation may stop after. (Systems without
// preadv and pwritev only use one buffer per positional operation.)
std::uint64_t least(const Bufs& b, std::uint64_t want, bool at, bool all)
{
  if (all) return want;
#if !defined(ASIOEXT_HAS_PVEC_IO_FUNCTIONS)
  if (at) {
    for (std::size_t i = 0; i != b.count(); ++i) if (b.len(i)) return std::min<std::uint64_t>(want, b.len(i));
    return 0;
  }
#endif
  (void)at;
  return b.count() <= 64 ? want : std::min<std::uint64_t>(want, b.total(64));
}

void check_read(World& w, Open& o, const char* what, bool at, std::uint64_t off, const Bufs& b, const Result& r, bool all)
{
  Gen& g = w.g;
  Desc* d = w.desc(o);
  g.note("  %s -> %s", what, show(r).c_str());
  PBT_CHECK("guards", b.guards_intact(), "%s wrote outside the buffers", what);
  const std::string before(b.total(), '\xa5');
  const std::string got = b.contents();
  if (!d || !(d->access & R) || off > INT64_MAX) {
    if (b.total() == 0 && all) return; // a composed operation without data does nothing
    if (b.total() == 0 && d && at && off <= INT64_MAX) return;
    PBT_CHECK("read-denied", !r.ok && r.v == 0, "%s on %s succeeded", what, d ? "a write-only handle or invalid offset" : "an empty handle");
    PBT_CHECK("buffer-modified", got == before);
    return;
  }
  const std::string& data = w.inodes[d->inode].data;
  const std::uint64_t avail = off < data.size() ? data.size() - off : 0;
  const std::uint64_t want = std::min<std::uint64_t>(avail, b.total());
  const bool eof = all ? avail < b.total() : avail == 0 && b.total() != 0;
  if (!r.ok) {
    if (off > (1ull << 40)) { // overflowing offsets are reported as errors
      PBT_CHECK("read-failed", r.v == 0 && avail == 0, "%s", show(r).c_str());
      return;
    }
    PBT_CHECK("eof", eof && r.ec == asio::error::eof, "%s at %llu of a %zu byte file, %zu bytes requested: %s",
              what, (unsigned long long)off, data.size(), b.total(), show(r).c_str());
  } else {
    PBT_CHECK("eof-missed", !eof, "%s at %llu of a %zu byte file, %zu bytes requested: %s",
              what, (unsigned long long)off, data.size(), b.total(), show(r).c_str());
  }
  std::uint64_t n = want;
  // What is thrown doesn't carry a count.
  if (!r.ok && all && r.v == 0) n = want;
  else {
    PBT_CHECK("read-count", r.v <= want && r.v >= least(b, want, at, all), "%s returned %llu, expected %llu", what, (unsigned long long)r.v, (unsigned long long)want);
    n = r.v;
  }
  std::string expect = (want ? data.substr(off, n) : "");
  expect += before.substr(expect.size());
  PBT_CHECK("read-data", got == expect, "%s at %llu: wrong data", what, (unsigned long long)off);
  if (!at) d->pos += n;
  if (n) reads = true;
}

void check_write(World& w, Open& o, const char* what, bool at, std::uint64_t off, const Bufs& b, const Result& r, bool all)
{
  Gen& g = w.g;
  Desc* d = w.desc(o);
  g.note("  %s -> %s", what, show(r).c_str());
  if (!d || !(d->access & W) || off > INT64_MAX) {
    if (b.total() == 0 && all) return;
    if (b.total() == 0 && d && at && off <= INT64_MAX) return;
    PBT_CHECK("write-denied", !r.ok && r.v == 0, "%s on %s succeeded", what, d ? "a read-only handle or invalid offset" : "an empty handle");
    return;
  }
  PBT_CHECK("write-failed", r.ok, "%s: %s", what, show(r).c_str());
  PBT_CHECK("write-count", r.v <= b.total() && r.v >= least(b, b.total(), at, all), "%s returned %llu, expected %zu", what, (unsigned long long)r.v, b.total());
  std::string& data = w.inodes[d->inode].data;
  if (r.v && off > data.size()) g.label("gap");
  data = put(std::move(data), off, b.contents().substr(0, r.v));
  if (!at) d->pos += r.v;
  if (r.v) writes = true;
}

void step(World& w)
{
  Gen& g = w.g;
  const std::size_t op = g.weighted({5, 12, 12, 10, 10, 8, 4, 4, 6, 4, 4, 2, 3});
  if (op == 0 || w.open.empty()) { if (w.open.size() < 6) add_handle(w); return; }
  const std::size_t which = g.below(w.open.size());
  Open& o = *w.open[which];
  Desc* d = w.desc(o);
  const bool thr = g.flip();
  const std::uint64_t size = d ? w.inodes[d->inode].data.size() : 0, pos = d ? d->pos : 0;
  const bool huge_pos = pos > limit;
  g.note("#%zu %s:", which, name(o.h.kind));
  bool contents = false;
  switch (op) {
    case 1: case 3: { // reads
      std::vector<std::size_t> sz = gen_sizes(g, g.chance(1, 6) ? 70000 : 800, true);
      if (sz.size() > 64 && sz[0] == 0) sz[0] = 1;
      const Bufs b = for_reading(sz);
      const auto sh = static_cast<Bufs::Shape>(g.below(Bufs::nshapes));
      g.note("  buffers %s, %s", show(sz).c_str(), thr ? "throwing" : "ec");
      if (op == 1) {
        const Result r = o.h.read_some(thr, b, sh);
        check_read(w, o, "read_some", false, pos, b, r, false);
      } else {
        const std::uint64_t off = g.chance(1, 12) ? ~g.num(1ull << 40) >> g.below(2) : gen_offset(g, size, pos);
        g.note("  offset %llu", (unsigned long long)off);
        const Result r = o.h.read_some_at(thr, off, b, sh);
        check_read(w, o, "read_some_at", true, off, b, r, false);
      }
      break;
    }
    case 2: case 4: { // writes
      std::vector<std::size_t> sz = gen_sizes(g, g.chance(1, 6) ? 70000 : 800, true);
      if (sz.size() > 64 && sz[0] == 0) sz[0] = 1;
      const Bufs b = for_writing(g, sz);
      const auto sh = static_cast<Bufs::Shape>(g.below(Bufs::nshapes));
      g.note("  buffers %s, %s", show(sz).c_str(), thr ? "throwing" : "ec");
      if (op == 2) {
        if (huge_pos) return;
        const Result r = o.h.write_some(thr, b, sh);
        check_write(w, o, "write_some", false, pos, b, r, false);
      } else {
        const std::uint64_t off = g.chance(1, 16) ? ~g.num(1ull << 40) : gen_offset(g, size, huge_pos ? 0 : pos);
        g.note("  offset %llu", (unsigned long long)off);
        const Result r = o.h.write_some_at(thr, off, b, sh);
        check_write(w, o, "write_some_at", true, off, b, r, false);
      }
      contents = true;
      break;
    }
    case 5: { // seek
      const auto origin = static_cast<asioext::seek_origin>(g.below(3));
      const std::int64_t base = origin == asioext::seek_origin::from_begin ? 0
          : origin == asioext::seek_origin::from_current ? (std::int64_t)pos : (std::int64_t)size;
      std::int64_t off;
      switch (g.weighted({6, 2, 1})) {
        case 0: off = (std::int64_t)gen_offset(g, size, huge_pos ? 0 : pos) - base; break;
        case 1: off = -base - 1 - (std::int64_t)g.num(100); break; // before the start
        default: off = g.inum(); break;
      }
      const Result r = o.h.seek(thr, origin, off);
      g.note("  seek(%d, %lld) -> %s", (int)origin, (long long)off, show(r).c_str());
      if (!d) { PBT_CHECK("seek-empty", !r.ok && r.v == 0); break; }
      const __int128 target = (__int128)base + off;
      if (target < 0) PBT_CHECK("seek-before-start", !r.ok && r.v == 0, "target %lld", (long long)target);
      else if (target <= (1 << 30)) PBT_CHECK("seek", r.ok && r.v == (std::uint64_t)target, "%s, expected %lld", show(r).c_str(), (long long)target);
      else {
        PBT_CHECK("seek", r.ok ? (__int128)r.v == target : r.v == 0, "%s", show(r).c_str());
        if (!r.ok && target <= std::numeric_limits<off_t>::max()) { // does the system refuse it, too?
          errno = 0;
          const off_t p = ::lseek(o.h.fd(), (off_t)target, SEEK_SET);
          PBT_CHECK("seek", p == -1, "seeking to %lld failed: %s", (long long)target, show(r).c_str());
        }
      }
      if (r.ok) { d->pos = r.v; moves = true; }
      break;
    }
    case 6: {
      const Result r = o.h.position(thr);
      g.note("  position -> %s", show(r).c_str());
      if (d) PBT_CHECK("position", r.ok && r.v == pos, "%s, expected %llu", show(r).c_str(), (unsigned long long)pos);
      else PBT_CHECK("position-empty", !r.ok && r.v == 0);
      break;
    }
    case 7: {
      const Result r = o.h.size(thr);
      g.note("  size -> %s", show(r).c_str());
      if (d) PBT_CHECK("size", r.ok && r.v == size, "%s, expected %llu", show(r).c_str(), (unsigned long long)size);
      else PBT_CHECK("size-empty", !r.ok && r.v == 0);
      break;
    }
    case 8: { // truncate
      const std::uint64_t n = g.chance(1, 8) ? ~g.num(1ull << 40) : gen_offset(g, size, huge_pos ? 0 : pos);
      const Result r = o.h.truncate(thr, n);
      g.note("  truncate(%llu) -> %s", (unsigned long long)n, show(r).c_str());
      if (!d || !(d->access & W) || n > INT64_MAX) PBT_CHECK("truncate-denied", !r.ok);
      else {
        PBT_CHECK("truncate", r.ok, "%s", show(r).c_str());
        w.inodes[d->inode].data.resize(n, '\0');
        if (n != size) writes = true;
      }
      contents = true;
      break;
    }
    case 9: case 10: { // composed operations
      const std::vector<std::size_t> sz = gen_sizes(g, 3000, true);
      const bool rd = op == 9, at = g.flip();
      const Bufs b = rd ? for_reading(sz) : for_writing(g, sz);
      const std::uint64_t off = at ? gen_offset(g, size, huge_pos ? 0 : pos) : pos;
      if (!at && huge_pos) return;
      g.note("  buffers %s", show(sz).c_str());
      Result r{true, 0, {}};
      r.ec = stale();
      o.h.visit([&](auto& h) {
        if (rd) b.with<asio::mutable_buffer>(Bufs::vec, [&](const auto& q) {
          r.v = at ? asio::read_at(h, off, q, r.ec) : asio::read(h, q, r.ec);
        });
        else b.with<asio::const_buffer>(Bufs::vec, [&](const auto& q) {
          r.v = at ? asio::write_at(h, off, q, r.ec) : asio::write(h, q, r.ec);
        });
      });
      r.ok = !r.ec;
      if (rd) check_read(w, o, at ? "asio::read_at" : "asio::read", at, off, b, r, true);
      else check_write(w, o, at ? "asio::write_at" : "asio::write", at, off, b, r, true);
      contents = true;
      break;
    }
    case 11: { // close
      const int fd = o.h.fd();
      const Result r = o.h.close(thr);
      g.note("  close -> %s", show(r).c_str());
      PBT_CHECK("close", r.ok && !o.h.is_open());
      if (d) PBT_CHECK("close", ::fcntl(fd, F_GETFD) == -1, "descriptor still open");
      o.desc = -1;
      break;
    }
    default: { // move the handle
      if (o.h.kind == owning) {
        auto n = std::make_unique<asioext::unique_file_handle>(std::move(*o.h.uh));
        PBT_CHECK("moved-from", !o.h.uh->is_open());
        o.h.uh = std::move(n);
      } else if (o.h.kind == object) {
        auto n = std::make_unique<asioext::file>(std::move(*o.h.f));
        PBT_CHECK("moved-from", !o.h.f->is_open());
        o.h.f = std::move(n);
      } else {
        asioext::file_handle copy = o.h.fh;
        o.h.fh = copy;
      }
      g.note("  moved");
      PBT_CHECK("moved", o.h.is_open() == (d != nullptr));
      break;
    }
  }
  w.check(contents);
}

} // namespace

PBT_PROP(histories, 1)
{
  writes = reads = moves = false;
  context();
  DescriptorZero zero;
  World w(g);
  zero.free(g);
  add_handle(w);
  const std::size_t n = g.range(1, 24);
  for (std::size_t i = 0; i != n; ++i) step(w);
  w.check(true);
  if (writes && reads) g.nontrivial();
  if (moves) g.label("seek");
}
