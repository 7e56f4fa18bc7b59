// P30: the file attributes and creation times of FreeBSD and macOS.
#include "bsd_model.hpp"
#include "file_common.hpp"
#include "asioext/file_attrs.hpp"
#include "asioext/open_flags.hpp"
using namespace fx;
using asioext::file_attrs;
using asioext::file_perms;
using asioext::file_attr_options;
typedef asioext::file_clock fc;

void pbt::setup(const std::string&) { ::umask(022); }

namespace {

struct Pair { file_attrs attr; std::uint32_t native; };
// What each attribute is called by the system.
const Pair table[] = {
#if !defined(VERIF_MACOS)
  {file_attrs::system, UF_SYSTEM}, {file_attrs::archive, UF_ARCHIVE},
  {file_attrs::user_no_unlink, UF_NOUNLINK}, {file_attrs::system_no_unlink, SF_NOUNLINK},
#endif
  {file_attrs::hidden, UF_HIDDEN}, {file_attrs::no_dump, UF_NODUMP},
  {file_attrs::user_immutable, UF_IMMUTABLE}, {file_attrs::system_immutable, SF_IMMUTABLE},
};
std::uint32_t native(unsigned a)
{
  std::uint32_t r = 0;
  for (auto& p : table) if (a & (unsigned)p.attr) r |= p.native;
  return r;
}
unsigned portable(std::uint32_t n)
{
  unsigned r = 0;
  for (auto& p : table) if (n & p.native) r |= (unsigned)p.attr;
  return r;
}

std::uint32_t gen_flags(Gen& g)
{
  switch (g.below(3)) {
    case 0: return 0;
    case 1: return native((unsigned)g.below(512));
    default: return native((unsigned)g.below(512)) | (std::uint32_t)(g.below(1 << 11) << 2 | g.below(64) << 16);
  }
}

// Seconds and nanoseconds in the file clock's unit.
bool ticks(const struct timespec& t, std::int64_t& out)
{
  const __int128 v = (__int128)t.tv_sec * 1000000000 + t.tv_nsec;
  out = (std::int64_t)v;
  return v == out;
}
std::int64_t count(fc::time_point t)
{ return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }

struct timespec gen_birth(Gen& g)
{
  struct timespec t = {0, 0};
  switch (g.below(5)) {
    case 0: break;
    case 1: t.tv_sec = -1; break; // unknown
    case 2: t.tv_sec = (time_t)g.below(4000000000u); t.tv_nsec = (long)g.below(1000000000); break;
    case 3: t.tv_sec = 9223372036 + (time_t)g.below(3) - 1; t.tv_nsec = (long)g.below(1000000000); break;
    default: t.tv_sec = -(time_t)g.below(9223372038ull); t.tv_nsec = (long)g.below(1000000000); break;
  }
  return t;
}

struct File
{
  std::string path;
  int fd = -1; // ours; -1: doesn't exist
  std::uint32_t flags = 0;
  unsigned mode = 0;
  std::string data;
  struct timespec birth = {0, 0}, atime = {0, 0}, mtime = {0, 0};
};

// The real state, by way of the system's own functions.
#undef stat
#undef fstat
struct stat look(int fd) { struct stat s; if (::fstat(fd, &s) != 0) { std::perror("fstat"); std::abort(); } return s; }
bool exists(const std::string& p) { struct stat s; return ::stat(p.c_str(), &s) == 0; }
#define stat bsd_stat
#define fstat bsd_fstat

bool same(const struct timespec& x, const struct timespec& y) { return x.tv_sec == y.tv_sec && x.tv_nsec == y.tv_nsec; }

void compare(const File& f, const char* what)
{
  if (f.fd == -1) {
    PBT_CHECK("created", !exists(f.path), "%s created a file", what);
    return;
  }
  const auto s = look(f.fd);
  const bsd::Node& n = bsd::node(s);
  PBT_CHECK("flags", n.flags == f.flags, "%s: the flags are %x instead of %x", what, n.flags, f.flags);
  PBT_CHECK("untouched", (s.st_mode & 07777) == f.mode, "%s changed the mode from %o to %o", what, f.mode, (unsigned)s.st_mode & 07777);
  PBT_CHECK("untouched", same(n.birth, f.birth), "%s changed the creation time", what);
  PBT_CHECK("untouched", same(s.st_mtim, f.mtime) && same(s.st_atim, f.atime), "%s changed times", what);
  std::string d((std::size_t)s.st_size, 0);
  PBT_CHECK("untouched", ::pread(f.fd, &d[0], d.size(), 0) == (ssize_t)d.size() && d == f.data, "%s changed the contents", what);
}
void times_of(File& f)
{
  const auto s = look(f.fd);
  f.atime = s.st_atim;
  f.mtime = s.st_mtim;
}
// The lowest descriptor that isn't in use.
int lowest()
{
  const int fd = ::fcntl(0, F_DUPFD_CLOEXEC, 0);
  ::close(fd);
  return fd;
}

} // namespace

PBT_PROP(histories, 1)
{
  struct Opened { Handle h; std::size_t file; bool closed; };
  std::vector<File> files(g.range(1, 3));
  std::vector<Opened> hs;
  struct Cleanup
  {
    std::vector<File>& f; std::vector<Opened>& h;
    ~Cleanup()
    {
      bsd::world().arm(0, 0);
      for (auto& x : h) if (x.h.kind == plain && !x.closed) ::close(x.h.fh.native_handle());
      for (auto& x : f) { if (x.fd != -1) ::close(x.fd); ::unlink(x.path.c_str()); }
      bsd::world().nodes.clear();
    }
  } cleanup{files, hs};
  bsd::World& w = bsd::world();
  w.arm(0, 0);
  w.nodes.clear();
  for (std::size_t i = 0; i != files.size(); ++i) {
    File& f = files[i];
    f.path = pbt::scratch_dir() + "/b" + std::to_string(i);
    ::unlink(f.path.c_str());
    if (g.chance(1, 4)) { g.note("file %zu: missing", i); continue; }
    f.fd = ::open(f.path.c_str(), O_RDWR | O_CREAT | O_CLOEXEC | O_NOATIME, 0600);
    PBT_CHECK("setup", f.fd != -1);
    f.mode = (unsigned)g.below(512) | 0600;
    f.data = g.bytes(g.below(5));
    PBT_CHECK("setup", ::fchmod(f.fd, f.mode) == 0 && ::pwrite(f.fd, f.data.data(), f.data.size(), 0) == (ssize_t)f.data.size());
    bsd::Node& n = bsd::node(f.fd);
    n.flags = f.flags = gen_flags(g);
    n.birth = f.birth = gen_birth(g);
    times_of(f);
    g.note("file %zu: flags %x, created at %lld.%09ld", i, f.flags, (long long)f.birth.tv_sec, f.birth.tv_nsec);
  }
  const std::size_t steps = g.range(2, 14);
  int changes = 0, reads = 0, faults = 0;
  auto handle = [&](std::size_t i) {
    const Kind k = (Kind)g.below(nkinds);
    hs.push_back({Handle::adopt(k, ::fcntl(files[i].fd, F_DUPFD_CLOEXEC, 0)), i, false});
    g.note("handle %zu: %s for file %zu", hs.size() - 1, name(k), i);
  };
  for (std::size_t i = 0; i != files.size(); ++i)
    if (files[i].fd != -1) handle(i);
  for (std::size_t k = 0; k != steps; ++k) {
    const bool thr = g.flip();
    static const int errors[] = {EIO, EPERM, EOPNOTSUPP, EROFS};
    if (g.chance(1, 8)) w.arm((int)g.range(1, 2), errors[g.below(4)]); else w.arm(0, 0);
    std::size_t what = g.weighted({4, 6, 3, 3, 2, 1});
    if (hs.empty()) what = 0;
    Opened* const o = what == 0 ? nullptr : &hs[g.below(hs.size())];
    const char* op = "";
    // Whether the operation worked; checks the error otherwise.
    auto outcome = [&](const Result& r) {
      if (w.fired) { ++faults; PBT_CHECK("outcome", !r.ok && r.ec == os_error(w.fault), "%s: a function failed with %s, but %s", op, std::strerror(w.fault), show(r).c_str()); return false; }
      if (o && o->closed) { PBT_CHECK("outcome", !r.ok && r.ec == os_error(EBADF), "%s: closed, but %s", op, show(r).c_str()); return false; }
      PBT_CHECK("outcome", r.ok, "%s: %s", op, show(r).c_str());
      return true;
    };
    switch (what) {
      case 0: { // open
        op = "opening";
        const std::size_t i = g.below(files.size());
        File& f = files[i];
        const bool existed = f.fd != -1;
        static const open_flags dispositions[] = {open_flags::create_new, open_flags::create_always, open_flags::open_existing, open_flags::open_always, open_flags::truncate_existing};
        const std::size_t d = g.below(5);
        const unsigned access = (unsigned)g.below(3);
        const bool truncates = d == 1 || d == 4;
        const open_flags fl = dispositions[d] | (truncates || access == 0 ? open_flags::access_read_write : access == 1 ? open_flags::access_write : open_flags::access_read);
        const unsigned a = g.chance(1, 4) ? 0 : (unsigned)g.below(512);
        std::uint32_t flags = native(a);
        asioext::open_args args(fl, file_perms::create_default, static_cast<file_attrs>(a));
        PBT_CHECK("args", args.attrs() == flags, "the attributes %u are %x", a, args.attrs());
        if (g.chance(1, 4)) args.attrs(flags = gen_flags(g));
        const int before = lowest();
        asioext::unique_file_handle u;
        Handle obj;
        const Kind kind = (Kind)g.below(nkinds);
        Result r{true, 0, {}};
        if (kind == object) {
          obj = Handle::empty(object);
          r = call(thr, [&] { obj.f->open(f.path.c_str(), args); }, [&](sys::error_code& ec) { obj.f->open(f.path.c_str(), args, ec); });
        } else {
          r = call(thr, [&] { u = asioext::open(f.path.c_str(), args); }, [&](sys::error_code& ec) { u = asioext::open(f.path.c_str(), args, ec); });
        }
        g.note("open file %zu (%s), disposition %zu, flags %x, %s%s: %s", i, existed ? "exists" : "missing", d, flags, name(kind), thr ? ", throwing" : "", show(r).c_str());
        bool ok;
        if (existed && d == 0) { ok = false; PBT_CHECK("outcome", !r.ok && (w.fired || r.ec == os_error(EEXIST)), "the file exists, but %s", show(r).c_str()); }
        else if (!existed && (d == 2 || d == 4)) { ok = false; PBT_CHECK("outcome", !r.ok && (w.fired || r.ec == os_error(ENOENT)), "the file is missing, but %s", show(r).c_str()); }
        else ok = outcome(r);
        if (!existed && exists(f.path)) { // what was created
          PBT_CHECK("created", d != 2 && d != 4, "created the file");
          f.fd = ::open(f.path.c_str(), O_RDWR | O_CLOEXEC | O_NOATIME);
          PBT_CHECK("setup", f.fd != -1);
          f.mode = 0644;
          f.data.clear();
          f.birth = {0, 0};
          times_of(f);
          if (ok) { f.flags = flags; changes += flags != 0; }
          else f.flags = bsd::node(f.fd).flags; // couldn't be set
        }
        PBT_CHECK("created", !ok || f.fd != -1, "the file wasn't created");
        if (ok && truncates && existed) { f.data.clear(); times_of(f); }
        PBT_CHECK("object", (kind == object ? obj.is_open() : u.is_open()) == ok, "%s, but the object is %s", show(r).c_str(), ok ? "empty" : "open");
        if (!ok) {
          if (existed || f.fd == -1) PBT_CHECK("leak", lowest() == before, "a descriptor stayed open after %s", show(r).c_str());
          else PBT_CHECK("leak", f.fd == before, "a descriptor stayed open after %s", show(r).c_str());
        } else if (kind == object) hs.push_back({std::move(obj), i, false});
        else if (kind == owning) hs.push_back({Handle::adopt(owning, u.release().native_handle()), i, false});
        else hs.push_back({Handle::adopt(plain, u.release().native_handle()), i, false});
        reads += ok;
        break;
      }
      case 1: { // set attributes
        op = "setting attributes";
        File& f = files[o->file];
        const unsigned a = g.chance(1, 4) ? 0 : (unsigned)g.below(512);
        const auto attrs = static_cast<file_attrs>(a);
        const int how = (int)g.below(4);
        const auto opts = how == 3 ? file_attr_options::remove : how == 2 ? file_attr_options::add : file_attr_options::replace;
        const Result r = o->h.visit([&](auto& h) {
          return how == 0 ? call(thr, [&] { h.attributes(attrs); }, [&](sys::error_code& e) { h.attributes(attrs, e); })
                          : call(thr, [&] { h.attributes(attrs, opts); }, [&](sys::error_code& e) { h.attributes(attrs, opts, e); });
        });
        g.note("handle %zu: %s %u%s: %s", o - hs.data(), how < 2 ? "set" : how == 2 ? "add" : "remove", a, thr ? ", throwing" : "", show(r).c_str());
        const bool none = how >= 2 && !native(a); // nothing to do
        if (none && o->closed && !w.fired) break;
        if (outcome(r)) {
          const std::uint32_t want = how == 3 ? f.flags & ~native(a) : how == 2 ? f.flags | native(a) : native(a);
          changes += want != f.flags;
          f.flags = want;
        }
        break;
      }
      case 2: { // get attributes
        op = "getting attributes";
        File& f = files[o->file];
        const Result r = o->h.visit([&](auto& h) { return call(thr, [&] { return h.attributes(); }, [&](sys::error_code& ec) { return h.attributes(ec); }); });
        g.note("handle %zu: attributes%s: %s", o - hs.data(), thr ? ", throwing" : "", show(r).c_str());
        const bool ok = outcome(r);
        PBT_CHECK("value", r.v == (ok ? portable(f.flags) : 0u), "the attributes are %u with the flags %x", (unsigned)r.v, f.flags);
        reads += ok;
        break;
      }
      case 3: { // get times
        op = "getting times";
        File& f = files[o->file];
        asioext::file_times ft;
        const Result r = o->h.visit([&](auto& h) { return call(thr, [&] { ft = h.times(); }, [&](sys::error_code& ec) { ft = h.times(ec); }); });
        std::int64_t c = 0, a = 0, m = 0;
        const bool fit = ticks(f.birth, c) && ticks(f.atime, a) && ticks(f.mtime, m);
        g.note("handle %zu: times%s: %s", o - hs.data(), thr ? ", throwing" : "", show(r).c_str());
        if (!fit && !w.fired && !o->closed) {
          PBT_CHECK("range", !r.ok && r.ec == std::make_error_code(std::errc::value_too_large), "created at %lld s, but %s", (long long)f.birth.tv_sec, show(r).c_str());
          ++reads;
        } else if (outcome(r)) {
          PBT_CHECK("times", count(ft.ctime) == c, "created at %lld instead of %lld", (long long)count(ft.ctime), (long long)c);
          PBT_CHECK("times", count(ft.atime) == a && count(ft.mtime) == m, "accessed and modified at %lld, %lld instead of %lld, %lld", (long long)count(ft.atime), (long long)count(ft.mtime), (long long)a, (long long)m);
          ++reads;
        }
        break;
      }
      case 4: { // set times
        op = "setting times";
        File& f = files[o->file];
        asioext::file_times ft;
        const std::int64_t c = (std::int64_t)g.below(1000000), a = g.chance(1, 3) ? 0 : (std::int64_t)g.below(4000000000000000000ull), m = g.chance(1, 3) ? 0 : (std::int64_t)g.below(4000000000000000000ull);
        ft.ctime = fc::time_point(fc::duration(c));
        ft.atime = fc::time_point(fc::duration(a));
        ft.mtime = fc::time_point(fc::duration(m));
        const Result r = o->h.visit([&](auto& h) { return call(thr, [&] { h.times(ft); }, [&](sys::error_code& ec) { h.times(ft, ec); }); });
        g.note("handle %zu: set times %lld %lld%s: %s", o - hs.data(), (long long)a, (long long)m, thr ? ", throwing" : "", show(r).c_str());
        if (!a && !m && o->closed && !w.fired) break;
        if (outcome(r)) {
          // (The exact times are another property's; macOS has microseconds.)
          const auto s = look(f.fd);
          const __int128 unit = 1000;
          auto near = [&](const struct timespec& t, std::int64_t v, const struct timespec& old) {
            const __int128 x = (__int128)t.tv_sec * 1000000000 + t.tv_nsec, y = v ? (__int128)v : (__int128)old.tv_sec * 1000000000 + old.tv_nsec;
            return x > y - unit && x < y + unit;
          };
          PBT_CHECK("times", near(s.st_atim, a, f.atime) && near(s.st_mtim, m, f.mtime), "set to %lld %lld, but %lld.%09ld %lld.%09ld", (long long)a, (long long)m, (long long)s.st_atim.tv_sec, s.st_atim.tv_nsec, (long long)s.st_mtim.tv_sec, s.st_mtim.tv_nsec);
          times_of(f);
          ++changes;
        }
        break;
      }
      default: {
        w.arm(0, 0);
        File& f = files[o->file];
        if (g.flip()) {
          op = "others";
          bsd::Node& n = bsd::node(f.fd);
          n.flags = f.flags = gen_flags(g);
          n.birth = f.birth = gen_birth(g);
          g.note("file %zu: flags %x and creation time %lld.%09ld set by others", o->file, f.flags, (long long)f.birth.tv_sec, f.birth.tv_nsec);
        } else if (!o->closed) {
          op = "closing";
          const Result r = o->h.close(thr);
          g.note("handle %zu: close: %s", o - hs.data(), show(r).c_str());
          PBT_CHECK("outcome", r.ok, "%s", show(r).c_str());
          o->closed = true;
        }
      }
    }
    for (auto& f : files) compare(f, op);
  }
  if (faults) g.label("fault");
  if (changes && reads) g.nontrivial();
}
