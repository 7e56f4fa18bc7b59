// P14: permissions of open files against the modes an independent descriptor sees.
#include "fault.hpp"
#include "file_common.hpp"
#include "asioext/file_attrs.hpp"
#include "asioext/open_flags.hpp"
#include <sys/mman.h>
using namespace fx;
using asioext::file_perms;
using asioext::file_attrs;
typedef asioext::file_perm_options opt;

void pbt::setup(const std::string&) {}

namespace {

const opt opts[] = {opt::replace, opt::add, opt::remove};
const char* const names[] = {"replace", "add", "remove"};

unsigned expected(unsigned old, unsigned perms, int o)
{
  perms &= 0777;
  return o == 0 ? perms : o == 1 ? old | perms : old & ~perms;
}

unsigned mode_of(int fd)
{
  struct stat st;
  return ::fstat(fd, &st) == 0 ? st.st_mode & 07777 : ~0u;
}

template <typename H>
Result set(H& h, bool thr, unsigned perms, int o, bool implicit)
{
  const file_perms p = static_cast<file_perms>(perms);
  if (o == 0 && implicit)
    return call(thr, [&] { h.permissions(p); }, [&](sys::error_code& ec) { h.permissions(p, ec); });
  return call(thr, [&] { h.permissions(p, opts[o]); }, [&](sys::error_code& ec) { h.permissions(p, opts[o], ec); });
}

} // namespace

PBT_ENUM(modes_and_masks, 0, 4096 * 3)
{
  const unsigned n = static_cast<unsigned>(g.below(4096 * 3)), old = n / 3;
  const int o = static_cast<int>(n % 3);
  const int fd = ::memfd_create("m", MFD_CLOEXEC);
  struct Close { int fd; ~Close() { ::close(fd); } } c{fd};
  asioext::file_handle h(fd);
  g.note("mode %o, %s", old, names[o]);
  for (unsigned m = 0; m != 512; ++m) {
    PBT_CHECK("setup", ::fchmod(fd, old) == 0);
    const Result r = set(h, m & 1, m, o, m & 2);
    PBT_CHECK("set", r.ok, "%s", show(r).c_str());
    PBT_CHECK("mode", mode_of(fd) == expected(old, m, o), "%s %o to mode %o gives %o, expected %o", names[o], m, old, mode_of(fd), expected(old, m, o));
    sys::error_code ec = stale();
    const file_perms got = m & 4 ? h.permissions() : h.permissions(ec);
    PBT_CHECK("get", static_cast<unsigned>(got) == (expected(old, m, o) & 0777), "reads %o", static_cast<unsigned>(got));
  }
  g.beat();
}

PBT_PROP(histories, 3)
{
  // Files (each with a second descriptor to look at it) and handles for them.
  const std::size_t nf = g.range(1, 2), nh = g.range(1, 4);
  struct File { int fd; unsigned mode; };
  std::vector<File> files;
  std::vector<Handle> hs;
  std::vector<std::size_t> of;
  struct Cleanup
  {
    std::vector<File>& f; std::vector<Handle>& h;
    ~Cleanup() { fault::end(); for (auto& x : h) if (x.kind == plain) ::close(x.fh.native_handle()); for (auto& x : f) ::close(x.fd); }
  } cleanup{files, hs};
  for (std::size_t i = 0; i != nf; ++i) {
    const std::string p = pbt::scratch_dir() + "/p" + std::to_string(i);
    const int fd = g.flip() ? ::memfd_create("m", MFD_CLOEXEC) : ::open(p.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600);
    PBT_CHECK("setup", fd != -1);
    ::unlink(p.c_str());
    const unsigned m = static_cast<unsigned>(g.flip() ? g.below(4096) : g.below(512));
    PBT_CHECK("setup", ::fchmod(fd, m) == 0);
    files.push_back({fd, m});
    g.note("file %zu: mode %o", i, m);
  }
  for (std::size_t i = 0; i != nh; ++i) {
    of.push_back(g.below(nf));
    const Kind k = static_cast<Kind>(g.below(nkinds));
    hs.push_back(Handle::adopt(k, ::fcntl(files[of.back()].fd, F_DUPFD_CLOEXEC, 0)));
    g.note("handle %zu: %s for file %zu", i, name(k), of.back());
  }
  const std::size_t n = g.range(1, 12);
  std::size_t changes = 0;
  for (std::size_t i = 0; i != n; ++i) {
    const std::size_t k = g.below(nh);
    Handle& h = hs[k];
    File& f = files[of[k]];
    const bool thr = g.flip();
    fault::Action a;
    if (g.chance(1, 8)) { a.kind = fault::error; a.err = g.pick({EIO, EPERM, EROFS}); }
    const std::size_t what = g.weighted({6, 4, 1, 1});
    std::vector<fault::Action> plan;
    if (a.kind != fault::pass && g.flip()) plan.push_back(fault::Action());
    plan.push_back(a);
    Result r{true, 0, {}};
    auto run = [&](auto fn) {
      fault::Scope sc(plan, {h.fd()});
      r = fn();
      bool failed = false;
      for (auto& c : fault::end()) failed |= c.injected;
      PBT_CHECK("outcome", r.ok == !failed, "%s", show(r).c_str());
      if (failed) { PBT_CHECK("error", r.ec == os_error(a.err), "%s", show(r).c_str()); g.label("fault"); }
      return !failed;
    };
    switch (what) {
      case 0: { // change
        const int o = static_cast<int>(g.below(3));
        // (bits beyond the permissions only where they have no defined effect)
        unsigned p = static_cast<unsigned>(g.below(512));
        if (o && g.chance(1, 6)) p |= static_cast<unsigned>(g.below(128) << 9);
        const bool implicit = g.flip();
        g.note("handle %zu: %s %o%s", k, names[o], p, thr ? ", throwing" : "");
        if (run([&] { return h.visit([&](auto& x) { return set(x, thr, p, o, implicit); }); })) {
          const unsigned e = expected(f.mode, p, o);
          changes += e != f.mode;
          f.mode = e;
        }
        break;
      }
      case 1: { // read
        g.note("handle %zu: read%s", k, thr ? ", throwing" : "");
        if (run([&] { return h.visit([&](auto& x) { return call(thr, [&] { return x.permissions(); }, [&](sys::error_code& ec) { return x.permissions(ec); }); }); }))
          PBT_CHECK("get", r.v == (f.mode & 0777), "reads %o, expected %o", (unsigned)r.v, f.mode & 0777);
        break;
      }
      case 2: { // changed by somebody else
        f.mode = static_cast<unsigned>(g.below(4096));
        g.note("file %zu: mode set to %o by others", of[k], f.mode);
        PBT_CHECK("setup", ::fchmod(f.fd, f.mode) == 0);
        break;
      }
      default: { // file attributes: there are none here
        const auto o = g.pick({asioext::file_attr_options::replace, asioext::file_attr_options::add, asioext::file_attr_options::remove});
        const file_attrs at = static_cast<file_attrs>(g.below(512));
        const bool implicit = g.flip();
        g.note("handle %zu: attributes", k);
        run([&] { return h.visit([&](auto& x) {
          if (implicit) return call(thr, [&] { x.attributes(at); }, [&](sys::error_code& ec) { x.attributes(at, ec); });
          return call(thr, [&] { x.attributes(at, o); }, [&](sys::error_code& ec) { x.attributes(at, o, ec); });
        }); });
        if (run([&] { return h.visit([&](auto& x) { return call(thr, [&] { return static_cast<std::uint32_t>(x.attributes()); }, [&](sys::error_code& ec) { return static_cast<std::uint32_t>(x.attributes(ec)); }); }); }))
          PBT_CHECK("attributes", r.v == 0);
        break;
      }
    }
    for (std::size_t j = 0; j != nf; ++j)
      PBT_CHECK("mode", mode_of(files[j].fd) == files[j].mode, "file %zu has mode %o, expected %o", j, mode_of(files[j].fd), files[j].mode);
  }
  if (changes >= 2) g.nontrivial();
}

namespace {

template <typename E>
void algebra(Gen& g, const char* what)
{
  typedef std::underlying_type_t<E> U;
  const U a = static_cast<U>(g.num(0xffffffffu)), b = static_cast<U>(g.num(0xffffffffu));
  const E x = static_cast<E>(a), y = static_cast<E>(b);
  g.note("%s %llx, %llx", what, (unsigned long long)a, (unsigned long long)b);
  PBT_CHECK("and", (x & y) == static_cast<E>(a & b));
  PBT_CHECK("or", (x | y) == static_cast<E>(a | b));
  PBT_CHECK("xor", (x ^ y) == static_cast<E>(a ^ b));
  PBT_CHECK("not", (~x) == static_cast<E>(~a));
  E z = x;
  PBT_CHECK("and=", &(z &= y) == &z && z == static_cast<E>(a & b));
  z = x;
  PBT_CHECK("or=", &(z |= y) == &z && z == static_cast<E>(a | b));
  z = x;
  PBT_CHECK("xor=", &(z ^= y) == &z && z == static_cast<E>(a ^ b));
  if (a && b) g.nontrivial();
}

} // namespace

PBT_PROP(set_algebra, 1)
{
  switch (g.below(5)) {
    case 0: algebra<file_perms>(g, "file_perms"); break;
    case 1: algebra<file_attrs>(g, "file_attrs"); break;
    case 2: algebra<asioext::file_perm_options>(g, "file_perm_options"); break;
    case 3: algebra<asioext::file_attr_options>(g, "file_attr_options"); break;
    default: algebra<asioext::open_flags>(g, "open_flags"); break;
  }
}

// The named permissions are those of the operating system.
PBT_ENUM(names_and_bits, 0, 19)
{
  const struct { file_perms p; unsigned m; } t[] = {
    {file_perms::none, 0}, {file_perms::owner_read, S_IRUSR}, {file_perms::owner_write, S_IWUSR}, {file_perms::owner_exec, S_IXUSR},
    {file_perms::owner_all, S_IRWXU}, {file_perms::group_read, S_IRGRP}, {file_perms::group_write, S_IWGRP}, {file_perms::group_exec, S_IXGRP},
    {file_perms::group_all, S_IRWXG}, {file_perms::others_read, S_IROTH}, {file_perms::others_write, S_IWOTH}, {file_perms::others_exec, S_IXOTH},
    {file_perms::others_all, S_IRWXO}, {file_perms::all, 0777}, {file_perms::set_uid, S_ISUID}, {file_perms::set_gid, S_ISGID},
    {file_perms::sticky_bit, S_ISVTX}, {file_perms::create_default, 0666}, {file_perms::mask, 07777}};
  const auto& x = t[g.below(19)];
  const int fd = ::memfd_create("m", MFD_CLOEXEC);
  struct Close { int fd; ~Close() { ::close(fd); } } c{fd};
  g.note("permission %o", x.m);
  PBT_CHECK("bits", static_cast<unsigned>(x.p) == x.m);
  asioext::file_handle(fd).permissions(x.p & file_perms::all);
  PBT_CHECK("mode", mode_of(fd) == (x.m & 0777));
}
