// P09: open() does what disposition, access, permissions and validity say.
#include "file_common.hpp"
#include <sys/syscall.h>
#include <climits>
using namespace fx;

// Targets are reached by relative paths, so that another user needs no access to
// the directories above.
void pbt::setup(const std::string& d)
{
  if (::chmod(d.c_str(), 0755) != 0 || ::chdir(d.c_str()) != 0) _exit(2);
}

namespace {

// States of the target before opening it.
enum State { missing, empty_file, full_file, locked_file, directory, dangling_link, link_to_file, link_loop,
             no_parent, not_a_dir_parent, long_name, no_name, nstates };
const char* const state_names[] = {"missing", "empty", "non-empty", "restricted-mode", "directory", "dangling symlink", "symlink to file",
  "symlink loop", "missing parent", "parent is a file", "name too long", "empty name"};

// A directory entry set up in the given state. Two identical ones are made:
// one for the library, one for the reference.
struct Target
{
  std::string dir, path;
  State st;
  std::string data;

  Target(const std::string& name, State s, const std::string& contents, mode_t mode)
    : dir(pbt::scratch_dir() + "/" + name), path(name + "/t"), st(s)
  {
    const std::string d = name;
    ::mkdir(dir.c_str(), 0777);
    ::chmod(dir.c_str(), 0777);
    auto put = [&](const std::string& p, const std::string& c, mode_t m) {
      const int fd = ::open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600);
      if (::write(fd, c.data(), c.size()) != (ssize_t)c.size()) pbt::fail("setup", "write");
      ::fchmod(fd, m);
      ::close(fd);
    };
    switch (s) {
      case empty_file: put(path, "", 0666); break;
      case full_file: put(path, data = contents, 0666); break;
      case locked_file: put(path, data = contents, mode); break;
      case directory: ::mkdir(path.c_str(), 0777); break;
      case dangling_link: if (::symlink("target", path.c_str())) {} break;
      case link_to_file: put(d + "/target", data = contents, 0644); if (::symlink("target", path.c_str())) {} break;
      case link_loop: if (::symlink("t", path.c_str())) {} break;
      case no_parent: path = d + "/x/t"; break;
      case not_a_dir_parent: put(path, data = contents, 0644); path += "/t"; break;
      case long_name: path = d + "/" + std::string(300, 'n'); break;
      case no_name: path = ""; break;
      default: break;
    }
  }
  ~Target()
  {
    for (const char* n : {"/t", "/target", "/x"})
      if (::unlink((dir + n).c_str()) != 0) ::rmdir((dir + n).c_str());
    ::rmdir(dir.c_str());
  }

  // Everything observable about the directory: names, types, modes, contents.
  std::string observe() const
  {
    std::string r;
    for (const char* n : {"t", "target", "x"}) {
      const std::string p = dir + "/" + n;
      struct stat s;
      if (::lstat(p.c_str(), &s) != 0) { r += std::string(n) + ":- "; continue; }
      r += pbt::strf("%s:%o", n, (unsigned)s.st_mode);
      if (S_ISREG(s.st_mode)) {
        const int fd = ::open(p.c_str(), O_RDONLY | O_CLOEXEC);
        r += "=" + slurp_fd(fd);
        ::close(fd);
      }
      r += " ";
    }
    return r;
  }
};

// Effective user id of this thread only.
struct As
{
  bool on = false;
  explicit As(bool other)
  {
    if (other && geteuid() == 0) {
      on = syscall(SYS_setresgid, -1, 65534, -1) == 0;
      if (on && syscall(SYS_setresuid, -1, 65534, -1) != 0) { syscall(SYS_setresgid, -1, 0, -1); on = false; }
    }
  }
  ~As() { if (on) { syscall(SYS_setresuid, -1, 0, -1); syscall(SYS_setresgid, -1, 0, -1); } }
};

// What the flags mean, written down independently.
bool valid(unsigned f)
{
  int n = 0;
  for (int b = 2; b <= 6; ++b) n += (f >> b) & 1;
  return n <= 1;
}

int native(unsigned f)
{
  int n = 0;
  if (f & 4) n |= O_CREAT | O_EXCL;
  if (f & 8) n |= O_CREAT | O_TRUNC;
  if (f & 32) n |= O_CREAT;
  if (f & 64) n |= O_TRUNC;
  n |= (f & 3) == 3 ? O_RDWR : (f & 3) == 2 ? O_WRONLY : O_RDONLY;
  return n;
}

std::string show_flags(unsigned f)
{
  static const char* const n[] = {"read", "write", "create_new", "create_always", "open_existing", "open_always",
    "truncate_existing", "exclusive_read", "exclusive_write"};
  std::string r;
  for (int i = 0; i != 9; ++i) if (f >> i & 1) r += (r.empty() ? "" : "|") + std::string(n[i]);
  return r.empty() ? "none" : r;
}

struct Opened
{
  Result r;
  Handle h;
};

const char* const form_names[] = {"open(throwing)", "open(ec)", "file::open(throwing)", "file::open(ec)", "file(throwing)", "file(ec)"};

template <typename Path>
Opened do_open(int form, const Path& path, const asioext::open_args& args)
{
  Opened o{{true, 0, {}}, Handle::empty(form < 2 ? owning : object)};
  const bool thr = form % 2 == 0;
  switch (form) {
    case 0: case 1:
      o.r = call(thr, [&] { *o.h.uh = asioext::open(path, args); }, [&](sys::error_code& ec) { *o.h.uh = asioext::open(path, args, ec); });
      break;
    case 2: case 3:
      o.r = call(thr, [&] { o.h.f->open(path, args); }, [&](sys::error_code& ec) { o.h.f->open(path, args, ec); });
      break;
    default:
      o.r = call(thr, [&] { o.h.f.reset(new asioext::file(context(), path, args)); },
                 [&](sys::error_code& ec) { o.h.f.reset(new asioext::file(context(), path, args, ec)); });
      break;
  }
  return o;
}

Opened open_form(Gen& g, int form, const std::string& path, const asioext::open_args& args)
{
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
  if (g.chance(1, 3)) { g.note("  (boost path)"); return do_open(form, boost::filesystem::path(path), args); }
#endif
  return do_open(form, path.c_str(), args);
}

void one(Gen& g, unsigned f, State st)
{
  const std::string contents = g.bytes(1 + g.below(40));
  const mode_t restricted = g.pick({0444, 0222, 0, 0644, 0400, 0200, 0440, 0060});
  context(); // creates its own descriptors
  DescriptorZero zero;
  zero.free(g);
  Target mine("m", st, contents, restricted), ref("r", st, contents, restricted);
  const int form = (int)g.below(6);
  const bool use_perms = g.chance(3, 4), use_attrs = use_perms && g.chance(1, 4);
  const unsigned perms = use_perms ? (unsigned)g.below(01000) : 0666;
  const auto attrs = static_cast<asioext::file_attrs>(use_attrs ? g.below(512) : 0);
  const mode_t mask = g.flip() ? 022 : (mode_t)g.below(01000);
  const bool other = g.chance(st == locked_file ? 3 : 1, 4);
  const auto fl = static_cast<open_flags>(f);
  g.note("%s, target: %s%s, %s, perms %o%s, umask %o, mode %o", form_names[form], state_names[st], other ? " (other user)" : "",
         show_flags(f).c_str(), perms, use_perms ? "" : " (default)", (unsigned)mask, (unsigned)restricted);

  PBT_CHECK("is-valid", asioext::is_valid(fl) == valid(f), "is_valid(%s)", show_flags(f).c_str());
  asioext::open_args args = !use_perms ? asioext::open_args(fl)
      : !use_attrs ? asioext::open_args(fl, static_cast<asioext::file_perms>(perms))
      : asioext::open_args(fl, static_cast<asioext::file_perms>(perms), attrs);
  PBT_CHECK("is-valid", args.is_valid() == valid(f), "open_args(%s).is_valid()", show_flags(f).c_str());

  int extra = 0;
  unsigned mode = perms;
  if (valid(f) && g.chance(1, 6)) { // native arguments changed by hand
    extra = O_APPEND;
    mode = (unsigned)g.below(g.chance(1, 4) ? 010000 : 01000);
    args.native_flags(args.native_flags() | extra);
    args.mode(mode);
    g.note("  native: O_APPEND, mode %o", mode);
  }

  const std::string before = mine.observe();
  const int fd0 = next_fd();
  Opened o;
  int rfd = -1, rerr = 0;
  {
    const mode_t old = ::umask(mask);
    As as(other);
    try { o = open_form(g, form, mine.path, args); } catch (...) { ::umask(old); throw; }
    if (valid(f)) {
      rfd = ::open(ref.path.c_str(), O_CLOEXEC | native(f) | extra, mode);
      rerr = rfd == -1 ? errno : 0;
    }
    ::umask(old);
  }
  struct Closer { int f; ~Closer() { if (f != -1) ::close(f); } } closer{rfd};
  g.note("  -> %s", show(o.r).c_str());

  if (!valid(f)) {
    PBT_CHECK("invalid-accepted", !o.r.ok && !o.h.is_open(), "%s", show_flags(f).c_str());
    PBT_CHECK("invalid-code", o.r.ec == os_error(EINVAL), "%s", show(o.r).c_str());
    PBT_CHECK("invalid-effect", mine.observe() == before);
    return;
  }
  g.nontrivial();

  // What the dispositions promise for plain targets.
  if (st <= full_file) {
    const bool creates = f & (4 | 8 | 32), fails = (f & 4) ? st != missing : (creates ? false : st == missing);
    PBT_CHECK("disposition-result", o.r.ok == !fails, "%s on a %s file: %s", show_flags(f).c_str(), state_names[st], show(o.r).c_str());
  }

  PBT_CHECK("result", o.r.ok == (rfd != -1), "%s, the system says %s", show(o.r).c_str(), rfd != -1 ? "ok" : strerror(rerr));
  PBT_CHECK("is-open", o.h.is_open() == o.r.ok);
  if (!o.r.ok) {
    PBT_CHECK("error-code", o.r.ec == os_error(rerr), "%s, expected %s", show(o.r).c_str(), strerror(rerr));
    PBT_CHECK("descriptor-leak", next_fd() == fd0, "next descriptor %d, before %d", next_fd(), fd0);
  }
  std::string a = mine.observe(), b = ref.observe();
  PBT_CHECK("effect", a == b, "file system is %.200s, expected %.200s", a.c_str(), b.c_str());
  if (!o.r.ok) return;

  const int fd = o.h.fd();
  PBT_CHECK("cloexec", ::fcntl(fd, F_GETFD) & FD_CLOEXEC, "the descriptor would be inherited");
  PBT_CHECK("status-flags", ::fcntl(fd, F_GETFL) == ::fcntl(rfd, F_GETFL), "status flags are 0x%x, expected 0x%x", ::fcntl(fd, F_GETFL), ::fcntl(rfd, F_GETFL));
  if (st == missing) {
    struct stat s;
    ::fstat(fd, &s);
    PBT_CHECK("mode", (s.st_mode & 07777) == (mode & ~mask & 07777), "mode is %o", (unsigned)s.st_mode);
  }
  if (st == directory) return;
  // access granted
  struct stat s;
  ::fstat(fd, &s);
  if ((f & 3) != 0) {
    const Bufs w = [] { Bufs x; x.add(std::string("zz")); return x; }();
    const Bufs r = [] { Bufs x; x.add(1); return x; }();
    const Result rd = o.h.read_some_at(false, 0, r, Bufs::vec);
    if (f & 1) PBT_CHECK("read-access", s.st_size ? rd.ok : rd.ec == asio::error::eof, "%s", show(rd).c_str());
    else PBT_CHECK("read-access", rd.ec == os_error(EBADF), "%s", show(rd).c_str());
    const Result wr = o.h.write_some(false, w, Bufs::vec);
    if (f & 2) PBT_CHECK("write-access", wr.ok && wr.v == 2, "%s", show(wr).c_str());
    else PBT_CHECK("write-access", wr.ec == os_error(EBADF), "%s", show(wr).c_str());
  }
  const Result c = o.h.close(g.flip());
  PBT_CHECK("close", c.ok && ::fcntl(fd, F_GETFD) == -1);
}

} // namespace

// All documented flags crossed with all states of the target.
PBT_ENUM(flags_and_states, 4, 512 * nstates)
{
  const std::uint64_t i = g.below(512 * nstates);
  one(g, (unsigned)(i % 512), static_cast<State>(i / 512));
}

// Valid combinations only, weighted towards targets that can be opened.
PBT_PROP(dispositions, 8)
{
  static const unsigned disp[] = {0, 4, 8, 16, 32, 64};
  const unsigned f = disp[g.below(6)] | (unsigned)g.below(4) | (unsigned)(g.below(4) << 7);
  const State st = g.chance(3, 4) ? static_cast<State>(g.below(4)) : static_cast<State>(g.below(nstates));
  one(g, f, st);
}

// Opening through an object that already holds a file.
PBT_PROP(already_open, 2)
{
  context();
  DescriptorZero zero;
  zero.free(g);
  Target a("a", full_file, "contents", 0644);
  const State st = static_cast<State>(g.below(nstates));
  Target b("b", st, "other", 0644);
  const unsigned f = (unsigned)g.below(512);
  g.note("file::open on an open file: %s, target %s", show_flags(f).c_str(), state_names[st]);
  asioext::file x(context(), a.path.c_str(), asioext::open_args(open_flags::open_existing | open_flags::access_read_write));
  const int fd = x.native_handle();
  const std::uint64_t pos = x.seek(asioext::seek_origin::from_begin, 3);
  const std::string before = b.observe();
  const int n = next_fd();
  const asioext::open_args args = g.chance(1, 8) ? asioext::open_args() : asioext::open_args(static_cast<open_flags>(f));
  const int form = 2 + (int)g.flip();
  Result r;
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
  if (g.chance(1, 3)) {
    const boost::filesystem::path path(b.path);
    r = form == 2 ? call(true, [&] { x.open(path, args); }, [](sys::error_code&) {})
                  : call(false, [] {}, [&](sys::error_code& ec) { x.open(path, args, ec); });
  } else
#endif
  r = form == 2 ? call(true, [&] { x.open(b.path.c_str(), args); }, [](sys::error_code&) {})
                             : call(false, [] {}, [&](sys::error_code& ec) { x.open(b.path.c_str(), args, ec); });
  PBT_CHECK("already-open", !r.ok && r.ec == asio::error::already_open, "%s", show(r).c_str());
  PBT_CHECK("already-open-effect", b.observe() == before && next_fd() == n);
  PBT_CHECK("already-open-held", x.is_open() && x.native_handle() == fd && x.position() == pos && a.observe().find("contents") != std::string::npos);
  char c;
  PBT_CHECK("already-open-usable", x.read_some(asio::buffer(&c, 1)) == 1 && c == 't');
  g.nontrivial();
}

PBT_PROP(no_arguments, 1)
{
  Target t("a", static_cast<State>(g.below(nstates)), "contents", 0644);
  const int form = (int)g.below(6);
  const std::string before = t.observe();
  PBT_CHECK("default-args", !asioext::open_args().is_valid());
  Opened o = open_form(g, form, t.path, asioext::open_args());
  PBT_CHECK("default-args", !o.r.ok && !o.h.is_open() && o.r.ec == os_error(EINVAL) && t.observe() == before, "%s", show(o.r).c_str());
}
