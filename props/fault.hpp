// System call interposition (linked with --wrap): logs the calls made on watched
// descriptors and paths, and makes them fail, be interrupted or transfer less
// according to a generated plan. Everything else is passed through.
#ifndef VERIF_FAULT_HPP
#define VERIF_FAULT_HPP
#include "compat.hpp"
#include <set>
#include <sys/uio.h>

namespace fault {

enum Kind { pass, eintr, error, partial };
struct Action { Kind kind = pass; int err = 0; std::size_t n = 0; };

struct Call
{
  std::string name;
  int fd;
  std::size_t asked;   // bytes asked for
  long result;         // what the caller was told
  int err;
  bool injected;
};

struct State
{
  std::mutex m;
  bool active = false, all_closes = false;
  std::vector<Action> plan;
  std::size_t next = 0;
  std::set<int> watched;
  std::string prefix; // paths starting like this are eligible
  std::set<std::string> only; // kinds of calls to inject into; empty: all
  std::function<void(const char*)> hook; // called before each logged call
  std::function<void()> closed;          // called after each logged close
  // Takes the place of reading and writing on watched descriptors (offset -1: sequential).
  std::function<long(bool, const iovec*, int, off_t)> fake;
  std::vector<Call> log;
};
inline State& state() { static State s; return s; }

inline void begin(std::vector<Action> plan, std::set<int> fds, std::string prefix = "")
{
  State& s = state();
  std::lock_guard<std::mutex> l(s.m);
  s.plan = std::move(plan);
  s.next = 0;
  s.watched = std::move(fds);
  s.prefix = std::move(prefix);
  s.log.clear();
  s.active = true;
}

inline std::vector<Call> end()
{
  State& s = state();
  std::lock_guard<std::mutex> l(s.m);
  s.active = false;
  s.hook = nullptr;
  s.closed = nullptr;
  s.fake = nullptr;
  return s.log;
}

// RAII: never leave the faults on.
struct Scope
{
  Scope(std::vector<Action> plan, std::set<int> fds, std::string prefix = "")
  { begin(std::move(plan), std::move(fds), std::move(prefix)); }
  ~Scope() { end(); }
};

inline std::string show(const std::vector<Action>& p)
{
  std::string r;
  for (auto& a : p)
    r += a.kind == pass ? " pass" : a.kind == eintr ? " EINTR" : a.kind == error ? pbt::strf(" error(%d)", a.err) : pbt::strf(" partial(%zu)", a.n);
  return "[" + r + " ]";
}
inline std::string show(const std::vector<Call>& c)
{
  std::string r;
  for (std::size_t i = 0; i != c.size() && i < 40; ++i)
    r += pbt::strf(" %s(%d, %zu)=%ld%s", c[i].name.c_str(), c[i].fd, c[i].asked, c[i].result, c[i].result < 0 ? pbt::strf("/%d", c[i].err).c_str() : "");
  return "[" + r + " ]";
}

// Takes the next action if a call on this descriptor (or path) is eligible.
inline bool take(const char* name, int fd, const char* path, Action& a)
{
  State& s = state();
  std::lock_guard<std::mutex> l(s.m);
  if (!s.active) return false;
  if (path) {
    if (s.prefix.empty() || strncmp(path, s.prefix.c_str(), s.prefix.size()) != 0) return false;
  } else if (s.watched.count(fd) == 0) return false;
  a = Action();
  if (s.only.empty() || s.only.count(name))
    if (s.next < s.plan.size()) a = s.plan[s.next++];
  return true;
}
inline void record(const char* name, int fd, std::size_t asked, long r, int e, bool injected)
{
  State& s = state();
  std::lock_guard<std::mutex> l(s.m);
  s.log.push_back(Call{name, fd, asked, r, e, injected});
}
inline void watch(int fd, bool on)
{
  State& s = state();
  std::lock_guard<std::mutex> l(s.m);
  if (on) s.watched.insert(fd); else s.watched.erase(fd);
}

template <typename F>
long io(const char* name, int fd, std::size_t asked, F real)
{
  Action a;
  if (!take(name, fd, nullptr, a)) return real(~std::size_t(0));
  if (state().hook) state().hook(name);
  long r;
  bool injected = a.kind != pass;
  if (a.kind == eintr || a.kind == error) {
    r = -1;
    errno = a.kind == eintr ? EINTR : a.err;
  } else {
    r = real(a.kind == partial ? std::max<std::size_t>(a.n, 1) : ~std::size_t(0));
  }
  const int e = r < 0 ? errno : 0;
  record(name, fd, asked, r, e, injected);
  if (r < 0) errno = e;
  return r;
}

template <typename F>
long iov(const char* name, int fd, const iovec* v, int n, off_t off, F real)
{
  std::size_t total = 0;
  for (int i = 0; i < n; ++i) total += v[i].iov_len;
  return io(name, fd, total, [&](std::size_t max) -> long {
    if (state().active && state().fake && state().watched.count(fd)) return state().fake(*name == 'r', v, n, off);
    if (max >= total) return real(v, n);
    std::vector<iovec> c;
    for (int i = 0; i < n && max; ++i) {
      c.push_back(v[i]);
      c.back().iov_len = std::min(c.back().iov_len, max);
      max -= c.back().iov_len;
    }
    return real(c.data(), (int)c.size());
  });
}

} // namespace fault

extern "C" {
#define VF_REAL(ret, name, ...) ret __real_##name(__VA_ARGS__); ret __wrap_##name(__VA_ARGS__)
VF_REAL(ssize_t, readv, int fd, const iovec* v, int n)
{ return fault::iov("read", fd, v, n, -1, [&](const iovec* x, int c) { return __real_readv(fd, x, c); }); }
VF_REAL(ssize_t, writev, int fd, const iovec* v, int n)
{ return fault::iov("write", fd, v, n, -1, [&](const iovec* x, int c) { return __real_writev(fd, x, c); }); }
#define VF_PV(name, kind) VF_REAL(ssize_t, name, int fd, const iovec* v, int n, off_t o) \
{ return fault::iov(kind, fd, v, n, o, [&](const iovec* x, int c) { return __real_##name(fd, x, c, o); }); }
VF_PV(preadv, "read") VF_PV(preadv64, "read") VF_PV(pwritev, "write") VF_PV(pwritev64, "write")
#define VF_ONE(p, n) const iovec one = {const_cast<void*>(static_cast<const void*>(p)), n}
VF_REAL(ssize_t, read, int fd, void* p, size_t n)
{ VF_ONE(p, n); return fault::iov("read", fd, &one, 1, -1, [&](const iovec* x, int) { return __real_read(fd, p, x->iov_len); }); }
VF_REAL(ssize_t, write, int fd, const void* p, size_t n)
{ VF_ONE(p, n); return fault::iov("write", fd, &one, 1, -1, [&](const iovec* x, int) { return __real_write(fd, p, x->iov_len); }); }
#define VF_PR(name, kind, cv) VF_REAL(ssize_t, name, int fd, cv void* p, size_t n, off_t o) \
{ VF_ONE(p, n); return fault::iov(kind, fd, &one, 1, o, [&](const iovec* x, int) { return __real_##name(fd, p, x->iov_len, o); }); }
VF_PR(pread, "read", ) VF_PR(pread64, "read", ) VF_PR(pwrite, "write", const) VF_PR(pwrite64, "write", const)

// A failing close still releases the descriptor, as on Linux.
VF_REAL(int, close, int fd)
{
  fault::Action a;
  if (!fault::take("close", fd, nullptr, a)) {
    const int r = __real_close(fd), e = r < 0 ? errno : 0;
    if (fault::state().active && fault::state().all_closes) fault::record("stray close", fd, 0, r, e, false);
    if (r < 0) errno = e;
    return r;
  }
  if (fault::state().hook) fault::state().hook("close");
  fault::watch(fd, false);
  int r = __real_close(fd);
  if (r == 0 && (a.kind == fault::eintr || a.kind == fault::error)) {
    r = -1;
    errno = a.kind == fault::eintr ? EINTR : a.err;
  }
  const int e = r < 0 ? errno : 0;
  fault::record("close", fd, 0, r, e, a.kind == fault::eintr || a.kind == fault::error);
  if (fault::state().closed) fault::state().closed();
  if (r < 0) errno = e;
  return r;
}
#define VF_OPEN(name) int __real_##name(const char* p, int f, ...); int __wrap_##name(const char* p, int f, ...) \
{ \
  va_list ap; va_start(ap, f); const unsigned mode = f & (O_CREAT | O_TMPFILE) ? va_arg(ap, unsigned) : 0; va_end(ap); \
  fault::Action a; \
  if (!fault::take("open", -1, p, a)) return __real_##name(p, f, mode); \
  int r = -1; \
  if (a.kind == fault::eintr) errno = EINTR; \
  else if (a.kind == fault::error) errno = a.err; \
  else r = __real_##name(p, f, mode); \
  const int e = r < 0 ? errno : 0; \
  if (r >= 0) fault::watch(r, true); \
  fault::record("open", r, 0, r, e, a.kind == fault::eintr || a.kind == fault::error); \
  if (r < 0) errno = e; \
  return r; \
}
VF_OPEN(open) VF_OPEN(open64)
#define VF_OPENAT(name, plain) int __real_##name(int d, const char* p, int f, ...); int __wrap_##name(int d, const char* p, int f, ...) \
{ \
  va_list ap; va_start(ap, f); const unsigned mode = f & (O_CREAT | O_TMPFILE) ? va_arg(ap, unsigned) : 0; va_end(ap); \
  return d == AT_FDCWD ? __wrap_##plain(p, f, mode) : __real_##name(d, p, f, mode); \
}
VF_OPENAT(openat, open) VF_OPENAT(openat64, open64)
#define VF_SIMPLE(ret, name, kind, params, args) ret __real_##name params; ret __wrap_##name params \
{ return (ret)fault::io(kind, fd, 0, [&](size_t) -> long { return (long)__real_##name args; }); }
VF_SIMPLE(int, fstat, "fstat", (int fd, struct stat* s), (fd, s))
VF_SIMPLE(int, fstat64, "fstat", (int fd, struct stat64* s), (fd, s))
VF_SIMPLE(off_t, lseek, "lseek", (int fd, off_t o, int w), (fd, o, w))
VF_SIMPLE(off_t, lseek64, "lseek", (int fd, off_t o, int w), (fd, o, w))
VF_SIMPLE(int, ftruncate, "ftruncate", (int fd, off_t o), (fd, o))
VF_SIMPLE(int, ftruncate64, "ftruncate", (int fd, off_t o), (fd, o))
VF_SIMPLE(int, fchmod, "fchmod", (int fd, mode_t m), (fd, m))
VF_SIMPLE(int, futimens, "futimens", (int fd, const struct timespec* t), (fd, t))
int __real_dup(int fd); int __wrap_dup(int fd)
{
  const int r = (int)fault::io("dup", fd, 0, [&](size_t) -> long { return __real_dup(fd); });
  if (r >= 0 && fault::state().active) fault::watch(r, true);
  return r;
}
// Another way to duplicate descriptors.
#define VF_FCNTL(name) int __real_##name(int fd, int c, ...); int __wrap_##name(int fd, int c, ...) \
{ \
  va_list ap; va_start(ap, c); void* const p = va_arg(ap, void*); va_end(ap); \
  if (c != F_DUPFD && c != F_DUPFD_CLOEXEC) return __real_##name(fd, c, p); \
  const int r = (int)fault::io("dup", fd, 0, [&](size_t) -> long { return __real_##name(fd, c, p); }); \
  if (r >= 0 && fault::state().active) fault::watch(r, true); \
  return r; \
}
VF_FCNTL(fcntl) VF_FCNTL(fcntl64)
ssize_t __real_preadv2(int fd, const iovec* v, int n, off_t o, int f); ssize_t __wrap_preadv2(int fd, const iovec* v, int n, off_t o, int f)
{ return fault::iov("read", fd, v, n, o, [&](const iovec* x, int c) { return __real_preadv2(fd, x, c, o, f); }); }
ssize_t __real_pwritev2(int fd, const iovec* v, int n, off_t o, int f); ssize_t __wrap_pwritev2(int fd, const iovec* v, int n, off_t o, int f)
{ return fault::iov("write", fd, v, n, o, [&](const iovec* x, int c) { return __real_pwritev2(fd, x, c, o, f); }); }
}

#endif
