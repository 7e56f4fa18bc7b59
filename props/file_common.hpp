// Things shared by the properties that deal with files: handles of all kinds
// behind one interface, buffer sequences of all shapes with guard bytes.
#ifndef VERIF_FILE_COMMON_HPP
#define VERIF_FILE_COMMON_HPP
#include "compat.hpp"
#include "asioext/open.hpp"
#include "asioext/file_handle.hpp"
#include "asioext/unique_file_handle.hpp"
#include "asioext/file.hpp"
#include "asioext/duplicate.hpp"
#include <list>
#include <memory>
#include <optional>
#include <sys/uio.h>
#include <sys/syscall.h>

namespace fx {

using asioext::open_flags;

struct Result
{
  bool ok;
  std::uint64_t v;
  sys::error_code ec;
};

inline sys::error_code stale()
{ return sys::error_code(EDOM, sys::generic_category()); }

inline sys::error_code os_error(int e)
{ return sys::error_code(e, asio::error::get_system_category()); }

// Calls either the throwing form t() or the error code form e(ec).
template <typename T, typename E>
Result call(bool throwing, T t, E e)
{
  Result r{true, 0, {}};
  if (throwing) {
    try {
      if constexpr (std::is_void_v<decltype(t())>) t();
      else r.v = static_cast<std::uint64_t>(t());
    } catch (const sys::system_error& x) {
      r.ok = false;
      r.ec = x.code();
      PBT_CHECK("thrown-success", bool(r.ec), "an exception carrying no error was thrown: %s", x.what());
    }
  } else {
    r.ec = stale();
    if constexpr (std::is_void_v<decltype(e(r.ec))>) e(r.ec);
    else r.v = static_cast<std::uint64_t>(e(r.ec));
    r.ok = !r.ec;
  }
  return r;
}

inline std::string show(const Result& r)
{
  return r.ok ? "ok(" + std::to_string(r.v) + ")"
              : "error(" + r.ec.message() + ", " + std::to_string(r.v) + ")";
}

// One buffer sequence: separately allocated pieces, each between guard bytes.
class Bufs
{
public:
  enum { guard = 16 };

  void add(std::string data) { sizes_.push_back(data.size()); raw_.push_back(wrap(data)); }
  void add(std::size_t n) { add(std::string(n, '\xa5')); }

  std::size_t count() const { return sizes_.size(); }
  std::size_t total(std::size_t first = ~std::size_t(0)) const
  {
    std::size_t t = 0;
    for (std::size_t i = 0; i < sizes_.size() && i < first; ++i) t += sizes_[i];
    return t;
  }
  char* ptr(std::size_t i) const { return raw_[i].get() + guard; }
  std::size_t len(std::size_t i) const { return sizes_[i]; }

  // The concatenation of all pieces.
  std::string contents() const
  {
    std::string r;
    for (std::size_t i = 0; i != sizes_.size(); ++i) r.append(ptr(i), sizes_[i]);
    return r;
  }
  bool guards_intact() const
  {
    for (std::size_t i = 0; i != sizes_.size(); ++i)
      for (int k = 0; k != guard; ++k)
        if (raw_[i][k] != '\x5b' || raw_[i][guard + sizes_[i] + k] != '\x5b') return false;
    return true;
  }

  template <typename Buffer>
  std::vector<Buffer> seq() const
  {
    std::vector<Buffer> v;
    for (std::size_t i = 0; i != count(); ++i) v.emplace_back(ptr(i), len(i));
    return v;
  }

  enum Shape { vec, list_, single, arr2, nshapes };

  template <typename Buffer, typename F>
  auto with(Shape s, F f) const
  {
    switch (s) {
      case single:
        if (count() == 1) return f(Buffer(ptr(0), len(0)));
        break;
      case arr2:
        if (count() == 2)
          return f(std::array<Buffer, 2>{{Buffer(ptr(0), len(0)), Buffer(ptr(1), len(1))}});
        break;
      case list_: {
        std::list<Buffer> l;
        for (std::size_t i = 0; i != count(); ++i) l.emplace_back(ptr(i), len(i));
        return f(l);
      }
      default: break;
    }
    std::vector<Buffer> v;
    for (std::size_t i = 0; i != count(); ++i) v.emplace_back(ptr(i), len(i));
    return f(v);
  }

private:
  static std::unique_ptr<char[]> wrap(const std::string& d)
  {
    std::unique_ptr<char[]> p(new char[d.size() + 2 * guard]);
    memset(p.get(), '\x5b', guard);
    memcpy(p.get() + guard, d.data(), d.size());
    memset(p.get() + guard + d.size(), '\x5b', guard);
    return p;
  }

  std::vector<std::unique_ptr<char[]>> raw_;
  std::vector<std::size_t> sizes_;
};

// Sizes of the pieces of a generated buffer sequence.
inline std::vector<std::size_t> gen_sizes(Gen& g, std::size_t max_total, bool many)
{
  std::size_t n;
  switch (g.weighted({40, 20, 25, many ? 10u : 0u, many ? 4u : 0u})) {
    case 0: n = 1; break;
    case 1: n = 2; break;
    case 2: n = g.below(7); break;
    case 3: n = g.range(62, 66); break;
    default: n = g.range(65, 200); break;
  }
  std::vector<std::size_t> r;
  std::size_t left = max_total;
  for (std::size_t i = 0; i != n; ++i) {
    std::size_t m = n > 8 ? std::min<std::size_t>(left, 64) : left;
    std::size_t s = g.chance(1, 8) ? 0 : g.size(m);
    left -= s;
    r.push_back(s);
  }
  return r;
}

inline Bufs for_reading(const std::vector<std::size_t>& sizes)
{
  Bufs b;
  for (auto s : sizes) b.add(s);
  return b;
}

inline Bufs for_writing(Gen& g, const std::vector<std::size_t>& sizes)
{
  Bufs b;
  std::size_t total = 0;
  for (auto s : sizes) total += s;
  const std::string d = g.bytes(total);
  std::size_t p = 0;
  for (auto s : sizes) { b.add(d.substr(p, s)); p += s; }
  return b;
}

inline std::string show(const std::vector<std::size_t>& v)
{
  std::string r = "[";
  for (std::size_t i = 0; i != v.size() && i != 20; ++i) r += (i ? " " : "") + std::to_string(v[i]);
  return r + (v.size() > 20 ? " ...](" + std::to_string(v.size()) + ")" : "]");
}

inline asio::io_context& context()
{
  static asio::io_context* io = new asio::io_context; // never destroyed
  return *io;
}

enum Kind { plain, owning, object, nkinds };
inline const char* name(Kind k) { return k == plain ? "file_handle" : k == owning ? "unique_file_handle" : "file"; }

// Makes descriptor 0 available, which is as good as any other. (To be declared
// before whatever may own the descriptor.)
class DescriptorZero
{
public:
  void free(Gen& g)
  {
    if (saved_ != -1 || !g.chance(1, 6)) return;
    saved_ = ::fcntl(0, F_DUPFD_CLOEXEC, 100);
    if (saved_ == -1) return;
    ::syscall(SYS_close, 0);
    g.note("descriptor 0 is available");
    g.label("descriptor-0");
  }
  bool freed() const { return saved_ != -1; }
  ~DescriptorZero()
  {
    if (saved_ == -1) return;
    ::dup2(saved_, 0);
    ::syscall(SYS_close, saved_);
  }

private:
  int saved_ = -1;
};

// The descriptor that the next open() is going to use.
inline int next_fd()
{
  const int f = ::fcntl(2, F_DUPFD_CLOEXEC, 0);
  ::close(f);
  return f;
}

// A handle of any kind.
struct Handle
{
  Kind kind = plain;
  asioext::file_handle fh;
  std::unique_ptr<asioext::unique_file_handle> uh;
  std::unique_ptr<asioext::file> f;

  template <typename F>
  auto visit(F fn)
  {
    switch (kind) {
      case owning: return fn(*uh);
      case object: return fn(*f);
      default: return fn(fh);
    }
  }
  int fd()
  {
    switch (kind) {
      case owning: return uh->get().native_handle();
      case object: return f->native_handle();
      default: return fh.native_handle();
    }
  }
  bool is_open() { return visit([](auto& h) { return h.is_open(); }); }

  static Handle empty(Kind k)
  {
    Handle h;
    h.kind = k;
    if (k == owning) h.uh.reset(new asioext::unique_file_handle);
    if (k == object) h.f.reset(new asioext::file(context()));
    return h;
  }
  static Handle adopt(Kind k, int fd)
  {
    Handle h;
    h.kind = k;
    if (k == owning) h.uh.reset(new asioext::unique_file_handle(fd));
    else if (k == object) h.f.reset(new asioext::file(context(), asioext::file_handle(fd)));
    else h.fh = asioext::file_handle(fd);
    return h;
  }

  Result close(bool thr)
  {
    return visit([&](auto& h) {
      return call(thr, [&] { h.close(); }, [&](sys::error_code& ec) { h.close(ec); });
    });
  }
  Result read_some(bool thr, const Bufs& b, Bufs::Shape s)
  {
    return visit([&](auto& h) {
      return b.with<asio::mutable_buffer>(s, [&](const auto& q) {
        return call(thr, [&] { return h.read_some(q); }, [&](sys::error_code& ec) { return h.read_some(q, ec); });
      });
    });
  }
  Result write_some(bool thr, const Bufs& b, Bufs::Shape s)
  {
    return visit([&](auto& h) {
      return b.with<asio::const_buffer>(s, [&](const auto& q) {
        return call(thr, [&] { return h.write_some(q); }, [&](sys::error_code& ec) { return h.write_some(q, ec); });
      });
    });
  }
  Result read_some_at(bool thr, std::uint64_t o, const Bufs& b, Bufs::Shape s)
  {
    return visit([&](auto& h) {
      return b.with<asio::mutable_buffer>(s, [&](const auto& q) {
        return call(thr, [&] { return h.read_some_at(o, q); }, [&](sys::error_code& ec) { return h.read_some_at(o, q, ec); });
      });
    });
  }
  Result write_some_at(bool thr, std::uint64_t o, const Bufs& b, Bufs::Shape s)
  {
    return visit([&](auto& h) {
      return b.with<asio::const_buffer>(s, [&](const auto& q) {
        return call(thr, [&] { return h.write_some_at(o, q); }, [&](sys::error_code& ec) { return h.write_some_at(o, q, ec); });
      });
    });
  }
  Result seek(bool thr, asioext::seek_origin w, std::int64_t o)
  {
    return visit([&](auto& h) {
      return call(thr, [&] { return h.seek(w, o); }, [&](sys::error_code& ec) { return h.seek(w, o, ec); });
    });
  }
  Result position(bool thr)
  {
    return visit([&](auto& h) {
      return call(thr, [&] { return h.position(); }, [&](sys::error_code& ec) { return h.position(ec); });
    });
  }
  Result size(bool thr)
  {
    return visit([&](auto& h) {
      return call(thr, [&] { return h.size(); }, [&](sys::error_code& ec) { return h.size(ec); });
    });
  }
  Result truncate(bool thr, std::uint64_t n)
  {
    return visit([&](auto& h) {
      return call(thr, [&] { return h.truncate(n); }, [&](sys::error_code& ec) { return h.truncate(n, ec); });
    });
  }
};

// The contents of a file as seen through an independent descriptor.
inline std::string slurp_fd(int fd)
{
  struct stat st;
  if (fstat(fd, &st) != 0) return "<fstat failed>";
  std::string r(static_cast<std::size_t>(st.st_size), '\0');
  std::size_t p = 0;
  while (p < r.size()) {
    const ssize_t n = ::pread(fd, &r[p], r.size() - p, static_cast<off_t>(p));
    if (n <= 0) return "<read failed>";
    p += static_cast<std::size_t>(n);
  }
  return r;
}

} // namespace fx
#endif
