// Shared by the properties that check the library's Windows code.
#ifndef VERIF_WIN_COMMON_HPP
#define VERIF_WIN_COMMON_HPP
#include "win_model.hpp"
#include "compat.hpp"
#include "asioext/open.hpp"
#include "asioext/file.hpp"
#include "asioext/file_handle.hpp"
#include "asioext/unique_file_handle.hpp"
#include <memory>
#include <optional>

namespace wc {

using asioext::open_flags;
using asioext::file_perms;
using asioext::file_attrs;
using asioext::seek_origin;

#if _WIN32_WINNT >= 0x0600
const bool has_info = true; // files' attributes are available
#else
const bool has_info = false;
#endif

inline asio::io_context& context()
{
  static asio::io_context* c = new asio::io_context;
  return *c;
}

// What a call reported.
template <typename T>
struct Res { T value; sys::error_code ec; };

inline sys::error_code stale(Gen& g) { return g.flip() ? sys::error_code(9999, sys::system_category()) : sys::error_code(asio::error::eof); }

// Calls one of the two forms.
template <typename T, typename F1, typename F2>
Res<T> call(Gen& g, F1 throwing, F2 coded)
{
  if (g.flip()) {
    try { return {throwing(), sys::error_code()}; }
    catch (const sys::system_error& x) {
      PBT_CHECK("throws", x.code(), "an exception without an error");
      return {T(), x.code()};
    }
  }
  sys::error_code ec = stale(g);
  T v = coded(ec);
  return {std::move(v), ec};
}
template <typename F1, typename F2>
sys::error_code call_void(Gen& g, F1 throwing, F2 coded)
{
  return call<int>(g, [&] { throwing(); return 0; }, [&](sys::error_code& ec) { coded(ec); return 0; }).ec;
}

// The errors functions are made to fail with.
inline DWORD pick_error(Gen& g)
{
  static const DWORD e[] = {ERROR_ACCESS_DENIED, ERROR_NOT_READY, ERROR_CRC, ERROR_LOCK_VIOLATION, ERROR_DISK_FULL, ERROR_IO_DEVICE, ERROR_NO_SYSTEM_RESOURCES};
  return e[g.below(sizeof(e) / sizeof(*e))];
}
inline bool is_system(const sys::error_code& ec, DWORD e) { return ec == sys::error_code((int)e, asio::error::get_system_category()); }
// One of the errors the system reported.
inline bool reported(const sys::error_code& ec)
{
  for (DWORD e : fw::world->failures)
    if (is_system(ec, e)) return true;
  return false;
}

struct Case
{
  fw::World w;
  explicit Case(Gen& g)
  {
    fw::world = &w;
    w.stale = g.flip() ? 0 : (DWORD)g.range(1, 200);
    w.next_handle = 4 * (1 + g.below(1000));
  }
  ~Case() { fw::world = nullptr; }
};

inline fw::Name name16(const std::string& ascii) { return fw::Name(ascii.begin(), ascii.end()); }
inline std::shared_ptr<fw::Node> add(const std::string& name, const std::string& data)
{
  auto n = std::make_shared<fw::Node>();
  for (std::size_t i = 0; i != data.size(); ++i) n->data[i] = (unsigned char)data[i];
  n->size = data.size();
  n->c = n->a = n->m = ++fw::world->clock;
  fw::world->names[name16(name)] = n;
  return n;
}
inline std::string contents(const fw::Node& n)
{
  std::string r((std::size_t)n.size, '\0');
  for (auto& b : n.data) r[(std::size_t)b.first] = (char)b.second;
  return r;
}

// A file object of one of the library's types.
struct Obj
{
  int kind; // 0: file_handle, 1: unique_file_handle, 2: file
  asioext::file_handle raw;
  asioext::unique_file_handle unique;
  std::unique_ptr<asioext::file> file;
  HANDLE h;

  Obj(int k, HANDLE handle) : kind(k), raw(k == 0 ? asioext::file_handle(handle) : asioext::file_handle()), h(handle)
  {
    if (k == 1) unique.reset(asioext::file_handle(handle));
    if (k == 2) file.reset(new asioext::file(context(), handle));
  }
  template <typename F>
  auto with(F f)
  {
    switch (kind) {
      case 0: return f(raw);
      case 1: return f(unique);
      default: return f(*file);
    }
  }
};
inline const char* kind_name(int k) { static const char* const n[] = {"file_handle", "unique_file_handle", "file"}; return n[k]; }

} // namespace wc
#endif
