// What one translation unit sees of the library (see P25.cpp). Included with TU defined.
#include "compat.hpp"
#include "asioext/error.hpp"
#include "asioext/socks/error.hpp"
#include "asioext/url_view.hpp"
#include "asioext/open.hpp"
#include "asioext/file.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include "asioext/standard_streams.hpp"
#include "asioext/duplicate.hpp"
#include "asioext/read_file.hpp"
#include "asioext/write_file.hpp"
#include "asioext/connect.hpp"
#include "asioext/linear_buffer.hpp"
#include "asioext/cancellation_token.hpp"
#include "asioext/unique_handler.hpp"
#include "asioext/socks/client.hpp"
#include "asioext/detail/throw_error.hpp"
#include "P25_view.hpp"

namespace {

sys::error_code make(int cat, int v)
{
  // both the explicit and the implicit conversion
  if (cat == 0) return v & 1 ? sys::error_code(static_cast<asioext::url_error>(v)) : asioext::make_error_code(static_cast<asioext::url_error>(v));
  return v & 1 ? sys::error_code(static_cast<asioext::socks::error>(v)) : asioext::socks::make_error_code(static_cast<asioext::socks::error>(v));
}
const void* category(int cat)
{
  return cat == 0 ? static_cast<const void*>(&asioext::url_error_category()) : static_cast<const void*>(&asioext::socks::get_error_category());
}
std::string message(const sys::error_code& ec) { return ec.message(); }
std::string category_name(int cat) { return cat == 0 ? asioext::url_error_category().name() : asioext::socks::get_error_category().name(); }
bool is(const sys::error_code& ec, int cat, int v)
{ return cat == 0 ? ec == static_cast<asioext::url_error>(v) : ec == static_cast<asioext::socks::error>(v); }
sys::error_code parse(const std::string& s)
{
  sys::error_code ec;
  asioext::url_view u(s, ec);
  return ec;
}
void throw_it(const sys::error_code& ec) { asioext::detail::throw_error(ec, "P25"); }
int catch_it(void (*f)(const sys::error_code&), const sys::error_code& in, sys::error_code& out)
{
  try { f(in); }
  catch (const sys::system_error& e) { out = e.code(); return 1; }
  catch (...) { return 2; }
  return 0;
}
const void* service(asio::io_context& io)
{
  asioext::file f(io); // creates it if need be
  return &asio::use_service<asioext::thread_pool_file_service>(io);
}

} // namespace

extern const View TU = {make, category, message, category_name, is, parse, throw_it, catch_it, service};
