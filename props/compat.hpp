// Lets the same harness build against standalone Asio and Boost.Asio.
#ifndef VERIF_COMPAT_HPP
#define VERIF_COMPAT_HPP
#include "asioext/detail/config.hpp"
#if defined(ASIOEXT_USE_BOOST_ASIO)
# include <boost/asio.hpp>
# include <boost/system/error_code.hpp>
# include <boost/system/system_error.hpp>
namespace asio = boost::asio;
namespace sys { using boost::system::error_code; using boost::system::system_error;
using boost::system::system_category; using boost::system::generic_category; }
#else
# include <asio.hpp>
# include <system_error>
namespace sys { using std::error_code; using std::system_error;
using std::system_category; using std::generic_category; }
#endif
#if !defined(PBT_SECONDARY) // a further translation unit
#include "../engine/pbt.hpp"
using pbt::Gen;
#endif
#endif
