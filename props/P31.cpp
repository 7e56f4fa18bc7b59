// P31: completion tokens. Every asynchronous operation is run with plain
// callbacks and, in an identical world, with a generated token: bound
// callbacks, futures, coroutines of both kinds (started at once, late, or never).
#include "socks_common.hpp"
#include "asioext/connect.hpp"
#include "asioext/experimental/buffered_stream.hpp"
#include "asioext/file.hpp"
#include "asioext/open.hpp"
#include "asioext/thread_pool_file_service.hpp"
#if defined(ASIOEXT_USE_BOOST_ASIO)
# include <boost/asio/spawn.hpp>
# define STACKFUL 1
#endif
#include <fcntl.h>
#include <functional>
#include <optional>
#include <thread>
#include <unistd.h>

void pbt::setup(const std::string&) {}

namespace {

typedef asio::io_context::executor_type IoEx;

enum Tok { callback, strand_callback, other_callback, future, await, await_strand, redirected, yielding, yielding_ec, late, dropped, tuple, deferred_op, ntoks };
const char* const tok_names[] = {"callback", "strand_callback", "other_callback", "future", "await", "await_strand", "redirect_error", "yield", "yield_ec", "late", "dropped", "as_tuple", "deferred"};

// What a handler received.
struct Out
{
  int calls = 0, started = 0;
  sys::error_code ec;
  std::string value;
  bool has_value = false, strange = false, wrong_executor = false, early = false;
};

std::string show(std::size_t n) { return pbt::strf("%zu", n); }
std::string show(socks::auth_method m) { return pbt::strf("method %u", static_cast<unsigned>(m)); }
std::string show(const asio::ip::tcp::endpoint& e) { return e.address().to_string() + pbt::strf(":%u", e.port()); }

struct Contexts
{
  asio::io_context io, other;
  asio::strand<IoEx> strand{other.get_executor()};
  pbt::Rng order;
  explicit Contexts(std::uint64_t seed) : order(seed) {}

  std::size_t poll_one()
  {
    asio::io_context* c[2] = {&io, &other};
    const unsigned first = order.below(2);
    std::size_t n = 0;
    for (unsigned i = 0; i != 2 && !n; ++i) {
      c[(first + i) & 1]->restart();
      n = c[(first + i) & 1]->poll_one();
    }
    return n;
  }
  void poll() { while (poll_one()) {} }
  // Until `done`, or (without other threads) until nothing is left to do.
  template <typename F> void run(Gen& g, bool threads, F done)
  {
    for (;;) {
      if (poll_one()) continue;
      if (done() || !threads) return;
      g.beat();
      std::this_thread::yield();
    }
  }
};

template <typename... V>
void record(Out& o, const sys::error_code& ec, const V&... v)
{
  ++o.calls;
  o.ec = ec;
  ((o.value = show(v), o.has_value = true), ...);
}

template <typename Awaitable>
asio::awaitable<void> drive(Awaitable a, Out& o, std::function<bool()> here)
{
  o.started = 1;
  try {
    if constexpr (std::is_same_v<typename Awaitable::value_type, void>) {
      co_await std::move(a);
      record(o, sys::error_code());
    } else {
      auto v = co_await std::move(a);
      record(o, sys::error_code(), v);
    }
  } catch (sys::system_error& e) {
    record(o, e.code());
  } catch (...) {
    o.strange = true;
    ++o.calls;
  }
  if (!here()) o.wrong_executor = true;
}

template <typename Init>
asio::awaitable<void> drive_redirected(Init& init, Out& o, std::function<bool()> here)
{
  o.started = 1;
  sys::error_code ec = asio::error::would_block;
  try {
    auto a = init(asio::redirect_error(asio::use_awaitable, ec));
    if constexpr (std::is_same_v<typename decltype(a)::value_type, void>) {
      co_await std::move(a);
      record(o, ec);
    } else {
      auto v = co_await std::move(a);
      record(o, ec, v);
    }
  } catch (...) {
    o.strange = true;
    ++o.calls;
  }
  if (!here()) o.wrong_executor = true;
}

template <typename Init>
asio::awaitable<void> drive_tuple(Init& init, Out& o, std::function<bool()> here)
{
  o.started = 1;
  auto t = co_await init(asio::as_tuple(asio::use_awaitable));
  std::apply([&](const auto&... v) { record(o, v...); }, t);
  if (!here()) o.wrong_executor = true;
}

// Runs the operation started by init(token). unchanged() tells whether nothing
// has happened yet; between() is run before a late start.
template <bool All = false, typename Init>
Out perform(Gen& g, Contexts& c, Tok tok, bool threads, Init init, std::function<bool()> unchanged, std::function<void()> between = nullptr)
{
  Out o;
  bool initiating = true;
  auto on_io = [&c] { return c.io.get_executor().running_in_this_thread(); };
  auto on_other = [&c] { return c.other.get_executor().running_in_this_thread(); };
  auto on_strand = [&c] { return c.strand.running_in_this_thread(); };
  auto handler = [&](auto here) {
    return [&o, &initiating, here](sys::error_code ec, auto... v) {
      record(o, ec, v...);
      if (initiating) o.early = true;
      if (!here()) o.wrong_executor = true;
    };
  };
  auto finish = [&] {
    initiating = false;
    c.run(g, threads, [&] { return o.calls != 0; });
  };
  switch (tok) {
    case callback: init(handler(on_io)); finish(); break;
    case strand_callback: init(asio::bind_executor(c.strand, handler(on_strand))); finish(); break;
    case other_callback: init(asio::bind_executor(c.other.get_executor(), handler(on_other))); finish(); break;
    case future: {
      auto f = init(asio::use_future);
      auto ready = [&] { return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; };
      // (Asio's futures may be completed from the system executor's threads)
      c.run(g, true, ready);
      try {
        if constexpr (std::is_same_v<decltype(f), std::future<void>>) {
          f.get();
          record(o, sys::error_code());
        } else {
          auto v = f.get();
          record(o, sys::error_code(), v);
        }
      } catch (sys::system_error& e) {
        record(o, e.code());
      } catch (...) {
        o.strange = true;
        ++o.calls;
      }
      break;
    }
    case await: asio::co_spawn(c.io, drive(init(asio::use_awaitable), o, on_io), asio::detached); finish(); break;
    case await_strand: asio::co_spawn(c.strand, drive(init(asio::use_awaitable), o, on_strand), asio::detached); finish(); break;
    case redirected: asio::co_spawn(c.other, drive_redirected(init, o, on_other), asio::detached); finish(); break;
#if defined(STACKFUL)
    case yielding: case yielding_ec:
      asio::spawn(c.strand, [&](asio::yield_context y) {
        sys::error_code ec;
        try {
          if constexpr (std::is_same_v<decltype(init(y)), void>) {
            if (tok == yielding) init(y);
            else init(y[ec]);
            record(o, ec);
          } else {
            auto v = tok == yielding ? init(y) : init(y[ec]);
            record(o, ec, v);
          }
        } catch (sys::system_error& e) {
          record(o, e.code());
        }
        if (!on_strand()) o.wrong_executor = true;
      }, asio::detached);
      finish();
      break;
#endif
    case late: {
      auto a = init(asio::use_awaitable);
      c.poll();
      PBT_CHECK("lazy", unchanged(), "something happened before the coroutine awaited the operation");
      if (between) between();
      asio::co_spawn(c.other, drive(std::move(a), o, on_other), asio::detached);
      finish();
      break;
    }
    case dropped: {
      { auto a = init(asio::use_awaitable); }
      c.poll();
      PBT_CHECK("dropped", unchanged(), "something happened although the operation was never awaited");
      break;
    }
    case tuple: if constexpr (All) { asio::co_spawn(c.other, drive_tuple(init, o, on_other), asio::detached); finish(); } break;
    case deferred_op: if constexpr (All) {
      auto d = init(asio::deferred);
      c.poll();
      PBT_CHECK("lazy", unchanged(), "something happened before the deferred operation was started");
      std::move(d)(asio::bind_executor(c.strand, handler(on_strand)));
      finish();
    } break;
    default: break;
  }
  const int calls = tok == dropped ? 0 : 1;
  PBT_CHECK("once", o.calls == calls, "%s: completed %d times", tok_names[tok], o.calls);
  c.poll();
  PBT_CHECK("once", o.calls == calls, "%s: completed %d times", tok_names[tok], o.calls);
  PBT_CHECK("exception", !o.strange, "%s: another exception than system_error", tok_names[tok]);
  PBT_CHECK("initiation", !o.early, "%s: completed within the initiating function", tok_names[tok]);
  PBT_CHECK("executor", !o.wrong_executor, "%s: completed on another executor than the associated one", tok_names[tok]);
  return o;
}

void compare(Tok tok, const char* what, const Out& ref, const Out& o)
{
  PBT_CHECK("error", ref.ec == o.ec, "%s with %s: error %s instead of %s", what, tok_names[tok], o.ec.message().c_str(), ref.ec.message().c_str());
  // (exceptions don't carry values)
  if (!ref.ec || o.has_value)
    PBT_CHECK("value", ref.value == o.value, "%s with %s: %s instead of %s", what, tok_names[tok], o.value.c_str(), ref.value.c_str());
}

Tok gen_token(Gen& g, bool all = false)
{
  Tok t = static_cast<Tok>(1 + g.below((all ? ntoks : dropped + 1) - 1));
#if !defined(STACKFUL)
  if (t == yielding) t = await;
  if (t == yielding_ec) t = await_strand;
#endif
  g.label(tok_names[t]);
  return t;
}

// Overwrites the arguments of an operation before freeing them.
struct Doomed : Request
{
  explicit Doomed(const Request& r) : Request(r) {}
  ~Doomed()
  {
    for (std::string* s : {&host, &user, &password}) s->assign(s->size(), '\xee');
    for (auto& m : methods) m = static_cast<socks::auth_method>(0xee);
    ep = asio::ip::tcp::endpoint(asio::ip::address_v4(0xeeeeeeee), 0xeeee);
    cmd = static_cast<socks::command>(0xee);
    port = 0xeeee;
    // (don't have the optimiser drop these)
    asm volatile("" : : "r"(this) : "memory");
  }
};

// A scripted stream whose portions are a function of its seed.
struct Wire
{
  typedef IoEx executor_type;
  typedef Wire lowest_layer_type;
  asio::io_context& io;
  pbt::Rng rng;
  std::string in, out;
  std::size_t pos = 0, write_limit = ~std::size_t(0), calls = 0;
  sys::error_code read_error = asio::error::eof, write_error = asio::error::broken_pipe;
  bool hold = false;
  std::vector<std::function<void()>> held;

  Wire(asio::io_context& i, std::uint64_t seed) : io(i), rng(seed) {}
  lowest_layer_type& lowest_layer() { return *this; }
  executor_type get_executor() { return io.get_executor(); }
  void close() {}
  void close(sys::error_code& ec) { ec = sys::error_code(); }

  std::size_t portion(std::size_t n) { return n < 2 || rng.below(3) == 0 ? n : 1 + rng.below(n); }

  template <typename H> void finish(H h, sys::error_code ec, std::size_t n)
  {
    auto p = std::make_shared<H>(std::move(h));
    auto f = [this, p, ec, n] {
      auto ex = asio::get_associated_executor(*p, io.get_executor());
      asio::post(io, asio::bind_executor(ex, [p, ec, n]() mutable { auto h(std::move(*p)); h(ec, n); }));
    };
    if (hold) held.push_back(f);
    else f();
  }
  void release()
  {
    hold = false;
    for (auto& f : held) f();
    held.clear();
  }
  template <typename B, typename H> void async_read_some(const B& b, H&& h)
  {
    ++calls;
    std::size_t n = asio::buffer_size(b);
    sys::error_code ec;
    if (n) {
      n = portion(std::min(n, in.size() - pos));
      if (n == 0) ec = read_error;
      asio::buffer_copy(b, asio::buffer(in.data() + pos, n));
      pos += n;
    }
    finish(std::decay_t<H>(std::move(h)), ec, n);
  }
  template <typename B, typename H> void async_write_some(const B& b, H&& h)
  {
    ++calls;
    std::size_t n = asio::buffer_size(b);
    sys::error_code ec;
    if (n) {
      n = std::min(portion(n), write_limit - out.size());
      if (n == 0) ec = write_error;
      std::string s(n, '\0');
      asio::buffer_copy(asio::buffer(&s[0], n), b);
      out += s;
    }
    finish(std::decay_t<H>(std::move(h)), ec, n);
  }
};

std::string gen_reply(Gen& g, Kind k)
{
  std::string r;
  switch (k) {
    case v4_endpoint: case v4_host: r = std::string("\0\x5a", 2) + g.bytes(6); break;
    case v5_greet: r = std::string("\5\0", 2); r[1] = static_cast<char>(g.below(4)); break;
    case v5_login: r = std::string("\1\0", 2); break;
    default: {
      const unsigned type = g.pick({1, 3, 4});
      r = std::string("\5\0\0", 3) + static_cast<char>(type);
      if (type == 3) { const std::size_t n = g.size(255); r += static_cast<char>(n); r += g.bytes(n + 2); }
      else r += g.bytes(type == 1 ? 6 : 18);
    }
  }
  if (g.chance(1, 5)) r[g.below(r.size())] = static_cast<char>(g.below(256));
  if (g.chance(1, 12)) r.resize(g.below(r.size()));
  return r;
}

struct SocksWorld
{
  Contexts c;
  Wire w;
  SocksWorld(std::uint64_t order, std::uint64_t seed) : c(order), w(c.io, seed) {}
  Out run(Gen& g, const Request& r, Tok tok, std::string& left)
  {
    asioext::linear_buffer lb;
    const std::size_t calls = w.calls;
    auto init = [&](auto&& t) -> decltype(auto) {
      typedef decltype(t) T;
      const std::unique_ptr<Doomed> d(new Doomed(r));
      if constexpr (true) {
        return start(*d, lb, std::forward<T>(t));
      }
    };
    auto init_greet = [&](auto&& t) -> decltype(auto) {
      const std::unique_ptr<Doomed> d(new Doomed(r));
      return socks::async_greet(w, d->methods.data(), d->methods.size(), asioext::dynamic_buffer(lb), std::forward<decltype(t)>(t));
    };
    auto unchanged = [&] { return w.calls == calls; };
    const Out o = r.kind == v5_greet ? perform(g, c, tok, false, init_greet, unchanged) : perform(g, c, tok, false, init, unchanged);
    left.assign(reinterpret_cast<const char*>(lb.data()), lb.size());
    return o;
  }
  template <typename T> decltype(auto) start(Doomed& d, asioext::linear_buffer& lb, T&& t)
  {
    switch (d.kind) {
      case v4_endpoint: return socks::async_execute(w, d.cmd, d.ep, d.user, asioext::dynamic_buffer(lb), std::forward<T>(t));
      case v4_host: return socks::async_execute(w, d.cmd, d.host, d.port, d.user, asioext::dynamic_buffer(lb), std::forward<T>(t));
      case v5_login: return socks::async_login(w, d.user, d.password, asioext::dynamic_buffer(lb), std::forward<T>(t));
      case v5_endpoint: return socks::async_execute(w, d.cmd, d.ep, asioext::dynamic_buffer(lb), std::forward<T>(t));
      default: return socks::async_execute(w, d.cmd, d.host, d.port, asioext::dynamic_buffer(lb), std::forward<T>(t));
    }
  }
};

} // namespace

PBT_PROP(proxy, 4)
{
  const std::uint64_t seed = g.below(1 << 20);
  SocksWorld ref(1, seed), sub(g.below(1 << 16), seed);
  if (g.chance(1, 8)) ref.w.write_limit = sub.w.write_limit = g.size(600);
  ref.w.write_error = sub.w.write_error = g.pick({sys::error_code(asio::error::broken_pipe), sys::error_code(asio::error::connection_reset)});
  ref.w.read_error = sub.w.read_error = g.pick({sys::error_code(asio::error::eof), sys::error_code(asio::error::connection_reset)});
  const unsigned n = 1 + g.below(4);
  for (unsigned i = 0; i != n; ++i) {
    const Kind k = static_cast<Kind>(g.below(kinds));
    const Request r = gen_request(g, k, 300);
    const std::string reply = gen_reply(g, k);
    ref.w.in += reply;
    sub.w.in += reply;
    const Tok tok = gen_token(g);
    g.note("%s with %s, reply %s", kind_name(k), tok_names[tok], hex(reply).c_str());
    std::string left_ref, left;
    if (tok == dropped) {
      sub.run(g, r, tok, left);
      ref.w.in.resize(ref.w.in.size() - reply.size());
      sub.w.in.resize(sub.w.in.size() - reply.size());
      continue;
    }
    const Out a = ref.run(g, r, callback, left_ref), b = sub.run(g, r, tok, left);
    compare(tok, kind_name(k), a, b);
    PBT_CHECK("sent", ref.w.out == sub.w.out, "%s with %s: sent %s instead of %s", kind_name(k), tok_names[tok], hex(sub.w.out).c_str(), hex(ref.w.out).c_str());
    PBT_CHECK("received", ref.w.pos == sub.w.pos && (a.ec || left == left_ref), "%s with %s: another part of the reply was consumed", kind_name(k), tok_names[tok]);
    if (tok >= future) g.nontrivial();
    if (a.ec) { g.label("failed"); return; }
  }
}

namespace {

struct StreamWorld
{
  Contexts c;
  Wire w;
  asioext::buffered_stream<Wire&> s;
  StreamWorld(std::uint64_t order, std::uint64_t seed, std::size_t mw, std::size_t mr) : c(order), w(c.io, seed), s(w, mw, mr) {}
  std::string state()
  {
    return pbt::strf("sent %zu (%016llx), received %zu, flush %s, %s to flush, ", w.out.size(), (unsigned long long)pbt::hash_str(w.out), w.pos,
                     s.flush_pending() ? "pending" : "not pending", s.can_flush() ? "something" : "nothing") +
           hex(std::string_view((const char*)s.write_buffer().data(), s.write_buffer().size())) + "/ " +
           hex(std::string_view((const char*)s.read_buffer().data(), s.read_buffer().size()));
  }
  Out run(Gen& g, bool flush, Tok tok, const std::string& add)
  {
    const std::string before = state();
    const std::size_t calls = w.calls;
    auto unchanged = [&] { return state() == before && w.calls == calls; };
    // (data may be added while the operation hasn't been started)
    auto between = [&] { append(add); };
    if (tok != late) between();
    const std::string changed = state();
    auto unchanged_then = [&] { return w.calls == calls && state() == (tok == late ? before : changed); };
    if (flush) return perform(g, c, tok, false, [&](auto&& t) -> decltype(auto) { return s.async_flush(std::forward<decltype(t)>(t)); }, unchanged_then, between);
    return perform(g, c, tok, false, [&](auto&& t) -> decltype(auto) { return s.async_fill(std::forward<decltype(t)>(t)); }, unchanged_then, between);
  }
  void append(const std::string& d)
  {
    auto& b = s.write_buffer();
    const std::size_t n = std::min(d.size(), b.max_size() - b.size());
    b.append(d.data(), n);
  }
};

} // namespace

PBT_PROP(buffered, 4)
{
  const std::uint64_t seed = g.below(1 << 20);
  const std::size_t mw = g.chance(1, 3) ? 1 + g.size(600) : ~std::size_t(0), mr = g.chance(1, 3) ? 1 + g.size(600) : ~std::size_t(0);
  StreamWorld ref(1, seed, mw, mr), sub(g.below(1 << 16), seed, mw, mr);
  ref.w.in = sub.w.in = g.bytes(g.size(3000));
  if (g.chance(1, 6)) ref.w.write_limit = sub.w.write_limit = g.size(1000);
  const unsigned n = 1 + g.below(8);
  for (unsigned i = 0; i != n; ++i) {
    const bool flush = g.flip();
    const Tok tok = gen_token(g);
    const std::string add = g.chance(2, 3) ? g.bytes(g.size(400)) : std::string();
    // another flush is on its way
    const bool busy = g.chance(1, 8);
    g.note("%s with %s, %zu bytes added%s", flush ? "flush" : "fill", tok_names[tok], add.size(), busy ? ", while flushing" : "");
    int first[2] = {0, 0};
    if (busy) {
      ref.w.hold = sub.w.hold = true;
      ref.s.async_flush([&](sys::error_code, std::size_t) { ++first[0]; });
      sub.s.async_flush([&](sys::error_code, std::size_t) { ++first[1]; });
      ref.c.poll();
      sub.c.poll();
      if (!flush) { ref.w.hold = sub.w.hold = false; }
    }
    if (tok == dropped) {
      ref.append(add);
      sub.run(g, flush, tok, add);
    } else {
      const Out a = ref.run(g, flush, callback, add), b = sub.run(g, flush, tok, add);
      compare(tok, flush ? "flush" : "fill", a, b);
      if (a.ec) g.label("failed");
      else if (tok >= future) g.nontrivial();
    }
    if (busy) {
      ref.w.release();
      sub.w.release();
      ref.c.poll();
      sub.c.poll();
      PBT_CHECK("first", first[0] == first[1] && first[0] == 1, "the flush under way completed %d times, and %d times", first[0], first[1]);
    }
    const std::string x = ref.state(), y = sub.state();
    PBT_CHECK("state", x == y && ref.w.out == sub.w.out, "%s instead of %s", y.c_str(), x.c_str());
  }
}

namespace {

typedef asio::ip::tcp tcp;

struct Names
{
  std::string host, service;
  ~Names()
  {
    host.assign(host.size(), '\xee');
    service.assign(service.size(), '\xee');
    asm volatile("" : : "r"(this) : "memory");
  }
};

template <typename Socket>
Out connect_once(Gen& g, std::uint64_t order, Tok tok, const std::string& host, const std::string& service,
                 asio::ip::resolver_base::flags flags, const tcp::endpoint& ep, tcp::acceptor* acceptor)
{
  Contexts c(order);
  Socket s(c.io);
  tcp::resolver resolver(c.io);
  if (g.chance(1, 4)) s.open(tcp::v4());
  const bool open = s.is_open();
  auto init = [&](auto&& t) -> decltype(auto) {
    const std::unique_ptr<Names> n(new Names{host, service});
    return asioext::async_connect(s, resolver, n->host, n->service, flags, std::forward<decltype(t)>(t));
  };
  auto unchanged = [&] { sys::error_code e; s.remote_endpoint(e); return s.is_open() == open && e; };
  Out o;
  if (std::is_same_v<Socket, tcp::socket>) o = perform<true>(g, c, tok, true, init, unchanged);
  else {
    // the socket's own token
    if constexpr (!std::is_same_v<Socket, tcp::socket>) {
      auto def = [&] {
        const std::unique_ptr<Names> n(new Names{host, service});
        return asioext::async_connect(s, resolver, n->host, n->service, flags);
      };
      auto a = def();
      c.poll();
      PBT_CHECK("lazy", unchanged(), "something happened before the coroutine awaited the operation");
      asio::co_spawn(c.other, drive(std::move(a), o, [&c] { return c.other.get_executor().running_in_this_thread(); }), asio::detached);
      c.run(g, true, [&] { return o.calls != 0; });
      PBT_CHECK("once", o.calls == 1 && !o.strange);
      PBT_CHECK("executor", !o.wrong_executor);
    }
  }
  if (tok == dropped) return o;
  sys::error_code e;
  if (!o.ec) {
    PBT_CHECK("connected", s.remote_endpoint(e) == ep, "%s: connected to %s", tok_names[tok], show(s.remote_endpoint(e)).c_str());
    tcp::socket peer(c.io);
    acceptor->accept(peer);
    PBT_CHECK("connected", peer.remote_endpoint() == s.local_endpoint());
  } else {
    s.remote_endpoint(e);
    PBT_CHECK("connected", e, "%s failed with %s, but the socket is connected", tok_names[tok], o.ec.message().c_str());
  }
  return o;
}

} // namespace

PBT_PROP(connecting, 1)
{
  Contexts c(1);
  tcp::acceptor a(c.io);
  tcp::endpoint ep(asio::ip::address_v4(0x7f000001 + g.below(200)), 0);
  a.open(tcp::v4());
  a.bind(ep);
  ep = a.local_endpoint();
  enum { accepting, refusing, no_host, no_service };
  const unsigned target = g.weighted({4, 2, 1, 1});
  if (target == accepting) a.listen();
  const auto flags = tcp::resolver::numeric_host | tcp::resolver::numeric_service;
  // (names of all lengths: some are kept within strings, others aren't)
  const std::string host = target == no_host ? "no." + std::string(g.size(60), 'x') + ".example" : ep.address().to_string();
  const std::string service = target == no_service ? std::string(1 + g.size(60), 'x') : std::string(g.chance(1, 3) ? g.size(40) : 0, '0') + pbt::strf("%u", ep.port());
  const Out ref = connect_once<tcp::socket>(g, 1, callback, host, service, flags, ep, &a);
  PBT_CHECK("reference", !ref.ec == (target == accepting), "connecting: %s", ref.ec.message().c_str());
  const unsigned n = 1 + g.below(3);
  for (unsigned i = 0; i != n; ++i) {
    if (g.chance(1, 6)) {
      g.label("default_token");
      g.note("connecting to %s %s with the socket's own token", host.c_str(), service.c_str());
      const Out o = connect_once<asio::use_awaitable_t<>::as_default_on_t<tcp::socket>>(g, g.below(1 << 16), await, host, service, flags, ep, &a);
      compare(await, "connecting", ref, o);
      g.nontrivial();
      continue;
    }
    const Tok tok = gen_token(g, true);
    g.note("connecting to %s %s with %s", host.c_str(), service.c_str(), tok_names[tok]);
    const Out o = connect_once<tcp::socket>(g, g.below(1 << 16), tok, host, service, flags, ep, &a);
    if (tok == dropped) continue;
    compare(tok, "connecting", ref, o);
    if (tok >= future) g.nontrivial();
  }
}

namespace {

std::string contents(const std::string& path)
{
  const int fd = ::open(path.c_str(), O_RDONLY | O_CLOEXEC);
  std::string s(1 << 14, '\0');
  const ssize_t n = ::read(fd, &s[0], s.size());
  ::close(fd);
  s.resize(n < 0 ? 0 : n);
  return s;
}

enum Change { none, closing, assigning, destroying, moving };
const char* const change_names[] = {"nothing", "closing", "assigning another file", "destroying", "moving"};

struct FilePlan
{
  bool read, at, all;
  std::uint64_t off;
  std::vector<std::size_t> sizes;
  std::string data;
};

template <typename Buffer>
struct Sequence : std::vector<Buffer>
{
  ~Sequence()
  {
    for (auto& b : *this) b = Buffer();
    asm volatile("" : : "r"(this) : "memory");
  }
};

struct FileWorld
{
  Contexts c;
  std::string path, other_path;
  std::unique_ptr<asioext::file> f;
  int raw;
  FileWorld(std::uint64_t order, const char* name, const std::string& data) : c(order), path(pbt::scratch_dir() + "/" + name), other_path(path + "2")
  {
    for (const std::string* p : {&path, &other_path}) {
      ::unlink(p->c_str());
      const int fd = ::open(p->c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
      const ssize_t n = ::write(fd, data.data(), data.size());
      ::close(fd);
      PBT_CHECK("setup", n == static_cast<ssize_t>(data.size()));
    }
    f.reset(new asioext::file(c.io, path.c_str(), args()));
  }
  ~FileWorld() { f.reset(); ::unlink(path.c_str()); ::unlink(other_path.c_str()); }
  static asioext::open_args args() { return asioext::open_args(asioext::open_flags::access_read_write | asioext::open_flags::open_existing); }
  long pos() { return static_cast<long>(f->position()); }

  // The buffers' contents afterwards are left in `data`.
  Out run(Gen& g, const FilePlan& p, Tok tok, Change change, std::string& data)
  {
    const std::string before = contents(path), before_other = contents(other_path);
    const long at = pos();
    data = p.read ? std::string(p.data.size(), '\xa5') : p.data;
    auto fill = [&](auto& seq) {
      std::size_t o = 0;
      for (std::size_t n : p.sizes) { seq.emplace_back(&data[o], n); o += n; }
    };
    auto init = [&](auto&& t) -> decltype(auto) {
      typedef decltype(t) T;
      if (p.read) {
        const std::unique_ptr<Sequence<asio::mutable_buffer>> s(new Sequence<asio::mutable_buffer>);
        fill(*s);
        const std::vector<asio::mutable_buffer>& q = *s;
        if (p.all) return p.at ? asio::async_read_at(*f, p.off, q, std::forward<T>(t)) : asio::async_read(*f, q, std::forward<T>(t));
        return p.at ? f->async_read_some_at(p.off, q, std::forward<T>(t)) : f->async_read_some(q, std::forward<T>(t));
      }
      const std::unique_ptr<Sequence<asio::const_buffer>> s(new Sequence<asio::const_buffer>);
      fill(*s);
      const std::vector<asio::const_buffer>& q = *s;
      if (p.all) return p.at ? asio::async_write_at(*f, p.off, q, std::forward<T>(t)) : asio::async_write(*f, q, std::forward<T>(t));
      return p.at ? f->async_write_some_at(p.off, q, std::forward<T>(t)) : f->async_write_some(q, std::forward<T>(t));
    };
    auto unchanged = [&] {
      return contents(path) == before && contents(other_path) == before_other && pos() == at && (!p.read || data == std::string(data.size(), '\xa5'));
    };
    auto between = [&] {
      switch (change) {
        case closing: f->close(); break;
        case assigning: {
          // (which probably gets the same descriptor)
          f->close();
          f->open(other_path.c_str(), args());
          break;
        }
        case destroying: f.reset(); break;
        case moving: f.reset(new asioext::file(std::move(*f))); break;
        default: break;
      }
    };
    const Out o = perform(g, c, tok, true, init, unchanged, between);
    if (change == closing || change == assigning || change == destroying) {
      PBT_CHECK("cancelled", o.ec == asio::error::operation_aborted, "%s before the operation was awaited: completed with %s", change_names[change], o.ec.message().c_str());
      PBT_CHECK("cancelled", contents(path) == before && contents(other_path) == before_other && (!p.read || data == std::string(data.size(), '\xa5')),
                "%s before the operation was awaited: data was transferred", change_names[change]);
      if (change == assigning) PBT_CHECK("cancelled", pos() == 0, "the other file's position was changed to %ld", pos());
    }
    return o;
  }
};

} // namespace

PBT_PROP(files, 3)
{
  const std::string data = g.bytes(g.size(2000));
  FileWorld ref(1, "a", data), sub(g.below(1 << 16), "b", data);
  const unsigned n = 1 + g.below(6);
  for (unsigned i = 0; i != n; ++i) {
    FilePlan p;
    p.read = g.flip();
    p.at = g.flip();
    p.all = g.chance(1, 3);
    p.off = g.size(2500);
    const unsigned bufs = 1 + g.below(4);
    std::size_t total = 0;
    for (unsigned j = 0; j != bufs; ++j) { p.sizes.push_back(g.size(300)); total += p.sizes.back(); }
    p.data = g.bytes(total);
    const Tok tok = gen_token(g);
    // (composed operations refer to the file until they are started)
    const Change change = tok == late && !p.all ? static_cast<Change>(g.weighted({4, 1, 1, 1, 1})) : none;
    g.note("%s%s%s of %zu bytes at %llu with %s; before: %s", p.all ? "whole " : "", p.read ? "read" : "write", p.at ? " (at)" : "", total,
           (unsigned long long)p.off, tok_names[tok], change_names[change]);
    std::string got_ref, got;
    const Out b = sub.run(g, p, tok, change, got);
    if (tok == dropped) continue;
    if (change != none && change != moving) { g.label(change == closing ? "closed" : change == assigning ? "assigned" : "destroyed"); g.nontrivial(); return; }
    const Out a = ref.run(g, p, callback, none, got_ref);
    compare(tok, p.read ? "reading" : "writing", a, b);
    PBT_CHECK("data", got == got_ref, "reading with %s: other data", tok_names[tok]);
    PBT_CHECK("file", contents(ref.path) == contents(sub.path) && ref.pos() == sub.pos(), "with %s: the file is different afterwards, or its position %ld is not %ld",
              tok_names[tok], sub.pos(), ref.pos());
    if (tok >= future) g.nontrivial();
  }
}
