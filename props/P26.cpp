// P26: file objects (basic_file) and io_object_holders over file services that
// record every call, with executors that count their copies: a history of
// constructions, failed constructions, moves, assignments, calls and
// destructions against a model of which service has which implementation.
#include "compat.hpp"
#include "asioext/basic_file.hpp"
#include "asioext/open_flags.hpp"
#include "asioext/unique_file_handle.hpp"
#include <array>
#include <cstring>
#include <future>
#include <map>
#include <memory>
#include <optional>
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
# include <boost/filesystem/path.hpp>
#endif

void pbt::setup(const std::string&) {}

namespace {

using asioext::file_perms; using asioext::file_perm_options; using asioext::file_attrs; using asioext::file_attr_options;
using asioext::file_times; using asioext::open_args; using asioext::seek_origin;

sys::error_code stale() { return sys::error_code(EDOM, sys::generic_category()); }

// One per case. What the services have been asked to do.
struct Log
{
  std::vector<std::string> calls;
  std::vector<std::string> bad;
  // What the next operation is to return.
  sys::error_code ec;
  std::uint64_t value = 0;
  int attempts = 0; // implementations to be set up before one fails

  void add(const std::string& s) { calls.push_back(s); }
  void fail(const std::string& s) { bad.push_back(s); }
};
Log* log_;

struct SetupFailed {};

struct Impl
{
  enum { canary = 0x1234567 };
  int check = canary;
  const void* owner = nullptr; // the service, while it's set up
  int token = 0;               // travels with moves
  Impl() = default;
  Impl(const Impl&) = delete;
  Impl& operator=(const Impl&) = delete;
  ~Impl()
  {
    if (log_ && owner) log_->fail("an implementation was never destroyed by its service");
    check = 0;
  }
};

template <typename T> std::string put(const T& v) { return std::to_string(static_cast<std::int64_t>(v)); }
const char* area_; // what buffers are shown relative to

template <typename B> std::string put_buffers(const B& b)
{
  std::string r;
  for (auto it = asio::buffer_sequence_begin(b); it != asio::buffer_sequence_end(b); ++it) {
    const asio::const_buffer c(*it);
    r += pbt::strf("[%lld]+%zu,", (long long)((std::uintptr_t)c.data() - (std::uintptr_t)area_), c.size());
  }
  return r;
}
std::string put_args(const open_args& a) { return pbt::strf("%d/%o/%d", (int)a.native_flags(), (unsigned)a.mode(), (int)a.attrs()); }

int next_token;

template <int Tag>
class Service : public asio::execution_context::service
{
public:
  typedef Service key_type;
  static asio::execution_context::id id;
  typedef Impl implementation_type;
  typedef int native_handle_type;

  explicit Service(asio::execution_context& c) : asio::execution_context::service(c) {}
  void shutdown() override {}

  void attempt(Impl& i)
  {
    if (i.check != Impl::canary) log_->fail("setting up something that isn't an implementation");
    if (i.owner) log_->fail("an implementation was set up twice");
    if (log_->attempts && --log_->attempts == 0) throw SetupFailed();
  }
  void construct(Impl& i)
  {
    attempt(i);
    i.owner = this;
    i.token = ++next_token;
  }
  void move_construct(Impl& i, Impl& o)
  {
    attempt(i);
    if (o.owner != this) log_->fail("move_construct() with an implementation of another service");
    i.owner = this;
    i.token = o.token;
    o.token = 0;
  }
  template <int Tag1>
  void converting_move_construct(Impl& i, Service<Tag1>& s, Impl& o)
  {
    attempt(i);
    if (o.owner != &s) log_->fail("converting_move_construct() with the wrong service");
    i.owner = this;
    i.token = o.token;
    o.token = 0;
  }
  void move_assign(Impl& i, Service& s, Impl& o)
  {
    if (i.owner != this || o.owner != &s) log_->fail("move_assign() with the wrong service");
    if (&i == &o) log_->fail("move_assign() from itself");
    i.owner = &s;
    i.token = o.token;
    o.token = 0;
  }
  void destroy(Impl& i)
  {
    if (i.owner != this) log_->fail("an implementation was destroyed by a service it doesn't belong to");
    i.owner = nullptr;
  }

  void op(const Impl& i, const std::string& what)
  {
    if (i.owner != this) log_->fail("operation on another service's implementation");
    log_->add(std::to_string(i.token) + ":" + what);
  }
  template <typename T = std::uint64_t>
  T op(const Impl& i, const std::string& what, sys::error_code& ec)
  {
    op(i, what);
    ec = log_->ec;
    return static_cast<T>(log_->value);
  }

  void open(Impl& i, const char* f, const open_args& a, sys::error_code& ec) noexcept { op(i, std::string("open ") + f + " " + put_args(a), ec); }
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
  void open(Impl& i, const boost::filesystem::path& f, const open_args& a, sys::error_code& ec) noexcept { op(i, "open path " + f.string() + " " + put_args(a), ec); }
#endif
  void assign(Impl& i, const int& h, sys::error_code& ec) noexcept { op(i, "assign " + put(h), ec); }
  bool is_open(const Impl& i) const noexcept { const_cast<Service*>(this)->op(i, "is_open"); return log_->value & 1; }
  int native_handle(Impl& i) noexcept { op(i, "native_handle"); return (int)log_->value; }
  void close(Impl& i, sys::error_code& ec) noexcept { op(i, "close", ec); }
  void cancel(Impl& i, sys::error_code& ec) noexcept { op(i, "cancel", ec); }
  std::uint64_t position(Impl& i, sys::error_code& ec) noexcept { return op(i, "position", ec); }
  std::uint64_t seek(Impl& i, seek_origin o, std::int64_t p, sys::error_code& ec) noexcept { return op(i, "seek " + put(o) + " " + put(p), ec); }
  std::uint64_t size(Impl& i, sys::error_code& ec) noexcept { return op(i, "size", ec); }
  void truncate(Impl& i, std::uint64_t n, sys::error_code& ec) noexcept { op(i, "truncate " + put(n), ec); }
  file_perms permissions(Impl& i, sys::error_code& ec) noexcept { return op<file_perms>(i, "get_permissions", ec); }
  void permissions(Impl& i, file_perms p, sys::error_code& ec) noexcept { permissions(i, p, file_perm_options::replace, ec); }
  void permissions(Impl& i, file_perms p, file_perm_options o, sys::error_code& ec) noexcept { op(i, "set_permissions " + put(p) + " " + put(o), ec); }
  file_attrs attributes(Impl& i, sys::error_code& ec) noexcept { return op<file_attrs>(i, "get_attributes", ec); }
  void attributes(Impl& i, file_attrs p, sys::error_code& ec) noexcept { attributes(i, p, file_attr_options::replace, ec); }
  void attributes(Impl& i, file_attrs p, file_attr_options o, sys::error_code& ec) noexcept { op(i, "set_attributes " + put(p) + " " + put(o), ec); }
  file_times times(Impl& i, sys::error_code& ec) noexcept { return make_times(op(i, "get_times", ec)); }
  void times(Impl& i, const file_times& t, sys::error_code& ec) noexcept { op(i, "set_times " + put_times(t), ec); }

  static file_times make_times(std::uint64_t v)
  {
    typedef asioext::file_time_type T;
    return file_times{T(T::duration(v % 1000)), T(T::duration(v % 777)), T(T::duration(v % 555))};
  }
  static std::string put_times(const file_times& t)
  { return put(t.ctime.time_since_epoch().count()) + "/" + put(t.atime.time_since_epoch().count()) + "/" + put(t.mtime.time_since_epoch().count()); }

  template <typename B> std::size_t read_some(Impl& i, const B& b, sys::error_code& ec) noexcept { return op<std::size_t>(i, "read " + put_buffers(b), ec); }
  template <typename B> std::size_t write_some(Impl& i, const B& b, sys::error_code& ec) noexcept { return op<std::size_t>(i, "write " + put_buffers(b), ec); }
  template <typename B> std::size_t read_some_at(Impl& i, std::uint64_t o, const B& b, sys::error_code& ec) noexcept
  { return op<std::size_t>(i, "read_at " + put(o) + " " + put_buffers(b), ec); }
  template <typename B> std::size_t write_some_at(Impl& i, std::uint64_t o, const B& b, sys::error_code& ec) noexcept
  { return op<std::size_t>(i, "write_at " + put(o) + " " + put_buffers(b), ec); }

  // Completes at once: what matters is that the token and the initiating
  // function's result pass through the file object.
  template <typename Token>
  auto go(Impl& i, const std::string& what, Token&& token)
  {
    op(i, what);
    return asio::async_initiate<Token, void(sys::error_code, std::size_t)>([] (auto h) { h(log_->ec, (std::size_t)log_->value); }, token);
  }
  template <typename B, typename Token> auto async_read_some(Impl& i, const B& b, Token&& t) { return go(i, "async_read " + put_buffers(b), std::forward<Token>(t)); }
  template <typename B, typename Token> auto async_write_some(Impl& i, const B& b, Token&& t) { return go(i, "async_write " + put_buffers(b), std::forward<Token>(t)); }
  template <typename B, typename Token> auto async_read_some_at(Impl& i, std::uint64_t o, const B& b, Token&& t)
  { return go(i, "async_read_at " + put(o) + " " + put_buffers(b), std::forward<Token>(t)); }
  template <typename B, typename Token> auto async_write_some_at(Impl& i, std::uint64_t o, const B& b, Token&& t)
  { return go(i, "async_write_at " + put(o) + " " + put_buffers(b), std::forward<Token>(t)); }
};
template <int Tag> asio::execution_context::id Service<Tag>::id;

int executors_alive;

class Context;

// An executor that can't be assigned to, with an identity of its own.
class Ex
{
public:
  Ex(Context& c, int id) noexcept : c_(c), id_(id) { ++executors_alive; }
  Ex(const Ex& o) noexcept : c_(o.c_), id_(o.id_) { if (o.alive_ != 42) log_->fail("an executor was copied after its destruction"); ++executors_alive; }
  Ex& operator=(const Ex&) = delete;
  ~Ex()
  {
    if (alive_ != 42) log_->fail("an executor was destroyed twice");
    alive_ = 0;
    --executors_alive;
  }
  bool operator==(const Ex& o) const noexcept { return id_ == o.id_; }
  bool operator!=(const Ex& o) const noexcept { return id_ != o.id_; }
  asio::execution_context& query(asio::execution::context_t) const noexcept;
  static constexpr asio::execution::blocking_t::never_t query(asio::execution::blocking_t) noexcept { return asio::execution::blocking_t::never_t(); }
  template <typename F> void execute(F&& f) const { f(); }
  int id() const { return id_; }

private:
  Context& c_;
  const int id_;
  int alive_ = 42;
};

class Context : public asio::execution_context
{
public:
  explicit Context(int id) : id_(id) {}
  ~Context() { shutdown(); destroy(); }
  typedef Ex executor_type;
  Ex get_executor() noexcept { return Ex(*this, id_); }
  template <int Tag> Service<Tag>& service() { return asio::use_service<Service<Tag>>(*this); }

private:
  int id_;
};

asio::execution_context& Ex::query(asio::execution::context_t) const noexcept { return c_; }

// A handler that can only be moved.
struct OnlyMoved
{
  int* n; sys::error_code* ec; std::size_t* v;
  OnlyMoved(int* n_, sys::error_code* e, std::size_t* v_) : n(n_), ec(e), v(v_) {}
  OnlyMoved(OnlyMoved&&) = default;
  OnlyMoved(const OnlyMoved&) = delete;
  void operator()(sys::error_code e, std::size_t x) { ++*n; *ec = e; *v = x; }
};
struct Copied
{
  int* n; sys::error_code* ec; std::size_t* v;
  bool whole = true;
  Copied(int* n_, sys::error_code* e, std::size_t* v_) : n(n_), ec(e), v(v_) {}
  Copied(const Copied&) = default;
  Copied(Copied&& o) : n(o.n), ec(o.ec), v(o.v), whole(o.whole) { o.whole = false; }
  void operator()(sys::error_code e, std::size_t x) { PBT_CHECK("handler", whole, "a handler that had been moved from was invoked"); ++*n; *ec = e; *v = x; }
};

// The executors and contexts a file is made with.
struct CustomTraits
{
  typedef Ex executor;
  typedef Context context;
  Context c[2] = {Context(0), Context(100)};
  Ex make(Gen& g, int i) { return Ex(c[i], i * 100 + (int)g.below(4)); }
  Ex of(int i) { return c[i].get_executor(); }
};

struct AnyTraits
{
  typedef asio::any_io_executor executor;
  typedef asio::io_context context;
  asio::io_context c[2];
  std::vector<asio::strand<asio::io_context::executor_type>> strands;
  AnyTraits() { for (auto& x : c) strands.emplace_back(x.get_executor()); for (auto& x : c) strands.emplace_back(x.get_executor()); }
  executor make(Gen& g, int i)
  {
    switch (g.below(3)) {
      case 0: return c[i].get_executor();
      case 1: return asio::require(c[i].get_executor(), asio::execution::blocking.never);
      default: return strands[i + 2 * g.below(2)];
    }
  }
  executor of(int i) { return c[i].get_executor(); }
};

struct PoolTraits
{
  typedef asio::thread_pool::executor_type executor;
  typedef asio::thread_pool context;
  asio::thread_pool c[2] = {asio::thread_pool(1), asio::thread_pool(1)};
  executor make(Gen& g, int i)
  { return c[i].get_executor(); }
  executor of(int i) { return c[i].get_executor(); }
};

template <typename Traits>
struct World
{
  typedef typename Traits::executor E;
  typedef asioext::basic_file<Service<0>, E> File;

  struct Slot
  {
    std::unique_ptr<File> f;
    int ctx;
    int token; // 0: nothing (moved from)
    std::unique_ptr<E> ex;
  };

  Gen& g;
  Log log;
  Traits t;
  std::vector<Slot> slots;
  int moves = 0, calls = 0, failures = 0;

  explicit World(Gen& gen) : g(gen) { log_ = &log; next_token = 0; }
  ~World() { slots.clear(); log_ = nullptr; }

  void settle(const char* after)
  {
    PBT_CHECK("implementation", log.bad.empty(), "%s (%s)", log.bad[0].c_str(), after);
  }
  void expect(const std::string& what, const char* after)
  {
    settle(after);
    PBT_CHECK("calls", log.calls.size() == 1 && log.calls[0] == what, "%s asked its service for %s instead of %s", after,
              log.calls.empty() ? "nothing" : (log.calls[0] + (log.calls.size() > 1 ? "; " + log.calls[1] : "")).c_str(), what.c_str());
    log.calls.clear();
  }
  void script()
  {
    log.ec = g.chance(1, 3) ? (g.flip() ? sys::error_code((int)g.range(1, 100), sys::system_category()) : sys::error_code(asio::error::eof)) : sys::error_code();
    log.value = g.chance(1, 8) ? g.num(~0ull) : g.below(100000);
    log.calls.clear();
  }
  // Calls one of two forms; returns the value; checks errors.
  template <typename T, typename F1, typename F2>
  T both(const char* name, F1 throwing, F2 coded)
  {
    if (g.flip()) {
      try {
        if constexpr (std::is_void_v<T>) { throwing(); PBT_CHECK("outcome", !log.ec, "%s should have thrown", name); return; }
        else { T r = throwing(); PBT_CHECK("outcome", !log.ec, "%s should have thrown", name); return r; }
      } catch (const sys::system_error& x) {
        PBT_CHECK("outcome", log.ec && x.code() == log.ec, "%s threw %s instead of %s", name, x.code().message().c_str(), log.ec.message().c_str());
      }
      if constexpr (std::is_void_v<T>) return;
      else return static_cast<T>(log.value);
    }
    sys::error_code ec = stale();
    if constexpr (std::is_void_v<T>) { coded(ec); PBT_CHECK("outcome", ec == log.ec, "%s: %s instead of %s", name, ec.message().c_str(), log.ec.message().c_str()); }
    else {
      T r = coded(ec);
      PBT_CHECK("outcome", ec == log.ec, "%s: %s instead of %s", name, ec.message().c_str(), log.ec.message().c_str());
      return r;
    }
  }

  Slot* pick() { return &slots[g.below(slots.size())]; }

  void create();
  void construct_failing();
  void move();
  void assign();
  void destroy() { const std::size_t i = g.below(slots.size()); g.note("destroy object %zu", i); slots.erase(slots.begin() + i); settle("destroying a file"); }
  void operate();
  void async();
  void look();
};

template <typename Traits>
void World<Traits>::create()
{
  const int ctx = (int)g.below(2);
  const bool by_context = g.flip();
  const E given = by_context ? t.of(ctx) : t.make(g, ctx);
  auto& context = t.c[ctx];
  std::unique_ptr<File> f;
  script();
  const int token = next_token + 1;
  const std::string name = "/nonexistent/" + std::to_string(g.below(1000));
  const open_args args(static_cast<asioext::open_flags>(g.below(8)), static_cast<file_perms>(g.below(01000)));
  const int handle = (int)g.range(1000, 100000);
  std::string expected;
  const std::size_t kind = g.below(5);
  g.note("file %d: constructed %s of context %d, form %zu%s", token, by_context ? "by the context" : "by an executor", ctx, kind, log.ec ? ", failing" : "");
  switch (kind) {
    case 0:
      log.ec = {};
      if (by_context) f.reset(new File(context)); else f.reset(new File(given));
      break;
    case 1: // throwing only
    case 2: {
      expected = "assign " + put(handle);
      try {
        if (kind == 1) {
          const asioext::file_handle h(handle);
          if (by_context) f.reset(new File(context, h)); else f.reset(new File(given, h));
        } else if (by_context) f.reset(new File(context, handle));
        else f.reset(new File(given, handle));
        PBT_CHECK("outcome", !log.ec, "the constructor should have thrown");
      } catch (const sys::system_error& x) {
        PBT_CHECK("outcome", log.ec && x.code() == log.ec, "the constructor threw %s", x.code().message().c_str());
      }
      break;
    }
    default: {
      expected = "open " + name + " " + put_args(args);
      auto run = [&](const auto& n) {
        both<void>("the constructor",
          [&] { if (by_context) f.reset(new File(context, n, args)); else f.reset(new File(given, n, args)); },
          [&](sys::error_code& ec) { if (by_context) f.reset(new File(context, n, args, ec)); else f.reset(new File(given, n, args, ec)); });
      };
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
      if (g.flip()) { expected = "open path " + name + " " + put_args(args); run(boost::filesystem::path(name)); break; }
#endif
      run(name.c_str());
      break;
    }
  }
  if (!f) ++failures;
  if (expected.empty()) { settle("constructing a file"); PBT_CHECK("calls", log.calls.empty(), "constructing a file called %s", log.calls[0].c_str()); }
  else expect(std::to_string(token) + ":" + expected, "constructing a file");
  if (!f) { g.label("failed-construction"); return; }
  g.label(by_context ? "by-context" : "by-executor");
  slots.push_back(Slot{std::move(f), ctx, token, std::unique_ptr<E>(new E(given))});
}

// The service itself can't set up the implementation.
template <typename Traits>
void World<Traits>::construct_failing()
{
  script();
  log.attempts = 1;
  const int ctx = (int)g.below(2);
  const std::size_t kind = slots.empty() ? g.below(2) : g.below(3);
  g.note("failing construction, form %zu", kind);
  Slot* s = kind == 2 ? pick() : nullptr;
  bool thrown = false;
  try {
    switch (kind) {
      case 0: { File f(t.c[ctx]); break; }
      case 1: { File f(t.make(g, ctx)); break; }
      default: { File f(std::move(*s->f)); break; }
    }
  } catch (const SetupFailed&) {
    thrown = true;
  }
  log.attempts = 0;
  ++failures;
  PBT_CHECK("setup-failure", thrown, "the service's exception wasn't passed on");
  settle("a failed construction");
  g.label("service-throws");
}

template <typename Traits>
void World<Traits>::move()
{
  Slot* s = pick();
  script();
  std::unique_ptr<File> f;
  ++moves;
  g.note("move file %d", s->token);
  f.reset(new File(std::move(*s->f)));
  settle("move construction");
  Slot n{std::move(f), s->ctx, s->token, std::unique_ptr<E>(new E(*s->ex))};
  s->token = 0;
  slots.push_back(std::move(n));
  PBT_CHECK("calls", log.calls.empty(), "moving a file called %s", log.calls[0].c_str());
}

template <typename Traits>
void World<Traits>::assign()
{
  Slot* s = pick();
  Slot* d = pick();
  script();
  ++moves;
  File& src = *s->f;
  g.note("object %d (file %d, context %d) = object %d (file %d, context %d)", (int)(d - &slots[0]), d->token, d->ctx, (int)(s - &slots[0]), s->token, s->ctx);
  *d->f = std::move(src);
  if (s != d) {
    if (s->ctx != d->ctx) g.label("assigned-across-contexts");
    d->ctx = s->ctx;
    d->token = s->token;
    d->ex.reset(new E(*s->ex));
    s->token = 0;
  } else g.label("self-assignment");
  settle("move assignment");
  PBT_CHECK("calls", log.calls.empty(), "assigning a file called %s", log.calls[0].c_str());
}

template <typename Traits>
void World<Traits>::look()
{
  for (auto& s : slots) {
    PBT_CHECK("executor", s.f->get_executor() == *s.ex, "a file doesn't have the executor it was given (or the one of the file it was assigned)");
    PBT_CHECK("lowest-layer", &s.f->lowest_layer() == s.f.get() && &std::as_const(*s.f).lowest_layer() == s.f.get());
  }
}

template <typename Traits>
void World<Traits>::operate()
{
  Slot* s = pick();
  File& f = *s->f;
  ++calls;
  script();
  const std::string k = std::to_string(s->token) + ":";
  const std::int64_t off = g.chance(1, 4) ? (std::int64_t)g.num(~0ull) : (std::int64_t)g.below(100000);
  const std::uint64_t uoff = (std::uint64_t)off;
  std::string expected;
  std::optional<std::uint64_t> value; // what the call returned
  std::array<char, 64> area;
  area_ = area.data();
  std::vector<asio::mutable_buffer> bufs;
  for (std::size_t i = g.below(4); i != 0; --i) bufs.push_back(asio::buffer(area.data() + g.below(30), g.below(30)));
  const std::vector<asio::const_buffer> cbufs(bufs.begin(), bufs.end());
  const asio::mutable_buffer one(area.data() + g.below(20), g.below(40));
  const auto p = static_cast<file_perms>(g.below(01000));
  const auto po = static_cast<file_perm_options>(g.below(4));
  const auto a = static_cast<file_attrs>(g.below(512));
  const auto ao = static_cast<file_attr_options>(g.below(4));
  const file_times ti = Service<0>::make_times(g.below(1000000));
  switch (g.below(21)) {
    case 0: expected = "cancel"; both<void>("cancel", [&] { f.cancel(); }, [&](sys::error_code& ec) { f.cancel(ec); }); break;
    case 1: expected = "close"; both<void>("close", [&] { f.close(); }, [&](sys::error_code& ec) { f.close(ec); }); break;
    case 2: expected = "position"; value = both<std::uint64_t>("position", [&] { return f.position(); }, [&](sys::error_code& ec) { return f.position(ec); }); break;
    case 3: {
      const auto o = g.pick({seek_origin::from_begin, seek_origin::from_current, seek_origin::from_end});
      expected = "seek " + put(o) + " " + put(off);
      value = both<std::uint64_t>("seek", [&] { return f.seek(o, off); }, [&](sys::error_code& ec) { return f.seek(o, off, ec); });
      break;
    }
    case 4: expected = "size"; value = both<std::uint64_t>("size", [&] { return f.size(); }, [&](sys::error_code& ec) { return f.size(ec); }); break;
    case 5: expected = "truncate " + put(off); both<void>("truncate", [&] { f.truncate(uoff); }, [&](sys::error_code& ec) { f.truncate(uoff, ec); }); break;
    case 6: {
      expected = "get_permissions";
      value = (std::uint64_t)both<file_perms>("permissions", [&] { return f.permissions(); }, [&](sys::error_code& ec) { return f.permissions(ec); });
      log.value = (std::uint64_t)static_cast<file_perms>(log.value);
      break;
    }
    case 7: expected = "set_permissions " + put(p) + " " + put(file_perm_options::replace);
      both<void>("permissions", [&] { f.permissions(p); }, [&](sys::error_code& ec) { f.permissions(p, ec); }); break;
    case 8: expected = "set_permissions " + put(p) + " " + put(po);
      both<void>("permissions", [&] { f.permissions(p, po); }, [&](sys::error_code& ec) { f.permissions(p, po, ec); }); break;
    case 9: {
      expected = "get_attributes";
      value = (std::uint64_t)both<file_attrs>("attributes", [&] { return f.attributes(); }, [&](sys::error_code& ec) { return f.attributes(ec); });
      log.value = (std::uint64_t)static_cast<file_attrs>(log.value);
      break;
    }
    case 10: expected = "set_attributes " + put(a) + " " + put(file_attr_options::replace);
      both<void>("attributes", [&] { f.attributes(a); }, [&](sys::error_code& ec) { f.attributes(a, ec); }); break;
    case 11: expected = "set_attributes " + put(a) + " " + put(ao);
      both<void>("attributes", [&] { f.attributes(a, ao); }, [&](sys::error_code& ec) { f.attributes(a, ao, ec); }); break;
    case 12: {
      expected = "get_times";
      const file_times want = Service<0>::make_times(log.value);
      std::string got;
      both<void>("times", [&] { got = Service<0>::put_times(f.times()); }, [&](sys::error_code& ec) { got = Service<0>::put_times(f.times(ec)); });
      PBT_CHECK("value", got.empty() || got == Service<0>::put_times(want), "times() returned %s", got.c_str());
      break;
    }
    case 13: expected = "set_times " + Service<0>::put_times(ti); both<void>("times", [&] { f.times(ti); }, [&](sys::error_code& ec) { f.times(ti, ec); }); break;
    case 14: expected = "is_open"; PBT_CHECK("value", std::as_const(f).is_open() == bool(log.value & 1), "is_open() isn't what the service says"); break;
    case 15: expected = "native_handle"; PBT_CHECK("value", f.native_handle() == (int)log.value, "native_handle() isn't what the service says"); break;
    case 16: expected = "read " + (g.flip() ? put_buffers(one) : put_buffers(bufs));
      if (expected == "read " + put_buffers(one))
        value = both<std::size_t>("read_some", [&] { return f.read_some(one); }, [&](sys::error_code& ec) { return f.read_some(one, ec); });
      else
        value = both<std::size_t>("read_some", [&] { return f.read_some(bufs); }, [&](sys::error_code& ec) { return f.read_some(bufs, ec); });
      break;
    case 17: expected = "write " + put_buffers(cbufs);
      value = both<std::size_t>("write_some", [&] { return f.write_some(cbufs); }, [&](sys::error_code& ec) { return f.write_some(cbufs, ec); }); break;
    case 18: expected = "read_at " + put(off) + " " + put_buffers(bufs);
      value = both<std::size_t>("read_some_at", [&] { return f.read_some_at(uoff, bufs); }, [&](sys::error_code& ec) { return f.read_some_at(uoff, bufs, ec); }); break;
    case 19: expected = "write_at " + put(off) + " " + put_buffers(bufs);
      value = both<std::size_t>("write_some_at", [&] { return f.write_some_at(uoff, bufs); }, [&](sys::error_code& ec) { return f.write_some_at(uoff, bufs, ec); }); break;
    default: {
      const std::string name = "/nonexistent/" + std::to_string(g.below(1000));
      const open_args args(static_cast<asioext::open_flags>(g.below(8)), p);
      auto run = [&](const auto& n) { both<void>("open", [&] { f.open(n, args); }, [&](sys::error_code& ec) { f.open(n, args, ec); }); };
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
      if (g.flip()) { expected = "open path " + name + " " + put_args(args); run(boost::filesystem::path(name)); break; }
#endif
      expected = "open " + name + " " + put_args(args);
      run(name.c_str());
      break;
    }
  }
  g.note("file %d: %s%s", s->token, expected.c_str(), log.ec ? ", failing" : "");
  PBT_CHECK("value", !value || *value == log.value, "%s returned %llu instead of %llu", expected.c_str(), (unsigned long long)*value, (unsigned long long)log.value);
  expect(k + expected, "a file operation");
}

template <typename Traits>
void World<Traits>::async()
{
  Slot* s = pick();
  File& f = *s->f;
  ++calls;
  script();
  const std::string k = std::to_string(s->token) + ":";
  const std::uint64_t off = g.chance(1, 4) ? g.num(~0ull) : g.below(100000);
  std::array<char, 64> area;
  area_ = area.data();
  std::vector<asio::mutable_buffer> bufs;
  for (std::size_t i = g.below(4); i != 0; --i) bufs.push_back(asio::buffer(area.data() + g.below(30), g.below(30)));
  const std::vector<asio::const_buffer> cbufs(bufs.begin(), bufs.end());
  const std::size_t kind = g.below(4);
  static const char* const names[] = {"async_read ", "async_write ", "async_read_at ", "async_write_at "};
  const std::string what = names[kind] + (kind >= 2 ? put(off) + " " : std::string()) + put_buffers(bufs);
  auto start = [&](auto&& token) -> decltype(auto) {
    typedef decltype(token) T;
    switch (kind) {
      case 0: return f.async_read_some(bufs, std::forward<T>(token));
      case 1: return f.async_write_some(cbufs, std::forward<T>(token));
      case 2: return f.async_read_some_at(off, bufs, std::forward<T>(token));
      default: return f.async_write_some_at(off, cbufs, std::forward<T>(token));
    }
  };
  g.note("file %d: %s%s", s->token, what.c_str(), log.ec ? ", failing" : "");
  int n = 0;
  sys::error_code ec = stale();
  std::size_t v = 0;
  switch (g.below(3)) {
    case 0: {
      OnlyMoved h(&n, &ec, &v);
      start(std::move(h));
      expect(k + what, "an asynchronous operation");
      break;
    }
    case 1: {
      Copied h(&n, &ec, &v);
      start(h);
      PBT_CHECK("handler", h.whole, "the caller's own handler was moved from");
      expect(k + what, "an asynchronous operation");
      break;
    }
    default: {
      std::future<std::size_t> r = start(asio::use_future);
      PBT_CHECK("token", r.valid() && r.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "the token's result didn't come back");
      ++n;
      try { v = r.get(); ec = sys::error_code(); } catch (const sys::system_error& x) { ec = x.code(); v = (std::size_t)log.value; }
      expect(k + what, "an asynchronous operation");
      g.label("use-future");
      break;
    }
  }
  PBT_CHECK("handler", n == 1 && ec == log.ec && v == (std::size_t)log.value, "the handler was invoked %d times, with %s and %zu", n, ec.message().c_str(), v);
}

template <typename Traits>
void history(Gen& g)
{
  executors_alive = 0;
  int moves, calls, failures;
  {
    World<Traits> w(g);
    const std::size_t n = g.range(2, 40);
    for (std::size_t i = 0; i != n; ++i) {
      const std::size_t op = w.slots.empty() ? 0 : g.weighted({3, 2, 3, 5, 3, 8, 4});
      switch (op) {
        case 0: if (w.slots.size() < 5) w.create(); break;
        case 1: w.construct_failing(); break;
        case 2: if (w.slots.size() < 5) w.move(); break;
        case 3: w.assign(); break;
        case 4: w.destroy(); break;
        case 5: w.operate(); break;
        default: w.async(); break;
      }
      w.look();
    }
    w.slots.clear();
    w.settle("the end of the history");
    moves = w.moves; calls = w.calls; failures = w.failures;
  }
  PBT_CHECK("executors", executors_alive == 0, "%d executors were never destroyed", executors_alive);
  if (moves && calls) g.nontrivial();
  (void)failures;
}

} // namespace

PBT_PROP(custom_executor, 3) { history<CustomTraits>(g); }
PBT_PROP(any_executor, 3) { history<AnyTraits>(g); }
PBT_PROP(pool_executor, 1) { history<PoolTraits>(g); }

// io_object_holder by itself, whose objects also convert between executor types
// and services.
PBT_PROP(holders, 2)
{
  executors_alive = 0;
  {
  Log log;
  log_ = &log;
  next_token = 0;
  asio::io_context io[2];
  struct Unlog { ~Unlog() { log_ = nullptr; } };
  typedef asio::any_io_executor Any;
  typedef asio::io_context::executor_type Io;
  typedef asioext::io_object_holder<Service<0>, Io> H;
  typedef asioext::io_object_holder<Service<0>, Any> HAny;
  typedef asioext::io_object_holder<Service<1>, Any> HOther;
  auto settle = [&](const char* after) { PBT_CHECK("implementation", log.bad.empty(), "%s (%s)", log.bad[0].c_str(), after); };
  {
    const int c = (int)g.below(2);
    std::unique_ptr<H> h(g.flip() ? new H(io[c]) : new H(io[c].get_executor()));
    PBT_CHECK("service", &h->get_service() == &asio::use_service<Service<0>>(io[c]) && &std::as_const(*h).get_service() == &h->get_service(), "another context's service");
    PBT_CHECK("executor", h->get_executor() == io[c].get_executor());
    const int token = h->get_implementation().token;
    const bool fails = g.chance(1, 5);
    const bool other = g.flip();
    g.note("converting a holder of context %d to another %s%s", c, other ? "service" : "executor", fails ? ", at first failing" : "");
    if (fails) {
      log.attempts = 1;
      bool thrown = false;
      try { if (other) HOther x(std::move(*h)); else HAny x(std::move(*h)); } catch (const SetupFailed&) { thrown = true; }
      log.attempts = 0;
      PBT_CHECK("setup-failure", thrown);
      settle("a failed conversion");
      g.label("service-throws");
    }
    if (other) {
      HOther x(std::move(*h));
      settle("a conversion to another service");
      PBT_CHECK("service", &x.get_service() == &asio::use_service<Service<1>>(io[c]), "another context's service");
      PBT_CHECK("executor", x.get_executor() == Any(io[c].get_executor()));
      PBT_CHECK("implementation", x.get_implementation().token == token && h->get_implementation().token == 0);
      if (g.flip()) h.reset();
      settle("destroying the source of a conversion");
      g.label("other-service");
    } else {
      HAny x(std::move(*h));
      settle("a conversion to another executor");
      PBT_CHECK("service", &x.get_service() == &h->get_service());
      PBT_CHECK("executor", x.get_executor() == Any(io[c].get_executor()));
      PBT_CHECK("implementation", x.get_implementation().token == token && h->get_implementation().token == 0);
      HAny y(io[1 - c]);
      const bool back = g.flip();
      if (back) y = std::move(x); else x = std::move(y);
      settle("an assignment across contexts");
      HAny& to = back ? y : x;
      const int at = back ? c : 1 - c;
      PBT_CHECK("service", &to.get_service() == &asio::use_service<Service<0>>(io[at]));
      PBT_CHECK("executor", to.get_executor() == Any(io[at].get_executor()));
      g.label("other-executor");
    }
    h.reset();
  }
  settle("the holders' destruction");
  log_ = nullptr;
  }
  g.nontrivial();
}
