// P16: asynchronous file operations. Every file is driven by a chain of steps,
// each started from the completion of the one before; a step is one operation
// or several positional ones on disjoint ranges. Chains run concurrently on
// several contexts, threads and executors.
#include "file_common.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include <atomic>
#include <condition_variable>
#include <future>
#include <thread>
using namespace fx;

void pbt::setup(const std::string&) {}

namespace {

std::atomic<long> blocks{0}, handlers{0};

// Counts the blocks one operation holds.
template <typename T>
struct Alloc
{
  typedef T value_type;
  std::atomic<long>* count;
  explicit Alloc(std::atomic<long>* c) : count(c) {}
  template <typename U> Alloc(const Alloc<U>& o) : count(o.count) {}
  T* allocate(std::size_t n) { ++*count; ++blocks; return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { --*count; --blocks; ::operator delete(p); }
  template <typename U> bool operator==(const Alloc<U>& o) const { return count == o.count; }
  template <typename U> bool operator!=(const Alloc<U>& o) const { return count != o.count; }
};

struct OpPlan
{
  bool read, at, all;
  std::uint64_t off;
  std::vector<std::size_t> sizes;
  std::string data; // to write
  Bufs::Shape shape;
  int exec;
  bool alloc;
  // while running
  Bufs bufs;
  std::uint64_t expect = 0;
  bool expect_eof = false;
  int expect_err = 0;
  std::string expect_data;
  std::atomic<int> calls{0};
  std::atomic<long> held{0};
  OpPlan() = default;
};

enum After { nothing, move_file, destroy_file, close_file };

struct Step
{
  std::vector<std::unique_ptr<OpPlan>> ops;
  std::atomic<int> left{0};
  bool future = false; // the last step only
  std::vector<std::future<std::size_t>> futures;
};

enum { ex_default, ex_io, ex_any, ex_strand, ex_io2, ex_strand2, ex_pool, nexecs };
const char* const exec_names[] = {"default", "io", "any", "strand", "io2", "strand2", "pool"};

struct World;

struct Chain
{
  World* w;
  int ctx;
  std::unique_ptr<asioext::file> f;
  int raw = -1; // another descriptor for the file
  bool can_read = true, can_write = true, open = true;
  std::string data; // the file's contents and the position, after the operations so far
  std::uint64_t pos = 0;
  std::vector<std::unique_ptr<Step>> steps;
  std::size_t at = 0;
  After after = nothing;
  bool done = false;

  void start();
  template <typename Tok> void initiate(OpPlan& o, Tok&& tok);
  void completed(OpPlan& o, sys::error_code ec, std::size_t n, bool on_executor);
  void finish_step();
};

thread_local OpPlan* initiating = nullptr;

struct World
{
  Gen& g;
  std::unique_ptr<asio::io_context> io[2];
  std::unique_ptr<asio::thread_pool> pool;
  typedef asio::io_context::executor_type IoEx;
  std::optional<asio::strand<IoEx>> strand[2];
  std::vector<std::unique_ptr<Chain>> chains;
  std::mutex m;
  std::condition_variable cv;
  std::size_t running = 0;

  explicit World(Gen& gen) : g(gen) {}
  void chain_done(Chain& c)
  {
    std::lock_guard<std::mutex> l(m);
    c.done = true;
    --running;
    cv.notify_all();
  }
};

// A move-only handler.
struct Handler
{
  struct Token { Token() { ++handlers; } ~Token() { --handlers; } };
  Chain* c;
  OpPlan* o;
  std::function<bool()> on_executor;
  std::unique_ptr<Token> t{new Token};

  Handler(Chain* ch, OpPlan* op, std::function<bool()> on) : c(ch), o(op), on_executor(std::move(on)) {}
  Handler(Handler&&) = default;

  void operator()(sys::error_code ec, std::size_t n)
  {
    std::unique_ptr<Token> mine = std::move(t);
    if (!mine) { c->w->g.fail_later("handler", "a moved-from handler was invoked"); return; }
    mine.reset();
    c->completed(*o, ec, n, on_executor());
  }
};
struct AllocHandler : Handler
{
  using Handler::Handler;
  typedef Alloc<char> allocator_type;
  allocator_type get_allocator() const { return allocator_type(&o->held); }
};

void predict(Chain& c, OpPlan& o)
{
  // (a single operation takes at most 64 buffers)
  const std::size_t total = o.bufs.total(o.all ? ~std::size_t(0) : 64), size = o.bufs.total();
  const std::uint64_t off = o.at ? o.off : c.pos;
  o.expect = 0;
  if (!c.open || (o.read ? !c.can_read : !c.can_write)) {
    // (composed operations on empty buffers don't do anything)
    o.expect_err = EBADF;
    o.expect_data = o.read ? std::string(size, '\xa5') : "";
    return;
  }
  if (o.read) {
    o.expect = off < c.data.size() ? std::min<std::uint64_t>(total, c.data.size() - off) : 0;
    o.expect_eof = o.all ? o.expect < total : o.expect == 0 && total != 0;
    o.expect_data = o.expect ? c.data.substr(off, o.expect) : "";
    o.expect_data.resize(size, '\xa5');
  } else {
    o.expect = total;
    if (total) {
      if (c.data.size() < off + total) c.data.resize(off + total, '\0');
      c.data.replace(off, total, o.bufs.contents(), 0, total);
    }
  }
  if (!o.at) c.pos += o.expect;
}

template <typename Tok>
void Chain::initiate(OpPlan& o, Tok&& tok)
{
  auto run = [&](const auto& q, auto read) {
    if constexpr (decltype(read)::value) {
      if (o.all && o.at) return asio::async_read_at(*f, o.off, q, std::forward<Tok>(tok));
      if (o.all) return asio::async_read(*f, q, std::forward<Tok>(tok));
      if (o.at) return f->async_read_some_at(o.off, q, std::forward<Tok>(tok));
      return f->async_read_some(q, std::forward<Tok>(tok));
    } else {
      if (o.all && o.at) return asio::async_write_at(*f, o.off, q, std::forward<Tok>(tok));
      if (o.all) return asio::async_write(*f, q, std::forward<Tok>(tok));
      if (o.at) return f->async_write_some_at(o.off, q, std::forward<Tok>(tok));
      return f->async_write_some(q, std::forward<Tok>(tok));
    }
  };
  OpPlan* const previous = initiating;
  initiating = &o;
  if constexpr (std::is_same_v<std::decay_t<Tok>, asio::use_future_t<>>) {
    Step& s = *steps[at];
    if (o.read) s.futures.push_back(run(o.bufs.seq<asio::mutable_buffer>(), std::true_type()));
    else s.futures.push_back(run(o.bufs.seq<asio::const_buffer>(), std::false_type()));
  } else {
    const bool one = o.shape == Bufs::single && o.bufs.count() == 1 && !o.all;
    if (o.read && one) run(asio::mutable_buffer(o.bufs.ptr(0), o.bufs.len(0)), std::true_type());
    else if (o.read) run(o.bufs.seq<asio::mutable_buffer>(), std::true_type());
    else if (one) run(asio::const_buffer(o.bufs.ptr(0), o.bufs.len(0)), std::false_type());
    else run(o.bufs.seq<asio::const_buffer>(), std::false_type());
  }
  initiating = previous;
}

template <typename H>
void dispatch(Chain& c, OpPlan& o)
{
  World& w = *c.w;
  auto io = w.io[c.ctx].get();
  auto io2 = w.io[1 - c.ctx].get();
  auto in_io = [io] { return io->get_executor().running_in_this_thread(); };
  typedef asio::any_io_executor Any;
  if (o.exec == ex_default) return c.initiate(o, H(&c, &o, in_io));
  if (o.exec == ex_io) return c.initiate(o, asio::bind_executor(*io, H(&c, &o, in_io)));
  Any ex;
  std::function<bool()> on;
  switch (o.exec) {
    case ex_any: ex = Any(io->get_executor()); on = in_io; break;
    case ex_strand: { auto s = *w.strand[c.ctx]; ex = Any(s); on = [s] { return s.running_in_this_thread(); }; break; }
    case ex_io2: ex = Any(io2->get_executor()); on = [io2] { return io2->get_executor().running_in_this_thread(); }; break;
    case ex_strand2: { auto s = *w.strand[1 - c.ctx]; ex = Any(s); on = [s] { return s.running_in_this_thread(); }; break; }
    default: { auto p = w.pool.get(); ex = Any(p->get_executor()); on = [p] { return p->get_executor().running_in_this_thread(); }; break; }
  }
  c.initiate(o, asio::bind_executor(ex, H(&c, &o, on)));
}

// Starts the current step.
void Chain::start()
{
  if (at == steps.size()) {
    f.reset();
    w->chain_done(*this);
    return;
  }
  Step& s = *steps[at];
  if (s.future) { // these have to be the last ones; the main thread awaits them
    for (auto& o : s.ops) predict(*this, *o);
    for (auto& o : s.ops) initiate(*o, asio::use_future);
    w->chain_done(*this);
    return;
  }
  // Once the last operation is started, others might continue the chain.
  std::vector<OpPlan*> ops;
  for (auto& o : s.ops) { predict(*this, *o); ops.push_back(o.get()); }
  s.left = static_cast<int>(ops.size());
  // (the file may be destroyed by the completion of the last operation only)
  Chain& self = *this;
  for (OpPlan* o : ops) {
    if (o->alloc) dispatch<AllocHandler>(self, *o);
    else dispatch<Handler>(self, *o);
  }
}

void check_result(Gen& g, OpPlan& o, sys::error_code ec, std::size_t n)
{
  const sys::error_code want = o.expect_err ? os_error(o.expect_err) : o.expect_eof ? sys::error_code(asio::error::eof) : sys::error_code();
  if (ec != want) g.fail_later("error", pbt::strf("completed with '%s', expected '%s'", ec.message().c_str(), want.message().c_str()));
  else if (n != o.expect) g.fail_later("count", pbt::strf("%zu bytes transferred, expected %zu", n, (std::size_t)o.expect));
  else if (o.read && o.bufs.contents() != o.expect_data) g.fail_later("data", "wrong data was read");
  else if (!o.bufs.guards_intact()) g.fail_later("guards", "bytes outside the buffers were changed");
}

void Chain::completed(OpPlan& o, sys::error_code ec, std::size_t n, bool on_executor)
{
  Gen& g = w->g;
  if (++o.calls != 1) { g.fail_later("twice", "a handler was invoked more than once"); return; }
  if (initiating == &o) g.fail_later("inside-initiation", "a handler was invoked from within the initiating function");
  if (!on_executor) g.fail_later("executor", pbt::strf("a handler wasn't invoked on its executor (%s)", exec_names[o.exec]));
  if (o.held != 0) g.fail_later("memory-held", pbt::strf("%ld blocks of the handler's allocator were in use when it was invoked", o.held.load()));
  check_result(g, o, ec, n);
  if (!o.read && o.expect && !o.expect_err) { // the operation is done
    std::string got(o.expect, '\0');
    const std::uint64_t off = o.at ? o.off : pos - o.expect;
    if (::pread(raw, &got[0], got.size(), static_cast<off_t>(off)) != (ssize_t)got.size() || got != o.bufs.contents().substr(0, o.expect))
      g.fail_later("not-written", "the file doesn't contain the data when the handler is invoked");
  }
  if (--steps[at]->left == 0) finish_step();
}

void Chain::finish_step()
{
  Gen& g = w->g;
  if (slurp_fd(raw) != data) g.fail_later("file", "wrong file contents");
  if (f->is_open() && ::lseek(f->native_handle(), 0, SEEK_CUR) != (off_t)pos) g.fail_later("position", "wrong file position");
  if (after == move_file) { // the chain goes on with another object
    std::unique_ptr<asioext::file> n(new asioext::file(std::move(*f)));
    f = std::move(n);
  }
  ++at;
  if (after == destroy_file && at == steps.size()) f.reset();
  if (after == close_file && at + 1 == steps.size()) {
    sys::error_code ec;
    f->close(ec);
    open = false;
  }
  start();
}

} // namespace

PBT_PROP(chains, 1)
{
  World w(g);
  for (auto& io : w.io) {
    io.reset(new asio::io_context(g.flip() ? 1 : 3));
    // the service's threads (one by default)
    if (g.flip()) asio::add_service(*io, new asioext::thread_pool_file_service(*io, (std::size_t)g.range(1, 4)));
  }
  w.pool.reset(new asio::thread_pool(1));
  for (int i : {0, 1}) w.strand[i].emplace(w.io[i]->get_executor());
  // With a single context, its run() has to return by itself when, and only when, everything is done.
  const bool single = g.flip();
  const std::size_t nchains = g.range(1, 3);
  const std::size_t threads = g.range(1, 3);
  bool with_futures = false, many = false;
  std::size_t total_ops = 0;
  const long blocks0 = blocks, handlers0 = handlers;
  g.note("%s, %zu threads", single ? "one context" : "two contexts and a pool", threads);

  for (std::size_t i = 0; i != nchains; ++i) {
    w.chains.emplace_back(new Chain);
    Chain& c = *w.chains.back();
    c.w = &w;
    c.ctx = single ? 0 : (int)g.below(2);
    const std::string path = pbt::scratch_dir() + "/f" + std::to_string(i);
    c.raw = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    c.data = g.bytes(g.size(3000));
    PBT_CHECK("setup", ::pwrite(c.raw, c.data.data(), c.data.size(), 0) == (ssize_t)c.data.size());
    const std::size_t mode = g.weighted({8, 1, 1});
    c.can_read = mode != 1;
    c.can_write = mode != 2;
    const int fd = ::open(path.c_str(), (mode == 0 ? O_RDWR : mode == 1 ? O_WRONLY : O_RDONLY) | O_CLOEXEC);
    ::unlink(path.c_str());
    c.f.reset(new asioext::file(*w.io[c.ctx], asioext::file_handle(fd)));
    c.after = static_cast<After>(g.weighted({4, 1, 1, 1}));
    const std::size_t nsteps = g.range(1, 5);
    g.note("chain %zu: context %d, file of %zu bytes, mode %zu, after %d", i, c.ctx, c.data.size(), mode, (int)c.after);
    for (std::size_t s = 0; s != nsteps; ++s) {
      c.steps.emplace_back(new Step);
      Step& st = *c.steps.back();
      const std::size_t batch = g.chance(1, 3) ? g.range(2, 6) : 1;
      if (batch > 1) many = true;
      st.future = s + 1 == nsteps && g.chance(1, 5);
      with_futures |= st.future;
      for (std::size_t k = 0; k != batch; ++k) {
        st.ops.emplace_back(new OpPlan);
        OpPlan& o = *st.ops.back();
        ++total_ops;
        o.read = g.flip();
        o.all = g.chance(1, 3);
        o.at = batch > 1 || g.flip();
        if (batch > 1) { // disjoint ranges: the k-th starts at a multiple of 500
          o.off = k * 500 + g.below(100);
          o.sizes = gen_sizes(g, 400, false);
        } else {
          o.off = g.num(3500);
          o.sizes = gen_sizes(g, 1000, g.chance(1, 12));
        }
        // (empty operations are left to P10)
        std::size_t total = 0;
        for (auto x : o.sizes) total += x;
        if (total == 0) o.sizes = {7};
        if (o.sizes[0] == 0) o.sizes[0] = 1;
        o.shape = g.flip() ? Bufs::list_ : Bufs::single;
        o.bufs = o.read ? for_reading(o.sizes) : for_writing(g, o.sizes);
        o.exec = (int)g.below(single ? ex_io2 : nexecs);
        o.alloc = g.flip();
        g.note("  step %zu%s: %s%s%s at %llu, %s, executor %s%s", s, st.future ? " (future)" : "", o.read ? "read" : "write", o.all ? "" : "_some",
               o.at ? "_at" : "", (unsigned long long)o.off, show(o.sizes).c_str(), exec_names[o.exec], o.alloc ? ", allocator" : "");
      }
      // A batch of reads and writes beyond the end would make the results depend on the order.
      if (batch > 1)
        for (auto& o : st.ops) if (o->read) for (auto& p : st.ops) if (!p->read && p->off + p->bufs.total() > c.data.size()) {
          // turn the writes into reads
          p->read = true;
          p->bufs = for_reading(p->sizes);
        }
    }
  }
  // (the lengths of files grow meanwhile: drop what depends on the order within a batch)
  w.running = nchains;

  typedef asio::executor_work_guard<World::IoEx> Guard;
  std::vector<Guard> guards;
  if (!single) for (auto& io : w.io) guards.emplace_back(io->get_executor());
  if (!single) guards.reserve(2);
  for (auto& c : w.chains) c->start();

  std::vector<std::thread> ts;
  const bool in_main = single && g.flip();
  if (in_main) {
    while (w.io[0]->run_one()) {}
  } else {
    for (std::size_t i = 0; i != threads; ++i) ts.emplace_back([&] { w.io[0]->run(); });
    if (!single) ts.emplace_back([&] { w.io[1]->run(); });
    if (!single) {
      std::unique_lock<std::mutex> l(w.m);
      w.cv.wait(l, [&] { return w.running == 0; });
    }
  }
  auto await = [&] {
    for (auto& c : w.chains)
      if (c->done)
        for (auto& s : c->steps)
          for (std::size_t i = 0; i != s->futures.size(); ++i) {
            sys::error_code ec;
            std::size_t n = 0;
            try { n = s->futures[i].get(); }
            catch (const sys::system_error& e) { ec = e.code(); n = s->ops[i]->expect; }
            check_result(g, *s->ops[i], ec, n);
          }
  };
  if (!single) await();
  guards.clear();
  for (auto& t : ts) t.join();
  if (single) {
    PBT_CHECK("run-returned", w.running == 0, "the event loop returned although handlers hadn't been invoked");
    await();
  }
  g.raise_later();
  w.pool->join();
  for (auto& c : w.chains) {
    for (auto& s : c->steps) for (auto& o : s->ops) PBT_CHECK("calls", s->future || o->calls == 1);
    c->f.reset();
    PBT_CHECK("contents", slurp_fd(c->raw) == c->data, "wrong file contents at the end");
    ::close(c->raw);
    c->raw = -1;
  }
  w.pool.reset();
  w.chains.clear(); // before the contexts
  for (int i : {0, 1}) { w.strand[i].reset(); w.io[i].reset(); }
  g.raise_later();
  PBT_CHECK("handler-leak", handlers == handlers0, "%ld handlers weren't destroyed", handlers - handlers0);
  PBT_CHECK("memory-leak", blocks == blocks0, "%ld blocks weren't returned to the allocators", blocks - blocks0);
  if (total_ops > 2) g.nontrivial();
  if (many) g.label("batches");
  if (with_futures) g.label("futures");
  if (!single) g.label("two-contexts");
}

// Operations are queued while the service's threads are kept busy: the event
// loops their handlers are to run in must not run out of work meanwhile. Some
// files are cancelled, closed or destroyed then, which must not change on which
// executor the handlers run.
namespace {

struct Gate
{
  std::mutex m;
  std::condition_variable cv;
  int inside = 0;
  bool open = false;
  void enter()
  {
    std::unique_lock<std::mutex> l(m);
    ++inside;
    cv.notify_all();
    cv.wait(l, [&] { return open; });
  }
  void wait(int n)
  {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return inside == n; });
  }
  void release()
  {
    std::lock_guard<std::mutex> l(m);
    open = true;
    cv.notify_all();
  }
};

struct QOp
{
  bool read, at, all, alloc, aborted = false;
  int exec, file;
  std::uint64_t off;
  std::vector<std::size_t> sizes;
  Bufs bufs;
  sys::error_code ec;
  std::size_t n = 0, want = 0;
  std::string data;
  std::atomic<int> calls{0};
  std::atomic<long> held{0};
  bool on = false, held_then = false;
};

struct QHandler
{
  struct Token { Token() { ++handlers; } ~Token() { --handlers; } };
  QOp* o;
  std::function<bool()> on;
  std::unique_ptr<Token> t{new Token};
  QHandler(QOp* op, std::function<bool()> f) : o(op), on(std::move(f)) {}
  QHandler(QHandler&&) = default;
  void operator()(sys::error_code ec, std::size_t n)
  {
    o->ec = ec;
    o->n = n;
    o->on = on();
    o->held_then = o->held != 0;
    ++o->calls;
  }
};
struct QAllocHandler : QHandler
{
  using QHandler::QHandler;
  typedef Alloc<char> allocator_type;
  allocator_type get_allocator() const { return allocator_type(&o->held); }
};

template <typename Ex, typename H>
void start(QOp& o, asioext::file& f, Ex ex, H h)
{
  auto go = [&](auto token) {
    if (o.read) {
      auto q = o.bufs.seq<asio::mutable_buffer>();
      if (o.all && o.at) asio::async_read_at(f, o.off, q, std::move(token));
      else if (o.all) asio::async_read(f, q, std::move(token));
      else if (o.at) f.async_read_some_at(o.off, q, std::move(token));
      else f.async_read_some(q, std::move(token));
    } else {
      auto q = o.bufs.seq<asio::const_buffer>();
      if (o.all && o.at) asio::async_write_at(f, o.off, q, std::move(token));
      else if (o.all) asio::async_write(f, q, std::move(token));
      else if (o.at) f.async_write_some_at(o.off, q, std::move(token));
      else f.async_write_some(q, std::move(token));
    }
  };
  if constexpr (std::is_same_v<Ex, std::nullptr_t>) go(std::move(h));
  else go(asio::bind_executor(ex, std::move(h)));
}

} // namespace

PBT_PROP(queued, 1)
{
  const long blocks0 = blocks, handlers0 = handlers;
  std::size_t nops = 0, naborted = 0, elsewhere = 0;
  {
    Gate gate;
    asio::io_context io[2];
    asio::thread_pool pool(1);
    typedef asio::io_context::executor_type IoEx;
    asio::strand<IoEx> strand[2] = {asio::strand<IoEx>(io[0].get_executor()), asio::strand<IoEx>(io[1].get_executor())};
    struct File { int ctx; std::unique_ptr<asioext::file> f; int raw; std::string data; std::uint64_t pos = 0; std::size_t ops = 0; };
    std::vector<File> files(g.range(1, 3));
    // (whatever happens, the threads of the services have to be released)
    struct Release { Gate& g; ~Release() { g.release(); } } release{gate};
    for (auto& c : io)
      asio::post(asio::use_service<asioext::thread_pool_file_service>(c).get_thread_pool(), [&gate] { gate.enter(); });
    gate.wait(2);

    for (std::size_t i = 0; i != files.size(); ++i) {
      File& f = files[i];
      const std::string path = pbt::scratch_dir() + "/q" + std::to_string(i);
      f.ctx = (int)g.below(2);
      f.raw = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
      f.data = g.bytes(g.range(1, 500));
      PBT_CHECK("setup", ::pwrite(f.raw, f.data.data(), f.data.size(), 0) == (ssize_t)f.data.size());
      f.f.reset(new asioext::file(io[f.ctx], asioext::file_handle(::open(path.c_str(), O_RDWR | O_CLOEXEC))));
      ::unlink(path.c_str());
    }
    std::vector<std::unique_ptr<QOp>> ops;
    bool bound[2] = {false, false}, to_pool = false;
    nops = g.range(1, 6);
    for (std::size_t k = 0; k != nops; ++k) {
      ops.emplace_back(new QOp);
      QOp& o = *ops.back();
      o.file = (int)g.below(files.size());
      File& f = files[o.file];
      ++f.ops;
      o.read = g.flip();
      o.all = g.chance(1, 3);
      o.at = true;
      o.off = g.below(600);
      for (std::size_t n = g.range(1, 3); n; --n) o.sizes.push_back(g.range(1, 200));
      o.bufs = o.read ? for_reading(o.sizes) : for_writing(g, o.sizes);
      // Operations of one queue execute in order, and the first step of a composed one does
      // it all, unless it has to find out whether the file ends there.
      if (o.read && o.off + o.bufs.total() > f.data.size()) o.all = false;
      o.exec = (int)g.below(nexecs);
      o.alloc = g.flip();
      const int home = f.ctx;
      auto in = [&io](int c) { auto p = &io[c]; return [p] { return p->get_executor().running_in_this_thread(); }; };
      auto go = [&](auto ex, std::function<bool()> on) {
        if (o.alloc) start(o, *f.f, ex, QAllocHandler(&o, std::move(on)));
        else start(o, *f.f, ex, QHandler(&o, std::move(on)));
      };
      switch (o.exec) {
        case ex_default: bound[home] = true; go(nullptr, in(home)); break;
        case ex_io: bound[home] = true; go(io[home].get_executor(), in(home)); break;
        case ex_any: bound[home] = true; go(asio::any_io_executor(io[home].get_executor()), in(home)); break;
        case ex_strand: bound[home] = true; go(strand[home], [s = strand[home]] { return s.running_in_this_thread(); }); break;
        case ex_io2: bound[1 - home] = true; go(io[1 - home].get_executor(), in(1 - home)); break;
        case ex_strand2: bound[1 - home] = true; go(strand[1 - home], [s = strand[1 - home]] { return s.running_in_this_thread(); }); break;
        default: to_pool = true; go(pool.get_executor(), [p = &pool] { return p->get_executor().running_in_this_thread(); }); break;
      }
      if (o.exec >= ex_io2) ++elsewhere;
      g.note("op %zu: %s%s at %llu, %s, file %d (context %d), executor %s%s", k, o.read ? "read" : "write", o.all ? "" : "_some", (unsigned long long)o.off,
             show(o.sizes).c_str(), o.file, home, exec_names[o.exec], o.alloc ? ", allocator" : "");
    }
    auto poll = [&](const char* when) {
      for (int c : {0, 1}) {
        io[c].poll();
        if (bound[c]) PBT_CHECK("out-of-work", !io[c].stopped(), "context %d ran out of work although handlers that run in it haven't been invoked (%s)", c, when);
        io[c].restart();
      }
      for (auto& o : ops) PBT_CHECK("early", o->calls == 0, "a handler was invoked before its operation was done");
    };
    poll("queued");
    for (std::size_t i = 0; i != files.size(); ++i) {
      const std::size_t what = g.weighted({3, 2, 1, 1});
      if (what == 0) continue;
      for (auto& o : ops) if (o->file == (int)i) { o->aborted = true; ++naborted; }
      sys::error_code ec;
      g.note("file %zu: %s", i, what == 1 ? "cancelled" : what == 2 ? "closed" : "destroyed");
      if (what == 1) files[i].f->cancel(ec);
      else if (what == 2) files[i].f->close(ec);
      // (composed operations use the file again, but not if the first step is aborted)
      else files[i].f.reset();
    }
    poll("after cancelling");

    for (auto& o : ops) {
      if (o->aborted) continue;
      File& f = files[o->file];
      const std::size_t total = o->bufs.total();
      if (!o->read) {
        if (f.data.size() < o->off + total) f.data.resize(o->off + total, '\0');
        f.data.replace(o->off, total, o->bufs.contents());
        o->want = total;
      } else {
        o->want = o->off < f.data.size() ? std::min<std::uint64_t>(total, f.data.size() - o->off) : 0;
        o->data = o->want ? f.data.substr(o->off, o->want) : "";
      }
      o->data.resize(o->read ? total : 0, '\xa5');
    }

    std::thread other([&] { io[1].run(); });
    std::thread joiner([&] { pool.join(); });
    // (gives the loops a chance to end too early)
    if (to_pool) for (int i = 0; i != 50; ++i) std::this_thread::yield();
    if (g.flip()) {
      gate.release();
      io[0].run();
    } else {
      std::thread t([&] { std::this_thread::yield(); gate.release(); });
      io[0].run();
      t.join();
    }
    other.join();
    joiner.join();
    for (auto& po : ops) {
      QOp& o = *po;
      PBT_CHECK("calls", o.calls == 1, "a handler was invoked %d times when the loop it runs in had ended (executor %s)", o.calls.load(), exec_names[o.exec]);
      PBT_CHECK("executor", o.on, "the handler of %s operation wasn't invoked on its executor (%s)", o.aborted ? "an aborted" : "a finished", exec_names[o.exec]);
      PBT_CHECK("memory-held", !o.held_then, "blocks of the handler's allocator were in use when it was invoked");
      if (o.aborted) {
        PBT_CHECK("aborted", o.ec == asio::error::operation_aborted && o.n == 0, "completed with '%s' and %zu bytes", o.ec.message().c_str(), o.n);
        if (o.read) PBT_CHECK("aborted-data", o.bufs.contents() == std::string(o.bufs.total(), '\xa5'));
        continue;
      }
      const bool eof = o.read && (o.all ? o.want < o.bufs.total() : o.want == 0);
      PBT_CHECK("error", o.ec == (eof ? sys::error_code(asio::error::eof) : sys::error_code()), "completed with '%s', %s", o.ec.message().c_str(), eof ? "expected eof" : "expected success");
      PBT_CHECK("count", o.n == o.want, "%zu bytes transferred, expected %zu", o.n, o.want);
      if (o.read) PBT_CHECK("data", o.bufs.contents() == o.data, "wrong data was read");
    }
    for (auto& f : files) {
      PBT_CHECK("contents", slurp_fd(f.raw) == f.data, "wrong file contents");
      ::close(f.raw);
    }
    files.clear();
  }
  PBT_CHECK("handler-leak", handlers == handlers0, "%ld handlers weren't destroyed", handlers - handlers0);
  PBT_CHECK("memory-leak", blocks == blocks0, "%ld blocks weren't returned to the allocators", blocks - blocks0);
  if (nops > 1 && (naborted || elsewhere)) g.nontrivial();
  if (naborted) g.label("aborted");
  if (elsewhere) g.label("other-context");
}

// Single operations, each compared with the synchronous form on a twin of the
// file: any offset and position, empty buffers, descriptors without the access
// and closed files; started from the main thread, a handler, or the service's
// own threads, with handlers bound to the threads that execute the operations.
namespace {

struct DOp
{
  sys::error_code ec;
  std::size_t n = 0;
  int calls = 0;
  bool inside = false, on = false;
};
thread_local DOp* d_initiating = nullptr;

std::uint64_t gen_offset(Gen& g)
{
  static const std::uint64_t far[] = {1ull << 31, 1ull << 32, 1ull << 33, 1ull << 40, (1ull << 43) - 4096, 1ull << 62, (1ull << 63) - 1, 1ull << 63, ~0ull};
  if (g.flip()) return g.below(3000);
  const std::uint64_t o = far[g.weighted({3, 8, 2, 2, 1, 1, 1, 1, 1})];
  const std::uint64_t d = g.below(40);
  return g.flip() ? o - std::min<std::uint64_t>(o, d) : o + std::min<std::uint64_t>(~0ull - o, d);
}

} // namespace

PBT_PROP(differential, 2)
{
  asio::io_context io;
  auto& svc_pool = asio::use_service<asioext::thread_pool_file_service>(io).get_thread_pool();
  asio::thread_pool pool(1);
  const std::string path[2] = {pbt::scratch_dir() + "/d0", pbt::scratch_dir() + "/d1"};
  const std::string data = g.bytes(g.size(2000));
  const std::size_t mode = g.weighted({8, 1, 1});
  // the second one is the twin
  std::unique_ptr<asioext::file> f[2];
  int raw[2];
  struct Close { int (&r)[2]; ~Close() { for (int x : r) ::close(x); } } closer{raw};
  for (int i : {0, 1}) {
    raw[i] = ::open(path[i].c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    PBT_CHECK("setup", ::pwrite(raw[i], data.data(), data.size(), 0) == (ssize_t)data.size());
    f[i].reset(new asioext::file(io, asioext::file_handle(::open(path[i].c_str(), (mode == 0 ? O_RDWR : mode == 1 ? O_WRONLY : O_RDONLY) | O_CLOEXEC))));
    ::unlink(path[i].c_str());
  }
  const std::size_t nops = g.range(1, 6);
  bool far = false, nested = false, empty = false;
  std::vector<std::pair<std::uint64_t, std::size_t>> touched{{0, 4096}};
  for (std::size_t k = 0; k != nops; ++k) {
    // something synchronous on both first
    switch (g.weighted({6, 3, 2, k + 1 == nops ? 1u : 0u})) {
      case 1: {
        const std::int64_t o = (std::int64_t)std::min<std::uint64_t>(gen_offset(g), (1ull << 62));
        sys::error_code e;
        for (auto& x : f) x->seek(asioext::seek_origin::from_begin, o, e);
        g.note("seek to %lld", (long long)o);
        break;
      }
      case 2: {
        const std::uint64_t n = std::min<std::uint64_t>(gen_offset(g), 1ull << 42);
        sys::error_code e;
        for (auto& x : f) x->truncate(n, e);
        g.note("truncate to %llu", (unsigned long long)n);
        break;
      }
      case 3: {
        sys::error_code e;
        for (auto& x : f) x->close(e);
        g.note("close");
        break;
      }
      default: break;
    }
    const bool read = g.flip(), at = g.flip(), all = g.chance(1, 3);
    const std::uint64_t off = gen_offset(g);
    std::vector<std::size_t> sizes = gen_sizes(g, 300, g.chance(1, 12));
    std::size_t total = 0;
    for (auto x : sizes) total += x;
    // (Asio's composed operations differ for empty buffers: the asynchronous ones perform one step)
    if (all && !total) { sizes.assign(1, 9); total = 9; }
    if (!total) empty = true;
    Bufs bufs[2];
    if (read) { bufs[0] = for_reading(sizes); bufs[1] = for_reading(sizes); }
    else {
      std::string d = g.bytes(total);
      for (auto& b : bufs) { std::size_t p = 0; for (auto s : sizes) { b.add(d.substr(p, s)); p += s; } }
    }
    enum { from_main, from_io, from_service };
    const int where = (int)g.below(3);
    enum { to_default, to_io, to_service, to_system, to_pool };
    const int exec = (int)g.below(5);
    g.note("op %zu: %s%s%s at %llu, %s, from %s, handler on %s", k, read ? "read" : "write", all ? "" : "_some", at ? "_at" : "", (unsigned long long)off,
           show(sizes).c_str(), where == from_main ? "main" : where == from_io ? "a handler" : "the service's thread",
           exec == to_default ? "default" : exec == to_io ? "io" : exec == to_service ? "the service's thread" : exec == to_system ? "system_executor" : "pool");
    if (where == from_service) nested = true;
    std::uint64_t start = off;
    if (!at && f[0]->is_open()) start = (std::uint64_t)::lseek(f[0]->native_handle(), 0, SEEK_CUR);
    if (start > (1ull << 31)) far = true;
    touched.emplace_back(start, total);

    DOp o;
    bool done = false;
    auto work = asio::make_work_guard(io);
    std::function<bool()> on;
    if (exec <= to_io) on = [&] { return io.get_executor().running_in_this_thread(); };
    else if (exec == to_service) on = [&] { return svc_pool.get_executor().running_in_this_thread(); };
    else if (exec == to_pool) on = [&] { return pool.get_executor().running_in_this_thread(); };
    else on = [] { return true; };
    auto initiate = [&] {
      auto h = [&](sys::error_code ec, std::size_t n) {
        o.ec = ec;
        o.n = n;
        ++o.calls;
        o.inside = d_initiating == &o;
        o.on = on();
        asio::post(io, [&] { done = true; });
      };
      auto go = [&](auto token) {
        if (read) {
          auto q = bufs[0].seq<asio::mutable_buffer>();
          if (all && at) asio::async_read_at(*f[0], off, q, token);
          else if (all) asio::async_read(*f[0], q, token);
          else if (at) f[0]->async_read_some_at(off, q, token);
          else f[0]->async_read_some(q, token);
        } else {
          auto q = bufs[0].seq<asio::const_buffer>();
          if (all && at) asio::async_write_at(*f[0], off, q, token);
          else if (all) asio::async_write(*f[0], q, token);
          else if (at) f[0]->async_write_some_at(off, q, token);
          else f[0]->async_write_some(q, token);
        }
      };
      DOp* const previous = d_initiating;
      d_initiating = &o;
      switch (exec) {
        case to_default: go(h); break;
        case to_io: go(asio::bind_executor(io, h)); break;
        case to_service: go(asio::bind_executor(svc_pool.get_executor(), h)); break;
        case to_system: go(asio::bind_executor(asio::system_executor(), h)); break;
        default: go(asio::bind_executor(pool.get_executor(), h)); break;
      }
      d_initiating = previous;
    };
    std::promise<void> initiated;
    if (where == from_main) initiate();
    else if (where == from_io) asio::post(io, initiate);
    else {
      asio::post(svc_pool, [&] { initiate(); initiated.set_value(); });
      initiated.get_future().wait();
    }
    while (!done) io.run_one();
    work.reset();
    io.restart();
    PBT_CHECK("calls", o.calls == 1, "the handler was invoked %d times", o.calls);
    PBT_CHECK("inside-initiation", !o.inside, "the handler was invoked from within the initiating function");
    PBT_CHECK("executor", o.on, "the handler wasn't invoked on its executor");

    sys::error_code ec = stale();
    std::size_t n;
    if (read) {
      auto q = bufs[1].seq<asio::mutable_buffer>();
      n = all && at ? asio::read_at(*f[1], off, q, ec) : all ? asio::read(*f[1], q, ec) : at ? f[1]->read_some_at(off, q, ec) : f[1]->read_some(q, ec);
    } else {
      auto q = bufs[1].seq<asio::const_buffer>();
      n = all && at ? asio::write_at(*f[1], off, q, ec) : all ? asio::write(*f[1], q, ec) : at ? f[1]->write_some_at(off, q, ec) : f[1]->write_some(q, ec);
    }
    PBT_CHECK("error", o.ec == ec, "completed with '%s', the synchronous form with '%s'", o.ec.message().c_str(), ec.message().c_str());
    PBT_CHECK("count", o.n == n, "%zu bytes transferred, the synchronous form transfers %zu", o.n, n);
    PBT_CHECK("data", bufs[0].contents() == bufs[1].contents(), "the data read differ from that of the synchronous form");
    PBT_CHECK("guards", bufs[0].guards_intact(), "bytes outside the buffers were changed");
    if (f[0]->is_open())
      PBT_CHECK("position", ::lseek(f[0]->native_handle(), 0, SEEK_CUR) == ::lseek(f[1]->native_handle(), 0, SEEK_CUR), "the file position differs from that of the synchronous form");
    struct stat st[2];
    for (int i : {0, 1}) ::fstat(raw[i], &st[i]);
    PBT_CHECK("size", st[0].st_size == st[1].st_size, "the file size differs from that of the synchronous form");
    for (auto& t : touched) {
      std::string s[2];
      for (int i : {0, 1}) {
        s[i].assign(t.second, '\0');
        const ssize_t r = t.first > (1ull << 62) ? -1 : ::pread(raw[i], &s[i][0], t.second, (off_t)t.first);
        s[i].resize(r < 0 ? 0 : r);
      }
      PBT_CHECK("file", s[0] == s[1], "the file's contents at %llu differ from those after the synchronous form", (unsigned long long)t.first);
    }
  }
  pool.join();
  for (auto& x : f) x.reset();
  if (far || nested) g.nontrivial();
  if (far) g.label("beyond-2GiB");
  if (nested) g.label("from-service-thread");
  if (empty) g.label("empty-buffers");
}
