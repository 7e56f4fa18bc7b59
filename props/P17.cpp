// P17: cancelling, closing, moving and destroying files with operations under
// way. The service's only thread is kept in gates between which it executes
// queued operations, so that it's known which ones had begun executing; it can
// also be held within the system call of one of them. Everything else happens
// in the main thread.
#include "file_common.hpp"
#include "fault.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include <condition_variable>
#include <deque>
#include <thread>
using namespace fx;

void pbt::setup(const std::string&) {}

namespace {

thread_local int pool_of = -1;

struct Ctl // one service's thread
{
  std::mutex m;
  std::condition_variable cv;
  std::uint64_t entered = 0, opened = 0; // gates
  bool arm = false, held = false, all = false;

  void gate(int ctx)
  {
    pool_of = ctx;
    std::unique_lock<std::mutex> l(m);
    const std::uint64_t mine = ++entered;
    cv.notify_all();
    cv.wait(l, [&] { return all || opened >= mine; });
  }
  void before_call()
  {
    std::unique_lock<std::mutex> l(m);
    if (!arm) return;
    arm = false;
    held = true;
    cv.notify_all();
    cv.wait(l, [&] { return all || !held; });
    held = false;
  }
  // Lets the thread go on to the next gate, or (if asked) to the next call.
  // Returns whether it's held in a call.
  bool go(bool into_call)
  {
    std::unique_lock<std::mutex> l(m);
    arm = into_call;
    const std::uint64_t n = entered;
    if (held) { held = false; }
    else ++opened;
    cv.notify_all();
    cv.wait(l, [&] { return entered > n || (arm == false && held); });
    arm = false;
    return held;
  }
  void open_all()
  {
    std::lock_guard<std::mutex> l(m);
    all = true;
    arm = false;
    cv.notify_all();
  }
};

struct Disk { std::string path, data; int raw = -1; ino_t ino = 0; };
struct OpenFile { int disk; std::uint64_t pos = 0; bool r, w; };

enum Then { nothing, again, cancel_it, close_it, destroy_it };

struct Op
{
  int id, ctx;
  bool read, at, composed;
  std::uint64_t off;
  Bufs bufs;
  int owner;                      // slot whose cancellation affects it, -1: none any more
  std::shared_ptr<OpenFile> file; // null: the file wasn't open
  bool aborted = false, executed = false, known = false;
  int err = 0;
  bool eof = false;
  std::uint64_t n = 0;
  std::string data;
  int calls = 0;
  std::shared_ptr<int> token;     // alive while the handler is
  Then then = nothing;
};

struct Slot
{
  int ctx;
  std::unique_ptr<asioext::file> f;
  std::shared_ptr<OpenFile> open;
};

struct World
{
  Gen& g;
  std::string base;
  std::unique_ptr<asio::io_context> io[2];
  Ctl ctl[2];
  std::deque<Op*> queue[2];       // null: a gate
  Op* running[2] = {nullptr, nullptr};
  std::vector<std::unique_ptr<Op>> ops;
  std::vector<std::unique_ptr<Slot>> slots;
  std::vector<Disk> disks;
  int aborted = 0, completed = 0, moves = 0, within_close = 0;
  int closing = -1; // the slot during whose close the services go on

  explicit World(Gen& gen) : g(gen), base(pbt::scratch_dir() + "/p17")
  {
    for (int i = 0; i != 2; ++i) {
      io[i].reset(new asio::io_context(1));
      disks.emplace_back();
      Disk& d = disks.back();
      d.path = base + std::to_string(i);
      d.data = g.bytes(g.range(20, 400));
      d.raw = ::open(d.path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
      PBT_CHECK("setup", ::pwrite(d.raw, d.data.data(), d.data.size(), 0) == (ssize_t)d.data.size());
      struct stat st;
      ::fstat(d.raw, &st);
      d.ino = st.st_ino;
    }
    fault::begin({}, {}, base);
    fault::state().hook = [this](const char* name) {
      if (pool_of >= 0 && (!strcmp(name, "read") || !strcmp(name, "write"))) ctl[pool_of].before_call();
    };
    fault::state().closed = [this] {
      if (pool_of >= 0 || closing < 0) return;
      const int slot = closing;
      closing = -1;
      try {
        settle(slot);
        bool pending = false;
        for (auto& o : ops) pending |= o->aborted && !o->executed;
        within_close += pending;
        for (int c : {0, 1}) if (!running[c]) release(c, false);
      } catch (const pbt::Failure& x) {
        g.fail_later(x.tag, x.msg);
      }
    };
    for (int i = 0; i != 2; ++i) {
      post_gate(i);
      queue[i].pop_back(); // it's entered first
      std::unique_lock<std::mutex> l(ctl[i].m);
      ctl[i].cv.wait(l, [&] { return ctl[i].entered == 1; });
    }
  }
  ~World()
  {
    for (auto& c : ctl) c.open_all();
    // (the pool threads use the gates)
    for (auto& i : io) asio::use_service<asioext::thread_pool_file_service>(*i).get_thread_pool().join();
    fault::end();
    slots.clear();
    for (auto& i : io) i.reset();
    for (auto& d : disks) ::close(d.raw);
  }

  void post_gate(int ctx)
  {
    asio::post(asio::use_service<asioext::thread_pool_file_service>(*io[ctx]).get_thread_pool(), [this, ctx] { ctl[ctx].gate(ctx); });
    queue[ctx].push_back(nullptr);
  }

  int id(const Slot* s) { for (std::size_t i = 0; i != slots.size(); ++i) if (slots[i].get() == s) return (int)i; return -1; }
  Slot* pick(bool open)
  {
    std::vector<Slot*> c;
    for (auto& s : slots) if (s && (!open || s->open)) c.push_back(s.get());
    return c.empty() ? nullptr : g.pick(c);
  }
  // Lets the services go on as soon as a close of this slot's file has released
  // the descriptor: nothing that begins then may still use it.
  void go_on_within_close(const Slot& s)
  {
    closing = s.open && g.chance(1, 2) ? id(&s) : -1;
    if (closing >= 0) g.note("(the services go on within the close)");
  }
  // Closing a file whose descriptor is being used by a running operation is a matter of its own (see below).
  bool in_use(const Slot& s) { for (Op* o : running) if (o && s.open && o->file == s.open) return true; return false; }

  void settle(int slot) // what hasn't begun executing is aborted
  {
    for (auto& o : ops)
      if (o->owner == slot && !o->executed && running[o->ctx] != o.get()) { o->aborted = true; o->owner = -1; }
  }
  void relabel(int from, int to) { for (auto& o : ops) if (o->owner == from) o->owner = to; }

  void execute(Op& o)
  {
    o.executed = true;
    const std::size_t total = o.bufs.total();
    if (o.read) o.data = std::string(total, '\xa5');
    if (o.aborted) { o.err = -1; return; }
    if (!o.file) { o.err = EBADF; return; }
    if (o.read ? !o.file->r : !o.file->w) { o.err = EBADF; return; }
    std::string& d = disks[o.file->disk].data;
    const std::uint64_t off = o.at ? o.off : o.file->pos;
    if (o.read) {
      o.n = off < d.size() ? std::min<std::uint64_t>(total, d.size() - off) : 0;
      if (o.n) o.data.replace(0, o.n, d.substr(off, o.n));
      o.eof = o.n == 0;
    } else {
      o.n = total;
      if (d.size() < off + total) d.resize(off + total, '\0');
      d.replace(off, total, o.bufs.contents());
    }
    if (!o.at) o.file->pos += o.n;
  }

  // Lets the service go on.
  void release(int ctx, bool into_call)
  {
    if (!running[ctx]) {
      bool more = false;
      for (Op* o : queue[ctx]) more |= !o;
      if (!more) post_gate(ctx);
    } else {
      into_call = into_call && g.flip();
      bool more = false;
      for (Op* o : queue[ctx]) more |= !o;
      if (!more) post_gate(ctx);
      execute(*running[ctx]);
      running[ctx] = nullptr;
    }
    // The first operation that makes a system call is where it'll be held.
    while (queue[ctx].front()) {
      Op* o = queue[ctx].front();
      queue[ctx].pop_front();
      if (into_call && o->file && !o->aborted) { running[ctx] = o; break; }
      execute(*o);
    }
    if (!running[ctx]) queue[ctx].pop_front();
    const bool held = ctl[ctx].go(into_call);
    PBT_CHECK("executing", held == (running[ctx] != nullptr), "an operation was%s expected to be executing", running[ctx] ? "" : "n't");
  }

  void start(Slot& s)
  {
    ops.emplace_back(new Op);
    Op& o = *ops.back();
    o.id = (int)ops.size() - 1;
    o.ctx = s.ctx;
    o.read = g.flip();
    o.at = g.flip();
    o.off = g.num(450);
    std::vector<std::size_t> sizes;
    for (std::size_t i = g.range(1, 3); i != 0; --i) sizes.push_back(g.range(1, 60));
    if (o.read) for (auto n : sizes) o.bufs.add(n);
    else for (auto n : sizes) o.bufs.add(g.bytes(n));
    o.owner = id(&s);
    o.file = s.open;
    o.token = std::make_shared<int>(0);
    o.then = static_cast<Then>(g.weighted({12, 2, 1, 1, 1}));
    g.note("op %d: %s%s at %llu, %zu bytes, file #%d%s%s", o.id, o.read ? "read" : "write", o.at ? "_at" : "", (unsigned long long)o.off, o.bufs.total(),
           o.owner, s.open ? "" : " (closed)", o.then ? pbt::strf(", then %d", (int)o.then).c_str() : "");
    auto h = [this, p = &o, t = o.token](sys::error_code ec, std::size_t n) { delivered(*p, ec, n); };
    queue[s.ctx].push_back(&o);
    if (o.read) {
      auto b = o.bufs.seq<asio::mutable_buffer>();
      if (o.at) s.f->async_read_some_at(o.off, b, std::move(h)); else s.f->async_read_some(b, std::move(h));
    } else {
      auto b = o.bufs.seq<asio::const_buffer>();
      if (o.at) s.f->async_write_some_at(o.off, b, std::move(h)); else s.f->async_write_some(b, std::move(h));
    }
  }

  void delivered(Op& o, sys::error_code ec, std::size_t n)
  {
    if (++o.calls != 1) return g.fail_later("twice", "a handler was invoked more than once");
    if (!o.executed) return g.fail_later("early", pbt::strf("the handler of operation %d was invoked although the service hadn't executed it", o.id));
    const std::string what = pbt::strf("operation %d completed with '%s', %zu", o.id, ec.message().c_str(), n);
    if (o.aborted) {
      // (one that couldn't have succeeded anyway may say so)
      const bool fine = ec == asio::error::operation_aborted || (!o.file && ec == os_error(EBADF));
      if (!fine || n != 0) g.fail_later("not-aborted", what + ", it should have been aborted");
      ++aborted;
    } else if (o.err) {
      if (ec != os_error(o.err) || n != 0) g.fail_later("error", what + ", expected '" + os_error(o.err).message() + "'");
    } else {
      const sys::error_code want = o.eof ? sys::error_code(asio::error::eof) : sys::error_code();
      if (ec != want || n != o.n) g.fail_later("result", what + pbt::strf(", expected '%s', %zu", want.message().c_str(), (std::size_t)o.n));
      ++completed;
    }
    if (o.read && o.bufs.contents() != o.data) g.fail_later("data", pbt::strf("operation %d put wrong data into its buffers", o.id));
    if (!o.bufs.guards_intact()) g.fail_later("guards", "bytes outside the buffers were changed");
    if (o.then == nothing) return;
    // the handler acts on some file
    Slot* s = pick(false);
    if (!s) return;
    try {
      switch (o.then) {
        case again: if (ops.size() < 40) start(*s); break;
        case cancel_it: cancel(*s); break;
        case close_it: if (!in_use(*s)) close(*s); break;
        default: if (!in_use(*s)) destroy(*s); break;
      }
    } catch (const pbt::Failure& x) {
      g.fail_later(x.tag, x.msg);
    }
  }

  void poll(int ctx)
  {
    std::size_t want = 0;
    io[ctx]->restart();
    io[ctx]->poll();
    g.raise_later();
    for (auto& o : ops)
      if (o->ctx == ctx && o->executed) {
        PBT_CHECK("not-delivered", o->calls == 1, "operation %d was executed, but its handler wasn't invoked", o->id);
        PBT_CHECK("handler-alive", o->token.use_count() <= 1, "the handler of operation %d still exists after its invocation", o->id);
      }
    (void)want;
  }

  void cancel(Slot& s)
  {
    const bool thr = g.flip();
    g.note("cancel #%d", id(&s));
    Result r = call(thr, [&] { s.f->cancel(); }, [&](sys::error_code& ec) { s.f->cancel(ec); });
    PBT_CHECK("cancel-result", r.ok == bool(s.open), "%s", show(r).c_str());
    if (s.open) settle(id(&s));
  }
  void close(Slot& s)
  {
    const bool thr = g.flip();
    g.note("close #%d", id(&s));
    go_on_within_close(s);
    Result r = call(thr, [&] { s.f->close(); }, [&](sys::error_code& ec) { s.f->close(ec); });
    if (s.open) PBT_CHECK("close-result", r.ok, "%s", show(r).c_str());
    // (nothing is said about operations started while it wasn't open)
    if (s.open) settle(id(&s));
    s.open.reset();
  }
  void destroy(Slot& s)
  {
    g.note("destroy #%d", id(&s));
    go_on_within_close(s);
    const int i = id(&s);
    s.f.reset();
    settle(i);
    slots[i].reset();
  }

  void open(Slot& s)
  {
    const int d = (int)g.below(2);
    const std::size_t mode = g.weighted({6, 1, 1});
    const open_flags fl = mode == 0 ? open_flags::access_read_write : mode == 1 ? open_flags::access_read : open_flags::access_write;
    const bool thr = g.flip();
    const asioext::open_args args(fl | open_flags::open_existing);
    g.note("open #%d, file %d, mode %zu", id(&s), d, mode);
    Result r;
    const std::string& path = disks[d].path;
    if (g.flip()) r = call(thr, [&] { s.f->open(path.c_str(), args); }, [&](sys::error_code& ec) { s.f->open(path.c_str(), args, ec); });
    else {
      // a file object can take over a descriptor only when it's created
      asioext::file n(*io[s.ctx], asioext::open(path.c_str(), args).release());
      *s.f = std::move(n);
      settle(id(&s));
      r.ok = true;
    }
    PBT_CHECK("open", r.ok, "%s", show(r).c_str());
    s.open.reset(new OpenFile{d, 0, mode != 2, mode != 1});
  }

  Slot& add(int ctx, int at = -1)
  {
    std::unique_ptr<Slot> n(new Slot);
    n->ctx = ctx;
    Slot* p = n.get();
    for (auto& s : slots) if (!s) { s = std::move(n); return *p; }
    slots.push_back(std::move(n));
    return *p;
  }

  void check(const char* after)
  {
    g.raise_later();
    for (auto& d : disks) PBT_CHECK("contents", slurp_fd(d.raw) == d.data, "file %d has wrong contents after %s", (int)(&d - disks.data()), after);
    for (auto& s : slots) {
      if (!s) continue;
      PBT_CHECK("is-open", s->f->is_open() == bool(s->open), "#%d after %s", id(s.get()), after);
      PBT_CHECK("executor", s->f->get_executor() == asioext::file::executor_type(io[s->ctx]->get_executor()), "#%d has another context's executor after %s", id(s.get()), after);
      PBT_CHECK("lowest-layer", &s->f->lowest_layer() == s->f.get());
      if (!s->open) continue;
      struct stat st;
      PBT_CHECK("descriptor", ::fstat(s->f->native_handle(), &st) == 0 && st.st_ino == disks[s->open->disk].ino, "#%d refers to another file after %s", id(s.get()), after);
      PBT_CHECK("position", ::lseek(s->f->native_handle(), 0, SEEK_CUR) == (off_t)s->open->pos, "#%d after %s", id(s.get()), after);
    }
    for (auto& o : ops)
      if (!o->executed) {
        PBT_CHECK("early", o->calls == 0);
        PBT_CHECK("handler-destroyed", o->token.use_count() > 1, "the handler of operation %d is gone although it's pending", o->id);
      }
  }
};

void step(World& w)
{
  Gen& g = w.g;
  const char* what = "";
  std::size_t live = 0;
  for (auto& s : w.slots) live += bool(s);
  switch (live == 0 ? 0 : g.weighted({3, 14, 3, 3, 2, 6, 2, 4, 3, 2, 2, 1})) {
    case 0: { // create
      if (live > 4) return;
      Slot& s = w.add((int)g.below(2));
      s.f.reset(new asioext::file(*w.io[s.ctx]));
      g.note("#%d = file on context %d", w.id(&s), s.ctx);
      if (g.chance(5, 6)) w.open(s);
      what = "creating a file";
      break;
    }
    case 1: {
      Slot* s = w.pick(g.chance(9, 10));
      if (!s || w.ops.size() >= 40) return;
      w.start(*s);
      if (g.chance(1, 3)) w.post_gate(s->ctx);
      what = "starting an operation";
      break;
    }
    case 2: w.cancel(*w.pick(false)); what = "cancel"; break;
    case 3: { // close, often reusing the descriptor
      Slot* s = w.pick(g.chance(9, 10));
      if (!s || w.in_use(*s)) return;
      w.close(*s);
      if (g.flip()) w.open(*s);
      what = "close";
      break;
    }
    case 4: {
      Slot* s = w.pick(false);
      if (w.in_use(*s)) return;
      w.destroy(*s);
      what = "destroying a file";
      break;
    }
    case 5: { // let the service work
      const int ctx = (int)g.below(2);
      const bool into = g.chance(1, 3);
      g.note("service %d goes on%s", ctx, into ? " (into a call)" : "");
      w.release(ctx, into);
      what = "letting the service work";
      break;
    }
    case 6: { const int ctx = (int)g.below(2); w.post_gate(ctx); return; }
    case 7: {
      const int ctx = (int)g.below(2);
      g.note("poll %d", ctx);
      w.poll(ctx);
      what = "delivering handlers";
      break;
    }
    case 8: { // move construction
      if (live > 4) return;
      Slot* s = w.pick(g.chance(5, 6));
      if (!s) return;
      Slot& n = w.add(s->ctx);
      n.f.reset(new asioext::file(std::move(*s->f)));
      n.open = std::move(s->open);
      g.note("#%d = move(#%d)", w.id(&n), w.id(s));
      w.relabel(w.id(s), w.id(&n));
      ++w.moves;
      what = "move construction";
      break;
    }
    case 9: { // move assignment
      Slot* s = w.pick(g.chance(5, 6));
      Slot* t = w.pick(false);
      if (!s || !t || (s != t && w.in_use(*t))) return;
      g.note("#%d = move(#%d), contexts %d, %d", w.id(t), w.id(s), t->ctx, s->ctx);
      if (s != t) w.go_on_within_close(*t);
      *t->f = std::move(*s->f);
      if (s != t) {
        w.settle(w.id(t));
        t->open = std::move(s->open);
        t->ctx = s->ctx;
        w.relabel(w.id(s), w.id(t));
        ++w.moves;
      }
      what = "move assignment";
      break;
    }
    case 10: { // swap
      Slot* s = w.pick(false);
      Slot* t = w.pick(false);
      if (s == t) return;
      g.note("swap #%d, #%d", w.id(t), w.id(s));
      std::swap(*s->f, *t->f);
      std::swap(s->open, t->open);
      std::swap(s->ctx, t->ctx);
      w.relabel(w.id(s), 1000);
      w.relabel(w.id(t), w.id(s));
      w.relabel(1000, w.id(t));
      ++w.moves;
      what = "swap";
      break;
    }
    default: { // reopen an open one: fails, and nothing happens
      Slot* s = w.pick(true);
      if (!s) return;
      sys::error_code ec;
      s->f->open(w.disks[0].path.c_str(), asioext::open_args(open_flags::access_read_write | open_flags::open_existing), ec);
      PBT_CHECK("reopen", bool(ec));
      g.note("open #%d again", w.id(s));
      what = "opening an open file";
      break;
    }
  }
  w.check(what);
}

} // namespace

PBT_PROP(histories, 8)
{
  DescriptorZero zero;
  World w(g);
  zero.free(g);
  const std::size_t n = g.range(4, 40);
  for (std::size_t i = 0; i != n; ++i) step(w);
  // Settle everything.
  g.note("finish");
  for (int round = 0; round != 60; ++round) {
    bool all = true;
    for (int c : {0, 1}) {
      while (w.running[c] || !w.queue[c].empty()) { w.release(c, false); all = false; }
      w.check("finishing");
      w.poll(c);
      w.check("finishing");
    }
    for (int c : {0, 1}) all = all && w.queue[c].empty();
    for (auto& o : w.ops) all = all && o->calls;
    if (all) break;
  }
  for (auto& o : w.ops) PBT_CHECK("calls", o->calls == 1, "the handler of operation %d was invoked %d times", o->id, o->calls);
  for (int c : {0, 1}) PBT_CHECK("stopped", w.io[c]->stopped(), "the event loop still has work although everything was completed");
  if (w.aborted && w.completed) g.nontrivial();
  if (w.aborted) g.label("aborted");
  if (w.moves) g.label("moved");
  if (w.within_close) g.label("went-on-within-a-close");
}

// Operations that are executing when the file's descriptor is closed and used
// for another file: they must not have to do with the other file.
PBT_ENUM(executing, 1, 8)
{
  const std::size_t c = g.below(8);
  World w(g);
  Slot& s = w.add(0);
  s.f.reset(new asioext::file(*w.io[0], w.disks[0].path.c_str(), asioext::open_args(open_flags::access_read_write | open_flags::open_existing)));
  s.open.reset(new OpenFile{0, 0, true, true});
  const int fd = s.f->native_handle();
  std::string out(10, 'X'), in(10, '\xa5');
  int calls = 0;
  auto h = [&](sys::error_code, std::size_t) { ++calls; };
  switch (c & 3) {
    case 0: s.f->async_read_some(asio::buffer(in), h); break;
    case 1: s.f->async_read_some_at(0, asio::buffer(in), h); break;
    case 2: s.f->async_write_some(asio::buffer(out), h); break;
    default: s.f->async_write_some_at(0, asio::buffer(out), h); break;
  }
  w.post_gate(0);
  PBT_CHECK("held", w.ctl[0].go(true), "the operation doesn't make a system call");
  if (c & 4) s.f.reset(new asioext::file(*w.io[0]));
  else s.f->close();
  g.note("operation %zu executing, %s", c & 3, c & 4 ? "destroyed" : "closed");
  asioext::file other(*w.io[0], w.disks[1].path.c_str(), asioext::open_args(open_flags::access_read_write | open_flags::open_existing));
  if (other.native_handle() != fd) throw pbt::Discard{};
  w.ctl[0].go(false);
  w.io[0]->restart();
  w.io[0]->poll();
  PBT_CHECK("calls", calls == 1, "the handler was invoked %d times", calls);
  const bool touched = slurp_fd(w.disks[1].raw) != w.disks[1].data || ::lseek(fd, 0, SEEK_CUR) != 0 ||
    (in != std::string(10, '\xa5') && in != w.disks[0].data.substr(0, 10));
  if (touched) g.known("executing-descriptor-reuse", "an executing operation used the descriptor after it had been closed and reused for another file");
  g.nontrivial();
}
