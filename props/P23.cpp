// P23: destroying an execution context with file operations under way, at
// generated points: queued, executing, or completed but not delivered.
#include "file_common.hpp"
#include "fault.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include <atomic>
#include <condition_variable>
#include <dirent.h>
#include <thread>
using namespace fx;

void pbt::setup(const std::string&) {}

namespace {

typedef asioext::thread_pool_file_service Service;

// Keeps the service's thread in gates, or in a system call.
struct Ctl
{
  std::mutex m;
  std::condition_variable cv;
  std::uint64_t entered = 0, opened = 0;
  bool arm = false, held = false, all = false;
  std::thread::id thread; // the service's

  void gate()
  {
    std::unique_lock<std::mutex> l(m);
    thread = std::this_thread::get_id();
    const std::uint64_t mine = ++entered;
    cv.notify_all();
    cv.wait(l, [&] { return all || opened >= mine; });
  }
  void before_call()
  {
    std::unique_lock<std::mutex> l(m);
    if (!arm || all) return;
    arm = false;
    held = true;
    cv.notify_all();
    cv.wait(l, [&] { return all || !held; });
    held = false;
  }
  void wait_entered(std::uint64_t n)
  {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return entered >= n; });
  }
  // Lets the thread go on to the next gate or, if asked to, the next call.
  bool go(bool into_call)
  {
    std::unique_lock<std::mutex> l(m);
    arm = into_call;
    const std::uint64_t n = entered;
    if (held) held = false; else ++opened;
    cv.notify_all();
    cv.wait(l, [&] { return entered > n || (!arm && held); });
    arm = false;
    return held;
  }
  void open_all()
  {
    std::lock_guard<std::mutex> l(m);
    all = true;
    cv.notify_all();
  }
};

// Called when the thread destroying the context begins to wait for another one.
std::function<void()> joining;

// Shut down before the file service (it's created after it).
struct Marker : asio::io_context::service
{
  static asio::execution_context::id id;
  std::function<void()> f;
  explicit Marker(asio::io_context& c) : asio::io_context::service(c) {}
  void shutdown() override { if (f) f(); }
};
asio::execution_context::id Marker::id;

struct Rec
{
  int id;
  bool elsewhere = false;
  std::atomic<int> live{0}, invoked{0}, invoked_late{0};
  std::atomic<long> memory{0};
};

template <typename T>
struct Alloc
{
  typedef T value_type;
  std::shared_ptr<Rec> rec;
  explicit Alloc(std::shared_ptr<Rec> r) : rec(std::move(r)) {}
  template <typename U> Alloc(const Alloc<U>& o) : rec(o.rec) {}
  T* allocate(std::size_t n) { ++rec->memory; return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { --rec->memory; ::operator delete(p); }
  template <typename U> bool operator==(const Alloc<U>& o) const { return rec == o.rec; }
  template <typename U> bool operator!=(const Alloc<U>& o) const { return rec != o.rec; }
};

struct World;

// The one handler type: counts its instances, may own files and start more.
struct Handler
{
  std::shared_ptr<Rec> rec;
  World* w;
  std::shared_ptr<asioext::file> owns;
  bool again;
  // what the operation uses; it's gone as soon as the handler is
  std::shared_ptr<std::string> buffer;

  Handler(std::shared_ptr<Rec> r, World* x, std::shared_ptr<asioext::file> o, bool a, std::shared_ptr<std::string> b)
    : rec(std::move(r)), w(x), owns(std::move(o)), again(a), buffer(std::move(b)) { ++rec->live; }
  Handler(Handler&& o) : rec(o.rec), w(o.w), owns(std::move(o.owns)), again(o.again), buffer(std::move(o.buffer)) { ++rec->live; }
  Handler(const Handler&) = delete;
  ~Handler() { --rec->live; }
  void operator()(sys::error_code, std::size_t);
  void operator()() { (*this)(sys::error_code(), 0); }
  void operator()(sys::error_code ec) { (*this)(ec, 0); }

  typedef Alloc<char> allocator_type;
  allocator_type get_allocator() const { return allocator_type(rec); }
};

std::size_t open_fds()
{
  std::size_t n = 0;
  DIR* d = ::opendir("/proc/self/fd");
  while (::readdir(d)) ++n;
  ::closedir(d);
  return n;
}

struct World
{
  Gen& g;
  std::string base = pbt::scratch_dir() + "/p23";
  Ctl ctl;
  std::unique_ptr<asio::io_context> io, other;
  std::vector<std::shared_ptr<asioext::file>> files, foreign; // foreign: on the other context
  std::vector<std::shared_ptr<Rec>> recs;
  bool free_running, in_call = false;
  std::atomic<bool> ending{false};
  std::atomic<int> closes{0}; // during the destruction
  std::thread::id main = std::this_thread::get_id();

  explicit World(Gen& gen) : g(gen) {}

  void post_gate() { asio::post(asio::use_service<Service>(*io).get_thread_pool(), [this] { ctl.gate(); }); }

  std::shared_ptr<Rec> rec(bool elsewhere = false)
  {
    recs.emplace_back(new Rec);
    recs.back()->id = (int)recs.size() - 1;
    recs.back()->elsewhere = elsewhere;
    return recs.back();
  }
  std::shared_ptr<asioext::file> make_file(bool elsewhere = false)
  {
    auto f = std::make_shared<asioext::file>(elsewhere ? *other : *io);
    if (g.chance(7, 8)) f->open((base + std::to_string(g.below(2))).c_str(), asioext::open_args(open_flags::access_read_write | open_flags::open_existing));
    return f;
  }
  void start(asioext::file& f, std::shared_ptr<asioext::file> owns)
  {
    const bool elsewhere = !owns && g.chance(1, 5), at = g.flip();
    // a composed operation needs the file to stay
    const bool composed = owns.get() == &f && g.chance(1, 2);
    const std::size_t kind = g.below(2);
    auto buf = std::make_shared<std::string>(g.range(1, 200), 'x');
    auto r = rec(elsewhere);
    g.note("op %d: %s%s%s%s%s%s", r->id, composed ? "composed " : "", kind ? "write" : "read", at ? "_at" : "", f.is_open() ? "" : " (closed)", owns ? ", its handler owns a file" : "", elsewhere ? ", elsewhere" : "");
    const bool again = owns && g.chance(1, 3);
    auto go = [&](auto&& h) {
      const auto mb = asio::buffer(&(*buf)[0], buf->size());
      const asio::const_buffer cb = mb;
      if (composed) {
        if (at) kind ? asio::async_write_at(f, 3, cb, std::move(h)) : asio::async_read_at(f, 3, mb, std::move(h));
        else kind ? asio::async_write(f, cb, std::move(h)) : asio::async_read(f, mb, std::move(h));
      } else {
        if (at) kind ? f.async_write_some_at(3, cb, std::move(h)) : f.async_read_some_at(3, mb, std::move(h));
        else kind ? f.async_write_some(cb, std::move(h)) : f.async_read_some(mb, std::move(h));
      }
    };
    Handler h(r, this, std::move(owns), again, buf);
    if (elsewhere) go(asio::bind_executor(*other, std::move(h)));
    else go(std::move(h));
  }
};

void Handler::operator()(sys::error_code, std::size_t)
{
  ++rec->invoked;
  if (w->ending && !rec->elsewhere) ++rec->invoked_late;
  if (again && owns && !w->ending) {
    auto f = owns;
    w->start(*f, std::move(owns));
  }
}

void run(Gen& g)
{
  for (int i = 0; i != 2; ++i) {
    const int fd = ::open((pbt::scratch_dir() + "/p23" + std::to_string(i)).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    PBT_CHECK("setup", ::write(fd, std::string(150, 'd').data(), 150) == 150);
    ::close(fd);
  }
  const std::size_t fds = open_fds();
  std::vector<fault::Call> log;
  int gone = 0;
  std::vector<std::shared_ptr<Rec>> recs;
  {
    World w(g);
    w.other.reset(new asio::io_context(1));
    w.io.reset(new asio::io_context(1));
    w.free_running = g.chance(1, 4);
    g.note("%s", w.free_running ? "the service runs freely" : "the service is kept in gates");
    if (w.free_running) asio::add_service(*w.io, new Service(*w.io, (std::size_t)g.range(1, 4)));
    else asio::use_service<Service>(*w.io);
    Marker& marker = asio::use_service<Marker>(*w.io);
    fault::begin({}, {}, w.base);
    fault::state().all_closes = true;
    std::mutex hm;
    std::condition_variable hcv;
    bool destroying = false, first_close = false;
    std::atomic<bool> joined{false};
    std::atomic<int> late{0};
    fault::state().hook = [&](const char* name) {
      if (!strcmp(name, "close")) {
        std::lock_guard<std::mutex> l(hm);
        if (destroying) { first_close = true; hcv.notify_all(); }
      } else if (std::this_thread::get_id() != w.main && (!strcmp(name, "read") || !strcmp(name, "write"))) {
        if (joined && std::this_thread::get_id() == w.ctl.thread) ++late;
        w.ctl.before_call();
      }
    };
    if (!w.free_running) { w.post_gate(); w.ctl.wait_entered(1); }

    std::vector<std::unique_ptr<asio::steady_timer>> timers;
    for (std::size_t n = g.range(2, 24); n; --n) {
      switch (g.weighted({4, 8, 4, 2, 2, 5, 3, 2, 1, 2, 3})) {
        case 0: if (w.files.size() < 5) { w.files.push_back(w.make_file()); g.note("file %zu", w.files.size() - 1); } break;
        case 1: if (!w.files.empty()) w.start(*g.pick(w.files), nullptr); break;
        case 2: { // the handler owns the file it's about, or another one
          auto f = w.make_file();
          auto& on = !w.files.empty() && g.flip() ? *g.pick(w.files) : *f;
          w.start(on, std::move(f));
          break;
        }
        case 3: { // in the event loop
          auto r = w.rec();
          g.note("posted handler %d owning a file", r->id);
          asio::post(*w.io, Handler(r, &w, w.make_file(), g.flip(), nullptr));
          break;
        }
        case 4: {
          auto r = w.rec();
          g.note("timer %d owning a file", r->id);
          auto t = std::make_unique<asio::steady_timer>(*w.io, std::chrono::hours(1));
          t->async_wait(Handler(r, &w, w.make_file(), g.flip(), nullptr));
          timers.push_back(std::move(t));
          break;
        }
        case 5:
          if (w.free_running) break;
          {
            const bool into = g.chance(1, 3);
            g.note("the service goes on%s", into ? " (into a call)" : "");
            w.post_gate();
            w.in_call = w.ctl.go(into);
          }
          break;
        case 6: g.note("poll"); w.io->restart(); w.io->poll(); break;
        case 7:
          if (w.files.empty() || w.in_call || w.free_running) break; // (see P17 about files in use)
          {
            const std::size_t i = (std::size_t)g.below(w.files.size());
            g.note("destroy file %zu", i);
            w.files.erase(w.files.begin() + (long)i);
          }
          break;
        case 9:
          if (w.foreign.size() < 3) { w.foreign.push_back(w.make_file(true)); g.note("file of the other context"); }
          break;
        case 10: { // between the contexts, or within one
          if (w.in_call || w.free_running || w.files.empty() || w.foreign.empty()) break;
          const bool from = g.flip(), to = g.flip();
          auto& as = from ? w.foreign : w.files;
          auto& bs = to ? w.foreign : w.files;
          const std::size_t ai = (std::size_t)g.below(as.size()), bi = (std::size_t)g.below(bs.size());
          auto a = as[ai], b = bs[bi];
          if (a == b) break;
          const bool swap = g.chance(1, 4);
          g.note("%s a file of %s context and one of %s", swap ? "swap" : "move between", from ? "the other" : "this", to ? "the other" : "this");
          // (the objects take over the context of what they're assigned)
          if (swap) {
            using std::swap;
            swap(*a, *b);
            std::swap(as[ai], bs[bi]);
          } else {
            *b = std::move(*a);
            if (from != to) {
              bs.erase(bs.begin() + (long)bi);
              as.push_back(b);
            }
          }
          break;
        }
        default: {
          if (w.files.empty()) break;
          g.note("cancel");
          sys::error_code ec;
          g.pick(w.files)->cancel(ec);
          break;
        }
      }
      g.raise_later();
    }
    if (!timers.empty() && g.flip()) timers.clear();

    // The end: when the service's thread gets to go on is generated.
    const std::size_t when = g.below(5);
    static const int delays[] = {0, 100, 1000};
    const int delay = delays[g.below(3)];
    g.note("destroy the context; the service goes on %s", when == 0 ? "before that" : when == 1 ? "when that begins" : when == 2 ? "when a file is closed" : when == 4 ? "when it's waited for" : pbt::strf("%d us later", delay).c_str());
    timers.clear(); // (they're used by pending operations until here)
    // Files either end before that or within it.
    if (w.in_call || w.free_running || g.flip()) {
      for (auto& f : w.files) asio::post(*w.io, Handler(w.rec(), &w, std::move(f), false, nullptr));
    }
    w.files.clear();
    w.ending = true;
    { std::lock_guard<std::mutex> l(hm); destroying = true; }
    bool begun = false;
    marker.f = [&] {
      std::lock_guard<std::mutex> l(hm);
      begun = true;
      hcv.notify_all();
    };
    // Anything still queued when the service waits for its thread, which is in
    // a gate or in a call, doesn't get executed anymore.
    if (when == 4 && !w.free_running)
      joining = [&] {
        std::lock_guard<std::mutex> l(hm);
        if (!begun) return;
        joined = true;
        hcv.notify_all();
      };
    std::thread helper([&] {
      {
        std::unique_lock<std::mutex> l(hm);
        if (when == 1) hcv.wait(l, [&] { return begun; });
        // (there may be no file to be closed)
        else if (when == 2) hcv.wait_for(l, std::chrono::milliseconds(3), [&] { return first_close; });
        else if (when == 3) { hcv.wait(l, [&] { return begun; }); hcv.wait_for(l, std::chrono::microseconds(delay), [] { return false; }); }
        // (it may wait in another way)
        else if (when == 4) hcv.wait_for(l, std::chrono::milliseconds(100), [&] { return bool(joined); });
      }
      w.ctl.open_all();
    });
    if (when == 0) helper.join();
    for (auto& r : w.recs) if (r->live && !r->elsewhere) { ++gone; }
    std::vector<bool> open;
    for (auto& f : w.foreign) open.push_back(f->is_open());
    w.io.reset();
    if (helper.joinable()) helper.join();
    joining = nullptr;
    PBT_CHECK("queued", late == 0, "%d queued operations were executed when the context was destroyed", (int)late);
    if (joined) g.label("held-until-joined");
    for (std::size_t i = 0; i != w.foreign.size(); ++i) {
      PBT_CHECK("other-context", w.foreign[i]->is_open() == open[i], "a file of another context was closed");
      char c[4];
      sys::error_code ec;
      const std::size_t n = w.foreign[i]->read_some_at(20, asio::buffer(c), ec);
      PBT_CHECK("other-context", open[i] ? !ec && n == 4 : ec == asio::error::bad_descriptor && n == 0, "a file of another context can't be used: %s", ec.message().c_str());
    }
    for (auto& r : w.recs)
      if (!r->elsewhere) PBT_CHECK("destroyed", r->live == 0, "the handler of operation %d wasn't destroyed with the context", r->id);
    // Those elsewhere may have been completed meanwhile.
    w.other->poll();
    while (!w.foreign.empty()) w.foreign.erase(w.foreign.begin() + (long)g.below(w.foreign.size()));
    w.other.reset();
    log = fault::end();
    fault::state().all_closes = false;
    recs = w.recs;
  }
  g.raise_later();
  int opens = 0, closes = 0;
  for (auto& c : log) {
    if (c.name == "open" && c.result >= 0) ++opens;
    if (c.name == "close") ++closes;
    if (c.name == "close" || c.name == "stray close") PBT_CHECK("closed-twice", c.result == 0, "close(%d) failed with error %d", c.fd, c.err);
  }
  PBT_CHECK("closed", opens == closes, "%d files were opened, but %d descriptors were closed", opens, closes);
  PBT_CHECK("descriptors", open_fds() == fds, "%zu descriptors instead of %zu afterwards", open_fds(), fds);
  for (auto& r : recs) {
    PBT_CHECK("invoked", r->invoked_late == 0, "the handler of operation %d was invoked when the context was destroyed", r->id);
    PBT_CHECK("once", r->invoked <= 1, "the handler of operation %d was invoked %d times", r->id, (int)r->invoked);
    PBT_CHECK("destroyed-once", r->live == 0, "%d instances of the handler of operation %d are left", (int)r->live, r->id);
    PBT_CHECK("memory", r->memory == 0, "%ld blocks allocated for operation %d weren't returned", (long)r->memory, r->id);
  }
  if (gone >= 2) g.nontrivial();
}

} // namespace

extern "C" int __real_pthread_join(pthread_t, void**);
extern "C" int __wrap_pthread_join(pthread_t t, void** r)
{
  if (joining) joining();
  return __real_pthread_join(t, r);
}

PBT_PROP(destruction, 1) { run(g); }
