// P24: several threads, each with files, handles, tokens and more of its own,
// sharing one or two execution contexts and their file services.
#include "file_common.hpp"
#include "asioext/cancellation_token.hpp"
#include "asioext/chrono.hpp"
#include "asioext/duplicate.hpp"
#include "asioext/read_file.hpp"
#include "asioext/socks/error.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include "asioext/url_view.hpp"
#include "asioext/write_file.hpp"
#include <array>
#include <atomic>
#include <future>
#include <thread>
#include <sched.h>
using namespace fx;

// The sanitizer doesn't know what these system calls access. Yielding gives
// others the chance to get in between the call and the use of its result.
#if defined(__SANITIZE_THREAD__)
# define VF_TSAN 1
#elif defined(__has_feature)
# if __has_feature(thread_sanitizer)
#  define VF_TSAN 1
# endif
#endif
extern "C" {
#if defined(VF_TSAN)
void __tsan_read_range(void*, unsigned long);
void __tsan_write_range(void*, unsigned long);
#else
inline void __tsan_read_range(void*, unsigned long) {}
inline void __tsan_write_range(void*, unsigned long) {}
#endif
#define VF_STAT(name, type) int __real_##name(int fd, type* s); int __wrap_##name(int fd, type* s) \
{ \
  const int r = __real_##name(fd, s), e = errno; \
  if (r == 0) __tsan_write_range(s, sizeof(*s)); \
  sched_yield(); \
  errno = e; \
  return r; \
}
VF_STAT(fstat, struct stat) VF_STAT(fstat64, struct stat64)
int __real_futimens(int fd, const struct timespec* t); int __wrap_futimens(int fd, const struct timespec* t)
{
  sched_yield();
  if (t) __tsan_read_range(const_cast<struct timespec*>(t), 2 * sizeof(*t));
  return __real_futimens(fd, t);
}
int __real_fchmod(int fd, mode_t m); int __wrap_fchmod(int fd, mode_t m)
{
  sched_yield();
  return __real_fchmod(fd, m);
}
}

void pbt::setup(const std::string&) {}

namespace {

enum StepKind { create, write_at, read_at, async_write_at, async_read_at, burst, move_construct, move_assign, swap_files, close_it, destroy_it,
            resize, meta, handles, tokens, async_sequential, whole_file, sequential, misc, kinds };
struct Step
{
  StepKind kind;
  unsigned x, y, disk, ctx, how, count;
  std::uint64_t off;
  std::string data;
};

struct Worker
{
  int id;
  asio::io_context* ctx[2];
  std::vector<Step> script;
  std::string path[2], disk[2];
  unsigned mode[2] = {0600, 0600};
  struct Slot { std::unique_ptr<asioext::file> f; int disk = -1; int ctx = 0; std::uint64_t pos = 0; };
  Slot slots[3];
  std::string failure;
  int done = 0, asynchronous = 0;

  struct Fail { std::string what; };
  void need(bool ok, const char* what, const sys::error_code& ec = {}) { if (!ok) throw Fail{pbt::strf("%s (%s)", what, ec.message().c_str())}; }

  typedef std::pair<sys::error_code, std::size_t> Outcome;
  template <typename F>
  std::future<Outcome> go(const Step& s, F start)
  {
    auto p = std::make_shared<std::promise<Outcome>>();
    auto r = p->get_future();
    auto h = [p](sys::error_code ec, std::size_t n) { p->set_value({ec, n}); };
    switch (s.how & 3) {
      case 0: start(asio::bind_executor(asio::make_strand(*ctx[1]), std::move(h))); break;
      case 1: start(asio::bind_executor(ctx[1]->get_executor(), std::move(h))); break;
      default: start(std::move(h)); break;
    }
    return r;
  }
  Outcome wait(std::future<Outcome>& f)
  {
    // (much longer than it ever takes)
    if (f.wait_for(std::chrono::seconds(40)) != std::future_status::ready) throw Fail{"an operation didn't complete"};
    return f.get();
  }
  void put(int d, std::uint64_t off, const std::string& s)
  {
    if (s.empty()) return;
    if (disk[d].size() < off + s.size()) disk[d].resize(off + s.size(), '\0');
    disk[d].replace(off, s.size(), s);
  }
  void verify_read(int d, std::uint64_t off, std::size_t asked, const sys::error_code& ec, std::size_t n, const std::string& got)
  {
    const std::size_t want = off < disk[d].size() ? std::min<std::size_t>(asked, disk[d].size() - off) : 0;
    need(want ? !ec && n == want : asked == 0 || (ec == asio::error::eof && n == 0), "reading had a wrong result", ec);
    need(got.compare(0, want, disk[d], want ? off : 0, want) == 0, "wrong data was read");
  }

  void step(const Step& s)
  {
    Slot& a = slots[s.x];
    Slot& b = slots[s.y];
    sys::error_code ec;
    const bool open = a.f && a.disk >= 0;
    switch (s.kind) {
      case create:
        if (a.f) break;
        a.ctx = (int)s.ctx;
        a.f.reset(new asioext::file(*ctx[s.ctx]));
        a.disk = -1;
        if (s.how & 3) {
          a.f->open(path[s.disk].c_str(), asioext::open_args(open_flags::access_read_write | open_flags::open_existing), ec);
          need(!ec, "open", ec);
          a.disk = (int)s.disk;
          a.pos = 0;
        }
        ++done;
        break;
      case write_at:
        if (!open) break;
        need(a.f->write_some_at(s.off, asio::buffer(s.data), ec) == s.data.size() && !ec, "write_some_at", ec);
        put(a.disk, s.off, s.data);
        ++done;
        break;
      case read_at: {
        if (!open) break;
        std::string got(s.data.size(), '?');
        const std::size_t n = a.f->read_some_at(s.off, asio::buffer(&got[0], got.size()), ec);
        verify_read(a.disk, s.off, got.size(), ec, n, got);
        ++done;
        break;
      }
      case async_write_at: {
        if (!a.f) break;
        auto f = go(s, [&](auto h) { a.f->async_write_some_at(s.off, asio::buffer(s.data), std::move(h)); });
        const Outcome o = wait(f);
        ++asynchronous;
        if (!open) { need(!!o.first, "writing to a closed file succeeded"); break; }
        need(!o.first && o.second == s.data.size(), "async_write_some_at", o.first);
        put(a.disk, s.off, s.data);
        break;
      }
      case async_read_at: {
        if (!open) break;
        std::string got(s.data.size(), '?');
        auto f = go(s, [&](auto h) { a.f->async_read_some_at(s.off, asio::buffer(&got[0], got.size()), std::move(h)); });
        const Outcome o = wait(f);
        ++asynchronous;
        verify_read(a.disk, s.off, got.size(), o.first, o.second, got);
        break;
      }
      case burst: { // several at once; cancelling affects those that haven't begun
        if (!open) break;
        std::vector<std::string> got(s.count, std::string(s.data.size(), '?'));
        std::vector<std::future<Outcome>> f;
        for (auto& g : got) f.push_back(go(s, [&](auto h) { a.f->async_read_some_at(s.off, asio::buffer(&g[0], g.size()), std::move(h)); }));
        const bool cancelled = s.how & 4;
        if (cancelled) { a.f->cancel(ec); need(!ec, "cancel", ec); }
        if (s.how & 8) { // its operations go with it
          asioext::file t(std::move(*a.f));
          *a.f = std::move(t);
        }
        for (std::size_t i = 0; i != f.size(); ++i) {
          const Outcome o = wait(f[i]);
          ++asynchronous;
          if (cancelled && o.first == asio::error::operation_aborted) need(o.second == 0 && got[i] == std::string(got[i].size(), '?'), "an aborted read had an effect");
          else verify_read(a.disk, s.off, got[i].size(), o.first, o.second, got[i]);
        }
        break;
      }
      case move_construct:
        if (!a.f || b.f) break;
        b.f.reset(new asioext::file(std::move(*a.f)));
        b.disk = a.disk; b.ctx = a.ctx; b.pos = a.pos;
        a.disk = -1;
        ++done;
        break;
      case move_assign:
        if (!a.f || !b.f || &a == &b) break;
        *b.f = std::move(*a.f);
        b.disk = a.disk; b.ctx = a.ctx; b.pos = a.pos;
        a.disk = -1;
        ++done;
        break;
      case swap_files:
        if (!a.f || !b.f || &a == &b) break;
        std::swap(*a.f, *b.f);
        std::swap(a.disk, b.disk); std::swap(a.ctx, b.ctx); std::swap(a.pos, b.pos);
        ++done;
        break;
      case close_it:
        if (!open) break;
        a.f->close(ec);
        need(!ec && !a.f->is_open(), "close", ec);
        a.disk = -1;
        ++done;
        break;
      case destroy_it:
        a.f.reset();
        a.disk = -1;
        ++done;
        break;
      case resize:
        if (!open) break;
        a.f->truncate(s.off, ec);
        need(!ec, "truncate", ec);
        disk[a.disk].resize(s.off, '\0');
        need(a.f->size(ec) == s.off && !ec, "size", ec);
        ++done;
        break;
      case meta: {
        if (!open) break;
        unsigned& m = mode[a.disk];
        const unsigned bits = (unsigned)s.off & 0777 & ~0600u;
        switch (s.how & 3) {
          case 0: a.f->permissions(asioext::file_perms(bits | 0600), ec); m = bits | 0600; break;
          case 1: a.f->permissions(asioext::file_perms(bits), asioext::file_perm_options::add, ec); m |= bits; break;
          case 2: a.f->permissions(asioext::file_perms(bits), asioext::file_perm_options::remove, ec); m &= ~bits; break;
          default: break;
        }
        if (s.how & 3) need(!ec, "permissions", ec);
        ec = stale();
        const asioext::file_perms now = a.f->permissions(ec);
        need(!ec && now == asioext::file_perms(m), "permissions() returned something else", ec);
        need(a.f->size(ec) == disk[a.disk].size() && !ec, "size", ec);
        if (s.how & 8) {
          const asioext::file_time_type at(asioext::file_time_type::duration((std::int64_t)(id + 1) * 1000000000000 + (std::int64_t)s.off * 1000)),
            mt(asioext::file_time_type::duration((std::int64_t)(id + 11) * 1000000000000 + (std::int64_t)s.off * 1000));
          a.f->times(asioext::file_times(asioext::file_time_type(), at, mt), ec);
          need(!ec, "setting times", ec);
          const asioext::file_times t = a.f->times(ec);
          need(!ec && t.atime == at && t.mtime == mt, "times() returned something else", ec);
        }
        a.f->attributes(ec);
        need(!ec, "attributes", ec);
        ++done;
        break;
      }
      case sequential: {
        if (!open) break;
        need(a.f->position(ec) == a.pos && !ec, "position", ec);
        need(a.f->seek(asioext::seek_origin::from_begin, (std::int64_t)s.off, ec) == s.off && !ec, "seek", ec);
        a.pos = s.off;
        if (s.how & 1) {
          need(a.f->write_some(asio::buffer(s.data), ec) == s.data.size() && !ec, "write_some", ec);
          put(a.disk, a.pos, s.data);
          a.pos += s.data.size();
        } else {
          std::string got(s.data.size(), '?');
          std::array<asio::mutable_buffer, 2> bufs = {{asio::buffer(&got[0], got.size() / 2), asio::buffer(&got[got.size() / 2], got.size() - got.size() / 2)}};
          const std::size_t n = a.f->read_some(bufs, ec);
          verify_read(a.disk, a.pos, got.size(), ec, n, got);
          a.pos += n;
        }
        ++done;
        break;
      }
      case handles: {
        asioext::unique_file_handle h = asioext::open(path[s.disk].c_str(), asioext::open_args(open_flags::access_read_write | open_flags::open_existing), ec);
        need(!ec, "open", ec);
        asioext::unique_file_handle d = asioext::duplicate(h.get(), ec);
        need(!ec, "duplicate", ec);
        asioext::unique_file_handle m(std::move(h));
        need(m.write_some_at(s.off, asio::buffer(s.data), ec) == s.data.size() && !ec, "writing through a handle", ec);
        put((int)s.disk, s.off, s.data);
        m.close(ec);
        need(!ec, "close", ec);
        std::string got(s.data.size(), '?');
        const std::size_t n = d.read_some_at(s.off, asio::buffer(&got[0], got.size()), ec);
        verify_read((int)s.disk, s.off, got.size(), ec, n, got);
        ++done;
        break;
      }
      case tokens: {
        asioext::cancellation_token_source src;
        asioext::cancellation_token t(src), t2(t);
        need(!t.cancelled(), "a new token is cancelled");
        asioext::cancellation_token_source moved(std::move(src));
        moved.cancel();
        need(t.cancelled() && t2.cancelled(), "a token isn't cancelled");
        ++done;
        break;
      }
      case async_sequential: {
        if (!open) break;
        auto f = go(s, [&](auto h) { a.f->async_write_some(asio::buffer(s.data), std::move(h)); });
        const Outcome o = wait(f);
        ++asynchronous;
        need(!o.first && o.second == s.data.size(), "async_write_some", o.first);
        put(a.disk, a.pos, s.data);
        a.pos += s.data.size();
        need(a.f->position(ec) == a.pos && !ec, "position", ec);
        if (a.pos > 5000) { a.f->seek(asioext::seek_origin::from_begin, 0, ec); a.pos = 0; }
        break;
      }
      case whole_file: {
        asioext::write_file(path[s.disk].c_str(), asio::buffer(s.data), ec);
        need(!ec, "write_file", ec);
        disk[s.disk] = s.data;
        std::string got;
        asioext::read_file(path[s.disk].c_str(), got, ec);
        need(!ec && got == s.data, "read_file", ec);
        ++done;
        break;
      }
      default: {
        const std::string text = pbt::strf("http://host%d:%u/p?q#f", id, (unsigned)(s.off % 65536));
        asioext::url_view u(text, ec);
        need(!ec && std::string(u.port()) == std::to_string(s.off % 65536), "url_view", ec);
        need(std::string(make_error_code(asioext::socks::error::command_not_supported).message()).size() > 0, "message");
        const auto t = asioext::file_clock::now();
        need(asioext::file_clock::to_time_t(t) > 0, "now");
        ++done;
        break;
      }
    }
  }

  void run()
  {
    std::size_t i = 0;
    try {
      for (; i != script.size(); ++i) step(script[i]);
      for (auto& s : slots) s.f.reset();
      for (int d = 0; d != 2; ++d) {
        const int fd = ::open(path[d].c_str(), O_RDONLY | O_CLOEXEC);
        const std::string now = slurp_fd(fd);
        ::close(fd);
        need(now == disk[d], "a file has wrong contents at the end");
      }
    } catch (const Fail& f) {
      failure = pbt::strf("thread %d, step %zu (kind %d): %s", id, i, i < script.size() ? (int)script[i].kind : -1, f.what.c_str());
    } catch (const std::exception& e) {
      failure = pbt::strf("thread %d, step %zu: unexpected exception: %s", id, i, e.what());
    }
    // (operations refer to the script, and must be over in any case)
    for (auto& s : slots) s.f.reset();
  }
};

} // namespace

PBT_PROP(threads, 1)
{
  const std::size_t n = g.range(2, 4);
  std::vector<std::unique_ptr<Worker>> w;
  for (std::size_t i = 0; i != n; ++i) {
    w.emplace_back(new Worker);
    Worker& x = *w.back();
    x.id = (int)i;
    for (int d = 0; d != 2; ++d) {
      x.path[d] = pbt::scratch_dir() + pbt::strf("/p24-%zu-%d", i, d);
      x.disk[d] = g.bytes(g.below(200));
      const int fd = ::open(x.path[d].c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
      PBT_CHECK("setup", ::write(fd, x.disk[d].data(), x.disk[d].size()) == (ssize_t)x.disk[d].size() && ::fchmod(fd, 0600) == 0);
      ::close(fd);
    }
    for (std::size_t k = g.range(4, 20); k; --k) {
      Step s;
      s.kind = (StepKind)g.weighted({12, 3, 3, 5, 5, 5, 3, 3, 3, 2, 3, 1, 6, 3, 2, 4, 2, 3, 2});
      s.x = (unsigned)g.below(3);
      s.y = (unsigned)g.below(3);
      s.disk = (unsigned)g.below(2);
      s.ctx = (unsigned)g.below(2);
      s.how = (unsigned)g.below(16);
      s.count = (unsigned)g.range(1, 6);
      s.off = g.below(s.kind == meta ? 512 : 400);
      s.data = g.bytes(g.range(1, 100));
      g.note("thread %zu: step %d %u %u", i, (int)s.kind, s.x, s.y);
      x.script.push_back(std::move(s));
    }
  }
  const bool shared = g.flip();
  const std::size_t runners = g.range(1, 2);
  g.note("%s, %zu threads run each", shared ? "one context" : "two contexts", runners);
  {
    // (destroyed in this order: handlers of operations of the first one may be posted to the second one)
    asio::io_context second, first;
    asio::io_context* const io[2] = {&first, &second};
    auto work0 = asio::make_work_guard(first), work1 = asio::make_work_guard(second);
    std::vector<std::thread> ts;
    std::atomic<unsigned> ready{0};
    for (auto& x : w) { x->ctx[0] = io[0]; x->ctx[1] = io[shared ? 0 : 1]; }
    for (std::size_t i = 0; i != runners; ++i)
      for (auto* c : io) { if (c == io[1] && shared) continue; ts.emplace_back([c] { c->run(); }); }
    std::vector<std::thread> ws;
    for (auto& x : w)
      ws.emplace_back([&, p = x.get()] {
        ++ready;
        while (ready < n) std::this_thread::yield();
        p->run();
      });
    for (auto& t : ws) t.join();
    work0.reset();
    work1.reset();
    for (auto& t : ts) t.join();
  }
  int active = 0;
  for (auto& x : w) {
    PBT_CHECK("results", x->failure.empty(), "%s", x->failure.c_str());
    if (x->asynchronous && x->done) ++active;
  }
  if (active >= 2) g.nontrivial();
}
