// P21: buffered streams over a scripted stream (partial transfers, errors,
// completions at generated points) or a file, against byte strings.
#include "compat.hpp"
#include "asioext/experimental/buffered_stream.hpp"
#include "asioext/file.hpp"
#include "asioext/open.hpp"
#include <fcntl.h>
#include <functional>
#include <memory>
#include <optional>
#include <unistd.h>

void pbt::setup(const std::string&) {}

namespace {

const sys::error_code errs[] = {asio::error::connection_reset, asio::error::broken_pipe, asio::error::no_memory, asio::error::would_block};

// The stream below.
struct Mock
{
  typedef Mock lowest_layer_type;
  typedef asio::io_context::executor_type executor_type;

  Gen& g;
  asio::io_context& io;
  std::string written, input; // input: what can be read
  bool closed = false, close_fails = false;
  unsigned errors = 0;    // chance in 20 that an operation fails
  int calls = 0, injected = 0, deliveries = 0; // deliveries: reads that yielded something
  sys::error_code write_error, read_error; // the last ones
  std::function<void()> pending_write, pending_read;

  Mock(Gen& gen, asio::io_context& i) : g(gen), io(i) {}
  Mock(Mock&&) = delete;
  lowest_layer_type& lowest_layer() { return *this; }
  executor_type get_executor() { return io.get_executor(); }

  void close() { closed = true; if (close_fails) throw sys::system_error(errs[0]); }
  void close(sys::error_code& ec) { closed = true; ec = close_fails ? errs[0] : sys::error_code(); }

  std::size_t portion(std::size_t n) { return n < 2 || g.flip() ? n : 1 + (std::size_t)g.below(n - 1); }
  bool fails(sys::error_code& ec, sys::error_code& last_error)
  {
    if (closed) {
      ec = last_error = asio::error::operation_aborted;
      return true;
    }
    if (!errors || !g.chance(errors, 20)) return false;
    ec = last_error = errs[g.below(4)];
    ++injected;
    return true;
  }
  template <typename B> std::size_t write_some(const B& b, sys::error_code& ec)
  {
    ++calls;
    if (fails(ec, write_error)) return 0;
    ec = sys::error_code();
    std::string s(asio::buffer_size(b), '\0');
    asio::buffer_copy(asio::buffer(&s[0], s.size()), b);
    s.resize(portion(s.size()));
    written += s;
    return s.size();
  }
  template <typename B> std::size_t read_some(const B& b, sys::error_code& ec)
  {
    ++calls;
    if (fails(ec, read_error)) return 0;
    ec = sys::error_code();
    if (asio::buffer_size(b) == 0) return 0;
    if (input.empty()) { ec = read_error = asio::error::eof; return 0; }
    const std::size_t n = portion(std::min(asio::buffer_size(b), input.size()));
    asio::buffer_copy(b, asio::buffer(input.data(), n));
    input.erase(0, n);
    if (n) ++deliveries;
    return n;
  }
  template <typename B, typename H> void async_write_some(const B& b, H&& h)
  {
    if (pending_write) g.fail_later("concurrent", "a write was started while another one was pending");
    auto p = std::make_shared<std::decay_t<H>>(std::move(h));
    pending_write = [this, b, p] {
      sys::error_code ec;
      const std::size_t n = write_some(b, ec);
      auto ex = asio::get_associated_executor(*p, get_executor());
      asio::post(ex, [p, ec, n]() mutable { auto h(std::move(*p)); h(ec, n); });
    };
  }
  template <typename B, typename H> void async_read_some(const B& b, H&& h)
  {
    if (pending_read) g.fail_later("concurrent", "a read was started while another one was pending");
    auto p = std::make_shared<std::decay_t<H>>(std::move(h));
    pending_read = [this, b, p] {
      sys::error_code ec;
      const std::size_t n = read_some(b, ec);
      auto ex = asio::get_associated_executor(*p, get_executor());
      asio::post(ex, [p, ec, n]() mutable { auto h(std::move(*p)); h(ec, n); });
    };
  }
};

struct Done
{
  int calls = 0;
  sys::error_code ec;
  std::size_t n = 0;
  std::function<void()> then; // what the handler does
};
// A move-only handler.
struct Handler
{
  Gen* g;
  Done* d;
  std::function<bool()> here;
  std::unique_ptr<int> own{new int};
  Handler(Gen& gen, Done& x, std::function<bool()> f) : g(&gen), d(&x), here(std::move(f)) {}
  Handler(Handler&&) = default;
  void operator()(sys::error_code ec, std::size_t n)
  {
    ++d->calls;
    d->ec = ec;
    d->n = n;
    if (!here()) g->fail_later("executor", "a handler wasn't invoked on its executor");
    if (auto f = std::move(d->then)) f();
  }
};

// Allocates through a pool of its own.
template <typename T>
struct Alloc
{
  typedef T value_type;
  long* live;
  explicit Alloc(long* l) : live(l) {}
  template <typename U> Alloc(const Alloc<U>& o) : live(o.live) {}
  T* allocate(std::size_t n) { ++*live; return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { --*live; ::operator delete(p); }
  template <typename U> bool operator==(const Alloc<U>& o) const { return live == o.live; }
  template <typename U> bool operator!=(const Alloc<U>& o) const { return live != o.live; }
};

template <typename B>
std::string contents(const B& b) { return std::string(reinterpret_cast<const char*>(b.data()), b.size()); }

template <typename BS>
void run(Gen& g, asio::io_context& io, Mock& m, BS& s, std::size_t max_write, std::size_t max_read)
{
  asio::io_context other;
  std::string unwritten;     // appended and not written yet
  std::size_t leftover = 0;  // of these, what a failed flush has left
  std::string unread;        // read into the buffer and not consumed
  std::string appended, all_input = m.input, consumed;
  std::size_t written0 = 0;
  int flushed = 0, filled = 0, failures = 0, refused = 0;

  struct Flush { Done d; std::size_t at_start, leftover, before; bool refused = false, ended = false; };
  std::vector<std::unique_ptr<Flush>> flushes;
  struct Fill { Done d; std::size_t before; bool ended = false; };
  std::vector<std::unique_ptr<Fill>> fills;
  Flush* pending = nullptr;
  Fill* filling = nullptr;

  auto flush_done = [&](Flush& f, sys::error_code ec, std::size_t n) {
    const std::size_t w = m.written.size() - f.before;
    PBT_CHECK("flush-count", n == w, "flushing reported %zu bytes, %zu were written", n, w);
    PBT_CHECK("order", m.written.compare(f.before, w, unwritten, 0, w) == 0 && w <= unwritten.size(), "other bytes were written than those appended");
    unwritten.erase(0, w);
    if (ec) {
      ++failures;
      PBT_CHECK("flush-error", ec == m.write_error, "flushing failed with '%s', the stream with '%s'", ec.message().c_str(), m.write_error.message().c_str());
    } else {
      ++flushed;
      // After a failed one, it may suffice to write what that one hadn't.
      PBT_CHECK("flush-all", w == f.at_start || (f.leftover && w == f.leftover), "flushing succeeded, but only %zu of %zu bytes were written", w, f.at_start);
    }
    leftover = ec ? (f.leftover ? f.leftover : f.at_start) - w : 0;
  };
  auto check = [&](const char* after) {
    g.raise_later();
    // what's still to be written: the end of it is what can be seen
    const std::string wb = contents(s.write_buffer());
    std::string rest = unwritten;
    if (pending) { const std::size_t w = m.written.size() - pending->before; PBT_CHECK("order", m.written.compare(pending->before, w, unwritten, 0, w) == 0); rest.erase(0, w); }
    PBT_CHECK("write-buffer", wb.size() <= rest.size() && rest.compare(rest.size() - wb.size(), wb.size(), wb) == 0, "the write buffer has wrong contents after %s", after);
    PBT_CHECK("pending", s.flush_pending() == (pending != nullptr), "flush_pending() after %s", after);
    if (pending) PBT_CHECK("can-flush", !s.can_flush());
    else PBT_CHECK("can-flush", s.can_flush() == !unwritten.empty(), "can_flush() is %d with %zu bytes to be flushed after %s", (int)s.can_flush(), unwritten.size(), after);
    if (!filling) PBT_CHECK("read-buffer", contents(s.read_buffer()) == unread, "the read buffer has wrong contents after %s", after);
    // nothing is read twice or lost
    PBT_CHECK("input", filling || consumed + unread + m.input == all_input, "bytes read were lost or repeated after %s", after);
  };

  auto settle = [&] {
    for (auto& f : flushes)
      if (!f->ended && f->d.calls) {
        f->ended = true;
        PBT_CHECK("calls", f->d.calls == 1);
        if (f->refused) PBT_CHECK("second-flush", f->d.ec == asio::error::already_started && f->d.n == 0, "'%s', %zu", f->d.ec.message().c_str(), f->d.n);
        else { pending = nullptr; flush_done(*f, f->d.ec, f->d.n); }
      }
    if (filling && filling->d.calls) {
      Fill& f = *filling;
      filling = nullptr;
      const std::size_t n = f.before - m.input.size();
      PBT_CHECK("fill-count", f.d.n == n, "async_fill() reported %zu bytes, %zu were read", f.d.n, n);
      if (unread.size() < max_read) PBT_CHECK("fill-result", f.d.ec ? f.d.ec == m.read_error : n >= 1, "'%s', %zu", f.d.ec.message().c_str(), n);
      PBT_CHECK("fill-returns", m.deliveries <= 1, "async_fill() went on reading after the stream had delivered something (%d times)", m.deliveries);
      unread += all_input.substr(all_input.size() - f.before, n);
      if (!f.d.ec) ++filled; else ++failures;
    }
  };
  auto poll = [&] {
    for (std::size_t n = 1; n;) {
      io.restart(); n = io.poll();
      other.restart(); n += other.poll();
    }
  };
  // Starts flushing; the handler may go on with another one.
  int chained = 0;
  std::function<void(int)> start_flush = [&](int depth) {
    flushes.emplace_back(new Flush);
    Flush& f = *flushes.back();
    f.at_start = unwritten.size();
    f.leftover = leftover;
    f.before = m.written.size();
    f.refused = pending != nullptr;
    refused += f.refused;
    g.note("async_flush%s", f.refused ? " (refused)" : "");
    if (!f.refused && depth < 4 && g.chance(1, 3))
      f.d.then = [&, depth] {
        PBT_CHECK("flush-over", !s.flush_pending(), "flush_pending() in the handler of a flush");
        settle();
        ++chained;
        if (g.flip()) {
          start_flush(depth + 1);
          PBT_CHECK("pending", s.flush_pending());
        } else {
          Flush f2;
          f2.before = m.written.size();
          f2.at_start = unwritten.size();
          f2.leftover = leftover;
          sys::error_code ec = asio::error::eof;
          const std::size_t n = s.flush(ec);
          flush_done(f2, ec, n);
        }
      };
    auto* io2 = g.flip() ? &other : nullptr;
    if (io2) s.async_flush(asio::bind_executor(other, Handler(g, f.d, [io2] { return io2->get_executor().running_in_this_thread(); })));
    else s.async_flush(Handler(g, f.d, [&io] { return io.get_executor().running_in_this_thread(); }));
    PBT_CHECK("inside", f.d.calls == 0, "the handler was invoked from within async_flush()");
    if (!f.refused) pending = &f;
  };
  std::function<void(int)> start_fill = [&](int depth) {
    fills.emplace_back(new Fill);
    Fill& f = *fills.back();
    f.before = m.input.size();
    m.deliveries = 0;
    g.note("async_fill");
    if (depth < 4 && g.chance(1, 3))
      f.d.then = [&, depth] {
        settle();
        PBT_CHECK("fill-over", contents(s.read_buffer()) == unread, "the read buffer has wrong contents in the handler");
        ++chained;
        start_fill(depth + 1);
      };
    auto* io2 = g.flip() ? &other : nullptr;
    if (io2) s.async_fill(asio::bind_executor(other, Handler(g, f.d, [io2] { return io2->get_executor().running_in_this_thread(); })));
    else s.async_fill(Handler(g, f.d, [&io] { return io.get_executor().running_in_this_thread(); }));
    PBT_CHECK("inside", f.d.calls == 0, "the handler was invoked from within async_fill()");
    filling = &f;
  };

  const std::size_t steps = g.range(3, 30);
  bool closed = false;
  for (std::size_t i = 0; i != steps; ++i) {
    const char* what = "";
    switch (g.weighted({8, 5, 5, 4, 4, 8, 4, 1})) {
      case 0: {
        std::size_t n = g.size(300);
        if (g.chance(1, 8)) n = max_write < 5000 ? max_write + g.below(3) : 2000;
        const std::string d = g.bytes(n);
        g.note("append %zu", n);
        const bool fits = s.write_buffer().size() + n <= max_write;
        bool threw = false;
        try { s.write_buffer().append(reinterpret_cast<const std::uint8_t*>(d.data()), n); }
        catch (const std::length_error&) { threw = true; }
        PBT_CHECK("max-size", threw != fits, "appending %zu bytes", n);
        if (!threw) { unwritten += d; appended += d; }
        what = "appending";
        break;
      }
      case 1: { // flush
        const bool thr = g.flip();
        Flush f;
        f.before = m.written.size();
        f.at_start = unwritten.size();
        f.leftover = leftover;
        g.note("flush");
        sys::error_code ec = asio::error::eof;
        std::size_t n = 0;
        if (thr) {
          ec = sys::error_code();
          n = ~std::size_t(0);
          try { n = s.flush(); } catch (const sys::system_error& e) { ec = e.code(); n = m.written.size() - f.before; }
        } else n = s.flush(ec);
        if (pending) {
          ++refused;
          PBT_CHECK("second-flush", ec == asio::error::already_started && m.written.size() == f.before, "flushing while another flush is pending: '%s'", ec.message().c_str());
        } else flush_done(f, ec, n);
        what = "flush";
        break;
      }
      case 2: { // async_flush
        start_flush(0);
        what = "async_flush";
        break;
      }
      case 3: { // fill
        if (filling) break;
        const bool thr = g.flip();
        g.note("fill");
        const std::size_t before = m.input.size(), space = max_read - unread.size();
        const std::string was = m.input;
        sys::error_code ec = asio::error::broken_pipe;
        std::size_t n = 0;
        m.deliveries = 0;
        if (thr) {
          ec = sys::error_code();
          n = ~std::size_t(0);
          try { n = s.fill(); } catch (const sys::system_error& e) { ec = e.code(); n = before - m.input.size(); }
        } else n = s.fill(ec);
        PBT_CHECK("fill-count", n == before - m.input.size(), "fill() reported %zu bytes, %zu were read", n, before - m.input.size());
        if (space) PBT_CHECK("fill-result", ec ? ec == m.read_error : n >= 1, "'%s', %zu", ec.message().c_str(), n);
        PBT_CHECK("fill-returns", m.deliveries <= 1, "fill() went on reading after the stream had delivered something (%d times)", m.deliveries);
        unread += was.substr(0, n);
        if (!ec) ++filled; else ++failures;
        what = "fill";
        break;
      }
      case 4: { // async_fill
        if (filling) break;
        start_fill(0);
        what = "async_fill";
        break;
      }
      case 5: case 6: { // things complete
        g.note("go on");
        const std::size_t rounds = g.below(3);
        for (std::size_t r = 0; r <= rounds; ++r) {
          if (m.pending_write && g.flip()) { auto f = std::move(m.pending_write); m.pending_write = nullptr; f(); }
          if (m.pending_read && g.flip()) { auto f = std::move(m.pending_read); m.pending_read = nullptr; f(); }
          poll();
        }
        what = "completion";
        break;
      }
      default: { // consume
        if (filling) break;
        const std::size_t n = (std::size_t)g.below(unread.size() + 1);
        g.note("consume %zu", n);
        s.read_buffer().erase(s.read_buffer().begin(), s.read_buffer().begin() + (long)n);
        consumed += unread.substr(0, n);
        unread.erase(0, n);
        what = "consuming";
        break;
      }
    }
    settle();
    check(what);
    // Finally, everything comes out.
    if (i + 1 == steps) {
      g.note("finish");
      // Closing the stream while it's being flushed: nothing more is written.
      if (pending && !filling && g.chance(1, 3)) {
        g.note("close");
        Flush& f = *pending;
        const std::string w = m.written;
        sys::error_code ec = errs[3];
        if (g.flip()) s.close(ec);
        else { ec = sys::error_code(); s.close(); }
        PBT_CHECK("close", m.closed && !ec, "'%s'", ec.message().c_str());
        PBT_CHECK("close-clears", s.write_buffer().size() == 0 && s.read_buffer().size() == 0, "buffers after close()");
        PBT_CHECK("close-pending", s.flush_pending() && !f.d.calls);
        if (g.flip()) {
          ec = sys::error_code();
          PBT_CHECK("second-flush", s.flush(ec) == 0 && ec == asio::error::already_started, "'%s'", ec.message().c_str());
        }
        f.d.then = nullptr;
        for (int r = 0; r != 20 && !f.d.calls; ++r) {
          if (m.pending_write) { auto h = std::move(m.pending_write); m.pending_write = nullptr; h(); }
          poll();
        }
        poll();
        PBT_CHECK("calls", f.d.calls == 1, "the handler of a flush was invoked %d times after the stream was closed", f.d.calls);
        PBT_CHECK("close-writes", m.written == w, "something was written to a closed stream");
        const std::size_t n = w.size() - f.before;
        PBT_CHECK("flush-count", f.d.n == n, "flushing reported %zu bytes, %zu were written", f.d.n, n);
        if (f.d.ec) PBT_CHECK("flush-error", f.d.ec == m.write_error, "'%s'", f.d.ec.message().c_str());
        else PBT_CHECK("flush-all", n == f.at_start || (f.leftover && n == f.leftover), "flushing succeeded, but only %zu of %zu bytes were written", n, f.at_start);
        PBT_CHECK("close-clears", !s.flush_pending() && !s.can_flush() && s.write_buffer().size() == 0);
        s.flush(ec);
        PBT_CHECK("close-clears", !ec && m.written == w, "closing didn't drop what was buffered");
        for (auto& x : flushes) PBT_CHECK("calls", x->d.calls == 1, "a handler was invoked %d times", x->d.calls);
        closed = true;
        g.label("closed-while-flushing");
        break;
      }
      m.errors = 0;
      for (int r = 0; r != 400 && (pending || filling || m.pending_read || m.pending_write); ++r) {
        if (m.pending_write) { auto f = std::move(m.pending_write); m.pending_write = nullptr; f(); }
        if (m.pending_read) { auto f = std::move(m.pending_read); m.pending_read = nullptr; f(); }
        poll();
        settle();
      }
      poll();
      settle();
      check("the end");
      PBT_CHECK("incomplete", !pending && !filling);
      for (auto& f : flushes) PBT_CHECK("calls", f->d.calls == 1, "a handler was invoked %d times", f->d.calls);
      for (auto& f : fills) PBT_CHECK("calls", f->d.calls == 1, "a handler was invoked %d times", f->d.calls);
      if (g.chance(1, 6)) {
        // closing drops what's buffered
        m.close_fails = g.flip();
        g.note("close");
        sys::error_code ec = errs[3];
        if (g.flip()) s.close(ec);
        else { ec = sys::error_code(); try { s.close(); } catch (const sys::system_error& e) { ec = e.code(); } }
        PBT_CHECK("close", m.closed && ec == (m.close_fails ? errs[0] : sys::error_code()), "'%s'", ec.message().c_str());
        PBT_CHECK("close-clears", s.write_buffer().size() == 0 && s.read_buffer().size() == 0 && !s.can_flush(), "buffers after close()");
        const std::string w = m.written;
        s.flush(ec);
        PBT_CHECK("close-clears", !ec && m.written == w, "closing didn't drop what was buffered");
        closed = true;
        break;
      }
      for (int r = 0; s.can_flush(); ++r) {
        PBT_CHECK("flush-ends", r < 4, "repeated flushes don't write everything");
        s.flush();
      }
      PBT_CHECK("everything", m.written == appended, "%zu bytes were appended, %zu written", appended.size(), m.written.size());
    }
  }
  PBT_CHECK("prefix", m.written == appended.substr(0, m.written.size()));
  (void)written0;
  if (flushed && filled) g.nontrivial();
  if (failures) g.label("failures");
  if (refused) g.label("refused");
  if (chained) g.label("chained");
  if (closed) g.label("closed");
}

} // namespace

PBT_PROP(scripted, 4)
{
  asio::io_context io;
  Mock m(g, io);
  m.input = g.bytes(g.size(2000));
  m.errors = g.flip() ? 0 : (unsigned)g.range(1, 5);
  const bool limited = g.flip();
  const std::size_t mw = limited ? g.range(1, 200) : ~std::size_t(0), mr = limited ? g.range(1, 200) : ~std::size_t(0);
  g.note("%zu bytes of input, limits %zu %zu, errors %u", m.input.size(), mw, mr, m.errors);
  if (g.flip()) {
    asioext::buffered_stream<Mock&> s(m, mw, mr);
    PBT_CHECK("next-layer", &s.next_layer() == &m && &s.lowest_layer() == &m);
    run(g, io, m, s, mw, mr);
  } else {
    long live = 0;
    {
      asioext::buffered_stream<Mock&, Alloc<std::uint8_t>> s(m, Alloc<std::uint8_t>(&live), mw, mr);
      run(g, io, m, s, mw, mr);
    }
    PBT_CHECK("memory", live == 0, "%ld blocks weren't returned to the allocator", live);
  }
  g.raise_later();
}

// Over a file: what was flushed is in the file, and filling reads it.
PBT_PROP(file, 1)
{
  asio::io_context io;
  const std::string path = pbt::scratch_dir() + "/p21";
  const int raw = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  const bool async = g.flip();
  const std::string initial = g.bytes(g.size(3000));
  PBT_CHECK("setup", ::pwrite(raw, initial.data(), initial.size(), 0) == (ssize_t)initial.size());
  std::string got, want;
  {
    asioext::buffered_stream<asioext::file> s(asioext::file(io, path.c_str(), asioext::open_args(asioext::open_flags::access_read_write | asioext::open_flags::open_existing)));
    sys::error_code ec;
    auto run = [&] { io.restart(); io.run(); };
    // the input, up to its end
    for (int r = 0; r != 1000; ++r) {
      Done d;
      if (async) { s.async_fill(Handler(g, d, [] { return true; })); run(); PBT_CHECK("calls", d.calls == 1); ec = d.ec; }
      else s.fill(ec);
      if (ec) break;
    }
    PBT_CHECK("eof", ec == asio::error::eof, "%s", ec.message().c_str());
    got = contents(s.read_buffer());
    want = initial;
    for (std::size_t n = g.range(1, 6); n; --n) {
      const std::string d = g.bytes(g.size(2000));
      g.note("append %zu, flush", d.size());
      s.write_buffer().append(reinterpret_cast<const std::uint8_t*>(d.data()), d.size());
      want += d;
      Done x;
      if (g.chance(1, 3)) continue;
      if (async) { s.async_flush(Handler(g, x, [] { return true; })); run(); PBT_CHECK("calls", x.calls == 1); ec = x.ec; }
      else s.flush(ec);
      PBT_CHECK("flush", !ec, "%s", ec.message().c_str());
      PBT_CHECK("flushed", !s.can_flush());
    }
    while (s.can_flush()) s.flush();
    s.close();
  }
  g.raise_later();
  PBT_CHECK("read", got == initial, "%zu bytes were read from a file of %zu", got.size(), initial.size());
  std::string now(want.size() + 1, '\0');
  const ssize_t n = ::pread(raw, &now[0], now.size(), 0);
  ::close(raw);
  PBT_CHECK("file", n == (ssize_t)want.size() && now.compare(0, want.size(), want) == 0, "the file has other contents than those appended");
  if (want.size() != initial.size()) g.nontrivial();
}
