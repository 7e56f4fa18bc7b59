// P03: dynamic buffers over a linear buffer follow the DynamicBuffer contract.
#include "compat.hpp"
#include "asioext/linear_buffer.hpp"

void pbt::setup(const std::string&) {}

namespace {

typedef asioext::linear_buffer Buf;
typedef asioext::dynamic_linear_buffer<std::allocator<std::uint8_t>> Dyn;

std::string str(const void* p, std::size_t n)
{ return std::string(static_cast<const char*>(p), n); }
template <typename B> std::string str(const B& b) { return str(b.data(), b.size()); }

struct Common
{
  std::size_t lb_max, dyn_max, max;
  Buf b;
  std::string init;
  Common(Gen& g)
  {
    const std::size_t n = g.size(g.flip() ? 24 : 3000);
    init = g.bytes(n);
    if (g.flip()) {
      lb_max = n + g.size(2000);
      b = Buf(n, lb_max);
      std::copy(init.begin(), init.end(), b.begin());
      if (g.flip()) { // some spare capacity
        b.reserve(n + (lb_max - n) / 2);
      }
    } else {
      b = Buf(n);
      std::copy(init.begin(), init.end(), b.begin());
      lb_max = b.max_size();
    }
    // The adapter's own limit may be below the current contents.
    dyn_max = g.flip() ? std::numeric_limits<std::size_t>::max() : g.flip() ? n + g.size(1500) : g.size(3000);
    max = std::min(lb_max, dyn_max);
    g.note("buffer: %zu bytes, max %zu; adapter: max %zu", n, lb_max, dyn_max);
  }
};

std::size_t request(Gen& g, std::size_t have, std::size_t max)
{
  switch (g.weighted({5, 3, 2, 1})) {
    case 0: return g.size(600);
    case 1: { // around the limit
      const std::size_t room = max > have ? max - have : 0;
      if (room > 20000) return g.size(600);
      const std::size_t d = g.below(3);
      return d == 2 ? (room ? room - 1 : 0) : room + d;
    }
    case 2: return g.size(30);
    default: { // certainly too much (if accepted, it must not be attempted for real)
      const std::size_t room = max > have ? max - have : 0;
      if (room >= (1u << 20)) return g.size(600);
      return std::numeric_limits<std::size_t>::max() - g.size(std::min<std::size_t>(have + 5, 3000));
    }
  }
}

// The adapter hands out ranges of the underlying buffer, clamped to its size.
void check_ranges(Gen& g, Dyn& d, Buf& b)
{
  const std::string all = str(b.data(), b.size());
  for (int i = 0; i != 3; ++i) {
    const std::size_t pos = g.chance(1, 4) ? g.num(~0ull) : g.below(all.size() + 3),
                      n = g.chance(1, 3) ? g.num(~0ull) : g.below(all.size() + 3);
    const std::string expect = pos >= all.size() ? "" : all.substr(pos, n);
    const auto m = d.data(pos, n);
    const auto c = static_cast<const Dyn&>(d).data(pos, n);
    PBT_CHECK("range", str(m) == expect && str(c) == expect, "data(%zu, %zu) of %zu bytes: %zu and %zu bytes, expected %zu",
              pos, n, all.size(), m.size(), c.size(), expect.size());
    if (!expect.empty())
      PBT_CHECK("range", m.data() == b.data() + pos && c.data() == b.data() + pos, "data() does not point into the buffer");
  }
}

// Version 1: prepare / commit / consume.
#if !defined(ASIOEXT_NO_DYNAMIC_BUFFER_V1)
PBT_PROP(version1, 6)
{
  Common c(g);
  Dyn d(c.b, c.dyn_max);
  std::string readable = c.init.substr(0, c.max); // what size() and data() represent initially
  const bool over = c.init.size() > c.max;
  PBT_CHECK("max-size", d.max_size() == c.max, "max_size %zu expected %zu", d.max_size(), c.max);
  bool prepared_once = false, wrapped = false, rejected = false, consumed = false;
  std::size_t pending = 0; // prepared bytes that were not committed
  const std::size_t nops = 1 + g.below(16);
  for (std::size_t i = 0; i != nops; ++i) {
    PBT_CHECK("size", d.size() == readable.size(), "size %zu expected %zu", d.size(), readable.size());
    PBT_CHECK("data", str(d.data()) == readable && str(static_cast<const Dyn&>(d).data()) == readable, "readable bytes differ (%zu)", readable.size());
    PBT_CHECK("capacity", d.capacity() >= std::min(d.size(), c.max) && d.capacity() <= c.max, "capacity %zu size %zu max %zu", d.capacity(), d.size(), c.max);
    if (g.chance(1, 5)) check_ranges(g, d, c.b);
    switch (g.weighted({6, 3, 1})) {
      case 0: {
        const std::size_t have = over && !prepared_once && !consumed ? c.init.size() : readable.size();
        std::size_t n = request(g, have, c.max);
        if (have > c.max && n == 0) n = 1;
        const bool expect_fail = have > c.max || n > c.max - have;
        const bool with_ec = g.flip();
        g.note("prepare(%zu%s) [have %zu, max %zu]", n, with_ec ? ", ec" : "", have, c.max);
        asioext::error_code ec = g.flip() ? asioext::error_code(asio::error::eof) : asioext::error_code();
        bool failed = false;
        Dyn::mutable_buffers_type out(nullptr, 0);
        try {
          out = with_ec ? d.prepare(n, ec) : d.prepare(n);
          failed = with_ec && ec;
        } catch (const std::length_error&) {
          PBT_CHECK("throws", !with_ec, "prepare(n, ec) threw");
          failed = true;
        }
        PBT_CHECK("prepare-fails", failed == expect_fail, "prepare(%zu) %s (readable %zu, max %zu)", n,
                  failed ? "failed" : "succeeded", have, c.max);
        if (failed) {
          rejected = true;
          if (with_ec) {
            PBT_CHECK("no-memory", ec == asioext::error_code(asio::error::no_memory), "error %d", ec.value());
            PBT_CHECK("no-memory", out.size() == 0, "%zu bytes prepared on failure", out.size());
          }
          break;
        }
        PBT_CHECK("ec-reset", !with_ec || !ec, "ec not reset");
        prepared_once = true;
        PBT_CHECK("prepared", out.size() == n, "prepared %zu of %zu bytes", out.size(), n);
        PBT_CHECK("data", d.size() == readable.size() && str(d.data()) == readable, "prepare() changed the readable bytes");
        const std::string w = g.bytes(n);
        if (n) memcpy(out.data(), w.data(), n);
        PBT_CHECK("data", str(d.data()) == readable, "writing prepared bytes changed the readable ones");
        pending = n;
        if (i + 1 != nops && g.chance(1, 4)) break; // discarded by the next prepare()
        pending = 0;
        const std::size_t k = g.weighted({3, 1}) ? g.num(~0ull) : g.below(n + 1);
        g.note("commit(%zu)", k);
        d.commit(k);
        readable += w.substr(0, std::min(k, n));
        PBT_CHECK("underlying", str(c.b.data(), c.b.size()) == readable, "underlying buffer: %zu bytes, readable %zu", c.b.size(), readable.size());
        if (k) wrapped = true;
        break;
      }
      case 1: {
        if (over && !prepared_once) break; // undefined which part is the input sequence
        const std::size_t n = g.chance(1, 5) ? g.num(~0ull) : g.below(readable.size() + 2);
        g.note("consume(%zu) [have %zu]", n, readable.size());
        d.consume(n);
        readable.erase(0, std::min(n, readable.size()));
        consumed = true;
        break;
      }
      default: {
        g.note("move-construct");
        Dyn e(std::move(d));
        PBT_CHECK("size", e.size() == readable.size() && str(e.data()) == readable && e.max_size() == c.max, "moved adapter differs");
        // continue through the moved-to object for one cycle
        const std::size_t have = over && !prepared_once ? c.init.size() : readable.size();
        if (have + 3 <= c.max) {
          auto out = e.prepare(3);
          memcpy(out.data(), "abc", 3);
          e.commit(3);
          readable += "abc";
          e.consume(1);
          readable.erase(0, 1);
          pending = 0;
        }
        PBT_CHECK("data", str(e.data()) == readable, "moved adapter differs");
        PBT_CHECK("underlying", over || pending || str(c.b.data(), c.b.size()) == readable, "underlying buffer differs");
        if (wrapped || rejected) g.nontrivial();
        return;
      }
    }
  }
  PBT_CHECK("size", d.size() == readable.size() && str(d.data()) == readable, "at the end");
  if (wrapped || rejected) g.nontrivial();
}

#endif

// Version 2: grow / shrink / consume / data(pos, n).
PBT_PROP(version2, 6)
{
  Common c(g);
  Dyn d(c.b, c.dyn_max);
  std::string all = c.init; // the underlying memory
  bool grown = false, rejected = false;
  const std::size_t nops = 1 + g.below(16);
  for (std::size_t i = 0; i != nops; ++i) {
    const std::size_t size = std::min(all.size(), c.max);
    PBT_CHECK("size", d.size() == size, "size %zu expected %zu", d.size(), size);
    PBT_CHECK("max-size", d.max_size() == c.max, "");
    PBT_CHECK("capacity", d.capacity() >= d.size() && d.capacity() <= c.max, "");
    PBT_CHECK("underlying", str(c.b.data(), c.b.size()) == all, "underlying buffer differs");
    check_ranges(g, d, c.b);
    if (all.size() > c.max && g.flip()) { // bring it below the maximum first
      d.shrink(0);
      all.resize(size);
      continue;
    }
    switch (g.weighted({5, 2, 3})) {
      case 0: {
        const std::size_t n = request(g, size, c.max);
        const bool expect_fail = n > c.max - size;
        g.note("grow(%zu) [size %zu max %zu]", n, size, c.max);
        bool failed = false;
        try { d.grow(n); }
        catch (const std::length_error&) { failed = true; }
        PBT_CHECK("grow-fails", failed == expect_fail, "grow(%zu) %s (size %zu, max %zu)", n, failed ? "failed" : "succeeded", size, c.max);
        if (failed) { rejected = true; break; }
        all.resize(size);
        PBT_CHECK("grown", c.b.size() == size + n, "%zu + %zu -> %zu", size, n, c.b.size());
        auto out = d.data(size, n);
        PBT_CHECK("grown", out.size() == n, "data(size, n) yields %zu of %zu", out.size(), n);
        const std::string w = g.bytes(n);
        if (n) memcpy(out.data(), w.data(), n);
        all += w;
        grown |= n > 0;
        break;
      }
      case 1: {
        const std::size_t n = g.chance(1, 5) ? g.num(~0ull) : g.below(size + 2);
        g.note("shrink(%zu) [size %zu]", n, size);
        d.shrink(n);
        all.resize(size - std::min(n, size));
        break;
      }
      default: {
        const std::size_t n = g.chance(1, 5) ? g.num(~0ull) : g.below(size + 2);
        g.note("consume(%zu) [size %zu]", n, size);
        d.consume(n);
        all.erase(0, std::min(n, size));
        break;
      }
    }
  }
  PBT_CHECK("underlying", str(c.b.data(), c.b.size()) == all, "underlying buffer differs at the end");
  if (grown || rejected) g.nontrivial();
}

// As the buffer of composed read operations: a stream yielding its data in
// arbitrary portions.
struct Stream
{
  asio::io_context& io;
  Gen& g;
  std::string data;
  std::size_t pos = 0;
  template <typename B>
  std::size_t read_some(const B& bufs, asioext::error_code& ec)
  {
    const std::size_t room = asio::buffer_size(bufs);
    if (room == 0) { ec = asioext::error_code(); return 0; }
    if (pos == data.size()) { ec = asio::error::eof; return 0; }
    std::size_t n = std::min(room, data.size() - pos);
    if (g.flip()) n = 1 + g.below(n);
    asio::buffer_copy(bufs, asio::buffer(data.data() + pos, n));
    pos += n;
    ec = asioext::error_code();
    return n;
  }
  typedef asio::io_context::executor_type executor_type;
  executor_type get_executor() { return io.get_executor(); }
  template <typename B, typename H>
  void async_read_some(const B& bufs, H&& h)
  {
    asioext::error_code ec;
    const std::size_t n = read_some(bufs, ec);
    typedef typename std::decay<H>::type Handler;
    auto hp = std::make_shared<Handler>(std::forward<H>(h)); // composed handlers may be move-only
    asio::post(io, [hp, ec, n]() { std::move(*hp)(ec, n); });
  }
  template <typename B>
  std::size_t read_some(const B& bufs)
  {
    asioext::error_code ec;
    const std::size_t n = read_some(bufs, ec);
    if (ec) throw sys::system_error(ec);
    return n;
  }
};

PBT_PROP(composed_reads, 3)
{
  asio::io_context io;
  Buf b;
  const std::string before = g.bytes(g.size(100));
  b.append(before.data(), before.size());
  Stream s{io, g, "", 0};
  const std::size_t nl = g.below(6);
  for (std::size_t i = 0; i != nl; ++i) {
    std::string l = g.bytes(g.size(g.flip() ? 10 : 900));
    for (auto& ch : l) if (ch == '\n') ch = ' ';
    s.data += l + "\n";
  }
  s.data += g.flip() ? "tail" : "";
  std::string initial = before;
  for (auto& ch : initial) if (ch == '\n') ch = ' ';
  std::copy(initial.begin(), initial.end(), b.begin());
  std::string expect = initial + s.data;
  asioext::error_code ec;
  const bool async = g.flip();
  g.note("%s", async ? "asynchronous" : "synchronous");
  if (g.flip()) { // read everything
    const std::size_t max = g.flip() ? ~std::size_t(0) : initial.size() + g.size(2000);
    g.note("read all of %zu + %zu, max %zu", initial.size(), s.data.size(), max);
    std::size_t n = 0;
    if (async) {
      int calls = 0;
      asio::async_read(s, Dyn(b, max), asio::transfer_all(), [&](const asioext::error_code& e, std::size_t k) { ++calls; ec = e; n = k; });
      io.run();
      PBT_CHECK("completes", calls == 1, "%d completions", calls);
    } else {
      n = asio::read(s, Dyn(b, max), asio::transfer_all(), ec);
    }
    const std::size_t want = std::min(s.data.size(), max - initial.size());
    PBT_CHECK("read", n == want && b.size() == initial.size() + want, "read %zu, buffer %zu, expected %zu", n, b.size(), want);
    PBT_CHECK("read", str(b.data(), b.size()) == expect.substr(0, initial.size() + want), "contents");
  } else { // line by line
    std::string rest = expect;
    while (true) {
      std::size_t n = 0;
      if (async) {
        int calls = 0;
        asio::async_read_until(s, asioext::dynamic_buffer(b), '\n', [&](const asioext::error_code& e, std::size_t k) { ++calls; ec = e; n = k; });
        io.restart();
        io.run();
        PBT_CHECK("completes", calls == 1, "%d completions", calls);
      } else {
        n = asio::read_until(s, asioext::dynamic_buffer(b), '\n', ec);
      }
      const std::size_t nlpos = rest.find('\n');
      g.note("read_until -> %zu", n);
      if (nlpos == std::string::npos) {
        PBT_CHECK("read-until", n == 0 && ec == asio::error::eof, "n %zu ec %d", n, ec.value());
        PBT_CHECK("read-until", str(b.data(), b.size()) == rest, "rest differs");
        break;
      }
      PBT_CHECK("read-until", !ec && n == nlpos + 1, "n %zu expected %zu, ec %d", n, nlpos + 1, ec.value());
      PBT_CHECK("read-until", b.size() >= n && str(b.data(), b.size()) == rest.substr(0, b.size()), "contents");
      asioext::dynamic_buffer(b).consume(n);
      rest.erase(0, n);
    }
  }
  if (!s.data.empty()) g.nontrivial();
}

} // namespace
