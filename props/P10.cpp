// P10: scatter/gather I/O under partial transfers, interruptions and errors.
#include "fault.hpp"
#include "file_common.hpp"
#include <sys/mman.h>
using namespace fx;

void pbt::setup(const std::string&) {}

namespace {

const int errors[] = {EIO, ENOSPC, EAGAIN, EBADF, EFBIG, EDQUOT, EPERM, EINVAL, EFAULT, EISDIR, ENXIO, EPIPE, 4095};

std::vector<fault::Action> gen_plan(Gen& g, std::size_t len)
{
  std::vector<fault::Action> p(len);
  for (auto& a : p) {
    switch (g.weighted({2, 3, 1, 4})) {
      case 0: break;
      case 1: a.kind = fault::eintr; break;
      case 2: a.kind = fault::error; a.err = g.pick(errors); break;
      default: a.kind = fault::partial; a.n = 1 + g.size(300); break;
    }
  }
  return p;
}

struct Op { bool read, at, all, async; };

} // namespace

PBT_PROP(transfers, 12)
{
  const std::string path = pbt::scratch_dir() + "/f";
  const int raw = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  PBT_CHECK("setup", raw != -1);
  struct Closer { int f; std::string p; ~Closer() { ::close(f); ::unlink(p.c_str()); } } closer{raw, path};
  std::string data = g.bytes(g.size(g.chance(1, 6) ? 20000 : 700));
  PBT_CHECK("setup", ::pwrite(raw, data.data(), data.size(), 0) == (ssize_t)data.size());

  const Kind k = static_cast<Kind>(g.below(nkinds));
  Handle h = Handle::adopt(k, ::open(path.c_str(), O_RDWR | O_CLOEXEC));
  struct PlainCloser { Handle& h; ~PlainCloser() { if (h.kind == plain) ::close(h.fd()); } } pc{h};
  const int fd = h.fd();
  std::uint64_t pos = 0;
  bool faults = false, many = false;
  const std::size_t n = g.range(1, 6);
  g.note("%s, file of %zu bytes", name(k), data.size());

  for (std::size_t i = 0; i != n; ++i) {
    Op op;
    op.read = g.flip();
    op.at = g.flip();
    op.all = g.chance(1, 3);
    op.async = k == object && g.chance(1, 3);
    const bool thr = !op.all && !op.async && g.flip();
    std::vector<std::size_t> sz = gen_sizes(g, g.chance(1, 6) ? 20000 : 500, true);
    if (sz.size() > 64 && sz[0] == 0) sz[0] = 1;
    const Bufs b = op.read ? for_reading(sz) : for_writing(g, sz);
    const auto shape = static_cast<Bufs::Shape>(g.below(Bufs::nshapes));
    const std::uint64_t off = op.at ? g.num(data.size() + 20) : pos;
    const std::vector<fault::Action> plan = gen_plan(g, g.below(op.all ? 12 : 5));
    const std::string what = std::string(op.async ? "async_" : "") + (op.read ? "read" : "write") + (op.all ? "" : "_some") + (op.at ? "_at" : "");
    g.note("%s at %llu, buffers %s, shape %d, faults %s%s", what.c_str(), (unsigned long long)off, show(sz).c_str(), (int)shape,
           fault::show(plan).c_str(), thr ? ", throwing" : "");

    Result r{true, 0, stale()};
    std::vector<fault::Call> log;
    {
      fault::Scope scope(plan, {fd});
      if (op.async) {
        int calls = 0;
        auto handler = [&](sys::error_code ec, std::size_t m) { ++calls; r.ec = ec; r.v = m; };
        asioext::file& f = *h.f;
        if (op.read) b.with<asio::mutable_buffer>(Bufs::vec, [&](const auto& q) {
          if (op.all && op.at) asio::async_read_at(f, off, q, handler);
          else if (op.all) asio::async_read(f, q, handler);
          else if (op.at) f.async_read_some_at(off, q, handler);
          else f.async_read_some(q, handler);
        });
        else b.with<asio::const_buffer>(Bufs::vec, [&](const auto& q) {
          if (op.all && op.at) asio::async_write_at(f, off, q, handler);
          else if (op.all) asio::async_write(f, q, handler);
          else if (op.at) f.async_write_some_at(off, q, handler);
          else f.async_write_some(q, handler);
        });
        context().restart();
        context().run();
        PBT_CHECK("handler-calls", calls == 1, "%s: handler invoked %d times", what.c_str(), calls);
        r.ok = !r.ec;
      } else if (op.all) {
        h.visit([&](auto& x) {
          if (op.read) b.with<asio::mutable_buffer>(Bufs::vec, [&](const auto& q) { r.v = op.at ? asio::read_at(x, off, q, r.ec) : asio::read(x, q, r.ec); });
          else b.with<asio::const_buffer>(Bufs::vec, [&](const auto& q) { r.v = op.at ? asio::write_at(x, off, q, r.ec) : asio::write(x, q, r.ec); });
        });
        r.ok = !r.ec;
      } else if (op.read) r = op.at ? h.read_some_at(thr, off, b, shape) : h.read_some(thr, b, shape);
      else r = op.at ? h.write_some_at(thr, off, b, shape) : h.write_some(thr, b, shape);
      log = fault::end();
    }
    g.note("  -> %s after %s", show(r).c_str(), fault::show(log).c_str());

    // What the system did, according to the log.
    std::uint64_t moved = 0;
    int last_err = 0;
    bool saw_end = false;
    for (auto& c : log) {
      PBT_CHECK("error-ignored", last_err == 0 || last_err == EINTR, "%s went on after the system had reported error %d", what.c_str(), last_err);
      if (c.injected) faults = true;
      last_err = 0;
      if (c.result > 0) moved += (std::uint64_t)c.result;
      else if (c.result < 0) last_err = c.err;
      else if (c.asked) saw_end = true;
    }
    const std::size_t total = b.total();
    PBT_CHECK("guards", b.guards_intact());
    PBT_CHECK("interruption-reported", last_err != EINTR && r.ec != os_error(EINTR), "%s gave up after being interrupted", what.c_str());
    PBT_CHECK("called", total == 0 || !log.empty(), "%s didn't call the system", what.c_str());
    if (last_err) {
      PBT_CHECK("error-lost", !r.ok, "%s succeeded although the system reported error %d", what.c_str(), last_err);
      PBT_CHECK("error-code", r.ec == os_error(last_err), "%s: %s, the system reported %d", what.c_str(), show(r).c_str(), last_err);
      if (!op.all) PBT_CHECK("error-after-transfer", moved == 0, "%s failed after having transferred %llu bytes", what.c_str(), (unsigned long long)moved);
    } else if (op.all) {
      if (op.read && saw_end && moved < total) PBT_CHECK("eof", r.ec == asio::error::eof, "%s: %s", what.c_str(), show(r).c_str());
      else PBT_CHECK("incomplete", r.ok && moved == total, "%s: %s, %llu of %zu bytes transferred", what.c_str(), show(r).c_str(), (unsigned long long)moved, total);
    } else if (op.read && moved == 0 && total) {
      PBT_CHECK("eof", saw_end && r.ec == asio::error::eof, "%s: %s", what.c_str(), show(r).c_str());
    } else {
      PBT_CHECK("spurious-error", r.ok, "%s: %s", what.c_str(), show(r).c_str());
      if (total) PBT_CHECK("no-progress", moved > 0, "%s transferred nothing", what.c_str());
    }
    if (!(thr && !r.ok)) PBT_CHECK("count", r.v == moved, "%s returned %llu, %llu bytes were transferred", what.c_str(), (unsigned long long)r.v, (unsigned long long)moved);
    PBT_CHECK("count-limit", moved <= total, "%s transferred %llu bytes, asked for %zu", what.c_str(), (unsigned long long)moved, total);

    // Effects: exactly these bytes, in order.
    if (op.read) {
      PBT_CHECK("read-range", moved == 0 || off + moved <= data.size());
      std::string expect = moved ? data.substr(off, moved) : "";
      expect.resize(total, '\xa5');
      PBT_CHECK("read-data", b.contents() == expect, "%s: wrong data in the buffers", what.c_str());
    } else if (moved) {
      if (data.size() < off + moved) data.resize(off + moved, '\0');
      data.replace(off, moved, b.contents().substr(0, moved));
    }
    if (!op.at) pos += moved;
    PBT_CHECK("position", ::lseek(fd, 0, SEEK_CUR) == (off_t)pos, "position is %ld, expected %llu", (long)::lseek(fd, 0, SEEK_CUR), (unsigned long long)pos);
    PBT_CHECK("file-contents", slurp_fd(raw) == data, "%s: wrong file contents", what.c_str());
    if (sz.size() > 64) many = true;
  }
  if (faults) g.nontrivial();
  if (many) g.label("more-than-64-buffers");
}

// Buffers of up to some GiB. Nothing is transferred: what would be handed to the
// system has to be the buffers' bytes, in order, and its answer is the result.
PBT_PROP(huge, 1)
{
  static const std::uint64_t space = 1ull << 36;
  static char* const base = static_cast<char*>(::mmap(nullptr, space, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  PBT_CHECK("setup", base != MAP_FAILED);
  const std::string path = pbt::scratch_dir() + "/h";
  const int raw = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  PBT_CHECK("setup", raw != -1);
  struct Closer { int f; std::string p; ~Closer() { ::close(f); ::unlink(p.c_str()); } } closer{raw, path};
  const Kind k = static_cast<Kind>(g.below(nkinds));
  Handle h = Handle::adopt(k, ::open(path.c_str(), O_RDWR | O_CLOEXEC));
  struct PlainCloser { Handle& h; ~PlainCloser() { if (h.kind == plain) ::close(h.fd()); } } pc{h};

  struct Range { const char* p; std::uint64_t n; };
  std::vector<Range> ranges;
  std::vector<asio::mutable_buffer> bufs;
  std::uint64_t total = 0, at = g.below(4096);
  const std::size_t n = g.range(1, 8);
  for (std::size_t i = 0; i != n; ++i) {
    static const std::uint64_t big[] = {1ull << 16, 1ull << 30, 1ull << 31, 1ull << 32, (1ull << 32) + (1ull << 31), 1ull << 33};
    const std::uint64_t s = g.chance(1, 3) ? g.size(300) : g.pick(big) + g.below(3) * 5 - g.below(2) * 8;
    bufs.emplace_back(base + at, s);
    ranges.push_back({base + at, s});
    g.note("buffer of %llu bytes", (unsigned long long)s);
    total += s;
    at += s + g.below(2) * 4096;
  }
  const bool read = g.flip(), pos = g.flip(), async = k == object && g.chance(1, 3), vec = n != 1 || g.flip();
  const std::uint64_t off = pos ? g.num(1ull << 40) : 0;
  const std::uint64_t limit = g.chance(1, 2) ? 0x7ffff000 : 1 + g.num(0x7ffff000 - 1);
  g.note("%s%s%s at %llu, %llu bytes at once", async ? "async " : "", read ? "read" : "write", pos ? "_at" : "", (unsigned long long)off, (unsigned long long)limit);

  std::string wrong;
  std::uint64_t done = 0;
  int calls = 0;
  Result r{true, 0, stale()};
  {
    fault::Scope scope({}, {h.fd()});
    fault::state().fake = [&](bool rd, const iovec* v, int c, off_t o) -> long {
      ++calls;
      if (rd != read) wrong = "wrong direction";
      if (o != (pos ? (off_t)(off + done) : -1)) wrong = pbt::strf("offset %lld", (long long)o);
      std::uint64_t from = done, asked = 0;
      for (int i = 0; i < c; ++i) {
        const char* p = static_cast<const char*>(v[i].iov_base);
        std::uint64_t left = v[i].iov_len;
        asked += left;
        while (left && wrong.empty()) {
          std::uint64_t skip = from;
          std::size_t j = 0;
          while (j != ranges.size() && skip >= ranges[j].n) skip -= ranges[j++].n;
          if (j == ranges.size()) { wrong = "more than the buffers hold"; break; }
          if (p != ranges[j].p + skip) { wrong = pbt::strf("piece %d isn't where byte %llu of the buffers is", i, (unsigned long long)from); break; }
          const std::uint64_t m = std::min(left, ranges[j].n - skip);
          p += m; left -= m; from += m;
        }
      }
      const std::uint64_t m = std::min(asked, limit);
      done += m;
      return (long)m;
    };
    h.visit([&](auto& x) {
      auto go = [&](auto& q) {
        if constexpr (requires { x.async_read_some(q, [](sys::error_code, std::size_t) {}); }) {
          if (async) {
            auto handler = [&](sys::error_code ec, std::size_t m) { r.ec = ec; r.v = m; };
            if (read) pos ? x.async_read_some_at(off, q, handler) : x.async_read_some(q, handler);
            else pos ? x.async_write_some_at(off, q, handler) : x.async_write_some(q, handler);
            context().restart();
            context().run();
            return;
          }
        }
        if (read) r.v = pos ? x.read_some_at(off, q, r.ec) : x.read_some(q, r.ec);
        else r.v = pos ? x.write_some_at(off, q, r.ec) : x.write_some(q, r.ec);
      };
      if (vec) go(bufs); else go(bufs[0]);
    });
    fault::end();
  }
  PBT_CHECK("pieces", wrong.empty(), "%s", wrong.c_str());
  PBT_CHECK("called", calls || !total);
  if (total) PBT_CHECK("progress", !r.ec && done && r.v == done, "%s, %llu bytes transferred", show(r).c_str(), (unsigned long long)done);
  else PBT_CHECK("nothing", !r.ec && r.v == 0, "%s", show(r).c_str());
  if (done > 0xffff) { g.nontrivial(); g.label("huge"); }
}
