// P11: whole-file reads and writes are complete or report why not.
#include "fault.hpp"
#include "file_common.hpp"
#include "asioext/read_file.hpp"
#include "asioext/write_file.hpp"
#include "asioext/linear_buffer.hpp"
using namespace fx;

void pbt::setup(const std::string&) {}

namespace {

// A container with a maximum size whose memory may run out.
std::size_t alloc_limit = ~std::size_t(0);
template <typename T>
struct Limited
{
  using value_type = T;
  Limited() = default;
  template <typename U> Limited(const Limited<U>&) {}
  std::size_t max = std::size_t(-1) / 2;
  T* allocate(std::size_t n)
  {
    if (n > alloc_limit) throw std::bad_alloc();
    return static_cast<T*>(::operator new(n * sizeof(T)));
  }
  void deallocate(T* p, std::size_t) { ::operator delete(p); }
  bool operator==(const Limited&) const { return true; }
};

struct Small : std::vector<char, Limited<char>>
{
  std::size_t limit = ~std::size_t(0);
  std::size_t max_size() const { return std::min(limit, std::vector<char, Limited<char>>::max_size()); }
};

const int errors[] = {EIO, ENOSPC, EACCES, EMFILE, ENOMEM, EFBIG, EPERM};

std::vector<fault::Action> gen_plan(Gen& g)
{
  std::vector<fault::Action> p(g.chance(1, 3) ? 0 : g.below(9));
  for (auto& a : p) {
    switch (g.weighted({4, 3, 1, 5})) {
      case 0: break;
      case 1: a.kind = fault::eintr; break;
      case 2: a.kind = fault::error; a.err = g.pick(errors); break;
      default: a.kind = fault::partial; a.n = 1 + g.size(2000); break;
    }
  }
  return p;
}

// The first error the system reported for anything but closing the file.
int first_error(const std::vector<fault::Call>& log)
{
  for (auto& c : log)
    if (c.result < 0 && c.err != EINTR && c.name != "close") return c.err;
  return 0;
}
// fstat isn't interruptible and therefore not retried.
int stat_error(const std::vector<fault::Call>& log)
{
  for (auto& c : log)
    if (c.result < 0 && c.name == "fstat") return c.err;
  return 0;
}
std::uint64_t moved(const std::vector<fault::Call>& log, const char* what)
{
  std::uint64_t n = 0;
  for (auto& c : log) if (c.name == what && c.result > 0) n += (std::uint64_t)c.result;
  return n;
}

struct World
{
  Gen& g;
  std::string path = pbt::scratch_dir() + "/f";
  int raw = -1;
  bool exists = false;
  std::string data;
  int fd0;

  World(Gen& gen) : g(gen)
  {
    exists = g.chance(5, 6);
    if (exists) {
      raw = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
      data = g.bytes(g.size(g.chance(1, 8) ? 200000 : g.chance(1, 3) ? 5000 : 100));
      PBT_CHECK("setup", raw != -1 && ::pwrite(raw, data.data(), data.size(), 0) == (ssize_t)data.size());
    }
    fd0 = next_fd();
    g.note("%s", exists ? pbt::strf("file of %zu bytes", data.size()).c_str() : "no file");
  }
  ~World() { if (raw != -1) ::close(raw); ::unlink(path.c_str()); }
};

const char* const path_kinds[] = {"path", "handle", "boost path"};

// f(source, ec or nothing)
template <typename F>
Result with_source(World& w, int kind, bool thr, asioext::file_handle fh, F f)
{
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
  if (kind == 2) return call(thr, [&] { f(boost::filesystem::path(w.path)); }, [&](sys::error_code& ec) { f(boost::filesystem::path(w.path), ec); });
#endif
  if (kind == 1) return call(thr, [&] { f(fh); }, [&](sys::error_code& ec) { f(fh, ec); });
  return call(thr, [&] { f(w.path.c_str()); }, [&](sys::error_code& ec) { f(w.path.c_str(), ec); });
}

int gen_kind(Gen& g, bool handle)
{
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
  const int k = (int)g.below(3);
#else
  const int k = (int)g.below(2);
#endif
  return k == 1 && !handle ? 0 : k;
}

template <typename C>
void read_container(World& w, C& c, std::uint64_t max, const char* cname)
{
  Gen& g = w.g;
  const int kind = w.exists ? gen_kind(g, true) : gen_kind(g, false);
  const bool thr = g.flip();
  const std::string previous = g.bytes(g.size(max < 200 ? max : 200));
  c.resize(previous.size());
  if (!previous.empty()) memcpy(&c[0], previous.data(), previous.size());
  // The file may shrink or grow while it's being read.
  const int change = w.exists ? (int)g.weighted({6, 1, 1}) : 0;
  const std::size_t shrink_to = change == 1 ? g.size(w.data.size()) : 0;
  const std::size_t limit = g.chance(1, 10) ? g.size(300) : ~std::size_t(0);
  const std::vector<fault::Action> plan = gen_plan(g);
  g.note("read_file(%s, %s of %zu)%s, faults %s%s%s", path_kinds[kind], cname, previous.size(), thr ? " throwing" : "", fault::show(plan).c_str(),
         change == 1 ? pbt::strf(", truncated to %zu after the size was read", shrink_to).c_str() : change == 2 ? ", grows after the size was read" : "",
         limit != ~std::size_t(0) ? ", little memory" : "");
  asioext::unique_file_handle h;
  int hfd = -1;
  if (kind == 1) {
    hfd = ::open(w.path.c_str(), O_RDONLY | O_CLOEXEC);
    h.reset(asioext::file_handle(hfd));
  }
  const int fd0 = next_fd();
  Result r{true, 0, {}};
  std::vector<fault::Call> log;
  bool out_of_memory = false;
  {
    fault::Scope scope(plan, hfd == -1 ? std::set<int>{} : std::set<int>{hfd}, w.path);
    if (change) fault::state().hook = [&, done = false](const char* name) mutable {
      if (done || strcmp(name, "read") != 0) return;
      done = true;
      if (change == 1) { if (::ftruncate(w.raw, (off_t)shrink_to) != 0) {} }
      else if (::pwrite(w.raw, "more", 4, (off_t)w.data.size()) != 4) {}
    };
    alloc_limit = limit;
    try {
      r = with_source(w, kind, thr, h.get(), [&](auto&& src, auto&... ec) { asioext::read_file(src, c, ec...); });
    } catch (const std::bad_alloc&) {
      out_of_memory = true;
    }
    alloc_limit = ~std::size_t(0);
    log = fault::end();
  }
  g.note("  -> %s after %s", out_of_memory ? "bad_alloc" : show(r).c_str(), fault::show(log).c_str());
  for (auto& x : log) if (x.injected) g.nontrivial();
  PBT_CHECK("descriptor-leak", next_fd() == fd0);
  if (kind == 1) PBT_CHECK("handle-closed", ::fcntl(hfd, F_GETFD) != -1, "read_file closed a handle it doesn't own");
  if (out_of_memory) {
    PBT_CHECK("bad-alloc", limit != ~std::size_t(0) && !first_error(log));
    return;
  }
  const std::string now(c.size() ? (const char*)&c[0] : "", c.size());
  int e = first_error(log);
  if (!e) e = stat_error(log);
  if (!w.exists && !e) e = ENOENT;
  if (e) {
    PBT_CHECK("error-lost", !r.ok && r.ec == os_error(e), "%s, the system reported %d", show(r).c_str(), e);
    return;
  }
  if (w.data.size() > max) {
    PBT_CHECK("too-large", r.ec == asio::error::message_size, "%s", show(r).c_str());
    PBT_CHECK("too-large-changed", now == previous, "the container was changed");
    return;
  }
  const std::uint64_t n = moved(log, "read");
  if (n < w.data.size()) {
    PBT_CHECK("incomplete", !r.ok && r.ec == asio::error::eof && change == 1, "%s after reading %llu of %zu bytes", show(r).c_str(), (unsigned long long)n, w.data.size());
    return;
  }
  PBT_CHECK("failed", r.ok, "%s", show(r).c_str());
  PBT_CHECK("contents", now == w.data, "container has %zu bytes, file %zu", now.size(), w.data.size());
  if (kind == 1) PBT_CHECK("position", ::lseek(hfd, 0, SEEK_CUR) == (off_t)w.data.size());
}

void read_buffers(World& w)
{
  Gen& g = w.g;
  const int kind = w.exists ? gen_kind(g, true) : gen_kind(g, false);
  const bool thr = g.flip();
  std::vector<std::size_t> sz = gen_sizes(g, g.chance(1, 2) ? w.data.size() : w.data.size() + 100, true);
  const Bufs b = for_reading(sz);
  const auto shape = static_cast<Bufs::Shape>(g.below(Bufs::nshapes));
  const std::vector<fault::Action> plan = gen_plan(g);
  g.note("read_file(%s, buffers %s)%s, faults %s", path_kinds[kind], show(sz).c_str(), thr ? " throwing" : "", fault::show(plan).c_str());
  asioext::unique_file_handle h;
  int hfd = -1;
  if (kind == 1) {
    hfd = ::open(w.path.c_str(), O_RDONLY | O_CLOEXEC);
    h.reset(asioext::file_handle(hfd));
  }
  const int fd0 = next_fd();
  std::vector<fault::Call> log;
  Result r{true, 0, {}};
  {
    fault::Scope scope(plan, hfd == -1 ? std::set<int>{} : std::set<int>{hfd}, w.path);
    r = b.with<asio::mutable_buffer>(shape, [&](const auto& q) {
      return with_source(w, kind, thr, h.get(), [&](auto&& src, auto&... ec) { asioext::read_file(src, q, ec...); });
    });
    log = fault::end();
  }
  g.note("  -> %s after %s", show(r).c_str(), fault::show(log).c_str());
  for (auto& x : log) if (x.injected) g.nontrivial();
  PBT_CHECK("descriptor-leak", next_fd() == fd0);
  PBT_CHECK("guards", b.guards_intact());
  int e = first_error(log);
  if (!w.exists && !e) e = ENOENT;
  const std::uint64_t n = moved(log, "read");
  if (e) PBT_CHECK("error-lost", !r.ok && r.ec == os_error(e), "%s, the system reported %d", show(r).c_str(), e);
  else if (b.total() > w.data.size()) PBT_CHECK("short-file", r.ec == asio::error::eof, "%s, %zu bytes into buffers of %zu", show(r).c_str(), w.data.size(), b.total());
  else PBT_CHECK("failed", r.ok && n == b.total(), "%s", show(r).c_str());
  std::string expect = w.data.substr(0, n);
  expect.resize(b.total(), '\xa5');
  PBT_CHECK("contents", b.contents() == expect);
}

void write(World& w)
{
  Gen& g = w.g;
  const int kind = gen_kind(g, false);
  const bool thr = g.flip();
  std::vector<std::size_t> sz = gen_sizes(g, g.chance(1, 8) ? 200000 : 3000, true);
  const Bufs b = for_writing(g, sz);
  const auto shape = static_cast<Bufs::Shape>(g.below(Bufs::nshapes));
  const std::vector<fault::Action> plan = gen_plan(g);
  g.note("write_file(%s, buffers %s)%s, faults %s", path_kinds[kind], show(sz).c_str(), thr ? " throwing" : "", fault::show(plan).c_str());
  std::vector<fault::Call> log;
  Result r{true, 0, {}};
  const int fd0 = next_fd();
  {
    fault::Scope scope(plan, {}, w.path);
    r = b.with<asio::const_buffer>(shape, [&](const auto& q) {
      return with_source(w, kind, thr, asioext::file_handle(), [&](auto&& dst, auto&... ec) {
        if constexpr (!std::is_same_v<std::decay_t<decltype(dst)>, asioext::file_handle>) asioext::write_file(dst, q, ec...);
      });
    });
    log = fault::end();
  }
  g.note("  -> %s after %s", show(r).c_str(), fault::show(log).c_str());
  for (auto& x : log) if (x.injected) g.nontrivial();
  PBT_CHECK("descriptor-leak", next_fd() == fd0);
  const int e = first_error(log);
  bool opened = false;
  for (auto& x : log) opened |= x.name == "open" && x.result >= 0;
  const std::uint64_t n = moved(log, "write");
  if (e) PBT_CHECK("error-lost", !r.ok && r.ec == os_error(e), "%s, the system reported %d", show(r).c_str(), e);
  else PBT_CHECK("failed", r.ok && n == b.total(), "%s, %llu of %zu bytes written", show(r).c_str(), (unsigned long long)n, b.total());
  if (opened) {
    if (w.raw == -1) w.raw = ::open(w.path.c_str(), O_RDWR | O_CLOEXEC);
    w.exists = true;
    w.data = b.contents().substr(0, n);
  }
  if (w.exists) {
    PBT_CHECK("contents", slurp_fd(w.raw) == w.data, "the file has other contents than written");
  } else {
    PBT_CHECK("created", ::access(w.path.c_str(), F_OK) != 0);
  }
}

} // namespace

PBT_PROP(histories, 1)
{
  context();
  DescriptorZero zero;
  World w(g);
  zero.free(g);
  w.fd0 = next_fd();
  const std::size_t n = g.range(1, 4);
  for (std::size_t i = 0; i != n; ++i) {
    switch (g.below(3)) {
      case 0: write(w); break;
      case 1: read_buffers(w); break;
      default:
        switch (g.below(5)) {
          case 0: { std::string c; read_container(w, c, ~0ull, "string"); break; }
          case 1: { std::vector<unsigned char> c; read_container(w, c, ~0ull, "vector<unsigned char>"); break; }
          case 2: { asioext::linear_buffer c; read_container(w, c, ~0ull, "linear_buffer"); break; }
          case 3: {
            const std::size_t m = g.size(2000);
            asioext::linear_buffer c(0, m);
            read_container(w, c, m, pbt::strf("linear_buffer(max %zu)", m).c_str());
            break;
          }
          default: {
            Small c;
            c.limit = g.flip() ? g.size(2000) : ~std::size_t(0);
            read_container(w, c, c.max_size(), pbt::strf("vector(max %zu)", c.max_size()).c_str());
            break;
          }
        }
        if (w.raw != -1) { // undo concurrent changes
          PBT_CHECK("setup", ::ftruncate(w.raw, 0) == 0 && ::pwrite(w.raw, w.data.data(), w.data.size(), 0) == (ssize_t)w.data.size());
        }
        break;
    }
  }
}
