// P22: connecting by name, with getaddrinfo() replaced by generated answers and
// connect() logged and made to fail, over real loopback sockets.
#include "compat.hpp"
#include "asioext/connect.hpp"
#include <arpa/inet.h>
#include <condition_variable>
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <mutex>
#include <netdb.h>
#include <netinet/in.h>
#include <optional>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

typedef asio::ip::tcp tcp;

namespace {

enum What { accepting, refusing, failing };
struct Target
{
  What what;
  bool v6;
  std::uint32_t addr; // last bits of the address
  int err;
};
struct Host
{
  std::string name, service;
  int gai = 0, gai_errno = 0; // failure
  std::vector<Target> targets;
  // what happened
  int resolved = 0;
  std::string asked_service;
  int asked_flags = -1;
  std::vector<std::size_t> attempts;
  bool unexpected = false;
};

std::mutex mtx;
std::condition_variable cond;
bool gate_open = true;
std::vector<Host>* hosts;   // of the current case
long live_lists;
int listener4 = -1, port_ok, port_refused;
bool have_v6;

sockaddr_storage address(std::size_t h, const Target& t, socklen_t& len)
{
  sockaddr_storage s;
  memset(&s, 0, sizeof s);
  if (t.v6) {
    auto& a = reinterpret_cast<sockaddr_in6&>(s);
    a.sin6_family = AF_INET6;
    a.sin6_port = htons(9);
    a.sin6_addr.s6_addr[0] = 0xfd;
    a.sin6_addr.s6_addr[13] = (std::uint8_t)(h + 1);
    a.sin6_addr.s6_addr[15] = (std::uint8_t)t.addr;
    len = sizeof a;
  } else {
    auto& a = reinterpret_cast<sockaddr_in&>(s);
    a.sin_family = AF_INET;
    a.sin_port = htons((std::uint16_t)(t.what == refusing ? port_refused : port_ok));
    a.sin_addr.s_addr = htonl(0x7f000000u | (std::uint32_t)(h + 1) << 8 | t.addr);
    len = sizeof a;
  }
  return s;
}

} // namespace

extern "C" {
int __real_connect(int, const sockaddr*, socklen_t);
int __wrap_connect(int fd, const sockaddr* a, socklen_t len)
{
  int err = 0;
  {
    std::lock_guard<std::mutex> l(mtx);
    if (!hosts) return __real_connect(fd, a, len);
    std::size_t h = 0, addr = 0;
    if (a->sa_family == AF_INET) {
      const std::uint32_t n = ntohl(reinterpret_cast<const sockaddr_in*>(a)->sin_addr.s_addr);
      h = n >> 8 & 255; addr = n & 255;
    } else if (a->sa_family == AF_INET6) {
      h = reinterpret_cast<const sockaddr_in6*>(a)->sin6_addr.s6_addr[13];
      addr = reinterpret_cast<const sockaddr_in6*>(a)->sin6_addr.s6_addr[15];
    }
    if (h == 0) return __real_connect(fd, a, len); // asio's internals
    if (h > hosts->size()) err = ENETUNREACH;
    else {
      Host& x = (*hosts)[h - 1];
      if (addr == 0 || addr > x.targets.size()) { x.unexpected = true; err = ENETUNREACH; }
      else {
        socklen_t want_len;
        const sockaddr_storage want = address(h - 1, x.targets[addr - 1], want_len);
        if (len != want_len || memcmp(&want, a, a->sa_family == AF_INET ? 8 : len) != 0) x.unexpected = true;
        x.attempts.push_back(addr - 1);
        if (x.targets[addr - 1].what == failing) err = x.targets[addr - 1].err;
      }
    }
  }
  if (err) { errno = err; return -1; }
  return __real_connect(fd, a, len);
}
int __real_getaddrinfo(const char*, const char*, const addrinfo*, addrinfo**);
int __wrap_getaddrinfo(const char* host, const char* service, const addrinfo* hints, addrinfo** out)
{
  std::unique_lock<std::mutex> l(mtx);
  cond.wait(l, [] { return gate_open; });
  if (!hosts) return EAI_FAIL;
  for (std::size_t h = 0; h != hosts->size(); ++h) {
    Host& x = (*hosts)[h];
    if (x.name != (host ? host : "")) continue;
    ++x.resolved;
    x.asked_service = service ? service : "";
    x.asked_flags = hints ? hints->ai_flags : -1;
    if (x.gai) { errno = x.gai_errno; return x.gai; }
    addrinfo* first = nullptr;
    addrinfo** next = &first;
    for (const Target& t : x.targets) {
      auto* a = static_cast<addrinfo*>(calloc(1, sizeof(addrinfo) + sizeof(sockaddr_storage)));
      const sockaddr_storage s = address(h, t, a->ai_addrlen);
      a->ai_family = t.v6 ? AF_INET6 : AF_INET;
      a->ai_socktype = SOCK_STREAM;
      a->ai_protocol = IPPROTO_TCP;
      a->ai_addr = reinterpret_cast<sockaddr*>(a + 1);
      memcpy(a->ai_addr, &s, sizeof s);
      *next = a;
      next = &a->ai_next;
    }
    *out = first;
    live_lists += first != nullptr;
    return 0;
  }
  return EAI_NONAME;
}
void __wrap_freeaddrinfo(addrinfo* a)
{
  std::lock_guard<std::mutex> l(mtx);
  if (a) --live_lists;
  while (a) { addrinfo* n = a->ai_next; free(a); a = n; }
}
}

namespace {

int make_socket(bool listening, int& port)
{
  const int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
  sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  socklen_t len = sizeof a;
  if (fd == -1 || ::bind(fd, (sockaddr*)&a, sizeof a) != 0 || (listening && ::listen(fd, 128) != 0) || ::getsockname(fd, (sockaddr*)&a, &len) != 0) {
    perror("loopback socket");
    _exit(3);
  }
  port = ntohs(a.sin_port);
  return fd;
}

// Ends the connections made; closing with a reset leaves nothing behind.
void drain()
{
  for (;;) {
    const int fd = ::accept4(listener4, nullptr, nullptr, SOCK_CLOEXEC);
    if (fd == -1) break;
    linger l = {1, 0};
    ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    ::close(fd);
  }
}

std::size_t open_fds()
{
  std::size_t n = 0;
  DIR* d = ::opendir("/proc/self/fd");
  while (::readdir(d)) ++n;
  ::closedir(d);
  return n;
}

struct Case
{
  std::vector<Host> hosts_;
  std::string text;
  explicit Case(Gen& g, std::size_t n)
  {
    static const int gai[] = {EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_SERVICE, EAI_MEMORY, EAI_FAMILY, EAI_SOCKTYPE, EAI_SYSTEM};
    static const int errnos[] = {ECONNREFUSED, ENETUNREACH, EHOSTUNREACH, ETIMEDOUT, EACCES, EADDRNOTAVAIL, ECONNRESET, EPERM, ENOBUFS, EAFNOSUPPORT};
    hosts_.resize(n);
    for (std::size_t i = 0; i != n; ++i) {
      Host& h = hosts_[i];
      h.name = pbt::strf("host%zu.", i) + std::string(g.size(40), 'x');
      h.service = g.flip() ? pbt::strf("%u", (unsigned)g.below(65536)) : std::string(g.size(30), 's');
      if (g.chance(1, 8)) { h.gai = g.pick(gai); h.gai_errno = h.gai == EAI_SYSTEM ? g.pick(errnos) : EIO; }
      else for (std::size_t k = g.below(7); k; --k) {
        Target t;
        t.what = (What)g.weighted({3, 3, 5});
        t.v6 = have_v6 && t.what == failing && g.flip();
        t.err = g.pick(errnos);
        t.addr = (std::uint32_t)h.targets.size() + 1;
        h.targets.push_back(t);
      }
    }
  }
  void note(Gen& g)
  {
    for (Host& h : hosts_) {
      std::string s;
      for (auto& t : h.targets) s += t.what == accepting ? " accepts" : t.what == refusing ? " refuses" : pbt::strf(" fails(%d%s)", t.err, t.v6 ? ", v6" : "");
      g.note("%.8s: %s%s", h.name.c_str(), h.gai ? pbt::strf("resolver error %d ", h.gai).c_str() : "", s.c_str());
    }
    std::lock_guard<std::mutex> l(mtx);
    hosts = &hosts_;
    gate_open = true;
  }
  ~Case()
  {
    std::lock_guard<std::mutex> l(mtx);
    hosts = nullptr;
    gate_open = true;
    cond.notify_all();
  }
};

sys::error_code os(int e) { return sys::error_code(e, asio::error::get_system_category()); }

// What should have come out.
sys::error_code expected(const Host& h, std::size_t& attempts)
{
  attempts = 0;
  switch (h.gai) {
    case 0: break;
    case EAI_NONAME: return asio::error::host_not_found;
    case EAI_AGAIN: return asio::error::host_not_found_try_again;
    case EAI_FAIL: return asio::error::no_recovery;
    case EAI_SERVICE: return asio::error::service_not_found;
    case EAI_MEMORY: return asio::error::no_memory;
    case EAI_FAMILY: return asio::error::address_family_not_supported;
    case EAI_SOCKTYPE: return asio::error::socket_type_not_supported;
    default: return os(h.gai_errno);
  }
  sys::error_code ec = asio::error::not_found;
  for (const Target& t : h.targets) {
    ++attempts;
    if (t.what == accepting) return sys::error_code();
    ec = os(t.what == refusing ? ECONNREFUSED : t.err);
  }
  return ec;
}

template <typename Socket>
void verify(Host& h, std::size_t index, sys::error_code ec, Socket& socket, int flags)
{
  std::lock_guard<std::mutex> l(mtx);
  std::size_t attempts;
  const sys::error_code want = expected(h, attempts);
  PBT_CHECK("resolved", h.resolved == 1, "the name was looked up %d times", h.resolved);
  PBT_CHECK("query", h.asked_service == h.service && h.asked_flags == flags, "asked for service '%s', flags %#x instead of '%s', %#x",
            h.asked_service.c_str(), h.asked_flags, h.service.c_str(), flags);
  std::string made;
  bool in_order = !h.unexpected;
  for (std::size_t i = 0; i != h.attempts.size(); ++i) { made += pbt::strf(" %zu", h.attempts[i]); in_order &= h.attempts[i] == i; }
  PBT_CHECK("order", in_order, "attempts:%s", made.c_str());
  PBT_CHECK("attempts", h.attempts.size() == attempts, "%zu attempts instead of %zu", h.attempts.size(), attempts);
  PBT_CHECK("result", ec == want, "'%s' instead of '%s'", ec.message().c_str(), want.message().c_str());
  if (ec) {
    sys::error_code e2;
    if (socket.is_open() && attempts) { socket.remote_endpoint(e2); PBT_CHECK("not-connected", !!e2, "connecting failed, but the socket is connected"); }
  } else {
    PBT_CHECK("open", socket.is_open());
    sockaddr_storage peer;
    memset(&peer, 0, sizeof peer);
    socklen_t len = sizeof peer, want_len;
    const sockaddr_storage w = address(index, h.targets[attempts - 1], want_len);
    PBT_CHECK("peer", ::getpeername(socket.native_handle(), (sockaddr*)&peer, &len) == 0 && len == want_len && memcmp(&peer, &w, len) == 0, "the socket is not connected to endpoint %zu", attempts - 1);
  }
}

// A socket may have been used before.
template <typename Socket>
int before(Gen& g, Socket& s)
{
  const int k = (int)g.weighted({4, 1, 1, 2});
  switch (k) {
    case 1: s.open(tcp::v4()); break;
    case 2: s.open(tcp::v4()); s.bind(tcp::endpoint(asio::ip::address_v4::loopback(), 0)); break;
    case 3: s.connect(tcp::endpoint(asio::ip::address_v4::loopback(), (unsigned short)port_ok)); break;
  }
  if (k) g.note("used socket %d", k);
  return k;
}

int pick_flags(Gen& g)
{
  static const int f[] = {0, 0, AI_PASSIVE, AI_NUMERICHOST, AI_NUMERICSERV, AI_ADDRCONFIG, AI_V4MAPPED | AI_ALL};
  return g.pick(f);
}

struct Handler
{
  Gen* g;
  int* calls;
  sys::error_code* ec;
  tcp::endpoint* ep;
  asio::io_context* ctx;
  std::unique_ptr<int> own{new int};
  Handler(Gen& gen, int& c, sys::error_code& e, tcp::endpoint& p, asio::io_context& x) : g(&gen), calls(&c), ec(&e), ep(&p), ctx(&x) {}
  void operator()(sys::error_code e, tcp::endpoint p)
  {
    ++*calls;
    *ec = e;
    *ep = p;
    if (!ctx->get_executor().running_in_this_thread()) g->fail_later("executor", "the handler wasn't invoked on its executor");
  }
};

} // namespace

void pbt::setup(const std::string&)
{
  listener4 = make_socket(true, port_ok);
  make_socket(false, port_refused);
  const int s = ::socket(AF_INET6, SOCK_STREAM, 0);
  have_v6 = s != -1;
  if (s != -1) ::close(s);
}

PBT_PROP(sync, 3)
{
  Case c(g, 1);
  c.note(g);
  Host& h = c.hosts_[0];
  const std::size_t fds = open_fds();
  const int flags = pick_flags(g);
  const bool thr = g.flip(), def = flags == 0 && thr && g.flip();
  g.note("%s", def ? "connect(), default flags" : thr ? "connect()" : "connect(ec)");
  {
    asio::io_context io;
    tcp::socket s(io);
    tcp::resolver r(io);
    before(g, s);
    sys::error_code ec = g.flip() ? sys::error_code() : os(EIO);
    if (def) { ec = sys::error_code(); try { asioext::connect(s, r, h.name, h.service); } catch (const sys::system_error& e) { ec = e.code(); PBT_CHECK("throws-success", !!ec); } }
    else if (thr) { ec = sys::error_code(); try { asioext::connect(s, r, h.name, h.service, (asio::ip::resolver_base::flags)flags); } catch (const sys::system_error& e) { ec = e.code(); PBT_CHECK("throws-success", !!ec); } }
    else asioext::connect(s, r, h.name, h.service, (asio::ip::resolver_base::flags)flags, ec);
    verify(h, 0, ec, s, flags);
    drain();
    if (ec) g.label("failed");
  }
  drain();
  PBT_CHECK("descriptors", open_fds() == fds, "%zu descriptors instead of %zu afterwards", open_fds(), fds);
  PBT_CHECK("lists", live_lists == 0);
  if (h.attempts.size() >= 2) g.nontrivial();
}

template <typename Socket>
static void run_async(Gen& g)
{
  const std::size_t n = 1 + g.below(4);
  Case c(g, n);
  c.note(g);
  const std::size_t fds = open_fds();
  std::size_t most = 0;
  bool cancelled = false;
  {
    asio::io_context io, other;
    struct Op
    {
      Socket s;
      tcp::resolver r;
      int calls = 0, flags = 0;
      bool elsewhere = false, cancelled = false, used = false;
      sys::error_code ec;
      tcp::endpoint ep;
      explicit Op(asio::io_context& io) : s(io), r(io) {}
    };
    std::vector<std::unique_ptr<Op>> ops;
    if (g.flip()) { std::lock_guard<std::mutex> l(mtx); gate_open = false; }
    for (std::size_t i = 0; i != n; ++i) {
      ops.emplace_back(new Op(io));
      Op& o = *ops.back();
      o.used = before(g, o.s) != 0;
      o.flags = pick_flags(g);
      o.elsewhere = g.chance(1, 3);
      // the names needn't outlive the call
      std::unique_ptr<std::string> host(new std::string(c.hosts_[i].name)), service(new std::string(c.hosts_[i].service));
      const auto flags = (asio::ip::resolver_base::flags)o.flags;
      g.note("async_connect %zu%s", i, o.elsewhere ? " (elsewhere)" : "");
      Handler f(g, o.calls, o.ec, o.ep, o.elsewhere ? other : io);
      if (o.elsewhere) asioext::async_connect(o.s, o.r, *host, *service, flags, asio::bind_executor(other, std::move(f)));
      else asioext::async_connect(o.s, o.r, *host, *service, flags, std::move(f));
      PBT_CHECK("inside", o.calls == 0, "the handler was invoked from within async_connect()");
      host->assign(host->size(), '!');
      service->assign(service->size(), '!');
      if (g.chance(1, 10)) { g.note("cancel the resolver"); o.r.cancel(); o.cancelled = cancelled = true; }
    }
    { std::lock_guard<std::mutex> l(mtx); gate_open = true; cond.notify_all(); }
    for (int idle = 0; idle != 200000;) {
      bool done = true;
      for (auto& o : ops) done &= o->calls != 0;
      if (done) break;
      io.restart();
      other.restart();
      if (io.poll() + other.poll()) idle = 0;
      else if (++idle > 20) ::usleep(50);
    }
    g.raise_later();
    for (std::size_t i = 0; i != n; ++i) {
      Op& o = *ops[i];
      Host& h = c.hosts_[i];
      PBT_CHECK("calls", o.calls == 1, "the handler was invoked %d times", o.calls);
      if (o.cancelled && o.ec == asio::error::operation_aborted) {
        g.label("cancelled");
        PBT_CHECK("cancelled", h.attempts.empty(), "attempts were made although resolving was cancelled");
        continue;
      }
      verify(h, i, o.ec, o.s, o.flags);
      if (!o.ec) {
        socklen_t len;
        const sockaddr_storage w = address(i, h.targets[h.attempts.back()], len);
        PBT_CHECK("endpoint", o.ep.size() == len && memcmp(o.ep.data(), &w, len) == 0, "the handler was given another endpoint than that connected to");
      } else g.label("failed");
      most = std::max(most, h.attempts.size());
    }
    drain();
    io.restart(); io.poll(); other.restart(); other.poll();
    for (auto& o : ops) PBT_CHECK("calls", o->calls == 1, "the handler was invoked %d times", o->calls);
  }
  drain();
  PBT_CHECK("descriptors", open_fds() == fds, "%zu descriptors instead of %zu afterwards", open_fds(), fds);
  PBT_CHECK("lists", live_lists == 0);
  if (most >= 2) g.nontrivial();
}

PBT_PROP(async, 3) { run_async<tcp::socket>(g); }
PBT_PROP(async_context_executor, 1) { run_async<asio::basic_stream_socket<tcp, asio::io_context::executor_type>>(g); }
