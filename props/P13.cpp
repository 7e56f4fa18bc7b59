// P13: file times: conversions against 128-bit arithmetic, setting and getting
// against a twin file changed with plain system calls.
#include "file_common.hpp"
#include "asioext/chrono.hpp"
#include "asioext/detail/chrono.hpp"
#include <sys/mman.h>
using namespace fx;
namespace ch = asioext::chrono;
#if defined(ASIOEXT_USE_BOOST_CHRONO)
namespace rt = boost;
#else
namespace rt = std;
#endif
typedef __int128 I;

void pbt::setup(const std::string&) {}

namespace {

std::string str(I v)
{
  if (v < 0) return "-" + str(-v);
  std::string r;
  do { r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; } while (v);
  return r;
}

template <typename Rep> bool fits(I v)
{ return v >= std::numeric_limits<Rep>::min() && v <= std::numeric_limits<Rep>::max(); }

// A count of some duration type: also near multiples of the unit ratios and of the limits.
template <typename Rep>
Rep gen_count(Gen& g)
{
  const I units[] = {1, 1000, 1000000, 1000000000, 10000000, 60, 3600, 3600000000000ll, 86400};
  I v = 0;
  switch (g.weighted({3, 4, 3, 2})) {
    case 0: v = g.inum(); break;
    case 1: v = static_cast<I>(g.inum()) * units[g.below(9)] + static_cast<I>(g.below(5)) - 2; break;
    case 2: v = (g.flip() ? I(INT64_MAX) : I(INT64_MIN)) / units[g.below(9)] + static_cast<I>(g.below(7)) - 3; break;
    default: v = (g.flip() ? I(INT32_MAX) : I(INT32_MIN)) * units[g.below(9)] + static_cast<I>(g.below(7)) - 3; break;
  }
  if (!fits<Rep>(v)) v = static_cast<Rep>(v);
  return static_cast<Rep>(v);
}

I floor_div(I a, I b) { I q = a / b; return a % b != 0 && (a < 0) != (b < 0) ? q - 1 : q; }

template <typename In, typename Out>
void cast(Gen& g)
{
  typedef rt::ratio_divide<typename In::period, typename Out::period> R;
  const In in(gen_count<typename In::rep>(g));
  Out out(typename Out::rep(77));
  const I exact = static_cast<I>(in.count()) * R::num / R::den;
  g.note("cast %s by %lld/%lld", str(in.count()).c_str(), (long long)R::num, (long long)R::den);
  const bool ok = asioext::detail::safe_duration_cast(in, out);
  if (ok) PBT_CHECK("cast-value", out.count() == exact, "got %s, expected %s", str(out.count()).c_str(), str(exact).c_str());
  // Ratios like 5/3 may be refused when an intermediate result would overflow.
  else PBT_CHECK("cast-refused", !fits<typename Out::rep>(exact) || (R::num != 1 && R::den != 1 && !fits<std::intmax_t>(static_cast<I>(in.count()) * R::num)));
  if (!fits<typename Out::rep>(exact)) PBT_CHECK("cast-overflow", !ok);
  if (in.count() != 0) g.nontrivial();
}

template <typename D, typename F, typename S>
void decompose(Gen& g)
{
  typedef rt::ratio_divide<typename F::period, typename D::period> FD; // durations per first
  typedef rt::ratio_divide<typename S::period, typename D::period> SD;
  static_assert(FD::den == 1);
  const D in(gen_count<typename D::rep>(g));
  F f(typename F::rep(77));
  S s(typename S::rep(77));
  g.note("decompose %s", str(in.count()).c_str());
  // In units of S, rounded towards zero; then split with a non-negative remainder.
  const I t = static_cast<I>(in.count()) * SD::den / SD::num;
  const I per = static_cast<I>(FD::num) * SD::den / SD::num;
  const I ef = floor_div(t, per), es = t - ef * per;
  const bool ok = asioext::detail::decompose_time(in, f, s);
  PBT_CHECK("decompose-outcome", ok == (fits<typename F::rep>(ef) && fits<typename S::rep>(es)), "%s -> %s + %s", str(in.count()).c_str(), str(ef).c_str(), str(es).c_str());
  if (!ok) return;
  PBT_CHECK("decompose-value", f.count() == ef && s.count() == es, "got %s + %s, expected %s + %s", str(f.count()).c_str(), str(s.count()).c_str(), str(ef).c_str(), str(es).c_str());
  if constexpr (SD::den == 1) { // composing yields the original (as far as nothing was rounded)
    D back(0);
    PBT_CHECK("recompose", asioext::detail::compose_time(f, s, back) && back.count() == t * SD::num, "got %s", str(back.count()).c_str());
  }
  g.nontrivial();
}

template <typename D, typename F, typename S>
void compose(Gen& g)
{
  typedef rt::ratio_divide<typename F::period, typename D::period> FD;
  typedef rt::ratio_divide<typename S::period, typename D::period> SD;
  static_assert(FD::den == 1 && SD::den == 1);
  const I per = static_cast<I>(FD::num) / SD::num; // seconds parts per first
  const F f(gen_count<typename F::rep>(g));
  I sv;
  switch (g.below(4)) {
    case 0: sv = 0; break;
    case 1: sv = per - 1 - static_cast<I>(g.below(3)); break;
    case 2: { // the remainder at the limits of D
      const I lim = g.flip() ? I(std::numeric_limits<typename D::rep>::max()) : I(std::numeric_limits<typename D::rep>::min());
      sv = (lim - floor_div(lim, FD::num) * FD::num) / SD::num + static_cast<I>(g.below(3)) - 1;
      break;
    }
    default: sv = g.below(static_cast<std::uint64_t>(per)); break;
  }
  if (sv < 0 || sv >= per) sv = 0;
  if (!fits<typename S::rep>(sv)) sv = 0;
  const S s(static_cast<typename S::rep>(sv));
  const I exact = static_cast<I>(f.count()) * FD::num + sv * SD::num;
  g.note("compose %s + %s", str(f.count()).c_str(), str(sv).c_str());
  D out(77);
  const bool ok = asioext::detail::compose_time(f, s, out);
  PBT_CHECK("compose-outcome", ok == fits<typename D::rep>(exact), "%s + %s = %s", str(f.count()).c_str(), str(sv).c_str(), str(exact).c_str());
  if (ok) PBT_CHECK("compose-value", out.count() == exact, "got %s, expected %s", str(out.count()).c_str(), str(exact).c_str());
  g.nontrivial();
}

typedef ch::duration<std::int64_t, rt::ratio<1, 10000000>> ticks;
typedef ch::duration<std::int32_t> secs32;
typedef ch::duration<std::int32_t, rt::nano> nanos32;
typedef ch::duration<std::int64_t, rt::ratio<5, 3>> odd;
typedef ch::duration<std::int32_t, rt::milli> millis32;

} // namespace

PBT_PROP(duration_casts, 3)
{
  switch (g.below(14)) {
    case 0: cast<ch::seconds, ch::nanoseconds>(g); break;
    case 1: cast<ch::nanoseconds, ch::seconds>(g); break;
    case 2: cast<ch::seconds, secs32>(g); break;
    case 3: cast<secs32, ch::nanoseconds>(g); break;
    case 4: cast<ch::nanoseconds, secs32>(g); break;
    case 5: cast<ticks, ch::nanoseconds>(g); break;
    case 6: cast<ch::nanoseconds, ticks>(g); break;
    case 7: cast<odd, ch::seconds>(g); break;
    case 8: cast<ch::seconds, odd>(g); break;
    case 9: cast<ch::nanoseconds, nanos32>(g); break;
    case 10: cast<secs32, nanos32>(g); break;
    case 11: cast<ch::duration<std::int64_t, rt::ratio<3600>>, millis32>(g); break;
    case 12: cast<odd, millis32>(g); break;
    default: cast<millis32, ch::duration<std::int64_t, rt::ratio<7, 11>>>(g); break;
  }
}

PBT_PROP(decompositions, 3)
{
  switch (g.below(7)) {
    case 0: decompose<ch::nanoseconds, ch::seconds, ch::nanoseconds>(g); break;
    case 1: decompose<ch::nanoseconds, ch::duration<std::time_t>, ch::duration<long, rt::nano>>(g); break;
    case 2: decompose<ch::nanoseconds, secs32, ch::nanoseconds>(g); break;
    case 3: decompose<ticks, ch::seconds, ch::nanoseconds>(g); break;
    case 4: decompose<ch::nanoseconds, ch::seconds, ch::microseconds>(g); break;
    case 5: decompose<ch::microseconds, ch::seconds, ch::microseconds>(g); break;
    default: decompose<ch::milliseconds, secs32, nanos32>(g); break;
  }
}

PBT_PROP(compositions, 3)
{
  switch (g.below(5)) {
    case 0: compose<ch::nanoseconds, ch::seconds, ch::nanoseconds>(g); break;
    case 1: compose<ch::nanoseconds, secs32, ch::nanoseconds>(g); break;
    case 2: compose<ticks, ch::seconds, ticks>(g); break;
    case 3: compose<ch::microseconds, ch::seconds, ch::microseconds>(g); break;
    default: compose<ch::nanoseconds, ch::milliseconds, ch::nanoseconds>(g); break;
  }
}

PBT_PROP(time_t_values, 1)
{
  typedef asioext::file_time_type T;
  typedef asioext::file_clock C;
  static_assert(std::is_same<C::duration, ch::nanoseconds>::value, "");
  const std::int64_t n = gen_count<std::int64_t>(g);
  const T t{ch::nanoseconds(n)};
  g.note("time %lld", (long long)n);
  PBT_CHECK("to-time_t", C::to_time_t(t) == n / 1000000000, "got %lld", (long long)C::to_time_t(t));
  const std::time_t s = static_cast<std::time_t>(n / 1000000000);
  PBT_CHECK("from-time_t", C::from_time_t(s).time_since_epoch().count() == static_cast<std::int64_t>(s) * 1000000000);
  PBT_CHECK("time_t-round-trip", C::to_time_t(C::from_time_t(s)) == s);
  if (n < 0 || n % 1000000000) g.nontrivial();
}

PBT_PROP(now, 1)
{
  auto read = [] { timespec ts; ::clock_gettime(CLOCK_REALTIME, &ts); return static_cast<I>(ts.tv_sec) * 1000000000 + ts.tv_nsec; };
  I a = 0, b = 0, n = 0;
  for (int i = 0; i != 20; ++i) { // again if the clock was set meanwhile
    a = read();
    n = asioext::file_clock::now().time_since_epoch().count();
    b = read();
    if (a <= n && n <= b) break;
  }
  // The clock may be read with its coarse resolution.
  PBT_CHECK("now", n >= a - 20000000 && n <= b, "now() is %s, the clock showed %s and %s", str(n).c_str(), str(a).c_str(), str(b).c_str());
  g.note("now");
}

namespace {

struct Twins
{
  int fd[2];
  bool mem;
  std::string path[2];
  explicit Twins(bool m) : mem(m)
  {
    for (int i = 0; i != 2; ++i) {
      path[i] = pbt::scratch_dir() + (i ? "/tb" : "/ta");
      fd[i] = mem ? ::memfd_create("t", MFD_CLOEXEC) : ::open(path[i].c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600);
      PBT_CHECK("setup", fd[i] != -1);
    }
  }
  ~Twins()
  {
    for (int i = 0; i != 2; ++i) { ::close(fd[i]); if (!mem) ::unlink(path[i].c_str()); }
  }
};

struct timespec split(std::int64_t n)
{
  struct timespec t;
  if (n == 0) { t.tv_sec = 0; t.tv_nsec = UTIME_OMIT; return t; }
  t.tv_sec = static_cast<time_t>(floor_div(n, 1000000000));
  t.tv_nsec = static_cast<long>(n - static_cast<I>(t.tv_sec) * 1000000000);
  return t;
}

// Setting times may drop parts of a microsecond without futimens().
#if defined(ASIOEXT_DISABLE_FUTIMENS)
const I unit = 1000;
#else
const I unit = 1;
#endif
bool near(I x, I y) { return x - y < unit && y - x < unit; }

I joined(const struct timespec& t) { return static_cast<I>(t.tv_sec) * 1000000000 + t.tv_nsec; }

std::int64_t gen_time(Gen& g)
{
  switch (g.weighted({2, 3, 3, 2})) {
    case 0: return 0;
    case 1: return static_cast<std::int64_t>(1400000000 + g.below(400000000)) * 1000000000 + static_cast<std::int64_t>(g.below(1000000000));
    case 2: return (static_cast<std::int64_t>(g.below(60)) - 30) * 1000000000 + static_cast<std::int64_t>(g.below(4)) - 2 + (g.flip() ? 500000000 : 0);
    default: return gen_count<std::int64_t>(g);
  }
}

} // namespace

PBT_PROP(file_times, 4)
{
  Twins t(g.chance(3, 4));
  const Kind kind = static_cast<Kind>(g.below(nkinds));
  const int hfd = ::fcntl(t.fd[0], F_DUPFD_CLOEXEC, 0);
  Handle h = Handle::adopt(kind, hfd);
  struct Close { Handle& h; int fd; ~Close() { if (h.kind == plain) ::close(fd); } } closer{h, hfd};
  g.note("%s on %s", name(kind), t.mem ? "memory" : "disk");
  bool both = false;
  const std::size_t n = g.range(1, 6);
  for (std::size_t i = 0; i != n; ++i) {
    const bool thr = g.flip();
    if (g.chance(1, 4)) { // times set by others, beyond what file times can represent, too
      struct timespec ts[2];
      for (auto& x : ts) {
        x.tv_sec = static_cast<time_t>(g.flip() ? static_cast<std::int64_t>(gen_count<std::int64_t>(g)) / static_cast<std::int64_t>(g.pick({1, 1000, 1000000000}))
                                                : (g.flip() ? 9223372036ll : -9223372037ll) + static_cast<std::int64_t>(g.below(5)) - 2);
        x.tv_nsec = static_cast<long>(g.flip() ? g.below(1000000000) : (g.flip() ? 854775807 : 145224192) + g.below(3) - 1);
      }
      g.note("set by others: %lld.%09ld %lld.%09ld", (long long)ts[0].tv_sec, ts[0].tv_nsec, (long long)ts[1].tv_sec, ts[1].tv_nsec);
      for (int k : {0, 1}) if (::futimens(t.fd[k], ts) != 0) return;
    } else {
      asioext::file_times nt;
      const std::int64_t a = gen_time(g), m = gen_time(g), c = g.chance(1, 4) ? gen_time(g) : 0;
      nt.atime = asioext::file_time_type(ch::nanoseconds(a));
      nt.mtime = asioext::file_time_type(ch::nanoseconds(m));
      nt.ctime = asioext::file_time_type(ch::nanoseconds(c));
      g.note("set a=%lld m=%lld c=%lld", (long long)a, (long long)m, (long long)c);
      const struct timespec ts[2] = {split(a), split(m)};
      PBT_CHECK("setup", ::futimens(t.fd[1], ts) == 0);
      const Result r = h.visit([&](auto& f) { return call(thr, [&] { f.times(nt); }, [&](sys::error_code& ec) { f.times(nt, ec); }); });
      PBT_CHECK("set", r.ok, "%s", show(r).c_str());
      if (a && m) both = true;
    }
    struct stat s[2];
    for (int k : {0, 1}) PBT_CHECK("setup", ::fstat(t.fd[k], &s[k]) == 0);
    // (the access time of a fresh file that was never set differs between the twins)
    if (i == 0) {
      if (joined(s[0].st_atim) != joined(s[1].st_atim) || joined(s[0].st_mtim) != joined(s[1].st_mtim)) {
        struct timespec now;
        ::clock_gettime(CLOCK_REALTIME, &now);
        // A time that was left alone is that of the creation.
        for (int w : {0, 1}) {
          const I x = joined(w ? s[0].st_mtim : s[0].st_atim), y = joined(w ? s[1].st_mtim : s[1].st_atim);
          PBT_CHECK("first-set", near(x, y) || (x > joined(now) - I(60) * 1000000000 && x <= joined(now) && y > joined(now) - I(60) * 1000000000 && y <= joined(now)),
                    "%s time: got %s, expected %s", w ? "modification" : "access", str(x).c_str(), str(y).c_str());
        }
        const struct timespec sync[2] = {s[1].st_atim, s[1].st_mtim};
        for (int k : {0, 1}) PBT_CHECK("setup", ::futimens(t.fd[k], sync) == 0);
        for (int k : {0, 1}) PBT_CHECK("setup", ::fstat(t.fd[k], &s[k]) == 0);
      }
    }
    I ea = joined(s[1].st_atim), em = joined(s[1].st_mtim);
    PBT_CHECK("atime-set", near(joined(s[0].st_atim), ea), "got %s, expected %s", str(joined(s[0].st_atim)).c_str(), str(ea).c_str());
    PBT_CHECK("mtime-set", near(joined(s[0].st_mtim), em), "got %s, expected %s", str(joined(s[0].st_mtim)).c_str(), str(em).c_str());
    if (unit != 1) {
      const struct timespec sync[2] = {s[0].st_atim, s[0].st_mtim};
      PBT_CHECK("setup", ::futimens(t.fd[1], sync) == 0);
      ea = joined(s[0].st_atim), em = joined(s[0].st_mtim);
    }
    asioext::file_times got;
    const Result r = h.visit([&](auto& f) { return call(thr, [&] { got = f.times(); }, [&](sys::error_code& ec) { got = f.times(ec); }); });
    const bool representable = fits<std::int64_t>(ea) && fits<std::int64_t>(em);
    PBT_CHECK("get", r.ok == representable, "%s", show(r).c_str());
    if (r.ok) {
      PBT_CHECK("atime-get", got.atime.time_since_epoch().count() == ea, "got %s, expected %s", str(got.atime.time_since_epoch().count()).c_str(), str(ea).c_str());
      PBT_CHECK("mtime-get", got.mtime.time_since_epoch().count() == em, "got %s, expected %s", str(got.mtime.time_since_epoch().count()).c_str(), str(em).c_str());
      PBT_CHECK("ctime-get", got.ctime.time_since_epoch().count() == 0, "the creation time isn't available");
    } else g.label("unrepresentable");
  }
  if (both) g.nontrivial();
}
