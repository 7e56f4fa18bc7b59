// A small property-based testing engine.
//
// A property is a function taking a `Gen&`. Everything random about a case is
// drawn from the Gen, which records each drawn value; a case is therefore
// identified by its *choice sequence*. That makes three things uniform for all
// properties: replay (feed the sequence back in), shrinking (make the sequence
// shorter / its values smaller while the case still fails in the same way) and
// coverage guidance (mutate sequences that reached new code).
//
// Process structure: the parent process never runs a case itself. It forks
// worker processes, each running a fixed number of cases that only depends on
// the seed and the worker's index. The sequence of the case in progress lives
// in shared memory, so that a crash (sanitizer report, signal, terminate) or a
// hang of a worker yields a failing sequence just like an assertion does. Every
// failure is re-run in fresh processes before it is reported.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#if __has_include("pbt_dict.hpp")
# include "pbt_dict.hpp" // integers and strings found in the sources under test
#else
namespace pbt { 
static const std::uint64_t dict_ints[] = {0};
static const char* const dict_strings[] = {""};
}
#endif

#if defined(PBT_COVERAGE) && defined(__clang__)
# pragma clang attribute push(__attribute__((no_sanitize("coverage"))), apply_to = function)
#endif

namespace pbt {

struct Failure { std::string tag, msg; };
struct Discard {};

[[noreturn]] inline void fail(const std::string& tag, const std::string& msg)
{ throw Failure{tag, msg}; }

inline std::string strf(const char* f, ...)
{
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

// CHECK(tag, condition, printf-style details)
#define PBT_CHECK(tag, cond, ...) \
  do { if (!(cond)) ::pbt::fail(tag, ::pbt::strf("%s:%d: !(%s) ", \
       strrchr("/" __FILE__, '/') + 1, __LINE__, #cond) + ::pbt::strf("" __VA_ARGS__)); } while (0)

// --- random numbers -------------------------------------------------------

struct Rng
{
  std::uint64_t s;
  explicit Rng(std::uint64_t seed = 1) : s(seed) {}
  std::uint64_t next()
  {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  std::uint64_t below(std::uint64_t n) { return n ? next() % n : next(); }
};

inline std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{ Rng r(a * 0x2545F4914F6CDD1Dull + b + 0x632BE59BD9B4E019ull); r.next(); return r.next(); }

inline std::uint64_t hash_str(std::string_view s)
{
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

// --- shared memory --------------------------------------------------------

enum { max_choices = 1 << 15 };

struct Shared
{
  std::atomic<std::uint64_t> beat;
  std::atomic<std::uint32_t> state; // 0 running, 1 failed, 2 done
  std::uint32_t n;
  char tag[96];
  char msg[3072];
  std::uint64_t trace_len;
  char trace[16384];
  std::uint64_t choices[max_choices];
};

// --- coverage -------------------------------------------------------------

struct Coverage
{
  static Coverage& get(); // constant-initialised: the callbacks run before main
  struct Range { std::uint8_t* a; std::uint8_t* b; };
  Range ranges[64] = {};
  int nranges = 0;
  bool enabled = false;
  std::vector<std::uint8_t> seen;
  // operands of comparisons with constants, used as generation candidates
  std::uint64_t consts[1024] = {};
  int nconsts = 0;
  std::uint64_t table[4096] = {};

  void add_const(std::uint64_t v)
  {
    if (!enabled || v < 8 || nconsts == 1024) return;
    std::uint64_t& slot = table[(v * 0x9e3779b97f4a7c15ull) >> 52];
    if (slot == v) return;
    slot = v;
    for (int i = 0; i != nconsts; ++i)
      if (consts[i] == v) return;
    consts[nconsts++] = v;
  }
  void reset()
  {
    for (int i = 0; i != nranges; ++i)
      memset(ranges[i].a, 0, ranges[i].b - ranges[i].a);
  }
  static std::uint8_t bucket(std::uint8_t c)
  {
    if (c < 4) return std::uint8_t(1 << (c - 1)); // 1 2 4
    if (c < 8) return 8;
    if (c < 16) return 16;
    if (c < 32) return 32;
    if (c < 128) return 64;
    return 128;
  }
  // Returns whether the last case reached something new.
  bool collect()
  {
    bool fresh = false;
    std::size_t k = 0, total = 0;
    for (int i = 0; i != nranges; ++i) total += ranges[i].b - ranges[i].a;
    if (seen.size() != total) seen.assign(total, 0);
    for (int i = 0; i != nranges; ++i)
      for (std::uint8_t* p = ranges[i].a; p != ranges[i].b; ++p, ++k)
        if (*p) {
          const std::uint8_t b = bucket(*p);
          if ((seen[k] & b) == 0) { seen[k] |= b; fresh = true; }
        }
    return fresh;
  }
  std::uint64_t covered() const
  { std::uint64_t n = 0; for (auto b : seen) n += b != 0; return n; }
};

inline constinit Coverage coverage_instance;
inline Coverage& Coverage::get() { return coverage_instance; }

// --- generator ------------------------------------------------------------

class Gen
{
public:
  Gen(Shared* sh, Rng rng) : sh_(sh), rng_(rng) {}

  // Uniform in [0, n). n == 0 means the full 64-bit range.
  std::uint64_t below(std::uint64_t n)
  { return draw(n, [&] { return rng_.below(n); }); }

  std::uint64_t range(std::uint64_t lo, std::uint64_t hi) // inclusive
  { return lo + below(hi - lo + 1); }

  bool flip() { return below(2) != 0; }
  // True with probability num/den; shrinks towards false.
  bool chance(std::uint64_t num, std::uint64_t den)
  { return draw(2, [&]() -> std::uint64_t { return rng_.below(den) < num; }) != 0; }

  // Mostly small values, but boundary values (powers of two, constants found
  // in the code, the limit itself) are likely, too. In [0, max].
  std::uint64_t num(std::uint64_t max)
  {
    return draw(max == ~0ull ? 0 : max + 1, [&]() -> std::uint64_t {
      const std::uint64_t k = rng_.below(16);
      std::uint64_t v;
      if (k < 5) v = rng_.below(std::min<std::uint64_t>(max, 16) + 1);
      else if (k < 8) v = rng_.below(std::min<std::uint64_t>(max, 300) + 1);
      else if (k < 11) { // around a power of two
        int bits = 0;
        while (bits < 63 && (max >> bits) > 1) ++bits;
        v = (1ull << rng_.below(bits + 1)) + rng_.below(3) - 1;
      }
      else if (k < 13) v = dict_int() + rng_.below(3) - 1;
      else if (k < 14) v = max - rng_.below(3);
      else v = max == ~0ull ? rng_.next() : rng_.below(max + 1);
      return v > max ? (max == ~0ull ? v : v % (max + 1)) : v;
    });
  }
  std::size_t size(std::size_t max) { return static_cast<std::size_t>(num(max)); }

  // A boundary-rich signed number. Shrinks towards 0.
  std::int64_t inum()
  {
    const bool neg = flip();
    const std::uint64_t m = num(0x7fffffffffffffffull);
    return neg ? -static_cast<std::int64_t>(m) - 1 : static_cast<std::int64_t>(m);
  }

  template <typename T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <typename T, std::size_t N>
  const T& pick(const T (&v)[N]) { return v[below(N)]; }
  template <typename T>
  T pick(std::initializer_list<T> v) { return v.begin()[below(v.size())]; }

  // Index drawn according to the given weights.
  std::size_t weighted(std::initializer_list<unsigned> w)
  {
    return draw(w.size(), [&]() -> std::uint64_t {
      unsigned total = 0;
      for (unsigned x : w) total += x;
      std::uint64_t r = rng_.below(total);
      for (std::size_t i = 0; i != w.size(); ++i) {
        if (r < w.begin()[i]) return i;
        r -= w.begin()[i];
      }
      return 0;
    });
  }

  // n bytes whose contents depend on one drawn value. Position-dependent, so
  // that misplaced, swapped or missing bytes show.
  std::string bytes(std::size_t n)
  {
    const std::uint64_t mode = below(4), seed = below(1 << 20);
    std::string r(n, '\0');
    Rng x(seed);
    for (std::size_t i = 0; i != n; ++i) {
      switch (mode) {
        case 0: r[i] = static_cast<char>('a' + (seed + i) % 26); break;
        case 1: r[i] = static_cast<char>(x.next() >> 17); break;
        case 2: r[i] = static_cast<char>((seed + i * 131 + (i >> 8) * 17) & 0xff); break;
        default: r[i] = static_cast<char>(x.next() & 1 ? 0 : 0xff); break;
      }
    }
    return r;
  }

  const char* dict_string()
  {
    const std::size_t n = sizeof(dict_strings) / sizeof(dict_strings[0]);
    return dict_strings[below(n)];
  }

  // --- reporting ---
  void nontrivial() { nontrivial_ = true; }
  void label(const char* l) { ++labels_[l]; }
  bool tracing() const { return tracing_; }
  void note(const char* f, ...)
  {
    if (!tracing_) return;
    char b[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    const std::size_t l = strlen(b);
    if (sh_->trace_len + l + 2 < sizeof(sh_->trace)) {
      memcpy(sh_->trace + sh_->trace_len, b, l);
      sh_->trace_len += l;
      sh_->trace[sh_->trace_len++] = '\n';
      sh_->trace[sh_->trace_len] = 0;
    }
  }
  void beat() { sh_->beat.fetch_add(1); }

  // Record a failure from a context that must not throw (other threads,
  // noexcept code). Raised when the property returns.
  void fail_later(const std::string& tag, const std::string& msg)
  {
    std::lock_guard<std::mutex> l(later_mutex_);
    if (later_.tag.empty()) later_ = Failure{tag, msg};
  }
  void raise_later()
  {
    std::lock_guard<std::mutex> l(later_mutex_);
    if (!later_.tag.empty()) throw later_;
  }

  // A violation that has been recorded as a known finding: reported as such if
  // the committed list (passed in PBT_KNOWN) has it, as a failure otherwise.
  void known(const char* id, const std::string& msg)
  {
    const char* k = getenv("PBT_KNOWN");
    if (k && strstr((" " + std::string(k) + " ").c_str(), (" " + std::string(id) + " ").c_str())) label(("known:" + std::string(id)).c_str());
    else fail(id, msg);
  }

  std::uint64_t draws() const { return sh_->n; }

  // --- engine ---
  void start(std::vector<std::uint64_t> prefix, bool extend, bool tracing)
  {
    prefix_ = std::move(prefix);
    pos_ = 0;
    extend_ = extend;
    tracing_ = tracing;
    nontrivial_ = false;
    later_ = Failure{};
    sh_->n = 0;
    sh_->trace_len = 0;
    sh_->trace[0] = 0;
  }
  bool was_nontrivial() const { return nontrivial_; }
  std::map<std::string, std::uint64_t>& labels() { return labels_; }
  Rng& rng() { return rng_; }

private:
  template <typename F>
  std::uint64_t draw(std::uint64_t bound, F f)
  {
    std::uint64_t v;
    if (pos_ < prefix_.size()) v = prefix_[pos_++];
    else if (extend_ && sh_->n < max_choices) v = f();
    else v = 0;
    if (bound) v %= bound;
    if (sh_->n < max_choices) sh_->choices[sh_->n++] = v;
    return v;
  }

  std::uint64_t dict_int()
  {
    const std::size_t n = sizeof(dict_ints) / sizeof(dict_ints[0]);
    Coverage& c = Coverage::get();
    const std::uint64_t i = rng_.below(n + c.nconsts);
    return i < n ? dict_ints[i] : c.consts[i - n];
  }

  Shared* sh_;
  Rng rng_;
  std::vector<std::uint64_t> prefix_;
  std::size_t pos_ = 0;
  bool extend_ = true, tracing_ = false, nontrivial_ = false;
  std::map<std::string, std::uint64_t> labels_;
  std::mutex later_mutex_;
  Failure later_;
};

// --- registry -------------------------------------------------------------

struct Sub
{
  const char* name;
  unsigned weight;        // share of the random cases
  std::uint64_t enum_n;   // > 0: the first draw enumerates [0, enum_n)
  void (*fn)(Gen&);
};

inline std::vector<Sub>& subs() { static std::vector<Sub> v; return v; }
struct Reg { Reg(Sub s) { subs().push_back(s); } };

#define PBT_PROP(name, weight) \
  static void name(::pbt::Gen& g); \
  static ::pbt::Reg reg_##name(::pbt::Sub{#name, weight, 0, name}); \
  static void name(::pbt::Gen& g)

// The first value drawn enumerates [0, count) exhaustively before random cases
// (of the given weight) are run.
#define PBT_ENUM(name, weight, count) \
  static void name(::pbt::Gen& g); \
  static ::pbt::Reg reg_##name(::pbt::Sub{#name, weight, count, name}); \
  static void name(::pbt::Gen& g)

// Called once per worker / replay process, before the first case.
void setup(const std::string& scratch);

inline std::string& scratch_dir() { static std::string s; return s; }

inline void remove_tree(const std::string& path)
{
  // Only ever called for directories below our own scratch directory.
  if (path.size() < 12 || path.compare(0, 5, "/tmp/") != 0) return;
  std::string cmd = "rm -rf -- '" + path + "'";
  if (system(cmd.c_str()) != 0) {}
}

// --- engine ---------------------------------------------------------------

struct Options
{
  std::uint64_t seed = 1;
  int workers = 8;
  std::uint64_t cases = 1000;
  std::string scratch, result, replay;
  bool cov = false;
  int hang_seconds = 45;
  int shrink_seconds = 25;
  int max_seconds = 600;
  int need_replays = 3; // replays (out of `replays`) that have to fail
  int replays = 3;
};

class Engine
{
public:
  explicit Engine(Options o) : o_(std::move(o)) {}

  int run()
  {
    if (!o_.replay.empty()) return replay();
    mkdir(o_.scratch.c_str(), 0700);
    const auto t0 = std::chrono::steady_clock::now();

    struct Worker
    {
      pid_t pid;
      int slot;
      std::uint64_t last;
      std::chrono::steady_clock::time_point since;
    };
    std::vector<Worker> ws(o_.workers);
    auto start = [&](Worker& w, int idx) {
      w.slot = static_cast<int>(shared_.size());
      shared_.push_back(map_shared());
      w.pid = fork_worker(idx, w.slot);
      w.last = 0;
      w.since = std::chrono::steady_clock::now();
    };
    for (int i = 0; i != o_.workers; ++i) start(ws[i], i);

    int running = o_.workers;
    int unconfirmed = 0;
    bool failed = false;
    Fail failure;
    auto signal_others = [&](int sig) {
      for (Worker& w : ws)
        if (w.pid) kill(-w.pid, sig);
    };
    while (running > 0 && !failure.confirmed) {
      usleep(20000);
      for (int i = 0; i != o_.workers && !failure.confirmed; ++i) {
        Worker& w = ws[i];
        if (w.pid == 0) continue;
        int st;
        Fail f;
        const pid_t r = waitpid(w.pid, &st, WNOHANG);
        if (r == w.pid) {
          w.pid = 0;
          --running;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
          f = take_failure(shared_[w.slot], st, w.slot);
        } else {
          const std::uint64_t b = shared_[w.slot]->beat.load();
          const auto now = std::chrono::steady_clock::now();
          if (b != w.last) { w.last = b; w.since = now; }
          if (now - w.since <= std::chrono::seconds(o_.hang_seconds)) continue;
          kill(w.pid, SIGKILL);
          waitpid(w.pid, &st, 0);
          w.pid = 0;
          --running;
          f = take_failure(shared_[w.slot], 0, w.slot);
          f.tag = "hang";
          f.msg = "the case did not finish";
        }

        // A failure has to be reproduced, while nothing else runs. One that
        // cannot be is not reported as a violation, but does not vanish
        // either; the search then goes on, since there may be others.
        if (unconfirmed < 5) {
          signal_others(SIGSTOP);
          confirm(f);
          if (!f.confirmed) {
            signal_others(SIGCONT);
            for (Worker& x : ws) x.since = std::chrono::steady_clock::now();
          }
        }
        if (!failed || f.confirmed) failure = f;
        failed = true;
        if (!f.confirmed && ++unconfirmed < 5 &&
            std::chrono::steady_clock::now() - t0 < std::chrono::seconds(o_.max_seconds / 2)) {
          start(w, i);
          ++running;
        }
      }
    }
    for (Worker& w : ws)
      if (w.pid) { kill(w.pid, SIGKILL); waitpid(w.pid, nullptr, 0); }

    if (failure.confirmed) {
      const std::string kind = kind_of(failure.tag);
      shrink(failure, kind);
      Fail final_fail;
      if (attempt(failure.choices, final_fail, replay_seconds(), true)) {
        failure.tag = final_fail.tag;
        failure.msg = final_fail.msg;
        failure.trace = final_fail.trace;
        failure.log = final_fail.log;
      }
    }

    const double wall = std::chrono::duration<double>(
        std::chrono::steady_clock::now() - t0).count();
    write_result(failed ? &failure : nullptr, wall);
    return failed && failure.confirmed ? 1 : 0;
  }

private:
  struct Fail
  {
    std::string tag, msg, trace, log;
    std::vector<std::uint64_t> choices;
    bool confirmed = false;
  };

  static Shared* map_shared()
  {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return new (p) Shared();
  }

  std::string log_path(const std::string& id) const { return o_.scratch + "/log." + id; }

  void child_setup(const std::string& id)
  {
    const int fd = ::open(log_path(id).c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    dup2(fd, 2);
    ::close(fd);
    setpgid(0, 0);
    signal(SIGPIPE, SIG_IGN);
    umask(022);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    scratch_dir() = o_.scratch + "/w" + id;
    mkdir(scratch_dir().c_str(), 0700);
    setup(scratch_dir());
  }

  static bool run_one(Gen& g, Shared* sh)
  {
    Failure f;
    try {
      unsigned total = 0;
      const std::size_t k = g.below(subs().size());
      (void)total;
      const Sub& s = subs()[k];
      g.note("[%s]", s.name);
      s.fn(g);
      g.raise_later();
      return true;
    } catch (const Discard&) {
      return true;
    } catch (const Failure& x) {
      f = x;
    } catch (const std::exception& e) {
      f = Failure{"unexpected-exception", e.what()};
    } catch (...) {
      f = Failure{"unexpected-exception", "unknown"};
    }
    snprintf(sh->tag, sizeof sh->tag, "%s", f.tag.c_str());
    snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
    sh->state = 1;
    return false;
  }

  void confirm(Fail& f)
  {
    Fail again;
    // (a replay runs alone, and cases take milliseconds)
    int n = 0, total = 0;
    const auto give_up = std::chrono::steady_clock::now() + std::chrono::seconds(150);
    while (total < o_.replays && n < o_.need_replays && (total < 3 || std::chrono::steady_clock::now() < give_up)) {
      if (attempt(f.choices, again, replay_seconds(), false)) ++n;
      ++total;
    }
    if (n < o_.need_replays) return;
    again.choices = f.choices;
    f = again;
    f.confirmed = true;
  }

  pid_t fork_worker(int idx, int slot)
  {
    const pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(2); }
    if (p) return p;
    child_setup("k" + std::to_string(slot));
    worker(idx, slot);
    _exit(0);
  }

  // `slot` differs from `idx` for a worker that replaces one that failed.
  void worker(int idx, int slot)
  {
    Shared* sh = shared_[slot];
    Gen g(sh, Rng(mix(o_.seed, 1000 + slot)));
    Rng er(mix(o_.seed, 5000 + slot)); // for engine decisions
    Coverage& cov = Coverage::get();
    cov.enabled = o_.cov;
    std::vector<std::vector<std::uint64_t>> corpus;
    std::vector<std::vector<std::uint64_t>> samples;
    std::unordered_set<std::uint64_t> distinct;
    std::uint64_t evals = 0, nontrivial = 0, enumerated = 0;
    const auto t0 = std::chrono::steady_clock::now();

    auto one = [&](std::vector<std::uint64_t> prefix) {
      g.start(std::move(prefix), true, false);
      if (o_.cov) cov.reset();
      if (!run_one(g, sh)) _exit(1);
      sh->beat.fetch_add(1);
      ++evals;
      if (g.was_nontrivial()) {
        ++nontrivial;
        std::uint64_t h = sh->n;
        for (std::uint32_t i = 0; i != sh->n; ++i) h = mix(h, sh->choices[i]);
        if (distinct.insert(h).second && samples.size() < 3 &&
            (nontrivial % 7 == 1 || samples.empty()))
          samples.emplace_back(sh->choices, sh->choices + sh->n);
      }
      if (o_.cov && cov.collect() && sh->n < 4096) {
        corpus.emplace_back(sh->choices, sh->choices + sh->n);
        if (corpus.size() > 2000)
          corpus.erase(corpus.begin() + er.below(corpus.size()));
      }
    };

    // Exhaustive part, divided among the workers.
    for (std::size_t k = 0; k != subs().size(); ++k)
      for (std::uint64_t i = 0; i < subs()[k].enum_n; ++i)
        if (static_cast<int>(i % o_.workers) == idx) {
          one({k, i});
          ++enumerated;
        }

    unsigned total_weight = 0;
    for (auto& s : subs()) total_weight += s.weight;
    for (std::uint64_t c = 0; total_weight != 0 && c < o_.cases; ++c) {
      if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(o_.max_seconds))
        break;
      if (!corpus.empty() && er.below(2)) {
        one(mutate(corpus, er));
      } else {
        std::uint64_t r = er.below(total_weight), k = 0;
        while (r >= subs()[k].weight) r -= subs()[k++].weight;
        one({k});
      }
    }

    std::ofstream f(o_.scratch + "/part." + std::to_string(slot));
    f << evals << ' ' << nontrivial << ' ' << enumerated << ' '
      << cov.covered() << ' ' << corpus.size() << '\n';
    f << distinct.size();
    for (auto h : distinct) f << ' ' << h;
    f << '\n' << samples.size() << '\n';
    for (auto& s : samples) { f << s.size(); for (auto v : s) f << ' ' << v; f << '\n'; }
    f << g.labels().size() << '\n';
    for (auto& l : g.labels()) f << l.first << ' ' << l.second << '\n';
    f.close();
    sh->state = 2;
  }

  static std::vector<std::uint64_t> mutate(
      const std::vector<std::vector<std::uint64_t>>& corpus, Rng& r)
  {
    std::vector<std::uint64_t> v = corpus[r.below(corpus.size())];
    const int n = 1 + static_cast<int>(r.below(4));
    for (int i = 0; i != n && v.size() > 1; ++i) {
      const std::size_t p = 1 + r.below(v.size() - 1);
      switch (r.below(7)) {
        case 0: v[p] = r.next() >> r.below(64); break;
        case 1: v[p] += r.below(3) - 1; break;
        case 2: v[p] ^= 1ull << r.below(16); break;
        case 3: v.resize(p); break; // continue randomly from here
        case 4: v.erase(v.begin() + p, v.begin() + std::min(v.size(), p + 1 + r.below(8))); break;
        case 5: {
          const std::size_t l = std::min<std::size_t>(v.size() - p, 1 + r.below(16));
          std::vector<std::uint64_t> c(v.begin() + p, v.begin() + p + l);
          v.insert(v.begin() + p, c.begin(), c.end());
          break;
        }
        default: {
          const auto& o = corpus[r.below(corpus.size())];
          if (o.size() < 2 || o[0] != v[0]) break;
          const std::size_t q = 1 + r.below(o.size() - 1);
          v.resize(p);
          v.insert(v.end(), o.begin() + q, o.end());
          break;
        }
      }
    }
    if (v.size() > 6000) v.resize(6000);
    return v;
  }

  std::string read_log(const std::string& id)
  {
    std::ifstream f(log_path(id));
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    if (s.size() > 6000) s = s.substr(0, 4500) + "\n[...]\n" + s.substr(s.size() - 1000);
    return s;
  }

  Fail take_failure(Shared* sh, int st, const std::string& id)
  {
    Fail f;
    f.choices.assign(sh->choices, sh->choices + sh->n);
    if (sh->state == 1) {
      f.tag = sh->tag;
      f.msg = sh->msg;
    } else {
      f.tag = "crash";
      f.msg = WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st))
                              : strf("process exited with status %d", WEXITSTATUS(st));
    }
    f.trace = sh->trace;
    f.log = read_log(id);
    return f;
  }
  Fail take_failure(Shared* sh, int st, int idx)
  { return take_failure(sh, st, "k" + std::to_string(idx)); }

  int replay_seconds() const { return std::min(o_.hang_seconds, 30); }

  static std::string kind_of(const std::string& tag) { return tag; }

  // Runs one sequence in a fresh process. Returns whether it failed.
  bool attempt(const std::vector<std::uint64_t>& seq, Fail& out, int seconds, bool tracing)
  {
    static Shared* sh = map_shared();
    sh->state = 0;
    sh->n = 0;
    sh->trace_len = 0;
    sh->tag[0] = sh->msg[0] = sh->trace[0] = 0;
    const std::string id = "r";
    const pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0) {
      child_setup(id);
      Gen g(sh, Rng(1));
      g.start(seq, false, tracing);
      _exit(run_one(g, sh) ? 0 : 1);
    }
    const auto end = std::chrono::steady_clock::now() + std::chrono::seconds(seconds);
    int st = 0;
    bool hang = false;
    unsigned nap = 200;
    while (true) {
      const pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) break;
      if (std::chrono::steady_clock::now() > end) {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        hang = true;
        break;
      }
      usleep(nap);
      if (nap < 5000) nap *= 2;
    }
    remove_tree(o_.scratch + "/w" + id);
    if (hang) {
      out = Fail();
      out.tag = "hang";
      out.msg = "the case did not finish";
      out.choices.assign(sh->choices, sh->choices + sh->n);
      out.trace = sh->trace;
      return true;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    out = take_failure(sh, st, id);
    return true;
  }

  void shrink(Fail& f, const std::string& kind)
  {
    const auto end = std::chrono::steady_clock::now() + std::chrono::seconds(o_.shrink_seconds);
    const int tmo = kind == "hang" ? 5 : 10;
    std::vector<std::uint64_t> best = f.choices;
    int budget = kind == "hang" ? 6 : 1500;
    auto out_of_time = [&] { return budget <= 0 || std::chrono::steady_clock::now() > end; };
    auto attempt_seq = [&](const std::vector<std::uint64_t>& s) {
      if (out_of_time()) return false;
      --budget;
      Fail x;
      if (!attempt(s, x, tmo, false) || kind_of(x.tag) != kind) return false;
      std::vector<std::uint64_t> got = x.choices.size() <= s.size() ? x.choices : s;
      while (!got.empty() && got.back() == 0) got.pop_back();
      if (got.size() > best.size() || (got.size() == best.size() && got >= best)) return false;
      best = got;
      return true;
    };
    bool progress = true;
    while (progress && !out_of_time()) {
      progress = false;
      for (std::size_t len = std::max<std::size_t>(1, best.size() / 2); len >= 1; len /= 2) {
        for (std::size_t p = 1; p < best.size() && !out_of_time();) {
          auto s = best;
          s.erase(s.begin() + p, s.begin() + std::min(s.size(), p + len));
          if (attempt_seq(s)) progress = true;
          else p += len;
        }
        if (len == 1) break;
      }
      for (std::size_t p = 1; p < best.size() && !out_of_time(); ++p) {
        if (best[p] == 0) continue;
        auto s = best;
        s[p] = 0;
        if (attempt_seq(s)) { progress = true; continue; }
        // binary search downwards
        std::uint64_t lo = 0;
        while (p < best.size() && best[p] - lo > 1 && !out_of_time()) {
          const std::uint64_t mid = lo + (best[p] - lo) / 2;
          auto t = best;
          t[p] = mid;
          if (attempt_seq(t)) progress = true;
          else lo = mid;
        }
      }
      for (std::size_t p = 1; p + 1 < best.size() && !out_of_time(); ++p)
        if (best[p] > 0) { // lower a length and drop an element
          auto s = best;
          --s[p];
          s.erase(s.begin() + p + 1);
          if (attempt_seq(s)) progress = true;
        }
    }
    Fail x;
    if (attempt(best, x, replay_seconds(), false) && kind_of(x.tag) == kind) f.choices = best;
  }

  static std::string js(const std::string& s)
  {
    std::string r = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
      else if (c == '\n') r += "\\n";
      else if (c < 32 || c > 126) r += strf("\\u%04x", c);
      else r += static_cast<char>(c);
    }
    return r + "\"";
  }
  static std::string seq_js(const std::vector<std::uint64_t>& v)
  {
    std::string r = "[";
    for (std::size_t i = 0; i != v.size(); ++i)
      r += (i ? ", " : "") + std::to_string(v[i]);
    return r + "]";
  }

  void write_result(const Fail* f, double wall)
  {
    std::uint64_t evals = 0, nontrivial = 0, enumerated = 0, cov = 0, corpus = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::vector<std::uint64_t>> samples;
    std::map<std::string, std::uint64_t> labels;
    for (std::size_t i = 0; i != shared_.size(); ++i) {
      std::ifstream p(o_.scratch + "/part." + std::to_string(i));
      if (!p) {
        evals += shared_[i]->beat.load(); // worker was stopped early
        continue;
      }
      std::uint64_t a, b, c, d, e, n;
      p >> a >> b >> c >> d >> e >> n;
      evals += a; nontrivial += b; enumerated += c; cov = std::max(cov, d); corpus += e;
      while (n--) { p >> a; distinct.insert(a); }
      p >> n;
      while (n--) {
        std::vector<std::uint64_t> s;
        p >> a;
        while (a--) { p >> b; s.push_back(b); }
        samples.push_back(s);
      }
      p >> n;
      while (n--) { std::string l; p >> l >> a; labels[l] += a; }
    }
    std::ofstream o(o_.result);
    o << "{\n\"evaluations\": " << evals << ",\n\"nontrivial\": " << nontrivial
      << ",\n\"distinct_nontrivial\": " << distinct.size()
      << ",\n\"enumerated\": " << enumerated
      << ",\n\"coverage_edges\": " << cov << ",\n\"corpus\": " << corpus
      << ",\n\"wall_s\": " << wall << ",\n\"labels\": {";
    bool first = true;
    for (auto& l : labels) { o << (first ? "" : ", ") << js(l.first) << ": " << l.second; first = false; }
    o << "},\n\"samples\": [";
    first = true;
    int ns = 0;
    for (auto& s : samples) {
      if (ns++ == 6) break;
      Fail x;
      static Shared* sh = nullptr;
      (void)sh;
      std::string t = trace_of(s);
      if (t.size() > 1500) t = t.substr(0, 1500) + "...";
      o << (first ? "" : ",\n") << js(t);
      first = false;
    }
    o << "]";
    if (f) {
      o << ",\n\"failure\": {\"confirmed\": " << (f->confirmed ? "true" : "false")
        << ",\n\"tag\": " << js(f->tag) << ",\n\"message\": " << js(f->msg)
        << ",\n\"trace\": " << js(f->trace) << ",\n\"log\": " << js(f->log)
        << ",\n\"choices\": " << seq_js(f->choices) << "}";
    }
    o << "\n}\n";
  }

  std::string trace_of(const std::vector<std::uint64_t>& seq)
  {
    static Shared* sh = map_shared();
    sh->state = 0;
    sh->trace_len = 0;
    sh->trace[0] = 0;
    const pid_t p = fork();
    if (p < 0) return "";
    if (p == 0) {
      child_setup("t");
      Gen g(sh, Rng(1));
      g.start(seq, false, true);
      _exit(run_one(g, sh) ? 0 : 1);
    }
    int st;
    for (int i = 0; i != 2000; ++i) {
      if (waitpid(p, &st, WNOHANG) == p) return sh->trace;
      usleep(5000);
    }
    kill(p, SIGKILL);
    waitpid(p, &st, 0);
    return sh->trace;
  }

  int replay()
  {
    mkdir(o_.scratch.c_str(), 0700);
    std::ifstream f(o_.replay);
    std::vector<std::uint64_t> seq;
    std::uint64_t v;
    while (f >> v) seq.push_back(v);
    Fail x;
    int n = 0;
    for (int i = 0; i != o_.replays && n == 0; ++i)
      n += attempt(seq, x, o_.hang_seconds * 2, true);
    if (n) {
      printf("FAIL tag=%s\n%s\n--- trace\n%s--- log\n%s\n", x.tag.c_str(),
             x.msg.c_str(), x.trace.c_str(), x.log.c_str());
      return 1;
    }
    printf("PASS\n%s", trace_of(seq).c_str());
    return 0;
  }

  Options o_;
  std::vector<Shared*> shared_;
};

} // namespace pbt

// --- coverage callbacks (only used if built with -fsanitize-coverage) -------
#if defined(PBT_COVERAGE)
extern "C" {
void __sanitizer_cov_8bit_counters_init(char* a, char* b)
{
  auto& c = pbt::Coverage::get();
  for (int i = 0; i != c.nranges; ++i)
    if (c.ranges[i].a == reinterpret_cast<std::uint8_t*>(a)) return;
  if (a != b && c.nranges < 64)
    c.ranges[c.nranges++] = {reinterpret_cast<std::uint8_t*>(a), reinterpret_cast<std::uint8_t*>(b)};
}
void __sanitizer_cov_pcs_init(const std::uintptr_t*, const std::uintptr_t*) {}
void __sanitizer_cov_trace_cmp1(std::uint8_t, std::uint8_t) {}
void __sanitizer_cov_trace_cmp2(std::uint16_t, std::uint16_t) {}
void __sanitizer_cov_trace_cmp4(std::uint32_t, std::uint32_t) {}
void __sanitizer_cov_trace_cmp8(std::uint64_t, std::uint64_t) {}
void __sanitizer_cov_trace_const_cmp1(std::uint8_t a, std::uint8_t) { pbt::Coverage::get().add_const(a); }
void __sanitizer_cov_trace_const_cmp2(std::uint16_t a, std::uint16_t) { pbt::Coverage::get().add_const(a); }
void __sanitizer_cov_trace_const_cmp4(std::uint32_t a, std::uint32_t) { pbt::Coverage::get().add_const(a); }
void __sanitizer_cov_trace_const_cmp8(std::uint64_t a, std::uint64_t) { pbt::Coverage::get().add_const(a); }
void __sanitizer_cov_trace_switch(std::uint64_t, std::uint64_t* cases)
{
  for (std::uint64_t i = 0; i < cases[0] && i < 64; ++i)
    pbt::Coverage::get().add_const(cases[2 + i]);
}
void __sanitizer_cov_trace_div4(std::uint32_t) {}
void __sanitizer_cov_trace_div8(std::uint64_t) {}
void __sanitizer_cov_trace_gep(std::uintptr_t) {}
}
#endif

int main(int argc, char** argv)
{
  pbt::Options o;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--workers") o.workers = atoi(val().c_str());
    else if (a == "--cases") o.cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--scratch") o.scratch = val();
    else if (a == "--result") o.result = val();
    else if (a == "--replay") o.replay = val();
    else if (a == "--cov") o.cov = true;
    else if (a == "--hang") o.hang_seconds = atoi(val().c_str());
    else if (a == "--max") o.max_seconds = atoi(val().c_str());
    else if (a == "--replays") o.replays = atoi(val().c_str());
    else if (a == "--need") o.need_replays = atoi(val().c_str());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  return pbt::Engine(o).run();
}

#if defined(PBT_COVERAGE) && defined(__clang__)
# pragma clang attribute pop
#endif

#endif
