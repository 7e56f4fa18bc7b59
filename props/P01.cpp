// P01: a linear buffer behaves like a byte vector with a maximum size.
#include "compat.hpp"
#include "asioext/linear_buffer.hpp"
#include <map>
#include <sys/mman.h>

void pbt::setup(const std::string&) {}

namespace {

typedef asioext::linear_buffer Buf;

struct Slot
{
  Buf b;
  std::string m;          // model contents
  std::size_t max;        // model maximum size
};

void compare(Slot& s, const char* when)
{
  const Buf& c = s.b;
  PBT_CHECK("size", s.b.size() == s.m.size(), "%s: size %zu, expected %zu", when, s.b.size(), s.m.size());
  PBT_CHECK("max-size", s.b.max_size() == s.max, "%s: max_size %zu expected %zu", when, s.b.max_size(), s.max);
  PBT_CHECK("empty", s.b.empty() == s.m.empty(), "%s", when);
  PBT_CHECK("capacity", s.b.capacity() >= s.b.size(), "%s: capacity %zu size %zu", when, s.b.capacity(), s.b.size());
  PBT_CHECK("capacity-max", s.b.capacity() <= s.max, "%s: capacity %zu max %zu", when, s.b.capacity(), s.max);
  PBT_CHECK("iterators", static_cast<std::size_t>(c.end() - c.begin()) == s.m.size() &&
            s.b.begin() == s.b.data() && c.begin() == c.data() && s.b.end() == s.b.begin() + s.m.size(), "%s", when);
  if (!s.m.empty()) {
    const std::size_t i = s.m.size() / 3;
    PBT_CHECK("index", &c[i] == c.data() + i && &s.b[i] == s.b.data() + i, "%s", when);
  }
  if (!s.m.empty() && memcmp(c.data(), s.m.data(), s.m.size()) != 0) {
    std::size_t i = 0;
    while (c.data()[i] == static_cast<unsigned char>(s.m[i])) ++i;
    pbt::fail("contents", pbt::strf("%s: byte %zu of %zu is %u, expected %u", when, i, s.m.size(), c.data()[i],
              static_cast<unsigned char>(s.m[i])));
  }
}

PBT_PROP(history, 30)
{
  std::vector<Slot> slots;
  slots.reserve(3);
  const int nslots = 1 + static_cast<int>(g.below(3));
  const bool small = g.flip();
  const std::size_t lim = small ? 40 : 5000;
  const std::size_t alloc_max = Buf().max_size();
  for (int i = 0; i != nslots; ++i) {
    switch (g.below(3)) {
      case 0: slots.push_back(Slot{Buf(), "", alloc_max}); g.note("b%d()", i); break;
      case 1: {
        const std::size_t n = g.size(lim);
        slots.push_back(Slot{Buf(n), g.bytes(n), alloc_max});
        g.note("b%d(%zu)", i, n);
        break;
      }
      default: {
        const std::size_t n = g.size(lim);
        const std::size_t max = n + g.size(lim);
        g.note("b%d(%zu, max %zu)", i, n, max);
        slots.push_back(Slot{Buf(n, max), g.bytes(n), max});
        break;
      }
    }
    Slot& s = slots.back();
    PBT_CHECK("size", s.b.size() == s.m.size(), "initial size");
    std::copy(s.m.begin(), s.m.end(), s.b.begin());
    compare(s, "initially");
  }

  int changes = 0;
  bool edge = false;
  const std::size_t nops = 1 + g.below(24);
  for (std::size_t step = 0; step != nops; ++step) {
    const std::size_t si = g.below(slots.size());
    Slot& s = slots[si];
    const std::size_t cap = s.b.capacity(), size = s.m.size();
    const std::uint8_t* const ptr = s.b.data();
    // A growth amount: arbitrary, up to the capacity, up to the maximum, or beyond.
    auto amount = [&]() -> std::size_t {
      switch (g.weighted({6, 2, 2, 1, 1})) {
        case 0: return g.size(lim);
        case 1: return cap - size + g.below(2);
        case 2: return s.max - size <= 2 * lim ? s.max - size + g.below(2) : g.size(lim);
        case 3: return cap - size > 1 ? cap - size - 1 : 0;
        default: return g.size(lim);
      }
    };
    const std::size_t op = g.weighted({6, 7, 3, 4, 2, 5, 1, 2, 2, 2, 2});
    bool content_kept = true, threw = false, fits = true;
    std::size_t want = 0; // size needed
    try {
      switch (op) {
        case 0: {
          const std::size_t n = amount();
          const std::string d = g.bytes(n);
          g.note("b%zu.append(%zu) [size %zu cap %zu max %zu]", si, n, size, cap, s.max);
          want = size + n;
          s.b.append(d.data(), n);
          if (want <= s.max) s.m += d;
          break;
        }
        case 1: {
          const std::size_t n = amount(), at = g.flip() ? g.below(size + 1) : g.pick({std::size_t(0), size});
          const std::string d = g.bytes(n);
          const bool it = g.flip();
          g.note("b%zu.insert(%zu, %zu%s) [size %zu cap %zu max %zu]", si, at, n, it ? ", iterator" : "", size, cap, s.max);
          want = size + n;
          if (it) s.b.insert(s.b.begin() + at, d.data(), n);
          else s.b.insert(at, d.data(), n);
          if (want <= s.max) s.m.insert(at, d);
          break;
        }
        case 2: {
          if (size == 0) continue;
          const std::size_t at = g.below(size);
          const bool it = g.flip();
          g.note("b%zu.erase(%zu%s) [size %zu]", si, at, it ? ", iterator" : "", size);
          if (it) s.b.erase(s.b.begin() + at);
          else s.b.erase(at);
          s.m.erase(at, 1);
          break;
        }
        case 3: {
          const std::size_t a = g.below(size + 1), b = a + (g.flip() ? g.below(size - a + 1) : size - a);
          const bool it = g.flip();
          g.note("b%zu.erase(%zu, %zu%s) [size %zu]", si, a, b, it ? ", iterator" : "", size);
          if (it) s.b.erase(s.b.begin() + a, s.b.begin() + b);
          else s.b.erase(a, b);
          s.m.erase(a, b - a);
          break;
        }
        case 4: {
          want = g.flip() ? size + amount() : g.size(2 * lim);
          g.note("b%zu.reserve(%zu) [size %zu cap %zu max %zu]", si, want, size, cap, s.max);
          s.b.reserve(want);
          if (want <= s.max)
            PBT_CHECK("reserve", s.b.capacity() >= want, "capacity %zu after reserve(%zu)", s.b.capacity(), want);
          break;
        }
        case 5: {
          want = g.flip() ? size + amount() : g.size(2 * lim);
          g.note("b%zu.resize(%zu) [size %zu cap %zu max %zu]", si, want, size, cap, s.max);
          s.b.resize(want);
          if (want <= s.max) {
            PBT_CHECK("size", s.b.size() == want, "size %zu after resize(%zu)", s.b.size(), want);
            if (want <= size) s.m.resize(want);
            else {
              // Old bytes are kept; the new ones are indeterminate, so define them.
              PBT_CHECK("contents", size == 0 || memcmp(s.b.data(), s.m.data(), size) == 0, "resize lost data");
              const std::string d = g.bytes(want - size);
              s.m += d;
              for (std::size_t i = size; i != want; ++i) s.b[i] = static_cast<std::uint8_t>(d[i - size]);
            }
          }
          break;
        }
        case 6:
          g.note("b%zu.clear()", si);
          s.b.clear();
          s.m.clear();
          PBT_CHECK("clear-capacity", s.b.capacity() == cap && s.b.data() == ptr, "clear() changed the storage");
          break;
        case 7: { // copy assignment (maybe from itself)
          const std::size_t oi = g.below(slots.size());
          Slot& o = slots[oi];
          g.note("b%zu = b%zu [size %zu, other %zu, cap %zu max %zu]", si, oi, size, o.m.size(), cap, s.max);
          want = o.m.size();
          content_kept = oi == si;
          const std::string om = o.m;
          s.b = o.b;
          if (want <= s.max) s.m = om;
          compare(o, "copied-from buffer");
          break;
        }
        case 8: { // move assignment
          const std::size_t oi = g.below(slots.size());
          if (oi == si) continue; // self-move: unspecified
          Slot& o = slots[oi];
          g.note("b%zu = move(b%zu) [size %zu, other %zu]", si, oi, size, o.m.size());
          content_kept = false;
          s.b = std::move(o.b);
          s.m = o.m;
          s.max = o.max;
          o.m.clear();
          PBT_CHECK("moved-from", o.b.capacity() == 0 && o.b.size() == 0 && o.b.empty(), "moved-from buffer not empty");
          o.max = o.b.max_size(); // not specified
          break;
        }
        case 9: { // through copies
          g.note("b%zu = copy construct, destroy original", si);
          content_kept = false;
          Buf c(s.b);
          compare(s, "copied-from buffer");
          Slot t{Buf(c), s.m, c.max_size()};
          PBT_CHECK("max-size", c.max_size() == s.max, "copy has max_size %zu, original %zu", c.max_size(), s.max);
          compare(t, "copy");
          if (!t.m.empty()) {
            PBT_CHECK("independent", t.b.data() != s.b.data() && c.data() != s.b.data(), "copies share storage");
            t.b[0] ^= 0xff; // must not be visible in the original
            compare(s, "original after changing the copy");
            t.b[0] ^= 0xff;
          }
          using std::swap;
          const std::size_t max = s.max;
          swap(s.b, t.b);
          s.max = max;
          break;
        }
        default: { // through move construction
          g.note("b%zu = move construct", si);
          content_kept = false;
          Buf c(std::move(s.b));
          PBT_CHECK("moved-from", s.b.capacity() == 0 && s.b.size() == 0 && s.b.empty(), "moved-from buffer not empty");
          PBT_CHECK("move", c.size() == size && c.data() == ptr && c.capacity() == cap, "storage not moved");
          if (s.b.max_size() > 0) {
            s.b.append("x", 1); // usable again
            PBT_CHECK("moved-from", s.b.size() == 1 && s.b[0] == 'x', "moved-from buffer unusable");
          }
          s.b = std::move(c);
          break;
        }
      }
    } catch (const std::length_error&) {
      threw = true;
    }
    fits = want <= s.max;
    PBT_CHECK("length-error", threw == !fits, "%s a length_error (needs %zu, max %zu)",
              threw ? "threw" : "did not throw", want, s.max);
    compare(s, "after the operation");
    if (threw) {
      PBT_CHECK("unchanged", s.b.data() == ptr && s.b.capacity() == cap, "failed growth changed the storage");
      edge = true;
    } else if (content_kept) {
      PBT_CHECK("capacity-shrunk", s.b.capacity() >= cap, "capacity %zu -> %zu", cap, s.b.capacity());
      if (want <= cap || op == 2 || op == 3 || op == 6)
        PBT_CHECK("relocated", s.b.data() == ptr && s.b.capacity() == cap, "reallocated although the data fits");
      if (want > cap) edge = true;
      ++changes;
    } else {
      if (op == 7 && threw == false)
        PBT_CHECK("capacity-shrunk", s.b.capacity() >= cap, "capacity %zu -> %zu", cap, s.b.capacity());
      ++changes;
    }
    auto cb = static_cast<const Buf&>(s.b).as_buffers();
    auto mb = s.b.as_buffers();
    auto b1 = asioext::buffer(s.b);
    auto b2 = asioext::buffer(static_cast<const Buf&>(s.b));
    PBT_CHECK("buffers", cb.data() == s.b.data() && cb.size() == size_t(s.b.size()) &&
              mb.data() == s.b.data() && mb.size() == s.b.size() && b1.data() == s.b.data() &&
              b1.size() == s.b.size() && b2.data() == s.b.data() && b2.size() == s.b.size(), "");
    for (auto& x : slots) compare(x, "some buffer");
  }
  for (auto& x : slots) {
    asioext::linear_buffer::iterator it = x.b.begin();
    std::size_t n = 0;
    for (; it != x.b.end(); ++it) ++n;
    PBT_CHECK("iteration", n == x.m.size(), "");
  }
  if (changes >= 4 && edge) g.nontrivial();
}

// Growth is amortised: a long run of small appends needs few reallocations.
PBT_PROP(amortised, 3)
{
  Buf b;
  std::size_t n = 0, moves = 0;
  const std::size_t total = 2000 + g.below(3000), chunk = 1 + g.below(16);
  std::string m;
  while (n < total) {
    const auto cap = b.capacity();
    const std::string d = g.bytes(chunk);
    b.append(d.data(), d.size());
    m += d;
    n += chunk;
    moves += b.capacity() != cap;
  }
  g.note("%zu bytes in chunks of %zu: %zu reallocations", n, chunk, moves);
  PBT_CHECK("amortised", moves <= 24, "%zu reallocations for %zu bytes", moves, n);
  PBT_CHECK("contents", b.size() == m.size() && memcmp(b.data(), m.data(), m.size()) == 0, "");
  g.nontrivial();
}

// Address space instead of memory.
template <typename T> struct Reserve
{
  typedef T value_type;
  Reserve() noexcept {}
  template <typename U> Reserve(const Reserve<U>&) noexcept {}
  T* allocate(std::size_t n)
  {
    if (n > (1ull << 38)) throw std::bad_alloc();
    void* p = ::mmap(nullptr, n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw std::bad_alloc();
    return static_cast<T*>(p);
  }
  void deallocate(T* p, std::size_t n) noexcept { ::munmap(p, n + 1); }
  bool operator==(const Reserve&) const { return true; }
  bool operator!=(const Reserve&) const { return false; }
};

// Buffers of several GiB, of which only a few bytes are ever used.
PBT_PROP(huge, 1)
{
  typedef asioext::basic_linear_buffer<Reserve<std::uint8_t>> Big;
  struct Slot { Big b; std::uint64_t size = 0; std::map<std::uint64_t, std::uint8_t> known; };
  Slot slots[2];
  static const std::uint64_t big[] = {1ull << 31, 1ull << 32, 3ull << 31, 1ull << 33, 1ull << 35};
  const std::uint64_t small = 10000;
  auto gen = [&] { return g.chance(1, 3) ? g.size(small) : g.pick(big) + g.below(40) - 20; };
  auto drop = [](Slot& s, std::uint64_t from) { s.known.erase(s.known.lower_bound(from), s.known.end()); };
  bool large = false;
  const std::size_t n = g.range(2, 14);
  for (std::size_t i = 0; i != n; ++i) {
    Slot& s = slots[g.below(2)];
    Slot& o = slots[&s == slots];
    const std::uint64_t cap = s.b.capacity();
    const int id = int(&s - slots);
    switch (g.below(9)) {
      case 0: case 1: { // (copying what is there has to be affordable)
        const std::uint64_t k = gen();
        if (k > cap && s.size > small) break;
        g.note("b%d.reserve(%llu)", id, (unsigned long long)k);
        s.b.reserve(k);
        PBT_CHECK("reserved", s.b.capacity() >= std::max(k, cap), "capacity %zu", s.b.capacity());
        break;
      }
      case 2: case 3: {
        const std::uint64_t k = gen();
        if (k > cap && s.size > small) break;
        g.note("b%d.resize(%llu)", id, (unsigned long long)k);
        s.b.resize(k);
        s.size = k;
        drop(s, k);
        break;
      }
      case 4: {
        const std::string d = g.bytes(g.range(1, 20));
        if (s.size + d.size() > cap && s.size > small) break;
        g.note("b%d.append(%zu)", id, d.size());
        s.b.append(d.data(), d.size());
        for (char c : d) s.known[s.size++] = (std::uint8_t)c;
        break;
      }
      case 5: {
        if (s.size == 0) break;
        const std::uint64_t at = g.flip() ? s.size - 1 - g.below(std::min<std::uint64_t>(s.size, 50)) : g.below(s.size);
        g.note("b%d[%llu]", id, (unsigned long long)at);
        const std::uint8_t v = (std::uint8_t)g.below(256);
        s.b[at] = v;
        s.known[at] = v;
        break;
      }
      case 6: { // near the end
        const std::uint64_t end = g.below(std::min<std::uint64_t>(s.size, 50) + 1), at = s.size - end;
        const std::uint64_t k = g.below(end + 1);
        g.note("b%d.erase(%llu, %llu)", id, (unsigned long long)at, (unsigned long long)(at + k));
        s.b.erase(at, at + k);
        std::map<std::uint64_t, std::uint8_t> m;
        for (auto& x : s.known) {
          if (x.first < at) m.insert(x);
          else if (x.first >= at + k) m[x.first - k] = x.second;
        }
        s.known = m;
        s.size -= k;
        break;
      }
      case 7: {
        g.note("b%d = move(b%d)", id, 1 - id);
        if (g.flip()) {
          s.b = std::move(o.b);
          s.size = o.size;
          s.known = o.known;
          o.size = 0;
          o.known.clear();
        } else {
          std::swap(s.b, o.b);
          std::swap(s.size, o.size);
          std::swap(s.known, o.known);
        }
        break;
      }
      default: {
        const std::uint64_t end = g.below(std::min<std::uint64_t>(s.size, 50) + 1), at = s.size - end;
        const std::string d = g.bytes(g.range(1, 20));
        if (s.size + d.size() > cap && s.size > small) break;
        g.note("b%d.insert(%zu, %llu)", id, d.size(), (unsigned long long)at);
        s.b.insert(std::size_t(at), d.data(), d.size());
        std::map<std::uint64_t, std::uint8_t> m;
        for (auto& x : s.known) m[x.first < at ? x.first : x.first + d.size()] = x.second;
        for (std::size_t j = 0; j != d.size(); ++j) m[at + j] = (std::uint8_t)d[j];
        s.known = m;
        s.size += d.size();
        break;
      }
    }
    for (auto& x : slots) {
      PBT_CHECK("size", x.b.size() == x.size && x.b.empty() == (x.size == 0) && std::uint64_t(x.b.end() - x.b.begin()) == x.size &&
                x.b.as_buffers().size() == x.size, "size %zu, expected %llu", x.b.size(), (unsigned long long)x.size);
      PBT_CHECK("capacity", x.b.capacity() >= x.size, "capacity %zu, size %llu", x.b.capacity(), (unsigned long long)x.size);
      for (auto& y : x.known)
        PBT_CHECK("contents", static_cast<const Big&>(x.b)[y.first] == y.second, "byte %llu", (unsigned long long)y.first);
      large |= x.size > 0xffffffffull;
    }
  }
  if (large) g.nontrivial();
}

} // namespace
