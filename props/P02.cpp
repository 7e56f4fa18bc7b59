// P02: linear buffers own their storage exactly once, whatever the allocator.
#include "compat.hpp"
#include "asioext/linear_buffer.hpp"

void pbt::setup(const std::string&) {}

namespace {

// All blocks currently allocated, across allocators.
struct Heap
{
  struct Block { std::size_t n; int id; };
  std::map<void*, Block> live;
  std::string error;
  int fail_in = -1; // fail the allocation when this reaches 0
  bool failed = false;
  std::uint64_t allocations = 0;
};
Heap* heap;

// Propagate: propagate_on_container_move_assignment. Allocators with the same
// id are equal.
template <typename T, bool Propagate>
struct TAlloc
{
  typedef T value_type;
  typedef std::integral_constant<bool, Propagate> propagate_on_container_move_assignment;
  typedef std::false_type is_always_equal;
  template <typename U> struct rebind { typedef TAlloc<U, Propagate> other; };
  int id;
  explicit TAlloc(int i = 0) : id(i) {}
  template <typename U> TAlloc(const TAlloc<U, Propagate>& o) : id(o.id) {}
  T* allocate(std::size_t n)
  {
    ++heap->allocations;
    if (heap->fail_in >= 0 && heap->fail_in-- == 0) {
      heap->failed = true;
      throw std::bad_alloc();
    }
    if (n > (1u << 28)) throw std::bad_alloc();
    T* p = static_cast<T*>(::operator new(n * sizeof(T)));
    memset(static_cast<void*>(p), 0xcd, n * sizeof(T));
    heap->live[p] = Heap::Block{n, id};
    return p;
  }
  void deallocate(T* p, std::size_t n)
  {
    if (!p) { err(pbt::strf("deallocate(null, %zu)", n)); return; }
    auto it = heap->live.find(p);
    if (it == heap->live.end()) { err("deallocating a block that is not allocated"); return; }
    if (it->second.n != n)
      err(pbt::strf("block of %zu deallocated with size %zu", it->second.n, n));
    if (it->second.id != id)
      err(pbt::strf("block of allocator %d deallocated through allocator %d", it->second.id, id));
    heap->live.erase(it);
    ::operator delete(p);
  }
  static void err(const std::string& s) { if (heap->error.empty()) heap->error = s; }
  friend bool operator==(const TAlloc& a, const TAlloc& b) { return a.id == b.id; }
  friend bool operator!=(const TAlloc& a, const TAlloc& b) { return a.id != b.id; }
};

template <bool Propagate>
void history(Gen& g)
{
  typedef asioext::basic_linear_buffer<TAlloc<std::uint8_t, Propagate>> Buf;
  typedef TAlloc<std::uint8_t, Propagate> A;
  Heap h;
  heap = &h;
  bool moved_unequal = false, moved = false, copied = false;
  int changes = 0;
  {
    struct Slot { std::unique_ptr<Buf> b; std::string m; int id; };
    std::vector<Slot> slots(1 + g.below(3));
    const std::size_t lim = g.pick({std::size_t(16), std::size_t(300), std::size_t(3000)});

    auto check = [&](const char* when) {
      PBT_CHECK("heap", h.error.empty(), "%s: %s", when, h.error.c_str());
      std::size_t owned = 0;
      for (auto& s : slots) {
        PBT_CHECK("size", s.b->size() == s.m.size(), "%s: size %zu expected %zu", when, s.b->size(), s.m.size());
        PBT_CHECK("contents", s.m.empty() || memcmp(s.b->data(), s.m.data(), s.m.size()) == 0, "%s", when);
        if (s.b->data()) {
          auto it = h.live.find(s.b->data());
          PBT_CHECK("ownership", it != h.live.end(), "%s: buffer points to memory that is not allocated", when);
          PBT_CHECK("capacity", it->second.n == s.b->capacity(), "%s: capacity %zu of a block of %zu", when, s.b->capacity(), it->second.n);
          if (s.id < 0) s.id = it->second.id;
          PBT_CHECK("allocator", it->second.id == s.id, "%s: block from allocator %d in a buffer with allocator %d", when, it->second.id, s.id);
          ++owned;
        } else {
          PBT_CHECK("capacity", s.b->capacity() == 0, "%s: capacity %zu without memory", when, s.b->capacity());
        }
        for (auto& t : slots)
          PBT_CHECK("shared", &t == &s || !t.b->data() || t.b->data() != s.b->data(), "%s: two buffers share storage", when);
      }
      PBT_CHECK("leak", h.live.size() == owned, "%s: %zu blocks allocated, %zu owned", when, h.live.size(), owned);
    };
    auto fill = [&](Slot& s, std::size_t from) {
      const std::string d = g.bytes(s.b->size() - from);
      for (std::size_t i = 0; i != d.size(); ++i) (*s.b)[from + i] = d[i];
      s.m.resize(from);
      s.m += d;
    };

    for (auto& s : slots) {
      s.id = static_cast<int>(g.below(3));
      if (g.flip()) {
        const std::size_t n = g.size(lim);
        g.note("buffer(allocator %d, %zu)", s.id, n);
        s.b.reset(new Buf(A(s.id), n));
        fill(s, 0);
      } else {
        g.note("buffer(allocator %d)", s.id);
        s.b.reset(new Buf(A(s.id)));
        PBT_CHECK("no-memory", s.b->data() == nullptr && s.b->capacity() == 0, "empty buffer has memory");
      }
    }
    check("initially");

    const std::size_t nops = 1 + g.below(16);
    for (std::size_t step = 0; step != nops; ++step) {
      const std::size_t si = g.below(slots.size()), oi = g.below(slots.size());
      Slot &s = slots[si], &o = slots[oi];
      // Inject a failing allocation into this operation?
      h.failed = false;
      h.fail_in = g.chance(1, 4) ? 0 : -1;
      const std::size_t size = s.m.size();
      const auto op = g.weighted({4, 3, 3, 2, 5, 6, 3, 3, 2, 2});
      const char* const f = h.fail_in >= 0 ? " (allocation fails)" : "";
      bool bad_alloc = false;
      try {
        switch (op) {
          case 0: {
            const std::string d = g.bytes(g.size(lim));
            g.note("b%zu.append(%zu)%s", si, d.size(), f);
            s.b->append(d.data(), d.size());
            s.m += d;
            break;
          }
          case 1: {
            const std::string d = g.bytes(g.size(lim));
            const std::size_t at = g.below(size + 1);
            g.note("b%zu.insert(%zu, %zu)%s", si, at, d.size(), f);
            s.b->insert(at, d.data(), d.size());
            s.m.insert(at, d);
            break;
          }
          case 2: {
            const std::size_t n = g.size(2 * lim);
            g.note("b%zu.resize(%zu)%s", si, n, f);
            s.b->resize(n);
            if (n > size) fill(s, size);
            else s.m.resize(n);
            break;
          }
          case 3: {
            const std::size_t n = g.size(2 * lim);
            g.note("b%zu.reserve(%zu)%s", si, n, f);
            s.b->reserve(n);
            break;
          }
          case 4:
            g.note("b%zu = b%zu%s", si, oi, f);
            *s.b = *o.b;
            s.m = o.m;
            copied = true;
            break;
          case 5: {
            if (si == oi) break;
            h.fail_in = -1; // noexcept
            g.note("b%zu = move(b%zu) [allocators %d, %d; sizes %zu, %zu; capacities %zu, %zu]", si, oi, s.id, o.id,
                   size, o.m.size(), s.b->capacity(), o.b->capacity());
            moved = true;
            moved_unequal |= s.id != o.id && o.b->data() && s.b->data();
            const auto* ptr = o.b->data();
            *s.b = std::move(*o.b);
            s.m = std::move(o.m);
            o.m.clear();
            if (Propagate) s.id = o.id;
            PBT_CHECK("moved-from", o.b->data() == nullptr && o.b->capacity() == 0 && o.b->empty(), "moved-from buffer not empty");
            if (s.id == o.id && s.id >= 0)
              PBT_CHECK("moved", s.b->data() == ptr, "contents were copied instead of moved");
            break;
          }
          case 6: { // copy construction; which allocator the copy gets is not specified
            g.note("b%zu replaced by a copy of b%zu%s", si, oi, f);
            std::unique_ptr<Buf> n(new Buf(*o.b));
            h.fail_in = -1;
            s.b = std::move(n);
            s.m = o.m;
            s.id = -1;
            copied = true;
            break;
          }
          case 7: {
            if (si == oi) break;
            h.fail_in = -1;
            g.note("b%zu replaced by a buffer move-constructed from b%zu", si, oi);
            s.b.reset(new Buf(std::move(*o.b)));
            s.m = std::move(o.m);
            o.m.clear();
            s.id = o.id;
            PBT_CHECK("moved-from", o.b->data() == nullptr && o.b->capacity() == 0 && o.b->empty(), "moved-from buffer not empty");
            moved = true;
            break;
          }
          case 8: {
            const std::size_t n = g.size(lim);
            const int id = static_cast<int>(g.below(3));
            g.note("b%zu replaced by buffer(allocator %d, %zu)%s", si, id, n, f);
            std::unique_ptr<Buf> p(new Buf(A(id), n, n + g.size(lim)));
            h.fail_in = -1;
            s.b = std::move(p);
            s.id = id;
            fill(s, 0);
            break;
          }
          default: {
            if (size == 0) break;
            const std::size_t a = g.below(size);
            g.note("b%zu.erase(%zu, end)", si, a);
            s.b->erase(a, size);
            s.m.resize(a);
            break;
          }
        }
      } catch (const std::bad_alloc&) {
        bad_alloc = true;
        g.note("  -> bad_alloc");
      } catch (const std::length_error&) {
        g.note("  -> length_error"); // from a maximum size; checked by P01
        PBT_CHECK("length-error", !h.failed, "allocation failure reported as length_error");
      }
      h.fail_in = -1;
      PBT_CHECK("bad-alloc", bad_alloc == h.failed, "%s", h.failed ? "allocation failure not reported" : "unexpected bad_alloc");
      check("after the operation");
      ++changes;
    }
  }
  PBT_CHECK("heap", h.error.empty(), "on destruction: %s", h.error.c_str());
  PBT_CHECK("leak", h.live.empty(), "%zu blocks leaked", h.live.size());
  if (moved_unequal) g.label("moved_between_unequal_allocators");
  if (copied) g.label("copied");
  if (changes >= 3 && h.allocations >= 2 && (moved || copied)) g.nontrivial();
}

PBT_PROP(propagating, 5) { history<true>(g); }
PBT_PROP(non_propagating, 5) { history<false>(g); }

// Contents of a copy do not depend on the original's lifetime (and vice versa),
// with the default allocator, under ASan.
PBT_PROP(independent_copies, 1)
{
  typedef asioext::linear_buffer Buf;
  const std::string d = g.bytes(g.size(2000));
  std::unique_ptr<Buf> a(new Buf());
  if (g.flip()) a->reserve(g.size(3000));
  a->append(d.data(), d.size());
  std::unique_ptr<Buf> b;
  const auto how = g.below(3);
  g.note("%zu bytes, copied by method %d", d.size(), int(how));
  const std::string e = g.bytes(g.size(2000));
  if (how == 0) b.reset(new Buf(*a));
  else { b.reset(new Buf()); b->append(e.data(), e.size()); *b = *a; }
  if (how == 2) b->append(e.data(), e.size());
  const std::string expect = how == 2 ? d + e : d;
  if (g.flip()) { a->clear(); a->append(e.data(), e.size()); }
  if (g.flip()) a.reset();
  PBT_CHECK("contents", b->size() == expect.size() && (expect.empty() || !memcmp(b->data(), expect.data(), expect.size())), "");
  if (!d.empty()) g.nontrivial();
}

} // namespace
