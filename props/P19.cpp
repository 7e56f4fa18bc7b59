// P19: unique_handler against a model of which handler each object stores, with
// handlers of various sizes that track their lifetimes, memory and invocations.
#include "compat.hpp"
#include "asioext/unique_handler.hpp"
#include "asioext/exception.hpp"
#include <functional>
#include <map>
#include <memory>

void pbt::setup(const std::string&) {}

namespace {

typedef asioext::unique_handler<void(int, const std::string&)> H2;
typedef asioext::unique_handler<void(std::unique_ptr<int>)> HM; // move-only arguments
typedef asioext::unique_handler<void()> H0;

struct World;
World* world = nullptr;

// One handler given to the library.
struct Info
{
  int id = 0, objects = 0, invoked = 0;
  std::map<const void*, int> instances; // including those moved from
  long blocks = 0, bytes = 0;
  bool fail = false; // the next allocation
  std::string arg;
  std::function<void()> during; // from within its invocation
  std::function<void()> at_end; // when the last object is destroyed
  std::map<void*, std::size_t> live;
};

template <typename T>
struct Alloc
{
  typedef T value_type;
  Info* i;
  explicit Alloc(Info* x) : i(x) {}
  template <typename U> Alloc(const Alloc<U>& o) : i(o.i) {}
  T* allocate(std::size_t n)
  {
    if (i->fail) throw std::bad_alloc();
    void* p = ::operator new(n * sizeof(T));
    i->live[p] = n;
    return static_cast<T*>(p);
  }
  void deallocate(T* p, std::size_t n);
  template <typename U> bool operator==(const Alloc<U>& o) const { return i == o.i; }
  template <typename U> bool operator!=(const Alloc<U>& o) const { return i != o.i; }
};

struct World
{
  Gen& g;
  std::vector<std::unique_ptr<Info>> infos;
  std::string problem;
  void bad(const std::string& s) { if (problem.empty()) problem = s; }
};

template <typename T>
void Alloc<T>::deallocate(T* p, std::size_t n)
{
  auto f = i->live.find(p);
  if (f == i->live.end()) { world->bad("memory was returned that isn't allocated"); return; }
  if (f->second != n) world->bad("memory was returned with another size");
  i->live.erase(f);
  auto in = i->instances.lower_bound(p);
  if (in != i->instances.end() && (const char*)in->first < (const char*)(void*)p + n * sizeof(T)) world->bad("memory was returned while a handler lives in it");
  ::operator delete(p);
}

// Tracks an object that may own the handler (unless moved from).
struct Track
{
  Info* i;
  explicit Track(Info* x) : i(x) { ++i->objects; }
  Track(Track&& o) : i(o.i) { o.i = nullptr; }
  Track& operator=(Track&&) = delete;
  ~Track()
  {
    if (!i) return;
    if (--i->objects < 0) world->bad("a handler was destroyed twice");
    if (i->at_end) { auto f = std::move(i->at_end); i->at_end = nullptr; f(); }
  }
};

template <std::size_t N, bool A>
struct Handler
{
  Info* i; // stays valid when moved from, as for asio's own allocators
  Track t;
  char pad[N];
  explicit Handler(Info* x) : i(x), t(x) { memset(pad, 0x3c, N); ++i->instances[this]; }
  Handler(Handler&& o) : i(o.i), t(std::move(o.t)) { memcpy(pad, o.pad, N); memset(o.pad, 0, N); ++i->instances[this]; }
  ~Handler() { if (!--i->instances[this]) i->instances.erase(this); }

  void invoked(const std::string& arg)
  {
    if (!t.i) { world->bad("a moved-from handler was invoked"); return; }
    ++i->invoked;
    i->arg = arg;
    for (char c : pad) if (c != 0x3c) { world->bad("the handler's state was changed"); break; }
    if (A && !i->live.empty()) world->bad("the handler's memory was still in use when it was invoked");
    if (i->during) { auto f = std::move(i->during); i->during = nullptr; f(); }
    // it has to stay alive
    for (char c : pad) if (c != 0x3c) { world->bad("the handler's state was changed during its invocation"); break; }
  }
  void operator()() { invoked(""); }
  void operator()(int a, const std::string& b) { invoked(std::to_string(a) + b); }
  void operator()(std::unique_ptr<int> p) { invoked(p ? std::to_string(*p) : "null"); }
};
template <std::size_t N>
struct AHandler : Handler<N, true>
{
  using Handler<N, true>::Handler;
  typedef Alloc<char> allocator_type;
  allocator_type get_allocator() const { return allocator_type(this->i); }
};

// What can be done with objects of one signature.
template <typename H>
struct Objects
{
  World& w;
  struct O { std::unique_ptr<H> h; int stored; };
  std::vector<O> objs;
  std::size_t depth = 0;
  int completed = 0, moved = 0, nested = 0, failed = 0, reentered = 0;

  Info* fresh()
  {
    w.infos.emplace_back(new Info);
    w.infos.back()->id = (int)w.infos.size() - 1;
    return w.infos.back().get();
  }

  // f(handler): constructs or assigns.
  template <typename F>
  bool give(Info* i, F f, bool lvalue)
  {
    auto run = [&](auto&& h) {
      try {
        if (lvalue) f(h); else f(std::move(h));
        return true;
      } catch (const std::bad_alloc&) {
        PBT_CHECK("alloc", i->fail, "bad_alloc out of nowhere");
        PBT_CHECK("moved-from", h.t.i == i, "the handler was moved from although it wasn't stored");
        return false;
      }
    };
    switch (w.g.below(6)) {
      case 0: return run(Handler<1, false>(i));
      case 1: return run(Handler<100, false>(i));
      case 2: return run(AHandler<1>(i));
      case 3: return run(AHandler<30>(i));
      case 4: return run(AHandler<700>(i));
      default: i->fail = w.g.flip(); failed += i->fail; return run(AHandler<16>(i));
    }
  }

  void release(int id) // it isn't stored any longer
  {
    if (id < 0) return;
    PBT_CHECK("not-destroyed", w.infos[id]->objects == 0, "handler %d wasn't destroyed", id);
    PBT_CHECK("invoked", w.infos[id]->invoked == 0, "handler %d was invoked", id);
  }

  void complete(O& o, bool dead)
  {
    (void)dead;
    Gen& g = w.g;
    const int id = o.stored;
    std::string arg;
    bool threw = false;
    // While it's invoked, the object may get another handler, or be destroyed.
    H* h = o.h.get();
    const std::size_t slot = &o - objs.data();
    const std::size_t mode = id >= 0 && depth < 3 ? g.weighted({5, 2, 1, 2, 1, 1}) : 0;
    g.note("complete #%zu (handler %d), meanwhile %zu", slot, id, mode);
    o.stored = -1;
    int inner = -1;
    if (id >= 0 && mode) {
      ++nested;
      w.infos[id]->during = [this, slot, mode, &inner, h] {
        O& me = objs[slot];
        if (bool(*h)) w.bad("the object isn't empty while its handler is being invoked");
        ++depth;
        try {
          switch (mode) {
            case 1: assign(me); break;
            case 2: me.h.reset(); break;
            case 3: { assign(me); if (me.stored >= 0) { complete(me, false); } break; }
            case 4: me.h->reset(); break;
            default: { O tmp; tmp.h.reset(new H(std::move(*me.h))); break; }
          }
        } catch (const pbt::Failure& f) { w.bad(f.tag + ": " + f.msg); }
        --depth;
      };
    }
    try {
      if constexpr (std::is_same_v<H, H0>) h->complete();
      else if constexpr (std::is_same_v<H, H2>) {
        const int a = (int)g.below(1000);
        const std::string b = g.bytes(g.size(40));
        arg = std::to_string(a) + b;
        h->complete(a, b);
      } else {
        const int a = (int)g.below(1000);
        arg = std::to_string(a);
        h->complete(std::unique_ptr<int>(new int(a)));
      }
    } catch (const asioext::bad_function_call&) {
      threw = true;
    }
    PBT_CHECK("problem", w.problem.empty(), "%s", w.problem.c_str());
    PBT_CHECK("empty-complete", threw == (id < 0), "completing an %s object %s", id < 0 ? "empty" : "occupied", threw ? "threw bad_function_call" : "didn't throw");
    if (id >= 0) {
      ++completed;
      Info& i = *w.infos[id];
      PBT_CHECK("invocations", i.invoked == 1, "handler %d was invoked %d times", id, i.invoked);
      PBT_CHECK("arguments", i.arg == arg, "handler %d got other arguments", id);
      PBT_CHECK("still-alive", i.objects == 0, "handler %d wasn't destroyed after its invocation", id);
    }
    if (!objs[slot].h) objs[slot].h.reset(new H); // destroyed meanwhile
  }

  void assign(O& o)
  {
    Gen& g = w.g;
    Info* i = fresh();
    const std::size_t slot = &o - objs.data();
    const int old = o.stored;
    const bool ok = give(i, [&](auto&& h) { *o.h = std::forward<decltype(h)>(h); }, g.flip());
    g.note("#%zu = handler %d%s", slot, i->id, ok ? "" : " (fails)");
    if (ok) { release(old); objs[slot].stored = i->id; }
  }

  void step()
  {
    Gen& g = w.g;
    const std::size_t a = g.below(objs.size()), b = g.below(objs.size());
    O& o = objs[a];
    O& p = objs[b];
    switch (g.weighted({4, 6, 6, 5, 2, 3, 2, 2, 2})) {
      case 0: { // construct with a handler
        Info* i = fresh();
        const int old = o.stored;
        g.note("#%zu = new(handler %d)", a, i->id);
        std::unique_ptr<H> n;
        if (give(i, [&](auto&& h) { n.reset(new H(std::forward<decltype(h)>(h))); }, g.flip())) {
          o.h = std::move(n);
          o.stored = i->id;
          release(old);
        }
        break;
      }
      case 1: assign(o); break;
      case 2: complete(o, false); break;
      case 3: // move assignment
        g.note("#%zu = move(#%zu)", a, b);
        if (a == b) break;
        ++moved;
        *o.h = std::move(*p.h);
        release(o.stored);
        o.stored = p.stored;
        p.stored = -1;
        break;
      case 4: // move construction
        g.note("#%zu = new(move(#%zu))", a, b);
        if (a == b) break;
        ++moved;
        {
          std::unique_ptr<H> n(new H(std::move(*p.h)));
          PBT_CHECK("moved-from", !*p.h, "the moved-from object isn't empty");
          o.h = std::move(n);
        }
        release(o.stored);
        o.stored = p.stored;
        p.stored = -1;
        break;
      case 5: // reset
        g.note("reset #%zu", a);
        o.h->reset();
        release(o.stored);
        o.stored = -1;
        break;
      case 6: // null
        g.note("#%zu = empty", a);
        *o.h = H();
        release(o.stored);
        o.stored = -1;
        break;
      case 7:
        g.note("swap #%zu, #%zu", a, b);
        if (a == b) break;
        std::swap(*o.h, *p.h);
        std::swap(o.stored, p.stored);
        break;
      default: // a handler whose destructor resets the object it was stored in
        if (o.stored < 0) break;
        {
          Info& i = *w.infos[o.stored];
          H* h = o.h.get();
          const std::size_t how = g.below(a == b ? 1 : 2);
          const bool destroys = g.flip();
          g.note("#%zu's handler %s it when it's destroyed, %zu", a, destroys ? "destroys" : "resets", how);
          ++reentered;
          i.at_end = [this, h, destroys, a] {
            if (destroys) objs[a].h.reset();
            else h->reset();
          };
          const int next = how == 1 ? p.stored : -1;
          if (how == 0) o.h->reset();
          else { *h = std::move(*p.h); p.stored = -1; }
          release(o.stored);
          // Whether the new handler is stored already when the old one is destroyed is up to the library.
          o.stored = !destroys && bool(*o.h) ? next : -1;
          if (o.stored != next) release(next);
          if (!o.h) o.h.reset(new H);
        }
        break;
    }
  }

  void check()
  {
    PBT_CHECK("problem", w.problem.empty(), "%s", w.problem.c_str());
    std::map<int, int> stored;
    for (auto& o : objs) {
      PBT_CHECK("occupied", bool(*o.h) == (o.stored >= 0), "#%zu is%s empty", (std::size_t)(&o - objs.data()), bool(*o.h) ? "n't" : "");
      if (o.stored >= 0) stored[o.stored] = 1;
    }
    for (auto& i : w.infos) {
      const bool s = stored.count(i->id);
      PBT_CHECK("lifetime", i->objects == (s ? 1 : 0), "%d objects of handler %d exist", i->objects, i->id);
      PBT_CHECK("memory", s ? i->live.size() <= 1 : i->live.empty(), "%zu blocks for handler %d", i->live.size(), i->id);
      PBT_CHECK("instances", s ? i->instances.size() >= 1 : i->instances.empty(), "%zu instances of handler %d (of which at most one isn't moved from) exist", i->instances.size(), i->id);
      if (s) PBT_CHECK("invoked", i->invoked == 0, "handler %d was invoked although it's still stored", i->id);
    }
  }
};

template <typename H>
void run(Gen& g)
{
  World w{g, {}, {}};
  world = &w;
  bool nt;
  {
    Objects<H> o{w, {}};
    const std::size_t k = g.range(1, 4);
    for (std::size_t i = 0; i != k; ++i) o.objs.push_back({std::make_unique<H>(), -1});
    const std::size_t n = g.range(2, 30);
    for (std::size_t i = 0; i != n; ++i) { o.step(); o.check(); }
    nt = o.completed && o.moved;
    if (o.nested) g.label("re-entrant");
    if (o.reentered) g.label("re-entrant-destructor");
    if (o.failed) g.label("allocation-failure");
    o.objs.clear();
  }
  PBT_CHECK("problem", w.problem.empty(), "%s", w.problem.c_str());
  for (auto& i : w.infos) {
    PBT_CHECK("lifetime", i->objects == 0, "handler %d wasn't destroyed", i->id);
    PBT_CHECK("memory", i->live.empty(), "handler %d's memory wasn't returned", i->id);
    PBT_CHECK("instances", i->instances.empty(), "an instance of handler %d that was moved from wasn't destroyed", i->id);
    PBT_CHECK("invocations", i->invoked <= 1, "handler %d was invoked %d times", i->id, i->invoked);
  }
  if (nt) g.nontrivial();
}

} // namespace

PBT_PROP(values, 3) { run<H2>(g); }
PBT_PROP(move_only, 2) { run<HM>(g); }
PBT_PROP(nothing, 1) { run<H0>(g); }
