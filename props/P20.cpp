// P20: composed operations, bound handlers and work tuples. The executors count
// their outstanding work, handlers track their lifetime and memory; a composed
// operation follows a generated script.
#include "compat.hpp"
#include "asioext/compose.hpp"
#include "asioext/bind_handler.hpp"
#include "asioext/work.hpp"
#include "asioext/associated_allocator.hpp"
#include <functional>
#include <memory>
#include <optional>

void pbt::setup(const std::string&) {}

namespace {

// An executor for an io_context that counts the work.
struct CountState
{
  asio::io_context* io;
  long work = 0;
  int inside = 0;
};
struct Count
{
  CountState* s;
  asio::execution_context& context() const noexcept { return *s->io; }
  void on_work_started() const noexcept { ++s->work; }
  void on_work_finished() const noexcept { --s->work; }
  template <typename F> auto wrap(F&& f) const
  {
    return [s = s, f = std::decay_t<F>(std::forward<F>(f))]() mutable {
      struct Guard { CountState* s; ~Guard() { --s->inside; } } guard{s};
      ++s->inside;
      auto g(std::move(f));
      g();
    };
  }
  template <typename F, typename A> void dispatch(F&& f, const A&) const
  {
    if (s->inside) { std::decay_t<F> g(std::forward<F>(f)); g(); }
    else asio::post(*s->io, wrap(std::forward<F>(f)));
  }
  template <typename F, typename A> void post(F&& f, const A&) const { asio::post(*s->io, wrap(std::forward<F>(f))); }
  template <typename F, typename A> void defer(F&& f, const A&) const { asio::post(*s->io, wrap(std::forward<F>(f))); }
  friend bool operator==(const Count& a, const Count& b) noexcept { return a.s == b.s; }
  friend bool operator!=(const Count& a, const Count& b) noexcept { return a.s != b.s; }
};

typedef asio::io_context::executor_type IoEx;
typedef asio::strand<IoEx> Strand;

enum { s_post, s_dispatch, s_timer, s_inline, s_nested, s_kinds };
enum { f_complete, f_post, f_dispatch, f_abandon, f_kinds };
enum { h_plain, h_alloc, h_any, h_count, h_alloc_io, h_kinds };

struct World;

struct StepPlan { int kind, ctx; std::vector<StepPlan> inner; };

struct Plan
{
  World* w;
  int id, handler, target; // target: the context (0-2) or strand (3) the handler is bound to
  std::vector<StepPlan> steps;
  int finish, finish_ctx;
  bool throws;
  int val;
  std::string str;
  // while running
  std::size_t at = 0;
  int expected_ctx = -1; // where the next step has to run if the handler has no executor
  bool started = false, first = true, finished = false, abandoned = false, in_handler = false;
  int invoked = 0;
  long blocks = 0, allocs = 0, min_allocs = 0;
  std::shared_ptr<int> token = std::make_shared<int>(0);
  std::vector<CountState*> must_work; // executors that have work until the handler was invoked
  std::vector<int> must_run;          // contexts likewise
  std::vector<int> nested_arg;
};

template <typename T>
struct Alloc
{
  typedef T value_type;
  Plan* p;
  explicit Alloc(Plan* x) : p(x) {}
  template <typename U> Alloc(const Alloc<U>& o) : p(o.p) {}
  T* allocate(std::size_t n) { ++p->blocks; ++p->allocs; return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* q, std::size_t) { --p->blocks; ::operator delete(q); }
  template <typename U> bool operator==(const Alloc<U>& o) const { return p == o.p; }
  template <typename U> bool operator!=(const Alloc<U>& o) const { return p != o.p; }
};

struct World
{
  Gen& g;
  asio::io_context io[3];
  CountState cs[3];
  std::optional<Strand> strand;
  std::vector<std::unique_ptr<asio::steady_timer>> timers;
  std::vector<std::unique_ptr<Plan>> plans;
  std::string tag, problem;
  int completed = 0;

  explicit World(Gen& gen) : g(gen) { for (int i = 0; i != 3; ++i) cs[i].io = &io[i]; strand.emplace(io[1].get_executor()); }
  void bad(const char* t, const std::string& m) { if (tag.empty()) { tag = t; problem = m; } }

  bool runs_in(const Plan& p, int ctx)
  {
    switch (p.handler) {
      case h_any: if (p.target == 3) return strand->running_in_this_thread(); // else fall through
      case h_alloc_io: return io[p.target].get_executor().running_in_this_thread();
      case h_count: return cs[p.target].inside > 0;
      default: return ctx == -1 || io[ctx].get_executor().running_in_this_thread();
    }
  }
  void check_work(const Plan& p, const char* when)
  {
    for (auto* c : p.must_work)
      if (c->work < 1) bad("work", pbt::strf("operation %d: an executor has no outstanding work %s", p.id, when));
  }
};

struct Thrown {};

struct H
{
  Plan* p;
  std::shared_ptr<int> t;
  explicit H(Plan* x) : p(x), t(x->token) {}
  H(H&& o) : p(o.p), t(std::move(o.t)) {}
  void operator()(int v, const std::string& s)
  {
    World& w = *p->w;
    if (!t) w.bad("handler", "a moved-from handler was invoked");
    if (++p->invoked != 1) w.bad("twice", "a handler was invoked more than once");
    if (v != p->val || s != p->str) w.bad("arguments", pbt::strf("operation %d: the handler got other arguments", p->id));
    if (!p->finished) w.bad("early", "a handler was invoked before its operation completed");
    if (!w.runs_in(*p, p->expected_ctx)) w.bad("handler-executor", pbt::strf("operation %d: the handler wasn't invoked on its executor", p->id));
    if (p->blocks) w.bad("memory", pbt::strf("operation %d: memory from the handler's allocator is in use when it's invoked", p->id));
    w.check_work(*p, "while the handler is being invoked");
    ++w.completed;
    p->in_handler = true;
    if (p->throws) throw Thrown();
  }
};
struct AH : H
{
  using H::H;
  typedef Alloc<char> allocator_type;
  allocator_type get_allocator() const { return allocator_type(p); }
};

// Initiates one step with the operation as the completion handler.
template <typename Self>
void initiate(World& w, const StepPlan& s, Self& self)
{
  switch (s.kind) {
    case s_post: asio::post(w.io[s.ctx], std::move(self)); break;
    case s_dispatch: asio::dispatch(w.io[s.ctx], std::move(self)); break;
    default: {
      w.timers.emplace_back(new asio::steady_timer(w.io[s.ctx]));
      w.timers.back()->expires_at(asio::steady_timer::time_point::min());
      w.timers.back()->async_wait(std::move(self));
      break;
    }
  }
}

struct Inner
{
  Plan* p;
  std::vector<StepPlan> steps;
  std::size_t at = 0;
  int result;
  std::shared_ptr<int> t;

  template <typename Self, typename... Args>
  void operator()(Self& self, Args&&...)
  {
    World& w = *p->w;
    if (p->expected_ctx >= 0 && !w.runs_in(*p, p->expected_ctx)) w.bad("step-executor", pbt::strf("operation %d: a nested step ran on another executor", p->id));
    if (at == steps.size()) return self.complete(result, "inner" + std::to_string(result));
    const StepPlan& s = steps[at++];
    p->expected_ctx = s.ctx;
    const StepPlan copy = s; // (the plan moves along)
    World& wr = w;
    initiate(wr, copy, self);
  }
};

struct Impl
{
  Plan* p;
  std::shared_ptr<int> t;

  template <typename Self> void operator()(Self& self) { go(self); }
  template <typename Self> void operator()(Self& self, sys::error_code ec)
  {
    if (ec) p->w->bad("timer", ec.message());
    go(self);
  }
  template <typename Self> void operator()(Self& self, int v, const std::string& s)
  {
    if (p->nested_arg.empty() || v != p->nested_arg.back() || s != "inner" + std::to_string(v))
      p->w->bad("nested-arguments", "a nested operation delivered other arguments");
    go(self);
  }

  template <typename Self>
  void go(Self& self)
  {
    Plan& p = *this->p;
    World& w = *p.w;
    if (!p.first && !w.runs_in(p, p.expected_ctx)) w.bad("step-executor", pbt::strf("operation %d: a step ran on another executor", p.id));
    if (!p.first) w.check_work(p, "between its steps");
    if (p.invoked) w.bad("after", "a step ran after the handler");
    while (p.at != p.steps.size() && p.steps[p.at].kind == s_inline) ++p.at;
    if (p.at != p.steps.size()) {
      p.first = false;
      const StepPlan& s = p.steps[p.at++];
      if (s.kind != s_nested) {
        p.expected_ctx = s.ctx;
        return initiate(w, s, self);
      }
      p.nested_arg.push_back((int)p.at * 7);
      // the nested operation's handler is this one
      if constexpr (Self::Nest) {
        auto op = asioext::make_composed_operation(Inner{&p, s.inner, 0, p.nested_arg.back(), t}, std::move(self.op), w.io[s.ctx]);
        op();
      }
      return;
    }
    p.finished = true;
    if (p.finish == f_abandon) { p.abandoned = true; return; }
    if (p.finish == f_complete) {
      std::vector<long> before;
      for (auto* c : p.must_work) before.push_back(c->work);
      self.complete(p.val, p.str);
      for (std::size_t i = 0; i != before.size(); ++i)
        if (p.must_work[i]->work >= before[i]) w.bad("work-kept", pbt::strf("operation %d: completing it didn't release its work", p.id));
      return;
    }
    p.expected_ctx = p.finish_ctx;
    auto ex = asio::get_associated_executor(self.op, w.io[p.finish_ctx].get_executor());
    if (p.finish == f_post) asio::post(ex, self.op.complete_to_bound_handler(p.val, p.str));
    else asio::dispatch(ex, self.op.complete_to_bound_handler(p.val, p.str));
  }
};

} // namespace

// (The implementation gets the composed operation itself.)
namespace {

template <typename Op>
struct SelfRef
{
  enum { Nest = 1 };
  Op& op;
  template <typename... A> void complete(A&&... a) { op.complete(std::forward<A>(a)...); }
};

struct Outer
{
  Impl impl;
  template <typename Op, typename... A>
  void operator()(Op& op, A&&... a)
  {
    // Moving the operation moves *this, so that this must not be used then.
    Impl i(impl);
    SelfRef<Op> s{op};
    i.p->started = true;
    auto& p = *i.p;
    (void)p;
    i(s, std::forward<A>(a)...);
  }
};
template <typename Op>
void initiate(World& w, const StepPlan& s, SelfRef<Op>& self) { initiate(w, s, self.op); }

template <typename Handler>
void launch(World& w, Plan& p, int executors, Handler h)
{
  Outer impl{Impl{&p, p.token}};
  auto go = [&](auto op) {
    // It has to survive moves before it's started.
    auto op2(std::move(op));
    op2();
  };
  switch (executors) {
    case 0: go(asioext::make_composed_operation(impl, std::move(h))); break;
    case 1: p.must_work = {&w.cs[0]}; go(asioext::make_composed_operation(impl, std::move(h), Count{&w.cs[0]})); break;
    default:
      p.must_work = {&w.cs[1], &w.cs[0]};
      p.must_run = {2};
      go(asioext::make_composed_operation(impl, std::move(h), Count{&w.cs[1]}, w.io[2], Count{&w.cs[0]}));
      break;
  }
}

void launch(World& w, Plan& p, int executors)
{
  switch (p.handler) {
    case h_plain: launch(w, p, executors, H(&p)); break;
    case h_alloc: launch(w, p, executors, AH(&p)); break;
    case h_any: launch(w, p, executors, asio::bind_executor(p.target == 3 ? asio::any_io_executor(*w.strand) : asio::any_io_executor(w.io[p.target].get_executor()), H(&p))); break;
    case h_count: launch(w, p, executors, asio::bind_executor(Count{&w.cs[p.target]}, H(&p))); break;
    default: launch(w, p, executors, asio::bind_executor(w.io[p.target].get_executor(), AH(&p))); break;
  }
}

std::string show(const std::vector<StepPlan>& v)
{
  static const char* const names[] = {"post", "dispatch", "timer", "inline", "nested"};
  std::string r;
  for (auto& s : v) r += pbt::strf(" %s(%d)", names[s.kind], s.ctx) + (s.kind == s_nested ? "{" + show(s.inner) + " }" : "");
  return r;
}

std::vector<StepPlan> script(Gen& g, bool nested, std::size_t max)
{
  std::vector<StepPlan> r;
  for (std::size_t n = g.range(nested ? 0 : 1, max); n; --n) {
    StepPlan s{(int)g.weighted({5, 3, 3, nested ? 1u : 0u, nested ? 2u : 0u}), (int)g.below(3), {}};
    if (s.kind == s_nested) s.inner = script(g, false, 3);
    r.push_back(s);
  }
  return r;
}

} // namespace

PBT_PROP(composed, 4)
{
  std::unique_ptr<World> wp(new World(g));
  World& w = *wp;
  const std::size_t nops = g.range(1, 4);
  bool multi = false, abandoned = false;
  auto check = [&](const char* when) {
    PBT_CHECK(w.tag, w.problem.empty(), "%s", w.problem.c_str());
    for (auto& p : w.plans) {
      if (p->invoked || p->abandoned || !p->started) continue;
      w.check_work(*p, when);
      for (int i : p->must_run) {
        w.io[i].restart(); // it's stopped only if there's no work
        w.io[i].restart(); // stops again only if there's no work
        try { w.io[i].poll_one(); } catch (const Thrown&) {}
        PBT_CHECK("must-run", w.io[i].stopped() == false || p->invoked || p->abandoned, "operation %d: the event loop ran out of work", p->id);
      }
      PBT_CHECK(w.tag, w.problem.empty(), "%s", w.problem.c_str());
    }
  };
  for (std::size_t i = 0; i != nops; ++i) {
    w.plans.emplace_back(new Plan);
    Plan& p = *w.plans.back();
    p.w = &w;
    p.id = (int)i;
    p.handler = (int)g.below(h_kinds);
    p.target = (int)g.below(p.handler == h_any ? 4 : 3);
    p.steps = script(g, true, 6);
    p.finish = (int)g.weighted({4, 4, 3, 1});
    p.finish_ctx = (int)g.below(3);
    p.throws = g.chance(1, 8);
    p.val = (int)g.below(100000);
    p.str = g.bytes(g.size(50));
    const int executors = (int)g.below(3);
    // Completing from within the initiating function happens wherever that is.
    std::size_t real = 0;
    for (auto& s : p.steps) real += s.kind != s_inline;
    if (real == 0 && p.finish != f_post) p.finish = f_post;
    multi |= real > 1;
    abandoned |= p.finish == f_abandon;
    if (p.handler == h_alloc || p.handler == h_alloc_io)
      for (auto& s : p.steps) p.min_allocs += s.kind == s_post;
    g.note("operation %d: handler %d (%d), %d executors,%s, finish %d (%d)%s", p.id, p.handler, p.target, executors, show(p.steps).c_str(), p.finish, p.finish_ctx,
           p.throws ? ", throws" : "");
    launch(w, p, executors);
    PBT_CHECK("inside", p.invoked == 0, "a handler was invoked from within the initiating function");
    check("after initiation");
  }
  // One handler at a time, on a random context.
  auto idle = [&] {
    for (int i = 0; i != 3; ++i) { w.io[i].restart(); if (w.io[i].poll_one()) return false; }
    return true;
  };
  for (int guard = 0; guard != 3000; ++guard) {
    bool stop = false;
    try {
      const int c = (int)g.below(3);
      w.io[c].restart();
      if (!w.io[c].poll_one()) stop = idle();
    } catch (const Thrown&) {
    }
    check("while it's pending");
    if (stop) break;
  }
  for (auto& p : w.plans) {
    PBT_CHECK("calls", p->invoked == (p->abandoned ? 0 : 1), "operation %d: the handler was invoked %d times", p->id, p->invoked);
    PBT_CHECK("leak", p->token.use_count() == 1, "operation %d: the handler or the implementation wasn't destroyed", p->id);
    PBT_CHECK("memory", p->blocks == 0, "operation %d: %ld blocks weren't returned to the handler's allocator", p->id, p->blocks);
    PBT_CHECK("allocator", p->allocs >= p->min_allocs, "operation %d: %ld allocations through the handler's allocator for %ld posts", p->id, p->allocs, p->min_allocs);
  }
  w.timers.clear();
  for (int i = 0; i != 3; ++i) {
    PBT_CHECK("work-left", w.cs[i].work == 0, "executor %d still has %ld units of work after everything completed", i, w.cs[i].work);
    w.io[i].restart();
    w.io[i].poll();
    PBT_CHECK("loop-left", w.io[i].stopped(), "context %d still has work after everything completed", i);
  }
  if (multi && w.completed) g.nontrivial();
  if (abandoned) g.label("abandoned");
}

// Bound handlers.
namespace {

struct Seen
{
  int calls = 0;
  std::vector<std::string> args;
  std::vector<long> work;
};

struct BH
{
  Seen* s;
  CountState* cs;
  bool throws;
  std::unique_ptr<int> own{new int(1)};
  Alloc<char> a{nullptr};
  typedef Alloc<char> allocator_type;
  allocator_type get_allocator() const { return a; }

  static std::string str(const std::string& x) { return x; }
  static std::string str(int x) { return std::to_string(x); }
  static std::string str(const std::unique_ptr<int>& x) { return x ? std::to_string(*x) : "null"; }
  static std::string str(const std::vector<char>& x) { return std::string(x.begin(), x.end()); }
  template <typename... A>
  void operator()(A&&... x)
  {
    ++s->calls;
    if (!own) s->args.push_back("moved-from handler!");
    (s->args.push_back(str(x)), ...);
    for (int i = 0; i != 3; ++i) s->work.push_back(cs[i].work);
    if (throws) throw Thrown();
  }
};

} // namespace

PBT_PROP(bound, 2)
{
  asio::io_context io[3];
  CountState cs[3];
  for (int i = 0; i != 3; ++i) cs[i].io = &io[i];
  Seen seen;
  Plan owner; // of the allocator
  owner.w = nullptr;
  const bool throws = g.chance(1, 6), lvalues = g.flip(), bind_ex = g.flip(), invoke = g.chance(7, 8), post = g.flip();
  const int arity = (int)g.below(5), nwork = (int)g.below(4);
  std::string s1 = g.bytes(g.size(60));
  std::vector<char> v1;
  { const std::string t = g.bytes(g.size(60)); v1.assign(t.begin(), t.end()); }
  int i1 = (int)g.below(100000), i2 = (int)g.below(100000);
  std::unique_ptr<int> u1(new int((int)g.below(1000)));
  std::vector<std::string> want;
  if (arity > 0) want.push_back(s1);
  if (arity > 1) want.push_back(std::to_string(i1));
  if (arity > 2) want.push_back(std::to_string(*u1));
  if (arity > 3) want.push_back(std::string(v1.begin(), v1.end()));
  const Count target{&cs[2]};
  g.note("%d arguments (%s), %d work, %s, %s%s", arity, lvalues ? "lvalues" : "rvalues", nwork, bind_ex ? "bound to an executor" : "no executor",
         invoke ? post ? "posted" : "invoked" : "dropped", throws ? ", throws" : "");
  bool thrown = false;

  auto use = [&](auto b) {
    // What was bound mustn't depend on the originals any more.
    s1 = "changed"; v1.assign(3, 'x'); i1 = -1; i2 = -2;
    auto c(std::move(b));
    auto d(std::move(c));
    for (int i = 0; i != nwork; ++i) PBT_CHECK("work", cs[i].work == 1, "executor %d has %ld units of work before the invocation", i, cs[i].work);
    PBT_CHECK("allocator", asio::get_associated_allocator(d).p == &owner, "the associated allocator is another one");
    if (bind_ex) PBT_CHECK("executor", asio::get_associated_executor(d, Count{&cs[0]}).s == (bind_ex ? &cs[2] : &cs[0]), "the associated executor is another one");
    else PBT_CHECK("executor", asio::get_associated_executor(d, Count{&cs[0]}).s == &cs[0], "the associated executor isn't the given default");
    if (!invoke) return;
    try {
      if (post) {
        asio::post(io[1], std::move(d));
        for (int i : {1, 2, 1, 2}) { io[i].restart(); io[i].poll(); }
      } else {
        d();
        for (int i = 0; i != nwork; ++i) PBT_CHECK("work", cs[i].work == 0, "executor %d has %ld units of work after the invocation", i, cs[i].work);
      }
    } catch (const Thrown&) {
      thrown = true;
    }
  };
  auto with_work = [&](auto h) {
    auto bind = [&](auto&&... a) {
      switch (nwork) {
        case 0: if (g.flip()) use(asioext::bind_handler(std::move(h), std::forward<decltype(a)>(a)...));
                else use(asioext::bind_handler(std::move(h), asioext::make_work_tuple(), std::forward<decltype(a)>(a)...));
                break;
        case 1: use(asioext::bind_handler(std::move(h), asioext::make_work_tuple(Count{&cs[0]}), std::forward<decltype(a)>(a)...)); break;
        case 2: use(asioext::bind_handler(std::move(h), asioext::make_work_tuple(Count{&cs[0]}, Count{&cs[1]}), std::forward<decltype(a)>(a)...)); break;
        default: use(asioext::bind_handler(std::move(h), asioext::make_work_tuple(Count{&cs[0]}, Count{&cs[1]}, Count{&cs[2]}), std::forward<decltype(a)>(a)...)); break;
      }
    };
    switch (arity) {
      case 0: bind(); break;
      case 1: if (lvalues) bind(s1); else bind(std::move(s1)); break;
      case 2: if (lvalues) bind(s1, i1); else bind(std::move(s1), std::move(i1)); break;
      case 3: if (lvalues) bind(s1, i1, std::move(u1)); else bind(std::move(s1), std::move(i1), std::move(u1)); break;
      default: if (lvalues) bind(s1, i1, std::move(u1), v1); else bind(std::move(s1), std::move(i1), std::move(u1), std::move(v1)); break;
    }
  };
  BH h{&seen, cs, throws};
  h.a.p = &owner;
  if (bind_ex) with_work(asio::bind_executor(target, std::move(h)));
  else with_work(std::move(h));

  PBT_CHECK("calls", seen.calls == (invoke ? 1 : 0), "invoked %d times", seen.calls);
  PBT_CHECK("threw", thrown == (invoke && throws));
  if (invoke) {
    std::string got;
    for (auto& a : seen.args) got += " [" + a + "]";
    PBT_CHECK("arguments", seen.args == want, "the handler got%s", got.c_str());
    for (int i = 0; i != nwork; ++i) PBT_CHECK("work-during", seen.work[i] >= 1, "executor %d had no work while the handler was invoked", i);
    if (post && !bind_ex) PBT_CHECK("allocated", owner.allocs >= 1, "the handler's allocator wasn't used");
  }
  for (auto& c : cs) PBT_CHECK("work-left", c.work == 0, "an executor has %ld units of work at the end", c.work);
  PBT_CHECK("memory", owner.blocks == 0);
  if (arity && invoke) g.nontrivial();
}

// Work tuples.
PBT_PROP(work, 1)
{
  asio::io_context io[3];
  CountState cs[3];
  for (int i = 0; i != 3; ++i) cs[i].io = &io[i];
  const Count e0{&cs[0]}, e1{&cs[1]}, e2{&cs[2]};
  auto run = [&](auto first, int n) {
    typedef decltype(first) W;
    struct Slot { std::unique_ptr<W> w; bool held; };
    std::vector<Slot> v;
    v.push_back({std::make_unique<W>(std::move(first)), true});
    auto check = [&](const char* what) {
      long k = 0;
      for (auto& s : v) k += s.held;
      for (int i = 0; i != 3; ++i) {
        const long want = i < n ? k : 0;
        PBT_CHECK("count", cs[i].work == want, "executor %d has %ld units of work instead of %ld after %s", i, cs[i].work, want, what);
      }
    };
    check("construction");
    int ops = 0;
    for (std::size_t i = g.range(1, 10); i && !v.empty(); --i) {
      Slot& s = v[g.below(v.size())];
      ++ops;
      switch (g.below(4)) {
        case 0: g.note("reset"); s.w->reset(); s.held = false; check("reset"); break;
        case 1: g.note("copy"); if (v.size() < 5) { const bool h = s.held; std::unique_ptr<W> c(new W(*s.w)); v.push_back({std::move(c), h}); check("copying"); } break;
        case 2: g.note("move"); { std::unique_ptr<W> m(new W(std::move(*s.w))); const bool h = s.held; s.w = std::move(m); s.held = h; check("moving"); } break;
        default: g.note("destroy"); v.erase(v.begin() + (&s - v.data())); check("destruction"); break;
      }
    }
    v.clear();
    check("the end");
    if (ops > 2) g.nontrivial();
  };
  const int n = (int)g.range(1, 3);
  g.note("%d executors", n);
  switch (n) {
    case 1: run(asioext::make_work_tuple(e0), 1); break;
    case 2: run(asioext::make_work_tuple(e0, e1), 2); break;
    default: run(asioext::make_work_tuple(e0, e1, e2), 3); break;
  }
}
