// P18: cancellation tokens against a model in which every token belongs to an
// epoch of a source, also with other threads polling them.
#include "compat.hpp"
#include "asioext/cancellation_token.hpp"
#include <atomic>
#include <memory>
#include <thread>

typedef asioext::cancellation_token_source Source;
typedef asioext::cancellation_token Token;

void pbt::setup(const std::string&) {}

namespace {

struct S { std::unique_ptr<Source> s; int epoch; }; // -1: destroyed
struct T { std::unique_ptr<Token> t; int epoch; };

struct World
{
  Gen& g;
  std::vector<S> sources;
  std::vector<T> tokens;
  std::vector<bool> ended; // epochs
  int n_cancelled = 0;

  int fresh() { ended.push_back(false); return (int)ended.size() - 1; }
  void end(int e) { if (e >= 0) { ended[e] = true; } }
  bool cancelled(int e) { return e < 0 || ended[e]; }
  S* pick() { return sources.empty() ? nullptr : &sources[g.below(sources.size())]; }

  void check(const char* after)
  {
    for (std::size_t i = 0; i != tokens.size(); ++i)
      PBT_CHECK("state", tokens[i].t->cancelled() == cancelled(tokens[i].epoch), "token %zu should%s be cancelled after %s", i,
                cancelled(tokens[i].epoch) ? "" : "n't", after);
    for (auto& s : sources) // new tokens
      PBT_CHECK("new-token", Token(*s.s).cancelled() == cancelled(s.epoch), "a new token should%s be cancelled after %s", cancelled(s.epoch) ? "" : "n't", after);
  }
};

} // namespace

PBT_PROP(histories, 6)
{
  World w{g, {}, {}, {}};
  const std::size_t n = g.range(2, 40);
  for (std::size_t i = 0; i != n; ++i) {
    const std::size_t op = w.sources.empty() ? 0 : g.weighted({3, 10, 5, 3, 4, 3, 4, 2, 3, 4, 2, 2});
    const char* what = "";
    S* s = w.pick();
    switch (op) {
      case 0:
        if (w.sources.size() > 4) continue;
        w.sources.push_back({std::make_unique<Source>(), w.fresh()});
        what = "creating a source";
        break;
      case 1:
        if (w.tokens.size() > 20) continue;
        w.tokens.push_back({std::make_unique<Token>(*s->s), s->epoch});
        what = "creating a token";
        break;
      case 2:
        s->s->cancel();
        w.end(s->epoch);
        if (s->epoch >= 0) s->epoch = w.fresh();
        ++w.n_cancelled;
        what = "cancel";
        break;
      case 3: s->s->destroy(); w.end(s->epoch); s->epoch = -1; what = "destroy"; break;
      case 4: s->s->reset(); if (s->epoch < 0) s->epoch = w.fresh(); what = "reset"; break;
      case 5: w.end(s->epoch); w.sources.erase(w.sources.begin() + (s - w.sources.data())); what = "the source's destruction"; break;
      case 6: { // move assignment, perhaps onto itself
        S* t = w.pick();
        if (s == t) continue;
        *s->s = std::move(*t->s);
        w.end(s->epoch);
        s->epoch = t->epoch;
        t->epoch = -1;
        what = "move assignment";
        break;
      }
      case 7: { // move construction
        if (w.sources.size() > 4) continue;
        std::unique_ptr<Source> m(new Source(std::move(*s->s)));
        const int e = s->epoch;
        s->epoch = -1;
        w.sources.push_back({std::move(m), e});
        what = "move construction";
        break;
      }
      case 8: { S* t = w.pick(); if (s == t) continue; std::swap(*s->s, *t->s); std::swap(s->epoch, t->epoch); what = "swap"; break; }
      case 9: { // copy a token
        if (w.tokens.empty() || w.tokens.size() > 20) continue;
        T& t = w.tokens[g.below(w.tokens.size())];
        const int e = t.epoch;
        std::unique_ptr<Token> c(new Token(*t.t));
        w.tokens.push_back({std::move(c), e});
        what = "copying a token";
        break;
      }
      case 10: { // assign a token
        if (w.tokens.empty()) continue;
        T& t = w.tokens[g.below(w.tokens.size())];
        T& u = w.tokens[g.below(w.tokens.size())];
        *t.t = *u.t;
        t.epoch = u.epoch;
        what = "assigning a token";
        break;
      }
      default:
        if (w.tokens.empty()) continue;
        w.tokens.erase(w.tokens.begin() + (long)g.below(w.tokens.size()));
        what = "destroying a token";
        break;
    }
    g.note("%s (source %d, epoch %d)", what, s ? (int)(s - w.sources.data()) : -1, (int)w.ended.size() - 1);
    w.check(what);
  }
  // tokens outlive all sources
  for (auto& s : w.sources) { w.end(s.epoch); s.s.reset(); }
  w.sources.clear();
  w.check("destroying all sources");
  bool live = false, dead = false;
  for (auto& t : w.tokens) { (w.cancelled(t.epoch) ? dead : live) = true; }
  if (w.tokens.size() > 1 && w.n_cancelled) g.nontrivial();
}

PBT_PROP(threads, 1)
{
  const std::size_t nsources = g.range(1, 3), nthreads = g.range(1, 3), rounds = g.range(1, 6);
  struct Shared { std::atomic<int> about{0}, done{0}; };
  std::vector<std::unique_ptr<Source>> sources;
  // per source and round
  std::vector<std::unique_ptr<Shared>> state;
  for (std::size_t i = 0; i != nsources; ++i) sources.emplace_back(new Source);
  for (std::size_t i = 0; i != nsources * (rounds + 1); ++i) state.emplace_back(new Shared);
  std::atomic<bool> stop{false};
  std::vector<std::thread> ts;
  const bool acquire = g.flip();
  g.note("%zu sources, %zu threads, %zu rounds", nsources, nthreads, rounds);
  // All tokens of a round are created, polled by the threads, and then some way of cancelling is chosen.
  for (std::size_t r = 0; r != rounds; ++r) {
    stop = false;
    ts.clear();
    for (std::size_t k = 0; k != nthreads; ++k) {
      std::vector<std::pair<Token, Shared*>> mine;
      for (std::size_t i = 0; i != nsources; ++i) mine.emplace_back(Token(*sources[i]), state[i * (rounds + 1) + r].get());
      ts.emplace_back([&g, &stop, mine, acquire]() mutable {
        std::vector<bool> seen(mine.size());
        for (;;) {
          const bool last = stop.load(std::memory_order_relaxed);
          for (std::size_t i = 0; i != mine.size(); ++i) {
            const bool done = mine[i].second->done.load(acquire ? std::memory_order_acquire : std::memory_order_relaxed);
            Token copy(mine[i].first);
            const bool c = copy.cancelled();
            if (!c && seen[i]) g.fail_later("uncancelled", "a token was cancelled at first, and not any longer later");
            if (!c && done && acquire) g.fail_later("late", "a token wasn't cancelled although its source had been");
            if (c && !mine[i].second->about.load(std::memory_order_relaxed)) g.fail_later("early", "a token was cancelled although its source hadn't been");
            seen[i] = c;
          }
          if (last) break;
        }
      });
    }
    for (std::size_t i = 0; i != nsources; ++i) {
      Shared& s = *state[i * (rounds + 1) + r];
      const std::size_t how = g.below(6);
      g.note("round %zu: source %zu, %zu", r, i, how);
      if (g.flip()) std::this_thread::yield();
      if (how == 5) { // only moved
        std::unique_ptr<Source> n(new Source(std::move(*sources[i])));
        sources[i] = std::move(n);
        continue;
      }
      s.about.store(1, std::memory_order_seq_cst);
      switch (how) {
        case 0: case 1: sources[i]->cancel(); break;
        case 2: sources[i]->destroy(); break;
        case 3: sources[i].reset(); break;
        default: *sources[i] = Source(); break;
      }
      s.done.store(1, std::memory_order_release);
      if (how == 2) sources[i]->reset();
      if (how == 3) sources[i].reset(new Source);
    }
    stop = true;
    for (auto& t : ts) t.join();
    g.raise_later();
    g.beat();
  }
  g.nontrivial();
}
