// P12: owning handles close each descriptor exactly once, plain ones never.
#include "fault.hpp"
#include "file_common.hpp"
#include "asioext/standard_streams.hpp"
using namespace fx;

void pbt::setup(const std::string&) {}

namespace {

asio::io_context& context2()
{
  static asio::io_context* io = new asio::io_context;
  return *io;
}

struct Slot
{
  Kind kind;
  asioext::file_handle fh;
  std::unique_ptr<asioext::unique_file_handle> uh;
  std::unique_ptr<asioext::file> f;
  int fd = -1; // model: the descriptor owned (or, for plain handles, referred to)
};

const int errors[] = {EIO, EINTR, ENOSPC, EDQUOT};

class World
{
public:
  World(Gen& gen) : g(gen), base(pbt::scratch_dir() + "/o")
  {
    context();
    context2();
    asioext::file a(context()), b(context2()); // creates the services
    for (int i = 0; i != 3; ++i) { // every file has its own inode
      paths.push_back(base + std::to_string(i));
      ::close(::open(paths.back().c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600));
    }
    fault::state().all_closes = true;
  }
  ~World()
  {
    fault::end();
    fault::state().all_closes = false;
    for (auto& s : slots)
      if (s && s->kind == plain && s->fd != -1) ::close(s->fd);
    slots.clear();
    for (auto& p : paths) ::unlink(p.c_str());
  }

  // Runs f with the given plan; returns the calls made.
  template <typename F>
  std::vector<fault::Call> run(std::vector<fault::Action> plan, F f)
  {
    std::set<int> fds;
    for (auto& x : live) fds.insert(x.first);
    fault::Scope sc(std::move(plan), fds, base);
    f();
    return fault::end();
  }

  static ino_t inode(int fd)
  {
    struct stat st;
    return ::fstat(fd, &st) == 0 ? st.st_ino : 0;
  }

  // Compares the closes in the log with those expected, and all objects with the model.
  void check(const char* what, const std::vector<fault::Call>& log, std::multiset<int> expected)
  {
    std::multiset<int> got;
    for (auto& c : log) {
      if (c.name == "stray close") pbt::fail("stray-close", pbt::strf("%s closed descriptor %d, which nobody owns", what, c.fd));
      if (c.name == "close") got.insert(c.fd);
    }
    std::string a, b;
    for (int x : got) a += " " + std::to_string(x);
    for (int x : expected) b += " " + std::to_string(x);
    if (!got.empty()) closes = true;
    PBT_CHECK("closes", got == expected, "%s closed [%s ], expected [%s ]", what, a.c_str(), b.c_str());
    for (int fd : expected) live.erase(fd);
    for (auto& x : live)
      PBT_CHECK("descriptor-lost", inode(x.first) == x.second, "%s: descriptor %d isn't what it was", what, x.first);
    for (auto& s : slots) {
      if (!s) continue;
      const int fd = s->kind == owning ? s->uh->get().native_handle() : s->kind == object ? s->f->native_handle() : s->fh.native_handle();
      const bool open = s->kind == owning ? s->uh->is_open() : s->kind == object ? s->f->is_open() : s->fh.is_open();
      PBT_CHECK("is-open", open == (s->fd != -1), "%s: is_open() of a %s is %d", what, name(s->kind), open);
      PBT_CHECK("native-handle", fd == s->fd, "%s: a %s holds descriptor %d, expected %d", what, name(s->kind), fd, s->fd);
    }
  }

  void opened(int fd)
  {
    PBT_CHECK("opened", fd >= 0 && !live.count(fd));
    live[fd] = inode(fd);
  }

  Slot& add(Kind k)
  {
    slots.push_back(std::make_unique<Slot>());
    slots.back()->kind = k;
    return *slots.back();
  }
  Slot* pick(std::initializer_list<Kind> kinds)
  {
    std::vector<Slot*> c;
    for (auto& s : slots)
      if (s) for (Kind k : kinds) if (s->kind == k) c.push_back(s.get());
    return c.empty() ? nullptr : g.pick(c);
  }
  int id(Slot* s) { for (std::size_t i = 0; i != slots.size(); ++i) if (slots[i].get() == s) return (int)i; return -1; }
  bool unowned(int fd) // only plain handles refer to it
  {
    for (auto& s : slots) if (s && s->kind != plain && s->fd == fd) return false;
    return true;
  }

  Gen& g;
  std::string base;
  std::vector<std::string> paths;
  std::vector<std::unique_ptr<Slot>> slots;
  std::map<int, ino_t> live; // open descriptors
  bool closes = false;
};

std::vector<fault::Action> fail_plan(Gen& g, bool& fails)
{
  fails = g.chance(1, 4);
  fault::Action a;
  if (fails) { a.kind = fault::error; a.err = g.pick(errors); }
  return {a, a};
}

bool moved = false, failing = false;

void step(World& w)
{
  Gen& g = w.g;
  bool fails = false;
  const std::size_t op = g.weighted({10, 3, 6, 8, 8, 4, 5, 7, 4, 4, 3, 3, 1});
  switch (w.slots.empty() ? 0 : op) {
    case 0: { // open
      if (w.slots.size() > 11) return;
      const bool thr = g.flip();
      const std::string& path = w.paths[g.below(w.paths.size())];
      const asioext::open_args args(open_flags::open_existing | open_flags::access_read_write);
      const std::size_t how = g.below(5);
      Slot& s = w.add(how == 0 ? owning : object);
      asio::io_context& io = g.flip() ? context() : context2();
      Result r;
      auto log = w.run({}, [&] {
        if (how == 0) {
          s.uh.reset(new asioext::unique_file_handle);
          r = call(thr, [&] { *s.uh = asioext::open(path.c_str(), args); }, [&](sys::error_code& ec) { *s.uh = asioext::open(path.c_str(), args, ec); });
        } else if (how < 3) {
          r = call(thr, [&] { s.f.reset(new asioext::file(io, path.c_str(), args)); }, [&](sys::error_code& ec) { s.f.reset(new asioext::file(io, path.c_str(), args, ec)); });
        } else {
          s.f.reset(new asioext::file(io));
          r = call(thr, [&] { s.f->open(path.c_str(), args); }, [&](sys::error_code& ec) { s.f->open(path.c_str(), args, ec); });
        }
      });
      PBT_CHECK("open", r.ok, "%s", show(r).c_str());
      s.fd = s.kind == owning ? s.uh->get().native_handle() : s.f->native_handle();
      g.note("#%d = %s, open, fd %d", w.id(&s), name(s.kind), s.fd);
      w.opened(s.fd);
      w.check("open", log, {});
      break;
    }
    case 1: { // open without success
      const bool thr = g.flip();
      fault::Action a;
      a.kind = fault::error;
      a.err = g.pick({EACCES, ENOENT, EMFILE});
      const bool obj = g.flip();
      g.note("open fails (%s)", obj ? "file" : "open()");
      const asioext::open_args args = g.chance(1, 4) ? asioext::open_args() : asioext::open_args(open_flags::open_existing | open_flags::access_read);
      const bool already = g.flip();
      Slot* t = already ? w.pick({object}) : nullptr;
      Result r{true, 0, {}};
      auto log = w.run({a}, [&] {
        if (t) { // into an object that may or may not hold a file
          r = call(thr, [&] { t->f->open(w.paths[0].c_str(), args); }, [&](sys::error_code& ec) { t->f->open(w.paths[0].c_str(), args, ec); });
        } else if (obj) {
          std::unique_ptr<asioext::file> f;
          r = call(thr, [&] { f.reset(new asioext::file(context(), w.paths[0].c_str(), args)); }, [&](sys::error_code& ec) { f.reset(new asioext::file(context(), w.paths[0].c_str(), args, ec)); });
        } else {
          r = call(thr, [&] { asioext::open(w.paths[0].c_str(), args); }, [&](sys::error_code& ec) { asioext::open(w.paths[0].c_str(), args, ec); });
        }
      });
      PBT_CHECK("open-failure", !r.ok);
      w.check("a failing open", log, {});
      break;
    }
    case 2: { // close
      Slot* s = w.pick({owning, object, plain});
      if (!s || (s->kind == plain && s->fd != -1 && !w.unowned(s->fd))) return;
      const bool thr = g.flip();
      auto plan = fail_plan(g, fails);
      g.note("#%d.close()%s%s", w.id(s), thr ? " throwing" : "", fails ? " FAILS" : "");
      Result r;
      const int fd = s->fd;
      auto log = w.run(plan, [&] {
        auto f = [&](auto& h) { r = call(thr, [&] { h.close(); }, [&](sys::error_code& ec) { h.close(ec); }); };
        if (s->kind == owning) f(*s->uh); else if (s->kind == object) f(*s->f); else f(s->fh);
      });
      PBT_CHECK("close-result", r.ok == !(fails && fd != -1) && (r.ok || r.ec == os_error(plan[0].err)), "%s", show(r).c_str());
      s->fd = -1;
      if (fd != -1) { // other plain handles referring to it are forgotten
        for (auto& o : w.slots) if (o && o->kind == plain && o->fd == fd) { o->fd = -1; o->fh.clear(); }
        w.check("close()", log, {fd});
        failing |= fails;
      } else w.check("close()", log, {});
      break;
    }
    case 3: { // move construct
      Slot* s = w.pick({owning, object});
      if (!s || w.slots.size() > 11) return;
      Slot& n = w.add(s->kind);
      g.note("#%d = move(#%d)", w.id(&n), w.id(s));
      auto log = w.run({}, [&] {
        if (s->kind == owning) n.uh.reset(new asioext::unique_file_handle(std::move(*s->uh)));
        else n.f.reset(new asioext::file(std::move(*s->f)));
      });
      n.fd = s->fd;
      s->fd = -1;
      moved = true;
      w.check("move construction", log, {});
      break;
    }
    case 4: { // move assign
      Slot* s = w.pick({owning, object});
      Slot* t = s ? w.pick({s->kind}) : nullptr;
      if (!t || s == t) return;
      auto plan = fail_plan(g, fails);
      g.note("#%d = move(#%d)%s", w.id(t), w.id(s), fails ? ", closing FAILS" : "");
      bool threw = false;
      auto log = w.run(plan, [&] {
        try {
          if (s->kind == owning) *t->uh = std::move(*s->uh);
          else *t->f = std::move(*s->f);
        } catch (const sys::system_error& e) {
          threw = true;
          if (e.code() != os_error(plan[0].err)) throw;
        }
      });
      const int old = t->fd;
      PBT_CHECK("assign-threw", !threw || (fails && old != -1), "move assignment threw");
      t->fd = -1;
      if (!threw) { t->fd = s->fd; s->fd = -1; moved = true; }
      if (old != -1) {
        failing |= fails;
        for (auto& o : w.slots) if (o && o->kind == plain && o->fd == old) { o->fd = -1; o->fh.clear(); }
      }
      w.check("move assignment", log, old != -1 ? std::multiset<int>{old} : std::multiset<int>{});
      break;
    }
    case 5: { // release
      Slot* s = w.pick({owning});
      if (!s || w.slots.size() > 11) return;
      Slot& n = w.add(plain);
      g.note("#%d = #%d.release()", w.id(&n), w.id(s));
      auto log = w.run({}, [&] { n.fh = s->uh->release(); });
      n.fd = s->fd;
      s->fd = -1;
      w.check("release", log, {});
      break;
    }
    case 6: { // adopt an unowned plain handle: reset, constructors
      Slot* p = w.pick({plain});
      if (!p || (p->fd != -1 && !w.unowned(p->fd))) return;
      auto plan = fail_plan(g, fails);
      if (g.chance(2, 3)) {
        Slot* s = w.pick({owning});
        if (!s) return;
        const bool thr = g.flip();
        g.note("#%d.reset(#%d)%s", w.id(s), w.id(p), fails ? ", closing FAILS" : "");
        const int old = s->fd;
        Result r;
        auto log = w.run(plan, [&] { r = call(thr, [&] { s->uh->reset(p->fh); }, [&](sys::error_code& ec) { s->uh->reset(p->fh, ec); }); });
        PBT_CHECK("reset-result", r.ok == !(fails && old != -1), "%s", show(r).c_str());
        s->fd = p->fd;
        if (old != -1) failing |= fails;
        if (old != -1) for (auto& o : w.slots) if (o && o->kind == plain && o->fd == old) { o->fd = -1; o->fh.clear(); }
        w.check("reset", log, old != -1 ? std::multiset<int>{old} : std::multiset<int>{});
      } else if (w.slots.size() <= 11) {
        Slot& n = w.add(g.flip() ? owning : object);
        g.note("#%d = %s(#%d)", w.id(&n), name(n.kind), w.id(p));
        auto log = w.run({}, [&] {
          if (n.kind == owning) n.uh.reset(g.flip() ? new asioext::unique_file_handle(p->fh) : new asioext::unique_file_handle(p->fh.native_handle()));
          else if (g.flip()) n.f.reset(new asioext::file(context(), p->fh));
          else n.f.reset(new asioext::file(context(), p->fh.native_handle()));
        });
        n.fd = p->fd;
        w.check("construction from a handle", log, {});
      }
      break;
    }
    case 7: { // destroy
      Slot* s = w.pick({owning, object, plain});
      if (!s) return;
      if (s->kind == plain && s->fd != -1 && w.unowned(s->fd)) { // would leak: keep unless another plain handle refers to it
        int n = 0;
        for (auto& o : w.slots) n += o && o->fd == s->fd;
        if (n < 2) return;
      }
      auto plan = fail_plan(g, fails);
      g.note("destroy #%d%s", w.id(s), fails ? ", closing FAILS" : "");
      const int fd = s->kind == plain ? -1 : s->fd;
      if (fd != -1) failing |= fails;
      auto log = w.run(plan, [&] { w.slots[w.id(s)].reset(); });
      w.slots.erase(std::remove(w.slots.begin(), w.slots.end(), nullptr), w.slots.end());
      if (fd != -1) for (auto& o : w.slots) if (o && o->kind == plain && o->fd == fd) { o->fd = -1; o->fh.clear(); }
      w.check("destruction", log, fd != -1 ? std::multiset<int>{fd} : std::multiset<int>{});
      break;
    }
    case 8: { // duplicate
      Slot* s = w.pick({owning, object, plain});
      if (!s || w.slots.size() > 11) return;
      const bool thr = g.flip();
      auto plan = fail_plan(g, fails);
      Slot& n = w.add(owning);
      n.uh.reset(new asioext::unique_file_handle);
      Result r;
      auto log = w.run(plan, [&] {
        const asioext::file_handle h(s->fd);
        r = call(thr, [&] { *n.uh = asioext::duplicate(h); }, [&](sys::error_code& ec) { *n.uh = asioext::duplicate(h, ec); });
      });
      PBT_CHECK("duplicate-result", r.ok == (s->fd != -1 && !fails), "%s", show(r).c_str());
      n.fd = n.uh->get().native_handle();
      g.note("#%d = duplicate(#%d), fd %d", w.id(&n), w.id(s), n.fd);
      if (r.ok) {
        w.opened(n.fd);
        PBT_CHECK("duplicate-file", w.live[n.fd] == w.live[s->fd]);
      } else PBT_CHECK("duplicate-failed", n.fd == -1);
      w.check("duplicate", log, {});
      break;
    }
    case 9: { // swap
      Slot* s = w.pick({owning, object});
      Slot* t = s ? w.pick({s->kind}) : nullptr;
      if (!t || s == t) return;
      g.note("swap #%d, #%d", w.id(s), w.id(t));
      auto log = w.run({}, [&] { if (s->kind == owning) std::swap(*s->uh, *t->uh); else std::swap(*s->f, *t->f); });
      std::swap(s->fd, t->fd);
      moved = true;
      w.check("swap", log, {});
      break;
    }
    case 10: { // copy plain handles, get()
      Slot* s = w.pick({owning, plain});
      if (!s || w.slots.size() > 11) return;
      Slot& n = w.add(plain);
      g.note("#%d = #%d.get()", w.id(&n), w.id(s));
      auto log = w.run({}, [&] {
        n.fh = s->kind == owning ? s->uh->get() : s->fh;
        asioext::file_handle copy(n.fh); // destroyed right away
        copy.clear();
      });
      n.fd = s->fd;
      w.check("get()", log, {});
      break;
    }
    case 11: { // empty objects
      const Kind k = static_cast<Kind>(g.below(nkinds));
      if (w.slots.size() > 11) return;
      Slot& n = w.add(k);
      g.note("#%d = empty %s", w.id(&n), name(k));
      if (k == owning) n.uh.reset(new asioext::unique_file_handle);
      else if (k == object) n.f.reset(new asioext::file(g.flip() ? context() : context2()));
      break;
    }
    default: {
      g.note("standard streams"); // (descriptor 0 may be in use for something else)
      auto log = w.run({}, [&] {
        asioext::file_handle a = asioext::get_stdin(), b = asioext::get_stdout(), c = asioext::get_stderr();
        PBT_CHECK("standard-streams", a.native_handle() == 0 && b.native_handle() == 1 && c.native_handle() == 2);
      });
      w.check("standard streams", log, {});
      break;
    }
  }
}

} // namespace

PBT_PROP(histories, 1)
{
  moved = failing = false;
  DescriptorZero zero;
  World w(g);
  zero.free(g);
  const std::size_t n = g.range(2, 24);
  for (std::size_t i = 0; i != n; ++i) step(w);
  // All owners go away, in random order.
  while (!w.slots.empty()) {
    const std::size_t i = g.below(w.slots.size());
    Slot* s = w.slots[i].get();
    const int fd = s->kind == plain ? -1 : s->fd;
    bool owned_once = s->kind == plain && s->fd != -1 && w.unowned(s->fd);
    const int pfd = s->fd;
    if (fd != -1) for (auto& o : w.slots) if (o && o->kind == plain && o->fd == fd) { o->fd = -1; o->fh.clear(); }
    auto log = w.run({}, [&] { w.slots[i].reset(); });
    w.slots.erase(w.slots.begin() + i);
    w.check("destruction", log, fd != -1 ? std::multiset<int>{fd} : std::multiset<int>{});
    if (owned_once && w.live.count(pfd)) {
      ::close(pfd);
      w.live.erase(pfd);
      for (auto& o : w.slots) if (o && o->kind == plain && o->fd == pfd) { o->fd = -1; o->fh.clear(); }
    }
  }
  PBT_CHECK("leak", w.live.empty(), "%zu descriptors are still open", w.live.size());
  if (w.closes && moved) g.nontrivial();
  if (failing) g.label("failing-close");
}
