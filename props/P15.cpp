// P15: the throwing and the error code form of every operation, applied to twin
// worlds under the same injected faults, have to agree.
#include "fault.hpp"
#include "file_common.hpp"
#include "asioext/read_file.hpp"
#include "asioext/write_file.hpp"
#include "asioext/standard_streams.hpp"
#include "asioext/linear_buffer.hpp"
#include "asioext/url_view.hpp"
using namespace fx;
using asioext::file_perms;

void pbt::setup(const std::string&) {}

namespace {

const int errors[] = {EIO, ENOSPC, EACCES, EMFILE, ENOMEM, EFBIG, EPERM, EINVAL, EOVERFLOW};
const char* const paths[] = {"a", "b", "new", "dir", "link", "dangling", "a/x", "none/x", "", "loop"};

struct World
{
  Gen& g;
  std::string dir[2];
  struct Slot { Kind kind; Handle h[2]; };
  std::vector<Slot> slots;
  std::set<int> extra_fds[2];
  bool failed = false, worked = false;

  explicit World(Gen& gen) : g(gen)
  {
    context();
    for (int t : {0, 1}) {
      dir[t] = pbt::scratch_dir() + (t ? "/w1" : "/w0");
      ::mkdir(dir[t].c_str(), 0700);
      ::mkdir((dir[t] + "/dir").c_str(), 0700);
      if (::symlink("a", (dir[t] + "/link").c_str()) != 0 || ::symlink("nowhere", (dir[t] + "/dangling").c_str()) != 0 || ::symlink("loop", (dir[t] + "/loop").c_str()) != 0) {}
    }
    for (const char* n : {"a", "b"}) {
      const std::string d = g.bytes(g.size(600));
      for (int t : {0, 1}) {
        const int fd = ::open((dir[t] + "/" + n).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
        PBT_CHECK("setup", fd != -1 && ::write(fd, d.data(), d.size()) == (ssize_t)d.size());
        ::close(fd);
      }
    }
  }
  ~World()
  {
    fault::end();
    for (auto& s : slots)
      for (int t : {0, 1}) if (s.kind == plain && s.h[t].is_open()) ::close(s.h[t].fd());
    slots.clear();
    for (int t : {0, 1}) {
      for (const char* n : {"a", "b", "new", "link", "dangling", "loop", "nowhere"}) ::unlink((dir[t] + "/" + n).c_str());
      ::rmdir((dir[t] + "/dir").c_str());
      ::rmdir(dir[t].c_str());
    }
  }

  std::vector<fault::Action> gen_plan()
  {
    std::vector<fault::Action> p(g.chance(1, 2) ? 0 : g.range(1, 3));
    for (auto& a : p)
      switch (g.weighted({3, 1, 4, 1})) {
        case 0: break;
        case 1: a.kind = fault::eintr; break;
        case 2: a.kind = fault::error; a.err = g.pick(errors); break;
        default: a.kind = fault::partial; a.n = g.range(1, 50); break;
      }
    return p;
  }

  // f(throwing, twin, extra): performs the operation; extra receives further results.
  template <typename F>
  Result both(const char* what, F f)
  {
    const auto plan = gen_plan();
    g.note("%s %s", what, plan.empty() ? "" : fault::show(plan).c_str());
    Result r[2] = {{true, 0, {}}, {true, 0, {}}};
    std::string extra[2];
    for (int t : {0, 1}) {
      std::set<int> fds;
      for (auto& s : slots) if (s.h[t].is_open()) fds.insert(s.h[t].fd());
      fault::Scope sc(plan, fds, dir[t]);
      r[t] = f(t == 0, t, extra[t]);
      fault::end();
    }
    PBT_CHECK("outcome", r[0].ok == r[1].ok, "%s: the throwing form: %s, the other: %s", what, show(r[0]).c_str(), show(r[1]).c_str());
    if (r[0].ok) PBT_CHECK("result", r[0].v == r[1].v, "%s: the throwing form: %s, the other: %s", what, show(r[0]).c_str(), show(r[1]).c_str());
    else PBT_CHECK("error", r[0].ec == r[1].ec, "%s: the throwing form: %s, the other: %s", what, show(r[0]).c_str(), show(r[1]).c_str());
    PBT_CHECK("effect", extra[0] == extra[1], "%s: after the throwing form: %s, after the other: %s", what, extra[0].substr(0, 300).c_str(), extra[1].substr(0, 300).c_str());
    (r[0].ok ? worked : failed) = true;
    if (!r[0].ok) g.note("-> %s", r[0].ec.message().c_str());
    for (auto& s : slots) {
      PBT_CHECK("is-open", s.h[0].is_open() == s.h[1].is_open(), "%s", what);
      if (s.h[0].is_open()) PBT_CHECK("position", ::lseek(s.h[0].fd(), 0, SEEK_CUR) == ::lseek(s.h[1].fd(), 0, SEEK_CUR), "%s", what);
    }
    PBT_CHECK("files", snapshot(0) == snapshot(1), "%s: the files differ", what);
    return r[0];
  }

  std::string snapshot(int t)
  {
    std::string r;
    for (const char* n : {"a", "b", "new", "nowhere"}) {
      const int fd = ::open((dir[t] + "/" + n).c_str(), O_RDONLY | O_CLOEXEC);
      if (fd == -1) { r += std::string(n) + " missing\n"; continue; }
      struct stat st;
      ::fstat(fd, &st);
      r += std::string(n) + pbt::strf(" %o ", st.st_mode) + slurp_fd(fd) + "\n";
      ::close(fd);
    }
    return r;
  }
};

asioext::open_args gen_args(Gen& g)
{
  static const open_flags disp[] = {open_flags::open_existing, open_flags::create_new, open_flags::create_always, open_flags::open_always, open_flags::truncate_existing};
  static const open_flags acc[] = {open_flags::access_read_write, open_flags::access_read, open_flags::access_write};
  open_flags f = g.pick(disp);
  f |= f == open_flags::truncate_existing ? acc[g.below(2) * 2] : g.pick(acc);
  if (g.chance(1, 12)) f = static_cast<open_flags>(g.below(512));
  return asioext::open_args(f, static_cast<file_perms>(g.pick({0600, 0644, 0666, 0400})));
}

void add_to(World& w, Kind k, Handle& a, Handle& b)
{
  World::Slot s;
  s.kind = k;
  s.h[0] = std::move(a);
  s.h[1] = std::move(b);
  w.slots.push_back(std::move(s));
}

void op_open(World& w)
{
  Gen& g = w.g;
  const std::string p = g.chance(2, 3) ? g.pick({"a", "b", "new"}) : g.pick(paths);
  const asioext::open_args args = gen_args(g);
  const int how = (int)g.below(4);
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
  const bool bp = g.flip();
#else
  const bool bp = false;
#endif
  g.note("path '%s', native flags %x%s", p.c_str(), (unsigned)args.native_flags(), bp ? ", boost path" : "");
  Kind k = how == 0 ? owning : object;
  Handle h[2] = {Handle::empty(k), Handle::empty(k)};
  const Result r = w.both(how == 0 ? "open()" : how == 1 ? "file()" : "file.open()", [&](bool thr, int t, std::string& extra) {
    auto run = [&](const auto& path) -> Result {
      switch (how) {
        case 0: return call(thr, [&] { *h[t].uh = asioext::open(path, args); }, [&](sys::error_code& ec) { *h[t].uh = asioext::open(path, args, ec); });
        case 1: return call(thr, [&] { h[t].f.reset(new asioext::file(context(), path, args)); }, [&](sys::error_code& ec) { h[t].f.reset(new asioext::file(context(), path, args, ec)); });
        default: return call(thr, [&] { h[t].f->open(path, args); }, [&](sys::error_code& ec) { h[t].f->open(path, args, ec); });
      }
    };
    const std::string path = w.dir[t] + "/" + p;
    Result res;
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
    if (bp) res = run(boost::filesystem::path(path)); else
#endif
    res = run(path.c_str());
    extra = h[t].is_open() ? "open" : "empty";
    if (h[t].is_open()) extra += pbt::strf(" %x", ::fcntl(h[t].fd(), F_GETFL));
    return res;
  });
  if (r.ok && w.slots.size() < 4) {
    if (k == owning && g.flip()) { // hand over to a plain handle
      k = plain;
      for (auto& x : h) { Handle n = Handle::adopt(plain, x.uh->release().native_handle()); x = std::move(n); }
    }
    add_to(w, k, h[0], h[1]);
  }
}

void op_handle(World& w)
{
  Gen& g = w.g;
  if (w.slots.empty()) return;
  const std::size_t i = g.below(w.slots.size());
  World::Slot& s = w.slots[i];
  auto on = [&](const char* what, auto t, auto e) {
    w.both(what, [&](bool thr, int k, std::string& extra) {
      return s.h[k].visit([&](auto& h) { return call(thr, [&] { return t(h, extra); }, [&](sys::error_code& ec) { return e(h, extra, ec); }); });
    });
  };
  g.note("#%zu (%s):", i, name(s.kind));
  switch (g.weighted({2, 2, 2, 2, 2, 2, 2, 1, 1, 2, 3, 3, 3, 3, 2, 1, 1, 2})) {
    case 0: on("close", [](auto& h, auto&) { h.close(); }, [](auto& h, auto&, sys::error_code& ec) { h.close(ec); }); break;
    case 1: on("size", [](auto& h, auto&) { return h.size(); }, [](auto& h, auto&, sys::error_code& ec) { return h.size(ec); }); break;
    case 2: {
      const std::uint64_t n = g.chance(1, 5) ? g.num(~0ull) : g.num(3000);
      if (n < (1ull << 50) && n > 100000) return;
      g.note("to %llu", (unsigned long long)n);
      on("truncate", [&](auto& h, auto&) { h.truncate(n); }, [&](auto& h, auto&, sys::error_code& ec) { h.truncate(n, ec); });
      break;
    }
    case 3: {
      const auto o = static_cast<asioext::seek_origin>(g.below(3));
      const std::int64_t n = g.flip() ? static_cast<std::int64_t>(g.num(2000)) - 500 : g.inum();
      if (n > 100000 && n < (1ll << 50)) return; // writing there would make a huge file
      g.note("%d %lld", (int)o, (long long)n);
      on("seek", [&](auto& h, auto&) { return h.seek(o, n); }, [&](auto& h, auto&, sys::error_code& ec) { return h.seek(o, n, ec); });
      break;
    }
    case 4: on("position", [](auto& h, auto&) { return h.position(); }, [](auto& h, auto&, sys::error_code& ec) { return h.position(ec); }); break;
    case 5: on("permissions", [](auto& h, auto&) { return h.permissions(); }, [](auto& h, auto&, sys::error_code& ec) { return h.permissions(ec); }); break;
    case 6: {
      const auto p = static_cast<file_perms>(g.below(512));
      const auto o = g.pick({asioext::file_perm_options::replace, asioext::file_perm_options::add, asioext::file_perm_options::remove});
      if (g.flip()) on("set permissions", [&](auto& h, auto&) { h.permissions(p); }, [&](auto& h, auto&, sys::error_code& ec) { h.permissions(p, ec); });
      else on("change permissions", [&](auto& h, auto&) { h.permissions(p, o); }, [&](auto& h, auto&, sys::error_code& ec) { h.permissions(p, o, ec); });
      break;
    }
    case 7: on("attributes", [](auto& h, auto&) { return h.attributes(); }, [](auto& h, auto&, sys::error_code& ec) { return h.attributes(ec); }); break;
    case 8: {
      const auto a = static_cast<asioext::file_attrs>(g.below(512));
      const auto o = g.pick({asioext::file_attr_options::replace, asioext::file_attr_options::add, asioext::file_attr_options::remove});
      if (g.flip()) on("set attributes", [&](auto& h, auto&) { h.attributes(a); }, [&](auto& h, auto&, sys::error_code& ec) { h.attributes(a, ec); });
      else on("change attributes", [&](auto& h, auto&) { h.attributes(a, o); }, [&](auto& h, auto&, sys::error_code& ec) { h.attributes(a, o, ec); });
      break;
    }
    case 9: {
      asioext::file_times nt;
      nt.atime = asioext::file_time_type(std::chrono::nanoseconds(1 + g.num(1ull << 60)));
      nt.mtime = asioext::file_time_type(std::chrono::nanoseconds(1 + g.num(1ull << 60)));
      on("set times", [&](auto& h, auto&) { h.times(nt); }, [&](auto& h, auto&, sys::error_code& ec) { h.times(nt, ec); });
      on("times", [](auto& h, std::string& x) { x = h.times().mtime.time_since_epoch().count() > 0 ? "ok" : "?"; },
         [](auto& h, std::string& x, sys::error_code& ec) { auto t = h.times(ec); if (!ec) x = t.mtime.time_since_epoch().count() > 0 ? "ok" : "?"; });
      break;
    }
    case 10: case 11: case 12: case 13: {
      const auto sizes = gen_sizes(g, 700, g.chance(1, 10));
      const auto shape = static_cast<Bufs::Shape>(g.below(Bufs::nshapes));
      const std::uint64_t o = g.num(g.chance(1, 8) ? ~0ull : 1000);
      const std::size_t what = g.below(4);
      if (what == 3 && o > 100000 && o < (1ull << 50)) return; // would make a huge file
      g.note("at %llu, %s", (unsigned long long)o, show(sizes).c_str());
      const Bufs data = for_writing(g, sizes);
      static const char* const names[] = {"read_some", "read_some_at", "write_some", "write_some_at"};
      w.both(names[what], [&](bool thr, int k, std::string& extra) {
        Bufs b = for_reading(sizes);
        Handle& h = s.h[k];
        const Result r = what == 0 ? h.read_some(thr, b, shape) : what == 1 ? h.read_some_at(thr, o, b, shape)
                       : what == 2 ? h.write_some(thr, data, shape) : h.write_some_at(thr, o, data, shape);
        extra = b.contents();
        return r;
      });
      break;
    }
    case 14: {
      Handle d[2] = {Handle::empty(owning), Handle::empty(owning)};
      w.both("duplicate", [&](bool thr, int k, std::string& extra) {
        const asioext::file_handle src(s.h[k].fd());
        const Result r = call(thr, [&] { *d[k].uh = asioext::duplicate(src); }, [&](sys::error_code& ec) { *d[k].uh = asioext::duplicate(src, ec); });
        extra = d[k].is_open() ? "open" : "empty";
        return r;
      });
      break;
    }
    case 15: {
      if (s.kind != object) return;
      w.both("cancel", [&](bool thr, int k, std::string&) { return call(thr, [&] { s.h[k].f->cancel(); }, [&](sys::error_code& ec) { s.h[k].f->cancel(ec); }); });
      break;
    }
    case 16: { // reset to another (or no) descriptor
      if (s.kind != owning) return;
      const bool other = g.flip();
      int fd[2] = {-1, -1};
      if (other) for (int t : {0, 1}) fd[t] = ::open((w.dir[t] + "/b").c_str(), O_RDWR | O_CLOEXEC);
      w.both("reset", [&](bool thr, int k, std::string& extra) {
        const Result r = call(thr, [&] { s.h[k].uh->reset(asioext::file_handle(fd[k])); }, [&](sys::error_code& ec) { s.h[k].uh->reset(asioext::file_handle(fd[k]), ec); });
        extra = s.h[k].fd() == fd[k] ? "took" : "didn't take";
        return r;
      });
      break;
    }
    default: { // reading the rest of the file through a handle
      const std::size_t how = g.below(3);
      const std::size_t n = g.size(700);
      w.both("read_file(handle)", [&](bool thr, int k, std::string& extra) {
        const asioext::file_handle h(s.h[k].fd());
        Result r;
        if (how == 0) {
          std::string str = "previous";
          r = call(thr, [&] { asioext::read_file(h, str); }, [&](sys::error_code& ec) { asioext::read_file(h, str, ec); });
          if (r.ok) extra = str; // (otherwise its contents are unspecified)
        } else if (how == 1) {
          asioext::linear_buffer b;
          r = call(thr, [&] { asioext::read_file(h, b); }, [&](sys::error_code& ec) { asioext::read_file(h, b, ec); });
          if (r.ok) extra.assign(reinterpret_cast<const char*>(b.data()), b.size());
        } else {
          extra.assign(n, '.');
          r = call(thr, [&] { asioext::read_file(h, asio::buffer(&extra[0], n)); }, [&](sys::error_code& ec) { asioext::read_file(h, asio::buffer(&extra[0], n), ec); });
        }
        return r;
      });
      break;
    }
  }
}

void op_path(World& w)
{
  Gen& g = w.g;
  const std::string p = g.chance(2, 3) ? g.pick({"a", "b", "new"}) : g.pick(paths);
  const std::size_t what = g.below(4), n = g.size(700);
  const std::string data = g.bytes(n);
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
  const bool bp = g.flip();
#else
  const bool bp = false;
#endif
  g.note("path '%s'%s, %zu bytes", p.c_str(), bp ? ", boost path" : "", n);
  w.both(what == 3 ? "write_file" : "read_file", [&](bool thr, int t, std::string& extra) {
    auto run = [&](const auto& path) -> Result {
      Result r;
      if (what == 0) {
        std::string str = "previous";
        r = call(thr, [&] { asioext::read_file(path, str); }, [&](sys::error_code& ec) { asioext::read_file(path, str, ec); });
        if (r.ok) extra = str;
      } else if (what == 1) {
        std::vector<unsigned char> v(3, 'x');
        r = call(thr, [&] { asioext::read_file(path, v); }, [&](sys::error_code& ec) { asioext::read_file(path, v, ec); });
        if (r.ok) extra.assign(v.begin(), v.end());
      } else if (what == 2) {
        extra.assign(n, '.');
        r = call(thr, [&] { asioext::read_file(path, asio::buffer(&extra[0], n)); }, [&](sys::error_code& ec) { asioext::read_file(path, asio::buffer(&extra[0], n), ec); });
      } else {
        r = call(thr, [&] { asioext::write_file(path, asio::buffer(data)); }, [&](sys::error_code& ec) { asioext::write_file(path, asio::buffer(data), ec); });
      }
      return r;
    };
    const std::string path = w.dir[t] + "/" + p;
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
    if (bp) return run(boost::filesystem::path(path));
#endif
    return run(path.c_str());
  });
}

void op_other(World& w)
{
  Gen& g = w.g;
  if (g.flip()) {
    const std::size_t which = g.below(3);
    w.both("standard stream", [&](bool thr, int, std::string&) {
      auto n = [](asioext::file_handle h) { return h.native_handle(); };
      return which == 0 ? call(thr, [&] { return n(asioext::get_stdin()); }, [&](sys::error_code& ec) { return n(asioext::get_stdin(ec)); })
           : which == 1 ? call(thr, [&] { return n(asioext::get_stdout()); }, [&](sys::error_code& ec) { return n(asioext::get_stdout(ec)); })
                        : call(thr, [&] { return n(asioext::get_stderr()); }, [&](sys::error_code& ec) { return n(asioext::get_stderr(ec)); });
    });
  } else {
    std::string u = g.pick({"http://user:pw@host.example:80/path?query#frag", "ftp://[::1]:99999/", "x:y", "", "https://h:12x/", "a b", "http://h/%zz", "http://[::1"});
    if (!u.empty() && g.flip()) u[g.below(u.size())] = static_cast<char>(g.below(256));
    w.both("url_view", [&](bool thr, int, std::string& extra) {
      asioext::url_view v;
      const Result r = call(thr, [&] { v = asioext::url_view(u); }, [&](sys::error_code& ec) { v = asioext::url_view(u, ec); });
      if (r.ok) {
        for (auto x : {v.scheme(), v.host(), v.path(), v.query(), v.fragment(), v.userinfo(), v.port()}) { extra.append(x.data(), x.size()); extra += '|'; }
        extra += std::to_string(v.port_value());
      }
      return r;
    });
  }
}

// Handles that don't refer to anything.
void op_empty(World& w)
{
  Gen& g = w.g;
  if (w.slots.size() >= 4) return;
  const Kind k = static_cast<Kind>(g.below(nkinds));
  Handle a = Handle::empty(k), b = Handle::empty(k);
  g.note("#%zu = empty %s", w.slots.size(), name(k));
  add_to(w, k, a, b);
}

// Opening a file object that is open already.
void op_reopen(World& w)
{
  Gen& g = w.g;
  for (auto& s : w.slots)
    if (s.kind == object) {
      const asioext::open_args args = gen_args(g);
      w.both("open() again", [&](bool thr, int t, std::string&) {
        const std::string path = w.dir[t] + "/b";
        return call(thr, [&] { s.h[t].f->open(path.c_str(), args); }, [&](sys::error_code& ec) { s.h[t].f->open(path.c_str(), args, ec); });
      });
      return;
    }
}

} // namespace

PBT_PROP(twins, 1)
{
  World w(g);
  const std::size_t n = g.range(1, 14);
  for (std::size_t i = 0; i != n; ++i)
    switch (g.weighted({4, 12, 3, 1, 1, 1})) {
      case 0: op_open(w); break;
      case 1: if (w.slots.empty()) op_open(w); else op_handle(w); break;
      case 2: op_path(w); break;
      case 3: op_other(w); break;
      case 4: op_empty(w); break;
      default: op_reopen(w); break;
    }
  if (w.failed && w.worked) g.nontrivial();
}
