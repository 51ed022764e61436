// Conformance driver for the files: stream_file and random_access_file.
// SRC: io/read io/write io/file io/stream_file io/random_access_file
//
// header: fin=<s|d>   at the end: let what is pending settle, or destroy the context with it
// Three files in a directory of its own: 0 exists, with the bytes 201 202 203; 1 does not; 2 is a fifo; 3 cannot exist.
// commands (h: an object, t: its type s|r, f: a file, F: form d|r|t, s: number of pieces the buffer is passed in):
//   N h t                 make one that is closed       P h t f flags how   make one by its path: how c|s, a pointer or a string
//   o h f flags how       open() it                     flags of: r w b (access) a (append) c (create) x (exclusive) t (truncate) y (sync)
//   u h t h2 how          make (c) or assign (a) one from a duplicate of the descriptor of h2
//   R h off n F s         read_some[_at]                W h off n F s       write_some[_at]
//   A h off n F s         io::read[_at] & poll          B h off n F s       io::write[_at] & poll
//   s h off whence        seek: S|C|E                   z h n  resize       Z h  size         y h a|d   sync_all, sync_data
//   c h cancel            k h close    l h release      i h  look at it     m h h2  move construct h2 from h     D h destroy
//   X i                   cancel operation i by its slot                    Q poll until idle
#include "common.hpp"
#include <boost/cobalt/io/read.hpp>
#include <boost/cobalt/io/write.hpp>
#include <boost/cobalt/io/stream_file.hpp>
#include <boost/cobalt/io/random_access_file.hpp>
#include <boost/cobalt/result.hpp>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <optional>
using namespace h;
namespace io = boost::cobalt::io;
namespace sys = boost::system;
using ec_t = sys::error_code;

constexpr unsigned char fresh = 0xEE;
constexpr long long huge = 5'000'000'000, huge_ = 999999;
long long offset(const std::string & s) { auto n = std::stoll(s); return n == huge_ ? huge : n; }

struct rec
{
  int i = 0, h = 0;
  char c = 0, form = 'd';
  long long off = 0;
  std::vector<std::vector<unsigned char>> bufs;
  std::vector<asio::mutable_buffer> mb;
  std::vector<asio::const_buffer> cb;
  asio::cancellation_signal sig;
  bool fin = false, orphan = false, whole = false;
  std::string o = "ok";
  long long n = -1;
};
struct obj
{
  std::unique_ptr<io::stream_file> s;
  std::unique_ptr<io::random_access_file> r;
  int file = -1;
  io::file & f() { return s ? static_cast<io::file&>(*s) : static_cast<io::file&>(*r); }
};
struct world
{
  std::string dir;
  std::map<int, obj> objs;
  std::map<int, std::shared_ptr<rec>> ops;
  std::unique_ptr<asio::io_context> ctx = std::make_unique<asio::io_context>();
  counting_resource res;
  std::string path(int f) { return dir + (f == 3 ? "/nowhere/" : "/") + std::to_string(f); }
};

std::string name(const ec_t & ec)
{
  if (!ec) return "ok";
  if (ec == asio::error::operation_aborted) return "aborted";
  if (ec == asio::error::eof) return "eof";
  return "err";
}
template<typename T> std::string name(const sys::result<T> & r) { return r ? "ok" : name(r.error()); }

int fds()
{
  int n = 0;
  if (auto d = ::opendir("/proc/self/fd")) { while (::readdir(d)) n++; ::closedir(d); }
  return n;
}

void report(rec & r)
{
  bool good = true;
  std::vector<long long> d;
  if (r.c == 'R' || r.c == 'A')
  {
    bool end = false;
    for (auto & b : r.bufs) for (auto c : b) { if (c == fresh) end = true; else { if (end) good = false; d.push_back(c); } }
  }
  ev(r.whole ? "all" : "res").i("i", r.i).t("o", r.o).i("n", r.n).b("good", good).l("d", d).out();
}
template<typename Op> actor await_(actor::slot_arg, std::shared_ptr<rec> pr, Op op)
{
  frame_guard g;
  auto & r = *pr;
  try
  {
    switch (r.form)
    {
      case 'd': r.n = co_await op; break;
      case 'r': { auto x = co_await cobalt::as_result(op); if (x) r.n = *x; else r.o = name(x.error()); break; }
      default: { auto [ec, m] = co_await cobalt::as_tuple(op); r.o = name(ec); r.n = m; break; }
    }
  }
  catch (sys::system_error & e) { r.o = name(e.code()); }
  r.fin = true;
  report(r);
}

void split(rec & r, std::size_t n, int pieces)
{
  if (pieces <= 1) { r.bufs.assign(1, std::vector<unsigned char>(n)); return; }
  std::size_t a = n / 3, b = pieces == 2 ? 0 : (n - a) / 2;
  r.bufs.emplace_back(a);
  if (pieces > 2) r.bufs.emplace_back(b);
  if (pieces > 3) r.bufs.emplace_back(0);
  r.bufs.emplace_back(n - a - b);
}
template<typename Seq, typename Buf> Seq sequence(rec & r, std::vector<Buf> & keep)
{
  keep.clear();
  for (auto & b : r.bufs) keep.push_back(Buf(b.data(), b.size()));
  if (keep.size() == 1) return Seq(keep[0]);
  if (keep.size() == 2) return Seq(std::span<const Buf>(keep));
  return Seq(keep);
}
void start(obj & o, std::shared_ptr<rec> pr, std::size_t n, int pieces, int idx)
{
  auto & r = *pr;
  actor::slot_arg sl{r.sig.slot()};
  split(r, n, pieces);
  if (r.c == 'R' || r.c == 'A')
  {
    for (auto & b : r.bufs) std::fill(b.begin(), b.end(), fresh);
    auto q = sequence<io::mutable_buffer_sequence, asio::mutable_buffer>(r, r.mb);
    if (r.c == 'A')
    {
      if (o.s) await_(sl, pr, io::read(*o.s, q)); else await_(sl, pr, io::read_at(*o.r, r.off, q));
    }
    else if (o.s) { io::read_stream & s = *o.s; await_(sl, pr, s.read_some(q)); }
    else { io::random_access_read_device & s = *o.r; await_(sl, pr, s.read_some_at(r.off, q)); }
  }
  else
  {
    int j = 0;
    for (auto & b : r.bufs) for (auto & c : b) c = idx * 8 + j++;
    auto q = sequence<io::const_buffer_sequence, asio::const_buffer>(r, r.cb);
    if (r.c == 'B')
    {
      if (o.s) await_(sl, pr, io::write(*o.s, q)); else await_(sl, pr, io::write_at(*o.r, r.off, q));
    }
    else if (o.s) { io::write_stream & s = *o.s; await_(sl, pr, s.write_some(q)); }
    else { io::random_access_write_device & s = *o.r; await_(sl, pr, s.write_some_at(r.off, q)); }
  }
}

io::file::flags flags(const std::string & s, ev & e)
{
  using f = io::file;
  auto r = s[0] == 'r' ? f::read_only : s[0] == 'w' ? f::write_only : f::read_write;
  auto has = [&](char c) { return s.find(c, 1) != s.npos; };
  if (has('a')) r = r | f::append;
  if (has('c')) r |= f::create;
  if (has('x')) r |= f::exclusive;
  if (has('t')) r = r | f::truncate;
  if (has('y')) r |= f::sync_all_on_write;
  e.t("m", s.substr(0, 1)).b("app", has('a')).b("cr", has('c')).b("ex", has('x')).b("tr", has('t'));
  return r;
}
bool waiting(world & w, int h) { for (auto & [i, r] : w.ops) if (r->h == h && !r->fin && w.objs[h].file == 2) return true; return false; }
bool pending(world & w) { for (auto & [i, r] : w.ops) if (!r->fin) return true; return false; }
void orphaned(world & w, int h) { for (auto & [i, r] : w.ops) if (r->h == h) r->orphan = true; }

void one(world & w, const std::vector<std::string> & c, int idx)
{
  const char k = c[0][0];
  if (k == 'Q') { ev("Q").out(); settle(*w.ctx); settle(*w.ctx); return ev("back").out(); }
  if (k == 'X')
  {
    auto itr = w.ops.find(std::stoi(c[1]));
    if (itr == w.ops.end() || itr->second->fin || itr->second->orphan) return;
    ev("X").i("i", itr->first).out();
    itr->second->sig.emit(asio::cancellation_type::terminal);
    return ev("back").out();
  }
  const int n = std::stoi(c[1]);
  auto x = cobalt::this_thread::get_executor();
  if (std::strchr("NPu", k))
  {
    if (w.objs.count(n) && k != 'u') return;
    if (k == 'N')
    {
      auto & o = w.objs[n];
      if (c[2] == "s") o.s = std::make_unique<io::stream_file>(); else o.r = std::make_unique<io::random_access_file>(x);
      return ev("new").i("h", n).t("t", c[2]).out();
    }
    if (k == 'P')
    {
      const int f = std::stoi(c[3]);
      auto p = w.path(f);
      auto e = ev("open");
      e.i("h", n).t("t", c[2]).i("f", f).b("ctor", true);
      auto fl = flags(c[4], e);
      obj o;
      try
      {
        if (c[2] == "s") o.s = c[5] == "c" ? std::make_unique<io::stream_file>(p.c_str(), fl) : std::make_unique<io::stream_file>(p, fl, x);
        else o.r = c[5] == "c" ? std::make_unique<io::random_access_file>(p.c_str(), fl, x) : std::make_unique<io::random_access_file>(p, fl);
        o.file = f;
        w.objs[n] = std::move(o);
        e.t("o", "ok");
      }
      catch (sys::system_error & s) { e.t("o", name(s.code())); }
      return e.out();
    }
    const int h2 = std::stoi(c[3]);
    if (!w.objs.count(h2) || !w.objs[h2].f().is_open()) return;
    if ((c[4] == "c") == !!w.objs.count(n)) return;
    if (w.objs[h2].file == 2 && c[2] == "r") return;
    int fd = ::dup(w.objs[h2].f().native_handle());
    auto e = ev("dup");
    e.i("h", n).t("t", c[2]).i("h2", h2).b("ctor", c[4] == "c");
    if (c[4] == "c")
    {
      auto & o = w.objs[n];
      if (c[2] == "s") o.s = std::make_unique<io::stream_file>(fd); else o.r = std::make_unique<io::random_access_file>(fd, x);
      o.file = w.objs[h2].file;
      return e.t("o", "ok").out();
    }
    if (w.objs[n].r && w.objs[h2].file == 2) { ::close(fd); return; }
    auto r = w.objs[n].f().assign(fd);
    if (r) w.objs[n].file = w.objs[h2].file; else ::close(fd);
    return e.t("o", name(r)).out();
  }
  if (!w.objs.count(n)) return;
  auto & o = w.objs[n];
  if (std::strchr("RWAB", k))
  {
    if (o.file == 2 && (k == 'A' || k == 'B')) return;
    if ((k == 'A' || k == 'B') && pending(w)) return;
    const bool rd = k == 'R' || k == 'A';
    if (o.file == 2 && rd) for (auto & [h, q] : w.objs) if (q.file == 2 && waiting(w, h)) return;      // one reader
    auto r = std::make_shared<rec>();
    r->i = idx; r->h = n; r->c = k; r->form = c[4][0]; r->off = offset(c[2]);
    if (!rd && (o.r ? r->off == huge : o.f().is_open() && ::lseek(o.f().native_handle(), 0, SEEK_CUR) > 1000000)) return;   // it would be large
    r->whole = k == 'A' || k == 'B';
    w.ops[idx] = r;
    ev("op").i("i", idx).t("c", c[0]).i("h", n).i("off", std::stoi(c[2])).i("n", std::stoi(c[3])).t("f", c[4]).out();
    start(o, r, std::stoi(c[3]), std::stoi(c[5]), idx);
    if (r->whole) { settle(*w.ctx); settle(*w.ctx); }
    return ev("back").out();
  }
  if (k == 's' && !o.s) return;
  if (k == 'D' || k == 'l' || k == 'k') orphaned(w, n);
  if (k == 'm')
  {
    const int h2 = std::stoi(c[2]);
    if (w.objs.count(h2) || waiting(w, n)) return;
    orphaned(w, n);
    auto & p = w.objs[h2];
    if (o.s) p.s = std::make_unique<io::stream_file>(std::move(*o.s)); else p.r = std::make_unique<io::random_access_file>(std::move(*o.r));
    p.file = std::exchange(o.file, -1);
    return ev("move").i("h", n).i("h2", h2).out();
  }
  auto e = ev("do");
  e.t("c", c[0]).i("h", n);
  std::string r = "ok";
  long long v = 0, a = 0;
  std::string wh = "S";
  auto value = [&](const auto & x) { r = name(x); if (x) v = static_cast<long long>(*x); };
  switch (k)
  {
    case 'o':
    {
      auto e = ev("open");
      const int f = std::stoi(c[2]);
      if (f == 2 && o.r) return;
      e.i("h", n).t("t", o.s ? "s" : "r").i("f", f).b("ctor", false);
      auto fl = flags(c[3], e);
      auto p = w.path(f);
      auto x = c[4] == "c" ? o.f().open(p.c_str(), fl) : o.f().open(p, fl);
      if (x) o.file = f;
      e.t("o", name(x)).out();
      break;
    }
    case 's':
      a = std::stoll(c[2]); wh = c[3];
      value(o.s->seek(offset(c[2]), wh == "S" ? io::file::seek_set : wh == "C" ? io::file::seek_cur : io::file::seek_end));
      if (v >= huge / 2) v -= huge - huge_;
      break;
    case 'z': a = std::stoll(c[2]); r = name(o.f().resize(a)); break;
    case 'Z': value(std::as_const(o.f()).size()); break;
    case 'y': r = name(c[2] == "a" ? o.f().sync_all() : o.f().sync_data()); break;
    case 'c': r = name(o.f().cancel()); break;
    case 'k': r = name(o.f().close()); if (r == "ok") o.file = -1; break;
    case 'l':
    {
      auto x = o.f().release();
      if (x && *x >= 0) { if (::fcntl(*x, F_GETFD) < 0) r = "bad"; ::close(*x); o.file = -1; }
      else r = "err";
      break;
    }
    case 'i':
    {
      bool op = o.f().is_open();
      int h = o.f().native_handle();
      r = o.f().get_executor() != x ? "executor" : op ? (::fcntl(h, F_GETFD) >= 0 ? "open" : "bad") : (h < 0 ? "closed" : "bad");
      break;
    }
    case 'D': w.objs.erase(n); break;
  }
  if (k == 'o') return;
  e.i("a", a).t("wh", wh).t("o", r).i("v", v).out();
}

void files(const scenario & s)
{
  const int before = fds();
  world w;
  char tmp[] = "/tmp/cobalt-file-XXXXXX";
  if (!::mkdtemp(tmp)) std::abort();
  w.dir = tmp;
  if (auto f = std::fopen(w.path(0).c_str(), "w")) { std::fputs("\311\312\313", f); std::fclose(f); }
  ::mkfifo(w.path(2).c_str(), 0600);
  cobalt::this_thread::set_executor(w.ctx->get_executor());
  auto old = cobalt::this_thread::set_default_resource(&w.res);
  { io::stream_file warm; }
  int idx = 0;
  for (auto & c : s.cmds) one(w, c, ++idx);
  ev("E").out();
  if (s.head.at("fin") == "s")
  {
    for (auto & [n, o] : w.objs) (void)o.f().close();
    settle(*w.ctx);
    settle(*w.ctx);
    ev("settled").out();
  }
  w.objs.clear();
  muted = true;
  w.ctx.reset();
  muted = false;
  w.ops.clear();
  cobalt::this_thread::set_default_resource(old);
  const int after = fds();
  std::vector<long long> fs[2];
  for (int f : {0, 1})
  {
    auto & v = fs[f];
    if (auto p = std::fopen(w.path(f).c_str(), "r")) { for (int ch; (ch = std::fgetc(p)) != EOF;) v.push_back(ch); std::fclose(p); }
    else v.push_back(-1);
  }
  ev("end").i("frames", live_frames).i("mem", static_cast<long long>(w.res.live.size())).i("bad", w.res.bad).i("fds", after - before).l("f0", fs[0]).l("f1", fs[1]).out();
  for (int f : {0, 1, 2}) ::unlink(w.path(f).c_str());
  ::rmdir(w.dir.c_str());
}

int main(int argc, char ** argv) { ::umask(0); ::signal(SIGPIPE, SIG_IGN); return run_scenarios(argc, argv, files); }
