// Conformance driver for the byte streams and packet sockets: pipes, and pairs of stream, datagram and seqpacket sockets.
// SRC: io/read io/write io/pipe io/socket io/stream_socket io/datagram_socket io/seq_packet_socket io/endpoint
//
// header: kind=<p|s|d|q>  pipe (0 is the end to read from, 1 the one to write to) or a pair of sockets
//         none=1          there is no descriptor left
//         fin=<s|d>       at the end: let what is pending settle, or destroy the context with it
// commands (e: an end, f: form d|r|t, s: number of pieces the buffer is passed in):
//   R e n f s     read_some / receive          K e n f s     receive, peeking (q)       O e n f s   with flags out (q)
//   A e n f s     io::read                     W e n f s     write_some / send          B e n f s   io::write
//   V e f w       wait until readable (r) or writable (w)
//   X i t         cancel operation i by its slot             c e  cancel()              k e  close()
//   h e r|w|b     shutdown                     y e  bytes_readable                      m e  move construct
//   g e c|a|p     release, and construct from / assign / (p) construct without protocol the descriptor
//   i e           look at it                   D e  destroy it                          Q    poll until idle
// kind=o: options of a tcp socket (type s), udp (d);  commands  s NAME VALUE, g NAME, with linger as VALUE*2+on
#include "common.hpp"
#include <boost/cobalt/io/read.hpp>
#include <boost/cobalt/io/write.hpp>
#include <boost/cobalt/io/pipe.hpp>
#include <boost/cobalt/io/stream_socket.hpp>
#include <boost/cobalt/io/datagram_socket.hpp>
#include <boost/cobalt/io/seq_packet_socket.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <optional>
#include <array>
#include <set>
using namespace h;
namespace io = boost::cobalt::io;
namespace sys = boost::system;
using ec_t = sys::error_code;

struct world;
constexpr unsigned char fresh = 0xEE;
unsigned char pattern(long long pos) { return static_cast<unsigned char>((pos * 31 + (pos >> 8)) % 238); }

struct rec            // an operation
{
  int i = 0, e = 0, pieces = 1;
  char c = 0, form = 'd', how = 'r';
  std::vector<std::vector<unsigned char>> bufs;
  asio::cancellation_signal sig;
  bool fin = false, orphan = false;      // what it works on is gone
  io::socket::message_flags flags = 0;
};
struct end_
{
  std::unique_ptr<io::readable_pipe> rp;
  std::unique_ptr<io::writable_pipe> wp;
  std::unique_ptr<io::stream_socket> ss;
  std::unique_ptr<io::datagram_socket> ds;
  std::unique_ptr<io::seq_packet_socket> qs;
  io::socket * sock() { return ss ? static_cast<io::socket*>(ss.get()) : ds ? static_cast<io::socket*>(ds.get()) : qs.get(); }
  bool any() { return rp || wp || ss || ds || qs; }
  void reset() { rp.reset(); wp.reset(); ss.reset(); ds.reset(); qs.reset(); }
  int reading = 0, writing = 0;
  long long wpos = 0, rpos = 0;   // how much was written to and read from it; packets for packet sockets
  bool lost = false;              // how much was written is not known
};
struct world
{
  char kind = 'p';
  end_ e[2];
  std::map<int, std::shared_ptr<rec>> ops;
  std::unique_ptr<asio::io_context> ctx = std::make_unique<asio::io_context>();
  counting_resource res;
  bool packets() const { return kind == 'd' || kind == 'q'; }
};

std::string name(const ec_t & ec)
{
  if (!ec) return "ok";
  if (ec == asio::error::operation_aborted) return "aborted";
  if (ec == asio::error::eof) return "eof";
  return "err";
}
template<typename T> std::string name(const sys::result<T> & r) { return r ? "ok" : name(r.error()); }

int fds()
{
  int n = 0;
  if (auto d = ::opendir("/proc/self/fd")) { while (::readdir(d)) n++; ::closedir(d); }
  return n;
}

// ---- operations
template<typename Buf> std::vector<Buf> buffers(rec & r)
{
  std::vector<Buf> v;
  for (auto & b : r.bufs) v.push_back(Buf(b.data(), b.size()));
  return v;
}
struct result_ { std::string o = "ok"; long long n = -1; };
template<typename Op> actor await_(actor::slot_arg, rec & r, result_ & res, std::function<void()> done, Op op)
{
  frame_guard g;
  try
  {
    switch (r.form)
    {
      case 'd': res.n = co_await op; break;
      case 'r': { auto x = co_await cobalt::as_result(op); if (x) res.n = *x; else res.o = name(x.error()); break; }
      default: { auto [ec, m] = co_await cobalt::as_tuple(op); res.o = name(ec); res.n = m; break; }
    }
  }
  catch (sys::system_error & e) { res.o = name(e.code()); }
  r.fin = true;
  done();
}
template<typename Op> actor await_void(actor::slot_arg, rec & r, result_ & res, std::function<void()> done, Op op)
{
  frame_guard g;
  try
  {
    switch (r.form)
    {
      case 'd': co_await op; break;
      case 'r': { auto x = co_await cobalt::as_result(op); if (!x) res.o = name(x.error()); break; }
      default: { auto [ec] = co_await cobalt::as_tuple(op); res.o = name(ec); break; }
    }
  }
  catch (sys::system_error & e) { res.o = name(e.code()); }
  r.fin = true;
  done();
}

void split(rec & r, std::size_t n, int pieces)
{
  if (pieces <= 1) { r.bufs.assign(1, std::vector<unsigned char>(n)); return; }
  std::size_t a = n / 3, b = pieces == 2 ? 0 : (n - a) / 2;
  r.bufs.emplace_back(a);
  if (pieces > 2) r.bufs.emplace_back(b);
  if (pieces > 3) r.bufs.emplace_back(0);
  r.bufs.emplace_back(n - a - b);
}
template<typename Seq, typename Buf, typename F> void passing(rec & r, F && f)
{
  auto v = buffers<Buf>(r);
  if (v.size() == 1) return f(Seq(v[0]));
  // the pieces are the user's, and stay while the operation runs
  static std::map<rec*, std::vector<Buf>> keep;
  auto & k = keep[&r] = v;
  if (v.size() == 2) f(Seq(std::span<const Buf>(k))); else f(Seq(k));
}

void start(world & w, std::shared_ptr<rec> pr, std::size_t n)
{
  auto & r = *pr;
  auto & e = w.e[r.e];
  auto res = std::make_shared<result_>();
  const bool rd = r.c == 'R' || r.c == 'K' || r.c == 'O' || r.c == 'A';
  if (r.c == 'V')
  {
    (r.how == 'r' ? e.reading : e.writing) = r.i;
    auto fin = [&w, pr, res]
    {
      auto & e = w.e[pr->e];
      (pr->how == 'r' ? e.reading : e.writing) = 0;
      ev("res").i("i", pr->i).t("o", res->o).i("n", 0).i("got", 0).i("pk", 0).out();
    };
    using wt = io::socket::wait_type;
    await_void(actor::slot_arg{r.sig.slot()}, r, *res, fin, e.sock()->wait(r.how == 'r' ? wt::wait_read : wt::wait_write));
    return;
  }
  split(r, n, r.pieces);
  if (rd)
  {
    for (auto & b : r.bufs) std::fill(b.begin(), b.end(), fresh);
    e.reading = r.i;
    auto fin = [&w, pr, res]
    {
      auto & e = w.e[pr->e];
      e.reading = 0;
      long long touched = 0, pk = 0;
      bool good = true, end = false;
      for (auto & b : pr->bufs)
        for (auto c : b)
        {
          if (c == fresh) { end = true; continue; }
          if (end) good = false;
          if (w.packets()) { if (touched == 0) pk = c + 1; else if (pk != c + 1) good = false; }
          else if (c != pattern(e.rpos + touched)) good = false;
          touched++;
        }
      e.rpos += touched;
      ev("res").i("i", pr->i).t("o", res->o).i("n", res->n).i("got", good ? touched : -1).i("pk", pk).out();
    };
    passing<io::mutable_buffer_sequence, asio::mutable_buffer>(r, [&](io::mutable_buffer_sequence q)
    {
      actor::slot_arg sl{r.sig.slot()};
      if (r.c == 'A')
      {
        if (e.rp) await_(sl, r, *res, fin, io::read(*e.rp, q));
        else await_(sl, r, *res, fin, io::read(*e.ss, q));
      }
      else if (e.rp) { io::read_stream & st = *e.rp; await_(sl, r, *res, fin, st.read_some(q)); }
      else if (e.ss) { io::read_stream & st = *e.ss; await_(sl, r, *res, fin, st.read_some(q)); }
      else if (e.ds) await_(sl, r, *res, fin, e.ds->receive(q));
      else if (r.c == 'O') await_(sl, r, *res, fin, e.qs->receive(0, r.flags, q));
      else await_(sl, r, *res, fin, e.qs->receive(r.c == 'K' ? io::socket::message_peek : 0, q));
    });
  }
  else
  {
    long long p = e.wpos;
    for (auto & b : r.bufs) for (auto & c : b) c = w.packets() ? p : pattern(p++);
    e.writing = r.i;
    if (w.packets()) e.wpos++;
    auto fin = [&w, pr, res]
    {
      auto & e = w.e[pr->e];
      e.writing = 0;
      if (!w.packets()) { if (res->n >= 0) e.wpos += res->n; else if (pr->c == 'B') e.lost = true; }
      ev("res").i("i", pr->i).t("o", res->o).i("n", res->n).i("got", 0).i("pk", 0).out();
    };
    passing<io::const_buffer_sequence, asio::const_buffer>(r, [&](io::const_buffer_sequence q)
    {
      actor::slot_arg sl{r.sig.slot()};
      if (r.c == 'B')
      {
        if (e.wp) await_(sl, r, *res, fin, io::write(*e.wp, q));
        else await_(sl, r, *res, fin, io::write(*e.ss, q));
      }
      else if (e.wp) { io::write_stream & st = *e.wp; await_(sl, r, *res, fin, st.write_some(q)); }
      else if (e.ss) { io::write_stream & st = *e.ss; await_(sl, r, *res, fin, st.write_some(q)); }
      else if (e.ds) await_(sl, r, *res, fin, e.ds->send(q));
      else await_(sl, r, *res, fin, e.qs->send(0, q));
    });
  }
}

// ---- everything else
std::string regrab(world & w, end_ & e, char how)
{
  auto again = [&](auto & p, auto mk, auto as, auto bare) -> std::string
  {
    auto r = p->release();
    if (!r || *r < 0) return "err";
    if (p->is_open()) return "open";
    if (how == 'a') { auto a = as(*r); if (!a) return "noassign"; return "ok"; }
    p = how == 'c' ? mk(*r) : bare(*r);
    return p->is_open() && p->native_handle() == *r ? "ok" : "lost";
  };
  auto x = cobalt::this_thread::get_executor();
  if (e.rp) { auto mk = [&](int h) { return std::make_unique<io::readable_pipe>(h, x); }; return again(e.rp, mk, [&](int h) { return e.rp->assign(h); }, mk); }
  if (e.wp) { auto mk = [&](int h) { return std::make_unique<io::writable_pipe>(h); }; return again(e.wp, mk, [&](int h) { return e.wp->assign(h); }, mk); }
  if (e.ss) return again(e.ss, [&](int h) { return std::make_unique<io::stream_socket>(h, io::local_stream, x); }, [&](int h) { return e.ss->assign(io::local_stream, h); }, [&](int h) { return std::make_unique<io::stream_socket>(h); });
  if (e.ds) return again(e.ds, [&](int h) { return std::make_unique<io::datagram_socket>(h, io::local_datagram, x); }, [&](int h) { return e.ds->assign(io::local_datagram, h); }, [&](int h) { return std::make_unique<io::datagram_socket>(h); });
  return again(e.qs, [&](int h) { return std::make_unique<io::seq_packet_socket>(h, io::local_seqpacket, x); }, [&](int h) { return e.qs->assign(io::local_seqpacket, h); }, [&](int h) { return std::make_unique<io::seq_packet_socket>(h); });
}
template<typename F> auto each(end_ & e, F f)
{
  if (e.rp) return f(*e.rp);
  if (e.wp) return f(*e.wp);
  if (e.ss) return f(*e.ss);
  if (e.ds) return f(*e.ds);
  return f(*e.qs);
}
void relocate(end_ & e)
{
  auto mv = [](auto & p) { if (p) { using T = std::decay_t<decltype(*p)>; auto q = std::make_unique<T>(std::move(*p)); p = std::move(q); } };
  mv(e.rp); mv(e.wp); mv(e.ss); mv(e.ds); mv(e.qs);
}
bool pending(world & w, int e, const char * c = "RKOAWBV")
{
  for (auto & [i, r] : w.ops) if (r->e == e && !r->fin && std::strchr(c, r->c)) return true;
  return false;
}

void one(world & w, const std::vector<std::string> & c, int idx)
{
  const char k = c[0][0];
  if (k == 'Q')
  {
    ev("Q").out();
    settle(*w.ctx);
    settle(*w.ctx);
    return ev("back").out();
  }
  if (k == 'X')
  {
    auto itr = w.ops.find(std::stoi(c[1]));
    if (itr == w.ops.end() || itr->second->fin || itr->second->orphan) return;
    ev("X").i("i", itr->first).out();
    using ct = asio::cancellation_type;
    itr->second->sig.emit(c[2] == "p" ? ct::partial : c[2] == "t" ? ct::terminal : c[2] == "o" ? ct::total : ct::all);
    return ev("back").out();
  }
  const int n = std::stoi(c[1]);
  auto & e = w.e[n];
  if (!e.any()) return;
  const bool rd = std::strchr("RKOA", k) || (k == 'V' && c[3] == "r"), op = std::strchr("RKOAWBV", k);
  if (op)
  {
    if (rd ? e.reading != 0 : e.writing != 0) return;
    if (k == 'V' && !e.sock()) return;
    if (rd && k != 'V' && e.wp) return;
    if (!rd && k != 'V' && (e.rp || e.lost)) return;
    if ((k == 'A' || k == 'B') && w.packets()) return;
    if ((k == 'K' || k == 'O') && w.kind != 'q') return;
    auto r = std::make_shared<rec>();
    r->i = idx; r->e = n; r->c = k; r->form = k == 'B' ? 't' : (k == 'V' ? c[2] : c[3])[0];
    if (k == 'V') r->how = c[3][0]; else r->pieces = std::stoi(c[4]);
    w.ops[idx] = r;
    const int len = k == 'V' ? 0 : std::stoi(c[2]);
    ev("op").i("i", idx).t("c", c[0]).i("en", n).i("n", len).t("f", std::string(1, r->form)).t("w", std::string(1, r->how)).i("pk", !rd && w.packets() ? e.wpos + 1 : 0).out();
    start(w, r, len);
    return ev("back").out();
  }
  if (k == 'm' && pending(w, n)) return;
  if ((k == 'D' || (k == 'g' && c[2] != "a")) && pending(w, n, "AB")) return;      // they use it again
  if (k == 'D' || (k == 'g' && c[2] != "a")) for (auto & [i, r] : w.ops) if (r->e == n) r->orphan = true;
  auto o = ev("do");
  o.t("c", c[0]).i("en", n);
  switch (k)
  {
    case 'c': o.t("o", each(e, [](auto & x) { return name(x.cancel()); })); break;
    case 'k': o.t("o", each(e, [](auto & x) { return name(x.close()); })); break;
    case 'h':
    {
      if (!e.sock()) return;
      using st = io::socket::shutdown_type;
      o.t("how", c[2]).t("o", name(c[2] == "b" && c.size() == 3 ? e.sock()->shutdown() : e.sock()->shutdown(c[2] == "r" ? st::shutdown_receive : st::shutdown_send)));
      break;
    }
    case 'y':
    {
      if (!e.sock()) return;
      auto r = e.sock()->bytes_readable();
      o.t("o", name(r)).i("n", r ? static_cast<long long>(*r) : 0);
      break;
    }
    case 'm': relocate(e); o.t("o", "ok"); break;
    case 'g': o.t("o", regrab(w, e, c[2][0])); break;
    case 'i':
    {
      bool op = each(e, [](auto & x) { return x.is_open(); });
      int h = each(e, [](auto & x) { return x.native_handle(); });
      bool x = true;
      if (e.rp) x = e.rp->get_executor() == cobalt::executor(w.ctx->get_executor());
      if (e.wp) x = e.wp->get_executor() == cobalt::executor(w.ctx->get_executor());
      o.t("o", !x ? "executor" : op ? (::fcntl(h, F_GETFD) >= 0 ? "open" : "bad") : "closed");
      break;
    }
    case 'D': e.reset(); o.t("o", "ok"); break;
    default: return;
  }
  o.out();
}

void streams(const scenario & s)
{
  const int before = fds();
  {
    world w;
    w.kind = s.head.at("kind")[0];
    cobalt::this_thread::set_executor(w.ctx->get_executor());
    auto old = cobalt::this_thread::set_default_resource(&w.res);
    bool ok = true, threw = false;
    { io::readable_pipe warm; io::stream_socket warm2; io::datagram_socket warm3; io::seq_packet_socket warm4; }   // the context opens its own
    rlimit lim{};
    ::getrlimit(RLIMIT_NOFILE, &lim);
    if (s.head.count("none")) { auto l = lim; l.rlim_cur = 3; ::setrlimit(RLIMIT_NOFILE, &l); }     // no descriptor to be had
    try {
    if (w.kind == 'p')
    {
      auto p = io::pipe();
      if ((ok = !!p)) { w.e[0].rp = std::make_unique<io::readable_pipe>(std::move(p->first)); w.e[1].wp = std::make_unique<io::writable_pipe>(std::move(p->second)); }
    }
    else if (w.kind == 's')
    {
      auto p = io::make_pair(io::local_stream);
      if ((ok = !!p)) for (int i : {0, 1}) w.e[i].ss = std::make_unique<io::stream_socket>(std::move(i ? p->second : p->first));
    }
    else if (w.kind == 'd')
    {
      auto p = io::make_pair(io::local_datagram);
      if ((ok = !!p)) for (int i : {0, 1}) w.e[i].ds = std::make_unique<io::datagram_socket>(std::move(i ? p->second : p->first));
    }
    else
    {
      auto p = io::make_pair(io::local_seqpacket);
      if ((ok = !!p)) for (int i : {0, 1}) w.e[i].qs = std::make_unique<io::seq_packet_socket>(std::move(i ? p->second : p->first));
    }
    }
    catch (...) { threw = true; ok = false; }
    ::setrlimit(RLIMIT_NOFILE, &lim);
    ev("made").b("ok", ok).b("threw", threw).out();
    if (ok)
    {
      // what one end writes is read from the other: positions are per direction
      int idx = 0;
      for (auto & c : s.cmds) one(w, c, ++idx);
    }
    ev("E").out();
    if (s.head.at("fin") == "s")
    {
      for (auto & e : w.e) if (e.any()) (void)each(e, [](auto & x) { return name(x.close()); });
      settle(*w.ctx);
      ev("settled").out();
    }
    w.e[0].reset(); w.e[1].reset();
    muted = true;
    w.ctx.reset();
    muted = false;
    for (auto & [i, r] : w.ops) (void)r;
    w.ops.clear();
    cobalt::this_thread::set_default_resource(old);
    ev("end").i("frames", live_frames).i("mem", static_cast<long long>(w.res.live.size())).i("bad", w.res.bad).i("fds", fds() - before).out();
  }
}

// ---- options
struct option { std::function<sys::result<void>(io::socket &, int)> set; std::function<sys::result<int>(io::socket &)> get; };
template<typename T> sys::result<int> to_int(sys::result<T> r) { if (r) return static_cast<int>(*r); return r.error(); }
#define OPT(Name) {#Name, {[](io::socket & s, int v) { return s.set_##Name(v); }, [](io::socket & s) { return to_int(s.get_##Name()); }}}
std::map<std::string, option> options()
{
  return {
    OPT(debug), OPT(do_not_route), OPT(enable_connection_aborted), OPT(keep_alive), OPT(receive_buffer_size), OPT(send_buffer_size),
    OPT(receive_low_watermark), OPT(send_low_watermark), OPT(reuse_address), OPT(no_delay),
    {"linger", {[](io::socket & s, int v) { return s.set_linger(v & 1, v >> 1); },
                [](io::socket & s) -> sys::result<int> { auto r = s.get_linger(); if (r) return r->first + 2 * r->second; return r.error(); }}}};
}
void opts(const scenario & s)
{
  asio::io_context ctx;
  cobalt::this_thread::set_executor(ctx.get_executor());
  std::unique_ptr<io::socket> so;
  static const auto all = options();
  const bool tcp = s.head.at("sock") == "s";
  auto go = [&](io::socket & x)
  {
    for (auto & c : s.cmds)
    {
      if (c[0] == "open") { ev("open").t("o", name(tcp ? x.open(io::tcp_v4) : x.open(io::local_datagram))).out(); }
      else if (c[0] == "close") { ev("close").t("o", name(x.close())).out(); }
      else if (c[0] == "s") { ev("set").t("k", c[1]).i("v", std::stoi(c[2])).t("o", name(all.at(c[1]).set(x, std::stoi(c[2])))).out(); }
      else { auto r = all.at(c[1]).get(x); ev("get").t("k", c[1]).t("o", name(r)).i("v", r ? *r : 0).out(); }
    }
  };
  if (tcp) { io::stream_socket x; go(x); } else { io::datagram_socket x; go(x); }
}

int main(int argc, char ** argv)
{
  ::signal(SIGPIPE, SIG_IGN);
  return run_scenarios(argc, argv, [](const scenario & s) { if (s.head.at("kind") == "o") opts(s); else streams(s); });
}
