// Conformance driver for composed transfers (io::read, io::write, io::read_at, io::write_at) and buffer sequences.
// SRC: io/read io/write
//
// header: kind=<r|w|R|W>  read, write, read_at, write_at, over a stream that does what `steps` says
//         form=<d|r|t|j>  direct, as_result, as_tuple, within a join
//         bufs=3,0,2      sizes of the user's buffers;  ctor=<s|a|v|p|g>: how they are passed (single, array, vector,
//                         span, registered)
//         off=5           offset in the device
//         steps=<n><how>[e],..   transfers up to n bytes, e with an error afterwards
//   how   r when asked whether it is ready, i inline, p posted, h held (cancellation completes it, inline),
//         j held (cancellation is ignored)
// commands: go, C complete the held step, X t cancel, Q poll until idle
//
// kind=m|c: a mutable or const buffer sequence;  commands: A n drop n bytes, O look at it, Y copy it
#include "common.hpp"
#include <boost/cobalt/io/read.hpp>
#include <boost/cobalt/io/write.hpp>
#include <boost/cobalt/io/stream.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/asio/buffer_registration.hpp>
#include <boost/asio/post.hpp>
#include <optional>
#include <array>
using namespace h;
namespace io = boost::cobalt::io;
using ec_t = boost::system::error_code;
using handler_t = cobalt::completion_handler<ec_t, std::size_t>;

struct step { std::size_t n; char how; bool err; };
struct world
{
  std::vector<std::vector<unsigned char>> bufs;
  std::vector<unsigned char> wire;      // what was written
  std::vector<step> steps;
  std::size_t k = 0, total = 0, off = 0, moved = 0;
  char kind = 'r', form = 'd', ctor = 'a';
  std::optional<handler_t> held;
  std::size_t held_n = 0; bool held_err = false;
  std::unique_ptr<asio::io_context> ctx = std::make_unique<asio::io_context>();
  asio::cancellation_signal sig;
  counting_resource res;
  bool fin = false;
};

// position of p in the user's buffers, one after the other
long long flat(world & w, const void * p, std::size_t n)
{
  auto c = static_cast<const unsigned char *>(p);
  long long at = 0;
  for (auto & b : w.bufs)
  {
    if (!b.empty() && c >= b.data() && c + n <= b.data() + b.size()) return at + (c - b.data());
    at += b.size();
  }
  return -3;
}

// what a buffer sequence refers to: from where, how much; -2 if it is not one piece
template<typename Range> std::pair<long long, long long> extent(world & w, const Range & rg)
{
  long long at = -1, len = 0;
  for (auto i = asio::buffer_sequence_begin(rg), e = asio::buffer_sequence_end(rg); i != e; ++i)
  {
    auto sz = asio::buffer_size(*i);
    if (!sz) continue;
    auto f = flat(w, i->data(), sz);
    if (f < 0) return {f, len};
    if (at == -1) at = f;
    else if (at + len != f) return {-2, len};
    len += sz;
  }
  return {at, len};
}

template<typename Seq> std::size_t transfer(world & w, const Seq & seq, std::size_t n)
{
  std::size_t done = 0;
  for (auto i = seq.begin(); i != seq.end() && done < n; ++i)
  {
    auto sz = (std::min)(n - done, i->size());
    for (std::size_t j = 0; j < sz; j++)
    {
      if constexpr (std::is_same_v<Seq, io::mutable_buffer_sequence>) static_cast<unsigned char*>(i->data())[j] = ++w.moved;
      else w.wire.push_back(static_cast<const unsigned char*>(i->data())[j]), w.moved++;
    }
    done += sz;
  }
  return done;
}

step next(world & w) { return w.k < w.steps.size() ? w.steps[w.k] : step{1000, 'i', false}; }
template<typename Seq> void log_step(world & w, std::uint64_t off, const Seq & seq)
{
  auto [at, len] = extent(w, seq);
  ev("step").i("k", w.k + 1).i("off", off).i("at", at).i("len", len).out();
}
ec_t outcome(bool err) { return err ? ec_t(asio::error::eof) : ec_t(); }

template<typename Seq> void try_(void * p, std::uint64_t off, Seq seq, cobalt::handler<ec_t, std::size_t> h)
{
  auto & w = *static_cast<world*>(p);
  auto s = next(w);
  if (s.how != 'r') return;
  log_step(w, off, seq);
  w.k++;
  auto n = transfer(w, seq, s.n);
  h(outcome(s.err), n);
}
template<typename Seq> void init_(void * p, std::uint64_t off, Seq seq, handler_t h)
{
  auto & w = *static_cast<world*>(p);
  auto s = next(w);
  log_step(w, off, seq);
  w.k++;
  auto n = transfer(w, seq, s.n);
  if (s.how == 'p')
    asio::post(w.ctx->get_executor(), [h = std::move(h), n, e = s.err]() mutable { std::move(h)(outcome(e), n); });
  else if (s.how == 'h' || s.how == 'j')
  {
    w.held_n = n; w.held_err = s.err;
    auto sl = h.get_cancellation_slot();
    w.held.emplace(std::move(h));
    if (s.how == 'h' && sl.is_connected())
      sl.assign([&w](asio::cancellation_type)
      {
        if (!w.held) return;
        auto h = std::move(*w.held);
        w.held.reset();
        std::move(h)(asio::error::operation_aborted, w.held_n);
      });
  }
  else
    std::move(h)(outcome(s.err), n);
}

struct rstr
{
  world & w;
  static void i(void * p, io::mutable_buffer_sequence s, handler_t h) { init_(p, 0, s, std::move(h)); }
  static void t(void * p, io::mutable_buffer_sequence s, cobalt::handler<ec_t, std::size_t> h) { try_(p, 0, s, h); }
  io::read_op read_some(io::mutable_buffer_sequence s) { return {s, &w, i, t}; }
};
struct wstr
{
  world & w;
  static void i(void * p, io::const_buffer_sequence s, handler_t h) { init_(p, 0, s, std::move(h)); }
  static void t(void * p, io::const_buffer_sequence s, cobalt::handler<ec_t, std::size_t> h) { try_(p, 0, s, h); }
  io::write_op write_some(io::const_buffer_sequence s) { return {s, &w, i, t}; }
};
struct rdev
{
  world & w;
  io::read_at_op read_some_at(std::uint64_t o, io::mutable_buffer_sequence s) { return {o, s, &w, &init_<io::mutable_buffer_sequence>, &try_<io::mutable_buffer_sequence>}; }
};
struct wdev
{
  world & w;
  io::write_at_op write_some_at(std::uint64_t o, io::const_buffer_sequence s) { return {o, s, &w, &init_<io::const_buffer_sequence>, &try_<io::const_buffer_sequence>}; }
};

// the user's buffers, passed in one of several ways
template<typename Buf, typename Seq, typename F> void passing(world & w, F && f)
{
  std::vector<Buf> v;
  for (auto & b : w.bufs) v.push_back(Buf(b.data(), b.size()));
  if (w.ctor == 's' && v.size() == 1) return f(Seq(v[0]));
  if (w.ctor == 'a' && v.size() == 2) { std::array<Buf, 2> a{v[0], v[1]}; return f(Seq(a)); }
  if (w.ctor == 'p') return f(Seq(std::span<const Buf>(v)));
  if (w.ctor == 'g' && v.size() == 1)
  {
    std::array<asio::mutable_buffer, 1> m{asio::mutable_buffer(w.bufs[0].data(), w.bufs[0].size())};
    auto reg = asio::register_buffers(*w.ctx, m);
    return f(Seq(reg[0]));
  }
  f(Seq(v));
}

std::string name(const ec_t & ec) { return !ec ? "ok" : ec == asio::error::eof ? "eof" : classify(ec); }
template<typename Op> actor body(actor::slot_arg, world & w, Op op)
{
  frame_guard g;
  std::string o = "ok";
  long long n = -1;
  try
  {
    switch (w.form)
    {
      case 'd': n = co_await op; break;
      case 'r': { auto r = co_await cobalt::as_result(op); if (r) n = *r; else o = name(r.error()); break; }
      case 't': { auto [ec, m] = co_await cobalt::as_tuple(op); o = name(ec); n = m; break; }
      case 'j': { auto [m] = co_await cobalt::join(op); n = m; break; }
    }
  }
  catch (boost::system::system_error & e) { o = name(e.code()); }
  w.fin = true;
  ev("res").t("o", o).i("n", n).out();
}

void state(world & w)      // how far the data got: that many bytes are right and no other was touched
{
  long long good = 0;
  bool ok = true;
  if (w.kind == 'r' || w.kind == 'R')
  {
    bool end = false;
    for (auto & b : w.bufs)
      for (auto c : b)
        if (!end && c == static_cast<unsigned char>(good + 1)) good++;
        else { end = true; if (c != 0) ok = false; }
  }
  else
    for (auto c : w.wire) if (c == static_cast<unsigned char>(100 + good)) good++; else ok = false;
  ev("data").i("n", ok ? good : -1).out();
}

void run(const scenario & s, world & w)
{
  cobalt::this_thread::set_executor(w.ctx->get_executor());
  auto old = cobalt::this_thread::set_default_resource(&w.res);
  const bool rd = w.kind == 'r' || w.kind == 'R';
  unsigned char c = 100;
  for (auto & b : w.bufs) for (auto & x : b) x = rd ? 0 : c++;
  auto drive = [&](auto && mk)
  {
    bool started = false;
    for (auto & cmd : s.cmds)
    {
      if (cmd[0] == "go")
      {
        if (std::exchange(started, true)) continue;
        ev("go").out();
        body(actor::slot_arg{w.sig.slot()}, w, mk());
      }
      else if (cmd[0] == "C")
      {
        if (!w.held) continue;
        ev("C").out();
        if (auto sl = w.held->get_cancellation_slot(); sl.is_connected()) sl.clear();
        auto h = std::move(*w.held);
        w.held.reset();
        std::move(h)(outcome(w.held_err), w.held_n);
      }
      else if (cmd[0] == "X")
      {
        if (!started || w.fin) continue;
        using ct = asio::cancellation_type;
        ev("X").out();
        w.sig.emit(cmd[1] == "p" ? ct::partial : cmd[1] == "t" ? ct::terminal : cmd[1] == "o" ? ct::total : ct::all);
      }
      else if (cmd[0] == "Q")
      {
        ev("Q").out();
        settle(*w.ctx);
      }
      ev("back").out();
    }
  };
  if (rd)
    passing<asio::mutable_buffer, io::mutable_buffer_sequence>(w, [&](io::mutable_buffer_sequence q)
    {
      if (w.kind == 'r') drive([&] { rstr st{w}; return io::read(st, q); });
      else drive([&] { rdev d{w}; return io::read_at(d, w.off, q); });
    });
  else
    passing<asio::const_buffer, io::const_buffer_sequence>(w, [&](io::const_buffer_sequence q)
    {
      if (w.kind == 'w') drive([&] { wstr st{w}; return io::write(st, q); });
      else drive([&]
      {
        wdev d{w};
        return io::write_at(d, w.off, q);
      });
    });
  state(w);
  w.held.reset();
  w.ctx.reset();
  cobalt::this_thread::set_default_resource(old);
  ev("end").i("frames", live_frames).i("mem", static_cast<long long>(w.res.live.size())).i("bad", w.res.bad).out();
}

template<typename Seq> void look(world & w, const Seq & q)
{
  auto rep = [&](const char * how, const auto & rg, bool n)
  {
    auto [at, len] = extent(w, rg);
    ev("obs").t("how", how).i("at", at).i("len", len).b("n", n).out();
  };
  using buf = std::decay_t<decltype(*q.begin())>;
  const auto n = q.buffer_count();
  std::vector<buf> v;
  for (auto i = q.begin(); i != q.end(); i++) v.push_back(*i);
  rep("post", v, v.size() == n && q.end() - q.begin() == std::ptrdiff_t(n) && std::size_t(std::distance(q.begin(), q.end())) == n);
  v.clear();
  for (auto i = q.begin(); i != q.end(); ++i) v.push_back(buf(i->data(), i->size()));
  rep("pre", v, v.size() == n);
  v.clear();
  for (std::size_t i = 0; i < n; i++) v.push_back(q.begin()[i]);
  rep("index", v, q.begin() + n == q.end());
  v.clear();
  for (auto i = q.end(); i != q.begin();) { --i; v.insert(v.begin(), *i); }
  rep("back", v, v.size() == n && q.end() - n == q.begin());
  v.clear();
  { auto i = q.begin(); for (std::size_t k = 0; k < n; k++) { v.push_back(*(q.begin() + k)); i += 1; } rep("plus", v, i == q.end()); }
  v.clear();
  { auto i = q.end(); for (std::size_t k = 0; k < n; k++) { i -= 1; v.insert(v.begin(), i[0]); } rep("minus", v, i == q.begin()); }
  v.clear();
  { auto i = q.end(); for (std::size_t k = 0; k < n; k++) { i--; v.insert(v.begin(), *i); } rep("postdec", v, i == q.begin() && !(i != q.begin())); }
  visit(q, [&](auto b) { rep("visit", b, n == 1 ? !std::is_same_v<decltype(b), Seq> : std::is_same_v<decltype(b), Seq>); });
  rep("size", q, true);
}
template<typename Seq> void looking(const scenario & s, world & w, Seq q)
{
  for (auto & c : s.cmds)
  {
    if (c[0] == "A") { ev("A").i("n", std::stoi(c[1])).out(); auto & r = (q += std::stoi(c[1])); if (&r != &q) ev("other").out(); }
    else if (c[0] == "Y") { ev("Y").out(); Seq o(q), e; e = o; q = Seq(); q = e; }
    else if (c[0] == "O") look(w, q);
  }
}

void go(const scenario & s)
{
  world w;
  w.kind = s.head.at("kind")[0];
  for (auto & x : split(s.head.at("bufs"), ',')) if (!x.empty()) { w.bufs.emplace_back(std::stoi(x)); w.total += w.bufs.back().size(); w.bufs.back().shrink_to_fit(); }
  if (s.head.count("ctor")) w.ctor = s.head.at("ctor")[0];
  if (w.kind == 'm' || w.kind == 'c')
  {
    if (w.kind == 'm') passing<asio::mutable_buffer, io::mutable_buffer_sequence>(w, [&](auto q) { looking(s, w, q); });
    else passing<asio::const_buffer, io::const_buffer_sequence>(w, [&](auto q) { looking(s, w, q); });
    return;
  }
  w.form = s.head.at("form")[0];
  w.off = std::stoi(s.head.at("off"));
  for (auto & x : split(s.head.at("steps"), ','))
    if (!x.empty())
    {
      std::size_t p = 0;
      int n = std::stoi(x, &p);
      w.steps.push_back({std::size_t(n), x.at(p), x.back() == 'e'});
    }
  run(s, w);
}

int main(int argc, char ** argv) { return run_scenarios(argc, argv, &go); }
