// Conformance driver for the timers, sleeps and signal sets.
// SRC: io/steady_timer io/system_timer io/sleep io/signal_set
//
// The clocks are the driver's own; both start at 10 and move by command, in ms.
// header: kind=<t|g>  timers or signals      fin=<s|d>   at the end: cancel and let it settle, or destroy the context
// timers (t: a timer, k: of the clock y|s (steady|system), F: form d|r|t, v: a time, M is the end of it):
//   T t k d|a|i v    make it by default, at or in         r t a|i v  reset it        w t F  wait       c t  cancel    D t  destroy
//   x t expired      e t expiry      m t u  move u from t          M t u  move-assign t to u
//   S k a|i v F      sleep           + v  time passes      = v  the system clock is set         X i   cancel operation i      Q  poll
// signals (s: a set, n: 1 2 3 are signals, 0 is none):
//   G s n..  make a set of these     a s n add   r s n remove   C s clear   c s cancel   D s destroy   w s F wait   ! n raise
#include "common.hpp"
#include <boost/cobalt/io/steady_timer.hpp>
#include <boost/cobalt/io/system_timer.hpp>
#include <boost/cobalt/io/sleep.hpp>
#include <boost/cobalt/io/signal_set.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/asio/executor_work_guard.hpp>
#include <boost/asio/signal_set.hpp>
#include <optional>
#include <cerrno>
#include <csignal>
using namespace h;
namespace io = boost::cobalt::io;
namespace sys = boost::system;
using namespace std::chrono;
using ec_t = sys::error_code;

// ---- time
long long steady_ms = 0, system_ms = 0;
constexpr long long steady_base = 1'000'000, system_base = 1'700'000'000'000;
namespace std::chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(milliseconds(steady_base + steady_ms)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<system_clock::duration>(milliseconds(system_base + system_ms))); }
} }
// the loop is to look at the clock, not at the kernel's
extern "C" int timerfd_create(int, int) { errno = ENOSYS; return -1; }

constexpr long long forever = 1'000'000;
template<typename Clock> constexpr long long base() { return std::is_same_v<Clock, steady_clock> ? steady_base : system_base; }
template<typename Clock> typename Clock::time_point at(const std::string & v)
{
  if (v == "M") return Clock::time_point::max();
  return typename Clock::time_point(duration_cast<typename Clock::duration>(milliseconds(base<Clock>() + std::stoll(v))));
}
template<typename Clock> typename Clock::duration in(const std::string & v)
{
  if (v == "M") return Clock::duration::max();
  return duration_cast<typename Clock::duration>(milliseconds(std::stoll(v)));
}
template<typename Clock> long long when(typename Clock::time_point t)
{
  if (t == typename Clock::time_point()) return -1000;
  if (t == Clock::time_point::max()) return forever;
  return duration_cast<milliseconds>(t.time_since_epoch()).count() - base<Clock>();
}
long long num(const std::string & v) { return v == "M" ? forever : std::stoll(v); }

// ---- operations
struct rec
{
  int i = 0, of = 0;
  char form = 'd';
  asio::cancellation_signal sig;
  bool fin = false, orphan = false;
};
struct timer { std::unique_ptr<io::steady_timer> y; std::unique_ptr<io::system_timer> s; };
struct world
{
  std::map<int, timer> timers;
  std::map<int, std::unique_ptr<io::signal_set>> sets;
  std::map<int, std::shared_ptr<rec>> ops;
  std::unique_ptr<asio::io_context> ctx = std::make_unique<asio::io_context>();
  counting_resource res;
  std::optional<boost::asio::executor_work_guard<asio::io_context::executor_type>> work{boost::asio::make_work_guard(*ctx)};  // the loop looks for signals
};
std::string name(const ec_t & ec) { return !ec ? "ok" : ec == asio::error::operation_aborted ? "aborted" : "err"; }
template<typename T> std::string name(const sys::result<T> & r) { return r ? "ok" : name(r.error()); }

template<typename F> actor await_(actor::slot_arg, std::shared_ptr<rec> pr, F make)
{
  frame_guard g;
  auto & r = *pr;
  std::string o = "ok";
  long long n = 0;
  auto op = make();
  using Op = decltype(op);
  constexpr bool sig = std::is_same_v<decltype(std::declval<Op&>().operator co_await().await_resume()), int>;
  try
  {
    switch (r.form)
    {
      case 'd': if constexpr (sig) n = co_await op; else co_await op; break;
      case 'r': { auto x = co_await cobalt::as_result(op); o = name(x); if constexpr (sig) if (x) n = *x; break; }
      default: if constexpr (sig) { auto [ec, m] = co_await cobalt::as_tuple(op); o = name(ec); if (!ec) n = m; }
               else { auto [ec] = co_await cobalt::as_tuple(op); o = name(ec); }
    }
  }
  catch (sys::system_error & e) { o = name(e.code()); }
  r.fin = true;
  ev("res").i("i", r.i).t("o", o).i("n", n == SIGUSR1 ? 1 : n == SIGUSR2 ? 2 : n == SIGWINCH ? 3 : n).out();
}
constexpr int signals[] = {0, SIGUSR1, SIGUSR2, SIGWINCH};

std::shared_ptr<rec> fresh(world & w, int idx, int of, const std::string & form)
{
  auto r = std::make_shared<rec>();
  r->i = idx; r->of = of; r->form = form[0];
  return w.ops[idx] = r;
}
void orphaned(world & w, int of) { for (auto & [i, r] : w.ops) if (r->of == of) r->orphan = true; }

bool common(world & w, const std::vector<std::string> & c)
{
  if (c[0] == "Q") { ev("Q").out(); settle(*w.ctx); settle(*w.ctx); ev("back").out(); return true; }
  if (c[0] != "X") return false;
  auto itr = w.ops.find(std::stoi(c[1]));
  if (itr == w.ops.end() || itr->second->fin || itr->second->orphan) return true;
  ev("X").i("i", itr->first).out();
  itr->second->sig.emit(asio::cancellation_type::all);
  ev("back").out();
  return true;
}
template<typename Clock, typename T> std::unique_ptr<T> make(const std::string & how, const std::string & v)
{
  if (how == "d") return std::make_unique<T>();
  if (how == "a") return std::make_unique<T>(at<Clock>(v));
  return std::make_unique<T>(in<Clock>(v));
}
template<typename F> void each(timer & t, F f) { if (t.y) f(*t.y); else f(*t.s); }
void time_(world & w, const std::vector<std::string> & c, int idx)
{
  const char k = c[0][0];
  if (common(w, c)) return;
  if (k == '+') { steady_ms += std::stoi(c[1]); system_ms += std::stoi(c[1]); return ev("pass").i("v", std::stoi(c[1])).out(); }
  if (k == '=') { system_ms = std::stoi(c[1]); return ev("jump").i("v", system_ms).out(); }
  if (k == 'S')
  {
    auto r = fresh(w, idx, 0, c[4]);
    if (c[1] == "s" && c[2] == "i") return;
    ev("sleep").i("i", idx).t("k", c[1]).t("how", c[2]).i("v", num(c[3])).out();
    actor::slot_arg sl{r->sig.slot()};
    if (c[1] == "y" && c[2] == "a") await_(sl, r, [v = c[3]] { return io::sleep(at<steady_clock>(v)); });
    else if (c[1] == "y" && c[3] != "M" && idx % 2) await_(sl, r, [v = c[3]] { return io::sleep(milliseconds(std::stoi(v))); });
    else if (c[1] == "y") await_(sl, r, [v = c[3]] { return io::sleep(in<steady_clock>(v)); });
    else if (idx % 2 && c[3] != "M") await_(sl, r, [v = c[3]] { return io::sleep(time_point_cast<milliseconds>(at<system_clock>(v))); });
    else await_(sl, r, [v = c[3]] { return io::sleep(at<system_clock>(v)); });
    return ev("back").out();
  }
  const int n = std::stoi(c[1]);
  if (k == 'T')
  {
    if (w.timers.count(n)) return;
    auto & t = w.timers[n];
    if (c[2] == "y") t.y = make<steady_clock, io::steady_timer>(c[3], c[4]); else t.s = make<system_clock, io::system_timer>(c[3], c[4]);
    return ev("new").i("t", n).t("k", c[2]).t("how", c[3]).i("v", num(c[4])).out();
  }
  if (!w.timers.count(n)) return;
  auto & t = w.timers[n];
  switch (k)
  {
    case 'w':
    {
      auto r = fresh(w, idx, n, c[2]);
      ev("wait").i("i", idx).i("t", n).out();
      actor::slot_arg sl{r->sig.slot()};
      if (t.y) await_(sl, r, [&x = *t.y] { return x.wait(); }); else await_(sl, r, [&x = *t.s] { return x.wait(); });
      return ev("back").out();
    }
    case 'r':
      if (t.y) { if (c[2] == "a") t.y->reset(at<steady_clock>(c[3])); else t.y->reset(in<steady_clock>(c[3])); }
      else { if (c[2] == "a") t.s->reset(at<system_clock>(c[3])); else t.s->reset(in<system_clock>(c[3])); }
      return ev("reset").i("t", n).t("how", c[2]).i("v", num(c[3])).out();
    case 'c': each(t, [](auto & t) { t.cancel(); }); return ev("cancel").i("t", n).out();
    case 'D': orphaned(w, n); w.timers.erase(n); return ev("gone").i("t", n).out();
    case 'x': { bool x = false; each(t, [&](auto & t) { x = t.expired(); }); return ev("expired").i("t", n).b("v", x).out(); }
    case 'e': return ev("expiry").i("t", n).i("v", t.y ? when<steady_clock>(t.y->expiry()) : when<system_clock>(t.s->expiry())).out();
    case 'm':
    {
      const int u = std::stoi(c[2]);
      if (w.timers.count(u)) return;
      auto & x = w.timers[u];
      if (t.y) x.y = std::make_unique<io::steady_timer>(std::move(*t.y)); else x.s = std::make_unique<io::system_timer>(std::move(*t.s));
      orphaned(w, n);
      w.timers.erase(n);
      return ev("move").i("t", n).i("u", u).out();
    }
    case 'M':
    {
      const int u = std::stoi(c[2]);
      if (u == n || !w.timers.count(u) || !w.timers[u].y != !t.y) return;
      auto & x = w.timers[u];
      orphaned(w, u);
      orphaned(w, n);
      if (t.y) *x.y = std::move(*t.y); else *x.s = std::move(*t.s);
      w.timers.erase(n);
      return ev("assign").i("t", n).i("u", u).out();
    }
  }
}
void signal_(world & w, const std::vector<std::string> & c, int idx)
{
  const char k = c[0][0];
  if (common(w, c)) return;
  const int n = std::stoi(c[1]);
  if (k == '!') { ev("raise").i("n", n).out(); ::raise(signals[n]); return; }
  if (k == 'G')
  {
    if (w.sets.count(n)) return;
    std::vector<long long> ns;
    for (std::size_t j = 2; j < c.size(); j++) ns.push_back(std::stoi(c[j]));
    std::string o = "ok";
    auto g = [&](std::size_t j) { return signals[ns[j]] ? signals[ns[j]] : 12345; };
    try
    {
      w.sets[n] = ns.size() == 0 ? std::make_unique<io::signal_set>() : ns.size() == 1 ? std::make_unique<io::signal_set>(std::initializer_list<int>{g(0)})
                : std::make_unique<io::signal_set>(std::initializer_list<int>{g(0), g(1)}, cobalt::this_thread::get_executor());
    }
    catch (sys::system_error & e) { o = "err"; w.sets.erase(n); }
    return ev("set").i("s", n).l("ns", ns).t("o", o).out();
  }
  if (!w.sets.count(n)) return;
  auto & s = *w.sets[n];
  if (k == 'w')
  {
    auto r = fresh(w, idx, n, c[2]);
    ev("wait").i("i", idx).i("s", n).out();
    await_(actor::slot_arg{r->sig.slot()}, r, [&s] { return s.wait(); });
    return ev("back").out();
  }
  auto e = ev("do");
  const int m = c.size() > 2 ? std::stoi(c[2]) : 0;
  e.t("c", c[0]).i("s", n).i("n", m);
  std::string o = "ok";
  switch (k)
  {
    case 'a': o = name(s.add(m ? signals[m] : 12345)); break;
    case 'r': o = name(s.remove(m ? signals[m] : 12345)); break;
    case 'C': o = name(s.clear()); break;
    case 'c': o = name(s.cancel()); break;
    case 'D': orphaned(w, n); w.sets.erase(n); break;
  }
  e.t("o", o).out();
}

void all(const scenario & s)
{
  world w;
  steady_ms = system_ms = 10;
  const bool timers = s.head.at("kind") == "t";
  cobalt::this_thread::set_executor(w.ctx->get_executor());
  auto old = cobalt::this_thread::set_default_resource(&w.res);
  // what nobody waits for does not end the program
  static asio::io_context guard_ctx;
  static boost::asio::signal_set guard(guard_ctx, SIGUSR1, SIGUSR2, SIGWINCH);
  if (!timers) { io::signal_set left; settle(*w.ctx); }     // of the scenario before
  int idx = 0;
  for (auto & c : s.cmds) { if (timers) time_(w, c, ++idx); else signal_(w, c, ++idx); }
  ev("E").out();
  if (s.head.at("fin") == "s")
  {
    for (auto & [i, t] : w.timers) each(t, [](auto & t) { t.cancel(); });
    for (auto & [i, t] : w.sets) (void)t->cancel();
    for (auto & [i, r] : w.ops) if (r->of == 0 && !r->fin) r->sig.emit(asio::cancellation_type::terminal);
    settle(*w.ctx);
    settle(*w.ctx);
    ev("settled").out();
  }
  w.timers.clear();
  w.sets.clear();
  muted = true;
  w.work.reset();
  w.ctx.reset();
  muted = false;
  w.ops.clear();
  cobalt::this_thread::set_default_resource(old);
  ev("end").i("frames", live_frames).i("mem", static_cast<long long>(w.res.live.size())).i("bad", w.res.bad).out();
}

int main(int argc, char ** argv) { return run_scenarios(argc, argv, all); }
