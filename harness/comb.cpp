// PARTS: 5
// Conformance driver for race, left_race, gather and join (specification: spec/Comb.tla)
//
// A scenario builds a tree of combinators over scripted awaitables ("probes"); every contact between a
// combinator and what it awaits is recorded.
// header:   tree=<node>   node = <kind><flavour>(<node>,...) | p
//             kind = R(ace) Z(race<partial>) L(eft_race) G(ather) J(oin)
//             flavour: ranges    i child&  n not interruptible  m moved range  c operator co_await  C same, not interruptible, lvalues
//                                v void    w void, not interruptible  l/r interruptible as an lvalue only: lvalues, moved
//                      variadic  2 3 4 5 (see below)
//           l<n>=<start><onc><oni>  script of probe n: start s(uspend) r(eady) e(xception) f(inish in await_suspend) g (same, exception)
//             t await_ready throws  u await_suspend throws
//             onc (reaction to cancellation) a(bort) p(osted abort) k(eep going) v(alue)   oni (interrupt) a(bort) k(eep)
//           style=x|t|r (how combinators are resumed)   seed=<n>
// commands: F <n> finish  E <n> fail  T <n> begin_transaction  C <a|p|t|o> cancel the root  I interrupt the root  P poll  Q settle
#include "common.hpp"
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/asio/post.hpp>
#include <array>
#include <random>

using namespace h;
namespace variant2 = boost::variant2;
namespace system_ = boost::system;
using forkp = cobalt::detail::fork::promise_type;
using actp = actor::promise_type;

inline const char * ct_name(asio::cancellation_type t)
{
  switch (t)
  {
    case asio::cancellation_type::all: return "all";
    case asio::cancellation_type::partial: return "partial";
    case asio::cancellation_type::terminal: return "terminal";
    case asio::cancellation_type::total: return "total";
    default: return "none";
  }
}

struct world;
struct node
{
  int id; world & w;
  bool is_void = false;
  node(int id, world & w) : id(id), w(w) {}
  virtual ~node() = default;
  virtual bool ready() = 0;
  virtual std::coroutine_handle<void> suspend(std::coroutine_handle<forkp> h) = 0;
  virtual std::coroutine_handle<void> suspend(std::coroutine_handle<actp> h) = 0;
  virtual long resume() = 0;
  virtual void interrupt() = 0;
  virtual bool inner() const { return true; }

  bool w_ready() { if (inner()) ev("try").i("n", id).out(); return ready(); }
  template<typename H> std::coroutine_handle<void> w_suspend(H h) { ev("susp").i("n", id).out(); return suspend(h); }
  void w_interrupt() { ev("intr").i("n", id).out(); interrupt(); }
};

struct world
{
  counting_resource res;
  asio::io_context ctx{1};
  std::minstd_rand rng;
  char style = 'x';
  std::map<int, std::unique_ptr<node>> nodes;
  cobalt::unique_handle<void> gate;
  asio::cancellation_signal sig;
  std::map<std::string, std::string> head;
  bool root_done = false;
};

struct res_ev
{
  int n; std::string r = "ok"; long i = 0, v = 0; std::vector<std::string> outs;
  std::exception_ptr e;
  void out() { ev("res").i("n", n).t("r", r).i("i", i).i("v", v).lt("outs", outs).out(); }
};
inline std::string sval(long v) { return std::to_string(v); }

// what a combinator awaits: a plain awaitable, or something with operator co_await
template<bool Interruptible, typename T> struct child;
template<typename T> struct child_base
{
  node * n;
  bool await_ready() { return n->w_ready(); }
  template<typename P> std::coroutine_handle<void> await_suspend(std::coroutine_handle<P> h) { return n->w_suspend(h); }
  T await_resume() { if constexpr (std::is_void_v<T>) n->resume(); else return n->resume(); }
};
template<typename T> struct child<false, T> : child_base<T> {};
template<typename T> struct child<true, T> : child_base<T> { void interrupt_await() { this->n->w_interrupt(); } };
// interruptible only when it is an lvalue, as cobalt::promise is
template<typename T> struct lchild : child_base<T> { void interrupt_await() & { this->n->w_interrupt(); } };
template<bool Interruptible, typename T> struct co_child
{
  node * n;
  child<Interruptible, T> operator co_await() const { return {{n}}; }
};

struct probe final : node
{
  char start = 's', onc = 'a', oni = 'a';
  cobalt::unique_handle<void> h;
  asio::cancellation_slot slot;
  std::function<void()> tx;
  std::string out = "ok";
  bool in_tx = false, finished = false;
  using node::node;
  bool inner() const override { return false; }
  bool ready() override
  {
    if (start == 'e') out = "x" + std::to_string(id);
    if (start == 't') fail();
    return start == 'r' || start == 'e';
  }
  void fail()
  {
    out = "x" + std::to_string(id);
    resume();
  }
  template<typename H> std::coroutine_handle<void> do_suspend(H hh)
  {
    if (start == 'u') { ev("fin").i("n", id).out(); fail(); }
    if (start == 'f' || start == 'g')
    {
      if (start == 'g') out = "x" + std::to_string(id);
      ev("fin").i("n", id).out();
      return hh;
    }
    slot = hh.promise().get_cancellation_slot();
    if (slot.is_connected())
      slot.assign([this](asio::cancellation_type t) { cancelled(t); });
    if constexpr (requires {hh.promise().begin_transaction();})
      tx = [hh] { hh.promise().begin_transaction(); };
    h.reset(hh.address());
    return std::noop_coroutine();
  }
  std::coroutine_handle<void> suspend(std::coroutine_handle<forkp> hh) override { return do_suspend(hh); }
  std::coroutine_handle<void> suspend(std::coroutine_handle<actp> hh) override { return do_suspend(hh); }
  long resume() override
  {
    if (slot.is_connected()) { slot.clear(); slot = {}; }
    finished = true;
    res_ev r{id};
    r.r = out;
    r.v = out == "ok" && !is_void ? id : 0;
    r.out();
    if (out == "ok") return id;
    if (out == "aborted") throw system_::system_error(asio::error::operation_aborted);
    throw test_error(std::atoi(out.c_str() + 1));
  }
  bool pending() const { return static_cast<bool>(h); }
  void finish(const std::string & o)
  {
    if (!h) return;
    out = o;
    ev("fin").i("n", id).out();
    h.release().resume();
  }
  void cancelled(asio::cancellation_type t)
  {
    ev("canc").i("n", id).t("t", ct_name(t)).out();
    if (!h) return;
    switch (onc)
    {
      case 'a': finish("aborted"); break;
      case 'v': finish("ok"); break;
      case 'p': asio::post(w.ctx, [this] { finish("aborted"); }); break;
    }
  }
  void interrupt() override
  {
    if (h && oni == 'a' && !in_tx) finish("aborted");
  }
};

// ---------------------------------------------------------------------------------------------------
template<typename T> long to_long(T & t)
{
  if constexpr (std::is_same_v<std::decay_t<T>, variant2::monostate>) return 0; else return static_cast<long>(t);
}
template<typename R> std::string res_str(R & r)
{
  if (r.has_error()) return classify(r.error());
  if constexpr (std::is_void_v<typename R::value_type>) return "0"; else return sval(*r);
}
template<typename V> void fill_race(res_ev & r, V & v)
{
  if constexpr (std::is_same_v<std::decay_t<V>, std::size_t>) r.i = static_cast<long>(v);
  else if constexpr (requires { v.first; }) { r.i = static_cast<long>(v.first); r.v = v.second; }
  else { r.i = static_cast<long>(v.index()); r.v = variant2::visit([](auto & x) { return to_long(x); }, v); }
}
template<typename V> void fill_list(res_ev & r, V & v, bool results)
{
  auto one = [&](auto & x)
  {
    if constexpr (requires { x.has_error(); }) r.outs.push_back(res_str(x));
    else r.outs.push_back(sval(to_long(x)));
  };
  if constexpr (requires { v.begin(); }) for (auto & x : v) one(x);
  else std::apply([&](auto & ... x) { (one(x), ...); }, v);
}

template<char K, typename Aw>
void collect(Aw & aw, res_ev & r, char style)
{
  constexpr bool race = K == 'R' || K == 'L' || K == 'Z';
  try
  {
    if constexpr (race)
    {
      if (style == 'r')
      {
        auto rr = aw.await_resume(cobalt::as_result_tag{});
        if (rr.has_error()) std::rethrow_exception(rr.error());
        fill_race(r, *rr);
      }
      else if (style == 't')
      {
        auto [e, v] = aw.await_resume(cobalt::as_tuple_tag{});
        if (e) std::rethrow_exception(e);
        fill_race(r, v);
      }
      else { auto v = aw.await_resume(); fill_race(r, v); }
    }
    else if constexpr (std::is_void_v<decltype(aw.await_resume())>)
      aw.await_resume();
    else if constexpr (K == 'J' && requires {aw.await_resume(cobalt::as_result_tag{}).has_error();})
    {
      if (style == 'r')
      {
        auto rr = aw.await_resume(cobalt::as_result_tag{});
        if (rr.has_error()) std::rethrow_exception(rr.error());
        fill_list(r, *rr, false);
      }
      else if (style == 't')
      {
        auto [e, v] = aw.await_resume(cobalt::as_tuple_tag{});
        if (e) std::rethrow_exception(e);
        fill_list(r, v, false);
      }
      else { auto v = aw.await_resume(); fill_list(r, v, false); }
    }
    else { auto v = aw.await_resume(); fill_list(r, v, K == 'G'); }
  }
  catch (...) { r.e = std::current_exception(); r.r = classify(r.e); r.i = r.v = 0; r.outs.clear(); }
}

template<char K, typename Impl, typename Store>
struct comb final : node
{
  Store store;
  Impl impl;
  using aw_t = decltype(std::declval<Impl>().operator co_await());
  std::unique_ptr<aw_t> aw;
  template<typename F> comb(int id, world & w, Store st, F f) : node(id, w), store(std::move(st)), impl(f(store)) {}
  bool ready() override
  {
    if (!aw) aw.reset(new aw_t(std::move(impl).operator co_await()));
    return aw->await_ready();
  }
  template<typename H> std::coroutine_handle<void> do_suspend(H h)
  {
    if (aw->await_suspend(h)) return std::noop_coroutine();
    return h;
  }
  std::coroutine_handle<void> suspend(std::coroutine_handle<forkp> h) override { return do_suspend(h); }
  std::coroutine_handle<void> suspend(std::coroutine_handle<actp> h) override { return do_suspend(h); }
  void interrupt() override { if (aw) aw->interrupt_await(); }
  long resume() override
  {
    res_ev r{id};
    collect<K>(*aw, r, w.style);
    aw.reset();     // the temporary is gone by now
    r.out();
    if (r.e) std::rethrow_exception(r.e);
    return r.v;
  }
};

template<char K, typename ... A> auto make(world & w, A && ... a)
{
  if constexpr (K == 'R') return cobalt::race(w.rng, std::forward<A>(a)...);
  else if constexpr (K == 'Z') return cobalt::race<asio::cancellation_type::partial>(w.rng, std::forward<A>(a)...);
  else if constexpr (K == 'L') return cobalt::left_race(std::forward<A>(a)...);
  else if constexpr (K == 'G') return cobalt::gather(std::forward<A>(a)...);
  else return cobalt::join(std::forward<A>(a)...);
}

template<char K, typename Store, typename F>
std::unique_ptr<node> mk(int id, world & w, Store st, F f)
{
  using impl = decltype(f(st));
  return std::make_unique<comb<K, impl, Store>>(id, w, std::move(st), f);
}

template<char K>
std::unique_ptr<node> build_comb(int id, world & w, char fl, const std::vector<node*> & ch)
{
  auto ranged = [&]<typename C>(C *, bool lv) -> std::unique_ptr<node>
  {
    std::vector<C> v;
    for (auto n : ch) { C c{}; c.n = n; v.push_back(c); }
    if (lv) return mk<K>(id, w, std::move(v), [&w](std::vector<C> & v) { return make<K>(w, v); });
    return mk<K>(id, w, std::move(v), [&w](std::vector<C> & v) { return make<K>(w, std::move(v)); });
  };
  switch (fl)
  {
    case 'i': return ranged((child<true, long>*)nullptr, true);
    case 'n': return ranged((child<false, long>*)nullptr, true);
    case 'm': return ranged((child<true, long>*)nullptr, false);
    case 'c': return ranged((co_child<true, long>*)nullptr, false);
    case 'C': return ranged((co_child<false, long>*)nullptr, true);
    case 'v': for (auto n : ch) n->is_void = true; return ranged((child<true, void>*)nullptr, true);
    case 'l': return ranged((lchild<long>*)nullptr, true);
    case 'r': return ranged((lchild<long>*)nullptr, false);
    case 'w': for (auto n : ch) n->is_void = true; return ranged((child<false, void>*)nullptr, true);
    case '2':
    {
      using S = std::tuple<child<true, long>, child<false, long>>;
      S s{}; std::get<0>(s).n = ch.at(0); std::get<1>(s).n = ch.at(1);
      return mk<K>(id, w, s, [&w](S & s) { return make<K>(w, std::get<0>(s), std::move(std::get<1>(s))); });
    }
    case '3':
    {
      using S = std::tuple<child<false, long>, child<true, void>, co_child<true, long>>;
      S s{}; std::get<0>(s).n = ch.at(0); std::get<1>(s).n = ch.at(1); std::get<2>(s).n = ch.at(2);
      ch.at(1)->is_void = true;
      return mk<K>(id, w, s, [&w](S & s) { return make<K>(w, std::move(std::get<0>(s)), std::get<1>(s), std::move(std::get<2>(s))); });
    }
    case '5':
    {
      using S = std::tuple<lchild<long>, lchild<long>>;
      S s{}; std::get<0>(s).n = ch.at(0); std::get<1>(s).n = ch.at(1);
      return mk<K>(id, w, s, [&w](S & s) { return make<K>(w, std::get<0>(s), std::move(std::get<1>(s))); });
    }
    case '4':
    {
      using S = std::tuple<child<true, void>, child<true, void>>;
      S s{}; std::get<0>(s).n = ch.at(0); std::get<1>(s).n = ch.at(1);
      ch.at(0)->is_void = ch.at(1)->is_void = true;
      return mk<K>(id, w, s, [&w](S & s) { return make<K>(w, std::get<0>(s), std::move(std::get<1>(s))); });
    }
  }
  std::abort();
}

#if PART == 1
std::unique_ptr<node> build_r(int id, world & w, char fl, const std::vector<node*> & ch) { return build_comb<'R'>(id, w, fl, ch); }
#elif PART == 2
std::unique_ptr<node> build_l(int id, world & w, char fl, const std::vector<node*> & ch) { return build_comb<'L'>(id, w, fl, ch); }
std::unique_ptr<node> build_z(int id, world & w, char fl, const std::vector<node*> & ch) { return fl == 'i' || fl == '2' ? build_comb<'Z'>(id, w, fl, ch) : nullptr; }
#elif PART == 3
std::unique_ptr<node> build_g(int id, world & w, char fl, const std::vector<node*> & ch) { return build_comb<'G'>(id, w, fl, ch); }
#elif PART == 4
std::unique_ptr<node> build_j(int id, world & w, char fl, const std::vector<node*> & ch) { return build_comb<'J'>(id, w, fl, ch); }
#else
std::unique_ptr<node> build_r(int id, world & w, char fl, const std::vector<node*> & ch);
std::unique_ptr<node> build_z(int id, world & w, char fl, const std::vector<node*> & ch);
std::unique_ptr<node> build_l(int id, world & w, char fl, const std::vector<node*> & ch);
std::unique_ptr<node> build_g(int id, world & w, char fl, const std::vector<node*> & ch);
std::unique_ptr<node> build_j(int id, world & w, char fl, const std::vector<node*> & ch);

// parses the tree; node numbers are assigned in preorder
node * parse(world & w, const std::string & s, std::size_t & pos, int & next)
{
  const int id = next++;
  if (s[pos] == 'p')
  {
    pos++;
    auto p = std::make_unique<probe>(id, w);
    auto itr = w.head.find("l" + std::to_string(id));
    if (itr != w.head.end()) { p->start = itr->second[0]; p->onc = itr->second[1]; p->oni = itr->second[2]; }
    auto r = p.get();
    w.nodes[id] = std::move(p);
    return r;
  }
  char k = s[pos], fl = s[pos + 1];
  pos += 3; // kind, flavour, (
  std::vector<node*> ch;
  while (s[pos] != ')')
  {
    ch.push_back(parse(w, s, pos, next));
    if (s[pos] == ',') pos++;
  }
  pos++;
  std::unique_ptr<node> n;
  switch (k)
  {
    case 'R': n = build_r(id, w, fl, ch); break;
    case 'Z': n = build_z(id, w, fl, ch); break;
    case 'L': n = build_l(id, w, fl, ch); break;
    case 'G': n = build_g(id, w, fl, ch); break;
    case 'J': n = build_j(id, w, fl, ch); break;
  }
  auto r = n.get();
  w.nodes[id] = std::move(n);
  return r;
}

struct gate_aw
{
  world & w;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<void> h) { w.gate.reset(h.address()); }
  void await_resume() {}
};

actor run(actor::slot_arg, world & w, node * root)
{
  try { co_await child<true, long>{{root}}; } catch (...) {}
  w.root_done = true;
  // whatever the combinator left behind must not matter from here on
  co_await gate_aw{w};
}

void go(const scenario & s)
{
  auto own = std::make_unique<world>();
  auto & w = *own;
  w.head = s.head;
  w.style = s.head.count("style") ? s.head.at("style")[0] : 'x';
  w.rng.seed(s.head.count("seed") ? std::stoul(s.head.at("seed")) + 1 : 1);
  cobalt::this_thread::set_executor(w.ctx.get_executor());
  auto old = cobalt::this_thread::set_default_resource(&w.res);
  std::size_t pos = 0; int next = 1;
  node * root = nullptr;
  try { root = parse(w, s.head.at("tree"), pos, next); }
  catch (std::exception &) { ev("refused").out(); }
  if (root) run(actor::slot_arg{w.sig.slot()}, w, root);
  ev("back").out();
  for (auto & c : s.cmds)
  {
    if (!root) break;
    auto leaf = [&]() -> probe * { auto itr = w.nodes.find(std::stoi(c.at(1))); return itr == w.nodes.end() ? nullptr : dynamic_cast<probe*>(itr->second.get()); };
    if (c[0] == "F" || c[0] == "E")
    {
      auto p = leaf();
      if (!p || !p->pending()) continue;
      p->finish(c[0] == "F" ? "ok" : "x" + std::to_string(p->id));
    }
    else if (c[0] == "T")
    {
      auto p = leaf();
      if (!p || !p->pending() || p->in_tx || !p->tx) continue;
      p->in_tx = true;
      ev("tx").i("n", p->id).out();
      try { p->tx(); }
      catch (...) { ev("txthrow").i("n", p->id).out(); }
    }
    else if (c[0] == "C")
    {
      using ct = asio::cancellation_type;
      auto t = c[1] == "a" ? ct::all : c[1] == "p" ? ct::partial : c[1] == "t" ? ct::terminal : ct::total;
      ev("cancel").t("t", ct_name(t)).out();
      w.sig.emit(t);
    }
    else if (c[0] == "I")
    {
      if (w.root_done || !root) continue;
      root->w_interrupt();
    }
    else if (c[0] == "P") { w.ctx.restart(); w.ctx.poll_one(); }
    else if (c[0] == "Q") { if (!settle(w.ctx)) ev("hang").out(); }
    else continue;
    ev("back").out();
  }
  // whoever owns the handles drops them
  w.gate.reset();
  for (auto & n : w.nodes)
    if (auto p = dynamic_cast<probe*>(n.second.get()); p && p->h)
    {
      auto hh = std::move(p->h);
      hh.reset();
    }
  w.nodes.clear();
  cobalt::this_thread::set_default_resource(old);
  ev("end").i("frames", live_frames).i("mem", static_cast<long long>(w.res.live.size())).i("bad", w.res.bad).out();
}

int main(int argc, char ** argv) { return run_scenarios(argc, argv, &go); }
#endif
