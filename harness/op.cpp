// Conformance driver for operations (op, use_op, deferred, compositions) and the result adaptors.
// PARTS: 6
//
// header: kind=<a|p|t|g|d> aw=<n><form>,... (form d direct, r as_result, t as_tuple, T/R one around the other,
//         s direct, but the awaitable is moved before it is awaited)
//         o<n>=<src>:<sig>:<out>:<rdy>:<steps>
//   src   o hand coded, u use_op, d deferred, n noop, c composition (steps: its children <n>,<n>..),
//         g an awaitable of the user's own (out n: it cannot throw; behind the steps its shape: a itself, m with a
//         member operator co_await, f with a free one; in upper case: passed as rvalue)
//   sig   v () i (int) I (int,int) m (unique_ptr) e (ec) E (ec,int) F (ec,int,int) M (ec,unique_ptr)
//         x (exception_ptr) X (exception_ptr,int) Y (exception_ptr,int,int)
//   out   o completes without error, e with one
//         (:b behind them: the frame of the composition is big)
//   rdy   - not ready, r ready, t asking throws
//   steps i immediate executor, p post, n nested immediate function, h hold (cancellation completes inline),
//         H (.. posted), j (.. ignored), x throw, d drop the handler, c complete, l allocate, f free
// commands: C n continue, D n drop, X t cancel, P poll one, Q poll until idle
#include "common.hpp"
#include <boost/cobalt/op.hpp>
#include <boost/cobalt/composition.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/noop.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/asio/bind_allocator.hpp>
#include <boost/asio/deferred.hpp>
#include <boost/asio/associated_immediate_executor.hpp>
#include <memory_resource>
#include <optional>
using namespace h;
namespace system_ = boost::system;
using ec_t = system_::error_code;
using ep_t = std::exception_ptr;
using up_t = std::unique_ptr<int>;

struct world;
struct held_base
{
  virtual ~held_base() = default;
  virtual void cont() = 0;
  virtual void drop() = 0;
};
struct desc
{
  char src = 'o', sig = 'v', out = 'o', rdy = '-';
  std::string steps;
  std::vector<int> kids;
  bool big = false;
  char shape = 'a';
};
struct world
{
  counting_resource res;
  std::unique_ptr<asio::io_context> ctx = std::make_unique<asio::io_context>();
  std::unique_ptr<asio::cancellation_signal> sigp = std::make_unique<asio::cancellation_signal>();
  asio::cancellation_signal & sig = *sigp;
  std::map<int, desc> d;
  std::vector<std::pair<int, char>> aw;
  std::map<int, std::unique_ptr<held_base>> held;
  std::map<int, std::shared_ptr<void>> ops;
  std::map<int, std::size_t> pc;
  int initiating = 0;
  bool started = false, finished = false;
};

struct guard
{
  int c;
  explicit guard(int c) : c(c) { live_frames++; }
  guard(const guard &) = delete;
  ~guard() { ev("gone").i("n", c).out(); live_frames--; }
};

// what the operation passes to its handler
template<typename T> T arg(int n, int & k, const desc & d, bool aborted)
{
  if constexpr (std::is_same_v<T, int>) return n * 10 + ++k;
  else if constexpr (std::is_same_v<T, up_t>) return std::make_unique<int>(n * 10 + ++k);
  else if constexpr (std::is_same_v<T, ec_t>)
    return aborted ? ec_t(asio::error::operation_aborted) : d.out == 'e' ? ec_t(asio::error::eof) : ec_t();
  else
    return aborted ? std::make_exception_ptr(system_::system_error(asio::error::operation_aborted))
         : d.out == 'e' ? std::make_exception_ptr(test_error(n)) : ep_t();
}
template<typename ... A> std::tuple<A...> args(int n, const desc & d, bool aborted)
{
  int k = 0;
  return std::tuple<A...>{arg<A>(n, k, d, aborted)...};
}

struct block
{
  cobalt::pmr::memory_resource * r;
  unsigned char * p;
  std::size_t n, al;
  int id;
  block(cobalt::pmr::memory_resource * r, std::size_t n, std::size_t al, int id) : r(r), n(n), al(al), id(id)
  {
    p = static_cast<unsigned char*>(r->allocate(n, al));
    if (reinterpret_cast<std::uintptr_t>(p) % al) ev("misaligned").i("n", id).out();
    std::memset(p, 0x40 + id, n);
  }
  block(block && b) noexcept : r(b.r), p(std::exchange(b.p, nullptr)), n(b.n), al(b.al), id(b.id) {}
  ~block()
  {
    if (!p) return;
    for (std::size_t i = 0; i < n; i++) if (p[i] != 0x40 + id) { ev("corrupt").i("n", id).out(); break; }
    r->deallocate(p, n, al);
  }
};

template<typename ... A> struct run_op
{
  world & w;
  int n;
  std::size_t pc;
  cobalt::completion_handler<A...> h;
  std::vector<block> mem;
  run_op(world & w, int n, cobalt::completion_handler<A...> h) : w(w), n(n), pc(0), h(std::move(h)) {}
};
template<typename ... A> void go_on(run_op<A...> s);
template<typename ... A> void complete(run_op<A...> s, bool aborted)
{
  s.mem.clear();
  auto a = args<A...>(s.n, s.w.d[s.n], aborted);
  ev("comp").i("n", s.n).out();
  std::apply([&](A & ... v) { std::move(s.h)(std::move(v)...); }, a);
}
template<typename ... A> struct held final : held_base
{
  run_op<A...> s;
  char react;
  asio::cancellation_slot slot;
  held(run_op<A...> s_, char react) : s(std::move(s_)), react(react) {}
  std::unique_ptr<held_base> out()
  {
    if (slot.is_connected()) slot.clear();
    auto itr = s.w.held.find(s.n);
    auto me = std::move(itr->second);
    s.w.held.erase(itr);
    return me;
  }
  void cont() override
  {
    auto me = out();
    go_on(std::move(s));
  }
  void drop() override
  {
    auto me = out();
    ev("drop").i("n", s.n).out();
    run_op<A...> s_ = std::move(s);
    me.reset();
  }
  void canc(asio::cancellation_type t)
  {
    const int n = s.n;
    ev("canc").i("n", n).t("t", ct_name(t)).out();
    if (react == 'h')
    {
      auto me = out();
      auto s_ = std::move(s);
      me.reset();
      complete(std::move(s_), true);
      ev("ret").i("n", n).out();
    }
    else if (react == 'H')
    {
      auto me = out();
      auto s_ = std::move(s);
      me.reset();
      auto ex = s_.h.get_executor();
      auto al = s_.h.get_allocator();
      asio::post(ex, asio::bind_allocator(al, [s = std::move(s_)]() mutable
      {
        const int n = s.n;
        ev("post").i("n", n).out();
        complete(std::move(s), true);
        ev("ret").i("n", n).out();
      }));
    }
  }
  static std::string ct_name(asio::cancellation_type t)
  {
    using ct = asio::cancellation_type;
    return (static_cast<unsigned>(t) & 7u) == 7u ? "all" : t == ct::partial ? "partial" : t == ct::terminal ? "terminal" : t == ct::total ? "total" : "other";
  }
};

template<typename ... A> void go_on(run_op<A...> s)
{
  const int n = s.n;
  const std::string & steps = s.w.d[n].steps;
  for (;;)
  {
    const char c = s.pc < steps.size() ? steps[s.pc] : 'c';
    s.pc++;
    switch (c)
    {
      case 'i':
      {
        auto ex = asio::get_associated_immediate_executor(s.h, s.h.get_executor());
        auto al = s.h.get_allocator();
        asio::dispatch(ex, asio::bind_allocator(al, [s = std::move(s)]() mutable
        {
          const int n = s.n;
          ev("imm").i("n", n).out();
          go_on(std::move(s));
          ev("ret").i("n", n).out();
        }));
        return;
      }
      case 'p':
      {
        auto ex = s.h.get_executor();
        auto al = s.h.get_allocator();
        asio::post(ex, asio::bind_allocator(al, [s = std::move(s)]() mutable
        {
          const int n = s.n;
          ev("post").i("n", n).out();
          go_on(std::move(s));
          ev("ret").i("n", n).out();
        }));
        return;
      }
      case 'n':
      {
        auto ex = asio::get_associated_immediate_executor(s.h, s.h.get_executor());
        asio::dispatch(ex, [n] { ev("nest").i("n", n).out(); });
        break;
      }
      case 'l': s.mem.emplace_back(s.h.get_allocator().resource(), 8u + 37u * ((n + s.pc) % 9), (n + s.pc) % 3 ? 8 : 16, n); break;
      case 'f': if (!s.mem.empty()) s.mem.pop_back(); break;
      case 'h': case 'H': case 'j':
      {
        auto & w = s.w;
        auto slot = s.h.get_cancellation_slot();
        auto hp = std::make_unique<held<A...>>(std::move(s), c);
        auto p = hp.get();
        w.held[n] = std::move(hp);
        if (slot.is_connected())
        {
          p->slot = slot;
          slot.assign([p](asio::cancellation_type t) { auto q = p; q->canc(t); });
        }
        return;
      }
      case 'x': ev("throw").i("n", n).out(); throw test_error(n);
      case 'd':
      {
        s.mem.clear();
        ev("drop").i("n", n).out();
        auto x = std::move(s.h);
        return;
      }
      case 'c': complete(std::move(s), false); return;
      default: std::abort();
    }
  }
}

// ---------------------------------------------------------------------------------------------------
template<typename ... A> struct coded final : cobalt::op<A...>
{
  world & w; int n;
  coded(world & w, int n) : w(w), n(n) {}
  void ready(cobalt::handler<A...> h) override
  {
    auto & d = w.d[n];
    ev("ready").i("n", n).out();
    if (d.rdy == 't') throw test_error(n);
    if constexpr ((std::is_copy_constructible_v<A> && ...)) if (d.rdy == 'r') { auto a = args<A...>(n, d, false); std::apply([&](A & ... v) { h(std::move(v)...); }, a); }
  }
  void initiate(cobalt::completion_handler<A...> h) override
  {
    ev("init").i("n", n).out();
    go_on(run_op<A...>(w, n, std::move(h)));
    ev("ret").i("n", n).out();
  }
};
struct initiation
{
  world & w; int n;
  template<typename ... A> void operator()(cobalt::completion_handler<A...> h) const
  {
    ev("init").i("n", n).out();
    go_on(run_op<A...>(w, n, std::move(h)));
    ev("ret").i("n", n).out();
  }
};
template<typename Sig, typename Token> auto async_thing(world & w, int n, Token && tk)
{
  return asio::async_initiate<Token, Sig>(initiation{w, n}, tk);
}

// composition of the children; its frame lives in the memory of the handler
template<bool Big, typename ... A> struct composed_ final : cobalt::op<A...>
{
  world & w; int n;
  composed_(world & w, int n) : w(w), n(n) {}
  void initiate(cobalt::completion_handler<A...> h) override
  {
    ev("init").i("n", n).out();
    start(std::move(h));
    ev("ret").i("n", n).out();
  }
  void start(cobalt::completion_handler<A...> h);
};
template<typename ... A> using composed = composed_<false, A...>;
template<typename ... A> using composed_big = composed_<true, A...>;

template<template<typename ...> class Op, typename ... A> cobalt::op<A...> & make_op(world & w, int n)
{
  auto p = std::make_shared<Op<A...>>(w, n);
  w.ops[n] = p;
  return *p;
}
template<typename ... A> cobalt::op<A...> & make_composed(world & w, int n);

template<typename ... A> cobalt::op<A...> & get_op(world & w, int n)
{
  switch (w.d[n].src)
  {
    case 'o': return make_op<coded, A...>(w, n);
    case 'c': return make_composed<A...>(w, n);
    default:
    {
      using T = decltype(async_thing<void(A...)>(w, n, cobalt::use_op));
      auto p = std::make_shared<T>(async_thing<void(A...)>(w, n, cobalt::use_op));
      w.ops[n] = p;
      return *p;
    }
  }
}

// ---------------------------------------------------------------------------------------------------
struct rec
{
  std::string k, o;
  std::vector<long long> v;
  static std::string cls(const ec_t & e) { return !e ? "ok" : e == asio::error::eof ? "e" : classify(e); }
  static std::string cls(const ep_t & e) { return !e ? "ok" : classify(e); }
  void add(int x) { v.push_back(x); }
  void add(const up_t & x) { v.push_back(x ? *x : 0); }
  void add(const ec_t & e) { o = cls(e); }
  void add(const ep_t & e) { o = cls(e); }
  void add(const std::tuple<> &) {}
  template<typename ... T> void add(const std::tuple<T...> & t) { std::apply([this](auto & ... x) { (add(x), ...); }, t); }
  template<typename T, typename E> void add(const system_::result<T, E> & r)
  {
    if (r.has_error()) { k += "e"; add(r.error()); }
    else { k += "v"; o = "ok"; if constexpr (!std::is_void_v<T>) add(*r); }
  }
  void value() { k = "v"; o = "ok"; }
  template<typename T> void value(const T & t) { k = "v"; o = "ok"; add(t); }
  template<typename R> void result(const R & r) { k = "r"; add(r); }
  template<typename T> void tuple(const T & t) { k = "t"; o = "ok"; add(t); }
  // as_tuple(as_result(..)): the outer error, then the result
  template<typename R> void tr(const std::tuple<ep_t, R> & t)
  {
    if (std::get<0>(t)) { k = "t!"; add(std::get<0>(t)); }
    else { k = "tr"; add(std::get<1>(t)); }
  }
  // as_result(as_tuple(..))
  template<typename T> void rt(const system_::result<T, ep_t> & r)
  {
    if (r.has_error()) { k = "r!"; add(r.error()); }
    else { k = "rt"; o = "ok"; add(*r); }
  }
  void thrown(ep_t e) { k = "thrown"; v.clear(); o = cls(e); if (o == "ec:asio.misc:2") o = "e"; }
  void out(int n) { ev("res").i("n", n).t("k", k).t("o", o).l("v", v).out(); }
};

// ---------------------------------------------------------------------------------------------------
// an awaitable that knows nothing of cobalt
#if PART == 2
template<typename T> struct gen_args { static T get(int n) { int k = 0; return arg<T>(n, k, {}, false); } };
template<> struct gen_args<void> { static void get(int) {} };
template<> struct gen_args<std::tuple<int, int>> { static std::tuple<int, int> get(int n) { return args<int, int>(n, {}, false); } };

struct waiter final : held_base
{
  world & w; int n; std::coroutine_handle<> h;
  waiter(world & w, int n, std::coroutine_handle<> h) : w(w), n(n), h(h) {}
  waiter(waiter && o) noexcept : w(o.w), n(o.n), h(std::exchange(o.h, nullptr)) {}
  ~waiter() { if (h) h.destroy(); }
  void resume() { ev("comp").i("n", n).out(); std::exchange(h, nullptr).resume(); }
  std::unique_ptr<held_base> out()
  {
    auto itr = w.held.find(n);
    auto me = std::move(itr->second);
    w.held.erase(itr);
    return me;
  }
  void cont() override;
  void drop() override
  {
    auto me = out();
    ev("drop").i("n", n).out();
  }
};
// the steps of an awaitable that has suspended its coroutine; false: it has completed and must not be suspended
inline bool gen_steps(waiter s)
{
  auto & d = s.w.d[s.n];
  auto & pc = s.w.pc[s.n];
  switch (pc < d.steps.size() ? d.steps[pc++] : 'c')
  {
    case 'p':
      asio::post(*s.w.ctx, [s = std::move(s)]() mutable
      {
        const int n = s.n;
        ev("post").i("n", n).out();
        if (!gen_steps(std::move(s))) std::abort();
        ev("ret").i("n", n).out();
      });
      return true;
    case 'h':
    {
      auto & w = s.w;
      const int n = s.n;
      w.held[n] = std::make_unique<waiter>(std::move(s));
      return true;
    }
    case 'x':
      ev("throw").i("n", s.n).out();
      s.h = nullptr;
      throw test_error(s.n);
    default:
      if (s.w.initiating == s.n) { ev("comp").i("n", s.n).out(); s.h = nullptr; return false; }
      s.resume();
      return true;
  }
}
inline void waiter::cont()
{
  auto me = out();
  gen_steps(std::move(*this));
}

template<typename T, bool NX> struct plain
{
  world * w; int n;
  std::unique_ptr<int> alive{new int(n)};     // noticed when it is used after it has been moved from
  plain(world & w, int n) : w(&w), n(n) {}
  plain(plain &&) = default;
  bool await_ready() const
  {
    auto & d = w->d[*alive];
    ev("ready").i("n", n).out();
    if (d.rdy == 't') throw test_error(n);
    return d.rdy == 'r';
  }
  template<typename P> bool await_suspend(std::coroutine_handle<P> h)
  {
    ev("init").i("n", *alive).out();
    auto w = this->w;
    const int n = this->n;
    w->initiating = n;
    bool r = true;
    try { r = gen_steps(waiter{*w, n, h}); } catch (...) { w->initiating = 0; throw; }
    w->initiating = 0;
    ev("ret").i("n", n).out();
    return r;
  }
  T await_resume() noexcept(NX)
  {
    if constexpr (!NX) if (w->d[*alive].out == 'e') throw test_error(n);
    return gen_args<T>::get(*alive);
  }
};
template<typename T, bool NX> struct with_member
{
  plain<T, NX> p;
  with_member(world & w, int n) : p(w, n) {}
  plain<T, NX> operator co_await() & { return plain<T, NX>(*p.w, *p.alive); }
  plain<T, NX> operator co_await() && { return std::move(p); }
};
template<typename T, bool NX> struct with_free
{
  plain<T, NX> p;
  with_free(world & w, int n) : p(w, n) {}
};
template<typename T, bool NX> plain<T, NX> operator co_await(with_free<T, NX> & f) { return plain<T, NX>(*f.p.w, *f.p.alive); }
template<typename T, bool NX> plain<T, NX> operator co_await(with_free<T, NX> && f) { return std::move(f.p); }

#define GEN_FORMS(T, X) \
    switch (form) \
    { \
      case 'd': if constexpr (std::is_void_v<T>) { co_await X; r.value(); } else r.value(co_await X); break; \
      case 'r': r.result(co_await cobalt::as_result(X)); break; \
      case 't': r.tuple(co_await cobalt::as_tuple(X)); break; \
      case 'T': r.tr(co_await cobalt::as_tuple(cobalt::as_result(X))); break; \
      case 'R': r.rt(co_await cobalt::as_result(cobalt::as_tuple(X))); break; \
    }
#define GEN_SHAPES(T, NX) \
  switch (w.d[n].shape) \
  { \
    case 'a': { plain<T, NX> x(w, n); GEN_FORMS(T, x) break; } \
    case 'A': GEN_FORMS(T, (plain<T, NX>(w, n))) break; \
    case 'm': { with_member<T, NX> x(w, n); GEN_FORMS(T, x) break; } \
    case 'M': GEN_FORMS(T, (with_member<T, NX>(w, n))) break; \
    case 'f': { with_free<T, NX> x(w, n); GEN_FORMS(T, x) break; } \
    case 'F': GEN_FORMS(T, (with_free<T, NX>(w, n))) break; \
  }
#define GEN_SHAPES2(T) \
  switch (w.d[n].shape) \
  { \
    case 'a': { plain<T, false> x(w, n); GEN_FORMS(T, x) break; } \
    default: GEN_FORMS(T, (with_member<T, false>(w, n))) break; \
  }
#endif

#define FORMS(...) \
  { \
    auto & x = get_op<__VA_ARGS__>(w, n); \
    switch (form) \
    { \
      case 'd': \
        if constexpr (std::is_void_v<decltype(x.operator co_await().await_resume())>) { co_await x; r.value(); } \
        else r.value(co_await x); \
        break; \
      case 'r': r.result(co_await cobalt::as_result(x)); break; \
      case 't': r.tuple(co_await cobalt::as_tuple(x)); break; \
      case 's': if constexpr (std::is_same_v<Co, cobalt::promise<void>>) \
      { \
        using Aw = decltype(x.operator co_await()); \
        auto a = std::make_unique<Aw>(x.operator co_await()); \
        auto b = std::make_unique<Aw>(std::move(*a)); \
        a.reset(); \
        if constexpr (std::is_void_v<decltype(b->await_resume())>) { co_await *b; r.value(); } \
        else r.value(co_await *b); \
      } \
      break; \
    } \
    break; \
  }
#define SIGS(F) \
  case 'v': F(); case 'i': F(int); case 'I': F(int, int); case 'm': F(up_t); case 'e': F(ec_t); case 'E': F(ec_t, int); \
  case 'F': F(ec_t, int, int); case 'M': F(ec_t, up_t); case 'x': F(ep_t); case 'X': F(ep_t, int); case 'Y': F(ep_t, int, int);
#define DEFERRED(...) \
  { \
    auto df = async_thing<void(__VA_ARGS__)>(w, n, asio::deferred); \
    if constexpr (std::is_void_v<decltype(std::declval<cobalt::op<__VA_ARGS__>&>().operator co_await().await_resume())>) { co_await std::move(df); r.value(); } \
    else r.value(co_await std::move(df)); \
    break; \
  }
// a composition turns everything into tuples by itself
#define TUPLES(...) \
  { \
    if (src == 'd') r.tuple(co_await async_thing<void(__VA_ARGS__)>(w, n, asio::deferred)); \
    else r.tuple(co_await get_op<__VA_ARGS__>(w, n)); \
    break; \
  }

#if PART == 0
// the frame of a big composition does not fit into the buffer of the awaiting operation
template<typename ... A> cobalt::op<A...> & make_composed(world & w, int n)
{
  if constexpr (sizeof...(A) == 2) if (w.d[n].big) return make_op<composed_big, A...>(w, n);
  return make_op<composed, A...>(w, n);
}
template<bool Big, typename ... A> void composed_<Big, A...>::start(cobalt::completion_handler<A...> h)
{
  std::array<char, Big ? 6000 : 1> pad;
  pad.fill(n);
  guard g{n};
  auto & w = this->w;
  const int me = n;
  for (int n : w.d[me].kids)
  {
    rec r;
    const char src = w.d[n].src;
    try { switch (w.d[n].sig) { SIGS(TUPLES) } }
    catch (...) { r.thrown(std::current_exception()); }
    r.out(n);
  }
  for (char c : pad) if (c != me) { ev("corrupt").i("n", me).out(); break; }
  ev("fin").i("n", me).out();
  co_return args<A...>(me, w.d[me], false);
}
#define INST(...) { (void)&make_composed<__VA_ARGS__>; break; }
void inst(char c) { switch (c) { SIGS(INST) } }
#define INST2(...) template cobalt::op<__VA_ARGS__> & make_composed<__VA_ARGS__>(world &, int);
template cobalt::op<> & make_composed<>(world &, int);
INST2(int) INST2(int, int) INST2(up_t) INST2(ec_t) INST2(ec_t, int) INST2(ec_t, int, int) INST2(ec_t, up_t)
INST2(ep_t) INST2(ep_t, int) INST2(ep_t, int, int)
#endif

template<typename Co> Co body(actor::slot_arg, world & w)
{
  guard g{0};
  w.started = true;
  if constexpr (!std::is_same_v<Co, actor>)
  {
    if constexpr (std::is_same_v<Co, cobalt::detached>)
      co_await cobalt::this_coro::reset_cancellation_source(w.sig.slot());
    co_await asio::this_coro::reset_cancellation_state(asio::enable_total_cancellation());
    co_await asio::this_coro::throw_if_cancelled(false);
  }
  for (auto & a : w.aw)
  {
    const int n = a.first;
    const char form = a.second, sig = w.d[n].sig, src = w.d[n].src;
    rec r;
    try
    {
      if (src == 'n' && sig == 'i')
      {
        cobalt::noop<int> x{n * 10 + 1};
        switch (form)
        {
          case 'd': r.value(co_await x); break;
          case 'r': r.result(co_await cobalt::as_result(x)); break;
          case 't': r.tuple(co_await cobalt::as_tuple(x)); break;
          case 'T': r.tr(co_await cobalt::as_tuple(cobalt::as_result(x))); break;
          case 'R': r.rt(co_await cobalt::as_result(cobalt::as_tuple(x))); break;
        }
      }
      else if (src == 'n')
      {
        cobalt::noop<> x;
        switch (form)
        {
          case 'd': co_await x; r.value(); break;
          case 'r': r.result(co_await cobalt::as_result(x)); break;
          case 't': r.tuple(co_await cobalt::as_tuple(x)); break;
          case 'T': r.tr(co_await cobalt::as_tuple(cobalt::as_result(x))); break;
          case 'R': r.rt(co_await cobalt::as_result(cobalt::as_tuple(x))); break;
        }
      }
#if PART == 2
      else if (src == 'g')
      {
        const bool nx = w.d[n].out == 'n';
        using ii = std::tuple<int, int>;
        switch (sig)
        {
          case 'v': if (nx) { GEN_SHAPES(void, true) } else { GEN_SHAPES(void, false) } break;
          case 'i': if (nx) { GEN_SHAPES(int, true) } else { GEN_SHAPES(int, false) } break;
          case 'I': GEN_SHAPES2(ii) break;
          case 'm': GEN_SHAPES2(up_t) break;
        }
      }
#endif
      else if (src == 'd' && form == 'd')
      {
        if constexpr (!std::is_same_v<Co, actor>)
          switch (sig) { SIGS(DEFERRED) }
        else
          switch (sig) { SIGS(FORMS) }
      }
      else
        switch (sig) { SIGS(FORMS) }
    }
    catch (...) { r.thrown(std::current_exception()); }
    r.out(n);
  }
  ev("fin").i("n", 0).out();
  w.finished = true;
  if constexpr (std::is_same_v<Co, cobalt::generator<int>>) co_return 1;
  else co_return;
}

actor run_a(actor::slot_arg s, world & w);
cobalt::promise<void> run_p(world & w);
cobalt::task<void> run_t(world & w);
cobalt::generator<int> run_g(world & w);
cobalt::detached run_d(world & w);
#if PART == 1
actor run_a(actor::slot_arg s, world & w) { return body<actor>(s, w); }
#elif PART == 2
cobalt::promise<void> run_p(world & w) { return body<cobalt::promise<void>>({}, w); }
#elif PART == 3
cobalt::task<void> run_t(world & w) { return body<cobalt::task<void>>({}, w); }
#elif PART == 4
cobalt::generator<int> run_g(world & w) { return body<cobalt::generator<int>>({}, w); }
#elif PART == 5
cobalt::detached run_d(world & w) { return body<cobalt::detached>({}, w); }
#else

void go(const scenario & s)
{
  auto own = std::make_unique<world>();
  auto & w = *own;
  for (auto & [k, v] : s.head)
  {
    if (k == "aw")
      for (auto & a : split(v, ',')) w.aw.emplace_back(std::stoi(a), a.back());
    else if (k[0] == 'o')
    {
      auto p = split(v, ':');
      desc d{p.at(0)[0], p.at(1)[0], p.at(2)[0], p.at(3)[0], p.size() > 4 ? p[4] : "", {}};
      d.big = d.src == 'c' && p.size() > 5;
      if (d.src == 'g') d.shape = p.at(5)[0];
      if (d.src == 'c') for (auto & x : split(d.steps, ',')) if (!x.empty()) d.kids.push_back(std::stoi(x));
      w.d[std::stoi(k.substr(1))] = d;
    }
  }
  const char kind = s.head.at("kind")[0];
  cobalt::this_thread::set_executor(w.ctx->get_executor());
  auto old = cobalt::this_thread::set_default_resource(&w.res);
  auto old2 = std::pmr::set_default_resource(&w.res);
  std::optional<cobalt::promise<void>> pr;
  std::optional<cobalt::generator<int>> gen;
  auto guarded = [&](auto && f)
  {
    try { f(); } catch (const test_error & e) { ev("threw").i("n", e.v).out(); }
    ev("back").out();
  };
  ev("go").out();
  guarded([&]
  {
    switch (kind)
    {
      case 'a': run_a(actor::slot_arg{w.sig.slot()}, w); break;
      case 'p': pr.emplace(run_p(w)); break;
      case 't': cobalt::spawn(w.ctx->get_executor(), run_t(w), asio::bind_cancellation_slot(w.sig.slot(), [](std::exception_ptr) {})); break;
      case 'g': gen.emplace(run_g(w)); break;
      case 'd': run_d(w); break;
    }
  });
  for (auto & c : s.cmds)
  {
    auto h = [&]() -> held_base * { auto itr = w.held.find(std::stoi(c.at(1))); return itr == w.held.end() ? nullptr : itr->second.get(); };
    if (c[0] == "C" || c[0] == "D")
    {
      auto p = h();
      if (!p) continue;
      const int n = std::stoi(c[1]);
      ev(c[0].c_str()).i("n", n).out();
      guarded([&] { if (c[0] == "C") { p->cont(); ev("ret").i("n", n).out(); } else p->drop(); });
    }
    else if (c[0] == "X")
    {
      using ct = asio::cancellation_type;
      if (!w.started || w.finished || !live_frames) continue;
      auto t = c[1] == "a" ? ct::all : c[1] == "p" ? ct::partial : c[1] == "t" ? ct::terminal : ct::total;
      ev("X").t("t", c[1] == "a" ? "all" : c[1] == "p" ? "partial" : c[1] == "t" ? "terminal" : "total").out();
      guarded([&]
      {
        if (kind == 'p') pr->cancel(t);
        else if (kind == 'g') gen->cancel(t);
        else w.sig.emit(t);
      });
    }
    else if (c[0] == "P" || c[0] == "Q")
    {
      for (int i = 0; i < 200; i++)
      {
        w.ctx->restart();
        ev("P").out();
        std::size_t k = 0;
        guarded([&] { k = 1; k = w.ctx->poll_one(); });
        if (c[0] == "P" || !k) break;
      }
    }
  }
  ev("E").out();
  while (!w.held.empty()) w.held.begin()->second->drop();
  ev("X").t("t", "ctx").out();
  w.ctx.reset();
  ev("back").out();
  pr.reset();
  gen.reset();
  w.sigp.reset();
  w.ops.clear();
  cobalt::this_thread::set_default_resource(old);
  std::pmr::set_default_resource(old2);
  ev("end").i("frames", live_frames).i("mem", static_cast<long long>(w.res.live.size())).i("bad", w.res.bad).out();
}

int main(int argc, char ** argv) { return run_scenarios(argc, argv, &go); }
#endif
