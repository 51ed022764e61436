// PARTS: 8
// Conformance driver for coroutines (promise, task, generator, detached, spawn); specification: spec/Coro.tla
//
// Every coroutine interprets a script; every contact with the outside is recorded.
// header:   c<n>=<kind>[:instr,instr,...]     kind p promise<val>  P promise<void>  t task<val>  T task<void>
//               g generator<val>  G generator<val,val>  d detached
//           x=n,..  these coroutines get another executor (tasks: of whoever awaits them) and another memory resource
//           end=v|c   variables or the context go first at the end      hx=0|1  spawn handlers are bound to a second context
// instr (in coroutines and, except *, as commands of the main program):
//   m<c> create coroutine c in variable c        l<c>* same, the variable belongs to this coroutine
//   w<v>[:x] u<v> v<v> *   await variable v (directly, as result, as tuple; x is the pushed value)   capital: let exceptions out
//   o<k>[:r] y.. see below *   await operation k (r: a reacts to cancellation with abort, p ignores it)   O: let exceptions out
//   h* / H*  await a noop   x<v> destroy variable   n<v>:<t> cancel   k<v>:<w> move construct w   a<v>:<w> move assign to w
//   e<v> detach  f<v> attach  q<v> query  j<v> get()  S<v> spawn  N<v>:<t> emit on the slot of a spawn handler
//   A<w>[:1]* co_await with(), kind w: body,teardown[,flags]   :1 let exceptions out
//     body, teardown: c<n> coroutine n  o<k>[:p] operation   e<x> throws instead of returning an awaitable
//     body only: s<v> synchronous, returns v  S synchronous void   z<x> Z<x> synchronous, throws (void, value)
//     flags: x use await_exit   n the teardown clears the exception (void only)   m<x> the teardown replaces it
//   y<x>* yield   i* initial   r<x>* return   t<x>* throw   c<b>* throw_if_cancelled   s<f>* s<f>:<g>* reset_cancellation_state
//   s* same, default   z* query cancellation   b* executor and allocator are the expected ones   R* reset_cancellation_source (d only)
// commands only: C <k> <v> complete   E <k> <v> fail   I <c> interrupt   D <c> <t> emit on the source of a detached coroutine
//   P poll one   Q settle   X poll the handlers' context
#include "common.hpp"
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/cobalt/noop.hpp>
#include <boost/cobalt/with.hpp>
#include <boost/cobalt/wait_group.hpp>
#include <boost/cobalt/error.hpp>
#include <boost/asio/append.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/asio/bind_executor.hpp>
#include <boost/asio/post.hpp>
#include <set>
#include <variant>

using namespace h;
namespace sys = boost::system;

struct val
{
  int v = 0;
  val() = default;
  val(int v) : v(v) {}
  val(const val & o) = default;
  val(val && o) noexcept : v(std::exchange(o.v, -7)) {}
  val & operator=(const val &) = default;
  val & operator=(val && o) noexcept { v = std::exchange(o.v, -7); return *this; }
};

struct outcome
{
  std::string k = "ok"; int v = 0; std::exception_ptr ex;
  static outcome error(std::exception_ptr e)
  {
    outcome o; o.ex = e; o.k = classify(e);
    try { std::rethrow_exception(e); }
    catch (const test_error & t) { o.k = "x"; o.v = t.v; }
    catch (const sys::system_error & s)
    {
      if (s.code() == cobalt::error::moved_from) o.k = "moved";
      else if (s.code() == cobalt::error::detached) o.k = "detached";
      else if (s.code() == cobalt::error::completed_unexpected) o.k = "unexpected";
      else if (s.code() == cobalt::error::already_awaited) o.k = "already";
      else if (s.code() == asio::error::operation_aborted) o.k = "aborted";
      else if (s.code().category() == sys::generic_category()) { o.k = "ec"; o.v = s.code().value(); }
    }
    catch (const std::runtime_error &) { o.k = "void"; }
    catch (...) {}
    return o;
  }
};

struct instr
{
  char op = 0; bool up = false; int a = 0, b = 0, n = 0; char r = 'a'; char mode = 'w';
};

using holder = std::variant<std::monostate, cobalt::promise<val>, cobalt::promise<void>, cobalt::task<val>, cobalt::task<void>,
                            cobalt::generator<val>, cobalt::generator<val, val>>;
struct variable
{
  holder h; int hold = 0, own = 0, busy = 0; char kind = 0;
  variable(holder && h, int c, int own, char kind) : h(std::move(h)), hold(c), own(own), kind(kind) {}
};

struct leaf final : cobalt::op<sys::error_code, val>
{
  int k; char react;
  std::optional<cobalt::completion_handler<sys::error_code, val>> hd;
  leaf(int k, char react) : k(k), react(react) {}
  void initiate(cobalt::completion_handler<sys::error_code, val> c) override;
  void complete(sys::error_code ec, int v)
  {
    if (!hd) return;
    auto sl = hd->get_cancellation_slot();
    if (sl.is_connected()) sl.clear();
    auto ex = hd->get_executor();
    auto x = std::move(*hd);
    hd.reset();
    asio::post(ex, asio::append(std::move(x), ec, val(v)));
  }
};

// what is posted to one context can refer to the other one, so that both are shut down before either is released
struct context : asio::io_context { using asio::io_context::shutdown; };
struct group { cobalt::wait_group g; int w = 0, own = 0, lo = 99; std::set<int> m; };
struct world
{
  counting_resource res, res2;
  std::set<int> other;                    // coroutines with another executor and resource
  std::unique_ptr<context> ctx = std::make_unique<context>(), hctx = std::make_unique<context>();
  std::map<int, char> kind;
  std::map<int, std::vector<instr>> prog;
  std::map<int, variable> vars;
  std::map<int, std::unique_ptr<leaf>> ops;
  std::map<int, std::function<void()>> intr;
  std::map<int, std::unique_ptr<asio::cancellation_signal>> src, hsig;
  std::map<int, bool> alive;              // coroutine frames
  std::set<int> made, creating, spawned, used;
  std::set<int> begun, finished, taken;   // coroutines: the body started, ended, its outcome was taken
  std::set<int> orphan;                   // an exception left the body while nobody owned the coroutine
  std::set<int> resources;                // of with, alive
  std::map<int, std::unique_ptr<group>> groups;
  bool closing = false, hx = false;
};
extern world * W;

struct fguard   // lives as long as the frame
{
  int c;
  explicit fguard(int c) : c(c) {}
  fguard(fguard && o) noexcept : c(std::exchange(o.c, 0)) {}
  fguard & operator=(fguard &&) = delete;
  ~fguard() { if (c) { if (!W->alive[c]) ev("twice").i("c", c).out(); W->alive[c] = false; ev("fd").i("c", c).out(); } }
};

void drop(int v);
bool owned_by_anybody(int c);
struct lguard   // lives as long as the body's locals
{
  int c;
  std::vector<int> owned;
  int exc = std::uncaught_exceptions();
  explicit lguard(int c) : c(c) { W->alive[c] = true; W->begun.insert(c); }
  ~lguard()
  {
    ev("ld").i("c", c).out();
    W->finished.insert(c);
    W->intr.erase(c);
    if (std::uncaught_exceptions() > exc && !owned_by_anybody(c)) W->orphan.insert(c);
    while (!owned.empty()) { int v = owned.back(); owned.pop_back(); drop(v); }
  }
};

// everything that can be awaited, behind one awaitable
template<typename T> using pa = decltype(std::declval<T&>().operator co_await());
using gpa = decltype(std::declval<cobalt::generator<val, val>&>()(std::declval<val>()));
using opa = decltype(std::declval<leaf&>().operator co_await());

struct awaiter_base
{
  int busy = 0;   // variable
  int c = 0;
};

template<typename T> void put(outcome & o, T && t) { if constexpr (requires {t.v;}) { o.v = t.v; t.v = -9; } }
inline void put_result(outcome & o, std::exception_ptr e) { if (e) o = outcome::error(e); }
inline void put_result(outcome & o, std::tuple<std::exception_ptr> && t) { put_result(o, std::get<0>(t)); }
inline void put_result(outcome & o, std::tuple<std::exception_ptr, val> && t) { if (std::get<0>(t)) put_result(o, std::get<0>(t)); else o.v = std::get<1>(t).v; }
inline void put_result(outcome & o, std::tuple<sys::error_code, val> && t)
{ if (std::get<0>(t)) o = outcome::error(std::make_exception_ptr(sys::system_error(std::get<0>(t)))); else o.v = std::get<1>(t).v; }
template<typename T> void put_result(outcome & o, sys::result<T, std::exception_ptr> && r) { if (r.has_error()) o = outcome::error(r.error()); else if constexpr (!std::is_void_v<T>) o.v = (*r).v; }
template<typename T> void put_result(outcome & o, sys::result<T, sys::error_code> && r)
{ if (r.has_error()) o = outcome::error(std::make_exception_ptr(sys::system_error(r.error()))); else if constexpr (!std::is_void_v<T>) o.v = (*r).v; }

template<typename Aw>
struct wrap
{
  using R = decltype(std::declval<Aw&>().await_resume());
  Aw aw;
  int c, var; char mode;
  bool await_ready() { return aw.await_ready(); }
  template<typename P>
  auto await_suspend(std::coroutine_handle<P> h)
  {
    if (var) W->vars.at(var).busy++;
    if constexpr (requires {aw.interrupt_await();})
      W->intr[c] = [this]{ aw.interrupt_await(); };
    entered = true;
    return aw.await_suspend(h);
  }
  bool entered = false;
  void leave()
  {
    if (!std::exchange(entered, false)) return;
    W->intr.erase(c);
    if (auto it = W->vars.find(var); it != W->vars.end()) it->second.busy--;
  }
  wrap(Aw && aw, int c, int var, char mode) : aw(std::move(aw)), c(c), var(var), mode(mode) {}
  wrap(wrap && o) : aw(std::move(o.aw)), c(o.c), var(o.var), mode(o.mode) {}
  ~wrap() { leave(); }
  outcome await_resume()
  {
    leave();
    if (auto it = W->vars.find(var); it != W->vars.end() && W->finished.count(it->second.hold)) W->taken.insert(it->second.hold);
    outcome o;
    try
    {
      if constexpr (requires {aw.await_resume(cobalt::as_result_tag{});})   // not adapted yet
      {
        if constexpr (std::is_void_v<R>) aw.await_resume();
        else { R r = aw.await_resume(); o.v = r.v; }
      }
      else
        put_result(o, aw.await_resume());
    }
    catch (...) { o = outcome::error(std::current_exception()); }
    return o;
  }
};
template<typename Aw> wrap<Aw> mk(int c, int var, char mode, Aw && aw) { return wrap<Aw>(std::move(aw), c, var, mode); }

// the resource of a with
struct wres
{
  int c;
  explicit wres(int c) : c(c) { W->resources.insert(c); }
  wres(wres && o) noexcept : c(std::exchange(o.c, 0)) {}
  ~wres() { if (c) { if (!W->resources.erase(c)) ev("twice").i("c", c).out(); ev("rd").i("c", c).out(); } }
};
using with_val = decltype(cobalt::with(std::declval<wres>(), std::declval<val(*)(wres &)>(), std::declval<cobalt::promise<void>(*)(const wres &, std::exception_ptr &)>()));
using with_void = decltype(cobalt::with(std::declval<wres>(), std::declval<void(*)(wres &)>(), std::declval<cobalt::promise<void>(*)(const wres &, std::exception_ptr &)>()));
bool can_with(int c, int w);
bool with_is_void(int w);
with_val make_with_val(int w);
with_void make_with_void(int w);

void drop_group(int g);
bool can_wait(int c, int g);
cobalt::wait_group & wait_group_of(int g);
struct waiting   // somebody waits for the group
{
  int g;
  waiting(int g, int c) : g(g) { W->groups.at(g)->w = c; }
  ~waiting() { if (auto it = W->groups.find(g); it != W->groups.end()) it->second->w = 0; }
};

// hooks of the scripts; return false when the guard refuses
bool can_await(int c, int v);
void say(const char * e, int c, int pc);
void say(int c, int pc, const outcome & o);
void skip(int c, int pc);
bool common_instr(int c, int pc, const instr & i, std::vector<int> & owned);   // instructions main can do, too
holder make(int c);
int flag_bits(asio::cancellation_type t);

cobalt::promise<val> co_p(fguard f, int c);
cobalt::promise<void> co_P(fguard f, int c);
cobalt::task<val> co_t(fguard f, int c);
cobalt::task<void> co_T(fguard f, int c);
cobalt::generator<val> co_g(fguard f, int c);
cobalt::generator<val, val> co_G(fguard f, int c);
cobalt::detached co_d(fguard f, int c);
// with another executor and another resource, at different positions of the arguments
cobalt::promise<val> xo_p(fguard f, int c, asio::executor_arg_t, cobalt::executor, std::allocator_arg_t, cobalt::pmr::polymorphic_allocator<void>);
cobalt::promise<void> xo_P(std::allocator_arg_t, cobalt::pmr::polymorphic_allocator<void>, asio::executor_arg_t, cobalt::executor, fguard f, int c);
cobalt::task<val> xo_t(fguard f, int c, std::allocator_arg_t, cobalt::pmr::polymorphic_allocator<void>);
cobalt::task<void> xo_T(std::allocator_arg_t, cobalt::pmr::polymorphic_allocator<void>, fguard f, int c);
cobalt::generator<val> xo_g(asio::executor_arg_t, cobalt::executor, fguard f, int c, std::allocator_arg_t, cobalt::pmr::polymorphic_allocator<void>);
cobalt::generator<val, val> xo_G(fguard f, std::allocator_arg_t, cobalt::pmr::polymorphic_allocator<void>, asio::executor_arg_t, cobalt::executor, int c);
cobalt::detached xo_d(fguard f, asio::executor_arg_t, cobalt::executor, int c, std::allocator_arg_t, cobalt::pmr::polymorphic_allocator<void>);

inline cobalt::promise<val> new_p(int c) { return W->other.count(c) ? xo_p(fguard(c), c, asio::executor_arg, W->hctx->get_executor(), std::allocator_arg, cobalt::pmr::polymorphic_allocator<void>(&W->res2)) : co_p(fguard(c), c); }
inline cobalt::promise<void> new_P(int c) { return W->other.count(c) ? xo_P(std::allocator_arg, cobalt::pmr::polymorphic_allocator<void>(&W->res2), asio::executor_arg, W->hctx->get_executor(), fguard(c), c) : co_P(fguard(c), c); }
inline cobalt::task<val> new_t(int c) { return W->other.count(c) ? xo_t(fguard(c), c, std::allocator_arg, cobalt::pmr::polymorphic_allocator<void>(&W->res2)) : co_t(fguard(c), c); }
inline cobalt::task<void> new_T(int c) { return W->other.count(c) ? xo_T(std::allocator_arg, cobalt::pmr::polymorphic_allocator<void>(&W->res2), fguard(c), c) : co_T(fguard(c), c); }
inline cobalt::generator<val> new_g(int c) { return W->other.count(c) ? xo_g(asio::executor_arg, W->hctx->get_executor(), fguard(c), c, std::allocator_arg, cobalt::pmr::polymorphic_allocator<void>(&W->res2)) : co_g(fguard(c), c); }
inline cobalt::generator<val, val> new_G(int c) { return W->other.count(c) ? xo_G(fguard(c), std::allocator_arg, cobalt::pmr::polymorphic_allocator<void>(&W->res2), asio::executor_arg, W->hctx->get_executor(), c) : co_G(fguard(c), c); }
inline cobalt::detached new_d(int c) { return W->other.count(c) ? xo_d(fguard(c), asio::executor_arg, W->hctx->get_executor(), c, std::allocator_arg, cobalt::pmr::polymorphic_allocator<void>(&W->res2)) : co_d(fguard(c), c); }

#define AWAIT_AS(EXPR, VAR) \
  switch (I.mode) { \
    case 'u': { auto as = cobalt::as_result(EXPR); o = co_await mk(c, VAR, 'u', std::move(as).operator co_await()); break; } \
    case 'v': { auto as = cobalt::as_tuple(EXPR); o = co_await mk(c, VAR, 'v', std::move(as).operator co_await()); break; } \
    default: o = co_await mk(c, VAR, 'w', (EXPR).operator co_await()); }
#define AWAIT_PUSH(G, X) \
  switch (I.mode) { \
    case 'u': { auto as = cobalt::as_result(G(X)); o = co_await mk(c, I.a, 'u', std::move(as)); break; } \
    case 'v': { auto as = cobalt::as_tuple(G(X)); o = co_await mk(c, I.a, 'v', std::move(as)); break; } \
    default: o = co_await mk(c, I.a, 'w', G(X)); }

#define BODY(SPECIAL, RETURN) \
  lguard lg(c); \
  const auto & prog = W->prog[c]; \
  for (int pc = 1;; pc++) \
  { \
    if (pc > (int)prog.size()) { int x = 0; (void)x; say("i", c, pc); RETURN; } \
    const instr I = prog[pc - 1]; \
    outcome o; \
    switch (I.op) \
    { \
      case 'w': \
      { \
        if (!can_await(c, I.a)) { skip(c, pc); continue; } \
        say("i", c, pc); \
        variable & var = W->vars.at(I.a); \
        try { \
          switch (var.kind) { \
            case 'p': AWAIT_AS(std::get<cobalt::promise<val>>(var.h), I.a) break; \
            case 'P': AWAIT_AS(std::get<cobalt::promise<void>>(var.h), I.a) break; \
            case 't': AWAIT_AS(std::get<cobalt::task<val>>(var.h), I.a) break; \
            case 'T': AWAIT_AS(std::get<cobalt::task<void>>(var.h), I.a) break; \
            case 'g': AWAIT_AS(std::get<cobalt::generator<val>>(var.h), I.a) break; \
            case 'G': { val pv(I.b); AWAIT_PUSH(std::get<6>(var.h), std::move(pv)) break; } \
          } } catch (...) { o = outcome::error(std::current_exception()); } \
        say(c, pc, o); \
        if (o.ex && I.up) std::rethrow_exception(o.ex); \
        continue; \
      } \
      case 'o': \
      { \
        if (W->used.count(I.a)) { skip(c, pc); continue; } \
        W->used.insert(I.a); \
        say("i", c, pc); \
        W->ops[I.a] = std::make_unique<leaf>(I.a, I.r); \
        try { AWAIT_AS(*W->ops[I.a], 0) } catch (...) { o = outcome::error(std::current_exception()); } \
        say(c, pc, o); \
        if (o.ex && I.up) std::rethrow_exception(o.ex); \
        continue; \
      } \
      case 'A': \
        if (!can_with(c, I.a)) { skip(c, pc); continue; } \
        say("i", c, pc); \
        try { \
          if (with_is_void(I.a)) co_await make_with_void(I.a); \
          else o.v = (co_await make_with_val(I.a)).v; \
        } catch (...) { o = outcome::error(std::current_exception()); } \
        say(c, pc, o); \
        if (o.ex && I.b) std::rethrow_exception(o.ex); \
        continue; \
      case 'B': \
        if (!can_wait(c, I.a)) { skip(c, pc); continue; } \
        say("i", c, pc); \
        try { \
          waiting wa(I.a, c); \
          if (I.b == 1) co_await W->groups.at(I.a)->g.wait_one(); \
          else if (I.b == 2) co_await W->groups.at(I.a)->g.wait(); \
          else co_await W->groups.at(I.a)->g; \
        } catch (...) { o = outcome::error(std::current_exception()); } \
        say(c, pc, o); \
        if (o.ex && I.up) std::rethrow_exception(o.ex); \
        continue; \
      case 'h': \
        say("i", c, pc); \
        try { co_await cobalt::noop<void>(); } catch (...) { o = outcome::error(std::current_exception()); } \
        say(c, pc, o); \
        if (o.ex && I.up) std::rethrow_exception(o.ex); \
        continue; \
      case 't': say("i", c, pc); throw test_error(I.a); \
      case 'r': { say("i", c, pc); int x = I.a; (void)x; RETURN; } \
      case 'c': say("i", c, pc); co_await cobalt::this_coro::throw_if_cancelled(I.a != 0); continue; \
      case 'z': \
      { \
        int bits = flag_bits(co_await cobalt::this_coro::cancelled); \
        int bits2 = flag_bits((co_await cobalt::this_coro::cancellation_state).cancelled()); \
        if (bits != bits2) bits = -1; \
        o.v = bits + 8 * (co_await cobalt::this_coro::throw_if_cancelled() ? 1 : 0); \
        say(c, pc, o); continue; \
      } \
      case 'b': \
      { \
        auto ex = co_await cobalt::this_coro::executor; \
        auto al = co_await cobalt::this_coro::allocator; \
        o.v = (ex == cobalt::executor(W->ctx->get_executor()) ? 1 : ex == cobalt::executor(W->hctx->get_executor()) ? 2 : 0) \
            + (al.resource() == &W->res ? 4 : al.resource() == &W->res2 ? 8 : 0); \
        say(c, pc, o); continue; \
      } \
      case 's': \
        say("i", c, pc); \
        if (I.n == 0) co_await cobalt::this_coro::reset_cancellation_state(); \
        else if (I.n == 1) co_await cobalt::this_coro::reset_cancellation_state(mask{I.a}); \
        else co_await cobalt::this_coro::reset_cancellation_state(mask{I.a}, mask{I.b}); \
        continue; \
      SPECIAL \
      default: if (!common_instr(c, pc, I, lg.owned)) skip(c, pc); continue; \
    } \
  }

struct mask
{
  int m;
  asio::cancellation_type operator()(asio::cancellation_type t) const
  { return t & static_cast<asio::cancellation_type>(m); }
};

#if PART == 1
cobalt::promise<val> co_p(fguard f, int c) { BODY(, co_return val(x)) }
cobalt::promise<void> co_P(fguard f, int c) { BODY(, co_return) }
#elif PART == 2
cobalt::task<val> co_t(fguard f, int c) { BODY(, co_return val(x)) }
cobalt::task<void> co_T(fguard f, int c) { BODY(, co_return) }
#elif PART == 5
cobalt::promise<val> xo_p(fguard f, int c, asio::executor_arg_t, cobalt::executor, std::allocator_arg_t, cobalt::pmr::polymorphic_allocator<void>) { BODY(, co_return val(x)) }
cobalt::promise<void> xo_P(std::allocator_arg_t, cobalt::pmr::polymorphic_allocator<void>, asio::executor_arg_t, cobalt::executor, fguard f, int c) { BODY(, co_return) }
#elif PART == 6
cobalt::task<val> xo_t(fguard f, int c, std::allocator_arg_t, cobalt::pmr::polymorphic_allocator<void>) { BODY(, co_return val(x)) }
cobalt::task<void> xo_T(std::allocator_arg_t, cobalt::pmr::polymorphic_allocator<void>, fguard f, int c) { BODY(, co_return) }
#elif PART == 3 || PART == 7
#define YIELD(PUSH) \
      case 'y': say("i", c, pc); PUSH(co_yield val(I.a)) say(c, pc, o); continue; \
      case 'i': if (pc > 1) { skip(c, pc); continue; } \
                say("i", c, pc); PUSH(co_await cobalt::this_coro::initial) say(c, pc, o); continue;
#define PUSH_VOID(X) X;
#define PUSH_VAL(X) { val p = X; o.v = p.v; }
#if PART == 3
cobalt::generator<val> co_g(fguard f, int c) { BODY(YIELD(PUSH_VOID), co_return val(x)) }
cobalt::generator<val, val> co_G(fguard f, int c) { BODY(YIELD(PUSH_VAL), co_return val(x)) }
#else
cobalt::generator<val> xo_g(asio::executor_arg_t, cobalt::executor, fguard f, int c, std::allocator_arg_t, cobalt::pmr::polymorphic_allocator<void>) { BODY(YIELD(PUSH_VOID), co_return val(x)) }
cobalt::generator<val, val> xo_G(fguard f, std::allocator_arg_t, cobalt::pmr::polymorphic_allocator<void>, asio::executor_arg_t, cobalt::executor, int c) { BODY(YIELD(PUSH_VAL), co_return val(x)) }
#endif
#elif PART == 4
template<char K> decltype(auto) produce(const instr & i)
{
  if constexpr (K == 's') { if (i.op == 'Z') throw test_error(i.a); return val(i.a); }
  else if constexpr (K == 'S') { if (i.op == 'z') throw test_error(i.a); return; }
  else if constexpr (K == 'o') { W->ops[i.a] = std::make_unique<leaf>(i.a, i.r); return *W->ops[i.a]; }
  else if constexpr (K == 'P') { if (i.op == 'e') throw test_error(i.a); return new_P(i.a); }
  else if constexpr (K == 'p') return new_p(i.a);
  else if constexpr (K == 't') { auto t = new_t(i.a); W->alive[i.a] = true; return t; }
  else if constexpr (K == 'T') { auto t = new_T(i.a); W->alive[i.a] = true; return t; }
}
void tearing(int w, int r, std::exception_ptr & e)
{
  outcome o;
  if (e) o = outcome::error(e);
  ev("wt").i("c", w == r && W->resources.count(w) ? w : -1).t("k", o.k).i("v", o.v).out();
  for (std::size_t j = 2; e && j < W->prog[w].size(); j++)
  {
    const instr & f = W->prog[w][j];
    if (f.op == 'n' && with_is_void(w)) { e = nullptr; return; }
    if (f.op == 'm') e = std::make_exception_ptr(test_error(f.a));
  }
}
template<char T> struct xres : wres
{
  using wres::wres;
  auto await_exit(std::exception_ptr & e) { tearing(c, c, e); return produce<T>(W->prog[c][1]); }
};
struct gres : wres      // owns a wait_group
{
  int g;
  gres(int w, int g, int types) : wres(w), g(g)
  {
    W->groups[g] = std::make_unique<group>(cobalt::wait_group(static_cast<asio::cancellation_type>(types / 10), static_cast<asio::cancellation_type>(types % 10)));
    W->groups[g]->own = w;
  }
  gres(gres && o) noexcept = default;
  ~gres() { if (c) drop_group(g); }
  auto await_exit(std::exception_ptr & e) { tearing(c, c, e); return W->groups.at(g)->g.await_exit(e); }
};
template<char B, char T> auto with_(int w)
{
  if constexpr (T == 'g')
    return cobalt::with(gres(w, W->prog[w][1].a, W->prog[w][1].b), [w](gres & r) -> decltype(auto)
      {
        ev("wb").i("c", w == r.c && W->resources.count(w) ? w : -1).out();
        return produce<B>(W->prog[w][0]);
      });
  else
  {
  auto tear = [w](const wres & r, std::exception_ptr & e) -> decltype(auto) { tearing(w, r.c, e); return produce<T>(W->prog[w][1]); };
  auto body = [w](wres & r) -> decltype(auto)
  {
    ev("wb").i("c", w == r.c && W->resources.count(w) ? w : -1).out();
    return produce<B>(W->prog[w][0]);
  };
  if constexpr (T == 'P' || T == 'T')
    for (std::size_t j = 2; j < W->prog[w].size(); j++)
      if (W->prog[w][j].op == 'x')
        return cobalt::with(xres<T>(w), std::move(body));
  return cobalt::with(wres(w), std::move(body), std::move(tear));
  }
}
char form(const instr & i)
{
  switch (i.op) { case 'c': return W->kind[i.a]; case 'z': return 'S'; case 'Z': return 's'; case 'e': return 'P'; default: return i.op; }
}
template<char B> auto with_b(int w)
{
  switch (form(W->prog[w][1])) { case 'p': return with_<B, 'p'>(w); case 'T': return with_<B, 'T'>(w); case 'o': return with_<B, 'o'>(w); case 'g': return with_<B, 'g'>(w); default: return with_<B, 'P'>(w); }
}
bool with_is_void(int w) { return strchr("SPT", form(W->prog[w][0])) != nullptr; }
with_val make_with_val(int w)
{
  switch (form(W->prog[w][0])) { case 's': return with_b<'s'>(w); case 'p': return with_b<'p'>(w); case 't': return with_b<'t'>(w); default: return with_b<'o'>(w); }
}
with_void make_with_void(int w)
{
  switch (form(W->prog[w][0])) { case 'S': return with_b<'S'>(w); case 'T': return with_b<'T'>(w); default: return with_b<'P'>(w); }
}
bool can_with(int c, int w)
{
  if (w <= c || !W->kind.count(w) || W->kind[w] != 'w' || W->made.count(w) || W->prog[w].size() < 2) return false;
  const instr & b = W->prog[w][0], & t = W->prog[w][1];
  if (b.op == t.op && strchr("co", b.op) && b.a == t.a) return false;
  for (auto * i : {&b, &t})
  {
    if (i->op == 'c' && (i->a <= w || !W->kind.count(i->a) || W->made.count(i->a) || !strchr("pPtT", W->kind[i->a]))) return false;
    if (i->op == 'o' && W->used.count(i->a)) return false;
    if (i->op == 'g' && (i->a < 1 || i->a > 2 || W->groups.count(i->a))) return false;
  }
  for (auto * i : {&b, &t})
  {
    if (i->op == 'c') W->made.insert(i->a);
    if (i->op == 'o') W->used.insert(i->a);
  }
  W->made.insert(w);
  return true;
}
#elif PART == 0
#define DET \
      case 'R': if (W->src.count(c)) { skip(c, pc); continue; } \
                say("i", c, pc); W->src[c] = std::make_unique<asio::cancellation_signal>(); \
                co_await cobalt::this_coro::reset_cancellation_source(W->src[c]->slot()); continue;
cobalt::detached co_d(fguard f, int c) { BODY(DET, co_return) }
cobalt::detached xo_d(fguard f, asio::executor_arg_t, cobalt::executor, int c, std::allocator_arg_t, cobalt::pmr::polymorphic_allocator<void>) { BODY(DET, co_return) }

world * W = nullptr;

int flag_bits(asio::cancellation_type t) { return static_cast<int>(static_cast<unsigned>(t) & 7u); }
void say(const char * e, int c, int pc) { ev(e).i("c", c).i("pc", pc).out(); }
void say(int c, int pc, const outcome & o) { ev("o").i("c", c).i("pc", pc).t("k", o.k).i("v", o.v).out(); }
void skip(int c, int pc) { ev("skip").i("c", c).i("pc", pc).out(); }

void leaf::initiate(cobalt::completion_handler<sys::error_code, val> c)
{
  hd.emplace(std::move(c));
  auto sl = hd->get_cancellation_slot();
  if (sl.is_connected())
    sl.assign([this](asio::cancellation_type t)
      {
        ev("cx").i("k", k).i("t", flag_bits(t)).out();
        if (react == 'a' && !W->closing) complete(asio::error::operation_aborted, 0);
      });
  ev("init").i("k", k).b("slot", sl.is_connected()).out();
}

holder make(int c)
{
  W->made.insert(c);
  struct creating { int c; ~creating() { W->creating.erase(c); } } cr{c};
  if (W->kind[c] != 'd') W->creating.insert(c);
  switch (W->kind[c])
  {
    case 'p': return new_p(c);
    case 'P': return new_P(c);
    case 't': { auto t = new_t(c); W->alive[c] = true; return t; }
    case 'T': { auto t = new_T(c); W->alive[c] = true; return t; }
    case 'g': return new_g(c);
    case 'G': return new_G(c);
  }
  new_d(c);
  return {};
}

void drop(int v)
{
  auto n = W->vars.extract(v);   // no longer visible while it is being destroyed
}

void drop_group(int g)
{
  if (auto n = W->groups.extract(g)) n.mapped().reset();
}

bool can_wait(int c, int g)
{
  auto it = W->groups.find(g);
  if (it == W->groups.end() || it->second->w || it->second->lo <= c) return false;
  int w = it->second->own;
  return !w || (W->prog[w][0].op == 'c' && W->prog[w][0].a == c);
}

bool owned_by_anybody(int c)
{
  for (auto & [k, g] : W->groups) if (g->m.count(c)) return true;
  if (W->creating.count(c) || W->spawned.count(c)) return true;
  for (auto & [k, v] : W->vars) if (v.hold == c) return true;
  return false;
}

bool can_await(int c, int v)
{
  auto it = W->vars.find(v);
  return it != W->vars.end() && it->second.hold > c && (it->second.own == 0 || it->second.own == c)
      && (strchr("gG", it->second.kind) || !W->taken.count(it->second.hold));
}

struct spawn_handler
{
  int v; bool called = false, moved = false;
  explicit spawn_handler(int v) : v(v) {}
  spawn_handler(spawn_handler && o) noexcept : v(o.v), called(o.called), moved(o.moved) { o.moved = true; }
  ~spawn_handler() { if (!called && !moved) ev("spd").i("v", v).out(); }
  void fin(std::exception_ptr e, int x)
  {
    called = true;
    outcome o; o.v = x;
    if (e) o = outcome::error(e);
    ev("sp").i("v", v).t("k", o.k).i("x", o.v).b("h", W->hctx->get_executor().running_in_this_thread()).out();
  }
  void operator()(std::exception_ptr e, val x) { fin(e, e ? 0 : x.v); }
  void operator()(std::exception_ptr e) { fin(e, 0); }
};

// instructions coroutines and the main program (c == 0) have in common
bool common_instr(int c, int pc, const instr & I, std::vector<int> & owned)
{
  auto mine = [&](auto it) { return it != W->vars.end() && it->second.own == c; };
  auto it = W->vars.find(I.a);
  switch (I.op)
  {
    case 'm': case 'l':
    {
      if ((I.op == 'l' && !c) || I.a <= c || !W->kind.count(I.a) || W->kind[I.a] == 'w' || W->made.count(I.a) || it != W->vars.end()) return false;
      say("i", c, pc);
      outcome o;
      try
      {
        holder h = make(I.a);
        if (h.index())
        {
          W->vars.try_emplace(I.a, std::move(h), I.a, I.op == 'l' ? c : 0, W->kind[I.a]);
          if (I.op == 'l') owned.push_back(I.a);
        }
      }
      catch (...) { o = outcome::error(std::current_exception()); }
      say(c, pc, o);
      return true;
    }
    case 'x':
      if (!mine(it) || it->second.busy) return false;
      say("i", c, pc);
      std::erase(owned, I.a);
      drop(I.a);
      return true;
    case 'n':
      if (it == W->vars.end() || !it->second.hold || strchr("tT", it->second.kind)) return false;
      say("i", c, pc);
      std::visit([&](auto & x) { if constexpr (requires {x.cancel();}) { if (I.b == 9) x.cancel(); else x.cancel(static_cast<asio::cancellation_type>(I.b)); } }, it->second.h);
      return true;
    case 'k':
      if (!mine(it) || it->second.busy || W->vars.count(I.b) || I.b < 20 || I.b > 22 || !it->second.hold) return false;
      say("i", c, pc);
      W->vars.try_emplace(I.b, std::move(it->second.h), std::exchange(it->second.hold, 0), c, it->second.kind);
      if (c) owned.push_back(I.b);
      return true;
    case 'a':
    {
      auto to = W->vars.find(I.b);
      if (!mine(it) || it->second.busy || !mine(to) || to->second.busy || I.a == I.b || it->second.kind != to->second.kind
          || strchr("tT", it->second.kind) || !it->second.hold) return false;
      say("i", c, pc);
      to->second.hold = std::exchange(it->second.hold, 0);
      std::visit([&](auto & x) { using X = std::decay_t<decltype(x)>;
        if constexpr (!std::is_same_v<X, cobalt::task<val>> && !std::is_same_v<X, cobalt::task<void>>)
          x = std::move(std::get<X>(it->second.h)); }, to->second.h);
      return true;
    }
    case 'e': case 'f':
      if (it == W->vars.end() || !it->second.hold || !strchr("pP", it->second.kind)) return false;
      say("i", c, pc);
      std::visit([&](auto & x) { if constexpr (requires {x.attach();}) { if (I.op == 'e') { if (I.b) +std::move(x); else x.detach(); } else x.attach(); } }, it->second.h);
      return true;
    case 'q':
    {
      if (it == W->vars.end() || !it->second.hold || strchr("tT", it->second.kind)) return false;
      outcome o;
      std::visit([&](auto & x) {
        if constexpr (requires {x.ready();}) o.v = x.ready() + 2 * static_cast<bool>(x);
        if constexpr (requires {x.attached();}) o.v += 4 * x.attached(); }, it->second.h);
      say(c, pc, o);
      return true;
    }
    case 'j':
    {
      if (it == W->vars.end() || !it->second.hold || strchr("tT", it->second.kind) || it->second.busy
          || (strchr("pP", it->second.kind) && W->taken.count(it->second.hold))) return false;
      bool ok = false;
      outcome o;
      std::visit([&](auto & x) {
        if constexpr (requires {x.ready(); x.get();})
          if (x.ready())
          {
            ok = true;
            try { if constexpr (std::is_void_v<decltype(x.get())>) x.get(); else { val r = x.get(); o.v = r.v; } }
            catch (...) { o = outcome::error(std::current_exception()); }
          }
      }, it->second.h);
      if (!ok) return false;
      if (strchr("pP", it->second.kind)) W->taken.insert(it->second.hold);
      say(c, pc, o);
      return true;
    }
    case 'S':
    {
      if (!mine(it) || it->second.busy || !it->second.hold || !strchr("tT", it->second.kind) || W->begun.count(it->second.hold)) return false;
      int v = it->second.hold;
      say("i", c, pc);
      it->second.hold = 0;
      W->spawned.insert(v);
      W->hsig[v] = std::make_unique<asio::cancellation_signal>();
      auto go = [&](auto & t)
      {
        auto hd = asio::bind_cancellation_slot(W->hsig[v]->slot(), spawn_handler(v));
        if (W->hx)
          cobalt::spawn(*W->ctx, std::move(t), asio::bind_executor(W->hctx->get_executor(), std::move(hd)));
        else
          cobalt::spawn(W->ctx->get_executor(), std::move(t), std::move(hd));
      };
      if (it->second.kind == 't') go(std::get<cobalt::task<val>>(it->second.h)); else go(std::get<cobalt::task<void>>(it->second.h));
      say(c, pc, outcome{});
      return true;
    }
    case 'G':
      if (I.a < 1 || I.a > 2 || W->groups.count(I.a)) return false;
      say("i", c, pc);
      W->groups[I.a] = std::make_unique<group>(cobalt::wait_group(static_cast<asio::cancellation_type>(I.b / 10), static_cast<asio::cancellation_type>(I.b % 10)));
      return true;
    case 'p':
    {
      auto g = W->groups.find(I.b);
      if (!mine(it) || g == W->groups.end() || it->second.kind != 'P' || !it->second.hold || it->second.busy
          || W->taken.count(it->second.hold) || it->second.hold <= g->second->own) return false;
      say("i", c, pc);
      g->second->m.insert(it->second.hold);
      g->second->lo = (std::min)(g->second->lo, it->second.hold);
      g->second->g.push_back(std::move(std::get<cobalt::promise<void>>(it->second.h)));
      std::erase(owned, I.a);
      W->vars.erase(it);
      return true;
    }
    case 'K': case 'Y': case 'M': case 'F':
    {
      auto g = W->groups.find(I.a);
      if (g == W->groups.end()) return false;
      outcome o;
      if (I.op == 'F')
      {
        if (g->second->w || g->second->own) return false;
        say("i", c, pc);
        drop_group(I.a);
        return true;
      }
      if (I.op == 'K')
      {
        say("i", c, pc);
        if (I.b == 9) g->second->g.cancel(); else g->second->g.cancel(static_cast<asio::cancellation_type>(I.b));
        return true;
      }
      if (I.op == 'Y') { o.v = (int)g->second->g.reap(); o.v += 100 * (int)g->second->g.size(); }
      else o.v = (int)g->second->g.size();
      say(c, pc, o);
      return true;
    }
    case 'N':
      if (!W->hsig.count(I.a)) return false;
      say("i", c, pc);
      W->hsig[I.a]->emit(static_cast<asio::cancellation_type>(I.b));
      return true;
  }
  return false;
}

instr parse(const std::string & tok)
{
  instr i;
  char o = tok[0];
  auto args = tok.size() > 1 ? split(tok.substr(1), ':') : std::vector<std::string>{};
  i.n = (int)args.size();
  if (i.n > 0) i.a = std::atoi(args[0].c_str());
  if (i.n > 1) { i.b = std::atoi(args[1].c_str()); if (args[1][0] == 'p') i.r = 'p'; }
  if (i.n > 2) { if (args[2][0] == 'p') i.r = 'p'; }
  i.op = o;
  if (o == 'B') i.up = i.n > 2 && args[2] == "1";
  if (strchr("WUVOH", o)) { i.up = true; i.op = o | 0x20; }
  if (strchr("wuv", i.op)) { i.mode = i.op; i.op = 'w'; }
  if (i.op == 'o' && i.n > 1 && strchr("wuv", args[1][0])) i.mode = args[1][0];
  return i;
}

template<typename F> void guarded(F f)
{
  try { f(); }
  catch (...) { auto o = outcome::error(std::current_exception()); ev("exc").t("k", o.k).i("v", o.v).out(); }
}

bool poll_one(asio::io_context & ctx)
{
  ctx.restart();
  bool r = true;
  cobalt::this_thread::set_executor(ctx.get_executor());
  guarded([&]{ r = ctx.poll_one() > 0; });
  cobalt::this_thread::set_executor(W->ctx->get_executor());
  return r;
}

void run(const scenario & s)
{
  W = new world;   // outlives a frame that leaks
  world & w = *W;
  cobalt::this_thread::set_default_resource(&w.res);
  std::pmr::set_default_resource(&w.res);
  cobalt::this_thread::set_executor(w.ctx->get_executor());
  bool ctx_first = false;
  for (auto & [k, v] : s.head)
  {
    if (k[0] == 'c' && k.size() > 1)
    {
      int c = std::atoi(k.c_str() + 1);
      w.kind[c] = v[0];
      if (v.size() > 2) for (auto & t : split(v.substr(2), ',')) if (!t.empty()) w.prog[c].push_back(parse(t));
      w.prog[c];
    }
    else if (k == "end") ctx_first = v == "c";
    else if (k == "hx") w.hx = v == "1";
    else if (k == "x") for (auto & t : split(v, ',')) w.other.insert(std::atoi(t.c_str()));
  }
  {
    std::vector<int> none;
    int n = 0;
    for (auto & c : s.cmds)
    {
      ++n;
      int a = c.size() > 1 ? std::atoi(c[1].c_str()) : 0, b = c.size() > 2 ? std::atoi(c[2].c_str()) : 0;
      switch (c[0][0])
      {
        case 'C': case 'E':
          if (!w.ops.count(a) || !w.ops[a]->hd) { skip(0, n); break; }
          say("i", 0, n);
          w.ops[a]->complete(c[0][0] == 'E' ? sys::error_code(b, sys::generic_category()) : sys::error_code(), b);
          break;
        case 'I':
        {
          auto it = w.intr.find(a);
          if (it == w.intr.end()) { skip(0, n); break; }
          say("i", 0, n);
          auto f = it->second;
          guarded(f);
          break;
        }
        case 'D':
          if (!w.src.count(a)) { skip(0, n); break; }
          say("i", 0, n);
          w.src[a]->emit(static_cast<asio::cancellation_type>(b));
          break;
        case 'P':
          say("i", 0, n);
          if (!poll_one(*w.ctx)) ev("idle").out();
          break;
        case 'X':
          say("i", 0, n);
          if (!poll_one(*w.hctx)) ev("idle").out();
          break;
        case 'Q':
          say("i", 0, n);
          for (int j = 0; j < 500 && poll_one(*w.ctx); j++) ;
          ev("idle").out();
          break;
        default:
          guarded([&]{ if (!common_instr(0, n, parse(c[0]), none)) skip(0, n); });
      }
      ev("ret").i("n", n).out();
    }
  }
  auto drop_vars = [&]
  {
    ev("dropvars").out();
    while (true)
    {
      auto it = std::find_if(w.vars.begin(), w.vars.end(), [](auto & p) { return p.second.own == 0 && !p.second.busy; });
      if (it == w.vars.end()) break;
      ev("dv").i("v", it->first).out();
      guarded([&]{ drop(it->first); });
    }
    while (true)
    {
      auto it = std::find_if(w.groups.begin(), w.groups.end(), [](auto & p) { return !p.second->w && !p.second->own; });
      if (it == w.groups.end()) break;
      ev("dg").i("g", it->first).out();
      guarded([&]{ drop_group(it->first); });
    }
    ev("dropped").out();
  };
  auto drop_ctx = [&]
  {
    ev("close").out();
    w.closing = true;
    for (auto & [k, o] : w.ops)
      if (o->hd) { ev("drop").i("k", k).out(); o->hd.reset(); }
    w.ctx->shutdown();
    w.hctx->shutdown();
    w.ctx.reset();
    w.hctx.reset();
    ev("closed").out();
  };
  if (!ctx_first)
  {
    drop_vars();
    for (int j = 0; j < 500 && (poll_one(*w.ctx) || poll_one(*w.hctx)); j++) ;
    ev("idle2").out();
    drop_ctx();
  }
  else
    drop_ctx();
  drop_vars();
  w.hsig.clear();
  w.src.clear();
  long live = 0;
  for (auto & [c, a] : w.alive) if (a) live++;
  for (auto & [c, a] : w.alive) if (a) ev("leak").i("c", c).b("orphan", w.orphan.count(c)).out();
  for (int r : w.resources) ev("leakres").i("c", r).out();
  ev("end").i("vars", (long)(w.vars.size() + w.groups.size())).i("mem", live ? 0 : (long)(w.res.live.size() + w.res2.live.size())).i("bad", w.res.bad + w.res2.bad).out();
  w.ops.clear();
  if (!w.vars.empty()) for (auto & [v, x] : w.vars) ev("stuck").i("v", v).out();
  cobalt::this_thread::set_default_resource(std::pmr::new_delete_resource());
  std::pmr::set_default_resource(std::pmr::new_delete_resource());
  if (!live && w.vars.empty() && w.groups.empty()) { delete W; W = nullptr; }
}

int main(int argc, char ** argv) { return run_scenarios(argc, argv, run); }
#endif
