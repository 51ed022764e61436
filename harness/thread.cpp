// Conformance driver for threads: a thread coroutine and the owner of its handle, every interleaving under control.
// PARTS: 3
// FLAGS 0: -fsanitize-coverage=trace-pc
// FLAGS 2: -fsanitize-coverage=trace-pc
// WITHOUT: thread
//
// header: body=<step,..> sch=<seed> aw=<a|p>
//   steps  l log, y post to itself, g<k> wait for gate k, p start a promise that waits forever, d the same detached,
//          s stop the own context, r reset the cancellation state, t throw
// commands of the owner: n create, c T cancel, a F l|r await (in the form d|r|t), C N T cancel awaiter N, P poll, W run until
//   nothing is awaited, j join, d detach, x destroy, m move, q executor?, J joinable?, O K open gate, S K i|gK v|i spawn a task onto it, Z K T cancel it
#if PART == 1
#include "sched.inc"
#elif PART == 2
#include "src/thread.cpp"
#else
#include "common.hpp"
#include "sched.hpp"
#include <boost/cobalt/thread.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/op.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/asio/bind_executor.hpp>
#include <boost/asio/post.hpp>
#include <optional>
#include <set>
#include <list>
#include <mutex>
#include <new>
using namespace h;
using ec_t = boost::system::error_code;

extern "C" void __sanitizer_print_stack_trace();
static long long news = 0;
static bool count_news = false;
void * operator new(std::size_t n)
{
  if (count_news) { sched::quiet q; news++; }
  if (void * p = std::malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void operator delete(void * p) noexcept { if (p && count_news) { sched::quiet q; news--; } std::free(p); }
void operator delete(void * p, std::size_t) noexcept { operator delete(p); }

// log what thread did something; nothing happens in between
struct E : ev
{
  sched::quiet q;
  explicit E(const char * n) : ev(n) { i("w", sched::self() > 0 ? 1 : 0); }
};

struct world;
struct guard
{
  const char * what;
  explicit guard(const char * w) : what(w) { sched::quiet q; live_frames++; }
  guard(guard && g) noexcept : what(std::exchange(g.what, nullptr)) {}
  ~guard() { if (what) { E e("gone"); if (*what) e.t("n", what).out(); live_frames--; } }
};

// the memory of the owner; other threads must keep out
struct own_resource final : cobalt::pmr::memory_resource
{
  counting_resource r;
  bool foreign = false;
  void check()
  {
    if (sched::self() > 0)
    {
      foreign = true;
      if (verbose() && !muted) __sanitizer_print_stack_trace();
    }
  }
  void * do_allocate(std::size_t n, std::size_t al) override { sched::quiet q; check(); return r.allocate(n, al); }
  void do_deallocate(void * p, std::size_t n, std::size_t al) override { sched::quiet q; check(); r.deallocate(p, n, al); }
  bool do_is_equal(const memory_resource & rhs) const noexcept override { return this == &rhs; }
};

// operations that wait for a gate; they are owned by the context
struct gate_service : asio::execution_context::service
{
  static asio::execution_context::id id;
  // the slot belongs to the thread that waits: another one completing it leaves the slot alone
  struct entry { int k; const char * who; int n; cobalt::completion_handler<ec_t> h; asio::executor_work_guard<cobalt::executor> wk; std::shared_ptr<bool> live; };
  std::list<entry> all;
  world * w = nullptr;
  explicit gate_service(asio::execution_context & c) : asio::execution_context::service(c) {}
  void shutdown() override;
  // the work goes with it: the other thread may be gone before this one returns
  struct done_op
  {
    using executor_type = cobalt::completion_handler<ec_t>::executor_type;
    using allocator_type = cobalt::completion_handler<ec_t>::allocator_type;
    executor_type get_executor() const noexcept { return h.get_executor(); }
    allocator_type get_allocator() const noexcept { return h.get_allocator(); }
    cobalt::completion_handler<ec_t> h;
    asio::executor_work_guard<cobalt::executor> wk;
    ec_t ec;
    void operator()() { auto w = std::move(wk); std::move(h)(ec); }
  };
  static void complete(entry e, ec_t ec)
  {
    cobalt::executor ex = e.wk.get_executor();
    done_op d{std::move(e.h), std::move(e.wk), ec};
    asio::post(ex, std::move(d));
  }
};
asio::execution_context::id gate_service::id;

struct world
{
  own_resource res;
  std::optional<asio::io_context> ctx{std::in_place, 1};
  std::vector<std::string> body;
  std::optional<cobalt::thread> t;
  std::thread::id tid;
  bool begun = false;
  std::set<int> open;
  std::set<gate_service*> gates;
  struct waiter { bool gone = false; bool done = false, live = false; asio::cancellation_signal sig; std::optional<cobalt::promise<void>> p; };
  std::map<int, std::unique_ptr<waiter>> aw;
  struct task_st { asio::cancellation_signal sig; bool live = true; };
  std::map<int, std::unique_ptr<task_st>> tasks;
  bool st = false;            // the handle has the state of the thread
  bool context_left() const
  {
    bool r = st;
    for (auto & [k, a] : aw) r |= a->live;
    return r;
  }
};

// a context is not gone while somebody posts to it
static std::mutex completing;
void gate_service::shutdown()
{
  { std::lock_guard l(completing); }
  for (;;)
  {
    std::optional<entry> e;
    {
      sched::quiet q;
      if (all.empty()) break;
      *all.front().live = false;
      e.emplace(std::move(all.front()));
      all.pop_front();
    }
    e.reset();
  }
  sched::quiet q;
  if (w) w->gates.erase(this);
}

struct gate final : cobalt::op<ec_t>
{
  world & w; int k; const char * who; int n; gate_service & s;
  gate(world & w, int k, const char * who, int n, gate_service & s) : w(w), k(k), who(who), n(n), s(s) {}
  void initiate(cobalt::completion_handler<ec_t> h) override
  {
    auto ex = h.get_executor();
    auto sl = h.get_cancellation_slot();
    bool now;
    {
      sched::quiet q;
      E(who).i("n", n).out();
      auto live = std::make_shared<bool>(true);
      s.all.push_back({k, who, n, std::move(h), asio::make_work_guard(ex), live});
      auto itr = std::prev(s.all.end());
      now = w.open.count(k) != 0;
      if (sl.is_connected() && !now)
        sl.assign([this_ = &s, itr, live](asio::cancellation_type t)
          {
            sched::quiet q;
            if (!*live) return;
            *live = false;
            E("x").t("f", itr->who).i("n", itr->n).t("t", t == asio::cancellation_type::terminal ? "t" : t == asio::cancellation_type::partial ? "p" : t == asio::cancellation_type::total ? "o" : "a").out();
            auto e = std::move(*itr);
            this_->all.erase(itr);
            gate_service::complete(std::move(e), asio::error::operation_aborted);
          });
      if (!now) return;
    }
    std::optional<entry_t> e;
    {
      sched::quiet q;
      e.emplace(std::move(s.all.back()));
      s.all.pop_back();
    }
    gate_service::complete(std::move(*e), {});
  }
  using entry_t = gate_service::entry;
};

static gate_service & svc(world & w, const cobalt::executor & ex)
{
  auto & s = asio::use_service<gate_service>(asio::query(ex, asio::execution::context));
  sched::quiet q;
  s.w = &w;
  w.gates.insert(&s);
  return s;
}

static void open_gate(world & w, int k)
{
  std::lock_guard l(completing);
  std::list<gate_service::entry> go;
  {
    sched::quiet q;
    w.open.insert(k);
    for (auto s : w.gates)
      for (auto i = s->all.begin(); i != s->all.end();)
        if (i->k == k) { *i->live = false; go.push_back(std::move(*i)); i = s->all.erase(i); }
        else ++i;
  }
  for (auto & e : go) gate_service::complete(std::move(e), {});
}

static cobalt::promise<void> pending(world & w, gate_service & s, guard)
{
  co_await cobalt::as_tuple(gate(w, -1, "hold", 0, s));
}
static cobalt::detached pending_d(world & w, gate_service & s, guard)
{
  co_await cobalt::as_tuple(gate(w, -1, "hold", 0, s));
}

static cobalt::thread body(world & w, guard param)
{
  guard local("local");
  auto ex = co_await cobalt::this_coro::executor;
  auto & s = svc(w, ex);
  {
    sched::quiet q;
    w.begun = true;
    w.tid = std::this_thread::get_id();
  }
  E("up").b("ex", cobalt::this_thread::has_executor() && cobalt::this_thread::get_executor() == ex)
            .b("res", (co_await cobalt::this_coro::allocator).resource() == cobalt::this_thread::get_default_resource()
                      && cobalt::this_thread::get_default_resource() != &w.res).out();
  std::vector<cobalt::promise<void>> held;
  int n = 0;
  for (auto & st : w.body)
  {
    n++;
    switch (st[0])
    {
      case 'l': E("l").i("n", n).out(); break;
      case 'y':
      {
        std::string r = "ok";
        try { E("y").i("n", n).out(); co_await asio::post(ex, cobalt::use_op); }
        catch (...) { r = classify(std::current_exception()); }
        E("Y").i("n", n).t("r", r).out();
        break;
      }
      case 'g':
      {
        std::string r = "ok";
        try { co_await gate(w, std::atoi(st.c_str() + 1), "g", n, s); }
        catch (...) { r = classify(std::current_exception()); }
        E("G").i("n", n).t("r", r).out();
        break;
      }
      case 'p': held.push_back(pending(w, s, guard(""))); E("p").i("n", n).out(); break;
      case 'd': pending_d(w, s, guard("")); E("d").i("n", n).out(); break;
      case 's':
      {
        E("s").i("n", n).out();
        auto & c = asio::query(ex, asio::execution::context);
        static_cast<asio::io_context&>(c).stop();
        break;
      }
      case 'r': co_await cobalt::this_coro::reset_cancellation_state(asio::enable_total_cancellation()); E("r").i("n", n).out(); break;
      case 't': E("t").i("n", n).out(); throw test_error(n);
    }
  }
  E("over").out();
}

template<typename F> static auto told(int n, F f)
{
  std::string r = "ok";
  try { f(); } catch (const std::invalid_argument & e) { r = e.what() == std::string("Thread expired") ? "expired" : "inv"; }
  catch (...) { r = classify(std::current_exception()); }
  E("A").i("n", n).t("r", r).out();
}
static std::string why(std::exception_ptr e)
{
  if (!e) return "ok";
  try { std::rethrow_exception(e); }
  catch (const std::invalid_argument & x) { return x.what() == std::string("Thread expired") ? "expired" : "inv"; }
  catch (...) { return classify(std::current_exception()); }
}
#define FORMS(CO)                                                                                         \
  {                                                                                                       \
    std::string r = "ok";                                                                                 \
    try                                                                                                   \
    {                                                                                                     \
      if (form == 'd') co_await CO;                                                                       \
      else if (form == 'r') { auto x = co_await cobalt::as_result(CO); if (x.has_error()) r = why(x.error()); } \
      else { auto x = co_await cobalt::as_tuple(CO); r = why(std::get<0>(x)); }                           \
    }                                                                                                     \
    catch (...) { r = why(std::current_exception()); if (form != 'd' && r != "expired") r = "threw:" + r; } \
    { sched::quiet q; me.done = true; me.live = false; }                                                  \
    E("A").i("n", n).t("r", r).out();                                                                     \
  }
static actor await_a(actor::slot_arg, world & w, world::waiter & me, int n, char form, bool rv, guard)
{
  if (rv) FORMS(std::move(*w.t)) else FORMS((*w.t))
}
static cobalt::promise<void> await_p(world & w, world::waiter & me, int n, char form, bool rv, guard)
{
  if (rv) FORMS(std::move(*w.t)) else FORMS((*w.t))
}
static cobalt::task<void> tsk_v(world & w, int k, int g, guard)
{
  E("S").i("k", k).b("ex", cobalt::this_thread::has_executor() && (co_await cobalt::this_coro::executor) == cobalt::this_thread::get_executor()).out();
  if (g >= 0) co_await gate(w, g, "sg", k, svc(w, co_await cobalt::this_coro::executor));
}
static cobalt::task<int> tsk_i(world & w, int k, int g, guard)
{
  E("S").i("k", k).b("ex", cobalt::this_thread::has_executor() && (co_await cobalt::this_coro::executor) == cobalt::this_thread::get_executor()).out();
  if (g >= 0) co_await gate(w, g, "sg", k, svc(w, co_await cobalt::this_coro::executor));
  co_return k;
}

static asio::cancellation_type ct(const std::string & s)
{
  switch (s[0]) { case 't': return asio::cancellation_type::terminal; case 'p': return asio::cancellation_type::partial; case 'o': return asio::cancellation_type::total; }
  return asio::cancellation_type::all;
}

struct done_h
{
  world & w; int k; guard g; world::task_st * st;
  done_h(world & w, int k, world::task_st * st) : w(w), k(k), g(""), st(st) {}
  done_h(done_h && r) noexcept : w(r.w), k(r.k), g(std::move(r.g)), st(std::exchange(r.st, nullptr)) {}
  ~done_h() { if (st) { sched::quiet q; st->live = false; } }
  void operator()(std::exception_ptr e) { operator()(e, k); }
  void operator()(std::exception_ptr e, int v)
  {
    { sched::quiet q; if (st) st->live = false; }
    E("H").i("k", k).t("r", e ? classify(e) : v == k ? "ok" : "value").out();
  }
};

static void command(world & w, int n, const std::vector<std::string> & c)
{
  switch (c[0][0])
  {
    case 'n':
      if (!w.t) w.st = true, w.t.emplace(body(w, guard("param")));
      break;
    case 'c': if (w.t) w.t->cancel(ct(c[1])); break;
    case 'a':
      if (w.t)
      {
        auto & me = *(w.aw[n] = std::make_unique<world::waiter>());
        me.live = true;
        w.st = false;
        if (c[3] == "a") await_a({me.sig.slot()}, w, me, n, c[1][0], c[2] == "r", guard(""));
        else me.p.emplace(await_p(w, me, n, c[1][0], c[2] == "r", guard("")));
      }
      break;
    case 'C':
    {
      auto i = w.aw.find(std::atoi(c[1].c_str()));
      if (i == w.aw.end() || !i->second->live) break;
      if (i->second->p) i->second->p->cancel(ct(c[2]));
      else i->second->sig.emit(ct(c[2]));
      break;
    }
    case 'P':
      for (;;) { w.ctx->restart(); if (!w.ctx->poll_one()) break; }
      break;
    case 'W':
    {
      auto wg = asio::make_work_guard(*w.ctx);
      for (;;)
      {
        bool any = false;
        for (auto & [k, a] : w.aw) any |= a->live;
        if (!any) break;
        w.ctx->restart();
        w.ctx->run_one();
      }
      break;
    }
    case 'j': if (w.t) { std::string r = "ok"; try { w.t->join(); } catch (const std::system_error &) { r = "err"; } E("r").t("r", r).out(); } break;
    case 'd': if (w.t) { std::string r = "ok"; try { w.t->detach(); w.st = false; } catch (const std::system_error &) { r = "err"; } E("r").t("r", r).out(); } break;
    case 'x': w.t.reset(); w.st = false; break;
    case 'm': if (w.t) { cobalt::thread t2(std::move(*w.t)); w.t.reset(); w.t.emplace(std::move(t2)); } break;
    case 'q':
      if (w.t)
      {
        std::string r = "ok";
        try { w.t->get_executor(); } catch (const boost::system::system_error & e) { r = "bad"; }
        catch (const std::exception & e) { r = e.what() == std::string("bad executor") ? "bad" : "other"; }
        E("r").t("r", r).out();
      }
      break;
    case 'J':
      if (w.t)
      {
        sched::quiet q;
        bool jn = w.t->joinable();
        E("r").t("r", jn != (w.t->get_id() != std::thread::id()) || (jn && w.begun && w.t->get_id() != w.tid) ? "id" : jn ? "yes" : "no").out();
      }
      break;
    case 'O': open_gate(w, std::atoi(c[1].c_str())); break;
    case 'S':
      if (w.t)
      {
        int k = std::atoi(c[1].c_str());
        if (w.tasks.count(k)) break;
        auto & ts = *(w.tasks[k] = std::make_unique<world::task_st>());
        int g = c[2][0] == 'g' ? std::atoi(c[2].c_str() + 1) : -1;
        std::string r = "ok";
        try
        {
          auto ex = w.t->get_executor();
          auto tk = asio::bind_cancellation_slot(ts.sig.slot(), asio::bind_executor(w.ctx->get_executor(), done_h(w, k, &ts)));
          if (c[3] == "v") cobalt::spawn(ex, tsk_v(w, k, g, guard("")), std::move(tk));
          else cobalt::spawn(ex, tsk_i(w, k, g, guard("")), std::move(tk));
        }
        catch (const std::exception & e) { r = "bad"; ts.live = false; }
        E("r").t("r", r).out();
      }
      break;
    case 'Z':
    {
      auto i = w.tasks.find(std::atoi(c[1].c_str()));
      bool go = false;
      { sched::quiet q; go = i != w.tasks.end() && i->second->live && w.context_left(); }
      if (go) i->second->sig.emit(ct(c[2]));
      break;
    }
  }
}

static void scenario_(const scenario & s, bool log)
{
  long long bad = 0, mem = 0;
  bool foreign = false;
  long long before = news;
  count_news = true;
  {
    world w;
    auto old = cobalt::this_thread::set_default_resource(&w.res);
    cobalt::this_thread::set_executor(w.ctx->get_executor());
    w.body = split(s.head.at("body"), ',');
    bool act = s.head.at("aw") == "a";
    sched::begin(log ? std::strtoull(s.head.at("sch").c_str(), nullptr, 10) : 0);
    int n = 0;
    for (auto c : s.cmds)
    {
      n++;
      {
        E e("call");
        e.t("c", c[0]).i("k", n);
        e.out();
      }
      if (c[0] == "a") c.push_back(act ? "a" : "p");
      command(w, n, c);
      E("back").out();
    }
    sched::end();
    E("flush").out();
    w.aw.clear();
    w.ctx.reset();
    w.tasks.clear();
    cobalt::this_thread::set_default_resource(old);
    bad = w.res.r.bad; mem = static_cast<long long>(w.res.r.live.size()); foreign = w.res.foreign;
  }
  count_news = false;
  if (log) ev("end").i("frames", live_frames).i("mem", mem).i("bad", bad).i("news", news - before).b("foreign", foreign).out();
}

int main(int argc, char ** argv)
{
  sched::on_stuck = [] { emit("{\"e\":\"stuck\"}"); };
  sched::on_unhandled = [] { E("unhandled").t("r", classify(std::current_exception())).out(); };
  muted = true;     // everything that is initialised once
  const char * warm[][2] = {{"l,y,g1", "n;a d l;c a;O 1;W;x"}, {"g1,t", "n;a r r;S 1 i v;S 2 g1 i;C 2 t;P;O 1;W;x"},
                            {"g1,p,r", "n;S 2 g1 i;a t l;Z 2 a;O 1;P;x;P"}, {"d,y,p", "n;S 2 g1 i;x"}, {"g1", "n;d;O 1"}, {"g1", "n;O 1;j;j;q;x"}, {"g1", "n;O 1;x"}};
  for (int rep = 0; rep < 2; rep++)
    for (auto & x : warm)
    {
      scenario s;
      s.head["body"] = x[0]; s.head["sch"] = "0"; s.head["aw"] = rep ? "a" : "p";
      for (auto & c : split(x[1], ';')) s.cmds.push_back(words(c));
      scenario_(s, false);
    }
  muted = false;
  return run_scenarios(argc, argv, [](const scenario & s) { live_frames = 0; scenario_(s, true); });
}
#endif
