// PARTS: 5
// Conformance driver for cobalt::channel (specification: spec/Channel.tla)
//
// header:   lim=<n>[,<n>...]  ty=i|s|m|v  end=c|x
// commands: S <op>[,<op>...]   start a coroutine doing these operations one after the other
//             op = <id>:<how>:<style>:<alt>[+<alt>]   how = p(lain) l(eft_race) r(ace) v(ranged left_race)
//             alt = w<chan>=<value> | r<chan>          style = x(exception) t(uple) r(esult)
//           C <id>   cancel the coroutine suspended in operation id
//           I <id>   interrupt_await of (plain) operation id
//           X <chan> close
//           P        run one handler           Q   run until idle
#include "common.hpp"
#include <boost/cobalt/channel.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/result.hpp>
#include <optional>

using namespace h;
namespace variant2 = boost::variant2;

struct alt { bool write; int chan; int val; };
struct opspec { int id; char how; char style; std::vector<alt> alts; };

template<typename T> struct conv;
template<> struct conv<int>
{ static int make(int v) { return v; } static int get(const int & v) { return v; } static bool intact(const int &, int) { return true; } static constexpr bool tracks = false; };
template<> struct conv<std::string>
{
  static std::string make(int v) { return "a-string-long-enough-to-be-on-the-heap-" + std::to_string(v); }
  static int get(const std::string & s) { return s.size() > 39 ? std::atoi(s.c_str() + 39) : -1; }
  static bool intact(const std::string & s, int v) { return s == make(v); }
  static constexpr bool tracks = true;
};
template<> struct conv<std::unique_ptr<int>>
{
  static std::unique_ptr<int> make(int v) { return std::make_unique<int>(v); }
  static int get(const std::unique_ptr<int> & s) { return s ? *s : -1; }
  static bool intact(const std::unique_ptr<int> & s, int v) { return s && *s == v; }
  static constexpr bool tracks = true;
};

template<typename T>
struct world
{
  counting_resource res;
  std::unique_ptr<asio::io_context> ctx = std::make_unique<asio::io_context>(1);
  std::vector<std::unique_ptr<cobalt::channel<T>>> ch;

  struct st { bool pending = false; std::shared_ptr<asio::cancellation_signal> sig; std::function<void()> intr; };
  std::map<int, st> ops;

  void ret(int id, const std::string & r, int idx, long long v, const std::vector<long long> & kept)
  {
    ops[id].pending = false;
    ops[id].intr = nullptr;
    ev("ret").i("o", id).t("r", r).i("i", idx).i("v", v).l("kept", kept).out();
  }
};

template<typename T> using holder = std::conditional_t<std::is_void_v<T>, int, T>;

template<typename T>
auto mk_write(world<T> & w, const alt & a, holder<T> & src)
{
  if constexpr (std::is_void_v<T>)
    return w.ch[a.chan]->write();
  else if constexpr (std::is_same_v<T, std::unique_ptr<int>>)
    return w.ch[a.chan]->write(std::move(src));
  else if constexpr (std::is_same_v<T, std::string>)
  {
    if (a.val % 2) return w.ch[a.chan]->write(static_cast<const std::string&>(src));
    return w.ch[a.chan]->write(std::move(src));
  }
  else
    return w.ch[a.chan]->write(src);
}

template<typename T>
std::vector<long long> kept(const opspec & o, holder<T> * src)
{
  std::vector<long long> k;
  for (std::size_t i = 0; i < o.alts.size(); i++)
  {
    // 1: the source still holds its value, 0: it was moved out (or there is nothing to move)
    bool intact = true;
    if constexpr (!std::is_void_v<T>)
      if (o.alts[i].write && conv<T>::tracks && !(std::is_same_v<T, std::string> && o.alts[i].val % 2))
        intact = conv<T>::intact(src[i], o.alts[i].val);
    k.push_back(intact);
  }
  return k;
}

template<typename V> long long val_of(V && v)
{
  using U = std::decay_t<V>;
  if constexpr (std::is_same_v<U, variant2::monostate>) return 0;
  else return conv<U>::get(v);
}

template<typename T>
void report_ec(world<T> & w, const opspec & o, const boost::system::error_code & ec, holder<T> * src)
{
  w.ret(o.id, classify(ec), -1, 0, kept<T>(o, src));
}

#define RUN_WRITE(AW)                                                                        \
  if (o.style == 'x')                                                                        \
  { try { co_await AW; w.ret(o.id, "ok", 0, 0, kept<T>(o, src)); }                            \
    catch (const boost::system::system_error & e) { report_ec(w, o, e.code(), src); } }      \
  else if (o.style == 't')                                                                   \
  { auto [ec] = co_await cobalt::as_tuple(AW);                                               \
    if (ec) report_ec(w, o, ec, src); else w.ret(o.id, "ok", 0, 0, kept<T>(o, src)); }       \
  else                                                                                       \
  { auto rr = co_await cobalt::as_result(AW);                                                \
    if (rr.has_error()) report_ec(w, o, rr.error(), src); else w.ret(o.id, "ok", 0, 0, kept<T>(o, src)); }

#define RUN_READ(AW)                                                                         \
  if (o.style == 'x')                                                                        \
  { try { auto v = co_await AW; w.ret(o.id, "ok", 0, val_of(v), kept<T>(o, src)); }           \
    catch (const boost::system::system_error & e) { report_ec(w, o, e.code(), src); } }      \
  else if (o.style == 't')                                                                   \
  { auto [ec, v] = co_await cobalt::as_tuple(AW);                                            \
    if (ec) report_ec(w, o, ec, src); else w.ret(o.id, "ok", 0, val_of(v), kept<T>(o, src)); } \
  else                                                                                       \
  { auto rr = co_await cobalt::as_result(AW);                                                \
    if (rr.has_error()) report_ec(w, o, rr.error(), src); else w.ret(o.id, "ok", 0, val_of(*rr), kept<T>(o, src)); }

template<typename T, typename V>
void ret_race(world<T> & w, const opspec & o, V && v, holder<T> * src)
{
  if constexpr (std::is_same_v<std::decay_t<V>, std::size_t>)
    w.ret(o.id, "ok", v > 9 ? 9 : static_cast<int>(v), 0, kept<T>(o, src));
  else
  {
    auto idx = static_cast<int>(v.index());
    auto val = variant2::visit([](auto & x) { return val_of(x); }, v);
    w.ret(o.id, "ok", idx, val, kept<T>(o, src));
  }
}

#define RACE_BODY(A, B)                                                                      \
  try                                                                                        \
  {                                                                                          \
    if (o.style == 'r')                                                                      \
    {                                                                                        \
      if (o.how == 'l') { auto rr = co_await cobalt::as_result(cobalt::left_race(A, B));     \
        if (rr.has_error()) { std::rethrow_exception(rr.error()); } else ret_race<T>(w, o, *rr, src); }  \
      else              { auto rr = co_await cobalt::as_result(cobalt::race(A, B));          \
        if (rr.has_error()) { std::rethrow_exception(rr.error()); } else ret_race<T>(w, o, *rr, src); }  \
    }                                                                                        \
    else if (o.how == 'l') { auto v = co_await cobalt::left_race(A, B); ret_race<T>(w, o, v, src); } \
    else                   { auto v = co_await cobalt::race(A, B);      ret_race<T>(w, o, v, src); } \
  }                                                                                          \
  catch (const boost::system::system_error & e) { report_ec(w, o, e.code(), src); }          \
  catch (const std::exception & e) { w.ret(o.id, std::string("std:") + e.what(), -1, 0, kept<T>(o, src)); }

template<typename T>
actor run(actor::slot_arg, world<T> & w, std::vector<opspec> list, std::shared_ptr<asio::cancellation_signal> sig)
{
  for (auto & o : list)
  {
    std::vector<std::string> kinds; std::vector<long long> chans, vals;
    holder<T> src[2] = {};
    for (std::size_t i = 0; i < o.alts.size(); i++)
    {
      auto & a = o.alts[i];
      kinds.push_back(a.write ? "w" : "r"); chans.push_back(a.chan + 1); vals.push_back(std::is_void_v<T> ? 0 : a.val);
      if constexpr (!std::is_void_v<T>) if (a.write) src[i] = conv<T>::make(a.val);
    }
    w.ops[o.id].pending = true;
    w.ops[o.id].sig = sig;
    ev("call").i("o", o.id).t("how", std::string(1, o.how)).lt("k", kinds).l("c", chans).l("vs", vals).out();
    if (o.how == 'p')
    {
      auto & a = o.alts[0];
      if (a.write)
      {
        auto aw = mk_write<T>(w, a, src[0]);
        w.ops[o.id].intr = [&aw] { aw.interrupt_await(); };
        RUN_WRITE(aw)
      }
      else
      {
        auto aw = w.ch[a.chan]->read();
        w.ops[o.id].intr = [&aw] { aw.interrupt_await(); };
        if constexpr (std::is_void_v<T>) { RUN_WRITE(aw) } else { RUN_READ(aw) }
      }
    }
    else if (o.how == 'v')
    {
      std::vector<decltype(w.ch[0]->read())> v;
      for (auto & a : o.alts) v.push_back(w.ch[a.chan]->read());
      try
      {
        if constexpr (std::is_void_v<T>) { auto r = co_await cobalt::left_race(v); ret_race<T>(w, o, r, src); }
        else if constexpr (std::is_copy_constructible_v<T>)
        { auto r = co_await cobalt::left_race(v); w.ret(o.id, "ok", static_cast<int>(r.first), val_of(r.second), kept<T>(o, src)); }
        else std::abort();
      }
      catch (const boost::system::system_error & e) { report_ec(w, o, e.code(), src); }
    }
    else if (o.style == 't')
    {
      // operations kept by the caller, passed to the race by reference
      if (o.alts[0].write && o.alts[1].write)
      { auto a = mk_write<T>(w, o.alts[0], src[0]); auto b = mk_write<T>(w, o.alts[1], src[1]); RACE_BODY(a, b) }
      else if (o.alts[0].write)
      { auto a = mk_write<T>(w, o.alts[0], src[0]); auto b = w.ch[o.alts[1].chan]->read(); RACE_BODY(a, b) }
      else if (o.alts[1].write)
      { auto a = w.ch[o.alts[0].chan]->read(); auto b = mk_write<T>(w, o.alts[1], src[1]); RACE_BODY(a, b) }
      else
      { auto a = w.ch[o.alts[0].chan]->read(); auto b = w.ch[o.alts[1].chan]->read(); RACE_BODY(a, b) }
    }
    else if (o.alts[0].write && o.alts[1].write)
    { RACE_BODY(mk_write<T>(w, o.alts[0], src[0]), mk_write<T>(w, o.alts[1], src[1])) }
    else if (o.alts[0].write)
    { RACE_BODY(mk_write<T>(w, o.alts[0], src[0]), w.ch[o.alts[1].chan]->read()) }
    else if (o.alts[1].write)
    { RACE_BODY(w.ch[o.alts[0].chan]->read(), mk_write<T>(w, o.alts[1], src[1])) }
    else
    { RACE_BODY(w.ch[o.alts[0].chan]->read(), w.ch[o.alts[1].chan]->read()) }
  }
}

inline opspec parse(const std::string & s)
{
  auto p = split(s, ':');
  opspec o{std::stoi(p[0]), p[1][0], p[2][0], {}};
  for (auto & a : split(p[3], '+'))
  {
    auto eq = a.find('=');
    o.alts.push_back({a[0] == 'w', std::stoi(a.substr(1, eq)), eq == std::string::npos ? 0 : std::stoi(a.substr(eq + 1))});
  }
  return o;
}

template<typename T>
void go(const scenario & s)
{
  {
    world<T> w;
    cobalt::this_thread::set_executor(w.ctx->get_executor());
    for (auto & l : split(s.head.at("lim"), ','))
      if constexpr (std::is_void_v<T>)
        w.ch.push_back(std::make_unique<cobalt::channel<T>>(std::stoul(l), w.ctx->get_executor()));
      else
        w.ch.push_back(std::make_unique<cobalt::channel<T>>(std::stoul(l), w.ctx->get_executor(), &w.res));
    auto quiet = [&] { if (settle(*w.ctx)) ev("quiet").out(); else ev("hang").out(); };
    for (auto & c : s.cmds)
    {
      if (c[0] == "S")
      {
        std::vector<opspec> l;
        for (auto & o : split(c[1], ',')) l.push_back(parse(o));
        auto sig = std::make_shared<asio::cancellation_signal>();
        run<T>(actor::slot_arg{sig->slot()}, w, l, sig);
        ev("back").out();
      }
      else if (c[0] == "C")
      {
        auto & o = w.ops[std::stoi(c[1])];
        if (!o.pending) continue;
        ev("cancel").i("o", std::stoi(c[1])).out();
        auto sig = o.sig;
        sig->emit(asio::cancellation_type::all);
        ev("back").out();
      }
      else if (c[0] == "I")
      {
        auto & o = w.ops[std::stoi(c[1])];
        if (!o.pending || !o.intr) continue;
        ev("intr").i("o", std::stoi(c[1])).out();
        auto f = o.intr;
        f();
        ev("intrd").i("o", std::stoi(c[1])).out();
      }
      else if (c[0] == "X")
      {
        ev("close").i("c", std::stoi(c[1]) + 1).out();
        w.ch[std::stoi(c[1])]->close();
        ev("open").i("c", std::stoi(c[1]) + 1).b("v", w.ch[std::stoi(c[1])]->is_open()).out();
      }
      else if (c[0] == "P") { w.ctx->restart(); w.ctx->poll_one(); }
      else if (c[0] == "Q") quiet();
    }
    if (s.head.count("q")) quiet();
    if (s.head.at("end") == "c") { w.ch.clear(); w.ctx.reset(); }
    else { w.ctx.reset(); w.ch.clear(); }
    w.ops.clear();
    ev("end").i("frames", live_frames).i("mem", static_cast<long long>(w.res.live.size())).i("bad", w.res.bad).out();
  }
}

#if PART == 1
void go_i(const scenario & s) { go<int>(s); }
#elif PART == 2
void go_s(const scenario & s) { go<std::string>(s); }
#elif PART == 3
void go_m(const scenario & s) { go<std::unique_ptr<int>>(s); }
#elif PART == 4
void go_v(const scenario & s) { go<void>(s); }
#else
void go_i(const scenario &);
void go_s(const scenario &);
void go_m(const scenario &);
void go_v(const scenario &);
int main(int argc, char ** argv)
{
  return run_scenarios(argc, argv, [](const scenario & s)
  {
    switch (s.head.at("ty")[0])
    {
      case 'i': go_i(s); break;
      case 's': go_s(s); break;
      case 'm': go_m(s); break;
      case 'v': go_v(s); break;
    }
  });
}
#endif
