// Shared support for the conformance drivers: reads scenarios, executes them one after another and
// writes the events of each as lines `<id> <json>`.  Lines are written unbuffered, so that what was
// observed before a crash survives it.
#pragma once
#include <boost/cobalt/config.hpp>
#include <boost/cobalt/this_thread.hpp>
#include <boost/cobalt/this_coro.hpp>
#include <boost/cobalt/concepts.hpp>
#include <boost/cobalt/unique_handle.hpp>
#include <boost/cobalt/detail/util.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/cancellation_signal.hpp>
#include <boost/asio/error.hpp>
#include <boost/system/system_error.hpp>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/time.h>

namespace h
{
namespace cobalt = boost::cobalt;
namespace asio = boost::asio;

inline char cur_id[64] = "-";
inline bool muted = false;     // warming up

inline void emit(const std::string & s)
{
  if (muted) return;
  std::string l = std::string(cur_id) + " " + s + "\n";
  const char * p = l.data();
  std::size_t n = l.size();
  while (n)
  {
    auto k = ::write(1, p, n);
    if (k <= 0) ::_exit(97);
    p += k; n -= static_cast<std::size_t>(k);
  }
}

// tiny JSON object builder
struct ev
{
  std::string s;
  explicit ev(const char * name) : s(std::string("{\"e\":\"") + name + "\"") {}
  ev & i(const char * k, long long v) { s += std::string(",\"") + k + "\":" + std::to_string(v); return *this; }
  ev & t(const char * k, const std::string & v)
  {
    s += std::string(",\"") + k + "\":\"";
    for (char c : v) { if (c == '"' || c == '\\') s += '\\'; if ((unsigned char)c >= 32) s += c; }
    s += "\"";
    return *this;
  }
  ev & b(const char * k, bool v) { s += std::string(",\"") + k + "\":" + (v ? "true" : "false"); return *this; }
  ev & l(const char * k, const std::vector<long long> & v)
  {
    s += std::string(",\"") + k + "\":[";
    for (std::size_t j = 0; j < v.size(); j++) s += (j ? "," : "") + std::to_string(v[j]);
    s += "]";
    return *this;
  }
  ev & lt(const char * k, const std::vector<std::string> & v)
  {
    s += std::string(",\"") + k + "\":[";
    for (std::size_t j = 0; j < v.size(); j++) s += (j ? ",\"" : "\"") + v[j] + "\"";
    s += "]";
    return *this;
  }
  void out() { emit(s + "}"); }
};

// memory resource that counts what is alive, and notices a deallocation with the wrong size
struct counting_resource final : cobalt::pmr::memory_resource
{
  std::map<void*, std::pair<std::size_t, std::size_t>> live;
  long long bad = 0, total = 0;
  void * do_allocate(std::size_t n, std::size_t al) override
  {
    void * p = ::operator new(n, std::align_val_t(al));
    live[p] = {n, al}; total++;
    return p;
  }
  void do_deallocate(void * p, std::size_t n, std::size_t al) override
  {
    auto itr = live.find(p);
    if (itr == live.end()) { bad++; return; }
    if (itr->second != std::make_pair(n, al)) bad++;
    auto real = itr->second;
    live.erase(itr);
    ::operator delete(p, std::align_val_t(real.second));
  }
  bool do_is_equal(const memory_resource & rhs) const noexcept override { return this == &rhs; }
};

// what an exception means to the specification
inline std::string classify(const boost::system::error_code & ec)
{
  if (ec == asio::error::operation_aborted) return "aborted";
  if (ec == asio::error::broken_pipe) return "closed";
  return "ec:" + std::string(ec.category().name()) + ":" + std::to_string(ec.value());
}

struct test_error : std::exception
{
  int v;
  explicit test_error(int v) : v(v) {}
  const char * what() const noexcept override { return "test_error"; }
};

inline std::string classify(std::exception_ptr e)
{
  try { std::rethrow_exception(e); }
  catch (const test_error & t) { return "x" + std::to_string(t.v); }
  catch (const boost::system::system_error & s) { return classify(s.code()); }
  catch (const std::exception & s) { return std::string("std:") + s.what(); }
  catch (...) { return "unknown"; }
}

// coroutines created by the drivers that are alive / were ever destroyed
inline long long live_frames = 0;
struct frame_guard
{
  frame_guard() { live_frames++; }
  frame_guard(const frame_guard &) { live_frames++; }
  ~frame_guard() { live_frames--; }
};

// A plain eager coroutine used by the drivers to await things from: it has an executor, a
// cancellation slot supplied by the driver, never throws by itself on cancellation, and
// destroys itself when done.
struct actor
{
  struct slot_arg { asio::cancellation_slot slot; };
  struct promise_type : cobalt::enable_awaitables<promise_type>
  {
    frame_guard fg;
    asio::cancellation_slot slot_;
    cobalt::executor exec_;
    template<typename ... Args>
    explicit promise_type(slot_arg s, Args && ...) : slot_(s.slot), exec_(cobalt::this_thread::get_executor()) {}
    template<typename T, typename ... Args>
    promise_type(T &, slot_arg s, Args && ...) : slot_(s.slot), exec_(cobalt::this_thread::get_executor()) {}
    using cancellation_slot_type = asio::cancellation_slot;
    cancellation_slot_type get_cancellation_slot() const { return slot_; }
    using executor_type = cobalt::executor;
    const executor_type & get_executor() const { return exec_; }
    actor get_return_object() { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { throw; }
  };
};

inline std::vector<std::string> split(const std::string & s, char c)
{
  std::vector<std::string> r; std::string cur;
  std::istringstream is(s);
  while (std::getline(is, cur, c)) r.push_back(cur);
  return r;
}
inline std::vector<std::string> words(const std::string & s)
{
  std::vector<std::string> r; std::string w; std::istringstream is(s);
  while (is >> w) r.push_back(w);
  return r;
}

// a scenario is a line `id|header|cmd;cmd;...`
struct scenario
{
  std::string id;
  std::map<std::string, std::string> head;
  std::vector<std::vector<std::string>> cmds;
};

inline void on_alarm(int)
{
  char b[128];      // nothing that could be instrumented or interposed
  std::size_t n = 0;
  for (const char * p = cur_id; *p && n < 64; p++) b[n++] = *p;
  for (const char * p = " {\"e\":\"hang\"}\n"; *p; p++) b[n++] = *p;
  if (::write(1, b, n) < 0) {}
  ::_exit(96);
}

// a scenario may use `cpu` seconds of processor time and `wall` seconds
inline void arm(int cpu, int wall)
{
  itimerval t{{0, 0}, {cpu, 0}};
  ::setitimer(ITIMER_PROF, &t, nullptr);
  ::alarm(wall);
}

inline bool verbose() { static bool v = ::getenv("H_VERBOSE") != nullptr; return v; }

inline int run_scenarios(int argc, char ** argv, const std::function<void(const scenario &)> & f)
{
  if (argc < 2) return 2;
  std::ifstream in(argv[1]);
  std::string line;
  ::signal(SIGALRM, &on_alarm);
  ::signal(SIGPROF, &on_alarm);
  while (std::getline(in, line))
  {
    auto parts = split(line, '|');
    if (parts.size() < 2) continue;
    scenario s;
    s.id = parts[0];
    for (auto & w : words(parts[1]))
    {
      auto eq = w.find('=');
      s.head[w.substr(0, eq)] = eq == std::string::npos ? "" : w.substr(eq + 1);
    }
    if (parts.size() > 2)
      for (auto & c : split(parts[2], ';'))
        if (auto w = words(c); !w.empty()) s.cmds.push_back(std::move(w));
    std::snprintf(cur_id, sizeof(cur_id), "%s", s.id.c_str());
    emit("{\"e\":\"begin\"}");
    arm(2, 60);
    live_frames = 0;
    f(s);
    arm(0, 0);
    emit("{\"e\":\"done\"}");
  }
  return 0;
}

// polls a context until nothing is left to do; false if it does not settle
inline bool settle(asio::io_context & ctx, int limit = 20000)
{
  for (int i = 0; i < limit; i++)
  {
    ctx.restart();
    if (!ctx.poll_one()) return true;
  }
  return false;
}

}
