#include "sched.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <vector>
#include <string>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>

namespace sched
{
void (*on_stuck)() = nullptr;
void (*on_unhandled)() = nullptr;
namespace
{
constexpr int N = 16;
enum st_t { unused, ready, mutex_wait, cond_wait, join_wait, idle_wait, done };
struct thr { sem_t s; st_t st; const void * what; pthread_t id; int prio; };
thr T[N];
int nt = 0;
bool active = false;
thread_local int me = -1;
thread_local int hush = 0;
struct owned { const void * m; int by; };
owned held[256];
int nheld = 0;
std::uint64_t rng, npoints;
int mode;
double p_sync, p_hot, p_any;
std::uint64_t change[8];
pthread_key_t key;
bool have_key = false;

std::uint64_t rnd()
{
  std::uint64_t z = (rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
double unit() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

template<typename F> F real(const char * n)
{
  void * p = ::dlsym(RTLD_NEXT, n);
  return reinterpret_cast<F>(p);
}

int pick(bool keep_me)
{
  int c[N], n = 0;
  for (int i = 0; i < nt; i++) if (T[i].st == ready) c[n++] = i;
  if (!n) return -1;
  if (mode == 2)
  {
    int b = c[0];
    for (int i = 1; i < n; i++) if (T[c[i]].prio > T[b].prio) b = c[i];
    return b;
  }
  (void)keep_me;
  return c[rnd() % n];
}
void sw(int to)
{
  if (to == me) return;
  int m = me;
  ::sem_post(&T[to].s);
  while (::sem_wait(&T[m].s) != 0) {}
}
// the calling thread cannot go on
void block()
{
  int to = pick(false);
  if (to < 0) { active = false; if (on_stuck) on_stuck(); ::_exit(95); }
  sw(to);
}
void maybe(double p)
{
  npoints++;
  if (hush) return;
  if (mode == 2)
  {
    for (auto & c : change) if (c == npoints) { int lo = T[0].prio; for (int i = 0; i < nt; i++) lo = std::min(lo, T[i].prio); T[me].prio = lo - 1; }
    sw(pick(true));
    return;
  }
  if (p > 0 && unit() < p) sw(pick(true));
}
int find(const void * m) { for (int i = 0; i < nheld; i++) if (held[i].m == m) return i; return -1; }
void take(const void * m)
{
  while (find(m) >= 0) { T[me].st = mutex_wait; T[me].what = m; block(); }
  held[nheld++] = {m, me};
}
void give(const void * m)
{
  int i = find(m);
  if (i >= 0) held[i] = held[--nheld];
  for (int j = 0; j < nt; j++) if (T[j].st == mutex_wait && T[j].what == m) T[j].st = ready;
}
struct start { void * (*f)(void*); void * a; int n; };
void finish(void * p)
{
  int n = static_cast<int>(reinterpret_cast<std::intptr_t>(p)) - 1;
  if (me != n) return;
  T[n].st = done;
  for (int j = 0; j < nt; j++) if (T[j].st == join_wait && T[j].what == &T[n]) T[j].st = ready;
  bool all = true;
  for (int j = 1; j < nt; j++) if (T[j].st != done) all = false;
  if (all) for (int j = 0; j < nt; j++) if (T[j].st == idle_wait) T[j].st = ready;
  int to = pick(false);
  me = -1;
  if (to < 0) { active = false; if (on_stuck) on_stuck(); ::_exit(95); }
  ::sem_post(&T[to].s);
}
void * entry(void * p)
{
  start s = *static_cast<start*>(p);
  std::free(p);
  while (::sem_wait(&T[s.n].s) != 0) {}
  me = s.n;
  ::pthread_setspecific(key, reinterpret_cast<void*>(static_cast<std::intptr_t>(s.n + 1)));
  void * r = nullptr;
  try { r = s.f(s.a); }
  catch (...) { if (on_unhandled) on_unhandled(); }
  return r;
}

// functions of the library that concern threads are preempted more often
struct range { std::uintptr_t lo, hi; };
std::vector<range> hot;
std::uintptr_t seen_pc[4096];
signed char seen[4096];
void load_hot()
{
  int fd = ::open("/proc/self/exe", O_RDONLY);
  struct stat sb;
  if (fd < 0 || ::fstat(fd, &sb) != 0) return;
  auto b = static_cast<const char*>(::mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
  ::close(fd);
  if (b == MAP_FAILED) return;
  auto eh = reinterpret_cast<const Elf64_Ehdr*>(b);
  auto sh = reinterpret_cast<const Elf64_Shdr*>(b + eh->e_shoff);
  std::uintptr_t base = 0;
  ::dl_iterate_phdr([](dl_phdr_info * i, size_t, void * d) { *static_cast<std::uintptr_t*>(d) = i->dlpi_addr; return 1; }, &base);
  for (int i = 0; i < eh->e_shnum; i++)
    if (sh[i].sh_type == SHT_SYMTAB)
    {
      auto s = reinterpret_cast<const Elf64_Sym*>(b + sh[i].sh_offset);
      auto n = sh[i].sh_size / sizeof(Elf64_Sym);
      auto str = b + sh[sh[i].sh_link].sh_offset;
      for (std::size_t k = 0; k < n; k++)
      {
        if (ELF64_ST_TYPE(s[k].st_info) != STT_FUNC || !s[k].st_size) continue;
        const char * nm = str + s[k].st_name;
        if (!std::strstr(nm, "6cobalt")) continue;
        if (std::strstr(nm, "thread") || std::strstr(nm, "spawn") || std::strstr(nm, "task_"))
          hot.push_back({base + s[k].st_value, base + s[k].st_value + s[k].st_size});
      }
    }
  std::sort(hot.begin(), hot.end(), [](range a, range b) { return a.lo < b.lo; });
  ::munmap(const_cast<char*>(b), sb.st_size);
}
bool is_hot(std::uintptr_t pc)
{
  auto h = (pc >> 1) & 4095;
  if (seen_pc[h] == pc) return seen[h];
  auto i = std::upper_bound(hot.begin(), hot.end(), pc, [](std::uintptr_t p, range r) { return p < r.lo; });
  bool r = i != hot.begin() && pc < (--i)->hi;
  seen_pc[h] = pc; seen[h] = r;
  return r;
}
}

quiet::quiet() { hush++; }
quiet::~quiet() { hush--; }
int self() { return me; }
std::uint64_t points() { return npoints; }
void point() { if (active && me >= 0) maybe(p_sync); }
void begin(std::uint64_t seed)
{
  if (!have_key) { ::pthread_key_create(&key, &finish); have_key = true; load_hot(); }
  rng = seed * 0x2545f4914f6cdd1dull + 77;
  npoints = 0;
  mode = static_cast<int>(rnd() % 4);
  if (mode == 0) p_sync = .5, p_hot = .1, p_any = .002;
  if (mode == 1) p_sync = .15, p_hot = .02, p_any = 0;
  if (mode == 3) p_sync = .05, p_hot = .2, p_any = .0005;
  auto span = 200 + rnd() % 20000;
  for (auto & c : change) c = 1 + rnd() % span;
  if (seed == 0) mode = 1, p_sync = p_hot = p_any = 0;
  for (int i = 0; i < N; i++) T[i].st = unused;
  ::sem_init(&T[0].s, 0, 0);
  T[0].st = ready; T[0].prio = 1000 + static_cast<int>(rnd() % 100);
  nt = 1; nheld = 0; me = 0; hush = 0;
  active = true;
}
void end()
{
  for (;;)
  {
    bool all = true;
    for (int j = 1; j < nt; j++) if (T[j].st != done) all = false;
    if (all) break;
    T[0].st = idle_wait;
    block();
  }
  active = false;
  me = -1;
}
}

using namespace sched;
extern "C"
{
int pthread_create(pthread_t * t, const pthread_attr_t * a, void * (*f)(void*), void * p) noexcept
{
  static auto r = real<int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*)>("pthread_create");
  if (!active || me < 0) return r(t, a, f, p);
  if (nt == N) return EAGAIN;
  int n = nt;
  auto s = static_cast<start*>(std::malloc(sizeof(start)));
  *s = {f, p, n};
  ::sem_init(&T[n].s, 0, 0);
  T[n].prio = 1000 + static_cast<int>(rnd() % 100);
  int e = r(t, a, &entry, s);
  if (e) { std::free(s); return e; }
  T[n].id = *t; T[n].st = ready; nt++;
  maybe(p_sync);
  return 0;
}
int pthread_join(pthread_t t, void ** v)
{
  static auto r = real<int(*)(pthread_t, void**)>("pthread_join");
  if (active && me >= 0)
  {
    maybe(p_sync);
    for (int i = nt - 1; i > 0; i--)
      if (T[i].id == t)
      {
        while (T[i].st != done) { T[me].st = join_wait; T[me].what = &T[i]; block(); }
        T[i].id = pthread_t();
        break;
      }
  }
  return r(t, v);
}
int pthread_mutex_lock(pthread_mutex_t * m) noexcept
{
  static auto r = real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!active || me < 0) return r(m);
  maybe(p_sync);
  take(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t * m) noexcept
{
  static auto r = real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!active || me < 0) return r(m);
  maybe(p_sync);
  if (find(m) >= 0) return EBUSY;
  take(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t * m) noexcept
{
  static auto r = real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!active || me < 0 || find(m) < 0) return active && me >= 0 ? 0 : r(m);
  *reinterpret_cast<volatile char*>(m);     // the mutex must still be there
  give(m);
  maybe(p_sync);
  return 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  static auto r = real<int(*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!active || me < 0) return r(c, m);
  give(m);
  T[me].st = cond_wait; T[me].what = c;
  block();
  take(m);
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts)
{
  static auto r = real<int(*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
  if (!active || me < 0) return r(c, m, ts);
  give(m);
  maybe(1);
  take(m);
  return ETIMEDOUT;
}
static void wake(pthread_cond_t * c, bool all)
{
  int w[N], n = 0;
  for (int i = 0; i < nt; i++) if (T[i].st == cond_wait && T[i].what == c) w[n++] = i;
  if (!n) return;
  if (all) for (int i = 0; i < n; i++) T[w[i]].st = ready;
  else T[w[rnd() % n]].st = ready;
}
int pthread_cond_signal(pthread_cond_t * c) noexcept
{
  static auto r = real<int(*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!active || me < 0) return r(c);
  wake(c, false);
  maybe(p_sync);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) noexcept
{
  static auto r = real<int(*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!active || me < 0) return r(c);
  wake(c, true);
  maybe(p_sync);
  return 0;
}
#ifdef HAVE_COV
#endif
void __sanitizer_cov_trace_pc()
{
  if (!active || me < 0 || hush) return;
  if (mode == 2) { if (is_hot(reinterpret_cast<std::uintptr_t>(__builtin_return_address(0)))) maybe(0); return; }
  bool hot = is_hot(reinterpret_cast<std::uintptr_t>(__builtin_return_address(0)));
  maybe(hot ? p_hot : p_any);
}
}
