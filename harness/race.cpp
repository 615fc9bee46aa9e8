// A controlled scheduler for the real library.  The library and the scenarios are compiled with -fsanitize=thread, but
// instead of libtsan they are linked with this file, which implements the __tsan_* entry points, malloc and the guards
// of static variables: every atomic operation and every guard is a scheduling point, every plain access is checked
// against the happens-before relation (vector clocks) and against freed memory.  The threads are coroutines of one
// process, so an execution is determined by the points at which another thread is chosen.  All executions with at most
// P preemptions are explored (preemptions directly before an operation on an object another thread uses too; other
// preemptions commute with it).  Every execution is a new process, so that first uses are explored as well.
#include "mc.hpp"
#include "race.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <malloc.h>
#include <sys/single_threaded.h>
#include <ucontext.h>

namespace rt {
enum { MAXT = 3, MAXP = 1 << 20 };
struct Point {
  uintptr_t addr;
  uint8_t cur, chosen, enabled, preempt;
};
struct Dev {
  uint32_t at;
  int tid;
};
struct Res {
  size_t ndev;
  Dev dev[64];
  volatile int done;
  int64_t leaked;
  int bad, out_n;
  uint32_t n;
  uint64_t accesses;
  char cls[64];
  char msg[1024];
  char out[MAXT][512];
  char after[512];
  Point p[MAXP];
};
Res *res;
bool active = false; // threads are running
bool counting = false;
int cur = 0, nthr = 0;
int64_t live = 0;

struct Clock {
  uint32_t c[MAXT + 1];
};
struct Thr {
  ucontext_t ctx;
  Clock vc;
  Clock pend, relf; // what relaxed loads have seen, for acquire fences; what was there at the last release fence
  bool hasrel = false;
  bool finished = false;
  uintptr_t blocked = 0; // the guard or mutex it waits for
  char *stack = nullptr;
  std::function<std::string()> body;
  void *eh[2] = {nullptr, nullptr};
};
Thr thr[MAXT + 1]; // 0 is the main thread
const size_t STK = 4 << 20;

std::vector<Dev> devs;
size_t nextdev = 0;

// --- shadow memory ---
struct Cell {
  uintptr_t g; // address / 8, 0: empty
  uint8_t freed;
  uint8_t users; // the threads that have used it
  const void *freepc;
  struct {
    uint16_t w[8], r[8];
    const void *wpc, *rpc;
  } t[MAXT + 1];
};
const size_t NC = 1 << 16;
Cell *cells; // densely used, so that few pages are touched
uint16_t *index_;
uint32_t ncells = 0;
void end(const char *cls, const std::string &msg);
Cell &cell(uintptr_t g) {
  size_t h = (((g >> 6) * 0x9E3779B97F4A7C15ull) >> 48) + (g & 63) & (NC - 1);
  for (;; h = (h + 1) & (NC - 1)) {
    uint32_t i = index_[h];
    if (i == 0) {
      if (++ncells > NC * 3 / 4)
        end("harness", "out of shadow memory");
      index_[h] = i = ncells;
      cells[i].g = g;
      return cells[i];
    }
    if (cells[i].g == g)
      return cells[i];
  }
}
struct Sync {
  uintptr_t a;
  Clock c;
};
const size_t NS = 1 << 12;
Sync *syncs;
Sync &sync(uintptr_t a) {
  size_t h = (a * 0x9E3779B97F4A7C15ull) >> 52;
  for (;; h = (h + 1) & (NS - 1)) {
    if (syncs[h].a == a)
      return syncs[h];
    if (syncs[h].a == 0) {
      syncs[h].a = a;
      return syncs[h];
    }
  }
}
std::string where(const void *pc) {
  Dl_info i;
  if (pc && dladdr(pc, &i) && i.dli_sname) {
    int st = 0;
    char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string r = d ? d : i.dli_sname;
    if (r.size() > 160)
      r.resize(160);
    return r;
  }
  return "?";
}
void end(const char *cls, const std::string &msg) {
  active = counting = false;
  snprintf(res->cls, sizeof res->cls, "%s", cls);
  snprintf(res->msg, sizeof res->msg, "%s", msg.c_str());
  res->bad = 1;
  res->done = 1;
  _exit(0);
}
void joinc(Clock &a, const Clock &b) {
  for (int i = 0; i <= MAXT; ++i)
    a.c[i] = std::max(a.c[i], b.c[i]);
}

void sw(int to) {
  if (to == cur)
    return;
  int old = cur;
  void **g = (void **)abi::__cxa_get_globals();
  thr[old].eh[0] = g[0];
  thr[old].eh[1] = g[1];
  g[0] = thr[to].eh[0];
  g[1] = thr[to].eh[1];
  cur = to;
  swapcontext(&thr[old].ctx, &thr[to].ctx);
}
// a scheduling point: which thread goes on?  `addr`: the object of the next operation of this thread
void point(uintptr_t addr) {
  if (res->n >= MAXP)
    end("harness", "too many scheduling points");
  uint8_t en = 0;
  for (int i = 1; i <= nthr; ++i)
    if (!thr[i].finished && !thr[i].blocked)
      en |= 1 << i;
  bool runnable = cur != 0 && (en >> cur & 1);
  if (!en) {
    bool all = true;
    for (int i = 1; i <= nthr; ++i)
      all = all && thr[i].finished;
    if (all) {
      sw(0);
      return;
    }
    end("deadlock", "every unfinished thread waits for another");
  }
  int to = runnable ? cur : __builtin_ctz(en);
  uint32_t at = res->n;
  if (nextdev < devs.size() && devs[nextdev].at == at) {
    to = devs[nextdev++].tid;
    if (!(en >> to & 1))
      end("harness", "a recorded schedule could not be followed");
  }
  res->p[res->n++] = Point{addr, (uint8_t)cur, (uint8_t)to, en, (uint8_t)runnable};
  sw(to);
}
void access(uintptr_t a, size_t n, bool wr, const void *pc) {
  if (!active || n == 0)
    return;
  ++res->accesses;
  char *st = thr[cur].stack;
  if (st && a >= (uintptr_t)st && a < (uintptr_t)st + STK)
    return;
  Clock &c = thr[cur].vc;
  for (uintptr_t e = a + n; a < e;) {
    Cell &x = cell(a / 8);
    if (x.freed)
      end("use-after-free", "a thread uses memory in " + where(pc) + " that was freed in " + where(x.freepc));
    unsigned lo = a % 8, hi = std::min<uintptr_t>(8, lo + (e - a));
    x.users |= 1 << cur;
    for (int t = 1; t <= nthr; ++t) {
      if (t == cur || !(x.users >> t & 1))
        continue;
      for (unsigned b = lo; b < hi; ++b) {
        if (x.t[t].w[b] > c.c[t])
          end("data-race", mc::fmt("(address %lx, %s) ", (unsigned long)a, where((void*)a).c_str()) + "unordered: write in " + where(x.t[t].wpc) + ", " + (wr ? "write" : "read") + " in " + where(pc));
        if (wr && x.t[t].r[b] > c.c[t])
          end("data-race", "unordered: read in " + where(x.t[t].rpc) + ", write in " + where(pc));
      }
    }
    for (unsigned b = lo; b < hi; ++b)
      (wr ? x.t[cur].w[b] : x.t[cur].r[b]) = c.c[cur];
    (wr ? x.t[cur].wpc : x.t[cur].rpc) = pc;
    a += hi - lo;
  }
}
void chkfree(uintptr_t a, const void *pc) {
  Cell &x = cell(a / 8);
  if (x.freed)
    end("use-after-free", "a thread uses an atomic in " + where(pc) + " that was freed in " + where(x.freepc));
}
void acquire(uintptr_t a) { joinc(thr[cur].vc, sync(a).c); }
void release(uintptr_t a, bool rmw) {
  Sync &s = sync(a);
  if (rmw)
    joinc(s.c, thr[cur].vc);
  else
    s.c = thr[cur].vc;
  if (++thr[cur].vc.c[cur] > 65000)
    end("harness", "clock overflow");
}
// kinds: 1 load, 2 store, 3 read-modify-write; memory orders as in the ABI (0 relaxed .. 5 seq_cst)
void before(uintptr_t a, const void *pc) {
  point(a);
  chkfree(a, pc);
}
void effect(uintptr_t a, int kind, int mo) {
  bool acq = mo == 1 || mo == 2 || mo == 4 || mo == 5, rel = mo == 3 || mo == 4 || mo == 5;
  if (kind & 1) {
    if (acq)
      acquire(a);
    else
      joinc(thr[cur].pend, sync(a).c);
  }
  if (kind & 2) {
    if (rel)
      release(a, kind == 3);
    else {
      if (kind == 2)
        memset(&sync(a).c, 0, sizeof(Clock));
      if (thr[cur].hasrel)
        joinc(sync(a).c, thr[cur].relf);
    }
  }
}
void fence(int mo) {
  point(1);
  if (mo == 1 || mo == 2 || mo == 4 || mo == 5)
    joinc(thr[cur].vc, thr[cur].pend);
  if (mo == 5)
    acquire(1);
  if (mo == 3 || mo == 4 || mo == 5) {
    thr[cur].relf = thr[cur].vc;
    thr[cur].hasrel = true;
    if (mo == 5)
      release(1, true);
    else if (++thr[cur].vc.c[cur] > 65000)
      end("harness", "clock overflow");
  }
}
} // namespace rt

// --- the run time of -fsanitize=thread ---
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N)                                                                                                          \
  void __tsan_read##N(void *a) { rt::access((uintptr_t)a, N, false, PC); }                                             \
  void __tsan_write##N(void *a) { rt::access((uintptr_t)a, N, true, PC); }                                             \
  void __tsan_read##N##_pc(void *a, void *pc) { rt::access((uintptr_t)a, N, false, pc); }                              \
  void __tsan_write##N##_pc(void *a, void *pc) { rt::access((uintptr_t)a, N, true, pc); }                              \
  void __tsan_unaligned_read##N(void *a) { rt::access((uintptr_t)a, N, false, PC); }                                   \
  void __tsan_unaligned_write##N(void *a) { rt::access((uintptr_t)a, N, true, PC); }                                   \
  void __tsan_volatile_read##N(void *a) { rt::access((uintptr_t)a, N, false, PC); }                                    \
  void __tsan_volatile_write##N(void *a) { rt::access((uintptr_t)a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { rt::access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { rt::access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_read(void **a) { rt::access((uintptr_t)a, 8, false, PC); }
void __tsan_vptr_update(void **a, void *v) {
  if (*a != v)
    rt::access((uintptr_t)a, 8, true, PC);
}
#define RMW(N, T, NAME, EXPR)                                                                                          \
  T __tsan_atomic##N##_##NAME(volatile T *a, T v, int mo) {                                                            \
    if (rt::active)                                                                                                    \
      rt::before((uintptr_t)a, PC);                                                                                    \
    T o = *a;                                                                                                          \
    *a = (T)(EXPR);                                                                                                    \
    if (rt::active)                                                                                                    \
      rt::effect((uintptr_t)a, 3, mo);                                                                                 \
    return o;                                                                                                          \
  }
#define CAS(N, T, NAME)                                                                                                \
  int __tsan_atomic##N##_compare_exchange_##NAME(volatile T *a, T *e, T v, int mo, int fmo) {                          \
    if (rt::active)                                                                                                    \
      rt::before((uintptr_t)a, PC);                                                                                    \
    if (*a == *e) {                                                                                                    \
      *a = v;                                                                                                          \
      if (rt::active)                                                                                                  \
        rt::effect((uintptr_t)a, 3, mo);                                                                               \
      return 1;                                                                                                        \
    }                                                                                                                  \
    *e = *a;                                                                                                           \
    if (rt::active)                                                                                                    \
      rt::effect((uintptr_t)a, 1, fmo);                                                                                \
    return 0;                                                                                                          \
  }
#define ATOMIC(N, T)                                                                                                   \
  T __tsan_atomic##N##_load(const volatile T *a, int mo) {                                                             \
    if (rt::active)                                                                                                    \
      rt::before((uintptr_t)a, PC);                                                                                    \
    T v = *a;                                                                                                          \
    if (rt::active)                                                                                                    \
      rt::effect((uintptr_t)a, 1, mo);                                                                                 \
    return v;                                                                                                          \
  }                                                                                                                    \
  void __tsan_atomic##N##_store(volatile T *a, T v, int mo) {                                                          \
    if (rt::active)                                                                                                    \
      rt::before((uintptr_t)a, PC);                                                                                    \
    *a = v;                                                                                                            \
    if (rt::active)                                                                                                    \
      rt::effect((uintptr_t)a, 2, mo);                                                                                 \
  }                                                                                                                    \
  RMW(N, T, exchange, v)                                                                                               \
  RMW(N, T, fetch_add, o + v)                                                                                          \
  RMW(N, T, fetch_sub, o - v)                                                                                          \
  RMW(N, T, fetch_and, o &v)                                                                                           \
  RMW(N, T, fetch_or, o | v)                                                                                           \
  RMW(N, T, fetch_xor, o ^ v)                                                                                          \
  RMW(N, T, fetch_nand, ~(o & v))                                                                                      \
  CAS(N, T, strong)                                                                                                    \
  CAS(N, T, weak)
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (rt::active)
    rt::fence(mo);
}
void __tsan_atomic_signal_fence(int) {}

// --- static variables ---
int __cxa_guard_acquire(uint64_t *g) {
  volatile uint8_t *b = (volatile uint8_t *)g; // byte 0: done, byte 1: in progress
  if (!rt::active) {
    if (b[0])
      return 0;
    b[1] = 1;
    return 1;
  }
  for (;;) {
    rt::point((uintptr_t)g);
    if (b[0]) {
      rt::acquire((uintptr_t)g);
      return 0;
    }
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    rt::thr[rt::cur].blocked = (uintptr_t)g;
  }
}
static void guard_end(uint64_t *g, bool ok) {
  volatile uint8_t *b = (volatile uint8_t *)g;
  if (rt::active)
    rt::point((uintptr_t)g);
  b[1] = 0;
  if (ok)
    b[0] = 1;
  if (rt::active) {
    rt::release((uintptr_t)g, true);
    for (int i = 1; i <= rt::nthr; ++i)
      if (rt::thr[i].blocked == (uintptr_t)g)
        rt::thr[i].blocked = 0;
  }
}
void __cxa_guard_release(uint64_t *g) { guard_end(g, true); }
void __cxa_guard_abort(uint64_t *g) { guard_end(g, false); }

// --- mutexes ---
struct Mx {
  int owner, depth;
};
static std::map<uintptr_t, Mx> *mxs;
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  if (!rt::active)
    return 0;
  for (;;) {
    rt::point((uintptr_t)m);
    bool a = rt::active;
    rt::active = false;
    Mx &x = (*mxs)[(uintptr_t)m];
    rt::active = a;
    if (x.depth == 0 || (x.owner == rt::cur && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE)) {
      x.owner = rt::cur;
      ++x.depth;
      rt::acquire((uintptr_t)m);
      return 0;
    }
    rt::thr[rt::cur].blocked = (uintptr_t)m;
  }
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
  if (!rt::active)
    return 0;
  rt::point((uintptr_t)m);
  rt::active = false;
  Mx &x = (*mxs)[(uintptr_t)m];
  rt::active = true;
  if (x.depth)
    return EBUSY;
  x = Mx{rt::cur, 1};
  rt::acquire((uintptr_t)m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  if (!rt::active)
    return 0;
  rt::point((uintptr_t)m);
  Mx &x = (*mxs)[(uintptr_t)m];
  if (--x.depth == 0) {
    rt::release((uintptr_t)m, true);
    for (int i = 1; i <= rt::nthr; ++i)
      if (rt::thr[i].blocked == (uintptr_t)m)
        rt::thr[i].blocked = 0;
  }
  return 0;
}

// --- memory ---
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
void *malloc(size_t n) {
  if (rt::counting)
    ++rt::live;
  return __libc_malloc(n);
}
void *calloc(size_t a, size_t b) {
  if (rt::counting)
    ++rt::live;
  return __libc_calloc(a, b);
}
static void freed(void *p, const void *pc) {
  size_t n = malloc_usable_size(p);
  rt::Cell &x0 = rt::cell((uintptr_t)p / 8);
  if (x0.freed)
    rt::end("double-free", "memory freed in " + rt::where(x0.freepc) + " is freed again in " + rt::where(pc));
  rt::access((uintptr_t)p, n, true, pc);
  for (uintptr_t g = (uintptr_t)p / 8; g < ((uintptr_t)p + n) / 8; ++g) {
    rt::Cell &x = rt::cell(g);
    x.freed = 1;
    x.freepc = pc;
  }
}
void free(void *p) {
  if (!p)
    return;
  if (rt::counting)
    --rt::live;
  if (rt::active)
    freed(p, PC); // not given back: nothing is reused while threads run
  else if (!rt::counting)
    __libc_free(p);
}
void *realloc(void *p, size_t n) {
  if (!rt::counting)
    return __libc_realloc(p, n);
  void *q = malloc(n);
  if (p && q) {
    __builtin_memcpy(q, p, std::min(n, malloc_usable_size(p)));
    free(p);
  }
  return q;
}
void *memalign(size_t a, size_t n) {
  if (rt::counting)
    ++rt::live;
  return __libc_memalign(a, n);
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) {
  *r = memalign(a, n);
  return *r ? 0 : ENOMEM;
}
void *memcpy(void *d, const void *s, size_t n) noexcept {
  if (rt::active) {
    rt::access((uintptr_t)s, n, false, PC);
    rt::access((uintptr_t)d, n, true, PC);
  }
  void *r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void *memmove(void *d, const void *s, size_t n) noexcept {
  if (rt::active) {
    rt::access((uintptr_t)s, n, false, PC);
    rt::access((uintptr_t)d, n, true, PC);
  }
  void *r = d;
  if ((uintptr_t)d <= (uintptr_t)s || (uintptr_t)d >= (uintptr_t)s + n) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    char *e = (char *)d + n - 1;
    const char *f = (const char *)s + n - 1;
    asm volatile("std\n\trep movsb\n\tcld" : "+D"(e), "+S"(f), "+c"(n) : : "memory");
  }
  return r;
}
void *memset(void *d, int c, size_t n) noexcept {
  if (rt::active)
    rt::access((uintptr_t)d, n, true, PC);
  void *r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
}

namespace rt {
void entry() {
  int me = cur;
  std::string r;
  try {
    r = thr[me].body();
  } catch (std::exception &e) {
    end("exception", std::string("a thread ended with an exception: ") + e.what());
  } catch (...) {
    end("exception", "a thread ended with an exception");
  }
  active = counting = false;
  snprintf(res->out[me - 1], sizeof res->out[0], "%s", r.c_str());
  counting = true; // freed, but not given back
  { std::string z; r.swap(z); }
  { std::function<std::string()> z; thr[me].body.swap(z); }
  active = true;
  thr[me].finished = true;
  ++thr[me].vc.c[me];
  point(0);
  abort();
}
// In a process of its own for each unit, which is forked for each execution.
std::vector<std::function<std::string()>> bodies;
void prepare(const Scenario &s) {
  __libc_single_threaded = 0;
  counting = true;
  live = 0;
  try {
    bodies = s.setup();
  } catch (std::exception &e) {
    end("setup", std::string("exception: ") + e.what());
  }
  counting = false;
}
void child(const Scenario &s) {
  for (int i = 0; i <= MAXT; ++i)
    thr[i].vc.c[i] = 1;
  nthr = (int)bodies.size();
  for (int i = 1; i <= nthr; ++i) {
    thr[i].stack = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    thr[i].body = std::move(bodies[i - 1]);
    getcontext(&thr[i].ctx);
    thr[i].ctx.uc_stack.ss_sp = thr[i].stack;
    thr[i].ctx.uc_stack.ss_size = STK;
    thr[i].ctx.uc_link = nullptr;
    makecontext(&thr[i].ctx, entry, 0);
    joinc(thr[i].vc, thr[0].vc);
  }
  ++thr[0].vc.c[0];
  mxs = new std::map<uintptr_t, Mx>;
  counting = true;
  active = true;
  point(0);
  active = false;
  counting = false;
  for (int i = 1; i <= nthr; ++i)
    if (!thr[i].finished)
      end("harness", "not all threads ended");
  counting = true;
  std::string a = s.after ? s.after() : "";
  counting = false;
  snprintf(res->after, sizeof res->after, "%s", a.c_str());
  if (!a.empty())
    live = 0;
  res->leaked = live;
  res->done = 1;
  _exit(0);
}
} // namespace rt

using rt::Dev;
struct Run {
  std::string cls, msg;
  std::vector<std::string> out;
  int64_t leaked = 0;
};

static std::string all(const std::vector<std::string> &v) {
  std::string o;
  for (auto &s : v)
    o += s + "|";
  return o;
}

struct Explorer {
  mc::X &x;
  const Scenario &sc;
  int bound, mod, k;
  Run base;
  bool have_base = false;

  static std::string str(const std::vector<Dev> &d) {
    std::string r;
    for (auto &e : d)
      r += mc::fmt("%s%u>t%d", r.empty() ? "" : " ", e.at, e.tid);
    return r.empty() ? "no preemption" : r;
  }
  pid_t server = 0;
  int to[2], back[2];
  void start() {
    fflush(nullptr);
    if (pipe(to) || pipe(back))
      abort();
    server = fork();
    if (server)
      close(to[0]), close(back[1]);
    if (server == 0) {
      close(to[1]), close(back[0]);
      signal(SIGSEGV, SIG_DFL);
      signal(SIGABRT, SIG_DFL);
      signal(SIGPIPE, SIG_DFL);
      alarm(60);
      rt::prepare(sc);
      alarm(0);
      char c;
      while (read(to[0], &c, 1) == 1) {
        pid_t p = fork();
        if (p == 0) {
          alarm(60);
          rt::devs.assign(rt::res->dev, rt::res->dev + rt::res->ndev);
          rt::nextdev = 0;
          rt::child(sc);
          _exit(3);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
        }
        if (write(back[1], &st, sizeof st) != sizeof st)
          break;
      }
      _exit(0);
    }
  }
  void stop() {
    if (server > 0) {
      close(to[1]), close(back[0]);
      int st;
      waitpid(server, &st, 0);
    }
    server = 0;
  }
  Run exec(const std::vector<Dev> &d) {
    Run r;
    rt::res->done = 0;
    rt::res->bad = 0;
    rt::res->n = 0;
    rt::res->accesses = 0;
    memset(rt::res->out, 0, sizeof rt::res->out);
    rt::res->after[0] = rt::res->msg[0] = 0;
    rt::res->ndev = d.size();
    std::copy(d.begin(), d.end(), rt::res->dev);
    if (server <= 0)
      start();
    int st = 0;
    if (write(to[1], "x", 1) != 1 || read(back[0], &st, sizeof st) != sizeof st) {
      // the set-up failed
      waitpid(server, &st, 0);
      server = 0;
    }
    if (!rt::res->done) {
      r.cls = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash";
      r.msg = mc::fmt("the process ended with status 0x%x", st);
    } else if (rt::res->bad) {
      r.cls = rt::res->cls;
      r.msg = rt::res->msg;
    } else if (rt::res->after[0]) {
      r.cls = "wrong-state";
      r.msg = rt::res->after;
    }
    for (int i = 0; i < rt::MAXT; ++i)
      r.out.push_back(rt::res->out[i]);
    r.leaked = rt::res->leaked;
    return r;
  }
  void explore(std::vector<Dev> &d, int cost, bool mine) {
    std::vector<rt::Point> pts;
    // the executions common to all units of the scenario are counted once
    std::function<std::string()> ds = [&] { return "scenario " + sc.name + ", schedule: " + str(d); };
    if (mine) {
      if (!x.next(mc::ref(ds)))
        return;
    }
    Run r = exec(d);
    pts.assign(rt::res->p, rt::res->p + rt::res->n);
    if (!have_base) {
      base = r;
      have_base = true;
    }
    if (mine) {
      x.trans(pts.size());
      x.state(mc::h64(sc.name + str(d)));
      if (!r.cls.empty())
        x.fail(r.cls, r.msg);
      else {
        std::string o;
        for (auto &s : r.out)
          o += s + "|";
        x.outcome(sc.name + ": " + o);
        if (!sc.ordered && r.out != base.out)
          x.fail("result", "the threads observed " + o + " but one after the other they observe " + all(base.out));
        if (r.leaked != base.leaked)
          x.fail("lifetime", mc::fmt("%lld blocks remain allocated; when the threads run one after the other: %lld",
                                     (long long)r.leaked, (long long)base.leaked));
      }
    }
    if (!r.cls.empty())
      return;
    // objects used by more than one thread
    std::map<uintptr_t, int> users;
    for (auto &p : pts)
      if (p.cur)
        users[p.addr] |= 1 << p.cur;
    uint32_t lo = d.empty() ? 0 : d.back().at + 1;
    for (uint32_t i = lo; i < pts.size(); ++i) {
      int c = pts[i].preempt ? 1 : 0;
      if (cost + c > bound)
        continue;
      if (c && (users[pts[i].addr] & (users[pts[i].addr] - 1)) == 0)
        continue;
      bool m = d.empty() ? (int)(i % mod) == k : mine;
      if (d.empty() && !m)
        continue;
      for (int t = 1; t <= 4; ++t)
        if ((pts[i].enabled >> t & 1) && t != pts[i].chosen) {
          d.push_back(Dev{i, t});
          explore(d, cost + c, m);
          d.pop_back();
        }
    }
  }
};

static void body(mc::X &x) {
  rt::res = (rt::Res *)mmap(nullptr, sizeof(rt::Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  rt::cells = (rt::Cell *)mmap(nullptr, sizeof(rt::Cell) * rt::NC, PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  rt::index_ = (uint16_t *)mmap(nullptr, 2 * rt::NC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                                -1, 0);
  rt::syncs = (rt::Sync *)mmap(nullptr, sizeof(rt::Sync) * rt::NS, PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  const int MOD = 16;
  for (auto &s : scenarios()) {
    x.section(s.group.c_str(), false);
    for (int k = 0; k < MOD; ++k) {
      if (!x.unit())
        continue;
      Explorer e{x, s, x.thorough() ? s.thorough : s.quick, MOD, k};
      std::vector<Dev> d;
      e.explore(d, 0, k == 0);
      e.stop();
    }
  }
}
MC_MAIN(body)
