// See rt.h. This file is compiled without instrumentation.
#include "rt.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <new>
#include <set>
#include <vector>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
extern char __executable_start, etext;
}

namespace rt {
namespace {

constexpr int MAXT = 4;
using Clock = std::uint32_t;
struct VC {
  Clock c[MAXT] = {0, 0, 0, 0};
  void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

// ---- state of one execution ----------------------------------------------------
enum What { RUN, LOCK, RD, WR, ONCE, COND, DONE };
struct Thread {
  VC vc;
  What waits = RUN;
  void *on = nullptr;
  bool signalled = false;
  bool stopped_by_error = false;
};
struct Lock { int writer = -1; int depth = 0; std::multiset<int> readers; VC w, r; };
struct Once { int state = 0; int owner = -1; };   // 1 running, 2 done

bool active = false;                     // an execution is under way
thread_local int me = -1;                // number of the calling thread in it
thread_local int nested = 0;             // inside the runtime
int nthreads = 0;
Thread th[MAXT];
std::map<void *, Lock> *locks;
std::map<void *, VC> *syncs;
std::map<void *, Once> *onces;
std::uint32_t epoch = 0;                 // number of the execution, for the shadow memory
Stats *stats;
std::uint64_t sync_here = 0;
char problem[4096];
bool has_problem = false;

struct Nest { Nest() { nested++; } ~Nest() { nested--; } };

void report(const char *fmt, ...) {
  if (has_problem) return;
  has_problem = true;
  va_list a;
  va_start(a, fmt);
  vsnprintf(problem, sizeof problem, fmt, a);
  va_end(a);
}

const char *symbol(void *pc, char *buf, size_t n) {
  Dl_info i;
  if (pc && dladdr(pc, &i) && i.dli_sname) {
    int st = 0;
    size_t len = 0;
    char *d = abi::__cxa_demangle(i.dli_sname, nullptr, &len, &st);
    snprintf(buf, n, "%s", st == 0 && d ? d : i.dli_sname);
    __libc_free(d);
    if (strlen(buf) > 160) strcpy(buf + 157, "...");
  } else snprintf(buf, n, "?");
  return buf;
}

// ---- shadow memory ---------------------------------------------------------------
struct Cell { std::uint32_t epoch; Clock r[MAXT], w[MAXT]; std::uint32_t rpc, wpc; };
struct Page { std::uintptr_t base; Cell *cells; };
constexpr std::size_t NP = 1 << 17;
Page *pages;
Page *last_page;

Cell *cells_of(std::uintptr_t a, bool make) {
  std::uintptr_t b = a >> 12;
  if (last_page && last_page->base == b) return last_page->cells;
  std::size_t i = (b * 0x9E3779B97F4A7C15ULL >> 40) & (NP - 1);
  while (pages[i].cells && pages[i].base != b) i = (i + 1) & (NP - 1);
  if (!pages[i].cells) {
    if (!make) return nullptr;
    void *m = mmap(nullptr, 4096 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { static const char e[] = "rt: out of memory for shadow pages\n"; ssize_t r = ::write(2, e, sizeof e - 1); (void)r; _exit(3); }
    pages[i].cells = (Cell *)m;
    pages[i].base = b;
  }
  last_page = &pages[i];
  return pages[i].cells;
}

inline bool on() { return active && me >= 0 && !nested; }

void access(std::uintptr_t a, std::size_t n, bool write, void *pc) {
  Thread &t = th[me];
  stats->accesses++;
  std::uint32_t off = (std::uint32_t)((char *)pc - &__executable_start);
  for (std::size_t k = 0; k < n; k++) {
    Cell *page = cells_of(a + k, true);
    Cell &c = page[(a + k) & 4095];
    if (c.epoch != epoch) { memset(&c, 0, sizeof c); c.epoch = epoch; }
    for (int o = 0; o < nthreads; o++) {
      if (o == me) continue;
      bool ww = c.w[o] > t.vc.c[o], rr = write && c.r[o] > t.vc.c[o];
      if ((ww || rr) && !has_problem) {
        char s1[256], s2[256];
        symbol(pc, s1, sizeof s1);
        symbol(&__executable_start + (ww ? c.wpc : c.rpc), s2, sizeof s2);
        report("DATA RACE: thread %d %s in %s what thread %d %s in %s, with nothing ordering the two", me, write ? "writes" : "reads", s1, o, ww ? "writes" : "reads", s2);
      }
    }
    if (write) { c.w[me] = t.vc.c[me]; c.wpc = off; }
    else { c.r[me] = t.vc.c[me]; c.rpc = off; }
  }
}
void forget(std::uintptr_t a, std::size_t n) {
  for (std::size_t k = 0; k < n;) {
    Cell *page = cells_of(a + k, false);
    std::size_t in = std::min<std::size_t>(n - k, 4096 - ((a + k) & 4095));
    if (page) for (std::size_t j = 0; j < in; j++) page[((a + k) & 4095) + j].epoch = 0;
    k += in;
  }
}

// ---- scheduling ------------------------------------------------------------------
std::atomic<int> baton[MAXT + 1];        // word MAXT is the controlling thread's
void wake(int k) {
  baton[k].store(1, std::memory_order_release);
  syscall(SYS_futex, (int *)&baton[k], FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
void await(int k) {
  while (baton[k].exchange(0, std::memory_order_acquire) == 0)
    syscall(SYS_futex, (int *)&baton[k], FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
}

struct Choice { int taken, options; };
std::vector<Choice> trail;               // decisions of this execution
std::size_t depth;                       // how many of them have been taken
int left;                                // preemptions left
int streak_of, streak;
bool unrepeated;                         // the beginning of an execution was not what it was before

bool enabled(int k) {
  Thread &t = th[k];
  switch (t.waits) {
  case RUN: return true;
  case DONE: return false;
  case LOCK: case WR: { Lock &l = (*locks)[t.on]; return l.writer < 0 && l.readers.empty(); }
  case RD: return (*locks)[t.on].writer < 0;
  case ONCE: return (*onces)[t.on].state != 1;
  case COND: return t.signalled;
  }
  return false;
}
const char *waiting_for(int k) {
  switch (th[k].waits) {
  case LOCK: return "waits for a mutex";
  case WR: return "waits to lock exclusively";
  case RD: return "waits to lock shared";
  case ONCE: return "waits for an initialisation";
  case COND: return "waits for a condition";
  case DONE: return "has ended";
  default: return "runs";
  }
}

// Chooses who goes on; `self` is the running thread (or -1). Returns it.
int choose(int self) {
  int opts[MAXT], n = 0;
  bool self_on = self >= 0 && enabled(self);
  if (self_on) opts[n++] = self;
  if (!self_on || left > 0)
    for (int k = 0; k < nthreads; k++) if (k != self && enabled(k)) opts[n++] = k;
  if (n == 0) return -1;
  // fairness: a thread that spins gives way after a while
  if (self != streak_of) { streak_of = self; streak = 0; }
  if (self_on && ++streak > 20000) {
    for (int k = 1; k < nthreads; k++) if (enabled((self + k) % nthreads)) { streak = 0; return (self + k) % nthreads; }
  }
  int pick = 0;
  if (n > 1) {
    if (depth < trail.size()) {
      pick = trail[depth].taken;
      if (trail[depth].options != n) { unrepeated = true; trail[depth].options = n; if (pick >= n) pick = 0; }
    } else trail.push_back({0, n});
    depth++;
  }
  if (self_on && opts[pick] != self) { left--; stats->preempted++; }
  return opts[pick];
}

[[noreturn]] void park() { for (;;) pause(); }

void switch_to(int k) {
  int self = me;
  if (k == self) return;
  wake(k);
  await(self);
}
// The running thread reaches a synchronisation operation and may lose its turn;
// it returns once it has the turn and what it waits for is available.
void point(What w, void *o) {
  th[me].waits = w;
  th[me].on = o;
  sync_here++;
  stats->sync_ops++;
  int k = choose(me);
  if (k < 0) {
    char s[1024];
    int p = 0;
    for (int j = 0; j < nthreads; j++) p += snprintf(s + p, sizeof s - p, "%sthread %d %s", j ? ", " : "", j, waiting_for(j));
    report("DEADLOCK: %s", s);
    wake(MAXT);
    park();
  }
  switch_to(k);
  th[me].waits = RUN;
}

void acquire(VC &v) { th[me].vc.join(v); }
void release(VC &v) { v.join(th[me].vc); th[me].vc.c[me]++; }

int lock_ex(void *m, What w) {
  Nest n;
  point(w, m);
  Lock &l = (*locks)[m];
  l.writer = me;
  acquire(l.w);
  acquire(l.r);
  return 0;
}
int lock_sh(void *m) {
  Nest n;
  point(RD, m);
  Lock &l = (*locks)[m];
  l.readers.insert(me);
  acquire(l.w);
  return 0;
}
int try_ex(void *m) {
  Nest n;
  point(RUN, m);
  Lock &l = (*locks)[m];
  if (l.writer >= 0 || !l.readers.empty()) return EBUSY;
  l.writer = me;
  acquire(l.w);
  acquire(l.r);
  return 0;
}
int try_sh(void *m) {
  Nest n;
  point(RUN, m);
  Lock &l = (*locks)[m];
  if (l.writer >= 0) return EBUSY;
  l.readers.insert(me);
  acquire(l.w);
  return 0;
}
int unlock(void *m) {
  Nest n;
  auto it = locks->find(m);
  if (it == locks->end() || (it->second.writer != me && !it->second.readers.count(me))) {
    report("a thread releases a lock that it does not hold");
    return EPERM;
  }
  Lock &l = it->second;
  if (l.writer == me) { l.writer = -1; release(l.w); }
  else { l.readers.erase(l.readers.find(me)); release(l.r); }
  return 0;
}
void forget_locks(void *a, std::size_t n) {
  char *b = (char *)a;
  if (!locks->empty()) locks->erase(locks->lower_bound(b), locks->lower_bound(b + n));
  if (!syncs->empty()) syncs->erase(syncs->lower_bound(b), syncs->lower_bound(b + n));
}

// ---- executions --------------------------------------------------------------------
const std::function<void(int)> *job;
pthread_t tid[MAXT];
int started = 0;

void *thread_main(void *arg) {
  int k = (int)(long)arg;
  nested++;
  for (;;) {
    await(k);
    me = k;
    nested--;
    try { (*job)(k); }
    catch (std::exception &e) { nested++; report("thread %d: %s", k, e.what()); nested--; }
    catch (Problem &e) { nested++; report("thread %d: %s", k, e.what.c_str()); nested--; }
    catch (...) { nested++; report("thread %d: an exception", k); nested--; }
    nested++;
    th[k].waits = DONE;
    int next = choose(-1);
    me = -1;
    if (next >= 0) wake(next);
    else {
      bool all = true;
      for (int j = 0; j < nthreads; j++) all = all && th[j].waits == DONE;
      if (!all) {
        char s[1024];
        int p = 0;
        for (int j = 0; j < nthreads; j++) p += snprintf(s + p, sizeof s - p, "%sthread %d %s", j ? ", " : "", j, waiting_for(j));
        report("DEADLOCK: %s", s);
      }
      wake(MAXT);
    }
  }
  return nullptr;
}

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
void init() {
  if (pages) return;
  pages = (Page *)mmap(nullptr, NP * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  locks = new std::map<void *, Lock>;
  syncs = new std::map<void *, VC>;
  onces = new std::map<void *, Once>;
}

}  // namespace

namespace {
struct Run {                                // one schedule to run, and what came of it
  int threads, preemptions;
  const std::function<void()> &setup;
  const std::function<void(int)> &body;
  const std::function<void()> &check;
};
// One execution on this process, following `trail`; throws Problem.
void execute(const Run &r, Stats &s) {
  nested++;
  init();
  stats = &s;
  nthreads = r.threads;
  job = &r.body;
  for (; started < r.threads; started++) pthread_create(&tid[started], nullptr, thread_main, (void *)(long)started);
  nested--;
  r.setup();
  nested++;
  epoch++;
  locks->clear(); syncs->clear(); onces->clear();
  for (int k = 0; k < r.threads; k++) {
    th[k] = Thread();
    th[k].vc.c[k] = 1;
  }
  depth = 0;
  left = r.preemptions;
  streak = 0; streak_of = -1;
  sync_here = 0;
  has_problem = unrepeated = false;
  active = true;
  wake(choose(-1));
  await(MAXT);
  active = false;
  s.schedules++;
  if (sync_here > s.max_sync) s.max_sync = sync_here;
  trail.resize(depth);
  std::string sched = "schedule";
  for (std::size_t k = 0; k < depth && k < 300; k++) sched += " " + std::to_string(trail[k].taken);
  sched = " (" + sched + ", execution " + std::to_string(s.schedules) + ")";
  if (has_problem) { nested--; throw Problem{problem + sched}; }
  nested--;
  try { r.check(); }
  catch (Problem &e) { throw Problem{e.what + sched}; }
}
// To the next schedule; false when there is none.
bool advance() {
  while (!trail.empty() && trail.back().taken + 1 >= trail.back().options) trail.pop_back();
  if (trail.empty()) return false;
  trail.back().taken++;
  return true;
}

// The same in a process of its own; trail and statistics travel through shared memory.
struct Mail { Stats s; bool unrepeated; int status; std::size_t n; char msg[4096]; Choice trail[60000]; };
void execute_apart(const Run &r, Stats &s) {
  static Mail *m = nullptr;
  if (!m) m = (Mail *)mmap(nullptr, sizeof(Mail), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  m->s = s; m->status = 0; m->unrepeated = false; m->n = 0;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, 9);
    try { execute(r, m->s); m->status = 1; }
    catch (Problem &e) { snprintf(m->msg, sizeof m->msg, "%s", e.what.c_str()); m->status = 2; }
    catch (std::exception &e) { snprintf(m->msg, sizeof m->msg, "%s", e.what()); m->status = 2; }
    m->unrepeated = unrepeated;
    m->n = trail.size();
    for (std::size_t k = 0; k < trail.size() && k < 60000; k++) m->trail[k] = trail[k];
    _exit(0);
  }
  int st;
  waitpid(p, &st, 0);
  s = m->s;
  if (m->status == 0) throw Problem{"the code under test crashed (status " + std::to_string(st) + ")"};
  if (m->status == 2) throw Problem{m->msg};
  unrepeated = m->unrepeated;
  trail.assign(m->trail, m->trail + m->n);
}
}  // namespace

static Stats explore_bound(int threads, int preemptions, double until, bool apart, const std::function<void()> &setup,
              const std::function<void(int)> &body, const std::function<void()> &check) {
  Run r{threads, preemptions, setup, body, check};
  Stats s;
  // in this process: static data may be set up by the first executions, so that
  // they do not repeat; then it starts over, and if that does not help either
  // every execution gets a process of its own
  for (int attempt = 0; attempt < 4; attempt++) {
    if (attempt == 3) apart = true;
    trail.clear();
    s = Stats();
    bool again = false;
    if (!apart) { execute(r, s); trail.clear(); }
    for (;;) {
      if (apart) execute_apart(r, s); else execute(r, s);
      if (unrepeated) {
        if (apart) throw Problem{"internal: executions do not repeat"};
        again = true;
        break;
      }
      if (!advance()) break;
      if (now() > until) { s.complete = false; break; }
    }
    if (!again) break;
  }
  return s;
}

Stats explore(int threads, int preemptions, double seconds, bool apart, const std::function<void()> &setup,
              const std::function<void(int)> &body, const std::function<void()> &check) {
  double until = now() + seconds;
  Stats total;
  for (int p = 0; p <= preemptions && total.complete; p++) {
    Stats s = explore_bound(threads, p, until, apart, setup, body, check);
    total.schedules += s.schedules; total.sync_ops += s.sync_ops; total.accesses += s.accesses; total.preempted += s.preempted;
    if (s.max_sync > total.max_sync) total.max_sync = s.max_sync;
    total.complete = s.complete;
    if (s.complete) total.bound = p;
    if (s.max_sync == 0 && p == 0) { total.bound = preemptions; break; }   // nowhere to preempt
  }
  return total;
}

}  // namespace rt

using namespace rt;
#define PC __builtin_return_address(0)
#define REAL(ret, name, ...) static auto real_##name = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

extern "C" {
// ---- memory accesses of instrumented code ------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(N)                                                                          \
  void __tsan_read##N(void *p) { if (on()) access((std::uintptr_t)p, N, false, PC); }   \
  void __tsan_write##N(void *p) { if (on()) access((std::uintptr_t)p, N, true, PC); }   \
  void __tsan_unaligned_read##N(void *p) { if (on()) access((std::uintptr_t)p, N, false, PC); }  \
  void __tsan_unaligned_write##N(void *p) { if (on()) access((std::uintptr_t)p, N, true, PC); }  \
  void __tsan_volatile_read##N(void *p) { if (on()) access((std::uintptr_t)p, N, false, PC); }   \
  void __tsan_volatile_write##N(void *p) { if (on()) access((std::uintptr_t)p, N, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, unsigned long n) { if (on()) access((std::uintptr_t)p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { if (on()) access((std::uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (on() && *p != v) access((std::uintptr_t)p, 8, true, PC); }
void __tsan_vptr_read(void **p) { if (on()) access((std::uintptr_t)p, 8, false, PC); }

// ---- atomics ----------------------------------------------------------------------
static void before_atomic(volatile void *p, int mo, bool load) {
  if (!on()) return;
  Nest n;
  point(RUN, (void *)p);
  VC &v = (*syncs)[(void *)p];
  (void)load;
  if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) acquire(v);
}
static void after_atomic(volatile void *p, int mo, bool store) {
  if (!on()) return;
  Nest n;
  VC &v = (*syncs)[(void *)p];
  if (store && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) release(v);
}
#define ATOMIC(N, T)                                                                                              \
  T __tsan_atomic##N##_load(const volatile T *p, int mo) { before_atomic((void *)p, mo, true); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { before_atomic(p, __ATOMIC_RELAXED, false); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); after_atomic(p, mo, true); } \
  T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) { before_atomic(p, mo, false); T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); after_atomic(p, mo, true); return r; } \
  T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) { before_atomic(p, mo, false); T r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); after_atomic(p, mo, true); return r; } \
  T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) { before_atomic(p, mo, false); T r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); after_atomic(p, mo, true); return r; } \
  T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) { before_atomic(p, mo, false); T r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); after_atomic(p, mo, true); return r; } \
  T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) { before_atomic(p, mo, false); T r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); after_atomic(p, mo, true); return r; } \
  T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) { before_atomic(p, mo, false); T r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); after_atomic(p, mo, true); return r; } \
  T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) { before_atomic(p, mo, false); T r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); after_atomic(p, mo, true); return r; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) {                      \
    before_atomic(p, mo, false); (void)fmo;                                                                         \
    int ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                       \
    after_atomic(p, mo, ok); return ok; }                                                                           \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, fmo); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
ATOMIC(8, std::uint8_t) ATOMIC(16, std::uint16_t) ATOMIC(32, std::uint32_t) ATOMIC(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) {
  // conservative: a fence orders with every other fence
  if (!on()) return;
  Nest n;
  VC &v = (*syncs)[(void *)&pages];
  acquire(v);
  release(v);
}
void __tsan_atomic_signal_fence(int) {}

// ---- locks ------------------------------------------------------------------------
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (on()) {
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    if (rec) { auto it = locks->find(m); if (it != locks->end() && it->second.writer == me) { it->second.depth++; return 0; } }
    return lock_ex(m, LOCK);
  }
  REAL(int, pthread_mutex_lock, pthread_mutex_t *);
  return real_pthread_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (on()) return try_ex(m);
  REAL(int, pthread_mutex_trylock, pthread_mutex_t *);
  return real_pthread_mutex_trylock(m);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) {
  if (on()) return lock_ex(m, LOCK);
  REAL(int, pthread_mutex_timedlock, pthread_mutex_t *, const struct timespec *);
  return real_pthread_mutex_timedlock(m, t);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (on()) {
    auto it = locks->find(m);
    if (it != locks->end() && it->second.writer == me && it->second.depth > 0) { it->second.depth--; return 0; }
    return unlock(m);
  }
  REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
  return real_pthread_mutex_unlock(m);
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (on()) { Nest n; locks->erase(m); return 0; }
  REAL(int, pthread_mutex_destroy, pthread_mutex_t *);
  return real_pthread_mutex_destroy(m);
}
#define RW(name, virt)                                              \
  int name(pthread_rwlock_t *m) {                                   \
    if (on()) return virt;                                          \
    REAL(int, name, pthread_rwlock_t *);                            \
    return real_##name(m);                                          \
  }
RW(pthread_rwlock_rdlock, lock_sh(m))
RW(pthread_rwlock_wrlock, lock_ex(m, WR))
RW(pthread_rwlock_tryrdlock, try_sh(m))
RW(pthread_rwlock_trywrlock, try_ex(m))
RW(pthread_rwlock_unlock, unlock(m))
int pthread_spin_lock(pthread_spinlock_t *m) {
  if (on()) return lock_ex((void *)m, LOCK);
  REAL(int, pthread_spin_lock, pthread_spinlock_t *);
  return real_pthread_spin_lock(m);
}
int pthread_spin_unlock(pthread_spinlock_t *m) {
  if (on()) return unlock((void *)m);
  REAL(int, pthread_spin_unlock, pthread_spinlock_t *);
  return real_pthread_spin_unlock(m);
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (on()) {
    unlock(m);
    { Nest n; th[me].signalled = false; point(COND, c); acquire((*syncs)[c]); }
    return lock_ex(m, LOCK);
  }
  REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *);
  return real_pthread_cond_wait(c, m);
}
static void notify(void *c, bool all) {
  Nest n;
  release((*syncs)[c]);
  for (int k = 0; k < nthreads; k++)
    if (th[k].waits == COND && th[k].on == c && !th[k].signalled) { th[k].signalled = true; if (!all) break; }
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (on()) { notify(c, false); return 0; }
  REAL(int, pthread_cond_signal, pthread_cond_t *);
  return real_pthread_cond_signal(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (on()) { notify(c, true); return 0; }
  REAL(int, pthread_cond_broadcast, pthread_cond_t *);
  return real_pthread_cond_broadcast(c);
}
int sched_yield() {
  if (on()) { Nest n; point(RUN, nullptr); return 0; }
  return (int)syscall(SYS_sched_yield);
}
int pthread_once(pthread_once_t *o, void (*f)()) {
  if (on()) {
    {
      Nest n;
      if (*o == 2 || (*onces)[o].state == 2) { acquire((*syncs)[o]); return 0; }   // for good: nothing to decide
      point(ONCE, o);
      Once &x = (*onces)[o];
      if (x.state == 2) { acquire((*syncs)[o]); return 0; }
      x.state = 1; x.owner = me;
    }
    try { f(); } catch (...) { Nest n; (*onces)[o].state = 0; release((*syncs)[o]); throw; }
    Nest n;
    (*onces)[o].state = 2;
    *o = 2;                                             // glibc's "done"
    release((*syncs)[o]);
    return 0;
  }
  REAL(int, pthread_once, pthread_once_t *, void (*)());
  return real_pthread_once(o, f);
}

// ---- static locals ------------------------------------------------------------------
int __cxa_guard_acquire(__cxxabiv1::__guard *g) {
  if (!on()) {
    REAL(int, __cxa_guard_acquire, __cxxabiv1::__guard *);
    return real___cxa_guard_acquire(g);
  }
  Nest n;
  if (!*(volatile char *)g) point(ONCE, g);
  if (*(volatile char *)g) { acquire((*syncs)[g]); return 0; }
  Once &x = (*onces)[g];
  x.state = 1; x.owner = me;
  return 1;
}
void __cxa_guard_release(__cxxabiv1::__guard *g) {
  if (!on()) {
    REAL(void, __cxa_guard_release, __cxxabiv1::__guard *);
    real___cxa_guard_release(g);
    return;
  }
  Nest n;
  (*onces)[g].state = 0;
  *(volatile char *)g = 1;
  release((*syncs)[g]);
}
void __cxa_guard_abort(__cxxabiv1::__guard *g) {
  if (!on()) {
    REAL(void, __cxa_guard_abort, __cxxabiv1::__guard *);
    real___cxa_guard_abort(g);
    return;
  }
  Nest n;
  (*onces)[g].state = 0;
  release((*syncs)[g]);
}

// ---- blocks of memory ----------------------------------------------------------------
static void fresh(void *p, size_t n) {
  if (p && on()) { Nest x; forget((std::uintptr_t)p, n); forget_locks(p, n); }
}
static bool ours(void *pc) { return (char *)pc >= &__executable_start && (char *)pc < &etext; }
#include <malloc.h>
static void gone(void *p, void *pc) {
  if (p && on()) {
    Nest x;
    size_t n = malloc_usable_size(p);
    if (ours(pc)) access((std::uintptr_t)p, n < 64 ? n : 64, true, pc);     // the owner must be the last to use it
    forget((std::uintptr_t)p, n);
    forget_locks(p, n);
  }
}
void *malloc(size_t n) { void *p = __libc_malloc(n); fresh(p, n); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); fresh(p, a * b); return p; }
void *realloc(void *q, size_t n) { gone(q, nullptr); void *p = __libc_realloc(q, n); fresh(p, n); return p; }
void free(void *p) { gone(p, nullptr); __libc_free(p); }

// ---- bulk operations of the C library, when called from the program --------------------
void *memcpy(void *d, const void *s, size_t n) {
  if (on() && n && ours(PC)) { access((std::uintptr_t)s, n, false, PC); access((std::uintptr_t)d, n, true, PC); }
  char *a = (char *)d; const char *b = (const char *)s;
  asm volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n) : : "memory");
  return d;
}
void *memmove(void *d, const void *s, size_t n) {
  if (on() && n && ours(PC)) { access((std::uintptr_t)s, n, false, PC); access((std::uintptr_t)d, n, true, PC); }
  REAL(void *, memmove, void *, const void *, size_t);
  return real_memmove(d, s, n);
}
int memcmp(const void *a, const void *b, size_t n) {
  if (on() && n && ours(PC)) { access((std::uintptr_t)a, n, false, PC); access((std::uintptr_t)b, n, false, PC); }
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  for (; n; n--, x++, y++) if (*x != *y) return *x - *y;
  return 0;
}
}
void *operator new(std::size_t n) { void *p = __libc_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); fresh(p, n); return p; }
void *operator new[](std::size_t n) { void *p = __libc_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); fresh(p, n); return p; }
void operator delete(void *p) noexcept { gone(p, PC); __libc_free(p); }
void operator delete[](void *p) noexcept { gone(p, PC); __libc_free(p); }
void operator delete(void *p, std::size_t) noexcept { gone(p, PC); __libc_free(p); }
void operator delete[](void *p, std::size_t) noexcept { gone(p, PC); __libc_free(p); }
