// Threads, locks, condition variables, once, clocks and sleeping: the POSIX
// entry points that the code under test (through libstdc++) uses.
#include "core.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <limits.h>
#include <sched.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

namespace sim {
static Thread* find_thread(pthread_t p) {
  for (int i = 0; i < g_nthr; i++)
    if (i > 0 && g_thr[i].real == p && !g_thr[i].joined) return &g_thr[i];
  return nullptr;
}
static int mutex_kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }

static uint64_t to_ns(const struct timespec* ts) {
  if (ts->tv_sec < 0) return 0;
  if (ts->tv_sec > 9000000000ll) return kNever;
  return (uint64_t)ts->tv_sec * kSec + ts->tv_nsec;
}
// absolute time -> (deadline in block_ex's terms, wall?)
static void abs_deadline(int clk, const struct timespec* ts, uint64_t* d, bool* wall) {
  uint64_t t = to_ns(ts);
  *wall = clk == CLOCK_REALTIME;
  if (t == kNever) { *d = kNever; return; }
  uint64_t base = clk == CLOCK_REALTIME ? 1700000000ull * kSec : 1000 * kSec;
  // signed: a wall clock set back can lie before the simulation's epoch
  *d = t - base;
  if ((int64_t)*d < 0) { if (!*wall) *d = 0; return; }
  if (*d > 200ull * 365 * 86400 * kSec) *d = kNever;
}
static bool deadline_passed(uint64_t d, bool wall) {
  if (d == kNever) return false;
  int64_t t = (int64_t)now() + (wall ? wall_offset() : 0);
  return (int64_t)d <= t;
}

static int mutex_lock_ex(pthread_mutex_t* m, bool try_only, uint64_t d, bool wall, bool quiet = false) {
  check_addr(m, 1, "mutex lock");
  SyncObj* o = sync_obj(m);
  if (!quiet) {
    sched_point(try_only ? "mutex-trylock" : "mutex-lock", o->ord);
    check_addr(m, 1, "mutex lock");
  }
  Thread* me = t_self;
  if (o->owner == me) {
    int k = mutex_kind(m);
    if (k == 1) { o->count++; return 0; }
    if (try_only) return EBUSY;
    if (k == 2) return EDEADLK;
    if (d == kNever) violate("deadlock", "thread locks a mutex it already holds");
  }
  while (o->owner) {
    if (try_only) return EBUSY;
    o->waiters++;
    Wake w = block_ex(o, d, wall, false, "mutex");
    o->waiters--;
    check_addr(m, 1, "mutex lock");
    if (o->owner && w == kTimeout) return ETIMEDOUT;
  }
  o->owner = me;
  o->count = 1;
  vc_acquire(o);
  return 0;
}
static int mutex_unlock_ex(pthread_mutex_t* m, bool quiet) {
  check_addr(m, 1, "mutex unlock");
  SyncObj* o = sync_obj(m);
  if (!quiet) {
    sched_point("mutex-unlock", o->ord);
    check_addr(m, 1, "mutex unlock");
  }
  if (o->owner != t_self) {
    violate("sync-misuse", "unlock of a mutex that the thread does not hold (%s)", o->owner ? "held by another thread" : "not locked");
  }
  if (--o->count > 0) return 0;
  o->owner = nullptr;
  vc_release_store(o);
  if (o->waiters) wake_all(o);
  return 0;
}
static int cond_wait_ex(pthread_cond_t* c, pthread_mutex_t* m, uint64_t d, bool wall) {
  check_addr(c, 1, "condition wait");
  SyncObj* o = sync_obj(c);
  sched_point("cond-wait", o->ord);
  check_addr(c, 1, "condition wait");
  SyncObj* mo = sync_obj(m);
  if (mo->owner != t_self) violate("sync-misuse", "condition wait without holding the mutex");
  if (deadline_passed(d, wall)) {
    // a real timed wait with an expired deadline still releases the mutex
    mutex_unlock_ex(m, true);
    mutex_lock_ex(m, false, kNever, false, false);
    return ETIMEDOUT;
  }
  int save = mo->count;
  mo->count = 1;
  mutex_unlock_ex(m, true);
  o->waiters++;
  Wake w = block_ex(o, d, wall, true, "condition variable");
  o->waiters--;
  mutex_lock_ex(m, false, kNever, false, false);
  mo->count = save;
  return w == kTimeout ? ETIMEDOUT : 0;
}
}  // namespace sim

extern "C" {

// ----------------------------------------------------------------------- threads
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!active()) {
    typedef int (*FN)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static FN f = (FN)real_fn("pthread_create");
    return f(out, attr, fn, arg);
  }
  int ds = 0;
  if (attr) pthread_attr_getdetachstate(attr, &ds);
  sched_point("thread-create", 0);
  Thread* t = nullptr;
  spawn(fn, arg, ds == PTHREAD_CREATE_DETACHED, &t);
  *out = t->real;
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  if (!active()) {
    typedef int (*FN)(pthread_t, void**);
    static FN f = (FN)real_fn("pthread_join");
    return f(p, ret);
  }
  Thread* t = find_thread(p);
  if (!t) {
    if (pthread_equal(p, pthread_self())) return EDEADLK;
    return ESRCH;
  }
  if (t == t_self) return EDEADLK;
  if (t->detached) return EINVAL;
  sched_point("thread-join", t->id);
  while (t->state != T_FINISHED) block(t, kNever, "join");
  t->joined = true;
  vc_acquire(sync_obj(t, 1));
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!active()) return 0;
  Thread* t = find_thread(p);
  if (!t) return ESRCH;
  t->detached = true;
  return 0;
}

// ----------------------------------------------------------------------- mutexes
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  int k = 0;
  if (a) pthread_mutexattr_gettype(a, &k);
  memset(m, 0, sizeof *m);
  m->__data.__kind = k;
  if (active()) {
    SyncObj* o = sync_obj(m);
    o->owner = nullptr;
    o->count = 0;
  }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!active()) return 0;
  SyncObj* o = sync_obj(m);
  if (o->owner) violate("sync-misuse", "destroying a locked mutex");
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!active()) return 0;
  return mutex_lock_ex(m, false, kNever, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!active()) return 0;
  return mutex_lock_ex(m, true, kNever, false);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (!active()) return 0;
  uint64_t d;
  bool w;
  abs_deadline(CLOCK_REALTIME, ts, &d, &w);
  return mutex_lock_ex(m, false, d, w);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  if (!active()) return 0;
  uint64_t d;
  bool w;
  abs_deadline(c, ts, &d, &w);
  return mutex_lock_ex(m, false, d, w);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!active()) return 0;
  return mutex_unlock_ex(m, false);
}

// ---------------------------------------------------------- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  memset(c, 0, sizeof *c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!active()) return 0;
  SyncObj* o = sync_obj(c);
  for (int i = 0; i < g_nthr; i++)
    if (g_thr[i].state == T_BLOCKED && g_thr[i].key == o) violate("sync-misuse", "condition variable destroyed while T%d waits on it", i);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!active()) return 0;
  return cond_wait_ex(c, m, kNever, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!active()) return ETIMEDOUT;
  uint64_t d;
  bool w;
  abs_deadline(CLOCK_REALTIME, ts, &d, &w);
  return cond_wait_ex(c, m, d, w);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  if (!active()) return ETIMEDOUT;
  uint64_t d;
  bool w;
  abs_deadline(clk, ts, &d, &w);
  return cond_wait_ex(c, m, d, w);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!active()) return 0;
  check_addr(c, 1, "condition signal");
  SyncObj* o = sync_obj(c);
  sched_point("cond-signal", o->ord);
  check_addr(c, 1, "condition signal");
  wake_one(o);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!active()) return 0;
  check_addr(c, 1, "condition broadcast");
  SyncObj* o = sync_obj(c);
  sched_point("cond-broadcast", o->ord);
  check_addr(c, 1, "condition broadcast");
  wake_all(o);
  return 0;
}

// ------------------------------------------------------------------ rwlocks etc.
// count: >0 readers, owner: writer
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) {
  memset(l, 0, sizeof *l);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rw_rd(pthread_rwlock_t* l, bool tr, uint64_t d, bool wall) {
  check_addr(l, 1, "rwlock");
  SyncObj* o = sync_obj(l);
  sched_point("rwlock-rdlock", o->ord);
  if (o->owner == t_self) return EDEADLK;
  while (o->owner) {
    if (tr) return EBUSY;
    if (block_ex(o, d, wall, false, "rwlock read") == kTimeout && o->owner) return ETIMEDOUT;
  }
  o->count++;
  vc_acquire(o);
  return 0;
}
static int rw_wr(pthread_rwlock_t* l, bool tr, uint64_t d, bool wall) {
  check_addr(l, 1, "rwlock");
  SyncObj* o = sync_obj(l);
  sched_point("rwlock-wrlock", o->ord);
  if (o->owner == t_self) return EDEADLK;
  while (o->owner || o->count > 0) {
    if (tr) return EBUSY;
    if (block_ex(o, d, wall, false, "rwlock write") == kTimeout && (o->owner || o->count > 0)) return ETIMEDOUT;
  }
  o->owner = t_self;
  vc_acquire(o);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return active() ? rw_rd(l, false, kNever, false) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return active() ? rw_rd(l, true, kNever, false) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return active() ? rw_wr(l, false, kNever, false) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return active() ? rw_wr(l, true, kNever, false) : 0; }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) {
  uint64_t d; bool w;
  abs_deadline(CLOCK_REALTIME, ts, &d, &w);
  return active() ? rw_rd(l, false, d, w) : 0;
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) {
  uint64_t d; bool w;
  abs_deadline(CLOCK_REALTIME, ts, &d, &w);
  return active() ? rw_wr(l, false, d, w) : 0;
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) {
  uint64_t d; bool w;
  abs_deadline(c, ts, &d, &w);
  return active() ? rw_rd(l, false, d, w) : 0;
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) {
  uint64_t d; bool w;
  abs_deadline(c, ts, &d, &w);
  return active() ? rw_wr(l, false, d, w) : 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!active()) return 0;
  check_addr(l, 1, "rwlock unlock");
  SyncObj* o = sync_obj(l);
  sched_point("rwlock-unlock", o->ord);
  if (o->owner == t_self) {
    o->owner = nullptr;
    vc_release(o);
  } else if (o->count > 0) {
    o->count--;
    vc_release(o);
  } else {
    violate("sync-misuse", "unlock of a rwlock that is not held");
  }
  wake_all(o);
  return 0;
}

int pthread_once(pthread_once_t* once, void (*fn)(void)) {
  if (!active()) {
    if (*once == 0) {
      *once = 1;
      fn();
      *once = 2;
    }
    return 0;
  }
  SyncObj* o = sync_obj(once);
  sched_point("once", o->ord);
  while (*once == 1) {
    if (o->owner == t_self) violate("deadlock", "recursive pthread_once");
    block(o, kNever, "once");
  }
  if (*once == 0) {
    *once = 1;
    o->owner = t_self;
    fn();
    *once = 2;
    o->owner = nullptr;
    vc_release(o);
    wake_all(o);
  }
  vc_acquire(o);
  return 0;
}

int __cxa_guard_acquire(uint64_t* g) {
  char* done = (char*)g;
  if (*done) {
    if (active()) vc_acquire(sync_obj((void*)((uintptr_t)g & ~7ull), 1));
    return 0;
  }
  if (!active()) return 1;
  SyncObj* o = sync_obj((void*)((uintptr_t)g & ~7ull), 1);
  sched_point("static-init", o->ord);
  while (!*done && o->owner) {
    if (o->owner == t_self) violate("crash", "recursive initialisation of a function static");
    block(o, kNever, "static initialisation");
  }
  if (*done) {
    vc_acquire(o);
    return 0;
  }
  o->owner = t_self;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  if (!active()) {
    *(char*)g = 1;
    return;
  }
  SyncObj* o = sync_obj((void*)((uintptr_t)g & ~7ull), 1);
  sched_point("static-init-done", o->ord);
  o->owner = nullptr;
  vc_release(o);
  *(char*)g = 1;
  wake_all(o);
}
void __cxa_guard_abort(uint64_t* g) {
  if (!active()) return;
  SyncObj* o = sync_obj((void*)((uintptr_t)g & ~7ull), 1);
  o->owner = nullptr;
  wake_all(o);
}

// Destructors of function statics that the code under test creates are kept
// for run_exit_handlers().
static struct { void (*fn)(void*); void* arg; } g_exit[4096];
static int g_nexit;
int __cxa_atexit(void (*fn)(void*), void* arg, void* dso) {
  if (active() && t_self->ignore <= 0) {
    if (g_nexit == 4096) internal_error("too many exit handlers");
    g_exit[g_nexit++] = {fn, arg};
    return 0;
  }
  static int (*real)(void (*)(void*), void*, void*);
  if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "__cxa_atexit");
  return real(fn, arg, dso);
}

int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 1; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) {
  if (!active()) return 0;
  SyncObj* o = sync_obj((const void*)l);
  sched_point("spin-lock", o->ord);
  while (o->owner) block(o, kNever, "spinlock");
  o->owner = t_self;
  vc_acquire(o);
  return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* l) {
  if (!active()) return 0;
  SyncObj* o = sync_obj((const void*)l);
  sched_point("spin-trylock", o->ord);
  if (o->owner) return EBUSY;
  o->owner = t_self;
  vc_acquire(o);
  return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l) {
  if (!active()) return 0;
  SyncObj* o = sync_obj((const void*)l);
  sched_point("spin-unlock", o->ord);
  o->owner = nullptr;
  vc_release(o);
  wake_all(o);
  return 0;
}

int sem_init(sem_t* s, int, unsigned v) {
  if (active()) sync_obj(s)->count = (int)v;
  return 0;
}
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) {
  if (!active()) return 0;
  SyncObj* o = sync_obj(s);
  sched_point("sem-post", o->ord);
  o->count++;
  vc_release(o);
  wake_one(o);
  return 0;
}
static int sem_wait_ex(sem_t* s, bool tr, uint64_t d, bool wall) {
  SyncObj* o = sync_obj(s);
  sched_point("sem-wait", o->ord);
  while (o->count == 0) {
    if (tr) { errno = EAGAIN; return -1; }
    if (block_ex(o, d, wall, false, "semaphore") == kTimeout && o->count == 0) { errno = ETIMEDOUT; return -1; }
  }
  o->count--;
  vc_acquire(o);
  return 0;
}
int sem_wait(sem_t* s) { return active() ? sem_wait_ex(s, false, kNever, false) : 0; }
int sem_trywait(sem_t* s) { return active() ? sem_wait_ex(s, true, kNever, false) : 0; }
int sem_timedwait(sem_t* s, const struct timespec* ts) {
  uint64_t d; bool w;
  abs_deadline(CLOCK_REALTIME, ts, &d, &w);
  return active() ? sem_wait_ex(s, false, d, w) : 0;
}
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts) {
  uint64_t d; bool w;
  abs_deadline(c, ts, &d, &w);
  return active() ? sem_wait_ex(s, false, d, w) : 0;
}

// -------------------------------------------------------------- clocks and sleep
int clock_gettime(clockid_t clk, struct timespec* ts) {
  if (!active()) {
    long r = 0;
    __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_clock_gettime), "D"(clk), "S"(ts) : "rcx", "r11", "memory");
    return (int)r;
  }
  if (t_self->ignore <= 0) sched_point("clock", 0);
  uint64_t t = clock_ns(clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE ? CLOCK_REALTIME : CLOCK_MONOTONIC);
  ts->tv_sec = t / kSec;
  ts->tv_nsec = t % kSec;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec* ts, struct timespec*) {
  if (!active()) {
    typedef int (*FN)(const struct timespec*, struct timespec*);
    static FN f = (FN)real_fn("nanosleep");
    return f(ts, nullptr);
  }
  sleep_ns(to_ns(ts));
  return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec* ts, struct timespec*) {
  if (!active()) {
    typedef int (*FN)(clockid_t, int, const struct timespec*, struct timespec*);
    static FN f = (FN)real_fn("clock_nanosleep");
    return f(clk, flags, ts, nullptr);
  }
  if (flags & TIMER_ABSTIME) {
    uint64_t d; bool w;
    abs_deadline(clk, ts, &d, &w);
    sched_point("sleep-until", 0);
    static char key;
    if (!deadline_passed(d, w)) block_ex(&key, d, w, false, "sleep");
  } else {
    sleep_ns(to_ns(ts));
  }
  return 0;
}
int usleep(useconds_t us) {
  struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec ts = {(time_t)s, 0};
  nanosleep(&ts, nullptr);
  return 0;
}
int sched_yield(void) {
  if (active()) {
    yield_hint();
    sched_point("yield", 0);
  }
  return 0;
}

// libstdc++'s futures block on a futex through syscall(2)
long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (nr == SYS_futex && active()) {
    int op = (int)b & FUTEX_CMD_MASK;
    int* addr = (int*)a;
    SyncObj* o = sync_obj(addr);
    if (op == FUTEX_WAKE) {
      sched_point("futex-wake", o->ord);
      if (c >= INT_MAX) wake_all(o);
      else for (long i = 0; i < c; i++) wake_one(o);
      return 0;
    }
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sched_point("futex-wait", o->ord);
      if (*addr != (int)c) { errno = EAGAIN; return -1; }
      uint64_t dl = kNever;
      bool wall = false;
      const struct timespec* ts = (const struct timespec*)d;
      if (ts) {
        if (op == FUTEX_WAIT) dl = now() + to_ns(ts);
        else abs_deadline((int)b & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts, &dl, &wall);
        if (deadline_passed(dl, wall)) { errno = ETIMEDOUT; return -1; }
      }
      if (block_ex(o, dl, wall, true, "futex") == kTimeout) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    internal_error("unsupported futex operation %ld", b);
  }
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) {
    errno = (int)-ret;
    return -1;
  }
  return ret;
}
}  // extern "C"

namespace sim {
void run_exit_handlers() {
  SUT();
  while (g_nexit) {
    g_nexit--;
    g_exit[g_nexit].fn(g_exit[g_nexit].arg);
  }
}
}  // namespace sim
