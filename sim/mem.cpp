// Heap of a run (arena that never reuses memory), the __tsan_* runtime that the
// instrumented code calls, data-race and use-after-free detection.
#include "core.h"
#include <errno.h>
#include <new>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {

// ----------------------------------------------------------------------- arena
struct Hdr {           // 32 bytes in front of every block
  uint32_t magic, size;
  uint32_t padded;     // bytes from this header to the next one
  uint32_t sut;        // allocated in SUT scope
  uint64_t pc, pc2;
};
constexpr uint32_t kLive = 0xA110C8ED, kDead = 0xDEADB10C;
static char* g_ap;
static char* g_abase;
static uint8_t* g_state;
static char* g_baseline;
static size_t g_live_sut;

static void arena_map() {
  g_abase = (char*)mmap((void*)kArenaBase, kArenaSize, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if ((uintptr_t)g_abase != kArenaBase) { static const char m[] = "sim: arena mmap failed\n"; if (write(2, m, sizeof m - 1)) {} _exit(96); }
  g_state = (uint8_t*)mmap(nullptr, kArenaSize / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_ap = g_abase;
}
static void set_state(uintptr_t a, size_t n, bool live) {
  uint8_t* s = g_state + ((a - kArenaBase) >> 3);
  size_t full = n / 8, rem = n % 8;
  memset(s, live ? 8 : 0xFD, full);
  if (rem) s[full] = live ? (uint8_t)rem : 0xFD;
}
// Long runs recycle freed blocks, oldest first and only after a while, by size
// class; all other runs never use an address twice.
static bool g_recycle;
constexpr int kClasses = 112;
struct FreeQ { Hdr *head, *tail; size_t n; };
static FreeQ g_free[kClasses];
static int size_class(size_t n, size_t* rounded) {
  size_t s = 32;
  for (int c = 0;; c += 4, s *= 2)
    for (int q = 0; q < 4; q++) {
      size_t v = s + s / 4 * q;
      if (n <= v) { *rounded = v; return c + q; }
    }
}
static uint64_t g_acc, g_acc_cap = 400000000ull;
void arena_recycle() { g_recycle = true; g_acc_cap = 20000000000ull; }
void* arena_alloc(size_t n, size_t align, uintptr_t pc) {
  if (!g_abase) arena_map();
  if (align < 16) align = 16;
  size_t room = n;
  if (g_recycle && align == 16 && n <= kArenaSize) {
    int c = size_class(n, &room);
    FreeQ& q = g_free[c];
    if (q.n > (room >= 65536 ? 0 : 32)) {
      Hdr* h = q.head;
      q.head = (Hdr*)h->pc2;
      q.n--;
      h->magic = kLive;
      h->size = (uint32_t)n;
      h->pc = pc;
      h->pc2 = 0;
      Thread* t = t_self;
      h->sut = active() && t->ignore <= 0;
      if (g_in_sim) g_res->allocs++;
      if (h->sut) g_live_sut++;
      char* v = (char*)h + sizeof(Hdr);
      set_state((uintptr_t)v, n, true);
      if (active()) memset(v, 0xCD, n);
      return v;
    }
  }
  uintptr_t p = (uintptr_t)g_ap + sizeof(Hdr);
  p = (p + align - 1) & ~(uintptr_t)(align - 1);
  size_t span = ((room + 15) & ~size_t(15)) + 16;  // red zone
  if (n > kArenaSize || p + span + sizeof(Hdr) > kArenaBase + kArenaSize) {
    if (active()) violate("out-of-memory", "allocation of %zu bytes exceeds the simulated heap of %zu MB", n, kArenaSize >> 20);
    _exit(95);
  }
  // previous header's padded must reach this header
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  if ((char*)h != g_ap) {
    Hdr* f = (Hdr*)g_ap;   // filler so that the walk stays contiguous
    f->magic = kDead;
    f->size = 0;
    f->padded = (uint32_t)((char*)h - g_ap);
    f->sut = 0;
  }
  h->magic = kLive;
  h->size = (uint32_t)n;
  h->padded = (uint32_t)(p + span - (uintptr_t)h);
  h->pc = pc;
  Thread* t = t_self;
  h->sut = active() && t->ignore <= 0;
  h->pc2 = 0;
  if (t && g_in_sim) {
    // first frame of the shadow stack that is not the direct caller
    int i = t->csn - 1;
    if (i >= 0 && i < 256) h->pc2 = t->cs[i];
    g_res->allocs++;
  }
  if (h->sut) g_live_sut++;
  g_ap = (char*)(p + span);
  set_state(p, n, true);
  if (active()) memset((void*)p, 0xCD, n);
  return (void*)p;
}
void arena_free(void* v, uintptr_t pc) {
  if (!v) return;
  if (!in_arena(v)) {
    if (active()) violate("bad-free", "delete of a pointer that was not returned by new");
    return;
  }
  Hdr* h = (Hdr*)((char*)v - sizeof(Hdr));
  if (h->magic == kDead) {
    if (active()) violate("double-free", "memory released twice");
    return;
  }
  if (h->magic != kLive) {
    if (active()) violate("bad-free", "delete of a corrupt or invalid pointer");
    return;
  }
  if (h->sut) g_live_sut--;
  h->magic = kDead;
  h->pc = pc;
  set_state((uintptr_t)v, h->size ? h->size : 1, false);
  if (active()) {
    memset(v, 0xDD, h->size);
    race_free((uintptr_t)v, h->size);
  }
  if (g_recycle && (h->padded & 15) == 0 && h->padded > sizeof(Hdr) + 16 + 16) {
    // the largest class that fits the block
    size_t cap = h->padded - sizeof(Hdr) - 16, r;
    int c = size_class(cap, &r);
    if (r > cap) c--;
    if (c >= 0 && c < kClasses) {
      FreeQ& q = g_free[c];
      h->pc2 = 0;
      if (q.n++) q.tail->pc2 = (uint64_t)h; else q.head = h;
      q.tail = h;
    }
  }
}
uint8_t arena_state(const void* p) { return g_state[((uintptr_t)p - kArenaBase) >> 3]; }
void arena_init() {
  if (!g_abase) arena_map();
  g_baseline = g_ap;
}
size_t live_sut_blocks() { return g_live_sut; }
void mark_baseline() { g_baseline = g_ap; }
size_t leaked_blocks(char* where, size_t n) {
  size_t cnt = 0;
  if (n) where[0] = 0;
  for (char* p = g_baseline; p < g_ap;) {
    Hdr* h = (Hdr*)p;
    if (h->magic == kLive && h->sut) {
      if (cnt++ == 0 && n) {
        char a[200], b[200];
        symbolize(h->pc, a, sizeof a);
        symbolize(h->pc2, b, sizeof b);
        snprintf(where, n, "%u bytes from %s in %s", h->size, a, b);
      }
    }
    if (h->padded == 0) internal_error("arena walk broken");
    p += h->padded;
  }
  return cnt;
}
void describe_addr(uintptr_t a, char* buf, size_t n) {
  buf[0] = 0;
  if (!in_arena((void*)a)) return;
  for (char* p = g_abase; p < g_ap;) {
    Hdr* h = (Hdr*)p;
    if (h->padded == 0) return;
    if (a >= (uintptr_t)p && a < (uintptr_t)p + h->padded) {
      char s[200];
      symbolize(h->pc, s, sizeof s);
      snprintf(buf, n, "%u-byte heap block %s by %s", h->size, h->magic == kLive ? "allocated" : "freed", s);
      return;
    }
    p += h->padded;
  }
}

static const char* state_name(uint8_t s) { return s == 0xFD ? "use-after-free" : "heap-overflow"; }

void check_addr(const void* p, size_t n, const char* what) {
  uintptr_t a = (uintptr_t)p;
  if (in_arena(p)) {
    uint8_t s = arena_state(p);
    if (s == 0xFD || s == 0) {
      char d[300];
      describe_addr(a, d, sizeof d);
      violate(state_name(s), "%s on freed or unallocated memory (%s)", what, d);
    }
  }
  (void)n;
}

// ----------------------------------------------------------------- race detector
struct Slot {
  uint32_t epoch;
  uint8_t tid;
  uint8_t off_size;   // off | size<<4   (size 1..8)
  uint8_t flags;      // 1 write, 2 atomic, 4 used
  uint8_t pad;
  uint64_t pc;
};
struct Cell { Slot s[4]; };
static Cell* g_shadow_heap;
static Cell* g_shadow_glob;
static uintptr_t g_glob_lo, g_glob_hi;
extern "C" char __data_start[] __attribute__((weak));
extern "C" char _end[] __attribute__((weak));

void race_init() {
  if (!race_mode()) return;
  g_glob_lo = (uintptr_t)__data_start & ~7ull;
  g_glob_hi = (uintptr_t)_end;
  if (g_glob_lo == 0) g_glob_hi = 0;
  g_shadow_heap = (Cell*)mmap(nullptr, kArenaSize / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t gs = (g_glob_hi - g_glob_lo) / 8 + 1;
  g_shadow_glob = (Cell*)mmap(nullptr, gs * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_shadow_heap == MAP_FAILED || g_shadow_glob == MAP_FAILED) internal_error("shadow mmap failed");
}
void race_free(uintptr_t, size_t) {}

static Cell* cell(uintptr_t a) {
  if (a >= kArenaBase && a < kArenaBase + kArenaSize) return &g_shadow_heap[(a - kArenaBase) >> 3];
  if (a >= g_glob_lo && a < g_glob_hi) return &g_shadow_glob[(a - g_glob_lo) >> 3];
  return nullptr;
}


static void race_report(uintptr_t a, unsigned size, bool wr, bool at, uintptr_t pc, const Slot& o) {
  char x[220], y[220], d[260];
  symbolize(pc, x, sizeof x);
  symbolize(o.pc, y, sizeof y);
  describe_addr(a, d, sizeof d);
  if (!in_arena((void*)a)) {
    char s[200];
    symbolize(a + 1, s, sizeof s);
    snprintf(d, sizeof d, "global %s", s);
  }
  violate("data-race", "data race: %s%s of %u bytes by T%d in %s conflicts with unsynchronised %s%s by T%d in %s (%s)",
          at ? "atomic " : "", wr ? "write" : "read", size, t_self->id, x, o.flags & 2 ? "atomic " : "",
          o.flags & 1 ? "write" : "read", o.tid, y, d);
}

static void race_access(uintptr_t a, unsigned size, bool wr, bool at, uintptr_t pc) {
  Cell* c = cell(a);
  if (!c) return;
  unsigned off = a & 7;
  Thread* t = t_self;
  uint8_t fl = (wr ? 1 : 0) | (at ? 2 : 0) | 4;
  Slot* dst = nullptr;
  Slot* empty = nullptr;
  for (int i = 0; i < 4; i++) {
    Slot& s = c->s[i];
    if (!(s.flags & 4)) { if (!empty) empty = &s; continue; }
    unsigned so = s.off_size & 15, ss = s.off_size >> 4;
    bool overlap = so < off + size && off < so + ss;
    if (s.tid == t->id) {
      if (so == off && ss == size && s.flags == fl) dst = &s;
      continue;
    }
    if (!overlap) continue;
    if (!((s.flags & 1) || wr)) continue;
    if ((s.flags & 2) && at) continue;
    if (s.epoch > t->vc[s.tid]) race_report(a, size, wr, at, pc, s);
  }
  if (!dst) dst = empty;
  if (!dst) {
    // prefer to overwrite an entry that happens-before us
    for (int i = 0; i < 4 && !dst; i++)
      if (c->s[i].epoch <= t->vc[c->s[i].tid] && (wr || !(c->s[i].flags & 1))) dst = &c->s[i];
    if (!dst) dst = &c->s[(g_acc + a) & 3];
  }
  dst->epoch = t->vc[t->id];
  dst->tid = t->id;
  dst->off_size = off | size << 4;
  dst->flags = fl;
  dst->pc = pc;
}

static __attribute__((noinline)) void bad_access(uintptr_t a, unsigned size, bool wr, uintptr_t pc, uint8_t s) {
  char x[220], d[300];
  symbolize(pc, x, sizeof x);
  describe_addr(a, d, sizeof d);
  violate(state_name(s), "%s of %u bytes in %s touches freed or unallocated memory (%s)", wr ? "write" : "read", size, x, d);
}

static inline void mem_access(uintptr_t a, unsigned size, bool wr, uintptr_t pc) {
  Thread* t = t_self;
  if (!g_in_sim || !t) return;
  if (t->ignore > 0 || t->state == T_FINISHED) return;
  if (++g_acc > g_acc_cap) violate("livelock", "%lu memory accesses without the run ending", (unsigned long)g_acc_cap);
  if (a >= kArenaBase && a < kArenaBase + kArenaSize) {
    uint8_t s = g_state[(a - kArenaBase) >> 3];
    unsigned off = a & 7;
    if (__builtin_expect(s == 0xFD || s == 0 || (off + size <= 8 && off + size > s), 0)) bad_access(a, size, wr, pc, s == 0xFD ? s : 0);
  } else if (a >= kStackBase && a < kStackBase + kMaxThreads * kStack) {
    int tid = (a - kStackBase) / kStack;
    if (tid != t->id && a < g_thr[tid].saved_sp) {
      char x[220];
      symbolize(pc, x, sizeof x);
      violate("stack-use-after-return", "%s in %s touches a dead stack frame of T%d", wr ? "write" : "read", x, tid);
    }
    return;
  }
  if (race_mode_fast) {
    unsigned off = a & 7;
    if (off + size <= 8) race_access(a, size, wr, false, pc);
    else {
      race_access(a, 8 - off, wr, false, pc);
      unsigned left = size - (8 - off);
      a += 8 - off;
      while (left > 0) {
        unsigned k = left > 8 ? 8 : left;
        race_access(a, k, wr, false, pc);
        a += k;
        left -= k;
      }
    }
  }
}
static void range_access(uintptr_t a, size_t n, bool wr, uintptr_t pc) {
  if (!g_in_sim || !t_self || t_self->ignore > 0) return;
  while (n > 0) {
    unsigned k = 8 - (a & 7);
    if (k > n) k = n;
    mem_access(a, k, wr, pc);
    a += k;
    n -= k;
  }
}
uint64_t access_count() { return g_acc; }

// ---------------------------------------------------------------------- atomics
static inline SyncObj* at_obj(const volatile void* p) { return sync_obj((const void*)((uintptr_t)p & ~7ull), 1); }
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static SyncObj* at_pre(const volatile void* p, const char* what) {
  check_addr((const void*)p, 1, what);
  SyncObj* o = at_obj(p);
  if (t_self->ignore <= 0) {
    sched_point(what, o->ord);
    check_addr((const void*)p, 1, what);
  }
  return o;
}
static inline void at_race(const volatile void* p, unsigned n, bool wr, uintptr_t pc) {
  if (race_mode_fast && t_self->ignore <= 0 && n <= 8) race_access((uintptr_t)p, n, wr, true, pc);
}
}  // namespace sim

using namespace sim;
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
#define ATOMIC(N, T)                                                                                 \
  T __tsan_atomic##N##_load(const volatile T* a, int mo) {                                           \
    if (!active()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                      \
    SyncObj* o = at_pre(a, "atomic-load");                                                           \
    at_race(a, N / 8, false, PC);                                                                    \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                      \
    if (acq(mo)) vc_acquire(o);                                                                      \
    return v;                                                                                        \
  }                                                                                                  \
  void __tsan_atomic##N##_store(volatile T* a, T v, int mo) {                                        \
    if (!active()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }                             \
    SyncObj* o = at_pre(a, "atomic-store");                                                          \
    at_race(a, N / 8, true, PC);                                                                     \
    if (rel(mo)) vc_release_store(o);                                                                \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                        \
  }                                                                                                  \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) {                                        \
    if (!active()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                               \
    SyncObj* o = at_pre(a, "atomic-xchg");                                                           \
    at_race(a, N / 8, true, PC);                                                                     \
    if (acq(mo)) vc_acquire(o);                                                                      \
    if (rel(mo)) vc_release(o);                                                                      \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                              \
  }                                                                                                  \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) {                  \
    if (!active()) { __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
    SyncObj* o = at_pre(a, "atomic-cas");                                                            \
    at_race(a, N / 8, true, PC);                                                                     \
    if (acq(mo)) vc_acquire(o);                                                                      \
    bool ok = __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);      \
    if (ok && rel(mo)) vc_release(o);                                                                \
    return c;                                                                                        \
  }                                                                                                  \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int f) {          \
    T old = *c;                                                                                      \
    T got = __tsan_atomic##N##_compare_exchange_val(a, old, v, mo, f);                               \
    if (got == old) return 1;                                                                        \
    *c = got;                                                                                        \
    return 0;                                                                                        \
  }                                                                                                  \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int f) {            \
    return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, f);                               \
  }
#define RMW(N, T, NAME, BI)                                                     \
  T __tsan_atomic##N##_fetch_##NAME(volatile T* a, T v, int mo) {               \
    if (!active()) return BI(a, v, __ATOMIC_SEQ_CST);                           \
    SyncObj* o = at_pre(a, "atomic-" #NAME);                                    \
    at_race(a, N / 8, true, PC);                                                \
    if (acq(mo)) vc_acquire(o);                                                 \
    if (rel(mo)) vc_release(o);                                                 \
    return BI(a, v, __ATOMIC_SEQ_CST);                                          \
  }
#define ALLN(N, T)                        \
  ATOMIC(N, T)                            \
  RMW(N, T, add, __atomic_fetch_add)      \
  RMW(N, T, sub, __atomic_fetch_sub)      \
  RMW(N, T, and, __atomic_fetch_and)      \
  RMW(N, T, or, __atomic_fetch_or)        \
  RMW(N, T, xor, __atomic_fetch_xor)      \
  RMW(N, T, nand, __atomic_fetch_nand)
ALLN(8, uint8_t)
ALLN(16, uint16_t)
ALLN(32, uint32_t)
ALLN(64, uint64_t)

void __tsan_atomic_thread_fence(int mo) {
  if (!active()) return;
  static char key;
  SyncObj* o = sync_obj(&key, 1);
  sched_point("fence", o->ord);
  if (acq(mo)) vc_acquire(o);
  if (rel(mo)) vc_release(o);
}
void __tsan_atomic_signal_fence(int) {}

void __tsan_init(void) {}
#define ACC(N)                                                                               \
  void __tsan_read##N(void* a) { mem_access((uintptr_t)a, N, false, PC); }                   \
  void __tsan_write##N(void* a) { mem_access((uintptr_t)a, N, true, PC); }                   \
  void __tsan_unaligned_read##N(void* a) { range_access((uintptr_t)a, N, false, PC); }       \
  void __tsan_unaligned_write##N(void* a) { range_access((uintptr_t)a, N, true, PC); }       \
  void __tsan_volatile_read##N(void* a) { mem_access((uintptr_t)a, N, false, PC); }          \
  void __tsan_volatile_write##N(void* a) { mem_access((uintptr_t)a, N, true, PC); }          \
  void __tsan_unaligned_volatile_read##N(void* a) { range_access((uintptr_t)a, N, false, PC); } \
  void __tsan_unaligned_volatile_write##N(void* a) { range_access((uintptr_t)a, N, true, PC); } \
  void __tsan_read_write##N(void* a) { mem_access((uintptr_t)a, N, true, PC); }              \
  void __tsan_unaligned_read_write##N(void* a) { range_access((uintptr_t)a, N, true, PC); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
void __tsan_read16(void* a) { range_access((uintptr_t)a, 16, false, PC); }
void __tsan_write16(void* a) { range_access((uintptr_t)a, 16, true, PC); }
void __tsan_unaligned_read16(void* a) { range_access((uintptr_t)a, 16, false, PC); }
void __tsan_unaligned_write16(void* a) { range_access((uintptr_t)a, 16, true, PC); }
void __tsan_read_range(void* a, size_t n) { range_access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { range_access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_read(void** p) { mem_access((uintptr_t)p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* nv) {
  if (*p != nv) mem_access((uintptr_t)p, 8, true, PC);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  range_access((uintptr_t)s, n, false, PC);
  range_access((uintptr_t)d, n, true, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  range_access((uintptr_t)s, n, false, PC);
  range_access((uintptr_t)d, n, true, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  range_access((uintptr_t)d, n, true, PC);
  return memset(d, c, n);
}
void __tsan_func_entry(void* pc) {
  Thread* t = t_self;
  if (!t) return;
  if (t->csn < 256) t->cs[t->csn] = (uintptr_t)pc;
  t->csn++;
}
void __tsan_func_exit() {
  Thread* t = t_self;
  if (!t) return;
  if (t->csn > 0) t->csn--;
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
}  // extern "C"

// ------------------------------------------------------------ operator new/delete
void* operator new(size_t n) { return arena_alloc(n, 16, PC); }
void* operator new[](size_t n) { return arena_alloc(n, 16, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return arena_alloc(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return arena_alloc(n, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { return arena_alloc(n, (size_t)a, PC); }
void* operator new[](size_t n, std::align_val_t a) { return arena_alloc(n, (size_t)a, PC); }
void operator delete(void* p) noexcept { arena_free(p, PC); }
void operator delete[](void* p) noexcept { arena_free(p, PC); }
void operator delete(void* p, size_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, size_t) noexcept { arena_free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { arena_free(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { arena_free(p, PC); }

namespace sim {
void sut_access(const void* p, size_t n, bool write) {
  if (!g_in_sim || !t_self) return;
  SUT();
  range_access((uintptr_t)p, n, write, (uintptr_t)__builtin_return_address(0));
}
}  // namespace sim
