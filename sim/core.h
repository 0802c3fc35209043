// Simulator internals shared by the runtime files. Not used by worlds.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include "sim.h"
#include <pthread.h>
#include <string.h>
#include <new>

namespace sim {

struct Rng {
  uint64_t s;
  void seed(uint64_t x) { s = x; next(); next(); }
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32); }
};

// ------------------------------------------------------------- shared results
constexpr uint32_t kMaxChoices = 1 << 19;
constexpr int kMaxProbes = 96;
constexpr int kRing = 512;
struct ChoiceRec { uint32_t idx, val; };
struct LogRec { uint16_t tid; uint16_t pad; uint32_t obj; uint64_t t; char what[40]; };
enum Status { kRunning = 0, kOk = 1, kViolation = 2, kInternal = 3, kCrash = 4 };
struct Result {
  volatile int status;
  char cls[96];
  char msg[4096];
  char notes[4096];
  uint32_t notes_len;
  uint64_t loghash, ilhash;
  uint64_t steps, switches, points, simtime, accesses, allocs;
  uint32_t threads;
  uint32_t is_long;
  uint64_t faults[kNumFaults];
  struct { char name[40]; uint64_t n; } probes[kMaxProbes];
  uint32_t nprobes;
  uint32_t nchoice[kNumStreams];
  uint32_t drawn[kNumStreams];
  uint32_t overflow;
  uint32_t wtotal;
  LogRec ring[kRing];
  uint64_t ringpos;
  ChoiceRec choices[kNumStreams][kMaxChoices];
};
extern Result* g_res;

struct RunConfig {
  uint64_t seed = 0;
  bool replay = false;
  bool race = false;
  bool verbose = false;
  const ChoiceRec* rc[kNumStreams] = {nullptr, nullptr, nullptr};
  uint32_t nrc[kNumStreams] = {0, 0, 0};
};

// --------------------------------------------------------------------- threads
enum TState : uint8_t { T_UNUSED, T_RUNNABLE, T_BLOCKED, T_FINISHED };
struct Thread {
  int id;
  TState state;
  int go;                 // futex word
  const void* key;        // what it is blocked on
  const char* why;
  uint64_t deadline;      // in the clock below
  bool deadline_wall;
  bool timed_out;
  bool cond_wait;         // eligible for spurious wake-ups
  bool quiesce;           // blocked in wait_quiescent
  int ignore;             // >0: harness scope
  bool joined, detached;
  pthread_t real;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  uint32_t prio;
  uint32_t vc[kMaxThreads];
  char name[24];
  uintptr_t stack_lo, stack_hi;
  uintptr_t saved_sp;     // frames below this are dead while not running
  // shadow call stack maintained by __tsan_func_entry/exit
  uintptr_t cs[256];
  int csn;
};
extern Thread g_thr[kMaxThreads];
extern int g_nthr;
extern Thread* g_cur;
extern __thread Thread* t_self;
extern bool g_in_sim;
extern bool race_mode_fast;
uint64_t access_count();

inline bool active() { return g_in_sim && t_self != nullptr && t_self->state != T_FINISHED; }

// ------------------------------------------------------------ sync object table
struct SyncObj {
  const void* addr;
  uint32_t ord;       // order of first use: schedule independent naming
  Thread* owner;
  int count;          // recursion / readers / semaphore value
  int waiters;
  bool init;
  uint32_t* vc;       // lazily allocated
};
SyncObj* sync_obj(const void* addr, int space = 0);
void vc_acquire(SyncObj*);
void vc_release(SyncObj*);      // obj.vc join= self.vc ; self++
void vc_release_store(SyncObj*);  // obj.vc = self.vc ; self++

void* rt_alloc(size_t n);       // runtime-private, never freed
void begin_run(const RunConfig&);
[[noreturn]] void end_run_ok();
[[noreturn]] void die(Status, const char* cls, const char* fmt, va_list ap);
void sched_point(const char* what, uint32_t ord);
void check_addr(const void* p, size_t n, const char* what);  // UAF check for sync objects
Wake block_ex(const void* key, uint64_t deadline, bool wall, bool cond, const char* why);
void thread_finish(Thread*);
void yield_hint();   // the thread is spinning: let others go first
int spawn(void* (*fn)(void*), void* arg, bool detached, Thread** out);
void print_stack(char* buf, size_t n);
void symbolize(uintptr_t pc, char* buf, size_t n);
uint64_t clock_ns(int clk);

// --------------------------------------------------------------------- arena
constexpr uintptr_t kArenaBase = 0x200000000000ull;
constexpr size_t kArenaSize = 1024ull << 20;
constexpr uintptr_t kStackBase = 0x300000000000ull;  // of thread stacks, kStack bytes each
constexpr size_t kStack = 4ull << 20;
inline bool in_arena(const void* p) {
  uintptr_t a = (uintptr_t)p;
  return a >= kArenaBase && a < kArenaBase + kArenaSize;
}
void arena_init();
void* arena_alloc(size_t n, size_t align, uintptr_t pc);
void arena_free(void* p, uintptr_t pc);
void arena_recycle();
uint8_t arena_state(const void* p);  // 0 unallocated, 1..8 valid bytes, 0xFD freed
void race_init();
void race_free(uintptr_t a, size_t n);
uintptr_t real_fn(const char* name);
void describe_addr(uintptr_t a, char* buf, size_t n);

// hooks of the OS models
void net_reset();
void net_check_leaks();
void file_reset();
}  // namespace sim
#endif
