// Scheduler, choice streams, simulated clock, arena, reporting.
#include "core.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace sim {

const char* const kFaultNames[kNumFaults] = {
#define X(n) #n,
    SIM_FAULTS(X)
#undef X
};

Result* g_res;
Thread g_thr[kMaxThreads];
int g_nthr;
Thread* g_cur;
__thread Thread* t_self;
bool g_in_sim;
bool race_mode_fast;

static RunConfig g_cfg;
static uint64_t g_now;
static int64_t g_wall_off;
static uint64_t g_next_deadline = kNever;  // monotonic, lower bound
static uint64_t g_steps, g_switches, g_points;
static uint64_t g_step_cap = 400000;
static uint64_t g_hash = 1469598103934665603ull, g_ilhash = 1469598103934665603ull;
static uint32_t g_rate[kNumFaults];
static bool g_fair;
static uint32_t g_sync_ord;

// ------------------------------------------------------------------- utilities
void* rt_alloc(size_t n) {
  static char* p;
  static char* e;
  n = (n + 15) & ~size_t(15);
  if (p == nullptr || p + n > e) {
    size_t m = n > (1 << 20) ? n : (1 << 20);
    p = (char*)mmap(nullptr, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) _exit(98);
    e = p + m;
  }
  void* r = p;
  p += n;
  return r;
}

uintptr_t real_fn(const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) {
    fprintf(stderr, "sim: cannot resolve %s\n", name);
    _exit(97);
  }
  return (uintptr_t)p;
}

static void hash_mix(uint64_t& h, uint64_t v) {
  for (int i = 0; i < 8; i++) {
    h ^= (v >> (i * 8)) & 0xff;
    h *= 1099511628211ull;
  }
}

void symbolize(uintptr_t pc, char* buf, size_t n) {
  Dl_info di;
  if (pc && dladdr((void*)(pc - 1), &di) && di.dli_sname) {
    int st = 0;
    char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
    snprintf(buf, n, "%s+0x%lx", st == 0 && d ? d : di.dli_sname,
             (unsigned long)(pc - (uintptr_t)di.dli_saddr));
    return;
  }
  if (pc && dladdr((void*)(pc - 1), &di) && di.dli_fname) {
    const char* b = strrchr(di.dli_fname, '/');
    snprintf(buf, n, "%s@0x%lx", b ? b + 1 : di.dli_fname, (unsigned long)pc - 1);
    return;
  }
  snprintf(buf, n, "?");
}

void print_stack(char* buf, size_t n) {
  size_t o = 0;
  buf[0] = 0;
  Thread* t = t_self;
  if (!t) return;
  for (int i = t->csn - 1, k = 0; i >= 0 && k < 14; i--, k++) {
    if (i >= 256) continue;
    char s[220];
    symbolize(t->cs[i], s, sizeof s);
    int r = snprintf(buf + o, n - o, "    called from %s\n", s);
    if (r < 0 || (size_t)r >= n - o) break;
    o += r;
  }
}

static void ring_add(const char* what, uint32_t ord) {
  LogRec& r = g_res->ring[g_res->ringpos++ % kRing];
  r.tid = t_self ? t_self->id : 0xffff;
  r.obj = ord;
  r.t = g_now;
  strncpy(r.what, what, sizeof r.what - 1);
  r.what[sizeof r.what - 1] = 0;
}

static void finish_stats() {
  g_res->loghash = g_hash;
  g_res->ilhash = g_ilhash;
  g_res->steps = g_steps;
  g_res->switches = g_switches;
  g_res->points = g_points;
  g_res->simtime = g_now;
  g_res->threads = g_nthr;
  g_res->accesses = access_count();
}

void die(Status st, const char* cls, const char* fmt, va_list ap) {
  g_in_sim = false;
  if (g_res->status == kRunning) {
    snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
    int k = vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap);
    if (k < 0) k = 0;
    if (st != kOk && (size_t)k < sizeof(g_res->msg) - 200 && t_self) {
      size_t o = k;
      o += snprintf(g_res->msg + o, sizeof g_res->msg - o, "\n  in thread T%d (%s)\n", t_self->id, t_self->name);
      print_stack(g_res->msg + o, sizeof g_res->msg - o);
      o = strlen(g_res->msg);
      for (int i = 0; i < g_nthr && o < sizeof(g_res->msg) - 160; i++)
        if (g_thr[i].state == T_BLOCKED)
          o += snprintf(g_res->msg + o, sizeof g_res->msg - o, "  T%d (%s) blocked: %s\n", i, g_thr[i].name,
                        g_thr[i].why ? g_thr[i].why : "?");
    }
    finish_stats();
    __sync_synchronize();
    g_res->status = st;
  }
  _exit(st == kOk ? 0 : 1);
}

void violate(const char* cls, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  die(kViolation, cls, fmt, ap);
}
void internal_error(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  die(kInternal, "internal", fmt, ap);
}
static void ok_impl(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  die(kOk, "", fmt, ap);
}
void end_run_ok() {
  ok_impl("%s", "");
  _exit(0);
}

void log(const char* fmt, ...) {
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  for (const char* p = b; *p; p++) {
    g_hash ^= (unsigned char)*p;
    g_hash *= 1099511628211ull;
  }
  ring_add(b, 0);
  if (g_cfg.verbose)
    fprintf(stderr, "%10lu.%03lums T%d      %s\n", (unsigned long)(g_now / kMs), (unsigned long)(g_now / kUs % 1000),
            t_self ? t_self->id : -1, b);
}

void note(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  size_t left = sizeof(g_res->notes) - g_res->notes_len;
  if (left > 2) {
    int k = vsnprintf(g_res->notes + g_res->notes_len, left, fmt, ap);
    if (k > 0) g_res->notes_len += (size_t)k < left ? k : left - 1;
  }
  va_end(ap);
}

void probe(const char* name) {
  for (uint32_t i = 0; i < g_res->nprobes; i++)
    if (strcmp(g_res->probes[i].name, name) == 0) {
      g_res->probes[i].n++;
      return;
    }
  if (g_res->nprobes < kMaxProbes) {
    auto& p = g_res->probes[g_res->nprobes++];
    snprintf(p.name, sizeof p.name, "%s", name);
    p.n = 1;
  }
}

bool race_mode() { return g_cfg.race; }
bool verbose() { return g_cfg.verbose; }

// --------------------------------------------------------------- choice streams
static Rng g_rng[kNumStreams];
static uint32_t g_ctr[kNumStreams];
static uint32_t g_rpos[kNumStreams];

static uint32_t replay_val(int s, uint32_t idx) {
  uint32_t& p = g_rpos[s];
  while (p < g_cfg.nrc[s] && g_cfg.rc[s][p].idx < idx) p++;
  if (p < g_cfg.nrc[s] && g_cfg.rc[s][p].idx == idx) return g_cfg.rc[s][p].val;
  return 0;
}
static void record(int s, uint32_t idx, uint32_t val) {
  g_res->drawn[s] = idx + 1;
  if (val == 0) return;
  uint32_t& n = g_res->nchoice[s];
  if (n >= kMaxChoices) {
    g_res->overflow = 1;
    return;
  }
  g_res->choices[s][n].idx = idx;
  g_res->choices[s][n].val = val;
  n++;
}
uint32_t W(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t idx = g_ctr[SW]++;
  uint32_t v = g_cfg.replay ? replay_val(SW, idx) % n : g_rng[SW].below(n);
  record(SW, idx, v);
  return v;
}
uint64_t W64() { return ((uint64_t)W(0xffffffffu) << 32) ^ W(0xffffffffu); }
uint32_t F(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t idx = g_ctr[SF]++;
  uint32_t v = g_cfg.replay ? replay_val(SF, idx) % n : g_rng[SF].below(n);
  record(SF, idx, v);
  return v;
}
void arm(Fault k, uint32_t rate) { g_rate[k] = rate; }
bool armed(Fault k) { return g_rate[k] != 0; }
void disarm_all() { memset(g_rate, 0, sizeof g_rate); }
void count_fault(Fault k) { g_res->faults[k]++; }
bool fault(Fault k) {
  if (g_rate[k] == 0) return false;
  uint32_t v = 1;
  if (g_rate[k] < 100000) {   // a certain fault belongs to the world: it is no choice that could be minimised away
    uint32_t idx = g_ctr[SF]++;
    v = g_cfg.replay ? (replay_val(SF, idx) != 0) : (g_rng[SF].below(100000) < g_rate[k]);
    record(SF, idx, v);
  }
  if (v) {
    g_res->faults[k]++;
    if (g_cfg.verbose || true) log("FAULT %s", kFaultNames[k]);
  }
  return v != 0;
}

// ----------------------------------------------------------------- sync objects
static uint32_t g_sync_bits = 15;
static SyncObj** g_sync[2];
static SyncObj** sync_table(uint32_t bits) {
  return (SyncObj**)mmap(nullptr, sizeof(SyncObj*) << bits, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void sync_grow(uint32_t bits) {
  uint32_t old = g_sync_bits;
  g_sync_bits = bits;
  for (auto& t : g_sync) {
    SyncObj** from = t;
    if (!from) continue;
    t = sync_table(bits);
    for (uint32_t k = 0; k < 1u << old; k++)
      if (SyncObj* o = from[k]) {
        uint32_t i = ((uintptr_t)o->addr * 0x9e3779b97f4a7c15ull) >> (64 - bits);
        while (t[i]) i = (i + 1) & ((1u << bits) - 1);
        t[i] = o;
      }
  }
}
SyncObj* sync_obj(const void* addr, int space) {
  if (!g_sync[space]) g_sync[space] = sync_table(g_sync_bits);
  SyncObj** t = g_sync[space];
  const uint32_t N = 1u << g_sync_bits;
  uint64_t h = (uintptr_t)addr * 0x9e3779b97f4a7c15ull;
  uint32_t i = h >> (64 - g_sync_bits);
  for (uint32_t k = 0;; k++) {
    if (k >= N) internal_error("sync object table full");
    SyncObj*& o = t[(i + k) & (N - 1)];
    if (!o) {
      o = (SyncObj*)rt_alloc(sizeof(SyncObj));
      memset(o, 0, sizeof *o);
      o->addr = addr;
      o->ord = ++g_sync_ord;
      return o;
    }
    if (o->addr == addr) return o;
  }
}
static uint32_t* obj_vc(SyncObj* o) {
  if (!o->vc) {
    o->vc = (uint32_t*)rt_alloc(sizeof(uint32_t) * kMaxThreads);
    memset(o->vc, 0, sizeof(uint32_t) * kMaxThreads);
  }
  return o->vc;
}
void vc_acquire(SyncObj* o) {
  if (!o->vc || !t_self) return;
  for (int i = 0; i < g_nthr; i++)
    if (o->vc[i] > t_self->vc[i]) t_self->vc[i] = o->vc[i];
}
void vc_release(SyncObj* o) {
  if (!t_self) return;
  uint32_t* v = obj_vc(o);
  for (int i = 0; i < g_nthr; i++)
    if (t_self->vc[i] > v[i]) v[i] = t_self->vc[i];
  t_self->vc[t_self->id]++;
}
void vc_release_store(SyncObj* o) {
  if (!t_self) return;
  uint32_t* v = obj_vc(o);
  memcpy(v, t_self->vc, sizeof(uint32_t) * kMaxThreads);
  t_self->vc[t_self->id]++;
}
void hb_release(const void* key) { vc_release(sync_obj(key, 1)); }
void hb_acquire(const void* key) { vc_acquire(sync_obj(key, 1)); }

// -------------------------------------------------------------------- scheduler
static long raw_futex(int* a, int op, int v) {
  long ret;
  register long r10 __asm__("r10") = 0;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10) : "rcx", "r11", "memory");
  return ret;
}
static void fwait(int* a) {
  while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) raw_futex(a, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(a, 0, __ATOMIC_RELAXED);
}
static void fwake(int* a) {
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  raw_futex(a, FUTEX_WAKE_PRIVATE, 1);
}

uint64_t now() { return g_now; }
int64_t wall_offset() { return g_wall_off; }
uint64_t steps() { return g_steps; }
int self_id() { return t_self ? t_self->id : -1; }
int live_threads() {
  int n = 0;
  for (int i = 1; i < g_nthr; i++) n += g_thr[i].state == T_RUNNABLE || g_thr[i].state == T_BLOCKED;
  return n;
}
void name_thread(const char* n) {
  if (t_self) snprintf(t_self->name, sizeof t_self->name, "%s", n);
}

static uint64_t mono_deadline(const Thread& t) {
  if (t.deadline == kNever) return kNever;
  if (!t.deadline_wall) return t.deadline;
  int64_t d = (int64_t)t.deadline - g_wall_off;
  return d < 0 ? 0 : (uint64_t)d;
}
static void recompute_deadline() {
  g_next_deadline = kNever;
  for (int i = 0; i < g_nthr; i++)
    if (g_thr[i].state == T_BLOCKED) {
      uint64_t d = mono_deadline(g_thr[i]);
      if (d < g_next_deadline) g_next_deadline = d;
    }
}
static void fire_timers() {
  if (g_now < g_next_deadline) return;
  for (int i = 0; i < g_nthr; i++) {
    Thread& t = g_thr[i];
    if (t.state == T_BLOCKED && mono_deadline(t) <= g_now) {
      t.state = T_RUNNABLE;
      t.timed_out = true;
    }
  }
  recompute_deadline();
}
void jump_wall(int64_t d) {
  g_wall_off += d;
  log("wall clock jumps by %ldms", (long)(d / (int64_t)kMs));
  recompute_deadline();
  fire_timers();
}

// Strategy state (generation mode only).
enum Strat { ST_RANDOM, ST_PCT, ST_RR, ST_STALL };
static Strat g_strat;
static uint32_t g_p_num, g_p_den;      // ST_RANDOM switch probability
static uint32_t g_gap;                 // points until next preemption
static uint64_t g_pct_at[16];
static int g_pct_n, g_pct_i;
static uint32_t g_pct_low = 50000000;
static uint64_t g_since_switch;
static int g_victim = -1;
static uint64_t g_victim_from, g_victim_to;
static Rng g_crng;

static uint32_t geo() {
  // geometric with success probability p_num/p_den
  uint32_t n = 0;
  while (n < 4096 && g_rng[SS].below(g_p_den) >= g_p_num) n++;
  return n;
}
static void strat_init() {
  switch (g_crng.below(10)) {
    case 0: case 1: case 2: case 3: {
      g_strat = ST_RANDOM;
      static const uint32_t dens[] = {1, 2, 3, 5, 10, 25, 60, 150};
      g_p_num = 1;
      g_p_den = dens[g_crng.below(8)];
      break;
    }
    case 4: case 5: case 6: {
      g_strat = ST_PCT;
      g_pct_n = 1 + g_crng.below(5);
      uint32_t span = 30u << g_crng.below(8);
      for (int i = 0; i < g_pct_n; i++) g_pct_at[i] = 1 + g_crng.below(span);
      for (int i = 0; i < g_pct_n; i++)
        for (int j = i + 1; j < g_pct_n; j++)
          if (g_pct_at[j] < g_pct_at[i]) { uint64_t x = g_pct_at[i]; g_pct_at[i] = g_pct_at[j]; g_pct_at[j] = x; }
      g_pct_i = 0;
      break;
    }
    case 7:
      g_strat = ST_RR;
      g_p_num = 1;
      g_p_den = 1 + g_crng.below(20);
      break;
    default:
      g_strat = ST_STALL;
      g_p_num = 1;
      g_p_den = 1 + g_crng.below(12);
      g_victim = g_crng.below(8);
      g_victim_from = g_crng.below(400);
      g_victim_to = g_victim_from + (10u << g_crng.below(8));
      break;
  }
  g_gap = g_strat == ST_PCT ? 0 : geo();
}
void fair() {
  g_fair = true;
  g_p_num = 1;
  g_p_den = 4;
  g_gap = 0;
}

void yield_hint() {
  if (g_cur) g_cur->prio = g_pct_low--;
  g_gap = 0;
}

void long_run(uint64_t step_cap, bool many_preemptions) {
  g_res->is_long = 1;
  g_step_cap = step_cap;
  g_cfg.race = race_mode_fast = false;
  if (g_strat != ST_PCT || g_crng.below(2)) {
    g_strat = ST_RANDOM;
    g_p_num = 1;
    g_p_den = (many_preemptions ? 2u : 60u) << g_crng.below(5);
  }
  sync_grow(20);
  arena_recycle();
}

static uint64_t runnable_mask() {
  uint64_t m = 0;
  for (int i = 0; i < g_nthr; i++)
    if (g_thr[i].state == T_RUNNABLE) m |= 1ull << i;
  return m;
}

// Chooses among candidates cand[0..n); cand[0] is the default (current thread
// when it can go on, otherwise the next one in cyclic order).
static uint32_t strategy(const int* cand, int n, bool cur_ok) {
  if (g_strat == ST_PCT && !g_fair) {
    while (g_pct_i < g_pct_n && g_points >= g_pct_at[g_pct_i]) {
      g_cur->prio = g_pct_low--;
      g_pct_i++;
    }
    if (cur_ok && ++g_since_switch > 3000) {  // starvation bound
      g_since_switch = 0;
      g_cur->prio = g_pct_low--;
    }
    int best = 0;
    for (int i = 1; i < n; i++)
      if (g_thr[cand[i]].prio > g_thr[cand[best]].prio) best = i;
    if (best) g_since_switch = 0;
    return best;
  }
  if (g_strat == ST_STALL && !g_fair && g_points >= g_victim_from && g_points < g_victim_to) {
    // keep the victim off the processor while anybody else can run
    int tmp[kMaxThreads], m = 0;
    for (int i = 0; i < n; i++)
      if (cand[i] != g_victim) tmp[m++] = i;
    if (m > 0 && m < n) {
      g_res->faults[THREAD_STALL]++;
      if (cur_ok && cand[0] != g_victim && g_gap > 0) {
        g_gap--;
        return 0;
      }
      g_gap = geo();
      return tmp[g_rng[SS].below(m)];
    }
  }
  if (cur_ok) {
    if (g_gap > 0) {
      g_gap--;
      return 0;
    }
    g_gap = g_fair ? g_rng[SS].below(8) : geo();
    if (g_strat == ST_RR && !g_fair) return 1;
    return g_rng[SS].below(n);
  }
  return g_strat == ST_RR ? 0 : g_rng[SS].below(n);
}

static void deadlock() {
  char b[1024];
  size_t o = 0;
  for (int i = 0; i < g_nthr; i++)
    if (g_thr[i].state == T_BLOCKED)
      o += snprintf(b + o, sizeof b - o, " T%d(%s):%s", i, g_thr[i].name, g_thr[i].why ? g_thr[i].why : "?");
  violate("deadlock", "no thread can make progress and no timer is pending:%s", b);
}

static uint64_t g_idle_horizon = kNever;

// Picks the next thread to run. Called by the token holder.
static Thread* pick(bool cur_ok) {
  for (;;) {
    fire_timers();
    uint64_t m = runnable_mask();
    if (!cur_ok && t_self) m &= ~(t_self->state == T_RUNNABLE ? 0ull : (1ull << t_self->id));
    if (m == 0) {
      // quiescence waiters first: is there a timer within the horizon?
      Thread* q = nullptr;
      for (int i = 0; i < g_nthr; i++)
        if (g_thr[i].state == T_BLOCKED && g_thr[i].quiesce) q = &g_thr[i];
      recompute_deadline();
      if (q) {
        if (g_next_deadline == kNever || (g_idle_horizon != kNever && g_next_deadline > g_idle_horizon)) {
          q->state = T_RUNNABLE;
          q->quiesce = false;
          continue;
        }
      }
      if (g_next_deadline == kNever) deadlock();
      if (g_next_deadline > g_now) g_now = g_next_deadline;
      continue;
    }
    int cand[kMaxThreads], n = 0;
    int c = g_cur->id;
    if (cur_ok) cand[n++] = c;
    for (int k = 1; k < g_nthr + (cur_ok ? 0 : 1); k++) {
      int i = (c + k) % g_nthr;
      if (m >> i & 1) cand[n++] = i;
    }
    if (n == 1) return &g_thr[cand[0]];
    uint32_t idx = g_ctr[SS]++;
    uint32_t v = g_cfg.replay ? replay_val(SS, idx) % n : strategy(cand, n, cur_ok);
    record(SS, idx, v);
    return &g_thr[cand[v]];
  }
}

static void switch_to(Thread* n) {
  Thread* me = t_self;
  if (n == me) return;
  g_switches++;
  hash_mix(g_ilhash, (uint64_t)n->id + 0x100);
  g_cur = n;
  char mark;
  me->saved_sp = (uintptr_t)&mark;
  n->saved_sp = n->stack_lo;
  fwake(&n->go);
  fwait(&me->go);
}

void sched_point(const char* what, uint32_t ord) {
  if (!active()) return;
  Thread* me = t_self;
  g_steps++;
  g_points++;
  g_now += 300;
  if (g_steps > g_step_cap) violate("livelock", "step cap %lu reached without the run ending (last op: %s)", (unsigned long)g_step_cap, what);
  if (g_rate[SPURIOUS_WAKE]) {
    for (int i = 0; i < g_nthr; i++)
      if (g_thr[i].state == T_BLOCKED && g_thr[i].cond_wait) {
        if (fault(SPURIOUS_WAKE)) g_thr[i].state = T_RUNNABLE;
        break;
      }
  }
  if (g_rate[TIME_STALL] && g_next_deadline != kNever && g_next_deadline > g_now) {
    if (fault(TIME_STALL)) g_now = g_next_deadline;
  }
  Thread* n = pick(true);
  if (n != me) switch_to(n);
  // logged when the operation is about to happen: this is the order of effects
  uint64_t h = 1469598103934665603ull;
  for (const char* p = what; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
  hash_mix(g_hash, h ^ ((uint64_t)me->id << 56) ^ ord);
  hash_mix(g_hash, g_now);
  hash_mix(g_ilhash, h ^ ((uint64_t)me->id << 56) ^ ord);
  ring_add(what, ord);
  if (g_cfg.verbose)
    fprintf(stderr, "%10lu.%03lums T%d  %s #%u\n", (unsigned long)(g_now / kMs), (unsigned long)(g_now / kUs % 1000), me->id, what, ord);
}

void point(const char* what, const void* obj) { sched_point(what, obj ? sync_obj(obj, 1)->ord : 0); }

Wake block_ex(const void* key, uint64_t deadline, bool wall, bool cond, const char* why) {
  Thread* me = t_self;
  if (!active()) internal_error("block outside simulation: %s", why);
  me->state = T_BLOCKED;
  me->key = key;
  me->why = why;
  me->deadline = deadline;
  me->deadline_wall = wall;
  me->timed_out = false;
  me->cond_wait = cond;
  uint64_t d = mono_deadline(*me);
  if (d < g_next_deadline) g_next_deadline = d;
  g_steps++;
  if (g_steps > g_step_cap) violate("livelock", "step cap %lu reached without the run ending (blocking in %s)", (unsigned long)g_step_cap, why);
  Thread* n = pick(false);
  if (n == me) {
    // woken by a timer before anybody else ran
  } else {
    switch_to(n);
  }
  me->state = T_RUNNABLE;
  me->key = nullptr;
  me->deadline = kNever;
  me->cond_wait = false;
  hash_mix(g_hash, me->id * 31 + (me->timed_out ? 7 : 3));
  return me->timed_out ? kTimeout : kWoken;
}
Wake block(const void* key, uint64_t deadline, const char* why) { return block_ex(key, deadline, false, false, why); }

void wake_all(const void* key) {
  for (int i = 0; i < g_nthr; i++)
    if (g_thr[i].state == T_BLOCKED && g_thr[i].key == key && !g_thr[i].quiesce) g_thr[i].state = T_RUNNABLE;
}
void wake_one(const void* key) {
  int c[kMaxThreads], n = 0;
  for (int i = 0; i < g_nthr; i++)
    if (g_thr[i].state == T_BLOCKED && g_thr[i].key == key && !g_thr[i].quiesce) c[n++] = i;
  if (n == 0) return;
  uint32_t v = 0;
  if (n > 1) {
    uint32_t idx = g_ctr[SS]++;
    v = g_cfg.replay ? replay_val(SS, idx) % n : g_rng[SS].below(n);
    record(SS, idx, v);
  }
  g_thr[c[v]].state = T_RUNNABLE;
}

void sleep_ns(uint64_t ns) {
  sched_point("sleep", 0);
  static char key;
  block(&key, g_now + ns, "sleep");
}

static void wait_q(uint64_t budget, uint64_t horizon, const char* cls) {
  Thread* me = t_self;
  uint64_t save_cap = g_step_cap, start = g_steps;
  // the budget is enforced through the step cap; report with the given class
  g_idle_horizon = horizon == kNever ? kNever : g_now + horizon;
  me->quiesce = true;
  static char key;
  g_step_cap = start + budget;
  if (g_step_cap > save_cap) g_step_cap = save_cap;
  (void)cls;
  block(&key, kNever, "wait-quiescent");
  me->quiesce = false;
  g_step_cap = save_cap;
  g_idle_horizon = kNever;
}
void wait_quiescent(uint64_t budget, const char* cls) { wait_q(budget, kNever, cls); }
void wait_idle(uint64_t budget, uint64_t horizon, const char* cls) { wait_q(budget, horizon, cls); }

// ---------------------------------------------------------------------- threads
static char* g_stacks;
static void alt_stack() {
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_size = 64 << 10;
  ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, nullptr);
}
static void* tramp(void* p) {
  Thread* t = (Thread*)p;
  alt_stack();
  t_self = t;
  fwait(&t->go);
  t->ret = t->fn(t->arg);
  thread_finish(t);
  return t->ret;
}
int spawn(void* (*fn)(void*), void* arg, bool detached, Thread** out) {
  if (g_nthr >= kMaxThreads) internal_error("too many threads");
  Thread* t = &g_thr[g_nthr];
  memset(t, 0, sizeof *t);
  t->id = g_nthr;
  t->state = T_RUNNABLE;
  t->deadline = kNever;
  t->fn = fn;
  t->arg = arg;
  t->detached = detached;
  t->prio = g_cfg.replay ? 0 : 100000000u + g_crng.below(100000);
  snprintf(t->name, sizeof t->name, "t%d", t->id);
  memcpy(t->vc, t_self->vc, sizeof t->vc);
  t->vc[t->id]++;
  t_self->vc[t_self->id]++;
  if (!g_stacks) g_stacks = (char*)mmap((void*)kStackBase, kStack * kMaxThreads, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_attr_t a;
  pthread_attr_init(&a);
  char* st = g_stacks + kStack * t->id;
  t->stack_lo = (uintptr_t)st;
  t->stack_hi = (uintptr_t)st + kStack;
  t->saved_sp = t->stack_lo;
  mprotect(st, 4096, PROT_NONE);
  pthread_attr_setstack(&a, st + 4096, kStack - 4096);
  typedef int (*PC)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static PC pc = (PC)real_fn("pthread_create");
  g_nthr++;
  int r = pc(&t->real, &a, tramp, t);
  if (r != 0) internal_error("pthread_create failed: %d", r);
  pthread_attr_destroy(&a);
  *out = t;
  return 0;
}
void thread_finish(Thread* t) {
  sched_point("thread-exit", t->id);
  vc_release(sync_obj(t, 1));
  t->state = T_FINISHED;
  t->saved_sp = t->stack_hi;
  for (int i = 0; i < g_nthr; i++)
    if (g_thr[i].state == T_BLOCKED && g_thr[i].key == t) g_thr[i].state = T_RUNNABLE;
  Thread* n = pick(false);
  g_switches++;
  g_cur = n;
  n->saved_sp = n->stack_lo;
  fwake(&n->go);
}

// --------------------------------------------------------------- scopes / flags
Harness::Harness() : save(0) { if (t_self) { save = t_self->ignore; t_self->ignore = 1; } }
Harness::~Harness() { if (t_self) t_self->ignore = save; }
Sut::Sut() : save(0) { if (t_self) { save = t_self->ignore; t_self->ignore = 0; } }
Sut::~Sut() { if (t_self) t_self->ignore = save; }

void Flag::set() {
  hb_release(this);
  set_ = true;
  wake_all(this);
  point("flag-set", this);
}
bool Flag::wait(uint64_t timeout_ns) {
  point("flag-wait", this);
  uint64_t d = timeout_ns == kNever ? kNever : g_now + timeout_ns;
  while (!set_) {
    if (block(this, d, "harness flag") == kTimeout && !set_) return false;
  }
  hb_acquire(this);
  return true;
}

uint64_t clock_ns(int clk) {
  constexpr uint64_t kBase = 1700000000ull * kSec;
  if (clk == CLOCK_REALTIME) return kBase + g_now + g_wall_off;
  return 1000 * kSec + g_now;
}

// ------------------------------------------------------------------------- run
static void on_signal(int sig, siginfo_t* si, void*) {
  signal(sig, SIG_DFL);
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT (abort/assert/terminate)" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGPIPE ? "SIGPIPE" : "SIGILL";
  char b[64];
  uintptr_t a = (uintptr_t)si->si_addr;
  snprintf(b, sizeof b, " at address 0x%lx", (unsigned long)a);
  Thread* t = t_self;
  if (sig == SIGSEGV && t && a >= t->stack_lo && a < t->stack_lo + 8192) violate("crash", "stack overflow");
  violate("crash", "process would die with %s%s", n, sig == SIGSEGV ? "" : "");
}

void begin_run(const RunConfig& cfg) {
  g_cfg = cfg;
  race_mode_fast = cfg.race;
  g_rng[SW].seed(cfg.seed * 3 + 0x1111);
  g_rng[SS].seed(cfg.seed * 5 + 0x2222);
  g_rng[SF].seed(cfg.seed * 7 + 0x3333);
  g_crng.seed(cfg.seed * 11 + 0x4444);
  alt_stack();
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  const int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL};
  for (int s : sigs) sigaction(s, &sa, nullptr);
  arena_init();
  race_init();
  net_reset();
  file_reset();
  memset(g_thr, 0, sizeof g_thr);
  g_nthr = 1;
  Thread* t = &g_thr[0];
  t->state = T_RUNNABLE;
  t->deadline = kNever;
  t->vc[0] = 1;
  t->ignore = 1;
  t->prio = g_cfg.replay ? 0 : 100000000u + g_crng.below(100000);
  snprintf(t->name, sizeof t->name, "main");
  t_self = t;
  g_cur = t;
  strat_init();
  g_in_sim = true;
}

}  // namespace sim
