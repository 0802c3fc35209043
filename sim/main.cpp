// simrun: runs worlds under the simulator, replays and minimises failures.
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifndef SIM_BACKEND
#define SIM_BACKEND "nlohmann"
#endif

namespace sim {
static World g_worlds[256];
static int g_nworlds;
Register::Register(const World& w) { g_worlds[g_nworlds++] = w; }
static const World* find_world(const char* n) {
  for (int i = 0; i < g_nworlds; i++)
    if (strcmp(g_worlds[i].name, n) == 0) return &g_worlds[i];
  return nullptr;
}
static double wallsec() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}
static volatile pid_t g_child;
static volatile int g_timed_out;
static int g_timeout_s = 20;      // of processor time; four times that for long runs
static double g_cpu_seen;           // at the last look
static int g_idle;                  // looks without progress since
constexpr int kLook = 3;            // seconds between looks
static void on_alarm(int) {
  // Judged by the processor time of the run, so that a busy machine makes no difference.
  pid_t p = g_child;
  clockid_t id;
  struct timespec ts;
  if (p <= 0 || clock_getcpuclockid(p, &id) || clock_gettime(id, &ts)) return;
  double cpu = ts.tv_sec + ts.tv_nsec / 1e9;
  g_idle = cpu - g_cpu_seen < 0.003 ? g_idle + 1 : 0;
  g_cpu_seen = cpu;
  if (cpu > g_timeout_s * (g_res->is_long ? 4 : 1) || g_idle * kLook >= 45) {
    g_timed_out = 1;
    kill(p, SIGKILL);
  }
}

static void run_one(const World* w, const RunConfig& cfg) {
  memset((void*)g_res, 0, offsetof(Result, choices));
  g_timed_out = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    // Linux >= 6.16: keep the global futex hash. A private one is resized as threads start, and each
    // resize pins this short-lived process' memory until a kernel worker gets to it.
    prctl(78 /* PR_FUTEX_HASH */, 1 /* SET_SLOTS */, 0, 0, 0);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    begin_run(cfg);
    w->fn();
    end_run_ok();
  }
  g_child = p;
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = it.it_interval.tv_sec = kLook;
  g_cpu_seen = 0;
  g_idle = 0;
  setitimer(ITIMER_REAL, &it, nullptr);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  memset(&it, 0, sizeof it);
  setitimer(ITIMER_REAL, &it, nullptr);
  g_child = 0;
  if (g_res->status == kRunning) {
    if (g_timed_out) {
      g_res->status = kViolation;
      snprintf(g_res->cls, sizeof g_res->cls, "hang");
      snprintf(g_res->msg, sizeof g_res->msg, "run did not end: %s outside instrumented code", g_idle ? "blocked" : "endless loop");
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      // Ended from outside (memory pressure of the machine): no verdict.
      g_res->status = kInternal;
      snprintf(g_res->cls, sizeof g_res->cls, "internal");
      snprintf(g_res->msg, sizeof g_res->msg, "run was killed from outside");
    } else {
      g_res->status = kViolation;
      snprintf(g_res->cls, sizeof g_res->cls, "crash");
      snprintf(g_res->msg, sizeof g_res->msg, "child ended unexpectedly: %s %d", WIFSIGNALED(st) ? "signal" : "exit status",
               WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    }
  }
}

static uint64_t mix(uint64_t a, uint64_t b) {
  Rng r;
  r.s = a ^ (b * 0x9e3779b97f4a7c15ull);
  r.next();
  return r.next() ^ b;
}
static uint64_t hstr(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
  return h;
}

// -------------------------------------------------------------- replay files
struct Replay {
  char world[128], backend[32], cls[96];
  uint64_t seed = 0, hash = 0;
  int race = 0;
  ChoiceRec* c[kNumStreams];
  uint32_t n[kNumStreams];
};
static void copy_choices(Replay& r) {
  for (int s = 0; s < kNumStreams; s++) {
    r.n[s] = g_res->nchoice[s];
    r.c[s] = (ChoiceRec*)malloc(sizeof(ChoiceRec) * (r.n[s] + 1));
    memcpy(r.c[s], g_res->choices[s], sizeof(ChoiceRec) * r.n[s]);
  }
}
static void jstr(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c == '\n') fputs("\\n", f);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
static void save_replay(const char* path, const Replay& r) {
  FILE* f = fopen(path, "w");
  if (!f) { perror(path); exit(3); }
  fprintf(f, "cppdap-sim-replay 1\nworld %s\nbackend %s\nrace %d\nseed %lu\nclass %s\nhash %lx\n", r.world, r.backend, r.race,
          (unsigned long)r.seed, r.cls, (unsigned long)r.hash);
  static const char nm[] = "WSF";
  for (int s = 0; s < kNumStreams; s++) {
    fprintf(f, "%c", nm[s]);
    for (uint32_t i = 0; i < r.n[s]; i++) fprintf(f, " %u:%u", r.c[s][i].idx, r.c[s][i].val);
    fprintf(f, "\n");
  }
  // human readable appendix
  fprintf(f, "# violation: %s\n", g_res->cls);
  const char* m = g_res->msg;
  fprintf(f, "# ");
  for (; *m; m++) { fputc(*m, f); if (*m == '\n' && m[1]) fprintf(f, "# "); }
  fprintf(f, "\n# last events:\n");
  uint64_t b = g_res->ringpos > 160 ? g_res->ringpos - 160 : 0;
  for (uint64_t i = b; i < g_res->ringpos; i++) {
    const LogRec& l = g_res->ring[i % kRing];
    fprintf(f, "#   %12.3fus T%d %s", l.t / 1000.0, l.tid, l.what);
    if (l.obj) fprintf(f, " #%u", l.obj);
    fputc('\n', f);
  }
  fclose(f);
}
static bool load_replay(const char* path, Replay& r) {
  FILE* f = fopen(path, "r");
  if (!f) { perror(path); return false; }
  char* line = nullptr;
  size_t cap = 0;
  memset(r.n, 0, sizeof r.n);
  for (int s = 0; s < kNumStreams; s++) r.c[s] = nullptr;
  while (getline(&line, &cap, f) > 0) {
    unsigned long x;
    if (sscanf(line, "world %127s", r.world) == 1) continue;
    if (sscanf(line, "backend %31s", r.backend) == 1) continue;
    if (sscanf(line, "race %d", &r.race) == 1) continue;
    if (sscanf(line, "seed %lu", &x) == 1) { r.seed = x; continue; }
    if (sscanf(line, "class %95s", r.cls) == 1) continue;
    if (sscanf(line, "hash %lx", &x) == 1) { r.hash = x; continue; }
    const char* nm = "WSF";
    const char* q = strchr(nm, line[0]);
    if (line[0] != '#' && q && (line[1] == ' ' || line[1] == '\n')) {
      int s = (int)(q - nm);
      r.c[s] = (ChoiceRec*)malloc(sizeof(ChoiceRec) * (strlen(line) / 4 + 4));
      char* p = line + 1;
      unsigned a, b;
      int k;
      while (sscanf(p, " %u:%u%n", &a, &b, &k) == 2) {
        r.c[s][r.n[s]].idx = a;
        r.c[s][r.n[s]].val = b;
        r.n[s]++;
        p += k;
      }
    }
  }
  fclose(f);
  return true;
}
static void run_replay(const World* w, const Replay& r, bool verbose) {
  RunConfig c;
  c.seed = r.seed;
  c.replay = true;
  c.race = r.race;
  c.verbose = verbose;
  for (int s = 0; s < kNumStreams; s++) {
    c.rc[s] = r.c[s];
    c.nrc[s] = r.n[s];
  }
  run_one(w, c);
}
static bool same(const Replay& r) { return g_res->status == kViolation && strcmp(g_res->cls, r.cls) == 0; }

static void minimise(const World* w, Replay& r, double budget) {
  double end = wallsec() + budget;
  auto try_it = [&](int s, ChoiceRec* c, uint32_t n) {
    ChoiceRec* oc = r.c[s];
    uint32_t on = r.n[s];
    r.c[s] = c;
    r.n[s] = n;
    run_replay(w, r, false);
    if (same(r)) {
      // keep what the run really consumed
      Replay k;
      copy_choices(k);
      for (int i = 0; i < kNumStreams; i++) { r.c[i] = k.c[i]; r.n[i] = k.n[i]; }
      return true;
    }
    r.c[s] = oc;
    r.n[s] = on;
    return false;
  };
  const int order[] = {SF, SS, SW};
  for (int round = 0; round < 3; round++) {
    uint32_t before = r.n[0] + r.n[1] + r.n[2];
    for (int s : order) {
      if (r.n[s] == 0) continue;
      if (try_it(s, (ChoiceRec*)malloc(8), 0)) continue;
      for (uint32_t chunk = (r.n[s] + 1) / 2; chunk >= 1 && wallsec() < end; chunk = chunk == 1 ? 0 : (chunk + 1) / 2) {
        for (uint32_t i = 0; i < r.n[s] && wallsec() < end;) {
          uint32_t k = chunk;
          if (i + k > r.n[s]) k = r.n[s] - i;
          ChoiceRec* c = (ChoiceRec*)malloc(sizeof(ChoiceRec) * (r.n[s] + 1));
          memcpy(c, r.c[s], sizeof(ChoiceRec) * i);
          memcpy(c + i, r.c[s] + i + k, sizeof(ChoiceRec) * (r.n[s] - i - k));
          uint32_t n0 = r.n[s];
          if (!try_it(s, c, r.n[s] - k) || r.n[s] >= n0) i += k;
          free(c);
        }
        if (chunk == 0) break;
      }
    }
    if (r.n[0] + r.n[1] + r.n[2] >= before || wallsec() > end) break;
  }
  run_replay(w, r, false);
  if (!same(r)) { fprintf(stderr, "minimise: lost the violation\n"); exit(3); }
  r.hash = g_res->loghash;
}

// ------------------------------------------------------------------------ main
struct HashSet {
  uint64_t* v = nullptr;
  size_t cap = 0, n = 0;
  bool add(uint64_t x) {
    if (x == 0) x = 1;
    if ((n + 1) * 2 > cap) {
      size_t oc = cap;
      uint64_t* ov = v;
      cap = cap ? cap * 2 : 4096;
      v = (uint64_t*)calloc(cap, 8);
      n = 0;
      for (size_t i = 0; i < oc; i++) if (ov[i]) add(ov[i]);
      free(ov);
    }
    size_t i = (x * 0x9e3779b97f4a7c15ull) & (cap - 1);
    while (v[i]) {
      if (v[i] == x) return false;
      i = (i + 1) & (cap - 1);
    }
    v[i] = x;
    n++;
    return true;
  }
};

static int cmd_run(int argc, char** argv) {
  const char *world = "", *out = nullptr, *hashes = nullptr, *rdir = ".";
  uint64_t seed0 = 1, start = 0, count = 100;
  int cpu = -1, racemod = 2, audit = 0, stride = 1;
  double maxsec = 1e9, minbudget = 20;
  for (int i = 0; i + 1 < argc; i += 2) {
    const char* k = argv[i];
    const char* v = argv[i + 1];
    if (!strcmp(k, "--world")) world = v;
    else if (!strcmp(k, "--seed")) seed0 = strtoull(v, 0, 10);
    else if (!strcmp(k, "--start")) start = strtoull(v, 0, 10);
    else if (!strcmp(k, "--count")) count = strtoull(v, 0, 10);
    else if (!strcmp(k, "--stride")) stride = atoi(v);
    else if (!strcmp(k, "--cpu")) cpu = atoi(v);
    else if (!strcmp(k, "--racemod")) racemod = atoi(v);
    else if (!strcmp(k, "--maxsec")) maxsec = atof(v);
    else if (!strcmp(k, "--minsec")) minbudget = atof(v);
    else if (!strcmp(k, "--out")) out = v;
    else if (!strcmp(k, "--hashes")) hashes = v;
    else if (!strcmp(k, "--replay-dir")) rdir = v;
    else if (!strcmp(k, "--audit")) audit = atoi(v);
    else if (!strcmp(k, "--timeout")) g_timeout_s = atoi(v);
    else { fprintf(stderr, "unknown option %s\n", k); return 3; }
  }
  const World* w = find_world(world);
  if (!w) { fprintf(stderr, "no world %s\n", world); return 3; }
  if (cpu >= 0) {
    cpu_set_t cs;
    CPU_ZERO(&cs);
    CPU_SET(cpu, &cs);
    sched_setaffinity(0, sizeof cs, &cs);
  }
  double t0 = wallsec();
  uint64_t runs = 0, steps = 0, points = 0, sw = 0, acc = 0, allocs = 0, maxthr = 0, raceruns = 0, audited = 0, nontrivial = 0;
  double simtime = 0;
  uint64_t faults[kNumFaults] = {0}, fruns[kNumFaults] = {0};
  static struct { char name[40]; uint64_t n, runs; } probes[512];
  int nprobes = 0;
  HashSet il, lg;
  static char samples[8][1024];
  int nsamples = 0;
  int rc = 0;
  char rpath[512] = "", vcls[96] = "", vmsg[4096] = "";
  uint64_t vseed = 0, vrun = 0;
  for (uint64_t k = 0; k < count && wallsec() - t0 < maxsec; k++) {
    uint64_t i = start + k * stride;
    RunConfig c;
    c.seed = mix(mix(seed0, hstr(world)), i);
    c.race = racemod > 0 && i % racemod == 0;
    run_one(w, c);
    if (g_res->status == kOk && audit && k % audit == 0) {
      uint64_t h = g_res->loghash, ih = g_res->ilhash, st = g_res->steps;
      run_one(w, c);
      audited++;
      if (g_res->status != kOk || g_res->loghash != h || g_res->ilhash != ih || g_res->steps != st) {
        fprintf(stderr, "NONDETERMINISM world=%s run=%lu seed=%lu\n", world, (unsigned long)i, (unsigned long)c.seed);
        return 2;
      }
    }
    runs++;
    raceruns += c.race;
    steps += g_res->steps;
    points += g_res->points;
    sw += g_res->switches;
    acc += g_res->accesses;
    allocs += g_res->allocs;
    simtime += g_res->simtime / 1e9;
    if (g_res->threads > maxthr) maxthr = g_res->threads;
    uint64_t fsum = 0;
    for (int f = 0; f < kNumFaults; f++) {
      faults[f] += g_res->faults[f];
      fruns[f] += g_res->faults[f] != 0;
      fsum += g_res->faults[f];
    }
    bool nt = g_res->switches > 2 || fsum > 0;
    nontrivial += nt;
    lg.add(g_res->loghash);
    if (nt) il.add(g_res->ilhash);
    for (uint32_t p = 0; p < g_res->nprobes; p++) {
      int j = 0;
      while (j < nprobes && strcmp(probes[j].name, g_res->probes[p].name)) j++;
      if (j == nprobes && nprobes < 512) { memcpy(probes[nprobes].name, g_res->probes[p].name, 40); nprobes++; }
      if (j < 512) { probes[j].n += g_res->probes[p].n; probes[j].runs++; }
    }
    if (nsamples < 8 && g_res->notes_len && k % 7 == 0) {
      snprintf(samples[nsamples++], sizeof samples[0], "run %lu: %.900s", (unsigned long)i, g_res->notes);
    }
    if (g_res->status != kOk) {
      if (g_res->status == kInternal) {
        fprintf(stderr, "INTERNAL world=%s run=%lu: %s\n", world, (unsigned long)i, g_res->msg);
        return 2;
      }
      Replay r;
      snprintf(r.world, sizeof r.world, "%s", world);
      snprintf(r.backend, sizeof r.backend, "%s", SIM_BACKEND);
      snprintf(r.cls, sizeof r.cls, "%s", g_res->cls);
      r.seed = c.seed;
      r.race = c.race;
      r.hash = g_res->loghash;
      copy_choices(r);
      snprintf(rpath, sizeof rpath, "%s/%s-%s-%lu.replay", rdir, SIM_BACKEND, world, (unsigned long)i);
      uint64_t h = g_res->loghash;
      bool hang = !strcmp(g_res->cls, "hang") || !strncmp(g_res->msg, "child ended", 11);
      // gate 1: the same seed gives the same execution
      run_one(w, c);
      if (!strcmp(r.cls, "hang") && g_res->status == kOk) continue;   // the machine was slow
      if (!same(r) || (!hang && g_res->loghash != h)) {
        fprintf(stderr, "NONDETERMINISM world=%s run=%lu class=%s: rerun gave status %d class %s hash %lx vs %lx\n", world, (unsigned long)i, r.cls,
                g_res->status, g_res->cls, (unsigned long)g_res->loghash, (unsigned long)h);
        return 2;
      }
      // gate 2: the recorded choices alone reproduce it
      if (!g_res->overflow && !hang) {
        run_replay(w, r, false);
        if (!same(r)) {
          fprintf(stderr, "NONDETERMINISM world=%s run=%lu class=%s: replay of recorded choices gave status %d class %s\n", world, (unsigned long)i, r.cls,
                  g_res->status, g_res->cls);
          return 2;
        }
        uint32_t b = r.n[0] + r.n[1] + r.n[2];
        minimise(w, r, minbudget);
        fprintf(stderr, "minimised %s: %u -> %u choices\n", rpath, b, r.n[0] + r.n[1] + r.n[2]);
      }
      save_replay(rpath, r);
      snprintf(vcls, sizeof vcls, "%s", g_res->cls);
      snprintf(vmsg, sizeof vmsg, "%s", g_res->msg);
      vseed = c.seed;
      vrun = i;
      rc = 1;
      break;
    }
  }
  double dt = wallsec() - t0;
  if (hashes) {
    FILE* f = fopen(hashes, "wb");
    for (size_t i = 0; i < il.cap; i++)
      if (il.v[i]) fwrite(&il.v[i], 8, 1, f);
    fclose(f);
  }
  FILE* f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\"world\":\"%s\",\"backend\":\"%s\",\"runs\":%lu,\"seconds\":%.3f,\"steps\":%lu,\"points\":%lu,\"switches\":%lu,\"accesses\":%lu,\"allocs\":%lu,\"sim_seconds\":%.6f,\"max_threads\":%lu,\"race_runs\":%lu,\"audited\":%lu,\"nontrivial\":%lu,\"distinct_interleavings\":%zu,\"distinct_histories\":%zu,\n\"faults\":{",
          world, SIM_BACKEND, (unsigned long)runs, dt, (unsigned long)steps, (unsigned long)points, (unsigned long)sw, (unsigned long)acc, (unsigned long)allocs,
          simtime, (unsigned long)maxthr, (unsigned long)raceruns, (unsigned long)audited, (unsigned long)nontrivial, il.n, lg.n);
  bool first = true;
  for (int i = 0; i < kNumFaults; i++)
    if (faults[i]) {
      fprintf(f, "%s\"%s\":[%lu,%lu]", first ? "" : ",", kFaultNames[i], (unsigned long)faults[i], (unsigned long)fruns[i]);
      first = false;
    }
  fprintf(f, "},\n\"probes\":{");
  for (int i = 0; i < nprobes; i++) {
    if (i) fputc(',', f);
    jstr(f, probes[i].name);
    fprintf(f, ":[%lu,%lu]", (unsigned long)probes[i].n, (unsigned long)probes[i].runs);
  }
  fprintf(f, "},\n\"samples\":[");
  for (int i = 0; i < nsamples; i++) { if (i) fputc(',', f); jstr(f, samples[i]); }
  fprintf(f, "],\n\"violation\":");
  if (rc == 1) {
    fprintf(f, "{\"run\":%lu,\"seed\":%lu,\"class\":", (unsigned long)vrun, (unsigned long)vseed);
    jstr(f, vcls);
    fprintf(f, ",\"message\":");
    jstr(f, vmsg);
    fprintf(f, ",\"replay\":");
    jstr(f, rpath);
    fprintf(f, "}");
  } else {
    fprintf(f, "null");
  }
  fprintf(f, "}\n");
  if (out) fclose(f);
  return rc;
}

static int cmd_replay(int argc, char** argv) {
  if (argc < 1) return 3;
  Replay r;
  if (!load_replay(argv[0], r)) return 3;
  bool v = argc > 1 && !strcmp(argv[1], "-v");
  const World* w = find_world(r.world);
  if (!w) { fprintf(stderr, "no world %s\n", r.world); return 3; }
  if (strcmp(r.backend, SIM_BACKEND)) fprintf(stderr, "note: recorded with backend %s, replaying with %s\n", r.backend, SIM_BACKEND);
  run_replay(w, r, v);
  if (g_res->status == kViolation) {
    printf("REPRODUCED class=%s hash=%lx expected_class=%s expected_hash=%lx match=%d\n%s\n", g_res->cls, (unsigned long)g_res->loghash, r.cls,
           (unsigned long)r.hash, !strcmp(g_res->cls, r.cls) && g_res->loghash == r.hash, g_res->msg);
    return 1;
  }
  if (g_res->status == kInternal) { printf("INTERNAL %s\n", g_res->msg); return 2; }
  printf("NOT-REPRODUCED (run ended normally, hash=%lx)\n", (unsigned long)g_res->loghash);
  return 0;
}
static int cmd_one(int argc, char** argv) {
  if (argc < 3) return 3;
  const World* w = find_world(argv[0]);
  if (!w) return 3;
  RunConfig c;
  uint64_t i = strtoull(argv[2], 0, 10);
  c.seed = mix(mix(strtoull(argv[1], 0, 10), hstr(argv[0])), i);
  c.race = i % 2 == 0;
  c.verbose = argc > 3;
  run_one(w, c);
  printf("status=%d class=%s hash=%lx steps=%lu simtime=%.6f\n%s\n%s\n", g_res->status, g_res->cls, (unsigned long)g_res->loghash, (unsigned long)g_res->steps,
         g_res->simtime / 1e9, g_res->msg, g_res->notes);
  return g_res->status == kOk ? 0 : 1;
}
}  // namespace sim

using namespace sim;
int main(int argc, char** argv) {
  // fixed addresses: nothing in a run may depend on them, and nothing can
  if (!getenv("SIM_NO_REEXEC")) {
    int p = personality(0xffffffff);
    if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) {
      setenv("SIM_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  g_res = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (g_res == MAP_FAILED) return 3;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, nullptr);
  if (argc < 2) { fprintf(stderr, "usage: simrun list|run|replay|one ...\n"); return 3; }
  if (!strcmp(argv[1], "list")) {
    for (int i = 0; i < g_nworlds; i++) printf("%s\t%s\t%s\n", g_worlds[i].property, g_worlds[i].name, g_worlds[i].about);
    return 0;
  }
  if (!strcmp(argv[1], "run")) return cmd_run(argc - 2, argv + 2);
  if (!strcmp(argv[1], "replay")) return cmd_replay(argc - 2, argv + 2);
  if (!strcmp(argv[1], "one")) return cmd_one(argc - 2, argv + 2);
  return 3;
}
