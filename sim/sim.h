// Deterministic simulator for cppdap: public interface used by the worlds.
//
// One run = one forked child process.  Real pthreads are created for the code
// under test but exactly one of them holds the token at any time; every hand
// over of the token is a recorded choice.  All blocking, all time, all sockets,
// all FILE I/O and all heap memory of the run belong to the simulator.
#ifndef SIM_H
#define SIM_H
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>

namespace sim {

constexpr int kMaxThreads = 64;
constexpr uint64_t kNever = ~0ull;
constexpr uint64_t kUs = 1000ull, kMs = 1000000ull, kSec = 1000000000ull;

// ---------------------------------------------------------------- fault kinds
#define SIM_FAULTS(X)                                                          \
  X(SPURIOUS_WAKE) X(TIME_STALL) X(CLOCK_JUMP) X(THREAD_STALL)                 \
  X(LINK_SHORT_READ) X(LINK_DELAY) X(LINK_WRITE_FAIL) X(LINK_WRITE_PARTIAL)    \
  X(LINK_WRITE_BLOCK) X(LINK_PEER_CLOSE) X(LINK_TRUNCATE) X(LINK_LOCAL_CLOSE)  \
  X(LINK_GARBAGE) X(LINK_SEGMENT)                                              \
  X(NET_SHORT_RECV) X(NET_DELAY) X(NET_EINTR_RECV) X(NET_EINTR_SEND)           \
  X(NET_SHORT_SEND) X(NET_SNDBUF_FULL) X(NET_RST) X(NET_FIN)                   \
  X(NET_REFUSED) X(NET_UNREACH) X(NET_SYN_DROP) X(NET_SLOW_HANDSHAKE)          \
  X(NET_ACCEPT_ERR) X(NET_ACCEPT_EINTR) X(NET_ACCEPT_ABORT) X(NET_SOCKET_EMFILE) X(NET_ADDR_INUSE) \
  X(NET_DNS_FAIL) X(NET_SELECT_EINTR) X(NET_LISTEN_FAIL)                       \
  X(FILE_SHORT_READ) X(FILE_DELAY) X(FILE_EOF) X(FILE_EIO_READ)                \
  X(FILE_EINTR_READ) X(FILE_ENOSPC) X(FILE_EIO_WRITE) X(FILE_SHORT_WRITE)      \
  X(FILE_OPEN_FAIL)                                                            \
  X(PEER_DUP) X(PEER_REORDER) X(PEER_UNKNOWN) X(PEER_MALFORMED)                \
  X(PEER_DROP) X(PEER_GARBAGE) X(PEER_STALL)                                   \
  X(HANDLER_SLOW) X(HANDLER_ASYNC) X(TEARDOWN_RACE)
enum Fault {
#define X(n) n,
  SIM_FAULTS(X)
#undef X
      kNumFaults
};
extern const char* const kFaultNames[kNumFaults];

// -------------------------------------------------------------- choice streams
// W: workload, S: schedule, F: faults.  Every value is a pure function of the
// seed (or of the replay file); 0 is always the "simplest" choice.
enum Stream { SW, SS, SF, kNumStreams };
uint32_t W(uint32_t n);               // workload choice in [0,n)
uint64_t W64();                       // 64 workload bits
inline bool Wp(uint32_t num, uint32_t den) {  // workload coin; 0 == "no"
  return W(den) >= den - num;
}
uint32_t F(uint32_t n);               // fault parameter in [0,n)
// Arms a fault kind for this run with a rate in parts per 100000.
void arm(Fault k, uint32_t rate);
bool armed(Fault k);
bool fault(Fault k);                  // flips the armed coin, counts when it fires
void count_fault(Fault k);            // fault injected by the workload itself
void disarm_all();                    // faults stop
// ----------------------------------------------------------------------- time
uint64_t now();                       // simulated ns (monotonic)
int64_t wall_offset();
void jump_wall(int64_t delta_ns);
void sleep_ns(uint64_t ns);           // simulated sleep of the calling thread
// ------------------------------------------------------------------ scheduling
void point(const char* what, const void* obj = nullptr);  // a scheduling point
enum Wake { kWoken, kTimeout };
Wake block(const void* key, uint64_t deadline, const char* why);
void wake_all(const void* key);
void wake_one(const void* key);
int self_id();
int live_threads();                   // threads other than main that have not ended
void name_thread(const char* n);
// Blocks the calling thread until no other thread can run and no timer is
// pending (a state from which nothing more can happen by itself), or violates
// class `cls` with a livelock if that takes more than `budget` steps.
void wait_quiescent(uint64_t budget, const char* cls);
// As wait_quiescent, but timers further away than `horizon` ns are ignored.
void wait_idle(uint64_t budget, uint64_t horizon, const char* cls);
// A run with very many steps: few preemptions, no race detection, freed memory is
// used again after a while.  To be called first.
void long_run(uint64_t step_cap, bool many_preemptions = false);
void fair();                          // switch to the fair scheduler (liveness phase)
uint64_t steps();
// --------------------------------------------------- happens-before for harness
void hb_release(const void* key);
void hb_acquire(const void* key);
// ------------------------------------------------------------------- reporting
[[noreturn]] void violate(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal_error(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char* name);         // "this rare condition was hit"
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // sample text
bool race_mode();
bool verbose();
// --------------------------------------------------------------- memory / leaks
size_t live_sut_blocks();             // live heap blocks allocated in SUT scope
void mark_baseline();                 // later leak reports ignore earlier blocks
// Reports blocks allocated by the code under test after mark_baseline() and
// still alive.  Returns their number; fills `where` with a symbolised site.
size_t leaked_blocks(char* where, size_t n);

// Runs the destructors of the function statics created in SUT scope, as the end
// of the process would.
void run_exit_handlers();

// Scope markers.  Plain memory accesses are only race/UAF-checked inside the
// code under test; harness bookkeeping runs in Harness scope.
struct Harness {
  Harness();
  ~Harness();
  int save;
};
struct Sut {
  Sut();
  ~Sut();
  int save;
};

// ------------------------------------------------------- harness sync primitives
// A latch/event usable from harness scope; creates happens-before edges like
// the synchronisation a real caller would use.
class Flag {
 public:
  void set();
  bool is_set() const { return set_; }
  bool wait(uint64_t timeout_ns = kNever);  // true if set
  void clear() { set_ = false; }
 private:
  bool set_ = false;
};

// ------------------------------------------------------------------------ world
struct World {
  const char* name;
  const char* property;
  void (*fn)();
  const char* about;
};
struct Register {
  explicit Register(const World& w);
};

}  // namespace sim

#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define HARNESS() ::sim::Harness SIM_CAT(harness_scope_, __LINE__)
#define SUT() ::sim::Sut SIM_CAT(sut_scope_, __LINE__)
#define WORLD(PROP, NAME, ABOUT)                                        \
  static void NAME();                                                   \
  static ::sim::Register SIM_CAT(reg_, NAME)({#NAME, PROP, NAME, ABOUT}); \
  static void NAME()

#endif
