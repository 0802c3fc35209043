// Harness toolkit shared by the worlds: threads, byte links with faults, an
// independent JSON implementation, frame parsing, token messages.
#ifndef KIT_H
#define KIT_H
#include "../sim/sim.h"
#include "../sim/file.h"
#include "../sim/net.h"

#include "dap/io.h"
#include "dap/protocol.h"
#include "dap/session.h"

#include <cstdint>
#include <deque>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace kit {
using sim::kMs;
using sim::kNever;
using sim::kSec;
using sim::kUs;
using std::string;
using std::vector;

// ------------------------------------------------------------------- scheduling
// Runs f as code under test (checked for races and bad memory accesses).
template <typename F>
auto sut(F&& f) -> decltype(f()) {
  SUT();
  return f();
}

// A dap::future that can be stored and moved around.
template <typename R>
struct Fut {
  std::unique_ptr<dap::future<R>> f;
  Fut() = default;
  explicit Fut(dap::future<R>&& x) : f(new dap::future<R>(std::move(x))) {}
  R get() { return f->get(); }
};

// A harness thread.
class Task {
 public:
  Task() = default;
  Task(const char* name, std::function<void()> f);
  Task(Task&&) = default;
  Task& operator=(Task&&) = default;
  ~Task();
  void join();
  bool joinable() const { return t && t->joinable(); }
 private:
  std::unique_ptr<std::thread> t;
};

// Arms a random subset of the given faults ("swarm testing"): every kind is in
// play in only some of the runs, at a random rate.
void swarm(std::initializer_list<sim::Fault> kinds, uint32_t max_rate = 20000);
// The scheduling faults every concurrent world uses.
void swarm_sched();

// Harness queue with happens-before edges.
template <typename T>
class HQueue {
 public:
  void put(T v) {
    HARNESS();
    q.push_back(std::move(v));
    sim::hb_release(this);
    sim::wake_all(this);
    sim::point("hq-put", this);
  }
  bool get(T* out, uint64_t timeout = kNever) {
    HARNESS();
    sim::point("hq-get", this);
    uint64_t d = timeout == kNever ? kNever : sim::now() + timeout;
    while (q.empty()) {
      if (closed) return false;
      if (sim::block(this, d, "harness queue") == sim::kTimeout && q.empty()) return false;
    }
    sim::hb_acquire(this);
    *out = std::move(q.front());
    q.pop_front();
    return true;
  }
  void close() {
    HARNESS();
    closed = true;
    sim::wake_all(this);
  }
  size_t size() const { return q.size(); }
 private:
  std::deque<T> q;
  bool closed = false;
};

// -------------------------------------------------------------------------- JSON
// Independent of the library's JSON back ends.
struct J {
  enum T { Null, Bool, Int, Dbl, Str, Arr, Obj } t = Null;
  bool b = false;
  int64_t i = 0;
  double d = 0;
  string s;
  vector<J> a;
  vector<std::pair<string, J>> o;
  J() = default;
  J(bool v) : t(Bool), b(v) {}
  J(int v) : t(Int), i(v) {}
  J(int64_t v) : t(Int), i(v) {}
  J(long long v) : t(Int), i(v) {}
  J(uint64_t v) : t(Int), i((int64_t)v) {}
  J(double v) : t(Dbl), d(v) {}
  J(const char* v) : t(Str), s(v) {}
  J(const string& v) : t(Str), s(v) {}
  static J arr() { J j; j.t = Arr; return j; }
  static J obj() { J j; j.t = Obj; return j; }
  J& set(const string& k, J v) {
    for (auto& p : o) if (p.first == k) { p.second = std::move(v); return *this; }
    o.emplace_back(k, std::move(v));
    return *this;
  }
  J& push(J v) { a.push_back(std::move(v)); return *this; }
  void erase(const string& k) {
    for (size_t n = 0; n < o.size(); n++) if (o[n].first == k) { o.erase(o.begin() + n); return; }
  }
  const J* get(const string& k) const {
    for (auto& p : o) if (p.first == k) return &p.second;
    return nullptr;
  }
  bool is(T x) const { return t == x; }
  string dump() const;
  static bool parse(const string& in, J* out);  // strict RFC 8259, whole input
  bool equals(const J&) const;                  // numbers compared by value
};
string json_string(const string& s);

// ------------------------------------------------------------------------ frames
string frame(const string& body);
// Splits a byte stream into complete frames.  Returns false when the bytes are
// not a sequence of well-formed frames; a partial last frame is left in rest.
bool split_frames(const string& bytes, vector<string>* bodies, string* rest, string* err);

// -------------------------------------------------------------------------- links
// One direction of a connection.  The write end and the read end may belong to
// different sessions or to the harness.  Like a socket, bytes written before
// the write end closes can still be read.
class Link : public std::enable_shared_from_this<Link> {
 public:
  explicit Link(const char* name) : name_(name) {}
  static std::shared_ptr<Link> make(const char* name) { return std::make_shared<Link>(name); }
  // behaviour
  size_t max_read = 0;          // cap on bytes per read (0: none)
  bool faults = true;           // consult armed LINK_* faults
  uint64_t base_delay = 0;
  int64_t fail_after = -1;      // writes fail once that many bytes were accepted
  std::set<uint64_t> fail_calls;  // these calls of write() fail, nothing is accepted
  size_t fail_part = 0;           // so many bytes of a failing call are accepted all the same
  int failed_calls = 0;
  bool stall_writes = false;    // write() blocks until unstall() or close
  bool discard_on_close = false;  // unread bytes are dropped when the writer closes
  // history
  string wire;                  // every byte accepted
  bool truncated = false;       // a write was cut by a fault (part of it accepted)
  bool write_failed = false;
  int r_closes = 0, w_closes = 0;
  uint64_t reads = 0, writes = 0, isopen_calls = 0;
  int in_read = 0, max_in_read = 0, in_write = 0, max_in_write = 0;
  std::function<void(const string&)> on_write;   // harness hook, after acceptance

  std::shared_ptr<dap::Reader> reader();
  std::shared_ptr<dap::Writer> writer();
  bool r_open();
  bool w_open();
  void r_close();
  void w_close();
  size_t read(void* buffer, size_t n);
  bool write(const void* buffer, size_t n);
  // harness side
  void inject(const string& bytes, uint64_t delay = 0);   // as if the peer wrote
  bool r_closed() const { return r_closed_; }
  bool w_closed() const { return w_closed_; }
  void eof();            // reads return 0 after the data but isOpen() stays true
  size_t unread() const;
  void unstall();
 private:
  struct Seg { uint64_t at; string d; size_t off; };
  std::deque<Seg> q;
  uint64_t last_at = 0;
  const char* name_;
  bool r_closed_ = false, w_closed_ = false, eof_ = false;
};
// Both directions joined into one dap::ReaderWriter (harness implementation).
std::shared_ptr<dap::ReaderWriter> duplex(std::shared_ptr<Link> in, std::shared_ptr<Link> out);

// A raw peer's view of frames arriving on a link (harness thread only).
class FrameReader {
 public:
  explicit FrameReader(std::shared_ptr<Link> l) : link(std::move(l)) {}
  // Blocks for the next frame; false on end of stream.
  bool next(J* out, string* raw = nullptr);
  string bad;   // set when the bytes are not well formed
 private:
  std::shared_ptr<Link> link;
  string buf;
};

// --------------------------------------------------------------------- messages
J request_msg(int64_t seq, const string& command, const J& args);
J event_msg(int64_t seq, const string& event, const J& body);
J response_msg(int64_t seq, int64_t request_seq, const string& command, const J& body);
J error_msg(int64_t seq, int64_t request_seq, const string& command, const string& message);

// A random string drawn from the workload stream: ASCII, escapes, UTF-8.
string rand_string(uint32_t max_len);
string endless_header();   // of a body longer than any memory
string rand_token(const char* prefix, int n);
// Removes timing dependence: a description of a value for messages.
string show(const string& s, size_t max = 80);

// Access check for buffers the code under test hands to the harness.
void touch(const void* p, size_t n, bool write);

// First use of the token types: their type information lives until the end of
// the process and is not a leak.  Call before sim::mark_baseline().
void warm_types();
// End-of-run checks common to all worlds.
void check_no_leaks(const char* what);
// No thread is left; ends the process as far as the library can tell, then no
// memory is left either.
void end_of_process(const char* what);
}  // namespace kit

// ------------------------------------------------------------- token message types
namespace dap {
struct TokResponse : public Response {
  integer id = 0;
  string text;
  array<integer> list;
  optional<string> opt;
};
struct TokRequest : public Request {
  using Response = TokResponse;
  integer id = 0;
  string text;
  array<integer> list;
  optional<string> opt;
};
struct Tok2Response : public Response {
  integer id = 0;
  string text;
};
struct Tok2Request : public Request {
  using Response = Tok2Response;
  integer id = 0;
  string text;
};
struct TokEvent : public Event {
  integer id = 0;
  string text;
  array<integer> list;
};
struct Tok2Event : public Event {
  integer id = 0;
  string text;
};
DAP_DECLARE_STRUCT_TYPEINFO(TokResponse);
DAP_DECLARE_STRUCT_TYPEINFO(TokRequest);
DAP_DECLARE_STRUCT_TYPEINFO(Tok2Response);
DAP_DECLARE_STRUCT_TYPEINFO(Tok2Request);
DAP_DECLARE_STRUCT_TYPEINFO(TokEvent);
DAP_DECLARE_STRUCT_TYPEINFO(Tok2Event);
}  // namespace dap
#endif
