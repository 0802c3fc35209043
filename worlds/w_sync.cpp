// The synchronisation building blocks: future/promise, RWMutex, Chan.
#include "kit.h"
#include "chan.h"
#include "rwmutex.h"
#include "dap/future.h"
#include <chrono>
using namespace kit;

namespace {
struct Val {
  int64_t id = -1;
  string text;
  int64_t check = 0;
};
Val make_val(int64_t id) { Val v; v.id = id; v.text = "v" + std::to_string(id) + string(id % 50, 'x'); v.check = ~id; return v; }
bool good(const Val& v, int64_t id) { Val e = make_val(id); return v.id == e.id && v.text == e.text && v.check == e.check; }

void one_future() {
  dap::promise<Val> p;
  int64_t id = sim::W(1000);
  int waiters = 1 + sim::W(4);
  bool will_set = sim::W(8) != 0;
  uint64_t set_at = (uint64_t)sim::W(80) * kMs;
  uint64_t set_begin = kNever, set_end = kNever;
  vector<std::unique_ptr<dap::future<Val>>> fs;
  for (int w = 0; w < waiters; w++) fs.emplace_back(new dap::future<Val>(sut([&] { return p.get_future(); })));
  vector<Task> ts;
  if (will_set) {
    // the setting side owns a copy of the promise, as a request handler does
    dap::promise<Val> copy = sut([&] { return dap::promise<Val>(p); });
    bool move = sim::W(2), drop = sim::W(2);
    auto holder = std::make_shared<dap::promise<Val>>(std::move(copy));
    ts.emplace_back("setter", [&, move, drop, holder, id, set_at]() mutable {
      sim::sleep_ns(set_at);
      Val v = make_val(id);
      set_begin = sim::now();
      sut([&] {
        if (move) holder->set_value(std::move(v));
        else holder->set_value(v);
      });
      set_end = sim::now();
      if (drop) sut([&] { holder.reset(); });
    });
    (void)copy;
  }
  bool jumps = sim::W(3) == 0;
  bool system_waits = false;
  for (int w = 0; w < waiters; w++) {
    int kind = will_set ? sim::W(6) : 2 + sim::W(4);
    uint64_t dur = (uint64_t)sim::W(100) * kMs;
    if (sim::W(6) == 0) dur = sim::W(2) ? 0 : 3600 * kSec;
    else if (sim::W(4) == 0) dur = sim::W(2000) * kUs;
    if (kind >= 4) system_waits = true;
    ts.emplace_back("waiter", [&, w, kind, dur] {
      auto& f = *fs[w];
      if (!f.valid()) sim::violate("invalid", "a future obtained from a promise is not valid");
      using namespace std::chrono;
      if (kind == 0) {
        Val v = sut([&] { return f.get(); });
        if (set_begin == kNever) sim::violate("early", "get() returned before the value was set");
        if (!good(v, id)) sim::violate("wrong-value", "get() returned id %ld, %ld was set", (long)v.id, (long)id);
        return;
      }
      if (kind == 1) {
        sut([&] { f.wait(); });
        if (set_begin == kNever) sim::violate("early", "wait() returned before the value was set");
      } else {
        uint64_t t0 = sim::now();
        int64_t w0 = sim::wall_offset();
        bool set_before = set_end != kNever;
        dap::future_status st;
        if (kind == 2) st = sut([&] { return f.wait_for(nanoseconds(dur)); });
        else if (kind == 3) st = sut([&] { return f.wait_until(steady_clock::now() + nanoseconds(dur)); });
        else if (kind == 4) st = sut([&] { return f.wait_until(system_clock::now() + nanoseconds(dur)); });
        else st = sut([&] { return f.wait_for(duration_cast<microseconds>(nanoseconds(dur))); });
        uint64_t el = sim::now() - t0;
        bool wall = kind == 4 && (jumps || sim::wall_offset() != w0);
        if (st == dap::future_status::ready) {
          if (set_begin == kNever) sim::violate("early", "a timed wait returned ready before the value was set");
        } else {
          if (set_before) sim::violate("missed", "a timed wait timed out although the value had been set before it began");
          if (!wall && el < dur) sim::violate("early-timeout", "a timed wait of %lu us timed out after %lu us", (unsigned long)(dur / 1000), (unsigned long)(el / 1000));
          if (!wall && set_end != kNever && set_end < t0 + dur) sim::violate("missed", "a timed wait of %lu us timed out although the value was set %lu us before its end", (unsigned long)(dur / 1000), (unsigned long)((t0 + dur - set_end) / 1000));
        }
        if (!wall && !sim::armed(sim::TIME_STALL)) {
          uint64_t end = t0 + dur;
          if (set_end != kNever && set_end < end) end = set_end > t0 ? set_end : t0;
          if (sim::now() > end + 500 * kMs) sim::violate("late", "a timed wait of %lu us returned %lu us late", (unsigned long)(dur / 1000), (unsigned long)((sim::now() - end) / 1000));
        }
        if (st != dap::future_status::ready) return;
      }
      // ready: every further wait and get returns at once, with the value
      uint64_t t1 = sim::now();
      if (sim::W(2) == 0 && sut([&] { return f.wait_for(std::chrono::seconds(5)); }) != dap::future_status::ready) sim::violate("unset", "a ready future timed out in a later wait");
      Val v = sut([&] { return f.get(); });
      if (!good(v, id)) sim::violate("wrong-value", "get() returned id %ld, %ld was set", (long)v.id, (long)id);
      if (!sim::armed(sim::TIME_STALL) && sim::now() - t1 > 100 * kMs) sim::violate("late", "get() on a ready future took %lu ms", (unsigned long)((sim::now() - t1) / kMs));
    });
  }
  if (jumps && system_waits)
    ts.emplace_back("clock", [&] {
      for (int k = 0; k < 3; k++) {
        sim::sleep_ns(sim::W(50) * kMs);
        sim::count_fault(sim::CLOCK_JUMP);
        int64_t by = ((int64_t)sim::W(4000) - 2000) * (int64_t)kMs;
        sim::jump_wall(by);
      }
    });
  if (sim::W(2)) { dap::promise<Val> gone = std::move(p); sut([&] { dap::promise<Val> g2(std::move(gone)); (void)g2; }); }
  for (auto& t : ts) t.join();
  sim::note("waiters=%d set=%d", waiters, (int)will_set);
  sut([&] { fs.clear(); });
}
}  // namespace

WORLD("P13", future_waits, "get/wait/wait_for/wait_until against set_value at a random moment, clock jumps") {
  swarm_sched();
  sim::mark_baseline();
  int n = 1 + sim::W(2);
  for (int k = 0; k < n; k++) one_future();
}

// The same through a session: the futures send() returns.
WORLD("P13", future_session, "timed waits on the futures of requests; answers early, late or never; futures dropped") {
  swarm_sched();
  swarm({sim::LINK_DELAY, sim::LINK_SEGMENT}, 60000);
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  sut([&] {
    s = dap::Session::create();
    s->bind(in->reader(), out->writer());
  });
  int n = 1 + sim::W(6);
  struct Q { uint64_t delay; bool answer, err; string text; uint64_t answered_at; };
  vector<Q> qs(n);
  for (auto& q : qs) q = {(uint64_t)sim::W(60) * kMs, sim::W(6) != 0, sim::W(4) == 0, "t" + rand_string(20), kNever};
  Task peer("peer", [&] {
    FrameReader fr(out);
    J m;
    while (fr.next(&m)) {
      const J* a = m.get("arguments");
      if (!a || !a->get("id")) sim::violate("bad-request", "request without its argument: %s", show(m.dump()).c_str());
      int64_t id = a->get("id")->i;
      int64_t seq = m.get("seq")->i;
      auto& q = qs[id];
      if (!q.answer) { sim::count_fault(sim::PEER_DROP); continue; }
      string b = q.err ? error_msg(seq + 1000, seq, "tok", q.text).dump() : response_msg(seq + 1000, seq, "tok", J::obj().set("id", id * 7).set("text", q.text).set("list", J::arr())).dump();
      q.answered_at = sim::now() + q.delay;
      in->inject(frame(b), q.delay);
    }
  });
  vector<Task> ts;
  for (int k = 0; k < n; k++)
    ts.emplace_back("client", [&, k] {
      dap::TokRequest r;
      r.id = k;
      auto f = std::make_shared<Fut<dap::ResponseOrError<dap::TokResponse>>>(sut([&] { return s->send(r); }));
      if (sim::W(5) == 0) { sut([&] { f->f.reset(); }); return; }   // caller gives up at once
      uint64_t dur = (uint64_t)sim::W(100) * kMs;
      auto st = sut([&] { return f->f->wait_for(std::chrono::nanoseconds(dur)); });
      if (st == dap::future_status::timeout) {
        if (sim::W(2) || !qs[k].answer) { sut([&] { f->f.reset(); }); return; }
      } else if (!qs[k].answer) {
        sim::violate("early", "the future of request %d is ready but was never answered", k);
      }
      auto v = sut([&] { return f->get(); });
      if (sim::now() < qs[k].answered_at) sim::violate("early", "the future of request %d was ready before the answer was sent", k);
      if (qs[k].err != (bool)v.error) sim::violate("wrong-value", "request %d: expected %s", k, qs[k].err ? "an error" : "a response");
      if (qs[k].err ? v.error.message != qs[k].text : (v.response.id != k * 7 || v.response.text != qs[k].text)) sim::violate("wrong-value", "request %d got a wrong answer", k);
      sut([&] { f->f.reset(); });
    });
  for (auto& t : ts) t.join();
  sut([&] { s.reset(); });
  peer.join();
  sim::note("n=%d", n);
}

// ----------------------------------------------------------------------- RWMutex
WORLD("P25", rwmutex_exclusion, "readers and writers on one RWMutex; shared data; every waiter gets its turn") {
  swarm_sched();
  auto mp = std::make_shared<dap::RWMutex>();
  auto& m = *mp;
  struct Data { int64_t a = 0, b = 0; string s; };
  auto d = std::make_shared<Data>();
  int readers = 0, writers = 0, max_readers = 0;
  int64_t writes = 0;
  bool crowd = sim::W(8) == 0;
  int nr = crowd ? 6 + sim::W(12) : 1 + sim::W(3), nw = 1 + sim::W(3);
  auto enter = [&](bool wr) {
    if (wr ? readers > 0 || writers > 0 : writers > 0) sim::violate("exclusion", "a %s entered while %d readers and %d writers hold the lock", wr ? "writer" : "reader", readers, writers);
    (wr ? writers : readers)++;
    if (readers > max_readers) max_readers = readers;
  };
  auto leave = [&](bool wr) { (wr ? writers : readers)--; };
  auto hold = [&](const char* w) {
    for (int k = sim::W(4); k > 0; k--) sim::point(w, d.get());
    if (sim::W(crowd ? 2 : 5) == 0) sim::sleep_ns(sim::W(20) * kMs);
  };
  vector<Task> ts;
  for (int r = 0; r < nr; r++)
    ts.emplace_back("reader", [&] {
      int rounds = 1 + sim::W(5);
      for (int k = 0; k < rounds; k++) {
        SUT();
        if (sim::W(2)) {
          m.lockReader();
          { HARNESS(); enter(false); hold("hold-r"); }
          int64_t x = d->a, y = d->b;
          { HARNESS(); if (x != y) sim::violate("torn", "a reader saw a half-done write (%ld, %ld)", (long)x, (long)y); leave(false); }
          m.unlockReader();
        } else {
          dap::RLock l0(m);
          dap::RLock l(std::move(l0));
          l0 = std::move(l);
          l = std::move(l0);
          { HARNESS(); enter(false); hold("hold-r"); }
          size_t z = d->s.size();
          int64_t x = d->a;
          { HARNESS(); if ((int64_t)z != x % 20) sim::violate("torn", "a reader saw a half-done write"); leave(false); }
        }
      }
    });
  for (int w = 0; w < nw; w++)
    ts.emplace_back("writer", [&] {
      int rounds = 1 + sim::W(4);
      for (int k = 0; k < rounds; k++) {
        SUT();
        bool raii = sim::W(2);
        std::unique_ptr<dap::WLock> l;
        if (raii) { dap::WLock l0(m); l.reset(new dap::WLock(std::move(l0))); l0 = std::move(*l); *l = std::move(l0); }
        else m.lockWriter();
        { HARNESS(); enter(true); hold("hold-w"); }
        d->a++;
        { HARNESS(); hold("hold-w"); }
        d->b++;
        d->s = string(d->a % 20, 'w');
        { HARNESS(); writes++; leave(true); }
        if (raii) l.reset();
        else m.unlockWriter();
      }
    });
  for (auto& t : ts) t.join();
  if (d->a != writes || d->b != writes) sim::violate("lost-update", "%ld writes, counters %ld %ld", (long)writes, (long)d->a, (long)d->b);
  // unlocked now: both kinds can be taken
  sut([&] { m.lockWriter(); m.unlockWriter(); m.lockReader(); m.unlockReader(); });
  if (max_readers > 1) sim::probe("rwmutex.concurrent-readers");
  sim::note("readers=%d writers=%d writes=%ld", nr, nw, (long)writes);
  HARNESS();
}

WORLD("P25", rwmutex_shared, "readers hold the lock together; a writer waits for all of them and then gets it") {
  swarm_sched();
  auto mp = std::make_shared<dap::RWMutex>();
  auto& m = *mp;
  int n = 2 + sim::W(3), in = 0, holding = 0;
  sim::Flag all;
  bool wr = sim::W(2), wrote = false;
  vector<Task> ts;
  for (int r = 0; r < n; r++)
    ts.emplace_back("reader", [&] {
      sut([&] { m.lockReader(); });
      holding++;
      if (++in == n) all.set();
      // waits for the others with the lock held: only works if it is shared
      all.wait();
      if (sim::W(2)) sim::sleep_ns(sim::W(30) * kMs);
      holding--;
      sut([&] { m.unlockReader(); });
    });
  int extra = wr ? 1 + sim::W(3) : 0, inw = 0;
  for (int w = 0; w < extra; w++)
    ts.emplace_back("writer", [&] {
      all.wait();
      sut([&] { m.lockWriter(); });
      if (holding || inw) sim::violate("exclusion", "the writer got the lock while %d readers hold it", holding);
      inw++;
      wrote = true;
      if (sim::W(2)) sim::sleep_ns(sim::W(30) * kMs);
      inw--;
      sut([&] { m.unlockWriter(); });
    });
  for (auto& t : ts) t.join();
  sim::note("readers=%d writers=%d", n, extra);
  HARNESS();
}

// -------------------------------------------------------------------------- Chan
WORLD("P26", chan_fifo, "producers, consumers and close on one channel") {
  swarm_sched();
  using C = dap::Chan<std::shared_ptr<Val>>;
  auto cp = sut([&] { return std::make_shared<C>(); });
  auto& c = *cp;
  int np = 1 + sim::W(3), nc = 1 + sim::W(3), per = 1 + sim::W(5);
  int closer = sim::W(4);  // 0: close after the producers, 1: at a random time, 2: random time, two closers, 3: not before all was taken
  bool exact = closer == 3;
  if (exact) { closer = 0; nc = 1 + sim::W(4); }
  // exact: each consumer takes its share and goes; nobody else takes it for him
  vector<int> share(nc, -1);
  if (exact) {
    int left = np * per;
    for (int r = 0; r + 1 < nc; r++) { share[r] = sim::W(2) ? left / nc : (int)sim::W(left + 1); left -= share[r]; }
    share[nc - 1] = left;
  }
  vector<vector<std::pair<int, int>>> got(nc);
  uint64_t put_done = 0;
  bool closed = false;
  vector<Task> ps, cs;
  for (int p = 0; p < np; p++)
    ps.emplace_back("producer", [&, p] {
      for (int k = 0; k < per; k++) {
        if (sim::W(4) == 0) sim::sleep_ns(sim::W(10) * kMs);
        bool copy = sim::W(2);
        sut([&] {
          std::shared_ptr<Val> v(new Val(make_val(p * 100 + k)));
          if (copy) c.put((const std::shared_ptr<Val>&)v);
          else c.put(std::move(v));
        });
        put_done++;
      }
    });
  uint64_t ended = 0;
  for (int r = 0; r < nc; r++)
    cs.emplace_back("consumer", [&, r] {
      while (share[r] < 0 || (int)got[r].size() < share[r]) {
        uint64_t done_before = put_done;
        uint64_t taken_before = 0;
        for (auto& g : got) taken_before += g.size();
        auto v = sut([&] { return c.take(); });
        if (!v.has_value()) {
          if (!closed) sim::violate("early-end", "take() reported the end although the channel is open");
          if (nc == 1 && taken_before < done_before) sim::violate("dropped", "take() reported the end with %lu items left", (unsigned long)(done_before - taken_before));
          ended++;
          return;
        }
        Val* x = v.value().get();
        if (!x || !good(*x, x->id)) sim::violate("corrupt", "an item taken from the channel is not what was put");
        got[r].emplace_back((int)x->id / 100, (int)x->id % 100);
        SUT();
        v.value().reset();
      }
    });
  if (closer) for (int k = 0; k < closer; k++)
    ps.emplace_back("closer", [&] {
      sim::sleep_ns(sim::W(30) * kMs);
      closed = true;   // from here on take() may end
      sut([&] { c.close(); });
    });
  for (auto& t : ps) t.join();
  if (exact) for (auto& t : cs) t.join();   // no close comes to anybody's help
  closed = true;
  sut([&] { c.close(); });
  if (!exact) for (auto& t : cs) t.join();
  // what consumers left behind was put after they ended; drain it
  vector<std::pair<int, int>> rest;
  for (;;) {
    auto v = sut([&] { return c.take(); });
    if (!v.has_value()) break;
    rest.emplace_back((int)v.value()->id / 100, (int)v.value()->id % 100);
    SUT();
    v.value().reset();
  }
  if (!closer && !rest.empty()) sim::violate("dropped", "consumers ended with %zu items left", rest.size());
  got.push_back(rest);
  std::map<std::pair<int, int>, int> seen;
  for (auto& g : got) {
    std::map<int, int> last;
    for (auto& x : g) {
      if (++seen[x] > 1) sim::violate("twice", "item %d/%d was taken twice", x.first, x.second);
      if (last.count(x.first) && last[x.first] >= x.second) sim::violate("wrong-order", "item %d/%d came after %d/%d", x.first, x.second, x.first, last[x.first]);
      last[x.first] = x.second;
    }
  }
  if ((int)seen.size() != np * per) sim::violate("lost", "%d items put, %zu taken", np * per, seen.size());
  if (sim::W(4) == 0) {
    sut([&] { c.put(std::make_shared<Val>(make_val(7))); c.reset(); c.put(std::make_shared<Val>(make_val(8))); });
    auto v = sut([&] { return c.take(); });
    if (!v.has_value() || v.value()->id != 8) sim::violate("reset", "after reset() the channel does not work like a new one");
    { SUT(); v.value().reset(); }
    // it is open again: a taker waits
    bool put = false;
    Task taker("taker", [&] {
      auto w = sut([&] { return c.take(); });
      if (!put || !w.has_value() || w.value()->id != 9) sim::violate("reset", "after reset() a taker did not wait for the next item");
      SUT();
      w.value().reset();
    });
    if (sim::W(2)) sim::sleep_ns(sim::W(5) * kMs);
    put = true;
    sut([&] { c.put(std::make_shared<Val>(make_val(9))); });
    taker.join();
  }
  sim::note("producers=%d consumers=%d per=%d close=%d", np, nc, per, closer);
  sut([&] { cp.reset(); });
}
