// Delivery of incoming messages to handlers; end of the connection; teardown.
#include "kit.h"
using namespace kit;

namespace {
struct Msg { char kind; int64_t id; string text; };   // 'e' event, 'E' event2, 'r' request, 'R' request2
string wire_of(const Msg& m, int64_t seq) {
  J p = J::obj().set("id", m.id).set("text", m.text);
  if (m.kind == 'e' || m.kind == 'r') p.set("list", J::arr());
  if (m.kind == 'e') return frame(event_msg(seq, "tokev", p).dump());
  if (m.kind == 'E') return frame(event_msg(seq, "tokev2", p).dump());
  return frame(request_msg(seq, m.kind == 'r' ? "tok" : "tok2", p).dump());
}
vector<Msg> random_msgs(int n) {
  vector<Msg> v;
  static const char kinds[] = {'e', 'r', 'E', 'R'};
  for (int k = 0; k < n; k++) v.push_back({kinds[sim::W(4)], k, "m" + std::to_string(k) + rand_string(6)});
  return v;
}
// Records what ran, in order, and that nothing overlaps.
struct Recorder {
  vector<Msg> ran;
  int inside = 0;
  bool check_serial = true;
  bool sealed = false;       // after this no handler may run
  std::function<void(const Msg&)> extra;
  struct Scope {
    Recorder* r;
    Scope(Recorder* x, Msg m) : r(x) {
      if (r->sealed) sim::violate("late-handler", "a handler ran after it must not run any more (message %ld)", (long)m.id);
      if (++r->inside > 1 && r->check_serial) sim::violate("overlap", "two handlers run at the same time (message %ld)", (long)m.id);
      r->ran.push_back(m);
      if (r->extra) r->extra(m);
    }
    ~Scope() { r->inside--; }
  };
};
void install(dap::Session* s, Recorder* rec) {
  s->registerHandler([rec](const dap::TokEvent& e) { HARNESS(); Recorder::Scope sc(rec, {'e', e.id, e.text}); });
  s->registerHandler([rec](const dap::Tok2Event& e) { HARNESS(); Recorder::Scope sc(rec, {'E', e.id, e.text}); });
  s->registerHandler([rec](const dap::TokRequest& e) {
    HARNESS();
    Recorder::Scope sc(rec, {'r', e.id, e.text});
    dap::TokResponse r;
    r.id = e.id;
    return r;
  });
  s->registerHandler([rec](const dap::Tok2Request& e) {
    HARNESS();
    Recorder::Scope sc(rec, {'R', e.id, e.text});
    dap::Tok2Response r;
    r.id = e.id;
    return r;
  });
}
void check_prefix(const vector<Msg>& sent, const vector<Msg>& ran, bool complete) {
  for (size_t k = 0; k < ran.size(); k++) {
    if (k >= sent.size()) sim::violate("not-once", "%zu messages sent, %zu handled", sent.size(), ran.size());
    if (ran[k].kind != sent[k].kind || ran[k].id != sent[k].id)
      sim::violate("wrong-order", "message %zu on the wire is %c%ld, handler %zu to run got %c%ld", k, sent[k].kind, (long)sent[k].id, k, ran[k].kind, (long)ran[k].id);
    if (ran[k].text != sent[k].text) sim::violate("wrong-payload", "message %zu: text '%s' became '%s'", k, show(sent[k].text).c_str(), show(ran[k].text).c_str());
  }
  if (complete && ran.size() != sent.size()) sim::violate("lost", "%zu messages arrived, %zu were handled", sent.size(), ran.size());
}
// A well-formed message that no handler runs for.
string odd_message() {
  switch (sim::W(7)) {
    case 0: return event_msg(1, "nobody-handles-this", J::obj()).dump();
    case 1: return request_msg(1, "nobody-handles-this", J::obj()).dump();
    case 2: return response_msg(1, 4000 + sim::W(10), "tok", J::obj()).dump();
    case 3: return "{}";
    case 4: return "not json";
    case 5: return "{\"type\":\"event\",\"seq\":1,\"event\":\"tokev\",\"body\":[]}";
    default: return "{\"type\":\"odd\",\"seq\":3}";
  }
}
void link_swarm() { swarm({sim::LINK_SHORT_READ, sim::LINK_SEGMENT, sim::LINK_WRITE_BLOCK, sim::LINK_DELAY}, 60000); }
}  // namespace

WORLD("P03", dispatch_order, "raw peer floods events and requests; slow handlers; local threads send at the same time") {
  swarm_sched();
  link_swarm();
  auto in = Link::make("in"), out = Link::make("out");
  in->max_read = sim::W(3) == 0 ? 1 + sim::W(40) : 0;
  std::unique_ptr<dap::Session> s;
  Recorder rec;
  rec.extra = [&](const Msg&) {
    if (sim::W(4) == 0) { sim::count_fault(sim::HANDLER_SLOW); sim::sleep_ns(sim::W(100) * kMs); }
  };
  auto msgs = random_msgs(1 + sim::W(12));
  sut([&] {
    s = dap::Session::create();
    s->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "session reported: %s", m); });
    install(s.get(), &rec);
    s->bind(in->reader(), out->writer());
  });
  vector<Task> noise;
  for (uint32_t k = sim::W(3); k; k--)
    noise.emplace_back("noise", [&] { for (uint32_t j = sim::W(4); j; j--) { dap::TokEvent e; sut([&] { s->send(e); }); } });
  string batch;
  for (size_t k = 0; k < msgs.size(); k++) {
    batch += wire_of(msgs[k], k + 1);
    if (k + 1 == msgs.size() || sim::W(3) == 0) {
      in->inject(batch, sim::W(3) == 0 ? sim::W(50) * kMs : 0);
      batch.clear();
      if (sim::W(3) == 0) sim::sleep_ns(sim::W(50) * kMs);
    }
  }
  for (auto& t : noise) t.join();
  sim::disarm_all();
  sim::wait_quiescent(300000, "stuck");
  if (sim::W(4) == 0) {
    // the peer does not read for a while: a sender waits, what arrives is dispatched all the same
    check_prefix(msgs, rec.ran, true);
    sim::count_fault(sim::PEER_STALL);
    out->stall_writes = true;
    Task blocked("blocked-sender", [&] { dap::TokEvent e; sut([&] { s->send(e); }); });
    sim::sleep_ns(kMs);
    size_t had = msgs.size();
    for (uint32_t k = 1 + sim::W(4); k; k--) {
      auto more = random_msgs(1);
      more[0].kind = more[0].kind == 'r' || more[0].kind == 'e' ? 'e' : 'E';  // events only: a response would have to wait for the peer
      more[0].id = 5000 + k;
      msgs.push_back(more[0]);
      in->inject(wire_of(more[0], 4000 + k));
    }
    sim::sleep_ns(20 * kSec);
    if (rec.ran.size() < msgs.size()) sim::violate("stalled", "%zu events arrived while a thread waits in send(); 20 s later only %zu were handled", msgs.size() - had, rec.ran.size() - had);
    out->unstall();
    blocked.join();
    sim::wait_quiescent(300000, "stuck");
  }
  check_prefix(msgs, rec.ran, true);
  if (in->max_in_read > 1) sim::violate("concurrent-read", "the session read its stream from %d threads at once", in->max_in_read);
  sim::note("messages=%zu", msgs.size());
  sut([&] { s.reset(); });
  check_prefix(msgs, rec.ran, true);
}

// A handler sends a request of its own and waits for the answer before it
// returns, while more messages queue up behind it.
WORLD("P03", dispatch_nested, "handlers that send a request and wait for the response") {
  swarm_sched();
  link_swarm();
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  Recorder rec;
  auto msgs = random_msgs(1 + sim::W(8));
  int nested = 0, answered = 0;
  uint32_t every = 1 + sim::W(3);
  rec.extra = [&](const Msg& m) {
    if (m.id % every) return;
    nested++;
    dap::TokRequest q;
    q.id = 7000 + m.id;
    auto r = sut([&] { return s->send(q).get(); });
    if (r.error || r.response.id != q.id + 1) sim::violate("wrong-response", "nested request of message %ld got a wrong response", (long)m.id);
    answered++;
  };
  sut([&] {
    s = dap::Session::create();
    s->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "session reported: %s", m); });
    install(s.get(), &rec);
    s->bind(in->reader(), out->writer());
  });
  Task peer("peer", [&] {
    FrameReader fr(out);
    J m;
    while (fr.next(&m)) {
      if (!m.get("type") || m.get("type")->s != "request") continue;
      if (sim::W(4) == 0) sim::sleep_ns(sim::W(80) * kMs);
      in->inject(frame(response_msg(90000 + nested, m.get("seq")->i, "tok", J::obj().set("id", m.get("arguments")->get("id")->i + 1).set("text", "").set("list", J::arr())).dump()));
    }
    if (!fr.bad.empty()) sim::violate("bad-frame", "%s", fr.bad.c_str());
  });
  for (size_t k = 0; k < msgs.size(); k++) {
    in->inject(wire_of(msgs[k], k + 1), sim::W(3) == 0 ? sim::W(50) * kMs : 0);
    if (sim::W(4) == 0) sim::sleep_ns(sim::W(40) * kMs);
  }
  sim::disarm_all();
  sim::wait_quiescent(300000, "stuck");
  check_prefix(msgs, rec.ran, true);
  if (answered != nested) sim::violate("stuck", "%d nested requests, %d answered", nested, answered);
  out->w_close();
  peer.join();
  sim::note("messages=%zu nested=%d", msgs.size(), nested);
  sut([&] { s.reset(); });
}

// Explicit message pump: connect() and getPayload() instead of bind().
static thread_local int payload_depth = 0, payload_handlers = 0;
WORLD("P21", manual_pump, "connect()/getPayload() driven by the caller, payloads run on other threads") {
  swarm_sched();
  link_swarm();
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  Recorder rec;
  uint32_t runmode = sim::W(4);   // 0: pump thread runs payloads, 1: worker thread, 2: several workers, 3: kept, then run in any order
  rec.check_serial = runmode != 2;
  rec.extra = [&](const Msg& m) {
    if (!payload_depth) sim::violate("not-in-payload", "the handler of message %ld ran outside the payload", (long)m.id);
    payload_handlers++;
  };
  auto run = [&](std::function<void()>& p) {
    payload_depth++;
    payload_handlers = 0;
    sut([&] { p(); });
    payload_depth--;
    if (payload_handlers != 1) sim::violate("not-once", "a payload ran %d handlers", payload_handlers);
    sut([&] { p = nullptr; });
  };
  auto msgs = random_msgs(1 + sim::W(8));
  // responses and junk never surface as payloads
  int own = sim::W(4), junk = 0;
  int errors = 0;
  sut([&] {
    s = dap::Session::create();
    s->onError([&](const char*) { HARNESS(); errors++; });
    install(s.get(), &rec);
    if (sim::W(2)) s->connect(in->reader(), out->writer());
    else s->connect(duplex(in, out));
  });
  HQueue<std::function<void()>> work;
  vector<std::function<void()>> kept;
  int payloads = 0;
  vector<J> answers;
  Task pump("pump", [&] {
    for (;;) {
      std::function<void()> p;
      bool open;
      sut([&] { p = s->getPayload(); });
      if (!p) {
        // empty: connection lost, or a message that produced no payload
        open = in->r_open();
        if (!open) break;
        continue;
      }
      payloads++;
      if (runmode == 0) run(p);
      else if (runmode == 3) { kept.push_back(std::move(p)); sim::hb_release(&kept); }
      else { work.put(p); sut([&] { p = nullptr; }); }
    }
    work.close();
  });
  vector<Task> workers;
  for (uint32_t k = 0; k < (runmode == 2 ? 2u : 1u); k++)
    workers.emplace_back("worker", [&] {
      std::function<void()> p;
      while (work.get(&p)) {
        if (sim::W(3) == 0) sim::sleep_ns(sim::W(30) * kMs);
        run(p);
      }
    });
  Task peer("peer", [&] {
    FrameReader fr(out);
    J m;
    while (fr.next(&m)) {
      if (m.get("type") && m.get("type")->s == "response") { answers.push_back(m); continue; }
      if (!m.get("type") || m.get("type")->s != "request") continue;
      in->inject(frame(response_msg(90000, m.get("seq")->i, "tok", J::obj().set("id", m.get("arguments")->get("id")->i + 1).set("text", "").set("list", J::arr())).dump()));
    }
  });
  Task client("client", [&] {
    for (int k = 0; k < own; k++) {
      dap::TokRequest q;
      q.id = 300 + k;
      auto r = sut([&] { return s->send(q).get(); });
      if (r.error || r.response.id != q.id + 1) sim::violate("wrong-response", "request %d got a wrong response", k);
    }
  });
  for (size_t k = 0; k < msgs.size(); k++) {
    if (sim::W(5) == 0) { junk++; in->inject(frame(event_msg(1, "nobody-handles-this", J::obj()).dump())); }
    in->inject(wire_of(msgs[k], k + 1), sim::W(3) == 0 ? sim::W(50) * kMs : 0);
    if (sim::W(4) == 0) sim::sleep_ns(sim::W(40) * kMs);
  }
  client.join();
  sim::disarm_all();
  sim::wait_quiescent(300000, "stuck");
  if (payloads != (int)msgs.size()) sim::violate("lost", "%zu messages, %d payloads", msgs.size(), payloads);
  sim::hb_acquire(&kept);
  while (!kept.empty()) {
    if (!rec.ran.empty() && rec.ran.size() + kept.size() != msgs.size()) sim::violate("not-once", "payloads and handlers run do not match");
    size_t k = sim::W((uint32_t)kept.size());
    run(kept[k]);
    kept.erase(kept.begin() + k);
  }
  if (errors != junk && !(junk && errors > junk)) sim::violate("errors", "%d unhandled events, %d errors reported", junk, errors);
  if (runmode < 2) check_prefix(msgs, rec.ran, true);
  else {
    if (rec.ran.size() != msgs.size()) sim::violate("lost", "%zu messages, %zu handled", msgs.size(), rec.ran.size());
    vector<char> seen(msgs.size(), 0);
    for (auto& m : rec.ran) {
      if (m.id < 0 || m.id >= (int64_t)msgs.size() || seen[m.id] || msgs[m.id].kind != m.kind || msgs[m.id].text != m.text) sim::violate("not-once", "message %ld handled twice or with a wrong payload", (long)m.id);
      seen[m.id] = 1;
    }
  }
  // the peer goes away, perhaps in the middle of a message: getPayload() reports it instead of blocking
  if (sim::W(2)) { string f = wire_of(msgs[0], 99); in->inject(f.substr(0, sim::W((uint32_t)f.size()))); }
  in->w_close();
  out->w_close();
  pump.join();
  if (payloads != (int)msgs.size()) sim::violate("not-once", "%zu messages, %d payloads", msgs.size(), payloads);
  for (uint32_t k = sim::W(3); k; k--) {
    std::function<void()> p;
    sut([&] { p = s->getPayload(); });
    if (p) sim::violate("not-once", "a payload is returned after the connection was lost");
  }
  for (auto& w : workers) w.join();
  peer.join();
  // each request was answered once, under its own number and command
  size_t requests = 0;
  for (size_t k = 0; k < msgs.size(); k++) {
    if (msgs[k].kind != 'r' && msgs[k].kind != 'R') continue;
    requests++;
    int n = 0;
    for (auto& a : answers) {
      const J *q = a.get("request_seq"), *ok = a.get("success"), *c = a.get("command"), *b = a.get("body");
      if (!q || !q->is(J::Int) || q->i != (int64_t)k + 1) continue;
      n++;
      if (!ok || !ok->b || !c || c->s != (msgs[k].kind == 'r' ? "tok" : "tok2") || !b || !b->get("id") || b->get("id")->i != msgs[k].id) sim::violate("wrong-response", "message %zu was answered with %s", k, show(a.dump(), 300).c_str());
    }
    if (n != 1) sim::violate("wrong-response", "request %zu was answered %d times", k, n);
  }
  if (answers.size() != requests) sim::violate("wrong-response", "%zu requests, %zu responses", requests, answers.size());
  sim::note("messages=%zu own=%d runmode=%u", msgs.size(), own, runmode);
  sut([&] { s.reset(); });
}

// The connection ends in every way it can; the close callback runs exactly once
// and everything that had completely arrived is still handled.
WORLD("P08", close_notify, "connection ends at any byte, by peer, EOF, local close, invalid data or destruction") {
  swarm_sched();
  link_swarm();
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  Recorder rec;
  rec.extra = [&](const Msg&) {
    if (sim::W(4) == 0) { sim::count_fault(sim::HANDLER_SLOW); sim::sleep_ns(sim::W(100) * kMs); }
  };
  auto msgs = random_msgs(sim::W(6));
  uint32_t how = sim::W(6);
  static const char* const names[] = {"peer closes", "end of file", "peer closes inside a frame", "reader closed locally", "invalid data", "session destroyed"};
  int closes = 0;
  bool ended = false;
  int errors = 0;
  bool with_cb = sim::W(8) != 0;
  auto reader = in->reader();
  bool destroyed = false;
  uint32_t form = sim::W(3);
  sut([&] {
    s = dap::Session::create();
    s->onError([&](const char*) { HARNESS(); errors++; });
    install(s.get(), &rec);
    if (how == 4) s->setOnInvalidData(dap::kClose);
    auto cb = [&] {
      HARNESS();
      if (!ended) sim::violate("early-close", "the close callback ran while the connection was open");
      if (destroyed) sim::violate("late-close", "the close callback ran after the session was destroyed");
      closes++;
      if (sim::W(3) == 0) sim::sleep_ns(sim::W(20) * kMs);
    };
    dap::Session::ClosedHandler h;
    if (with_cb) h = cb;
    if (form == 0) s->bind(reader, out->writer(), h);
    else if (form == 1) { s->connect(reader, out->writer()); s->startProcessingMessages(h); }
    else s->bind(dap::ReaderWriter::create(reader, out->writer()), h);
  });
  // messages no handler runs for, and an output side that is gone already, do
  // not end the connection
  uint32_t odd = sim::W(3) == 0 ? 1 + sim::W(4) : 0;
  bool half = form != 2 && sim::W(3) == 0;
  if (half && sim::W(2)) { sim::count_fault(sim::LINK_LOCAL_CLOSE); if (sim::W(2)) out->w_close(); else out->r_close(); half = false; }
  size_t at = half ? sim::W((uint32_t)msgs.size() + 1) : ~size_t(0);
  for (size_t k = 0; k <= msgs.size(); k++) {
    if (k == at) { sim::count_fault(sim::LINK_LOCAL_CLOSE); if (sim::W(2)) out->w_close(); else out->r_close(); }
    for (; odd && sim::W(2); odd--) in->inject(frame(odd_message()));
    if (k < msgs.size()) in->inject(wire_of(msgs[k], k + 1), sim::W(3) == 0 ? sim::W(50) * kMs : 0);
  }
  if (sim::W(2)) sim::sleep_ns(sim::W(60) * kMs);
  if (sim::W(4) == 0) { sim::wait_quiescent(300000, "stuck"); if (closes) sim::violate("early-close", "close callback without a close"); }
  string part = wire_of({'e', 99, "partial"}, 99);
  if (sim::W(6) == 0) part = endless_header() + "{}x";
  switch (how) {
    case 0: ended = true; sim::count_fault(sim::LINK_PEER_CLOSE); in->w_close(); break;
    case 1: ended = true; sim::count_fault(sim::LINK_PEER_CLOSE); in->eof(); break;
    case 2:
      ended = true;
      sim::count_fault(sim::LINK_TRUNCATE);
      in->inject(part.substr(0, 1 + sim::W((uint32_t)part.size() - 1)));
      if (sim::W(2)) in->w_close(); else in->eof();
      break;
    case 3: ended = true; sim::count_fault(sim::LINK_LOCAL_CLOSE); reader->close(); break;
    case 4:
      ended = true;
      sim::count_fault(sim::LINK_GARBAGE);
      in->inject("this is not a header at all, is it?" + (sim::W(2) ? wire_of({'e', 98, "after"}, 98) : ""));
      break;
    case 5: ended = true; sim::count_fault(sim::TEARDOWN_RACE); break;
  }
  if (how != 5) {
    if (sim::W(3) == 0) {
      // a send racing with the close must not disturb it
      dap::TokEvent e;
      sut([&] { s->send(e); });
    }
    sim::disarm_all();
    sim::wait_quiescent(300000, "livelock-after-close");
    if (with_cb && closes != 1) sim::violate("not-once", "%s: the close callback ran %d times", names[how], closes);
    check_prefix(msgs, rec.ran, how != 3);
    if (how == 4 && !in->r_closed()) sim::violate("not-closed", "invalid data did not close the reader");
  }
  sut([&] { s.reset(); });
  destroyed = true;
  rec.sealed = true;
  if (with_cb && closes != 1) sim::violate("not-once", "%s: the close callback ran %d times by the end of the session", names[how], closes);
  check_prefix(msgs, rec.ran, how != 3 && how != 5);
  sim::wait_quiescent(100000, "stuck");
  if (closes > 1) sim::violate("not-once", "%s: the close callback ran %d times", names[how], closes);
  sim::note("%s: messages=%zu handled=%zu errors=%d", names[how], msgs.size(), rec.ran.size(), errors);
}

// Destruction at any moment: it returns, both streams are closed, nothing runs
// afterwards and nothing touches the streams afterwards.
WORLD("P09", destroy_anytime, "session destroyed at a random moment of traffic in both directions") {
  swarm_sched();
  link_swarm();
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  Recorder rec;
  bool nested_send = sim::W(2);
  dap::Session* raw = nullptr;
  rec.extra = [&](const Msg& m) {
    if (sim::W(4) == 0) { sim::count_fault(sim::HANDLER_SLOW); sim::sleep_ns(sim::W(100) * kMs); }
    if (nested_send && sim::W(2)) {
      dap::Tok2Event e;
      e.id = m.id;
      sut([&] { raw->send(e); });
    }
  };
  auto msgs = random_msgs(sim::W(8));
  int closes = 0, errors = 0, late = 0;
  bool destroyed = false;
  uint32_t stage = sim::W(5);
  sut([&] {
    s = dap::Session::create();
    raw = s.get();
    if (sim::W(2)) s->onError([&](const char*) { HARNESS(); if (destroyed) late++; errors++; });
    install(s.get(), &rec);
    auto cb = [&] { HARNESS(); if (destroyed) late++; closes++; };
    if (stage == 1) s->connect(in->reader(), out->writer());
    else if (stage >= 2) s->bind(in->reader(), out->writer(), cb);
  });
  Task feeder("feeder", [&] {
    for (size_t k = 0; k < msgs.size(); k++) {
      in->inject(wire_of(msgs[k], k + 1), sim::W(3) == 0 ? sim::W(50) * kMs : 0);
      if (sim::W(3) == 0) sim::sleep_ns(sim::W(40) * kMs);
    }
    if (sim::W(3) == 0) in->w_close();
  });
  Task drainer("drainer", [&] {
    char b[64];
    while (out->read(b, sizeof b)) {}
  });
  // sends by other threads must have returned before destruction begins; they
  // leave requests pending
  int pend = sim::W(3);
  vector<Fut<dap::ResponseOrError<dap::TokResponse>>> futs(pend);
  for (int k = 0; k < pend; k++) { dap::TokRequest q; sut([&] { futs[k].f.reset(new dap::future<dap::ResponseOrError<dap::TokResponse>>(s->send(q))); }); }
  if (sim::W(2)) sim::sleep_ns(sim::W(200) * kMs);
  // the peer may have stopped reading: what the handlers write blocks
  if (sim::W(3) == 0) { sim::count_fault(sim::PEER_STALL); out->stall_writes = true; if (sim::W(2)) sim::sleep_ns(sim::W(200) * kMs); }
  if (stage == 4) { sim::wait_quiescent(300000, "stuck"); }
  sim::count_fault(sim::TEARDOWN_RACE);
  uint64_t t0 = sim::now();
  sut([&] { s.reset(); });
  destroyed = true;
  rec.sealed = true;
  if (rec.inside) sim::violate("handler-alive", "a handler is still running after the session was destroyed");
  if (stage >= 1) {
    if (!in->r_closed()) sim::violate("not-closed", "the destroyed session left its reader open");
    if (!out->w_closed()) sim::violate("not-closed", "the destroyed session left its writer open");
  }
  uint64_t reads = in->reads, writes = out->writes;
  feeder.join();
  sim::disarm_all();
  sim::wait_quiescent(100000, "stuck");
  if (in->reads != reads || out->writes != writes) sim::violate("touch-after", "the streams were used after the session was destroyed");
  if (late) sim::violate("late-callback", "%d callbacks after the session was destroyed", late);
  if (stage >= 2 && closes != 1) sim::violate("close-callback", "close callback ran %d times", closes);
  check_prefix(msgs, rec.ran, false);
  out->r_close();
  drainer.join();
  sim::note("stage=%u messages=%zu handled=%zu pending=%d dtor=%lums", stage, msgs.size(), rec.ran.size(), pend, (unsigned long)((sim::now() - t0) / kMs));
  sut([&] { futs.clear(); });
  end_of_process("after the session is gone");
}
