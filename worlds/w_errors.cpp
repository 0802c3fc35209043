// Error reporting, misuse, and use of one session from many threads.
#include "kit.h"
using namespace kit;

namespace {
struct Report { int handler; string msg; };
struct Errors {
  vector<Report> all;
  int inside = 0;
  int current = 0;
  // An error handler that records, and checks that reports do not overlap.
  dap::Session::ErrorHandler make(int id, bool slow) {
    return [this, id, slow](const char* m) {
      HARNESS();
      if (++inside > 1) sim::violate("overlap", "two errors are reported at the same time");
      if (!m || !*m) sim::violate("empty-error", "error callback without a message");
      all.push_back({id, m});
      if (slow) sim::sleep_ns(sim::W(20) * kMs);
      sim::point("error-handler", this);
      inside--;
    };
  }
};
struct Item {
  string body;                // framed and sent
  const char* what;
  int errors = 0;             // reports expected
  string names;               // text every report must contain
  int events = 0, events2 = 0, requests = 0;   // handler runs expected
  int64_t answers = -1;       // future resolved by it
  bool answer_error = false;
};
J good_args() { return J::obj().set("id", (int64_t)sim::W(50)).set("text", "t").set("list", J::arr()); }
J wrong_value(J::T not_this) {
  for (;;) {
    J v;
    switch (sim::W(6)) {
      case 0: v = J("str"); break;
      case 1: v = J::obj(); break;
      case 2: v = J::arr().push(1); break;
      case 3: v = J(true); break;
      case 4: v = J(); break;
      default: v = J((int64_t)7); break;
    }
    if (v.t == not_this) continue;
    return v;
  }
}
// Arguments that cannot be decoded as a token request/event.
J bad_args() {
  J a = good_args();
  switch (sim::W(6)) {
    case 0: a.set("id", wrong_value(J::Int)); break;
    case 1: a.set("text", wrong_value(J::Str)); break;
    case 2: a.erase("id"); break;
    case 3: a.erase("text"); break;
    case 4: { const J bad[] = {J(5), J(true), J("s"), J(0.5), J("")}; a.set("list", bad[sim::W(5)]); break; }
    default: a.set("list", J::arr().push(1).push(wrong_value(J::Int))); break;
  }
  return a;
}
}  // namespace

WORLD("P22", error_reports, "every kind of message that cannot be handled, between valid ones; error handler replaced") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_SEGMENT, sim::LINK_DELAY});
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  Errors errs;
  int ev = 0, ev2 = 0, rq = 0;
  bool have_handler = sim::W(6) != 0;
  sut([&] {
    s = dap::Session::create();
    if (have_handler) s->onError(errs.make(0, sim::W(4) == 0));
    s->registerHandler([&](const dap::TokEvent&) { HARNESS(); ev++; });
    s->registerHandler([&](const dap::TerminatedEvent&) { HARNESS(); ev2++; });
    s->registerHandler([&](const dap::TokRequest& r) { HARNESS(); rq++; dap::TokResponse o; o.id = r.id; return o; });
    s->bind(in->reader(), out->writer());
  });
  // our own pending requests have sequence numbers 1..pend
  int pend = sim::W(4), next_pending = 0;
  vector<Fut<dap::ResponseOrError<dap::TokResponse>>> futs(pend);
  vector<int64_t> seqs;
  for (int k = 0; k < pend; k++) { dap::TokRequest q; q.id = k; sut([&] { futs[k].f.reset(new dap::future<dap::ResponseOrError<dap::TokResponse>>(s->send(q))); }); }
  {
    vector<string> bodies;
    string rest, err;
    if (!split_frames(out->wire, &bodies, &rest, &err) || (int)bodies.size() != pend) sim::violate("bad-frame", "%s", err.c_str());
    for (auto& b : bodies) { J m; J::parse(b, &m); seqs.push_back(m.get("seq")->i); }
  }
  int n = 1 + sim::W(10);
  vector<Item> items;
  int want_errors = 0, want_ev = 0, want_ev2 = 0, want_rq = 0, current = 0;
  vector<Report> want;
  bool step = sim::W(2);   // look at the outcome after every message
  uint64_t nameno = 0;
  auto settle = [&] {
    sim::wait_quiescent(350000, "stuck");
    if (ev != want_ev || ev2 != want_ev2 || rq != want_rq)
      sim::violate("handlers", "handlers ran %d/%d/%d times, expected %d/%d/%d", ev, ev2, rq, want_ev, want_ev2, want_rq);
    if (!have_handler) return;
    for (size_t k = 0; k < want.size() || k < errs.all.size(); k++) {
      if (k >= errs.all.size()) sim::violate("no-error", "not reported: %s", want[k].msg.c_str());
      if (k >= want.size()) sim::violate("extra-error", "reported without need, or twice: %s (%zu faults so far)", show(errs.all[k].msg, 200).c_str(), want.size());
    }
  };
  for (int k = 0; k < n; k++) {
    Item it;
    string nm = "odd" + std::to_string(nameno++);
    switch (sim::W(6)) {
      case 0: nm += "%s%d-100%"; break;
      case 1: nm += string(sim::W(400), 'l') + "!"; break;
      default: break;
    }
    switch (sim::W(21)) {
      case 0: it.what = "event"; it.body = event_msg(1, "tokev", good_args()).dump(); it.events = 1; break;
      case 1: it.what = "request"; it.body = request_msg(100 + k, "tok", good_args()).dump(); it.requests = 1; break;
      case 2: it.what = "event without body"; it.body = J::obj().set("seq", 1).set("type", "event").set("event", "terminated").dump(); it.events2 = 1; break;
      case 3: it.what = "message without type"; it.errors = 1; { J m = event_msg(1, "tokev", good_args()); m.erase("type"); it.body = m.dump(); } break;
      case 4: it.what = "message whose type is no string"; it.errors = 1; { J m = event_msg(1, "tokev", good_args()); m.set("type", wrong_value(J::Str)); it.body = m.dump(); } break;
      case 5: it.what = "message without seq"; it.errors = 1; { J m = sim::W(2) ? event_msg(1, "tokev", good_args()) : request_msg(1, "tok", good_args()); m.erase("seq"); it.body = m.dump(); } break;
      case 6: it.what = "message of unknown type"; it.errors = 1; it.names = nm; { J m = event_msg(1, "tokev", good_args()); m.set("type", nm); it.body = m.dump(); } break;
      case 7: it.what = "request without command"; it.errors = 1; { J m = request_msg(1, "tok", good_args()); m.erase("command"); it.body = m.dump(); } break;
      case 8: it.what = "request with unknown command"; it.errors = 1; it.names = nm; it.body = request_msg(1, nm, good_args()).dump(); break;
      case 9: it.what = "request with undecodable arguments"; it.errors = 1; it.body = request_msg(1, "tok", bad_args()).dump(); break;
      case 10: it.what = "request without arguments"; it.errors = 1; { J m = request_msg(1, "tok", good_args()); m.erase("arguments"); it.body = m.dump(); } break;
      case 11: it.what = "event without name"; it.errors = 1; { J m = event_msg(1, "tokev", good_args()); m.erase("event"); it.body = m.dump(); } break;
      case 12: it.what = "unknown event"; it.errors = 1; it.names = nm; it.body = event_msg(1, nm, good_args()).dump(); break;
      case 13: it.what = "event with undecodable body"; it.errors = 1; it.names = "tokev"; it.body = event_msg(1, "tokev", bad_args()).dump(); break;
      case 14: {
        int64_t q = sim::W(2) ? 5000 + (int64_t)sim::W(100) : sim::W(2) ? -(int64_t)sim::W(100) : (int64_t)1 << (33 + sim::W(20));
        it.what = "response to nothing";
        it.errors = 1;
        it.names = q >= 0 && q < 10000 ? std::to_string(q) : "";
        it.body = (sim::W(2) ? response_msg(1, q, "tok", good_args()) : error_msg(1, q, "tok", "x")).dump();
        break;
      }
      case 15: it.what = "response without request_seq"; it.errors = 1; { J m = response_msg(1, 1, "tok", good_args()); m.erase("request_seq"); it.body = m.dump(); } break;
      case 16:
        if (!pend) continue;
        it.what = "response without success"; it.errors = 1;
        { J m = response_msg(1, seqs[next_pending < pend ? next_pending : 0], "tok", good_args()); m.erase("success"); it.body = m.dump(); }
        break;
      case 17:
        if (next_pending >= pend) continue;
        it.what = "response"; it.answers = next_pending;
        it.body = response_msg(1, seqs[next_pending], "tok", good_args().set("id", (int64_t)next_pending * 3)).dump();
        next_pending++;
        break;
      case 18:
        if (next_pending >= pend) continue;
        it.what = "error response"; it.answers = next_pending; it.answer_error = true;
        { J m = error_msg(1, seqs[next_pending], "tok", "e" + std::to_string(next_pending)); it.body = m.dump(); }
        next_pending++;
        break;
      case 19:
        // repeats an answer that was already given
        if (!next_pending) continue;
        it.what = "second response to one request"; it.errors = 1; it.names = std::to_string(seqs[next_pending - 1]);
        it.body = response_msg(1, seqs[next_pending - 1], "tok", good_args()).dump();
        break;
      default: it.what = "no JSON object"; it.errors = 1; { static const char* const t[] = {"{", "[]", "null", "1", "\"x\"", "{]", "nope"}; it.body = t[sim::W(7)]; } break;
    }
    in->inject(frame(it.body), sim::W(4) == 0 ? sim::W(20) * kMs : 0);
    want_ev += it.events;
    want_ev2 += it.events2;
    want_rq += it.requests;
    for (int e = 0; e < it.errors; e++) { want.push_back({current, string(it.what) + (it.names.empty() ? "" : " '" + it.names + "'")}); want_errors++; }
    items.push_back(it);
    if (step) {
      settle();
      if (have_handler && it.errors && !it.names.empty() && errs.all.back().msg.find(it.names) == string::npos)
        sim::violate("bad-error", "the report of %s does not name '%s': %s", it.what, it.names.c_str(), show(errs.all.back().msg, 200).c_str());
      if (have_handler && sim::W(4) == 0) { current++; sut([&] { s->onError(errs.make(current, false)); }); }
    }
  }
  sim::disarm_all();
  settle();
  if (have_handler) for (size_t k = 0; k < want.size(); k++) if (errs.all[k].handler != want[k].handler) sim::violate("old-handler", "an error went to a replaced error handler");
  for (auto& it : items) if (it.answers >= 0) {
    auto& f = *futs[it.answers].f;
    bool ready = sut([&] { return f.wait_for(std::chrono::milliseconds(0)) == dap::future_status::ready; });
    if (!ready) sim::violate("lost", "a request was answered but its future is not ready");
    auto r = sut([&] { return f.get(); });
    if (it.answer_error != (bool)r.error) sim::violate("wrong-response", "a request got the wrong kind of answer");
    if (it.answer_error ? r.error.message != "e" + std::to_string(it.answers) : r.response.id != it.answers * 3) sim::violate("wrong-response", "a request got a wrong answer");
  }
  for (int k = next_pending; k < pend; k++)
    if (sut([&] { return futs[k].f->wait_for(std::chrono::milliseconds(0)) == dap::future_status::ready; })) sim::violate("wrong-response", "a request that nobody answered is ready");
  // whatever came before, the pending requests can still be answered
  for (int k = next_pending; k < pend; k++) in->inject(frame(response_msg(1, seqs[k], "tok", good_args().set("id", (int64_t)k * 3)).dump()));
  for (int k = next_pending; k < pend; k++) {
    auto r = sut([&] { return futs[k].f->get(); });
    if (r.error || r.response.id != k * 3) sim::violate("wrong-response", "pending request %d got a wrong answer", k);
  }
  vector<string> bodies;
  string rest, err;
  split_frames(out->wire, &bodies, &rest, &err);
  if ((int)bodies.size() != pend + rq) sim::violate("extra-message", "%d requests handled, %zu responses", rq, bodies.size() - pend);
  sim::note("messages=%zu faults=%d pending=%d handler=%d", items.size(), want_errors, pend, have_handler);
  sut([&] { s.reset(); futs.clear(); });
}

// A failed request always ends with an error, whatever the peer says about it.
WORLD("P22", failed_requests, "error responses with and without a message") {
  swarm_sched();
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  sut([&] { s = dap::Session::create(); s->bind(in->reader(), out->writer()); });
  int n = 1 + sim::W(4);
  vector<string> msgs;
  Task peer("peer", [&] {
    FrameReader fr(out);
    J m;
    while (fr.next(&m)) {
      J e = error_msg(1, m.get("seq")->i, "tok", "");
      string t;
      switch (sim::W(5)) {
        case 0: e.erase("message"); break;
        case 1: e.set("message", ""); break;
        case 2: t = "plain"; e.set("message", t); break;
        case 3: t = string(1 + sim::W(4000), 'x'); e.set("message", t); break;
        default: t = "%s%n%d"; e.set("message", t); break;
      }
      if (sim::W(2)) e.set("body", J::obj().set("error", J::obj().set("id", 1).set("format", "f")));
      msgs.push_back(t);
      in->inject(frame(e.dump()));
    }
  });
  for (int k = 0; k < n; k++) {
    dap::TokRequest q;
    auto r = sut([&] { return s->send(q).get(); });
    if (!r.error) sim::violate("error-as-success", "the peer said that the request failed, the future holds a success");
    if (!msgs[k].empty() && r.error.message != msgs[k]) sim::violate("wrong-response", "error message of %zu bytes arrived as '%s'", msgs[k].size(), show(r.error.message).c_str());
  }
  sim::note("n=%d", n);
  out->w_close();
  peer.join();
  sut([&] { s.reset(); });
}

WORLD("P22", misuse, "second registrations, connects and starts, from several threads; the first stay in force") {
  swarm_sched();
  auto in = Link::make("in"), out = Link::make("out"), in2 = Link::make("in2"), out2 = Link::make("out2");
  std::unique_ptr<dap::Session> s;
  Errors errs;
  int first_ev = 0, first_rq = 0, first_sent = 0, closes = 0, wrong = 0, closes2 = 0;
  sut([&] {
    s = dap::Session::create();
    s->onError(errs.make(0, sim::W(2)));
    s->registerHandler([&](const dap::TokEvent&) { HARNESS(); first_ev++; });
    s->registerHandler([&](const dap::TokRequest& r) { HARNESS(); first_rq++; dap::TokResponse o; o.id = r.id; return o; });
    s->registerSentHandler([&](const dap::ResponseOrError<dap::TokResponse>&) { HARNESS(); first_sent++; });
  });
  bool bound_first = sim::W(2);
  if (bound_first) sut([&] { s->bind(in->reader(), out->writer(), [&] { HARNESS(); closes++; }); });
  int nt = 1 + sim::W(3);
  std::map<string, int> want;
  vector<Task> ts;
  for (int t = 0; t < nt; t++)
    ts.emplace_back("misuser", [&] {
      for (int k = 1 + sim::W(3); k; k--) {
        switch (sim::W(bound_first ? 6 : 3)) {
          case 0: want["tokev"]++; sut([&] { s->registerHandler([&](const dap::TokEvent&) { HARNESS(); wrong++; }); }); break;
          case 1: want["Request handler"]++; sut([&] { s->registerHandler([&](const dap::TokRequest&) { HARNESS(); wrong++; return dap::TokResponse(); }); }); break;
          case 2: want["sent"]++; sut([&] { s->registerSentHandler([&](const dap::ResponseOrError<dap::TokResponse>&) { HARNESS(); wrong++; }); }); break;
          case 3: want["connect"]++; sut([&] { s->connect(in2->reader(), out2->writer()); }); break;
          case 4: want["startProcessing"]++; sut([&] { s->startProcessingMessages([&] { HARNESS(); closes2++; }); }); break;
          default: want["connect"]++; want["startProcessing"]++; sut([&] { s->bind(duplex(in2, out2), [&] { HARNESS(); closes2++; }); }); break;
        }
        if (sim::W(3) == 0) sim::sleep_ns(sim::W(10) * kMs);
      }
    });
  int sent_ev = 0, sent_rq = 0;
  auto traffic = [&] {
    for (int k = sim::W(4); k; k--) {
      if (sim::W(2)) { in->inject(frame(event_msg(1, "tokev", good_args()).dump())); sent_ev++; }
      else { in->inject(frame(request_msg(1, "tok", good_args()).dump())); sent_rq++; }
      in2->inject(frame(event_msg(1, "tokev", good_args()).dump()));
    }
  };
  traffic();
  for (auto& t : ts) t.join();
  if (!bound_first) sut([&] { s->bind(in->reader(), out->writer(), [&] { HARNESS(); closes++; }); });
  traffic();
  sim::disarm_all();
  sim::wait_quiescent(350000, "stuck");
  int total = 0;
  for (auto& w : want) total += w.second;
  if ((int)errs.all.size() != total) sim::violate(errs.all.size() < (size_t)total ? "no-error" : "extra-error", "%d cases of misuse, %zu errors reported", total, errs.all.size());
  int named = 0, ev_named = 0;
  for (auto& e : errs.all) { if (e.msg.find("'tok'") != string::npos) named++; if (e.msg.find("'tokev'") != string::npos) ev_named++; }
  if (named < want["Request handler"] || ev_named < want["tokev"]) sim::violate("bad-error", "errors about second registrations do not name the type");
  if (wrong) sim::violate("replaced", "a second registration replaced the first");
  if (first_ev != sent_ev || first_rq != sent_rq || first_sent != sent_rq)
    sim::violate("handlers", "%d events and %d requests came in; handlers ran %d and %d times, response-sent handler %d times", sent_ev, sent_rq, first_ev, first_rq, first_sent);
  if (sim::W(3) == 0) {
    // no error handler: nobody is told, and nothing happens; then another one
    size_t before = errs.all.size();
    sut([&] { s->onError(nullptr); });
    sut([&] { s->registerHandler([&](const dap::TokEvent&) { HARNESS(); wrong++; }); });
    in->inject(frame(event_msg(1, "nobody", J::obj()).dump()));
    sim::wait_quiescent(350000, "stuck");
    if (errs.all.size() != before) sim::violate("old-handler", "an error was reported to an error handler that was removed");
    int later = 0;
    if (sim::W(2)) {
      sut([&] { s->onError([&](const char*) { HARNESS(); later++; }); });
      in->inject(frame(event_msg(1, "nobody", J::obj()).dump()));
      sim::wait_quiescent(350000, "stuck");
      if (later != 1 || errs.all.size() != before) sim::violate("old-handler", "one error: the present error handler was told %d times, the former %zu times", later, errs.all.size() - before);
      sut([&] { s->onError(nullptr); });
    }
  }
  if (closes || closes2) sim::violate("close-callback", "a close callback ran while the connection is open");
  if (in2->reads || out2->writes) sim::violate("second-connection", "a second connection was used");
  in->w_close();
  sut([&] { s.reset(); });
  if (closes != 1 || closes2) sim::violate("close-callback", "close callbacks ran %d and %d times", closes, closes2);
  sim::note("threads=%d misuses=%d events=%d requests=%d", nt, total, sent_ev, sent_rq);
}

// ---------------------------------------------------------------------- chaos
WORLD("P23", session_chaos, "one session: sends, answers, registrations and error handler changes from many threads while messages arrive") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_SEGMENT, sim::LINK_DELAY, sim::LINK_WRITE_BLOCK});
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  int ev = 0, rq = 0, opt = 0;
  HQueue<std::function<void()>> later;
  bool async = sim::W(2), busy = sim::W(2);
  int own = 0, own_ev = 0, junk = 0;
  // a handler may use the session too
  auto use = [&] {
    if (!busy || sim::W(3)) return;
    switch (sim::W(4)) {
      case 0: { own_ev++; dap::Tok2Event e; sut([&] { s->send(e); }); break; }
      case 1: sut([&] { s->registerHandler([&](const dap::ContinuedEvent&) { HARNESS(); opt++; }); }); break;
      case 2: sut([&] { s->registerHandler([&](const dap::PauseRequest&) { HARNESS(); opt++; return dap::PauseResponse(); }); }); break;
      default: sut([&] { s->onError([](const char*) {}); }); break;
    }
  };
  sut([&] {
    s = dap::Session::create();
    s->registerHandler([&](const dap::TokEvent&) { HARNESS(); ev++; use(); });
    s->registerHandler([&](const dap::TokRequest& r, std::function<void(dap::ResponseOrError<dap::TokResponse>)> cb) {
      HARNESS();
      rq++;
      use();
      int64_t id = r.id;
      auto f = [cb, id] {
        HARNESS();
        dap::TokResponse o;
        o.id = id + 1;
        if (id % 3 == 0) sut([&] { cb(dap::Error("no")); });
        else sut([&] { cb(o); });
      };
      if (async) later.put(f); else f();
    });
    if (sim::W(2)) s->bind(in->reader(), out->writer());
    else s->bind(duplex(in, out));
  });
  int nsend = sim::W(3), nreg = sim::W(3), nerr = sim::W(2), nresp = async ? 1 + sim::W(2) : 0;
  vector<Task> ts, resp;
  for (int t = 0; t < nresp; t++) resp.emplace_back("responder", [&] { std::function<void()> f; while (later.get(&f)) { if (sim::W(3) == 0) sim::sleep_ns(sim::W(20) * kMs); f(); } });
  for (int t = 0; t < nsend; t++)
    ts.emplace_back("sender", [&, t] {
      for (int k = 1 + sim::W(3); k; k--) {
        if (sim::W(2)) {
          dap::Tok2Request q;
          q.id = t * 100 + k;
          own++;
          auto r = sut([&] { return s->send(q).get(); });
          if (r.error || r.response.id != q.id + 1) sim::violate("wrong-response", "request %ld got a wrong response", (long)q.id);
        } else {
          dap::Tok2Event e;
          own_ev++;
          sut([&] { s->send(e); });
        }
      }
    });
  for (int t = 0; t < nreg; t++)
    ts.emplace_back("registrar", [&, t] {
      // types nobody else registers, and a type two threads fight for
      if (t == 0) sut([&] { s->registerHandler([&](const dap::OutputEvent&) { HARNESS(); opt++; }); });
      else sut([&] { s->registerHandler([&](const dap::ThreadsRequest&) { HARNESS(); opt++; return dap::ThreadsResponse(); }); });
      if (sim::W(2)) sut([&] { s->registerHandler([&](const dap::StoppedEvent&) { HARNESS(); opt++; }); });
      if (sim::W(2)) sut([&] { s->registerSentHandler([&](const dap::ResponseOrError<dap::TokResponse>&) { HARNESS(); opt++; }); });
      if (sim::W(2)) sut([&] { s->registerHandler([&](const dap::Tok2Request& r) { HARNESS(); dap::Tok2Response o; o.id = r.id; return o; }); });
    });
  int nreports = 0;
  for (int t = 0; t <= nerr; t++)
    ts.emplace_back("on-error", [&] {
      for (int k = 1 + sim::W(2); k; k--) {
        string state(40, 'x');   // heap state owned by the handler
        sut([&] { s->onError([&nreports, state](const char* m) { HARNESS(); if (state.size() != 40) sim::violate("corrupt", "error handler state"); nreports += m != nullptr; }); });
      }
    });
  Task peer("peer", [&] {
    FrameReader fr(out);
    J m;
    while (fr.next(&m)) {
      if (m.get("type")->s != "request") continue;
      in->inject(frame(response_msg(1, m.get("seq")->i, "tok2", J::obj().set("id", m.get("arguments")->get("id")->i + 1).set("text", "")).dump()));
    }
    if (!fr.bad.empty()) sim::violate("bad-frame", "%s", fr.bad.c_str());
  });
  int sent_ev = 0, sent_rq = 0;
  for (int k = sim::W(8); k; k--) {
    switch (sim::W(6)) {
      case 0: case 1: in->inject(frame(event_msg(1, "tokev", good_args()).dump())); sent_ev++; break;
      case 2: case 3: in->inject(frame(request_msg(k + 1, "tok", good_args()).dump())); sent_rq++; break;
      case 4: in->inject(frame(event_msg(1, "output", J::obj().set("output", "o")).dump())); break;
      default: in->inject(frame(event_msg(1, "nobody", J::obj()).dump())); junk++; break;
    }
    if (sim::W(4) == 0) sim::sleep_ns(sim::W(20) * kMs);
  }
  for (auto& t : ts) t.join();
  sim::disarm_all();
  sim::wait_quiescent(350000, "stuck");
  if (ev != sent_ev || rq != sent_rq) sim::violate("lost", "%d events and %d requests sent, %d and %d handled", sent_ev, sent_rq, ev, rq);
  later.close();
  for (auto& t : resp) t.join();
  vector<string> bodies;
  string rest, err;
  if (!split_frames(out->wire, &bodies, &rest, &err) || !rest.empty()) sim::violate("bad-frame", "%s", err.c_str());
  int expect = own + own_ev + sent_rq;
  if ((int)bodies.size() < expect) sim::violate("lost", "%d messages sent, %zu on the wire", expect, bodies.size());
  in->w_close();
  out->w_close();
  peer.join();
  sim::note("senders=%d registrars=%d events=%d requests=%d own=%d reports=%d", nsend, nreg, sent_ev, sent_rq, own, nreports);
  sut([&] { s.reset(); });
}
