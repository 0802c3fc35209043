// What a session puts on the wire, and what it says about sending.
#include "kit.h"
using namespace kit;

#include "dap/typeof.h"

// A type whose values cannot always be serialized.
namespace dap {
struct Brittle { bool broken = false; };
template <>
struct TypeOf<Brittle> { static constexpr bool has_custom_serialization = true; static const TypeInfo* type(); };
const TypeInfo* TypeOf<Brittle>::type() {
  struct TI : BasicTypeInfo<Brittle> {
    TI() : BasicTypeInfo<Brittle>("brittle") {}
    bool deserialize(const Deserializer*, void*) const override { return true; }
    bool serialize(Serializer* s, const void* p) const override { return !static_cast<const Brittle*>(p)->broken && s->serialize(boolean(true)); }
  };
  static auto typeinfo = TypeInfo::create<TI>();
  return typeinfo;
}
struct BrittleRequest : public Request {
  using Response = TokResponse;
  string text;
  Brittle b;
};
struct BrittleEvent : public Event {
  string text;
  Brittle b;
};
DAP_STRUCT_TYPEINFO(BrittleRequest, "brittle", DAP_FIELD(text, "text"), DAP_FIELD(b, "b"));
DAP_STRUCT_TYPEINFO(BrittleEvent, "brittleev", DAP_FIELD(text, "text"), DAP_FIELD(b, "b"));
}  // namespace dap

namespace {
J tok_args(int64_t id, const string& text, const vector<int64_t>& list) {
  J l = J::arr();
  for (auto v : list) l.push(v);
  return J::obj().set("id", id).set("text", text).set("list", l);
}
template <typename T>
T make_tok(int64_t id, const string& text, const vector<int64_t>& list) {
  T t;
  t.id = id;
  t.text = text;
  for (auto v : list) t.list.push_back(v);
  return t;
}
struct Intent { string type, name; int64_t id; J payload; bool ok = true; int thread = 0, order = 0; int64_t request_seq = 0; };
}  // namespace

// Many threads send events and requests while responses are being sent, over a
// writer that can be slow, blocking, or break in the middle of a frame.
static void wire_world(bool breakable) {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_SEGMENT, sim::LINK_WRITE_BLOCK, sim::LINK_DELAY}, 60000);
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  vector<Intent> want;
  int tiny_ok = 0, tiny_all = 0, tiny_seen = 0;   // the smallest messages there are
  HQueue<std::function<void()>> later;
  if (breakable) out->fail_after = 1 + sim::W(1200);
  int mode = sim::W(3);
  bool via_rw = sim::W(2), use_spy = sim::W(3) == 0;
  auto spyout = Link::make("spy");
  spyout->faults = false;
  sut([&] {
    s = dap::Session::create();
    s->registerHandler([&](const dap::TokRequest& r, std::function<void(dap::ResponseOrError<dap::TokResponse>)> cb) {
      HARNESS();
      auto o = make_tok<dap::TokResponse>(r.id + 1000, r.text, {});
      bool err = r.id % 3 == 1;
      auto f = [o, cb, err] {
        if (err) sut([&] { cb(dap::Error(o.text)); });
        else sut([&] { cb(o); });
      };
      if (mode == 0 || (mode == 1 && sim::W(2))) f();
      else { sim::count_fault(sim::HANDLER_ASYNC); later.put(f); }
    });
    std::shared_ptr<dap::Writer> w = out->writer();
    if (use_spy) w = dap::spy(w, spyout->writer(), "");
    if (via_rw) s->bind(dap::ReaderWriter::create(in->reader(), w));
    else s->bind(in->reader(), w);
  });
  int nthreads = 1 + sim::W(4), per = 1 + sim::W(4), nreq = sim::W(5);
  bool big = sim::W(6) == 0;
  auto text = [&](int t, int k) { return big && sim::W(2) ? string(1 + sim::W(9000), (char)('a' + t)) : "t" + std::to_string(t * 10 + k) + rand_string(10); };
  vector<Task> tasks;
  for (int k = 0; k < 1 + (int)sim::W(2); k++)
    tasks.emplace_back("responder", [&] {
      std::function<void()> f;
      while (later.get(&f)) { if (sim::W(3) == 0) sim::sleep_ns(sim::W(20) * kMs); f(); }
    });
  vector<Task> senders;
  for (int t = 0; t < nthreads; t++)
    senders.emplace_back("sender", [&, t] {
      for (int k = 0; k < per; k++) {
        if (sim::W(4) == 0) {
          dap::InitializedEvent e;
          tiny_all++;
          if (sut([&] { return s->send(dap::TypeOf<dap::InitializedEvent>::type(), &e); })) tiny_ok++;
        }
        Intent i;
        i.thread = t;
        i.order = k;
        i.id = t * 100 + k;
        string x = text(t, k);
        vector<int64_t> l;
        for (uint32_t z = sim::W(4); z; z--) l.push_back(z * 7 - 3);
        i.payload = tok_args(i.id, x, l);
        if (sim::W(2)) {
          auto e = make_tok<dap::TokEvent>(i.id, x, l);
          i.type = "event";
          i.name = "tokev";
          i.ok = sut([&] { return s->send(dap::TypeOf<dap::TokEvent>::type(), &e); });
        } else {
          auto e = make_tok<dap::TokRequest>(i.id, x, l);
          i.type = "request";
          i.name = "tok";
          i.ok = sut([&] { return s->send(dap::TypeOf<dap::TokRequest>::type(), dap::TypeOf<dap::TokResponse>::type(), &e, [](const void*, const dap::Error*) {}); });
        }
        want.push_back(std::move(i));
      }
    });
  vector<Intent> resp;
  for (int k = 0; k < nreq; k++) {
    string x = text(8, k);
    Intent i;
    i.type = "response";
    i.name = "tok";
    i.id = k;
    i.request_seq = 500 + k;
    i.payload = k % 3 == 1 ? J(x) : tok_args(k + 1000, x, {});
    resp.push_back(i);
    in->inject(frame(request_msg(500 + k, "tok", tok_args(k, x, {})).dump()), sim::W(3) == 0 ? sim::W(30) * kMs : 0);
  }
  for (auto& t : senders) t.join();
  sim::disarm_all();
  sim::wait_quiescent(300000, "stuck");
  later.close();
  for (auto& t : tasks) t.join();
  sut([&] { s.reset(); });
  // ---- the wire
  vector<string> bodies;
  string rest, err;
  if (out->max_in_write > 1) sim::violate("interleaved-write", "the session called write() on its stream from %d threads at once", out->max_in_write);
  if (!split_frames(out->wire, &bodies, &rest, &err)) sim::violate("bad-frame", "%s", err.c_str());
  if (!breakable && !rest.empty()) sim::violate("bad-frame", "the stream ends inside a frame: %s", show(rest).c_str());
  std::map<int64_t, int> seqs;
  vector<int> last(nthreads, -1);
  vector<char> seen(want.size(), 0), rseen(resp.size(), 0);
  for (auto& b : bodies) {
    J m;
    if (!J::parse(b, &m) || !m.is(J::Obj)) sim::violate("bad-json", "frame body is not a JSON object: %s", show(b).c_str());
    const J *seq = m.get("seq"), *type = m.get("type");
    if (!seq || !seq->is(J::Int) || !type || !type->is(J::Str)) sim::violate("bad-message", "message without seq/type: %s", show(b).c_str());
    if (seq->i < 1) sim::violate("bad-seq", "sequence number %ld", (long)seq->i);
    if (seqs[seq->i]++) sim::violate("seq-reused", "two messages carry seq %ld", (long)seq->i);
    bool found = false;
    if (type->s == "response") {
      const J* rs = m.get("request_seq");
      for (size_t k = 0; k < resp.size() && rs; k++)
        if (!rseen[k] && resp[k].request_seq == rs->i) {
          const J* ok = m.get("success");
          const J* body = ok && ok->b ? m.get("body") : m.get("message");
          if (!ok || !body || !body->equals(resp[k].payload)) sim::violate("wrong-message", "response differs from what the handler gave: %s", show(b, 300).c_str());
          rseen[k] = 1;
          found = true;
          break;
        }
    } else if (type->s == "event" && m.get("event") && m.get("event")->s == "initialized") {
      found = ++tiny_seen <= tiny_all;
    } else {
      const J* name = m.get(type->s == "event" ? "event" : "command");
      const J* pl = m.get(type->s == "event" ? "body" : "arguments");
      for (size_t k = 0; k < want.size() && name && pl; k++)
        if (!seen[k] && want[k].type == type->s && pl->get("id") && pl->get("id")->i == want[k].id) {
          if (name->s != want[k].name || !pl->equals(want[k].payload)) sim::violate("wrong-message", "message differs from what was sent: %s", show(b, 300).c_str());
          seen[k] = 1;
          found = true;
          if (want[k].order <= last[want[k].thread]) sim::violate("reordered", "thread %d's message %d is on the wire after its message %d", want[k].thread, want[k].order, last[want[k].thread]);
          last[want[k].thread] = want[k].order;
          break;
        }
    }
    if (!found) sim::violate("extra-message", "a message nobody sent, or sent twice: %s", show(b, 300).c_str());
  }
  for (size_t k = 0; k < want.size(); k++) {
    if (want[k].ok && !seen[k]) sim::violate("lost-message", "send() of %s %ld succeeded but it is not on the wire", want[k].type.c_str(), (long)want[k].id);
    if (!breakable && !want[k].ok) sim::violate("send-failed", "send() of %s %ld failed on a working stream", want[k].type.c_str(), (long)want[k].id);
    if (breakable && !want[k].ok && seen[k]) sim::violate("send-failed", "send() of %s %ld reported failure but it is completely on the wire", want[k].type.c_str(), (long)want[k].id);
  }
  if (tiny_seen < tiny_ok || (!breakable && tiny_ok < tiny_all)) sim::violate("lost-message", "%d 'initialized' events, %d reported as sent, %d on the wire", tiny_all, tiny_ok, tiny_seen);
  if (!breakable)
    for (size_t k = 0; k < resp.size(); k++)
      if (!rseen[k]) sim::violate("lost-message", "no response to request %d", (int)k);
  if (use_spy && !breakable && spyout->wire != out->wire) sim::violate("spy-differs", "the spy saw other bytes than the stream");
  if (breakable && out->write_failed) sim::probe("write failed");
  if (breakable && !rest.empty()) sim::probe("frame cut short");
  sim::note("senders=%d per=%d requests=%d frames=%zu bytes=%zu", nthreads, per, nreq, bodies.size(), out->wire.size());
}
WORLD("P02", wire_frames, "concurrent senders and responses over one writer; every byte accounted for") { wire_world(false); }
WORLD("P02", wire_breaks, "as wire_frames, but the writer breaks for good at a random byte") { wire_world(true); }

// Sending when it cannot work: nothing bound, writer closed, peer gone, writer
// failing.  Every call returns, every future resolves, the error is reported.
WORLD("P10", send_failures, "sends on unbound, closed, closing and failing streams") {
  swarm_sched();
  swarm({sim::LINK_WRITE_BLOCK, sim::LINK_SHORT_READ});
  auto in = Link::make("in"), out = Link::make("out");
  in->faults = true;
  std::unique_ptr<dap::Session> s;
  int errors = 0, closed_calls = 0;
  uint32_t how = sim::W(7);
  static const char* const names[] = {"unbound", "writer closed", "peer gone", "write fails", "closed while sending", "stalled then closed", "connected only"};
  sut([&] {
    s = dap::Session::create();
    if (sim::W(4)) s->onError([&](const char*) { HARNESS(); errors++; });
    else errors = -1000000;
  });
  std::shared_ptr<dap::Writer> w = out->writer();
  if (how != 0) sut([&] {
    if (how == 6) s->connect(in->reader(), w);
    else s->bind(in->reader(), w, [&] { HARNESS(); closed_calls++; });
  });
  if (how == 1 || how == 6) w->close();
  if (how == 2) { out->r_close(); }
  if (how == 3) out->fail_after = sim::W(60);
  if (how == 5) out->stall_writes = true;
  int nthreads = 1 + sim::W(3), per = 1 + sim::W(3);
  vector<Task> ts;
  int resolved = 0, failed = 0, ok_events = 0, bad_events = 0;
  bool maybe_ok = how == 4 || how == 5 || how == 3;
  vector<Fut<dap::ResponseOrError<dap::TokResponse>>> pend;
  for (int t = 0; t < nthreads; t++)
    ts.emplace_back("sender", [&, t] {
      for (int k = 0; k < per; k++) {
        if (sim::W(3) == 0) {
          dap::TokEvent e;
          e.id = t;
          if (sut([&] { return s->send(dap::TypeOf<dap::TokEvent>::type(), &e); })) ok_events++;
          else bad_events++;
          continue;
        }
        dap::TokRequest q;
        q.id = t * 10 + k;
        Fut<dap::ResponseOrError<dap::TokResponse>> f;
        sut([&] { f.f.reset(new dap::future<dap::ResponseOrError<dap::TokResponse>>(s->send(q))); });
        resolved++;
        auto st = sut([&] { return f.f->wait_for(std::chrono::seconds(0)); });
        if (st != dap::future_status::ready) {
          if (!maybe_ok) sim::violate("unresolved", "%s: the request could not be sent but its future is unresolved", names[how]);
          pend.push_back(std::move(f));
          continue;
        }
        auto r = sut([&] { return f.get(); });
        if (!r.error) sim::violate("false-success", "%s: a request that could not be answered succeeded", names[how]);
        if (r.error.message.empty()) sim::violate("empty-error", "%s: error without a message", names[how]);
        failed++;
      }
    });
  if (how == 4 || how == 5) {
    sim::count_fault(sim::LINK_LOCAL_CLOSE);
    sim::sleep_ns(sim::W(30) * kMs);
    if (sim::W(2)) w->close();
    else out->r_close();
  }
  for (auto& t : ts) t.join();
  if (how != 3 && how != 4 && how != 5 && ok_events) sim::violate("false-success", "%s: send(event) reported success", names[how]);
  // requests whose future is unresolved must be on the wire, completely
  vector<string> bodies;
  string rest, err;
  if (!split_frames(out->wire, &bodies, &rest, &err)) sim::violate("bad-frame", "%s", err.c_str());
  int reqs = 0, evs = 0;
  for (auto& b : bodies) {
    J m;
    if (!J::parse(b, &m) || !m.get("type")) sim::violate("bad-json", "%s", show(b).c_str());
    (m.get("type")->s == "request" ? reqs : evs)++;
  }
  if ((int)pend.size() != reqs) sim::violate("unresolved", "%s: %zu futures are pending but %d complete requests were written", names[how], pend.size(), reqs);
  if (ok_events != evs) sim::violate("false-success", "%s: %d events reported as sent, %d on the wire", names[how], ok_events, evs);
  if ((how <= 1 || how == 6) && errors >= 0 && errors < failed + bad_events) sim::violate("silent", "%s: %d sends failed, %d errors reported", names[how], failed + bad_events, errors);
  // later sends on the broken session still fail cleanly
  if (how >= 1) {
    w->close();
    dap::TokRequest q;
    auto r = sut([&] { return s->send(q).get(); });
    if (!r.error) sim::violate("false-success", "send after close succeeded");
  }
  sim::note("%s: threads=%d sends=%d failed=%d pending=%zu events ok=%d bad=%d", names[how], nthreads, resolved, failed, pend.size(), ok_events, bad_events);
  sut([&] { s.reset(); });
}

// Single writes fail and later ones work: only the messages concerned are lost,
// they are reported as such, and everything else goes on.
WORLD("P10", send_transient, "single calls of the writer fail, the stream stays open; what was reported as sent is on the wire, the rest is not") {
  swarm_sched();
  auto in = Link::make("in"), out = Link::make("out");
  in->faults = out->faults = false;
  std::unique_ptr<dap::Session> s;
  int errors = 0;
  sut([&] {
    s = dap::Session::create();
    s->onError([&](const char*) { HARNESS(); errors++; });
    s->registerHandler([&](const dap::TokRequest& r) -> dap::ResponseOrError<dap::TokResponse> {
      HARNESS();
      if (r.id % 2) return dap::Error("<a" + std::to_string((int64_t)r.id) + ">");
      return make_tok<dap::TokResponse>(r.id, "<a" + std::to_string((int64_t)r.id) + ">", {});
    });
    s->bind(in->reader(), out->writer());
  });
  int nthreads = 1 + sim::W(3), per = 1 + sim::W(4), nreq = sim::W(4);
  int nfail = 1 + sim::W(3);
  for (int k = 0; k < nfail; k++) out->fail_calls.insert(1 + sim::W(2 * (nthreads * per + nreq)));
  // the complete frame that carries the text
  auto find = [&](const string& text, J* m) {
    for (size_t p = out->wire.find(text); p != string::npos; p = out->wire.find(text, p + 1)) {
      size_t b = out->wire.rfind("\r\n\r\n", p), h = out->wire.rfind("Content-Length: ", p);
      if (b == string::npos || h == string::npos || h > b) continue;
      size_t len = strtoul(out->wire.c_str() + h + 16, nullptr, 10);
      if (out->wire.substr(h, b + 4 - h) != "Content-Length: " + std::to_string(len) + "\r\n\r\n") continue;
      if (b + 4 + len > out->wire.size() || !J::parse(out->wire.substr(b + 4, len), m) || !m->is(J::Obj)) continue;
      return true;
    }
    return false;
  };
  struct Sent { string text; bool ok; };
  int unsendables = 0;
  vector<Sent> all;
  vector<Fut<dap::ResponseOrError<dap::TokResponse>>> pend;
  vector<Task> ts;
  for (int t = 0; t < nthreads; t++)
    ts.emplace_back("sender", [&, t] {
      for (int k = 0; k < per; k++) {
        string text = "<m" + std::to_string(t * 100 + k) + ">";
        bool ok, unsendable = false;
        if (sim::W(6) == 0) {
          // a value that cannot be serialized
          unsendable = sim::W(4) != 0;
          if (sim::W(2)) {
            dap::BrittleEvent e;
            e.text = text;
            e.b.broken = unsendable;
            ok = sut([&] { return s->send(dap::TypeOf<dap::BrittleEvent>::type(), &e); });
          } else {
            dap::BrittleRequest q;
            q.text = text;
            q.b.broken = unsendable;
            Fut<dap::ResponseOrError<dap::TokResponse>> f;
            sut([&] { f.f.reset(new dap::future<dap::ResponseOrError<dap::TokResponse>>(s->send(q))); });
            ok = sut([&] { return f.f->wait_for(std::chrono::seconds(0)); }) != dap::future_status::ready;
            if (!ok) {
              auto r = sut([&] { return f.get(); });
              if (!r.error) sim::violate("false-success", "a request that nobody answered succeeded");
            } else pend.push_back(std::move(f));
          }
          if (unsendable && ok) sim::violate("false-success", "a message that cannot be serialized was reported as sent");
          unsendables += unsendable;
        } else if (sim::W(2)) {
          auto e = make_tok<dap::TokEvent>(k, text, {});
          ok = sut([&] { return s->send(dap::TypeOf<dap::TokEvent>::type(), &e); });
        } else {
          auto q = make_tok<dap::TokRequest>(k, text, {});
          Fut<dap::ResponseOrError<dap::TokResponse>> f;
          sut([&] { f.f.reset(new dap::future<dap::ResponseOrError<dap::TokResponse>>(s->send(q))); });
          ok = sut([&] { return f.f->wait_for(std::chrono::seconds(0)); }) != dap::future_status::ready;
          if (!ok) {
            auto r = sut([&] { return f.get(); });
            if (!r.error) sim::violate("false-success", "a request that nobody answered succeeded");
            if (r.error.message.empty()) sim::violate("empty-error", "error without a message");
          } else pend.push_back(std::move(f));
        }
        all.push_back({text, ok});
      }
    });
  for (int k = 0; k < nreq; k++) in->inject(frame(request_msg(k + 1, "tok", tok_args(k, "x", {})).dump()), sim::W(20) * kMs);
  for (auto& t : ts) t.join();
  sim::wait_quiescent(300000, "stuck");
  int failed = 0, lost = 0;
  J m;
  for (auto& a : all) {
    bool there = find(a.text, &m);
    if (a.ok && !there) sim::violate("false-success", "message %s was reported as sent but is not on the wire", a.text.c_str());
    if (!a.ok && there) sim::violate("false-failure", "message %s was reported as failed but is on the wire", a.text.c_str());
    failed += !a.ok;
  }
  for (int k = 0; k < nreq; k++) lost += !find("<a" + std::to_string(k) + ">", &m);
  if (failed + lost > out->failed_calls + unsendables) sim::violate("false-failure", "%d writes failed, %d messages and %d responses were lost", out->failed_calls, failed, lost);
  if (!out->failed_calls && !unsendables && errors) sim::violate("unexpected-error", "%d errors reported", errors);
  // everything works from here on
  out->fail_calls.clear();
  size_t mark = out->wire.size();
  auto q = make_tok<dap::TokRequest>(1, "<final>", {});
  Fut<dap::ResponseOrError<dap::TokResponse>> f;
  sut([&] { f.f.reset(new dap::future<dap::ResponseOrError<dap::TokResponse>>(s->send(q))); });
  if (!find("<final>", &m) || !m.get("seq")) sim::violate("later-send", "after a failed write, a request is not written any more");
  vector<string> bodies;
  string rest, err;
  if (!split_frames(out->wire.substr(mark), &bodies, &rest, &err) || bodies.size() != 1 || !rest.empty()) sim::violate("later-send", "after a failed write, a request is written as %s", show(out->wire.substr(mark)).c_str());
  in->inject(frame(J::obj().set("seq", (int64_t)90).set("type", "response").set("request_seq", m.get("seq")->i).set("success", true).set("command", "tok").set("body", tok_args(5, "fine", {})).dump()));
  in->inject(frame(request_msg(91, "tok", tok_args(98, "x", {})).dump()));
  auto r = sut([&] { return f.get(); });
  if (r.error || r.response.id != 5 || r.response.text != "fine") sim::violate("later-send", "after a failed write, a request does not get its response");
  sim::wait_quiescent(300000, "stuck");
  if (!find("<a98>", &m)) sim::violate("later-send", "after a failed write, a request is not answered any more");
  if (sim::W(2)) {
    // a response to anything but the requests that were sent is not expected by anyone
    std::set<int64_t> expected;
    int64_t top = 1;
    for (auto& a : all) if (a.ok && find(a.text, &m) && m.get("seq")) { top = std::max(top, m.get("seq")->i); if (m.get("type")->s == "request") expected.insert(m.get("seq")->i); }
    if (find("<a98>", &m) && m.get("seq")) top = std::max(top, m.get("seq")->i);
    int e0 = errors, n = 0;
    for (int64_t q = 1; q <= top; q++)
      if (!expected.count(q)) { n++; in->inject(frame(J::obj().set("seq", 100 + q).set("type", "response").set("request_seq", q).set("success", true).set("command", "tok").set("body", tok_args(6, "stale", {})).dump())); }
    sim::count_fault(sim::PEER_MALFORMED);
    sim::wait_quiescent(300000, "stuck");
    if (errors - e0 != n) sim::violate("stale-request", "%d responses to requests that were never sent, %d errors reported", n, errors - e0);
  }
  sim::note("sends=%zu failing calls=%d failed=%d responses lost=%d", all.size(), out->failed_calls, failed, lost);
  sut([&] { s.reset(); });
}

// One call of the writer takes part of the bytes, or none, and fails; the
// stream stays open.  Nothing is sent afterwards: what was written is a prefix
// of a stream of frames, and complete if success was reported.
WORLD("P02", wire_transient, "one write fails part-way on a stream that stays open; what was written is a prefix of a stream of frames") {
  swarm_sched();
  auto in = Link::make("in"), out = Link::make("out");
  in->faults = out->faults = false;
  std::unique_ptr<dap::Session> s;
  int answers = 0;
  sut([&] {
    s = dap::Session::create();
    s->registerHandler([&](const dap::TokRequest& r) -> dap::ResponseOrError<dap::TokResponse> {
      HARNESS();
      answers++;
      if (r.id % 2) return dap::Error("failed");
      return make_tok<dap::TokResponse>(r.id, r.text, {});
    });
    s->bind(in->reader(), out->writer());
  });
  int n = 1 + sim::W(5);
  out->fail_calls.insert(1 + sim::W(2 * n + 1));
  if (sim::W(2)) out->fail_part = 1 + sim::W(30);
  size_t ok_frames = 0;
  bool failed = false;
  for (int k = 0; k < n && !failed; k++) {
    string text = "m" + std::to_string(k) + rand_string(20);
    bool ok = true;
    switch (sim::W(3)) {
      case 0: { auto e = make_tok<dap::TokEvent>(k, text, {}); ok = sut([&] { return s->send(dap::TypeOf<dap::TokEvent>::type(), &e); }); break; }
      case 1: {
        auto q = make_tok<dap::TokRequest>(k, text, {});
        ok = sut([&] { return s->send(dap::TypeOf<dap::TokRequest>::type(), dap::TypeOf<dap::TokResponse>::type(), &q, [](const void*, const dap::Error*) {}); });
        break;
      }
      default:
        in->inject(frame(request_msg(k + 1, "tok", tok_args(k, text, {})).dump()));
        sim::wait_quiescent(300000, "stuck");
        ok = !out->write_failed;
        break;
    }
    failed = out->write_failed;
    vector<string> bodies;
    string rest, err;
    if (!split_frames(out->wire, &bodies, &rest, &err)) sim::violate("bad-frame", "%s", err.c_str());
    for (auto& b : bodies) { J m; if (!J::parse(b, &m)) sim::violate("bad-json", "frame body is not JSON: %s", show(b).c_str()); }
    if (failed) {
      if (ok && (!rest.empty() || bodies.size() != ok_frames + 1)) sim::violate("false-success", "a message whose write failed was reported as sent; the wire ends with %s", show(rest).c_str());
      if (!ok && bodies.size() != ok_frames) sim::violate("bad-frame", "%zu messages were sent, %zu frames written", ok_frames, bodies.size());
    } else {
      ok_frames++;
      if (!ok) sim::violate("send-failed", "a send on a working stream failed");
      if (!rest.empty() || bodies.size() != ok_frames) sim::violate("bad-frame", "%zu messages were sent, %zu frames written and %zu bytes left over", ok_frames, bodies.size(), rest.size());
    }
  }
  if (failed) sim::probe("write failed");
  sim::note("messages=%d failed=%d", n, (int)failed);
  sut([&] { s.reset(); });
}

// The response-sent handler: once per response, after the response is on the
// wire, with that response.
WORLD("P11", response_sent, "response-sent handlers against the wire") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_SEGMENT, sim::LINK_WRITE_BLOCK, sim::LINK_DELAY}, 60000);
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  HQueue<std::function<void()>> later;
  int n = 1 + sim::W(8);
  int mode = sim::W(3);
  bool reg2 = sim::W(2), use = sim::W(2), used_sent = false, used_event = false;
  std::map<int64_t, int> sent1, sent2;
  int total = 0;
  static const string tails[] = {"", " 100%", " %s%n%d", string(" a\0b", 4), string(3000, 'x'), " \xc3\xa9\"\\"};
  const string tail = tails[sim::W(6)];
  auto on_wire = [&](bool err, const string& text, const char* cmd) {
    vector<string> bodies;
    string rest, e;
    split_frames(out->wire, &bodies, &rest, &e);
    for (auto& b : bodies) {
      J m;
      if (!J::parse(b, &m)) continue;
      if (!m.get("type") || m.get("type")->s != "response" || !m.get("command") || m.get("command")->s != cmd) continue;
      if (err && m.get("message") && m.get("message")->s == text) return true;
      if (!err && m.get("body") && m.get("body")->get("text") && m.get("body")->get("text")->s == text) return true;
    }
    return false;
  };
  sut([&] {
    s = dap::Session::create();
    s->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "session reported: %s", m); });
    auto h1 = [&](const dap::TokRequest& r, std::function<void(dap::ResponseOrError<dap::TokResponse>)> cb) {
      HARNESS();
      dap::TokResponse o;
      o.id = r.id;
      o.text = "r" + std::to_string((int64_t)r.id) + tail;
      bool err = r.id % 3 == 2;
      auto f = [o, cb, err, &tail] {
        if (err) sut([&] { cb(dap::Error("e" + std::to_string((int64_t)o.id) + tail)); });
        else sut([&] { cb(o); });
      };
      if (mode == 0 || (mode == 1 && sim::W(2))) f();
      else { sim::count_fault(sim::HANDLER_ASYNC); later.put(f); }
    };
    s->registerHandler(std::move(h1));
    s->registerHandler([&](const dap::Tok2Request& r) -> dap::ResponseOrError<dap::Tok2Response> {
      HARNESS();
      if (r.id % 4 == 3) return dap::Error("e" + std::to_string((int64_t)r.id) + tail);
      dap::Tok2Response o;
      o.id = r.id;
      o.text = "r" + std::to_string((int64_t)r.id) + tail;
      return o;
    });
    s->registerSentHandler([&](const dap::ResponseOrError<dap::TokResponse>& r) {
      HARNESS();
      total++;
      int64_t id = r.error ? atoll(r.error.message.c_str() + 1) : (int64_t)r.response.id;
      if ((bool)r.error != (id % 3 == 2)) sim::violate("wrong-sent", "sent handler told error=%d for response %ld", (int)(bool)r.error, (long)id);
      string text = r.error ? r.error.message : r.response.text;
      if (!on_wire(r.error, text, "tok")) sim::violate("early-sent", "sent handler for response %ld ran before the response was written", (long)id);
      sent1[id]++;
      // the handler may use the session
      if (use && sim::W(3) == 0) switch (sim::W(3)) {
        case 0: { dap::TokEvent e; e.text = "r2"; sut([&] { s->send(e); }); break; }
        case 1: if (!used_sent) { used_sent = true; sut([&] { s->registerSentHandler([](const dap::ResponseOrError<dap::ThreadsResponse>&) {}); }); } break;
        case 2: if (!used_event) { used_event = true; sut([&] { s->registerHandler([](const dap::Tok2Event&) {}); }); } break;
      }
    });
    if (reg2) s->registerSentHandler([&](const dap::ResponseOrError<dap::Tok2Response>& r) {
      HARNESS();
      total++;
      int64_t id = r.error ? atoll(r.error.message.c_str() + 1) : (int64_t)r.response.id;
      if ((bool)r.error != (id % 4 == 3)) sim::violate("wrong-sent", "sent handler told error=%d for response2 %ld", (int)(bool)r.error, (long)id);
      if (!on_wire(r.error, r.error ? r.error.message : (string)r.response.text, "tok2")) sim::violate("early-sent", "sent handler for response2 %ld ran before the response was written", (long)id);
      sent2[id]++;
    });
    s->bind(in->reader(), out->writer());
  });
  vector<Task> tasks;
  for (int k = 0; k < 1 + (int)sim::W(3); k++)
    tasks.emplace_back("responder", [&] {
      std::function<void()> f;
      while (later.get(&f)) { if (sim::W(3) == 0) sim::sleep_ns(sim::W(20) * kMs); f(); }
    });
  Task noise("noise", [&] {
    for (uint32_t k = sim::W(4); k; k--) { dap::TokEvent e; e.text = "r1"; sut([&] { s->send(e); }); }
  });
  vector<int64_t> a, b;
  for (int k = 0; k < n; k++) {
    bool two = sim::W(3) == 0;
    (two ? b : a).push_back(k);
    J args = J::obj().set("id", (int64_t)k).set("text", "");
    if (!two) args.set("list", J::arr());
    in->inject(frame(request_msg(k, two ? "tok2" : "tok", args).dump()), sim::W(4) == 0 ? sim::W(30) * kMs : 0);
  }
  noise.join();
  sim::disarm_all();
  sim::wait_quiescent(300000, "stuck");
  for (auto k : a) if (sent1[k] != 1) sim::violate("not-once", "response %ld sent, sent handler ran %d times", (long)k, sent1[k]);
  for (auto k : b) if (sent2[k] != (reg2 ? 1 : 0)) sim::violate("not-once", "response2 %ld sent, sent handler ran %d times", (long)k, sent2[k]);
  if (total != (int)(a.size() + (reg2 ? b.size() : 0))) sim::violate("not-once", "%d sent notifications for %d responses", total, n);
  later.close();
  for (auto& t : tasks) t.join();
  sim::note("n=%d mode=%d second handler=%d", n, mode, reg2);
  sut([&] { s.reset(); });
}
