// Request/response correlation.
#include "kit.h"
using namespace kit;

namespace {
// One reply as the peer decided it.
struct Reply { bool is_error; int64_t id; string text; };

struct Client {
  std::unique_ptr<dap::Session> s;
};

string tok_text(int thread, int k) { return "t" + std::to_string(thread) + "." + std::to_string(k); }
}  // namespace

namespace {
// Never empty; mostly names the request.
string odd_text(const char* what, int64_t id) {
  switch (sim::W(12)) {
    case 0: return string(1, (char)('a' + id % 26));
    case 1: return what + std::to_string(id) + " %d %s 100%";
    case 2: return what + std::to_string(id) + string(1 + sim::W(3000), '.');
    case 3: return what + string(1, '\0') + std::to_string(id);
    default: return what + std::to_string(id);
  }
}
}  // namespace

// Two real sessions.  Several client threads keep several requests of two types
// outstanding; the server answers synchronously, through callbacks, from other
// threads, late and out of order.
WORLD("P01", rpc_two_sessions, "two real sessions, concurrent clients, sync/async/out-of-order server") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_DELAY, sim::LINK_SEGMENT, sim::LINK_WRITE_BLOCK});
  auto c2s = Link::make("c2s"), s2c = Link::make("s2c");
  std::unique_ptr<dap::Session> client, server;
  sut([&] { client = dap::Session::create(); server = dap::Session::create(); });
  HQueue<std::function<void()>> later;
  int handled = 0;
  uint32_t mode = sim::W(4);
  bool both_ways = sim::W(2), chat = sim::W(2);
  int heard[2] = {0, 0}, nchat = chat ? 1 + sim::W(4) : 0;   // events to the client, to the server
  auto chat_text = [](int k, int64_t id) { return (k ? "to the server: " : "to the client: ") + std::to_string(id) + string(id * 9, 'c'); };
  std::map<int64_t, Reply> expect;   // by request id: what the server answered
  auto decide = [&](int64_t id) {
    Reply r;
    r.id = id * 7 + 1;
    r.is_error = id % 5 == 3;
    r.text = odd_text("reply-", id);
    expect[id] = r;
    handled++;
    return r;
  };
  sut([&] {
    client->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "client session reported: %s", m); });
    server->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "server session reported: %s", m); });
    if (mode == 0) {
      server->registerHandler([&](const dap::TokRequest& r) -> dap::ResponseOrError<dap::TokResponse> {
        HARNESS();
        Reply p = decide(r.id);
        if (p.is_error) return dap::Error(p.text);
        dap::TokResponse o;
        o.id = p.id;
        o.text = p.text;
        return o;
      });
    } else {
      server->registerHandler([&](const dap::TokRequest& r, std::function<void(dap::ResponseOrError<dap::TokResponse>)> cb) {
        HARNESS();
        Reply p = decide(r.id);
        auto reply = [p, cb] {
          HARNESS();
          if (p.is_error) sut([&] { cb(dap::Error(p.text)); });
          else {
            dap::TokResponse o;
            o.id = p.id;
            o.text = p.text;
            sut([&] { cb(o); });
          }
        };
        if (mode == 1 || (mode == 3 && sim::W(2))) reply();
        else { sim::count_fault(sim::HANDLER_ASYNC); later.put(reply); }
      });
    }
    server->registerHandler([&](const dap::Tok2Request& r) {
      HARNESS();
      dap::Tok2Response o;
      o.id = r.id + 1;
      o.text = r.text + "!";
      handled++;
      return o;
    });
    if (both_ways) client->registerHandler([&](const dap::Tok2Request& r) {
      HARNESS();
      dap::Tok2Response o;
      o.id = r.id + 2;
      o.text = r.text + "?";
      return o;
    });
    for (int k = 0; chat && k < 2; k++)
      (k ? server : client)->registerHandler([&, k](const dap::TokEvent& e) {
        HARNESS();
        if (e.id != heard[k] || e.text != chat_text(k, e.id) || e.list.size() != (size_t)e.id || (e.id && e.list[0] != e.id))
          sim::violate("wrong-event", "event %ld arrived as event %d of this side, with %zu bytes of text", (long)e.id, heard[k], e.text.size());
        heard[k]++;
      });
    client->bind(s2c->reader(), c2s->writer());
    server->bind(c2s->reader(), s2c->writer());
  });
  int nthreads = 1 + sim::W(3), per = 1 + sim::W(4);
  int nresp = 1 + sim::W(2);
  vector<Task> tasks, resp;
  for (int k = 0; k < nresp; k++)
    resp.emplace_back("responder", [&] {
      // picks replies out of order
      std::vector<std::function<void()>> held;
      std::function<void()> f;
      // Never blocks while it still holds a reply.
      for (;;) {
        if (held.empty() || (later.size() && sim::W(2))) {
          if (!later.get(&f, held.empty() ? kNever : 0)) {
            if (held.empty()) break;
          } else {
            held.push_back(f);
            continue;
          }
        }
        size_t j = sim::W((uint32_t)held.size());
        if (j) sim::count_fault(sim::PEER_REORDER);
        auto g = held[j];
        held.erase(held.begin() + j);
        if (sim::W(4) == 0) sim::sleep_ns(sim::W(20) * kMs);
        g();
      }
    });
  int resolved = 0;
  for (int t = 0; t < nthreads; t++)
    tasks.emplace_back("client", [&, t] {
      struct P { int64_t id; bool two; string text; Fut<dap::ResponseOrError<dap::TokResponse>> f; Fut<dap::ResponseOrError<dap::Tok2Response>> f2; };
      std::vector<P> ps;
      for (int k = 0; k < per; k++) {
        P p;
        p.id = t * 100 + k;
        p.two = sim::W(4) == 0;
        p.text = tok_text(t, k);
        if (p.two) {
          dap::Tok2Request q;
          q.id = p.id;
          q.text = p.text;
          sut([&] { p.f2.f.reset(new dap::future<dap::ResponseOrError<dap::Tok2Response>>(client->send(q))); });
        } else {
          dap::TokRequest q;
          q.id = p.id;
          q.text = p.text;
          sut([&] { p.f.f.reset(new dap::future<dap::ResponseOrError<dap::TokResponse>>(client->send(q))); });
        }
        ps.push_back(std::move(p));
      }
      while (!ps.empty()) {
        size_t j = sim::W((uint32_t)ps.size());
        P p = std::move(ps[j]);
        ps.erase(ps.begin() + j);
        if (p.two) {
          auto r = sut([&] { return p.f2.get(); });
          if (r.error) sim::violate("wrong-response", "request %ld got an error '%s' the peer never sent", (long)p.id, r.error.message.c_str());
          if (r.response.id != p.id + 1 || r.response.text != p.text + "!")
            sim::violate("wrong-response", "request %ld got the response to another request (id %ld)", (long)p.id, (long)r.response.id);
        } else {
          auto r = sut([&] { return p.f.get(); });
          auto it = expect.find(p.id);
          if (it == expect.end()) sim::violate("wrong-response", "request %ld resolved before the peer handled it", (long)p.id);
          const Reply& e = it->second;
          if ((bool)r.error != e.is_error) sim::violate("wrong-response", "request %ld: error flag %d, peer answered error=%d", (long)p.id, (int)(bool)r.error, e.is_error);
          if (e.is_error && r.error.message != e.text) sim::violate("wrong-response", "request %ld: error message '%s', peer sent '%s'", (long)p.id, r.error.message.c_str(), e.text.c_str());
          if (!e.is_error && (r.response.id != e.id || r.response.text != e.text))
            sim::violate("wrong-response", "request %ld got the response to another request (id %ld instead of %ld)", (long)p.id, (long)r.response.id, (long)e.id);
        }
        resolved++;
      }
    });
  if (both_ways)
    tasks.emplace_back("reverse", [&] {
      for (int k = 0; k < per; k++) {
        dap::Tok2Request q;
        q.id = 5000 + k;
        q.text = "rev";
        auto r = sut([&] { return server->send(q).get(); });
        if (r.error || r.response.id != q.id + 2 || r.response.text != "rev?") sim::violate("wrong-response", "reverse request %d got a wrong response", k);
      }
    });
  for (int k = 0; chat && k < 2; k++)
    tasks.emplace_back("chat", [&, k] {
      for (int j = 0; j < nchat; j++) {
        dap::TokEvent e;
        e.id = j;
        e.text = chat_text(k, j);
        e.list.resize(j, dap::integer(j));
        sut([&] { (k ? client : server)->send(e); });
      }
    });
  for (auto& t : tasks) t.join();
  if (handled != nthreads * per) sim::violate("not-exactly-once", "%d requests sent, handlers ran %d times", nthreads * per, handled);
  later.close();
  for (auto& t : resp) t.join();
  if (chat) {
    sim::disarm_all();
    sim::wait_quiescent(350000, "stuck");
    for (int k = 0; k < 2; k++) if (heard[k] != nchat) sim::violate("lost", "%d events sent to the %s, %d arrived", nchat, k ? "server" : "client", heard[k]);
  }
  sim::note("clients=%d per=%d mode=%u both=%d chat=%d resolved=%d switches", nthreads, per, mode, both_ways, nchat, resolved);
  sut([&] { client.reset(); server.reset(); });
}

// One real session as the client; the harness is the peer.  It answers out of
// order, twice, and answers requests that were never made.
WORLD("P01", rpc_raw_peer, "real client session, raw peer with reordered, duplicated and bogus responses") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_DELAY, sim::LINK_SEGMENT, sim::LINK_WRITE_BLOCK});
  auto c2s = Link::make("c2s"), s2c = Link::make("s2c");
  std::unique_ptr<dap::Session> client;
  int errors = 0, junk = 0, odds = 0;
  bool hostile = sim::W(3) != 0;
  struct Ans { bool err; int64_t id; string text; int odd; };  // odd: 1 no body, 2 mistyped body, 3 error without message
  std::map<int64_t, Ans> answered;  // by request id
  int nthreads = 1 + sim::W(3), per = 1 + sim::W(4), window = 1 + sim::W(4);
  int total = nthreads * per;
  sut([&] {
    client = dap::Session::create();
    client->onError([&](const char*) { HARNESS(); errors++; });
    client->bind(s2c->reader(), c2s->writer());
  });
  Task peer("peer", [&] {
    FrameReader fr(c2s);
    struct Req { int64_t seq, id; string cmd, text; };
    vector<Req> held;
    vector<J> past;
    std::map<int64_t, int> seqs;
    int64_t myseq = 1000;
    int got = 0, done = 0;
    auto bogus = [&] {
      if (!hostile || sim::W(3)) return;
      J r;
      switch (sim::W(4)) {
        case 0:
          if (past.empty()) return;
          r = past[sim::W((uint32_t)past.size())];
          r.set("seq", myseq++);
          if (sim::W(2)) r = response_msg(myseq++, r.get("request_seq")->i, "tok", J::obj().set("id", (int64_t)-77).set("text", "duplicate").set("list", J::arr()));
          sim::count_fault(sim::PEER_DUP);
          break;
        case 1: {
          static const int64_t far[] = {0, -1, 4000000, (int64_t)1 << 31, ((int64_t)1 << 32), ((int64_t)1 << 53) + 1};
          int64_t base = far[sim::W(6)];
          if (!held.empty() && (base >= ((int64_t)1 << 31))) base += held[0].seq;
          if (seqs.count(base)) return;
          r = response_msg(myseq++, base, "tok", J::obj().set("id", (int64_t)-78).set("text", "unknown").set("list", J::arr()));
          sim::count_fault(sim::PEER_UNKNOWN);
          break;
        }
        case 2:
          r = error_msg(myseq++, 3000000 + sim::W(5), "tok", "bogus");
          sim::count_fault(sim::PEER_UNKNOWN);
          break;
        default:
          r = response_msg(myseq++, 0, "tok", J());
          r.erase("request_seq");
          sim::count_fault(sim::PEER_MALFORMED);
          break;
      }
      junk++;
      s2c->inject(frame(r.dump()));
    };
    while (done < total) {
      bool must_read = held.empty();
      if (must_read || (got < total && c2s->unread() && sim::W(2))) {
        J m;
        if (!fr.next(&m)) {
          if (!fr.bad.empty()) sim::violate("bad-frame", "%s", fr.bad.c_str());
          return;
        }
        const J* seq = m.get("seq"); const J* cmd = m.get("command"); const J* args = m.get("arguments");
        if (!seq || !cmd || !args || !args->get("id")) sim::violate("bad-request", "request lacks fields: %s", m.dump().c_str());
        if (seqs[seq->i]++) sim::violate("seq-reused", "two requests carry seq %ld", (long)seq->i);
        held.push_back({seq->i, args->get("id")->i, cmd->s, args->get("text") ? args->get("text")->s : ""});
        got++;
        bogus();
        continue;
      }
      size_t j = sim::W((uint32_t)held.size());
      if (j) sim::count_fault(sim::PEER_REORDER);
      Req q = held[j];
      held.erase(held.begin() + j);
      Ans a{sim::W(4) == 0, q.id * 3 + 2, odd_text("ans", q.id), 0};
      if (hostile && sim::W(8) == 0) {
        a.odd = a.err ? 3 : 1 + sim::W(2);
        if (a.odd == 1) a.id = 0, a.text = "";
      }
      answered[q.id] = a;
      J r = a.err ? error_msg(myseq++, q.seq, q.cmd, a.text)
                  : response_msg(myseq++, q.seq, q.cmd, J::obj().set("id", a.id).set("text", a.text).set("list", J::arr()));
      if (a.odd == 1) r.erase("body");
      if (a.odd == 2) r.set("body", sim::W(2) ? J("body") : J::obj().set("id", "x").set("text", (int64_t)1).set("list", (int64_t)2));
      if (a.odd == 3) r.erase("message");
      if (a.odd) odds++, sim::count_fault(sim::PEER_MALFORMED);
      if (a.odd != 2) past.push_back(r);
      if (sim::W(5) == 0) { sim::count_fault(sim::PEER_STALL); sim::sleep_ns(sim::W(300) * kMs); }
      s2c->inject(frame(r.dump()));
      done++;
      bogus();
    }
  });
  vector<Task> tasks;
  for (int t = 0; t < nthreads; t++)
    tasks.emplace_back("client", [&, t] {
      struct P { int64_t id; bool two; Fut<dap::ResponseOrError<dap::TokResponse>> f; Fut<dap::ResponseOrError<dap::Tok2Response>> f2; };
      vector<P> ps;
      auto collect = [&](size_t j) {
        P p = std::move(ps[j]);
        ps.erase(ps.begin() + j);
        bool err; string text, msg; int64_t id;
        if (p.two) { auto r = sut([&] { return p.f2.get(); }); err = r.error; msg = r.error.message; text = r.response.text; id = r.response.id; }
        else { auto r = sut([&] { return p.f.get(); }); err = r.error; msg = r.error.message; text = r.response.text; id = r.response.id; }
        auto it = answered.find(p.id);
        if (it == answered.end()) sim::violate("wrong-response", "request %ld resolved although the peer has not answered it", (long)p.id);
        const Ans& a = it->second;
        if (a.odd == 2) return;
        if (a.odd == 3 && err) return;
        if (err != a.err || (err ? msg != a.text : (id != a.id || text != a.text)))
          sim::violate("wrong-response", "request %ld: peer answered err=%d '%s', caller saw err=%d '%s' id=%ld", (long)p.id, a.err, a.text.c_str(), err,
                       show(err ? msg : text).c_str(), (long)id);
      };
      for (int k = 0; k < per; k++) {
        while ((int)ps.size() >= window) collect(sim::W((uint32_t)ps.size()));
        P p;
        p.id = t * 100 + k;
        p.two = sim::W(3) == 0;
        if (p.two) { dap::Tok2Request q; q.id = p.id; sut([&] { p.f2.f.reset(new dap::future<dap::ResponseOrError<dap::Tok2Response>>(client->send(q))); }); }
        else { dap::TokRequest q; q.id = p.id; sut([&] { p.f.f.reset(new dap::future<dap::ResponseOrError<dap::TokResponse>>(client->send(q))); }); }
        ps.push_back(std::move(p));
      }
      while (!ps.empty()) collect(sim::W((uint32_t)ps.size()));
    });
  for (auto& t : tasks) t.join();
  peer.join();
  sim::disarm_all();
  sim::wait_quiescent(200000, "stuck");
  if (!junk && !odds && errors) sim::violate("unexpected-error", "%d errors reported although the peer behaved", errors);
  if (errors < junk) sim::violate("silent-junk", "%d bogus responses arrived but only %d errors were reported", junk, errors);
  sim::note("threads=%d per=%d window=%d junk=%d errors=%d", nthreads, per, window, junk, errors);
  sut([&] { client.reset(); });
}

// One real session as the server; the harness sends requests with arbitrary
// sequence numbers and reads the responses off the wire.
WORLD("P01", rpc_raw_client, "real server session, raw client with arbitrary sequence numbers") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_DELAY, sim::LINK_SEGMENT, sim::LINK_WRITE_BLOCK});
  auto c2s = Link::make("c2s"), s2c = Link::make("s2c");
  std::unique_ptr<dap::Session> server;
  HQueue<std::function<void()>> later;
  int n = 1 + sim::W(8);
  uint32_t form = sim::W(4);
  auto is_err = [](int64_t id) { return id % 4 == 1; };
  sut([&] {
    server = dap::Session::create();
    server->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "session reported: %s", m); });
    if (form == 0)
      server->registerHandler([&](const dap::TokRequest& r) -> dap::ResponseOrError<dap::TokResponse> {
        HARNESS();
        if (is_err(r.id)) return dap::Error("no " + std::to_string(r.id));
        dap::TokResponse o;
        o.id = r.id * 2;
        o.text = r.text;
        return o;
      });
    else if (form == 1)
      server->registerHandler([&](const dap::TokRequest& r) {
        HARNESS();
        dap::TokResponse o;
        o.id = r.id * 2;
        o.text = r.text;
        return o;
      });
    else if (form == 2)
      server->registerHandler([&](const dap::TokRequest& r, std::function<void(dap::TokResponse)> cb) {
        HARNESS();
        dap::TokResponse o;
        o.id = r.id * 2;
        o.text = r.text;
        later.put([o, cb] { sut([&] { cb(o); }); });
      });
    else
      server->registerHandler([&](const dap::TokRequest& r, std::function<void(dap::ResponseOrError<dap::TokResponse>)> cb) {
        HARNESS();
        dap::TokResponse o;
        o.id = r.id * 2;
        o.text = r.text;
        int64_t id = r.id;
        auto f = [=] {
          if (is_err(id)) sut([&] { cb(dap::Error("no " + std::to_string(id))); });
          else sut([&] { cb(o); });
        };
        if (sim::W(2)) f(); else later.put(f);
      });
    server->registerHandler([&](const dap::Tok2Request& r) {
      HARNESS();
      return dap::Error("always " + std::to_string((int64_t)r.id));
    });
    server->bind(c2s->reader(), s2c->writer());
  });
  vector<Task> resp;
  for (uint32_t k = 0, m = 1 + sim::W(2); k < m; k++)
    resp.emplace_back("responder", [&] {
      std::function<void()> f;
      while (later.get(&f)) {
        sim::count_fault(sim::HANDLER_ASYNC);
        if (sim::W(3) == 0) sim::sleep_ns(sim::W(50) * kMs);
        f();
      }
    });
  struct Q { int64_t seq, id; bool two; string text; int answers = 0; };
  vector<Q> qs;
  static const int64_t base[] = {1, 0, 100, 2147483646LL, 2147483647LL, 4294967295LL, 1LL << 40, 9007199254740990LL, -5};
  int64_t b = base[sim::W(9)];
  for (int k = 0; k < n; k++) {
    Q q{b + (int64_t)(sim::W(6) == 5 ? 0 : k), k, sim::W(5) == 4, rand_string(8)};
    qs.push_back(q);
  }
  Task sender("sender", [&] {
    for (auto& q : qs) {
      J args = J::obj().set("id", q.id).set("text", q.text);
      if (!q.two) args.set("list", J::arr());
      c2s->inject(frame(request_msg(q.seq, q.two ? "tok2" : "tok", args).dump()), sim::W(4) == 0 ? sim::W(40) * kMs : 0);
    }
  });
  FrameReader fr(s2c);
  for (int k = 0; k < n; k++) {
    J m;
    if (!fr.next(&m)) sim::violate("lost-response", "stream ended after %d of %d responses %s", k, n, fr.bad.c_str());
    const J *rs = m.get("request_seq"), *ok = m.get("success"), *cmd = m.get("command"), *body = m.get("body"), *msg = m.get("message"), *ty = m.get("type");
    if (!rs || !rs->is(J::Int) || !ok || !ok->is(J::Bool) || !cmd || !ty || ty->s != "response") sim::violate("bad-response", "%s", m.dump().c_str());
    // match by content, then check the correlation fields
    bool found = false;
    for (auto& q : qs) {
      if (q.answers) continue;
      bool err = q.two || ((form == 0 || form == 3) && is_err(q.id));
      string want = q.two ? "always " + std::to_string(q.id) : "no " + std::to_string(q.id);
      if (err ? (!ok->b && msg && msg->s == want) : (ok->b && body && body->get("id") && body->get("id")->i == q.id * 2)) {
        if (rs->i != q.seq) sim::violate("wrong-correlation", "response to request seq %ld carries request_seq %ld", (long)q.seq, (long)rs->i);
        if (cmd->s != (q.two ? "tok2" : "tok")) sim::violate("wrong-correlation", "response command is '%s'", cmd->s.c_str());
        if (!err && (!body->get("text") || body->get("text")->s != q.text)) sim::violate("wrong-body", "response to %ld has text '%s'", (long)q.id, body->dump().c_str());
        q.answers++;
        found = true;
        break;
      }
    }
    if (!found) sim::violate("unexpected-response", "response matches no outstanding request: %s", m.dump().c_str());
  }
  sender.join();
  later.close();
  for (auto& t : resp) t.join();
  sim::disarm_all();
  sim::wait_quiescent(200000, "stuck");
  if (s2c->unread()) sim::violate("extra-response", "%zu bytes follow the last response", s2c->unread());
  sim::note("n=%d form=%u base=%ld", n, form, (long)b);
  sut([&] { server.reset(); });
}
