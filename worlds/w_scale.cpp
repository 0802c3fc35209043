// The same guarantees at sizes and counts far beyond a handful: counters that
// wrap, tables and queues that fill, buffers that grow.
#include "kit.h"
#include "dap/network.h"
#include "chan.h"
#include "rwmutex.h"
#include <cstring>
using namespace kit;

namespace {
// 300 .. 8200
int many() {
  switch (sim::W(4)) {
    case 0: return 300 + sim::W(300);
    case 1: return 1100 + sim::W(1000);
    case 2: return 4200 + sim::W(4000);
    default: return 600 + sim::W(600);
  }
}
// sometimes beyond 16 bits
int very_many() { return sim::W(5) == 0 ? 66000 : many(); }
// 64 KiB .. 5 MiB, around powers of two.
size_t huge() {
  size_t b = (size_t)1 << (16 + sim::W(7));
  switch (sim::W(3)) {
    case 0: return b + sim::W(9) - 4;
    case 1: return b + sim::W((uint32_t)(b / 4));
    default: return b - 1 - sim::W((uint32_t)(b / 4));
  }
}
string filler(size_t n, uint32_t salt) {
  string s(n, 0);
  for (size_t i = 0; i < n; i++) s[i] = (char)('!' + ((i * 2654435761u + salt * 40503u) >> 9) % 90);
  for (char& c : s) if (c == '"' || c == '\\') c = '_';
  return s;
}
string bytes_of(size_t n, uint32_t salt) {
  string s(n, 0);
  for (size_t i = 0; i < n; i++) s[i] = (char)((i * 2654435761u + salt * 40503u) >> 11);
  return s;
}
J tok_body(int64_t id, const string& text) { return J::obj().set("id", id).set("text", text).set("list", J::arr()); }
void check_text(const string& got, const string& want, const char* what) {
  if (got == want) return;
  size_t k = 0;
  while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
  sim::violate("wrong-payload", "%s: %zu bytes became %zu, first difference at byte %zu", what, want.size(), got.size(), k);
}
template <typename T>
T make_tok(int64_t id, const string& text) {
  T t;
  t.id = id;
  t.text = text;
  return t;
}
void light_sched() { swarm({sim::SPURIOUS_WAKE}, 200); }
}  // namespace

WORLD("P01", long_rpc, "hundreds to tens of thousands of requests on one session, up to 2000 of them outstanding") {
  sim::long_run(40000000);
  light_sched();
  auto c2s = Link::make("c2s"), s2c = Link::make("s2c");
  std::unique_ptr<dap::Session> s;
  int n = very_many();
  if (sim::W(3) == 0) {
    // real session as the server
    int64_t first = sim::W(2) ? 1 : (int64_t)1 << 31;
    sut([&] {
      s = dap::Session::create();
      s->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "session reported: %s", m); });
      s->registerHandler([](const dap::TokRequest& q) -> dap::ResponseOrError<dap::TokResponse> {
        HARNESS();
        if (q.id % 97 == 5) return dap::Error("no " + std::to_string((int64_t)q.id));
        dap::TokResponse r;
        r.id = q.id * 2;
        return r;
      });
      s->bind(c2s->reader(), s2c->writer());
    });
    Task client("client", [&] {
      string batch;
      for (int k = 0; k < n; k++) {
        batch += frame(request_msg(first + k, "tok", tok_body(k, "")).dump());
        if (batch.size() > 20000 || k + 1 == n) { c2s->inject(batch); batch.clear(); }
      }
    });
    FrameReader fr(s2c);
    vector<char> seen(n, 0);
    for (int k = 0; k < n; k++) {
      J m;
      if (!fr.next(&m)) sim::violate("lost-response", "stream ended after %d of %d responses %s", k, n, fr.bad.c_str());
      const J *rs = m.get("request_seq"), *ok = m.get("success"), *b = m.get("body"), *msg = m.get("message");
      if (!rs || !ok) sim::violate("bad-response", "%s", m.dump().c_str());
      int64_t id = rs->i - first;
      if (id < 0 || id >= n || seen[id]) sim::violate("wrong-correlation", "response %d names request_seq %ld", k, (long)rs->i);
      seen[id] = 1;
      if (id % 97 == 5 ? (ok->b || !msg || msg->s != "no " + std::to_string(id)) : (!ok->b || !b || !b->get("id") || b->get("id")->i != id * 2))
        sim::violate("wrong-response", "request %ld was answered with %s", (long)id, m.dump().c_str());
    }
    client.join();
    sim::note("server n=%d", n);
    sut([&] { s.reset(); });
    return;
  }
  static const int wins[] = {1, 20, 300, 2000};
  size_t window = wins[sim::W(4)];
  sut([&] {
    s = dap::Session::create();
    s->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "session reported: %s", m); });
    s->bind(s2c->reader(), c2s->writer());
  });
  Task peer("peer", [&] {
    FrameReader fr(c2s);
    vector<std::pair<int64_t, int64_t>> held;
    std::set<int64_t> seqs;
    size_t hold = window == 1 ? 1 : 1 + sim::W((uint32_t)window);
    int got = 0, done = 0;
    while (done < n) {
      if (got < n && (held.empty() || (held.size() < hold && c2s->unread()))) {
        J m;
        if (!fr.next(&m)) sim::violate("bad-frame", "stream ended after %d requests %s", got, fr.bad.c_str());
        if (!m.get("seq") || !m.get("arguments") || !m.get("arguments")->get("id")) sim::violate("bad-request", "%s", m.dump().c_str());
        if (!seqs.insert(m.get("seq")->i).second) sim::violate("seq-reused", "two requests carry seq %ld", (long)m.get("seq")->i);
        held.push_back({m.get("seq")->i, m.get("arguments")->get("id")->i});
        got++;
        continue;
      }
      string batch;
      for (size_t k = 1 + sim::W(8); k && !held.empty(); k--) {
        size_t j = held.size() > 1 && sim::W(2) ? sim::W((uint32_t)held.size()) : 0;
        auto h = held[j];
        held[j] = held.back();
        held.pop_back();
        batch += frame(response_msg(done, h.first, "tok", tok_body(h.second * 3 + 1, "")).dump());
        done++;
      }
      s2c->inject(batch);
    }
  });
  int nt = 1 + sim::W(2);
  vector<Task> ts;
  for (int t = 0; t < nt; t++)
    ts.emplace_back("client", [&, t] {
      std::deque<std::pair<int64_t, Fut<dap::ResponseOrError<dap::TokResponse>>>> ps;
      auto collect = [&] {
        auto p = std::move(ps.front());
        ps.pop_front();
        auto r = sut([&] { auto x = p.second.get(); p.second.f.reset(); return x; });
        if (r.error) sim::violate("wrong-response", "request %ld got the error '%s'", (long)p.first, r.error.message.c_str());
        if (r.response.id != p.first * 3 + 1) sim::violate("wrong-response", "request %ld got the response to another request (id %ld)", (long)p.first, (long)r.response.id);
      };
      for (int64_t k = t; k < n; k += nt) {
        while (ps.size() * nt >= window && !ps.empty()) collect();
        dap::TokRequest q;
        q.id = k;
        Fut<dap::ResponseOrError<dap::TokResponse>> f;
        sut([&] { f.f.reset(new dap::future<dap::ResponseOrError<dap::TokResponse>>(s->send(q))); });
        ps.emplace_back(k, std::move(f));
      }
      while (!ps.empty()) collect();
    });
  for (auto& t : ts) t.join();
  peer.join();
  sim::note("client n=%d window=%zu threads=%d", n, window, nt);
  sut([&] { s.reset(); });
}

WORLD("P02", long_wire, "tens of thousands of messages, or messages of several megabytes, on one stream") {
  sim::long_run(40000000);
  light_sched();
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  bool fat = sim::W(2);
  int n = fat ? 2 + sim::W(4) : very_many(), nt = 1 + sim::W(2);
  sut([&] {
    s = dap::Session::create();
    s->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "session reported: %s", m); });
    s->registerHandler([](const dap::TokRequest& q) { HARNESS(); dap::TokResponse r; r.id = q.id; r.text = q.text; return r; });
    s->bind(in->reader(), out->writer());
  });
  int answers = sim::W(2) ? (fat ? 1 : std::min(n, 3000)) : 0;
  vector<string> text(n);
  for (auto& t : text) t = fat ? filler(huge(), (uint32_t)(&t - &text[0])) : "";
  vector<Task> ts;
  for (int t = 0; t < nt; t++)
    ts.emplace_back("sender", [&, t] {
      for (int k = t; k < n; k += nt) {
        if (k % 5 == 3) {
          dap::Tok2Request q;
          q.id = k;
          q.text = text[k];
          sut([&] { s->send(q); });
        } else {
          dap::TokEvent e;
          e.id = k;
          e.text = text[k];
          sut([&] { s->send(e); });
        }
      }
    });
  string big = fat && answers ? filler(huge(), 77) : "";
  {
    string batch;
    for (int k = 0; k < answers; k++) {
      batch += frame(request_msg(k, "tok", tok_body(k, big)).dump());
      if (batch.size() > 20000 || k + 1 == answers) { in->inject(batch); batch.clear(); }
    }
  }
  for (auto& t : ts) t.join();
  sim::wait_quiescent(30000000, "stuck");
  vector<string> bodies;
  string rest, err;
  if (!split_frames(out->wire, &bodies, &rest, &err) || !rest.empty()) sim::violate("bad-frame", "%s", err.c_str());
  std::set<int64_t> seqs;
  vector<char> seen(n, 0), ans(answers, 0);
  for (auto& b : bodies) {
    J m;
    if (!J::parse(b, &m)) sim::violate("bad-json", "a frame of %zu bytes is not JSON: %s", b.size(), show(b).c_str());
    if (!m.get("seq") || !seqs.insert(m.get("seq")->i).second) sim::violate("seq-reused", "two messages carry seq %ld", m.get("seq") ? (long)m.get("seq")->i : -1);
    bool resp = m.get("type") && m.get("type")->s == "response";
    const J* p = m.get(resp || m.get("event") ? "body" : "arguments");
    if (!p || !p->get("id") || !p->get("text")) sim::violate("bad-message", "%s", show(b).c_str());
    int64_t id = p->get("id")->i;
    auto& tab = resp ? ans : seen;
    if (id < 0 || id >= (int64_t)tab.size() || tab[id]) sim::violate("not-once", "message %ld was written twice or never sent", (long)id);
    tab[id] = 1;
    check_text(p->get("text")->s, resp ? big : text[id], "message");
  }
  if (bodies.size() != (size_t)n + answers) sim::violate("lost", "%d messages were sent, %zu written", n + answers, bodies.size());
  sim::note("n=%d fat=%d answers=%d bytes=%zu", n, fat, answers, out->wire.size());
  sut([&] { s.reset(); });
}

WORLD("P03", long_dispatch, "thousands of messages queue up behind a slow handler") {
  sim::long_run(40000000);
  light_sched();
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  int n = many(), next = 0;
  bool slow = sim::W(3) != 0, inside = false, nested = sim::W(2);
  auto step = [&](int64_t id) {
    if (inside) sim::violate("overlap", "two handlers run at the same time (message %ld)", (long)id);
    inside = true;
    if (id != next) sim::violate(id < next ? "not-once" : "wrong-order", "message %ld was handled where %d was due", (long)id, next);
    next++;
    if (nested && id == 0) {   // waits for a response that arrives behind all the rest
      dap::Tok2Request q;
      q.id = 5;
      auto r = sut([&] { return s->send(q).get(); });
      if (r.error || r.response.id != 6) sim::violate("wrong-response", "the request of a handler got a wrong response");
    } else if (slow && id % 1000 == 0) { sim::count_fault(sim::HANDLER_SLOW); sim::sleep_ns(id ? 1000 * kMs : 60 * kSec); }
    inside = false;
  };
  int closes = 0;
  sut([&] {
    s = dap::Session::create();
    s->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "session reported: %s", m); });
    s->registerHandler([&](const dap::TokEvent& e) { HARNESS(); step(e.id); });
    s->registerHandler([&](const dap::TokRequest& q) { HARNESS(); step(q.id); dap::TokResponse r; r.id = q.id; return r; });
    s->bind(in->reader(), out->writer(), [&] { HARNESS(); closes++; });
  });
  string batch;
  for (int k = 0; k < n; k++) {
    J b = tok_body(k, "");
    batch += frame((k % 7 == 2 ? request_msg(k, "tok", b) : event_msg(k, "tokev", b)).dump());
    if (batch.size() > 20000 || k + 1 == n) { in->inject(batch); batch.clear(); if (sim::W(3) == 0) sim::sleep_ns(sim::W(3000) * kMs); }
  }
  if (nested) {
    FrameReader fr(out);
    J m;
    while (fr.next(&m) && m.get("type")->s != "request") {}
    in->inject(frame(response_msg(70000, m.get("seq")->i, "tok2", J::obj().set("id", 6).set("text", "")).dump()));
  }
  bool end = sim::W(2);
  if (end) in->w_close();
  sim::wait_quiescent(35000000, "stuck");
  if (next != n) sim::violate("lost", "%d messages arrived, %d were handled", n, next);
  if (closes != (end ? 1 : 0)) sim::violate("not-once", "the close callback ran %d times", closes);
  sim::note("n=%d slow=%d", n, slow);
  sut([&] { s.reset(); });
}

WORLD("P04", big_values, "values with thousands of elements, megabytes of text and deep nesting between two sessions") {
  sim::long_run(40000000);
  light_sched();
  auto a2b = Link::make("a2b"), b2a = Link::make("b2a");
  std::unique_ptr<dap::Session> a, b;
  struct Node {   // builds the same value twice: as dap::any and as J
    static dap::any build(int depth, J* j) {
      switch (depth <= 0 ? sim::W(5) : 5 + sim::W(2)) {
        case 0: { int64_t v = (int64_t)sim::W64(); *j = J(v); return dap::any(dap::integer(v)); }
        case 1: { bool v = sim::W(2); *j = J(v); return dap::any(dap::boolean(v)); }
        case 2: { double v = (double)(int32_t)sim::W(0xffffffffu) / (sim::W(2) ? 1024 : 1); *j = J(v); return dap::any(dap::number(v)); }
        case 3: { string v = rand_string(30); *j = J(v); return dap::any(dap::string(v)); }
        case 4: *j = J(); return dap::any(dap::null());
        case 5: {
          dap::array<dap::any> v;
          *j = J::arr();
          for (uint32_t n = 1 + sim::W(2); n; n--) { J e; v.push_back(build(n == 1 ? depth - 1 : 0, &e)); j->push(e); }
          return dap::any(v);
        }
        default: {
          dap::object v;
          *j = J::obj();
          for (uint32_t n = 1 + sim::W(2); n; n--) { string k = "k" + std::to_string(n); J e; v[k] = build(n == 1 ? depth - 1 : 0, &e); j->set(k, e); }
          return dap::any(v);
        }
      }
    }
    static bool equal(const dap::any& v, const J& j) {
      switch (j.t) {
        case J::Null: return v.is<dap::null>();
        case J::Bool: return v.is<dap::boolean>() && v.get<dap::boolean>() == j.b;
        case J::Int: return v.is<dap::integer>() && v.get<dap::integer>() == j.i;
        case J::Dbl: return v.is<dap::number>() && v.get<dap::number>() == j.d;
        case J::Str: return v.is<dap::string>() && v.get<dap::string>() == j.s;
        case J::Arr: {
          if (!v.is<dap::array<dap::any>>()) return false;
          auto& x = v.get<dap::array<dap::any>>();
          if (x.size() != j.a.size()) return false;
          for (size_t k = 0; k < x.size(); k++) if (!equal(x[k], j.a[k])) return false;
          return true;
        }
        default: {
          if (!v.is<dap::object>()) return false;
          auto& x = v.get<dap::object>();
          if (x.size() != j.o.size()) return false;
          for (auto& p : j.o) { auto it = x.find(p.first); if (it == x.end() || !equal(it->second, p.second)) return false; }
          return true;
        }
      }
    }
  };
  dap::LaunchRequest dummy;
  (void)dummy;
  uint32_t kind = sim::W(5);
  // what is sent
  dap::OutputEvent ev;
  dap::SetBreakpointsRequest bp;
  dap::TokRequest tk;
  dap::StackTraceResponse st;
  J tree;
  size_t n = 0;
  switch (kind) {
    case 0: n = huge(); ev.output = filler(n, 1); ev.category = "c"; break;
    case 1: {
      n = sim::W(2) ? 5 + sim::W(100) : 100 + sim::W(280);
      dap::object o;
      o["tree"] = Node::build((int)n, &tree);
      ev.data = o;
      break;
    }
    case 2: {
      n = sim::W(4) == 0 ? 65000 + sim::W(10000) : 300 + sim::W(sim::W(2) ? 3000 : 30000);
      for (size_t k = 0; k < n; k++) tk.list.push_back((int64_t)k * 1234567891 - 5000);
      tk.text = filler(sim::W(3000), 5);
      break;
    }
    case 3: {
      n = 300 + sim::W(5000);
      dap::array<dap::SourceBreakpoint> l;
      for (size_t k = 0; k < n; k++) {
        dap::SourceBreakpoint x;
        x.line = (int64_t)k;
        if (k % 3 == 1) x.column = (int64_t)k * 2;
        if (k % 5 == 2) x.condition = "c" + std::to_string(k);
        l.push_back(x);
      }
      bp.breakpoints = l;
      bp.source.path = filler(2000, 3);
      break;
    }
    default: {
      n = 300 + sim::W(5000);
      dap::object o;
      for (size_t k = 0; k < n; k++) o["key" + std::to_string(k * 7919)] = dap::any(dap::integer((int64_t)k));
      ev.data = o;
      break;
    }
  }
  int got = 0;
  sut([&] {
    a = dap::Session::create();
    b = dap::Session::create();
    auto err = [](const char* m) { HARNESS(); sim::violate("unexpected-error", "session reported: %s", m); };
    a->onError(err);
    b->onError(err);
    b->registerHandler([&](const dap::OutputEvent& e) {
      HARNESS();
      got++;
      if (kind == 0) check_text(e.output, ev.output, "output");
      else {
        if (!e.data || !e.data->is<dap::object>()) sim::violate("wrong-value", "an object arrived as something else");
        auto& o = e.data->get<dap::object>();
        if (kind == 1) { if (!o.count("tree") || !Node::equal(o.at("tree"), tree)) sim::violate("wrong-value", "a value nested %zu deep changed on the way", n); }
        else {
          if (o.size() != n) sim::violate("wrong-value", "an object of %zu members arrived with %zu", n, o.size());
          for (size_t k = 0; k < n; k++) {
            auto it = o.find("key" + std::to_string(k * 7919));
            if (it == o.end() || !it->second.is<dap::integer>() || it->second.get<dap::integer>() != (int64_t)k) sim::violate("wrong-value", "member %zu of %zu changed", k, n);
          }
        }
      }
    });
    b->registerHandler([&](const dap::SetBreakpointsRequest& r) {
      HARNESS();
      got++;
      if (r.source.path.value("") != bp.source.path.value("")) sim::violate("wrong-value", "the path changed");
      if (!r.breakpoints || r.breakpoints->size() != n) sim::violate("wrong-value", "%zu elements became %zu", n, r.breakpoints ? r.breakpoints->size() : 0);
      dap::SetBreakpointsResponse out;
      for (size_t k = 0; k < n; k++) {
        const dap::SourceBreakpoint &x = (*r.breakpoints)[k], &y = (*bp.breakpoints)[k];
        if (x.line != y.line || x.column.has_value() != y.column.has_value() || x.column.value(0) != y.column.value(0) || x.condition.value("") != y.condition.value("")) sim::violate("wrong-value", "element %zu of %zu changed", k, n);
        dap::Breakpoint z;
        z.verified = k % 2;
        z.line = x.line;
        out.breakpoints.push_back(z);
      }
      return out;
    });
    b->registerHandler([&](const dap::TokRequest& r) {
      HARNESS();
      got++;
      if (r.list != tk.list || r.text != tk.text) sim::violate("wrong-value", "a list of %zu numbers changed (%zu arrived)", n, r.list.size());
      dap::TokResponse out;
      out.list = r.list;
      return out;
    });
    a->bind(b2a->reader(), a2b->writer());
    b->bind(a2b->reader(), b2a->writer());
  });
  if (kind == 2) {
    auto r = sut([&] { return a->send(tk).get(); });
    if (r.error || r.response.list != tk.list) sim::violate("wrong-value", "a list of %zu numbers changed in the response", n);
  } else if (kind == 3) {
    auto r = sut([&] { return a->send(bp).get(); });
    if (r.error || r.response.breakpoints.size() != n) sim::violate("wrong-value", "%zu elements in the response became %zu", n, r.response.breakpoints.size());
    for (size_t k = 0; k < n; k++)
      if (r.response.breakpoints[k].verified != (k % 2 == 1) || r.response.breakpoints[k].line.value(-1) != (int64_t)k) sim::violate("wrong-value", "element %zu of %zu changed in the response", k, n);
  } else sut([&] { a->send(ev); });
  sim::wait_quiescent(35000000, "stuck");
  if (got != 1) sim::violate("lost", "the message was handled %d times", got);
  sim::note("kind=%u n=%zu", kind, n);
  sut([&] { a.reset(); b.reset(); });
}

WORLD("P05", long_stream, "megabyte bodies, long header garbage and tens of thousands of messages in odd segments") {
  sim::long_run(60000000);
  light_sched();
  auto in = Link::make("in"), out = Link::make("out");
  uint32_t kind = sim::W(4);   // 0: huge bodies, 1: many small, 2: tiny reads, 3: mixed
  in->faults = false;
  static const size_t caps[] = {0, 1, 3, 17, 255, 256, 257, 1000, 4096, 65536};
  in->max_read = kind == 2 ? 1 + sim::W(5) : caps[sim::W(10)];
  if (kind == 0 && in->max_read && in->max_read < 200) in->max_read = 1000;
  std::unique_ptr<dap::Session> s;
  int n = kind == 0 ? 1 + sim::W(3) : kind == 1 ? many() : kind == 2 ? 50 + sim::W(300) : 20 + sim::W(60), next = 0;
  vector<size_t> len(n);
  size_t total = 0;
  for (auto& l : len) {
    l = kind == 0 ? huge() : kind == 3 ? sim::W(sim::W(4) ? 3000 : 40000) : sim::W(60);
    total += l;
  }
  sut([&] {
    s = dap::Session::create();
    s->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "session reported: %s", m); });
    s->registerHandler([&](const dap::TokEvent& e) {
      HARNESS();
      if (e.id != next) sim::violate("wrong-order", "message %ld arrived where %d was due", (long)e.id, next);
      check_text(e.text, filler(len[next], next), "message");
      next++;
    });
    s->bind(in->reader(), out->writer());
  });
  string batch;
  for (int k = 0; k < n; k++) {
    batch += frame(event_msg(k, "tokev", tok_body(k, filler(len[k], k))).dump());
    if (batch.size() > 50000 || k + 1 == n || (kind != 1 && sim::W(3) == 0)) {
      size_t seg = sim::W(3) ? batch.size() : 1 + sim::W((uint32_t)batch.size());
      for (size_t p = 0; p < batch.size(); p += seg) in->inject(batch.substr(p, seg));
      batch.clear();
      // complete messages need no later byte
      if (sim::W(3) == 0) { sim::wait_quiescent(50000000, "stuck"); if (next != k + 1) sim::violate("lost", "%d messages arrived, %d were delivered", k + 1, next); }
    }
  }
  sim::wait_quiescent(55000000, "stuck");
  if (next != n) sim::violate("lost", "%d messages arrived, %d were delivered", n, next);
  sim::note("kind=%u n=%d bytes=%zu", kind, n, total);
  sut([&] { s.reset(); });
}

WORLD("P06", long_garbage, "kilobytes of garbage between messages, hundreds of times, under both policies") {
  sim::long_run(60000000);
  light_sched();
  auto in = Link::make("in"), out = Link::make("out");
  static const size_t caps[] = {0, 7, 255, 256, 257, 1000};
  in->max_read = caps[sim::W(6)];
  in->faults = false;
  std::unique_ptr<dap::Session> s;
  bool close = sim::W(3) == 0;
  int n = sim::W(2) ? 3 + sim::W(10) : 200 + sim::W(200), next = 0, closes = 0;
  size_t unit = n > 100 ? 40 : 20000;
  sut([&] {
    s = dap::Session::create();
    s->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "session reported: %s", m); });
    s->setOnInvalidData(close ? dap::kClose : dap::kIgnore);
    s->registerHandler([&](const dap::TokEvent& e) {
      HARNESS();
      if (e.id != next) sim::violate("wrong-order", "message %ld arrived where %d was due", (long)e.id, next);
      next++;
    });
    s->bind(in->reader(), out->writer(), [&] { HARNESS(); closes++; });
  });
  // garbage without a 'C', so that it cannot hold the start of a header
  auto junk = [&] { string g = bytes_of(1 + sim::W((uint32_t)unit), sim::W(1000)); for (char& c : g) if (c == 'C') c = 'c'; return g; };
  for (int k = 0; k < n; k++) {
    if (!close) { sim::count_fault(sim::LINK_GARBAGE); in->inject(junk()); }
    in->inject(frame(event_msg(k, "tokev", tok_body(k, "")).dump()));
  }
  if (close) { sim::count_fault(sim::LINK_GARBAGE); in->inject(junk()); for (int k = 0; k < 3; k++) in->inject(frame(event_msg(1, "tokev", tok_body(5000 + k, "")).dump())); }
  sim::wait_quiescent(55000000, "stuck");
  if (next != n) sim::violate("lost", "%d messages arrived, %d were delivered", n, next);
  if (closes != (close ? 1 : 0) || in->r_closed() != close) sim::violate("closed", "close policy %d: closed=%d, notified %d times", close, in->r_closed(), closes);
  sim::note("n=%d close=%d", n, close);
  sut([&] { s.reset(); });
}

WORLD("P08", long_close, "the connection ends, or the session is destroyed, behind thousands of unhandled messages") {
  sim::long_run(40000000);
  light_sched();
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  int n = many(), ran = 0, closes = 0, after = 0;
  bool ended = false, gone = false, destroy = sim::W(3) == 0;
  sut([&] {
    s = dap::Session::create();
    s->registerHandler([&](const dap::TokEvent& e) {
      HARNESS();
      if (gone) after++;
      if (e.id != ran) sim::violate("wrong-order", "message %ld handled where %d was due", (long)e.id, ran);
      ran++;
      if (e.id % 500 == 0) sim::sleep_ns(sim::W(30) * kSec);
    });
    s->bind(in->reader(), out->writer(), [&] {
      HARNESS();
      if (!ended) sim::violate("early-close", "the close callback ran while the connection was open");
      if (gone) after++;
      closes++;
    });
  });
  string batch;
  for (int k = 0; k < n; k++) {
    batch += frame(event_msg(k, "tokev", tok_body(k, "")).dump());
    if (batch.size() > 20000 || k + 1 == n) { in->inject(batch); batch.clear(); }
  }
  if (!destroy) {
    if (sim::W(2)) sim::sleep_ns(sim::W(40) * kSec);
    if (closes) sim::violate("early-close", "the close callback ran while the connection was open");
    ended = true;
    uint64_t t = sim::now();
    if (sim::W(2)) in->w_close(); else in->eof();
    // the handlers are slow, the notification is not
    sim::wait_idle(30000000, 25 * kSec, "stuck");
    if (closes != 1 && sim::now() > t + 20 * kSec) sim::violate("late", "the close callback ran %d times long after the end", closes);
    sim::wait_quiescent(35000000, "stuck");
    if (closes != 1) sim::violate("not-once", "the close callback ran %d times", closes);
    if (ran != n) sim::violate("lost", "%d messages arrived before the end, %d were handled", n, ran);
  } else {
    sim::sleep_ns(sim::W(3) ? sim::W(1000) * kMs : 0);
    ended = true;
    sim::count_fault(sim::TEARDOWN_RACE);
  }
  sut([&] { s.reset(); });
  gone = true;
  if (closes != 1) sim::violate("not-once", "the close callback ran %d times by the end of the session", closes);
  if (!in->r_closed() || !out->w_closed()) sim::violate("not-closed", "the destroyed session left its streams open");
  sim::wait_quiescent(1000000, "stuck");
  if (after) sim::violate("late-handler", "%d callbacks ran after the session was destroyed", after);
  sim::note("n=%d ran=%d destroy=%d", n, ran, destroy);
}

WORLD("P11", long_sent, "thousands of responses, each reported as sent once") {
  sim::long_run(40000000);
  light_sched();
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  int n = many(), sent = 0;
  bool async = sim::W(2);
  string big = sim::W(4) ? "" : filler(huge(), 9);
  if (!big.empty()) n = 3;
  HQueue<std::function<void()>> later;
  auto is_err = [](int64_t id) { return id % 11 == 4; };
  vector<char> seen(n, 0);
  size_t parsed = 0;
  std::set<int64_t> written;
  sut([&] {
    s = dap::Session::create();
    s->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "session reported: %s", m); });
    s->registerHandler([&](const dap::TokRequest& q, std::function<void(dap::ResponseOrError<dap::TokResponse>)> cb) {
      HARNESS();
      int64_t id = q.id;
      auto f = [=] {
        if (is_err(id)) sut([&] { cb(dap::Error("no " + std::to_string(id))); });
        else { dap::TokResponse r; r.id = id; r.text = big; sut([&] { cb(r); }); }
      };
      if (async) later.put(f); else f();
    });
    s->registerSentHandler([&](const dap::ResponseOrError<dap::TokResponse>& r) {
      HARNESS();
      int64_t id = r.error ? atoi(r.error.message.c_str() + 3) : (int64_t)r.response.id;
      if (id < 0 || id >= n || seen[id]) sim::violate("not-once", "response %ld was reported as sent twice", (long)id);
      seen[id] = 1;
      if ((bool)r.error != is_err(id)) sim::violate("wrong-response", "response %ld was reported with error=%d", (long)id, (bool)r.error);
      if (!r.error && r.response.text != big) sim::violate("wrong-response", "response %ld was reported with another text", (long)id);
      sent++;
      // the frames written since the last call
      string rest, err;
      vector<string> bodies;
      if (!split_frames(out->wire.substr(parsed), &bodies, &rest, &err)) sim::violate("bad-frame", "%s", err.c_str());
      parsed = out->wire.size() - rest.size();
      for (auto& b : bodies) { J m; if (J::parse(b, &m) && m.get("request_seq")) written.insert(m.get("request_seq")->i - 1); }
      if (!written.count(id)) sim::violate("too-early", "response %ld was reported before it was written", (long)id);
    });
    s->bind(in->reader(), out->writer());
  });
  Task resp("responder", [&] { std::function<void()> f; while (later.get(&f)) f(); });
  string batch;
  for (int k = 0; k < n; k++) {
    batch += frame(request_msg(k + 1, "tok", tok_body(k, "")).dump());
    if (batch.size() > 20000 || k + 1 == n) { in->inject(batch); batch.clear(); }
  }
  sim::wait_quiescent(35000000, "stuck");
  later.close();
  resp.join();
  if (sent != n) sim::violate("lost", "%d responses were sent, %d reported", n, sent);
  sim::note("n=%d async=%d big=%zu", n, async, big.size());
  sut([&] { s.reset(); });
}

WORLD("P12", long_pipe, "megabytes of backlog, megabyte writes and tens of thousands of small ones through a pipe") {
  sim::long_run(40000000);
  light_sched();
  auto p = sut([&] { return dap::pipe(); });
  uint32_t kind = sim::W(3);   // 0: huge writes, 1: many small, 2: all written before the first read
  int n = kind == 0 ? 1 + sim::W(4) : many();
  size_t total = 0;
  vector<size_t> len(n);
  for (auto& l : len) { l = kind == 0 ? huge() : sim::W(2) ? 1 + sim::W(80) : 1; total += l; }
  string want;
  want.reserve(total);
  for (int k = 0; k < n; k++) want += bytes_of(len[k], k);
  Task w("writer", [&] {
    size_t off = 0;
    for (int k = 0; k < n; k++) {
      if (!sut([&] { return p->write(want.data() + off, len[k]); })) sim::violate("write-failed", "write on an open pipe failed");
      off += len[k];
    }
  });
  if (kind == 2) w.join();
  size_t off = 0, cap = (size_t)1 << (6 + sim::W(15));
  vector<char> buf(cap + 8);
  while (off < total) {
    size_t ask = 1 + sim::W((uint32_t)cap);
    if (ask > total - off) ask = total - off;
    buf[ask] = 0x55;
    size_t k = sut([&] { return p->read(buf.data(), ask); });
    if (k == 0 || k > ask || buf[ask] != 0x55) sim::violate("bad-read", "read of %zu returned %zu", ask, k);
    if (off + k > total || memcmp(buf.data(), want.data() + off, k)) sim::violate("corrupt", "bytes %zu..%zu of %zu are not those written", off, off + k, total);
    off += k;
  }
  if (w.joinable()) w.join();
  bool blocked = true;
  Task r("reader", [&] { char c; size_t k = sut([&] { return p->read(&c, 1); }); blocked = false; if (k) sim::violate("invented", "a byte more than was written"); });
  sim::wait_quiescent(1000000, "stuck");
  if (!blocked) sim::violate("not-blocked", "a read of an empty open pipe returned");
  sut([&] { p->close(); });
  r.join();
  sim::note("kind=%u n=%d bytes=%zu", kind, n, total);
  sut([&] { p.reset(); });
}

WORLD("P14", long_tcp, "megabytes in single writes and tens of thousands of small ones over TCP") {
  sim::long_run(60000000);
  swarm({sim::NET_SHORT_RECV, sim::NET_EINTR_RECV, sim::NET_EINTR_SEND, sim::NET_SHORT_SEND, sim::NET_SNDBUF_FULL, sim::SPURIOUS_WAKE}, 2000);
  static const size_t bufs[] = {4096, 65536, 1 << 20};
  sim::net_config(bufs[sim::W(3)], 20 * kUs);
  using RW = std::shared_ptr<dap::ReaderWriter>;
  std::unique_ptr<dap::net::Server> srv;
  HQueue<RW> conns;
  sut([&] { srv = dap::net::Server::create(); });
  if (!sut([&] { return srv->start(1234, [&](const RW& rw) { HARNESS(); conns.put(rw); }, [](const char* m) { HARNESS(); sim::violate("server-error", "%s", m); }); })) sim::violate("start", "the server did not start on a free port");
  RW c = sut([&] { return dap::net::connect("localhost", 1234); });
  if (!c) sim::violate("connect-failed", "connect() to a running server failed");
  RW s;
  conns.get(&s);
  if (sim::W(2)) std::swap(c, s);
  bool fat = sim::W(2);
  int n = fat ? 1 + sim::W(3) : many();
  vector<size_t> len(n);
  size_t total = 0;
  for (auto& l : len) { l = fat ? huge() : 1 + sim::W(100); total += l; }
  string data = bytes_of(total, 3);
  Task w("writer", [&] {
    size_t off = 0;
    for (int k = 0; k < n; k++) {
      if (!sut([&] { return c->write(data.data() + off, len[k]); })) sim::violate("write-failed", "write() of %zu bytes failed on a healthy connection", len[k]);
      off += len[k];
    }
    sut([&] { c->close(); });
  });
  size_t off = 0, cap = (size_t)1 << (8 + sim::W(13));
  vector<char> buf(cap);
  for (;;) {
    size_t k = sut([&] { return s->read(buf.data(), cap); });
    if (k == 0) break;
    if (k > cap || off + k > total || memcmp(buf.data(), data.data() + off, k)) sim::violate("corrupt", "bytes %zu..%zu of %zu are not those written", off, off + k, total);
    off += k;
  }
  if (off != total) sim::violate("lost", "read() reported the end after %zu of %zu bytes", off, total);
  w.join();
  sim::note("n=%d bytes=%zu", n, total);
  sut([&] { c.reset(); s.reset(); srv.reset(); });
  if (sim::net_open_fds()) sim::violate("fd-leak", "%zu descriptors are still open", sim::net_open_fds());
}

WORLD("P16", long_server, "hundreds of clients, one after the other or held open together, and many restarts") {
  sim::long_run(40000000);
  light_sched();
  sim::net_config(65536, 20 * kUs);
  using RW = std::shared_ptr<dap::ReaderWriter>;
  std::unique_ptr<dap::net::Server> srv;
  HQueue<RW> conns;
  sut([&] { srv = dap::net::Server::create(); });
  bool keep = sim::W(2);
  int n = 150 + sim::W(300), every = sim::W(2) ? 0 : 10 + sim::W(40), taken = 0;
  vector<std::pair<RW, RW>> open;
  auto start = [&] {
    if (!sut([&] { return srv->start(1234, [&](const RW& rw) { HARNESS(); taken++; conns.put(rw); }, [](const char* m) { HARNESS(); sim::violate("server-error", "%s", m); }); }))
      sim::violate("start", "the server did not start on a free port");
  };
  start();
  for (int k = 0; k < n; k++) {
    RW c = sut([&] { return dap::net::connect("localhost", 1234); });
    if (!c) sim::violate("connect-failed", "client %d of %d was not connected", k, n);
    RW s;
    if (!conns.get(&s, 100 * kSec)) sim::violate("not-served", "client %d of %d was not handed to the server", k, n);
    unsigned char m[2] = {(unsigned char)k, (unsigned char)(k >> 8)}, g[2] = {0, 0};
    if (!sut([&] { return c->write(m, 2); })) sim::violate("write-failed", "client %d cannot write", k);
    size_t r = 0;
    while (r < 2) { size_t x = sut([&] { return s->read(g + r, 2 - r); }); if (!x) break; r += x; }
    if (r != 2 || memcmp(m, g, 2)) sim::violate("corrupt", "client %d was handed somebody else's connection", k);
    if (keep) open.emplace_back(c, s);
    else { sut([&] { c.reset(); s.reset(); }); }
    if (every && k % every == every - 1) {
      sut([&] { srv->stop(); });
      if (sim::net_listeners()) sim::violate("port-busy", "the port is still in use after stop()");
      start();
    }
  }
  if (taken != n) sim::violate("not-once", "%d clients, %d connections handed over", n, taken);
  sut([&] { open.clear(); srv.reset(); });
  if (sim::net_open_fds()) sim::violate("fd-leak", "%zu descriptors are still open", sim::net_open_fds());
  sim::note("clients=%d keep=%d restart every %d", n, keep, every);
}

WORLD("P18", long_file, "megabytes through a file stream, in one write and in thousands") {
  sim::long_run(40000000);
  swarm({sim::FILE_SHORT_READ, sim::FILE_SHORT_WRITE, sim::FILE_EINTR_READ, sim::SPURIOUS_WAKE}, 2000);
  FILE *fi, *fo;
  auto si = sim::file_make("r", &fi), so = sim::file_make("w", &fo);
  auto rd = sut([&] { return dap::file(fi, true); });
  auto wr = sut([&] { return dap::file(fo, true); });
  bool fat = sim::W(2);
  int n = fat ? 1 + sim::W(3) : many();
  string data;
  for (int k = 0; k < n; k++) {
    string c = bytes_of(fat ? huge() : 1 + sim::W(100), k);
    if (!sut([&] { return wr->write(c.data(), c.size()); })) sim::violate("write-failed", "write of %zu bytes to a working file failed", c.size());
    data += c;
    const uint8_t* d;
    if (sim::file_written(so, &d) != data.size()) sim::violate("false-success", "write() returned true but %zu of %zu bytes have reached the file", sim::file_written(so, &d), data.size());
  }
  const uint8_t* d;
  size_t k = sim::file_written(so, &d);
  if (k != data.size() || memcmp(d, data.data(), k)) sim::violate("corrupt", "the file does not hold what was written");
  sim::file_feed(si, data.data(), data.size());
  sim::file_feed_eof(si);
  size_t off = 0, cap = (size_t)1 << (8 + sim::W(13));
  vector<char> buf(cap);
  for (;;) {
    size_t r = sut([&] { return rd->read(buf.data(), cap); });
    if (r == 0) break;
    if (r > cap || off + r > data.size() || memcmp(buf.data(), data.data() + off, r)) sim::violate("corrupt", "bytes %zu..%zu of %zu are not those of the file", off, off + r, data.size());
    off += r;
  }
  if (off != data.size()) sim::violate("lost", "read() reported the end after %zu of %zu bytes", off, data.size());
  sim::note("n=%d bytes=%zu", n, data.size());
  sut([&] { rd.reset(); wr.reset(); });
}

WORLD("P19", long_spy, "megabytes and thousands of calls through spies") {
  sim::long_run(40000000);
  light_sched();
  auto in = Link::make("in"), out = Link::make("out"), li = Link::make("log-in"), lo = Link::make("log-out");
  static const char* const prefixes[] = {"", "\n->", "P"};
  const char *pi = prefixes[sim::W(3)], *po = prefixes[sim::W(3)];
  auto r = sut([&] { return dap::spy(in->reader(), li->writer(), pi); });
  auto w = sut([&] { return dap::spy(out->writer(), lo->writer(), po); });
  bool fat = sim::W(2);
  int n = fat ? 1 + sim::W(3) : many();
  string sent, logged, rlogged, got;
  for (int k = 0; k < n; k++) {
    string c = bytes_of(fat ? huge() : 1 + sim::W(100), k);
    if (!sut([&] { return w->write(c.data(), c.size()); })) sim::violate("write-failed", "write of %zu bytes through a spy failed", c.size());
    sent += c;
    logged += po + c;
    in->inject(c);
  }
  if (out->wire != sent) sim::violate("not-transparent", "%zu bytes written through a spy, %zu arrived", sent.size(), out->wire.size());
  if (lo->wire != logged) sim::violate("wrong-log", "the log of the writer differs from what was written");
  size_t cap = (size_t)1 << (8 + sim::W(13));
  vector<char> buf(cap);
  while (got.size() < sent.size()) {
    size_t k = sut([&] { return r->read(buf.data(), cap); });
    if (k == 0 || k > cap) sim::violate("not-transparent", "read of %zu through a spy returned %zu", cap, k);
    got.append(buf.data(), k);
    rlogged += pi + string(buf.data(), k);
  }
  if (got != sent) sim::violate("not-transparent", "the bytes read through a spy are not those sent");
  if (li->wire != rlogged) sim::violate("wrong-log", "the log of the reader differs from what was read");
  sim::note("n=%d bytes=%zu", n, sent.size());
  sut([&] { r.reset(); w.reset(); });
}

WORLD("P21", long_pump, "thousands of payloads pulled by the caller, kept and run later") {
  sim::long_run(40000000);
  light_sched();
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  int n = many(), ran = 0;
  vector<char> seen(n, 0);
  size_t keep = sim::W(2) ? 1 : 1 + sim::W(2000);
  sut([&] {
    s = dap::Session::create();
    s->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "session reported: %s", m); });
    auto hit = [&](int64_t id) { if (id < 0 || id >= n || seen[id]) sim::violate("not-once", "message %ld was handled twice", (long)id); seen[id] = 1; ran++; };
    s->registerHandler([=](const dap::TokEvent& e) { HARNESS(); hit(e.id); });
    s->registerHandler([=](const dap::TokRequest& q) { HARNESS(); hit(q.id); dap::TokResponse r; r.id = q.id; return r; });
    s->connect(in->reader(), out->writer());
  });
  string batch;
  for (int k = 0; k < n; k++) {
    J b = tok_body(k, "");
    batch += frame((k % 3 == 2 ? request_msg(k, "tok", b) : event_msg(k, "tokev", b)).dump());
  }
  in->inject(batch);
  in->w_close();
  vector<std::function<void()>> kept;
  int pulled = 0;
  auto flush = [&] {
    while (!kept.empty()) {
      size_t j = sim::W((uint32_t)kept.size());
      std::swap(kept[j], kept.back());
      int before = ran;
      sut([&] { kept.back()(); kept.pop_back(); });
      if (ran != before + 1) sim::violate("not-once", "a payload ran %d handlers", ran - before);
    }
  };
  while (in->r_open() || pulled < n) {
    std::function<void()> p = sut([&] { return s->getPayload(); });
    if (!p) break;
    pulled++;
    kept.push_back(std::move(p));
    if (kept.size() >= keep) flush();
  }
  flush();
  if (pulled != n || ran != n) sim::violate("lost", "%d messages, %d payloads, %d handled", n, pulled, ran);
  sim::note("n=%d keep=%zu", n, keep);
  sut([&] { s.reset(); });
}

WORLD("P26", long_chan, "tens of thousands of items through a channel, and backlogs of that size") {
  sim::long_run(40000000);
  light_sched();
  auto cp = sut([&] { return std::make_shared<dap::Chan<int>>(); });
  int n = very_many(), nc = 1 + sim::W(3);
  bool backlog = sim::W(2), close_first = sim::W(2);
  vector<vector<int>> got(nc);
  Task prod("producer", [&] { for (int k = 0; k < n; k++) sut([&] { cp->put(k); }); });
  if (backlog) prod.join();
  if (backlog && close_first) sut([&] { cp->close(); });
  vector<Task> cs;
  for (int c = 0; c < nc; c++)
    cs.emplace_back("consumer", [&, c] {
      for (;;) {
        auto v = sut([&] { return cp->take(); });
        if (!v) return;
        got[c].push_back(*v);
      }
    });
  if (prod.joinable()) prod.join();
  if (!(backlog && close_first)) sut([&] { cp->close(); });
  for (auto& t : cs) t.join();
  vector<char> seen(n, 0);
  size_t total = 0;
  for (auto& g : got) {
    int last = -1;
    for (int v : g) {
      if (v < 0 || v >= n || seen[v]) sim::violate("twice", "item %d was taken twice", v);
      if (v <= last) sim::violate("wrong-order", "item %d came after %d", v, last);
      last = v;
      seen[v] = 1;
      total++;
    }
  }
  if (total != (size_t)n) sim::violate("lost", "%d items put, %zu taken", n, total);
  sim::note("n=%d consumers=%d backlog=%d", n, nc, backlog);
  sut([&] { cp.reset(); });
}

WORLD("P13", long_future, "dozens of threads wait for one future, hundreds of futures wait for their values") {
  sim::long_run(40000000);
  light_sched();
  sim::mark_baseline();
  {
    using F = dap::future<string>;
    int rounds = 1 + sim::W(3);
    for (int round = 0; round < rounds; round++) {
      int n = 20 + sim::W(30) - rounds * 5;
      if (rounds > 1) n = 2 + sim::W(45 / rounds);
      string val = filler(sim::W(3) ? 40 : huge() / 4, (uint32_t)round);
      auto p = std::make_shared<dap::promise<string>>();
      vector<std::unique_ptr<F>> fs;
      for (int k = 0; k < n; k++) sut([&] { fs.emplace_back(new F(p->get_future())); });
      vector<Task> ts;
      int back = 0;
      bool set = false;
      for (int k = 0; k < n; k++)
        ts.emplace_back("waiter", [&, k] {
          switch (sim::W(3)) {
            case 0: sut([&] { fs[k]->wait(); }); break;
            case 1:
              if (sut([&] { return fs[k]->wait_for(std::chrono::hours(30)); }) != dap::future_status::ready) sim::violate("missed", "a wait of 30 hours timed out although the value was set within a second");
              break;
            default: break;
          }
          string got = sut([&] { return fs[k]->get(); });
          if (!set) sim::violate("early", "a wait returned before the value was set");
          check_text(got, val, "the value of a future");
          back++;
        });
      sim::sleep_ns(sim::W(900) * kMs);
      set = true;
      if (sim::W(2)) sut([&] { p->set_value(val); });
      else { string v2 = val; sut([&] { p->set_value(std::move(v2)); }); }
      for (auto& t : ts) t.join();
      if (back != n) sim::violate("missed", "%d of %d waits returned", back, n);
      sut([&] { fs.clear(); p.reset(); });
    }
    // many promises, set in another order than they are waited for
    int m = 200 + sim::W(400);
    vector<dap::promise<int>> ps(m);
    vector<std::unique_ptr<dap::future<int>>> fs;
    for (int k = 0; k < m; k++) sut([&] { fs.emplace_back(new dap::future<int>(ps[k].get_future())); });
    vector<char> done(m, 0);
    Task setter("setter", [&] {
      int at = sim::W((uint32_t)m), step = 1;
      static const int steps[] = {1, 7, 11, 13, 17};
      step = steps[sim::W(5)];
      while (m % step == 0 && step > 1) step += 2;
      // visits each index once if step and m have no common factor
      for (int k = 0; k < m; k++) { int i = (int)(((int64_t)at + (int64_t)k * step) % m); if (done[i]) continue; done[i] = 1; sut([&] { ps[i].set_value(i * 3); }); }
      for (int i = 0; i < m; i++) if (!done[i]) { done[i] = 1; sut([&] { ps[i].set_value(i * 3); }); }
    });
    for (int k = 0; k < m; k++) {
      int v = sut([&] { return fs[k]->get(); });
      if (!done[k]) sim::violate("early", "get() returned before the value was set");
      if (v != k * 3) sim::violate("wrong-value", "future %d got %d", k, v);
    }
    setter.join();
    sut([&] { fs.clear(); ps.clear(); });
    sim::note("rounds=%d promises=%d", rounds, m);
  }
  HARNESS();
}

WORLD("P25", long_rwmutex, "dozens of readers hold the lock together, thousands of locks and unlocks") {
  sim::long_run(40000000);
  light_sched();
  auto mp = std::make_shared<dap::RWMutex>();
  auto& m = *mp;
  if (sim::W(2)) {
    // nested and crowded: one thread takes many read locks, many threads take one each
    int n = 2 + sim::W(40), each = 1 + (sim::W(3) == 0 ? sim::W(400) : sim::W(4)), nw = 1 + sim::W(8), in = 0, holding = 0, inw = 0, wrote = 0;
    sim::Flag all;
    vector<Task> ts;
    for (int r = 0; r < n; r++)
      ts.emplace_back("reader", [&] {
        for (int k = 0; k < each; k++) { sut([&] { m.lockReader(); }); holding++; }
        if (++in == n) all.set();
        all.wait();
        if (sim::W(2)) sim::sleep_ns(sim::W(30) * kMs);
        for (int k = 0; k < each; k++) { holding--; sut([&] { m.unlockReader(); }); }
      });
    for (int w = 0; w < nw; w++)
      ts.emplace_back("writer", [&] {
        all.wait();
        sut([&] { m.lockWriter(); });
        if (holding || inw) sim::violate("exclusion", "a writer got the lock while %d read locks and %d writers hold it", holding, inw);
        inw++;
        sim::point("hold-w", mp.get());
        wrote++;
        inw--;
        sut([&] { m.unlockWriter(); });
      });
    for (auto& t : ts) t.join();
    if (wrote != nw) sim::violate("starved", "%d of %d writers got the lock", wrote, nw);
    sim::note("readers=%d locks each=%d writers=%d", n, each, nw);
  } else {
    int nr = 1 + sim::W(4), nw = 1 + sim::W(4), per = many() / (nr + nw);
    int64_t a = 0, b = 0;
    int readers = 0, writers = 0;
    vector<Task> ts;
    for (int r = 0; r < nr; r++)
      ts.emplace_back("reader", [&] {
        for (int k = 0; k < per; k++) {
          SUT();
          dap::RLock l(m);
          HARNESS();
          if (writers) sim::violate("exclusion", "a reader got the lock while a writer holds it");
          readers++;
          if (a != b) sim::violate("torn", "a reader saw a half-done write");
          if (k % 16 == 0) sim::point("hold-r", mp.get());
          if (a != b) sim::violate("torn", "a reader saw a half-done write");
          readers--;
        }
      });
    for (int w = 0; w < nw; w++)
      ts.emplace_back("writer", [&] {
        for (int k = 0; k < per; k++) {
          SUT();
          dap::WLock l(m);
          HARNESS();
          if (writers || readers) sim::violate("exclusion", "a writer got the lock while %d readers and %d writers hold it", readers, writers);
          writers++;
          a++;
          if (k % 16 == 0) sim::point("hold-w", mp.get());
          b++;
          writers--;
        }
      });
    for (auto& t : ts) t.join();
    if (a != (int64_t)nw * per) sim::violate("lost-update", "%d writes, counter %ld", nw * per, (long)a);
    sim::note("readers=%d writers=%d per=%d", nr, nw, per);
  }
  sut([&] { m.lockWriter(); m.unlockWriter(); });
  HARNESS();
}

WORLD("P10", long_failures, "hundreds of failing sends in a row, in between and afterwards everything works") {
  sim::long_run(40000000);
  light_sched();
  auto in = Link::make("in"), out = Link::make("out");
  in->faults = out->faults = false;
  std::unique_ptr<dap::Session> s;
  int errors = 0, mode = sim::W(3);   // 0 unbound first, 1 failing calls, 2 closed for good
  int n = mode == 1 ? 100 + sim::W(400) : many();
  sut([&] {
    s = dap::Session::create();
    s->onError([&](const char*) { HARNESS(); errors++; });
    s->registerHandler([&](const dap::TokRequest& r) { HARNESS(); return make_tok<dap::TokResponse>(r.id, "<a" + std::to_string((int64_t)r.id) + ">"); });
    if (mode) s->bind(in->reader(), out->writer());
  });
  using R = dap::ResponseOrError<dap::TokResponse>;
  auto request = [&](int k) {
    auto q = make_tok<dap::TokRequest>(k, "<m" + std::to_string(k) + ">");
    Fut<R> f;
    sut([&] { f.f.reset(new dap::future<R>(s->send(q))); });
    return f;
  };
  auto must_fail = [&](int k) {
    if (sim::W(3) == 0) {
      auto e = make_tok<dap::TokEvent>(k, "x");
      if (sut([&] { return s->send(dap::TypeOf<dap::TokEvent>::type(), &e); })) sim::violate("false-success", "send %d was reported as sent although the writer does not work", k);
      return;
    }
    auto f = request(k);
    if (sut([&] { return f.f->wait_for(std::chrono::seconds(0)); }) != dap::future_status::ready) sim::violate("pending", "the future of request %d, which could not be sent, is not ready", k);
    auto r = sut([&] { return f.get(); });
    if (!r.error) sim::violate("false-success", "request %d, which could not be sent, succeeded", k);
  };
  int asked = 0;
  auto works = [&](const char* when) {
    size_t mark = out->wire.size();
    auto f = request(1000000 + asked);
    vector<string> bodies;
    string rest, err;
    J m;
    if (!split_frames(out->wire.substr(mark), &bodies, &rest, &err) || bodies.size() != 1 || !rest.empty() || !J::parse(bodies[0], &m) || !m.get("seq"))
      sim::violate("later-send", "%s, a request is written as %s", when, show(out->wire.substr(mark)).c_str());
    in->inject(frame(response_msg(asked + 1, m.get("seq")->i, "tok", tok_body(asked, "fine")).dump()));
    auto r = sut([&] { return f.get(); });
    if (r.error || r.response.id != asked || r.response.text != "fine") sim::violate("later-send", "%s, a request does not get its response", when);
    mark = out->wire.size();
    in->inject(frame(request_msg(asked + 1, "tok", tok_body(asked, "q")).dump()));
    string want = "<a" + std::to_string(asked) + ">";
    sim::wait_quiescent(300000, "stuck");
    if (out->wire.find(want, mark) == string::npos) sim::violate("later-send", "%s, a request is not answered", when);
    asked++;
  };
  if (mode == 0) {
    for (int k = 0; k < n; k++) must_fail(k);
    sut([&] { s->bind(in->reader(), out->writer()); });
    errors = 0;
    works("after failed sends on an unbound session");
  } else if (mode == 1) {
    works("at the start");
    int left = n;
    while (left > 0) {
      int run = 1 + sim::W(sim::W(2) ? 3 : 200);
      if (run > left) run = left;
      out->fail_after = 0;
      for (int k = 0; k < run; k++) must_fail(k);
      out->fail_after = -1;
      left -= run;
      works("after failed sends");
    }
  } else {
    works("at the start");
    out->w_close();
    for (int k = 0; k < n; k++) must_fail(k);
  }
  sim::note("mode=%d sends=%d errors=%d", mode, n, errors);
  sut([&] { s.reset(); });
}
