// From bytes to messages: reassembly, invalid data, hostile peers.
#include "kit.h"
#include <cmath>
using namespace kit;

namespace {
// Formats a JSON value with random white space, key order and escapes: all the
// ways another implementation may legally write the same message.
string styled(const J& j, bool exotic) {
  auto sp = [&]() -> string { static const char* const w[] = {"", "", "", " ", "\n", "\t", "\r\n", "  "}; return exotic ? w[sim::W(8)] : ""; };
  switch (j.t) {
    case J::Str: {
      if (!exotic || sim::W(2)) return json_string(j.s);
      string r = "\"";
      for (unsigned char c : j.s) {
        if (c < 0x80 && (c < 0x20 || c == '"' || c == '\\' || sim::W(4) == 0)) { char b[8]; snprintf(b, sizeof b, sim::W(2) ? "\\u%04x" : "\\u%04X", c); r += b; }
        else if (c == '/') r += "\\/";
        else r += (char)c;
      }
      return r + "\"";
    }
    case J::Arr: {
      string r = "[" + sp();
      for (size_t k = 0; k < j.a.size(); k++) r += (k ? "," + sp() : "") + styled(j.a[k], exotic) + sp();
      return r + "]";
    }
    case J::Obj: {
      vector<size_t> order;
      for (size_t k = 0; k < j.o.size(); k++) order.push_back(k);
      if (exotic) for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[sim::W((uint32_t)k)]);
      string r = "{" + sp();
      for (size_t k = 0; k < order.size(); k++) r += (k ? "," + sp() : "") + json_string(j.o[order[k]].first) + sp() + ":" + sp() + styled(j.o[order[k]].second, exotic) + sp();
      return r + "}";
    }
    default: return j.dump();
  }
}
struct Ev { int64_t id; string text; vector<int64_t> list; bool req; };
J ev_json(const Ev& e, int64_t seq) {
  J l = J::arr();
  for (auto v : e.list) l.push(v);
  J p = J::obj().set("id", e.id).set("text", e.text).set("list", l);
  return e.req ? request_msg(seq, "tok", p) : event_msg(seq, "tokev", p);
}
struct Sink {
  vector<Ev> got;
  int errors = 0;
  void install(dap::Session* s) {
    s->onError([this](const char*) { HARNESS(); errors++; });
    s->registerHandler([this](const dap::TokEvent& e) {
      HARNESS();
      Ev x{e.id, e.text, {}, false};
      for (auto v : e.list) x.list.push_back(v);
      got.push_back(x);
    });
    s->registerHandler([this](const dap::TokRequest& e) {
      HARNESS();
      Ev x{e.id, e.text, {}, true};
      for (auto v : e.list) x.list.push_back(v);
      got.push_back(x);
      dap::TokResponse r;
      r.id = e.id;
      return r;
    });
  }
};
void compare(const vector<Ev>& want, const vector<Ev>& got, size_t n, const char* when) {
  for (size_t k = 0; k < got.size() && k < n; k++) {
    const Ev &a = want[k], &b = got[k];
    if (a.id != b.id || a.req != b.req || a.text != b.text || a.list != b.list)
      sim::violate("wrong-message", "%s: message %zu: sent id %ld '%s', delivered id %ld '%s'", when, k, (long)a.id, show(a.text, 40).c_str(), (long)b.id, show(b.text, 40).c_str());
  }
  if (got.size() < n) sim::violate("lost-message", "%s: %zu complete messages arrived, %zu were delivered", when, n, got.size());
  if (got.size() > n) sim::violate("extra-message", "%s: %zu complete messages arrived, %zu were delivered", when, n, got.size());
}
string big_text(bool huge = false) {
  if (huge) return string((sim::W(2) ? 65000 : 130500) + sim::W(1200), 'w');
  switch (sim::W(6)) {
    case 0: return string(200 + sim::W(120), 'x');
    case 1: return string(sim::W(3000), 'y') + "Content-Length: 12\r\n\r\n{\"a\":1}";
    case 2: return string(1 + sim::W(20000), 'z');
    default: return rand_string(30);
  }
}
}  // namespace

WORLD("P05", reassembly, "valid frames cut into arbitrary pieces; each is delivered as soon as its last byte is there") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_SEGMENT, sim::LINK_DELAY}, 60000);
  auto in = Link::make("in"), out = Link::make("out");
  in->max_read = sim::W(2) ? 1 + sim::W(sim::W(2) ? 4 : 600) : 0;
  out->faults = false;
  std::unique_ptr<dap::Session> s;
  Sink sink;
  sut([&] {
    s = dap::Session::create();
    sink.install(s.get());
    if (sim::W(2)) s->setOnInvalidData(sim::W(2) ? dap::kClose : dap::kIgnore);
    s->bind(in->reader(), out->writer());
  });
  int n = 1 + sim::W(6);
  vector<Ev> want;
  string stream;
  vector<size_t> ends;
  bool exotic = sim::W(2);
  int huge_at = (in->max_read == 0 || in->max_read > 100) && sim::W(20) == 0 ? (int)sim::W(n) : -1;
  for (int k = 0; k < n; k++) {
    Ev e{(int64_t)k, big_text(k == huge_at), {}, sim::W(3) == 0};
    for (uint32_t z = sim::W(5); z; z--) e.list.push_back((int64_t)sim::W64() >> sim::W(64));
    J j = ev_json(e, k + 1);
    if (exotic && sim::W(2)) j.set("extra", J::obj().set("nested", J::arr().push(1).push(J())));
    string body = styled(j, exotic);
    static const char* const gaps[] = {" ", "", "\t", "  ", " \t "};
    stream += string("Content-Length:") + gaps[exotic ? sim::W(5) : 0] + (exotic && sim::W(6) == 0 ? "000" : "") + std::to_string(body.size()) + "\r\n\r\n" + body;
    ends.push_back(stream.size());
    want.push_back(e);
  }
  size_t p = 0;
  int cuts = 0, waits = 0;
  while (p < stream.size()) {
    size_t left = stream.size() - p, k;
    switch (sim::W(5)) {
      case 0: k = 1; break;
      case 1: k = 1 + sim::W(20); break;
      case 2: k = 1 + sim::W(300); break;
      case 3: {  // exactly up to the end of the current message
        k = left;
        for (auto e : ends) if (e > p) { k = e - p; break; }
        break;
      }
      default: k = left; break;
    }
    if (k > left) k = left;
    if (cuts > 60) k = left;
    in->inject(stream.substr(p, k), sim::W(5) == 0 ? sim::W(20) * kMs : 0);
    p += k;
    cuts++;
    if (waits < 5 && sim::W(3) == 0) {
      waits++;
      sim::wait_quiescent(350000, "stuck");
      size_t complete = 0;
      while (complete < ends.size() && ends[complete] <= p) complete++;
      compare(want, sink.got, complete, "before more bytes arrived");
    }
  }
  sim::disarm_all();
  sim::wait_quiescent(350000, "stuck");
  compare(want, sink.got, n, "at the end");
  if (sink.errors) sim::violate("unexpected-error", "%d errors reported for valid messages", sink.errors);
  // responses of the requests
  vector<string> bodies;
  string rest, err;
  if (!split_frames(out->wire, &bodies, &rest, &err) || !rest.empty()) sim::violate("bad-frame", "%s", err.c_str());
  size_t r = 0;
  for (int k = 0; k < n; k++) if (want[k].req) {
    J m;
    if (r >= bodies.size() || !J::parse(bodies[r], &m) || !m.get("request_seq") || m.get("request_seq")->i != k + 1) sim::violate("lost-response", "request %d was not answered in turn", k);
    r++;
  }
  sim::note("messages=%d bytes=%zu pieces=%d max_read=%zu", n, stream.size(), cuts, in->max_read);
  sut([&] { s.reset(); });
}

// Reference parser for the framing: what the policies mean.
namespace {
struct Parsed { vector<string> bodies; bool closed = false; };
Parsed reference_ignore(const string& b) {
  Parsed r;
  size_t p = 0;
  static const string H = "Content-Length:";
  for (;;) {
    p = b.find(H, p);
    if (p == string::npos) return r;
    p += H.size();
    while (p < b.size() && (b[p] == ' ' || b[p] == '\t')) p++;
    size_t q = p;
    while (q < b.size() && b[q] >= '0' && b[q] <= '9') q++;
    string digits = b.substr(p, q - p);
    while (digits.size() > 1 && digits[0] == '0') digits = digits.substr(1);
    p = q;
    if (digits.empty() || digits.size() > 9) continue;  // (the generator makes no long but possible lengths)
    size_t n = std::stoul(digits);
    if (n == 0) continue;
    if (b.compare(p, 4, "\r\n\r\n") != 0) continue;
    p += 4;
    if (b.size() - p < n) return r;
    r.bodies.push_back(b.substr(p, n));
    p += n;
  }
}
string garbage(bool for_close) {
  string g;
  switch (sim::W(for_close ? 9 : 12)) {
    case 6: case 7: case 8: {
      // a header that is wrong in one byte, before what would be a message
      string body = ev_json({666, "forged", {}, sim::W(2) == 1}, 77).dump();
      string len = std::to_string(body.size());
      char bad[3] = {0, 0, 0};
      switch (sim::W(6)) {
        case 0: return "Content-Length: " + len + string(1, '\0') + "\r\n\r\n" + body;
        case 1: return "Content-Length: " + string(1, '\0') + len + "\r\n\r\n" + body;
        case 2: {
          unsigned __int128 v = ((unsigned __int128)1 << 64) + body.size();
          string t;
          for (; v; v /= 10) t = (char)('0' + (int)(v % 10)) + t;
          return "Content-Length: " + t + "\r\n\r\n" + body;
        }
        case 3: return "Content-Length: -" + len + "\r\n\r\n" + body;
        case 4: return "Content-Length: " + len + "\r\n\r" + body;
        default: bad[0] = "x;.\n-"[sim::W(5)]; return "Content-Length: " + len + bad + "\r\n\r\n" + body;
      }
    }
    case 0: {
      for (uint32_t n = 20 + sim::W(200); n; n--) g += (char)(1 + sim::W(255));
      if (g.find("Content-Length:") != string::npos || g[0] == 'C') g = "zzz not a header zzz";
      return g;
    }
    case 1: return "Content-Length 17\r\n\r\n";
    case 2: return "content-length: 17\r\n\r\n0123456789abcdefg";
    case 3: return "Content-Length: 7\n\nabcdefg";
    case 4: return "POST / HTTP/1.1\r\nHost: localhost\r\nContent-Length: 99\r\nPragma: no-cache\r\n\r\n{\"type\":\"request\"}";
    case 5:
      if (sim::W(3) == 0) {   // no length, or none but zero
        static const string lens[] = {"", " ", " \t ", " 0", " 000", "0"};
        return "Content-Length:" + lens[sim::W(6)] + "\r\n\r\n";
      }
      if (sim::W(2)) return sim::W(2) ? "Content-Length: " : "Content-Length: 0";   // directly followed by a frame
      return "Content-Length: twelve\r\n\r\nabcdefghijkl";
    case 9: {
      string h = "Content-Length: " + std::to_string(5 + sim::W(300)) + "\r\n\r\n";
      return h.substr(0, 1 + sim::W((uint32_t)h.size() - 1));   // cut off anywhere, the next frame follows
    }
    case 10: return string("\0\0\xff\xfe\0", 5) + string(sim::W(20), '\0');
    default: return "Content-Length: 0\r\n\r\n";
  }
}
}  // namespace

WORLD("P06", invalid_ignored, "garbage between frames under the ignore policy, against a reference parser") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_SEGMENT, sim::LINK_DELAY}, 60000);
  auto in = Link::make("in"), out = Link::make("out");
  in->max_read = sim::W(2) ? 1 + sim::W(30) : 0;
  std::unique_ptr<dap::Session> s;
  Sink sink;
  int closes = 0;
  sut([&] {
    s = dap::Session::create();
    sink.install(s.get());
    if (sim::W(2)) s->setOnInvalidData(dap::kIgnore);
    s->bind(in->reader(), out->writer(), [&] { HARNESS(); closes++; });
  });
  string stream;
  int n = 1 + sim::W(5);
  std::map<string, Ev> by_body;
  vector<size_t> starts;
  for (int k = 0; k < n; k++) {
    while (sim::W(2)) { stream += garbage(false); sim::count_fault(sim::LINK_GARBAGE); }
    Ev e{(int64_t)k, rand_string(20), {}, false};
    string body = ev_json(e, k + 1).dump();
    by_body[body] = e;
    stream += frame(body);
  }
  auto ref = reference_ignore(stream);
  vector<Ev> want;
  for (auto& b : ref.bodies) {
    auto it = by_body.find(b);
    if (it != by_body.end()) want.push_back(it->second);
  }
  for (size_t p = 0; p < stream.size();) {
    size_t k = std::min<size_t>(stream.size() - p, sim::W(2) ? 1 + sim::W(60) : stream.size());
    in->inject(stream.substr(p, k), sim::W(6) == 0 ? sim::W(10) * kMs : 0);
    p += k;
  }
  sim::disarm_all();
  sim::wait_quiescent(350000, "stuck");
  compare(want, sink.got, want.size(), "ignore policy");
  if (closes || in->r_closed()) sim::violate("closed", "the ignore policy closed the stream");
  // and the connection is still usable
  Ev e{4242, "after", {}, false};
  bool tail_ambiguous = false;
  {
    // a trailing piece of garbage may swallow what follows; ask the reference
    auto r2 = reference_ignore(stream + frame(ev_json(e, 99).dump()));
    tail_ambiguous = r2.bodies.empty() || r2.bodies.back() != ev_json(e, 99).dump();
  }
  if (!tail_ambiguous) {
    in->inject(frame(ev_json(e, 99).dump()));
    sim::wait_quiescent(350000, "stuck");
    want.push_back(e);
    compare(want, sink.got, want.size(), "after the garbage");
  }
  if (sim::W(4) == 0) {   // a message that claims to be longer than any memory, and never comes
    in->inject(endless_header() + rand_string(40));
    sim::wait_quiescent(350000, "stuck");
    if (closes || in->r_closed()) sim::violate("closed", "the ignore policy closed the stream");
    if (sim::W(2)) { in->w_close(); sim::wait_quiescent(350000, "stuck"); }
    compare(want, sink.got, want.size(), "after a header without body");
  }
  sim::note("frames=%d bytes=%zu expected=%zu", n, stream.size(), want.size());
  sut([&] { s.reset(); });
}

WORLD("P06", invalid_closes, "garbage after some frames under the close policy") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_SEGMENT, sim::LINK_DELAY}, 60000);
  auto in = Link::make("in"), out = Link::make("out");
  in->max_read = sim::W(2) ? 1 + sim::W(30) : 0;
  std::unique_ptr<dap::Session> s;
  Sink sink;
  int closes = 0;
  bool cb = sim::W(4) != 0;
  sut([&] {
    s = dap::Session::create();
    sink.install(s.get());
    s->setOnInvalidData(dap::kClose);
    if (cb) s->bind(in->reader(), out->writer(), [&] { HARNESS(); closes++; });
    else s->bind(duplex(in, out));
  });
  string stream;
  vector<Ev> want;
  int before = sim::W(5), after = 1 + sim::W(3);
  for (int k = 0; k < before; k++) {
    Ev e{(int64_t)k, rand_string(20), {}, sim::W(3) == 0};
    want.push_back(e);
    stream += frame(ev_json(e, k + 1).dump());
  }
  size_t good = stream.size();
  string g = garbage(true);
  sim::count_fault(sim::LINK_GARBAGE);
  stream += g;
  for (int k = 0; k < after; k++) stream += frame(ev_json({(int64_t)(100 + k), "must not be delivered", {}, false}, 50 + k).dump());
  bool pause = sim::W(3) == 0;
  for (size_t p = 0; p < stream.size();) {
    size_t k = std::min<size_t>(stream.size() - p, sim::W(2) ? 1 + sim::W(60) : stream.size());
    if (pause && p < good && p + k > good) k = good - p;
    in->inject(stream.substr(p, k), sim::W(6) == 0 ? sim::W(10) * kMs : 0);
    p += k;
    if (pause && p == good) {
      sim::wait_quiescent(350000, "stuck");
      if (closes || in->r_closed()) sim::violate("early-close", "closed before any invalid data arrived");
      pause = false;
    }
  }
  sim::disarm_all();
  sim::wait_quiescent(350000, "stuck");
  compare(want, sink.got, want.size(), "close policy");
  if (!in->r_closed()) sim::violate("not-closed", "invalid data '%s' did not close the reader", show(g, 30).c_str());
  if (cb && closes != 1) sim::violate("not-notified", "invalid data closed the stream, close callback ran %d times", closes);
  sim::note("frames=%d garbage=%s", before, show(g, 20).c_str());
  sut([&] { s.reset(); });
}

// ------------------------------------------------------------------ hostile peer
namespace {
J* pick_node(J* j, J** parent, size_t* index) {
  *parent = nullptr;
  for (;;) {
    size_t n = j->is(J::Obj) ? j->o.size() : j->is(J::Arr) ? j->a.size() : 0;
    if (n == 0 || sim::W(3) == 0) return j;
    *index = sim::W((uint32_t)n);
    *parent = j;
    j = j->is(J::Obj) ? &j->o[*index].second : &j->a[*index];
  }
}
J weird(int depth = 0) {
  switch (sim::W(14)) {
    case 0: return J();
    case 1: return J(true);
    case 2: return J((int64_t)sim::W64());
    case 3: return J(-0.0);
    case 4: return J(1e300);
    case 5: return J(rand_string(20));
    case 6: return J::arr();
    case 7: return J::obj();
    case 8: { J a = J::arr(); for (uint32_t n = sim::W(4); n; n--) a.push(depth < 3 ? weird(depth + 1) : J(1)); return a; }
    case 9: { J a = J::obj(); for (uint32_t n = sim::W(4); n; n--) a.set(rand_string(5), depth < 3 ? weird(depth + 1) : J(1)); return a; }
    case 10: return J((int64_t)1 << 62);
    case 11: return J(INT64_MIN);
    case 12: return J("");
    default: return J(0.5);
  }
}
string mutate(J m) {
  int n = 1 + sim::W(3);
  while (n--) {
    J* par;
    size_t ix = 0;
    J* x = pick_node(&m, &par, &ix);
    switch (sim::W(5)) {
      case 0: *x = weird(); break;
      case 1:
        if (par && par->is(J::Obj)) par->o.erase(par->o.begin() + ix);
        else if (par) par->a.erase(par->a.begin() + ix);
        else *x = weird();
        break;
      case 2: { J c = *x; *x = J::arr().push(c); break; }
      case 3: if (x->is(J::Obj)) x->set(rand_string(4), weird()); else *x = weird(); break;
      default: { J c = *x; *x = J::obj().set("type", c); break; }
    }
  }
  string t = m.dump();
  switch (sim::W(12)) {
    case 0: if (!t.empty()) t = t.substr(0, sim::W((uint32_t)t.size())); break;
    case 1: for (int k = 1 + sim::W(4); k && !t.empty(); k--) t[sim::W((uint32_t)t.size())] = (char)sim::W(256); break;
    case 2: t += t; break;
    case 3: {
      static const uint32_t deep[] = {400, 900, 1100, 4000, 40000};
      uint32_t d = sim::W(8) ? 1 + sim::W(60) : deep[sim::W(5)] + sim::W(200);
      if (sim::W(2)) { string o; for (uint32_t k = 0; k < d; k++) o += k % 3 ? "{\"a\":" : "["; t = o + t; break; }
      t = string(d, '[') + t + string(sim::W(2) ? d : sim::W(d), ']'); break; }
    case 4: t = "\xef\xbb\xbf" + t; break;
    case 5: {
      static const char* const odd[] = {"null", "true", "[]", "{}", "\"x\"", "123", "-", "1e999", "{\"type\"", "[1,]", "{\"type\":\"event\",\"seq\":1e400}", "nul", "\"\\ud800\"", "{\"seq\":99999999999999999999999}", "\xff\xfe", "{\"a\":\"\xc3\x28\"}", "//c\n{}", "{'a':1}", "{\"type\":\"event\",\"type\":\"request\"}", " "};
      t = odd[sim::W(sizeof odd / sizeof *odd)];
      break;
    }
  }
  return t;
}
// A request or event whose payload cannot be an id (integer) and a text (string).
string bad_shape() {
  bool req = sim::W(2);
  J p = J::obj().set("id", 1).set("text", "t");
  if (sim::W(3) == 0) p.set("more", weird());
  if (sim::W(6) == 0) { const J bad[] = {J(5), J(true), J("s"), J(0.5), J("")}; p.set("list", bad[sim::W(5)]).set("text", "list is no list"); return (req ? request_msg(299, "tok", p) : event_msg(299, "tokev", p)).dump(); }
  if (sim::W(8) == 0) {   // types without required fields: still no object
    const J bad[] = {J(5), J(true), J("s"), J(0.5), J("")};
    J x = bad[sim::W(5)];
    return (req ? request_msg(298, "disconnect", x) : event_msg(298, "terminated", x)).dump();
  }
  switch (sim::W(6)) {
    case 0: p.erase("id"); break;
    case 1: p.erase("text"); break;
    case 2: {
      const J bad[] = {J("1"), J(true), J::arr(), J::obj(), J(), J(0.5), J::arr().push(1), J("")};
      p.set("id", bad[sim::W(8)]);
      break;
    }
    case 3: {
      const J bad[] = {J(5), J(false), J::arr(), J::obj(), J(), J(0.5), J::arr().push("t"), J::obj().set("text", "t")};
      p.set("text", bad[sim::W(8)]);
      break;
    }
    case 4: p = sim::W(2) ? J::arr() : J::arr().push(p); break;
    default: {
      const J bad[] = {J(5), J(true), J("text"), J(1.5), J("")};
      p = bad[sim::W(5)];
      break;
    }
  }
  int64_t seq = 300 + sim::W(1000);
  return (req ? request_msg(seq, "tok2", p) : event_msg(seq, "tokev2", p)).dump();
}
}  // namespace

WORLD("P07", hostile_json, "mutated, malformed and mistyped messages mixed with good ones") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_SEGMENT});
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  vector<int64_t> got;
  int other = 0, errors = 0;
  bool resp_ok = true, wide = sim::W(40) == 0;
  auto seen_text = [](const string& t) {
    touch(t.data(), t.size(), false);
    if (t == "list is no list") sim::violate("bad-payload-handled", "a handler ran for a payload whose list is not a list");
  };
  sut([&] {
    s = dap::Session::create();
    s->onError([&](const char* m) { HARNESS(); if (!m || !*m) sim::violate("empty-error", "error callback without a message"); errors++; });
    s->registerHandler([&](const dap::TokEvent& e) { HARNESS(); seen_text(e.text); if (e.text == "good") got.push_back(e.id); else other++; });
    // only messages whose payload has the wrong shape name these two
    s->registerHandler([&](const dap::Tok2Event&) { HARNESS(); sim::violate("bad-payload-handled", "the handler of an event ran for a payload that has the wrong shape"); });
    s->registerHandler([&](const dap::Tok2Request&) { HARNESS(); sim::violate("bad-payload-handled", "the handler of a request ran for a payload that has the wrong shape"); return dap::Tok2Response(); });
    s->registerHandler([&](const dap::TokRequest& e) { HARNESS(); seen_text(e.text); if (e.text == "good") got.push_back(e.id); dap::TokResponse r; r.id = e.id; return r; });
    s->registerHandler([&](const dap::TerminatedEvent&) { HARNESS(); sim::violate("bad-payload-handled", "the handler of an event ran for a payload that is no object"); });
    s->registerHandler([&](const dap::DisconnectRequest&) { HARNESS(); sim::violate("bad-payload-handled", "the handler of a request ran for a payload that is no object"); return dap::DisconnectResponse(); });
    // a spread of the real protocol
    s->registerHandler([&](const dap::InitializeRequest&) { HARNESS(); other++; return dap::InitializeResponse(); });
    s->registerHandler([&](const dap::LaunchRequest&) { HARNESS(); other++; return dap::LaunchResponse(); });
    s->registerHandler([&](const dap::SetBreakpointsRequest&) { HARNESS(); other++; return dap::SetBreakpointsResponse(); });
    s->registerHandler([&](const dap::EvaluateRequest&) { HARNESS(); other++; return dap::EvaluateResponse(); });
    s->registerHandler([&](const dap::OutputEvent&) { HARNESS(); other++; });
    s->registerHandler([&](const dap::StoppedEvent&) { HARNESS(); other++; });
    s->registerHandler([&](const dap::CapabilitiesEvent&) { HARNESS(); other++; });
    s->bind(in->reader(), out->writer());
  });
  // requests of ours are pending while hostile responses come in
  int pend = sim::W(3);
  vector<Fut<dap::ResponseOrError<dap::TokResponse>>> futs(pend);
  for (int k = 0; k < pend; k++) { dap::TokRequest q; sut([&] { futs[k].f.reset(new dap::future<dap::ResponseOrError<dap::TokResponse>>(s->send(q))); }); }
  auto base = [&]() -> J {
    J tok = J::obj().set("id", (int64_t)sim::W(100)).set("text", rand_string(6)).set("list", J::arr().push(1).push(2));
    switch (sim::W(9)) {
      case 0: return event_msg(5, "tokev", tok);
      case 1: return request_msg(6, "tok", tok);
      case 2: return response_msg(7, 1 + sim::W(3), "tok", tok);
      case 3: return error_msg(8, 1 + sim::W(3), "tok", "x");
      case 4: return event_msg(9, "output", J::obj().set("category", "c").set("output", "o").set("data", weird()).set("line", 3));
      case 5: return request_msg(10, "initialize", J::obj().set("adapterID", "a").set("columnsStartAt1", true).set("clientID", "c"));
      case 6: return request_msg(11, "setBreakpoints", J::obj().set("source", J::obj().set("name", "n").set("path", "p").set("adapterData", weird())).set("breakpoints", J::arr().push(J::obj().set("line", 1)).push(J::obj().set("line", 2))).set("lines", J::arr().push(1)));
      case 7: return event_msg(12, "stopped", J::obj().set("reason", "r").set("hitBreakpointIds", J::arr().push(1)).set("threadId", 4));
      default: return request_msg(13, "launch", J::obj().set("__restart", weird()).set("noDebug", true));
    }
  };
  int n = 1 + sim::W(10), good = 0, shapes = 0;
  for (int k = 0; k < n; k++) {
    if (sim::W(4) == 0) { in->inject(frame(bad_shape())); shapes++; }
    else in->inject(frame(mutate(base())));
    sim::count_fault(sim::PEER_MALFORMED);
    if (sim::W(2)) {
      bool req = sim::W(2);
      J p = J::obj().set("id", (int64_t)(9000 + good)).set("text", "good").set("list", J::arr());
      switch (sim::W(16)) {   // unusual but good: nested, or full of brackets that nest nothing
        case 0: { J x = J::arr(); for (uint32_t d = sim::W(200); d; d--) x = d % 2 ? J::arr().push(1).push(x) : J::obj().set("n", x).set("m", J()); p.set("zz", x); break; }
        case 1: p.set("zz", string(sim::W(3), '\\') + "\"" + string(1000 + sim::W(1000), "[{"[sim::W(2)]) + "\\"); break;
        case 2: { J x = J::arr(); for (uint32_t d = sim::W(1200); d; d--) x.push(J::arr()); p.set("zz", x); break; }
        case 3: p.set(string("\\\"") + string(700, '{'), string(700, '[')); break;
      }
      if (wide) {
        wide = false;
        J x = J::arr();
        for (uint32_t d = 300 + sim::W(9000); d; d--) x.push(1);
        p.set("list", x);
      }
      in->inject(frame((req ? request_msg(50000 + good, "tok", p) : event_msg(1, "tokev", p)).dump()));
      good++;
    }
  }
  in->inject(frame(request_msg(77777, "tok", J::obj().set("id", (int64_t)(9000 + good)).set("text", "good").set("list", J::arr())).dump()));
  good++;
  sim::disarm_all();
  sim::wait_quiescent(350000, "stuck");
  vector<int64_t> seen;
  for (auto v : got) if (v >= 9000) seen.push_back(v);
  for (int k = 0; k < good; k++)
    if ((int)seen.size() <= k || seen[k] != 9000 + k) sim::violate("lost-good", "good message %d of %d between hostile ones was not handled (%zu handled)", k, good, seen.size());
  vector<string> bodies;
  string rest, err;
  if (!split_frames(out->wire, &bodies, &rest, &err) || !rest.empty()) sim::violate("bad-frame", "%s", err.c_str());
  bool answered = false;
  for (auto& b : bodies) {
    J m;
    if (!J::parse(b, &m)) sim::violate("bad-json", "wrote invalid JSON: %s", show(b).c_str());
    if (m.get("request_seq") && m.get("request_seq")->is(J::Int) && m.get("request_seq")->i == 77777) answered = true;
  }
  if (!answered) sim::violate("lost-good", "the last good request was not answered");
  (void)resp_ok;
  if (sim::W(6) == 0) {   // a message that claims to be longer than any memory, and never comes
    in->inject(endless_header() + rand_string(40));
    if (sim::W(2)) in->w_close();
    sim::wait_quiescent(350000, "stuck");
  }
  if (errors < shapes) sim::violate("unreported", "%d messages with a payload of the wrong shape, %d errors reported", shapes, errors);
  sim::note("hostile=%d good=%d errors=%d others=%d", n, good, errors, other);
  sut([&] { s.reset(); futs.clear(); });
}
