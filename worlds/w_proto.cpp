// Payload fidelity: every message type of the protocol, both directions.
#include "proto.h"
#include <algorithm>
namespace proto {
int g_depth;
uint32_t g_budget;
vector<Type>* g_types;
template <typename T>
static bool typed(dap::any& v, J& j) {
  T x{};
  fill(x, j);
  v = x;
  return true;
}
bool fill_typed(dap::any& v, J& j) {
  switch (sim::W(11)) {
    case 0: return typed<dap::array<dap::string>>(v, j);
    case 1: return typed<dap::array<dap::integer>>(v, j);
    case 2: return typed<dap::array<dap::number>>(v, j);
    case 3: return typed<dap::array<dap::boolean>>(v, j);
    case 4: return typed<dap::array<dap::object>>(v, j);
    case 5: return typed<dap::array<dap::Checksum>>(v, j);
    case 6: return typed<dap::Source>(v, j);
    case 7: return typed<dap::Checksum>(v, j);
    case 8: return typed<dap::ExceptionDetails>(v, j);
    case 9: return typed<dap::variant<dap::integer, dap::string>>(v, j);
    default: return typed<dap::array<dap::array<dap::string>>>(v, j);
  }
}
}  // namespace proto
using namespace proto;

namespace {
void check_wire(Ctx& c, Link& l, const char* dir) {
  vector<string> bodies;
  string rest, err;
  if (!split_frames(l.wire, &bodies, &rest, &err) || !rest.empty()) sim::violate("bad-frame", "%s: %s", dir, err.c_str());
  for (auto& b : bodies) {
    J m;
    if (!J::parse(b, &m)) sim::violate("bad-json", "%s: not JSON: %s", dir, show(b).c_str());
    const J* type = m.get("type");
    if (!type) sim::violate("bad-message", "%s: no type", dir);
    bool resp = type->s == "response";
    const J* name = m.get(type->s == "event" ? "event" : "command");
    if (!name) sim::violate("bad-message", "%s: %s without a name", dir, type->s.c_str());
    auto& w = c.wire[name->s];
    size_t k = 0;
    while (k < w.size() && w[k].second != resp) k++;
    if (k == w.size()) sim::violate("bad-message", "%s: %s '%s' on the wire was not sent", dir, type->s.c_str(), show(name->s).c_str());
    const J* ok = m.get("success");
    J got = J::obj();
    if (resp && ok && ok->is(J::Bool) && !ok->b) { if (m.get("message")) got.set("message", *m.get("message")); }
    else {
      const J* body = m.get(type->s == "request" ? "arguments" : "body");
      if (body && !body->is(J::Null)) got = *body;   // nothing, null and {} all mean "no fields"
    }
    same("wire form", name->s.c_str(), w[k].first, got);
    w.erase(w.begin() + k);
  }
}
}  // namespace

WORLD("P04", protocol_values, "every message type with random contents between two sessions; values and names on the wire") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_SEGMENT, sim::LINK_DELAY});
  auto c2s = Link::make("c2s"), s2c = Link::make("s2c");
  std::unique_ptr<dap::Session> client, server;
  sut([&] { client = dap::Session::create(); server = dap::Session::create(); });
  auto cp = std::make_shared<Ctx>();
  Ctx& c = *cp;
  c.client = client.get();
  c.server = server.get();
  c.c2s = c2s;
  c.s2c = s2c;
  static const uint32_t budgets[] = {6, 20, 60};
  c.budget = budgets[sim::W(3)];
  sut([&] {
    client->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "client session reported: %s", m); });
    server->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "server session reported: %s", m); });
  });
  int ntypes = 1 + sim::W(3), per = 1 + sim::W(3);
  vector<std::function<void()>> jobs;
  std::map<uint32_t, bool> used;
  for (int k = 0; k < ntypes; k++) {
    uint32_t t = sim::W((uint32_t)g_types->size());
    if (used[t]) continue;
    used[t] = true;
    const Type& ty = (*g_types)[t];
    ty.setup(c, ty.name, per, &jobs);
  }
  sut([&] {
    client->bind(s2c->reader(), c2s->writer());
    server->bind(c2s->reader(), s2c->writer());
  });
  {
    vector<Task> tasks;
    for (auto& j : jobs) tasks.emplace_back("sender", j);
    for (auto& t : tasks) t.join();
  }
  sim::disarm_all();
  sim::wait_quiescent(300000, "stuck");
  for (auto& w : c.want) if (!w.second.empty()) sim::violate("lost", "%zu %s messages did not arrive", w.second.size(), w.first.c_str());
  sut([&] { client.reset(); server.reset(); });
  check_wire(c, *c2s, "client to server");
  check_wire(c, *s2c, "server to client");
  sim::note("types=%zu per=%d requests=%d errors=%d events=%d bytes=%zu", jobs.size(), per, c.requests, c.errors, c.events, c2s->wire.size() + s2c->wire.size());
  HARNESS();
  jobs.clear();
}

namespace {
// One of the many JSON spellings of a value.
void ws(string& o) {
  static const char* const k[] = {"", "", "", " ", "\n", "\t ", "\r\n"};
  o += k[sim::W(7)];
}
void spell_string(const string& s, string& o) {
  o += '"';
  bool esc = sim::W(3) == 0;
  for (size_t i = 0; i < s.size();) {
    unsigned char ch = s[i];
    uint32_t cp = ch;
    size_t n = 1;
    if (ch >= 0xf0) { cp = (ch & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63); n = 4; }
    else if (ch >= 0xe0) { cp = (ch & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63); n = 3; }
    else if (ch >= 0xc0) { cp = (ch & 31) << 6 | (s[i + 1] & 63); n = 2; }
    char b[32];
    if (cp < 0x20 || cp == '"' || cp == '\\' || (esc && sim::W(4) == 0)) {
      const char* sh = cp == '\n' ? "\\n" : cp == '\t' ? "\\t" : cp == '\r' ? "\\r" : cp == '"' ? "\\\"" : cp == '\\' ? "\\\\" : cp == '/' ? "\\/" : cp == 8 ? "\\b" : cp == 12 ? "\\f" : nullptr;
      if (sh && sim::W(2)) o += sh;
      else if (cp >= 0x10000) {
        snprintf(b, sizeof b, sim::W(2) ? "\\u%04x\\u%04x" : "\\u%04X\\u%04X", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff));
        o += b;
      } else {
        snprintf(b, sizeof b, sim::W(2) ? "\\u%04x" : "\\u%04X", cp);
        o += b;
      }
    } else {
      o.append(s, i, n);
    }
    i += n;
  }
  o += '"';
}
void spell(const J& j, string& o) {
  switch (j.t) {
    case J::Null: o += "null"; break;
    case J::Bool: o += j.b ? "true" : "false"; break;
    case J::Int: o += std::to_string(j.i); break;
    case J::Dbl: {
      char b[64];
      static const char* const f[] = {"%.17g", "%.20e", "%.17G", "%.25g"};
      snprintf(b, sizeof b, f[sim::W(4)], j.d);
      string t = b;
      // a JSON number with an integral value may come without a fraction
      if (t.find_first_of(".eE") == string::npos && (t.size() > 15 || sim::W(2))) t += ".0";
      o += t;
      break;
    }
    case J::Str: spell_string(j.s, o); break;
    case J::Arr:
      o += '[';
      for (size_t k = 0; k < j.a.size(); k++) {
        if (k) o += ',';
        ws(o);
        spell(j.a[k], o);
        ws(o);
      }
      o += ']';
      break;
    case J::Obj: {
      vector<size_t> ord;
      for (size_t k = 0; k < j.o.size(); k++) ord.push_back(k);
      for (size_t k = ord.size(); k > 1; k--) std::swap(ord[k - 1], ord[sim::W((uint32_t)k)]);
      o += '{';
      bool first = true;
      for (size_t k : ord) {
        if (!first) o += ',';
        first = false;
        ws(o);
        spell_string(j.o[k].first, o);
        ws(o);
        o += ':';
        ws(o);
        spell(j.o[k].second, o);
        ws(o);
      }
      o += '}';
    }
  }
}
}  // namespace

WORLD("P04", protocol_decode, "a raw peer sends every message type in any spelling of JSON, with unknown fields") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_SEGMENT, sim::LINK_DELAY});
  auto in = Link::make("in"), out = Link::make("out");
  std::unique_ptr<dap::Session> s;
  auto cp = std::make_shared<Ctx>();
  Ctx& c = *cp;
  static const uint32_t budgets[] = {6, 20, 60};
  c.budget = budgets[sim::W(3)];
  sut([&] {
    s = dap::Session::create();
    s->onError([](const char* m) { HARNESS(); sim::violate("unexpected-error", "the session reported: %s", m); });
  });
  c.server = s.get();
  int ntypes = 1 + sim::W(3), n = 1 + sim::W(5);
  vector<uint32_t> ts;
  for (int k = 0; k < ntypes; k++) {
    uint32_t t = sim::W((uint32_t)g_types->size());
    if (std::find(ts.begin(), ts.end(), t) != ts.end()) continue;
    ts.push_back(t);
    (*g_types)[t].watch(c, (*g_types)[t].name);
  }
  sut([&] { s->bind(in->reader(), out->writer()); });
  int reqs = 0;
  for (int k = 0; k < n; k++) {
    const Type& ty = (*g_types)[ts[sim::W((uint32_t)ts.size())]];
    J v = ty.make(c.budget);
    c.want[ty.name].push_back(v);
    if (sim::W(3) == 0 && v.is(J::Obj)) {
      J x;
      dap::any a;
      g_depth = 0;
      g_budget = 5;
      fill(a, x);
      v.set("x-unknown", x);
    }
    J m = ty.event ? event_msg(k + 1, ty.name, v) : request_msg(k + 1, ty.name, v);
    if (sim::W(4) == 0) m.set("x-extra", J("y"));
    string body;
    ws(body);
    spell(m, body);
    ws(body);
    in->inject(frame(body));
    reqs += !ty.event;
  }
  sim::wait_quiescent(300000, "stuck");
  for (auto& w : c.want) if (!w.second.empty()) sim::violate("lost", "%zu %s messages did not reach their handler", w.second.size(), w.first.c_str());
  in->w_close();
  sut([&] { s.reset(); });
  vector<string> bodies;
  string rest, err;
  if (!split_frames(out->wire, &bodies, &rest, &err) || !rest.empty()) sim::violate("bad-frame", "%s", err.c_str());
  if ((int)bodies.size() != reqs) sim::violate("lost", "%d requests, %zu responses", reqs, bodies.size());
  sim::note("types=%zu messages=%d bytes=%zu", ts.size(), n, in->wire.size());
}
