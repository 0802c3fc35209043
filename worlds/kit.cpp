#include "kit.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>

#include "dap/typeof.h"

namespace dap {
DAP_IMPLEMENT_STRUCT_TYPEINFO(TokResponse, "", DAP_FIELD(id, "id"), DAP_FIELD(text, "text"), DAP_FIELD(list, "list"), DAP_FIELD(opt, "opt"));
DAP_IMPLEMENT_STRUCT_TYPEINFO(TokRequest, "tok", DAP_FIELD(id, "id"), DAP_FIELD(text, "text"), DAP_FIELD(list, "list"), DAP_FIELD(opt, "opt"));
DAP_IMPLEMENT_STRUCT_TYPEINFO(Tok2Response, "", DAP_FIELD(id, "id"), DAP_FIELD(text, "text"));
DAP_IMPLEMENT_STRUCT_TYPEINFO(Tok2Request, "tok2", DAP_FIELD(id, "id"), DAP_FIELD(text, "text"));
DAP_IMPLEMENT_STRUCT_TYPEINFO(TokEvent, "tokev", DAP_FIELD(id, "id"), DAP_FIELD(text, "text"), DAP_FIELD(list, "list"));
DAP_IMPLEMENT_STRUCT_TYPEINFO(Tok2Event, "tokev2", DAP_FIELD(id, "id"), DAP_FIELD(text, "text"));
}  // namespace dap

namespace sim { void sut_access(const void* p, size_t n, bool write); }

namespace kit {

Task::Task(const char* name, std::function<void()> f) {
  HARNESS();
  t.reset(new std::thread([name, f] {
    HARNESS();
    sim::name_thread(name);
    f();
  }));
}
void Task::join() {
  HARNESS();
  if (t && t->joinable()) t->join();
  t.reset();
}
Task::~Task() {
  if (t && t->joinable()) join();
}

void swarm(std::initializer_list<sim::Fault> kinds, uint32_t max_rate) {
  HARNESS();
  for (auto k : kinds) {
    if (sim::W(2) == 0) continue;
    static const uint32_t rates[] = {200, 1000, 4000, 20000, 60000};
    uint32_t r = rates[sim::W(5)];
    if (r > max_rate) r = max_rate;
    sim::arm(k, r);
  }
}
void swarm_sched() { swarm({sim::SPURIOUS_WAKE, sim::TIME_STALL}, 4000); }

void touch(const void* p, size_t n, bool write) { sim::sut_access(p, n, write); }

// -------------------------------------------------------------------------- JSON
string json_string(const string& s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\r') r += "\\r";
    else if (c == '\t') r += "\\t";
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
string J::dump() const {
  switch (t) {
    case Null: return "null";
    case Bool: return b ? "true" : "false";
    case Int: { char x[32]; snprintf(x, sizeof x, "%lld", (long long)i); return x; }
    case Dbl: {
      char x[64];
      snprintf(x, sizeof x, "%.17g", d);
      if (!strpbrk(x, ".eEn")) strcat(x, ".0");
      return x;
    }
    case Str: return json_string(s);
    case Arr: {
      string r = "[";
      for (size_t k = 0; k < a.size(); k++) { if (k) r += ","; r += a[k].dump(); }
      return r + "]";
    }
    case Obj: {
      string r = "{";
      for (size_t k = 0; k < o.size(); k++) { if (k) r += ","; r += json_string(o[k].first) + ":" + o[k].second.dump(); }
      return r + "}";
    }
  }
  return "";
}
namespace {
struct P {
  const char* p;
  const char* e;
  int depth = 0;
  void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; }
  bool lit(const char* w) {
    size_t n = strlen(w);
    if ((size_t)(e - p) < n || memcmp(p, w, n)) return false;
    p += n;
    return true;
  }
  static void utf8(string& s, uint32_t c) {
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  }
  bool hex4(uint32_t* v) {
    if (e - p < 4) return false;
    *v = 0;
    for (int k = 0; k < 4; k++) {
      char c = *p++;
      int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
      if (d < 0) return false;
      *v = *v * 16 + d;
    }
    return true;
  }
  bool str(string* s) {
    if (p >= e || *p != '"') return false;
    p++;
    while (p < e && *p != '"') {
      unsigned char c = *p++;
      if (c < 32) return false;
      if (c != '\\') { *s += (char)c; continue; }
      if (p >= e) return false;
      c = *p++;
      switch (c) {
        case '"': case '\\': case '/': *s += (char)c; break;
        case 'b': *s += '\b'; break;
        case 'f': *s += '\f'; break;
        case 'n': *s += '\n'; break;
        case 'r': *s += '\r'; break;
        case 't': *s += '\t'; break;
        case 'u': {
          uint32_t v, w;
          if (!hex4(&v)) return false;
          if (v >= 0xd800 && v < 0xdc00) {
            if (!lit("\\u") || !hex4(&w) || w < 0xdc00 || w > 0xdfff) return false;
            v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
          }
          utf8(*s, v);
          break;
        }
        default: return false;
      }
    }
    if (p >= e) return false;
    p++;
    return true;
  }
  bool val(J* j) {
    if (++depth > 500) return false;
    ws();
    if (p >= e) return false;
    bool ok = true;
    if (*p == '{') {
      p++;
      j->t = J::Obj;
      ws();
      if (p < e && *p == '}') p++;
      else for (;;) {
        ws();
        string k;
        if (!str(&k)) return false;
        ws();
        if (p >= e || *p++ != ':') return false;
        J v;
        if (!val(&v)) return false;
        if (j->get(k)) return false;  // duplicate keys are never produced by us
        j->o.emplace_back(std::move(k), std::move(v));
        ws();
        if (p >= e) return false;
        char c = *p++;
        if (c == '}') break;
        if (c != ',') return false;
      }
    } else if (*p == '[') {
      p++;
      j->t = J::Arr;
      ws();
      if (p < e && *p == ']') p++;
      else for (;;) {
        J v;
        if (!val(&v)) return false;
        j->a.push_back(std::move(v));
        ws();
        if (p >= e) return false;
        char c = *p++;
        if (c == ']') break;
        if (c != ',') return false;
      }
    } else if (*p == '"') {
      j->t = J::Str;
      ok = str(&j->s);
    } else if (*p == 't') { j->t = J::Bool; j->b = true; ok = lit("true"); }
    else if (*p == 'f') { j->t = J::Bool; ok = lit("false"); }
    else if (*p == 'n') { ok = lit("null"); }
    else {
      const char* b = p;
      bool dbl = false;
      if (p < e && *p == '-') p++;
      if (p >= e || *p < '0' || *p > '9') return false;
      if (*p == '0') p++;
      else while (p < e && *p >= '0' && *p <= '9') p++;
      if (p < e && *p == '.') {
        dbl = true;
        p++;
        if (p >= e || *p < '0' || *p > '9') return false;
        while (p < e && *p >= '0' && *p <= '9') p++;
      }
      if (p < e && (*p == 'e' || *p == 'E')) {
        dbl = true;
        p++;
        if (p < e && (*p == '+' || *p == '-')) p++;
        if (p >= e || *p < '0' || *p > '9') return false;
        while (p < e && *p >= '0' && *p <= '9') p++;
      }
      string n(b, p);
      if (dbl) { j->t = J::Dbl; j->d = strtod(n.c_str(), nullptr); }
      else { j->t = J::Int; j->i = strtoll(n.c_str(), nullptr, 10); }
    }
    depth--;
    return ok;
  }
};
}  // namespace
bool J::parse(const string& in, J* out) {
  P p{in.data(), in.data() + in.size()};
  *out = J();
  if (!p.val(out)) return false;
  p.ws();
  return p.p == p.e;
}
bool J::equals(const J& r) const {
  if ((t == Int || t == Dbl) && (r.t == Int || r.t == Dbl)) {
    if (t == Int && r.t == Int) return i == r.i;
    double x = t == Int ? (double)i : d, y = r.t == Int ? (double)r.i : r.d;
    return x == y;
  }
  if (t != r.t) return false;
  switch (t) {
    case Bool: return b == r.b;
    case Str: return s == r.s;
    case Arr:
      if (a.size() != r.a.size()) return false;
      for (size_t k = 0; k < a.size(); k++) if (!a[k].equals(r.a[k])) return false;
      return true;
    case Obj:
      if (o.size() != r.o.size()) return false;
      for (auto& p : o) { auto q = r.get(p.first); if (!q || !p.second.equals(*q)) return false; }
      return true;
    default: return true;
  }
}

// ------------------------------------------------------------------------ frames
string frame(const string& body) { return "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; }
bool split_frames(const string& b, vector<string>* bodies, string* rest, string* err) {
  size_t p = 0;
  static const string H = "Content-Length: ";
  *rest = "";
  while (p < b.size()) {
    size_t left = b.size() - p;
    size_t k = std::min(left, H.size());
    if (b.compare(p, k, H, 0, k) != 0) {
      *err = "bytes at offset " + std::to_string(p) + " are not a frame header: " + show(b.substr(p, 60));
      return false;
    }
    if (left <= H.size()) { *rest = b.substr(p); return true; }
    size_t q = p + H.size(), n = 0, digits = 0;
    while (q < b.size() && b[q] >= '0' && b[q] <= '9') { n = n * 10 + (b[q] - '0'); q++; digits++; }
    if (q == b.size()) { *rest = b.substr(p); return true; }
    static const string S = "\r\n\r\n";
    k = std::min(b.size() - q, S.size());
    if (digits == 0 || b.compare(q, k, S, 0, k) != 0) {
      *err = "malformed header at offset " + std::to_string(p) + ": " + show(b.substr(p, 60));
      return false;
    }
    if (k < S.size()) { *rest = b.substr(p); return true; }
    q += 4;
    if (b.size() - q < n) { *rest = b.substr(p); return true; }
    bodies->push_back(b.substr(q, n));
    p = q + n;
  }
  return true;
}
string show(const string& s, size_t max) {
  string r;
  for (size_t k = 0; k < s.size() && k < max; k++) {
    unsigned char c = s[k];
    if (c == '\n') r += "\\n";
    else if (c == '\r') r += "\\r";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += (char)c;
  }
  if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
  return r;
}

// ------------------------------------------------------------------------- links
namespace {
struct REnd : dap::Reader {
  std::shared_ptr<Link> l;
  explicit REnd(std::shared_ptr<Link> x) : l(std::move(x)) {}
  bool isOpen() override { return l->r_open(); }
  void close() override { l->r_close(); }
  size_t read(void* b, size_t n) override { return l->read(b, n); }
};
struct WEnd : dap::Writer {
  std::shared_ptr<Link> l;
  explicit WEnd(std::shared_ptr<Link> x) : l(std::move(x)) {}
  bool isOpen() override { return l->w_open(); }
  void close() override { l->w_close(); }
  bool write(const void* b, size_t n) override { return l->write(b, n); }
};
struct Dup : dap::ReaderWriter {
  std::shared_ptr<Link> in, out;
  Dup(std::shared_ptr<Link> a, std::shared_ptr<Link> b) : in(std::move(a)), out(std::move(b)) {}
  bool isOpen() override { return in->r_open() && !out->w_closed(); }
  void close() override { in->r_close(); out->w_close(); }
  size_t read(void* b, size_t n) override { return in->read(b, n); }
  bool write(const void* b, size_t n) override { return out->write(b, n); }
};
}  // namespace
std::shared_ptr<dap::Reader> Link::reader() { HARNESS(); return std::make_shared<REnd>(shared_from_this()); }
std::shared_ptr<dap::Writer> Link::writer() { HARNESS(); return std::make_shared<WEnd>(shared_from_this()); }
std::shared_ptr<dap::ReaderWriter> duplex(std::shared_ptr<Link> in, std::shared_ptr<Link> out) { HARNESS(); return std::make_shared<Dup>(in, out); }
bool Link::r_open() {
  HARNESS();
  sim::point("link-isopen", this);
  isopen_calls++;
  if (r_closed_) return false;
  return !(w_closed_ && q.empty());
}
bool Link::w_open() {
  HARNESS();
  sim::point("link-w-isopen", this);
  return !w_closed_;
}
void Link::r_close() {
  HARNESS();
  sim::point("link-r-close", this);
  r_closes++;
  r_closed_ = true;
  sim::wake_all(this);
}
void Link::w_close() {
  HARNESS();
  sim::point("link-w-close", this);
  w_closes++;
  w_closed_ = true;
  if (discard_on_close) q.clear();
  sim::wake_all(this);
}
void Link::eof() {
  HARNESS();
  eof_ = true;
  sim::wake_all(this);
}
void Link::unstall() {
  HARNESS();
  stall_writes = false;
  sim::wake_all(this);
}
size_t Link::unread() const {
  size_t n = 0;
  for (auto& s : q) n += s.d.size() - s.off;
  return n;
}
void Link::inject(const string& bytes, uint64_t delay) {
  HARNESS();
  if (bytes.empty()) return;
  uint64_t at = sim::now() + delay;
  if (at < last_at) at = last_at;
  last_at = at;
  q.push_back({at, bytes, 0});
  wire += bytes;
  sim::wake_all(this);
  sim::point("link-inject", this);
}
size_t Link::read(void* buffer, size_t n) {
  HARNESS();
  sim::point("link-read", this);
  if (++in_read > max_in_read) max_in_read = in_read;
  reads++;
  struct Out { int& r; ~Out() { r--; } } out{in_read};
  for (;;) {
    if (r_closed_) return 0;
    if (!q.empty() && q.front().at <= sim::now()) {
      if (n == 0) return 0;
      size_t done = 0;
      size_t lim = n;
      if (max_read && lim > max_read) lim = max_read;
      if (faults && lim > 1 && sim::fault(sim::LINK_SHORT_READ)) lim = 1 + sim::F((uint32_t)(lim - 1));
      while (done < lim && !q.empty() && q.front().at <= sim::now()) {
        Seg& s = q.front();
        size_t k = std::min(lim - done, s.d.size() - s.off);
        touch((char*)buffer + done, k, true);
        memcpy((char*)buffer + done, s.d.data() + s.off, k);
        s.off += k;
        done += k;
        if (s.off == s.d.size()) q.pop_front();
        if (faults && sim::fault(sim::LINK_SEGMENT)) break;
      }
      return done;
    }
    if (q.empty() && (w_closed_ || eof_)) return 0;
    sim::block(this, q.empty() ? kNever : q.front().at, name_);
  }
}
bool Link::write(const void* buffer, size_t n) {
  HARNESS();
  sim::point("link-write", this);
  if (++in_write > max_in_write) max_in_write = in_write;
  struct Out { int& r; ~Out() { r--; } } out{in_write};
  writes++;
  touch(buffer, n, false);
  if (w_closed_ || r_closed_) { write_failed = true; return false; }
  if (faults && sim::fault(sim::LINK_WRITE_BLOCK)) sim::sleep_ns((1 + sim::F(50)) * kMs);
  while (stall_writes && !w_closed_ && !r_closed_) sim::block(this, kNever, "stalled link write");
  if (w_closed_ || r_closed_) { write_failed = true; return false; }
  size_t k = n;
  bool ok = true;
  if (fail_after >= 0 && (int64_t)(wire.size() + n) > fail_after) {
    k = fail_after > (int64_t)wire.size() ? fail_after - wire.size() : 0;
    ok = false;
    sim::count_fault(sim::LINK_WRITE_FAIL);
  } else if (fail_calls.count(writes)) {
    k = fail_part < n ? fail_part : n ? n - 1 : 0;
    ok = false;
    failed_calls++;
    sim::count_fault(sim::LINK_WRITE_FAIL);
  } else if (faults && sim::fault(sim::LINK_WRITE_FAIL)) {
    k = 0;
    ok = false;
  } else if (faults && n > 1 && sim::fault(sim::LINK_WRITE_PARTIAL)) {
    k = sim::F((uint32_t)n);
    ok = false;
  }
  string d((const char*)buffer, k);
  wire += d;
  if (k) {
    uint64_t at = sim::now() + base_delay;
    if (faults && sim::fault(sim::LINK_DELAY)) at += (uint64_t)(1 + sim::F(200)) * kMs;
    // a large write may be delivered in several pieces
    if (at < last_at) at = last_at;
    last_at = at;
    q.push_back({at, std::move(d), 0});
    sim::wake_all(this);
  }
  if (k && on_write) on_write(wire.substr(wire.size() - k));
  if (!ok) {
    write_failed = true;
    if (k) truncated = true;
    return false;
  }
  return true;
}
bool FrameReader::next(J* out, string* raw) {
  HARNESS();
  for (;;) {
    vector<string> bodies;
    string rest, err;
    if (!split_frames(buf, &bodies, &rest, &err)) { bad = err; return false; }
    if (!bodies.empty()) {
      size_t hdr = buf.find("\r\n\r\n") + 4;
      string body = bodies[0];
      buf = buf.substr(hdr + body.size());
      if (raw) *raw = body;
      if (!J::parse(body, out)) { bad = "frame body is not JSON: " + show(body); return false; }
      return true;
    }
    char tmp[512];
    size_t k = link->read(tmp, sizeof tmp);
    if (k == 0) return false;
    buf.append(tmp, k);
  }
}

// --------------------------------------------------------------------- messages
J request_msg(int64_t seq, const string& c, const J& args) {
  J j = J::obj();
  j.set("seq", seq).set("type", "request").set("command", c);
  if (!args.is(J::Null)) j.set("arguments", args);
  return j;
}
J event_msg(int64_t seq, const string& e, const J& body) {
  J j = J::obj();
  j.set("seq", seq).set("type", "event").set("event", e);
  if (!body.is(J::Null)) j.set("body", body);
  return j;
}
J response_msg(int64_t seq, int64_t rs, const string& c, const J& body) {
  J j = J::obj();
  j.set("seq", seq).set("type", "response").set("request_seq", rs).set("success", true).set("command", c);
  if (!body.is(J::Null)) j.set("body", body);
  return j;
}
J error_msg(int64_t seq, int64_t rs, const string& c, const string& m) {
  J j = J::obj();
  j.set("seq", seq).set("type", "response").set("request_seq", rs).set("success", false).set("command", c).set("message", m);
  return j;
}

string endless_header() {
  static const char* const len[] = {"4611686018427387904", "9223372036854775807", "9223372036854775808", "18446744073709551599", "1125899906842624000", "1000000000000000000"};
  return string("Content-Length: ") + len[sim::W(6)] + "\r\n\r\n";
}
string rand_string(uint32_t max_len) {
  static const char* const pieces[] = {
      "a", "b", "Z", "0", " ", "\"", "\\", "/", "\n", "\r\n", "\t", "{", "}", "[", "]", ":", ",", "\x01", "\x1f", "\x7f",
      "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "Content-Length: 5\r\n\r\n", "null", "%s%n", "\\u0000", "\xe2\x80\xa8",
      "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xf4\x8f\xbf\xbf"};
  string s;
  uint32_t n = sim::W(4) == 0 ? 0 : 1 + sim::W(max_len ? max_len : 1);
  while (s.size() < n) s += pieces[sim::W(sizeof pieces / sizeof *pieces)];
  return s;
}
string rand_token(const char* prefix, int n) { return string(prefix) + std::to_string(n) + ":" + rand_string(12); }

void warm_types() {
  SUT();
  dap::TypeOf<dap::TokRequest>::type();
  dap::TypeOf<dap::TokResponse>::type();
  dap::TypeOf<dap::Tok2Request>::type();
  dap::TypeOf<dap::Tok2Response>::type();
  dap::TypeOf<dap::TokEvent>::type();
  dap::TypeOf<dap::Tok2Event>::type();
  dap::TypeOf<dap::array<dap::integer>>::type();
  dap::TypeOf<dap::optional<dap::string>>::type();
}
void check_no_leaks(const char* what) {
  char w[512];
  size_t n = sim::leaked_blocks(w, sizeof w);
  if (n) sim::violate("leak", "%s: %zu heap blocks allocated by the library are still alive, first: %s", what, n, w);
}
void end_of_process(const char* what) {
  if (sim::live_threads()) sim::violate("thread-leak", "%s: %d threads are still alive", what, sim::live_threads());
  sim::run_exit_handlers();
  check_no_leaks(what);
}
}  // namespace kit
