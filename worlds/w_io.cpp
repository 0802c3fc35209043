// Byte streams that are not sockets: pipe, file, spies, adapters.
#include "kit.h"
#include <cstring>
using namespace kit;

namespace {
// A self-describing chunk: <writer><number><length> then a pattern, so that any
// stream made of whole chunks can be decoded.
string chunk(int w, int k, size_t len) {
  string s;
  s += (char)(0xA0 + w);
  s += (char)k;
  s += (char)(len & 255);
  s += (char)(len >> 8);
  s += (char)(len >> 16);
  for (size_t i = 0; i < len; i++) s += (char)(w * 31 + k * 7 + i);
  return s;
}
// Decodes a stream of chunks.  Returns the number of whole chunks; per writer
// the numbers must be 0,1,2,... in order.
size_t decode(const string& s, int writers, vector<int>* next, bool partial_tail, const char* what) {
  size_t p = 0, n = 0;
  while (p < s.size()) {
    if (s.size() - p < 5) { if (partial_tail) return n; sim::violate("torn-write", "%s: the stream ends inside a chunk", what); }
    int w = (unsigned char)s[p] - 0xA0, k = (unsigned char)s[p + 1];
    size_t len = (unsigned char)s[p + 2] | (unsigned char)s[p + 3] << 8 | (unsigned char)s[p + 4] << 16;
    if (w < 0 || w >= writers) sim::violate("corrupt", "%s: byte %zu does not start a chunk (chunks mixed up)", what, p);
    if (s.size() - p - 5 < len) { if (partial_tail) return n; sim::violate("torn-write", "%s: the stream ends inside a chunk", what); }
    for (size_t i = 0; i < len; i++)
      if (s[p + 5 + i] != (char)(w * 31 + k * 7 + i)) sim::violate("corrupt", "%s: chunk %d of writer %d is damaged at byte %zu", what, k, w, i);
    if (k != (*next)[w]) sim::violate("wrong-order", "%s: writer %d's chunk %d arrived where %d was due", what, w, k, (*next)[w]);
    (*next)[w]++;
    p += 5 + len;
    n++;
  }
  return n;
}
// Around and beyond the sizes of common buffers.
size_t wide_len() { static const uint32_t m[] = {4096, 8192, 65536, 131072}; return m[sim::W(4)] - 20 + sim::W(sim::W(2) ? 40 : 20000); }
size_t rand_len() { static const uint32_t m[] = {4, 40, 300, 3000}; return sim::W(m[sim::W(4)]); }
}  // namespace

WORLD("P12", pipe_fifo, "several writers, one reader, exact reads, close at the end") {
  bool wide = sim::W(40) == 0;
  if (wide) sim::long_run(4000000, true);
  swarm_sched();
  auto p = sut([&] { return dap::pipe(); });
  int nw = 1 + sim::W(3), per = 1 + sim::W(5);
  size_t total = 0;
  vector<vector<string>> data(nw);
  for (int w = 0; w < nw; w++)
    for (int k = 0; k < per; k++) { data[w].push_back(chunk(w, k, wide && k < 2 ? wide_len() : rand_len())); total += data[w].back().size(); }
  vector<Task> ws;
  for (int w = 0; w < nw; w++)
    ws.emplace_back("writer", [&, w] {
      for (auto& c : data[w]) {
        if (sim::W(4) == 0) sim::sleep_ns(sim::W(20) * kMs);
        bool ok = sut([&] { touch(c.data(), c.size(), false); return p->write(c.data(), c.size()); });
        if (!ok) sim::violate("write-failed", "write on an open pipe failed");
        if (sim::W(6) == 0) { bool z = sut([&] { return p->write("", 0); }); if (!z) sim::violate("write-failed", "empty write on an open pipe failed"); }
      }
    });
  string got;
  Task rd("reader", [&] {
    vector<char> buf(200000);
    while (got.size() < total) {
      size_t want = 1 + (wide && sim::W(8) ? sim::W(150000) : sim::W(sim::W(2) ? 8 : 600));
      if (want > total - got.size()) want = total - got.size();
      memset(buf.data(), 0x55, want + 8);
      size_t n = sut([&] { return p->read(buf.data(), want); });
      if (n == 0) sim::violate("read-failed", "read on an open pipe returned 0 although data was due");
      if (n > want) sim::violate("overread", "read of %zu returned %zu", want, n);
      for (size_t i = want; i < want + 8; i++) if (buf[i] != 0x55) sim::violate("overread", "read of %zu returned %zu but wrote byte %zu", want, n, i);
      got.append(buf.data(), n);
    }
  });
  for (auto& t : ws) t.join();
  rd.join();
  vector<int> next(nw, 0);
  decode(got, nw, &next, false, "pipe");
  for (int w = 0; w < nw; w++) if (next[w] != per) sim::violate("lost", "writer %d wrote %d chunks, %d arrived", w, per, next[w]);
  if (!sut([&] { return p->isOpen(); })) sim::violate("not-open", "the pipe closed by itself");
  sut([&] { p->close(); });
  if (sut([&] { return p->isOpen(); })) sim::violate("not-closed", "isOpen() after close()");
  char c;
  if (sut([&] { return p->write("x", 1); })) sim::violate("write-after-close", "write() on a closed pipe succeeded");
  if (sut([&] { return p->read(&c, 1); })) sim::violate("read-after-close", "read() on a closed pipe returned data");
  sim::note("writers=%d chunks=%d bytes=%zu", nw, per, total);
  sut([&] { p.reset(); });
}

WORLD("P12", pipe_close, "close() at a random moment against blocked readers and busy writers") {
  swarm_sched();
  auto p = sut([&] { return dap::pipe(); });
  int nr = 1 + sim::W(3), nw = sim::W(3), closers = 1 + sim::W(2);
  string wrote;   // in acceptance order per writer only; single writer is compared exactly
  vector<string> got(nr);
  bool closed_done = false;
  vector<Task> ts;
  int failed_after_close = 0;
  for (int w = 0; w < nw; w++)
    ts.emplace_back("writer", [&, w] {
      for (int k = 0; k < 4; k++) {
        string c = chunk(w, k, rand_len() / 4);
        bool was_closed = closed_done;
        bool ok = sut([&] { return p->write(c.data(), c.size()); });
        if (ok && was_closed) sim::violate("write-after-close", "write() that began after close() returned succeeded");
        if (ok) wrote += c;
        else failed_after_close++;
        if (sim::W(3) == 0) sim::sleep_ns(sim::W(20) * kMs);
      }
    });
  for (int r = 0; r < nr; r++)
    ts.emplace_back("reader", [&, r] {
      vector<char> buf(1000);
      for (;;) {
        bool was_closed = closed_done;
        size_t want = 1 + sim::W(200);
        size_t n = sut([&] { return p->read(buf.data(), want); });
        if (n > want) sim::violate("overread", "read of %zu returned %zu", want, n);
        if (n && was_closed) sim::violate("read-after-close", "read() that began after close() returned %zu bytes", n);
        got[r].append(buf.data(), n);
        if (!sut([&] { return p->isOpen(); })) break;
        if (n == 0) sim::violate("read-zero", "read() returned 0 while the pipe is open");
      }
    });
  for (int c = 0; c < closers; c++)
    ts.emplace_back("closer", [&] {
      sim::sleep_ns(sim::W(60) * kMs);
      sim::count_fault(sim::LINK_LOCAL_CLOSE);
      sut([&] { p->close(); });
      closed_done = true;
    });
  for (auto& t : ts) t.join();
  if (sut([&] { return p->isOpen(); })) sim::violate("not-closed", "isOpen() after close()");
  size_t total = 0;
  for (auto& g : got) total += g.size();
  if (total > wrote.size()) sim::violate("invented", "%zu bytes read, %zu written", total, wrote.size());
  if (nr == 1 && nw == 1 && wrote.compare(0, got[0].size(), got[0]) != 0) sim::violate("corrupt", "the bytes read are not a prefix of the bytes written");
  sim::note("readers=%d writers=%d closers=%d written=%zu read=%zu", nr, nw, closers, wrote.size(), total);
  sut([&] { p.reset(); });
}

// Two sessions joined by two pipes, as in-process users do.
WORLD("P12", pipe_sessions, "two sessions over a pair of pipes") {
  swarm_sched();
  std::shared_ptr<dap::ReaderWriter> a, b;
  std::unique_ptr<dap::Session> c, s;
  vector<int64_t> evs;
  int closes = 0;
  sut([&] {
    a = dap::pipe();
    b = dap::pipe();
    c = dap::Session::create();
    s = dap::Session::create();
    s->registerHandler([&](const dap::TokRequest& r) { HARNESS(); dap::TokResponse o; o.id = r.id + 1; o.text = r.text; return o; });
    c->registerHandler([&](const dap::TokEvent& e) { HARNESS(); evs.push_back(e.id); });
    c->bind(a, b, [&] { HARNESS(); closes++; });
    s->bind(b, a, [&] { HARNESS(); closes++; });
  });
  int n = 1 + sim::W(5);
  vector<Task> ts;
  for (int t = 0; t < 1 + (int)sim::W(2); t++)
    ts.emplace_back("client", [&, t] {
      for (int k = 0; k < n; k++) {
        dap::TokRequest q;
        q.id = t * 100 + k;
        q.text = string(sim::W(600), 'p');
        auto r = sut([&] { return c->send(q).get(); });
        if (r.error || r.response.id != q.id + 1 || r.response.text != q.text) sim::violate("wrong-response", "request %ld got a wrong response over a pipe", (long)q.id);
      }
    });
  Task ev("events", [&] { for (int k = 0; k < n; k++) { dap::TokEvent e; e.id = k; sut([&] { s->send(e); }); } });
  for (auto& t : ts) t.join();
  ev.join();
  sim::disarm_all();
  sim::wait_quiescent(300000, "stuck");
  if ((int)evs.size() != n) sim::violate("lost", "%d events sent, %zu handled", n, evs.size());
  for (int k = 0; k < n; k++) if (evs[k] != k) sim::violate("wrong-order", "event %d arrived as number %ld", k, (long)evs[k]);
  if (sim::W(2)) sut([&] { c.reset(); s.reset(); });
  else sut([&] { s.reset(); c.reset(); });
  if (closes != 2) sim::violate("close-callback", "two sessions ended, %d close callbacks", closes);
  sim::note("n=%d", n);
  sut([&] { a.reset(); b.reset(); });
}

// ------------------------------------------------------------------------- files
WORLD("P18", file_session, "a session over stdin/stdout-like files") {
  swarm_sched();
  swarm({sim::FILE_SHORT_READ, sim::FILE_SHORT_WRITE, sim::FILE_EINTR_READ}, 20000);
  FILE *fi, *fo;
  sim::SimFile* si = sim::file_make("r", &fi);
  sim::SimFile* so = sim::file_make("w", &fo);
  bool closable = sim::W(2);
  std::unique_ptr<dap::Session> s;
  std::shared_ptr<dap::ReaderWriter> in, out;
  vector<std::pair<int64_t, string>> got;
  int closes = 0, errors = 0;
  sut([&] {
    s = dap::Session::create();
    s->onError([&](const char*) { HARNESS(); errors++; });
    s->registerHandler([&](const dap::TokRequest& r) { HARNESS(); got.emplace_back(r.id, r.text); dap::TokResponse o; o.id = r.id + 1; o.text = r.text; return o; });
    s->registerHandler([&](const dap::TokEvent& r) { HARNESS(); got.emplace_back(r.id, r.text); });
    in = dap::file(fi, closable);
    out = dap::file(fo, closable);
    s->bind(in, out, [&] { HARNESS(); closes++; });
  });
  int n = sim::W(6), evn = sim::W(4), reqs = 0;
  vector<std::pair<int64_t, string>> want;
  string stream;
  for (int k = 0; k < n; k++) {
    want.emplace_back(k, string(sim::W(400), 'f') + rand_string(6));
    J p = J::obj().set("id", (int64_t)k).set("text", want.back().second).set("list", J::arr());
    bool req = sim::W(2);
    reqs += req;
    stream += frame((req ? request_msg(k + 1, "tok", p) : event_msg(k + 1, "tokev", p)).dump());
  }
  Task sender("sender", [&] {
    for (int k = 0; k < evn; k++) {
      dap::TokEvent e;
      e.id = 500 + k;
      bool ok = sut([&] { return s->send(dap::TypeOf<dap::TokEvent>::type(), &e); });
      if (!ok) sim::violate("send-failed", "send over a working file failed");
      const uint8_t* d;
      size_t len = sim::file_written(so, &d);
      if (string((const char*)d, len).find("\"id\":" + std::to_string(500 + k)) == string::npos &&
          string((const char*)d, len).find("\"id\": " + std::to_string(500 + k)) == string::npos &&
          string((const char*)d, len).find("\"id\" : " + std::to_string(500 + k)) == string::npos)
        sim::violate("not-flushed", "send() returned but the message has not reached the file");
    }
  });
  for (size_t p = 0; p < stream.size();) {
    size_t k = std::min<size_t>(stream.size() - p, 1 + sim::W(200));
    sim::file_feed(si, stream.data() + p, k, sim::W(4) == 0 ? sim::W(20) * kMs : 0);
    p += k;
  }
  sender.join();
  if (sim::W(2)) {
    sim::wait_quiescent(350000, "stuck");
    if (got != want) sim::violate("lost", "%zu messages in the file, %zu handled", want.size(), got.size());
    if (closes) sim::violate("early-close", "close callback while the file is open");
  }
  sim::count_fault(sim::FILE_EOF);
  sim::file_feed_eof(si);
  sim::disarm_all();
  sim::wait_quiescent(350000, "livelock-after-eof");
  if (got != want) sim::violate("lost", "%zu messages in the file, %zu handled correctly", want.size(), got.size());
  if (closes != 1) sim::violate("close-callback", "end of file: close callback ran %d times", closes);
  if (errors) sim::violate("unexpected-error", "%d errors", errors);
  const uint8_t* d;
  size_t len = sim::file_written(so, &d);
  vector<string> bodies;
  string rest, err;
  if (!split_frames(string((const char*)d, len), &bodies, &rest, &err) || !rest.empty()) sim::violate("bad-frame", "output file: %s%s", err.c_str(), show(rest).c_str());
  if ((int)bodies.size() != reqs + evn) sim::violate("lost", "%d messages sent, %zu in the output file", reqs + evn, bodies.size());
  sut([&] { s.reset(); });
  if (closable != sim::file_closed(si) || closable != sim::file_closed(so)) sim::violate("file-close", "closable=%d but input closed=%d output closed=%d", closable, sim::file_closed(si), sim::file_closed(so));
  sut([&] { in.reset(); out.reset(); });
  int c = closable ? 1 : 0;
  if (sim::file_close_count(si) != c || sim::file_close_count(so) != c) sim::violate("file-close", "closable=%d: fclose called %d and %d times", closable, sim::file_close_count(si), sim::file_close_count(so));
  sim::note("in=%d out=%d closable=%d", n, evn, closable);
}

WORLD("P18", file_write, "concurrent writers to a file that may fill up or fail") {
  bool wide = sim::W(10) == 0;
  if (wide) sim::long_run(4000000, true);
  swarm_sched();
  bool faulty = sim::W(2);
  if (faulty) swarm({sim::FILE_SHORT_WRITE, sim::FILE_ENOSPC, sim::FILE_EIO_WRITE}, 20000);
  else swarm({sim::FILE_SHORT_WRITE}, 20000);
  sim::SimFile* so = nullptr;
  std::shared_ptr<dap::ReaderWriter> f;
  bool by_path = sim::W(2);
  if (by_path) {
    if (sim::W(4) == 0) {
      sim::arm(sim::FILE_OPEN_FAIL, 100000);
      auto g = sut([&] { return dap::file("/sim/denied"); });
      if (g) sim::violate("open-failure", "file() of a path that cannot be opened returned a stream");
      sim::arm(sim::FILE_OPEN_FAIL, 0);
    }
    f = sut([&] { return dap::file("/sim/log"); });
    so = sim::file_by_path("/sim/log");
    if (!f || !so) sim::violate("open-failure", "file() failed to open a path");
  } else {
    FILE* fo;
    so = sim::file_make("w", &fo);
    f = sut([&] { return dap::file(fo, true); });
  }
  int nw = 1 + sim::W(3), per = 1 + sim::W(5);
  vector<int> failed(nw, 0), ok(nw, 0);
  bool any_failed = false;
  vector<Task> ts;
  for (int w = 0; w < nw; w++)
    ts.emplace_back("writer", [&, w] {
      for (int k = 0; k < per; k++) {
        string c = chunk(w, k, wide && k < 2 ? wide_len() : sim::W(5) == 0 ? 5000 + sim::W(4000) : rand_len());
        bool r = sut([&] { return f->write(c.data(), c.size()); });
        if (!r) { failed[w]++; any_failed = true; if (!faulty) sim::violate("write-failed", "write to a working file failed"); continue; }
        ok[w]++;
        const uint8_t* d;
        size_t n = sim::file_written(so, &d);
        if (string((const char*)d, n).find(c) == string::npos) sim::violate("false-success", "write() returned true but the bytes have not reached the file (%zu bytes there)", n);
      }
    });
  for (auto& t : ts) t.join();
  const uint8_t* d;
  size_t n = sim::file_written(so, &d);
  if (!any_failed) {
    vector<int> next(nw, 0);
    decode(string((const char*)d, n), nw, &next, false, "file");
    for (int w = 0; w < nw; w++) if (next[w] != per) sim::violate("lost", "writer %d wrote %d chunks, %d in the file", w, per, next[w]);
  } else sim::probe("write failed");
  sim::disarm_all();
  bool twice = sim::W(2);
  sut([&] { f->close(); if (twice) f->close(); });
  if (sut([&] { return f->isOpen(); })) sim::violate("not-closed", "isOpen() after close()");
  if (sut([&] { return f->write("x", 1); })) sim::violate("write-after-close", "write() after close() succeeded");
  sut([&] { f.reset(); });
  if (sim::file_close_count(so) != 1) sim::violate("file-close", "fclose called %d times", sim::file_close_count(so));
  sim::note("writers=%d per=%d faulty=%d failed=%d", nw, per, faulty, any_failed);
}

WORLD("P18", file_close_race, "close() against reads and writes in progress") {
  swarm_sched();
  swarm({sim::FILE_SHORT_READ, sim::FILE_SHORT_WRITE}, 20000);
  FILE *fi, *fo;
  sim::SimFile* si = sim::file_make("r", &fi);
  sim::SimFile* so = sim::file_make("w", &fo);
  auto in = sut([&] { return dap::file(fi, true); });
  auto out = sut([&] { return dap::file(fo, true); });
  string fed, got;
  bool closed = false;
  Task feeder("feeder", [&] {
    for (int k = 0; k < 6; k++) {
      string c = chunk(0, k, 5 + sim::W(60));
      fed += c;
      sim::file_feed(si, c.data(), c.size(), 0);
      sim::sleep_ns(sim::W(10) * kMs);
    }
    sim::file_feed_eof(si);
  });
  vector<Task> ts;
  ts.emplace_back("reader", [&] {
    char b[64];
    for (;;) {
      size_t n = sut([&] { return in->read(b, 1 + sim::W(60)); });
      got.append(b, n);
      if (n == 0) break;
    }
  });
  for (int w = 0; w < 2; w++)
    ts.emplace_back("writer", [&, w] {
      for (int k = 0; k < 4; k++) {
        string c = chunk(w, k, 5 + sim::W(60));
        bool was = closed;
        bool r = sut([&] { return out->write(c.data(), c.size()); });
        if (r && was) sim::violate("write-after-close", "write() after close() succeeded");
      }
    });
  int nc = 1 + sim::W(2);
  for (int k = 0; k < nc; k++)
    ts.emplace_back("closer", [&] {
      sim::sleep_ns(sim::W(30) * kMs);
      sut([&] { in->close(); out->close(); });
      closed = true;
      if (sut([&] { return in->isOpen() || out->isOpen(); })) sim::violate("not-closed", "isOpen() after close()");
    });
  for (auto& t : ts) t.join();
  feeder.join();
  if (fed.compare(0, got.size(), got) != 0) sim::violate("corrupt", "bytes read are not a prefix of the file");
  sut([&] { in.reset(); out.reset(); });
  if (sim::file_close_count(si) != 1 || sim::file_close_count(so) != 1) sim::violate("file-close", "fclose called %d and %d times", sim::file_close_count(si), sim::file_close_count(so));
  sim::note("closers=%d read=%zu of %zu", nc, got.size(), fed.size());
}

// ---------------------------------------------------------------- spies, adapters
WORLD("P19", spy_transparent, "spies on a reader and a writer whose log may fail") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_SEGMENT, sim::LINK_DELAY}, 60000);
  auto link = Link::make("main"), rlog = Link::make("rlog"), wlog = Link::make("wlog");
  rlog->faults = wlog->faults = false;
  bool logs_fail = sim::W(4) == 0;
  bool logs_closed = logs_fail && sim::W(2);
  bool shared_log = !logs_fail && sim::W(3) == 0;   // one log for both directions
  if (logs_closed) { (sim::W(2) ? rlog : wlog)->w_close(); (sim::W(2) ? rlog : wlog)->r_close(); }
  else if (logs_fail) { rlog->fail_after = sim::W(100); wlog->fail_after = sim::W(100); }
  int64_t mainfail = sim::W(4) == 0 ? sim::W(300) : -1;
  link->fail_after = mainfail;
  string rp = sim::W(2) ? "\n->" : sim::W(2) ? "" : rand_string(5), wp = sim::W(2) ? "\n<-" : sim::W(2) ? "" : rand_string(5);
  std::shared_ptr<dap::Reader> r;
  std::shared_ptr<dap::Writer> w;
  sut([&] {
    r = dap::spy(link->reader(), rlog->writer(), rp.c_str());
    w = dap::spy(link->writer(), (shared_log ? rlog : wlog)->writer(), wp.c_str());
  });
  string sent, wexp, rexp, got;
  if (!sut([&] { return r->isOpen(); })) sim::violate("spy-state", "spy says the reader is closed");
  vector<string> wents, rents;   // what is logged, entry by entry
  int n = 1 + sim::W(8);
  Task wr("writer", [&] {
    for (int k = 0; k < n; k++) {
      string c = chunk(0, k, rand_len());
      size_t before = link->wire.size();
      bool ok = sut([&] { return w->write(c.data(), c.size()); });
      bool fits = mainfail < 0 || (int64_t)(before + c.size()) <= mainfail;
      if (ok != fits) sim::violate("spy-result", "write through the spy returned %d, the stream's own result is %d", ok, fits);
      if (ok) { sent += c; wexp += wp + c; wents.push_back(wp + c); }
      else break;
      if (sim::W(3) == 0) sim::sleep_ns(sim::W(20) * kMs);
    }
    if (!sut([&] { return w->isOpen(); })) sim::violate("spy-state", "spy says the writer is closed");
    sut([&] { w->close(); });
    if (!link->w_closed()) sim::violate("spy-close", "close() through the spy did not close the stream");
    if (sut([&] { return w->isOpen(); })) sim::violate("spy-state", "spy says the writer is open");
  });
  Task rd("reader", [&] {
    vector<char> buf(700);
    for (;;) {
      size_t want = 1 + sim::W(600);
      memset(buf.data(), 0x55, buf.size());
      size_t k = sut([&] { return r->read(buf.data(), want); });
      if (k == 0) break;
      if (k > want) sim::violate("overread", "read of %zu returned %zu", want, k);
      got.append(buf.data(), k);
      rexp += rp + string(buf.data(), k);
      rents.push_back(rp + string(buf.data(), k));
    }
    sut([&] { r->close(); });
    if (!link->r_closed()) sim::violate("spy-close", "close() through the spy did not close the stream");
  });
  wr.join();
  rd.join();
  if (!logs_closed && (rlog->w_closed() || wlog->w_closed())) sim::violate("spy-close", "closing the spied stream closed the log");
  if (got != link->wire) sim::violate("corrupt", "%zu bytes written, the spied reader delivered %zu other bytes", link->wire.size(), got.size());
  if (link->wire.compare(0, sent.size(), sent) != 0) sim::violate("corrupt", "the spied writer changed the bytes");
  if (shared_log) {
    // entries of the two directions in any order, but each in one piece
    const string& L = rlog->wire;
    vector<size_t> rpos(1, 0);
    for (auto& e : rents) rpos.push_back(rpos.back() + e.size());
    vector<char> can(rents.size() + 1, 0);
    size_t wpos = 0;
    for (size_t i = 0; i <= wents.size(); i++) {
      vector<char> now(rents.size() + 1, 0);
      for (size_t j = 0; j <= rents.size(); j++) {
        if (i == 0 && j == 0) { now[0] = 1; continue; }
        size_t at = wpos + rpos[j];
        if (i && can[j] && L.compare(at - wents[i - 1].size(), wents[i - 1].size(), wents[i - 1]) == 0) now[j] = 1;
        if (j && now[j - 1] && L.compare(at - rents[j - 1].size(), rents[j - 1].size(), rents[j - 1]) == 0) now[j] = 1;
      }
      can = now;
      if (i < wents.size()) wpos += wents[i].size();
    }
    if (L.size() != wexp.size() + rexp.size() || !can[rents.size()]) sim::violate("spy-log", "the log of both directions is not made of whole entries: %s", show(L, 300).c_str());
    sim::probe("shared log");
  } else if (!logs_fail) {
    if (rlog->wire != rexp) sim::violate("spy-log", "reader log is %zu bytes, expected %zu: %s", rlog->wire.size(), rexp.size(), show(rlog->wire).c_str());
    if (wlog->wire != wexp) sim::violate("spy-log", "writer log is %zu bytes, expected %zu: %s", wlog->wire.size(), wexp.size(), show(wlog->wire).c_str());
  } else sim::probe("log failed");
  sim::note("chunks=%d bytes=%zu logs_fail=%d", n, got.size(), logs_fail);
  sut([&] { r.reset(); w.reset(); });
}

WORLD("P19", readerwriter_adapter, "ReaderWriter::create over two links; state follows both halves") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_SEGMENT, sim::LINK_DELAY}, 60000);
  auto a = Link::make("a"), b = Link::make("b");
  auto rw = sut([&] { return dap::ReaderWriter::create(a->reader(), b->writer()); });
  if (!sut([&] { return rw->isOpen(); })) sim::violate("state", "a fresh adapter is not open");
  int n = sim::W(6);
  string in, got, out;
  Task t1("in", [&] { for (int k = 0; k < n; k++) { string c = chunk(0, k, rand_len()); in += c; a->inject(c, sim::W(3) ? 0 : kMs * sim::W(20)); } });
  Task t2("out", [&] { for (int k = 0; k < n; k++) { string c = chunk(1, k, rand_len()); out += c; if (!sut([&] { return rw->write(c.data(), c.size()); })) sim::violate("write-failed", "adapter write failed"); } });
  t1.join();
  char buf[512];
  while (got.size() < in.size()) {
    size_t want = std::min<size_t>(in.size() - got.size(), 1 + sim::W(500));
    size_t k = sut([&] { return rw->read(buf, want); });
    if (!k) sim::violate("read-failed", "adapter read returned 0");
    got.append(buf, k);
  }
  t2.join();
  if (got != in || b->wire != out) sim::violate("corrupt", "adapter changed the bytes");
  int how = sim::W(4);
  if (how == 0) a->r_close();
  if (how == 1) b->w_close();
  if (how == 2) { a->r_close(); b->w_close(); }
  if (how < 3 && sut([&] { return rw->isOpen(); })) sim::violate("state", "adapter open although a half is closed");
  Task blocked("blocked", [&] { char c; size_t k = sut([&] { return rw->read(&c, 1); }); if (k) sim::violate("invented", "read a byte nobody wrote"); });
  if (sim::W(2)) sim::sleep_ns(5 * kMs);
  sut([&] { rw->close(); });
  if (!a->r_closed() || !b->w_closed()) sim::violate("close", "close() left reader closed=%d writer closed=%d", a->r_closed(), b->w_closed());
  if (sut([&] { return rw->isOpen(); })) sim::violate("state", "isOpen() after close()");
  blocked.join();
  // writef
  auto l = Link::make("f");
  auto w = l->writer();
  string arg = string(sim::W(300), 'q');
  bool ok = sut([&] { return dap::writef(w, "%d-%s-%c", 42, arg.c_str(), 'x'); });
  if (!ok || l->wire != "42-" + arg + "-x") sim::violate("writef", "writef wrote '%s'", show(l->wire).c_str());
  l->w_close();
  if (sut([&] { return dap::writef(w, "x"); })) sim::violate("writef", "writef on a closed stream succeeded");
  sim::note("n=%d how=%d", n, how);
  sut([&] { rw.reset(); });
}
