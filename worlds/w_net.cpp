// TCP: byte streams, closing, the server's life, connecting.
#include "kit.h"
#include "dap/network.h"
#include <cstring>
#include <functional>
using namespace kit;

namespace {
using RW = std::shared_ptr<dap::ReaderWriter>;
string pattern(int tag, size_t off, size_t n) {
  string s(n, 0);
  for (size_t i = 0; i < n; i++) { uint64_t x = (off + i) * 2654435761u + tag * 40503u; s[i] = (char)(x >> 11); }
  return s;
}
size_t rand_len() {
  switch (sim::W(4)) {
    case 0: return 1 + sim::W(16);
    case 1: return 1 + sim::W(300);
    case 2: return 1 + sim::W(3000);
    default: return 1;
  }
}
void net_swarm() { swarm({sim::NET_SHORT_RECV, sim::NET_DELAY, sim::NET_EINTR_RECV, sim::NET_EINTR_SEND, sim::NET_SHORT_SEND, sim::NET_SNDBUF_FULL, sim::LINK_SEGMENT}, 20000); }
void config() { sim::net_config(sim::W(2) ? 64 + sim::W(2000) : 65536, sim::W(2) ? sim::W(2000) * kUs : 20 * kUs); }

struct Srv {
  std::unique_ptr<dap::net::Server> s;
  HQueue<RW> conns;
  int errors = 0;
  bool close_on_error = false;
  bool running = false;       // between start() and the return of stop()
  bool may_call = false;
  int accepted = 0;
  bool slow = false;          // the callback takes its time
  Srv() { sut([&] { s = dap::net::Server::create(); }); }
  bool start(int port, const char* addr = nullptr) {
    may_call = true;
    auto on = [this](const RW& rw) {
      HARNESS();
      if (!may_call) sim::violate("late-callback", "onConnect ran after stop() had returned");
      if (!rw) sim::violate("null-connection", "onConnect got a null connection");
      accepted++;
      conns.put(rw);
      if (slow && sim::W(3) == 0) {
        sim::count_fault(sim::HANDLER_SLOW);
        sim::sleep_ns(sim::W(30) * kMs);
        if (!may_call) sim::violate("late-callback", "stop() returned while onConnect was running");
      }
    };
    auto err = [this](const char* m) {
      HARNESS();
      if (!may_call) sim::violate("late-callback", "onError ran after stop() had returned");
      if (!m || !*m) sim::violate("bad-error", "onError without a message");
      errors++;
      if (close_on_error) conns.close();
    };
    bool ok = sut([&] { return addr ? s->start(addr, port, on, err) : s->start(port, on, err); });
    running = ok;
    return ok;
  }
  void stop() {
    sut([&] { s->stop(); });
    may_call = running = false;
  }
  ~Srv() { if (s) destroy(); }
  void destroy() {
    sut([&] { s.reset(); });
    may_call = running = false;
  }
  RW take(uint64_t timeout = kNever) {
    RW r;
    conns.get(&r, timeout);
    return r;
  }
};
void drop(RW& r) { sut([&] { r.reset(); }); }
void check_fds(const char* when) {
  if (sim::net_open_fds()) sim::violate("fd-leak", "%s: %zu descriptors are still open", when, sim::net_open_fds());
  if (sim::net_live_addrinfos()) sim::violate("fd-leak", "%s: %zu address records were not freed", when, sim::net_live_addrinfos());
}
// Reads until the end of the stream.
string read_all(RW& r, size_t* zero_reads = nullptr) {
  string got;
  for (;;) {
    char buf[1100];
    size_t want = 1 + sim::W(sim::W(2) ? 1000 : 9);
    memset(buf, 0x5a, want + 8);
    size_t n = sut([&] { return r->read(buf, want); });
    if (n > want) sim::violate("overread", "read of %zu returned %zu", want, n);
    for (size_t i = want; i < want + 8; i++) if (buf[i] != 0x5a) sim::violate("overread", "read of %zu returned %zu but wrote byte %zu", want, n, i);
    if (n == 0) return got;
    got.append(buf, n);
  }
}
}  // namespace

WORLD("P14", tcp_streams, "bytes both ways over several connections; short and interrupted calls, small buffers, delays") {
  swarm_sched();
  net_swarm();
  config();
  warm_types();
  sim::mark_baseline();
  {
    Srv srv;
    int port = 1000 + sim::W(100);
    if (!srv.start(port)) sim::violate("start", "the server did not start on a free port");
    int nc = 1 + sim::W(3);
    size_t maxtotal = sim::W(4) == 0 ? 6000 : 1500;
    vector<size_t> up(nc), down(nc);
    for (int c = 0; c < nc; c++) { up[c] = sim::W(maxtotal); down[c] = sim::W(maxtotal); }
    auto writer = [&](RW rw, int tag, size_t total) {
      size_t off = 0;
      while (off < total) {
        size_t n = rand_len();
        if (n > total - off) n = total - off;
        string p = pattern(tag, off, n);
        bool ok = sut([&] { return rw->write(p.data(), p.size()); });
        if (!ok) sim::violate("write-failed", "write() of %zu bytes failed on a healthy connection", n);
        off += n;
        if (sim::W(8) == 0) sim::sleep_ns(sim::W(10) * kMs);
      }
    };
    auto reader = [&](RW rw, int tag, size_t total) {
      size_t off = 0;
      while (off < total) {
        char buf[1100];
        size_t want = 1 + sim::W(1000);
        size_t n = sut([&] { return rw->read(buf, want); });
        if (n == 0) sim::violate("lost", "read() reported the end after %zu of %zu bytes on a healthy connection", off, total);
        if (n > want) sim::violate("overread", "read of %zu returned %zu", want, n);
        if (off + n > total) sim::violate("invented", "%zu bytes read, %zu written", off + n, total);
        if (string(buf, n) != pattern(tag, off, n)) sim::violate("corrupt", "bytes %zu..%zu are not those written", off, off + n);
        off += n;
      }
    };
    vector<Task> ts;
    // the first two bytes tell which connection it is
    ts.emplace_back("acceptor", [&] {
      vector<Task> in;
      for (int k = 0; k < nc; k++) {
        RW rw = srv.take();
        in.emplace_back("server", [&, rw]() mutable {
          unsigned char id[2];
          size_t got = 0;
          while (got < 2) {
            size_t n = sut([&] { return rw->read(id + got, 2 - got); });
            if (n == 0) sim::violate("lost", "the connection ended before its first bytes");
            got += n;
          }
          int c = id[0];
          if (c >= nc || id[1] != 0xa5) sim::violate("corrupt", "the first bytes are not those written");
          Task w("server-writer", [&] { writer(rw, 100 + c, down[c]); });
          reader(rw, c, up[c]);
          w.join();
          // the client closes after it has everything: end of stream, no more bytes
          string rest = read_all(rw);
          if (!rest.empty()) sim::violate("invented", "%zu bytes beyond the end", rest.size());
          drop(rw);
        });
        rw.reset();
      }
      for (auto& t : in) t.join();
    });
    for (int c = 0; c < nc; c++)
      ts.emplace_back("client", [&, c] {
        RW rw = sut([&] { return dap::net::connect("localhost", port, sim::W(2) ? 0 : 600000); });
        if (!rw) sim::violate("connect-failed", "connect() to a running server failed");
        if (!sut([&] { return rw->isOpen(); })) sim::violate("not-open", "a fresh connection is not open");
        unsigned char id[2] = {(unsigned char)c, 0xa5};
        if (!sut([&] { return rw->write(id, 2); })) sim::violate("write-failed", "write() failed on a healthy connection");
        Task w("client-writer", [&] { writer(rw, c, up[c]); });
        reader(rw, 100 + c, down[c]);
        w.join();
        if (sim::W(2)) sut([&] { rw->close(); });
        drop(rw);
      });
    for (auto& t : ts) t.join();
    if (srv.errors) sim::violate("spurious-error", "the server reported %d errors in a healthy run", srv.errors);
    srv.destroy();
    sim::note("connections=%d", nc);
  }
  check_fds("after everything was destroyed");
  check_no_leaks("after everything was destroyed");
}

WORLD("P14", tcp_breaks, "connections cut by resets, by either side closing or by a stalled peer: what arrives is a prefix") {
  swarm_sched();
  net_swarm();
  config();
  warm_types();
  sim::mark_baseline();
  {
    Srv srv;
    int port = 2000;
    if (!srv.start(port)) sim::violate("start", "the server did not start on a free port");
    size_t total = 1 + sim::W(4000);
    string sent;        // bytes of writes that began
    size_t acked = 0;   // bytes of writes that reported success
    bool clean = false;
    RW c = sut([&] { return dap::net::connect("localhost", port); });
    if (!c) sim::violate("connect-failed", "connect() to a running server failed");
    RW s = srv.take();
    int how = sim::W(5);   // 0 writer closes when done, 1 reset, 2 reader closes, 3 writer closes midway from another thread, 4 writer destroyed when done
    string got;
    bool reader_closed = false, writer_closed = false;
    Task rd("reader", [&] {
      size_t stop_at = how == 2 ? sim::W((uint32_t)total) : (size_t)-1;
      for (;;) {
        char buf[600];
        size_t want = 1 + sim::W(500);
        size_t n = sut([&] { return s->read(buf, want); });
        if (n == 0) break;
        got.append(buf, n);
        if (got.size() >= stop_at) { sim::count_fault(sim::LINK_PEER_CLOSE); sut([&] { s->close(); }); reader_closed = true; break; }
      }
    });
    Task wr("writer", [&] {
      size_t off = 0;
      while (off < total) {
        size_t n = rand_len();
        if (n > total - off) n = total - off;
        string p = pattern(7, off, n);
        sent += p;
        bool was_closed = writer_closed;
        bool ok = sut([&] { return c->write(p.data(), p.size()); });
        if (ok && was_closed) sim::violate("write-after-close", "write() that began after close() returned succeeded");
        if (!ok) {
          if (how == 0 || how == 4) sim::violate("write-failed", "write() failed on a healthy connection");
          return;
        }
        acked += n;
        off += n;
        if (sim::W(6) == 0) sim::sleep_ns(sim::W(20) * kMs);
      }
      clean = true;
      if (how == 0) sut([&] { c->close(); });
      if (how == 4) drop(c);
      // after a fault nobody may wait for ever: end the stream
      if (how == 2 || how == 1) { while (sut([&] { return c->write("more", 4); }) && !reader_closed && how == 2) sim::sleep_ns(10 * kMs); sut([&] { c->close(); }); }
    });
    Task ft("faults", [&] {
      if (how == 1) { sim::sleep_ns(sim::W(40) * kMs); sim::net_reset_connection(port); }
      if (how == 3) { sim::sleep_ns(sim::W(40) * kMs); sim::count_fault(sim::LINK_LOCAL_CLOSE); sut([&] { c->close(); }); writer_closed = true; }
    });
    wr.join();
    ft.join();
    if (c && how != 4) sut([&] { c->close(); });
    rd.join();
    string all = sent + "moremoremoremoremore";
    if (how == 1 || how == 2) {
      if (got.compare(0, std::min(got.size(), sent.size()), sent, 0, std::min(got.size(), sent.size())) != 0) sim::violate("corrupt", "the bytes read are not a prefix of the bytes written");
    } else {
      if (got.size() > sent.size() || sent.compare(0, got.size(), got) != 0) sim::violate("corrupt", "%zu bytes read are not a prefix of the %zu bytes written", got.size(), sent.size());
    }
    if (how == 0 || how == 4) {
      if (!clean || got != sent) sim::violate("lost", "the writer wrote %zu bytes and closed, the reader got %zu", sent.size(), got.size());
    }
    if (how == 3 && got.size() < acked) sim::violate("lost", "%zu bytes were accepted before close(), %zu arrived", acked, got.size());
    drop(c);
    drop(s);
    srv.destroy();
    sim::note("how=%d total=%zu got=%zu", how, total, got.size());
  }
  check_fds("after everything was destroyed");
  check_no_leaks("after everything was destroyed");
}

WORLD("P15", net_close, "close() from any thread against blocked reads, blocked writes and isOpen(); resets; both ends") {
  swarm_sched();
  net_swarm();
  config();
  warm_types();
  sim::mark_baseline();
  {
    Srv srv;
    int port = 2100;
    if (!srv.start(port)) sim::violate("start", "the server did not start on a free port");
    RW c = sut([&] { return dap::net::connect("localhost", port, sim::W(2) * 500000); });
    if (!c) sim::violate("connect-failed", "connect() to a running server failed");
    RW s = srv.take();
    vector<Task> ts;
    bool both = sim::W(3) == 0;      // both ends close themselves
    bool reset = sim::W(4) == 0;
    bool closed[2] = {false, false};
    RW* ends[2] = {&c, &s};
    for (int e = 0; e < 2; e++) {
      RW rw = *ends[e];
      int nr = sim::W(3), nw = sim::W(2), ni = sim::W(2);
      if (e == 0 && nr + nw == 0) nr = 1;
      for (int k = 0; k < nr; k++)
        ts.emplace_back("reader", [&, rw, e] {
          for (;;) {
            char buf[64];
            bool was = closed[e];
            size_t n = sut([&] { return rw->read(buf, 1 + sim::W(60)); });
            if (n && was) sim::violate("read-after-close", "read() that began after close() returned data");
            if (n == 0) break;
          }
        });
      for (int k = 0; k < nw; k++)
        ts.emplace_back("writer", [&, rw, e] {
          string p(1 + sim::W(3000), 'w');
          for (int j = 0; j < 8; j++) {
            bool was = closed[e];
            bool ok = sut([&] { return rw->write(p.data(), p.size()); });
            if (ok && was) sim::violate("write-after-close", "write() that began after close() returned succeeded");
            if (!ok) break;
            sim::sleep_ns(5 * kMs);
          }
        });
      for (int k = 0; k < ni; k++)
        ts.emplace_back("poller", [&, rw, e] {
          for (int j = 0; j < 20; j++) {
            bool was = closed[e];
            bool o = sut([&] { return rw->isOpen(); });
            if (o && was) sim::violate("open-after-close", "isOpen() is true after close() returned");
            if (!o) closed[e] = true;   // found closed or broken: it stays so
            if (!o && sim::W(2)) break;
            sim::sleep_ns(sim::W(10) * kMs);
          }
        });
      int closers = e == 0 || both ? 1 + sim::W(2) : 0;
      for (int k = 0; k < closers; k++)
        ts.emplace_back("closer", [&, rw, e] {
          sim::sleep_ns(sim::W(50) * kMs);
          sim::count_fault(sim::LINK_LOCAL_CLOSE);
          sut([&] { rw->close(); });
          closed[e] = true;
        });
    }
    if (reset)
      ts.emplace_back("faults", [&] { sim::sleep_ns(sim::W(40) * kMs); sim::net_reset_connection(port); });
    if (sim::W(2)) { drop(c); drop(s); }
    for (auto& t : ts) t.join();
    ts.clear();
    if (c) {
      char b;
      if (sut([&] { return c->isOpen(); })) sim::violate("open-after-close", "isOpen() after close()");
      if (sut([&] { return c->read(&b, 1); })) sim::violate("read-after-close", "read() on a closed connection returned data");
      if (sut([&] { return c->write("x", 1); })) sim::violate("write-after-close", "write() on a closed connection succeeded");
    }
    drop(c);
    drop(s);
    srv.destroy();
    sim::note("both=%d reset=%d", (int)both, (int)reset);
  }
  check_fds("after everything was destroyed");
  check_no_leaks("after everything was destroyed");
}

WORLD("P15", net_sessions, "sessions over TCP: requests, events, disconnects, resets, teardown in any order; no descriptor or thread is left") {
  swarm_sched();
  net_swarm();
  config();
  warm_types();
  sim::mark_baseline();
  {
    Srv srv;
    int port = 2200;
    if (!srv.start(port)) sim::violate("start", "the server did not start on a free port");
    int n = 1 + sim::W(2);
    bool reset = sim::W(4) == 0;
    int server_first = sim::W(3);
    int closes = 0, binds = 0;
    vector<std::unique_ptr<dap::Session>> ss;
    Task acc("acceptor", [&] {
      for (int k = 0; k < n; k++) {
        RW rw = srv.take();
        sut([&] {
          auto s = dap::Session::create();
          s->registerHandler([](const dap::TokRequest& r) { HARNESS(); dap::TokResponse o; o.id = r.id + 1; o.text = r.text; return o; });
          { HARNESS(); binds++; }
          s->bind(rw, [&] { HARNESS(); closes++; });
          HARNESS();
          ss.push_back(std::move(s));
        });
        drop(rw);
      }
    });
    vector<Task> ts;
    int cclose = 0, up = 0;
    sim::Flag all_up;
    for (int k = 0; k < n; k++)
      ts.emplace_back("client", [&, k] {
        RW rw = sut([&] { return dap::net::connect("localhost", port); });
        if (!rw) sim::violate("connect-failed", "connect() to a running server failed");
        if (++up == n) all_up.set();
        std::unique_ptr<dap::Session> c;
        sut([&] { c = dap::Session::create(); c->bind(rw, [&] { HARNESS(); cclose++; }); });
        int reqs = 1 + sim::W(3);
        for (int q = 0; q < reqs; q++) {
          dap::TokRequest r;
          r.id = k * 10 + q;
          r.text = string(sim::W(900), 't');
          Fut<dap::ResponseOrError<dap::TokResponse>> f(sut([&] { return c->send(r); }));
          if (!reset) {
            auto v = sut([&] { return f.get(); });
            if (v.error || v.response.id != r.id + 1 || v.response.text != r.text) sim::violate("wrong-response", "request %ld got a wrong response over TCP", (long)r.id);
          } else {
            auto st = sut([&] { return f.f->wait_for(std::chrono::milliseconds(500)); });
            if (st == dap::future_status::ready) {
              auto v = sut([&] { return f.get(); });
              if (!v.error && v.response.id != r.id + 1) sim::violate("wrong-response", "request %ld got a wrong response over TCP", (long)r.id);
            }
          }
          sut([&] { f.f.reset(); });
        }
        if (server_first == 1) sim::sleep_ns(2 * kSec);
        sut([&] { c.reset(); });
        drop(rw);
      });
    Task ft("faults", [&] { if (reset) { all_up.wait(); sim::sleep_ns(sim::W(30) * kMs); sim::net_reset_connection(port); } });
    ft.join();
    acc.join();
    if (server_first == 1) {
      if (!reset) for (auto& t : ts) (void)t;
      sim::sleep_ns(1 * kSec);
    }
    if (server_first == 2) srv.stop();      // accepted connections are not affected by this
    for (auto& t : ts) t.join();
    // all clients are gone: every server session notices without help
    sim::disarm_all();
    sim::wait_quiescent(500000, "stuck");
    if (closes != n) sim::violate("close-callback", "%d clients disconnected, %d sessions noticed", n, closes);
    if (cclose != n) sim::violate("close-callback", "%d client sessions were destroyed, %d close callbacks", n, cclose);
    sut([&] { ss.clear(); });
    srv.destroy();
    sim::note("sessions=%d reset=%d", n, (int)reset);
  }
  check_fds("after everything was destroyed");
  check_no_leaks("after everything was destroyed");
}

WORLD("P16", server_life, "start/stop/restart/destroy at any moment with clients connecting; ports in use; failing calls") {
  swarm_sched();
  swarm({sim::NET_DELAY, sim::NET_ACCEPT_EINTR, sim::NET_ACCEPT_ABORT, sim::NET_SLOW_HANDSHAKE}, 20000);
  bool failing = sim::W(3) == 0;
  if (failing) swarm({sim::NET_SOCKET_EMFILE, sim::NET_ADDR_INUSE, sim::NET_LISTEN_FAIL, sim::NET_DNS_FAIL, sim::NET_ACCEPT_ERR}, 20000);
  config();
  warm_types();
  sim::mark_baseline();
  {
    std::unique_ptr<Srv> srv(new Srv);
    srv->slow = sim::W(2);
    int port = 2300 + sim::W(10);
    bool done = false;
    int connected = 0;
    vector<Task> cl;
    int nc = 1 + sim::W(3);
    for (int k = 0; k < nc; k++)
      cl.emplace_back("client", [&] {
        for (int j = 0; j < 6 && !done; j++) {
          sim::sleep_ns(sim::W(20) * kMs);
          RW rw = sut([&] { return dap::net::connect("localhost", port, 1 + sim::W(300)); });
          if (rw) {
            connected++;
            if (sim::W(2)) sim::sleep_ns(sim::W(10) * kMs);
            drop(rw);
          }
        }
      });
    Task taker("taker", [&] { RW r; while (srv->conns.get(&r)) { if (sim::W(2)) sim::sleep_ns(sim::W(10) * kMs); drop(r); } });
    int rounds = 1 + sim::W(4);
    for (int r = 0; r < rounds; r++) {
      const char* addr = sim::W(2) ? "localhost" : sim::W(2) ? "127.0.0.1" : nullptr;
      if (sim::W(3) == 0) port = 2300 + sim::W(10);
      int e0 = srv->errors;
      bool ok = srv->start(port, addr);
      if (!ok && !failing) sim::violate("start", "start() on a free port failed (round %d)", r);
      if (!ok && srv->errors == e0) sim::violate("no-error", "start() failed without an error report");
      if (ok && sim::net_listeners() == 0 && !failing) sim::violate("start", "start() succeeded but nothing listens");
      if (sim::net_listeners() > (ok ? 1 : 0)) sim::violate("still-listening", "start() returned %d and the server listens on %d ports", (int)ok, sim::net_listeners());
      if (sim::W(2)) sim::sleep_ns(sim::W(60) * kMs);
      switch (sim::W(4)) {
        case 0: srv->stop(); break;
        case 1: srv->stop(); srv->stop(); break;
        case 2: break;   // start() again without stop()
        default:
          // two threads stop it at the same time
          { Task a("stopper", [&] { if (sim::W(2)) sim::sleep_ns(sim::W(5) * kMs); srv->stop(); }); srv->stop(); a.join(); }
      }
      if (!srv->running && sim::net_listeners()) sim::violate("still-listening", "stop() returned but the port is still open");
    }
    done = true;
    if (sim::W(2)) srv->stop();
    if (sim::W(2)) {
      // whatever happened before, the port can be used again
      sim::disarm_all();
      if (!srv->start(port)) sim::violate("start", "start() on a free port failed after %d rounds", rounds);
      if (!failing && sim::net_listeners() != 1) sim::violate("start", "start() succeeded and %d ports are open", sim::net_listeners());
    }
    srv->destroy();
    if (sim::net_listeners()) sim::violate("still-listening", "the server was destroyed but the port is still open");
    for (auto& t : cl) t.join();
    srv->conns.close();
    taker.join();
    if (!failing && srv->errors) sim::violate("spurious-error", "%d errors were reported without a failure", srv->errors);
    sim::note("rounds=%d connected=%d accepted=%d failing=%d", rounds, connected, srv->accepted, (int)failing);
  }
  check_fds("after everything was destroyed");
  check_no_leaks("after everything was destroyed");
}

WORLD("P16", server_serves, "every client of a running server gets its own connection, through interrupted and aborted accepts") {
  swarm_sched();
  swarm({sim::NET_ACCEPT_EINTR, sim::NET_ACCEPT_ABORT, sim::NET_DELAY, sim::NET_SLOW_HANDSHAKE}, 60000);
  bool aborts = sim::W(3) == 0;
  config();
  warm_types();
  sim::mark_baseline();
  {
    Srv srv;
    int port = 2400;
    if (!srv.start(port)) sim::violate("start", "the server did not start on a free port");
    Srv other;
    if (sim::W(3) == 0) {
      if (other.start(port)) sim::violate("port-in-use", "a second server started on a port in use");
      if (other.errors != 1) sim::violate("no-error", "start() on a port in use gave %d error reports", other.errors);
    }
    if (aborts) sim::arm(sim::NET_ACCEPT_ERR, 30000);
    srv.close_on_error = true;
    int nc = 1 + sim::W(4);
    vector<Task> cl;
    vector<int> served(nc, 0);
    for (int k = 0; k < nc; k++)
      cl.emplace_back("client", [&, k] {
        RW rw = sut([&] { return dap::net::connect("localhost", port); });
        if (aborts && srv.errors && !rw) return;
        if (!rw) sim::violate("connect-failed", "connect() to a running server failed");
        unsigned char id = k;
        if (!sut([&] { return rw->write(&id, 1); }) && !srv.errors) sim::violate("write-failed", "write() failed on a healthy connection");
        unsigned char back = 255;
        size_t n = sut([&] { return rw->read(&back, 1); });
        if ((n != 1 && !(aborts && srv.errors)) || (n == 1 && back != (id ^ 0x80))) sim::violate("not-served", "client %d was not served", k);
        drop(rw);
      });
    for (int k = 0; k < nc; k++) {
      RW rw = srv.take();
      if (!rw) {
        if (aborts && srv.errors) break;
        sim::violate("not-served", "the server stopped accepting: %d of %d clients served, %d errors", k, nc, srv.errors);
      }
      unsigned char id = 255;
      size_t n = sut([&] { return rw->read(&id, 1); });
      if (n != 1 || id >= nc || served[id]++) sim::violate("wrong-connection", "connection %d: first byte %d", k, id);
      id ^= 0x80;
      if (!sut([&] { return rw->write(&id, 1); })) sim::violate("write-failed", "write() failed on a healthy connection");
      drop(rw);
    }
    srv.destroy();
    for (auto& t : cl) t.join();
    sim::note("clients=%d", nc);
  }
  check_fds("after everything was destroyed");
  check_no_leaks("after everything was destroyed");
}

WORLD("P17", connect_outcome, "connect() with and without timeout: refused, unanswered, slow, saturated, interrupted, high descriptors") {
  swarm_sched();
  config();
  warm_types();
  sim::mark_baseline();
  int mode = sim::W(6);   // 0 healthy, 1 nobody listens, 2 unanswered, 3 saturated, 4 everything, 5 slow but in time
  if (sim::W(3) == 0) sim::net_fd_base(1015 + sim::W(20));
  {
    std::unique_ptr<Srv> srv;
    int port = 2500;
    std::unique_ptr<Task> serve;
    vector<RW> held;
    if (mode != 1) {
      srv.reset(new Srv);
      if (!srv->start(port)) sim::violate("start", "the server did not start on a free port");
    }
    if (mode == 2) { swarm({sim::NET_SELECT_EINTR}, 40000); sim::arm(sim::NET_SYN_DROP, 100000); }
    if (mode == 4) swarm({sim::NET_SYN_DROP, sim::NET_REFUSED, sim::NET_UNREACH, sim::NET_SLOW_HANDSHAKE, sim::NET_SOCKET_EMFILE, sim::NET_DNS_FAIL, sim::NET_SELECT_EINTR}, 20000);
    if (mode == 5) { sim::arm(sim::NET_SLOW_HANDSHAKE, 100000); swarm({sim::NET_SELECT_EINTR}, 60000); }
    if (mode == 0) swarm({sim::NET_SELECT_EINTR}, 20000);
    static const uint32_t tos[] = {0, 1, 50, 200, 6000, 4294968, 0xffffffffu};
    uint32_t to = sim::W(3) ? tos[sim::W(7)] : 1 + sim::W(sim::W(2) ? 3000 : 90000);
    if (mode == 5 && to && to < 6000) to = 6000;
    if (mode == 0 && to && to < 50) to = 50;
    // as a reply may take as long as the latency, leave room for it
    if (mode == 0) sim::net_config(65536, 20 * kUs);
    HQueue<int> unused;
    Task acceptor;
    bool stop = false;
    if (srv && mode != 3)
      acceptor = Task("echo", [&] {
        RW r;
        while (srv->conns.get(&r)) {
          char b[8];
          size_t n = sut([&] { return r->read(b, 1); });
          if (n == 1) { b[0] ^= 0x40; sut([&] { r->write(b, 1); }); }
          drop(r);
        }
      });
    // saturated: nobody takes connections, so the server's queue fills
    uint64_t t0 = sim::now();
    RW rw = sut([&] { return dap::net::connect(sim::W(2) ? "localhost" : "127.0.0.1", port, to); });
    uint64_t el = sim::now() - t0;
    uint64_t lim = (uint64_t)to * kMs;
    bool exact = !sim::armed(sim::TIME_STALL);
    if (mode == 0 && !rw) sim::violate("connect-failed", "connect() to a running server failed after %lu us (timeout %u ms)", (unsigned long)(el / 1000), to);
    if (mode == 5 && !rw) sim::violate("connect-failed", "connect() gave up after %lu ms although the connection would have been made in time (timeout %u ms)", (unsigned long)(el / kMs), to);
    if ((mode == 1 || mode == 2) && rw) sim::violate("false-connection", "connect() returned a connection although %s", mode == 1 ? "nobody listens" : "nobody answered");
    if (to && exact && el > lim + 200 * kMs) sim::violate("late", "connect() with a timeout of %u ms returned after %lu ms", to, (unsigned long)(el / kMs));
    if (mode == 2 && to && to < 100000 && exact && el + 2 * kMs < lim) sim::violate("early-timeout", "connect() with a timeout of %u ms gave up after %lu ms", to, (unsigned long)(el / kMs));
    if (rw && mode != 3) {
      sim::disarm_all();
      // a stream that was handed out works: it is connected and blocks for data
      char b = 'a';
      if (!sut([&] { return rw->isOpen(); })) sim::violate("false-connection", "connect() returned a stream that is not open");
      if (!sut([&] { return rw->write(&b, 1); })) sim::violate("false-connection", "connect() returned a stream that cannot be written");
      if (sut([&] { return rw->read(&b, 1); }) != 1 || b != ('a' ^ 0x40)) sim::violate("false-connection", "connect() returned a stream on which a read does not wait for the answer");
    }
    drop(rw);
    sim::disarm_all();
    (void)stop;
    if (srv) {
      srv->stop();
      srv->conns.close();
      acceptor.join();
      if (mode == 3) { RW r; while (srv->conns.get(&r, 0)) drop(r); }
      srv->destroy();
    }
    sim::note("mode=%d timeout=%u elapsed_ms=%lu connected=%d", mode, to, (unsigned long)(el / kMs), rw != nullptr);
  }
  check_fds("after everything was destroyed");
  check_no_leaks("after everything was destroyed");
}
