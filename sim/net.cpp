// Simulated TCP: the BSD socket calls made by the code under test.
//
// Loopback-style byte streams with per-segment arrival times, bounded send
// buffers, FIN/RST, listen backlogs, TIME_WAIT on ports, slow or lost
// handshakes, short transfers and interrupted calls.
#include "core.h"
#include "net.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {

constexpr int kFdLow = 600, kFdMax = 2048;
static int kFdBase = kFdLow;   // lowest number handed out

struct Seg { Seg* next; uint64_t at; size_t n, off; uint8_t* data; };
struct Ep {
  bool used;
  int fds;                 // 1 while a descriptor refers to it
  enum Kind { FRESH, LISTEN, CONNECTING, STREAM } kind;
  bool nonblock, bound, reuse;
  bool linger_on;          // SO_LINGER
  int linger_s;
  uint32_t addr;
  int lport;
  int so_error;
  // listener
  int backlog;
  Ep* q[32];
  uint64_t qat[32];
  int qn;
  // connecting
  uint64_t conn_next;      // next time the handshake is evaluated
  int conn_port;
  uint32_t conn_addr;
  int conn_fate;           // 0 normal, else errno; -1 never answers
  int conn_tries;
  // stream
  Ep* peer;
  bool in_backlog;
  Seg *rx, *rxtail;
  size_t rx_bytes;         // queued (arrived or in flight)
  uint64_t last_at;
  bool fin_in;   uint64_t fin_at;
  bool rst_in;   uint64_t rst_at;  bool rst_seen;
  bool shut_rd, shut_wr;
  bool fin_sent;
  bool closed;
  size_t bufsize;
  uint64_t total_rx, total_tx;
  bool accepted;           // server side
  int inuse;               // threads inside a call on it
  uint64_t rcvtimeo, sndtimeo;   // 0 is for ever
};
constexpr int kMaxEp = 2048;
static Ep g_ep[kMaxEp];
static int g_nep;
static Ep* g_fd[kFdMax];
static uint8_t g_fd_ever[kFdMax];
static int g_inuse[kFdMax];
static uint64_t g_time_wait[65536];
static size_t g_bufsize = 65536;
static uint64_t g_lat = 20 * kUs;
static size_t g_open_fds, g_addrinfos;
static bool g_strict = true;

void net_reset() {}
void net_config(size_t buf, uint64_t lat) {
  g_bufsize = buf;
  g_lat = lat;
}
size_t net_open_fds() { return g_open_fds; }
size_t net_live_addrinfos() { return g_addrinfos; }
void net_fd_base(int b) { kFdBase = b; }
void net_strict(bool b) { g_strict = b; }

static Ep* ep_new() {
  if (g_nep >= kMaxEp) internal_error("too many endpoints");
  Ep* e = &g_ep[g_nep++];
  memset(e, 0, sizeof *e);
  e->used = true;
  e->bufsize = g_bufsize;
  return e;
}
static int fd_new(Ep* e) {
  for (int f = kFdBase; f < kFdMax; f++)
    if (!g_fd[f]) {
      g_fd[f] = e;
      g_fd_ever[f] = 1;
      e->fds++;
      g_open_fds++;
      return f;
    }
  return -1;
}
static bool is_sim_fd(int fd) { return fd >= kFdLow && fd < kFdMax; }
static Ep* get(int fd, const char* call) {
  if (!is_sim_fd(fd)) {
    errno = EBADF;
    return nullptr;
  }
  Ep* e = g_fd[fd];
  if (!e) {
    if (g_strict && t_self->ignore <= 0)
      violate("fd-misuse", "%s on descriptor %d which is not open%s", call, fd, g_fd_ever[fd] ? " (already closed)" : "");
    errno = EBADF;
    return nullptr;
  }
  return e;
}
struct InUse {
  int fd;
  explicit InUse(int f) : fd(f) { g_inuse[f]++; }
  ~InUse() { g_inuse[fd]--; }
};
static int fail(int e) {
  errno = e;
  return -1;
}
static uint64_t latency() {
  uint64_t l = g_lat;
  if (fault(NET_DELAY)) l += (1ull << F(24)) * 200;  // up to ~1.6 s
  return l;
}

// ------------------------------------------------------------------- handshakes
static Ep* find_listener(uint32_t addr, int port) {
  for (int i = 0; i < g_nep; i++) {
    Ep& e = g_ep[i];
    if (e.kind == Ep::LISTEN && !e.closed && !e.shut_rd && e.lport == port && (e.addr == addr || e.addr == 0)) return &e;
  }
  return nullptr;
}
static void connect_done(Ep* c, int err) {
  if (err == 0) {
    c->kind = Ep::STREAM;
  } else {
    c->kind = Ep::FRESH;
    c->so_error = err;
  }
  c->conn_next = kNever;
  wake_all(c);
}
// Evaluates a pending handshake whose time has come.
static void poll_connect(Ep* c) {
  while (c->kind == Ep::CONNECTING && c->conn_next <= now()) {
    if (c->conn_fate == -1) {
      connect_done(c, ETIMEDOUT);
      return;
    }
    if (c->conn_fate > 0) {
      connect_done(c, c->conn_fate);
      return;
    }
    Ep* l = find_listener(c->conn_addr, c->conn_port);
    if (!l) {
      connect_done(c, ECONNREFUSED);
      return;
    }
    if (l->qn > l->backlog || l->qn >= 31) {
      probe("net.backlog-full");
      if (c->conn_tries++ >= 300) {
        connect_done(c, ETIMEDOUT);
        return;
      }
      c->conn_next = now() + (1ull << (c->conn_tries < 6 ? c->conn_tries : 6)) * kSec / 2;  // SYN retransmit
      continue;
    }
    Ep* s = ep_new();
    s->kind = Ep::STREAM;
    s->peer = c;
    c->peer = s;
    s->lport = l->lport;
    s->accepted = true;
    s->in_backlog = true;
    s->linger_on = l->linger_on;
    s->linger_s = l->linger_s;
    l->q[l->qn] = s;
    l->qat[l->qn] = now();
    l->qn++;
    wake_all(l);
    connect_done(c, 0);
  }
}
static void rst_to(Ep* p, bool drop_inflight) {
  if (!p || p->closed || p->rst_in) return;
  p->rst_in = true;
  uint64_t at = now() + g_lat;
  if (drop_inflight) {
    // data still in flight is lost with the reset
    Seg** pp = &p->rx;
    Seg* tail = nullptr;
    while (*pp) {
      if ((*pp)->at > now()) {
        p->rx_bytes -= (*pp)->n - (*pp)->off;
        *pp = (*pp)->next;
      } else {
        tail = *pp;
        pp = &(*pp)->next;
      }
    }
    p->rxtail = tail;
  } else if (p->last_at > at) {
    at = p->last_at;
  }
  p->rst_at = at;
  wake_all(p);
}
static void rst_arrive(Ep* e) {
  if (e->rst_in && !e->rst_seen && e->rst_at <= now()) {
    e->rst_seen = true;
    e->so_error = ECONNRESET;
  }
}
static void send_fin(Ep* e) {
  if (e->fin_sent || e->kind != Ep::STREAM) return;
  e->fin_sent = true;
  Ep* p = e->peer;
  if (p && !p->closed) {
    p->fin_in = true;
    uint64_t at = now() + latency();
    if (at < p->last_at) at = p->last_at;
    p->fin_at = at;
    if (!p->fin_sent && e->accepted && e->lport) g_time_wait[e->lport] = now() + 60 * kSec;
    wake_all(p);
  }
}
static void ep_close(Ep* e) {
  if (e->closed) return;
  if (e->kind == Ep::LISTEN) {
    for (int i = 0; i < e->qn; i++) {
      Ep* s = e->q[i];
      rst_to(s->peer, false);
      s->closed = true;
      if (s->peer) s->peer->peer = s;
    }
    e->qn = 0;
  } else if (e->kind == Ep::STREAM) {
    if (e->linger_on && e->linger_s == 0 && e->peer) {
      // an abortive close: whatever has not arrived yet is thrown away
      e->fin_sent = true;
      rst_to(e->peer, true);
    } else if (e->rx_bytes > 0 && !(e->rst_seen)) {
      // closing with unread data resets the connection
      e->fin_sent = true;
      rst_to(e->peer, false);
    } else {
      send_fin(e);
    }
  }
  e->closed = true;
  wake_all(e);
}
static size_t avail(Ep* e, uint64_t* next) {
  size_t n = 0;
  *next = kNever;
  for (Seg* s = e->rx; s; s = s->next) {
    if (s->at <= now()) n += s->n - s->off;
    else {
      *next = s->at;
      break;
    }
  }
  if (e->fin_in && e->fin_at > now() && e->fin_at < *next) *next = e->fin_at;
  if (e->rst_in && e->rst_at > now() && e->rst_at < *next) *next = e->rst_at;
  return n;
}
static bool readable(Ep* e, uint64_t* next) {
  *next = kNever;
  if (e->kind == Ep::LISTEN) return e->qn > 0 || e->shut_rd;
  if (e->kind != Ep::STREAM) return false;
  rst_arrive(e);
  size_t n = avail(e, next);
  return n > 0 || e->shut_rd || (e->fin_in && e->fin_at <= now() && !e->rx) || e->rst_seen;
}
static size_t room(Ep* e) {
  Ep* p = e->peer;
  if (!p || p->closed) return e->bufsize;
  return p->rx_bytes >= e->bufsize ? 0 : e->bufsize - p->rx_bytes;
}
static bool writable(Ep* e, uint64_t* next) {
  *next = kNever;
  if (e->kind == Ep::CONNECTING) {
    poll_connect(e);
    if (e->kind == Ep::CONNECTING) {
      *next = e->conn_next;
      return false;
    }
    return true;
  }
  if (e->kind == Ep::FRESH) return true;  // failed connect: writable with error
  if (e->kind != Ep::STREAM) return false;
  rst_arrive(e);
  if (e->rst_in && !e->rst_seen) *next = e->rst_at;
  return e->rst_seen || e->shut_wr || room(e) > 0;
}

static ssize_t do_recv(int fd, void* buf, size_t n, int flags) {
  Ep* e = get(fd, "recv");
  if (!e) return -1;
  InUse iu(fd);
  sched_point("recv", fd);
  const uint64_t give_up = e->rcvtimeo ? now() + e->rcvtimeo : kNever;
  size_t all = 0;   // MSG_WAITALL: what was taken so far
#define ENDED(x) do { if (all) return (ssize_t)all; x; } while (0)
  for (;;) {
    poll_connect(e);
    if (e->kind != Ep::STREAM) return fail(ENOTCONN);
    rst_arrive(e);
    uint64_t next;
    size_t a = avail(e, &next);
    if (n == 0) return (ssize_t)all;
    if (a > 0 && !e->shut_rd) {
      size_t k = a < n ? a : n;
      if (fault(NET_EINTR_RECV)) ENDED(return fail(EINTR));
      if (k > 1 && !(flags & MSG_WAITALL) && fault(NET_SHORT_RECV)) k = 1 + F((uint32_t)(k - 1));
      size_t done = 0;
      Seg* s = e->rx;
      while (done < k) {
        size_t m = s->n - s->off;
        if (m > k - done) m = k - done;
        memcpy((char*)buf + done, s->data + s->off, m);
        done += m;
        if (flags & MSG_PEEK) { s = s->next; continue; }
        s->off += m;
        if (s->off == s->n) {
          e->rx = s->next;
          if (!e->rx) e->rxtail = nullptr;
          s = e->rx;
        }
      }
      if (!(flags & MSG_PEEK)) {
        e->rx_bytes -= k;
        e->total_rx += k;
        if (e->peer) wake_all(e->peer);
      }
      hb_acquire(e);
      if ((flags & MSG_WAITALL) && k < n && !(flags & MSG_PEEK) && !e->nonblock) {
        all += k;
        buf = (char*)buf + k;
        n -= k;
        continue;
      }
      return (ssize_t)(all + k);
    }
    if (all && (e->shut_rd || e->so_error || e->rst_seen)) return (ssize_t)all;
    if (e->shut_rd) return 0;
    if (e->so_error) {
      int x = e->so_error;
      e->so_error = 0;
      return fail(x);
    }
    if (e->rst_seen) return 0;
    if (e->fin_in && e->fin_at <= now() && !e->rx) return (ssize_t)all;
    if (e->nonblock || (flags & MSG_DONTWAIT)) ENDED(return fail(EAGAIN));
    if (fault(NET_EINTR_RECV)) ENDED(return fail(EINTR));
    if (now() >= give_up) ENDED(return fail(EAGAIN));
    block(e, next < give_up ? next : give_up, "recv");
  }
}
#undef ENDED
static ssize_t epipe(int flags) {
  if (!(flags & MSG_NOSIGNAL)) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sigaction(SIGPIPE, nullptr, &sa);
    if (sa.sa_handler == SIG_DFL && t_self->ignore <= 0)
      violate("crash", "process would be killed by SIGPIPE: send on a connection closed by the peer");
  }
  return fail(EPIPE);
}
static ssize_t do_send(int fd, const void* buf, size_t n, int flags) {
  Ep* e = get(fd, "send");
  if (!e) return -1;
  InUse iu(fd);
  sched_point("send", fd);
  size_t done = 0;
  size_t limit = n;
  bool cut = false;
  const uint64_t give_up = e->sndtimeo ? now() + e->sndtimeo : kNever;
  if (n > 0 && fault(NET_EINTR_SEND)) return fail(EINTR);
  if (n > 1 && fault(NET_SHORT_SEND)) {
    limit = 1 + F((uint32_t)(n - 1));
    cut = true;
  }
  for (;;) {
    poll_connect(e);
    if (e->kind != Ep::STREAM) {
      if (e->kind == Ep::LISTEN || e->kind == Ep::FRESH) return epipe(flags);
      return fail(ENOTCONN);
    }
    rst_arrive(e);
    if (done == 0 && e->so_error) {
      int x = e->so_error;
      e->so_error = 0;
      if (x == EPIPE) return epipe(flags);
      return fail(x);
    }
    if (e->shut_wr || e->rst_seen) return done ? (ssize_t)done : epipe(flags);
    if (n == 0) return 0;
    size_t r = room(e);
    if (fault(NET_SNDBUF_FULL)) r = 0;
    if (r > 0) {
      size_t k = limit - done < r ? limit - done : r;
      Ep* p = e->peer;
      if (p->closed || p->shut_rd || p->rst_in) {
        if (p->closed) rst_to(e, false);   // peer is gone: it answers with a reset
        else e->total_tx += k;
      } else {
        // split into segments
        size_t o = 0;
        while (o < k) {
          size_t m = k - o;
          if (m > 1 && fault(LINK_SEGMENT)) m = 1 + F((uint32_t)(m - 1));
          Seg* s = (Seg*)rt_alloc(sizeof(Seg) + m);
          s->data = (uint8_t*)(s + 1);
          memcpy(s->data, (const char*)buf + done + o, m);
          s->n = m;
          s->off = 0;
          s->next = nullptr;
          uint64_t at = now() + latency();
          if (at < p->last_at) at = p->last_at;
          s->at = p->last_at = at;
          if (p->rxtail) p->rxtail->next = s;
          else p->rx = s;
          p->rxtail = s;
          p->rx_bytes += m;
          o += m;
        }
        e->total_tx += k;
        hb_release(p);
        wake_all(p);
      }
      done += k;
      if (done == limit) return (ssize_t)done;
      continue;
    }
    if (e->nonblock || (flags & MSG_DONTWAIT)) return done ? (ssize_t)done : fail(EAGAIN);
    if (cut && done) return (ssize_t)done;
    uint64_t d = e->rst_in && !e->rst_seen ? e->rst_at : kNever;
    if (armed(NET_SNDBUF_FULL) && room(e) > 0) d = now() + 50 * kUs;
    probe("net.send-blocked");
    if (now() >= give_up) return done ? (ssize_t)done : fail(EAGAIN);
    block(e, d < give_up ? d : give_up, "send");
  }
}
static int do_close(int fd) {
  Ep* e = get(fd, "close");
  if (!e) return -1;
  sched_point("close", fd);
  e = get(fd, "close");
  if (!e) return -1;
  if (g_inuse[fd] > 0 && g_strict && t_self->ignore <= 0)
    violate("fd-misuse", "descriptor %d closed while another thread is inside a call on it (it may be reused under that thread)", fd);
  g_fd[fd] = nullptr;
  g_open_fds--;
  if (--e->fds == 0) ep_close(e);
  return 0;
}

// Used by worlds to inject connection faults from outside.
bool net_reset_connection(int port) {
  for (int i = g_nep - 1; i >= 0; i--) {
    Ep& e = g_ep[i];
    if (e.kind == Ep::STREAM && e.accepted && e.lport == port && !e.closed && e.peer && !e.peer->closed && !e.rst_in) {
      count_fault(NET_RST);
      log("FAULT NET_RST");
      rst_to(&e, F(2));
      rst_to(e.peer, F(2));
      return true;
    }
  }
  return false;
}
int net_listeners() {
  int n = 0;
  for (int i = 0; i < g_nep; i++) n += g_ep[i].kind == Ep::LISTEN && !g_ep[i].closed;
  return n;
}
}  // namespace sim

using namespace sim;
#define SIMFD(fd) (active() && (is_sim_fd(fd)))
#define REAL(ret, name, ...)                     \
  typedef ret (*FN)(__VA_ARGS__);                \
  static FN f = (FN)real_fn(#name)

extern "C" {
int socket(int domain, int type, int) {
  if (!active()) return fail(EAFNOSUPPORT);
  sched_point("socket", 0);
  if (fault(NET_SOCKET_EMFILE)) return fail(EMFILE);
  if (domain != AF_INET || (type & 0xf) != SOCK_STREAM) return fail(EAFNOSUPPORT);
  Ep* e = ep_new();
  e->kind = Ep::FRESH;
  e->conn_next = kNever;
  if (type & SOCK_NONBLOCK) e->nonblock = true;
  return fd_new(e);
}
int bind(int fd, const struct sockaddr* sa, socklen_t) {
  if (!active()) return fail(EBADF);
  Ep* e = get(fd, "bind");
  if (!e) return -1;
  sched_point("bind", fd);
  const sockaddr_in* in = (const sockaddr_in*)sa;
  int port = ntohs(in->sin_port);
  if (fault(NET_ADDR_INUSE)) return fail(EADDRINUSE);
  if (port == 0) {
    static int eph = 40000;
    port = eph++;
  }
  for (int i = 0; i < g_nep; i++)
    if (&g_ep[i] != e && g_ep[i].bound && !g_ep[i].closed && g_ep[i].lport == port) return fail(EADDRINUSE);
  if (!e->reuse && g_time_wait[port] > now()) {
    probe("net.time-wait");
    return fail(EADDRINUSE);
  }
  e->bound = true;
  e->lport = port;
  e->addr = in->sin_addr.s_addr;
  return 0;
}
int listen(int fd, int backlog) {
  if (!active()) return fail(EBADF);
  Ep* e = get(fd, "listen");
  if (!e) return -1;
  sched_point("listen", fd);
  if (fault(NET_LISTEN_FAIL)) return fail(EADDRINUSE);
  e->kind = Ep::LISTEN;
  e->backlog = backlog < 0 ? 0 : backlog > 20 ? 20 : backlog;
  return 0;
}
static int do_accept(int fd, int flags) {
  Ep* e = get(fd, "accept");
  if (!e) return -1;
  InUse iu(fd);
  sched_point("accept", fd);
  const uint64_t give_up = e->rcvtimeo ? now() + e->rcvtimeo : kNever;
  for (;;) {
    if (e->kind != Ep::LISTEN || e->shut_rd) return fail(EINVAL);
    if (e->qn > 0) {
      if (fault(NET_ACCEPT_ERR)) return fail(F(2) ? EMFILE : ECONNABORTED);
      if (fault(NET_ACCEPT_ABORT)) return fail(ECONNABORTED);   // as for a client that went away; this one is next
      Ep* s = e->q[0];
      for (int i = 1; i < e->qn; i++) e->q[i - 1] = e->q[i];
      e->qn--;
      s->in_backlog = false;
      s->nonblock = flags & SOCK_NONBLOCK;
      return fd_new(s);
    }
    if (e->nonblock) return fail(EAGAIN);
    if (fault(NET_ACCEPT_EINTR)) return fail(EINTR);
    if (now() >= give_up) return fail(EAGAIN);
    block(e, give_up, "accept");
  }
}
int accept(int fd, struct sockaddr* sa, socklen_t* l) {
  if (!active()) return fail(EBADF);
  if (sa && l) { memset(sa, 0, *l < sizeof(sockaddr_in) ? *l : sizeof(sockaddr_in)); sa->sa_family = AF_INET; *l = sizeof(sockaddr_in); }
  return do_accept(fd, 0);
}
int accept4(int fd, struct sockaddr* sa, socklen_t* l, int flags) {
  if (!active()) return fail(EBADF);
  if (sa && l) { memset(sa, 0, *l < sizeof(sockaddr_in) ? *l : sizeof(sockaddr_in)); sa->sa_family = AF_INET; *l = sizeof(sockaddr_in); }
  return do_accept(fd, flags);
}
int connect(int fd, const struct sockaddr* sa, socklen_t) {
  if (!active()) return fail(EBADF);
  Ep* e = get(fd, "connect");
  if (!e) return -1;
  InUse iu(fd);
  sched_point("connect", fd);
  if (e->kind == Ep::STREAM) return fail(EISCONN);
  if (e->kind == Ep::CONNECTING) {
    poll_connect(e);
    if (e->kind == Ep::CONNECTING) return fail(EALREADY);
    if (e->so_error) { int x = e->so_error; e->so_error = 0; return fail(x); }
    return 0;
  }
  const sockaddr_in* in = (const sockaddr_in*)sa;
  if (fault(NET_UNREACH)) return fail(ENETUNREACH);
  e->kind = Ep::CONNECTING;
  e->conn_addr = in->sin_addr.s_addr;
  e->conn_port = ntohs(in->sin_port);
  e->conn_fate = 0;
  e->conn_tries = 0;
  e->conn_next = now() + g_lat * 2;
  if (fault(NET_SYN_DROP)) {
    e->conn_fate = -1;
    e->conn_next = now() + 127 * kSec;
  } else if (fault(NET_REFUSED)) {
    e->conn_fate = ECONNREFUSED;
    if (F(2)) e->conn_next = now() + (uint64_t)F(4000) * kMs;
  } else if (fault(NET_SLOW_HANDSHAKE)) {
    e->conn_next = now() + (uint64_t)(1 + F(5000)) * kMs;
  }
  if (e->nonblock) {
    // over loopback a refusal can come back before connect() returns
    if (!find_listener(e->conn_addr, e->conn_port) && F(2)) {
      e->kind = Ep::FRESH;
      e->conn_next = kNever;
      return fail(ECONNREFUSED);
    }
    // and a connection may be there at once
    if (!e->conn_fate && e->conn_next == now() + g_lat * 2 && F(4) == 3) {
      e->conn_next = now();
      poll_connect(e);
      if (e->kind == Ep::STREAM) { probe("net.connected-at-once"); return 0; }
      if (e->kind == Ep::FRESH) { int x = e->so_error; e->so_error = 0; return fail(x ? x : ECONNABORTED); }
    }
    return fail(EINPROGRESS);
  }
  for (;;) {
    poll_connect(e);
    if (e->kind == Ep::STREAM) return 0;
    if (e->kind == Ep::FRESH) {
      int x = e->so_error;
      e->so_error = 0;
      return fail(x ? x : ECONNABORTED);
    }
    block(e, e->conn_next, "connect");
  }
}
ssize_t recv(int fd, void* b, size_t n, int fl) {
  if (!active()) return fail(EBADF);
  return do_recv(fd, b, n, fl);
}
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr*, socklen_t*) { return recv(fd, b, n, fl); }
ssize_t send(int fd, const void* b, size_t n, int fl) {
  if (!active()) return fail(EBADF);
  return do_send(fd, b, n, fl);
}
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr*, socklen_t) { return send(fd, b, n, fl); }
static ssize_t iov_send(int fd, const struct iovec* v, size_t c, int fl) {
  size_t tot = 0;
  for (size_t i = 0; i < c; i++) tot += v[i].iov_len;
  char* tmp = (char*)rt_alloc(tot + 1);
  size_t o = 0;
  for (size_t i = 0; i < c; i++) { memcpy(tmp + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  return send(fd, tmp, tot, fl);
}
ssize_t sendmsg(int fd, const struct msghdr* m, int fl) { return iov_send(fd, m->msg_iov, m->msg_iovlen, fl); }
static ssize_t iov_recv(int fd, const struct iovec* v, size_t c, int fl) {
  for (size_t i = 0; i < c; i++)
    if (v[i].iov_len > 0) return recv(fd, v[i].iov_base, v[i].iov_len, fl);
  return 0;
}
ssize_t recvmsg(int fd, struct msghdr* m, int fl) { return iov_recv(fd, m->msg_iov, m->msg_iovlen, fl); }
ssize_t read(int fd, void* b, size_t n) {
  if (SIMFD(fd)) return do_recv(fd, b, n, 0);
  REAL(ssize_t, read, int, void*, size_t);
  return f(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (SIMFD(fd)) return do_send(fd, b, n, 0);
  REAL(ssize_t, write, int, const void*, size_t);
  return f(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (SIMFD(fd)) return iov_send(fd, v, c, 0);
  REAL(ssize_t, writev, int, const struct iovec*, int);
  return f(fd, v, c);
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (SIMFD(fd)) return iov_recv(fd, v, c, 0);
  REAL(ssize_t, readv, int, const struct iovec*, int);
  return f(fd, v, c);
}
int close(int fd) {
  if (SIMFD(fd)) return do_close(fd);
  REAL(int, close, int);
  return f(fd);
}
int shutdown(int fd, int how) {
  if (!active()) return fail(EBADF);
  Ep* e = get(fd, "shutdown");
  if (!e) return -1;
  sched_point("shutdown", fd);
  if (e->kind == Ep::LISTEN) {
    if (how != SHUT_WR) e->shut_rd = true;
    wake_all(e);
    return 0;
  }
  if (e->kind != Ep::STREAM) return fail(ENOTCONN);
  if (how == SHUT_RD || how == SHUT_RDWR) e->shut_rd = true;
  if (how == SHUT_WR || how == SHUT_RDWR) {
    e->shut_wr = true;
    send_fin(e);
  }
  wake_all(e);
  return 0;
}
int setsockopt(int fd, int level, int opt, const void* v, socklen_t l) {
  if (!active()) return fail(EBADF);
  Ep* e = get(fd, "setsockopt");
  if (!e) return -1;
  if (level == SOL_SOCKET && opt == SO_REUSEADDR && l >= 4) e->reuse = *(const int*)v != 0;
  if (level == SOL_SOCKET && opt == SO_LINGER && l >= sizeof(struct linger)) {
    e->linger_on = ((const struct linger*)v)->l_onoff != 0;
    e->linger_s = ((const struct linger*)v)->l_linger;
  }
  if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && l >= sizeof(struct timeval)) {
    const timeval* tv = (const timeval*)v;
    (opt == SO_RCVTIMEO ? e->rcvtimeo : e->sndtimeo) = (uint64_t)tv->tv_sec * kSec + (uint64_t)tv->tv_usec * kUs;
  }
  return 0;
}
int getsockopt(int fd, int level, int opt, void* v, socklen_t* l) {
  if (!active()) return fail(EBADF);
  Ep* e = get(fd, "getsockopt");
  if (!e) return -1;
  int x = 0;
  if (level == SOL_SOCKET && opt == SO_ERROR) {
    sched_point("so-error", fd);
    poll_connect(e);
    rst_arrive(e);
    x = e->so_error;
    e->so_error = 0;
  } else if (level == SOL_SOCKET && opt == SO_TYPE) {
    x = SOCK_STREAM;
  } else if (level == SOL_SOCKET && opt == SO_ACCEPTCONN) {
    x = e->kind == Ep::LISTEN;
  } else if (level == SOL_SOCKET && opt == SO_REUSEADDR) {
    x = e->reuse;
  }
  socklen_t k = *l < sizeof x ? *l : sizeof x;
  memcpy(v, &x, k);
  *l = k;
  return 0;
}
int getsockname(int fd, struct sockaddr* sa, socklen_t* l) {
  if (!active()) return fail(EBADF);
  Ep* e = get(fd, "getsockname");
  if (!e) return -1;
  sockaddr_in in;
  memset(&in, 0, sizeof in);
  in.sin_family = AF_INET;
  in.sin_port = htons(e->lport);
  in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  memcpy(sa, &in, *l < sizeof in ? *l : sizeof in);
  *l = sizeof in;
  return 0;
}
int getpeername(int fd, struct sockaddr* sa, socklen_t* l) {
  if (!active()) return fail(EBADF);
  Ep* e = get(fd, "getpeername");
  if (!e) return -1;
  poll_connect(e);
  if (e->kind != Ep::STREAM) return fail(ENOTCONN);
  sockaddr_in in;
  memset(&in, 0, sizeof in);
  in.sin_family = AF_INET;
  in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  memcpy(sa, &in, *l < sizeof in ? *l : sizeof in);
  *l = sizeof in;
  return 0;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (active() && (is_sim_fd(fd) || fd < 0)) {
    Ep* e = get(fd, "fcntl");
    if (!e) return -1;
    if (cmd == F_GETFL) return O_RDWR | (e->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { e->nonblock = arg & O_NONBLOCK; return 0; }
    if (cmd == F_GETFD || cmd == F_SETFD) return 0;
    return fail(EINVAL);
  }
  REAL(int, fcntl, int, int, ...);
  return f(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return fcntl(fd, cmd, arg);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (SIMFD(fd)) {
    Ep* e = get(fd, "ioctl");
    if (!e) return -1;
    if (req == FIONBIO) { e->nonblock = *(int*)arg != 0; return 0; }
    if (req == FIONREAD) { uint64_t nx; *(int*)arg = (int)avail(e, &nx); return 0; }
    return fail(EINVAL);
  }
  REAL(int, ioctl, int, unsigned long, ...);
  return f(fd, req, arg);
}

static int do_poll(struct pollfd* p, nfds_t n, uint64_t timeout_ns, const char* name) {
  sched_point(name, n ? p[0].fd : 0);
  uint64_t dl = timeout_ns == kNever ? kNever : now() + timeout_ns;
  Ep* e[64];
  if (n > 64) internal_error("poll on more than 64 descriptors");
  for (nfds_t i = 0; i < n; i++) {
    e[i] = nullptr;
    if (p[i].fd < 0) continue;
    e[i] = get(p[i].fd, name);
    if (e[i]) g_inuse[p[i].fd]++;
  }
  int r = 0;
  bool decided = false;
  uint64_t intr = kNever;
  for (;;) {
    uint64_t next = dl;
    r = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0;
      if (p[i].fd < 0) continue;
      if (!e[i]) { p[i].revents = POLLNVAL; r++; continue; }
      uint64_t nx;
      if (e[i]->kind == Ep::CONNECTING) poll_connect(e[i]);
      if ((p[i].events & POLLIN) && readable(e[i], &nx)) p[i].revents |= POLLIN;
      else if ((p[i].events & POLLIN) && nx < next) next = nx;
      if ((p[i].events & POLLOUT) && writable(e[i], &nx)) p[i].revents |= POLLOUT;
      else if ((p[i].events & POLLOUT) && nx < next) next = nx;
      rst_arrive(e[i]);
      if (e[i]->so_error) p[i].revents |= POLLERR;
      if (e[i]->rst_seen || (e[i]->shut_rd && e[i]->shut_wr)) p[i].revents |= POLLHUP;
      if (p[i].revents) r++;
    }
    if (r || dl <= now()) break;
    if (!decided) {
      // interrupted at once, or somewhere in the middle of the wait
      decided = true;
      if (fault(NET_SELECT_EINTR)) {
        uint64_t span = dl == kNever ? 2 * kSec : dl - now();
        intr = now() + (F(2) ? 0 : span / 256 * F(256));
      }
    }
    if (intr <= now()) { r = -1; errno = EINTR; break; }
    if (intr < next) next = intr;
    // one key is enough for a single descriptor; several are polled by time
    if (n == 1 && e[0]) block(e[0], next, name);
    else {
      uint64_t step = now() + 100 * kUs;
      static char key;
      block(&key, next < step ? next : step, name);
    }
  }
  for (nfds_t i = 0; i < n; i++)
    if (e[i]) g_inuse[p[i].fd]--;
  return r;
}
int poll(struct pollfd* p, nfds_t n, int ms) {
  if (!active()) {
    REAL(int, poll, struct pollfd*, nfds_t, int);
    return f(p, n, ms);
  }
  return do_poll(p, n, ms < 0 ? kNever : (uint64_t)ms * kMs, "poll");
}
int ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t*) {
  return do_poll(p, n, ts ? (uint64_t)ts->tv_sec * kSec + ts->tv_nsec : kNever, "poll");
}
int select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv) {
  if (!active()) {
    REAL(int, select, int, fd_set*, fd_set*, fd_set*, struct timeval*);
    return f(n, r, w, x, tv);
  }
  struct pollfd p[64];
  nfds_t c = 0;
  if (n > FD_SETSIZE) violate("fd-misuse", "select() used with descriptor %d >= FD_SETSIZE: FD_SET overflows the fd_set", n - 1);
  if (tv && (tv->tv_usec < 0 || tv->tv_sec < 0)) return fail(EINVAL);
  for (int fd = 0; fd < n && fd < kFdMax; fd++) {
    short ev = 0;
    if (r && FD_ISSET(fd, r)) ev |= POLLIN;
    if (w && FD_ISSET(fd, w)) ev |= POLLOUT;
    bool ex = x && FD_ISSET(fd, x);
    if (ev || ex) {
      if (c >= 64) internal_error("select on too many descriptors");
      p[c].fd = fd;
      p[c].events = ev;
      c++;
    }
  }
  uint64_t to = tv ? (uint64_t)tv->tv_sec * kSec + (uint64_t)tv->tv_usec * 1000 : kNever;
  int k = do_poll(p, c, to, "select");
  if (k < 0) return k;
  int tot = 0;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (x) FD_ZERO(x);
  for (nfds_t i = 0; i < c; i++) {
    if (p[i].revents & POLLNVAL) return fail(EBADF);
    if (r && (p[i].events & POLLIN) && (p[i].revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p[i].fd, r); tot++; }
    if (w && (p[i].events & POLLOUT) && (p[i].revents & (POLLOUT | POLLERR))) { FD_SET(p[i].fd, w); tot++; }
  }
  return tot;
}
int pselect(int n, fd_set* r, fd_set* w, fd_set* x, const struct timespec* ts, const sigset_t*) {
  struct timeval tv;
  if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = ts->tv_nsec / 1000; }
  return select(n, r, w, x, ts ? &tv : nullptr);
}

struct AiBlock { addrinfo ai; sockaddr_in sa; };
int getaddrinfo(const char* node, const char* service, const struct addrinfo* hints, struct addrinfo** out) {
  if (!active()) return EAI_FAIL;
  sched_point("getaddrinfo", 0);
  if (fault(NET_DNS_FAIL)) return F(2) ? EAI_NONAME : EAI_AGAIN;
  uint32_t addr;
  if (!node) addr = hints && (hints->ai_flags & AI_PASSIVE) ? 0 : htonl(INADDR_LOOPBACK);
  else if (strcmp(node, "localhost") == 0) addr = htonl(INADDR_LOOPBACK);
  else {
    in_addr ia;
    if (inet_aton(node, &ia) == 0) return EAI_NONAME;
    addr = ia.s_addr;
  }
  long port = 0;
  if (service) {
    char* end;
    port = strtol(service, &end, 10);
    if (*end || port < 0 || port > 65535) return EAI_SERVICE;
  }
  AiBlock* b = (AiBlock*)arena_alloc(sizeof(AiBlock), 16, (uintptr_t)__builtin_return_address(0));
  memset(b, 0, sizeof *b);
  b->sa.sin_family = AF_INET;
  b->sa.sin_port = htons((uint16_t)port);
  b->sa.sin_addr.s_addr = addr;
  b->ai.ai_family = AF_INET;
  b->ai.ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
  b->ai.ai_protocol = IPPROTO_TCP;
  b->ai.ai_addr = (sockaddr*)&b->sa;
  b->ai.ai_addrlen = sizeof(sockaddr_in);
  g_addrinfos++;
  *out = &b->ai;
  return 0;
}
void freeaddrinfo(struct addrinfo* ai) {
  if (!active() || !ai) return;
  g_addrinfos--;
  arena_free(ai, (uintptr_t)__builtin_return_address(0));
}
}  // extern "C"
