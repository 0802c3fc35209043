// Simulated stdio streams.  Real glibc stdio (buffering included) runs on top
// of cookie streams whose kernel side is simulated; glibc's per-stream lock is
// replaced by a simulated one so that blocking is scheduled by the simulator.
#include "core.h"
#include "file.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <unistd.h>

namespace sim {

struct FSeg { FSeg* next; uint64_t at; size_t n, off; uint8_t* d; };
struct SimFile {
  FILE* f;
  bool open;
  int closes;
  char path[64];
  // lock
  Thread* owner;
  int depth;
  int waiters;
  // input
  FSeg *rx, *tail;
  uint64_t last_at;
  bool eof_fed;
  // output
  uint8_t* out;
  size_t outn, outcap;
  size_t fail_after;
  bool eio;
};
static SimFile g_files[32];
static int g_nfiles;

void file_reset() {}

static ssize_t ck_read(void* c, char* buf, size_t n) {
  SimFile* s = (SimFile*)c;
  for (;;) {
    if (fault(FILE_EINTR_READ)) { errno = EINTR; return -1; }
    if (fault(FILE_EIO_READ)) { errno = EIO; return -1; }
    if (s->rx && s->rx->at <= now()) {
      FSeg* g = s->rx;
      size_t k = g->n - g->off;
      if (k > n) k = n;
      if (k > 1 && fault(FILE_SHORT_READ)) k = 1 + F((uint32_t)(k - 1));
      memcpy(buf, g->d + g->off, k);
      g->off += k;
      if (g->off == g->n) {
        s->rx = g->next;
        if (!s->rx) s->tail = nullptr;
      }
      return (ssize_t)k;
    }
    if (!s->rx && s->eof_fed) return 0;
    block(s, s->rx ? s->rx->at : kNever, "file read");
  }
}
static ssize_t ck_write(void* c, const char* buf, size_t n) {
  SimFile* s = (SimFile*)c;
  size_t total = 0;
  // Like glibc's own file streams, which repeat a short write(2) until all is
  // written or it fails.
  while (total < n) {
    sched_point("file-write", (uint32_t)(s - g_files));
    size_t k = n - total;
    if (fault(FILE_EIO_WRITE)) { errno = EIO; return (ssize_t)total; }
    if (fault(FILE_ENOSPC)) s->fail_after = s->outn + F(16);
    if (s->outn + k > s->fail_after) {
      k = s->fail_after > s->outn ? s->fail_after - s->outn : 0;
      if (k == 0) { errno = ENOSPC; return (ssize_t)total; }
    } else if (k > 1 && fault(FILE_SHORT_WRITE)) {
      k = 1 + F((uint32_t)(k - 1));
    }
    if (s->outn + k > s->outcap) {
      size_t nc = (s->outn + k) * 2 + 1024;
      uint8_t* p = (uint8_t*)rt_alloc(nc);
      memcpy(p, s->out, s->outn);
      s->out = p;
      s->outcap = nc;
    }
    memcpy(s->out + s->outn, buf + total, k);
    s->outn += k;
    total += k;
  }
  return (ssize_t)total;
}
static int ck_close(void*) { return 0; }

static SimFile* new_file(const char* mode) {
  if (g_nfiles >= 32) internal_error("too many files");
  SimFile* s = &g_files[g_nfiles++];
  memset(s, 0, sizeof *s);
  s->fail_after = ~size_t(0);
  cookie_io_functions_t io;
  memset(&io, 0, sizeof io);
  io.read = ck_read;
  io.write = ck_write;
  io.close = ck_close;
  s->f = fopencookie(s, mode, io);
  if (!s->f) internal_error("fopencookie failed");
  __fsetlocking(s->f, FSETLOCKING_BYCALLER);
  s->open = true;
  return s;
}
SimFile* file_make(const char* mode, FILE** out) {
  SimFile* s = new_file(mode);
  *out = s->f;
  return s;
}
void file_feed(SimFile* s, const void* d, size_t n, uint64_t delay) {
  if (n == 0) return;
  FSeg* g = (FSeg*)rt_alloc(sizeof(FSeg) + n);
  g->d = (uint8_t*)(g + 1);
  memcpy(g->d, d, n);
  g->n = n;
  g->off = 0;
  g->next = nullptr;
  g->at = now() + delay;
  if (g->at < s->last_at) g->at = s->last_at;
  s->last_at = g->at;
  if (s->tail) s->tail->next = g;
  else s->rx = g;
  s->tail = g;
  wake_all(s);
}
void file_feed_eof(SimFile* s) {
  s->eof_fed = true;
  wake_all(s);
}
size_t file_written(SimFile* s, const uint8_t** d) {
  *d = s->out;
  return s->outn;
}
bool file_closed(SimFile* s) { return !s->open; }
int file_close_count(SimFile* s) { return s->closes; }
SimFile* file_by_path(const char* p) {
  for (int i = g_nfiles - 1; i >= 0; i--)
    if (strcmp(g_files[i].path, p) == 0) return &g_files[i];
  return nullptr;
}
void file_fail_writes_after(SimFile* s, size_t n) { s->fail_after = n; }
size_t file_open_count() {
  size_t n = 0;
  for (int i = 0; i < g_nfiles; i++) n += g_files[i].open;
  return n;
}

static SimFile* find(FILE* f) {
  if (!g_in_sim || !t_self) return nullptr;
  for (int i = 0; i < g_nfiles; i++)
    if (g_files[i].f == f) return &g_files[i];
  return nullptr;
}
static void flock_(SimFile* s, const char* what) {
  if (!s->open) violate("use-after-close", "%s on a FILE that was already closed", what);
  sched_point(what, (uint32_t)(s - g_files));
  while (s->owner && s->owner != t_self) {
    s->waiters++;
    block(&s->owner, kNever, "FILE lock");
    s->waiters--;
  }
  if (!s->open) violate("use-after-close", "%s on a FILE that was closed while the call was in progress", what);
  s->owner = t_self;
  s->depth++;
  vc_acquire(sync_obj(s, 1));
}
static void funlock_(SimFile* s) {
  vc_release(sync_obj(s, 1));
  if (--s->depth == 0) {
    s->owner = nullptr;
    if (s->waiters) wake_all(&s->owner);
  }
}
struct FL {
  SimFile* s;
  FL(SimFile* x, const char* w) : s(x) { flock_(s, w); }
  ~FL() { funlock_(s); }
};
}  // namespace sim

using namespace sim;
#define REALF(ret, name, ...)     \
  typedef ret (*FN)(__VA_ARGS__); \
  static FN real = (FN)real_fn(#name)

extern "C" {
int fgetc(FILE* f) {
  REALF(int, fgetc, FILE*);
  if (SimFile* s = find(f)) { FL l(s, "fgetc"); return getc_unlocked(f); }
  return real(f);
}
int getc(FILE* f) {
  REALF(int, getc, FILE*);
  if (SimFile* s = find(f)) { FL l(s, "fgetc"); return getc_unlocked(f); }
  return real(f);
}
size_t fread(void* b, size_t sz, size_t n, FILE* f) {
  REALF(size_t, fread, void*, size_t, size_t, FILE*);
  if (SimFile* s = find(f)) { FL l(s, "fread"); return real(b, sz, n, f); }
  return real(b, sz, n, f);
}
char* fgets(char* b, int n, FILE* f) {
  REALF(char*, fgets, char*, int, FILE*);
  if (SimFile* s = find(f)) { FL l(s, "fgets"); return real(b, n, f); }
  return real(b, n, f);
}
int ungetc(int c, FILE* f) {
  REALF(int, ungetc, int, FILE*);
  if (SimFile* s = find(f)) { FL l(s, "ungetc"); return real(c, f); }
  return real(c, f);
}
size_t fwrite(const void* b, size_t sz, size_t n, FILE* f) {
  REALF(size_t, fwrite, const void*, size_t, size_t, FILE*);
  if (SimFile* s = find(f)) { FL l(s, "fwrite"); return real(b, sz, n, f); }
  return real(b, sz, n, f);
}
int fputc(int c, FILE* f) {
  REALF(int, fputc, int, FILE*);
  if (SimFile* s = find(f)) { FL l(s, "fputc"); return real(c, f); }
  return real(c, f);
}
int putc(int c, FILE* f) {
  REALF(int, putc, int, FILE*);
  if (SimFile* s = find(f)) { FL l(s, "fputc"); return real(c, f); }
  return real(c, f);
}
int fputs(const char* b, FILE* f) {
  REALF(int, fputs, const char*, FILE*);
  if (SimFile* s = find(f)) { FL l(s, "fputs"); return real(b, f); }
  return real(b, f);
}
int fflush(FILE* f) {
  REALF(int, fflush, FILE*);
  if (SimFile* s = find(f)) { FL l(s, "fflush"); return real(f); }
  return real(f);
}
int fclose(FILE* f) {
  if (SimFile* s = find(f)) {
    flock_(s, "fclose");
    static int (*rfl)(FILE*) = (int (*)(FILE*))real_fn("fflush");
    int r = rfl(f);
    s->closes++;
    s->open = false;   // the FILE stays allocated so that later use is caught
    funlock_(s);
    wake_all(s);
    return r;
  }
  REALF(int, fclose, FILE*);
  return real(f);
}
int feof(FILE* f) {
  if (SimFile* s = find(f)) { FL l(s, "feof"); return feof_unlocked(f); }
  REALF(int, feof, FILE*);
  return real(f);
}
int ferror(FILE* f) {
  if (SimFile* s = find(f)) { FL l(s, "ferror"); return ferror_unlocked(f); }
  REALF(int, ferror, FILE*);
  return real(f);
}
void clearerr(FILE* f) {
  if (SimFile* s = find(f)) { FL l(s, "clearerr"); clearerr_unlocked(f); return; }
  REALF(void, clearerr, FILE*);
  real(f);
}
void flockfile(FILE* f) {
  if (SimFile* s = find(f)) { flock_(s, "flockfile"); return; }
  REALF(void, flockfile, FILE*);
  real(f);
}
void funlockfile(FILE* f) {
  if (SimFile* s = find(f)) { funlock_(s); return; }
  REALF(void, funlockfile, FILE*);
  real(f);
}
FILE* fopen(const char* path, const char* mode) {
  if (active() && strncmp(path, "/sim/", 5) == 0) {
    sched_point("fopen", 0);
    if (fault(FILE_OPEN_FAIL)) { errno = EACCES; return nullptr; }
    SimFile* s = new_file(mode);
    snprintf(s->path, sizeof s->path, "%s", path);
    return s->f;
  }
  REALF(FILE*, fopen, const char*, const char*);
  return real(path, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
}  // extern "C"
