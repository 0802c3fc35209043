// World-side access to simulated FILE streams.
#ifndef SIM_FILE_H
#define SIM_FILE_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
namespace sim {
// A byte channel behind a FILE*: like a pipe or tty end.  For reading, the
// world feeds bytes; for writing, the world inspects what reached the kernel.
struct SimFile;
SimFile* file_make(const char* mode, FILE** out);  // "r", "w" or "r+"
void file_feed(SimFile*, const void* data, size_t n, uint64_t delay_ns = 0);
void file_feed_eof(SimFile*);
size_t file_written(SimFile*, const uint8_t** data);   // bytes accepted by the kernel
bool file_closed(SimFile*);
int file_close_count(SimFile*);
SimFile* file_by_path(const char* path);  // last file fopen()ed under /sim/
void file_fail_writes_after(SimFile*, size_t bytes);   // ENOSPC from there on
size_t file_open_count();
}  // namespace sim
#endif
