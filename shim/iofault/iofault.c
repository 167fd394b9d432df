/* Preloaded into a process that saves files: counts the calls that change files below one directory and
 * fails, shortens or stops the process at the k-th one.  Only files below `root` are ever affected. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[PATH_MAX];
static long at, count;
static int kind;   /* 0 off/count, 1 error, 2 short (writes), 3 die before, 4 die after half of a write, 5 die after the call, 6 error on this and all later writes */
static int err = EIO;
static char last[64];
static unsigned char mine[4096];
static int dead;

void iofault_arm(const char *r, long k, int kd, int e) {
  snprintf(root, sizeof root, "%s", r); at = k; kind = kd; err = e; count = 0; dead = 0; last[0] = 0;
}
void iofault_off(void) { root[0] = 0; }
long iofault_count(void) { return count; }
const char *iofault_last(void) { return last; }

static int in_root(const char *p) { return root[0] && p && !strncmp(p, root, strlen(root)); }
static int fd_mine(int fd) {
  char a[64], b[PATH_MAX]; ssize_t n;
  if (!root[0] || fd < 0) return 0;
  snprintf(a, sizeof a, "/proc/self/fd/%d", fd);
  n = readlink(a, b, sizeof b - 1);
  if (n <= 0) return 0;
  b[n] = 0;
  return in_root(b);
}
/* 0: go on, 1: fail with err, 2: short, 4: half then die, 5: do and die */
static int hit(const char *what, int iswrite) {
  if (dead && iswrite) { errno = err; return 1; }
  if (++count != at) return 0;
  snprintf(last, sizeof last, "%s", what);
  switch (kind) {
    case 1: errno = err; return 1;
    case 6: dead = 1; errno = err; return 1;
    case 2: return iswrite ? 2 : 0;
    case 3: _exit(99);
    case 4: if (iswrite) return 4; _exit(99);
    case 5: return 5;
  }
  return 0;
}
#define REAL(n) static __typeof__(&n) real; if (!real) real = (__typeof__(&n))dlsym(RTLD_NEXT, #n)
#define FIN(x) do { __typeof__(x) r_ = (x); if (h == 5) _exit(99); return r_; } while (0)

#define WR(name, pre, call_full, call_half)                                    \
  { int h = 0; REAL(name); (void)mine;                                         \
    if (fd_mine(fd)) h = hit(#name, 1);                                        \
    if (h == 1) return -1;                                                     \
    if (h == 2) { if (n > 1) n /= 2; return call_full; }                       \
    if (h == 4) { if (n > 1) { n /= 2; (void)!call_full; } _exit(99); }        \
    FIN(call_full); }
ssize_t write(int fd, const void *b, size_t n) WR(write, , real(fd, b, n), )
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) WR(pwrite, , real(fd, b, n, o), )
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) WR(pwrite64, , real(fd, b, n, o), )
ssize_t writev(int fd, const struct iovec *v, int n) WR(writev, , real(fd, v, n), )
int ftruncate(int fd, off_t l) { int h = 0; REAL(ftruncate); if (fd_mine(fd)) h = hit("ftruncate", 0); if (h == 1) return -1; FIN(real(fd, l)); }
int ftruncate64(int fd, off64_t l) { int h = 0; REAL(ftruncate64); if (fd_mine(fd)) h = hit("ftruncate64", 0); if (h == 1) return -1; FIN(real(fd, l)); }
int fsync(int fd) { int h = 0; REAL(fsync); if (fd_mine(fd)) h = hit("fsync", 0); if (h == 1) return -1; FIN(real(fd)); }
int fdatasync(int fd) { int h = 0; REAL(fdatasync); if (fd_mine(fd)) h = hit("fdatasync", 0); if (h == 1) return -1; FIN(real(fd)); }
int close(int fd) { int h = 0; REAL(close); if (fd_mine(fd)) h = hit("close", 0); if (h == 1) { real(fd); errno = err; return -1; } FIN(real(fd)); }
ssize_t read(int fd, void *b, size_t n) { int h = 0; REAL(read); if (fd_mine(fd)) h = hit("read", 0); if (h == 1) return -1; FIN(real(fd, b, n)); }
#define OPEN(name)                                                             \
  int name(const char *p, int f, ...) {                                        \
    mode_t m = 0; va_list a; va_start(a, f); if (f & (O_CREAT | O_TMPFILE)) m = va_arg(a, mode_t); va_end(a); \
    int h = 0; REAL(name); if (in_root(p)) h = hit(#name, 0); if (h == 1) return -1; FIN(real(p, f, m)); }
OPEN(open)
OPEN(open64)
#define OPENAT(name)                                                           \
  int name(int d, const char *p, int f, ...) {                                 \
    mode_t m = 0; va_list a; va_start(a, f); if (f & (O_CREAT | O_TMPFILE)) m = va_arg(a, mode_t); va_end(a); \
    int h = 0; REAL(name); if (in_root(p)) h = hit(#name, 0); if (h == 1) return -1; FIN(real(d, p, f, m)); }
OPENAT(openat)
OPENAT(openat64)
FILE *fopen(const char *p, const char *m) { int h = 0; REAL(fopen); if (in_root(p)) h = hit("fopen", 0); if (h == 1) return 0; FIN(real(p, m)); }
FILE *fopen64(const char *p, const char *m) { int h = 0; REAL(fopen64); if (in_root(p)) h = hit("fopen64", 0); if (h == 1) return 0; FIN(real(p, m)); }
int rename(const char *a, const char *b) { int h = 0; REAL(rename); if (in_root(b)) h = hit("rename", 0); if (h == 1) return -1; FIN(real(a, b)); }
int renameat(int x, const char *a, int y, const char *b) { int h = 0; REAL(renameat); if (in_root(b)) h = hit("renameat", 0); if (h == 1) return -1; FIN(real(x, a, y, b)); }
int link(const char *a, const char *b) { int h = 0; REAL(link); if (in_root(b)) h = hit("link", 0); if (h == 1) return -1; FIN(real(a, b)); }
int unlink(const char *a) { int h = 0; REAL(unlink); if (in_root(a)) h = hit("unlink", 0); if (h == 1) return -1; FIN(real(a)); }
int unlinkat(int d, const char *a, int f) { int h = 0; REAL(unlinkat); if (in_root(a)) h = hit("unlinkat", 0); if (h == 1) return -1; FIN(real(d, a, f)); }
int chmod(const char *a, mode_t m) { int h = 0; REAL(chmod); if (in_root(a)) h = hit("chmod", 0); if (h == 1) return -1; FIN(real(a, m)); }
int mkdir(const char *a, mode_t m) { int h = 0; REAL(mkdir); if (in_root(a)) h = hit("mkdir", 0); if (h == 1) return -1; FIN(real(a, m)); }
