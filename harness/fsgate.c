/* Preloaded into a process that uses the matrix cache: every operation on a file below the directory
 * named by VP_DIR is announced on a control pipe and waits there for permission.  The controller can so
 * choose any interleaving of several processes, end a process between (and inside) two operations, and
 * split a write in two.  Operations on other files are untouched. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static int rfd = -1, wfd = -1;
static char dir[4096];
static char tracked[4096];

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

void vp_set(int r, int w, const char *d) {
  rfd = r; wfd = w;
  strncpy(dir, d ? d : "", sizeof dir - 1);
}
__attribute__((constructor)) static void init(void) {
  const char *c = getenv("VP_CTL"), *d = getenv("VP_DIR");
  if (c && d) { int r, w; if (sscanf(c, "%d,%d", &r, &w) == 2) vp_set(r, w, d); }
}
static int ours(const char *p) { return rfd >= 0 && dir[0] && p && strncmp(p, dir, strlen(dir)) == 0; }
static ssize_t raw_write(int fd, const void *b, size_t n) {
  REAL(ssize_t, "write", int, const void *, size_t);
  return real(fd, b, n);
}
static ssize_t raw_read(int fd, void *b, size_t n) {
  REAL(ssize_t, "read", int, void *, size_t);
  return real(fd, b, n);
}
/* announce the operation; returns the controller's answer */
static char gate(const char *op, const char *p, const char *q, long n) {
  int e = errno;
  char line[9000], a = 'g';
  int k = snprintf(line, sizeof line, "%s\t%s\t%s\t%ld\n", op, p ? p : "", q ? q : "", n);
  raw_write(wfd, line, k);
  if (raw_read(rfd, &a, 1) != 1) _exit(3);
  if (a == 'k') _exit(137);
  errno = e;
  return a;
}
static void result(long n) {
  int e = errno;
  char line[64];
  int k = snprintf(line, sizeof line, "=\t%ld\t%d\n", n, n < 0 ? e : 0);
  raw_write(wfd, line, k);
  errno = e;
}
static char names[4096][256];
static void track(int fd, const char *p) {
  if (fd >= 0 && fd < 4096) { tracked[fd] = 1; strncpy(names[fd], p + strlen(dir), 255); }
}

#define OPENBODY(name, call) \
  mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
  int g = ours(p) && !(flags & O_DIRECTORY); \
  if (g) gate((flags & O_ACCMODE) == O_RDONLY ? "openr" : (flags & O_EXCL) ? "openx" : (flags & O_TRUNC) ? "openw" : (flags & O_CREAT) ? "openc" : "openu", p + strlen(dir), 0, flags); \
  int fd = call; \
  if (g) { result(fd < 0 ? -1 : 0); track(fd, p); } \
  return fd;

int open(const char *p, int flags, ...) { REAL(int, "open", const char *, int, ...); OPENBODY("open", real(p, flags, m)) }
int open64(const char *p, int flags, ...) { REAL(int, "open64", const char *, int, ...); OPENBODY("open64", real(p, flags, m)) }
int openat(int d, const char *p, int flags, ...) { REAL(int, "openat", int, const char *, int, ...); OPENBODY("openat", real(d, p, flags, m)) }
int openat64(int d, const char *p, int flags, ...) { REAL(int, "openat64", int, const char *, int, ...); OPENBODY("openat64", real(d, p, flags, m)) }

ssize_t write(int fd, const void *b, size_t n) {
  if (rfd < 0 || fd < 0 || fd >= 4096 || !tracked[fd] || fd == wfd) return raw_write(fd, b, n);
  char a = gate("write", names[fd], 0, (long)n);
  if (n < 2 || a == 'w') { ssize_t r = raw_write(fd, b, n); result(r); return r; }
  size_t h = a == 'e' ? n - 1 : a == 'a' ? 1 : n / 2;
  ssize_t r = raw_write(fd, b, h);
  result(r);
  if (r != (ssize_t)h) return r;
  gate("write", names[fd], 0, (long)(n - h));
  ssize_t s = raw_write(fd, (const char *)b + h, n - h);
  result(s);
  return s < 0 ? r : r + s;
}
ssize_t read(int fd, void *b, size_t n) {
  if (rfd < 0 || fd < 0 || fd >= 4096 || !tracked[fd] || fd == rfd) return raw_read(fd, b, n);
  gate("read", names[fd], 0, (long)n);
  ssize_t r = raw_read(fd, b, n);
  result(r);
  return r;
}
int close(int fd) {
  REAL(int, "close", int);
  if (rfd >= 0 && fd >= 0 && fd < 4096 && tracked[fd]) {
    gate("close", names[fd], 0, 0);
    tracked[fd] = 0;
    int r = real(fd);
    result(r);
    return r;
  }
  return real(fd);
}
int rename(const char *p, const char *q) {
  REAL(int, "rename", const char *, const char *);
  int g = ours(p) || ours(q);
  if (g) gate("rename", ours(p) ? p + strlen(dir) : p, ours(q) ? q + strlen(dir) : q, 0);
  int r = real(p, q);
  if (g) result(r);
  return r;
}
int renameat(int d, const char *p, int e, const char *q) {
  REAL(int, "renameat", int, const char *, int, const char *);
  int g = ours(p) || ours(q);
  if (g) gate("rename", ours(p) ? p + strlen(dir) : p, ours(q) ? q + strlen(dir) : q, 0);
  int r = real(d, p, e, q);
  if (g) result(r);
  return r;
}
int link(const char *p, const char *q) {
  REAL(int, "link", const char *, const char *);
  int g = ours(p) || ours(q);
  if (g) gate("link", ours(p) ? p + strlen(dir) : p, ours(q) ? q + strlen(dir) : q, 0);
  int r = real(p, q);
  if (g) result(r);
  return r;
}
int unlink(const char *p) {
  REAL(int, "unlink", const char *);
  int g = ours(p);
  if (g) gate("unlink", p + strlen(dir), 0, 0);
  int r = real(p);
  if (g) result(r);
  return r;
}
int unlinkat(int d, const char *p, int f) {
  REAL(int, "unlinkat", int, const char *, int);
  int g = ours(p);
  if (g) gate("unlink", p + strlen(dir), 0, 0);
  int r = real(d, p, f);
  if (g) result(r);
  return r;
}
int mkdir(const char *p, mode_t m) {
  REAL(int, "mkdir", const char *, mode_t);
  int g = ours(p);
  if (g) gate("mkdir", p + strlen(dir), 0, 0);
  int r = real(p, m);
  if (g) result(r);
  return r;
}
int mkdirat(int d, const char *p, mode_t m) {
  REAL(int, "mkdirat", int, const char *, mode_t);
  int g = ours(p);
  if (g) gate("mkdir", p + strlen(dir), 0, 0);
  int r = real(d, p, m);
  if (g) result(r);
  return r;
}
