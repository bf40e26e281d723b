/* Linked statically with a generator (-Wl,--wrap): fails the k-th open / write / close on an output file, or the k-th rename.
 * VF_FAULT=<op><k><mode>: op o|w|c|r (open, write, close, rename or link), k >= 0, mode: p persistent, t transient (once), s short write (half), z zero-length write once,
 * followed by :errno. Every operation on an output file is logged as one byte on descriptor VF_LOGFD. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <fcntl.h>
static int init, op, k, mode, err, cnt[4], logfd = -1, mine[1024];
static long raw(long nr, long a, long b, long c, long d) {
  long r; register long r10 __asm__("r10") = d;
  __asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
  return r;
}
static long chk(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
static void setup(void) {
  char *e = getenv("VF_FAULT"), *l = getenv("VF_LOGFD");
  init = 1; op = -1;
  if (l) logfd = atoi(l);
  if (e && e[0]) { op = e[0] == 'o' ? 0 : e[0] == 'w' ? 1 : e[0] == 'c' ? 2 : 3; k = (int)strtol(e + 1, &e, 10); mode = e[0]; err = atoi(e + 2); }
}
/* 1: fail */
static int hit(int o) {
  char c = "owcr"[o]; int i = cnt[o]++;
  if (logfd >= 0) raw(SYS_write, logfd, (long)&c, 1, 0);
  if (o != op) return 0;
  return mode == 'p' ? i >= k : i == k;
}
static int wr_flags(int f) { return (f & O_ACCMODE) != O_RDONLY; }
static int do_open(int dir, const char *p, int f, int m) {
  int r;
  if (!init) setup();
  if (!wr_flags(f)) return (int)chk(raw(SYS_openat, dir, (long)p, f, m));
  if (hit(0)) { errno = err; return -1; }
  r = (int)chk(raw(SYS_openat, dir, (long)p, f, m));
  if (r >= 0 && r < 1024) mine[r] = 1;
  return r;
}
static ssize_t do_write(int fd, const void *p, size_t n) {
  if (!init) setup();
  if (fd < 0 || fd >= 1024 || !mine[fd]) return chk(raw(SYS_write, fd, (long)p, n, 0));
  if (hit(1)) {
    if (mode == 's') return chk(raw(SYS_write, fd, (long)p, n > 1 ? n / 2 : n, 0));
    errno = err; return -1;
  }
  return chk(raw(SYS_write, fd, (long)p, n, 0));
}
static int do_close(int fd) {
  if (!init) setup();
  if (fd < 0 || fd >= 1024 || !mine[fd]) return (int)chk(raw(SYS_close, fd, 0, 0, 0));
  mine[fd] = 0;
  if (hit(2)) { raw(SYS_close, fd, 0, 0, 0); errno = err; return -1; }
  return (int)chk(raw(SYS_close, fd, 0, 0, 0));
}
#define OPEN(nm) int __wrap_##nm(const char *p, int f, ...) { va_list a; int m; va_start(a, f); m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, f, m); }
OPEN(open) OPEN(open64) OPEN(__open) OPEN(__open64) OPEN(__open_nocancel) OPEN(__open64_nocancel)
#define OPENAT(nm) int __wrap_##nm(int d, const char *p, int f, ...) { va_list a; int m; va_start(a, f); m = va_arg(a, int); va_end(a); return do_open(d, p, f, m); }
OPENAT(openat) OPENAT(openat64)
int __wrap_creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
#define WRITE(nm) ssize_t __wrap_##nm(int fd, const void *p, size_t n) { return do_write(fd, p, n); }
WRITE(write) WRITE(__write) WRITE(__write_nocancel)
#define CLOSE(nm) int __wrap_##nm(int fd) { return do_close(fd); }
CLOSE(close) CLOSE(__close) CLOSE(__close_nocancel)

static ssize_t do_pwrite(int fd, const void *p, size_t n, off_t at) {
  if (!init) setup();
  if (fd >= 0 && fd < 1024 && mine[fd] && hit(1)) { if (mode != 's') { errno = err; return -1; } n = n > 1 ? n / 2 : n; }
  return chk(raw(SYS_pwrite64, fd, (long)p, n, at));
}
ssize_t __wrap_pwrite(int fd, const void *p, size_t n, off_t at) { return do_pwrite(fd, p, n, at); }
ssize_t __wrap_pwrite64(int fd, const void *p, size_t n, off_t at) { return do_pwrite(fd, p, n, at); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) {
  ssize_t t = 0, r; int i;
  for (i = 0; i < n; i++) { if (!v[i].iov_len) continue; r = do_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
static int moved(int d, const char *p, int e, const char *q, int f, int ln) {
  if (!init) setup();
  if (hit(3)) { errno = err; return -1; }
  return (int)chk(ln ? ({ register long r8 __asm__("r8") = f; register long r10 __asm__("r10") = (long)q; long r; __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_linkat), "D"((long)d), "S"(p), "d"((long)e), "r"(r10), "r"(r8) : "rcx", "r11", "memory"); r; })
                     : ({ register long r8 __asm__("r8") = f; register long r10 __asm__("r10") = (long)q; long r; __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_renameat2), "D"((long)d), "S"(p), "d"((long)e), "r"(r10), "r"(r8) : "rcx", "r11", "memory"); r; }));
}
int __wrap_rename(const char *p, const char *q) { return moved(AT_FDCWD, p, AT_FDCWD, q, 0, 0); }
int __wrap_renameat(int d, const char *p, int e, const char *q) { return moved(d, p, e, q, 0, 0); }
int __wrap_renameat2(int d, const char *p, int e, const char *q, unsigned f) { return moved(d, p, e, q, (int)f, 0); }
int __wrap_link(const char *p, const char *q) { return moved(AT_FDCWD, p, AT_FDCWD, q, 0, 1); }
int __wrap_linkat(int d, const char *p, int e, const char *q, int f) { return moved(d, p, e, q, f, 1); }
