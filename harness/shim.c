/* Fault injection for file operations below one directory (VH_DIR).
 * Counted operations: creating or opening for writing, write, rename, link, truncate, sync.
 * VH_MODE: 0 count only, 1 the VH_NTH operation fails, 2 it writes half (the next write fails),
 * 3 the process ends before it, 4 the process ends behind it, 5 it and all later ones fail.
 * The number of operations is written to VH_COUNT. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int ready, mode, nth, count, half_fail, err = ENOSPC, countfd = -1;
static char dir[PATH_MAX];
static size_t dirlen;
static unsigned char mine[4096];

static void init(void) {
  if (ready) return;
  ready = 1;
  const char *d = getenv("VH_DIR"), *m = getenv("VH_MODE"), *n = getenv("VH_NTH"), *c = getenv("VH_COUNT"), *e = getenv("VH_ERR");
  if (d) { strncpy(dir, d, sizeof dir - 1); dirlen = strlen(dir); }
  if (m) mode = atoi(m);
  if (n) nth = atoi(n);
  if (e) err = atoi(e);
  if (c) {
    int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
    countfd = o(c, O_WRONLY | O_CREAT | O_CLOEXEC, 0600);
  }
}
static int below(const char *p) {
  init();
  /* relative paths: the working directory is VH_DIR */
  if (dirlen && p && p[0] && p[0] != '/') return 1;
  return dirlen && p && strncmp(p, dir, dirlen) == 0 && p[dirlen] == '/';
}
/* 0: go on, 1: fail, 2: half */
static int step(void) {
  count++;
  if (countfd >= 0) {
    ssize_t (*w)(int, const void *, size_t, off_t) = dlsym(RTLD_NEXT, "pwrite");
    w(countfd, &count, sizeof count, 0);
  }
  if (half_fail) { errno = err; return 1; }
  if (mode == 5 && count >= nth) { errno = err; return 1; }
  if (count != nth) return 0;
  if (mode == 1) { errno = err; return 1; }
  if (mode == 2) return 2;
  if (mode == 3) _exit(77);
  return 0;
}
static void after(void) {
  if (mode == 4 && count == nth) _exit(77);
}
static int writes(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }
static int opened(int fd) {
  if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = 1;
  after();
  return fd;
}
#define OPEN(name)                                                              \
  int name(const char *p, int flags, ...) {                                     \
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);       \
    int (*f)(const char *, int, ...) = dlsym(RTLD_NEXT, #name);                 \
    if (!below(p) || !writes(flags)) return f(p, flags, m);                     \
    if (step() == 1) return -1;                                                 \
    return opened(f(p, flags, m));                                              \
  }
OPEN(open)
OPEN(open64)
#define OPENAT(name)                                                            \
  int name(int d, const char *p, int flags, ...) {                              \
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);       \
    int (*f)(int, const char *, int, ...) = dlsym(RTLD_NEXT, #name);            \
    if (!below(p) || !writes(flags)) return f(d, p, flags, m);                  \
    if (step() == 1) return -1;                                                 \
    return opened(f(d, p, flags, m));                                           \
  }
OPENAT(openat)
OPENAT(openat64)
int creat(const char *p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open64(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int close(int fd) {
  int (*f)(int) = dlsym(RTLD_NEXT, "close");
  if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = 0;
  return f(fd);
}
static int is_mine(int fd) { return fd >= 0 && fd < (int)sizeof mine && mine[fd]; }
ssize_t write(int fd, const void *b, size_t n) {
  ssize_t (*f)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
  if (!is_mine(fd)) return f(fd, b, n);
  int s = step();
  if (s == 1) return -1;
  if (s == 2) { half_fail = 1; n = n / 2; }
  ssize_t r = f(fd, b, n);
  after();
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  ssize_t (*f)(int, const struct iovec *, int) = dlsym(RTLD_NEXT, "writev");
  if (!is_mine(fd)) return f(fd, v, n);
  if (n > 0) return write(fd, v[0].iov_base, v[0].iov_len);
  return 0;
}
#define PWRITE(name, T)                                                         \
  ssize_t name(int fd, const void *b, size_t n, T o) {                          \
    ssize_t (*f)(int, const void *, size_t, T) = dlsym(RTLD_NEXT, #name);       \
    if (!is_mine(fd)) return f(fd, b, n, o);                                    \
    int s = step();                                                             \
    if (s == 1) return -1;                                                      \
    if (s == 2) { half_fail = 1; n = n / 2; }                                   \
    ssize_t r = f(fd, b, n, o);                                                 \
    after();                                                                    \
    return r;                                                                   \
  }
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)
/* copying inside the kernel: not available, the caller falls back to read and write */
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile(int o, int i, off_t *p, size_t n) { errno = ENOSYS; return -1; }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { errno = ENOSYS; return -1; }
#define TWO(name)                                                               \
  int name(const char *a, const char *b) {                                      \
    int (*f)(const char *, const char *) = dlsym(RTLD_NEXT, #name);             \
    if (!below(a) && !below(b)) return f(a, b);                                 \
    if (step() == 1) return -1;                                                 \
    int r = f(a, b); int e = errno;                                             \
    after(); errno = e;                                                         \
    return r;                                                                   \
  }
TWO(rename)
TWO(link)
TWO(symlink)
int renameat(int x, const char *a, int y, const char *b) {
  int (*f)(int, const char *, int, const char *) = dlsym(RTLD_NEXT, "renameat");
  if (!below(a) && !below(b)) return f(x, a, y, b);
  if (step() == 1) return -1;
  int r = f(x, a, y, b); int e = errno;
  after(); errno = e;
  return r;
}
int linkat(int x, const char *a, int y, const char *b, int g) {
  int (*f)(int, const char *, int, const char *, int) = dlsym(RTLD_NEXT, "linkat");
  if (!below(a) && !below(b)) return f(x, a, y, b, g);
  if (step() == 1) return -1;
  int r = f(x, a, y, b, g); int e = errno;
  after(); errno = e;
  return r;
}
#define TRUNC(name, T)                                                          \
  int name(int fd, T n) {                                                       \
    int (*f)(int, T) = dlsym(RTLD_NEXT, #name);                                 \
    if (!is_mine(fd)) return f(fd, n);                                          \
    if (step() == 1) return -1;                                                 \
    int r = f(fd, n);                                                           \
    after();                                                                    \
    return r;                                                                   \
  }
TRUNC(ftruncate, off_t)
TRUNC(ftruncate64, off64_t)
#define SYNC(name)                                                              \
  int name(int fd) {                                                            \
    int (*f)(int) = dlsym(RTLD_NEXT, #name);                                    \
    if (!is_mine(fd)) return f(fd);                                             \
    if (step() == 1) return -1;                                                 \
    int r = f(fd);                                                              \
    after();                                                                    \
    return r;                                                                   \
  }
SYNC(fsync)
SYNC(fdatasync)
/* removing is counted for the end of the process only: it does not fail for want of space */
int unlink(const char *p) {
  int (*f)(const char *) = dlsym(RTLD_NEXT, "unlink");
  if (below(p) && (mode == 0 || mode == 3 || mode == 4)) { step(); }
  int r = f(p); int e = errno;
  if (below(p)) after();
  errno = e;
  return r;
}
