/* Preloaded: fails, shortens or interrupts input and output on one file.
   KWS_FAULT = "<op> <k> <errno> <path>":
     read|write|close k  the k-th such call (from 1) on the path fails with errno,
                         and so do all later ones
     short k             reads and writes move at most k bytes at a time
     eintr k             every k-th read or write is interrupted first
   KWS_MARK = a file created when a call was tampered with. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int ready, op, k, err, n;
static char path[PATH_MAX], mark[PATH_MAX];
enum { NONE, READ, WRITE, CLOSE, SHORT, EINTR_ };

static void init(void) {
  if (ready) return;
  ready = 1;
  const char *f = getenv("KWS_FAULT"), *m = getenv("KWS_MARK");
  char o[16];
  if (!f || sscanf(f, "%15s %d %d %4000s", o, &k, &err, path) != 4) return;
  if (m) strncpy(mark, m, sizeof(mark) - 1);
  op = !strcmp(o, "read") ? READ : !strcmp(o, "write") ? WRITE : !strcmp(o, "close") ? CLOSE
     : !strcmp(o, "short") ? SHORT : !strcmp(o, "eintr") ? EINTR_ : NONE;
}

static int mine(int fd) {
  char link[64], to[PATH_MAX];
  init();
  if (op == NONE) return 0;
  snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
  long l = syscall(SYS_readlink, link, to, sizeof(to) - 1);
  if (l <= 0) return 0;
  to[l] = 0;
  return !strcmp(to, path);
}

static void fired(void) {
  if (mark[0]) {
    int fd = syscall(SYS_openat, AT_FDCWD, mark, O_CREAT | O_WRONLY, 0644);
    if (fd >= 0) syscall(SYS_close, fd);
  }
}

/* What to do with a call of kind w: 1 fail, 0 proceed with *size bytes. */
static int fate(int fd, int w, size_t *size) {
  if (!mine(fd)) return 0;
  if (op == w) {
    if (++n < k) return 0;
    fired();
    errno = err;
    return 1;
  }
  if (op == SHORT && size && *size > (size_t)k) {
    fired();
    *size = k;
  }
  if (op == EINTR_ && size && ++n % (k + 1) == 1) {
    fired();
    errno = EINTR;
    return 1;
  }
  return 0;
}

ssize_t read(int fd, void *b, size_t s) {
  if (fate(fd, READ, &s)) return -1;
  return syscall(SYS_read, fd, b, s);
}

ssize_t write(int fd, const void *b, size_t s) {
  if (fate(fd, WRITE, &s)) return -1;
  return syscall(SYS_write, fd, b, s);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
  size_t total = 0;
  for (int i = 0; i < c; ++i) total += v[i].iov_len;
  size_t s = total;
  if (fate(fd, WRITE, &s)) return -1;
  if (s == total) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; ++i)
    if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len < s ? v[i].iov_len : s);
  return 0;
}

int fclose(FILE *f) {
  static int (*real)(FILE *);
  if (!real) real = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
  if (fate(fileno(f), CLOSE, 0)) {
    int e = errno;
    real(f);
    errno = e;
    return EOF;
  }
  return real(f);
}
