/* Loaded into the built tools (LD_PRELOAD): lets reading or writing fail at a byte position.
   VH_IO="<what> <kind> <at> <errno>": what: o(ut: files), s(tandard output), i(n: files);
   kind: e (one call fails at byte <at>), s (at most <at> bytes per call), i (every other call is interrupted)
   VH_FSIZE=n: no file grows beyond that; writing fails (EFBIG) instead of ending the process */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char what, kind;
static unsigned long long at, pos, calls;
static int err, fired;

__attribute__((constructor)) static void init(void) {
  const char *p = getenv("VH_IO");
  const char *l = getenv("VH_FSIZE");
  if (l) {
    struct rlimit r = {strtoull(l, 0, 10), strtoull(l, 0, 10)};
    signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &r);
  }
  if (p && sscanf(p, "%c %c %llu %d", &what, &kind, &at, &err) != 4) what = 0;
}

/* how much may be transferred; -1: fail */
static ssize_t allow(size_t n) {
  switch (kind) {
  case 'e':
    if (fired || pos + n < at || n == 0) return n;
    if (pos < at) return at - pos;
    if (pos > at) return n;
    fired = 1;
    if (getenv("VH_FIRED")) close(open(getenv("VH_FIRED"), O_CREAT | O_WRONLY | O_CLOEXEC, 0600));
    errno = err;
    return -1;
  case 's':
    return n < at ? n : at;
  case 'i':
    if (calls++ % 2 == 0) {
      errno = EINTR;
      return -1;
    }
  }
  return n;
}

static int mine(int fd, int out) {
  return what == (out ? 'o' : 'i') ? fd > 2 : what == 's' && out && fd == 1;
}

ssize_t write(int fd, const void *b, size_t n) {
  ssize_t m = n;
  if (mine(fd, 1)) {
    if ((m = allow(n)) < 0) return -1;
    m = syscall(SYS_write, fd, b, m);
    if (m > 0) pos += m;
    return m;
  }
  return syscall(SYS_write, fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int k) {
  if (mine(fd, 1)) {
    for (; k > 0 && v->iov_len == 0; v++, k--) ;
    return k > 0 ? write(fd, v->iov_base, v->iov_len) : 0;
  }
  return syscall(SYS_writev, fd, v, k);
}

ssize_t read(int fd, void *b, size_t n) {
  ssize_t m = n;
  if (mine(fd, 0)) {
    if ((m = allow(n)) < 0) return -1;
    m = syscall(SYS_read, fd, b, m);
    if (m > 0) pos += m;
    return m;
  }
  return syscall(SYS_read, fd, b, n);
}
