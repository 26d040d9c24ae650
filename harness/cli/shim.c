/* An environment under the harness's control, preloaded into the tool.
 *
 * MCX_ENV holds one entry per controlled file, separated by ';':
 *   <dev>:<ino> or 0 (standard input) or 1 (standard output), then '=' and
 *   a list of items separated by ',':
 *     o<errno>  opening fails          s<errno>  fstat/stat fails
 *     m<errno>  mapping fails          F         reported as a pipe
 *     S<n>      reported length        C<n>      every transfer is cut to n
 *     r<n>      the next transfer is cut to n bytes
 *     e<errno>  the next transfer fails
 *     p         the next transfer is left alone
 * Every answer that was given is written to the file named by MCX_LOG.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXSPEC 16
#define MAXSTEP 64
struct spec {
  uint64_t dev, ino;
  int known, out;
  int open_err, stat_err, map_err, fifo, have_size, nsteps, at;
  int64_t size;
  size_t cut;
  struct { char what; long n, times; } step[MAXSTEP];
};
static struct spec specs[MAXSPEC];
static int nspecs, log_fd = -1, ready;

static long raw_stat(int fd, const char *path, int flags, struct stat *st) {
  return syscall(SYS_newfstatat, fd, path, st, flags);
}

static void setup(void) {
  if (ready) return;
  ready = 1;
  const char *l = getenv("MCX_LOG");
  if (l) log_fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  const char *p = getenv("MCX_ENV");
  while (p && *p && nspecs < MAXSPEC) {
    struct spec *s = &specs[nspecs++];
    char *end;
    uint64_t a = strtoull(p, &end, 10);
    if (*end == ':') {
      s->dev = a;
      s->ino = strtoull(end + 1, &end, 10);
      s->known = 1;
    } else {
      struct stat st;
      if (raw_stat((int)a, "", AT_EMPTY_PATH, &st) == 0) {
        s->dev = st.st_dev;
        s->ino = st.st_ino;
        s->known = 1;
      }
      s->out = a == 1;
    }
    p = end;
    if (*p == '=') p++;
    while (*p && *p != ';') {
      char c = *p++;
      long n = strtol(p, &end, 10);
      p = end;
      switch (c) {
      case 'o': s->open_err = (int)n; break;
      case 's': s->stat_err = (int)n; break;
      case 'm': s->map_err = (int)n; break;
      case 'F': s->fifo = 1; break;
      case 'S': s->have_size = 1; s->size = n; break;
      case 'C': s->cut = (size_t)n; break;
      case 'r': case 'e': case 'p':
        if (s->nsteps < MAXSTEP) {
          s->step[s->nsteps].what = c;
          s->step[s->nsteps].times = *p == 'x' ? strtol(p + 1, &end, 10) : 1;
          s->step[s->nsteps++].n = n;
          p = end;
        }
        break;
      }
      if (*p == ',') p++;
    }
    if (*p == ';') p++;
  }
}
__attribute__((constructor)) static void init(void) { setup(); }

static void note(struct spec *s, const char *what, long n) {
  char line[80];
  int k = snprintf(line, sizeof line, "%d %s %ld\n", (int)(s - specs), what, n);
  if (log_fd >= 0) syscall(SYS_write, log_fd, line, k);
}

static struct spec *by_stat(const struct stat *st, int out) {
  for (int i = 0; i < nspecs; i++)
    if (specs[i].known && specs[i].out == out && specs[i].dev == st->st_dev && specs[i].ino == st->st_ino)
      return &specs[i];
  return 0;
}
static struct spec *by_fd(int fd, int out) {
  struct stat st;
  setup();
  if (!nspecs || fd < 0 || fd == log_fd) return 0;
  int e = errno;
  long r = raw_stat(fd, "", AT_EMPTY_PATH, &st);
  errno = e;
  return r == 0 ? by_stat(&st, out) : 0;
}
static struct spec *by_path(int dir, const char *path) {
  struct stat st;
  setup();
  if (!nspecs || !path) return 0;
  int e = errno;
  long r = raw_stat(dir, path, 0, &st);
  errno = e;
  return r == 0 ? by_stat(&st, 0) : 0;
}

/* ------------------------------------------------------------------ open */
static int do_open(int dir, const char *path, int flags, int mode) {
  struct spec *s = by_path(dir, path);
  if (s && s->open_err) {
    note(s, "open", s->open_err);
    errno = s->open_err;
    return -1;
  }
  return (int)syscall(SYS_openat, dir, path, flags, mode);
}
#define MODE(flags)                                                            \
  int mode = 0;                                                                \
  if ((flags) & (O_CREAT | O_TMPFILE)) {                                       \
    va_list ap;                                                                \
    va_start(ap, flags);                                                       \
    mode = va_arg(ap, int);                                                    \
    va_end(ap);                                                                \
  }
int open(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE(flags) return do_open(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE(flags) return do_open(dir, path, flags, mode); }

/* ------------------------------------------------------------------ stat */
static struct spec *stat_spec(int fd, const char *path) {
  return path && *path ? by_path(fd, path) : by_fd(fd, 0);
}
static int do_stat(int fd, const char *path, struct stat *st, int flags) {
  struct spec *s = stat_spec(fd, path);
  if (s && s->stat_err) {
    note(s, "stat", s->stat_err);
    errno = s->stat_err;
    return -1;
  }
  int r = (int)raw_stat(fd, path, flags, st);
  if (r == 0 && s) {
    if (s->fifo) st->st_mode = (st->st_mode & ~S_IFMT) | S_IFIFO;
    if (s->fifo) st->st_size = 0;
    if (s->have_size) st->st_size = s->size;
  }
  return r;
}
int fstat(int fd, struct stat *st) { return do_stat(fd, "", st, AT_EMPTY_PATH); }
int fstat64(int fd, struct stat64 *st) { return do_stat(fd, "", (struct stat *)st, AT_EMPTY_PATH); }
int stat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, 0); }
int fstatat(int fd, const char *p, struct stat *st, int f) { return do_stat(fd, p, st, f); }
int fstatat64(int fd, const char *p, struct stat64 *st, int f) { return do_stat(fd, p, (struct stat *)st, f); }
int statx(int fd, const char *path, int flags, unsigned mask, struct statx *sx) {
  struct spec *s = stat_spec(fd, path);
  if (s && s->stat_err) {
    note(s, "stat", s->stat_err);
    errno = s->stat_err;
    return -1;
  }
  int r = (int)syscall(SYS_statx, fd, path, flags, mask, sx);
  if (r == 0 && s) {
    if (s->fifo) sx->stx_mode = (sx->stx_mode & ~S_IFMT) | S_IFIFO;
    if (s->fifo) sx->stx_size = 0;
    if (s->have_size) sx->stx_size = (uint64_t)s->size;
  }
  return r;
}

/* ------------------------------------------------------------------- map */
static void *do_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  if (fd >= 0) {
    struct spec *s = by_fd(fd, 0);
    if (s && s->map_err) {
      note(s, "map", s->map_err);
      errno = s->map_err;
      return MAP_FAILED;
    }
  }
  return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off);
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) { return do_mmap(a, n, prot, flags, fd, off); }
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t off) { return do_mmap(a, n, prot, flags, fd, off); }

/* ------------------------------------------------------------- transfers */
/* How many bytes the next transfer may move, or -1 with errno set. */
static ssize_t allow(struct spec *s, size_t n) {
  if (!s || n == 0) return n;
  if (s->at < s->nsteps) {
    char w = s->step[s->at].what;
    long k = s->step[s->at].n;
    if (--s->step[s->at].times <= 0) s->at++;
    if (w == 'e') {
      note(s, s->out ? "write" : "read", k);
      errno = (int)k;
      return -1;
    }
    if (w == 'r') {
      if (k < 1) k = 1;
      if ((size_t)k < n) n = (size_t)k;
      note(s, "cut", k);
    }
    return n;
  }
  if (s->cut && s->cut < n) n = s->cut;
  return n;
}
ssize_t read(int fd, void *buf, size_t n) {
  ssize_t m = allow(by_fd(fd, 0), n);
  return m < 0 ? -1 : syscall(SYS_read, fd, buf, m);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) {
  ssize_t m = allow(by_fd(fd, 0), n);
  return m < 0 ? -1 : syscall(SYS_pread64, fd, buf, m, off);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) { return pread(fd, buf, n, off); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  struct spec *s = by_fd(fd, 0);
  if (!s) return syscall(SYS_readv, fd, v, c);
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t write(int fd, const void *buf, size_t n) {
  ssize_t m = allow(by_fd(fd, 1), n);
  return m < 0 ? -1 : syscall(SYS_write, fd, buf, m);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  struct spec *s = by_fd(fd, 1);
  if (!s) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
