/* Interposes the file-system calls of libc. Idle until vf_arm() is called; then every call that changes something
 * under the given root is numbered, logged, and, at the chosen number, made to fail, to be torn, or to be the last
 * thing the process does. Data written are kept in the log so that the checker can rebuild every state the disk may
 * have been in. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[PATH_MAX];
static int armed, count, at = -1, mode, err, logfd = -1;
/* mode: 0 = observe, 1 = exit before the call, 2 = fail with err, 3 = torn write then exit, 4 = short write then fail */
static long keep;

static ssize_t (*r_write)(int, const void *, size_t);

static void raw(const char *s, size_t n) {
  if (!r_write) r_write = dlsym(RTLD_NEXT, "write");
  while (n) {
    ssize_t k = r_write(logfd, s, n);
    if (k <= 0) _exit(97);
    s += k, n -= k;
  }
}

static void note(const char *op, const char *a, const char *b, const void *data, size_t n) {
  char buf[3 * PATH_MAX];
  int m = snprintf(buf, sizeof buf, "%d\t%s\t%s\t%s\t%zu\n", count, op, a, b ? b : "", n);
  raw(buf, m);
  if (n) raw(data, n);
}

static int under(const char *p) { return armed && strncmp(p, root, strlen(root)) == 0; }

static int full(int dfd, const char *p, char *out) {
  if (!armed || !p) return 0;
  if (p[0] == '/') snprintf(out, PATH_MAX, "%s", p);
  else {
    char d[PATH_MAX], l[64];
    if (dfd == AT_FDCWD) {
      if (!getcwd(d, sizeof d)) return 0;
    } else {
      snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
      ssize_t k = readlink(l, d, sizeof d - 1);
      if (k <= 0) return 0;
      d[k] = 0;
    }
    snprintf(out, PATH_MAX, "%s/%s", d, p);
  }
  return under(out);
}

static int fdpath(int fd, char *out) {
  char l[64];
  if (!armed || fd == logfd) return 0;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t k = readlink(l, out, PATH_MAX - 1);
  if (k <= 0) return 0;
  out[k] = 0;
  return under(out);
}

/* 1: the call is to fail now */
static int hit(void) {
  int i = count++;
  if (i != at) return 0;
  if (mode == 1) _exit(88);
  if (mode == 2) { errno = err; return 1; }
  return mode;
}

void vf_arm(const char *r, int a, int m, int e, long k, int fd) {
  snprintf(root, sizeof root, "%s", r);
  count = 0, at = a, mode = m, err = e, keep = k, logfd = fd, armed = 1;
}
int vf_disarm(void) { armed = 0; return count; }

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static const char *kind(const char *p, int fl) {
  struct stat st;
  int there = stat(p, &st) == 0;
  if ((fl & O_ACCMODE) == O_RDONLY && !(fl & (O_CREAT | O_TRUNC))) return NULL;
  if (!there && (fl & O_CREAT)) return "create";
  if (there && (fl & O_TRUNC)) return "truncate";
  return NULL;
}

#define OPEN(NAME)                                                                      \
  int NAME(const char *p, int fl, ...) {                                                \
    REAL(int, #NAME, const char *, int, ...);                                           \
    va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap);                 \
    char f[PATH_MAX];                                                                   \
    if (full(AT_FDCWD, p, f)) {                                                         \
      const char *k = kind(f, fl);                                                      \
      if (k) { if (hit() == 1) return -1; count--; note(k, f, 0, 0, 0); count++; }      \
    }                                                                                   \
    return real(p, fl, md);                                                             \
  }
OPEN(open)
OPEN(open64)
#define OPENAT(NAME)                                                                    \
  int NAME(int d, const char *p, int fl, ...) {                                         \
    REAL(int, #NAME, int, const char *, int, ...);                                      \
    va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap);                 \
    char f[PATH_MAX];                                                                   \
    if (full(d, p, f)) {                                                                \
      const char *k = kind(f, fl);                                                      \
      if (k) { if (hit() == 1) return -1; count--; note(k, f, 0, 0, 0); count++; }      \
    }                                                                                   \
    return real(d, p, fl, md);                                                          \
  }
OPENAT(openat)
OPENAT(openat64)

static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int positioned, const char *f) {
  static ssize_t (*rp)(int, const void *, size_t, off_t);
  if (!r_write) r_write = dlsym(RTLD_NEXT, "write");
  if (!rp) rp = dlsym(RTLD_NEXT, "pwrite");
  int h = hit();
  if (h == 1) return -1;
  off_t o = positioned ? off : lseek(fd, 0, SEEK_CUR);
  if (fcntl(fd, F_GETFL) & O_APPEND) { struct stat st; fstat(fd, &st); o = st.st_size; }
  char os[32];
  size_t m = n;
  if (h == 3 || h == 4) {
    m = keep < 0 ? (size_t)((long)n + keep > 0 ? (long)n + keep : 0) : ((size_t)keep < n ? (size_t)keep : n);
    if (keep == 1000000) m = n / 2;
    if (h == 4 && m == 0) { errno = err; return -1; }
  }
  snprintf(os, sizeof os, "%lld", (long long)o);
  count--; note("write", f, os, b, m); count++;
  ssize_t r = positioned ? rp(fd, b, m, off) : r_write(fd, b, m);
  if (h == 3) _exit(88);
  if (h == 4) at = count, mode = 2; /* the rest fails */
  return r;
}
ssize_t write(int fd, const void *b, size_t n) {
  char f[PATH_MAX];
  if (!r_write) r_write = dlsym(RTLD_NEXT, "write");
  if (!fdpath(fd, f)) return r_write(fd, b, n);
  return do_write(fd, b, n, 0, 0, f);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(ssize_t, "pwrite", int, const void *, size_t, off_t);
  char f[PATH_MAX];
  if (!fdpath(fd, f)) return real(fd, b, n, o);
  return do_write(fd, b, n, o, 1, f);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, "writev", int, const struct iovec *, int);
  char f[PATH_MAX];
  if (!fdpath(fd, f)) return real(fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0, f);
    if (r < 0) return t ? t : r;
    t += r;
  }
  return t;
}
/* copying inside the kernel: pretend it is not supported, callers fall back to read and write */
ssize_t sendfile(int o, int i, off_t *of, size_t n) {
  REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
  char f[PATH_MAX];
  if (fdpath(o, f)) { errno = EINVAL; return -1; }
  return real(o, i, of, n);
}
ssize_t sendfile64(int o, int i, off_t *of, size_t n) { return sendfile(o, i, of, n); }
ssize_t copy_file_range(int i, off_t *oi, int o, off_t *oo, size_t n, unsigned fl) {
  REAL(ssize_t, "copy_file_range", int, off_t *, int, off_t *, size_t, unsigned);
  char f[PATH_MAX];
  if (fdpath(o, f)) { errno = ENOSYS; return -1; }
  return real(i, oi, o, oo, n, fl);
}

#define FD1(NAME, OP)                                          \
  int NAME(int fd) {                                           \
    REAL(int, #NAME, int);                                     \
    char f[PATH_MAX];                                          \
    if (!fdpath(fd, f)) return real(fd);                       \
    if (hit() == 1) return -1;                                 \
    count--; note(OP, f, 0, 0, 0); count++;                    \
    return real(fd);                                           \
  }
FD1(fsync, "fsync")
FD1(fdatasync, "fsync")
#define TRUNC(NAME)                                            \
  int NAME(int fd, off_t n) {                                  \
    REAL(int, #NAME, int, off_t);                              \
    char f[PATH_MAX], b[32];                                   \
    if (!fdpath(fd, f)) return real(fd, n);                    \
    if (hit() == 1) return -1;                                 \
    snprintf(b, sizeof b, "%lld", (long long)n);               \
    count--; note("ftruncate", f, b, 0, 0); count++;           \
    return real(fd, n);                                        \
  }
TRUNC(ftruncate)
TRUNC(ftruncate64)

#define TWO(NAME, OP)                                          \
  int NAME(const char *a, const char *b) {                     \
    REAL(int, #NAME, const char *, const char *);              \
    char f[PATH_MAX], g[PATH_MAX];                             \
    int x = full(AT_FDCWD, a, f), y = full(AT_FDCWD, b, g);    \
    if (!x && !y) return real(a, b);                           \
    if (hit() == 1) return -1;                                 \
    count--; note(OP, f, g, 0, 0); count++;                    \
    return real(a, b);                                         \
  }
TWO(rename, "rename")
TWO(link, "link")
#define TWOAT(NAME, OP, EXTRA_T, EXTRA)                                    \
  int NAME(int d, const char *a, int e, const char *b EXTRA_T) {           \
    static int (*real)(int, const char *, int, const char * EXTRA_T);      \
    if (!real) real = dlsym(RTLD_NEXT, #NAME);                             \
    char f[PATH_MAX], g[PATH_MAX];                                         \
    int x = full(d, a, f), y = full(e, b, g);                              \
    if (!x && !y) return real(d, a, e, b EXTRA);                           \
    if (hit() == 1) return -1;                                             \
    count--; note(OP, f, g, 0, 0); count++;                                \
    return real(d, a, e, b EXTRA);                                         \
  }
#define COMMA ,
TWOAT(renameat, "rename", , )
TWOAT(renameat2, "rename", COMMA unsigned fl, COMMA fl)
TWOAT(linkat, "link", COMMA int fl, COMMA fl)
#define ONE(NAME, OP)                                          \
  int NAME(const char *a) {                                    \
    REAL(int, #NAME, const char *);                            \
    char f[PATH_MAX];                                          \
    if (!full(AT_FDCWD, a, f)) return real(a);                 \
    if (hit() == 1) return -1;                                 \
    count--; note(OP, f, 0, 0, 0); count++;                    \
    return real(a);                                            \
  }
ONE(unlink, "unlink")
ONE(rmdir, "rmdir")
ONE(remove, "unlink")
int unlinkat(int d, const char *a, int fl) {
  REAL(int, "unlinkat", int, const char *, int);
  char f[PATH_MAX];
  if (!full(d, a, f)) return real(d, a, fl);
  if (hit() == 1) return -1;
  count--; note(fl & AT_REMOVEDIR ? "rmdir" : "unlink", f, 0, 0, 0); count++;
  return real(d, a, fl);
}
int mkdir(const char *a, mode_t m) {
  REAL(int, "mkdir", const char *, mode_t);
  char f[PATH_MAX];
  struct stat st;
  if (!full(AT_FDCWD, a, f) || stat(f, &st) == 0) return real(a, m);
  if (hit() == 1) return -1;
  count--; note("mkdir", f, 0, 0, 0); count++;
  return real(a, m);
}
