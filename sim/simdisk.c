/* simdisk: the simulated disk seam.
 *
 * Preloaded into the interpreter that runs the code under test.  Inactive (pure
 * pass-through) until simdisk_start(prefix) is called; then every libc call
 * that changes the file system below `prefix` (an absolute directory) is
 *   - numbered (one global counter: the disk's logical clock),
 *   - checked against the fault plan (error, short transfer, EINTR, SIGINT, quota),
 *   - carried out on the scratch directory, and
 *   - appended to an in-memory journal, from which the simulator later builds
 *     the disk image left behind by a crash at any point.
 * Nothing outside the prefix is touched, and nothing here draws randomness.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXRULES 64
#define EXPORT __attribute__((visibility("default")))

enum { OP_OPEN = 'O', OP_WRITE = 'W', OP_TRUNC = 'T', OP_SYNC = 'S', OP_RENAME = 'R',
       OP_UNLINK = 'U', OP_MKDIR = 'M', OP_RMDIR = 'D', OP_LINK = 'L' };
enum { F_ERROR = 1, F_SHORT = 2, F_SIGINT = 3 };

struct rule { int active, kind, err; long nth, count, arg; char ops[16]; long hits; };

static int active;
static char prefix[PATH_MAX];
static size_t prefix_len;
static char tracked[MAXFD];
static int append_fd[MAXFD];
static unsigned char *jbuf; static size_t jlen, jcap;
static long clock_mut, clock_read;
static long quota = -1;
static long quota_hits;
static struct rule rules[MAXRULES]; static int nrules;
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  static void init_##name(void) { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); }

REAL(int, open, const char *, int, ...)
REAL(int, open64, const char *, int, ...)
REAL(int, openat, int, const char *, int, ...)
REAL(int, openat64, int, const char *, int, ...)
REAL(int, creat, const char *, mode_t)
REAL(int, creat64, const char *, mode_t)
REAL(int, close, int)
REAL(int, dup, int)
REAL(int, dup2, int, int)
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, writev, int, const struct iovec *, int)
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, pread64, int, void *, size_t, off64_t)
REAL(int, ftruncate64, int, off64_t)
REAL(int, truncate64, const char *, off64_t)
REAL(int, fsync, int)
REAL(int, fdatasync, int)
REAL(int, rename, const char *, const char *)
REAL(int, renameat, int, const char *, int, const char *)
REAL(int, unlink, const char *)
REAL(int, unlinkat, int, const char *, int)
REAL(int, rmdir, const char *)
REAL(int, mkdir, const char *, mode_t)
REAL(int, mkdirat, int, const char *, mode_t)
REAL(int, link, const char *, const char *)
REAL(int, linkat, int, const char *, int, const char *, int)
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t)
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned)
REAL(FILE *, fopen, const char *, const char *)
REAL(FILE *, fopen64, const char *, const char *)

__attribute__((constructor)) static void ctor(void) {
  init_open(); init_open64(); init_openat(); init_openat64(); init_creat(); init_creat64();
  init_close(); init_dup(); init_dup2(); init_write(); init_writev(); init_pwrite64();
  init_read(); init_pread64(); init_ftruncate64(); init_truncate64(); init_fsync();
  init_fdatasync(); init_rename(); init_renameat(); init_unlink(); init_unlinkat();
  init_rmdir(); init_mkdir(); init_mkdirat(); init_link(); init_linkat(); init_sendfile64();
  init_copy_file_range(); init_fopen(); init_fopen64();
}

/* ---------------------------------------------------------------- paths */
static int abspath(int dirfd, const char *p, char *out) {
  if (!p) return 0;
  if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); }
  else if (dirfd == AT_FDCWD) {
    char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) return 0;
    if (snprintf(out, PATH_MAX, "%s/%s", cwd, p) >= PATH_MAX) return 0;
  } else {
    char lnk[64], d[PATH_MAX]; snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", dirfd);
    ssize_t n = readlink(lnk, d, sizeof d - 1); if (n <= 0) return 0; d[n] = 0;
    if (snprintf(out, PATH_MAX, "%s/%s", d, p) >= PATH_MAX) return 0;
  }
  /* normalise "//", "/./" and "/../" textually */
  char tmp[PATH_MAX]; size_t o = 0; const char *s = out;
  while (*s) {
    while (*s == '/') s++;
    const char *e = s; while (*e && *e != '/') e++;
    size_t n = e - s;
    if (n == 0) break;
    if (n == 1 && s[0] == '.') { s = e; continue; }
    if (n == 2 && s[0] == '.' && s[1] == '.') { while (o > 0 && tmp[--o] != '/'); s = e; continue; }
    tmp[o++] = '/'; memcpy(tmp + o, s, n); o += n; s = e;
  }
  tmp[o] = 0; memcpy(out, tmp, o + 1);
  return 1;
}
static const char *rel(int dirfd, const char *p, char *buf) {
  if (!active || !abspath(dirfd, p, buf)) return NULL;
  if (strncmp(buf, prefix, prefix_len) != 0 || buf[prefix_len] != '/') return NULL;
  return buf + prefix_len + 1;
}

/* -------------------------------------------------------------- journal */
static void jput(const void *p, size_t n) {
  if (jlen + n > jcap) {
    size_t c = jcap ? jcap : 1 << 16; while (c < jlen + n) c *= 2;
    unsigned char *b = realloc(jbuf, c); if (!b) abort(); jbuf = b; jcap = c;
  }
  memcpy(jbuf + jlen, p, n); jlen += n;
}
/* record: op(1) clock(8) ino(8) a(8) b(8) len1(8) len2(8) bytes1 bytes2 */
static void rec(char op, uint64_t ino, int64_t a, int64_t b, const void *p1, uint64_t n1,
                const void *p2, uint64_t n2) {
  int64_t c = clock_mut;
  jput(&op, 1); jput(&c, 8); jput(&ino, 8); jput(&a, 8); jput(&b, 8); jput(&n1, 8); jput(&n2, 8);
  if (n1) jput(p1, n1);
  if (n2) jput(p2, n2);
}
static uint64_t ino_of(int fd) { struct stat st; return fstat(fd, &st) ? 0 : (uint64_t)st.st_ino; }

/* --------------------------------------------------------------- faults */
/* returns 0: proceed; -1: fail with errno set; >0: transfer at most this many bytes */
static long fault(char op, int is_read) {
  long now = is_read ? ++clock_read : ++clock_mut;
  for (int i = 0; i < nrules; i++) {
    struct rule *r = &rules[i];
    if (!r->active || !strchr(r->ops, op)) continue;
    if (now < r->nth || (r->count >= 0 && r->hits >= r->count)) continue;
    r->hits++;
    if (r->kind == F_ERROR) { errno = r->err; return -1; }
    if (r->kind == F_SHORT) { if (op == OP_WRITE || op == 'r') return r->arg > 0 ? r->arg : 1; continue; }
    if (r->kind == F_SIGINT) { raise(SIGINT); continue; }
  }
  return 0;
}
static int tr(int fd) { return active && fd >= 0 && fd < MAXFD && tracked[fd]; }

/* ---------------------------------------------------------------- opens */
static int post_open(int fd, const char *r, int flags, int existed) {
  if (fd >= 0 && fd < MAXFD) {
    tracked[fd] = 1; append_fd[fd] = (flags & O_APPEND) != 0;
    int created = !existed && (flags & O_CREAT), trunc = existed && (flags & O_TRUNC);
    if (created || trunc) rec(OP_OPEN, ino_of(fd), created, trunc, r, strlen(r), NULL, 0);
    else rec('P', ino_of(fd), 0, 0, r, strlen(r), NULL, 0); /* which file later operations are on */
  }
  return fd;
}
#define OPEN_BODY(dirfd, realcall) \
  char b_[PATH_MAX]; const char *r = rel(dirfd, path, b_); \
  mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  if (!r) { int fd = realcall; if (fd >= 0 && fd < MAXFD) tracked[fd] = 0; return fd; } \
  pthread_mutex_lock(&mu); \
  struct stat st; int existed = stat(b_, &st) == 0; \
  if ((!existed && (flags & O_CREAT)) || (existed && (flags & O_TRUNC))) { \
    if (fault(OP_OPEN, 0) < 0) { pthread_mutex_unlock(&mu); return -1; } } \
  else if (existed && fault('o', 1) < 0) { pthread_mutex_unlock(&mu); return -1; } \
  int fd = realcall; int e = errno; post_open(fd, r, flags, existed); \
  pthread_mutex_unlock(&mu); errno = e; return fd;

EXPORT int open(const char *path, int flags, ...) { init_open(); OPEN_BODY(AT_FDCWD, real_open(path, flags, mode)) }
EXPORT int open64(const char *path, int flags, ...) { init_open64(); OPEN_BODY(AT_FDCWD, real_open64(path, flags, mode)) }
EXPORT int openat(int d, const char *path, int flags, ...) { init_openat(); OPEN_BODY(d, real_openat(d, path, flags, mode)) }
EXPORT int openat64(int d, const char *path, int flags, ...) { init_openat64(); OPEN_BODY(d, real_openat64(d, path, flags, mode)) }
EXPORT int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *path, mode_t m) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

/* stdio opens below the prefix would bypass the seam: refuse them loudly when they could write */
EXPORT FILE *fopen(const char *path, const char *m) {
  init_fopen(); char b[PATH_MAX];
  if (rel(AT_FDCWD, path, b) && strpbrk(m, "wa+")) { fprintf(stderr, "simdisk: stdio write below the prefix: %s\n", path); abort(); }
  return real_fopen(path, m);
}
EXPORT FILE *fopen64(const char *path, const char *m) {
  init_fopen64(); char b[PATH_MAX];
  if (rel(AT_FDCWD, path, b) && strpbrk(m, "wa+")) { fprintf(stderr, "simdisk: stdio write below the prefix: %s\n", path); abort(); }
  return real_fopen64(path, m);
}
EXPORT int close(int fd) { init_close(); if (fd >= 0 && fd < MAXFD) tracked[fd] = 0; return real_close(fd); }
EXPORT int dup(int fd) { init_dup(); int n = real_dup(fd); if (n >= 0 && n < MAXFD && fd < MAXFD && fd >= 0) { tracked[n] = tracked[fd]; append_fd[n] = append_fd[fd]; } return n; }
EXPORT int dup2(int a, int b) { init_dup2(); int n = real_dup2(a, b); if (n >= 0 && n < MAXFD && a >= 0 && a < MAXFD) { tracked[n] = tracked[a]; append_fd[n] = append_fd[a]; } return n; }

/* --------------------------------------------------------------- writes */
static ssize_t do_write(int fd, const void *buf, size_t n, off64_t off, int positional) {
  pthread_mutex_lock(&mu);
  long f = fault(OP_WRITE, 0);
  if (f < 0) { pthread_mutex_unlock(&mu); return -1; }
  if (f > 0 && (size_t)f < n) n = f;
  if (quota >= 0) {
    /* the quota counts bytes that extend the file, as a full disk does */
    struct stat st; int64_t size = fstat(fd, &st) ? 0 : st.st_size;
    int64_t o = positional ? off : append_fd[fd] ? size : lseek64(fd, 0, SEEK_CUR);
    int64_t grow = o + (int64_t)n - size;
    if (grow > quota) {
      quota_hits++;
      int64_t keep = (int64_t)n - (grow - quota);
      if (keep <= 0) { errno = ENOSPC; pthread_mutex_unlock(&mu); return -1; }
      n = keep; grow = quota;
    }
    if (grow > 0) quota -= grow;
  }
  int64_t at = off;
  if (!positional) { struct stat st; at = append_fd[fd] ? (fstat(fd, &st) ? 0 : st.st_size) : lseek64(fd, 0, SEEK_CUR); }
  init_pwrite64(); init_write();
  ssize_t r = positional ? real_pwrite64(fd, buf, n, off) : real_write(fd, buf, n);
  if (r > 0) rec(OP_WRITE, ino_of(fd), at, r, buf, r, NULL, 0);
  pthread_mutex_unlock(&mu);
  return r;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) { init_write(); return tr(fd) ? do_write(fd, b, n, 0, 0) : real_write(fd, b, n); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { init_pwrite64(); return tr(fd) ? do_write(fd, b, n, o, 1) : real_pwrite64(fd, b, n, o); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  init_writev(); if (!tr(fd)) return real_writev(fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
EXPORT ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
  init_sendfile64(); init_pread64(); init_read();
  if (!tr(out)) return real_sendfile64(out, in, off, n);
  if (n > 65536) n = 65536;
  char *b = malloc(n ? n : 1);
  ssize_t r = off ? real_pread64(in, b, n, *off) : real_read(in, b, n);
  if (r <= 0) { free(b); return r; }
  ssize_t w = do_write(out, b, r, 0, 0);
  if (w < r) { off64_t back = w < 0 ? r : r - w; if (!off) lseek64(in, -back, SEEK_CUR); }
  if (w > 0 && off) *off += w;
  free(b); return w;
}
EXPORT ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, off, n); }
EXPORT ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl) {
  init_copy_file_range(); if (tr(out)) { errno = ENOSYS; return -1; }
  return real_copy_file_range(in, io, out, oo, n, fl);
}

/* ---------------------------------------------------------------- reads */
EXPORT ssize_t read(int fd, void *b, size_t n) {
  init_read(); if (!tr(fd)) return real_read(fd, b, n);
  pthread_mutex_lock(&mu); long f = fault('r', 1); pthread_mutex_unlock(&mu);
  if (f < 0) return -1;
  if (f > 0 && (size_t)f < n) n = f;
  return real_read(fd, b, n);
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  init_pread64(); if (!tr(fd)) return real_pread64(fd, b, n, o);
  pthread_mutex_lock(&mu); long f = fault('r', 1); pthread_mutex_unlock(&mu);
  if (f < 0) return -1;
  if (f > 0 && (size_t)f < n) n = f;
  return real_pread64(fd, b, n, o);
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }

/* ------------------------------------------------------------- metadata */
EXPORT int ftruncate64(int fd, off64_t n) {
  init_ftruncate64(); if (!tr(fd)) return real_ftruncate64(fd, n);
  pthread_mutex_lock(&mu); int r = -1;
  if (fault(OP_TRUNC, 0) >= 0) { r = real_ftruncate64(fd, n); if (r == 0) rec(OP_TRUNC, ino_of(fd), n, 0, NULL, 0, NULL, 0); }
  pthread_mutex_unlock(&mu); return r;
}
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
EXPORT int truncate64(const char *p, off64_t n) {
  init_truncate64(); char b[PATH_MAX]; if (!rel(AT_FDCWD, p, b)) return real_truncate64(p, n);
  pthread_mutex_lock(&mu); int r = -1; struct stat st;
  if (fault(OP_TRUNC, 0) >= 0) { r = real_truncate64(p, n); if (r == 0 && !stat(b, &st)) rec(OP_TRUNC, st.st_ino, n, 0, NULL, 0, NULL, 0); }
  pthread_mutex_unlock(&mu); return r;
}
EXPORT int truncate(const char *p, off_t n) { return truncate64(p, n); }
static int do_sync(int fd, int data) {
  pthread_mutex_lock(&mu); int r = -1;
  if (fault(OP_SYNC, 0) >= 0) { r = 0; rec(OP_SYNC, ino_of(fd), data, 0, NULL, 0, NULL, 0); }
  pthread_mutex_unlock(&mu); return r;
}
EXPORT int fsync(int fd) { init_fsync(); return tr(fd) ? do_sync(fd, 0) : real_fsync(fd); }
EXPORT int fdatasync(int fd) { init_fdatasync(); return tr(fd) ? do_sync(fd, 1) : real_fdatasync(fd); }
static int do_two(char op, int d1, const char *a, int d2, const char *b2, int (*go)(int, const char *, int, const char *)) {
  char x[PATH_MAX], y[PATH_MAX]; const char *r1 = rel(d1, a, x), *r2 = rel(d2, b2, y);
  if (!r1 && !r2) return go(d1, a, d2, b2);
  pthread_mutex_lock(&mu); int r = -1;
  if (fault(op, 0) >= 0) { r = go(d1, a, d2, b2); if (r == 0) rec(op, 0, 0, 0, r1 ? r1 : "", r1 ? strlen(r1) : 0, r2 ? r2 : "", r2 ? strlen(r2) : 0); }
  pthread_mutex_unlock(&mu); return r;
}
static int go_renameat(int a, const char *b, int c, const char *d) { init_renameat(); return real_renameat(a, b, c, d); }
static int go_linkat(int a, const char *b, int c, const char *d) { init_linkat(); return real_linkat(a, b, c, d, 0); }
EXPORT int rename(const char *a, const char *b) { return do_two(OP_RENAME, AT_FDCWD, a, AT_FDCWD, b, go_renameat); }
EXPORT int renameat(int d1, const char *a, int d2, const char *b) { return do_two(OP_RENAME, d1, a, d2, b, go_renameat); }
EXPORT int link(const char *a, const char *b) { return do_two(OP_LINK, AT_FDCWD, a, AT_FDCWD, b, go_linkat); }
EXPORT int linkat(int d1, const char *a, int d2, const char *b, int fl) {
  char x[PATH_MAX], y[PATH_MAX]; if (!rel(d1, a, x) && !rel(d2, b, y)) { init_linkat(); return real_linkat(d1, a, d2, b, fl); }
  return do_two(OP_LINK, d1, a, d2, b, go_linkat);
}
static int one(char op, int d, const char *p, int (*go)(int, const char *, int), int arg) {
  char b[PATH_MAX]; const char *r = rel(d, p, b); if (!r) return go(d, p, arg);
  pthread_mutex_lock(&mu); int x = -1;
  if (fault(op, 0) >= 0) { x = go(d, p, arg); if (x == 0) rec(op, 0, 0, 0, r, strlen(r), NULL, 0); }
  pthread_mutex_unlock(&mu); return x;
}
static int go_unlinkat(int d, const char *p, int fl) { init_unlinkat(); return real_unlinkat(d, p, fl); }
static int go_mkdirat(int d, const char *p, int m) { init_mkdirat(); return real_mkdirat(d, p, (mode_t)m); }
EXPORT int unlink(const char *p) { return one(OP_UNLINK, AT_FDCWD, p, go_unlinkat, 0); }
EXPORT int unlinkat(int d, const char *p, int fl) { return one(fl & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, d, p, go_unlinkat, fl); }
EXPORT int remove(const char *p) { struct stat st; if (!lstat(p, &st) && S_ISDIR(st.st_mode)) return one(OP_RMDIR, AT_FDCWD, p, go_unlinkat, AT_REMOVEDIR); return unlink(p); }
EXPORT int rmdir(const char *p) { return one(OP_RMDIR, AT_FDCWD, p, go_unlinkat, AT_REMOVEDIR); }
EXPORT int mkdir(const char *p, mode_t m) { return one(OP_MKDIR, AT_FDCWD, p, go_mkdirat, (int)m); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { return one(OP_MKDIR, d, p, go_mkdirat, (int)m); }

/* ------------------------------------------------------------ interface */
EXPORT int simdisk_present(void) { return 1; }
EXPORT void simdisk_start(const char *p) {
  snprintf(prefix, sizeof prefix, "%s", p); prefix_len = strlen(prefix);
  jlen = 0; clock_mut = clock_read = 0; quota = -1; quota_hits = 0; nrules = 0; active = 1;
}
EXPORT void simdisk_stop(void) { active = 0; nrules = 0; quota = -1; }
EXPORT int simdisk_rule(int kind, const char *ops, long nth, long count, int err, long arg) {
  if (nrules >= MAXRULES) return -1;
  struct rule *r = &rules[nrules]; memset(r, 0, sizeof *r);
  r->active = 1; r->kind = kind; r->nth = nth; r->count = count; r->err = err; r->arg = arg;
  snprintf(r->ops, sizeof r->ops, "%s", ops); return nrules++;
}
EXPORT long simdisk_hits(int i) { return i >= 0 && i < nrules ? rules[i].hits : -1; }
EXPORT void simdisk_clear(void) { nrules = 0; quota = -1; }
EXPORT void simdisk_quota(long q) { quota = q; }
EXPORT long simdisk_quota_hits(void) { return quota_hits; }
EXPORT long simdisk_clock(void) { return clock_mut; }
EXPORT long simdisk_read_clock(void) { return clock_read; }
EXPORT unsigned long simdisk_journal_len(void) { return jlen; }
EXPORT unsigned char *simdisk_journal(void) { return jbuf; }
EXPORT int simdisk_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += tracked[i]; return n; }
