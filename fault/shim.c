/* Preloaded into the programs under test: numbers every file operation below VS_ROOT, records it in
 * VS_LOG, lets the VS_AT-th one fail, be cut short or end the process (VS_KIND), lets another process
 * decide when each may happen (VS_REQ / VS_ACK) and gives the program a clock of its own (VS_CLOCK). */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static char root[PATH_MAX];
static size_t root_len;
static int log_fd = -1, req_fd = -1, ack_fd = -1;
static long at = -1, counter = 0;
static char kind = 0; /* F fail once, D disk full from here on, P cut short, K end before, H end half way */
static int full = 0;
static long long clock_ms = -1, slept_ns = 0, tick_ms = 0;
static char fd_path[1024][512];
static int ready = 0;

#define REAL(name) \
  static __typeof__(&name) real_##name; \
  if (!real_##name) real_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void shim_init(void) {
  char const *s = getenv("VS_ROOT");
  if (!s) return;
  strncpy(root, s, sizeof root - 1);
  root_len = strlen(root);
  if ((s = getenv("VS_LOG"))) log_fd = (int)syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  if (log_fd >= 0) {
    int hi = fcntl(log_fd, F_DUPFD_CLOEXEC, 900);
    syscall(SYS_close, log_fd);
    log_fd = hi;
  }
  if ((s = getenv("VS_REQ"))) req_fd = atoi(s);
  if ((s = getenv("VS_ACK"))) ack_fd = atoi(s);
  if ((s = getenv("VS_AT"))) at = atol(s);
  if ((s = getenv("VS_KIND"))) kind = *s;
  if ((s = getenv("VS_CLOCK"))) clock_ms = atoll(s);
  if ((s = getenv("VS_TICK"))) tick_ms = atoll(s);
  ready = 1;
}

/* the absolute, lexically normal form of a path; 1 if it lies below the root */
static int resolve(int dirfd, char const *path, char *out) {
  char tmp[2 * PATH_MAX];
  if (!ready || !path) return 0;
  if (path[0] == '/') {
    snprintf(tmp, sizeof tmp, "%s", path);
  } else if (dirfd == AT_FDCWD) {
    char cwd[PATH_MAX];
    if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
    snprintf(tmp, sizeof tmp, "%s/%s", cwd, path);
  } else if (dirfd >= 0 && dirfd < 1024 && fd_path[dirfd][0]) {
    snprintf(tmp, sizeof tmp, "%s/%s", fd_path[dirfd], path);
  } else
    return 0;
  size_t n = 0;
  for (char *p = tmp; *p;) {
    while (*p == '/') ++p;
    char *e = p;
    while (*e && *e != '/') ++e;
    size_t l = (size_t)(e - p);
    if (l == 2 && p[0] == '.' && p[1] == '.') {
      while (n > 0 && out[n - 1] != '/') --n;
      if (n > 0) --n;
    } else if (l > 0 && !(l == 1 && p[0] == '.')) {
      if (n + l + 2 > PATH_MAX) return 0;
      out[n++] = '/';
      memcpy(out + n, p, l);
      n += l;
    }
    p = e;
  }
  out[n] = 0;
  return n >= root_len && strncmp(out, root, root_len) == 0 && (out[root_len] == 0 || out[root_len] == '/');
}

/* What is to happen to this operation: 0 normally, 'F' fail (errno set), 'P' cut short, 'H' cut short and end. */
static char event(char const *op, char const *path, int data, int fail_errno) {
  char line[1400];
  int e = errno;
  long me = counter++;
  int n = snprintf(line, sizeof line, "%ld %s %s\n", me, op, path + root_len);
  if (req_fd >= 0) {
    char c;
    if (write(req_fd, line, (size_t)n) < 0 || syscall(SYS_read, ack_fd, &c, 1) != 1) _exit(99);
  }
  if (log_fd >= 0) syscall(SYS_write, log_fd, line, (size_t)n);
  errno = e;
  int writes = strcmp(op, "write") == 0 || strcmp(op, "create") == 0 || strcmp(op, "mkdir") == 0;
  if (full && writes) {
    errno = ENOSPC;
    return 'F';
  }
  if (me != at) return 0;
  switch (kind) {
    case 'F': errno = fail_errno; return 'F';
    case 'D':
      full = 1;
      if (strcmp(op, "write") == 0 && data) return 'P';
      if (writes) {
        errno = ENOSPC;
        return 'F';
      }
      return 0;
    case 'P': return data ? 'P' : 0;
    case 'K': _exit(98);
    case 'H':
      if (data) return 'H';
      _exit(98);
    default: return 0;
  }
}

static void remember(int fd, char const *path) {
  if (fd >= 0 && fd < 1024) snprintf(fd_path[fd], sizeof fd_path[fd], "%s", path);
}
static char const *known(int fd) {
  return ready && fd >= 0 && fd < 1024 && fd_path[fd][0] ? fd_path[fd] : NULL;
}

static int do_open(int dirfd, char const *path, int flags, mode_t mode) {
  char p[PATH_MAX];
  int inside = resolve(dirfd, path, p);
  if (inside) {
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
    if (event(w ? "create" : "open", p, 0, w ? EACCES : EIO) == 'F') return -1;
  }
  int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
  if (inside) remember(fd, p);
  return fd;
}
#define MODE \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { \
    va_list a; \
    va_start(a, flags); \
    mode = (mode_t)va_arg(a, int); \
    va_end(a); \
  }
int open(char const *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(char const *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, char const *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int openat64(int d, char const *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int creat(char const *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static FILE *do_fopen(char const *path, char const *m, FILE *(*real)(char const *, char const *)) {
  char p[PATH_MAX];
  int inside = resolve(AT_FDCWD, path, p);
  if (inside) {
    int w = strpbrk(m, "wa+") != NULL;
    if (event(w ? "create" : "open", p, 0, w ? EACCES : EIO) == 'F') return NULL;
  }
  FILE *f = real(path, m);
  if (inside && f) remember(fileno(f), p);
  return f;
}
FILE *fopen(char const *path, char const *m) { REAL(fopen); return do_fopen(path, m, real_fopen); }
FILE *fopen64(char const *path, char const *m) { REAL(fopen64); return do_fopen(path, m, real_fopen64); }

int fclose(FILE *f) {
  REAL(fclose);
  int fd = f ? fileno(f) : -1;
  char const *p = known(fd);
  if (!p) return real_fclose(f);
  char what = event("close", p, 0, EIO);
  fd_path[fd][0] = 0;
  int e = errno, r = real_fclose(f);
  if (what == 'F') {
    errno = e;
    return EOF;
  }
  return r;
}
int close(int fd) {
  char const *p = known(fd);
  if (!p) return (int)syscall(SYS_close, fd);
  char what = event("close", p, 0, EIO);
  fd_path[fd][0] = 0;
  int e = errno, r = (int)syscall(SYS_close, fd);
  if (what == 'F') {
    errno = e;
    return -1;
  }
  return r;
}
ssize_t write(int fd, void const *b, size_t n) {
  char const *p = known(fd);
  if (!p) return syscall(SYS_write, fd, b, n);
  char what = event("write", p, n > 1, ENOSPC);
  if (what == 'F') return -1;
  ssize_t r = syscall(SYS_write, fd, b, what ? n / 2 : n);
  if (what == 'H') _exit(98);
  return r;
}
ssize_t writev(int fd, struct iovec const *v, int n) {
  char const *p = known(fd);
  if (!p) return syscall(SYS_writev, fd, v, n);
  size_t total = 0;
  for (int i = 0; i < n; ++i) total += v[i].iov_len;
  char what = event("write", p, total > 1, ENOSPC);
  if (what == 'F') return -1;
  if (!what) return syscall(SYS_writev, fd, v, n);
  char *all = malloc(total + 1);
  size_t k = 0;
  for (int i = 0; i < n; ++i) {
    if (v[i].iov_len) memcpy(all + k, v[i].iov_base, v[i].iov_len);
    k += v[i].iov_len;
  }
  ssize_t r = syscall(SYS_write, fd, all, total / 2);
  free(all);
  if (what == 'H') _exit(98);
  return r;
}
ssize_t read(int fd, void *b, size_t n) {
  char const *p = known(fd);
  if (!p) return syscall(SYS_read, fd, b, n);
  char what = event("read", p, n > 1, EIO);
  if (what == 'F') return -1;
  if (what == 'H') _exit(98);
  return syscall(SYS_read, fd, b, what == 'P' ? n / 2 > 100 ? 100 : n / 2 : n);
}
static ssize_t do_sendfile(int o, int i, off_t *off, size_t n) {
  char const *p = known(o);
  if (!p) return syscall(SYS_sendfile, o, i, off, n);
  char what = event("write", p, n > 1, ENOSPC);
  if (what == 'F') return -1;
  ssize_t r = syscall(SYS_sendfile, o, i, off, what ? n / 2 : n);
  if (what == 'H') _exit(98);
  return r;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return do_sendfile(o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return do_sendfile(o, i, (off_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  char const *p = known(o);
  if (!p) return syscall(SYS_copy_file_range, i, io, o, oo, n, f);
  char what = event("write", p, n > 1, ENOSPC);
  if (what == 'F') return -1;
  ssize_t r = syscall(SYS_copy_file_range, i, io, o, oo, what ? n / 2 : n, f);
  if (what == 'H') _exit(98);
  return r;
}

#define PATH_OP(op, err, dir, path) \
  char p[PATH_MAX]; \
  if (resolve(dir, path, p) && event(op, p, 0, err) == 'F') return -1
int mkdir(char const *path, mode_t m) { PATH_OP("mkdir", EACCES, AT_FDCWD, path); return (int)syscall(SYS_mkdir, path, m); }
int mkdirat(int d, char const *path, mode_t m) { PATH_OP("mkdir", EACCES, d, path); return (int)syscall(SYS_mkdirat, d, path, m); }
int rmdir(char const *path) { PATH_OP("rmdir", EACCES, AT_FDCWD, path); return (int)syscall(SYS_rmdir, path); }
int unlink(char const *path) { PATH_OP("unlink", EACCES, AT_FDCWD, path); return (int)syscall(SYS_unlink, path); }
int unlinkat(int d, char const *path, int f) { PATH_OP("unlink", EACCES, d, path); return (int)syscall(SYS_unlinkat, d, path, f); }
int remove(char const *path) { PATH_OP("unlink", EACCES, AT_FDCWD, path); REAL(remove); return real_remove(path); }
int rename(char const *a, char const *b) { PATH_OP("rename", EACCES, AT_FDCWD, a); return (int)syscall(SYS_rename, a, b); }
int renameat(int da, char const *a, int db, char const *b) { PATH_OP("rename", EACCES, da, a); return (int)syscall(SYS_renameat, da, a, db, b); }
int link(char const *a, char const *b) { PATH_OP("link", EACCES, AT_FDCWD, a); return (int)syscall(SYS_link, a, b); }
int symlink(char const *a, char const *b) { PATH_OP("link", EACCES, AT_FDCWD, b); return (int)syscall(SYS_symlink, a, b); }
int truncate(char const *path, off_t n) { PATH_OP("truncate", EACCES, AT_FDCWD, path); return (int)syscall(SYS_truncate, path, n); }
int stat(char const *path, struct stat *s) { PATH_OP("stat", EACCES, AT_FDCWD, path); return (int)syscall(SYS_newfstatat, AT_FDCWD, path, s, 0); }
int stat64(char const *path, struct stat64 *s) { PATH_OP("stat", EACCES, AT_FDCWD, path); return (int)syscall(SYS_newfstatat, AT_FDCWD, path, s, 0); }
int lstat(char const *path, struct stat *s) { PATH_OP("stat", EACCES, AT_FDCWD, path); return (int)syscall(SYS_newfstatat, AT_FDCWD, path, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(char const *path, struct stat64 *s) { PATH_OP("stat", EACCES, AT_FDCWD, path); return (int)syscall(SYS_newfstatat, AT_FDCWD, path, s, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, char const *path, struct stat *s, int f) { PATH_OP("stat", EACCES, d, path); return (int)syscall(SYS_newfstatat, d, path, s, f); }
int fstatat64(int d, char const *path, struct stat64 *s, int f) { PATH_OP("stat", EACCES, d, path); return (int)syscall(SYS_newfstatat, d, path, s, f); }
int access(char const *path, int m) { PATH_OP("stat", EACCES, AT_FDCWD, path); return (int)syscall(SYS_access, path, m); }
int fchmod(int fd, mode_t m) {
  char const *p = known(fd);
  if (p && event("chmod", p, 0, EPERM) == 'F') return -1;
  return (int)syscall(SYS_fchmod, fd, m);
}
int fsync(int fd) {
  char const *p = known(fd);
  if (p && event("fsync", p, 0, EIO) == 'F') return -1;
  return (int)syscall(SYS_fsync, fd);
}
DIR *opendir(char const *path) {
  char p[PATH_MAX];
  REAL(opendir);
  if (resolve(AT_FDCWD, path, p) && event("opendir", p, 0, EACCES) == 'F') return NULL;
  return real_opendir(path);
}

int clock_gettime(clockid_t c, struct timespec *t) {
  if (clock_ms < 0 || c != CLOCK_REALTIME) return (int)syscall(SYS_clock_gettime, c, t);
  t->tv_sec = clock_ms / 1000 + slept_ns / 1000000000;
  long long ns = clock_ms % 1000 * 1000000 + slept_ns % 1000000000;
  t->tv_sec += ns / 1000000000;
  t->tv_nsec = ns % 1000000000;
  clock_ms += tick_ms; /* it moves on after every look at it */
  return 0;
}
int gettimeofday(struct timeval *t, void *z) {
  (void)z;
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *out) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (out) *out = s.tv_sec;
  return s.tv_sec;
}
int nanosleep(struct timespec const *t, struct timespec *rem) {
  if (clock_ms < 0) return (int)syscall(SYS_nanosleep, t, rem);
  slept_ns += t->tv_sec * 1000000000LL + t->tv_nsec;
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, struct timespec const *t, struct timespec *rem) {
  if (clock_ms < 0) return syscall(SYS_clock_nanosleep, c, flags, t, rem) ? errno : 0;
  if (!flags) slept_ns += t->tv_sec * 1000000000LL + t->tv_nsec;
  return 0;
}
