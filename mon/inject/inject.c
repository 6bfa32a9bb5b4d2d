// Preloaded into the real command: a fault injector and an observer on the C
// library calls through which it meets the outside world. What it does is told
// by MON_INJECT, a list of words separated by semicolons:
//   short=SEED        reads and writes transfer fewer bytes than asked for
//   wfail=K:ERRNO:N   N writes from the K-th on (not to fd 2) fail with ERRNO
//   rfail=K:ERRNO     the K-th read and all later ones fail with ERRNO
//   env=SEED          every environment variable that is not set has a value
//   tty=1             every file descriptor claims to be a terminal
//   watch=PATH        files opened for reading (R) or writing (W), changes of
//                     the tree (D), sockets and look-ups (N) and processes (X)
//                     are noted in PATH: letter, path, zero byte
//   log=PATH          one letter per injected event is appended to PATH
#define _GNU_SOURCE
#include <errno.h>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <spawn.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

extern char **environ;
static unsigned long short_seed, env_seed;
static long w_at, w_errno, w_count, r_at, r_errno, writes, reads;
static int tty, watch_fd = -1, log_fd = -1, ready;

static void note(char c) {
  if (log_fd >= 0) syscall(SYS_write, log_fd, &c, 1);
}

static const char *value_of(const char *name) {
  size_t n = strlen(name);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return 0;
}

static int log_to(const char *name) {
  char path[4096];
  size_t n = strcspn(name, ";");
  if (n >= sizeof path) return -1;
  memcpy(path, name, n);
  path[n] = 0;
  // out of the way of the numbers the command uses
  int fd = syscall(SYS_openat, AT_FDCWD, path, O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (fd < 0) return -1;
  int high = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 200);
  syscall(SYS_close, fd);
  return high;
}

__attribute__((constructor)) static void start(void) {
  const char *c = value_of("MON_INJECT");
  if (!c) return;
  while (*c) {
    if (!strncmp(c, "short=", 6)) short_seed = strtoul(c + 6, 0, 10) | 1;
    if (!strncmp(c, "env=", 4)) env_seed = strtoul(c + 4, 0, 10) | 1;
    if (!strncmp(c, "tty=", 4)) tty = c[4] == '1';
    if (!strncmp(c, "wfail=", 6)) {
      char *p;
      w_at = strtol(c + 6, &p, 10);
      w_errno = strtol(p + 1, &p, 10);
      w_count = strtol(p + 1, &p, 10);
    }
    if (!strncmp(c, "rfail=", 6)) {
      char *p;
      r_at = strtol(c + 6, &p, 10);
      r_errno = strtol(p + 1, &p, 10);
    }
    if (!strncmp(c, "log=", 4)) log_fd = log_to(c + 4);
    if (!strncmp(c, "watch=", 6)) watch_fd = log_to(c + 6);
    c += strcspn(c, ";");
    if (*c) c++;
  }
  ready = 1;
}

static unsigned long next(void) {
  short_seed ^= short_seed << 13;
  short_seed ^= short_seed >> 7;
  short_seed ^= short_seed << 17;
  return short_seed;
}

static size_t fewer(size_t n) {
  if (!short_seed || n < 2) return n;
  unsigned long r = next();
  if (r % 4 == 0) return n;
  note('s');
  if (r % 4 == 1) return 1;
  return 1 + (r >> 8) % (n - 1);
}

// Nonzero: this write is to fail.
static int write_fault(void) {
  long k = ++writes;
  if (!w_at || k < w_at || k >= w_at + w_count) return 0;
  note('w');
  errno = w_errno;
  return 1;
}

ssize_t write(int fd, const void *b, size_t n) {
  if (!ready || fd == 2) return syscall(SYS_write, fd, b, n);
  if (write_fault()) return -1;
  return syscall(SYS_write, fd, b, fewer(n));
}

ssize_t writev(int fd, const struct iovec *v, int n) {
  if (!ready || fd == 2) return syscall(SYS_writev, fd, v, n);
  if (write_fault()) return -1;
  if (short_seed && n > 0) {
    for (int i = 0; i < n; i++)
      if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, fewer(v[i].iov_len));
  }
  return syscall(SYS_writev, fd, v, n);
}

ssize_t read(int fd, void *b, size_t n) {
  if (!ready) return syscall(SYS_read, fd, b, n);
  if (r_at && ++reads >= r_at) {
    note('r');
    errno = r_errno;
    return -1;
  }
  return syscall(SYS_read, fd, b, fewer(n));
}

char *getenv(const char *name) {
  static const char *const some[] = {"1", "0", "true", "false", "", "safe", "off", "4", "|", "tab", "strict", "/nonexistent", "-"};
  const char *v = value_of(name);
  if (v || !ready || !env_seed) return (char *)v;
  unsigned long h = env_seed * 0x9e3779b97f4a7c15ul;
  for (const char *p = name; *p; p++) h = (h ^ (unsigned char)*p) * 0x100000001b3ul;
  h ^= h >> 29;
  note('e');
  return (char *)some[h % (sizeof some / sizeof *some)];
}

int isatty(int fd) {
  if (ready && tty) {
    note('t');
    return 1;
  }
  char t[256];
  return syscall(SYS_ioctl, fd, 0x5401 /* TCGETS */, t) == 0;
}

// ---- watching: the call goes through, a record tells that it happened

static void saw(char kind, const char *path) {
  if (!ready || watch_fd < 0) return;
  int e = errno;
  char rec[4200] = {kind};
  size_t n = path ? strnlen(path, 4096) : 0;
  if (n) memcpy(rec + 1, path, n);
  rec[n + 1] = 0;
  syscall(SYS_write, watch_fd, rec, n + 2);
  errno = e;
}

static int opened(int dir, const char *path, int flags, mode_t mode) {
  saw((flags & O_ACCMODE) != O_RDONLY || flags & (O_CREAT | O_TRUNC) ? 'W' : 'R', path);
  return syscall(SYS_openat, dir, path, flags, mode);
}

#define MODE                                                  \
  mode_t mode = 0;                                            \
  if (flags & O_CREAT || (flags & O_TMPFILE) == O_TMPFILE) {  \
    va_list ap;                                               \
    va_start(ap, flags);                                      \
    mode = va_arg(ap, mode_t);                                \
    va_end(ap);                                               \
  }
int open(const char *path, int flags, ...) { MODE return opened(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return opened(AT_FDCWD, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE return opened(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE return opened(dir, path, flags, mode); }
int creat(const char *path, mode_t mode) { return opened(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return opened(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, mode); }

int unlink(const char *p) { saw('D', p); return syscall(SYS_unlink, p); }
int unlinkat(int d, const char *p, int f) { saw('D', p); return syscall(SYS_unlinkat, d, p, f); }
int rmdir(const char *p) { saw('D', p); return syscall(SYS_rmdir, p); }
int rename(const char *a, const char *b) { saw('D', a); return syscall(SYS_rename, a, b); }
int renameat(int d, const char *a, int e, const char *b) { saw('D', a); return syscall(SYS_renameat, d, a, e, b); }
int link(const char *a, const char *b) { saw('D', b); return syscall(SYS_link, a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { saw('D', b); return syscall(SYS_linkat, d, a, e, b, f); }
int symlink(const char *a, const char *b) { saw('D', b); return syscall(SYS_symlink, a, b); }
int mkdir(const char *p, mode_t m) { saw('D', p); return syscall(SYS_mkdir, p, m); }
int chmod(const char *p, mode_t m) { saw('D', p); return syscall(SYS_chmod, p, m); }
int truncate(const char *p, off_t n) { saw('D', p); return syscall(SYS_truncate, p, n); }
int truncate64(const char *p, off64_t n) { saw('D', p); return syscall(SYS_truncate, p, n); }

int socket(int a, int b, int c) { saw('N', "socket"); return syscall(SYS_socket, a, b, c); }

// Starting a process or looking up a host cannot be made with one system call:
// the next definition of the symbol does it.
#define NEXT(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
pid_t fork(void) { saw('X', "fork"); return NEXT(fork)(); }
int execve(const char *p, char *const a[], char *const e[]) { saw('X', p); return syscall(SYS_execve, p, a, e); }
int execvp(const char *p, char *const a[]) { saw('X', p); return NEXT(execvp)(p, a); }
int posix_spawn(pid_t *r, const char *p, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *t, char *const a[], char *const e[]) {
  saw('X', p);
  return NEXT(posix_spawn)(r, p, f, t, a, e);
}
int posix_spawnp(pid_t *r, const char *p, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *t, char *const a[], char *const e[]) {
  saw('X', p);
  return NEXT(posix_spawnp)(r, p, f, t, a, e);
}
DIR *opendir(const char *p) { saw('R', p); return NEXT(opendir)(p); }
struct addrinfo;
int getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r) {
  saw('N', n);
  return ((int (*)(const char *, const char *, const struct addrinfo *, struct addrinfo **))dlsym(RTLD_NEXT, "getaddrinfo"))(n, s, h, r);
}
