// Counts the calls which change the files under PT_SHIM_DIR, ends the process
// or fails a call at a chosen one, and keeps which part of each file was synced.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

enum { BEFORE = 0, AFTER = 1, PARTIAL = 2, EIO_ONCE = 3, ENOSPC_ONCE = 4, EIO_ALL = 5, ENOSPC_ALL = 6 };

static char dir[512];
static size_t dirlen;
static char report[512];
static long at = -1;
static int mode;
static long events;
static int fired;
static int ready;
static pthread_mutex_t mu;

struct ent { dev_t dev; ino_t ino; off_t synced; };
static struct ent tab[4096];
static int ntab;

__attribute__((constructor)) static void init(void) {
  pthread_mutexattr_t a;
  pthread_mutexattr_init(&a);
  pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE);
  pthread_mutex_init(&mu, &a);
  const char *d = getenv("PT_SHIM_DIR");
  const char *r = getenv("PT_SHIM_REPORT");
  if (!d || !r) return;
  strncpy(dir, d, sizeof dir - 1);
  dirlen = strlen(dir);
  strncpy(report, r, sizeof report - 1);
  if (getenv("PT_SHIM_AT")) at = atol(getenv("PT_SHIM_AT"));
  if (getenv("PT_SHIM_MODE")) mode = atoi(getenv("PT_SHIM_MODE"));
  ready = 1;
}

long pt_shim_events(void) { return events; }
int pt_shim_fired(void) { return fired; }

static int under(const char *p) {
  if (strncmp(p, dir, dirlen) != 0 || (p[dirlen] != '/' && p[dirlen] != 0)) return 0;
  const char *base = strrchr(p, '/');
  return !(base && strncmp(base, "/LOG", 4) == 0);
}
static int fd_under(int fd) {
  if (!ready) return 0;
  char link[64], p[1024];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = syscall(SYS_readlink, link, p, sizeof p - 1);
  if (n <= 0) return 0;
  p[n] = 0;
  return under(p);
}
static struct ent *entry(int fd, struct stat *st) {
  if (fstat(fd, st) != 0 || !S_ISREG(st->st_mode)) return NULL;
  for (int i = 0; i < ntab; i++)
    if (tab[i].dev == st->st_dev && tab[i].ino == st->st_ino) return &tab[i];
  if (ntab == 4096) return NULL;
  tab[ntab].dev = st->st_dev;
  tab[ntab].ino = st->st_ino;
  tab[ntab].synced = 0;
  return &tab[ntab++];
}
static void dump(const char *what) {
  int fd = syscall(SYS_openat, AT_FDCWD, report, O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0) return;
  char line[160];
  int n = snprintf(line, sizeof line, "# %s event %ld\n", what, events);
  syscall(SYS_write, fd, line, n);
  for (int i = 0; i < ntab; i++) {
    n = snprintf(line, sizeof line, "%lu %lu %ld\n", (unsigned long)tab[i].dev, (unsigned long)tab[i].ino, (long)tab[i].synced);
    syscall(SYS_write, fd, line, n);
  }
  syscall(SYS_close, fd);
}
static void die(const char *what) {
  fired = 1;
  dump(what);
  syscall(SYS_exit_group, 77);
}
// The end of a process for the harness: the report, then no more calls.
void pt_shim_end(int code) {
  pthread_mutex_lock(&mu);
  dump("end");
  syscall(SYS_exit_group, code);
}
// 0: do it; 1: die afterwards; 2: do half of it and die; else fail with this errno + 100
static int event(const char *what) {
  long n = events++;
  if (at < 0) return 0;
  if (mode >= EIO_ALL ? n < at : n != at) return 0;
  switch (mode) {
    case BEFORE: die(what); return 0;
    case AFTER: return 1;
    case PARTIAL: return 2;
    case EIO_ONCE: case EIO_ALL: fired = 1; return 100 + EIO;
    default: fired = 1; return 100 + ENOSPC;
  }
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)
#define LOCK pthread_mutex_lock(&mu)
#define UNLOCK pthread_mutex_unlock(&mu)
#define FAIL(e) do { UNLOCK; errno = (e) - 100; return -1; } while (0)

ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, "write", int, const void *, size_t);
  if (!fd_under(fd)) return real(fd, b, n);
  LOCK;
  struct stat st;
  entry(fd, &st);
  int e = event("write");
  if (e >= 100) FAIL(e);
  if (e == 2) { real(fd, b, n / 2); die("half a write"); }
  ssize_t r = real(fd, b, n);
  if (e) die("after write");
  UNLOCK;
  return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(ssize_t, "pwrite", int, const void *, size_t, off_t);
  if (!fd_under(fd)) return real(fd, b, n, o);
  LOCK;
  struct stat st;
  entry(fd, &st);
  int e = event("pwrite");
  if (e >= 100) FAIL(e);
  if (e == 2) { real(fd, b, n / 2, o); die("half a pwrite"); }
  ssize_t r = real(fd, b, n, o);
  if (e) die("after pwrite");
  UNLOCK;
  return r;
}
static int do_sync(int fd, int (*real)(int), const char *what) {
  if (!fd_under(fd)) return real(fd);
  LOCK;
  int e = event(what);
  if (e >= 100) FAIL(e);
  if (e == 2) die(what);
  int r = real(fd);
  struct stat st;
  struct ent *t = entry(fd, &st);
  if (r == 0 && t) t->synced = st.st_size;
  if (e) die(what);
  UNLOCK;
  return r;
}
int fsync(int fd) {
  REAL(int, "fsync", int);
  return do_sync(fd, real, "fsync");
}
int fdatasync(int fd) {
  REAL(int, "fdatasync", int);
  return do_sync(fd, real, "fdatasync");
}
int ftruncate(int fd, off_t len) {
  REAL(int, "ftruncate", int, off_t);
  if (!fd_under(fd)) return real(fd, len);
  LOCK;
  struct stat st;
  struct ent *t = entry(fd, &st);
  int e = event("ftruncate");
  if (e >= 100) FAIL(e);
  if (e == 2) die("ftruncate");
  int r = real(fd, len);
  if (t && t->synced > len) t->synced = len;
  if (e) die("after ftruncate");
  UNLOCK;
  return r;
}
static int open_any(const char *p, int flags, mode_t m) {
  REAL(int, "open", const char *, int, ...);
  if (!ready || !under(p) || !(flags & (O_WRONLY | O_RDWR))) return real(p, flags, m);
  LOCK;
  int e = (flags & O_CREAT) ? event("create") : 0;
  if (e >= 100) FAIL(e);
  if (e == 2) die("create");
  struct stat st;
  off_t was = (stat(p, &st) == 0 && !(flags & O_TRUNC)) ? st.st_size : -1;
  int fd = real(p, flags, m);
  if (fd >= 0) {
    int known = 0;
    if (fstat(fd, &st) == 0)
      for (int i = 0; i < ntab; i++) known |= tab[i].dev == st.st_dev && tab[i].ino == st.st_ino;
    struct ent *t = entry(fd, &st);
    // what was there before this process is on the disk; an inode may be used again
    if (t && was < 0) t->synced = 0;
    else if (t && !known) t->synced = was;
  }
  if (e) die("after create");
  UNLOCK;
  return fd;
}
int open(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  return open_any(p, flags, m);
}
int open64(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  return open_any(p, flags, m);
}
int rename(const char *a, const char *b) {
  REAL(int, "rename", const char *, const char *);
  if (!ready || !under(a)) return real(a, b);
  LOCK;
  int e = event("rename");
  if (e >= 100) FAIL(e);
  if (e == 2) die("rename");
  int r = real(a, b);
  if (e) die("after rename");
  UNLOCK;
  return r;
}
int unlink(const char *p) {
  REAL(int, "unlink", const char *);
  if (!ready || !under(p)) return real(p);
  LOCK;
  int e = event("unlink");
  if (e >= 100) FAIL(e);
  if (e == 2) die("unlink");
  int r = real(p);
  if (e) die("after unlink");
  UNLOCK;
  return r;
}
