// LD_PRELOAD stand-in for the calls by which the code under test touches files and mappings.
// It can (a) make the n-th call fail, (b) end the process before or after the n-th call, or stop it there for our own tracer,
// (c) keep a shadow copy of the files that holds only what has been synchronised so far, and
// (d) stretch every call by a random delay. The harness drives it through the shim_* functions.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static atomic_long fail_at = -1, kill_at = -1, counter = 0;
static atomic_int fail_errno = 0, fired = 0, kill_mode = 0, counting = 0, fail_kinds = 0, last_kind = 0;
static atomic_uint delay_max = 0;
static atomic_ulong rng = 88172645463325252ull;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static char src_dir[PATH_MAX], dst_dir[PATH_MAX];
static int shadowing = 0;
#define MAXMAP 65536
static struct { char *a; size_t l; off_t off; char name[64]; int used; } maps[MAXMAP];
static int nmaps = 0;

#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

// kinds: 1 mmap, 2 munmap, 3 ftruncate, 4 msync, 5 mprotect, 6 fsync, 7 open-create, 8 mkdir
void shim_fail(long n, int err, int kinds) { counter = 0; fired = 0; fail_errno = err; fail_kinds = kinds; fail_at = n; counting = 1; }
int shim_fired(void) { return fired; }
int shim_fired_kind(void) { return last_kind; }
long shim_count(void) { return counter; }
void shim_kill(long n, int mode) { counter = 0; kill_mode = mode; kill_at = n; fail_kinds = 0xffff; counting = 1; }
void shim_off(void) { counting = 0; fail_at = -1; kill_at = -1; }
void shim_delay(unsigned max_us, unsigned long seed) { rng = seed * 2654435761ul + 88172645463325252ull; delay_max = max_us; }

static unsigned long next_rand(void) {
  unsigned long x = atomic_fetch_add(&rng, 0x9E3779B97F4A7C15ul);
  x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ul; x ^= x >> 27; x *= 0x94D049BB133111EBul; x ^= x >> 31;
  return x;
}
static void pause_a_bit(void) {
  unsigned m = delay_max;
  if (!m) return;
  unsigned long r = next_rand();
  if (r & 1) usleep((r >> 8) % m + 1);
}
// returns 1 if the call has to fail
static int enter(int kind) {
  pause_a_bit();
  if (!counting || !(fail_kinds & (1 << kind))) return 0;
  long n = atomic_fetch_add(&counter, 1) + 1;
  if (n == kill_at && kill_mode == 0) _exit(137);
  // the tracer (our own parent) steps from the end of the call kill_at to the beginning of the next
  if (n == kill_at + 1 && kill_mode == 2) raise(SIGTRAP);
  if (n == fail_at) { fired = 1; last_kind = kind; errno = fail_errno; return 1; }
  return 0;
}
static void leave(int kind) {
  if (counting && (fail_kinds & (1 << kind)) && counter == kill_at && kill_mode == 1) _exit(137);
  if (counting && (fail_kinds & (1 << kind)) && counter == kill_at && kill_mode == 2) raise(SIGTRAP);
  pause_a_bit();
}

static int rel_name(int fd, char *out, size_t n) {
  char link[64], path[PATH_MAX];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t k = readlink(link, path, sizeof path - 1);
  if (k <= 0) return 0;
  path[k] = 0;
  size_t d = strlen(src_dir);
  if (strncmp(path, src_dir, d) || path[d] != '/') return 0;
  if (strlen(path + d + 1) >= n) return 0;
  strcpy(out, path + d + 1);
  for (char *c = out; *c; c++) if (*c == '/') *c = '_';
  return 1;
}
static int shadow_fd(const char *name) {
  char p[PATH_MAX * 2];
  snprintf(p, sizeof p, "%s/%s", dst_dir, name);
  return open(p, O_RDWR | O_CREAT, 0644);
}
static int fd_of(const char *name) {
  char p[PATH_MAX * 2];
  snprintf(p, sizeof p, "%s/%s", src_dir, name);
  return open(p, O_RDONLY);
}
static void put_range(const char *name, const char *from, size_t len, off_t off) {
  int s = shadow_fd(name);
  if (s < 0) return;
  struct stat st;
  int f = fd_of(name);
  off_t size = (f >= 0 && !fstat(f, &st)) ? st.st_size : off + (off_t)len;
  if (f >= 0) close(f);
  // never touch bytes of the mapping beyond the end of the file
  if (off < size) {
    if (off + (off_t)len > size) len = size - off;
    size_t done = 0;
    while (done < len) {
      ssize_t w = pwrite(s, from + done, len - done, off + done);
      if (w <= 0) break;
      done += w;
    }
  }
  REAL(ftruncate64);
  if (real) (void)!real(s, size);
  close(s);
}
// from now on the files directly under src have synchronised copies under dst
void shim_shadow(const char *src, const char *dst) {
  pthread_mutex_lock(&mu);
  strncpy(src_dir, src, PATH_MAX - 1); strncpy(dst_dir, dst, PATH_MAX - 1); shadowing = 1; nmaps = 0;
  pthread_mutex_unlock(&mu);
}
void shim_shadow_off(void) { shadowing = 0; }

static void note_map(void *a, size_t l, int prot, int flags, int fd, off_t off) {
  if (!shadowing || a == MAP_FAILED || fd < 0 || !(flags & MAP_SHARED)) return;
  (void)prot;
  char name[64];
  if (!rel_name(fd, name, sizeof name)) return;
  pthread_mutex_lock(&mu);
  int i;
  for (i = 0; i < nmaps; i++) if (!maps[i].used) break;
  if (i < MAXMAP) { if (i == nmaps) nmaps++; maps[i].a = a; maps[i].l = l; maps[i].off = off; strcpy(maps[i].name, name); maps[i].used = 1; }
  pthread_mutex_unlock(&mu);
}

void *mmap(void *a, size_t l, int prot, int flags, int fd, off_t off) {
  REAL(mmap);
  if (enter(1)) return MAP_FAILED;
  void *r = real(a, l, prot, flags, fd, off);
  note_map(r, l, prot, flags, fd, off);
  leave(1);
  return r;
}
void *mmap64(void *a, size_t l, int prot, int flags, int fd, off64_t off) {
  REAL(mmap64);
  if (enter(1)) return MAP_FAILED;
  void *r = real(a, l, prot, flags, fd, off);
  note_map(r, l, prot, flags, fd, off);
  leave(1);
  return r;
}
int munmap(void *a, size_t l) {
  REAL(munmap);
  (void)enter(2);
  if (shadowing) {
    pthread_mutex_lock(&mu);
    for (int i = 0; i < nmaps; i++) if (maps[i].used && maps[i].a == a) maps[i].used = 0;
    pthread_mutex_unlock(&mu);
  }
  int r = real(a, l);
  leave(2);
  return r;
}
int ftruncate(int fd, off_t len) {
  REAL(ftruncate);
  if (enter(3)) return -1;
  int r = real(fd, len);
  leave(3);
  return r;
}
int ftruncate64(int fd, off64_t len) {
  REAL(ftruncate64);
  if (enter(3)) return -1;
  int r = real(fd, len);
  leave(3);
  return r;
}
int msync(void *a, size_t l, int flags) {
  REAL(msync);
  if (enter(4)) return -1;
  int r = real(a, l, flags);
  if (shadowing && r == 0 && (flags & MS_SYNC)) {
    pthread_mutex_lock(&mu);
    for (int i = 0; i < nmaps; i++) {
      if (!maps[i].used) continue;
      char *m0 = maps[i].a, *m1 = m0 + maps[i].l, *s0 = a, *s1 = s0 + l;
      char *b0 = s0 > m0 ? s0 : m0, *b1 = s1 < m1 ? s1 : m1;
      if (b0 < b1) put_range(maps[i].name, b0, b1 - b0, maps[i].off + (b0 - m0));
    }
    pthread_mutex_unlock(&mu);
  }
  leave(4);
  return r;
}
int mprotect(void *a, size_t l, int prot) {
  REAL(mprotect);
  if (enter(5)) return -1;
  int r = real(a, l, prot);
  leave(5);
  return r;
}
static void sync_whole(int fd) {
  char name[64];
  if (!shadowing || !rel_name(fd, name, sizeof name)) return;
  int f = fd_of(name), s = shadow_fd(name);
  if (f >= 0 && s >= 0) {
    struct stat st;
    static char buf[1 << 16];
    pthread_mutex_lock(&mu);
    off_t off = 0; ssize_t k;
    while ((k = pread(f, buf, sizeof buf, off)) > 0) { (void)!pwrite(s, buf, k, off); off += k; }
    REAL(ftruncate64);
    if (!fstat(f, &st)) (void)!real(s, st.st_size);
    pthread_mutex_unlock(&mu);
  }
  if (f >= 0) close(f);
  if (s >= 0) close(s);
}
int fsync(int fd) {
  REAL(fsync);
  if (enter(6)) return -1;
  int r = real(fd);
  if (!r) sync_whole(fd);
  leave(6);
  return r;
}
int fdatasync(int fd) {
  REAL(fdatasync);
  if (enter(6)) return -1;
  int r = real(fd);
  if (!r) sync_whole(fd);
  leave(6);
  return r;
}
int mkdir(const char *p, mode_t m) {
  REAL(mkdir);
  if (enter(8)) return -1;
  int r = real(p, m);
  leave(8);
  return r;
}
// threads that wait for each other: stretch the moments right after a lock was released or obtained
#include <sys/syscall.h>
long syscall(long n, ...) {
  static long (*real)(long, ...);
  if (!real) real = dlsym(RTLD_NEXT, "syscall");
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  long r = real(n, a, b, c, d, e, f);
  if (n == SYS_futex && delay_max) { int keep = errno; pause_a_bit(); errno = keep; }
  return r;
}
