// Linked into the "crash" variant with -Wl,--wrap: a crash point before every call that changes the file system.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdio_ext.h>
#include <stdarg.h>
#include <string.h>
#include <dirent.h>
#include <sys/types.h>
#include <time.h>
#include "crash.h"

#include <errno.h>
extern char __executable_start;
// The place in the program is that of the caller and of its caller
#define INL static inline __attribute__((always_inline)) int
INL fault(int kind, int err) {
  long a = (char*) __builtin_return_address(0) - &__executable_start, b = (char*) __builtin_return_address(1) - &__executable_start;
  int e = crash_fault(kind, err, a << 32 | (b & 0xffffffff));
  if (e) errno = e;
  return e;
}
static int isreg(int fd) { struct stat st; return !fstat(fd, &st) && S_ISREG(st.st_mode); }
static int there(const char *p) { struct stat st; return !stat(p, &st); }

#define W(kind, err, ret, name, decl, call) ret __real_##name decl; ret __wrap_##name decl { crash_point(0); if (fault(kind, err)) return -1; return __real_##name call; }
int __real_rename(const char *a, const char *b);
int __wrap_rename(const char *a, const char *b) {
  crash_point(0);
  if (fault('m', EIO)) { if (crash_shm->cnt & 1) errno = EXDEV; return -1; }
  return __real_rename(a, b);
}
W('m', EIO, int, unlink, (const char *a), (a))
W('m', EIO, int, rmdir, (const char *a), (a))
W('m', EIO, int, futimens, (int fd, const struct timespec t[2]), (fd, t))
W('m', EIO, int, fchmod, (int fd, mode_t m), (fd, m))
W('m', ENOMEM, int, execve, (const char *p, char *const a[], char *const e[]), (p, a, e))
W('m', EIO, int, ftruncate, (int fd, off_t l), (fd, l))
int __real_mkdir(const char *a, mode_t m);
int __wrap_mkdir(const char *a, mode_t m) { crash_point(0); if (!there(a) && fault('s', ENOSPC)) return -1; return __real_mkdir(a, m); }
int __real_symlink(const char *a, const char *b);
int __wrap_symlink(const char *a, const char *b) { crash_point(0); if (fault('s', ENOSPC)) return -1; return __real_symlink(a, b); }
int __real_pipe(int *p);
int __wrap_pipe(int *p) { if (fault('m', EMFILE)) return -1; return __real_pipe(p); }

int __real_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...) {
  mode_t m = 0;
  if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  if ((fl & O_ACCMODE) != O_RDONLY) crash_point(0);
  if ((fl & O_ACCMODE) != O_RDONLY ? (fl & O_CREAT) && !there(p) && fault('s', ENOSPC) : there(p) && fault('r', EIO)) return -1;
  return __real_open(p, fl, m);
}
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (fd > 2 && crash_point(1)) { if (__real_write(fd, b, n / 2) < 0) {} crash_die(); }
  if (fd > 2 && n && isreg(fd) && fault('s', ENOSPC)) return -1;
  return __real_write(fd, b, n);
}
FILE* __real_fopen(const char *p, const char *m);
FILE* __wrap_fopen(const char *p, const char *m) {
  if (*m != 'r' || strchr(m, '+')) crash_point(0);
  if (*m != 'r' ? !there(p) && fault('s', ENOSPC) : there(p) && fault('r', EIO)) return 0;
  return __real_fopen(p, m);
}
static void half(FILE *f) {
  size_t n = __fpending(f);
  if (n) { if (__real_write(fileno(f), f->_IO_write_base, n / 2) < 0) {} }
}
// what is in the buffer gets lost, the first half of it is written for every other fault
INL lost(FILE *f) {
  if (!__fwritable(f) || !__fpending(f) || !isreg(fileno(f)) || !fault('s', ENOSPC)) return 0;
  if (crash_shm->cnt & 1) half(f);
  __fpurge(f);
  f->_flags |= 0x20; // as the error indicator of a failed write
  return 1;
}
int __real_fclose(FILE *f);
int __wrap_fclose(FILE *f) {
  if (__fwritable(f) && crash_point(1)) { half(f); crash_die(); }
  int l = lost(f), r = __real_fclose(f);
  if (l) { errno = ENOSPC; return EOF; }
  return r;
}
int __real_fflush(FILE *f);
int __wrap_fflush(FILE *f) {
  if (f && f != stdout && f != stderr && crash_point(1)) { half(f); crash_die(); }
  if (f && f != stdout && f != stderr && lost(f)) { errno = ENOSPC; return EOF; }
  return __real_fflush(f);
}
int __real_fseek(FILE *f, long o, int w);
int __wrap_fseek(FILE *f, long o, int w) {
  if (__fwritable(f) && __fpending(f) && crash_point(1)) { half(f); crash_die(); }
  if (lost(f)) { errno = ENOSPC; return -1; }
  return __real_fseek(f, o, w);
}
pid_t __real_fork(void);
pid_t __wrap_fork(void) { crash_point(0); if (fault('m', EAGAIN)) return -1; pid_t p = __real_fork(); return p; }
pid_t __real_waitpid(pid_t p, int *st, int o);
pid_t __wrap_waitpid(pid_t p, int *st, int o) { pid_t r = __real_waitpid(p, st, o); if (r > 0) crash_point(0); return r; }
pid_t __real_wait(int *st);
pid_t __wrap_wait(int *st) { pid_t r = __real_wait(st); if (r > 0) crash_point(0); return r; }

INL unread(FILE *f) {
  if (!isreg(fileno(f)) || !fault('R', EIO)) return 0;
  f->_flags |= 0x20;
  return 1;
}
ssize_t __real___getdelim(char **l, size_t *n, int d, FILE *f);
ssize_t __wrap___getdelim(char **l, size_t *n, int d, FILE *f) { return unread(f) ? -1 : __real___getdelim(l, n, d, f); }
ssize_t __real_getline(char **l, size_t *n, FILE *f);
ssize_t __wrap_getline(char **l, size_t *n, FILE *f) { return unread(f) ? -1 : __real_getline(l, n, f); }
char* __real_fgets(char *b, int n, FILE *f);
char* __wrap_fgets(char *b, int n, FILE *f) { return unread(f) ? 0 : __real_fgets(b, n, f); }
size_t __real_fread(void *b, size_t s, size_t n, FILE *f);
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { return unread(f) ? 0 : __real_fread(b, s, n, f); }
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n) { return isreg(fd) && fault('R', EIO) ? -1 : __real_read(fd, b, n); }
DIR* __real_opendir(const char *p);
DIR* __wrap_opendir(const char *p) { return there(p) && fault('R', EIO) ? 0 : __real_opendir(p); }
struct dirent* __real_readdir(DIR *d);
struct dirent* __wrap_readdir(DIR *d) { return fault('R', EIO) ? 0 : __real_readdir(d); }
