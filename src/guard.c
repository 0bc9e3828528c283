// Linked into the "guard" variant with -Wl,--wrap: records the resolved path of every call that changes the file
// system and ends the process before one outside $PT_GUARD, so that an escaped call can not harm anything.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <limits.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <time.h>
#include <sys/syscall.h>

static void rec(const char *op, const char *p) {
  const char *l = getenv("PT_GUARD_LOG"); char b[PATH_MAX + 64];
  if (!l) return;
  int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_APPEND | O_CREAT, 0666);
  int n = snprintf(b, sizeof b, "%s\t%s", op, p); b[n++] = 0;
  if (fd >= 0) { if (syscall(SYS_write, fd, b, n) < 0) {} close(fd); }
}

// follow: of the file itself, otherwise of its directory entry
static void check(const char *op, int dfd, const char *p, int follow) {
  int e = errno; char b[PATH_MAX * 2], r[PATH_MAX * 2], fd[64], dn[PATH_MAX];
  if (!p || !*p) return;
  if (*p != '/' && dfd != AT_FDCWD) {
    snprintf(fd, sizeof fd, "/proc/self/fd/%d", dfd);
    ssize_t n = readlink(fd, dn, sizeof dn - 1); if (n < 0) n = 0; dn[n] = 0;
    snprintf(b, sizeof b, "%s/%s", dn, p);
  } else snprintf(b, sizeof b, "%s", p);
  struct stat st;
  if (follow && !lstat(b, &st) && S_ISLNK(st.st_mode)) {
    if (!realpath(b, r)) { // dangling: where it points to
      char t[PATH_MAX]; ssize_t n = readlink(b, t, sizeof t - 1);
      t[n < 0 ? 0 : n] = 0;
      if (*t == '/') snprintf(r, sizeof r, "%s", t);
      else {
        char d[PATH_MAX * 2]; snprintf(d, sizeof d, "%s", b); char *s = strrchr(d, '/'); if (s) *s = 0; else strcpy(d, ".");
        char q[PATH_MAX]; if (!realpath(d, q)) strcpy(q, "?");
        snprintf(r, sizeof r, "%s/%s", q, t);
      }
    }
  } else {
    size_t n = strlen(b); while (n > 1 && b[n - 1] == '/') b[--n] = 0;
    char *s = strrchr(b, '/'); const char *nm = s ? s + 1 : b; char d[PATH_MAX * 2], q[PATH_MAX];
    if (!s) strcpy(d, "."); else if (s == b) strcpy(d, "/"); else { snprintf(d, sizeof d, "%.*s", (int) (s - b), b); }
    if (!strcmp(nm, "..") || !strcmp(nm, ".")) { if (!realpath(b, r)) snprintf(r, sizeof r, "%s", b); }
    else if (!realpath(d, q)) { snprintf(r, sizeof r, "-%s", b); rec(op, r); errno = e; return; } // the call fails: no such directory
    else snprintf(r, sizeof r, "%s/%s", strcmp(q, "/") ? q : "", nm);
  }
  const char *g = getenv("PT_GUARD");
  if (!strcmp(r, "/dev/null")) { errno = e; return; }
  rec(op, r);
  size_t gl = g ? strlen(g) : 0;
  if (!g || strncmp(r, g, gl) || (r[gl] != '/' && r[gl])) {
    rec("ESCAPE", r);
    fprintf(stderr, "guard: %s of %s\n", op, r);
    _exit(77);
  }
  errno = e;
}
static void checkfd(const char *op, int f) {
  char fd[64], dn[PATH_MAX]; snprintf(fd, sizeof fd, "/proc/self/fd/%d", f);
  ssize_t n = readlink(fd, dn, sizeof dn - 1); if (n < 0) return; dn[n] = 0;
  if (*dn == '/') check(op, AT_FDCWD, dn, 0);
}

#define W(ret, name, decl, call, chk) ret __real_##name decl; ret __wrap_##name decl { chk; return __real_##name call; }
W(int, unlink, (const char *a), (a), check("unlink", AT_FDCWD, a, 0))
W(int, unlinkat, (int d, const char *a, int f), (d, a, f), check("unlink", d, a, 0))
W(int, rmdir, (const char *a), (a), check("rmdir", AT_FDCWD, a, 0))
W(int, remove, (const char *a), (a), check("remove", AT_FDCWD, a, 0))
W(int, rename, (const char *a, const char *b), (a, b), (check("rename", AT_FDCWD, a, 0), check("rename", AT_FDCWD, b, 0)))
W(int, renameat, (int x, const char *a, int y, const char *b), (x, a, y, b), (check("rename", x, a, 0), check("rename", y, b, 0)))
W(int, mkdir, (const char *a, mode_t m), (a, m), struct stat s_; if (lstat(a, &s_)) check("mkdir", AT_FDCWD, a, 0))
W(int, mkdirat, (int d, const char *a, mode_t m), (d, a, m), struct stat s_; if (fstatat(d, a, &s_, AT_SYMLINK_NOFOLLOW)) check("mkdir", d, a, 0))
W(int, symlink, (const char *a, const char *b), (a, b), check("symlink", AT_FDCWD, b, 0))
W(int, symlinkat, (const char *a, int d, const char *b), (a, d, b), check("symlink", d, b, 0))
W(int, link, (const char *a, const char *b), (a, b), check("link", AT_FDCWD, b, 0))
W(int, chmod, (const char *a, mode_t m), (a, m), check("chmod", AT_FDCWD, a, 1))
W(int, fchmodat, (int d, const char *a, mode_t m, int f), (d, a, m, f), check("chmod", d, a, !(f & AT_SYMLINK_NOFOLLOW)))
W(int, fchmod, (int f, mode_t m), (f, m), checkfd("chmod", f))
W(int, chown, (const char *a, uid_t u, gid_t g), (a, u, g), check("chown", AT_FDCWD, a, 1))
W(int, truncate, (const char *a, off_t l), (a, l), check("truncate", AT_FDCWD, a, 1))
W(int, ftruncate, (int f, off_t l), (f, l), checkfd("truncate", f))
W(int, futimens, (int f, const struct timespec t[2]), (f, t), checkfd("utime", f))
W(int, utimensat, (int d, const char *a, const struct timespec t[2], int f), (d, a, t, f), check("utime", d, a, !(f & AT_SYMLINK_NOFOLLOW)))
W(int, mkfifo, (const char *a, mode_t m), (a, m), check("mkfifo", AT_FDCWD, a, 0))
W(int, creat, (const char *a, mode_t m), (a, m), check("open", AT_FDCWD, a, 1))
W(FILE*, fopen, (const char *a, const char *m), (a, m), if (*m != 'r' || strchr(m, '+')) check("open", AT_FDCWD, a, 1))
W(FILE*, freopen, (const char *a, const char *m, FILE *f), (a, m, f), if (a && (*m != 'r' || strchr(m, '+'))) check("open", AT_FDCWD, a, 1))
#define MODE(fl) mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int __real_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...) {
  MODE(fl)
  if ((fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT)) check("open", AT_FDCWD, p, !(fl & O_NOFOLLOW));
  return __real_open(p, fl, m);
}
int __real_openat(int d, const char *p, int fl, ...);
int __wrap_openat(int d, const char *p, int fl, ...) {
  MODE(fl)
  if ((fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT)) check("open", d, p, !(fl & O_NOFOLLOW));
  return __real_openat(d, p, fl, m);
}
int __real_mkstemp(char *t);
int __wrap_mkstemp(char *t) {
  int f = __real_mkstemp(t);
  if (f >= 0) checkfd("open", f);
  return f;
}
