// Linked into the "root" variants with -Wl,--wrap: lookups of system library directories go to the same paths below
// $PT_ROOT, so a check can fill /usr/local/lib and the like without touching them.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>

static const char *map(const char *p, char *b) {
  const char *r = getenv("PT_ROOT");
  if (!r || !p) return p;
  if (strncmp(p, "/usr/local/", 11) && strncmp(p, "/usr/lib", 8) && strncmp(p, "/lib", 4)) return p;
  if (snprintf(b, 2 * PATH_MAX, "%s%s", r, p) >= 2 * PATH_MAX) return p;
  return b;
}
#define M(p) char b_[2 * PATH_MAX]; p = map(p, b_);
int __real_stat(const char *p, struct stat *st); int __wrap_stat(const char *p, struct stat *st) { M(p) return __real_stat(p, st); }
int __real_lstat(const char *p, struct stat *st); int __wrap_lstat(const char *p, struct stat *st) { M(p) return __real_lstat(p, st); }
int __real_fstatat(int d, const char *p, struct stat *st, int f); int __wrap_fstatat(int d, const char *p, struct stat *st, int f) { M(p) return __real_fstatat(d, p, st, f); }
int __real_access(const char *p, int m); int __wrap_access(const char *p, int m) { M(p) return __real_access(p, m); }
int __real_faccessat(int d, const char *p, int m, int f); int __wrap_faccessat(int d, const char *p, int m, int f) { M(p) return __real_faccessat(d, p, m, f); }
FILE *__real_fopen(const char *p, const char *m); FILE *__wrap_fopen(const char *p, const char *m) { M(p) return __real_fopen(p, m); }
DIR *__real_opendir(const char *p); DIR *__wrap_opendir(const char *p) { M(p) return __real_opendir(p); }
int __real_open(const char *p, int f, int m);
int __wrap_open(const char *p, int f, int m) { M(p) return __real_open(p, f, m); }
