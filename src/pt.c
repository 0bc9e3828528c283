// Probe tool used as the external program of generated build rules.
//   pt args A...            logs its arguments
//   pt mk TAG -o OUT... [-i IN...] [-a ARG...]  : logs; OUT = deterministic text of TAG, ARGs and contents of INs
//   pt say|csay TEXT...     logs; prints the TEXTs joined by blanks, newline
//   pt cat FILE...          logs; prints the files
//   pt grab FILE ARGS... : logs; prints FILE up to "#fail", exits 1 if that is there
//   pt out SPEC             logs; SPEC = comma separated: [oe]N (write N patterned bytes), pMS (pause), xN exit, kill
//   pt env NAME...          logs cwd, PATH and the named variables
//   pt fail N               logs; exits N
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <limits.h>
#include <time.h>
#include <sys/stat.h>
#include "crash.h"

static char *lb; static size_t ll, lc;
static void put(const char *s, size_t n) {
  if (ll + n + 1 > lc) { lc = (ll + n + 1) * 2; lb = realloc(lb, lc); }
  memcpy(lb + ll, s, n); ll += n; lb[ll] = 0;
}
static void ps(const char *s) { put(s, strlen(s)); }
static void phex(const char *s) {
  static const char *h = "0123456789abcdef"; char b[2];
  ps("x");
  for (; *s; ++s) { b[0] = h[(unsigned char) *s >> 4]; b[1] = h[*s & 15]; put(b, 2); }
}
static void flushlog(void) {
  const char *p = getenv("PT_LOG");
  ps("\n");
  if (p) {
    int fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd >= 0) { if (write(fd, lb, ll) < 0) {} close(fd); }
  }
  ll = 0;
}
static void head(const char *ev) {
  char cwd[PATH_MAX], b[128]; if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  snprintf(b, sizeof b, "%s\t%d\t%lld\t", ev, getpid(), (long long) ts.tv_sec * 1000000000LL + ts.tv_nsec);
  ps(b); ps(cwd);
}
static char* slurp(const char *p, size_t *n) {
  FILE *f = fopen(p, "r"); if (!f) return 0;
  char *b = 0; size_t cap = 0, len = 0;
  for (;;) {
    if (len + 65536 + 1 > cap) { cap = cap * 2 + 131072; b = realloc(b, cap); }
    size_t r = fread(b + len, 1, 65536, f);
    if (!r) break;
    len += r;
  }
  b[len] = 0; fclose(f); if (n) *n = len; return b;
}
static void wr(int fd, const char *b, size_t n) {
  while (n) { ssize_t w = write(fd, b, n); if (w <= 0) _exit(9); b += w; n -= w; }
}

int main(int argc, char **argv) {
  const char *cmd = argc > 1 ? argv[1] : "args";
  head(cmd);
  for (int i = 2; i < argc; ++i) { ps("\t"); phex(argv[i]); }
  if (!strcmp(cmd, "env")) {
    ps("\tPATH="); phex(getenv("PATH") ? getenv("PATH") : "");
    for (int i = 2; i < argc; ++i) { ps("\t"); ps(argv[i]); ps("="); if (getenv(argv[i])) phex(getenv(argv[i])); else ps("-"); }
  }
  flushlog();
  if (!strcmp(cmd, "mk")) {
    char *outs[4096]; int no = 0, mode = 0, bad = 0;
    ps("TAG "); ps(argv[2]); ps("\n");
    for (int i = 3; i < argc; ++i) {
      if (!strcmp(argv[i], "-o")) { mode = 'o'; continue; }
      if (!strcmp(argv[i], "-i")) { mode = 'i'; continue; }
      if (!strcmp(argv[i], "-a")) { mode = 'a'; continue; }
      if (mode == 'o') outs[no++] = argv[i];
      else if (mode == 'i') {
        size_t n; char *t = slurp(argv[i], &n);
        ps("IN "); ps(strrchr(argv[i], '/') ? strrchr(argv[i], '/') + 1 : argv[i]); ps("\n");
        if (!t) { fprintf(stderr, "pt: %s: missing\n", argv[i]); bad = 1; continue; }
        if (strstr(t, "#fail")) { fprintf(stderr, "pt: %s: #fail\n", argv[i]); bad = 1; }
        if (strstr(t, "#kill")) { kill(getpid(), SIGKILL); }
        put(t, n); ps("\n"); free(t);
      } else { ps("ARG "); ps(argv[i]); ps("\n"); }
    }
    if (bad) { ll = 0; head("mk-fail"); ps("\t"); phex(argv[2]); flushlog(); return 1; }
    for (int i = 0; i < no; ++i) {
      FILE *f = fopen(outs[i], "w");
      if (!f) { perror(outs[i]); return 1; }
      crash_point(0); fwrite(lb, 1, ll / 2, f); fflush(f); crash_point(0); fwrite(lb + ll / 2, 1, ll - ll / 2, f);
      fprintf(f, "OUT %d\n", i); fclose(f);
    }
    crash_point(0);
    ll = 0; head("mk-end"); ps("\t"); phex(argv[2]); flushlog();
  } else if (!strcmp(cmd, "say") || !strcmp(cmd, "csay")) {
    for (int i = 2; i < argc; ++i) { if (i > 2) fputs(" ", stdout); fputs(argv[i], stdout); }
    puts("");
  } else if (!strcmp(cmd, "cat")) {
    for (int i = 2; i < argc; ++i) {
      size_t n; char *t = slurp(argv[i], &n);
      if (!t) return 1;
      if (strstr(t, "#fail")) return 1;
      wr(1, t, n);
    }
  } else if (!strcmp(cmd, "grab")) {
    size_t n; char *t = argc > 2 ? slurp(argv[2], &n) : 0;
    if (!t) return 1;
    char *f = strstr(t, "#fail");
    wr(1, t, f ? (size_t) (f - t) : n);
    if (f) return 1;
  } else if (!strcmp(cmd, "out")) {
    unsigned cnt[2] = { 0, 0 };
    for (char *t = argc > 2 ? strtok(argv[2], ",") : 0; t; t = strtok(0, ",")) {
      if (t[0] == 'o' || t[0] == 'e') {
        int fd = t[0] == 'o' ? 1 : 2; unsigned *c = &cnt[fd - 1]; int n = atoi(t + 1);
        char *b = malloc(n + 1);
        for (int i = 0; i < n; ++i, ++*c) {
          unsigned k = *c; char d[16]; unsigned blk = k / 8, o = k % 8;
          snprintf(d, sizeof d, "%c%06u.", fd == 1 ? 'o' : 'e', blk % 1000000);
          b[i] = d[o];
          if (blk % 16 == 15 && o == 7) b[i] = '\n';
        }
        wr(fd, b, n); free(b);
      } else if (t[0] == 'p') usleep(1000 * atoi(t + 1));
      else if (t[0] == 'x') return atoi(t + 1);
      else if (t[0] == 'k') kill(getpid(), SIGKILL);
      else if (t[0] == 'n') wr(1, "\n", 1);
      else if (t[0] == 's') wr(1, " \t", 2);
      else if (t[0] == 'c') close(t[1] == 'o' ? 1 : 2);
    }
  } else if (!strcmp(cmd, "fail")) {
    return argc > 2 ? atoi(argv[2]) : 1;
  }
  return 0;
}
