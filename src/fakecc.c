// Compiler stand-in: logs every invocation, "compiles" a source into an object that holds the flags and the
// complete text of everything included, and writes a gcc-like .d file.
// Directives in sources:  #include "f"   #error   #kill   #sleep MS   #needs FILE (must exist in cwd, complete)
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <limits.h>
#include <time.h>
#include <sys/stat.h>
#include <stdarg.h>
#include "crash.h"

static char *incs[256]; static int nincs;
static char *deps[20000], *rdeps[20000]; static int ndeps;
static char *obj, *src;
static char *body; static size_t blen, bcap;
static int fail, wrap = 75, abspath;

static void put(const char *s, size_t n) {
  if (blen + n + 1 > bcap) { bcap = (blen + n + 1) * 2; body = realloc(body, bcap); }
  memcpy(body + blen, s, n); blen += n; body[blen] = 0;
}
static void puts_(const char *s) { put(s, strlen(s)); }

static void logline(const char *ev) {
  const char *p = getenv("PT_LOG");
  if (!p) return;
  char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  char *l = 0;
  int n = asprintf(&l, "%s\t%d\t%lld\t%s\t%s\t%s\n", ev, getpid(), (long long) ts.tv_sec * 1000000000LL + ts.tv_nsec, cwd, src ? src : "", obj ? obj : "");
  int fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd >= 0) { if (write(fd, l, n) < 0) {} close(fd); }
  free(l);
}

static int seen(const char *p) {
  char b[PATH_MAX]; // the same file by different names
  if (!realpath(p, b)) return 1;
  for (int i = 0; i < ndeps; ++i) if (!strcmp(rdeps[i], b)) return 1;
  rdeps[ndeps] = strdup(b);
  return 0;
}

static char* slurp(const char *p, size_t *n) {
  FILE *f = fopen(p, "r"); if (!f) return 0;
  char *b = 0; size_t cap = 0, len = 0;
  for (;;) {
    if (len + 4096 > cap) { cap = cap * 2 + 8192; b = realloc(b, cap); }
    size_t r = fread(b + len, 1, 4096, f);
    if (!r) break;
    len += r;
  }
  b[len] = 0; fclose(f); if (n) *n = len; return b;
}

static void mark(void);
static void process(const char *path, int depth) {
  if (depth > 60) return;
  size_t n; char *t = slurp(path, &n);
  if (!t) { fprintf(stderr, "fakecc: %s: No such file\n", path); fail = 1; return; }
  char dir[PATH_MAX]; snprintf(dir, sizeof dir, "%s", path);
  char *sl = strrchr(dir, '/'); if (sl) sl[1] = 0; else dir[0] = 0;
  for (char *l = t; *l; ) {
    char *e = strchr(l, '\n'); size_t ln = e ? (size_t)(e - l) : strlen(l);
    char line[8192]; snprintf(line, sizeof line, "%.*s", (int) ln, l);
    if (!strncmp(line, "#include \"", 10)) {
      char *q = strchr(line + 10, '"'); if (q) *q = 0;
      char *nm = line + 10, cand[PATH_MAX]; int ok = 0;
      snprintf(cand, sizeof cand, "%s%s", dir, nm);
      if (!access(cand, R_OK)) ok = 1;
      for (int i = 0; !ok && i < nincs; ++i) {
        if (!strcmp(incs[i], "./")) snprintf(cand, sizeof cand, "%s", nm);
        else { size_t il = strlen(incs[i]); snprintf(cand, sizeof cand, "%s%s%s", incs[i], il && incs[i][il-1] == '/' ? "" : "/", nm); }
        if (!access(cand, R_OK)) ok = 1;
      }
      if (!ok) { fprintf(stderr, "fakecc: %s: %s: No such file\n", path, nm); fail = 1; }
      else {
        if (ndeps < 20000 && !seen(cand)) { // include-once
          deps[ndeps++] = strdup(cand);
          puts_("{"); puts_(nm); puts_("\n"); process(cand, depth + 1); puts_("}\n");
        }
      }
    } else if (!strncmp(line, "#error", 6)) { fprintf(stderr, "fakecc: %s: #error\n", path); fail = 1; }
    else if (!strncmp(line, "#kill", 5)) { logline("cc-kill"); mark(); kill(getpid(), SIGKILL); }
    else if (!strncmp(line, "#sleep ", 7)) { usleep(1000 * atoi(line + 7)); }
    else if (!strncmp(line, "#waitfor ", 9)) {
      // until the compilation of the named source has ended (only if WAITDIR is set)
      const char *wd = getenv("WAITDIR"); char m[PATH_MAX];
      if (wd) {
        snprintf(m, sizeof m, "%s/%s", wd, line + 9);
        int k = 0;
        for (; access(m, F_OK) && k < 10000; ++k) usleep(k < 200 ? 200 : 1000);
        if (k == 10000) { logline("cc-stuck"); fail = 1; }
      }
    }
    else if (!strncmp(line, "#gate ", 6)) {
      // "#gate K TAG": until K compilations with this tag have been started, and a bit longer
      const char *wd = getenv("WAITDIR"); char m[PATH_MAX], tag[64] = ""; int k = 0, i = 0;
      sscanf(line + 6, "%d %60s", &k, tag);
      if (wd) {
        snprintf(m, sizeof m, "%s/gate-%s", wd, tag);
        int fd = open(m, O_WRONLY | O_APPEND | O_CREAT, 0644);
        if (write(fd, "x", 1) != 1) fail = 1;
        struct stat st;
        for (; !fstat(fd, &st) && st.st_size < k && i < 10000; ++i) usleep(1000);
        close(fd);
        if (i == 10000) { logline("cc-stuck"); fail = 1; }
        usleep(15000);
      }
    }
    else if (!strncmp(line, "#wrap ", 6)) { wrap = atoi(line + 6); }
    else { put(l, ln); puts_("\n"); }
    if (!e) break;
    l = e + 1;
  }
  free(t);
}

// like gcc: blanks and '#' are escaped by a backslash, '$' doubled
static int mk(FILE *f, const char *p, const char *pre) {
  int n = fprintf(f, "%s", pre);
  for (; *p; ++p) {
    if (*p == ' ' || *p == '#') n += fprintf(f, "\\");
    else if (*p == '$') n += fprintf(f, "$");
    n += fprintf(f, "%c", *p);
  }
  return n;
}

static void mark(void) {
  const char *wd = getenv("WAITDIR"), *b = src ? strrchr(src, '/') : 0; char m[PATH_MAX];
  if (!wd || !src) return;
  snprintf(m, sizeof m, "%s/%s", wd, b ? b + 1 : src);
  close(open(m, O_WRONLY | O_CREAT, 0644));
}

int main(int argc, char **argv) {
  int mmd = 0; char *mf = 0;
  puts_("FLAGS:");
  for (int i = 1; i < argc; ++i) {
    char *a = argv[i];
    if (!strcmp(a, "-o") && i + 1 < argc) { obj = argv[++i]; continue; }
    if (!strcmp(a, "-c") && i + 1 < argc) { src = argv[++i]; continue; }
    if (!strcmp(a, "-MMD") || !strcmp(a, "-MD")) { mmd = 1; continue; }
    if (!strncmp(a, "-I", 2)) {
      char *d = a + 2; if (!*d && i + 1 < argc) d = argv[++i];
      if (nincs < 256) incs[nincs++] = d;
      continue;
    }
    puts_("["); puts_(a); puts_("]");
  }
  puts_("\n");
  logline("cc");
  if (!src || !obj) { fprintf(stderr, "fakecc: usage\n"); return 2; }
  process(src, 0);
  if (fail) { unlink(obj); logline("cc-fail"); mark(); return 1; }
  char tmp[PATH_MAX];
  // like a real compiler, writes the object in several steps, in place
  FILE *f = fopen(obj, "w"); if (!f) { perror(obj); logline("cc-fail"); return 1; }
  crash_point(0); fwrite(body, 1, blen / 2, f); fflush(f); crash_point(0); fwrite(body + blen / 2, 1, blen - blen / 2, f); fclose(f); crash_point(0);
  if (mmd) {
    snprintf(tmp, sizeof tmp, "%s", obj);
    char *d = strrchr(tmp, '.'), *sl = strrchr(tmp, '/');
    if (!d || (sl && d < sl)) d = tmp + strlen(tmp);
    strcpy(d, ".d");
    f = fopen(tmp, "w"); if (!f) { perror(tmp); return 1; }
    crash_point(0);
    int col = mk(f, obj, "");
    col += fprintf(f, ":");
    col += mk(f, src, " ");
    for (int i = 0; i < ndeps; ++i) {
      int l = strlen(deps[i]) + 1;
      if (col + l > wrap) { fprintf(f, " \\\n"); col = 0; }
      col += mk(f, deps[i], " ");
    }
    fprintf(f, "\n"); fclose(f);
  }
  logline("cc-end");
  mark();
  return 0;
}
