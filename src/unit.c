// In-process server: every request (u32 length + text program) is executed by a forked child, its output is returned (u32 wait status, u32 length, text).
// Program: lines of space separated words; a word "x..." is a hex encoded byte string.
#include "script.h"
#include "env.h"
#include "autark.h"
#include "map.h"
#include "ulist.h"
#include "pool.h"
#include "xstr.h"
#include "utils.h"
#include "paths.h"
#include "deps.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <inttypes.h>
#include <sys/wait.h>
#include <sys/stat.h>

static FILE *o;
#define MAXW 64
struct word { char *b; size_t n; };
static struct word w[MAXW];
static int nw;

static int hx(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void split(char *l) {
  nw = 0;
  for (char *t = strtok(l, " "); t && nw < MAXW; t = strtok(0, " ")) {
    size_t n = strlen(t);
    if (t[0] == 'x') {
      size_t m = (n - 1) / 2;
      char *b = malloc(m + 1); // exact size, so that reading behind it is seen
      for (size_t i = 0; i < m; ++i) b[i] = hx(t[1 + 2 * i]) * 16 + hx(t[2 + 2 * i]);
      b[m] = 0;
      w[nw].b = b; w[nw].n = m;
    } else {
      w[nw].b = strdup(t); w[nw].n = n;
    }
    ++nw;
  }
}
static void freew(void) { for (int i = 0; i < nw; ++i) free(w[i].b); nw = 0; }
static void hex(const void *b, size_t n) {
  fputc('x', o);
  for (size_t i = 0; i < n; ++i) fprintf(o, "%02x", ((unsigned char*) b)[i]);
}
static void hexs(const char *s) { if (s) hex(s, strlen(s)); else fputc('-', o); }
static long num(int i) { return i < nw ? strtol(w[i].b, 0, 10) : 0; }
static unsigned long long unum(int i) { return strtoull(w[i].b, 0, 10); }
#define IS(x) (!strcmp(w[0].b, x))

// ---- map
static int mapkind; // 0 str, 1 u32, 2 u64
static void mapfree(void *key, void *val) {
  if (!key && !val) return;
  fprintf(o, "free ");
  if (mapkind == 0) hexs(key); else fprintf(o, key ? "KEY" : "-");
  fprintf(o, " %ld\n", val ? *(long*) val : -1L);
  if (mapkind == 0) free(key);
  free(val);
}
static struct map *hm;
static void do_map(void) {
  if (IS("map")) {
    mapkind = num(1);
    hm = mapkind == 0 ? map_create_str(mapfree) : mapkind == 1 ? map_create_u32(mapfree) : map_create_u64(mapfree);
  } else if (IS("put")) {
    long *v = malloc(sizeof *v); *v = num(2);
    if (mapkind == 0) map_put_str(hm, w[1].b, v); else if (mapkind == 1) map_put_u32(hm, (uint32_t) unum(1), v); else map_put_u64(hm, unum(1), v);
  } else if (IS("get")) {
    long *v = mapkind == 0 ? map_get(hm, w[1].b) : mapkind == 1 ? map_get_u32(hm, (uint32_t) unum(1)) : map_get_u64(hm, unum(1));
    fprintf(o, "get %ld\n", v ? *v : -1L);
  } else if (IS("del")) {
    fprintf(o, "del %d\n", mapkind == 0 ? map_remove(hm, w[1].b) : mapkind == 1 ? map_remove_u32(hm, (uint32_t) unum(1)) : map_remove_u64(hm, unum(1)));
  } else if (IS("count")) {
    fprintf(o, "count %u\n", map_count(hm));
  } else if (IS("clear")) {
    map_clear(hm);
    fprintf(o, "cleared\n");
  } else if (IS("iter")) {
    struct map_iter it;
    map_iter_init(hm, &it);
    int guard = 0;
    while (map_iter_next(&it) && ++guard < 1000000) {
      fprintf(o, "it ");
      if (mapkind == 0) hexs(it.key); else fprintf(o, "%llu", (unsigned long long) (uintptr_t) it.key);
      fprintf(o, " %ld\n", *(long*) it.val);
    }
    fprintf(o, "end\n");
  } else if (IS("destroy")) {
    map_destroy(hm);
    hm = 0;
    fprintf(o, "destroyed\n");
  }
}

// ---- list
static struct ulist *ul, *ul2;
static void dump_list(struct ulist *l) {
  fprintf(o, "list %u", l->num);
  for (unsigned i = 0; i < l->num; ++i) { fputc(' ', o); hex(ulist_get(l, i), l->usize); }
  fprintf(o, " %s\n", ulist_get(l, l->num) == 0 ? "ok" : "BAD");
}
static void do_list(void) {
  if (IS("list")) { ul = ulist_create(num(1), num(2)); ul2 = 0; }
  else if (IS("push")) ulist_push(ul, w[1].b);
  else if (IS("pop")) ulist_pop(ul);
  else if (IS("unshift")) ulist_unshift(ul, w[1].b);
  else if (IS("shift")) ulist_shift(ul);
  else if (IS("ins")) ulist_insert(ul, num(1), w[2].b);
  else if (IS("set")) ulist_set(ul, num(1), w[2].b);
  else if (IS("rm")) ulist_remove(ul, num(1));
  else if (IS("rmby")) fprintf(o, "rmby %d\n", ulist_remove_by(ul, w[1].b));
  else if (IS("find")) fprintf(o, "find %d\n", ulist_find(ul, w[1].b));
  else if (IS("clear")) ulist_clear(ul);
  else if (IS("reset")) ulist_reset(ul);
  else if (IS("peek")) { void *p = ulist_peek(ul); fprintf(o, "peek "); if (p) hex(p, ul->usize); else fputc('-', o); fputc('\n', o); }
  else if (IS("clone")) { if (ul2) ulist_destroy(&ul2); ul2 = ulist_clone(ul); dump_list(ul2); }
  else if (IS("swap")) { if (ul2) { struct ulist *t = ul; ul = ul2; ul2 = t; } }
  else if (IS("dump")) dump_list(ul);
  else if (IS("destroy")) { ulist_destroy(&ul); if (ul2) ulist_destroy(&ul2); fprintf(o, "destroyed %d\n", ul == 0); }
}

// ---- string builder
static struct xstr *xs;
static void do_xstr(void) {
  if (IS("sb")) xs = xstr_create(num(1));
  else if (IS("cat2")) xstr_cat2(xs, w[1].b, w[1].n);
  else if (IS("cat")) xstr_cat(xs, w[1].b);
  else if (IS("shift")) xstr_shift(xs, num(1));
  else if (IS("unshift")) xstr_unshift(xs, w[1].b, w[1].n);
  else if (IS("pop")) xstr_pop(xs, num(1));
  else if (IS("ins")) xstr_insert(xs, num(1), w[2].b);
  else if (IS("printf")) { int rc = xstr_printf(xs, "%s|%ld|%-5s|%%", w[1].b, num(2), w[3].b); if (rc) fprintf(o, "rc %d\n", rc); }
  else if (IS("rep")) xstr_cat_repeat(xs, w[1].b[0], num(2));
  else if (IS("clear")) xstr_clear(xs);
  else if (IS("dump")) { fprintf(o, "sb "); hex(xstr_ptr(xs), xstr_size(xs)); fprintf(o, " %d\n", xstr_ptr(xs)[xstr_size(xs)]); }
  else if (IS("destroy")) xstr_destroy(xs);
  else if (IS("keep")) { size_t n = xstr_size(xs); char *p = xstr_destroy_keep_ptr(xs); fprintf(o, "keep "); hex(p, n); fputc('\n', o); free(p); }
}

// ---- pool: every allocation is filled with its own pattern and verified at the end
struct al { unsigned char *p; size_t n; unsigned char pat; int str; char *want; };
static struct al *al;
static int nal, ndestr;
static struct pool *pl;
static void on_destroy(struct pool *p) { ++ndestr; }
static void newal(void *p, size_t n, char *want) {
  al = realloc(al, (nal + 1) * sizeof *al);
  al[nal] = (struct al) { p, n, (unsigned char) (nal * 37 + 11), 0, want };
  if (!want) memset(p, al[nal].pat, n);
  if ((uintptr_t) p & 7) fprintf(o, "UNALIGNED %d\n", nal);
  ++nal;
}
static void do_pool(void) {
  if (IS("pool")) {
    ndestr = 0;
    pl = num(1) == 0 ? pool_create_empty() : num(1) == 1 ? pool_create_preallocated(num(2)) : pool_create(on_destroy);
  }
  else if (IS("alloc")) newal(pool_alloc(pl, num(1)), num(1), 0);
  else if (IS("calloc")) { unsigned char *p = pool_calloc(pl, num(1)); for (long i = 0; i < num(1); ++i) if (p[i]) { fprintf(o, "NOTZERO\n"); break; } newal(p, num(1), 0); }
  else if (IS("dup")) { char *p = pool_strdup(pl, w[1].b); newal(p, strlen(w[1].b) + 1, strdup(w[1].b)); }
  else if (IS("ndup")) { char *p = pool_strndup(pl, w[1].b, num(2)); fprintf(o, "ndup "); hexs(p); fputc('\n', o); newal(p, strlen(p) + 1, strdup(p)); }
  else if (IS("printf")) { char *p = pool_printf(pl, "%s/%ld/%5s%%", w[1].b, num(2), w[3].b); fprintf(o, "printf "); hexs(p); fputc('\n', o); newal(p, strlen(p) + 1, strdup(p)); }
  else if (IS("split")) {
    const char **r = pool_split_string(pl, w[1].b, w[2].b, num(3));
    fprintf(o, "split");
    for ( ; *r; ++r) { fputc(' ', o); hexs(*r); newal((void*) *r, strlen(*r) + 1, strdup(*r)); --nal; ++nal; }
    fputc('\n', o);
  } else if (IS("nulls")) fprintf(o, "nulls %d\n", pool_strdup(pl, 0) == 0 && pool_strndup(pl, 0, 3) == 0);
  else if (IS("verify")) {
    for (int i = 0; i < nal; ++i) {
      if (al[i].want) { if (memcmp(al[i].p, al[i].want, al[i].n)) fprintf(o, "CLOBBERED %d\n", i); }
      else for (size_t k = 0; k < al[i].n; ++k) if (al[i].p[k] != al[i].pat) { fprintf(o, "CLOBBERED %d\n", i); break; }
    }
    fprintf(o, "verified %d\n", nal);
  } else if (IS("destroy")) { pool_destroy(pl); fprintf(o, "destroyed %d\n", ndestr); }
}

// ---- functions of strings and paths
static void do_str(void) {
  if (IS("words")) {
    struct xstr *x = xstr_create_empty();
    for (int i = 1; i < nw; ++i) utils_split_values_add(w[i].b, x);
    fprintf(o, "words "); hex(xstr_ptr(x), xstr_size(x));
    struct vlist_iter it;
    vlist_iter_init(xstr_ptr(x), &it);
    fprintf(o, " items");
    while (vlist_iter_next(&it)) { fputc(' ', o); hex(it.item, it.len); }
    fputc('\n', o);
    xstr_destroy(x);
  } else if (IS("vlist")) {
    struct ulist *l = ulist_create(0, sizeof(char*));
    for (int i = 1; i < nw; ++i) ulist_push(l, &w[i].b);
    char *v = ulist_to_vlist(l);
    fprintf(o, "vlist "); hexs(v);
    struct vlist_iter it;
    vlist_iter_init(v, &it);
    fprintf(o, " items");
    while (vlist_iter_next(&it)) { fputc(' ', o); hex(it.item, it.len); }
    fputc('\n', o);
    free(v); ulist_destroy(&l);
  } else if (IS("strtol")) {
    int rc; errno = num(3); long r = utils_strtol(w[1].b, num(2), &rc);
    fprintf(o, "num %ld %d\n", r, rc != 0);
  } else if (IS("strtoll")) {
    int rc; errno = num(3); long long r = utils_strtoll(w[1].b, num(2), &rc);
    fprintf(o, "num %lld %d\n", r, rc != 0);
  } else if (IS("swith")) fprintf(o, "b %d\n", utils_startswith(w[1].b, w[2].b));
  else if (IS("ewith")) fprintf(o, "b %d\n", utils_endswith(w[1].b, w[2].b));
  else if (IS("strncpy")) {
    long n = num(2); char *b = malloc(n ? n : 1); memset(b, 'Z', n ? n : 1);
    utils_strncpy(b, w[1].b, n); fprintf(o, "cpy "); if (n) hexs(b); else hex(b, 1); fputc('\n', o); free(b);
  } else if (IS("strnncpy")) {
    long n = num(3); char *b = malloc(n ? n : 1); memset(b, 'Z', n ? n : 1);
    utils_strnncpy(b, w[1].b, num(2), n); fprintf(o, "cpy "); if (n) hexs(b); else hex(b, 1); fputc('\n', o); free(b);
  } else if (IS("replace")) { utils_chars_replace(w[1].b, w[2].b[0], w[3].b[0]); fprintf(o, "cpy "); hexs(w[1].b); fputc('\n', o); }
  else if (IS("lround")) fprintf(o, "num %ld 0\n", utils_lround(strtod(w[1].b, 0)));
  else if (IS("fwrite")) fprintf(o, "rc %d\n", utils_file_write_buf(w[1].b, w[2].b, w[2].n, num(3)));
  else if (IS("fread")) {
    struct value v = utils_file_as_buf(w[1].b, num(2));
    fprintf(o, "file %d ", v.error != 0); if (v.buf) { hex(v.buf, v.len); fprintf(o, " %d", ((char*) v.buf)[v.len]); free(v.buf); } else fputc('-', o); fputc('\n', o);
  } else if (IS("fcopy")) fprintf(o, "rc %d\n", utils_copy_file(w[1].b, w[2].b) != 0);
  else if (IS("fren")) fprintf(o, "rc %d\n", utils_rename_file(w[1].b, w[2].b) != 0);
  else if (IS("mk")) { for (long i = 0; i < num(2); ++i) {} FILE *f = fopen(w[1].b, "w"); for (long i = 0; i < num(2); ++i) fputc('a' + i % 26, f); fclose(f); }
  else if (IS("norm")) { char b[PATH_MAX]; fprintf(o, "p "); hexs(path_normalize_cwd(w[2].b, w[1].b, b)); fputc('\n', o); }
  else if (IS("normp")) { struct pool *p = pool_create_empty(); fprintf(o, "p "); hexs(path_normalize_cwd_pool(w[2].b, w[1].b, p)); fputc('\n', o); pool_destroy(p); }
  else if (IS("normc")) { char b[PATH_MAX]; if (chdir(w[1].b)) abort(); fprintf(o, "p "); hexs(path_normalize(w[2].b, b)); fputc('\n', o); }
  else if (IS("rel")) { char *r = path_relativize_cwd(w[2].n ? w[2].b : 0, w[3].b, w[1].b); fprintf(o, "p "); hexs(r); fputc('\n', o); free(r); }
  else if (IS("relc")) { if (chdir(w[1].b)) abort(); char *r = path_relativize(w[2].n ? w[2].b : 0, w[3].b); fprintf(o, "p "); hexs(r); fputc('\n', o); free(r); }
  else if (IS("pre")) { fprintf(o, "p "); hexs(path_is_prefix_for(w[2].b, w[3].b, w[1].b)); fputc('\n', o); }
  else if (IS("base")) { fprintf(o, "p "); hexs(path_basename(w[1].b)); fputc('\n', o); }
  else if (IS("dir")) { fprintf(o, "p "); hexs(path_dirname(w[1].b)); fputc('\n', o); }
  else if (IS("mkdirs")) { int rc = path_mkdirs(w[1].b); fprintf(o, "rc %d %d\n", rc != 0, path_is_dir(w[1].b)); }
  else if (IS("mkdirsfor") ) { int rc = path_mkdirs_for(w[1].b); fprintf(o, "rc %d\n", rc != 0); }
}

// ---- dependency records
static struct deps *dp;
static struct sctx *sc;
static void do_deps(void) {
  if (IS("deps")) {
    FILE *f = fopen("Autark", "w"); fclose(f);
    autark_init();
    if (script_open("Autark", &sc)) { fprintf(o, "NOSCRIPT\n"); exit(5); }
    dp = malloc(sizeof *dp);
    memset(dp, 0, sizeof *dp);
    char b[PATH_MAX]; fprintf(o, "cwd "); hexs(getcwd(b, sizeof b)); fputc('\n', o);
  } else if (IS("open")) { int rc = deps_open("rec", num(1), dp); fprintf(o, "open %d\n", rc != 0); }
  else if (IS("close")) { fprintf(o, "close %d\n", dp->num_registered); deps_close(dp); }
  else if (IS("add")) fprintf(o, "rc %d\n", deps_add(dp, w[1].b[0], w[2].b[0] == '0' ? 0 : w[2].b[0], w[3].b, num(4)));
  else if (IS("alias")) fprintf(o, "rc %d\n", deps_add_alias(dp, w[1].b[0] == '0' ? 0 : w[1].b[0], w[2].b, w[3].b));
  else if (IS("env")) fprintf(o, "rc %d\n", deps_add_env(dp, w[1].b[0] == '0' ? 0 : w[1].b[0], w[2].b, w[3].b));
  else if (IS("senv")) fprintf(o, "rc %d\n", deps_add_sys_env(dp, w[1].b[0] == '0' ? 0 : w[1].b[0], w[2].b, w[3].b));
  else if (IS("read")) {
    while (deps_cur_next(dp)) {
      fprintf(o, "e %d %d ", dp->type, dp->flags); hexs(dp->alias); fputc(' ', o); hexs(dp->resource);
      fprintf(o, " %" PRId64 " %d\n", dp->serial, deps_cur_is_outdated(sc->root, dp));
    }
    fprintf(o, "end\n");
  } else if (IS("one")) {
    if (deps_cur_next(dp)) { fprintf(o, "e %d %d ", dp->type, dp->flags); hexs(dp->alias); fputc(' ', o); hexs(dp->resource);
      fprintf(o, " %" PRId64 " %d\n", dp->serial, deps_cur_is_outdated(sc->root, dp)); }
    else fprintf(o, "end\n");
  } else if (IS("set")) unit_env_set_val(unit_root(), w[1].b, w[2].b);
  else if (IS("unset")) unit_env_remove(unit_root(), w[1].b);
  else if (IS("setenv")) setenv(w[1].b, w[2].b, 1);
  else if (IS("unsetenv")) unsetenv(w[1].b);
  else if (IS("touch")) {
    mkdir("d", 0700);
    int fd = open(w[1].b, O_WRONLY | O_CREAT, 0600); close(fd);
    struct timespec ts[2] = { { num(2), num(3) }, { num(2), num(3) } };
    utimensat(AT_FDCWD, w[1].b, ts, 0);
  } else if (IS("rm")) unlink(w[1].b);
  else if (IS("link")) {
    unlink(w[2].b);
    if (symlink(w[1].b, w[2].b)) perror("symlink");
    struct timespec ts[2] = { { num(3), num(4) }, { num(3), num(4) } };
    utimensat(AT_FDCWD, w[2].b, ts, AT_SYMLINK_NOFOLLOW);
  }
}

static int rd(int fd, void *b, size_t n) {
  char *p = b;
  while (n) { ssize_t r = read(fd, p, n); if (r <= 0) return -1; p += r; n -= r; }
  return 0;
}
static void wrall(int fd, const void *b, size_t n) {
  const char *p = b;
  while (n) { ssize_t r = write(fd, p, n); if (r <= 0) _exit(77); p += r; n -= r; }
}

static void child(char *prog) {
  void (*f)(void) = 0;
  char *sp = prog;
  while (*sp) {
    char *e = strchr(sp, '\n');
    if (e) *e = 0;
    char *next = e ? e + 1 : sp + strlen(sp);
    split(sp);
    if (nw) {
      if (!f) f = IS("map") ? do_map : IS("list") ? do_list : IS("sb") ? do_xstr : IS("pool") ? do_pool : IS("deps") ? do_deps : do_str;
      f();
    }
    freew();
    sp = next;
  }
}

int main(int argc, char **argv) {
  if (chdir(argv[1])) return 4;
  for (unsigned seq = 0; ; ++seq) {
    unsigned n;
    if (rd(0, &n, 4)) return 0;
    char *b = malloc(n + 1);
    if (rd(0, b, n)) return 0;
    b[n] = 0;
    char d[64];
    snprintf(d, sizeof d, "c%u", seq);
    int p[2];
    if (pipe(p)) return 3;
    pid_t pid = fork();
    if (!pid) {
      alarm(60);
      close(p[0]);
      o = fdopen(p[1], "w");
      if (strncmp(b, "deps", 4) == 0 || strncmp(b, "fs", 2) == 0) { mkdir(d, 0700); if (chdir(d)) _exit(78); }
      child(b);
      fprintf(o, "done\n");
      fflush(o);
      _exit(0);
    }
    close(p[1]);
    size_t len = 0, cap = 65536; char *buf = malloc(cap);
    for (;;) {
      if (len + 65536 > cap) buf = realloc(buf, cap = cap * 2 + 65536);
      ssize_t r = read(p[0], buf + len, 65536);
      if (r <= 0) break;
      len += r;
    }
    close(p[0]);
    int st; waitpid(pid, &st, 0);
    unsigned h[2] = { (unsigned) st, (unsigned) len };
    wrall(1, h, 8); wrall(1, buf, len); free(buf); free(b);
  }
}
