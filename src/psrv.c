// Parse server: frames of script bytes on stdin, parsed trees on stdout. Every script is parsed in a forked child.
#include "script.h"
#include "env.h"
#include "autark.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>

static int rd(int fd, void *b, size_t n) {
  char *p = b;
  while (n) { ssize_t r = read(fd, p, n); if (r <= 0) return -1; p += r; n -= r; }
  return 0;
}
static void wrall(int fd, const void *b, size_t n) {
  const char *p = b;
  while (n) { ssize_t r = write(fd, p, n); if (r <= 0) _exit(77); p += r; n -= r; }
}
static FILE *o;
static void walk(struct node *n, unsigned depth) {
  for ( ; n; n = n->next) {
    const char *v = n->value ? n->value : "";
    unsigned l = strlen(v);
    fputc(n->type == 0x1 ? 'V' : 'R', o);
    fwrite(&depth, 4, 1, o); fwrite(&l, 4, 1, o); fwrite(v, 1, l, o);
    walk(n->child, depth + 1);
  }
}
int main(int argc, char **argv) {
  char path[4096];
  snprintf(path, sizeof path, "%s/Autark", argv[1]);
  for (;;) {
    unsigned n;
    if (rd(0, &n, 4)) return 0;
    char *b = malloc(n + 1);
    if (rd(0, b, n)) return 0;
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    wrall(fd, b, n); close(fd); free(b);
    int p[2];
    if (pipe(p)) return 3;
    pid_t pid = fork();
    if (!pid) {
      alarm(60);
      close(p[0]);
      int q = dup(p[1]); close(p[1]);
      o = fdopen(q, "w");
      if (chdir(argv[1])) _exit(78);
      autark_init();
      struct sctx *s = 0;
      int rc = script_open("Autark", &s);
      if (rc || !s) { fputc('X', o); fflush(o); autark_dispose(); _exit(3); }
      fputc('A', o);
      walk(s->root->child, 0);
      fflush(o);
      script_close(&s);
      autark_dispose();
      _exit(0);
    }
    close(p[1]);
    size_t len = 0, cap = 65536; char *buf = malloc(cap);
    for (;;) {
      if (len + 65536 > cap) buf = realloc(buf, cap = cap * 2 + 65536);
      ssize_t r = read(p[0], buf + len, 65536);
      if (r <= 0) break;
      len += r;
    }
    close(p[0]);
    int st; waitpid(pid, &st, 0);
    unsigned h[2] = { (unsigned) st, (unsigned) len };
    wrall(1, h, 8); wrall(1, buf, len); free(buf);
  }
}
