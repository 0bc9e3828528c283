// Logs a compiler invocation like fakecc and executes the real compiler named by REALCC.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <limits.h>
#include <time.h>

int main(int argc, char **argv) {
  const char *p = getenv("PT_LOG"), *cc = getenv("REALCC"), *src = "", *obj = "";
  for (int i = 1; i + 1 < argc; ++i) {
    if (!strcmp(argv[i], "-c")) src = argv[i + 1];
    if (!strcmp(argv[i], "-o")) obj = argv[i + 1];
  }
  if (p) {
    char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    char *l = 0;
    int n = asprintf(&l, "cc\t%d\t%lld\t%s\t%s\t%s\n", getpid(), (long long) ts.tv_sec * 1000000000LL + ts.tv_nsec, cwd, src, obj);
    int fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd >= 0) { if (write(fd, l, n) < 0) {} close(fd); }
  }
  argv[0] = (char*) (cc ? cc : "gcc");
  execvp(argv[0], argv);
  perror(argv[0]);
  return 127;
}
