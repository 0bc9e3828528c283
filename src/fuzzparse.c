// libFuzzer target: any bytes as a build script; parsed and bound, dumped and closed.
#include "script.h"
#include "env.h"
#include "xstr.h"
#include "autark.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>

static char dir[] = "/dev/shm/vf-fz-XXXXXX";
static void bye(void) {
  char p[256];
  if (chdir("/")) {}
  snprintf(p, sizeof p, "%s/Autark", dir); unlink(p);
  snprintf(p, sizeof p, "%s/autark-cache", dir); rmdir(p);
  rmdir(dir);
}
int LLVMFuzzerInitialize(int *argc, char ***argv) {
  if (!mkdtemp(dir)) abort();
  atexit(bye);
  return 0;
}
int LLVMFuzzerTestOneInput(const unsigned char *data, size_t size) {
  static int null = -1;
  if (chdir(dir)) abort();
  int fd = open("Autark", O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (write(fd, data, size) != (ssize_t) size) abort();
  close(fd);
  // error reports of rejected scripts are not interesting
  static int saved = -1;
  if (null < 0) { null = open("/dev/null", O_WRONLY | O_CLOEXEC); saved = dup(2); fcntl(saved, F_SETFD, FD_CLOEXEC); }
  autark_init();
  struct sctx *s = 0;
  fflush(stderr); dup2(null, 2);
  int rc = script_open("Autark", &s);
  fflush(stderr); dup2(saved, 2);
  if (!rc && s) {
    struct xstr *x = xstr_create_empty();
    script_dump(s, x);
    xstr_destroy(x);
    script_close(&s);
  }
  autark_dispose();
  g_env.project.root_dir = 0;
  g_env.project.cache_dir = 0;
  g_env.project.prepared = false;
  return 0;
}
