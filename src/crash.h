// Crash points: every point of every process of a build increments a shared counter; the process that reaches the chosen
// number ends the whole process group with SIGKILL (like a power cut of the build).
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sys/stat.h>

#define CRASH_SITES 65536
static struct crash_shm { long cnt, at, mode, who, site[CRASH_SITES]; } *crash_shm; // site: call site of every counted call, if the file has room for it
static int crash_sites;
static int crash_init_done;

static void crash_init(void) {
  crash_init_done = 1;
  const char *p = getenv("CRASH_SHM");
  if (!p) return;
  int fd = open(p, O_RDWR | O_CLOEXEC);
  if (fd < 0) return;
  struct stat st;
  crash_sites = !fstat(fd, &st) && st.st_size >= (off_t) sizeof(struct crash_shm);
  void *m = mmap(0, crash_sites ? sizeof(struct crash_shm) : 4 * sizeof(long), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (m != MAP_FAILED) crash_shm = m;
}
// Returns 1 if the caller should do half of its work and then call crash_die()
static void crash_die(void) { kill(0, SIGKILL); for (;;) pause(); }
static int crash_point(int half) {
  if (!crash_init_done) crash_init();
  if (!crash_shm || crash_shm->mode > 1) return 0;
  long n = __sync_add_and_fetch(&crash_shm->cnt, 1);
  if (crash_shm->at && n == crash_shm->at) {
    crash_shm->who = half ? 2 : 1;
    if (half && crash_shm->mode) return 1;
    crash_die();
  }
  return 0;
}
// Faults (mode 2: one call fails; mode 3: no space any more from some point on;. mode 4: one read fails). kind: 's' needs space, 'm' changes something, 'r' opens to read, 'R' reads. Returns errno or 0.
static int crash_fault(int kind, int err, long site) {
  if (!crash_init_done) crash_init();
  if (!crash_shm || crash_shm->mode < 2) return 0;
  if (crash_shm->mode == 3 && kind != 's') return 0;
  if ((crash_shm->mode == 4) != (kind == 'R')) return 0;
  long n = __sync_add_and_fetch(&crash_shm->cnt, 1);
  if (crash_sites && n <= CRASH_SITES) crash_shm->site[n - 1] = site;
  if (!crash_shm->at || n < crash_shm->at || (crash_shm->mode != 3 && n > crash_shm->at)) return 0;
  __sync_add_and_fetch(&crash_shm->who, 1);
  return err;
}
