/* A stand-in for include-what-you-use: records how it was started in
   $REC_DIR and behaves as the file $REC_DIR/b<k> says, k from -DREC=<k>. */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/resource.h>

static long long now(void) {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000000000LL + t.tv_nsec;
}
int main(int argc, char **argv) {
  long long start = now();
  const char *dir = getenv("REC_DIR");
  char path[4096], cwd[4096], k[64] = "";
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  for (int i = 1; i < argc; i++)
    if (!strncmp(argv[i], "-DREC=", 6)) snprintf(k, sizeof k, "%s", argv[i] + 6);
  snprintf(path, sizeof path, "%s/log.%lld.%d", dir, start, getpid());
  FILE *f = fopen(path, "w");
  if (!f || !getcwd(cwd, sizeof cwd)) return 99;
  fwrite(cwd, 1, strlen(cwd) + 1, f);
  for (int i = 0; i < argc; i++) fwrite(argv[i], 1, strlen(argv[i]) + 1, f);
  fclose(f);
  snprintf(path, sizeof path, "%s/b%s", dir, k);
  int code = 0, sig = 0;
  f = k[0] ? fopen(path, "r") : 0;
  if (f) {
    char op[16];
    long a;
    while (fscanf(f, "%15s %ld", op, &a) == 2) {
      if (!strcmp(op, "sleep")) usleep(a);
      else if (!strcmp(op, "exit")) code = (int)a;
      else if (!strcmp(op, "kill")) sig = (int)a;
      else {                     /* out/err: a bytes follow the newline */
        char *buf = malloc(a + 1);
        fgetc(f);
        if (fread(buf, 1, a, f) != (size_t)a) return 98;
        int fd = strcmp(op, "err") ? 1 : 2;
        for (long o = 0; o < a;) { ssize_t w = write(fd, buf + o, a - o); if (w <= 0) return 97; o += w; }
        free(buf);
      }
    }
    fclose(f);
  }
  snprintf(path, sizeof path, "%s/times", dir);
  int fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0600);
  char line[128];
  int n = snprintf(line, sizeof line, "%s %lld %lld\n", k[0] ? k : "?", start, now());
  if (write(fd, line, n) != n) return 96;
  close(fd);
  if (sig) { signal(sig, SIG_DFL); kill(getpid(), sig); pause(); }
  return code;
}
