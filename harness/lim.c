/* lim N cmd...: runs cmd with files limited to N bytes; writes beyond fail with EFBIG.
   lim -1 cmd...: runs cmd with standard output closed.
   lim -N cmd...: runs cmd with N bytes of memory. */
#include <signal.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <unistd.h>

int main(int argc, char **argv) {
  if (argc < 3) return 120;
  long n = atol(argv[1]);
  if (n < -1) {
    struct rlimit r = {-n, -n};
    if (setrlimit(RLIMIT_AS, &r)) return 121;
  } else if (n < 0) {
    close(1);
  } else {
    struct rlimit r = {n, n};
    signal(SIGXFSZ, SIG_IGN);
    if (setrlimit(RLIMIT_FSIZE, &r)) return 121;
  }
  execv(argv[2], argv + 2);
  return 122;
}
