// Runs the NovAtel to SBP converter (nov2sbp_main) over a whole recording.
// Script line:  <hex stream> <cuts>
// Events: Begin with the bytes read, one Sbp per message written, End with the
// exit status.  A process per recording: the converter's state is static.
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include "ev.h"
extern "C" int nov2sbp_main(int, char **, const char *, int (*)(uint8_t *, uint32_t, void *),
                            int (*)(uint8_t *, uint32_t, void *), void *);
struct io { ev_source_t in; std::vector<uint8_t> out; };
static int readfn(uint8_t *b, uint32_t n, void *ctx) { return ev_source_read(&static_cast<io *>(ctx)->in, b, n); }
static int writefn(uint8_t *b, uint32_t n, void *ctx) {
  auto &o = static_cast<io *>(ctx)->out;
  o.insert(o.end(), b, b + n);
  return static_cast<int>(n);
}
int main() {
  static char line[1 << 22];
  while (fgets(line, sizeof line, stdin)) {
    char *save;
    char *hx = strtok_r(line, " \n", &save), *cu = strtok_r(nullptr, " \n", &save);
    if (!cu) continue;
    fflush(stdout);
    pid_t pid = fork();
    if (pid) {
      int st;
      waitpid(pid, &st, 0);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) exit(WIFEXITED(st) ? WEXITSTATUS(st) : 134);
      continue;
    }
    size_t n, nc;
    uint8_t *data = ev_unhex(hx, &n);
    int *cuts = ev_ints(cu, &nc);
    io x{};
    x.in = {data, n, 0, cuts, nc, 0, 0, 0, 1};
    printf("{\"e\":\"Begin\",\"b\":");
    ev_bytes(data, n);
    printf("}\n");
    fflush(stdout);
    char name[] = "nov2sbp";
    char *argv[] = {name, nullptr};
    int rc = nov2sbp_main(1, argv, "", readfn, writefn, &x);
    size_t i = 0, len = x.out.size();
    while (i < len) {
      size_t k = i + 8 <= len ? 8u + x.out[i + 5] : len - i;
      if (i + k > len) k = len - i;
      printf("{\"e\":\"Sbp\",\"b\":");
      ev_bytes(&x.out[i], k);
      printf("}\n");
      i += k;
    }
    printf("{\"e\":\"End\",\"rc\":%d}\n", rc);
    ev_done();
    _exit(0);
  }
  return 0;
}
