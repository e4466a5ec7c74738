// UBX -> SBP driver.  stdin: one scenario per line
//   <hex> <cuts> <ending> <hnr> <sender or -> <navigation decoder calls that fail, or ->
// Every scenario runs in its own process: the converter has file-level state.
#include "sbpdump.h"
#include <gnss-converters/ubx_sbp.h>
#include <swiftnav/shim_swiftnav.h>
#include <sys/wait.h>
#include <unistd.h>
static ev_source_t src;
static int rd(u8 *b, size_t n, void *c) { (void)c; return ev_source_read(&src, b, (uint32_t)n); }
static void cb(uint16_t sender, sbp_msg_type_t t, const sbp_msg_t *m, void *c) { (void)c; sd_msg(sender, t, m); }
static int *fails; static size_t nfails; static int calls;
static void arm(void) {
  calls++;
  shim_eph_fail = 0;
  for (size_t i = 0; i < nfails; i++) if (fails[i] == calls) shim_eph_fail = 1;
}
// what reaches the navigation message decoder is shown like an output
static void eph(const char *kind, const void *data, size_t n, gnss_signal_t sid, double arg) {
  if (sd_n++) putchar(',');
  printf("{\"k\":\"Nav%s\",\"s\":[],\"f\":[", kind);
  sd_first = 1;
  sd_I(sid.sat); sd_I(sid.code); sd_I((int64_t)arg);
  for (size_t i = 0; i < n; i++) sd_I(((const uint8_t *)data)[i]);
  printf("]}");
  arm();
}
static void one(char *line) {
  char *w[6]; int k = 0;
  for (char *p = strtok(line, " \n"); p && k < 6; p = strtok(NULL, " \n")) w[k++] = p;
  if (k < 6) _Exit(71);
  size_t n; uint8_t *b = ev_unhex(w[0], &n);
  size_t nc; int *cuts = ev_ints(w[1], &nc);
  fails = ev_ints(w[5], &nfails);
  src = (ev_source_t){.data = b, .len = n, .cuts = cuts, .ncuts = nc, .ending = atoi(w[2]), .quiet = 1};
  int hnr = atoi(w[3]);
  struct ubx_sbp_state *st = malloc(sizeof *st);
  memset(st, 0xA5, sizeof *st);
  ubx_sbp_init(st, cb, NULL);
  if (hnr) ubx_set_hnr_flag(st, true);
  int sender = w[4][0] == '-' ? 61568 : atoi(w[4]);
  if (w[4][0] != '-') ubx_set_sender_id(st, (u16)sender);
  shim_eph_hook = eph; calls = 0; arm();
  printf("{\"e\":\"Begin\",\"b\":"); ev_bytes(b, n);
  printf(",\"end\":%d,\"hnr\":%d,\"sender\":", src.ending, hnr); ev_u64((uint64_t)sender); printf(",\"fails\":[");
  for (size_t i = 0; i < nfails; i++) printf("%s%d", i ? "," : "", fails[i]);
  puts("]}");
  int ret;
  do {
    printf("{\"e\":\"Call\",\"outs\":[");
    sd_n = 0;
    ret = ubx_sbp_process(st, rd);
    printf("],\"ret\":%d}\n", ret);
  } while (ret > 0);
  ev_done();
}
int main(void) {
  char *line = NULL; size_t cap = 0;
  setvbuf(stdin, NULL, _IONBF, 0);
  while (getline(&line, &cap, stdin) > 0) {
    if (strlen(line) < 3) continue;
    fflush(stdout);
    pid_t p = fork();
    if (!p) { one(line); fflush(stdout); _Exit(0); }
    int st;
    waitpid(p, &st, 0);
    if (st) return WIFEXITED(st) ? WEXITSTATUS(st) : 98;
  }
  return 0;
}
