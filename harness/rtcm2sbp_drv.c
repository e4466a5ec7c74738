// RTCM -> SBP driver: runs the real rtcm3tosbp_main.  stdin: one scenario per line
//   <hex> <cuts> <ending> <configuration, a JSON object> <command line arguments...>
// Every read closes the event of the one before it: an event holds how much the
// read delivered and the messages that were sent before the next one.
#include "sbpdump.h"
int rtcm3tosbp_main(int, char **, const char *, int (*)(uint8_t *, size_t, void *), s32 (*)(u8 *, u32, void *), void *);
#include <sys/wait.h>
#include <unistd.h>
static ev_source_t src;
static int open_event;
static void close_event(void) { if (open_event) { puts("]}"); open_event = 0; } }
static int rd(u8 *b, size_t n, void *c) {
  (void)c;
  close_event();
  int k = ev_source_read(&src, b, (uint32_t)n);
  printf("{\"e\":\"%s\",\"n\":%d,\"outs\":[", k > 0 ? "Read" : "End", k);
  sd_n = 0; open_event = 1;
  return k;
}
static void hook(uint16_t sender, sbp_msg_type_t t, const sbp_msg_t *m) { sd_msg(sender, t, m); }
static s32 wr(u8 *b, u32 n, void *c) { (void)b; (void)c; return (s32)n; }
static void one(char *line) {
  char *w[40]; int k = 0;
  for (char *p = strtok(line, " \n"); p && k < 39; p = strtok(NULL, " \n")) w[k++] = p;
  if (k < 4) _Exit(71);
  w[k] = NULL;
  size_t n; uint8_t *b = ev_unhex(w[0], &n);
  size_t nc; int *cuts = ev_ints(w[1], &nc);
  src = (ev_source_t){.data = b, .len = n, .cuts = cuts, .ncuts = nc, .ending = atoi(w[2]), .quiet = 1};
  printf("{\"e\":\"Begin\",\"b\":"); ev_bytes(b, n);
  printf(",\"end\":%d,\"cfg\":%s}\n", src.ending, w[3]);
  w[3] = "rtcm3tosbp";
  shim_sbp_hook = hook;
  int ret = rtcm3tosbp_main(k - 3, &w[3], "", rd, wr, NULL);
  close_event();
  printf("{\"e\":\"Exit\",\"ret\":%d}\n", ret);
  ev_done();
}
int main(void) {
  char *line = NULL; size_t cap = 0;
  setvbuf(stdin, NULL, _IONBF, 0);
  while (getline(&line, &cap, stdin) > 0) {
    if (strlen(line) < 3) continue;
    fflush(stdout);
    pid_t p = fork();
    if (!p) { one(line); fflush(stdout); _Exit(0); }
    int st;
    waitpid(p, &st, 0);
    if (st) return WIFEXITED(st) ? WEXITSTATUS(st) : 98;
  }
  return 0;
}
