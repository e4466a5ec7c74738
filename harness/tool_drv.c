// Runs the converter programs themselves, main() and all.  stdin: one scenario
// per line
//   <program> <hex input> <cuts> <ending> <clock> <configuration or {}> <command line arguments...>
// The program's reads and writes are served here: every read closes the event
// of the one before it, which holds how much that delivered and what was
// written before the next one.
#include "sbpdump.h"
#include <swiftnav/shim_swiftnav.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
int prog_ubx2sbp(int, char **);
int prog_ixcom2sbp(int, char **);
int prog_rtcm3tosbp(int, char **);
int prog_nov2sbp(int, char **);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_read(int, void *, size_t);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
static ev_source_t src;
static int running, open_event, at_end, whole;  // whole: only what was written in all is shown
static int pending;                             // a message whose bytes have not been written yet
static uint8_t *out;
static size_t n_out;
static time_t now;
static void mark(const char *what) { if (sd_n++) putchar(','); printf("{\"k\":\"%s\",\"s\":[],\"f\":[]}", what); }
static void close_event(void) {
  if (pending) { mark("NotWritten"); pending = 0; }
  if (open_event) { puts("]}"); open_event = 0; }
}
static ssize_t give(void *b, size_t n) {
  if (whole) return ev_source_read(&src, b, (uint32_t)n);
  close_event();
  ssize_t k = ev_source_read(&src, b, (uint32_t)n);
  printf("{\"e\":\"%s\",\"n\":%zd,\"outs\":[", k > 0 ? "Read" : "End", k);
  sd_n = 0; open_event = 1;
  return k;
}
static void hook(uint16_t sender, sbp_msg_type_t t, const sbp_msg_t *m) {
  running = 0;
  if (pending) mark("NotWritten");
  sd_msg(sender, t, m);
  pending = 1;
  running = 1;
}
static void eph(const char *kind, const void *data, size_t n, gnss_signal_t sid, double arg) {
  running = 0;
  if (sd_n++) putchar(',');
  printf("{\"k\":\"Nav%s\",\"s\":[],\"f\":[", kind);
  sd_first = 1;
  sd_I(sid.sat); sd_I(sid.code); sd_I((int64_t)arg);
  for (size_t i = 0; i < n; i++) sd_I(((const uint8_t *)data)[i]);
  printf("]}");
  running = 1;
}
static void wrote(int fd, const void *b, size_t n) {
  if (whole) {
    if (fd != 1) return;
    out = realloc(out, n_out + n + 1);
    memcpy(out + n_out, b, n);
    n_out += n;
    return;
  }
  // the stand-in for libsbp gives the bytes it wants written
  if (fd != 1) return;
  if (!pending || n != sizeof shim_sbp_wire_buf || memcmp(b, shim_sbp_wire_buf, n)) mark("Stray");
  pending = 0;
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (!running || fd != 0) return __real_read(fd, b, n);
  running = 0;
  ssize_t k = give(b, n);
  running = 1;
  return k;
}
size_t __wrap_fread(void *b, size_t s, size_t c, FILE *f) {
  (void)f;
  running = 0;
  size_t want = s * c, got = 0;
  while (got < want && !at_end) {
    ssize_t k = give((uint8_t *)b + got, want - got);
    if (k <= 0) at_end = 1; else got += (size_t)k;
  }
  running = 1;
  return s ? got / s : 0;
}
int __wrap_feof(FILE *f) { (void)f; return at_end; }
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (!running) return __real_write(fd, b, n);
  running = 0; wrote(fd, b, n); running = 1;
  return (ssize_t)n;
}
size_t __wrap_fwrite(const void *b, size_t s, size_t c, FILE *f) {
  if (!running || f != stdout) return __real_fwrite(b, s, c, f);
  running = 0; wrote(1, b, s * c); running = 1;
  return c;
}
time_t __wrap_time(time_t *t) { if (t) *t = now; return now; }
static void one(char *line) {
  char *w[60]; int k = 0;
  for (char *p = strtok(line, " \n"); p && k < 59; p = strtok(NULL, " \n")) w[k++] = p;
  if (k < 6) _Exit(71);
  w[k] = NULL;
  const char *name = w[0];
  size_t n; uint8_t *b = ev_unhex(w[1], &n);
  size_t nc; int *cuts = ev_ints(w[2], &nc);
  now = (time_t)atoll(w[4]);
  src = (ev_source_t){.data = b, .len = n, .cuts = cuts, .ncuts = nc, .ending = atoi(w[3]), .quiet = 1};
  printf("{\"e\":\"Run\",\"b\":"); ev_bytes(b, n);
  printf(",\"end\":%d,\"clock\":%lld,\"cfg\":%s,\"args\":[", src.ending, (long long)now, w[5]);
  int text = 0;
  for (int i = 6; i < k; i++) {
    if (i > 6) putchar(',');
    ev_bytes((uint8_t *)w[i], strlen(w[i]));
    if (!strcmp(w[i], "-t")) text = 1;
  }
  puts("]}");
  char *argv[60]; int argc = 0;
  static char own[20];
  snprintf(own, sizeof own, "%s", name);
  argv[argc++] = own;
  for (int i = 6; i < k; i++) argv[argc++] = w[i];
  argv[argc] = NULL;
  shim_sbp_hook = hook; shim_eph_hook = eph; shim_sbp_wire = 1;
  int saved = -1, mem = -1;
  if (text) {  // what it prints, as text
    fflush(stdout);
    saved = dup(1); mem = memfd_create("out", 0);
    dup2(mem, 1);
  }
  whole = !strcmp(name, "nov2sbp");
  if (whole) shim_sbp_hook = NULL;
  int (*main_)(int, char **) = !strcmp(name, "ubx2sbp") ? prog_ubx2sbp : !strcmp(name, "ixcom2sbp") ? prog_ixcom2sbp : !strcmp(name, "rtcm3tosbp") ? prog_rtcm3tosbp : prog_nov2sbp;
  running = 1;
  int ret = main_(argc, argv);
  running = 0;
  if (text) {
    fflush(stdout);
    static char t[4096];
    lseek(mem, 0, SEEK_SET);
    ssize_t got = __real_read(mem, t, sizeof t - 1);
    dup2(saved, 1);
    printf("{\"e\":\"Text\",\"t\":"); ev_bytes((uint8_t *)t, got > 0 ? (size_t)got : 0); puts("}");
  }
  close_event();
  size_t i = 0;
  while (whole && i < n_out) {
    size_t len = i + 8 <= n_out ? 8u + out[i + 5] : n_out - i;
    if (i + len > n_out) len = n_out - i;
    printf("{\"e\":\"Sbp\",\"b\":"); ev_bytes(out + i, len); puts("}");
    i += len;
  }
  printf("{\"e\":\"Exit\",\"ret\":%d,\"left\":%zu}\n", ret & 255, src.len - src.pos);
  ev_done();
}
int main(void) {
  char *line = NULL; size_t cap = 0;
  setvbuf(stdin, NULL, _IONBF, 0);
  while (getline(&line, &cap, stdin) > 0) {
    if (strlen(line) < 3) continue;
    fflush(stdout);
    pid_t p = fork();
    if (!p) { one(line); fflush(stdout); _Exit(0); }
    int st;
    waitpid(p, &st, 0);
    if (st) return WIFEXITED(st) ? WEXITSTATUS(st) : 98;
  }
  return 0;
}
