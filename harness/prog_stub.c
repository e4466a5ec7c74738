// The C side of the programs, as far as their Rust side sees it: reads and writes as the environment says
// and notes what it got.  PROG_PLAN: "rN" read at most N bytes and write them, "R" do that to the end, "wN" write N
// bytes of its own, "xN" give N as status.  PROG_LOG: file for the events.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *out;
static void bytes(const uint8_t *b, long n) {
  putc('[', out);
  for (long i = 0; i < n; i++) fprintf(out, "%s%d", i ? "," : "", b[i]);
  putc(']', out);
}
static int run(const char *prog, int argc, char **argv, int (*rd)(void *, void *, size_t), int (*wr)(void *, const void *, size_t), void *fn) {
  char *plan = strdup(getenv("PROG_PLAN")), *w;
  int rc = 0;
  out = fopen(getenv("PROG_LOG"), "w");
  fprintf(out, "{\"e\":\"Main\",\"prog\":\"%s\",\"argv\":[", prog);
  for (int i = 1; i < argc; i++) fprintf(out, "%s\"%s\"", i > 1 ? "," : "", argv[i]);
  fprintf(out, "],\"ended\":%d}\n", argv[0] != NULL);
  for (w = strtok(plan, " "); w; w = strtok(NULL, " ")) {
    long n = atol(w + 1);
    if (w[0] == 'x') { rc = (int)n; continue; }
    int all = w[0] == 'R';
    if (all && !n) n = 100;
    uint8_t *b = malloc((size_t)n + 1);
    int k;
    do {
      k = (int)n;
      if (w[0] != 'w') {
        k = rd(fn, b, (size_t)n);
        fprintf(out, "{\"e\":\"Read\",\"want\":%ld,\"ret\":%d,\"b\":", n, k); bytes(b, k > 0 ? k : 0); fputs("}\n", out);
      } else {
        for (int i = 0; i < k; i++) b[i] = (uint8_t)(i * 7 + k);
      }
      for (int at = 0; at < k;) {
        int m = wr(fn, b + at, (size_t)(k - at));
        fprintf(out, "{\"e\":\"Write\",\"ret\":%d,\"b\":", m); bytes(b + at, k - at); fputs("}\n", out);
        if (m <= 0) break;
        at += m;
      }
    } while (all && k > 0);
    free(b);
  }
  fprintf(out, "{\"e\":\"Return\",\"rc\":%d}\n", rc);
  fclose(out);
  free(plan);
  return rc;
}
#define PROGRAM(name, rn, wn)                                                                                              \
  struct name##_io { int32_t (*r)(uint8_t *, rn, void *); int32_t (*w)(const uint8_t *, wn, void *); void *c; };          \
  static int name##_r(void *f, void *b, size_t n) { struct name##_io *i = f; return i->r(b, (rn)n, i->c); }               \
  static int name##_w(void *f, const void *b, size_t n) { struct name##_io *i = f; return i->w(b, (wn)n, i->c); }         \
  int name##_main(int argc, char **argv, const char *help, int32_t (*r)(uint8_t *, rn, void *),                            \
                  int32_t (*w)(const uint8_t *, wn, void *), void *c) {                                                    \
    struct name##_io io = {r, w, c};                                                                                       \
    (void)help;                                                                                                            \
    return run(#name, argc, argv, name##_r, name##_w, &io);                                                                \
  }
PROGRAM(ubx2sbp, size_t, uint32_t)
PROGRAM(ixcom2sbp, size_t, uint32_t)
PROGRAM(rtcm3tosbp, size_t, uint32_t)
PROGRAM(nov2sbp, size_t, size_t)
PROGRAM(sbp2rtcm, uint32_t, uint16_t)
