// SBP -> RTCM driver.  stdin: one scenario per line:
//   <api|conv|main> <step>...
//   L:<leap> M:<mode> F:<sat>,<fcn> H:<height/10um> D:<hex ant>,<hex rcv>   settings (api)
//   S:<type>,<sender>,<hex>  a message      W:<n>,<n>..  sizes of the following reads
// An event holds everything that was written before the next step.
#include "ev.h"
#include <gnss-converters-extra/sbp_conv.h>
#include <gnss-converters-extra/sbp_rtcm3.h>
#include <sys/wait.h>
#include <unistd.h>
int sbp2rtcm_main(int, char **, const char *, int (*)(uint8_t *, uint32_t, void *), int (*)(uint8_t *, uint16_t, void *), void *);

static uint8_t out[1 << 20];
static size_t out_n;
static int cookie;
static void put(const uint8_t *b, size_t n) {
  if (out_n + n > sizeof out) _Exit(72);
  memcpy(out + out_n, b, n);
  out_n += n;
}
static s32 collect(u8 *b, u16 n, void *c) {
  if (c != &cookie) _Exit(73);
  put(b, n);
  return n;
}
static int sizes[16] = {1000}, nsizes = 1, turn;
static int next_size(void) { return sizes[turn++ % nsizes]; }
static void flush_out(void) { printf(",\"out\":"); ev_bytes(out, out_n); puts("}"); out_n = 0; }
static void msg_event(unsigned type, unsigned snd, const uint8_t *b, size_t n) {
  printf("{\"e\":\"Msg\",\"type\":%u,\"snd\":%u,\"b\":", type, snd);
  ev_bytes(b, n);
  flush_out();
}

static void call(struct rtcm3_out_state *st, unsigned type, u16 snd, const u8 *b, u8 n) {
  switch (type) {
    case SBP_MSG_BASE_POS_ECEF: sbp2rtcm_base_pos_ecef_cb(snd, n, b, st); break;
    case SBP_MSG_GLO_BIASES: sbp2rtcm_glo_biases_cb(snd, n, b, st); break;
    case SBP_MSG_OBS: sbp2rtcm_sbp_obs_cb(snd, n, b, st); break;
    case SBP_MSG_OSR: sbp2rtcm_sbp_osr_cb(snd, n, b, st); break;
    case SBP_MSG_SSR_ORBIT_CLOCK: sbp2rtcm_sbp_ssr_orbit_clock_cb(snd, n, b, st); break;
    case SBP_MSG_SSR_PHASE_BIASES: sbp2rtcm_sbp_ssr_phase_biases_cb(snd, n, b, st); break;
    case SBP_MSG_SSR_CODE_BIASES: sbp2rtcm_sbp_ssr_code_biases_cb(snd, n, b, st); break;
    case SBP_MSG_SSR_GRIDDED_CORRECTION_DEP_A: sbp2rtcm_sbp_ssr_gridded_correction_cb(snd, n, b, st); break;
    case SBP_MSG_SSR_GRID_DEFINITION_DEP_A: sbp2rtcm_sbp_ssr_grid_definition_cb(snd, n, b, st); break;
    case SBP_MSG_SSR_STEC_CORRECTION_DEP_A: sbp2rtcm_sbp_ssr_stec_correction_cb(snd, n, b, st); break;
    case SBP_MSG_EPHEMERIS_GPS: sbp2rtcm_sbp_gps_eph_cb(snd, n, b, st); break;
    case SBP_MSG_EPHEMERIS_GLO: sbp2rtcm_sbp_glo_eph_cb(snd, n, b, st); break;
    case SBP_MSG_EPHEMERIS_BDS: sbp2rtcm_sbp_bds_eph_cb(snd, n, b, st); break;
    case SBP_MSG_EPHEMERIS_GAL: sbp2rtcm_sbp_gal_eph_cb(snd, n, b, st); break;
    case SBP_MSG_LOG: sbp2rtcm_sbp_log_cb(snd, n, b, st); break;
    default: break;
  }
}

// the tool: what is left to read, as whole frames
typedef struct { unsigned type, snd; uint8_t *b; size_t n; } in_t;
static in_t in[2000];
static int n_in, at_in = -1;
static uint8_t frame[300];
static size_t frame_n, frame_at;
static uint16_t crc16(const uint8_t *p, size_t n) {
  uint16_t c = 0;
  for (size_t i = 0; i < n; i++) {
    c ^= (uint16_t)(p[i] << 8);
    for (int k = 0; k < 8; k++) c = (uint16_t)((c & 0x8000) ? (c << 1) ^ 0x1021 : c << 1);
  }
  return c;
}
static int tool_read(uint8_t *buf, uint32_t n, void *c) {
  if (c != &cookie) _Exit(73);
  if (frame_at == frame_n) {
    if (at_in >= 0) msg_event(in[at_in].type, in[at_in].snd, in[at_in].b, in[at_in].n);
    if (++at_in == n_in) { ev_done(); _Exit(0); }
    in_t *m = &in[at_in];
    frame[0] = 0x55;
    frame[1] = (uint8_t)m->type; frame[2] = (uint8_t)(m->type >> 8);
    frame[3] = (uint8_t)m->snd; frame[4] = (uint8_t)(m->snd >> 8);
    frame[5] = (uint8_t)m->n;
    memcpy(frame + 6, m->b, m->n);
    uint16_t crc = crc16(frame + 1, m->n + 5);
    frame[6 + m->n] = (uint8_t)crc; frame[7 + m->n] = (uint8_t)(crc >> 8);
    frame_n = m->n + 8; frame_at = 0;
  }
  size_t k = (size_t)next_size();
  if (k > n) k = n;
  if (k > frame_n - frame_at) k = frame_n - frame_at;
  memcpy(buf, frame + frame_at, k);
  frame_at += k;
  return (int)k;
}
static int tool_write(uint8_t *b, uint16_t n, void *c) {
  if (c != &cookie) _Exit(73);
  put(b, n);
  return n;
}

static char *cstr(const char *hex) {
  size_t n; uint8_t *b = ev_unhex(hex, &n);
  char *s = malloc(n + 1);
  memcpy(s, b, n); s[n] = 0;
  free(b);
  return s;
}
static void one(char *line) {
  char *save, *mode = strtok_r(line, " \n", &save);
  int tool = !strcmp(mode, "main"), api = !strcmp(mode, "api");
  printf("{\"e\":\"Begin\",\"mode\":\"%s\"}\n", mode);
  struct rtcm3_out_state *st = malloc(sizeof *st);
  memset(st, 0xA5, sizeof *st);
  sbp_conv_t conv = NULL;
  if (api) sbp2rtcm_init(st, collect, &cookie);
  else if (!tool) conv = sbp_conv_new();
  for (char *p = strtok_r(NULL, " \n", &save); p; p = strtok_r(NULL, " \n", &save)) {
    char *v = p + 2;
    switch (p[0]) {
      case 'L': sbp2rtcm_set_leap_second((s8)atoi(v), st); printf("{\"e\":\"Leap\",\"v\":%d", atoi(v)); flush_out(); break;
      case 'M': sbp2rtcm_set_rtcm_out_mode((msm_enum)atoi(v), st); printf("{\"e\":\"Mode\",\"m\":%d", atoi(v)); flush_out(); break;
      case 'F': {
        int sat = atoi(v), fcn = atoi(strchr(v, ',') + 1);
        sbp2rtcm_set_glo_fcn((sbp_gnss_signal_t){.sat = (u8)sat, .code = 3}, (u8)fcn, st);
        printf("{\"e\":\"Fcn\",\"sat\":%d,\"fcn\":%d", sat, fcn); flush_out(); break;
      }
      case 'H': {
        bool ok = sbp2rtcm_set_ant_height(atoi(v) / 1e5, st);
        printf("{\"e\":\"Height\",\"h\":%d,\"ok\":%s", atoi(v), ok ? "true" : "false"); flush_out(); break;
      }
      case 'D': {
        char *comma = strchr(v, ','); *comma = 0;
        char *a = cstr(v), *r = cstr(comma + 1);
        sbp2rtcm_set_rcv_ant_descriptors(a, r, st);
        printf("{\"e\":\"Desc\",\"ant\":"); ev_bytes((uint8_t *)a, strlen(a));
        printf(",\"rcv\":"); ev_bytes((uint8_t *)r, strlen(r)); flush_out();
        free(a); free(r); break;
      }
      case 'W': {
        size_t k; int *w = ev_ints(v, &k);  /* strtok inside, strtok_r here */
        nsizes = 0; turn = 0;
        for (size_t i = 0; i < k && i < 16; i++) sizes[nsizes++] = w[i];
        free(w); break;
      }
      case 'S': {
        char *c1 = strchr(v, ','), *c2 = strchr(c1 + 1, ',');
        unsigned type = (unsigned)atoi(v), snd = (unsigned)atoi(c1 + 1);
        size_t n; uint8_t *b = ev_unhex(c2 + 1, &n);
        if (n > 255) _Exit(74);
        if (tool) { if (n_in == 2000) _Exit(75); in[n_in++] = (in_t){type, snd, b, n}; break; }
        uint8_t *exact = malloc(n ? n : 1);
        memcpy(exact, b, n);
        if (api) call(st, type, (u16)snd, exact, (u8)n);
        else {
          for (int t = (int)type;; t = 0) {
            size_t want = (size_t)next_size();
            uint8_t *w = malloc(want ? want : 1);
            size_t got = sbp_conv(conv, (u16)snd, (u16)t, exact, n, w, want);
            if (got > want) _Exit(76);
            put(w, got);
            free(w);
            if (!got && want && !t) break;
          }
        }
        free(exact);
        msg_event(type, snd, b, n);
        free(b); break;
      }
      default: _Exit(71);
    }
  }
  if (tool) {
    char *argv[] = {"sbp2rtcm", NULL};
    sbp2rtcm_main(1, argv, "", tool_read, tool_write, &cookie);
    printf("{\"e\":\"Exit\"}\n");
  }
  if (conv) sbp_conv_delete(conv);
  free(st);
  ev_done();
}
int main(void) {
  char *line = NULL; size_t cap = 0;
  setvbuf(stdin, NULL, _IONBF, 0);
  while (getline(&line, &cap, stdin) > 0) {
    if (strlen(line) < 3) continue;
    fflush(stdout);
    pid_t p = fork();
    if (!p) { one(line); fflush(stdout); _Exit(0); }
    int st;
    waitpid(p, &st, 0);
    if (st) return WIFEXITED(st) ? WEXITSTATUS(st) : 98;
  }
  return 0;
}
