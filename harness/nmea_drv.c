// Runs the SBP to NMEA converter through its API.
// Script line:  <B|G|F> <op> <op> ..
//   f<num>/<den>  solution frequency in Hz        r<sentence>,<rate>
//   b<station>    c<mm/s> u<mm/s>  course thresholds
//   m<id>,<value>,..  a message: integers, 16 hex digits for a double, 8 for a single
//   o<wn>,<tow>,<n_obs>,<sat>,<code>,<flags>,..  observations
// Events: the operations as given, and Out with the bytes of every sentence.
#include <gnss-converters/nmea.h>
#include <gnss-converters/sbp_nmea.h>
#include "ev.h"
static void out(char *s, void *ctx) {
  (void)ctx;
  printf("{\"e\":\"Out\",\"b\":");
  ev_bytes((const uint8_t *)s, strlen(s));
  printf("}\n");
}
static const char *const fmt[16] = {"ii", "iiiiiiiii", "idddffffii", "iiiii", "iiiiii", "ii", "iii", "*", "*", "", "iiii",
                                    "ii", "iiiiiiiii", "idddffffii", "iiiii", "iii"};
static int64_t I[300];
static double D[3];
static float F[4];
static int parse(int id, char *p) {
  int n = 0, d = 0, f = 0, k = 0;
  const char *t = fmt[id];
  printf(",\"v\":[");
  for (char *w = strtok(p, ","); w; w = strtok(NULL, ","), k++) {
    if (k) putchar(',');
    char c = t[0] == '*' ? 'i' : t[k];
    if (c == 'd') {
      uint64_t u = strtoull(w, NULL, 16);
      memcpy(&D[d++], &u, 8);
      ev_u64(u);
    } else if (c == 'f') {
      uint32_t u = (uint32_t)strtoul(w, NULL, 16);
      memcpy(&F[f++], &u, 4);
      ev_u32(u);
    } else {
      I[n++] = strtoll(w, NULL, 10);
      printf("%" PRId64, I[n - 1]);
    }
  }
  putchar(']');
  return n;
}
static void message(sbp2nmea_t *st, char *p) {
  int id = (int)strtol(p, &p, 10);
  printf("{\"e\":\"Msg\",\"id\":%d", id);
  int n = parse(id, *p == ',' ? p + 1 : p);
  printf("}\n");
  static sbp_msg_t m;
  memset(&m, 0, sizeof m);
  switch (id) {
    case 0: case 11:
      m.gps_time.tow = (u32)I[0]; m.gps_time.wn = (u16)I[1];
      break;
    case 1: case 12:
      m.utc_time.tow = (u32)I[0]; m.utc_time.flags = (u8)I[1]; m.utc_time.year = (u16)I[2]; m.utc_time.month = (u8)I[3];
      m.utc_time.day = (u8)I[4]; m.utc_time.hours = (u8)I[5]; m.utc_time.minutes = (u8)I[6]; m.utc_time.seconds = (u8)I[7];
      m.utc_time.ns = (u32)I[8];
      break;
    case 2: case 13:
      m.pos_llh_cov.tow = (u32)I[0]; m.pos_llh_cov.lat = D[0]; m.pos_llh_cov.lon = D[1]; m.pos_llh_cov.height = D[2];
      m.pos_llh_cov.cov_n_n = F[0]; m.pos_llh_cov.cov_n_e = F[1]; m.pos_llh_cov.cov_e_e = F[2]; m.pos_llh_cov.cov_d_d = F[3];
      m.pos_llh_cov.n_sats = (u8)I[1]; m.pos_llh_cov.flags = (u8)I[2];
      break;
    case 3: case 14:
      m.vel_ned.tow = (u32)I[0]; m.vel_ned.n = (s32)I[1]; m.vel_ned.e = (s32)I[2]; m.vel_ned.d = (s32)I[3]; m.vel_ned.flags = (u8)I[4];
      break;
    case 4:
      m.dops.tow = (u32)I[0]; m.dops.pdop = (u16)I[1]; m.dops.hdop = (u16)I[2]; m.dops.vdop = (u16)I[3]; m.dops.tdop = (u16)I[4];
      m.dops.flags = (u8)I[5];
      break;
    case 5: m.age_corrections.tow = (u32)I[0]; m.age_corrections.age = (u16)I[1]; break;
    case 6: m.baseline_heading.tow = (u32)I[0]; m.baseline_heading.heading = (u32)I[1]; m.baseline_heading.flags = (u8)I[2]; break;
    case 7:
      m.sv_az_el.n_azel = (u8)(n / 4);
      for (int i = 0; i < n / 4; i++) {
        m.sv_az_el.azel[i].sid.sat = (u8)I[4 * i]; m.sv_az_el.azel[i].sid.code = (u8)I[4 * i + 1];
        m.sv_az_el.azel[i].az = (u8)I[4 * i + 2]; m.sv_az_el.azel[i].el = (s8)I[4 * i + 3];
      }
      break;
    case 8:
      m.measurement_state.n_states = (u8)(n / 3);
      for (int i = 0; i < n / 3; i++) {
        m.measurement_state.states[i].mesid.sat = (u8)I[3 * i]; m.measurement_state.states[i].mesid.code = (u8)I[3 * i + 1];
        m.measurement_state.states[i].cn0 = (u8)I[3 * i + 2];
      }
      break;
    case 10:
      m.soln_meta.tow = (u32)I[0]; m.soln_meta.hdop = (u16)I[1]; m.soln_meta.vdop = (u16)I[2]; m.soln_meta.age_corrections = (u16)I[3];
      break;
    case 15: m.orient_euler.tow = (u32)I[0]; m.orient_euler.yaw = (s32)I[1]; m.orient_euler.flags = (u8)I[2]; break;
    default: break;
  }
  sbp2nmea(st, &m, (sbp2nmea_sbp_id_t)id);
}
static void observations(sbp2nmea_t *st, char *p) {
  int v[64], n = 0;
  for (char *w = strtok(p, ","); w; w = strtok(NULL, ",")) v[n++] = atoi(w);
  static sbp_msg_obs_t m;
  memset(&m, 0, sizeof m);
  m.header.t.wn = (u16)v[0]; m.header.t.tow = (u32)v[1]; m.header.n_obs = (u8)v[2];
  m.n_obs = (u8)((n - 3) / 3);
  printf("{\"e\":\"Obs\",\"t\":[%d,%d],\"seq\":%d,\"o\":[", v[0], v[1], v[2]);
  for (int i = 0; i < m.n_obs; i++) {
    m.obs[i].sid.sat = (u8)v[3 + 3 * i]; m.obs[i].sid.code = (u8)v[4 + 3 * i]; m.obs[i].flags = (u8)v[5 + 3 * i];
    printf("%s[%d,%d,%d]", i ? "," : "", v[3 + 3 * i], v[4 + 3 * i], v[5 + 3 * i]);
  }
  printf("]}\n");
  sbp2nmea_obs(st, &m);
}
int main(void) {
  static char line[1 << 20];
  while (fgets(line, sizeof line, stdin)) {
    char *save, *w = strtok_r(line, " \n", &save);
    if (!w) continue;
    sbp2nmea_t *st = malloc(sizeof *st);
    memset(st, 0xA5, sizeof *st);
    printf("{\"e\":\"Init\",\"mode\":\"%c\"}\n", w[0]);
    sbp2nmea_init(st, w[0] == 'B' ? SBP2NMEA_MODE_BEST : w[0] == 'G' ? SBP2NMEA_MODE_GNSS : SBP2NMEA_MODE_FUSED, out, NULL);
    while ((w = strtok_r(NULL, " \n", &save))) {
      char *p;
      long a = w[0] == 'm' || w[0] == 'o' ? 0 : strtol(w + 1, &p, 10);
      switch (w[0]) {
        case 'f': {
          long b = strtol(p + 1, NULL, 10);
          printf("{\"e\":\"Freq\",\"num\":%ld,\"den\":%ld}\n", a, b);
          sbp2nmea_soln_freq_set(st, (float)((double)a / (double)b));
          break;
        }
        case 'r': {
          long b = strtol(p + 1, NULL, 10);
          printf("{\"e\":\"Rate\",\"id\":%ld,\"n\":%ld}\n", a, b);
          sbp2nmea_rate_set(st, (int)b, (sbp2nmea_nmea_id_t)a);
          break;
        }
        case 'b': printf("{\"e\":\"Base\",\"n\":%ld}\n", a); sbp2nmea_base_id_set(st, (uint16_t)a); break;
        case 'c': printf("{\"e\":\"Cog\",\"mm\":%ld}\n", a); sbp2nmea_cog_threshold_set(st, (float)((double)a / 1000.0)); break;
        case 'u': printf("{\"e\":\"Still\",\"mm\":%ld}\n", a); sbp2nmea_cog_stationary_threshold_set(st, (double)a / 1000.0); break;
        case 'm': message(st, w + 1); break;
        case 'o': observations(st, w + 1); break;
        default: break;
      }
    }
    printf("{\"e\":\"End\"}\n");
    ev_done();
    free(st);
  }
  return 0;
}
