// Bit fields of a buffer, and the texts of ST receivers, as the libraries read and write them.
//   B hex            a new buffer
//   W kind pos len v write (kind: 0..4 rtcm u, ul, s, sl, sign-magnitude; 5, 6 ubx ul, sl)
//   R kind pos len   read  (0..4 rtcm u, ul, s, sl, sign-magnitude)
//   T hex n n ...    sign-magnitude fields of these widths from a bit stream
//   F hex len        firmware version into a text of len bytes;  C hex len: configuration
//   S hex bits       RF status
#include <rtcm3/bits.h>
#include <rtcm3/sta_decode.h>
#include "ev.h"
// in no header: left out where they are not there
__attribute__((weak)) void ubx_setbitul(uint8_t *buff, uint32_t pos, uint32_t len, uint64_t data);
__attribute__((weak)) void ubx_setbitsl(uint8_t *buff, uint32_t pos, uint32_t len, int64_t data);
static char *tok;
static char *W(void) { return strtok_r(NULL, " \n", &tok); }
static long N(void) { return strtol(W(), NULL, 0); }
int main(void) {
  char *line = NULL; size_t cap = 0;
  uint8_t *b = NULL; size_t n = 0;
  while (getline(&line, &cap, stdin) > 0) {
    if (line[0] == '.') { ev_done(); continue; }
    char *op = strtok_r(line, " \n", &tok);
    if (!op) continue;
    if (op[0] == 'B') {
      free(b); b = ev_unhex(W(), &n);
      printf("{\"e\":\"Buffer\",\"b\":"); ev_bytes(b, n); puts("}");
    } else if (op[0] == 'W') {
      int k = (int)N(); uint32_t p = (uint32_t)N(), w = (uint32_t)N(); int64_t v = (int64_t)strtoull(W(), NULL, 16);
      if ((k == 5 && !ubx_setbitul) || (k == 6 && !ubx_setbitsl)) continue;
      switch (k) {
        case 0: rtcm_setbitu(b, p, w, (uint32_t)v); break;
        case 1: rtcm_setbitul(b, p, w, (uint64_t)v); break;
        case 2: rtcm_setbits(b, p, w, (int32_t)v); break;
        case 3: rtcm_setbitsl(b, p, w, v); break;
        case 4: rtcm_set_sign_magnitude_bit(b, p, (uint8_t)w, v); break;
        case 5: ubx_setbitul(b, p, w, (uint64_t)v); break;
        default: ubx_setbitsl(b, p, w, v);
      }
      printf("{\"e\":\"Write\",\"k\":%d,\"p\":%u,\"n\":%u,\"v\":", k, p, w); ev_u64((uint64_t)v);
      printf(",\"b\":"); ev_bytes(b, n); puts("}");
    } else if (op[0] == 'R') {
      int k = (int)N(); uint32_t p = (uint32_t)N(); uint8_t w = (uint8_t)N(); int64_t v = 0;
      switch (k) {
        case 0: v = rtcm_getbitu(b, p, w); break;
        case 1: v = (int64_t)rtcm_getbitul(b, p, w); break;
        case 2: v = rtcm_getbits(b, p, w); break;
        case 3: v = rtcm_getbitsl(b, p, w); break;
        default: v = rtcm_get_sign_magnitude_bit(b, p, w);
      }
      printf("{\"e\":\"Read\",\"k\":%d,\"p\":%u,\"n\":%u,\"v\":", k, p, w); ev_u64((uint64_t)v); puts("}");
    } else if (op[0] == 'T') {
      size_t m; uint8_t *d = ev_unhex(W(), &m); char *s; int rc = 0, ws[64], k = 0, c = 0; int64_t out[64];
      swiftnav_bitstream_t st; swiftnav_bitstream_init(&st, d, (uint32_t)(8 * m));
      while ((s = W()) && c < 64) ws[c++] = atoi(s);
      for (; k < c; k++) { int32_t v = 0x5A5A5A5A; if ((rc = rtcm_get_sign_magnitude_bitstream(&st, (uint8_t)ws[k], &v))) break; out[k] = v; }
      printf("{\"e\":\"Stream\",\"b\":"); ev_bytes(d, m); printf(",\"ok\":%d,\"ws\":[", rc == 0);
      for (int i = 0; i < c; i++) printf("%s%d", i ? "," : "", ws[i]);
      printf("],\"vs\":[");
      for (int i = 0; i < k; i++) { if (i) putchar(','); ev_u64((uint64_t)out[i]); }
      puts("]}");
      free(d);
    } else if (op[0] == 'F' || op[0] == 'C') {
      size_t m; uint8_t *d = ev_unhex(W(), &m); long len = N();
      char *s = (char *)malloc((size_t)len);
      memset(s, 0x7E, (size_t)len);
      int rc = op[0] == 'F' ? sta_decode_fwver(d, s, (uint8_t)len) : sta_decode_rcc_config(d, s, (uint8_t)len);
      printf("{\"e\":\"%s\",\"b\":", op[0] == 'F' ? "Version" : "Config"); ev_bytes(d, m);
      printf(",\"len\":%ld,\"rc\":%d,\"s\":", len, rc); ev_bytes((uint8_t *)s, strnlen(s, (size_t)len)); puts("}");
      free(s); free(d);
    } else {
      size_t m; uint8_t *d = ev_unhex(W(), &m); long bits = N();
      sta_rf_status st; memset(&st, 0x7E, sizeof st);
      int rc = sta_decode_rfstatus(d, &st, (uint16_t)bits);
      printf("{\"e\":\"Status\",\"b\":"); ev_bytes(d, m);
      printf(",\"bits\":%ld,\"rc\":%d,\"time\":", bits, rc); ev_u32(st.gnss_epoch_time); printf(",\"mask\":%u}\n", st.status_mask);
      free(d);
    }
  }
  return 0;
}
