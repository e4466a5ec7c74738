// iXCOM driver.  stdin: one scenario per line
//   S <hex> <cuts> <ending> <sender or ->      through the converter
//   L <which> <hex>                            through the library's decoder and encoder
//   C <hex>                                    checksum
#include "sbpdump.h"
#include <gnss-converters/ixcom_sbp.h>
#include <ixcom/decode.h>
#include <ixcom/encode.h>
uint16_t ixcom_checksum(const uint8_t buff[], size_t length);
static ev_source_t src;
static int rd(u8 *b, size_t n, void *c) { (void)c; return ev_source_read(&src, b, (uint32_t)n); }
static void cb(uint16_t sender, sbp_msg_type_t t, const sbp_msg_t *m, void *c) { (void)c; sd_msg(sender, t, m); }
static void header(XCOMHeader *h) {
  sd_I(h->sync); sd_I(h->msg_id); sd_I(h->frame_counter); sd_I(h->trigger_source); sd_I(h->msg_len); sd_I(h->gps_week);
  sd_I(h->gps_time_sec); sd_I(h->gps_time_usec);
}
static void stream(char **w) {
  size_t n; uint8_t *b = ev_unhex(w[1], &n);
  size_t nc; int *cuts = ev_ints(w[2], &nc);
  src = (ev_source_t){.data = b, .len = n, .cuts = cuts, .ncuts = nc, .ending = atoi(w[3]), .quiet = 1};
  struct ixcom_sbp_state *st = malloc(sizeof *st);
  memset(st, 0xA5, sizeof *st);
  ixcom_sbp_init(st, cb, NULL);
  int sender = w[4][0] == '-' ? 4711 : atoi(w[4]);
  if (w[4][0] != '-') ixcom_set_sender_id(st, (u16)sender);
  printf("{\"e\":\"Begin\",\"b\":"); ev_bytes(b, n);
  printf(",\"end\":%d,\"sender\":", src.ending); ev_u64((uint64_t)sender); puts("}");
  int ret;
  do {
    printf("{\"e\":\"Call\",\"outs\":[");
    sd_n = 0;
    ret = ixcom_sbp_process(st, rd);
    printf("],\"ret\":%d}\n", ret);
  } while (ret > 0);
  free(st); free(b);
}
static void lib(char **w) {
  int t = atoi(w[1]);
  size_t n; uint8_t *b = ev_unhex(w[2], &n);
  uint8_t *o = malloc(100);
  memset(o, 0x5A, 100);
  int rc; size_t k = 0;
  static union { XCOMmsg_IMURAW i; XCOMmsg_WHEELDATA w; } m;
  memset(&m, 0xA5, sizeof m);
  rc = t == 0 ? ixcom_decode_imuraw(b, &m.i) : ixcom_decode_wheeldata(b, &m.w);
  printf("{\"e\":\"Lib\",\"t\":%d,\"b\":", t); ev_bytes(b, n);
  printf(",\"rc\":%d,\"f\":[", rc);
  sd_first = 1;
  if (rc == 0 && t == 0) {
    header(&m.i.header);
    for (int i = 0; i < 3; i++) sd_F4(m.i.acc[i]);
    for (int i = 0; i < 3; i++) sd_F4(m.i.omg[i]);
    sd_I(m.i.footer.global_status.value); sd_I(m.i.footer.crc16);
    k = ixcom_encode_imuraw(&m.i, o);
  } else if (rc == 0) {
    header(&m.w.header);
    sd_F4(m.w.speed); sd_I(m.w.ticks); sd_I(m.w.footer.global_status.value); sd_I(m.w.footer.crc16);
    k = ixcom_encode_wheeldata(&m.w, o);
  }
  printf("],\"enc\":"); ev_bytes(o, k); puts("}");
  free(b); free(o);
}
int main(void) {
  char *line = NULL; size_t cap = 0;
  while (getline(&line, &cap, stdin) > 0) {
    if (line[0] == '.') { ev_done(); continue; }
    char *w[5]; int k = 0;
    for (char *p = strtok(line, " \n"); p && k < 5; p = strtok(NULL, " \n")) w[k++] = p;
    if (!k) continue;
    if (w[0][0] == 'S') stream(w);
    else if (w[0][0] == 'L') lib(w);
    else {
      size_t n; uint8_t *b = ev_unhex(w[1], &n);
      printf("{\"e\":\"Sum\",\"b\":"); ev_bytes(b, n); printf(",\"crc\":%u}\n", ixcom_checksum(b, n));
      free(b);
    }
  }
  return 0;
}
