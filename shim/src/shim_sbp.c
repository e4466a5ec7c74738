#include <libsbp/edc.h>
#include <libsbp/shim_sbp.h>
#include <stdlib.h>

shim_sbp_hook_t shim_sbp_hook;
int shim_sbp_wire;
u8 shim_sbp_wire_buf[12] = {0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8};

void sbp_msg_log_text_init(sbp_msg_log_t *m) { memset(&m->text, 0, sizeof(m->text)); }
bool sbp_msg_log_text_set_raw(sbp_msg_log_t *m, const char *buf, size_t n,
                              bool trunc, size_t *nw) {
  if (n > SBP_MSG_LOG_TEXT_MAX) {
    if (!trunc) return false;
    n = SBP_MSG_LOG_TEXT_MAX;
  }
  memcpy(m->text.data, buf, n);
  m->text.data[n] = 0;
  m->text.encoded_len = n;
  if (nw) *nw = n;
  return true;
}
bool sbp_msg_log_text_set(sbp_msg_log_t *m, const char *s, bool trunc, size_t *nw) {
  return sbp_msg_log_text_set_raw(m, s, strlen(s), trunc, nw);
}
const char *sbp_msg_log_text_get(const sbp_msg_log_t *m) { return m->text.data; }

u16 crc16_ccitt(const u8 *buf, u32 len, u16 crc) {
  for (u32 i = 0; i < len; i++) {
    crc = (u16)(crc ^ (buf[i] << 8));
    for (int k = 0; k < 8; k++) {
      crc = (u16)((crc & 0x8000u) ? (crc << 1) ^ 0x1021u : crc << 1);
    }
  }
  return crc;
}
void sbp_state_init(sbp_state_t *s) { memset(s, 0, sizeof(*s)); }
void sbp_state_set_io_context(sbp_state_t *s, void *ctx) { s->io_context = ctx; }
s8 sbp_register_callback(sbp_state_t *s, u16 type, void *cb, void *ctx,
                         sbp_msg_callbacks_node_t *node) {
  if (!cb || !node) return SBP_NULL_ERROR;
  /* a node is in the list at most once */
  for (sbp_msg_callbacks_node_t **p = &s->head; *p; p = &(*p)->next) {
    if (*p == node) {
      *p = node->next;
      break;
    }
  }
  node->msg_type = type;
  node->cb = cb;
  node->context = ctx;
  node->next = s->head;
  s->head = node;
  return SBP_OK;
}
static int rd(sbp_state_t *s, s32 (*read)(u8 *, u32, void *), u8 *p, u32 n) {
  u32 got = 0;
  while (got < n) {
    s32 r = read(p + got, n - got, s->io_context);
    if (r <= 0) return -1;
    got += (u32)r;
  }
  return 0;
}
s8 sbp_process(sbp_state_t *s, s32 (*read)(u8 *, u32, void *)) {
  u8 b = 0, h[5], c[2];
  s32 r = read(&b, 1, s->io_context);
  if (r < 0) return SBP_READ_ERROR;
  if (r == 0 || b != SBP_PREAMBLE) return SBP_OK;
  if (rd(s, read, h, 5)) return SBP_READ_ERROR;
  s->msg_type = (u16)(h[0] | h[1] << 8);
  s->sender_id = (u16)(h[2] | h[3] << 8);
  s->msg_len = h[4];
  if (rd(s, read, s->msg_buff, s->msg_len)) return SBP_READ_ERROR;
  if (rd(s, read, c, 2)) return SBP_READ_ERROR;
  u16 crc = crc16_ccitt(h, 5, 0);
  crc = crc16_ccitt(s->msg_buff, s->msg_len, crc);
  if (crc != (u16)(c[0] | c[1] << 8)) return SBP_CRC_ERROR;
  s8 ret = SBP_OK_CALLBACK_UNDEFINED;
  for (sbp_msg_callbacks_node_t *n = s->head; n; n = n->next) {
    if (n->msg_type == s->msg_type) {
      ((sbp_msg_callback_t)n->cb)(s->sender_id, s->msg_len, s->msg_buff,
                                  n->context);
      ret = SBP_OK_CALLBACK_EXECUTED;
    }
  }
  return ret;
}
s8 sbp_send_message(sbp_state_t *s, u16 type, u16 sender, u8 len, u8 *payload,
                    sbp_write_fn_t write) {
  if ((len && !payload) || !write) return SBP_NULL_ERROR;
  u8 h[6] = {SBP_PREAMBLE, (u8)type, (u8)(type >> 8), (u8)sender,
             (u8)(sender >> 8), len};
  u16 crc = crc16_ccitt(h + 1, 5, 0);
  crc = crc16_ccitt(payload, len, crc);
  u8 c[2] = {(u8)crc, (u8)(crc >> 8)};
  if (write(h, 6, s->io_context) != 6) return SBP_SEND_ERROR;
  if (len && write(payload, len, s->io_context) != len) return SBP_SEND_ERROR;
  if (write(c, 2, s->io_context) != 2) return SBP_SEND_ERROR;
  return SBP_OK;
}
s8 sbp_message_send(sbp_state_t *s, sbp_msg_type_t type, u16 sender,
                    const sbp_msg_t *msg, sbp_write_fn_t write) {
  if (shim_sbp_hook) shim_sbp_hook(sender, type, msg);
  if (shim_sbp_wire) { /* something for the writer to write */
    static u32 count;
    count++;
    memcpy(shim_sbp_wire_buf, &count, sizeof(count));
    if (!write) return SBP_NULL_ERROR;
    if (write(shim_sbp_wire_buf, sizeof(shim_sbp_wire_buf), s->io_context) !=
        (s32)sizeof(shim_sbp_wire_buf)) {
      return SBP_SEND_ERROR;
    }
  }
  return SBP_OK;
}
/* Wire image == memory image, up to the payload limit: enough for callers that
 * only carry an SBP message from one place to another. */
s8 sbp_message_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_type_t type,
                      sbp_msg_t *msg) {
  (void)type;
  memset(msg, 0, sizeof(*msg));
  memcpy(msg, buf, len);
  if (n_read) *n_read = len;
  return SBP_OK;
}
s8 sbp_message_encode(u8 *buf, u8 len, u8 *n_written, sbp_msg_type_t type,
                      const sbp_msg_t *msg) {
  (void)type;
  memcpy(buf, msg, len);
  if (n_written) *n_written = len;
  return SBP_OK;
}
