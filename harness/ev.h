// Event output shared by the drivers: one JSON object per line on stdout.
// Values wider than 30 bits are lists of 16-bit limbs, least significant first.
#ifndef VF_EV_H
#define VF_EV_H
#include <inttypes.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static inline void ev_limbs(uint64_t v, int n) {
  putchar('[');
  for (int i = 0; i < n; i++) printf("%s%u", i ? "," : "", (unsigned)((v >> (16 * i)) & 0xFFFF));
  putchar(']');
}
static inline void ev_u8(uint8_t v) { printf("[%u]", v); }
static inline void ev_u16(uint16_t v) { printf("[%u]", v); }
static inline void ev_u32(uint32_t v) { ev_limbs(v, 2); }
static inline void ev_u64(uint64_t v) { ev_limbs(v, 4); }
static inline void ev_f32(float v) { uint32_t u; memcpy(&u, &v, 4); ev_limbs(u, 2); }
static inline void ev_f64(double v) { uint64_t u; memcpy(&u, &v, 8); ev_limbs(u, 4); }
static inline void ev_bytes(const uint8_t *p, size_t n) {
  putchar('[');
  for (size_t i = 0; i < n; i++) printf("%s%u", i ? "," : "", p[i]);
  putchar(']');
}
static inline int ev_hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
// parses hex ("-" is empty) into a malloc'ed buffer of exactly the size
static inline uint8_t *ev_unhex(const char *s, size_t *n) {
  size_t len = (s[0] == '-') ? 0 : strlen(s) / 2;
  uint8_t *b = (uint8_t *)malloc(len ? len : 1);
  for (size_t i = 0; i < len; i++) b[i] = (uint8_t)(ev_hexv(s[2 * i]) * 16 + ev_hexv(s[2 * i + 1]));
  *n = len;
  return b;
}
static inline void ev_done(void) { puts("{\"e\":\"Done\"}"); fflush(stdout); }

// A byte source that hands a stream over in scripted pieces.  After the listed
// pieces it gives whatever is asked for; at the end it returns `ending`.
typedef struct {
  const uint8_t *data;
  size_t len, pos;
  const int *cuts;
  size_t ncuts, cut;
  int ending;
  long idle;
  int quiet;
} ev_source_t;
static inline int ev_source_read(ev_source_t *s, uint8_t *buf, uint32_t n) {
  size_t left = s->len - s->pos;
  if (left == 0) {
    if (++s->idle > 20000) { printf("{\"e\":\"Runaway\"}\n"); fflush(stdout); _Exit(70); }
    return s->ending;
  }
  size_t k = left;
  if (s->cut < s->ncuts) {
    size_t c = (size_t)s->cuts[s->cut++];
    if (c < k) k = c;
    if (k > n) { /* the rest of this piece comes with the next read */
      k = n;
      s->cut--;
      ((int *)s->cuts)[s->cut] -= (int)n;
    }
  }
  if (k > n) k = n;
  memcpy(buf, s->data + s->pos, k);
  s->pos += k;
  if (!s->quiet) printf("{\"e\":\"Read\",\"n\":%zu}\n", k);
  return (int)k;
}
static inline int *ev_ints(char *s, size_t *n) {
  size_t cap = 16;
  int *v = (int *)malloc(cap * sizeof(int));
  *n = 0;
  if (s[0] == '-' && s[1] == 0) return v;
  for (char *p = strtok(s, ","); p; p = strtok(NULL, ",")) {
    if (*n == cap) v = (int *)realloc(v, (cap *= 2) * sizeof(int));
    v[(*n)++] = atoi(p);
  }
  return v;
}
#endif
