#include <stdarg.h>
#include <swiftnav/edc.h>
#include <swiftnav/shim_swiftnav.h>
#include <time.h>

/* ------------------------------ bits ------------------------------ */
u8 parity(u32 x) { return (u8)__builtin_parity(x); }
u64 getbitul(const u8 *buff, u32 pos, u8 len) {
  u64 v = 0;
  for (u32 i = pos; i < pos + len; i++) {
    v = (v << 1) | ((buff[i / 8] >> (7 - i % 8)) & 1u);
  }
  return v;
}
u32 getbitu(const u8 *buff, u32 pos, u8 len) {
  return (u32)getbitul(buff, pos, len);
}
s64 getbitsl(const u8 *buff, u32 pos, u8 len) {
  u64 v = getbitul(buff, pos, len);
  if (len > 0 && len < 64 && (v >> (len - 1)) & 1u) {
    v |= ~(u64)0 << len;
  }
  return (s64)v;
}
s32 getbits(const u8 *buff, u32 pos, u8 len) {
  return (s32)getbitsl(buff, pos, len);
}
void setbitul(u8 *buff, u32 pos, u32 len, u64 data) {
  for (u32 i = 0; i < len; i++) {
    u32 p = pos + i;
    u8 m = (u8)(1u << (7 - p % 8));
    if ((data >> (len - 1 - i)) & 1u) {
      buff[p / 8] |= m;
    } else {
      buff[p / 8] &= (u8)~m;
    }
  }
}
void setbitu(u8 *buff, u32 pos, u32 len, u32 data) {
  setbitul(buff, pos, len, data);
}
void setbits(u8 *buff, u32 pos, u32 len, s32 data) {
  setbitul(buff, pos, len, (u64)(s64)data);
}
void setbitsl(u8 *buff, u32 pos, u32 len, s64 data) {
  setbitul(buff, pos, len, (u64)data);
}
void bitcopy(
    void *dst, u32 dst_index, const void *src, u32 src_index, u32 count) {
  for (u32 i = 0; i < count; i++) {
    setbitu((u8 *)dst, dst_index + i, 1,
            getbitu((const u8 *)src, src_index + i, 1));
  }
}
void bitshl(void *buf, u32 size, u32 shift) {
  u8 *b = buf;
  for (u32 i = 0; i < size * 8; i++) {
    u32 v = (i + shift < size * 8) ? getbitu(b, i + shift, 1) : 0;
    setbitu(b, i, 1, v);
  }
}
u8 count_bits_u64(u64 v, u8 bv) {
  int n = __builtin_popcountll(v);
  return (u8)(bv ? n : 64 - n);
}
u8 count_bits_u32(u32 v, u8 bv) {
  int n = __builtin_popcount(v);
  return (u8)(bv ? n : 32 - n);
}
u8 count_bits_u16(u16 v, u8 bv) {
  int n = __builtin_popcount(v);
  return (u8)(bv ? n : 16 - n);
}
u8 count_bits_u8(u8 v, u8 bv) {
  int n = __builtin_popcount(v);
  return (u8)(bv ? n : 8 - n);
}
s32 sign_extend(u32 arg, u8 len) {
  u32 m = 1u << (len - 1);
  return (s32)((arg ^ m) - m);
}
u32 bitfield(u32 arg, u8 pos, u8 len) {
  return (arg >> pos) & (len >= 32 ? 0xFFFFFFFFu : ((1u << len) - 1));
}

/* ------------------------------ bitstream ------------------------------ */
void swiftnav_bitstream_init(swiftnav_bitstream_t *b,
                             const u8 *payload,
                             u32 bits) {
  b->data = payload;
  b->len = bits;
  b->offset = 0;
}
static bool bs_ok(const swiftnav_bitstream_t *b, u32 pos, u32 len) {
  return (u64)pos + len + b->offset <= b->len;
}
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *b,
                                u32 *out, u32 pos, u8 len) {
  if (!bs_ok(b, pos, len)) return false;
  *out = getbitu(b->data, b->offset + pos, len);
  return true;
}
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *b,
                                 u64 *out, u32 pos, u8 len) {
  if (!bs_ok(b, pos, len)) return false;
  *out = getbitul(b->data, b->offset + pos, len);
  return true;
}
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *b,
                                s32 *out, u32 pos, u8 len) {
  if (!bs_ok(b, pos, len)) return false;
  *out = getbits(b->data, b->offset + pos, len);
  return true;
}
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *b,
                                 s64 *out, u32 pos, u8 len) {
  if (!bs_ok(b, pos, len)) return false;
  *out = getbitsl(b->data, b->offset + pos, len);
  return true;
}
bool swiftnav_bitstream_remove(swiftnav_bitstream_t *b, u32 len) {
  /* always advances (the callers ignore the result): reads past the end then fail */
  bool ok = bs_ok(b, 0, len);
  b->offset += len;
  return ok;
}
u32 swiftnav_bitstream_remaining(const swiftnav_bitstream_t *b) {
  return b->len > b->offset ? b->len - b->offset : 0;
}

/* ------------------------------ bytestream ------------------------------ */
void swiftnav_bytestream_init(swiftnav_bytestream_t *b,
                              const u8 *payload, u32 len) {
  b->data = payload;
  b->len = len;
  b->offset = 0;
}
bool swiftnav_bytestream_get_bytes(const swiftnav_bytestream_t *b,
                                   u32 index, u32 n, u8 *out) {
  if ((u64)index + n + b->offset > b->len) return false;
  memcpy(out, b->data + b->offset + index, n);
  return true;
}
bool swiftnav_bytestream_remove(swiftnav_bytestream_t *b, u32 n) {
  if ((u64)n + b->offset > b->len) return false;
  b->offset += n;
  return true;
}
u32 swiftnav_bytestream_remaining(const swiftnav_bytestream_t *b) {
  return b->len > b->offset ? b->len - b->offset : 0;
}

/* ------------------------------ crc ------------------------------ */
u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
  for (u32 i = 0; i < n_bits; i++) {
    u32 bit = getbitu(buf, i, 1);
    if (invert) bit ^= 1u;
    u32 top = (crc >> 23) & 1u;
    crc = (crc << 1) & 0xFFFFFFu;
    if (top ^ bit) crc ^= 0x864CFBu;
  }
  return crc;
}
u32 crc24q(const u8 *buf, u32 len, u32 crc) {
  return crc24q_bits(crc, buf, len * 8, false);
}

/* ------------------------------ fifo ------------------------------ */
void fifo_init(fifo_t *f, u8 *buffer, fifo_size_t size) {
  f->read_index = f->write_index = 0;
  f->buffer_size = size;
  f->buffer = buffer;
}
fifo_size_t fifo_length(fifo_t *f) { return f->write_index - f->read_index; }
fifo_size_t fifo_space(fifo_t *f) { return f->buffer_size - fifo_length(f); }
fifo_size_t fifo_write(fifo_t *f, const u8 *b, fifo_size_t n) {
  if (n > fifo_space(f)) n = fifo_space(f);
  for (fifo_size_t i = 0; i < n; i++) {
    f->buffer[(f->write_index + i) % f->buffer_size] = b[i];
  }
  f->write_index += n;
  return n;
}
fifo_size_t fifo_peek(fifo_t *f, u8 *b, fifo_size_t n) {
  if (n > fifo_length(f)) n = fifo_length(f);
  for (fifo_size_t i = 0; i < n; i++) {
    b[i] = f->buffer[(f->read_index + i) % f->buffer_size];
  }
  return n;
}
fifo_size_t fifo_remove(fifo_t *f, fifo_size_t n) {
  if (n > fifo_length(f)) n = fifo_length(f);
  f->read_index += n;
  return n;
}
fifo_size_t fifo_read(fifo_t *f, u8 *b, fifo_size_t n) {
  return fifo_remove(f, fifo_peek(f, b, n));
}

/* ------------------------------ floats, strings ------------------------- */
bool float_equal(float a, float b) { return fabsf(a - b) < 1e-7f; }
bool double_equal(double a, double b) { return fabs(a - b) < 1e-12; }
bool double_approx_eq(double a, double b) { return fabs(a - b) < 1e-4; }
bool double_within(double a, double b, double t) { return fabs(a - b) < t; }
bool is_value_in_array_u16(const u16 *arr, size_t n, u16 v) {
  for (size_t i = 0; i < n; i++) {
    if (arr[i] == v) return true;
  }
  return false;
}
size_t swift_strnlen(const char *s, size_t n) {
  size_t i = 0;
  while (i < n && s[i]) i++;
  return i;
}
int memcpy_s(void *dst, size_t dsz, const void *src, size_t n) {
  if (!dst || !src || n > dsz) return 1;
  memcpy(dst, src, n);
  return 0;
}
void shim_memcpy_s(void *dst, size_t dsz, const void *src, size_t n) {
  if (memcpy_s(dst, dsz, src, n) != 0) {
    fprintf(stderr, "MEMCPY_S constraint violated\n");
    abort();
  }
}

/* ------------------------------ time ------------------------------ */
bool gps_time_valid(const gps_time_t *t) {
  return isfinite(t->tow) && t->tow >= 0 && t->tow < WEEK_SECS && t->wn >= 0 &&
         t->wn < INT16_MAX;
}
bool gps_current_time_valid(const gps_time_t *t) {
  return gps_time_valid(t) && t->wn >= GPS_WEEK_REFERENCE;
}
bool normalize_gps_time_safe(gps_time_t *t) {
  if (!isfinite(t->tow)) return false;
  double tow = t->tow;
  int wn = t->wn;
  if (wn == WN_UNKNOWN) {
    /* unknown week: leave the week, wrap the time of week */
    while (tow < 0) tow += WEEK_SECS;
    while (tow >= WEEK_SECS) tow -= WEEK_SECS;
  } else {
    while (tow < 0) {
      tow += WEEK_SECS;
      wn--;
    }
    while (tow >= WEEK_SECS) {
      tow -= WEEK_SECS;
      wn++;
    }
  }
  t->tow = tow;
  t->wn = (s16)wn;
  return wn >= WN_UNKNOWN;
}
bool unsafe_normalize_gps_time(gps_time_t *t) {
  return normalize_gps_time_safe(t);
}
void normalize_gps_time(gps_time_t *t) { (void)normalize_gps_time_safe(t); }
double gpsdifftime(const gps_time_t *end, const gps_time_t *begin) {
  double dt = end->tow - begin->tow;
  if (end->wn == WN_UNKNOWN || begin->wn == WN_UNKNOWN) {
    if (dt > WEEK_SECS / 2) {
      dt -= WEEK_SECS;
    } else if (dt < -WEEK_SECS / 2) {
      dt += WEEK_SECS;
    }
  } else {
    dt += (double)(end->wn - begin->wn) * WEEK_SECS;
  }
  return dt;
}
void add_secs(gps_time_t *t, double secs) {
  t->tow += secs;
  normalize_gps_time(t);
}
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref) {
  if (!isfinite(t->tow) || !isfinite(ref->tow)) return false;
  if (!gps_time_valid(ref)) return gps_time_valid(t); /* nothing to match */
  t->wn = ref->wn;
  double dt = t->tow - ref->tow;
  if (dt > WEEK_SECS / 2) {
    t->wn--;
  } else if (dt < -WEEK_SECS / 2) {
    t->wn++;
  }
  return t->wn >= 0;
}
void gps_time_match_weeks(gps_time_t *t, const gps_time_t *ref) {
  (void)gps_time_match_weeks_safe(t, ref);
}
u16 gps_adjust_week_cycle(u16 wn_raw, u16 wn_ref) {
  if (wn_raw >= wn_ref) return wn_raw;
  return (u16)(wn_raw +
               GPS_WEEK_CYCLE *
                   ((wn_ref + GPS_WEEK_CYCLE - 1 - wn_raw) / GPS_WEEK_CYCLE));
}
/* GPS times at which the leap second count changed (start of the new count) */
static const struct {
  s16 wn;
  double tow;
} kLeap[] = {{77, 259201},   {129, 345602},  {181, 432003},  {286, 86404},
             {416, 432005},  {520, 86406},   {572, 172807},  {651, 259208},
             {703, 345609},  {755, 432010},  {834, 86411},   {912, 432012},
             {990, 432013},  {1356, 14},     {1512, 15},     {1695, 16},
             {1851, 259217}, {1930, 18}};
double get_gps_utc_offset(const gps_time_t *t, const utc_params_t *p) {
  if (p) {
    if (p->t_lse.wn > 0 && gpsdifftime(t, &p->t_lse) >= 0) return p->dt_lsf;
    return p->dt_ls;
  }
  int n = 0;
  for (size_t i = 0; i < ARRAY_SIZE(kLeap); i++) {
    gps_time_t e = {kLeap[i].tow, kLeap[i].wn};
    if (gpsdifftime(t, &e) >= 0) n = (int)i + 1;
  }
  return n;
}
double get_utc_gps_offset(const gps_time_t *t, const utc_params_t *p) {
  gps_time_t g = *t;
  add_secs(&g, get_gps_utc_offset(t, p));
  return -get_gps_utc_offset(&g, p);
}
bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p) {
  if (p) {
    double d = gpsdifftime(t, &p->t_lse);
    return d >= 0 && d < 1 && p->dt_lsf != p->dt_ls;
  }
  for (size_t i = 0; i < ARRAY_SIZE(kLeap); i++) {
    gps_time_t e = {kLeap[i].tow - 1, kLeap[i].wn};
    normalize_gps_time(&e);
    double d = gpsdifftime(t, &e);
    if (d >= 0 && d < 1) return true;
  }
  return false;
}
gps_time_t time2gps_t(time_t t) {
  gps_time_t g;
  t -= GPS_EPOCH;
  g.wn = (s16)(t / WEEK_SECS);
  g.tow = (double)(t % WEEK_SECS);
  return g;
}
/* Unix time is UTC: behind GPS time by the leap seconds */
time_t gps2time(const gps_time_t *t) {
  return GPS_EPOCH + (time_t)t->wn * WEEK_SECS + (time_t)t->tow - (time_t)rint(get_gps_utc_offset(t, NULL));
}
bool is_leap_year(s32 y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
gps_time_t date2gps(s32 year, s32 month, s32 day, s32 hour, s32 min,
                    double sec) {
  struct tm tm;
  memset(&tm, 0, sizeof(tm));
  tm.tm_year = year - 1900;
  tm.tm_mon = month - 1;
  tm.tm_mday = day;
  tm.tm_hour = hour;
  tm.tm_min = min;
  time_t t = timegm(&tm);
  gps_time_t g = time2gps_t(t);
  /* UTC -> GPS */
  add_secs(&g, sec);
  add_secs(&g, get_gps_utc_offset(&g, NULL));
  return g;
}
u8 days_in_month(u16 year, u8 month) {
  static const u8 d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  if (month < 1 || month > 12) return 0;
  return (u8)(d[month - 1] + (month == 2 && is_leap_year(year)));
}

/* ------------------------------ signals ------------------------------ */
static const char *kCodeStr[CODE_COUNT] = {
    "GPS L1CA", "GPS L2CM",  "SBAS L1",  "GLO L1OF", "GLO L2OF", "GPS L1P",
    "GPS L2P",  "GPS L2CL",  "GPS L2C",  "GPS L5I",  "GPS L5Q",  "GPS L5",
    "BDS B1",   "BDS B2",    "GAL E1B",  "GAL E1C",  "GAL E1",   "GAL E6B",
    "GAL E6C",  "GAL E6",    "GAL E5bI", "GAL E5bQ", "GAL E5b",  "GAL E5abI",
    "GAL E5abQ", "GAL E5ab", "GAL E5aI", "GAL E5aQ", "GAL E5a",  "GLO L1P",
    "GLO L2P",  "QZS L1CA",  "QZS L1CD", "QZS L1CP", "QZS L1C",  "QZS L2CM",
    "QZS L2CL", "QZS L2C",   "QZS L5I",  "QZS L5Q",  "QZS L5",   "SBAS L5I",
    "SBAS L5Q", "SBAS L5",   "BDS3 B1CD", "BDS3 B1CP", "BDS3 B1C", "BDS3 B5I",
    "BDS3 B5Q", "BDS3 B5",   "BDS3 B7I", "BDS3 B7Q", "BDS3 B7",  "BDS3 B3I",
    "BDS3 B3Q", "BDS3 B3",   "GPS L1CD", "GPS L1CP", "GPS L1C",  "GPS AUX",
    "SBAS AUX", "GAL AUX",   "QZS AUX",  "BDS AUX"};
const char *code_to_string(code_t c) {
  return code_valid(c) ? kCodeStr[c] : "?";
}
bool code_valid(code_t c) { return (int)c >= 0 && (int)c < CODE_COUNT; }
bool constellation_valid(constellation_t c) {
  return c >= 0 && c < CONSTELLATION_COUNT;
}
constellation_t code_to_constellation(code_t c) {
  switch ((int)c) {
    case 0: case 1: case 5: case 6: case 7: case 8: case 9: case 10: case 11:
    case 56: case 57: case 58: case 59:
      return CONSTELLATION_GPS;
    case 2: case 41: case 42: case 43: case 60:
      return CONSTELLATION_SBAS;
    case 3: case 4: case 29: case 30:
      return CONSTELLATION_GLO;
    case 12: case 13: case 63:
      return CONSTELLATION_BDS;
    case 61:
      return CONSTELLATION_GAL;
    case 62:
      return CONSTELLATION_QZS;
    default:
      if (c >= 14 && c <= 28) return CONSTELLATION_GAL;
      if (c >= 31 && c <= 40) return CONSTELLATION_QZS;
      if (c >= 44 && c <= 55) return CONSTELLATION_BDS;
      return CONSTELLATION_INVALID;
  }
}
constellation_t sid_to_constellation(gnss_signal_t s) {
  return code_to_constellation(s.code);
}
code_t constellation_to_l1_code(constellation_t c) {
  switch ((int)c) {
    case CONSTELLATION_GPS: return CODE_GPS_L1CA;
    case CONSTELLATION_SBAS: return CODE_SBAS_L1CA;
    case CONSTELLATION_GLO: return CODE_GLO_L1OF;
    case CONSTELLATION_BDS: return CODE_BDS2_B1;
    case CONSTELLATION_QZS: return CODE_QZS_L1CA;
    case CONSTELLATION_GAL: return CODE_GAL_E1B;
    default: return CODE_INVALID;
  }
}
static const struct {
  u16 first, n;
} kSats[CONSTELLATION_COUNT] = {{GPS_FIRST_PRN, NUM_SATS_GPS},
                                {SBAS_FIRST_PRN, NUM_SATS_SBAS},
                                {GLO_FIRST_PRN, NUM_SATS_GLO},
                                {BDS_FIRST_PRN, NUM_SATS_BDS},
                                {QZS_FIRST_PRN, NUM_SATS_QZS},
                                {GAL_FIRST_PRN, NUM_SATS_GAL}};
bool sid_valid(gnss_signal_t s) {
  constellation_t c = code_to_constellation(s.code);
  if (!constellation_valid(c)) return false;
  return s.sat >= kSats[c].first && s.sat < kSats[c].first + kSats[c].n;
}
bool is_gps(code_t c) { return code_to_constellation(c) == CONSTELLATION_GPS; }
bool is_sbas(code_t c) { return code_to_constellation(c) == CONSTELLATION_SBAS; }
bool is_glo(code_t c) { return code_to_constellation(c) == CONSTELLATION_GLO; }
bool is_gal(code_t c) { return code_to_constellation(c) == CONSTELLATION_GAL; }
bool is_qzss(code_t c) { return code_to_constellation(c) == CONSTELLATION_QZS; }
bool is_bds2(code_t c) { return code_to_constellation(c) == CONSTELLATION_BDS; }
bool is_bds(code_t c) { return code_to_constellation(c) == CONSTELLATION_BDS; }
gnss_signal_t construct_sid(code_t code, u16 sat) {
  gnss_signal_t s = {sat, code};
  return s;
}
int sid_compare(const gnss_signal_t a, const gnss_signal_t b) {
  if (a.code != b.code) return (int)a.code - (int)b.code;
  return (int)a.sat - (int)b.sat;
}
int sid_to_string(char *s, int n, gnss_signal_t sid) {
  int r = snprintf(s, (size_t)n, "%s %u", code_to_string(sid.code), sid.sat);
  return r < n ? r : n - 1;
}
double code_to_carr_freq(code_t c) {
  switch ((int)c) {
    case 0: case 5: case 2: case 14: case 15: case 16: case 31: case 32:
    case 33: case 34: case 44: case 45: case 46: case 56: case 57: case 58:
      return GPS_L1_HZ;
    case 1: case 6: case 7: case 8: case 35: case 36: case 37:
      return GPS_L2_HZ;
    case 9: case 10: case 11: case 26: case 27: case 28: case 38: case 39:
    case 40: case 41: case 42: case 43: case 47: case 48: case 49:
      return GPS_L5_HZ;
    case 3: case 29: return GLO_L1_HZ;
    case 4: case 30: return GLO_L2_HZ;
    case 12: return BDS2_B1_HZ;
    case 13: case 20: case 21: case 22: case 50: case 51: case 52:
      return BDS2_B2_HZ;
    case 17: case 18: case 19: return GAL_E6_HZ;
    case 23: case 24: case 25: return GAL_E8_HZ;
    case 53: case 54: case 55: return BDS3_B3_HZ;
    default: return 0;
  }
}
double sid_to_carr_freq(gnss_signal_t s) { return code_to_carr_freq(s.code); }

/* ------------------------------ sid sets ------------------------------ */
void sid_set_init(gnss_sid_set_t *s) { memset(s, 0, sizeof(*s)); }
static int sid_idx(gnss_signal_t s) {
  constellation_t c = code_to_constellation(s.code);
  if (!sid_valid(s)) return -1;
  return s.sat - kSats[c].first;
}
void sid_set_add(gnss_sid_set_t *s, gnss_signal_t sid) {
  int i = sid_idx(sid);
  if (i >= 0) s->sats[sid.code] |= (u64)1 << i;
}
bool sid_set_contains(const gnss_sid_set_t *s, gnss_signal_t sid) {
  int i = sid_idx(sid);
  return i >= 0 && ((s->sats[sid.code] >> i) & 1);
}
u32 sid_set_get_sat_count(const gnss_sid_set_t *s) {
  u32 n = 0;
  for (int c = 0; c < CONSTELLATION_COUNT; c++) {
    u64 m = 0;
    for (int k = 0; k < CODE_COUNT; k++) {
      if ((int)code_to_constellation((code_t)k) == c) m |= s->sats[k];
    }
    n += (u32)__builtin_popcountll(m);
  }
  return n;
}
u32 sid_set_get_sig_count(const gnss_sid_set_t *s) {
  u32 n = 0;
  for (int k = 0; k < CODE_COUNT; k++) {
    n += (u32)__builtin_popcountll(s->sats[k]);
  }
  return n;
}

/* ------------------------------ misc ------------------------------ */
u8 encode_lock_time(double t) {
  if (!(t >= 0)) return 0;
  u32 ms = t * 1000 > 4294967295.0 ? 4294967295u : (u32)(t * 1000);
  if (ms < 32) return 0;
  for (u8 i = 0; i < 14; i++) {
    if (ms < (1u << (i + 6))) return (u8)(i + 1);
  }
  return 15;
}
double decode_lock_time(u8 l) {
  l &= 0x0F;
  return l == 0 ? 0 : (double)(1u << (l + 4)) / 1000;
}
/* A stand-in surface that a specification can compute: what matters to the
 * callers is that the separation of the position they asked for is the one they
 * use.  Half the latitude less a quarter of the longitude, in degrees. */
float get_geoid_offset(double lat, double lon) {
  return (float)((0.5 * lat - 0.25 * lon) * (180.0 / 3.14159265358979323846));
}
const float g_gps_ura_table[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8, 11.3f, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, -1};
const float g_bds_ura_table[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8, 11.3f, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192};
float decode_ura_index(const u8 index) {
  static const float t[16] = {2.0f, 2.8f, 4.0f,  5.7f,  8,    11.3f, 16,   32,
                              64,   128,  256,   512,   1024, 2048,  4096, -1};
  return index < 16 ? t[index] : -1;
}
u8 encode_ura(float ura) {
  static const float t[15] = {2.4f, 3.4f, 4.85f, 6.85f, 9.65f,
                              13.65f, 24, 48, 96, 192, 384, 768, 1536, 3072,
                              6144};
  if (ura < 0) return 15;
  for (u8 i = 0; i < 15; i++) {
    if (ura <= t[i]) return i;
  }
  return 15;
}

/* Navigation message decoders: the words they are given go to the harness, the
 * ephemeris they return is a fixed pattern so that packing can be observed. */
shim_eph_hook_t shim_eph_hook;
int shim_eph_fail;
static void fill(ephemeris_t *e) {
  ephemeris_kepler_t *k = &e->data.kepler;
  e->toe = (gps_time_t){302400, 2100};
  e->ura = 2.0f;
  e->fit_interval = 4 * HOUR_SECS;
  e->valid = 1;
  e->health_bits = 3;
  k->tgd.gps_s[0] = 101;
  k->tgd.gps_s[1] = 102;
  k->crc = 1; k->crs = 2; k->cuc = 3; k->cus = 4; k->cic = 5; k->cis = 6;
  k->dn = 7; k->m0 = 8; k->ecc = 9; k->sqrta = 10; k->omega0 = 11;
  k->omegadot = 12; k->w = 13; k->inc = 14; k->inc_dot = 15;
  k->af0 = 16; k->af1 = 17; k->af2 = 18;
  k->toc = (gps_time_t){302416, 2101};
  k->iodc = 19;
  k->iode = 20;
}
static bool bad(ephemeris_t *e) {
  if (shim_eph_fail) {
    shim_eph_fail = 0;
    e->valid = 0;
    return true;
  }
  return false;
}
void decode_ephemeris(const u32 w[3][8], ephemeris_t *e, double tot) {
  gnss_signal_t sid = e->sid;
  fill(e);
  e->sid = sid;
  bad(e);
  if (shim_eph_hook) shim_eph_hook("gps", w, 96, sid, tot);
}
void decode_bds_d1_ephemeris(const u32 w[3][10], gnss_signal_t sid,
                             ephemeris_t *e) {
  fill(e);
  e->sid = sid;
  bad(e);
  if (shim_eph_hook) shim_eph_hook("bds", w, 120, sid, 0);
}
bool decode_gal_ephemeris_safe(const u8 p[5][GAL_INAV_CONTENT_BYTE],
                               ephemeris_t *e) {
  /* the satellite number is part of word type 4 (bits 16..21) */
  gnss_signal_t sid = {(u16)getbitu(p[3], 16, 6), CODE_GAL_E1B};
  fill(e);
  e->sid = sid;
  bool failed = bad(e);
  if (shim_eph_hook) shim_eph_hook("gal", p, 5 * GAL_INAV_CONTENT_BYTE, sid, 0);
  return !failed;
}
void decode_gal_ephemeris(const u8 p[5][GAL_INAV_CONTENT_BYTE],
                          ephemeris_t *e) {
  (void)decode_gal_ephemeris_safe(p, e);
}
void decode_glo_ephemeris(const glo_string_t s[5], gnss_signal_t sid,
                          const utc_params_t *u, ephemeris_t *e) {
  e->sid = sid;
  e->toe = (gps_time_t){302400, 2100};
  e->ura = 2.0f;
  e->fit_interval = 2400;
  e->valid = 1;
  e->health_bits = 3;
  ephemeris_glo_t *g = &e->data.glo;
  for (int i = 0; i < 3; i++) {
    g->pos[i] = 21 + i;
    g->vel[i] = 24 + i;
    g->acc[i] = 27 + i;
  }
  g->gamma = 30; g->tau = 31; g->d_tau = 32; g->iod = 33; g->fcn = 0;
  bad(e);
  if (shim_eph_hook) shim_eph_hook("glo", s, 5 * sizeof(*s), sid, u->dt_ls);
}

int shim_log_verbose;
void log_(u8 level, const char *msg, ...) {
  if (!shim_log_verbose) return;
  va_list ap;
  va_start(ap, msg);
  fprintf(stderr, "[%u] ", level);
  vfprintf(stderr, msg, ap);
  fputc('\n', stderr);
  va_end(ap);
}
