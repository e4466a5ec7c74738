/* Stand-in for libswiftnav (an empty submodule in this checkout).
 *
 * It declares the part of libswiftnav's public interface that gnss-converters
 * uses (and its close neighbours), with the documented semantics.  It contains
 * no gnss-converters code. */
#ifndef SHIM_SWIFTNAV_H
#define SHIM_SWIFTNAV_H
#ifdef __cplusplus
#include <cassert>
#include <cmath>
#endif
#include <assert.h>
#include <math.h>
#include <inttypes.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef __cplusplus
extern "C" {
#endif

/* ---- common.h ---- */
#ifndef COMMON_INT_TYPES
#define COMMON_INT_TYPES
typedef int8_t s8;
typedef int16_t s16;
typedef int32_t s32;
typedef int64_t s64;
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
#endif

#ifndef MIN
#define MIN(x, y) (((x) < (y)) ? (x) : (y))
#define MAX(x, y) (((x) > (y)) ? (x) : (y))
#endif
#ifndef CLAMP_DIFF
#define CLAMP_DIFF(a, b) (MAX((a), (b)) - (b))
#endif
#ifndef ARRAY_SIZE
#define ARRAY_SIZE(arr) (sizeof(arr) / sizeof((arr)[0]))
#endif
#ifndef STATIC_ASSERT
#define STATIC_ASSERT(...)
#endif

/* ---- macros.h ---- */
#define SWIFT_ATTR_PACKED __attribute__((packed))
#define SWIFT_PACKED_STRUCT_BEGIN(x) typedef struct __attribute__((packed)) x
#define SWIFT_ATTR_FORMAT(i, a) __attribute__((format(printf, (i), (a))))
#define SWIFT_ATTR_FORMAT_STRING
#define SWIFT_ATTR_PURE __attribute__((pure))
#define SWIFT_ATTR_WEAK __attribute__((weak))
#define SWIFT_ATTR_DEPRECATED __attribute__((deprecated))
#define SWIFT_ATTR_UNUSED __attribute__((unused))
#define SWIFT_ATTR_FALLTHROUGH __attribute__((fallthrough))

/* ---- constants.h ---- */
#define R2D (180.0 / M_PI)
#define D2R (M_PI / 180.0)
#define WEEK_SECS (7 * 24 * 60 * 60)
#define DAY_SECS (24 * 60 * 60)
#define HOUR_SECS (60 * 60)
#define MINUTE_SECS 60
#define SECS_MS 1000
#define SECS_US 1000000
#define SECS_NS 1000000000
#define WEEK_DAYS 7
#define WEEK_MS (WEEK_SECS * SECS_MS)
#define DAY_MS (DAY_SECS * SECS_MS)
#define MINUTE_MS 60000
#define HOUR_MS 3600000
#define FREQ_UNIT 1e6
#define GPS_PI 3.1415926535898
#define GPS_C 299792458.0
#define GPS_C_NO_VAC 299702547.0
#define GPS_MINIMUM_TOW 0
#define GPS_L1_HZ 1.57542e9
#define GPS_L2_HZ 1.22760e9
#define GPS_L5_HZ 1.17645e9
#define GLO_L1_HZ 1.602e9
#define GLO_L2_HZ 1.246e9
#define GLO_L1_DELTA_HZ 5.625e5
#define GLO_L2_DELTA_HZ 4.375e5
#define GLO_L3_HZ 1.202025e9
#define SBAS_L1_HZ 1.57542e9
#define SBAS_L5_HZ 1.17645e9
#define BDS2_B11_HZ 1.561098e9
#define BDS2_B1_HZ 1.561098e9
#define BDS2_B2_HZ 1.20714e9
#define BDS3_B1C_HZ 1.57542e9
#define BDS3_B3_HZ 1.26852e9
#define BDS3_B5_HZ 1.17645e9
#define BDS3_B7_HZ 1.20714e9
#define QZS_L1_HZ 1.57542e9
#define QZS_L2_HZ 1.22760e9
#define QZS_L5_HZ 1.17645e9
#define GAL_E1_HZ 1.57542e9
#define GAL_E5_HZ 1.17645e9
#define GAL_E5A_HZ 1.17645e9
#define GAL_E5B_HZ 1.20714e9
#define GAL_E6_HZ 1.27875e9
#define GAL_E7_HZ 1.20714e9
#define GAL_E8_HZ 1.191795e9
#define C_1_2P1 (1.0 / (double)(1ULL << 1))
#define C_1_2P2 (1.0 / (double)(1ULL << 2))
#define C_1_2P3 (1.0 / (double)(1ULL << 3))
#define C_1_2P4 (1.0 / (double)(1ULL << 4))
#define C_1_2P5 (1.0 / (double)(1ULL << 5))
#define C_1_2P6 (1.0 / (double)(1ULL << 6))
#define C_1_2P7 (1.0 / (double)(1ULL << 7))
#define C_1_2P8 (1.0 / (double)(1ULL << 8))
#define C_1_2P9 (1.0 / (double)(1ULL << 9))
#define C_1_2P10 (1.0 / (double)(1ULL << 10))
#define C_1_2P11 (1.0 / (double)(1ULL << 11))
#define C_1_2P12 (1.0 / (double)(1ULL << 12))
#define C_1_2P13 (1.0 / (double)(1ULL << 13))
#define C_1_2P14 (1.0 / (double)(1ULL << 14))
#define C_1_2P15 (1.0 / (double)(1ULL << 15))
#define C_1_2P16 (1.0 / (double)(1ULL << 16))
#define C_1_2P17 (1.0 / (double)(1ULL << 17))
#define C_1_2P18 (1.0 / (double)(1ULL << 18))
#define C_1_2P19 (1.0 / (double)(1ULL << 19))
#define C_1_2P20 (1.0 / (double)(1ULL << 20))
#define C_1_2P21 (1.0 / (double)(1ULL << 21))
#define C_1_2P22 (1.0 / (double)(1ULL << 22))
#define C_1_2P23 (1.0 / (double)(1ULL << 23))
#define C_1_2P24 (1.0 / (double)(1ULL << 24))
#define C_1_2P25 (1.0 / (double)(1ULL << 25))
#define C_1_2P26 (1.0 / (double)(1ULL << 26))
#define C_1_2P27 (1.0 / (double)(1ULL << 27))
#define C_1_2P28 (1.0 / (double)(1ULL << 28))
#define C_1_2P29 (1.0 / (double)(1ULL << 29))
#define C_1_2P30 (1.0 / (double)(1ULL << 30))
#define C_1_2P31 (1.0 / (double)(1ULL << 31))
#define C_1_2P32 (1.0 / (double)(1ULL << 32))
#define C_1_2P33 (1.0 / (double)(1ULL << 33))
#define C_1_2P34 (1.0 / (double)(1ULL << 34))
#define C_1_2P35 (1.0 / (double)(1ULL << 35))
#define C_1_2P36 (1.0 / (double)(1ULL << 36))
#define C_1_2P37 (1.0 / (double)(1ULL << 37))
#define C_1_2P38 (1.0 / (double)(1ULL << 38))
#define C_1_2P39 (1.0 / (double)(1ULL << 39))
#define C_1_2P40 (1.0 / (double)(1ULL << 40))
#define C_1_2P41 (1.0 / (double)(1ULL << 41))
#define C_1_2P42 (1.0 / (double)(1ULL << 42))
#define C_1_2P43 (1.0 / (double)(1ULL << 43))
#define C_1_2P44 (1.0 / (double)(1ULL << 44))
#define C_1_2P45 (1.0 / (double)(1ULL << 45))
#define C_1_2P46 (1.0 / (double)(1ULL << 46))
#define C_1_2P47 (1.0 / (double)(1ULL << 47))
#define C_1_2P48 (1.0 / (double)(1ULL << 48))
#define C_1_2P49 (1.0 / (double)(1ULL << 49))
#define C_1_2P50 (1.0 / (double)(1ULL << 50))
#define C_1_2P51 (1.0 / (double)(1ULL << 51))
#define C_1_2P52 (1.0 / (double)(1ULL << 52))
#define C_1_2P53 (1.0 / (double)(1ULL << 53))
#define C_1_2P54 (1.0 / (double)(1ULL << 54))
#define C_1_2P55 (1.0 / (double)(1ULL << 55))
#define C_1_2P56 (1.0 / (double)(1ULL << 56))
#define C_1_2P57 (1.0 / (double)(1ULL << 57))
#define C_1_2P58 (1.0 / (double)(1ULL << 58))
#define C_1_2P59 (1.0 / (double)(1ULL << 59))
#define C_1_2P60 (1.0 / (double)(1ULL << 60))
#define C_1_2P61 (1.0 / (double)(1ULL << 61))
#define C_1_2P62 (1.0 / (double)(1ULL << 62))
#define C_1_2P63 (1.0 / (double)(1ULL << 63))
#define C_1_2P64 (1.0 / ((double)(1ULL << 32) * (double)(1ULL << 32)))
#define C_1_2P65 (1.0 / ((double)(1ULL << 32) * (double)(1ULL << 33)))
#define C_1_2P66 (1.0 / ((double)(1ULL << 32) * (double)(1ULL << 34)))
#define C_1_2P67 (1.0 / ((double)(1ULL << 32) * (double)(1ULL << 35)))
#define C_1_2P68 (1.0 / ((double)(1ULL << 32) * (double)(1ULL << 36)))
#define FLOAT_EQUALITY_EPS (1e-6)
#define HOUR_MINUTES 60
#define DAY_HOURS 24
#define MINUTE_SECS_D 60.0
#define YEAR_MONTHS 12
#define UTC_SU_OFFSET 3
#define BDS_WEEK_TO_GPS_WEEK 1356
#define BDS_SECOND_TO_GPS_SECOND 14
#define GAL_WEEK_TO_GPS_WEEK 1024
#define GLO_WEEK_TO_GPS_WEEK 834

/* ---- gnss_time.h ---- */
typedef struct SWIFT_ATTR_PACKED_GPS_TIME {
  double tow;
  s16 wn;
} gps_time_t;
#define TOW_UNKNOWN -1
#define WN_UNKNOWN -1
#ifdef __cplusplus
#define GPS_TIME_UNKNOWN (gps_time_t{TOW_UNKNOWN, WN_UNKNOWN})
#else
#define GPS_TIME_UNKNOWN ((gps_time_t){.tow = TOW_UNKNOWN, .wn = WN_UNKNOWN})
#endif
#define GPS_WEEK_REFERENCE 1876
#define GPS_WEEK_CYCLE 1024
#define GPS_MAX_WEEK 4095
#define GPS_EPOCH 315964800
#define GPS_MINUS_UTC_SECS 18
#define BDS_FIT_INTERVAL_SECONDS (3 * HOUR_SECS)
#define GAL_FIT_INTERVAL_SECONDS (4 * HOUR_SECS)
#define GPS_WEEK_TO_GLO_WEEK 834
typedef struct {
  u8 tot_dummy;
  double a0, a1, a2;
  gps_time_t tot;
  gps_time_t t_lse;
  s8 dt_ls;
  s8 dt_lsf;
} utc_params_t;
typedef struct {
  u16 year;
  u16 year_day;
  u8 month;
  u8 month_day;
  u8 week_day;
  u8 hour;
  u8 minute;
  u8 second_int;
  double second_frac;
} utc_tm;

bool gps_time_valid(const gps_time_t *t);
bool gps_current_time_valid(const gps_time_t *t);
void normalize_gps_time(gps_time_t *t);
bool normalize_gps_time_safe(gps_time_t *t);
bool unsafe_normalize_gps_time(gps_time_t *t);
double gpsdifftime(const gps_time_t *end, const gps_time_t *beginning);
void add_secs(gps_time_t *time, double secs);
void gps_time_match_weeks(gps_time_t *t, const gps_time_t *ref);
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref);
u16 gps_adjust_week_cycle(u16 wn_raw, u16 wn_ref);
double get_gps_utc_offset(const gps_time_t *gps_t, const utc_params_t *utc);
double get_utc_gps_offset(const gps_time_t *utc_time, const utc_params_t *utc);
bool is_leap_second_event(const gps_time_t *gps_t, const utc_params_t *utc);
gps_time_t time2gps_t(time_t t);
time_t gps2time(const gps_time_t *t);
u8 days_in_month(u16 year, u8 month);
bool is_leap_year(s32 year);
gps_time_t date2gps(s32 year, s32 month, s32 day, s32 hour, s32 min, double sec);
void gps2utc(const gps_time_t *gps_t, utc_tm *u, const utc_params_t *p);
void make_utc_tm(const gps_time_t *t, utc_tm *u);
gps_time_t glo2gps(const void *glo_t, const utc_params_t *utc_params);
gps_time_t round_to_epoch(const gps_time_t *time, double soln_freq);
gps_time_t floor_to_epoch(const gps_time_t *time, double soln_freq);

/* ---- signal.h ---- */
typedef enum constellation_e {
  CONSTELLATION_INVALID = -1,
  CONSTELLATION_GPS,
  CONSTELLATION_SBAS,
  CONSTELLATION_GLO,
  CONSTELLATION_BDS,
  CONSTELLATION_QZS,
  CONSTELLATION_GAL,
  CONSTELLATION_COUNT,
} constellation_t;

typedef enum code_e {
  CODE_INVALID = -1,
  CODE_GPS_L1CA = 0,
  CODE_GPS_L2CM = 1,
  CODE_SBAS_L1CA = 2,
  CODE_GLO_L1OF = 3,
  CODE_GLO_L2OF = 4,
  CODE_GPS_L1P = 5,
  CODE_GPS_L2P = 6,
  CODE_GPS_L2CL = 7,
  CODE_GPS_L2CX = 8,
  CODE_GPS_L5I = 9,
  CODE_GPS_L5Q = 10,
  CODE_GPS_L5X = 11,
  CODE_BDS2_B1 = 12,
  CODE_BDS2_B2 = 13,
  CODE_GAL_E1B = 14,
  CODE_GAL_E1C = 15,
  CODE_GAL_E1X = 16,
  CODE_GAL_E6B = 17,
  CODE_GAL_E6C = 18,
  CODE_GAL_E6X = 19,
  CODE_GAL_E7I = 20,
  CODE_GAL_E7Q = 21,
  CODE_GAL_E7X = 22,
  CODE_GAL_E8I = 23,
  CODE_GAL_E8Q = 24,
  CODE_GAL_E8X = 25,
  CODE_GAL_E5I = 26,
  CODE_GAL_E5Q = 27,
  CODE_GAL_E5X = 28,
  CODE_GLO_L1P = 29,
  CODE_GLO_L2P = 30,
  CODE_QZS_L1CA = 31,
  CODE_QZS_L1CI = 32,
  CODE_QZS_L1CQ = 33,
  CODE_QZS_L1CX = 34,
  CODE_QZS_L2CM = 35,
  CODE_QZS_L2CL = 36,
  CODE_QZS_L2CX = 37,
  CODE_QZS_L5I = 38,
  CODE_QZS_L5Q = 39,
  CODE_QZS_L5X = 40,
  CODE_SBAS_L5I = 41,
  CODE_SBAS_L5Q = 42,
  CODE_SBAS_L5X = 43,
  CODE_BDS3_B1CI = 44,
  CODE_BDS3_B1CQ = 45,
  CODE_BDS3_B1CX = 46,
  CODE_BDS3_B5I = 47,
  CODE_BDS3_B5Q = 48,
  CODE_BDS3_B5X = 49,
  CODE_BDS3_B7I = 50,
  CODE_BDS3_B7Q = 51,
  CODE_BDS3_B7X = 52,
  CODE_BDS3_B3I = 53,
  CODE_BDS3_B3Q = 54,
  CODE_BDS3_B3X = 55,
  CODE_GPS_L1CI = 56,
  CODE_GPS_L1CQ = 57,
  CODE_GPS_L1CX = 58,
  CODE_AUX_GPS = 59,
  CODE_AUX_SBAS = 60,
  CODE_AUX_GAL = 61,
  CODE_AUX_QZS = 62,
  CODE_AUX_BDS = 63,
  CODE_COUNT
} code_t;

typedef struct {
  u16 sat;
  code_t code;
} gnss_signal_t;

#define NUM_SATS_GPS 32
#define NUM_SATS_SBAS 39
#define NUM_SATS_GLO 28
#define NUM_SATS_BDS 64
#define NUM_SATS_GAL 36
#define NUM_SATS_QZS 10
#define GPS_FIRST_PRN 1
#define SBAS_FIRST_PRN 120
#define GLO_FIRST_PRN 1
#define BDS_FIRST_PRN 1
#define GAL_FIRST_PRN 1
#define QZS_FIRST_PRN 193
#define GLO_MIN_FCN -7
#define GLO_MAX_FCN 6
#define GLO_FCN_OFFSET 8
#define GLO_FCN_UNKNOWN 0
#define SID_STR_LEN_MAX 16

int sid_to_string(char *s, int n, gnss_signal_t sid);
const char *code_to_string(code_t code);
constellation_t code_to_constellation(code_t code);
constellation_t sid_to_constellation(gnss_signal_t sid);
code_t constellation_to_l1_code(constellation_t cons);
bool sid_valid(gnss_signal_t sid);
bool code_valid(code_t code);
bool constellation_valid(constellation_t c);
bool is_gps(code_t code);
bool is_sbas(code_t code);
bool is_glo(code_t code);
bool is_gal(code_t code);
bool is_qzss(code_t code);
bool is_bds2(code_t code);
bool is_bds(code_t code);
gnss_signal_t construct_sid(code_t code, u16 sat);
int sid_compare(const gnss_signal_t a, const gnss_signal_t b);
static inline bool sid_is_equal(const gnss_signal_t a, const gnss_signal_t b) {
  return a.sat == b.sat && a.code == b.code;
}
double code_to_carr_freq(code_t code);
double sid_to_carr_freq(gnss_signal_t sid);

/* ---- sid_set.h ---- */
typedef struct {
  u64 sats[CODE_COUNT];
} gnss_sid_set_t;
void sid_set_init(gnss_sid_set_t *s);
void sid_set_add(gnss_sid_set_t *s, gnss_signal_t sid);
bool sid_set_contains(const gnss_sid_set_t *s, gnss_signal_t sid);
u32 sid_set_get_sat_count(const gnss_sid_set_t *s);
u32 sid_set_get_sig_count(const gnss_sid_set_t *s);

/* ---- gnss_capabilities.h ---- */
#define GNSS_CAPB_BDS_D2NAV ((u64)0x780000000000001FULL)

/* ---- bits.h ---- */
u8 parity(u32 x);
u32 getbitu(const u8 *buff, u32 pos, u8 len);
s32 getbits(const u8 *buff, u32 pos, u8 len);
u64 getbitul(const u8 *buff, u32 pos, u8 len);
s64 getbitsl(const u8 *buff, u32 pos, u8 len);
void setbitu(u8 *buff, u32 pos, u32 len, u32 data);
void setbits(u8 *buff, u32 pos, u32 len, s32 data);
void setbitul(u8 *buff, u32 pos, u32 len, u64 data);
void setbitsl(u8 *buff, u32 pos, u32 len, s64 data);
void bitcopy(
    void *dst, u32 dst_index, const void *src, u32 src_index, u32 count);
void bitshl(void *buf, u32 size, u32 shift);
u8 count_bits_u64(u64 v, u8 bv);
u8 count_bits_u32(u32 v, u8 bv);
u8 count_bits_u16(u16 v, u8 bv);
u8 count_bits_u8(u8 v, u8 bv);
s32 sign_extend(u32 arg, u8 len);
u32 bitfield(u32 arg, u8 pos, u8 len);

/* ---- bitstream.h ---- */
typedef struct swiftnav_bitstream_s {
  const u8 *data;
  u32 len;
  u32 offset;
} swiftnav_bitstream_t;
void swiftnav_bitstream_init(swiftnav_bitstream_t *buf,
                             const u8 *payload,
                             u32 payload_len_bits);
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *buf,
                                u32 *out,
                                u32 pos,
                                u8 len);
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *buf,
                                 u64 *out,
                                 u32 pos,
                                 u8 len);
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *buf,
                                s32 *out,
                                u32 pos,
                                u8 len);
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *buf,
                                 s64 *out,
                                 u32 pos,
                                 u8 len);
bool swiftnav_bitstream_remove(swiftnav_bitstream_t *buf, u32 len);
u32 swiftnav_bitstream_remaining(const swiftnav_bitstream_t *buf);

/* ---- bytestream.h ---- */
typedef struct swiftnav_bytestream_s {
  const u8 *data;
  u32 len;
  u32 offset;
} swiftnav_bytestream_t;
void swiftnav_bytestream_init(swiftnav_bytestream_t *bs,
                              const u8 *payload,
                              u32 len_bytes);
bool swiftnav_bytestream_get_bytes(const swiftnav_bytestream_t *bs,
                                   u32 index,
                                   u32 n,
                                   u8 *out);
bool swiftnav_bytestream_remove(swiftnav_bytestream_t *bs, u32 n);
u32 swiftnav_bytestream_remaining(const swiftnav_bytestream_t *bs);


/* ---- fifo_byte.h ---- */
typedef u32 fifo_size_t;
typedef enum { FIFO_MODE_STANDARD, FIFO_MODE_RECORD } fifo_mode_t;
typedef struct {
  fifo_size_t read_index;
  fifo_size_t write_index;
  fifo_size_t buffer_size;
  u8 *buffer;
} fifo_t;
void fifo_init(fifo_t *fifo, u8 *buffer, fifo_size_t buffer_size);
fifo_size_t fifo_length(fifo_t *fifo);
fifo_size_t fifo_space(fifo_t *fifo);
fifo_size_t fifo_write(fifo_t *fifo, const u8 *buffer, fifo_size_t length);
fifo_size_t fifo_read(fifo_t *fifo, u8 *buffer, fifo_size_t length);
fifo_size_t fifo_peek(fifo_t *fifo, u8 *buffer, fifo_size_t length);
fifo_size_t fifo_remove(fifo_t *fifo, fifo_size_t length);

/* ---- float_equality.h ---- */
bool float_equal(float a, float b);
bool double_equal(double a, double b);
bool double_approx_eq(double a, double b);
bool double_within(double a, double b, double tol);

/* ---- array_tools.h, swift_strnlen.h, memcpy_s.h ---- */
bool is_value_in_array_u16(const u16 *arr, size_t n, u16 v);
size_t swift_strnlen(const char *s, size_t n);
int memcpy_s(void *dst, size_t dst_size, const void *src, size_t n);
void shim_memcpy_s(void *dst, size_t dst_size, const void *src, size_t n);
#define MEMCPY_S(dst, dst_size, src, n) \
  shim_memcpy_s((dst), (dst_size), (src), (n))

/* ---- geoid_model.h ---- */
float get_geoid_offset(double lat_rad, double lon_rad);

/* ---- nav_meas.h ---- */
typedef u16 nav_meas_flags_t;
#define NAV_MEAS_FLAG_CODE_VALID (1 << 0)
#define NAV_MEAS_FLAG_PHASE_VALID (1 << 1)
#define NAV_MEAS_FLAG_MEAS_DOPPLER_VALID (1 << 2)
#define NAV_MEAS_FLAG_COMP_DOPPLER_VALID (1 << 3)
#define NAV_MEAS_FLAG_HALF_CYCLE_KNOWN (1 << 4)
#define NAV_MEAS_FLAG_CN0_VALID (1 << 5)
#define NAV_MEAS_FLAG_RAIM_EXCLUSION (1 << 6)
#define MAX_CHANNELS 79
u8 encode_lock_time(double nm_lock_time);
double decode_lock_time(u8 sbp_lock_time);

/* ---- pvt_result.h ---- */
typedef enum {
  POSITION_MODE_NONE = 0,
  POSITION_MODE_SPP = 1,
  POSITION_MODE_DGNSS = 2,
  POSITION_MODE_FLOAT = 3,
  POSITION_MODE_FIXED = 4,
  POSITION_MODE_DEAD_RECKONING = 5,
  POSITION_MODE_SBAS = 6,
} position_mode_t;
typedef enum {
  VELOCITY_MODE_NONE = 0,
  VELOCITY_MODE_MEASURED_DOPPLER = 1,
  VELOCITY_MODE_COMPUTED_DOPPLER = 2,
  VELOCITY_MODE_DEAD_RECKONING = 3,
} velocity_mode_t;

#define POSITION_MODE_MASK 0x7
#define VELOCITY_MODE_MASK 0x7
#define IS_GPS(sid) (code_to_constellation((code_t)(sid).code) == CONSTELLATION_GPS)
#define IS_SBAS(sid) (code_to_constellation((code_t)(sid).code) == CONSTELLATION_SBAS)
#define IS_GLO(sid) (code_to_constellation((code_t)(sid).code) == CONSTELLATION_GLO)
#define IS_BDS2(sid) (code_to_constellation((code_t)(sid).code) == CONSTELLATION_BDS)
#define IS_GAL(sid) (code_to_constellation((code_t)(sid).code) == CONSTELLATION_GAL)
#define IS_QZSS(sid) (code_to_constellation((code_t)(sid).code) == CONSTELLATION_QZS)
/* ---- ephemeris.h ---- */
#define INVALID_GPS_URA_INDEX -1
#define INVALID_GPS_URA_VALUE -1
#define INVALID_URA_VALUE -1.0f
#define GAL_INAV_CONTENT_BYTE ((128 + 8 - 1) / 8)
#define GLO_NAV_STR_BITS 85
#define GLO_NAV_STR_WORDS 3
typedef u8 health_bits_t;
typedef enum { EPH_SOURCE_GAL_INAV = 0, EPH_SOURCE_GAL_FNAV = 1 } eph_source_gal_t;
extern const float g_bds_ura_table[16];
extern const float g_gps_ura_table[16];
typedef struct {
  u32 word[GLO_NAV_STR_WORDS];
} glo_string_t;
typedef struct {
  union {
    float gps_s[2];
    float qzss_s[2];
    float bds_s[2];
    float gal_s[2];
  } tgd;
  double crc, crs, cuc, cus, cic, cis;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot;
  double af0, af1, af2;
  gps_time_t toc;
  u16 iodc;
  u16 iode;
} ephemeris_kepler_t;
typedef struct {
  double pos[3];
  double rate[3];
  double acc[3];
  u8 iod;
  u16 toa;
  u8 ura;
  double a_gf0;
  double a_gf1;
} ephemeris_xyz_t;
typedef struct {
  double gamma;
  double tau;
  double d_tau;
  double pos[3];
  double vel[3];
  double acc[3];
  u16 fcn;
  u8 iod;
} ephemeris_glo_t;
typedef struct {
  gnss_signal_t sid;
  gps_time_t toe;
  float ura;
  u32 fit_interval;
  u8 valid;
  health_bits_t health_bits;
  u8 source;
  union {
    ephemeris_kepler_t kepler;
    ephemeris_xyz_t xyz;
    ephemeris_glo_t glo;
  } data;
} ephemeris_t;
void decode_ephemeris(const u32 frame_words[3][8],
                      ephemeris_t *e,
                      double tot_tow);
void decode_bds_d1_ephemeris(const u32 words[3][10],
                             gnss_signal_t sid,
                             ephemeris_t *e);
bool decode_gal_ephemeris_safe(const u8 page[5][GAL_INAV_CONTENT_BYTE],
                               ephemeris_t *e);
void decode_gal_ephemeris(const u8 page[5][GAL_INAV_CONTENT_BYTE],
                          ephemeris_t *e);
void decode_glo_ephemeris(const glo_string_t strings[5],
                          gnss_signal_t sid,
                          const utc_params_t *utc_params,
                          ephemeris_t *e);
float decode_ura_index(const u8 index);
u8 encode_ura(float ura);

/* Set by a harness: sees the words handed to a navigation-message decoder. */
typedef void (*shim_eph_hook_t)(const char *kind, const void *data, size_t n,
                                gnss_signal_t sid, double arg);
extern shim_eph_hook_t shim_eph_hook;
extern int shim_eph_fail; /* make the next decoder call report "invalid" */

/* ---- logging.h ---- */
#define LOG_EMERG 0
#define LOG_ALERT 1
#define LOG_CRIT 2
#define LOG_ERROR 3
#define LOG_WARN 4
#define LOG_NOTICE 5
#define LOG_INFO 6
#define LOG_DEBUG 7
void log_(u8 level, const char *msg, ...) __attribute__((format(printf, 2, 3)));
extern int shim_log_verbose;
#define log_emerg(...) log_(0, __VA_ARGS__)
#define log_alert(...) log_(1, __VA_ARGS__)
#define log_crit(...) log_(2, __VA_ARGS__)
#define log_error(...) log_(3, __VA_ARGS__)
#define log_warn(...) log_(4, __VA_ARGS__)
#define log_notice(...) log_(5, __VA_ARGS__)
#define log_info(...) log_(6, __VA_ARGS__)
#define log_debug(...) log_(7, __VA_ARGS__)
#define log_error_sid(sid, ...) log_(3, __VA_ARGS__)
#define log_warn_sid(sid, ...) log_(4, __VA_ARGS__)
#define log_info_sid(sid, ...) log_(6, __VA_ARGS__)
#define log_debug_sid(sid, ...) log_(7, __VA_ARGS__)

#ifdef __cplusplus
}
#endif
#endif
