// librtcm codec driver.  stdin, one command per line:
//   D <type> <hex>          decode a message body
//   E <type> <numbers...>   fill a message, encode it
//   .                       end of scenario
// Every number is reported as four 16-bit limbs (two's complement), scaled to integers.
#include "ev.h"
#include <assert.h>
#include <ctype.h>
#include <swiftnav/bitstream.h>
#include <rtcm3/bits.h>
#include <rtcm3/decode.h>
#include <rtcm3/encode.h>
#include <rtcm3/eph_decode.h>
#include <rtcm3/eph_encode.h>
#include <rtcm3/msm_utils.h>
#include <rtcm3/ssr_decode.h>

static int first;
static void I(long long v) { if (!first) putchar(','); first = 0; ev_u64((uint64_t)v); }
// a real scaled to an integer; anything that is not finite is shown as the extreme
static void R(double v, double scale) {
  double x = v * scale;
  if (!(fabs(x) < 9e18)) I(INT64_MIN); else I(llrint(x));
}
static const double c0 = 299792458.0;
static double wavelength(int t, int fcn, int k) {
  if (t < 1009) return k ? c0 / 1227.6e6 : c0 / 1575.42e6;
  return k ? c0 / (1246e6 + (fcn - 7) * 437.5e3) : c0 / (1602e6 + (fcn - 7) * 562.5e3);
}
static int nfreq(int t) { return t == 1003 || t == 1004 || t == 1012 ? 2 : 1; }
static int has_cnr(int t) { return t == 1002 || t == 1004 || t >= 1010; }
static void dump_obs(int t, const rtcm_obs_message *m) {
  I(m->header.msg_num); I(m->header.stn_id); I(m->header.tow_ms); I(m->header.sync);
  I(m->header.n_sat); I(m->header.div_free); I(m->header.smooth);
  for (int i = 0; i < m->header.n_sat && i < RTCM_MAX_SATS; i++) {
    const rtcm_sat_data *s = &m->sats[i];
    I(s->svId);
    I(t >= 1010 ? s->fcn : 0);
    for (int k = 0; k < nfreq(t); k++) {
      const rtcm_freq_data *q = &s->obs[k];
      int hc = has_cnr(t) && q->flags.fields.valid_cnr;
      I(q->code);
      I(q->flags.fields.valid_pr | q->flags.fields.valid_cp << 1 | hc << 2 | q->flags.fields.valid_lock << 3);
      if (q->flags.fields.valid_pr) R(q->pseudorange, 1000); else I(0);
      if (q->flags.fields.valid_cp) R(q->carrier_phase * wavelength(t, s->fcn, k), 32000); else I(0);
      if (q->flags.fields.valid_lock) R(q->lock, 1); else I(0);
      if (hc) R(q->cnr, 4); else I(0);
    }
  }
}
static void bits_of(const bool *m, int n) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) if (m[i]) v |= 1ull << i;
  I((long long)v);
}
static void dump_msm(const rtcm_msm_message *m) {
  const rtcm_msm_header *h = &m->header;
  int ns = 0, ng = 0, nc = 0;
  for (int i = 0; i < 64; i++) ns += h->satellite_mask[i];
  for (int i = 0; i < 32; i++) ng += h->signal_mask[i];
  I(h->msg_num); I(h->stn_id); I(h->tow_ms); I(h->multiple); I(h->iods); I(h->reserved);
  I(h->steering); I(h->ext_clock); I(h->div_free); I(h->smooth);
  bits_of(h->satellite_mask, 64); bits_of(h->signal_mask, 32);
  bits_of(h->cell_mask, ns * ng > 64 ? 64 : ns * ng);
  for (int i = 0; i < ns * ng && i < 64; i++) nc += h->cell_mask[i];
  for (int i = 0; i < ns; i++) {
    I(m->sats[i].glo_fcn);
    R(m->sats[i].rough_range_ms, 2147483648.0);
    R(m->sats[i].rough_range_rate_m_s, 1);
  }
  for (int i = 0; i < nc; i++) {
    const rtcm_msm_signal_data *s = &m->signals[i];
    I(s->flags.data & 31);
    R(s->flags.fields.valid_pr ? s->pseudorange_ms : 0, 2147483648.0);
    R(s->flags.fields.valid_cp ? s->carrier_phase_ms : 0, 2147483648.0);
    R(s->flags.fields.valid_lock ? s->lock_time_s : 0, 1000);
    I(s->hca_indicator);
    R(s->flags.fields.valid_cnr ? s->cnr : 0, 16);
    R(s->flags.fields.valid_dop ? s->range_rate_m_s : 0, 10000);
  }
}
static void dump_1005(const rtcm_msg_1005 *m) {
  I(m->stn_id); I(m->ITRF); I(m->GPS_ind); I(m->GLO_ind); I(m->GAL_ind); I(m->ref_stn_ind);
  R(m->arp_x, 10000); I(m->osc_ind); R(m->arp_y, 10000); I(m->quart_cycle_ind); R(m->arp_z, 10000);
}
static void str(uint8_t n, const char *s) { I(n); for (int i = 0; i < n && i <= RTCM_MAX_STRING_LEN; i++) I((uint8_t)s[i]); }
static void dump_1007(const rtcm_msg_1007 *m) { I(m->stn_id); str(m->ant_descriptor_counter, m->ant_descriptor); I(m->ant_setup_id); }
static void dump_1029(const rtcm_msg_1029 *m) {
  I(m->stn_id); I(m->mjd_num); I(m->utc_sec_of_day); I(m->unicode_chars); I(m->utf8_code_units_n);
  for (int i = 0; i < m->utf8_code_units_n; i++) I(m->utf8_code_units[i]);
}
static void dump_1033(const rtcm_msg_1033 *m) {
  I(m->stn_id); str(m->ant_descriptor_counter, m->ant_descriptor); I(m->ant_setup_id);
  str(m->ant_serial_num_counter, m->ant_serial_num); str(m->rcv_descriptor_counter, m->rcv_descriptor);
  str(m->rcv_fw_version_counter, m->rcv_fw_version); str(m->rcv_serial_num_counter, m->rcv_serial_num);
}
static void dump_1230(const rtcm_msg_1230 *m) {
  I(m->stn_id); I(m->bias_indicator); I(m->fdma_signal_mask);
  R(m->L1_CA_cpb_meter, 50); R(m->L1_P_cpb_meter, 50); R(m->L2_CA_cpb_meter, 50); R(m->L2_P_cpb_meter, 50);
}
static void dump_4062(const rtcm_msg_swift_proprietary *m) {
  I(m->msg_type); I(m->sender_id); I(m->len);
  for (int i = 0; i < m->len; i++) I(m->data[i]);
}
static void dump_4075(const rtcm_msg_ndf *m) {
  I(m->stn_id); I(m->frame_count);
  for (int i = 0; i < m->frame_count; i++) {
    const rtcm_ndf_frame *f = &m->frames[i];
    I(f->sat_sys); I(f->sat_num); I(f->ext_sat_info); I(f->sig_type); I(f->epoch_time);
    I(f->continuous_tracking); I(f->frame_data_size_bits);
    for (int j = 0; j < (f->frame_data_size_bits + 31) / 32; j++) I(f->frame_data[j]);
  }
}
static void dump_eph(int t, const rtcm_msg_eph *m) {
  const ephemeris_kepler_raw_rtcm_t *k = &m->data.kepler;
  const ephemeris_glo_raw_rtcm_t *g = &m->data.glo;
  I(m->sat_id); I(m->constellation);
  if (t == 1020) {
    I(m->ura); I(m->fit_interval); I(m->health_bits);
    I(g->fcn); I(g->t_b); I(g->gamma); I(g->tau); I(g->d_tau);
    for (int i = 0; i < 3; i++) { I(g->pos[i]); I(g->vel[i]); I(g->acc[i]); }
    return;
  }
  I(m->wn); I(m->toe); I(m->ura); I(m->fit_interval);
  I(m->health_bits);
  if (t == 1042) { I(k->tgd.bds_s[0]); I(k->tgd.bds_s[1]); }
  else if (t == 1045 || t == 1046) { I(k->tgd.gal_s[0]); I(t == 1045 ? 0 : k->tgd.gal_s[1]); }
  else { I(k->tgd.gps_s); I(0); }
  I(k->crc); I(k->crs); I(k->cuc); I(k->cus); I(k->cic); I(k->cis); I(k->dn); I(k->m0); I(k->ecc); I(k->sqrta);
  I(k->omega0); I(k->omegadot); I(k->w); I(k->inc); I(k->inc_dot); I(k->af0); I(k->af1); I(k->af2); I(k->toc);
  I(t == 1045 || t == 1046 ? 0 : k->iodc); I(k->iode);
  I(t == 1019 ? k->codeL2 : 0); I(t == 1019 ? k->L2_data_bit : 0);
}
/* fields only messages with orbits, or with phase biases, have */
static int has_datum(int n) {
  static const int base[] = {1057, 1063, 1240, 1246, 1258};
  for (int i = 0; i < 5; i++) if (n == base[i] || n == base[i] + 3) return 1;
  return 0;
}
static int has_phase(int n) { return n >= 1265 && n <= 1270; }
static void dump_ssrh(const rtcm_msg_ssr_header *h) {
  I(h->message_num); I(h->epoch_time); I(h->constellation); I(h->update_interval); I(h->multi_message);
  I(has_datum(h->message_num) ? h->sat_ref_datum : 0);
  I(h->iod_ssr); I(h->ssr_provider_id); I(h->ssr_solution_id);
  I(has_phase(h->message_num) ? h->dispersive_bias_consistency : 0);
  I(has_phase(h->message_num) ? h->melbourne_wubbena_consistency : 0);
  I(h->num_sats);
}
static void dump_orbit(const rtcm_msg_ssr_header *h, const rtcm_msg_ssr_orbit_corr *o) {
  I(o->sat_id); I(o->iode); I(h->constellation == RTCM_CONSTELLATION_SBAS ? o->iodcrc : 0);
  I(o->radial); I(o->along_track); I(o->cross_track); I(o->dot_radial); I(o->dot_along_track); I(o->dot_cross_track);
}
static void dump_clock(const rtcm_msg_ssr_clock_corr *c) { I(c->sat_id); I(c->c0); I(c->c1); I(c->c2); }
static void dump_cb(const rtcm_msg_code_bias *m) {
  dump_ssrh(&m->header);
  for (int i = 0; i < m->header.num_sats; i++) {
    I(m->sats[i].sat_id); I(m->sats[i].num_code_biases);
    for (int j = 0; j < m->sats[i].num_code_biases; j++) { I(m->sats[i].signals[j].signal_id); I(m->sats[i].signals[j].code_bias); }
  }
}
static void dump_pb(const rtcm_msg_phase_bias *m) {
  dump_ssrh(&m->header);
  for (int i = 0; i < m->header.num_sats; i++) {
    I(m->sats[i].sat_id); I(m->sats[i].num_phase_biases); I(m->sats[i].yaw_angle); I(m->sats[i].yaw_rate);
    for (int j = 0; j < m->sats[i].num_phase_biases; j++) {
      const rtcm_msg_ssr_phase_bias_sig *s = &m->sats[i].signals[j];
      I(s->signal_id); I(s->integer_indicator); I(s->widelane_indicator); I(s->discontinuity_indicator); I(s->phase_bias);
    }
  }
}

typedef union {
  rtcm_obs_message obs; rtcm_msm_message msm; rtcm_msg_1005 m1005; rtcm_msg_1006 m1006; rtcm_msg_1007 m1007;
  rtcm_msg_1008 m1008; rtcm_msg_1029 m1029; rtcm_msg_1033 m1033; rtcm_msg_1230 m1230; rtcm_msg_eph eph;
  rtcm_msg_swift_proprietary m4062; rtcm_msg_ndf ndf; rtcm_msg_orbit orbit; rtcm_msg_clock clock;
  rtcm_msg_orbit_clock oc; rtcm_msg_code_bias cb; rtcm_msg_phase_bias pb;
} any_t;
static any_t *M;
static int is_msm(int t) { return t >= 1070 && t <= 1139; }
static int kind_ssr(int t) {  // 1 orbit 2 clock 3 both 4 code 5 phase
  if (t >= 1265 && t <= 1270) return 5;
  static const int base[] = {1057, 1063, 1240, 1246, 1258};
  for (int i = 0; i < 5; i++) {
    if (t == base[i]) return 1;
    if (t == base[i] + 1) return 2;
    if (t == base[i] + 2) return 4;
    if (t == base[i] + 3) return 3;
  }
  return 0;
}
static void dump(int t) {
  switch (t) {
    case 1001: case 1002: case 1003: case 1004: case 1010: case 1012: dump_obs(t, &M->obs); return;
    case 1005: dump_1005(&M->m1005); return;
    case 1006: dump_1005(&M->m1006.msg_1005); R(M->m1006.ant_height, 10000); return;
    case 1007: dump_1007(&M->m1007); return;
    case 1008: dump_1007(&M->m1008.msg_1007); str(M->m1008.ant_serial_num_counter, M->m1008.ant_serial_num); return;
    case 1029: dump_1029(&M->m1029); return;
    case 1033: dump_1033(&M->m1033); return;
    case 1230: dump_1230(&M->m1230); return;
    case 4062: dump_4062(&M->m4062); return;
    case 4075: dump_4075(&M->ndf); return;
    case 1019: case 1020: case 1042: case 1044: case 1045: case 1046: dump_eph(t, &M->eph); return;
  }
  if (is_msm(t)) { dump_msm(&M->msm); return; }
  switch (kind_ssr(t)) {
    case 1: dump_ssrh(&M->orbit.header); for (int i = 0; i < M->orbit.header.num_sats; i++) dump_orbit(&M->orbit.header, &M->orbit.orbit[i]); return;
    case 2: dump_ssrh(&M->clock.header); for (int i = 0; i < M->clock.header.num_sats; i++) dump_clock(&M->clock.clock[i]); return;
    case 3: dump_ssrh(&M->oc.header); for (int i = 0; i < M->oc.header.num_sats; i++) { dump_orbit(&M->oc.header, &M->oc.orbit[i]); dump_clock(&M->oc.clock[i]); } return;
    case 4: dump_cb(&M->cb); return;
    case 5: dump_pb(&M->pb); return;
  }
}
static int decode(int t, const uint8_t *b, size_t n) {
  swiftnav_bitstream_t s;
  swiftnav_bitstream_init(&s, b, (uint32_t)(8 * n));
  switch (t) {
    case 1001: return rtcm3_decode_1001_bitstream(&s, &M->obs);
    case 1002: return rtcm3_decode_1002_bitstream(&s, &M->obs);
    case 1003: return rtcm3_decode_1003_bitstream(&s, &M->obs);
    case 1004: return rtcm3_decode_1004_bitstream(&s, &M->obs);
    case 1010: return rtcm3_decode_1010_bitstream(&s, &M->obs);
    case 1012: return rtcm3_decode_1012_bitstream(&s, &M->obs);
    case 1005: return rtcm3_decode_1005_bitstream(&s, &M->m1005);
    case 1006: return rtcm3_decode_1006_bitstream(&s, &M->m1006);
    case 1007: return rtcm3_decode_1007_bitstream(&s, &M->m1007);
    case 1008: return rtcm3_decode_1008_bitstream(&s, &M->m1008);
    case 1029: return rtcm3_decode_1029_bitstream(&s, &M->m1029);
    case 1033: return rtcm3_decode_1033_bitstream(&s, &M->m1033);
    case 1230: return rtcm3_decode_1230_bitstream(&s, &M->m1230);
    case 4062: return rtcm3_decode_4062_bitstream(&s, &M->m4062);
    case 4075: return rtcm3_decode_4075(b, &M->ndf);
    case 1019: return rtcm3_decode_gps_eph_bitstream(&s, &M->eph);
    case 1020: return rtcm3_decode_glo_eph_bitstream(&s, &M->eph);
    case 1042: return rtcm3_decode_bds_eph_bitstream(&s, &M->eph);
    case 1044: return rtcm3_decode_qzss_eph_bitstream(&s, &M->eph);
    case 1045: return rtcm3_decode_gal_eph_fnav_bitstream(&s, &M->eph);
    case 1046: return rtcm3_decode_gal_eph_inav_bitstream(&s, &M->eph);
  }
  if (is_msm(t)) switch (t % 10) {
    case 4: return rtcm3_decode_msm4_bitstream(&s, &M->msm);
    case 5: return rtcm3_decode_msm5_bitstream(&s, &M->msm);
    case 6: return rtcm3_decode_msm6_bitstream(&s, &M->msm);
    case 7: return rtcm3_decode_msm7_bitstream(&s, &M->msm);
  }
  switch (kind_ssr(t)) {
    case 1: return rtcm3_decode_orbit_bitstream(&s, &M->orbit);
    case 2: return rtcm3_decode_clock_bitstream(&s, &M->clock);
    case 3: return rtcm3_decode_orbit_clock_bitstream(&s, &M->oc);
    case 4: return rtcm3_decode_code_bias_bitstream(&s, &M->cb);
    case 5: return rtcm3_decode_phase_bias_bitstream(&s, &M->pb);
  }
  fprintf(stderr, "unknown type %d\n", t); exit(2);
}
// ---- filling for encoding
static char *tok;
static double N(void) { char *s = strtok_r(NULL, " \n", &tok); if (!s) { fprintf(stderr, "short line\n"); exit(2); } return strtod(s, NULL); }
static long long NI(void) { char *s = strtok_r(NULL, " \n", &tok); if (!s) { fprintf(stderr, "short line\n"); exit(2); } return strtoll(s, NULL, 0); }
static unsigned long long NU(void) { char *s = strtok_r(NULL, " \n", &tok); return strtoull(s, NULL, 0); }
static uint8_t fstr(char *d) { int n = (int)NI(); for (int i = 0; i < n; i++) d[i] = (char)NI(); return (uint8_t)n; }
static void fill_1005(rtcm_msg_1005 *m) {
  m->stn_id = NI(); m->ITRF = NI(); m->GPS_ind = NI(); m->GLO_ind = NI(); m->GAL_ind = NI(); m->ref_stn_ind = NI();
  m->arp_x = N() / 10000; m->osc_ind = NI(); m->arp_y = N() / 10000; m->quart_cycle_ind = NI(); m->arp_z = N() / 10000;
}
static void fill_1007(rtcm_msg_1007 *m) { m->stn_id = NI(); m->ant_descriptor_counter = fstr(m->ant_descriptor); m->ant_setup_id = NI(); }
static int encode(int t, uint8_t *b) {
  if (t >= 1001 && t <= 1012 && (t < 1005 || t >= 1010)) {
    rtcm_obs_message *m = &M->obs;
    m->header.msg_num = t; m->header.stn_id = NI(); m->header.tow_ms = NI(); m->header.sync = NI();
    m->header.n_sat = NI(); m->header.div_free = NI(); m->header.smooth = NI();
    for (int i = 0; i < m->header.n_sat; i++) {
      rtcm_sat_data *s = &m->sats[i];
      s->svId = NI(); s->fcn = NI();
      for (int k = 0; k < 2; k++) {
        rtcm_freq_data *q = &s->obs[k];
        q->code = NI(); q->flags.data = NI(); q->pseudorange = N() / 1000;
        q->carrier_phase = N() / 32000 / wavelength(t, s->fcn, k); q->lock = N(); q->cnr = N() / 4;
      }
    }
  } else if (is_msm(t)) {
    rtcm_msm_message *m = &M->msm; rtcm_msm_header *h = &m->header;
    h->msg_num = t; h->stn_id = NI(); h->tow_ms = NI(); h->multiple = NI(); h->iods = NI(); h->reserved = NI();
    h->steering = NI(); h->ext_clock = NI(); h->div_free = NI(); h->smooth = NI();
    uint64_t sm = NU(), gm = NU(), cm = NU(); int ns = 0, nc = 0;
    for (int i = 0; i < 64; i++) { h->satellite_mask[i] = sm >> i & 1; ns += sm >> i & 1; h->cell_mask[i] = cm >> i & 1; nc += cm >> i & 1; }
    for (int i = 0; i < 32; i++) h->signal_mask[i] = gm >> i & 1;
    for (int i = 0; i < ns; i++) { m->sats[i].glo_fcn = NI(); m->sats[i].rough_range_ms = N() / 2147483648.0; m->sats[i].rough_range_rate_m_s = N(); }
    for (int i = 0; i < nc; i++) {
      rtcm_msm_signal_data *s = &m->signals[i];
      s->flags.data = NI(); s->pseudorange_ms = N() / 2147483648.0; s->carrier_phase_ms = N() / 2147483648.0;
      s->lock_time_s = N() / 1000; s->hca_indicator = NI(); s->cnr = N() / 16; s->range_rate_m_s = N() / 10000;
    }
  } else switch (t) {
    case 1005: fill_1005(&M->m1005); break;
    case 1006: fill_1005(&M->m1006.msg_1005); M->m1006.ant_height = N() / 10000; break;
    case 1007: fill_1007(&M->m1007); break;
    case 1008: fill_1007(&M->m1008.msg_1007); M->m1008.ant_serial_num_counter = fstr(M->m1008.ant_serial_num); break;
    case 1029: {
      rtcm_msg_1029 *m = &M->m1029;
      m->stn_id = NI(); m->mjd_num = NI(); m->utc_sec_of_day = NI(); m->unicode_chars = NI();
      m->utf8_code_units_n = fstr((char *)m->utf8_code_units); break; }
    case 1033: {
      rtcm_msg_1033 *m = &M->m1033;
      m->stn_id = NI(); m->ant_descriptor_counter = fstr(m->ant_descriptor); m->ant_setup_id = NI();
      m->ant_serial_num_counter = fstr(m->ant_serial_num); m->rcv_descriptor_counter = fstr(m->rcv_descriptor);
      m->rcv_fw_version_counter = fstr(m->rcv_fw_version); m->rcv_serial_num_counter = fstr(m->rcv_serial_num); break; }
    case 1230: {
      rtcm_msg_1230 *m = &M->m1230;
      m->stn_id = NI(); m->bias_indicator = NI(); m->fdma_signal_mask = NI();
      m->L1_CA_cpb_meter = N() / 50; m->L1_P_cpb_meter = N() / 50; m->L2_CA_cpb_meter = N() / 50; m->L2_P_cpb_meter = N() / 50; break; }
    case 4062: {
      rtcm_msg_swift_proprietary *m = &M->m4062;
      m->msg_type = NI(); m->sender_id = NI(); m->len = fstr((char *)m->data); break; }
    default: {
      rtcm_msg_eph *m = &M->eph;
      ephemeris_kepler_raw_rtcm_t *k = &m->data.kepler; ephemeris_glo_raw_rtcm_t *g = &m->data.glo;
      memset(m, 0, sizeof *m);
      m->sat_id = NI(); m->constellation = NI();
      if (t == 1020) {
        m->ura = NI(); m->fit_interval = NI(); m->health_bits = NI(); g->fcn = NI(); g->t_b = NI(); g->gamma = NI(); g->tau = NI(); g->d_tau = NI();
        for (int i = 0; i < 3; i++) { g->pos[i] = NI(); g->vel[i] = NI(); g->acc[i] = NI(); }
        break;
      }
      m->wn = NI(); m->toe = NI(); m->ura = NI(); m->fit_interval = NI(); m->health_bits = NI();
      if (t == 1019) { k->tgd.gps_s = NI(); NI(); } else { k->tgd.bds_s[0] = NI(); k->tgd.bds_s[1] = NI(); }
      k->crc = NI(); k->crs = NI(); k->cuc = NI(); k->cus = NI(); k->cic = NI(); k->cis = NI(); k->dn = NI(); k->m0 = NI();
      k->ecc = NI(); k->sqrta = NI(); k->omega0 = NI(); k->omegadot = NI(); k->w = NI(); k->inc = NI(); k->inc_dot = NI();
      k->af0 = NI(); k->af1 = NI(); k->af2 = NI(); k->toc = NI(); k->iodc = NI(); k->iode = NI(); k->codeL2 = NI(); k->L2_data_bit = NI();
    }
  }
  switch (t) {
    case 1001: return rtcm3_encode_1001(&M->obs, b); case 1002: return rtcm3_encode_1002(&M->obs, b);
    case 1003: return rtcm3_encode_1003(&M->obs, b); case 1004: return rtcm3_encode_1004(&M->obs, b);
    case 1010: return rtcm3_encode_1010(&M->obs, b); case 1012: return rtcm3_encode_1012(&M->obs, b);
    case 1005: return rtcm3_encode_1005(&M->m1005, b); case 1006: return rtcm3_encode_1006(&M->m1006, b);
    case 1007: return rtcm3_encode_1007(&M->m1007, b); case 1008: return rtcm3_encode_1008(&M->m1008, b);
    case 1029: return rtcm3_encode_1029(&M->m1029, b); case 1033: return rtcm3_encode_1033(&M->m1033, b);
    case 1230: return rtcm3_encode_1230(&M->m1230, b); case 4062: return rtcm3_encode_4062(&M->m4062, b);
    case 1019: return rtcm3_encode_gps_eph(&M->eph, b); case 1020: return rtcm3_encode_glo_eph(&M->eph, b);
    case 1042: return rtcm3_encode_bds_eph(&M->eph, b); case 1045: return rtcm3_encode_gal_eph_fnav(&M->eph, b);
    case 1046: return rtcm3_encode_gal_eph_inav(&M->eph, b);
  }
  return t % 10 == 4 ? rtcm3_encode_msm4(&M->msm, b) : rtcm3_encode_msm5(&M->msm, b);
}
int main(void) {
  char *line = NULL; size_t cap = 0;
  M = (any_t *)malloc(sizeof *M);
  memset(M, 0xA5, sizeof *M);
  while (getline(&line, &cap, stdin) > 0) {
    if (line[0] == '.') { ev_done(); memset(M, 0xA5, sizeof *M); continue; }
    char *op = strtok_r(line, " \n", &tok);
    if (!op) continue;
    int t = (int)NI();
    if (op[0] == 'D') {
      size_t n; char *h = strtok_r(NULL, " \n", &tok);
      uint8_t *b = ev_unhex(h, &n);
      int rc = decode(t, b, n);
      printf("{\"e\":\"Dec\",\"t\":%d,\"rc\":%d,\"b\":", t, rc); ev_bytes(b, n);
      printf(",\"f\":["); first = 1;
      if (rc == 0) dump(t);
      puts("]}");
      free(b);
    } else {
      uint8_t *b = (uint8_t *)malloc(2048);
      memset(b, 0x5A, 2048);
      int n = encode(t, b);
      printf("{\"e\":\"Enc\",\"t\":%d,\"b\":", t); ev_bytes(b, n > 2048 ? 2048 : n);
      // what the library itself makes of the encoded message
      printf(",\"f\":["); first = 1; dump(t); printf("]}\n");
      free(b);
    }
  }
  return 0;
}
