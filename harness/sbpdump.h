// One SBP message as {"k":kind,"s":sender,"f":[values]}, every value four
// 16-bit limbs (two's complement).  Real-valued fields are scaled and rounded.
#ifndef VF_SBPDUMP_H
#define VF_SBPDUMP_H
#include "ev.h"
#include <libsbp/shim_sbp.h>
static int sd_first;
static inline void sd_I(int64_t v) { if (!sd_first) putchar(','); sd_first = 0; ev_u64((uint64_t)v); }
static inline void sd_R(double v, double scale) {
  double x = v * scale;
  sd_I(x == x && x > -9e18 && x < 9e18 ? llround(x) : INT64_MIN);
}
static inline void sd_time(const sbp_v4_gps_time_t *t) {
  sd_I(t->wn); sd_I((int64_t)t->tow * 1000000 + t->ns_residual); sd_I(t->ns_residual);
}
static inline void sd_common(const sbp_ephemeris_common_content_t *c) {
  sd_I(c->sid.sat); sd_I(c->sid.code); sd_I(c->toe.tow); sd_I(c->toe.wn); sd_R(c->ura, 1e3); sd_I(c->fit_interval);
  sd_I(c->valid); sd_I(c->health_bits);
}
#ifdef SD_RAW   // real-valued ephemeris fields as the bits of a double
#define SD_REAL(v) sd_F8(v)
#else
#define SD_REAL(v) sd_R(v, 1)
#endif
static inline void sd_F4(float v) { uint32_t u; memcpy(&u, &v, 4); sd_I(u); }
static inline void sd_F8(double v) { int64_t u; memcpy(&u, &v, 8); sd_I(u); }
#define SD_KEPLER(m)                                                                                         \
  SD_REAL((m)->c_rs), SD_REAL((m)->c_rc), SD_REAL((m)->c_uc), SD_REAL((m)->c_us), SD_REAL((m)->c_ic),   \
  SD_REAL((m)->c_is), SD_REAL((m)->dn), SD_REAL((m)->m0), SD_REAL((m)->ecc), SD_REAL((m)->sqrta),       \
  SD_REAL((m)->omega0), SD_REAL((m)->omegadot), SD_REAL((m)->w), SD_REAL((m)->inc), SD_REAL((m)->inc_dot), \
  SD_REAL((m)->af0), SD_REAL((m)->af1), SD_REAL((m)->af2), sd_I((m)->toc.tow), sd_I((m)->toc.wn),         \
  sd_I((m)->iode), sd_I((m)->iodc)
static int sd_n;
static inline void sd_msg(uint16_t sender, sbp_msg_type_t type, const sbp_msg_t *g) {
  const char *k = "Other";
  if (sd_n++) putchar(',');
  switch ((int)type) {
#define K(T, N) case T: k = N; break
    K(SbpMsgObs, "Obs"); K(SbpMsgPosLlh, "PosLlh"); K(SbpMsgOrientEuler, "OrientEuler"); K(SbpMsgVelEcef, "VelEcef");
    K(SbpMsgVelNed, "VelNed"); K(SbpMsgSvAzEl, "SvAzEl"); K(SbpMsgMeasurementState, "MeasurementState");
    K(SbpMsgGnssTimeOffset, "GnssTimeOffset"); K(SbpMsgOdometry, "Odometry"); K(SbpMsgWheeltick, "Wheeltick");
    K(SbpMsgImuRaw, "ImuRaw"); K(SbpMsgImuAux, "ImuAux"); K(SbpMsgFwd, "Fwd"); K(SbpMsgSbasRaw, "SbasRaw");
    K(SbpMsgEphemerisGps, "EphGps"); K(SbpMsgEphemerisBds, "EphBds"); K(SbpMsgEphemerisGal, "EphGal");
    K(SbpMsgEphemerisGlo, "EphGlo"); K(SbpMsgEphemerisQzss, "EphQzss"); K(SbpMsgGpsTime, "GpsTime");
    K(SbpMsgAngularRate, "AngularRate"); K(SbpMsgBasePosEcef, "BasePosEcef"); K(SbpMsgGloBiases, "GloBiases");
    K(SbpMsgLog, "Log"); K(SbpMsgSsrCodeBiases, "SsrCodeBiases"); K(SbpMsgSsrPhaseBiases, "SsrPhaseBiases");
    K(SbpMsgSsrOrbitClock, "SsrOrbitClock"); K(SbpMsgOsr, "Osr");
#undef K
    default: break;
  }
  printf("{\"k\":\"%s\",\"s\":", k); ev_u64(sender); printf(",\"f\":["); sd_first = 1;
  switch ((int)type) {
    case SbpMsgObs: {
      const sbp_msg_obs_t *m = &g->obs;
      sd_time(&m->header.t); sd_I(m->header.n_obs); sd_I(m->n_obs);
      for (int i = 0; i < m->n_obs && i < (int)SBP_MSG_OBS_OBS_MAX; i++) {
        const sbp_packed_obs_content_t *o = &m->obs[i];
        sd_I(o->P); sd_I((int64_t)o->L.i * 256 + o->L.f); sd_I((int64_t)o->D.i * 256 + o->D.f); sd_I(o->cn0); sd_I(o->lock);
        sd_I(o->flags); sd_I(o->sid.sat); sd_I(o->sid.code);
      }
    } break;
    case SbpMsgOsr: {
      const sbp_msg_osr_t *m = &g->osr;
      sd_time(&m->header.t); sd_I(m->header.n_obs); sd_I(m->n_obs);
      for (int i = 0; i < m->n_obs && i < (int)SBP_MSG_OSR_OBS_MAX; i++) {
        const sbp_packed_osr_content_t *o = &m->obs[i];
        sd_I(o->P); sd_I((int64_t)o->L.i * 256 + o->L.f); sd_I(o->lock); sd_I(o->flags); sd_I(o->sid.sat); sd_I(o->sid.code);
        sd_I(o->iono_std); sd_I(o->tropo_std); sd_I(o->range_std);
      }
    } break;
    case SbpMsgPosLlh: {
      const sbp_msg_pos_llh_t *m = &g->pos_llh;
      sd_I(m->tow); sd_R(m->lat, 1e10); sd_R(m->lon, 1e10); sd_R(m->height, 1e6); sd_I(m->h_accuracy); sd_I(m->v_accuracy);
      sd_I(m->n_sats); sd_I(m->flags);
    } break;
    case SbpMsgOrientEuler: {
      const sbp_msg_orient_euler_t *m = &g->orient_euler;
      sd_I(m->tow); sd_I(m->roll); sd_I(m->pitch); sd_I(m->yaw); sd_R(m->roll_accuracy, 1e5); sd_R(m->pitch_accuracy, 1e5);
      sd_R(m->yaw_accuracy, 1e5); sd_I(m->flags);
    } break;
    case SbpMsgVelEcef: {
      const sbp_msg_vel_ecef_t *m = &g->vel_ecef;
      sd_I(m->tow); sd_I(m->x); sd_I(m->y); sd_I(m->z); sd_I(m->accuracy); sd_I(m->n_sats); sd_I(m->flags);
    } break;
    case SbpMsgVelNed: {
      const sbp_msg_vel_ned_t *m = &g->vel_ned;
      sd_I(m->tow); sd_I(m->n); sd_I(m->e); sd_I(m->d); sd_I(m->h_accuracy); sd_I(m->v_accuracy); sd_I(m->n_sats); sd_I(m->flags);
    } break;
    case SbpMsgSvAzEl: {
      const sbp_msg_sv_az_el_t *m = &g->sv_az_el;
      sd_I(m->n_azel);
      for (int i = 0; i < m->n_azel && i < (int)SBP_MSG_SV_AZ_EL_AZEL_MAX; i++) {
        sd_I(m->azel[i].sid.sat); sd_I(m->azel[i].sid.code); sd_I(m->azel[i].az); sd_I(m->azel[i].el);
      }
    } break;
    case SbpMsgMeasurementState: {
      const sbp_msg_measurement_state_t *m = &g->measurement_state;
      sd_I(m->n_states);
      for (int i = 0; i < m->n_states && i < (int)SBP_MSG_MEASUREMENT_STATE_STATES_MAX; i++) {
        sd_I(m->states[i].mesid.sat); sd_I(m->states[i].mesid.code); sd_I(m->states[i].cn0);
      }
    } break;
    case SbpMsgGnssTimeOffset: {
      const sbp_msg_gnss_time_offset_t *m = &g->gnss_time_offset;
      sd_I(m->weeks); sd_I(m->milliseconds); sd_I(m->microseconds); sd_I(m->flags);
    } break;
    case SbpMsgOdometry: sd_I(g->odometry.tow); sd_I(g->odometry.velocity); sd_I(g->odometry.flags); break;
    case SbpMsgWheeltick:
      sd_I((int64_t)g->wheeltick.time); sd_I(g->wheeltick.flags); sd_I(g->wheeltick.source); sd_I(g->wheeltick.ticks);
      break;
    case SbpMsgImuRaw: {
      const sbp_msg_imu_raw_t *m = &g->imu_raw;
      sd_I(m->tow >> 30); sd_I((int64_t)(m->tow & 0x3FFFFFFF) * 256 + m->tow_f);
      sd_I(m->acc_x); sd_I(m->acc_y); sd_I(m->acc_z); sd_I(m->gyr_x); sd_I(m->gyr_y); sd_I(m->gyr_z);
    } break;
    case SbpMsgImuAux: sd_I(g->imu_aux.imu_type); sd_I(g->imu_aux.temp); sd_I(g->imu_aux.imu_conf); break;
    case SbpMsgFwd:
      sd_I(g->fwd.source); sd_I(g->fwd.protocol); sd_I(g->fwd.n_fwd_payload);
      for (int i = 0; i < g->fwd.n_fwd_payload && i < (int)SBP_MSG_FWD_FWD_PAYLOAD_MAX; i++) sd_I(g->fwd.fwd_payload[i]);
      break;
    case SbpMsgSbasRaw:
      sd_I(g->sbas_raw.sid.sat); sd_I(g->sbas_raw.sid.code); sd_I(g->sbas_raw.tow); sd_I(g->sbas_raw.message_type);
      for (int i = 0; i < 27; i++) sd_I(g->sbas_raw.data[i]);
      break;
    case SbpMsgEphemerisGps:
    case SbpMsgEphemerisQzss: {
      const sbp_msg_ephemeris_gps_t *m = &g->ephemeris_gps;
      sd_common(&m->common); SD_REAL(m->tgd); SD_KEPLER(m);
    } break;
    case SbpMsgEphemerisBds: {
      const sbp_msg_ephemeris_bds_t *m = &g->ephemeris_bds;
      sd_common(&m->common); SD_REAL(m->tgd1); SD_REAL(m->tgd2); SD_KEPLER(m);
    } break;
    case SbpMsgEphemerisGal: {
      const sbp_msg_ephemeris_gal_t *m = &g->ephemeris_gal;
      sd_common(&m->common); SD_REAL(m->bgd_e1e5a); SD_REAL(m->bgd_e1e5b); SD_KEPLER(m); sd_I(m->source);
    } break;
    case SbpMsgEphemerisGlo: {
      const sbp_msg_ephemeris_glo_t *m = &g->ephemeris_glo;
      sd_common(&m->common);
      for (int i = 0; i < 3; i++) SD_REAL(m->pos[i]);
      for (int i = 0; i < 3; i++) SD_REAL(m->vel[i]);
      for (int i = 0; i < 3; i++) SD_REAL(m->acc[i]);
      SD_REAL(m->gamma); SD_REAL(m->tau); SD_REAL(m->d_tau); sd_I(m->iod); sd_I(m->fcn);
    } break;
    case SbpMsgGpsTime: sd_I(g->gps_time.wn); sd_I(g->gps_time.tow); sd_I(g->gps_time.ns_residual); sd_I(g->gps_time.flags); break;
    case SbpMsgAngularRate:
      sd_I(g->angular_rate.tow); sd_I(g->angular_rate.x); sd_I(g->angular_rate.y); sd_I(g->angular_rate.z); sd_I(g->angular_rate.flags);
      break;
    case SbpMsgBasePosEcef: sd_R(g->base_pos_ecef.x, 1e4); sd_R(g->base_pos_ecef.y, 1e4); sd_R(g->base_pos_ecef.z, 1e4); break;
    case SbpMsgGloBiases:
      sd_I(g->glo_biases.mask); sd_I(g->glo_biases.l1ca_bias); sd_I(g->glo_biases.l1p_bias); sd_I(g->glo_biases.l2ca_bias);
      sd_I(g->glo_biases.l2p_bias);
      break;
    case SbpMsgLog:
      sd_I(g->log.level);
      { const char *t = sbp_msg_log_text_get(&g->log); for (; t && *t; t++) sd_I((unsigned char)*t); }
      break;
    case SbpMsgSsrCodeBiases: {
      const sbp_msg_ssr_code_biases_t *m = &g->ssr_code_biases;
      sd_I(m->time.wn); sd_I(m->time.tow); sd_I(m->sid.sat); sd_I(m->sid.code); sd_I(m->update_interval); sd_I(m->iod_ssr);
      sd_I(m->n_biases);
      for (int i = 0; i < m->n_biases && i < (int)SBP_MSG_SSR_CODE_BIASES_BIASES_MAX; i++) { sd_I(m->biases[i].code); sd_I(m->biases[i].value); }
    } break;
    case SbpMsgSsrPhaseBiases: {
      const sbp_msg_ssr_phase_biases_t *m = &g->ssr_phase_biases;
      sd_I(m->time.wn); sd_I(m->time.tow); sd_I(m->sid.sat); sd_I(m->sid.code); sd_I(m->update_interval); sd_I(m->iod_ssr);
      sd_I(m->dispersive_bias); sd_I(m->mw_consistency); sd_I(m->yaw); sd_I(m->yaw_rate); sd_I(m->n_biases);
      for (int i = 0; i < m->n_biases && i < (int)SBP_MSG_SSR_PHASE_BIASES_BIASES_MAX; i++) {
        sd_I(m->biases[i].code); sd_I(m->biases[i].integer_indicator); sd_I(m->biases[i].widelane_integer_indicator);
        sd_I(m->biases[i].discontinuity_counter); sd_I(m->biases[i].bias);
      }
    } break;
    case SbpMsgSsrOrbitClock: {
      const sbp_msg_ssr_orbit_clock_t *m = &g->ssr_orbit_clock;
      sd_I(m->time.wn); sd_I(m->time.tow); sd_I(m->sid.sat); sd_I(m->sid.code); sd_I(m->update_interval); sd_I(m->iod_ssr); sd_I(m->iod);
      sd_I(m->radial); sd_I(m->along); sd_I(m->cross); sd_I(m->dot_radial); sd_I(m->dot_along); sd_I(m->dot_cross);
      sd_I(m->c0); sd_I(m->c1); sd_I(m->c2);
    } break;
    default: sd_I(type); break;
  }
  printf("]}");
}
#endif
