// libubx codec driver.  stdin, one command per line:
//   D <type> <hex>    decode a message (class, id, length, payload) as <type>, encode it again
//   C <hex>           checksum
//   .                 end of scenario
#include "ev.h"
#include <assert.h>
#include <stdbool.h>
#include <ubx/decode.h>
#include <ubx/encode.h>

static int first;
static void I(int64_t v) { if (!first) putchar(','); first = 0; ev_u64((uint64_t)v); }
static void F8(double d) { uint64_t u; memcpy(&u, &d, 8); I((int64_t)u); }
static void F4(float d) { uint32_t u; memcpy(&u, &d, 4); I((int64_t)u); }
static union any {
  ubx_hnr_pvt hnr; ubx_rxm_rawx rawx; ubx_rxm_sfrbx sfrbx; ubx_nav_att att; ubx_nav_clock clk; ubx_nav_pvt pvt;
  ubx_nav_velecef vel; ubx_nav_sat sat; ubx_nav_status st; ubx_mga_gps_eph mga; ubx_esf_ins ins; ubx_esf_meas meas; ubx_esf_raw raw;
} *M;
static int decode(int t, swiftnav_bytestream_t *s) {
  switch (t) {
    case 0x2800: return ubx_decode_hnr_pvt_bytestream(s, &M->hnr);
    case 0x0215: return ubx_decode_rxm_rawx_bytestream(s, &M->rawx);
    case 0x0213: return ubx_decode_rxm_sfrbx_bytestream(s, &M->sfrbx);
    case 0x0105: return ubx_decode_nav_att_bytestream(s, &M->att);
    case 0x0122: return ubx_decode_nav_clock_bytestream(s, &M->clk);
    case 0x0107: return ubx_decode_nav_pvt_bytestream(s, &M->pvt);
    case 0x0111: return ubx_decode_nav_velecef_bytestream(s, &M->vel);
    case 0x0135: return ubx_decode_nav_sat_bytestream(s, &M->sat);
    case 0x0103: return ubx_decode_nav_status_bytestream(s, &M->st);
    case 0x1300: return ubx_decode_mga_gps_eph_bytestream(s, &M->mga);
    case 0x1015: return ubx_decode_esf_ins_bytestream(s, &M->ins);
    case 0x1002: return ubx_decode_esf_meas_bytestream(s, &M->meas);
    case 0x1003: return ubx_decode_esf_raw_bytestream(s, &M->raw);
  }
  abort();
}
static int encode(int t, uint8_t *b) {
  switch (t) {
    case 0x2800: return ubx_encode_hnr_pvt(&M->hnr, b);
    case 0x0215: return ubx_encode_rawx(&M->rawx, b);
    case 0x0213: return ubx_encode_rxm_sfrbx(&M->sfrbx, b);
    case 0x0105: return ubx_encode_nav_att(&M->att, b);
    case 0x0122: return ubx_encode_nav_clock(&M->clk, b);
    case 0x0107: return ubx_encode_nav_pvt(&M->pvt, b);
    case 0x0111: return ubx_encode_nav_velecef(&M->vel, b);
    case 0x0135: return ubx_encode_nav_sat(&M->sat, b);
    case 0x0103: return ubx_encode_nav_status(&M->st, b);
    case 0x1300: return ubx_encode_mga_gps_eph(&M->mga, b);
    case 0x1015: return ubx_encode_esf_ins(&M->ins, b);
    case 0x1002: return ubx_encode_esf_meas(&M->meas, b);
    case 0x1003: return ubx_encode_esf_raw(&M->raw, b);
  }
  abort();
}
#define HEAD(m) I(m.class_id), I(m.msg_id), I(m.length)
static void dump(int t) {
  HEAD(M->clk);
  switch (t) {
    case 0x2800: {
      ubx_hnr_pvt *m = &M->hnr;
      I(m->i_tow); I(m->year); I(m->month); I(m->day); I(m->hour); I(m->min); I(m->sec); I(m->valid); I(m->nano);
      I(m->fix_type); I(m->flags); I(m->reserved1[0]); I(m->reserved1[1]); I(m->lon); I(m->lat); I(m->height);
      I(m->height_mean_sea_level); I(m->ground_speed); I(m->speed); I(m->heading_of_motion); I(m->heading_vehicle);
      I(m->horizontal_accuracy); I(m->vertical_accuracy); I(m->speed_acc); I(m->heading_acc);
      for (int i = 0; i < 4; i++) I(m->reserved2[i]);
    } break;
    case 0x0107: {
      ubx_nav_pvt *m = &M->pvt;
      I(m->i_tow); I(m->year); I(m->month); I(m->day); I(m->hour); I(m->min); I(m->sec); I(m->valid); I(m->time_acc);
      I(m->nano); I(m->fix_type); I(m->flags); I(m->flags2); I(m->num_sats); I(m->lon); I(m->lat); I(m->height);
      I(m->height_mean_sea_level); I(m->horizontal_accuracy); I(m->vertical_accuracy); I(m->vel_north); I(m->vel_east);
      I(m->vel_down); I(m->ground_speed); I(m->heading_of_motion); I(m->speed_acc); I(m->heading_acc); I(m->PDOP);
      I(m->flags3);
      for (int i = 0; i < 5; i++) I(m->reserved1[i]);
      I(m->heading_vehicle); I(m->magnetic_declination); I(m->magnetic_declination_accuracy);
    } break;
    case 0x0215: {
      ubx_rxm_rawx *m = &M->rawx;
      F8(m->rcv_tow); I(m->rcv_wn); I(m->leap_second); I(m->num_meas); I(m->rec_status); I(m->version);
      I(m->reserved1[0]); I(m->reserved1[1]);
      for (int i = 0; i < m->num_meas; i++) {
        F8(m->pseudorange_m[i]); F8(m->carrier_phase_cycles[i]); F4(m->doppler_hz[i]); I(m->gnss_id[i]); I(m->sat_id[i]);
        I(m->sig_id[i]); I(m->freq_id[i]); I(m->lock_time[i]); I(m->cno_dbhz[i]); I(m->pr_std_m[i]);
        I(m->cp_std_cycles[i]); I(m->doppler_std_hz[i]); I(m->track_state[i]); I(m->reserved2[i]);
      }
    } break;
    case 0x0213: {
      ubx_rxm_sfrbx *m = &M->sfrbx;
      I(m->gnss_id); I(m->sat_id); I(m->reserved1); I(m->freq_id); I(m->num_words); I(m->channel); I(m->version); I(m->reserved2);
      for (int i = 0; i < m->num_words && i < UBX_RXM_SFRBX_MAX_DATA_WORDS; i++) I(m->data_words[i]);
    } break;
    case 0x0105: {
      ubx_nav_att *m = &M->att;
      I(m->i_tow); I(m->version);
      for (int i = 0; i < 3; i++) I(m->reserved[i]);
      I(m->roll); I(m->pitch); I(m->heading); I(m->acc_roll); I(m->acc_pitch); I(m->acc_heading);
    } break;
    case 0x0122: {
      ubx_nav_clock *m = &M->clk;
      I(m->i_tow); I(m->clk_bias); I(m->clk_drift); I(m->time_acc); I(m->freq_acc);
    } break;
    case 0x0111: {
      ubx_nav_velecef *m = &M->vel;
      I(m->i_tow); I(m->ecefVX); I(m->ecefVY); I(m->ecefVZ); I(m->speed_acc);
    } break;
    case 0x0135: {
      ubx_nav_sat *m = &M->sat;
      I(m->i_tow); I(m->version); I(m->num_svs); I(m->reserved1);
      for (int i = 0; i < m->num_svs && i < NAV_DATA_MAX_COUNT; i++) {
        ubx_nav_sat_data *d = &m->data[i];
        I(d->gnss_id); I(d->sv_id); I(d->cno); I(d->elev); I(d->azim); I(d->pr_res); I(d->flags);
      }
    } break;
    case 0x0103: {
      ubx_nav_status *m = &M->st;
      I(m->i_tow); I(m->fix_type); I(m->status_flags); I(m->fix_status); I(m->status_flags_ext); I(m->ttff_ms); I(m->msss);
    } break;
    case 0x1300: {
      ubx_mga_gps_eph *m = &M->mga;
      I(m->msg_type); I(m->version); I(m->sat_id); I(m->reserved1); I(m->fit_interval); I(m->ura_index); I(m->sat_health);
      I(m->tgd); I(m->iodc); I(m->toc); I(m->reserved2); I(m->af2); I(m->af1); I(m->af0); I(m->crs); I(m->delta_N);
      I(m->m0); I(m->cuc); I(m->cus); I(m->e); I(m->sqrt_A); I(m->toe); I(m->cic); I(m->omega0); I(m->cis); I(m->crc);
      I(m->i0); I(m->omega); I(m->omega_dot); I(m->i_dot); I(m->reserved3[0]); I(m->reserved3[1]);
    } break;
    case 0x1015: {
      ubx_esf_ins *m = &M->ins;
      I(m->bitfield0);
      for (int i = 0; i < 4; i++) I(m->reserved1[i]);
      I(m->i_tow); I(m->x_ang_rate); I(m->y_ang_rate); I(m->z_ang_rate); I(m->x_accel); I(m->y_accel); I(m->z_accel);
    } break;
    case 0x1002: {
      ubx_esf_meas *m = &M->meas;
      I(m->time_tag); I(m->flags); I(m->id);
      for (int i = 0; i < m->flags >> 11; i++) I(m->data[i]);
      if (m->flags & 8) I(m->calib_tag);
    } break;
    case 0x1003: {
      ubx_esf_raw *m = &M->raw;
      I(m->msss);
      for (int i = 0; i < (m->length - 4) / 8 && i < ESF_DATA_MAX_COUNT; i++) { I(m->data[i]); I(m->sensor_time_tag[i]); }
    } break;
  }
}
int main(void) {
  char *line = NULL; size_t cap = 0;
  M = malloc(sizeof *M);
  memset(M, 0xA5, sizeof *M);
  while (getline(&line, &cap, stdin) > 0) {
    if (line[0] == '.') { ev_done(); memset(M, 0xA5, sizeof *M); continue; }
    char *op = strtok(line, " \n");
    if (!op) continue;
    if (op[0] == 'D') {
      int t = atoi(strtok(NULL, " \n"));
      size_t n; uint8_t *b = ev_unhex(strtok(NULL, " \n"), &n);
      swiftnav_bytestream_t s;
      swiftnav_bytestream_init(&s, b, (uint32_t)n);
      int rc = decode(t, &s);
      printf("{\"e\":\"Ubx\",\"t\":%d,\"rc\":%d,\"b\":", t, rc); ev_bytes(b, n);
      printf(",\"f\":["); first = 1;
      if (rc == 0) dump(t);
      printf("],\"enc\":");
      uint8_t *o = malloc(9000);
      memset(o, 0x5A, 9000);
      int k = rc == 0 ? encode(t, o) : 0;
      ev_bytes(o, k > 9000 ? 9000 : k);
      puts("}");
      free(o); free(b);
    } else {
      size_t n; uint8_t *b = ev_unhex(strtok(NULL, " \n"), &n);
      uint8_t ck[2];
      ubx_checksum(b, n, ck);
      printf("{\"e\":\"Sum\",\"b\":"); ev_bytes(b, n); printf(",\"ck\":[%u,%u]}\n", ck[0], ck[1]);
      free(b);
    }
  }
  return 0;
}
