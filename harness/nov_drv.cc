// Drives Novatel::Parser through its public interface.
// Script line:  <hex stream> <cuts> <ending> <callback ids>
// With a "reenter" count in a fifth column, process() is called that many times.
#include "ev.h"
#include "parser/novatel.h"
using namespace Novatel;

static int readfn(uint8_t *b, uint32_t n, void *ctx) {
  return ev_source_read(static_cast<ev_source_t *>(ctx), b, n);
}
static bool first;
static void sep() { if (!first) putchar(','); first = false; }
static void U1(uint8_t v) { sep(); ev_u8(v); }
static void U2(uint16_t v) { sep(); ev_u16(v); }
static void U4(uint32_t v) { sep(); ev_u32(v); }
static void U8(uint64_t v) { sep(); ev_u64(v); }
static void F4(float v) { sep(); ev_f32(v); }
static void F8(double v) { sep(); ev_f64(v); }

static void body(int id, const void *p) {
  first = true;
  switch (id) {
    case Message::GPSEPHEM: {
      auto m = static_cast<const Message::GPSEPHEM_t *>(p);
      U4(m->prn); F8(m->tow); U4(m->health); U4(m->iode1); U4(m->iode2); U4(m->week); U4(m->z_week);
      F8(m->toe); F8(m->A); F8(m->delta_N); F8(m->M0); F8(m->ecc); F8(m->omega); F8(m->cuc); F8(m->cus);
      F8(m->crc); F8(m->crs); F8(m->cic); F8(m->cis); F8(m->I0); F8(m->I_dot); F8(m->omega0);
      F8(m->omega_dot); U4(m->iodc); F8(m->toc); F8(m->tgd); F8(m->af0); F8(m->af1); F8(m->af2);
      U4(m->AS); F8(m->N); F8(m->URA);
      break;
    }
    case Message::BESTPOS: {
      auto m = static_cast<const Message::BESTPOS_t *>(p);
      U4(m->sol_stat); U4(m->pos_type); F8(m->lat); F8(m->lon); F8(m->hgt); F4(m->undulation);
      U4(m->datum_id); F4(m->lat_stddev); F4(m->lon_stddev); F4(m->hgt_stddev);
      for (int i = 0; i < 4; i++) U1(static_cast<uint8_t>(m->stn_id[i]));
      F4(m->diff_age); F4(m->sol_age); U1(m->num_sv_tracked); U1(m->num_sv_in_soln);
      U1(m->num_sv_in_soln_L1); U1(m->num_sv_in_soln_multi); U1(m->reserved); U1(m->ext_sol_stat);
      U1(m->galileo_beidou_mask); U1(m->gps_glonass_mask);
      break;
    }
    case Message::BESTVEL: {
      auto m = static_cast<const Message::BESTVEL_t *>(p);
      U4(m->sol_stat); U4(m->vel_type); F4(m->latency); F4(m->diff_age); F8(m->hor_speed);
      F8(m->trk_gnd); F8(m->vert_speed); F4(m->reserved);
      break;
    }
    case Message::INSATT: {
      auto m = static_cast<const Message::INSATT_t *>(p);
      U4(m->gnss_week); F8(m->tow); F8(m->roll); F8(m->pitch); F8(m->azimuth); U4(m->status);
      break;
    }
    case Message::GLOEPHEMERIS: {
      auto m = static_cast<const Message::GLOEPHEMERIS_t *>(p);
      U2(m->sloto); U2(m->freqo); U1(m->sat_type); U1(m->reserved_1); U2(m->e_week); U4(m->e_time);
      U4(m->t_offset); U2(m->Nt); U2(m->reserved_2); U4(m->issue); U4(m->health);
      F8(m->pos_x); F8(m->pos_y); F8(m->pos_z); F8(m->vel_x); F8(m->vel_y); F8(m->vel_z);
      F8(m->LS_acc_x); F8(m->LS_acc_y); F8(m->LS_acc_z); F8(m->tau_n); F8(m->delta_tau_n); F8(m->gamma);
      U4(m->Tk); U4(m->P); U4(m->Ft); U4(m->age); U4(m->flags);
      break;
    }
    case Message::RAWIMUSX: {
      auto m = static_cast<const Message::RAWIMUSX_t *>(p);
      U1(m->imu_info); U1(m->imu_type); U2(m->gnss_week); F8(m->gnss_week_seconds); U4(m->imu_status);
      U4(m->z_accel); U4(m->y_accel); U4(m->x_accel); U4(m->z_gyro); U4(m->y_gyro); U4(m->x_gyro);
      break;
    }
    case Message::RANGECMP: {
      auto m = static_cast<const Message::RANGECMP_t *>(p);
      U4(static_cast<uint32_t>(m->n_records));
      for (size_t i = 0; i < m->n_records && i < m->records.size(); i++) {
        const auto &r = m->records[i];
        U4(r.tracking_status); U4(static_cast<uint32_t>(r.doppler)); U8(r.pseudorange);
        U4(static_cast<uint32_t>(r.ADR)); U1(r.stddev_psr); U1(r.stddev_adr); U1(r.prn_slot);
        U4(r.lock_time); U1(r.CN0); U1(r.glo_freq_no); U2(r.reserved);
      }
      break;
    }
    default:
      break;
  }
}
static void emit(int slot, int id, const BinaryHeader *h, const void *p) {
  printf("{\"e\":\"Msg\",\"slot\":%d,\"cbid\":%d,\"len\":%u,\"id\":%u,\"week\":%u,\"ms\":", slot, id,
         h->message_len, h->message_id, h->week);
  ev_u32(static_cast<uint32_t>(h->ms));
  printf(",\"body\":[");
  body(id, p);
  printf("]}\n");
  fflush(stdout);
}
int main() {
  static char line[1 << 20];
  while (fgets(line, sizeof line, stdin)) {
    char *save;
    char *hx = strtok_r(line, " \n", &save), *cu = strtok_r(nullptr, " \n", &save),
         *en = strtok_r(nullptr, " \n", &save), *ids = strtok_r(nullptr, " \n", &save);
    if (!ids) continue;
    size_t n, nc, ni;
    uint8_t *data = ev_unhex(hx, &n);
    int *cuts = ev_ints(cu, &nc);
    int *id = ev_ints(ids, &ni);
    ev_source_t src = {data, n, 0, cuts, nc, 0, atoi(en), 0, 0};
    printf("{\"e\":\"Begin\",\"bytes\":");
    ev_bytes(data, n);
    printf(",\"slots\":[");
    Message::CallbackArray cb{};
    for (size_t i = 0; i < cb.size(); i++) {
      int v = i < ni ? id[i] : -1;
      printf("%s%d", i ? "," : "", v);
      cb[i].message_id = static_cast<Message::Id>(v);
      if (v > 0) {
        cb[i].callfn = [i, v](const BinaryHeader *h, const void *p) { emit(static_cast<int>(i), v, h, p); };
      }
    }
    printf("]}\n");
    fflush(stdout);
    auto *parser = new Parser(readfn, nullptr, cb, &src);
    parser->process();
    delete parser;
    printf("{\"e\":\"End\",\"left\":%zu}\n", n - src.pos);
    ev_done();
    free(data); free(cuts); free(id);
  }
  return 0;
}
