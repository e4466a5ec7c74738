#include <libsbp/sbp.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
typedef void (*cb_t)(uint16_t, sbp_msg_type_t, const sbp_msg_t *, void *);
static struct { int type; cb_t cb; void *ctx; } cbs[32]; static int ncb; static void *io;
void nm_init(void) { ncb = 0; }
void nm_io(void *x) { io = x; }
void nm_reg(int t, cb_t cb, void *ctx) { cbs[ncb].type=t; cbs[ncb].cb=cb; cbs[ncb++].ctx=ctx; }
#define G(x) do { memcpy(&(x), p, sizeof(x)); p += sizeof(x); } while (0)
static void need(int32_t (*rd)(uint8_t*,uint32_t,void*), uint8_t *b, uint32_t n) { while (n) { int32_t k = rd(b,n,io); if (k<=0) return; b+=k; n-=k; } }
void nm_process(int32_t (*rd)(uint8_t*,uint32_t,void*)) {
  uint8_t h[6] = {0}, b[260]; need(rd,h,1); if (h[0]!=0x55) return; need(rd,h+1,5);
  int t = h[1]|h[2]<<8, n = h[5]; need(rd,b,n+2);
  static sbp_msg_t m; memset(&m,0,sizeof m); uint8_t *p=b;
  switch (t) {
  case 258: G(m.gps_time.wn);G(m.gps_time.tow);G(m.gps_time.ns_residual);G(m.gps_time.flags);break;
  case 259: G(m.utc_time.flags);G(m.utc_time.tow);G(m.utc_time.year);G(m.utc_time.month);G(m.utc_time.day);G(m.utc_time.hours);G(m.utc_time.minutes);G(m.utc_time.seconds);G(m.utc_time.ns);break;
  case 529: {sbp_msg_pos_llh_cov_t*q=&m.pos_llh_cov;G(q->tow);G(q->lat);G(q->lon);G(q->height);G(q->cov_n_n);G(q->cov_n_e);G(q->cov_n_d);G(q->cov_e_e);G(q->cov_e_d);G(q->cov_d_d);G(q->n_sats);G(q->flags);break;}
  case 526: {sbp_msg_vel_ned_t*q=&m.vel_ned;G(q->tow);G(q->n);G(q->e);G(q->d);G(q->h_accuracy);G(q->v_accuracy);G(q->n_sats);G(q->flags);break;}
  case 520: {sbp_msg_dops_t*q=&m.dops;G(q->tow);G(q->gdop);G(q->pdop);G(q->tdop);G(q->hdop);G(q->vdop);G(q->flags);break;}
  case 528: G(m.age_corrections.tow);G(m.age_corrections.age);break;
  case 151: {sbp_msg_sv_az_el_t*q=&m.sv_az_el;q->n_azel=n/4;for(int i=0;i<n/4;i++){G(q->azel[i].sid.sat);G(q->azel[i].sid.code);G(q->azel[i].az);G(q->azel[i].el);}break;}
  case 97: {sbp_msg_measurement_state_t*q=&m.measurement_state;q->n_states=n/3;for(int i=0;i<n/3;i++){G(q->states[i].mesid.sat);G(q->states[i].mesid.code);G(q->states[i].cn0);}break;}
  case 74: {sbp_msg_obs_t*q=&m.obs;int ns;G(q->header.t.tow);G(ns);G(q->header.t.wn);G(q->header.n_obs);q->n_obs=(n-11)/17;for(int i=0;i<q->n_obs;i++){p+=14;G(q->obs[i].flags);G(q->obs[i].sid.sat);G(q->obs[i].sid.code);}break;}
  default: return; }
  for (int i=0;i<ncb;i++) if (cbs[i].type==t) cbs[i].cb(1,t,&m,cbs[i].ctx);
}
