#include <check.h>
#include <libsbp/sbp.h>
#define sbp_callback_register(s,t,cb,ctx,n) ((void)(n), nm_reg(t, cb, ctx))
#define sbp_state_init(s) nm_init()
#define sbp_state_set_io_context(s,x) nm_io(x)
#define sbp_process(s,r) nm_process(r)
void nm_init(void); void nm_io(void*); void nm_process(int32_t (*)(uint8_t*,uint32_t,void*));
void nm_reg(int, void (*)(uint16_t, sbp_msg_type_t, const sbp_msg_t *, void *), void*);
#include "/repo/c/gnss_converters/test/check_nmea.c"
int main(void){ SRunner*sr=srunner_create(nmea_suite()); srunner_run_all(sr, CK_NORMAL); return sr->failed!=0; }
