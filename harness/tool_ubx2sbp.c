// the program's main(), under a name of its own
#define main prog_ubx2sbp
#include "../src/ubx2sbp_main.c"
