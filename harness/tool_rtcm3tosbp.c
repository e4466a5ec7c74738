// the program's main(), under a name of its own
#define main prog_rtcm3tosbp
#include "../src/rtcm3tosbp_main.c"
