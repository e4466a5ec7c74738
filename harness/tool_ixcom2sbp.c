// the program's main(), under a name of its own
#define main prog_ixcom2sbp
#include "../src/ixcom2sbp_main.c"
