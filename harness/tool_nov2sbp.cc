// the program's main(), under a name of its own
#define main nov2sbp_program
#include "../src/nov2sbp_main.cc"
#undef main
extern "C" int prog_nov2sbp(int argc, char **argv) { return nov2sbp_program(argc, argv); }
