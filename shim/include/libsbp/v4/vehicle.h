#include <libsbp/shim_sbp.h>
