#include <swiftnav/shim_swiftnav.h>
