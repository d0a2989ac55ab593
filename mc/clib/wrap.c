/* replaced by the driver's overlay */
#include "/repo/cref/cref.c"
