#include "vbamodule.c"
PyObject *PyInit_vba(void) { initvba(); return vp_module; }
