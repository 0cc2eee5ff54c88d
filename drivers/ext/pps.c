#include "_ppssampler.c"
PyObject *PyInit__ppssampler(void) { init_ppssampler(); return vp_module; }
