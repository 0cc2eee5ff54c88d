/* Lets the repository's Python 2 extension sources be compiled, unchanged, for Python 3. */
#ifndef VP_COMPAT_H
#define VP_COMPAT_H
#include "Python.h"
#include "numpy/arrayobject.h"

/* Objects: an instance's own PyObject_HEAD is a member ob_base; a static type's head is
   followed by an explicit ob_size. */
#define ob_type ob_base.ob_type
#undef PyObject_HEAD_INIT
#define PyObject_HEAD_INIT(t) 1, t,

#define PyString_FromString PyUnicode_FromString

/* numpy's removed constructor with int dimensions. */
#undef PyArray_FromDims
static PyObject *vp_from_dims(int nd, int *d, int type)
{
    npy_intp dims[8];
    int i;
    for (i = 0; i < nd; i++) dims[i] = d[i];
    return PyArray_ZEROS(nd, dims, type, 0);
}
#define PyArray_FromDims vp_from_dims

/* Modules: the old init function creates the module; PyInit_... hands it on. */
static struct PyModuleDef vp_def = {PyModuleDef_HEAD_INIT, "vp", NULL, -1, NULL};
static PyObject *vp_module;
static PyObject *vp_init(const char *name, PyMethodDef *m, const char *doc)
{
    vp_def.m_name = name;
    vp_def.m_methods = m;
    vp_def.m_doc = doc;
    vp_module = PyModule_Create(&vp_def);
    return vp_module;
}
#define Py_InitModule3(n, m, d) vp_init(n, m, d)
#define Py_InitModule(n, m) vp_init(n, m, NULL)
static int vp_numpy(void) { return _import_array(); }
#undef import_array
#define import_array() vp_numpy()
#undef PyMODINIT_FUNC
#define PyMODINIT_FUNC void
#endif
