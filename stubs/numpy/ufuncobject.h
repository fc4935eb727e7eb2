#ifndef VP_UFUNCOBJECT_H
#define VP_UFUNCOBJECT_H
#include "numpy/ndarraytypes.h"
typedef void (*PyUFuncGenericFunction)(char **, npy_intp *, npy_intp *, void *);
#define PyUFunc_None -1
#define PyUFunc_Zero 0
#define PyUFunc_One 1
PyObject *PyUFunc_FromFuncAndData(PyUFuncGenericFunction *func, void **data, char *types, int ntypes, int nin, int nout, int identity,
                                  const char *name, const char *doc, int unused) VP_SEEN __attribute__((returns_nonnull));
#define import_umath() do { } while (0)
#define import_ufunc() do { } while (0)
#endif
