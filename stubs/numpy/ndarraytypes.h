#ifndef VP_NDARRAYTYPES_H
#define VP_NDARRAYTYPES_H
#include "Python.h"
typedef intptr_t npy_intp;
typedef uintptr_t npy_uintp;
typedef float npy_float;
typedef double npy_double;
enum NPY_TYPES { NPY_BOOL, NPY_BYTE, NPY_UBYTE, NPY_SHORT, NPY_USHORT, NPY_INT, NPY_UINT, NPY_LONG, NPY_ULONG, NPY_LONGLONG, NPY_ULONGLONG,
                 NPY_FLOAT, NPY_DOUBLE, NPY_LONGDOUBLE };
#define NPY_FLOAT32 NPY_FLOAT
#define NPY_FLOAT64 NPY_DOUBLE
#define import_array() do { } while (0)
#endif
