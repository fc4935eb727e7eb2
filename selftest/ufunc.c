/* Controls of the analysis of NumPy modules: loops of two inputs and one output (double), and initialisations. */
#include "Python.h"
#include "numpy/ufuncobject.h"
typedef void (*fn)(const double *, const double *, double *, long);
static void each(char **args, npy_intp n, npy_intp *steps, fn f)
{
  for (npy_intp i = 0; i < n; ++i) f((double *)(args[0] + i * steps[0]), (double *)(args[1] + i * steps[1]), (double *)(args[2] + i * steps[2]), 1);
}
void good_each(char **args, npy_intp *dim, npy_intp *steps, void *data) { each(args, dim[0], steps, data); }
void good_down(char **args, npy_intp *dim, npy_intp *steps, void *data)
{
  for (npy_intp i = *dim; i-- > 0;) ((fn)data)((double *)(args[0] + i * steps[0]), (double *)(args[1] + i * steps[1]), (double *)(args[2] + i * steps[2]), 1);
}
void good_dense(char **args, npy_intp *dim, npy_intp *steps, void *data)
{
  fn f = data;
  int dense = 1;
  for (int k = 0; k < 3; k++) dense = dense && steps[k] == sizeof(double);
  if (!dense) { each(args, dim[0], steps, f); return; }
  f((double *)args[0], (double *)args[1], (double *)args[2], dim[0]);
}
void good_blocks(char **args, npy_intp *dim, npy_intp *steps, void *data)
{
  fn f = data;
  npy_intp n = dim[0], i = 0;
  if (steps[0] != 8 || steps[1] != 8 || steps[2] != 8) { each(args, n, steps, f); return; }
  for (; i + 256 <= n; i += 256) f((double *)(args[0] + i * steps[0]), (double *)(args[1] + i * steps[1]), (double *)(args[2] + i * steps[2]), 256);
  if (i < n) f((double *)(args[0] + i * steps[0]), (double *)(args[1] + i * steps[1]), (double *)(args[2] + i * steps[2]), n - i);
}
void bad_gaps(char **args, npy_intp *dim, npy_intp *steps, void *data) { ((fn)data)((double *)args[0], (double *)args[1], (double *)args[2], dim[0]); }
void bad_first_only(char **args, npy_intp *dim, npy_intp *steps, void *data)
{
  if (steps[0] != 8) { each(args, dim[0], steps, data); return; }
  ((fn)data)((double *)args[0], (double *)args[1], (double *)args[2], dim[0]);
}
void bad_step(char **args, npy_intp *dim, npy_intp *steps, void *data)
{
  for (npy_intp i = 0; i < dim[0]; ++i) ((fn)data)((double *)(args[0] + i * steps[0]), (double *)(args[1] + i * steps[0]), (double *)(args[2] + i * steps[2]), 1);
}
void bad_order(char **args, npy_intp *dim, npy_intp *steps, void *data)
{
  for (npy_intp i = 0; i < dim[0]; ++i) ((fn)data)((double *)(args[1] + i * steps[1]), (double *)(args[0] + i * steps[0]), (double *)(args[2] + i * steps[2]), 1);
}
void bad_last(char **args, npy_intp *dim, npy_intp *steps, void *data) { each(args, dim[0] - 1, steps, data); }
void bad_int(char **args, npy_intp *dim, npy_intp *steps, void *data) { each(args, (int)dim[0], steps, data); }
void bad_counter(char **args, npy_intp *dim, npy_intp *steps, void *data)
{
  for (int i = 0; i < dim[0]; ++i) ((fn)data)((double *)(args[0] + i * steps[0]), (double *)(args[1] + i * steps[1]), (double *)(args[2] + i * steps[2]), 1);
}

void vdt_onev(void); void vdt_onefv(void); void vdt_twov(void); void vdt_twofv(void);
void vf(char **, npy_intp *, npy_intp *, void *); void vd(char **, npy_intp *, npy_intp *, void *);
static PyModuleDef def = {PyModuleDef_HEAD_INIT, "vdtnpfun", NULL, -1};
static PyUFuncGenericFunction loops[2] = {vf, vd};
static void *data[4] = {vdt_onefv, vdt_onev, vdt_twofv, vdt_twov}, *crossed[2] = {vdt_twov, vdt_twofv}, *filled[2];
static char types[6] = {NPY_FLOAT, NPY_FLOAT, NPY_FLOAT, NPY_DOUBLE, NPY_DOUBLE, NPY_DOUBLE}, types1[4] = {NPY_FLOAT, NPY_FLOAT, NPY_DOUBLE, NPY_DOUBLE};
static PyObject *create(void) { return PyModule_Create(&def); }
static int put(PyObject *m, const char *n, void **d, char *t, int nin)
{
  PyObject *f = PyUFunc_FromFuncAndData(loops, d, t, 2, nin, 1, PyUFunc_None, n, n, 0);
  if (!f) return -1;
  int r = PyDict_SetItemString(PyModule_GetDict(m), n, f);
  Py_DECREF(f);
  return r;
}
PyMODINIT_FUNC good_init(void)
{
  PyObject *m = create();
  if (!m) return NULL;
  put(m, "vdt_one", data, types1, 1);
  put(m, "vdt_two", data + 2, types, 2);
  return m;
}
PyMODINIT_FUNC good_init_loop(void)
{
  static const struct { const char *n; int nin; char *t; } all[] = {{"vdt_one", 1, types1}, {"vdt_two", 2, types}};
  PyObject *m = create();
  for (int i = 0; i < 2; i++) if (put(m, all[i].n, data + 2 * i, all[i].t, all[i].nin) < 0) return NULL;
  return m;
}
PyMODINIT_FUNC good_init_filled(void)
{
  PyObject *m = create();
  filled[0] = vdt_twofv; filled[1] = vdt_twov;
  put(m, "vdt_one", data, types1, 1);
  put(m, "vdt_two", filled, types, 2);
  return m;
}
PyMODINIT_FUNC bad_init_missing(void) { PyObject *m = create(); put(m, "vdt_two", data + 2, types, 2); return m; }
PyMODINIT_FUNC bad_init_rows(void) { PyObject *m = create(); put(m, "vdt_one", data, types1, 1); put(m, "vdt_two", data + 1, types, 2); return m; }
PyMODINIT_FUNC bad_init_crossed(void) { PyObject *m = create(); put(m, "vdt_one", data, types1, 1); put(m, "vdt_two", crossed, types, 2); return m; }
PyMODINIT_FUNC bad_init_arity(void) { PyObject *m = create(); put(m, "vdt_one", data, types1, 1); put(m, "vdt_two", data + 2, types, 1); return m; }
PyMODINIT_FUNC bad_init_released(void)
{
  PyObject *m = create();
  put(m, "vdt_one", data, types1, 1);
  PyObject *f = PyUFunc_FromFuncAndData(loops, data + 2, types, 2, 2, 1, PyUFunc_None, "vdt_two", "", 0);
  PyModule_AddObject(m, "vdt_two", f);
  Py_DECREF(f);
  return m;
}
PyMODINIT_FUNC bad_init_beyond_table(void)
{
  PyObject *m = create();
  put(m, "vdt_one", data, types1, 1);
  PyObject *f = PyUFunc_FromFuncAndData(loops, data + 2, types, 3, 2, 1, PyUFunc_None, "vdt_two", "", 0);
  PyModule_AddObject(m, "vdt_two", f);
  return m;
}
PyMODINIT_FUNC bad_init_returns_null(void) { PyObject *m = create(); put(m, "vdt_one", data, types1, 1); put(m, "vdt_two", data + 2, types, 2); return NULL; }
