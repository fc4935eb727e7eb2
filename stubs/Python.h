/* The part of the Python interface an extension module of ufuncs uses, on the path where every call succeeds.
   vp_* only mark what is done; they are read by irck and never defined. */
#ifndef VP_PYTHON_H
#define VP_PYTHON_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#ifndef PY_VERSION_HEX
#define PY_VERSION_HEX 0x030c0000
#endif
#define PY_MAJOR_VERSION (PY_VERSION_HEX >> 24)
#define VP_SEEN __attribute__((nothrow))
typedef ptrdiff_t Py_ssize_t;
typedef struct _object { Py_ssize_t ob_refcnt; void *ob_type; } PyObject;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct { PyObject ob_base; void *m_init, *m_index, *m_copy; } PyModuleDef_Base;
typedef struct PyModuleDef {
  PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods;
  void *m_slots; void *m_traverse; void *m_clear; void *m_free;
} PyModuleDef;
#define PyModuleDef_HEAD_INIT {{1, NULL}, NULL, NULL, NULL}
#if PY_VERSION_HEX >= 0x03000000
#define PyMODINIT_FUNC PyObject *
#else
#define PyMODINIT_FUNC void
#endif
void vp_module(const char *name) VP_SEEN;
void vp_register(PyObject *place, const char *name, PyObject *what) VP_SEEN;
void vp_release(PyObject *) VP_SEEN;
void vp_retain(PyObject *) VP_SEEN;
PyObject *vp_new_module(void) VP_SEEN __attribute__((returns_nonnull));
PyObject *vp_dict(PyObject *) VP_SEEN __attribute__((returns_nonnull, const));
static inline PyObject *PyModule_Create(PyModuleDef *d) { vp_module(d->m_name); return vp_new_module(); }
static inline PyObject *Py_InitModule(const char *n, PyMethodDef *m) { (void)m; vp_module(n); return vp_new_module(); }
#define Py_InitModule3(n, m, d) Py_InitModule(n, m)
static inline PyObject *PyModule_GetDict(PyObject *m) { return vp_dict(m); }
static inline int PyDict_SetItemString(PyObject *d, const char *n, PyObject *o) { vp_register(d, n, o); return 0; }
static inline int PyObject_SetAttrString(PyObject *d, const char *n, PyObject *o) { vp_register(d, n, o); return 0; }
static inline int PyModule_AddObjectRef(PyObject *d, const char *n, PyObject *o) { vp_register(d, n, o); return 0; }
static inline int PyModule_AddObject(PyObject *d, const char *n, PyObject *o) { vp_register(d, n, o); vp_release(o); return 0; }
static inline void Py_DECREF_(PyObject *o) { vp_release(o); }
static inline void Py_INCREF_(PyObject *o) { vp_retain(o); }
#define Py_DECREF(o) Py_DECREF_((PyObject *)(o))
#define Py_INCREF(o) Py_INCREF_((PyObject *)(o))
#define Py_XDECREF(o) do { if (o) Py_DECREF(o); } while (0)
#define Py_XINCREF(o) do { if (o) Py_INCREF(o); } while (0)
#define Py_CLEAR(o) do { PyObject *vp_o = (PyObject *)(o); (o) = NULL; Py_XDECREF(vp_o); } while (0)
static inline PyObject *PyErr_Occurred(void) { return NULL; }
static inline void PyErr_Print(void) {}
static inline void PyErr_Clear(void) {}
extern PyObject *PyExc_RuntimeError, *PyExc_ImportError;
static inline void PyErr_SetString(PyObject *e, const char *t) { (void)e; (void)t; }
#endif
