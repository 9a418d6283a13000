/* Declarations of the Python C API for static analysis only: API macros become functions so that
   their names stay visible in the syntax tree. */
#ifndef VSTATIC_PYTHON_H
#define VSTATIC_PYTHON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <assert.h>
typedef struct _object { long ob_refcnt; void *ob_type; } PyObject;
typedef struct _typeobject { long x; } PyTypeObject;
typedef long Py_ssize_t;
#define PyObject_HEAD PyObject ob_base;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct { int x; } PyModuleDef_Base;
struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods; void *m_slots; void *m_traverse; void *m_clear; void *m_free; };
typedef struct PyModuleDef PyModuleDef;
#define PyModuleDef_HEAD_INIT {0}
#define PyMODINIT_FUNC PyObject *
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
#define METH_FASTCALL 128
int PyArg_ParseTuple(PyObject *, const char *, ...);
int PyArg_ParseTupleAndKeywords(PyObject *, PyObject *, const char *, char **, ...);
PyObject *Py_BuildValue(const char *, ...);
PyObject *PyTuple_Pack(Py_ssize_t, ...);
PyObject *PyTuple_New(Py_ssize_t);
void PyTuple_SET_ITEM(PyObject *, Py_ssize_t, PyObject *);
int PyTuple_SetItem(PyObject *, Py_ssize_t, PyObject *);
PyObject *PyTuple_GetItem(PyObject *, Py_ssize_t);
PyObject *PyFloat_FromDouble(double);
PyObject *PyLong_FromLong(long);
void Py_INCREF_(void *); void Py_XINCREF_(void *); void Py_DECREF_(void *); void Py_XDECREF_(void *);
#define Py_INCREF(o) Py_INCREF_((void *)(o))
#define Py_XINCREF(o) Py_XINCREF_((void *)(o))
#define Py_DECREF(o) Py_DECREF_((void *)(o))
#define Py_XDECREF(o) Py_XDECREF_((void *)(o))
#define Py_CLEAR(o) do { Py_XDECREF_((void *)(o)); (o) = NULL; } while (0)
PyObject *Py_NewRef_(void *); PyObject *Py_XNewRef_(void *);
#define Py_NewRef(o) Py_NewRef_((void *)(o))
#define Py_XNewRef(o) Py_XNewRef_((void *)(o))
extern PyObject *Py_None; extern PyObject *Py_True; extern PyObject *Py_False;
#define Py_RETURN_NONE return Py_NewRef(Py_None)
extern PyObject *PyExc_ValueError, *PyExc_TypeError, *PyExc_RuntimeError, *PyExc_MemoryError, *PyExc_IndexError, *PyExc_Exception;
void PyErr_SetString(PyObject *, const char *);
PyObject *PyErr_Format(PyObject *, const char *, ...);
PyObject *PyErr_NoMemory(void);
void PyErr_SetNone(PyObject *);
PyObject *PyErr_Occurred(void);
void PyErr_Clear(void);
int PyErr_WarnEx(PyObject *, const char *, Py_ssize_t);
void *PyMem_Malloc(size_t); void *PyMem_Calloc(size_t, size_t); void *PyMem_RawMalloc(size_t); void PyMem_Free(void *); void PyMem_RawFree(void *);
void *PyMem_Realloc(void *, size_t);
#define PyMem_New(T, n) ((T *) PyMem_Malloc((n) * sizeof(T)))
#define PyMem_NEW PyMem_New
#define PyMem_Del PyMem_Free
PyObject *PyModule_Create(struct PyModuleDef *);
int PyModule_AddObject(PyObject *, const char *, PyObject *);
#define Py_BEGIN_ALLOW_THREADS {
#define Py_END_ALLOW_THREADS }
#define Py_UNUSED(n) n
void Py_FatalError(const char *);
void Py_Exit(int);
#endif
