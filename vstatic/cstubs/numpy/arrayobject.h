#ifndef VSTATIC_NUMPY_H
#define VSTATIC_NUMPY_H
#include <Python.h>
typedef long npy_intp;
typedef double npy_double; typedef float npy_float; typedef double npy_float64; typedef float npy_float32; typedef int npy_int; typedef long npy_int64; typedef unsigned char npy_uint8; typedef unsigned char npy_bool;
typedef struct { PyObject ob_base; int type_num; long elsize; } PyArray_Descr;
typedef struct { PyObject ob_base; char *data; int nd; npy_intp *dimensions; npy_intp *strides; PyObject *base; PyArray_Descr *descr; int flags; } PyArrayObject;
extern PyTypeObject PyArray_Type;
enum { NPY_BOOL, NPY_BYTE, NPY_UBYTE, NPY_SHORT, NPY_USHORT, NPY_INT, NPY_UINT, NPY_LONG, NPY_ULONG, NPY_LONGLONG, NPY_ULONGLONG, NPY_FLOAT, NPY_DOUBLE, NPY_LONGDOUBLE, NPY_CFLOAT, NPY_CDOUBLE };
#define NPY_FLOAT64 NPY_DOUBLE
#define NPY_FLOAT32 NPY_FLOAT
#define NPY_INT64 NPY_LONG
#define NPY_UINT8 NPY_UBYTE
#define NPY_ARRAY_C_CONTIGUOUS 0x1
#define NPY_ARRAY_F_CONTIGUOUS 0x2
#define NPY_ARRAY_ALIGNED 0x100
#define NPY_ARRAY_WRITEABLE 0x400
#define NPY_ARRAY_BEHAVED (NPY_ARRAY_ALIGNED | NPY_ARRAY_WRITEABLE)
#define NPY_ARRAY_CARRAY (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_BEHAVED)
#define NPY_ARRAY_DEFAULT NPY_ARRAY_CARRAY
#define NPY_ARRAY_IN_ARRAY (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED)
#define NPY_IN_ARRAY NPY_ARRAY_IN_ARRAY
#define NPY_ARRAY_FORCECAST 0x10
#define NPY_ARRAY_ENSUREARRAY 0x40
#define NPY_ARRAY_ENSURECOPY 0x20
#define NPY_CORDER 0
#define NPY_ANYORDER -1
void *PyArray_SimpleNew(int, npy_intp *, int);
void *PyArray_ZEROS(int, npy_intp *, int, int);
void *PyArray_EMPTY(int, npy_intp *, int, int);
void *PyArray_Zeros(int, npy_intp *, void *, int);
void *PyArray_NewLikeArray(PyArrayObject *, int, void *, int);
void *PyArray_NewCopy(PyArrayObject *, int);
void *PyArray_FROMANY_(void *, int, int, int, int);
#define PyArray_FROMANY(o, t, a, b, f) PyArray_FROMANY_((void *)(o), t, a, b, f)
#define PyArray_FROM_OTF(o, t, f) PyArray_FROMANY_((void *)(o), t, 0, 0, f)
#define PyArray_FROM_OT(o, t) PyArray_FROMANY_((void *)(o), t, 0, 0, 0)
#define PyArray_FROM_OF(o, f) PyArray_FROMANY_((void *)(o), -1, 0, 0, f)
#define PyArray_ContiguousFromAny(o, t, a, b) PyArray_FROMANY_((void *)(o), t, a, b, NPY_ARRAY_DEFAULT)
#define PyArray_ContiguousFromObject PyArray_ContiguousFromAny
PyObject *PyArray_Return(PyArrayObject *);
int PyArray_NDIM_(void *); npy_intp PyArray_DIM_(void *, int); npy_intp *PyArray_DIMS_(void *); void *PyArray_DATA_(void *); int PyArray_TYPE_(void *);
void *PyArray_GETPTR2_(void *, npy_intp, npy_intp); npy_intp PyArray_STRIDE_(void *, int); int PyArray_CheckD_(void *, int);
#define PyArray_NDIM(a) PyArray_NDIM_((void *)(a))
#define PyArray_DIM(a, k) PyArray_DIM_((void *)(a), k)
#define PyArray_DIMS(a) PyArray_DIMS_((void *)(a))
#define PyArray_SHAPE(a) PyArray_DIMS_((void *)(a))
#define PyArray_DATA(a) PyArray_DATA_((void *)(a))
#define PyArray_BYTES(a) ((char *)PyArray_DATA_((void *)(a)))
#define PyArray_TYPE(a) PyArray_TYPE_((void *)(a))
#define PyArray_GETPTR2(a, i, j) PyArray_GETPTR2_((void *)(a), i, j)
#define PyArray_STRIDE(a, k) PyArray_STRIDE_((void *)(a), k)
int PyArray_ISCONTIGUOUS(PyArrayObject *); int PyArray_IS_C_CONTIGUOUS(PyArrayObject *); int PyArray_ISCARRAY_RO(PyArrayObject *); int PyArray_Check(void *);
npy_intp PyArray_SIZE(PyArrayObject *);
void PyArray_FILLWBYTE(void *, int);
int _import_array(void);
#define import_array() _import_array()
#endif
