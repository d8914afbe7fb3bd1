#ifndef VERIF_NUMPY_STUB_H
#define VERIF_NUMPY_STUB_H
#include <Python.h>
typedef std::intptr_t npy_intp;
typedef SimPyObject PyArrayObject;
struct PyArray_Descr { char kind; int elsize; };
enum { NPY_INT = 5, NPY_UINT = 6, NPY_FLOAT = 11, NPY_DOUBLE = 12 };
extern "C" {
int _import_array();
PyObject* PyArray_SimpleNewFromData( int, npy_intp*, int, void* );
PyObject* PyArray_SimpleNew( int, npy_intp*, int );
void* PyArray_DATA( PyArrayObject* );
int PyArray_NDIM( PyArrayObject* );
npy_intp PyArray_DIM( PyArrayObject*, int );
PyArray_Descr* PyArray_DESCR( PyArrayObject* );
}
#endif
