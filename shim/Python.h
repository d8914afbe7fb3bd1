// Simulated Python 2 embedding API: the subset the repository uses. The "interpreter" is sim/python_stub.cpp, which
// plays a scripted client of the simulator: every callback and every module function it calls is a recorded event and
// every embedding call is a fault point.
#ifndef VERIF_PYTHON_STUB_H
#define VERIF_PYTHON_STUB_H
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
struct SimPyObject;
typedef SimPyObject PyObject;
typedef PyObject* (*PyCFunction)( PyObject*, PyObject* );
struct PyMethodDef { const char* ml_name; PyCFunction ml_meth; int ml_flags; const char* ml_doc; };
#define METH_VARARGS 1
#define METH_NOARGS 4
extern "C" {
void Py_SetProgramName( char* );
void Py_Initialize();
void Py_Finalize();
int Py_IsInitialized();
int PyRun_SimpleString( const char* );
PyObject* PyImport_ImportModule( const char* );
PyObject* PyImport_ReloadModule( PyObject* );
PyObject* PyObject_GetAttrString( PyObject*, const char* );
int PyCallable_Check( PyObject* );
PyObject* PyObject_CallObject( PyObject*, PyObject* );
PyObject* PyErr_Occurred();
void PyErr_Print();
void PyErr_Clear();
int PyArg_ParseTuple( PyObject*, const char*, ... );
PyObject* Py_BuildValue( const char*, ... );
PyObject* Py_InitModule( const char*, PyMethodDef* );
void simPyIncRef( PyObject* );
void simPyDecRef( PyObject* );
}
#define Py_INCREF( o ) simPyIncRef( o )
#define Py_DECREF( o ) simPyDecRef( o )
#define Py_XINCREF( o ) do { if( ( o ) != nullptr ) { simPyIncRef( o ); } } while( 0 )
#define Py_XDECREF( o ) do { if( ( o ) != nullptr ) { simPyDecRef( o ); } } while( 0 )
#endif
