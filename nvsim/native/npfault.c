/* A numpy data allocator that can be told to fail the k-th allocation (of the calling context). */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
static long count=0, fail_at=-1, fired=0;
static int hit(void){ count++; if(fail_at>0 && count==fail_at){fired++; return 1;} return 0; }
static void* m(void*c,size_t s){ if(hit())return NULL; return malloc(s?s:1);}
static void* ca(void*c,size_t n,size_t s){ if(hit())return NULL; return calloc(n?n:1,s?s:1);}
static void* re(void*c,void*p,size_t s){ if(hit())return NULL; return realloc(p,s?s:1);}
static void fr(void*c,void*p,size_t s){ free(p);}
static PyDataMem_Handler H={"nvsim_fault",1,{NULL,m,ca,re,fr}};
static PyObject* arm(PyObject*s,PyObject*a){ long k; if(!PyArg_ParseTuple(a,"l",&k))return NULL; count=0;fired=0;fail_at=k;
  PyObject*cap=PyCapsule_New(&H,"mem_handler",NULL); if(!cap)return NULL; PyObject*old=PyDataMem_SetHandler(cap); Py_DECREF(cap); if(!old)return NULL; return old;}
static PyObject* disarm(PyObject*s,PyObject*old){ long c=count,f=fired; fail_at=-1; PyObject*o=PyDataMem_SetHandler(old==Py_None?NULL:old); if(!o)return NULL; Py_DECREF(o); return Py_BuildValue("ll",c,f);}
static PyObject* status(PyObject*s,PyObject*a){return Py_BuildValue("ll",count,fired);}
static PyMethodDef M[]={{"arm",arm,METH_VARARGS,""},{"disarm",disarm,METH_O,""},{"stat",status,METH_NOARGS,""},{0}};
static struct PyModuleDef D={PyModuleDef_HEAD_INIT,"npfault",0,-1,M};
PyMODINIT_FUNC PyInit_npfault(void){ import_array(); return PyModule_Create(&D);}
