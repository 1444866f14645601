/* The simulator's tracer.  Counts bytecode steps of library frames of one thread, knows which of them are
   places where CPython delivers signals, and calls back into Python only where something is to happen.
   (A Python-level trace function cannot be used to raise exceptions while other threads are traced: CPython 3.12
   then switches the thread's tracing off half-way through dispatching an event and calls a null pointer.) */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <frameobject.h>
#include <structmember.h>

static unsigned char LEGAL_AFTER[256], STORES[256];
static long long total_steps = 0;

typedef struct { PyFrameObject *fr; PyObject *code; int legal; } Ent;
typedef struct {
    PyObject_HEAD
    PyObject *root;      /* str: prefix of the library's file names */
    PyObject *codes;     /* dict code -> bytes (ours) or None */
    PyObject *callback;  /* callable(step, legal, frame) -> next step of interest */
    PyObject *depback;   /* callable(k, frame): the failing dependency call was reached */
    PyObject *stores, *legals;   /* lists, when recording */
    long long step, next, bound;
    long long depcalls, depfail;
    int pending;         /* call back at the next legal step */
    int every;           /* call back at every step */
    int record;
    Ent *st; int n, cap;
} Tracer;

static int is_ours(Tracer *t, PyObject *code, PyObject **bytes)
{
    PyObject *v = PyDict_GetItem(t->codes, code);      /* borrowed */
    if (v == NULL) {
        PyObject *fn = ((PyCodeObject *)code)->co_filename;
        int ours = PyUnicode_Check(fn) && PyUnicode_Tailmatch(fn, t->root, 0, PY_SSIZE_T_MAX, -1) == 1;
        PyObject *val = ours ? PyCode_GetCode((PyCodeObject *)code) : Py_NewRef(Py_None);
        if (val == NULL) return -1;
        if (PyDict_SetItem(t->codes, code, val) < 0) { Py_DECREF(val); return -1; }
        Py_DECREF(val);
        v = val;
    }
    *bytes = v;
    return v != Py_None;
}

static int call_back(Tracer *t, int legal, PyFrameObject *fr)
{
    PyObject *r = PyObject_CallFunction(t->callback, "LiO", t->step, legal, (PyObject *)fr);
    if (r == NULL) return -1;
    t->next = PyLong_AsLongLong(r);
    Py_DECREF(r);
    return PyErr_Occurred() ? -1 : 0;
}

static int tracefn(PyObject *self, PyFrameObject *fr, int what, PyObject *arg)
{
    Tracer *t = (Tracer *)self;
    if (what == PyTrace_OPCODE) {
        if (t->n == 0 || t->st[t->n - 1].fr != fr) return 0;
        Ent *e = &t->st[t->n - 1];
        int idx = PyFrame_GetLasti(fr);
        if (idx < 0 || idx >= PyBytes_GET_SIZE(e->code)) return 0;
        unsigned char op = (unsigned char)PyBytes_AS_STRING(e->code)[idx];
        int legal = e->legal;
        e->legal = LEGAL_AFTER[op];
        t->step++;
        total_steps++;
        if (t->record) {
            PyObject *n = PyLong_FromLongLong(t->step);
            if (n == NULL) return -1;
            if (STORES[op]) PyList_Append(t->stores, n);
            if (legal) PyList_Append(t->legals, n);
            Py_DECREF(n);
        }
        if (t->step == t->next || (t->pending && legal) || t->every || t->step > t->bound)
            return call_back(t, legal, fr);
        return 0;
    }
    if (what == PyTrace_CALL) {
        PyObject *code = (PyObject *)PyFrame_GetCode(fr), *bytes;
        int ours = is_ours(t, code, &bytes);
        Py_DECREF(code);
        if (ours < 0) return -1;
        PyFrameObject *back = NULL;
        if (t->n) { back = PyFrame_GetBack(fr); Py_XDECREF(back); }
        int from_ours = t->n && back == t->st[t->n - 1].fr;
        if (!ours) {
            if (from_ours) {
                t->depcalls++;
                if (t->depfail == t->depcalls) {
                    PyObject *r = PyObject_CallFunction(t->depback, "LO", t->depcalls, (PyObject *)fr);
                    if (r == NULL) return -1;
                    Py_DECREF(r);
                }
            }
            return 0;
        }
        if (from_ours) t->st[t->n - 1].legal = 0;   /* signals are looked at inside that frame */
        if (t->n == t->cap) {
            int cap = t->cap ? 2 * t->cap : 64;
            Ent *st = realloc(t->st, cap * sizeof(Ent));
            if (st == NULL) { PyErr_NoMemory(); return -1; }
            t->st = st; t->cap = cap;
        }
        t->st[t->n].fr = fr; t->st[t->n].code = bytes; t->st[t->n].legal = 1; t->n++;
        if (PyObject_SetAttrString((PyObject *)fr, "f_trace_lines", Py_False) < 0) return -1;
        if (PyObject_SetAttrString((PyObject *)fr, "f_trace_opcodes", Py_True) < 0) return -1;
        return 0;
    }
    if (what == PyTrace_RETURN) {
        if (t->n && t->st[t->n - 1].fr == fr) t->n--;
        return 0;
    }
    return 0;
}

static PyObject *t_new(PyTypeObject *type, PyObject *args, PyObject *kw)
{
    PyObject *root, *codes, *cb, *db;
    if (!PyArg_ParseTuple(args, "UO!OO", &root, &PyDict_Type, &codes, &cb, &db)) return NULL;
    Tracer *t = (Tracer *)type->tp_alloc(type, 0);
    if (t == NULL) return NULL;
    t->root = Py_NewRef(root); t->codes = Py_NewRef(codes); t->callback = Py_NewRef(cb); t->depback = Py_NewRef(db);
    t->stores = PyList_New(0); t->legals = PyList_New(0);
    t->next = -1; t->bound = 600000; t->depfail = -1;
    return (PyObject *)t;
}

static void t_dealloc(Tracer *t)
{
    Py_XDECREF(t->root); Py_XDECREF(t->codes); Py_XDECREF(t->callback); Py_XDECREF(t->depback);
    Py_XDECREF(t->stores); Py_XDECREF(t->legals);
    free(t->st);
    Py_TYPE(t)->tp_free((PyObject *)t);
}

static PyObject *t_on(Tracer *t, PyObject *unused)
{
    t->n = 0;
    PyEval_SetTrace(tracefn, (PyObject *)t);
    Py_RETURN_NONE;
}

static PyObject *off(PyObject *self, PyObject *unused)
{
    PyEval_SetTrace(NULL, NULL);
    Py_RETURN_NONE;
}

static PyObject *steps(PyObject *self, PyObject *unused) { return PyLong_FromLongLong(total_steps); }

static PyObject *config(PyObject *self, PyObject *args)
{
    PyObject *la, *st;
    if (!PyArg_ParseTuple(args, "O!O!", &PyBytes_Type, &la, &PyBytes_Type, &st)) return NULL;
    for (Py_ssize_t i = 0; i < PyBytes_GET_SIZE(la); i++) LEGAL_AFTER[(unsigned char)PyBytes_AS_STRING(la)[i]] = 1;
    for (Py_ssize_t i = 0; i < PyBytes_GET_SIZE(st); i++) STORES[(unsigned char)PyBytes_AS_STRING(st)[i]] = 1;
    Py_RETURN_NONE;
}

static int nothing(PyObject *self, PyFrameObject *fr, int what, PyObject *arg) { return 0; }

static PyObject *hold(PyObject *self, PyObject *unused)
{
    PyEval_SetTrace(nothing, Py_None);
    Py_RETURN_NONE;
}

static PyMemberDef members[] = {
    {"step", T_LONGLONG, offsetof(Tracer, step), 0}, {"next", T_LONGLONG, offsetof(Tracer, next), 0},
    {"bound", T_LONGLONG, offsetof(Tracer, bound), 0}, {"depcalls", T_LONGLONG, offsetof(Tracer, depcalls), 0},
    {"depfail", T_LONGLONG, offsetof(Tracer, depfail), 0}, {"pending", T_INT, offsetof(Tracer, pending), 0},
    {"every", T_INT, offsetof(Tracer, every), 0}, {"record", T_INT, offsetof(Tracer, record), 0},
    {"stores", T_OBJECT, offsetof(Tracer, stores), READONLY}, {"legals", T_OBJECT, offsetof(Tracer, legals), READONLY}, {0}};
static PyMethodDef methods[] = {{"on", (PyCFunction)t_on, METH_NOARGS, ""}, {0}};
static PyTypeObject TracerType = {
    PyVarObject_HEAD_INIT(NULL, 0).tp_name = "nvtrace.Tracer", .tp_basicsize = sizeof(Tracer), .tp_flags = Py_TPFLAGS_DEFAULT,
    .tp_new = t_new, .tp_dealloc = (destructor)t_dealloc, .tp_members = members, .tp_methods = methods};
static PyMethodDef funcs[] = {{"off", off, METH_NOARGS, ""}, {"hold", hold, METH_NOARGS, ""}, {"steps", steps, METH_NOARGS, ""},
                              {"config", config, METH_VARARGS, ""}, {0}};
static struct PyModuleDef D = {PyModuleDef_HEAD_INIT, "nvtrace", 0, -1, funcs};

PyMODINIT_FUNC PyInit_nvtrace(void)
{
    if (PyType_Ready(&TracerType) < 0) return NULL;
    PyObject *m = PyModule_Create(&D);
    if (m == NULL) return NULL;
    Py_INCREF(&TracerType);
    PyModule_AddObject(m, "Tracer", (PyObject *)&TracerType);
    return m;
}
