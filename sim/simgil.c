/*
 * Interposes the release of the GIL in a compiled extension (linked with --wrap): before the lock is given up and after
 * it was taken back the simulator may run other simulated threads, as the interpreter may.
 */
#include <Python.h>
static PyObject *hook = NULL;
PyThreadState *__real_PyEval_SaveThread(void);
void __real_PyEval_RestoreThread(PyThreadState *);
void simgil_set(PyObject *f) { Py_XINCREF(f); Py_XSETREF(hook, f); }
static void point(const char *w) {
    PyObject *t, *v, *b, *r;
    if( hook == NULL || hook == Py_None ) return;
    PyErr_Fetch(&t, &v, &b);
    r = PyObject_CallFunction(hook, "s", w);
    if( r == NULL ) PyErr_Clear();
    Py_XDECREF(r);
    PyErr_Restore(t, v, b);
}
PyThreadState *__wrap_PyEval_SaveThread(void) { point("release"); return __real_PyEval_SaveThread(); }
void __wrap_PyEval_RestoreThread(PyThreadState *s) { __real_PyEval_RestoreThread(s); point("acquire"); }
