/* Native seams of the simulator: a failing array allocator (NEP 49) and a scripted bit generator. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <numpy/random/bitgen.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>

static long long alloc_count = 0, alloc_fail_at = -1, alloc_failed = 0;

/* Only arrays (not scalars) fail: numpy itself crashes on some failures of small temporary allocations. */
#define SMALLEST 32
static int should_fail(size_t n) {
    if (n < SMALLEST) return 0;
    alloc_count++;
    if (alloc_fail_at >= 0 && alloc_count == alloc_fail_at) { alloc_failed++; return 1; }
    return 0;
}
static void *h_malloc(void *ctx, size_t n) { return should_fail(n) ? NULL : malloc(n ? n : 1); }
static void *h_calloc(void *ctx, size_t n, size_t m) { return should_fail(n * m) ? NULL : calloc(n ? n : 1, m ? m : 1); }
static void *h_realloc(void *ctx, void *p, size_t n) { return should_fail(n) ? NULL : realloc(p, n ? n : 1); }
static void h_free(void *ctx, void *p, size_t n) { free(p); }

static PyDataMem_Handler handler = {"dsim_allocator", 1, {NULL, h_malloc, h_calloc, h_realloc, h_free}};
static PyObject *handler_capsule, *old_handler;

static PyObject *install(PyObject *self, PyObject *args) {
    PyObject *old = PyDataMem_SetHandler(handler_capsule);
    if (!old) return NULL;
    Py_XSETREF(old_handler, old);
    Py_RETURN_NONE;
}
static PyObject *uninstall(PyObject *self, PyObject *args) {
    if (old_handler) {
        PyObject *old = PyDataMem_SetHandler(old_handler);
        if (!old) return NULL;
        Py_DECREF(old);
        Py_CLEAR(old_handler);
    }
    Py_RETURN_NONE;
}
static PyObject *arm(PyObject *self, PyObject *args) {
    long long k;
    if (!PyArg_ParseTuple(args, "L", &k)) return NULL;
    alloc_count = 0; alloc_failed = 0; alloc_fail_at = k;
    Py_RETURN_NONE;
}
static PyObject *disarm(PyObject *self, PyObject *args) {
    alloc_fail_at = -1;
    return Py_BuildValue("LL", alloc_count, alloc_failed);
}

/* Guarded arrays: between pages that cannot be accessed, with their end (or start) at one of them, holding NaNs at first. */
#define PAGE 4096
static int at_start = 0;
static long long guarded = 0;
typedef struct { void *map; size_t len, size; } place_t;
static void *g_alloc(size_t n, int fill) {
    size_t body = (n + 15) / 16 * 16, pages = (body + PAGE - 1) / PAGE;
    if (!pages) pages = 1;
    size_t len = (pages + 3) * PAGE;
    char *m = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return NULL;
    /* [place][guard][array][guard] */
    place_t *p = (place_t *)m;
    p->map = m; p->len = len; p->size = n;
    mprotect(m, PAGE, PROT_READ);
    mprotect(m + PAGE, PAGE, PROT_NONE);
    mprotect(m + len - PAGE, PAGE, PROT_NONE);
    char *a = at_start ? m + 2 * PAGE : m + len - PAGE - body;
    if (fill) memset(a, 0xff, body);
    guarded++;
    return a;
}
static place_t *g_place(void *a) {
    /* an array always starts in the first of its pages: there are just as many as it needs */
    uintptr_t x = (uintptr_t)a & ~(uintptr_t)(PAGE - 1);
    return (place_t *)(x - 2 * PAGE);
}
static void *g_malloc(void *ctx, size_t n) { return g_alloc(n, 1); }
static void *g_calloc(void *ctx, size_t n, size_t m) { return g_alloc(n * m, 0); }
static void g_free(void *ctx, void *p, size_t n) { if (p) { place_t *q = g_place(p); munmap(q->map, q->len); } }
static void *g_realloc(void *ctx, void *p, size_t n) {
    void *a = g_alloc(n, 1);
    if (a && p) { size_t k = g_place(p)->size; memcpy(a, p, k < n ? k : n); g_free(ctx, p, 0); }
    return a;
}
static PyDataMem_Handler g_handler = {"dsim_guarded", 1, {NULL, g_malloc, g_calloc, g_realloc, g_free}};
static PyObject *g_capsule, *g_old;
static PyObject *guard(PyObject *self, PyObject *args) {
    int start;
    if (!PyArg_ParseTuple(args, "i", &start)) return NULL;
    at_start = start; guarded = 0;
    PyObject *old = PyDataMem_SetHandler(g_capsule);
    if (!old) return NULL;
    Py_XSETREF(g_old, old);
    Py_RETURN_NONE;
}
static PyObject *unguard(PyObject *self, PyObject *args) {
    if (g_old) {
        PyObject *old = PyDataMem_SetHandler(g_old);
        if (!old) return NULL;
        Py_DECREF(old);
        Py_CLEAR(g_old);
    }
    return PyLong_FromLongLong(guarded);
}

/* scripted generator: draws cycle through a list of doubles in [0, 1) */
typedef struct { bitgen_t bg; double *v; Py_ssize_t n, i; } script_t;
static double s_double(void *st) { script_t *s = st; double d = s->v[s->i % s->n]; s->i++; return d; }
static uint64_t s_u64(void *st) { return (uint64_t)(s_double(st) * 18446744073709551616.0); }
static uint32_t s_u32(void *st) { return (uint32_t)(s_double(st) * 4294967296.0); }
static void s_free(PyObject *cap) {
    bitgen_t *bg = PyCapsule_GetPointer(cap, "BitGenerator");
    if (bg) { script_t *s = (script_t *)bg; free(s->v); free(s); }
}
static PyObject *scripted(PyObject *self, PyObject *args) {
    PyObject *list;
    if (!PyArg_ParseTuple(args, "O!", &PyList_Type, &list)) return NULL;
    script_t *s = calloc(1, sizeof *s);
    s->n = PyList_GET_SIZE(list);
    s->v = malloc(sizeof(double) * (s->n ? s->n : 1));
    for (Py_ssize_t i = 0; i < s->n; i++) s->v[i] = PyFloat_AsDouble(PyList_GET_ITEM(list, i));
    if (PyErr_Occurred() || !s->n) { free(s->v); free(s); if (!PyErr_Occurred()) PyErr_SetString(PyExc_ValueError, "empty"); return NULL; }
    s->bg.state = s; s->bg.next_uint64 = s_u64; s->bg.next_uint32 = s_u32; s->bg.next_double = s_double; s->bg.next_raw = s_u64;
    return PyCapsule_New(&s->bg, "BitGenerator", s_free);
}
static PyObject *script_pos(PyObject *self, PyObject *cap) {
    bitgen_t *bg = PyCapsule_GetPointer(cap, "BitGenerator");
    if (!bg) return NULL;
    return PyLong_FromSsize_t(((script_t *)bg)->i);
}

static PyMethodDef methods[] = {
    {"install", install, METH_NOARGS, ""}, {"uninstall", uninstall, METH_NOARGS, ""},
    {"arm", arm, METH_VARARGS, ""}, {"disarm", disarm, METH_NOARGS, ""},
    {"guard", guard, METH_VARARGS, ""}, {"unguard", unguard, METH_NOARGS, ""},
    {"scripted", scripted, METH_VARARGS, ""}, {"script_pos", script_pos, METH_O, ""}, {NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "dsim_native", NULL, -1, methods};
PyMODINIT_FUNC PyInit_dsim_native(void) {
    import_array();
    handler_capsule = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!handler_capsule) return NULL;
    g_capsule = PyCapsule_New(&g_handler, "mem_handler", NULL);
    if (!g_capsule) return NULL;
    return PyModule_Create(&mod);
}
