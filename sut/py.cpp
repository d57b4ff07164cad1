// Between the simulator and a Python program (sut/py/user.py): a real interpreter whose
// threads run only when the simulation lets them. Its lock is given up wherever another
// thread of the simulation might run.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "tap.hpp"
#include "json.hpp"
#include "wtr/watcher-c.h"
#include <cstring>
#include <set>
#include <string>
#include <unistd.h>

extern "C" {
void sim_fail(char const* cls, char const* msg);
void sim_probe(char const*);
int sim_forgotten(int);
void sim_quiet(int);
void sim_wait(long long ns);
int sim_cfg(char const*, int);
void __cyg_profile_func_enter(void*, void*);
void* __wrap_wtr_watcher_open(char const*, wtr_watcher_callback, void*);
bool __wrap_wtr_watcher_close(void*);
// what the shared library of the binding leads to
__attribute__((visibility("default"))) void* sut_py_open(char const* p, wtr_watcher_callback cb, void* cx) { return __wrap_wtr_watcher_open(p, cb, cx); }
__attribute__((visibility("default"))) bool sut_py_close(void* h) { return __wrap_wtr_watcher_close(h); }
}
namespace {
struct Quiet { Quiet() { sim_quiet(1); } ~Quiet() { sim_quiet(0); } };
void pt() { __cyg_profile_func_enter((void*)pt, nullptr); }
bool running = false;

int index_of(char const* const* names, char const* s) {
  for (int i = 0; names[i]; i++) if (! strcmp(s, names[i])) return i;
  return -1;
}
PyObject* py_point(PyObject*, PyObject*) {
  if (running) { Py_BEGIN_ALLOW_THREADS pt(); Py_END_ALLOW_THREADS }
  Py_RETURN_NONE;
}
PyObject* py_wait(PyObject*, PyObject* args) {
  long long ns;
  if (! PyArg_ParseTuple(args, "L", &ns)) return nullptr;
  if (running) { Py_BEGIN_ALLOW_THREADS sim_wait(ns); Py_END_ALLOW_THREADS }
  Py_RETURN_NONE;
}
PyObject* py_deliver(PyObject*, PyObject* args) {
  static char const* const ET[] = {"RENAME", "MODIFY", "CREATE", "DESTROY", "OWNER", "OTHER", nullptr};
  static char const* const PT[] = {"DIR", "FILE", "HARD_LINK", "SYM_LINK", "WATCHER", "OTHER", nullptr};
  int w;
  char const *p, *a, *et, *kt;
  Py_ssize_t n, m;
  long long t;
  if (! PyArg_ParseTuple(args, "iy#z#ssL", &w, &p, &n, &a, &m, &et, &kt, &t)) return nullptr;
  tap_deliver(w, std::string(p, (size_t)n), a != nullptr, a ? std::string(a, (size_t)m) : "", index_of(ET, et), index_of(PT, kt), t, 0);
  Py_RETURN_NONE;
}
PyObject* py_fail(PyObject*, PyObject* args) {
  char const *c, *m;
  Py_ssize_t n;
  PyObject* b;
  if (! PyArg_ParseTuple(args, "sU", &c, &b)) return nullptr;
  PyObject* e = PyUnicode_AsEncodedString(b, "utf-8", "backslashreplace");
  PyBytes_AsStringAndSize(e, (char**)&m, &n);
  sim_fail(c, m);
  Py_DECREF(e);
  Py_RETURN_NONE;
}
PyObject* py_probe(PyObject*, PyObject* args) {
  char const* c;
  if (! PyArg_ParseTuple(args, "s", &c)) return nullptr;
  sim_probe(c);
  Py_RETURN_NONE;
}
PyObject* py_json(PyObject*, PyObject* args) { // by a second reader
  char const* c;
  Py_ssize_t n;
  if (! PyArg_ParseTuple(args, "s#", &c, &n)) return nullptr;
  Quiet q;
  tjson::Value v;
  std::string s(c, (size_t)n);
  if (! tjson::parse(s, v)) sim_fail("json.form", ("to_json is not JSON: " + s.substr(0, 300)).c_str());
  Py_RETURN_NONE;
}
std::string odd_told;
PyObject* py_told(PyObject*, PyObject* args) { // what became of an attempt
  char const* c;
  if (! PyArg_ParseTuple(args, "s", &c)) return nullptr;
  Quiet q;
  odd_told = c;
  Py_RETURN_NONE;
}
PyMethodDef methods[] = {
  {"told", py_told, METH_VARARGS, nullptr},
  {"point", py_point, METH_NOARGS, nullptr}, {"wait", py_wait, METH_VARARGS, nullptr}, {"deliver", py_deliver, METH_VARARGS, nullptr}, {"fail", py_fail, METH_VARARGS, nullptr},
  {"probe", py_probe, METH_VARARGS, nullptr}, {"json", py_json, METH_VARARGS, nullptr}, {nullptr, nullptr, 0, nullptr}};
PyModuleDef module = {PyModuleDef_HEAD_INIT, "simpy", nullptr, -1, methods, nullptr, nullptr, nullptr, nullptr};
PyObject* init() { return PyModule_Create(&module); }
PyObject* user = nullptr;

void die(char const* what) {
  fprintf(stderr, "sim: Python: %s\n", what);
  if (PyErr_Occurred()) PyErr_Print();
  _exit(3);
}
std::string told() { // the exception at hand, in words
  PyObject* e = PyErr_GetRaisedException();
  PyObject* r = e ? PyObject_Repr(e) : nullptr;
  char const* c = r ? PyUnicode_AsUTF8(r) : nullptr;
  std::string s = c ? c : "?";
  PyErr_Clear();
  Py_XDECREF(r);
  Py_XDECREF(e);
  return s;
}
template <class... A> void call(char const* cls, char const* f, char const* fmt, A... a) {
  PyGILState_STATE g = PyGILState_Ensure();
  PyObject* r = PyObject_CallMethod(user, f, fmt, a...);
  std::string m;
  if (! r) m = told();
  Py_XDECREF(r);
  PyGILState_Release(g);
  if (! r) sim_fail(cls, (std::string(f) + " raises " + m).c_str());
}
} // namespace

extern "C" void sut_boot() { // before any run
  char exe[4096];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  exe[n > 0 ? n : 0] = 0;
  std::string dir = std::string(exe).substr(0, std::string(exe).rfind('/')) + "/py";
  PyImport_AppendInittab("simpy", init);
  PyPreConfig pre;
  PyPreConfig_InitIsolatedConfig(&pre);
  pre.utf8_mode = 1;
  if (PyStatus_Exception(Py_PreInitialize(&pre))) die("no start");
  PyConfig c;
  PyConfig_InitIsolatedConfig(&c);
  c.use_hash_seed = 1;
  c.hash_seed = 0;
  c.write_bytecode = 0;
  c.site_import = 0;
  PyStatus s = Py_InitializeFromConfig(&c);
  if (PyStatus_Exception(s)) die("no start");
  PyObject* path = PySys_GetObject("path");
  PyObject* d = PyUnicode_FromString(dir.c_str());
  PyList_Insert(path, 0, d);
  Py_DECREF(d);
  user = PyImport_ImportModule("user");
  if (! user) die("import");
  PyEval_SaveThread();
}
static std::set<int> opened;
extern "C" void* sut_open(char const* path, int w) {
  running = true;
  tap_next(w);
  call("bind.open", "open_", "iyiiii", w, path, sim_cfg("py_how", 0), sim_cfg("js_throw", 0), sim_cfg("py_cycle", 0), sim_cfg("py_gc_at", 0));
  { Quiet q; opened.insert(w); }
  return (void*)(long)(w + 1);
}
static std::set<int> forgotten;
static void end_of_garbage(int w) { // somebody has to collect it (or has begun to)
  for (int i = 0; i < 5; i++) pt();
  for (int i = 0; i < 100 && ! tap_closed(w); i++) {
    call("bind.exception", "collect", nullptr);
    if (! tap_closed(w)) sim_wait(100000000);
  }
}
extern "C" int sut_close(void*, int w) {
  if (forgotten.count(w)) { end_of_garbage(w); return 0; }
  call("bind.exception", "close", "ii", w, sim_cfg("py_how", 0));
  tap_empty(w, "after close");
  return 0;
}
extern "C" void sut_also(void*, int w) {
  call("bind.exception", "again", "i", w);
  tap_empty(w, "after close");
}
extern "C" void sut_destroy(void*, int w) {
  if (! forgotten.count(w)) call("bind.exception", "drop", "i", w);
  if (sim_cfg("py_cycle", 0)) end_of_garbage(w);
  tap_empty(w, "after its end");
}
extern "C" int sut_caps() { return 1 | 2 | 8; }
extern "C" void sut_op(char const* verb, char const* a, char const* b) {
  if (! strcmp(verb, "odd")) {
    int how = TRIAL_PRETEND;
    bool must = true, type = ! strcmp(a, "type");
    std::string p = type ? "" : odd_path(a, atoi(b), how, must);
    if (p.empty() && ! type) return;
    running = true;
    tap_trial(how, p.data(), p.size());
    call("bind.exception", "odd", "sy#i", a, p.data(), (Py_ssize_t)p.size(), atoi(b));
    tap_trial_end(a, odd_told != "", must, odd_told.c_str());
    return;
  }
  int w = atoi(a);
  if (! strcmp(verb, "forget") && opened.count(w) && ! tap_closed(w) && ! forgotten.count(w) && sim_cfg("py_cycle", 0)) {
    if (! sim_forgotten(w)) return;
    { Quiet q; forgotten.insert(w); } // it may be collected at any time from here on
    sim_probe("forgotten-without-close");
    call("bind.exception", "forget", "ii", w, atoi(b));
  }
  if (! strcmp(verb, "collect")) call("bind.exception", "collect", nullptr);
}
