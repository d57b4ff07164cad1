// Between the simulator and the Node.js addon: the part of Node-API it uses, and a
// JavaScript thread whose turns the simulator decides.
#include "tap.hpp"
#include "json.hpp"
#define NAPI_VERSION 8
#include <node_api.h>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <fcntl.h>
#include <algorithm>
#include <vector>

extern "C" {
void sim_fail(char const* cls, char const* msg);
void sim_probe(char const*);
void sim_quiet(int);
void sim_wait(long long ns);
int sim_cfg(char const*, int);
void sim_close_now(int w);
int sim_forgotten(int w);
void* tap_handle(int w);
void __cyg_profile_func_enter(void*, void*);
napi_value napi_register_module_v1(napi_env, napi_value);
bool wtr_watcher_close(void*);
}
namespace {
struct Quiet { Quiet() { sim_quiet(1); } ~Quiet() { sim_quiet(0); } };
void pt() { __cyg_profile_func_enter((void*)pt, nullptr); } // a place where another thread may run
thread_local bool js_thread = false;

// ------------------------------------------------------------- values
enum Kind { UNDEF, NUL, BOOL, NUM, STR, OBJ, FUN, JSFUN, EXT };
struct Val;
using V = std::shared_ptr<Val>;
struct Fin { napi_finalize cb; void* data; void* hint; };
struct Val {
  Kind k = UNDEF;
  bool b = false;
  double n = 0;
  std::string s;
  std::vector<std::pair<std::string, V>> m;
  napi_callback cb = nullptr;
  void* data = nullptr;
  int id = 0;
  std::vector<Fin> fins;
};
V mk(Kind k) { auto v = std::make_shared<Val>(); v->k = k; return v; }
} // namespace
struct napi_value__ { V v; bool live = true; };
struct napi_ref__ { V v; unsigned n = 0; bool live = true; };
struct napi_callback_info__ { std::vector<V> args; void* data; };
struct napi_threadsafe_function__ {
  V fn;
  void* ctx = nullptr;
  napi_threadsafe_function_call_js js = nullptr;
  napi_finalize fin = nullptr;
  void* fin_data = nullptr;
  size_t max = 0, threads = 0;
  std::deque<void*> q;
  bool closing = false, dead = false;
};
struct Hook { void (*cb)(void*); void* arg; napi_threadsafe_function f; }; // to be run at its end, the last one first
struct napi_env__ {
  std::vector<std::unique_ptr<napi_value__>> handles;
  std::vector<size_t> scopes;
  std::vector<std::unique_ptr<napi_ref__>> refs;
  std::vector<std::unique_ptr<napi_threadsafe_function__>> fns;
  V exception;
  void* data = nullptr;
  std::vector<V> natives; // functions which JavaScript can call, by number
  std::vector<V> finals;  // values with something to do at their end
  V result;               // of the last native function
  std::vector<Hook> hooks;
  bool gone = false;
};
namespace {
napi_env__ E;
void bad(char const* cls, std::string const& m) { Quiet q; sim_fail(cls, m.c_str()); }
bool on_js(char const* f) {
  if (! js_thread) { bad("napi.thread", std::string(f) + " is called off the JavaScript thread"); return false; }
  return true;
}
napi_value hand(V v) {
  Quiet q;
  E.handles.emplace_back(new napi_value__{v});
  return E.handles.back().get();
}
V val(napi_value h, char const* f) {
  if (! h) return nullptr;
  if (! h->live) { bad("napi.handle", std::string(f) + " is given a handle of a scope which has ended"); return nullptr; }
  return h->v;
}
std::vector<std::unique_ptr<napi_value__>> dead_handles;
struct Scope {
  size_t n;
  Scope() : n(E.handles.size()) {}
  ~Scope() {
    Quiet q;
    while (E.handles.size() > n) { E.handles.back()->live = false; E.handles.back()->v = nullptr; dead_handles.push_back(std::move(E.handles.back())); E.handles.pop_back(); }
  }
};
std::string to_utf8(char const* p, size_t n) { // the way V8 takes UTF-8
  std::string o;
  for (size_t i = 0; i < n;) {
    size_t l = 1;
    for (size_t k = 1; k <= 4 && i + k <= n; k++) if (tjson::valid_utf8(std::string(p + i, k))) { o.append(p + i, k); l = k; goto next; }
    o += "\xEF\xBF\xBD";
  next:
    i += l;
  }
  return o;
}
// ------------------------------------------------------------- memory of the addon
struct Block { size_t n; bool freed; };
std::map<void*, Block> blocks;
std::set<void*> excused;

// ------------------------------------------------------------- the other process, where JavaScript runs
int js_fd = -1;
std::string js_buf;
void put(std::string const& s) {
  Quiet q;
  std::string m = s + "\n";
  for (size_t o = 0; o < m.size();) {
    ssize_t k = write(js_fd, m.data() + o, m.size() - o);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) { fprintf(stderr, "sim: the JavaScript process is gone\n"); _Exit(3); }
    o += (size_t)k;
  }
}
std::string line() {
  Quiet q;
  for (;;) {
    size_t i = js_buf.find('\n');
    if (i != std::string::npos) { std::string l = js_buf.substr(0, i); js_buf.erase(0, i + 1); return l; }
    char b[4096];
    ssize_t k = read(js_fd, b, sizeof b);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) { fprintf(stderr, "sim: the JavaScript process is gone\n"); _Exit(3); }
    js_buf.append(b, (size_t)k);
  }
}
std::string quote(std::string const& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') o += '\\', o += (char)c;
    else if (c < 0x20) snprintf(b, sizeof b, "\\u%04x", c), o += b;
    else o += (char)c;
  }
  return o + "\"";
}
int native_id(V const& v) {
  for (size_t i = 0; i < E.natives.size(); i++) if (E.natives[i] == v) return (int)i;
  E.natives.push_back(v);
  return (int)E.natives.size() - 1;
}
std::string enc(V const& v) {
  char b[48];
  if (! v) return "{\"$u\":1}";
  switch (v->k) {
    case NUL: return "null";
    case BOOL: return v->b ? "true" : "false";
    case NUM: if (v->n != v->n || std::isinf(v->n)) return "null"; snprintf(b, sizeof b, "%.17g", v->n); return b;
    case STR: return quote(v->s);
    case OBJ: {
      std::string o = "{";
      for (auto& m : v->m) o += (o.size() > 1 ? "," : "") + quote(m.first) + ":" + enc(m.second);
      return o + "}";
    }
    case FUN: return "{\"$nf\":" + std::to_string(native_id(v)) + "}";
    case JSFUN: return "{\"$js\":" + std::to_string(v->id) + "}";
    default: return "{\"$u\":1}";
  }
}
std::map<int, V> js_fns;
V dec(tjson::Value const* j) {
  if (! j) return mk(UNDEF);
  if (j->type == 's') { auto v = mk(STR); v->s = j->text; return v; }
  if (j->type == 'n') { auto v = mk(NUM); v->n = strtod(j->text.c_str(), nullptr); return v; }
  if (j->type == 'l') { auto v = mk(j->text == "null" ? NUL : BOOL); v->b = j->text == "true"; return v; }
  if (auto* f = j->get("$js")) {
    int id = atoi(f->text.c_str());
    if (! js_fns.count(id)) { js_fns[id] = mk(JSFUN); js_fns[id]->id = id; }
    return js_fns[id];
  }
  if (j->get("$u")) return mk(UNDEF);
  auto v = mk(OBJ);
  for (auto& m : j->members) v->m.push_back({m.first, dec(&m.second)});
  return v;
}
struct Answer { bool threw = false; V v; std::string what; };
std::map<int, int> taken; // events a user has been handed
bool user(int w, tjson::Value const* e, std::string const& keys); // false: it throws

// calls a native function the way JavaScript does
Answer native(int k, std::vector<V> args) {
  Answer a;
  V f;
  { Quiet q; if (k < 0 || k >= (int)E.natives.size()) { a.threw = true; a.what = "no such function"; return a; } f = E.natives[(size_t)k]; }
  Scope s;
  napi_callback_info__ info{args, f->data};
  napi_value r = f->cb(&E, &info);
  if (E.exception) { a.threw = true; a.what = E.exception->s; E.exception = nullptr; return a; }
  a.v = r ? val(r, "the result of a function") : mk(UNDEF);
  E.result = a.v;
  return a;
}
Answer ask(std::string const& m) {
  put(m);
  for (;;) {
    tjson::Value r;
    std::string l = line();
    { Quiet q; tjson::Reader rd(l); if (! rd.value(r)) { fprintf(stderr, "sim: what does JavaScript say? %s\n", l.c_str()); _Exit(3); } }
    std::string t = r.get("t") ? r.get("t")->text : "";
    if (t == "ret") { Quiet q; Answer a; a.v = dec(r.get("v")); return a; }
    if (t == "threw") { Quiet q; Answer a; a.threw = true; a.what = r.get("m") ? r.get("m")->text : ""; return a; }
    if (t == "native") {
      std::vector<V> args;
      int k;
      { Quiet q; k = atoi(r.get("k")->text.c_str()); for (int i = 0; i < atoi(r.get("n")->text.c_str()); i++) args.push_back(dec(r.get(("a" + std::to_string(i)).c_str()))); }
      Answer a = native(k, args);
      Quiet q;
      put(a.threw ? "{\"t\":\"threw\",\"m\":" + quote(a.what) + "}" : "{\"t\":\"ret\",\"v\":" + enc(a.v) + "}");
    } else if (t == "user") {
      bool ok = user(atoi(r.get("w")->text.c_str()), r.get("e"), r.get("keys")->text);
      put(ok ? "{\"t\":\"ret\",\"v\":null}" : "{\"t\":\"threw\",\"m\":\"thrown by the user\"}");
    } else { fprintf(stderr, "sim: what does JavaScript want? %s\n", l.c_str()); _Exit(3); }
  }
}
} // namespace

extern "C" {
void* nx_malloc(size_t n) {
  Quiet q;
  void* p = malloc(n ? n : 1);
  memset(p, 0xA5, n);
  blocks[p] = {n, false};
  return p;
}
void* nx_calloc(size_t a, size_t b) { void* p = nx_malloc(a * b); memset(p, 0, a * b); return p; }
char* nx_strdup(char const* s) {
  if (! s) { bad("napi.memory", "strdup of a null pointer"); return nullptr; }
  size_t n = strlen(s) + 1;
  char* p = (char*)nx_malloc(n);
  memcpy(p, s, n);
  return p;
}
void nx_free(void* p) {
  if (! p) return;
  Quiet q;
  auto i = blocks.find(p);
  if (i == blocks.end()) { bad("napi.memory", "free of memory which was never allocated"); return; }
  if (i->second.freed) { bad("napi.memory", "memory is freed twice"); return; }
  i->second.freed = true; // kept, so that using it shows
  memset(p, 0xDD, i->second.n);
}

// ------------------------------------------------------------- Node-API
static int refuse_in = 0; // calls until one is refused, as they are without memory or when JavaScript is to end
static bool refused() {
  if (! refuse_in || --refuse_in) return false;
  sim_probe("napi-call-refused");
  return true;
}
#define MAY(f) do { JS(f); if (refused()) return napi_generic_failure; } while (0)
#define JS(f) do { if (! on_js(f)) return napi_generic_failure; if (E.exception && strcmp(f, "napi_call_function") == 0) return napi_pending_exception; } while (0)
napi_status napi_create_object(napi_env, napi_value* r) { MAY("napi_create_object"); *r = hand(mk(OBJ)); return napi_ok; }
static napi_status number(double d, napi_value* r) { Quiet q; V v = mk(NUM); v->n = d; *r = hand(v); return napi_ok; }
napi_status napi_create_int64(napi_env, int64_t n, napi_value* r) { JS("napi_create_int64"); return number((double)n, r); }
napi_status napi_create_int32(napi_env, int32_t n, napi_value* r) { JS("napi_create_int32"); return number(n, r); }
napi_status napi_create_uint32(napi_env, uint32_t n, napi_value* r) { JS("napi_create_uint32"); return number(n, r); }
napi_status napi_create_double(napi_env, double n, napi_value* r) { JS("napi_create_double"); return number(n, r); }
napi_status napi_create_string_utf8(napi_env, char const* s, size_t n, napi_value* r) {
  MAY("napi_create_string_utf8");
  Quiet q;
  if (! s) { if (n) return napi_invalid_arg; s = ""; }
  V v = mk(STR);
  v->s = to_utf8(s, n == NAPI_AUTO_LENGTH ? strlen(s) : n);
  *r = hand(v);
  return napi_ok;
}
napi_status napi_create_string_latin1(napi_env, char const* s, size_t n, napi_value* r) {
  JS("napi_create_string_latin1");
  Quiet q;
  V v = mk(STR);
  if (n == NAPI_AUTO_LENGTH) n = strlen(s);
  for (size_t i = 0; i < n; i++) tjson::Reader::utf8(v->s, (unsigned char)s[i]);
  *r = hand(v);
  return napi_ok;
}
napi_status napi_get_null(napi_env, napi_value* r) { JS("napi_get_null"); *r = hand(mk(NUL)); return napi_ok; }
napi_status napi_get_undefined(napi_env, napi_value* r) { JS("napi_get_undefined"); *r = hand(mk(UNDEF)); return napi_ok; }
napi_status napi_get_global(napi_env, napi_value* r) { JS("napi_get_global"); *r = hand(mk(OBJ)); return napi_ok; }
napi_status napi_get_boolean(napi_env, bool b, napi_value* r) { JS("napi_get_boolean"); Quiet q; V v = mk(BOOL); v->b = b; *r = hand(v); return napi_ok; }
napi_status napi_set_named_property(napi_env, napi_value o, char const* k, napi_value x) {
  MAY("napi_set_named_property");
  V a = val(o, "napi_set_named_property"), b = val(x, "napi_set_named_property");
  Quiet q;
  if (! a || ! b) return napi_invalid_arg;
  if (a->k != OBJ && a->k != FUN) return napi_object_expected;
  for (auto& m : a->m) if (m.first == k) { m.second = b; return napi_ok; }
  a->m.push_back({k, b});
  return napi_ok;
}
napi_status napi_get_named_property(napi_env, napi_value o, char const* k, napi_value* r) {
  JS("napi_get_named_property");
  V a = val(o, "napi_get_named_property");
  Quiet q;
  if (! a) return napi_invalid_arg;
  V v = mk(UNDEF);
  for (auto& m : a->m) if (m.first == k) v = m.second;
  *r = hand(v);
  return napi_ok;
}
napi_status napi_define_properties(napi_env, napi_value o, size_t n, napi_property_descriptor const* d) {
  MAY("napi_define_properties");
  for (size_t i = 0; i < n; i++) {
    napi_value x = d[i].value;
    if (d[i].method) { V v = mk(FUN); v->cb = d[i].method; v->data = d[i].data; x = hand(v); }
    if (d[i].utf8name && x) napi_set_named_property(&E, o, d[i].utf8name, x);
  }
  return napi_ok;
}
napi_status napi_create_function(napi_env, char const*, size_t, napi_callback cb, void* data, napi_value* r) {
  MAY("napi_create_function");
  Quiet q;
  if (! cb) return napi_invalid_arg;
  V v = mk(FUN);
  v->cb = cb;
  v->data = data;
  *r = hand(v);
  return napi_ok;
}
napi_status napi_get_cb_info(napi_env, napi_callback_info i, size_t* n, napi_value* a, napi_value* self, void** data) {
  JS("napi_get_cb_info");
  Quiet q;
  if (n) {
    if (a) for (size_t k = 0; k < *n; k++) a[k] = hand(k < i->args.size() ? i->args[k] : mk(UNDEF));
    *n = i->args.size();
  }
  if (self) *self = hand(mk(OBJ));
  if (data) *data = i->data;
  return napi_ok;
}
napi_status napi_typeof(napi_env, napi_value h, napi_valuetype* t) {
  JS("napi_typeof");
  V v = val(h, "napi_typeof");
  if (! v) return napi_invalid_arg;
  *t = v->k == UNDEF ? napi_undefined : v->k == NUL ? napi_null : v->k == BOOL ? napi_boolean : v->k == NUM ? napi_number : v->k == STR ? napi_string
     : v->k == OBJ ? napi_object : v->k == EXT ? napi_external : napi_function;
  return napi_ok;
}
napi_status napi_get_value_bool(napi_env, napi_value h, bool* r) { JS("napi_get_value_bool"); V v = val(h, "napi_get_value_bool"); if (! v || v->k != BOOL) return napi_boolean_expected; *r = v->b; return napi_ok; }
napi_status napi_get_value_double(napi_env, napi_value h, double* r) { JS("napi_get_value_double"); V v = val(h, "napi_get_value_double"); if (! v || v->k != NUM) return napi_number_expected; *r = v->n; return napi_ok; }
napi_status napi_get_value_int32(napi_env, napi_value h, int32_t* r) { JS("napi_get_value_int32"); V v = val(h, "napi_get_value_int32"); if (! v || v->k != NUM) return napi_number_expected; *r = (int32_t)v->n; return napi_ok; }
napi_status napi_get_value_int64(napi_env, napi_value h, int64_t* r) { JS("napi_get_value_int64"); V v = val(h, "napi_get_value_int64"); if (! v || v->k != NUM) return napi_number_expected; *r = (int64_t)v->n; return napi_ok; }
napi_status napi_get_value_string_utf8(napi_env, napi_value h, char* b, size_t n, size_t* r) {
  JS("napi_get_value_string_utf8");
  V v = val(h, "napi_get_value_string_utf8");
  Quiet q;
  if (! v || v->k != STR) return napi_string_expected;
  if (! b) { if (! r) return napi_invalid_arg; *r = v->s.size(); return napi_ok; }
  if (! n) { if (r) *r = 0; return napi_ok; }
  size_t k = std::min(n - 1, v->s.size());
  while (k < v->s.size() && k && ((unsigned char)v->s[k] & 0xC0) == 0x80) k--; // no half characters
  memcpy(b, v->s.data(), k);
  b[k] = 0;
  if (r) *r = k;
  return napi_ok;
}
napi_status napi_throw_error(napi_env, char const*, char const* m) { JS("napi_throw_error"); Quiet q; E.exception = mk(STR); E.exception->s = m ? m : ""; return napi_ok; }
napi_status napi_throw_type_error(napi_env e, char const* c, char const* m) { return napi_throw_error(e, c, m); }
napi_status napi_is_exception_pending(napi_env, bool* r) { JS("napi_is_exception_pending"); *r = E.exception != nullptr; return napi_ok; }
napi_status napi_get_and_clear_last_exception(napi_env, napi_value* r) {
  JS("napi_get_and_clear_last_exception");
  *r = hand(E.exception ? E.exception : mk(UNDEF));
  E.exception = nullptr;
  return napi_ok;
}
napi_status napi_create_reference(napi_env, napi_value h, uint32_t n, napi_ref* r) {
  MAY("napi_create_reference");
  V v = val(h, "napi_create_reference");
  Quiet q;
  if (! v || (v->k != OBJ && v->k != FUN && v->k != JSFUN && v->k != EXT)) return napi_invalid_arg;
  E.refs.emplace_back(new napi_ref__{v, n});
  *r = E.refs.back().get();
  return napi_ok;
}
static bool own(napi_ref r) { for (auto& x : E.refs) if (x.get() == r) return true; return false; }
napi_status napi_delete_reference(napi_env, napi_ref r) {
  JS("napi_delete_reference");
  Quiet q;
  if (! own(r)) { bad("napi.memory", "napi_delete_reference is given what is no reference"); return napi_invalid_arg; }
  if (! r->live) { bad("napi.memory", "a reference is deleted twice"); return napi_invalid_arg; }
  r->live = false;
  r->v = nullptr;
  return napi_ok;
}
napi_status napi_reference_ref(napi_env, napi_ref r, uint32_t* n) { JS("napi_reference_ref"); if (! own(r) || ! r->live) { bad("napi.memory", "a deleted reference is used"); return napi_invalid_arg; } r->n++; if (n) *n = r->n; return napi_ok; }
napi_status napi_reference_unref(napi_env, napi_ref r, uint32_t* n) { JS("napi_reference_unref"); if (! own(r) || ! r->live || ! r->n) { bad("napi.memory", "a deleted reference is used"); return napi_generic_failure; } r->n--; if (n) *n = r->n; return napi_ok; }
napi_status napi_get_reference_value(napi_env, napi_ref r, napi_value* o) {
  JS("napi_get_reference_value");
  if (! own(r) || ! r->live) { bad("napi.memory", "a deleted reference is used"); return napi_invalid_arg; }
  *o = hand(r->v);
  return napi_ok;
}
napi_status napi_add_finalizer(napi_env, napi_value h, void* data, napi_finalize cb, void* hint, napi_ref* r) {
  MAY("napi_add_finalizer");
  V v = val(h, "napi_add_finalizer");
  Quiet q;
  if (! v) return napi_invalid_arg;
  v->fins.push_back({cb, data, hint});
  E.finals.push_back(v);
  if (r) { E.refs.emplace_back(new napi_ref__{v, 0}); *r = E.refs.back().get(); }
  return napi_ok;
}
napi_status napi_wrap(napi_env e, napi_value h, void* data, napi_finalize cb, void* hint, napi_ref* r) {
  V v = val(h, "napi_wrap");
  if (! v) return napi_invalid_arg;
  v->data = data;
  return cb ? napi_add_finalizer(e, h, data, cb, hint, r) : napi_ok;
}
napi_status napi_unwrap(napi_env, napi_value h, void** r) { JS("napi_unwrap"); V v = val(h, "napi_unwrap"); if (! v || ! v->data) return napi_invalid_arg; *r = v->data; return napi_ok; }
napi_status napi_create_external(napi_env e, void* data, napi_finalize cb, void* hint, napi_value* r) {
  JS("napi_create_external");
  V v = mk(EXT);
  v->data = data;
  *r = hand(v);
  return cb ? napi_add_finalizer(e, *r, data, cb, hint, nullptr) : napi_ok;
}
napi_status napi_get_value_external(napi_env, napi_value h, void** r) { JS("napi_get_value_external"); V v = val(h, "napi_get_value_external"); if (! v || v->k != EXT) return napi_invalid_arg; *r = v->data; return napi_ok; }
napi_status napi_open_handle_scope(napi_env, napi_handle_scope* s) { JS("napi_open_handle_scope"); E.scopes.push_back(E.handles.size()); *s = (napi_handle_scope)(E.scopes.size()); return napi_ok; }
napi_status napi_close_handle_scope(napi_env, napi_handle_scope) {
  JS("napi_close_handle_scope");
  if (E.scopes.empty()) return napi_handle_scope_mismatch;
  Scope s;
  s.n = E.scopes.back();
  E.scopes.pop_back();
  return napi_ok;
}
napi_status napi_set_instance_data(napi_env, void* d, napi_finalize, void*) { E.data = d; return napi_ok; }
napi_status napi_get_instance_data(napi_env, void** d) { *d = E.data; return napi_ok; }
napi_status napi_add_env_cleanup_hook(napi_env, void (*cb)(void*), void* arg) {
  JS("napi_add_env_cleanup_hook");
  Quiet q;
  for (auto& h : E.hooks) if (h.cb == cb && h.arg == arg) { bad("napi.memory", "a cleanup hook is added twice"); return napi_generic_failure; }
  E.hooks.push_back({cb, arg, nullptr});
  return napi_ok;
}
napi_status napi_remove_env_cleanup_hook(napi_env, void (*cb)(void*), void* arg) {
  JS("napi_remove_env_cleanup_hook");
  Quiet q;
  for (size_t i = 0; i < E.hooks.size(); i++) if (E.hooks[i].cb == cb && E.hooks[i].arg == arg) { E.hooks.erase(E.hooks.begin() + (long)i); break; }
  return napi_ok;
}
napi_status napi_call_function(napi_env, napi_value, napi_value f, size_t n, napi_value const* args, napi_value* r) {
  JS("napi_call_function");
  if (E.gone) return napi_pending_exception; // nothing of JavaScript runs any more
  V v = val(f, "napi_call_function");
  if (! v || (v->k != FUN && v->k != JSFUN)) return napi_function_expected;
  std::vector<V> a;
  { Quiet q; for (size_t i = 0; i < n; i++) { V x = val(args[i], "napi_call_function"); a.push_back(x ? x : mk(UNDEF)); } }
  Answer an;
  if (v->k == FUN) an = native(native_id(v), a);
  else {
    std::string m;
    { Quiet q; m = "{\"t\":\"call\",\"f\":" + std::to_string(v->id) + ",\"n\":" + std::to_string(a.size()); for (size_t i = 0; i < a.size(); i++) m += ",\"a" + std::to_string(i) + "\":" + enc(a[i]); m += "}"; }
    an = ask(m);
  }
  if (an.threw) { Quiet q; E.exception = mk(STR); E.exception->s = an.what; return napi_pending_exception; }
  if (r) *r = hand(an.v);
  return napi_ok;
}
// ------------------------------------------------------------- thread-safe functions
static bool owntsfn(napi_threadsafe_function f) { for (auto& x : E.fns) if (x.get() == f) return true; return false; }
static bool usable(napi_threadsafe_function f, char const* what) {
  if (! owntsfn(f)) { bad("napi.memory", std::string(what) + " is given what is no thread-safe function"); return false; }
  if (f->dead) { bad("napi.memory", std::string(what) + " uses a thread-safe function which is gone"); return false; }
  return true;
}
napi_status napi_create_threadsafe_function(napi_env, napi_value fn, napi_value, napi_value name, size_t max, size_t threads, void* fin_data, napi_finalize fin, void* ctx, napi_threadsafe_function_call_js js, napi_threadsafe_function* r) {
  MAY("napi_create_threadsafe_function");
  V v = fn ? val(fn, "napi_create_threadsafe_function") : nullptr;
  if (fn && (! v || (v->k != FUN && v->k != JSFUN))) return napi_invalid_arg;
  if (! fn && ! js) return napi_invalid_arg;
  if (! threads || ! val(name, "napi_create_threadsafe_function")) return napi_invalid_arg;
  Quiet q;
  E.fns.emplace_back(new napi_threadsafe_function__);
  auto& f = *E.fns.back();
  f.fn = v; f.ctx = ctx; f.js = js; f.fin = fin; f.fin_data = fin_data; f.max = max; f.threads = threads;
  E.hooks.push_back({nullptr, nullptr, &f});
  *r = &f;
  return napi_ok;
}
napi_status napi_call_threadsafe_function(napi_threadsafe_function f, void* data, napi_threadsafe_function_call_mode mode) {
  pt();
  if (! usable(f, "napi_call_threadsafe_function")) return napi_invalid_arg;
  while (f->max && f->q.size() >= f->max && ! f->closing) {
    if (mode == napi_tsfn_nonblocking) { sim_probe("js-queue-full"); return napi_queue_full; }
    if (js_thread) { bad("napi.deadlock", "the JavaScript thread waits for itself"); return napi_would_deadlock; }
    sim_wait(1000000);
    if (f->dead) return napi_closing;
  }
  if (f->closing) {
    if (! f->threads) return napi_invalid_arg;
    f->threads--;
    return napi_closing;
  }
  static thread_local int calls = 0;
  if (int every = sim_cfg("js_refuse", 0); every && ++calls % every == 0) { // no memory, say
    sim_probe("js-call-refused");
    tap_unsay();
    return napi_generic_failure;
  }
  { Quiet q; f->q.push_back(data); if (f->q.size() > 3) sim_probe("js-backlog"); }
  pt();
  return napi_ok;
}
napi_status napi_acquire_threadsafe_function(napi_threadsafe_function f) { if (! usable(f, "napi_acquire_threadsafe_function")) return napi_invalid_arg; if (f->closing) return napi_closing; f->threads++; return napi_ok; }
napi_status napi_release_threadsafe_function(napi_threadsafe_function f, napi_threadsafe_function_release_mode mode) {
  pt();
  if (! usable(f, "napi_release_threadsafe_function")) return napi_invalid_arg;
  if (! f->threads) { bad("napi.memory", "a thread-safe function is released more often than it was acquired"); return napi_invalid_arg; }
  f->threads--;
  if (mode == napi_tsfn_abort) f->closing = true;
  return napi_ok;
}
napi_status napi_ref_threadsafe_function(napi_env, napi_threadsafe_function f) { return usable(f, "napi_ref_threadsafe_function") ? napi_ok : napi_invalid_arg; }
napi_status napi_unref_threadsafe_function(napi_env, napi_threadsafe_function f) { return usable(f, "napi_unref_threadsafe_function") ? napi_ok : napi_invalid_arg; }
napi_status napi_get_threadsafe_function_context(napi_threadsafe_function f, void** r) { if (! usable(f, "napi_get_threadsafe_function_context")) return napi_invalid_arg; *r = f->ctx; return napi_ok; }
void napi_module_register(napi_module*) {}
} // extern "C"

namespace {
// ------------------------------------------------------------- turns of the JavaScript thread
bool finishable(napi_threadsafe_function__& f) { return ! f.dead && (f.closing || (f.q.empty() && ! f.threads)); }
void end_of(napi_threadsafe_function__& f) {
  Scope s;
  // what is queued goes to the addon without an environment, to be freed
  if (f.closing) while (! f.q.empty()) { void* d; { Quiet q; d = f.q.front(); f.q.pop_front(); } if (f.js) f.js(nullptr, nullptr, f.ctx, d); }
  f.dead = true;
  {
    Quiet q;
    for (size_t i = 0; i < E.hooks.size(); i++) if (E.hooks[i].f == &f) { E.hooks.erase(E.hooks.begin() + (long)i); break; }
  }
  if (f.fin) f.fin(&E, f.fin_data, f.ctx);
}
// one turn: something was done
bool turn() {
  if (E.gone) return false;
  for (size_t i = 0; i < E.fns.size(); i++) {
    auto& f = *E.fns[i];
    if (f.dead) continue;
    if (finishable(f)) {
      end_of(f);
      return true;
    }
    if (! f.q.empty()) {
      void* d;
      { Quiet q; d = f.q.front(); f.q.pop_front(); }
      Scope s;
      napi_value cb = f.fn ? hand(f.fn) : nullptr;
      if (f.js) f.js(&E, cb, f.ctx, d);
      else napi_call_function(&E, nullptr, cb, 0, nullptr, nullptr);
      if (E.exception) { Quiet q; if (E.exception->s != "thrown by the user") sim_fail("bind.exception", ("the binding throws: " + E.exception->s).c_str()); E.exception = nullptr; }
      return true;
    }
  }
  return false;
}
struct Mine { int w = -1; V obj; bool dropped = false, ended = false; };
std::map<int, Mine> mine;
int throwing = -1, close_at = -1, close_w = -1;

// garbage: objects JavaScript can no longer reach, and their finalizers
void mark(V const& v, std::set<Val*>& seen) { if (! v || ! seen.insert(v.get()).second) return; for (auto& m : v->m) mark(m.second, seen); }
bool collect() {
  if (E.gone) return false;
  std::set<Val*> seen;
  std::vector<std::pair<V, Fin>> run;
  {
    Quiet q;
    for (auto& m : mine) mark(m.second.obj, seen);
    for (auto& h : E.handles) mark(h->v, seen);
    for (auto& r : E.refs) if (r->live && r->n) mark(r->v, seen);
    for (auto& f : E.fns) if (! f->dead) mark(f->fn, seen);
    for (auto& v : E.finals) {
      if (seen.count(v.get())) continue;
      for (auto& x : v->fins) run.push_back({v, x});
      v->fins.clear();
    }
  }
  Scope s;
  for (auto& x : run) x.second.cb(&E, x.second.data, x.second.hint);
  return ! run.empty();
}

// The environment ends, as it does with a worker thread, or with the process: what was to be done
// then is done, nothing which is queued arrives, and what is left has its finalizers called.
bool behind = false; // the simulation has closed what the addon has open
void leave() {
  if (behind) return;
  sim_probe("environment-ends");
  for (auto& m : mine) { tap_forget(m.first); if (tap_handle(m.first)) { sim_probe("environment-ends-while-watching"); m.second.ended = true; sim_forgotten(m.first); } }
  E.gone = true;
  std::vector<napi_threadsafe_function> late;
  while (E.hooks.size()) {
    Hook h;
    { Quiet q; h = E.hooks.back(); E.hooks.pop_back(); }
    pt();
    Scope s;
    if (h.cb) h.cb(h.arg);
    else { h.f->closing = true; Quiet q; late.push_back(h.f); }
  }
  for (auto* f : late) { pt(); if (! f->dead) end_of(*f); }
  for (size_t i = 0; i < E.finals.size(); i++) {
    std::vector<Fin> run;
    { Quiet q; run.swap(E.finals[i]->fins); }
    Scope s;
    for (auto& x : run) x.cb(&E, x.data, x.hint);
  }
  Quiet q;
  for (auto& m : mine) m.second.obj = nullptr;
}

int index_of(char const* const* names, std::string const& s) {
  for (int i = 0; names[i]; i++) if (s == names[i]) return i;
  return -1;
}
bool user(int w, tjson::Value const* e, std::string const& keys) {
  static char const* const ET[] = {"rename", "modify", "create", "destroy", "owner", "other", nullptr};
  static char const* const PT[] = {"dir", "file", "hardLink", "symLink", "watcher", "other", nullptr};
  {
    Quiet q;
    std::string p, a, et, pt_;
    bool has = false, ok = e && e->type == 'o';
    long long t = 0;
    auto str = [&](char const* k, std::string& o) { auto* x = ok ? e->get(k) : nullptr; if (! x || x->type != 's') ok = false; else o = x->text; };
    str("pathName", p); str("effectType", et); str("pathType", pt_);
    auto* at = ok ? e->get("associatedPathName") : nullptr;
    if (! at) ok = false;
    else if (at->type == 's') has = true, a = at->text;
    else if (at->text != "null") ok = false;
    auto* tt = ok ? e->get("effectTime") : nullptr;
    if (! tt || tt->type != 'n') ok = false;
    else t = (long long)strtod(tt->text.c_str(), nullptr);
    if (! ok) sim_fail("bind.fields", ("watcher " + std::to_string(w) + ": the event's object is not of the documented form, it has " + keys).c_str());
    else tap_deliver(w, p, has, a, index_of(ET, et), index_of(PT, pt_), t, TAP_LOSSY | TAP_DOUBLE);
  }
  int n = ++taken[w];
  if (w == close_w && n == close_at) { sim_probe("closed-from-the-callback"); sim_close_now(w); }
  return ! (throwing > 0 && n % throwing == 0);
}
} // namespace

extern "C" void sut_boot() { // before any run: a node, which waits
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) _Exit(3);
  char exe[4096];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  exe[n > 0 ? n : 0] = 0;
  std::string boot = std::string(exe).substr(0, std::string(exe).rfind('/')) + "/js/boot.mjs";
  pid_t parent = getpid();
  if (fork() == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) _exit(0);
    close(sv[0]);
    std::string fd = std::to_string(sv[1]);
    execlp("node", "node", "--no-warnings", "--single-threaded-gc", "--v8-pool-size=0", boot.c_str(), fd.c_str(), (char*)nullptr);
    _exit(3);
  }
  close(sv[1]);
  js_fd = fcntl(sv[0], 1030 /* F_DUPFD_CLOEXEC */, 900);
  close(sv[0]);
}
static void begin() {
  static bool done = false;
  js_thread = true;
  if (done) return;
  done = true;
  std::string n = std::to_string(getpid());
  put("{\"t\":\"reset\",\"n\":" + n + "}");
  std::string want = "{\"t\":\"reset\",\"n\":" + n + "}";
  for (;;) { std::string l = line(); size_t at = l.size() >= want.size() ? l.size() - want.size() : 0; if (l.compare(at, std::string::npos, want) == 0) break; }
  throwing = sim_cfg("js_throw", 0);
  close_at = sim_cfg("js_close_at", 0);
  close_w = sim_cfg("js_close_w", 0);
  Scope s;
  napi_value exports = hand(mk(OBJ));
  napi_value r = napi_register_module_v1(&E, exports);
  V x = r ? r->v : nullptr, f;
  if (x) for (auto& m : x->m) if (m.first == "watch") f = m.second;
  if (! f || f->k != FUN) { bad("bind.open", "the addon exports no function watch"); f = mk(FUN); }
  E.natives.insert(E.natives.begin(), f);
}
extern "C" void* sut_open(char const* path, int w) {
  begin();
  tap_next(w);
  std::string m;
  { Quiet q; m = "{\"t\":\"watch\",\"w\":" + std::to_string(w) + ",\"path\":" + quote(path) + "}"; }
  E.result = nullptr;
  Answer a = ask(m);
  Quiet q;
  if (a.threw) bad("bind.open", "watch throws: " + a.what);
  mine[w].w = w;
  // JavaScript holds what it was given until it lets go of it
  mine[w].obj = E.result;
  return &mine[w];
}
extern "C" int sut_close(void* h, int w) {
  auto& m = *(Mine*)h;
  if (E.gone) {
    if (void* x = tap_handle(w)) { bad("napi.env", "the environment has ended, and its watcher goes on"); return wtr_watcher_close(x); }
    bool r = m.ended && tap_result(w);
    m.ended = false;
    return r;
  }
  if (m.dropped) { // nobody can close it any more: the simulation ends it
    void* x = tap_handle(w);
    if (x) behind = true;
    return x ? wtr_watcher_close(x) : 0;
  }
  Answer a = ask("{\"t\":\"close\",\"w\":" + std::to_string(w) + "}");
  Quiet q;
  if (a.threw) { bad("bind.exception", "close throws: " + a.what); return 0; }
  if (! a.v || a.v->k != BOOL) { bad("bind.fields", "close returns no boolean"); return 0; }
  m.obj = nullptr; // the module lets go of the addon's object
  return a.v->b;
}
extern "C" void sut_destroy(void* h, int w) {
  while (turn()) {}
  tap_empty(w, "after close");
  auto& m = *(Mine*)h;
  m.obj = nullptr;
  if (! m.dropped) ask("{\"t\":\"drop\",\"w\":" + std::to_string(w) + "}");
  tap_forget(w);
  collect();
}
extern "C" int sut_caps() { return 2; }
extern "C" int sut_pump() { return js_thread && turn(); }
extern "C" int sut_pump_ready() {
  if (E.gone) return 0;
  for (auto& f : E.fns) if (! f->dead && (! f->q.empty() || finishable(*f))) return 1;
  return 0;
}
extern "C" void sut_settled() { if (! E.gone) for (auto& m : mine) if (! m.second.dropped || ! tap_closed(m.first)) tap_empty(m.first, "when all is quiet"); }
static void attempt(char const* kind, int n) {
  int how = TRIAL_PRETEND;
  bool must = true, type = ! strcmp(kind, "type"), fail = ! strcmp(kind, "fail");
  static char const* const NOT[] = {"5", "null", "{}", "{\"$u\":1}", "true"};
  std::string p, m;
  {
    Quiet q;
    if (fail) p = "/w", must = false;
    else if (! type) p = odd_path(kind, n, how, must);
    if (p.empty() && ! type) return;
    m = "{\"t\":\"watch\",\"w\":1000,\"path\":" + (type ? std::string(NOT[n % 5]) : quote(p)) + "}";
  }
  tap_trial(how, p.data(), p.size());
  E.result = nullptr;
  if (fail) refuse_in = 1 + n % 9;
  Answer a = ask(m);
  refuse_in = 0;
  if (! a.threw) {
    Answer c = ask("{\"t\":\"close\",\"w\":1000}");
    if (c.threw || ! c.v || c.v->k != BOOL || ! c.v->b) bad("bind.refuse", std::string("watching ") + kind + ": the watch can't be closed" + (c.threw ? ", close throws: " + c.what : ""));
    ask("{\"t\":\"drop\",\"w\":1000}");
  }
  E.result = nullptr;
  tap_trial_end(kind, a.threw, must, a.what.c_str());
}
extern "C" void sut_op(char const* verb, char const* a, char const* b) {
  if (! js_thread) return;
  if (E.gone) return;
  if (! strcmp(verb, "exit")) { leave(); return; }
  if (! strcmp(verb, "odd")) { attempt(a, atoi(b)); return; }
  if (! strcmp(verb, "take")) { for (int i = atoi(a); i > 0; i--) if (! turn()) return; }
  else if (! strcmp(verb, "collect")) collect();
  else if (! strcmp(verb, "forget")) { // the user lets go of it without closing it
    int w = atoi(a);
    if (! mine.count(w) || ! mine[w].obj || mine[w].dropped || tap_closed(w)) return;
    sim_probe("forgotten-without-close");
    ask("{\"t\":\"drop\",\"w\":" + std::to_string(w) + "}");
    mine[w].dropped = true;
    mine[w].obj = nullptr;
    collect();
  }
}
extern "C" void sut_final() {
  if (! js_thread) return;
  for (int i = 0; i < 3; i++) { while (turn()) {} collect(); }
  Quiet q;
  int dropped = 0;
  for (auto& m : mine) if (m.second.dropped && ! E.gone) dropped++;
  int nb = 0, nr = 0, nf = 0;
  for (auto& b : blocks) if (! b.second.freed) nb++;
  for (auto& r : E.refs) if (r->live && r->n) nr++;
  for (auto& f : E.fns) if (! f->dead) nf++;
  std::string m;
  if (nb > dropped) m += std::to_string(nb - dropped) + " allocations were never freed; ";
  if (nr > dropped) m += std::to_string(nr - dropped) + " references to callbacks were never deleted; ";
  if (nf > dropped) m += std::to_string(nf - dropped) + " thread-safe functions were never released; ";
  if (m.size()) sim_fail("napi.leak", m.c_str());
  for (auto& b : blocks) if (b.second.freed)
    for (size_t i = 0; i < b.second.n; i++)
      if (((unsigned char*)b.first)[i] != 0xDD) { sim_fail("napi.memory", "freed memory was written to"); return; }
}
