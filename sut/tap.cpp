// Between the C library and a language binding: what the library says is checked as it
// is said, remembered, and compared with what the language's user is handed later on.
#include "wtr/watcher-c.h"
#include "tap.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <mutex>

extern "C" {
void sim_event_n(int w, char const* path, size_t n, int effect, int kind, long long t,
                 int has_assoc, char const* apath, size_t an, int aeffect, int akind, long long atime);
void sim_fail(char const* cls, char const* msg);
void sim_quiet(int on);
void sim_probe(char const*);
int sim_for(int w);
void sim_closing(int w, int on);
void* __real_wtr_watcher_open(char const*, wtr_watcher_callback, void*);
bool __real_wtr_watcher_close(void*);
}

namespace {
struct Said {
  std::string path, apath;
  bool has;
  int effect, kind;
  long long t;
};
struct Tap {
  int w;
  wtr_watcher_callback cb;
  void* cx;
  void* real = nullptr;
  bool closed = false, deaf = false, result = false;
  std::deque<Said> q;
};
std::map<int, Tap*> of;       // by watcher
std::map<void*, Tap*> live;   // by the library's handle
thread_local int next_w = -1;
struct Quiet { Quiet() { sim_quiet(1); } ~Quiet() { sim_quiet(0); } };

int effect(int8_t e) {
  return e == WTR_WATCHER_EFFECT_RENAME ? 0 : e == WTR_WATCHER_EFFECT_MODIFY ? 1 : e == WTR_WATCHER_EFFECT_CREATE ? 2
       : e == WTR_WATCHER_EFFECT_DESTROY ? 3 : e == WTR_WATCHER_EFFECT_OWNER ? 4 : e == WTR_WATCHER_EFFECT_OTHER ? 5 : -1;
}
int kind(int8_t k) {
  return k == WTR_WATCHER_PATH_DIR ? 0 : k == WTR_WATCHER_PATH_FILE ? 1 : k == WTR_WATCHER_PATH_HARD_LINK ? 2
       : k == WTR_WATCHER_PATH_SYM_LINK ? 3 : k == WTR_WATCHER_PATH_WATCHER ? 4 : k == WTR_WATCHER_PATH_OTHER ? 5 : -1;
}
// what UTF-8 has no room for becomes U+FFFD, in languages whose strings are UTF-8
std::string lossy(std::string const& s) {
  std::string o;
  for (unsigned char c : s) if (c >= 0xfe) o += "\xEF\xBF\xBD"; else o += (char)c;
  return o;
}
std::string show(Said const& s) {
  char b[64];
  snprintf(b, sizeof b, " effect %d kind %d time %lld", s.effect, s.kind, s.t);
  return "\"" + s.path + "\"" + (s.has ? " -> \"" + s.apath + "\"" : "") + b;
}
thread_local Tap* saying = nullptr;
void on_event(wtr_watcher_event e, void* context) {
  Tap* t = (Tap*)context;
  if (! t) return;
  if (! e.path_name) { sim_fail("c.path", "an event has no path"); return; }
  Said s;
  {
    Quiet q;
    s = {e.path_name, e.associated_path_name ? e.associated_path_name : "", e.associated_path_name != nullptr, effect(e.effect_type), kind(e.path_type), (long long)e.effect_time};
  }
  sim_event_n(t->w, s.path.data(), s.path.size(), s.effect, s.kind, s.t, s.has, s.apath.data(), s.apath.size(), -1, -1, s.t);
  // the strings are the callback's only while it runs
  char *p, *a = nullptr;
  {
    Quiet q;
    if (! t->deaf) t->q.push_back(s);
    p = strdup(e.path_name);
    if (s.has) a = strdup(e.associated_path_name);
  }
  wtr_watcher_event mine = e;
  mine.path_name = p;
  mine.associated_path_name = a;
  saying = t->deaf ? nullptr : t;
  t->cb(mine, t->cx);
  saying = nullptr;
  Quiet q;
  memset(p, 'X', strlen(p));
  if (a) memset(a, 'X', strlen(a));
  free(p);
  free(a);
}
struct Trial {
  bool on = false, open = false;
  int how = 0, asked = 0;
  std::string want;
} trial;
thread_local bool trying = false;
} // namespace

extern "C" void* __wrap_wtr_watcher_open(char const* path, wtr_watcher_callback cb, void* cx) {
  if (trying) {
    Quiet q;
    trial.asked++;
    if (! path || trial.want != path) sim_fail("bind.wrong-path", ("asked to watch \"" + trial.want.substr(0, 60) + "\" (" + std::to_string(trial.want.size()) + " bytes, " + std::to_string(strlen(trial.want.c_str())) + " of them before any zero), the binding watches \"" + std::string(path ? path : "").substr(0, 60) + "\" (" + std::to_string(strlen(path ? path : "")) + " bytes)").c_str());
    if (trial.how == TRIAL_REFUSE) return nullptr;
    trial.open = true;
    return &trial;
  }
  Tap* t;
  {
    Quiet q;
    t = new Tap;
    t->w = next_w;
    t->cb = cb;
    t->cx = cx;
    of[next_w] = t;
  }
  int mine = sim_for(next_w);
  void* h = __real_wtr_watcher_open(path, on_event, t);
  sim_for(mine);
  Quiet q;
  t->real = h;
  live[h] = t;
  return h;
}
extern "C" bool __wrap_wtr_watcher_close(void* h) {
  if (! h) return __real_wtr_watcher_close(nullptr);
  if (h == &trial) {
    if (! trial.open) { sim_fail("bind.double-close", "wtr_watcher_close is given a handle which was closed before"); return false; }
    trial.open = false;
    return true;
  }
  Tap* t;
  {
    Quiet q;
    auto i = live.find(h);
    if (i == live.end()) { sim_fail("bind.double-close", "wtr_watcher_close is given a handle which was closed before, or never was one"); return false; }
    t = i->second;
    live.erase(i);
  }
  int mine = sim_for(t->w);
  sim_closing(t->w, 1);
  bool r = __real_wtr_watcher_close(h);
  sim_closing(t->w, 0);
  sim_for(mine);
  t->closed = true;
  t->result = r;
  return r;
}
std::string odd_path(char const* kind, int n, int& how, bool& must) {
  std::string k = kind, p = "/w";
  how = TRIAL_REFUSE;
  must = true;
  if (k == "nul") { how = TRIAL_PRETEND; return p + std::string(1, '\0') + (n & 1 ? "tail" : ""); }
  if (k == "null") return p;
  if (k == "plain") { // a path is what it is
    static char const* const P[] = {"/w", "~", "~/w", "w", "./w", "../w", "/w/../w", "/w/", "/", ".", "$HOME", "%2Fw", "C:\\w", " /w", "/w ", "/w\n", "/w/*", "file:///w", "a\xCC\x88", "\xC3\xA4", "\xEF\xBF\xBD", "//w", "-w"};
    how = TRIAL_PRETEND;
    must = false;
    return P[(size_t)n % (sizeof P / sizeof *P)];
  }
  if (k == "long") { // names of some length, of characters of some width
    static char const* const U[] = {"/./././", "/\xC3\xA4", "/abcdefghijklmnopqrstuvwxyz", "/a\xCC\x88", "/ x ", "/\xF0\x9F\x90\x9F"};
    how = TRIAL_PRETEND;
    must = false;
    while (p.size() < (size_t)n) p += U[n % 6];
    return p;
  }
  return "";
}
void tap_trial(int how, char const* path, size_t n) {
  Quiet q;
  trial = Trial();
  trial.on = trying = true;
  trial.how = how;
  trial.want.assign(path, n);
}
bool tap_trial_open() { return trial.open; }
void tap_trial_end(char const* what, bool said_no, bool must, char const* told) {
  Quiet q;
  trying = false;
  std::string m = std::string("watching ") + what + ": ";
  if (must && ! said_no) sim_fail("bind.refuse", (m + "the binding does not say that it can't").c_str());
  if (said_no && trial.open) sim_fail("bind.refuse", (m + "the binding says that it can't (" + told + "), and leaves a watcher behind").c_str());
  if (! said_no && trial.open) sim_fail("bind.refuse", (m + "closed, and the watcher goes on").c_str());
  if (! said_no && ! must && ! trial.asked) sim_fail("bind.refuse", (m + "the binding says nothing, and watches nothing").c_str());
  sim_probe(said_no ? "refused-watch" : "odd-watch");
  trial.open = false;
}
void tap_next(int w) { next_w = w; }
bool tap_closed(int w) { return of.count(w) && of[w]->closed; }
bool tap_result(int w) { return of.count(w) && of[w]->result; }
size_t tap_waiting(int w) { return of.count(w) ? of[w]->q.size() : 0; }
void tap_forget(int w) { Quiet q; if (of.count(w)) { of[w]->q.clear(); of[w]->deaf = true; } }
void tap_unsay() { Quiet q; if (saying && ! saying->q.empty()) saying->q.pop_back(); saying = nullptr; }
void tap_empty(int w, char const* when) {
  Quiet q;
  if (! of.count(w) || of[w]->q.empty()) return;
  std::string m = "watcher " + std::to_string(w) + ": " + when + ", " + std::to_string(of[w]->q.size()) + " events were not handed on, the first is " + show(of[w]->q.front());
  of[w]->q.clear();
  sim_fail("bind.lost", m.c_str());
}
void tap_deliver(int w, std::string const& path, bool has, std::string const& apath, int effect, int kind, long long t, int how) {
  Quiet q;
  Said got{path, apath, has, effect, kind, t};
  std::string who = "watcher " + std::to_string(w) + ": ";
  if (! of.count(w) || of[w]->q.empty()) {
    sim_fail("bind.fabricated", (who + "handed on, but the library said nothing (more): " + show(got)).c_str());
    return;
  }
  auto& l = of[w]->q;
  auto same = [&](Said const& s) {
    auto eq = [&](std::string const& a, std::string const& b) { return a == b || ((how & TAP_LOSSY) && lossy(a) == b); };
    bool time = s.t == got.t || ((how & TAP_DOUBLE) && (double)s.t == (double)got.t);
    return eq(s.path, got.path) && s.has == got.has && eq(s.apath, got.apath) && s.effect == got.effect && s.kind == got.kind && time;
  };
  if (same(l.front())) { l.pop_front(); return; }
  for (size_t i = 1; i < l.size(); i++)
    if (same(l[i])) {
      sim_fail("bind.order", (who + "handed on before " + std::to_string(i) + " earlier ones: " + show(got) + ", the next should be " + show(l.front())).c_str());
      l.erase(l.begin(), l.begin() + (long)i + 1);
      return;
    }
  sim_fail("bind.fields", (who + "handed on " + show(got) + ", the library said " + show(l.front())).c_str());
  l.pop_front();
}
extern "C" void* tap_handle(int w) { return of.count(w) && ! of[w]->closed ? of[w]->real : nullptr; }
