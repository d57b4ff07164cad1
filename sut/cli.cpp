// The command-line program, as its user sees it: standard output, standard input,
// exit status and the time it takes.
#include "json.hpp"
#include <cmath>
#include <cstring>
#include <iostream>
#include <pthread.h>
#include <streambuf>
#include <string>
#include <vector>

int cli_main(int argc, char const* const* const argv);

extern "C" {
void sim_event_n(int w, char const* path, size_t n, int effect, int kind, long long t,
                 int has_assoc, char const* apath, size_t an, int aeffect, int akind, long long atime);
void sim_fail(char const* cls, char const* msg);
int sim_cfg(char const* k, int d);
long long sim_cfg_ll(char const* k, long long d);
long long sim_now();
void sim_close_begins(int w);
void sim_stdin_end();
void sim_thread_host();
void sim_no_watch(int w, int status);
}

namespace {
std::string visible(std::string const& s) {
  std::string o;
  for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c; }
  return o;
}
int index_of(char const* const* names, std::string const& s) {
  for (int i = 0; i < 6; i++) if (s == names[i]) return i;
  return -1;
}
char const* const ET[] = {"rename", "modify", "create", "destroy", "owner", "other"};
char const* const PT[] = {"dir", "file", "hard_link", "sym_link", "watcher", "other"};
struct Fields { std::string path; int effect = -1, kind = -1; long long time = 0; };
bool fields(tjson::Value const& o, Fields& f, std::string& why) {
  if (o.type != 'o') { why = "not an object"; return false; }
  auto str = [&](char const* k) -> tjson::Value const* { auto v = o.get(k); return v && v->type == 's' ? v : nullptr; };
  auto p = str("path_name"), e = str("effect_type"), k = str("path_type"), t = o.get("effect_time");
  if (! p || ! e || ! k || ! t || t->type != 'n' || ! o.get("associated")) { why = "a field is missing"; return false; }
  f.path = p->text;
  f.effect = index_of(ET, e->text);
  f.kind = index_of(PT, k->text);
  if (f.effect < 0 || f.kind < 0) { why = "an effect or kind which does not exist"; return false; }
  size_t used = 0;
  f.time = std::atoll(t->text.c_str());
  if (std::to_string(f.time) != t->text) { why = "not a whole number: " + t->text; return false; }
  (void)used;
  return true;
}
bool watched = false; // it has written something
void line(std::string const& l) {
  watched = true;
  tjson::Value v;
  std::string why;
  if (! tjson::parse(l, v)) return sim_fail("cli.line", ("a line is not JSON: " + visible(l).substr(0, 300)).c_str());
  Fields f, a;
  if (! fields(v, f, why)) return sim_fail("cli.line", ("a line is not an event (" + why + "): " + visible(l).substr(0, 300)).c_str());
  auto as = v.get("associated");
  bool has = as->type == 'o';
  if (! has && (as->type != 'l' || as->text != "null")) return sim_fail("cli.line", ("neither an event nor null is associated: " + visible(l).substr(0, 300)).c_str());
  if (has && ! fields(*as, a, why)) return sim_fail("cli.line", ("what is associated is not an event (" + why + "): " + visible(l).substr(0, 300)).c_str());
  sim_event_n(0, f.path.data(), f.path.size(), f.effect, f.kind, f.time, has, a.path.data(), a.path.size(), a.effect, a.kind, a.time);
}

// standard output, as something which reads it at once would see it
struct Out : std::streambuf {
  std::string pend, cut; // not flushed yet; flushed, but not a whole line yet
  bool watching = true;
  std::string all;
  int overflow(int c) override { if (c != EOF) pend += (char)c; return c == EOF ? 0 : c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { pend.append(s, (size_t)n); return n; }
  int sync() override {
    std::string t;
    t.swap(pend);
    if (! watching) { all += t; return 0; }
    cut += t;
    for (size_t i; (i = cut.find('\n')) != std::string::npos;) {
      std::string l = cut.substr(0, i);
      cut.erase(0, i + 1);
      line(l);
    }
    return 0;
  }
};
Out* out = nullptr;

struct Prog {
  pthread_t th;
  std::vector<std::string> args;
  int rc = -1;
  bool timed = false;
  long double ns = 0; // how long it is asked to run
  long long t0 = 0;
  bool woke = false, ended = false;
};
Prog* prog = nullptr;
thread_local bool is_prog = false;

struct Unit { char const *a, *b; long double ns; };
Unit const UNITS[] = {
  {"-nanoseconds", "-ns", 1}, {"-microseconds", "-us", 1e3L}, {"-milliseconds", "-ms", 1e6L}, {"-seconds", "-s", 1e9L},
  {"-minutes", "-m", 60e9L}, {"-hours", "-h", 3600e9L}, {"-days", "-d", 86400e9L}, {"-weeks", "-w", 7 * 86400e9L},
  {"-months", "-mts", 30 * 86400e9L}, {"-years", "-y", 365 * 86400e9L},
};

int call(std::vector<std::string> const& args) {
  std::vector<char const*> av;
  for (auto& a : args) av.push_back(a.c_str());
  av.push_back(nullptr);
  return cli_main((int)args.size(), av.data());
}
void early_or_late(char const* when) {
  Prog& p = *prog;
  long double ran = (long double)((unsigned long long)sim_now() - (unsigned long long)p.t0);
  long double most = 9.2e18L; // what a clock of nanoseconds can count
  long double slack = p.ns > 9e15L ? p.ns * 1e-12L : 0;
  char b[160];
  if (ran + slack < std::min(p.ns, most)) {
    snprintf(b, sizeof b, "%s after %.0Lf ns, %.0Lf were asked for", when, ran, p.ns);
    sim_fail("cli.early", b);
  } else if (ran > p.ns + slack + 1e9L) {
    snprintf(b, sizeof b, "%s only after %.0Lf ns, %.0Lf were asked for", when, ran, p.ns);
    sim_fail("cli.late", b);
  }
}
void* run(void* a) {
  Prog& p = *(Prog*)a;
  is_prog = true;
  sim_thread_host();
  p.t0 = sim_now();
  p.rc = call(p.args);
  std::cout.flush(); // as exit does
  if (! out->cut.empty()) sim_fail("cli.line", "the last line is not finished");
  if (! p.woke) sim_no_watch(0, p.rc);
  if (p.timed && ! p.woke && watched) early_or_late("it ends");
  if (! p.woke && watched) sim_close_begins(0);
  p.ended = true;
  is_prog = false;
  return nullptr;
}
} // namespace

// called as the program goes on after having waited
extern "C" void sut_woke(char const* what) {
  if (! is_prog || prog->woke) return;
  bool sleep = what[0] == 's' && what[1] == 'l';
  if (sleep != prog->timed) return;
  if (sleep && (long double)((unsigned long long)sim_now() - (unsigned long long)prog->t0) < std::min(prog->ns, 9.2e18L) * (1 - 1e-12L)) return; // it may go on sleeping
  prog->woke = true;
  if (sleep) early_or_late("it stops");
  sim_close_begins(0);
}
extern "C" void* sut_open(char const* path, int) {
  out = new Out;
  std::cout.rdbuf(out);
  auto p = prog = new Prog;
  p->args = {"wtr.watcher"};
  int unit = sim_cfg("cli_unit", -1);
  if (! sim_cfg("cli_nopath", 0)) p->args.push_back(path);
  if (unit >= 0) {
    unsigned long long t = (unsigned long long)sim_cfg_ll("cli_time", 1);
    p->args.push_back(sim_cfg("cli_form", 0) ? UNITS[unit].a : UNITS[unit].b);
    p->args.push_back(std::to_string(t));
    p->timed = true;
    p->ns = (long double)t * UNITS[unit].ns;
  }
  pthread_create(&p->th, nullptr, run, p);
  return p;
}
extern "C" int sut_close(void* h, int) {
  Prog& p = *(Prog*)h;
  if (! p.timed) sim_stdin_end();
  pthread_join(p.th, nullptr);
  return p.rc == 0;
}
extern "C" void sut_destroy(void*, int) {}
extern "C" int sut_caps() { return 32; }
extern "C" void sut_settled() {
  if (out && ! out->pend.empty()) sim_fail("cli.unflushed", ("everything is quiet, and still not written: " + visible(out->pend).substr(0, 200)).c_str());
  if (out && ! out->cut.empty()) sim_fail("cli.unflushed", ("everything is quiet, and a line is not finished: " + visible(out->cut).substr(0, 200)).c_str());
}
// a run which watches nothing
extern "C" void sut_op(char const* verb, char const* a, char const* b) {
  if (strcmp(verb, "cli")) return;
  Out o, e;
  o.watching = e.watching = false;
  auto ob = std::cout.rdbuf(&o), eb = std::cerr.rdbuf(&e);
  std::vector<std::string> args = {"wtr.watcher", a};
  if (*b) { args.push_back("-ms"); args.push_back(b); }
  int rc = call(args);
  std::cout.flush();
  std::cerr.flush();
  std::cout.rdbuf(ob);
  std::cerr.rdbuf(eb);
  std::string so = o.all + o.pend, se = e.all + e.pend;
  bool help = ! strcmp(a, "-h") || ! strcmp(a, "--help");
  if (help && (rc != 0 || so.find("wtr.watcher") == std::string::npos)) sim_fail("cli.help", "asked for help, it gives none, or fails");
  if (! help && rc == 0) sim_fail("cli.status", "it cannot watch, and still exits with 0");
  if (! help && ! so.empty()) sim_fail("cli.line", ("it watches nothing, and still writes: " + visible(so).substr(0, 200)).c_str());
}
