// Scheduler, simulated clock, choices, plan files.
#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <pthread.h>
#include <sstream>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" int __real_pthread_create(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*);
extern "C" long __real_syscall(long, ...);

namespace sim {

thread_local Task* self = nullptr;
Plan P;
u64 now_ns = 0;
i64 rt_off = 0;
u64 seq = 0;
std::vector<std::unique_ptr<Task>> tasks;
std::vector<RtSeg> rt_segs;
Result* R = nullptr;
std::set<std::string> known_sigs;
bool trace_on = false;

static Rng rs(1), re(2);
static size_t sched_i = 0, env_i = 0;
static u64 step_ns = 1000, step_cap = 60000;
static int strat = 0;
static double p_cont = 0.5;
static std::set<u64> pct_points;
static int starve_id = -1;
static u64 low_prio = 1000000;
static std::map<std::string, std::map<int, int>> site_n; // site -> watcher -> calls
static std::map<std::pair<std::string, int>, int> fsite;
static std::map<std::string, int> psite;

// ------------------------------------------------------------ text
std::string esc(std::string const& s) {
  if (s.empty()) return "%e";
  std::string o;
  for (unsigned char c : s)
    if (c <= ' ' || c == '%' || c >= 127) { char b[8]; snprintf(b, 8, "%%%02x", c); o += b; }
    else o += (char)c;
  return o;
}
std::string unesc(std::string const& s) {
  if (s == "%e") return "";
  std::string o;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else o += s[i];
  return o;
}
static void rle(std::ostringstream& o, std::vector<unsigned char> const& v) {
  size_t n = v.size();
  while (n && v[n - 1] == 0) n--;
  for (size_t i = 0; i < n;) {
    size_t j = i;
    while (j < n && v[j] == v[i]) j++;
    o << ' ' << (int)v[i];
    if (j - i > 1) o << '*' << (j - i);
    i = j;
  }
}
std::string plan_to_text(Plan const& p) {
  std::ostringstream o;
  o << "simreplay 1\nprop " << p.prop << "\nprofile " << p.profile << "\nglue " << p.glue << "\nseed " << p.seed << "\n";
  for (auto& c : p.cfg) o << "cfg " << c.first << ' ' << c.second << "\n";
  for (size_t t = 0; t < p.tasks.size(); t++) {
    o << "thread " << t << "\n";
    for (auto& op : p.tasks[t]) {
      o << "op " << t << ' ' << op.verb;
      for (auto& a : op.a) o << ' ' << esc(a);
      o << "\n";
    }
  }
  for (auto& f : p.faults) o << "fault " << f.site << ' ' << f.watcher << ' ' << f.nth << ' ' << f.count << ' ' << f.err << "\n";
  for (auto& f : p.preempts) o << "preempt " << f.first << ' ' << f.second << "\n";
  o << "replay " << (p.replay ? 1 : 0) << "\n";
  o << "sched"; rle(o, p.sched); o << "\nenv"; rle(o, p.env); o << "\n";
  return o.str();
}
bool plan_from_text(std::string const& s, Plan& p) {
  std::istringstream in(s);
  std::string line;
  bool ok = false;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string k;
    l >> k;
    if (k == "simreplay") ok = true;
    else if (k == "prop") l >> p.prop;
    else if (k == "profile") l >> p.profile;
    else if (k == "glue") l >> p.glue;
    else if (k == "seed") l >> p.seed;
    else if (k == "cfg") { std::string a; long v; l >> a >> v; p.cfg[a] = v; }
    else if (k == "thread") { size_t t; l >> t; if (p.tasks.size() <= t) p.tasks.resize(t + 1); }
    else if (k == "op") {
      size_t t; Op o; std::string a;
      l >> t >> o.verb;
      while (l >> a) o.a.push_back(unesc(a));
      if (p.tasks.size() <= t) p.tasks.resize(t + 1);
      p.tasks[t].push_back(o);
    }
    else if (k == "fault") { Fault f; l >> f.site >> f.watcher >> f.nth >> f.count >> f.err; p.faults.push_back(f); }
    else if (k == "preempt") { int a, b; l >> a >> b; p.preempts.push_back({a, b}); }
    else if (k == "replay") { int v; l >> v; p.replay = v; }
    else if (k == "sched" || k == "env") {
      auto& v = k == "sched" ? p.sched : p.env;
      std::string a;
      while (l >> a) {
        auto st = a.find('*');
        int val = atoi(a.c_str());
        size_t n = st == std::string::npos ? 1 : strtoul(a.c_str() + st + 1, nullptr, 10);
        v.insert(v.end(), n, (unsigned char)val);
      }
    }
  }
  return ok;
}

// ------------------------------------------------------------ records
void note(u64 h) {
  u64 x = R->hash ^ (h + 0x9E3779B97F4A7C15ull + (R->hash << 6) + (R->hash >> 2));
  x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
  R->hash = x;
}
void tracef(char const* fmt, ...) {
  if (! trace_on) return;
  char b[1200];
  int n = snprintf(b, sizeof b, "%7llu %12.6f %-9s ", (unsigned long long)seq, now_ns / 1e9,
                   self ? (self->worker ? ("work" + std::to_string(self->id) + "/w" + std::to_string(self->watcher)).c_str()
                                        : ("task" + std::to_string(self->id)).c_str()) : "-");
  va_list ap;
  va_start(ap, fmt);
  int m = vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
  va_end(ap);
  n += std::min(m, (int)sizeof b - n - 3);
  b[n++] = '\n';
  if (R->ntrace + n < sizeof R->trace) { memcpy(R->trace + R->ntrace, b, n); R->ntrace += n; }
}
// Several directories which move before the watcher hears of the first move, or which move
// while notifications are lost: then which path an event must have, and which directories are
// known, is more than this model claims to know. Everything else is still checked.
int dirmoves, dirmoves_max, dirmoves_all;
static bool too_wild(std::string const& cls) {
  static char const* const about_paths[] = {"report.", "pair.", "watch.", "fault.silent", "overflow.", "msg.spurious"};
  bool about = false;
  for (auto* c : about_paths) about |= cls.compare(0, strlen(c), c) == 0;
  if (! about) return false;
  bool lossy = false;
  for (auto& s : W) lossy |= s.hard_faults > 0 || ! s.overflow_marks.empty();
  return lossy ? dirmoves_all > 0 : dirmoves_max > 2;
}
void violation(std::string const& cls, std::string const& msg) {
  if (too_wild(cls)) { tracef("UNDECIDED %s: %s", cls.c_str(), msg.c_str()); probe("undecided"); return; }
  tracef("VIOLATION %s: %s", cls.c_str(), msg.c_str());
  for (int i = 0; i < R->nviol; i++)
    if (cls == R->v[i].cls) return;
  if (R->nviol >= 12) return;
  auto& v = R->v[R->nviol++];
  snprintf(v.cls, sizeof v.cls, "%s", cls.c_str());
  snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
}
void known_or_violation(std::string const& sig, std::string const& cls, std::string const& msg) {
  if (known_sigs.count(sig)) {
    tracef("KNOWN %s: %s", sig.c_str(), msg.c_str());
    for (int i = 0; i < R->nknown; i++)
      if (sig == R->k[i].sig) return;
    if (R->nknown < 24) snprintf(R->k[R->nknown++].sig, 96, "%s", sig.c_str());
    return;
  }
  violation(cls, msg + " [" + sig + "]");
}
void count_fault(char const* site, int err) {
  auto k = std::make_pair(std::string(site), err);
  auto i = fsite.find(k);
  if (i == fsite.end()) {
    if (R->nfault >= MAX_SITES) return;
    i = fsite.emplace(k, R->nfault++).first;
    snprintf(R->f[i->second].site, 40, "%s", site);
    R->f[i->second].err = err;
  }
  R->f[i->second].n++;
}
void probe(char const* name) {
  auto i = psite.find(name);
  if (i == psite.end()) {
    if (R->nprobe >= MAX_SITES) return;
    i = psite.emplace(name, R->nprobe++).first;
    snprintf(R->probe[i->second].name, 40, "%s", name);
  }
  R->probe[i->second].n++;
}

// ------------------------------------------------------------ clock
void clock_jump(i64 d) {
  rt_off += d;
  rt_segs.push_back({now_ns, rt_off});
  count_fault("clock.jump", d < 0 ? -1 : 1);
  tracef("clock jump %+.6f s", d / 1e9);
}
bool rt_in_range(i64 t, u64 m0, u64 m1) {
  for (size_t i = 0; i < rt_segs.size(); i++) {
    u64 a = rt_segs[i].from, b = i + 1 < rt_segs.size() ? rt_segs[i + 1].from : NEVER;
    u64 lo = std::max(a, m0), hi = std::min(b, m1);
    if (lo > hi) continue;
    if (t >= (i64)lo + rt_segs[i].off && t <= (i64)hi + rt_segs[i].off) return true;
  }
  return false;
}

// ------------------------------------------------------------ scheduler
static void fwait(u32* a) {
  while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) __real_syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(a, 0, __ATOMIC_RELAXED);
}
static void fwake(u32* a) {
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  __real_syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

} // namespace sim
extern "C" {
void AnnotateIgnoreReadsBegin(char const*, int) __attribute__((weak));
void AnnotateIgnoreReadsEnd(char const*, int) __attribute__((weak));
void AnnotateIgnoreWritesBegin(char const*, int) __attribute__((weak));
void AnnotateIgnoreWritesEnd(char const*, int) __attribute__((weak));
}
namespace sim {
void blind(bool on) {
  if (! AnnotateIgnoreReadsBegin) return;
  if (on) { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); }
  else { AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); }
}

static bool eligible(Task* t) {
  if (t->done) return false;
  if (! t->blocked) return true;
  if (t->deadline <= now_ns) return true;
  return t->pred && t->pred();
}

static void hang(char const* kind) {
  std::string s;
  for (auto& t : tasks)
    if (! t->done) {
      char b[200];
      snprintf(b, sizeof b, " [task %d%s w%d %s in %s]", t->id, t->worker ? " worker" : "", t->watcher, t->blocked ? "blocked" : "running", t->what);
      s += b;
    }
  violation(kind, "no progress:" + s + watchers_dump());
  finish_run();
}

static Task* pick(bool self_ok) {
  std::vector<Task*> c;
  for (;;) {
    c.clear();
    if (self_ok && self && eligible(self)) c.push_back(self);
    for (auto& t : tasks)
      if (t.get() != self && eligible(t.get())) c.push_back(t.get());
    if (! self_ok && self && ! self->done && eligible(self)) c.push_back(self);
    if (! c.empty()) break;
    u64 d = NEVER;
    for (auto& t : tasks)
      if (! t->done && t->blocked && t->deadline < d) d = t->deadline;
    if (d == NEVER) hang("hang.deadlock");
    now_ns = std::max(now_ns, d);
  }
  if (c.size() == 1) return c[0];
  if (self_ok && c[0] == self && self->consec > 2000) { // fairness
    self->consec = 0;
    Task* best = c[1];
    for (auto* t : c) if (t != self && t->id > self->id) { best = t; break; }
    return best;
  }
  unsigned ch = 0;
  if (P.replay) {
    ch = sched_i < P.sched.size() ? P.sched[sched_i] : 0;
    if (ch >= c.size()) ch = 0;
  } else {
    switch (strat) {
    case 1: { // PCT
      if (pct_points.count(seq) && self) self->prio = --low_prio;
      for (unsigned i = 1; i < c.size(); i++)
        if (c[i]->prio > c[ch]->prio) ch = i;
      break;
    }
    case 3: { // starve one task
      std::vector<unsigned> k;
      for (unsigned i = 0; i < c.size(); i++)
        if (c[i]->id != starve_id) k.push_back(i);
      if (k.empty() || rs.chance(0.01)) ch = (unsigned)rs.below(c.size());
      else if (c[0] == self && self->id != starve_id && rs.chance(p_cont)) ch = 0;
      else ch = k[rs.below(k.size())];
      break;
    }
    default:
      if (c[0] == self && rs.chance(p_cont)) ch = 0;
      else ch = (unsigned)rs.below(c.size());
    }
  }
  sched_i++;
  if (R->nsched < sizeof R->sched) R->sched[R->nsched++] = (unsigned char)ch;
  return c[ch];
}

static void go(Task* t) {
  if (t == self) { self->consec++; return; }
  int keep = errno; // a switch is not seen by the code under test
  R->nswitch++;
  note(0x5000 + t->id);
  self->consec = 0;
  Task* me = self;
  fwake(&t->gate);
  fwait(&me->gate);
  errno = keep;
}

void point(char const* what, u64 h) {
  if (! self) return;
  poll_changed();
  if (inheritable_fd) fds_checked();
  seq++;
  now_ns += step_ns;
  self->what = what;
  note(h * 1315423911u + self->id * 2654435761u + (u64)(unsigned char)what[0] * 131 + strlen(what));
  if (seq > step_cap) hang("hang.steps");
  if (self->rush && self->rush--) return;
  go(pick(true));
}

bool block_until(std::function<bool()> pred, u64 deadline, char const* what) {
  self->what = what;
  poll_changed();
  if (pred && pred()) return true;
  struct Polling { // a worker which goes to rest for some time has ended its scan
    int w;
    explicit Polling(int v) : w(v) { if (w >= 0) poll_sleeps(w); }
    ~Polling() { if (w >= 0) poll_wakes(w); }
  } polling(deadline != NEVER && self->worker && ! self->host && self->watcher >= 0 && wst(self->watcher).polling && strcmp(what, "slow callback") ? self->watcher : -1);
  self->blocked = true;
  self->pred = std::move(pred);
  self->deadline = deadline;
  seq++;
  now_ns += step_ns;
  if (seq > step_cap) hang("hang.steps");
  go(pick(false));
  bool ok = self->pred && self->pred();
  self->blocked = false;
  self->pred = nullptr;
  self->deadline = NEVER;
  note(ok ? 0x77 : 0x78);
  return ok;
}

unsigned choose_env(unsigned n, char const* tag) {
  if (n <= 1) return 0;
  unsigned ch;
  if (P.replay) {
    ch = env_i < P.env.size() ? P.env[env_i] : 0;
    if (ch >= n) ch = 0;
  } else {
    long pm = P.get("env_permille", 150); // how often the environment does something unusual
    ch = re.below(1000) < (u64)pm ? (unsigned)re.below(std::min(n, 250u)) : 0;
  }
  env_i++;
  if (R->nenv < sizeof R->env) R->env[R->nenv++] = (unsigned char)ch;
  if (ch) { note(0xE000 + ch); tracef("env %s -> %u/%u", tag, ch, n); }
  return ch;
}

int cur_watcher() { return ! self ? -1 : self->cur_watcher >= 0 ? self->cur_watcher : self->watcher; }

int fault(char const* site) {
  if (! self) return 0;
  int w = cur_watcher();
  if (w < 0 && ! self->worker && P.get("user_faults", 0) == 0) return 0;
  int n = site_n[site][w]++, all = site_n[site][-100]++;
  for (auto& f : P.faults) {
    if (f.site != site) continue;
    if (f.watcher >= 0 && f.watcher != w) continue;
    int k = f.watcher >= 0 ? n : all;
    if (k >= f.nth && (f.count < 0 || k < f.nth + f.count)) {
      count_fault(site, f.err);
      note(0xFA000 + f.err);
      tracef("FAULT %s call %d -> errno %d%s", site, k, f.err, f.count < 0 ? " (for good)" : "");
      self->last_rc_err = f.count < 0;
      return f.err;
    }
  }
  return 0;
}

// ------------------------------------------------------------ threads
static void* tramp(void* a) {
  Task* t = (Task*)a;
  fwait(&t->gate);
  errno = 0;
  self = t;
  tracef("thread starts");
  void* r = t->fn(t->arg);
  t->ret = r;
  {
    Internal in;
    tracef("thread ends");
    t->done = true;
    seq++;
    note(0xDEAD + t->id);
    Task* n = pick(false);
    R->nswitch++;
    t->exited_real = true;
    self = nullptr;
    fwake(&n->gate);
  }
  return r;
}

int sim_thread_create(unsigned long* th, void const* attr, void* (*fn)(void*), void* arg, bool worker) {
  auto t = std::make_unique<Task>();
  t->id = (int)tasks.size();
  t->worker = worker;
  t->watcher = cur_watcher();
  t->pid = worker ? (self ? self->pid : 0) : t->id;
  t->fn = fn;
  t->arg = arg;
  t->prio = 1000000 + rs.below(1000000);
  if (P.get("worker_prio", 0) == 1 && worker) t->prio = 1000001;
  if (P.get("worker_prio", 0) == 2 && worker) t->prio = 5000000;
  Task* p = t.get();
  tasks.push_back(std::move(t));
  pthread_t real;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 8 << 20);
  int e = __real_pthread_create(&real, attr ? (pthread_attr_t const*)attr : &at, tramp, p);
  pthread_attr_destroy(&at);
  if (e) { fprintf(stderr, "sim: pthread_create: %s\n", strerror(e)); _exit(3); }
  p->pt = (unsigned long)real;
  if (th) *th = (unsigned long)real;
  return 0;
}

void core_init(Plan const& p) {
  P = p;
  rs = Rng(p.seed * 2 + 11);
  re = Rng(p.seed * 2 + 7777);
  step_ns = (u64)p.get("step_ns", 1000);
  step_cap = (u64)p.get("step_cap", 60000);
  strat = (int)p.get("strat", 0);
  p_cont = p.get("p_cont", 500) / 1000.0;
  starve_id = (int)p.get("starve", -1);
  for (int i = 0; i < p.get("pct_d", 3); i++) pct_points.insert(1 + rs.below((u64)p.get("pct_len", 800)));
  now_ns = 5000000000ull;                           // monotonic: 5 s since boot
  rt_off = p.get("rt0", 1700000000) * 1000000000ll - (i64)now_ns;
  rt_segs = {{0, rt_off}};
  auto t = std::make_unique<Task>();
  t->id = 0;
  t->prio = 1000000 + rs.below(1000000);
  self = t.get();
  tasks.push_back(std::move(t));
}

void finish_run() {
  R->steps = seq;
  R->sim_ns = now_ns;
  R->done = 1;
  if (self) while (self->internal) go_out(self);
  _exit(0);
}

} // namespace sim

// function entries of the code under test (built with -finstrument-functions)
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_enter(void*, void*) {
  using namespace sim;
  Task* s = self;
  if (! s || s->internal || P.preempts.empty()) return;
  u64 n = s->hooks++;
  for (auto& p : P.preempts)
    if (p.first == s->id && (u64)p.second == n) {
      Internal in;
      count_fault("preempt", 0);
      tracef("preempted inside the code under test");
      point("preempt", 7);
    }
}
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) {}
