// Runs the operations of a plan: what users of the library and the rest of the
// system do. Also the checks that belong to an operation (close, destroy, settle).
#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>

namespace sim {

int n_watch = 0;
static std::vector<void*> H;
static std::map<std::string, int> gates;
static std::map<std::string, std::string> sut_vars;
extern std::deque<int> stdin_q;
extern bool stdin_eof;
void settle_hook();

static std::string wn(int w) { return "watcher " + std::to_string(w) + ": "; }
static int caps() { static int c = sut_caps(); return c; }
enum { CAP_BARE_DESTROY = 1, CAP_RECLOSE = 2, CAP_DEFERRED = 4, CAP_NO_RESULT = 8, CAP_POLLING = 16, CAP_SELFCLOSE = 32 };

} // namespace sim
extern "C" void __tsan_acquire(void*) __attribute__((weak));
extern "C" void __tsan_release(void*) __attribute__((weak));
namespace sim {
// a user hands a watcher from one thread to another with due care
static void take(int w) { if (__tsan_acquire) __tsan_acquire(&H[w]); }
static void hand_on(int w) { if (__tsan_release) __tsan_release(&H[w]); }

static void nap(u64 ns) { block_until(nullptr, now_ns + ns, "sleep"); }

struct Sut { // calls into the code under test on behalf of a watcher
  int old;
  explicit Sut(int w) : old(self->cur_watcher) { self->cur_watcher = w; go_out(self); }
  ~Sut() { go_in(self); self->cur_watcher = old; }
};

static int pump_all() {
  int n = 0;
  if (! sut_pump || self->id != 0) return 0; // a binding's events are taken on its user's thread
  for (;;) {
    int more;
    { Sut s(-1); more = sut_pump(); }
    if (! more) return n;
    n++;
    if (n > 100000) return n;
  }
}

static void do_open(int w, std::string const& path) {
  auto& s = wst(w);
  if (s.opened) return;
  int e;
  s.opened = true;
  s.polling = caps() & CAP_POLLING;
  s.given = path;
  s.cwd = getcwd_str();
  s.abs_given = path.empty() ? "" : path[0] == '/' ? path : (s.cwd == "/" ? "" : s.cwd) + "/" + path;
  Inode* b = path.empty() ? nullptr : resolve(path, true, &e);
  s.base = b && b->type == 'd' ? b : nullptr;
  if (! s.base && (P.get("adrift", 0) || P.get("react", 0))) s.adrift = true; // it may be moved back there in time
  s.open_seq = seq;
  s.open_ns = now_ns;
  tracef("open watcher %d on %s", w, esc(path).c_str());
  if (s.polling && s.base) poll_open(w);
  { Sut c(w); H[w] = sut_open(path.c_str(), w); }
  hand_on(w);
  s.open_done = true;
  tracef("opened watcher %d", w);
  point("opened", (u64)w);
}

static void ended_checks(int w, char const* how) {
  auto& s = wst(w);
  if (s.active_cb > 0) violation("cb.late", wn(w) + how + " returned while its callback is running");
  for (auto& t : tasks)
    if (t->worker && t->watcher == w && ! t->done) violation("life.thread-alive", wn(w) + how + " returned, its thread still runs (in " + t->what + ")");
  if (s.n_live != 1) violation("life.no-live", wn(w) + how + " returned after " + std::to_string(s.n_live) + " live messages");
  if (s.n_die != 1) violation("life.no-die", wn(w) + how + " returned after " + std::to_string(s.n_die) + " die messages");
}
static void begin_close(int w) {
  auto& s = wst(w);
  s.close_begun = true;
  s.closer = caps() & CAP_DEFERRED ? nullptr : self; // a binding calls the C library some time later
  s.close_seq = seq;
  s.close_ns = now_ns;
  if (! s.n_live) probe("close-before-live");
  else if (s.n_die) probe("close-after-own-end");
  if (queue_len(w)) probe("close-with-pending-events");
  if (s.active_cb) probe("close-during-callback");
}
static void end_close(int w, char const* how) {
  auto& s = wst(w);
  if (caps() & CAP_DEFERRED) pump_all();
  ended_checks(w, how);
  s.close_done = true;
  if (s.reads_after_close > 8)
    violation("close.slow", wn(w) + how + " returned only after " + std::to_string(s.reads_after_close) + " more batches of events had been read");
  if (s.reads_after_close) probe("batch-read-during-close");
  // after its end nothing more is owed
  s.head = s.ents.size();
}

extern "C" int sim_for(int w) { int old = self->cur_watcher; self->cur_watcher = w; return old; }
extern "C" void sim_close_begins(int w) { Internal in; if (! wst(w).close_begun) begin_close(w); }
extern "C" void sim_closing(int w, int on) { wst(w).closer = on ? self : nullptr; if (on) wst(w).reads_after_close = 0; }
extern "C" int sim_forgotten(int w) { Internal in; if (wst(w).close_begun || wst(w).destroyed) return 0; begin_close(w); wst(w).closer = nullptr; wst(w).forgotten = true; return 1; }
static void wait_open(int w) { // nobody can close what somebody else is still constructing
  auto& s = wst(w);
  if (s.opened && ! s.open_done) block_until([w] { return wst(w).open_done; }, NEVER, "open by another task");
}
static void do_close(int w) {
  auto& s = wst(w);
  wait_open(w);
  if (! s.opened || s.destroyed) return;
  bool selfc = (caps() & CAP_SELFCLOSE) || s.forgotten; // the program closes when it wants to; this waits for its end
  if (s.close_begun && ! s.close_done && ! selfc) return; // somebody else is closing it
  bool first = selfc ? ! s.close_done : ! s.close_begun;
  if (! first && ! (caps() & CAP_RECLOSE)) return;
  if (first && ! selfc) begin_close(w);
  tracef("close watcher %d", w);
  int r;
  u64 reps = R->reports;
  take(w);
  { Sut c(w); r = sut_close(H[w], w); }
  hand_on(w);
  if (! s.opened) return;
  tracef("close of watcher %d returned %s", w, r ? "true" : "false");
  if (first) {
    end_close(w, "close");
    s.close_result = r;
    if (! (caps() & CAP_NO_RESULT)) {
      bool want = s.live_ok && s.die_ok;
      if ((r != 0) != want)
        violation("close.result", wn(w) + "close returned " + (r ? "true" : "false") + " although the messages were " +
                  (s.live_ok ? "s/" : "e/") + "self/live and " + (s.die_ok ? "s/" : "e/") + "self/die");
    }
  } else {
    probe("repeated-close");
    if (r && ! (caps() & CAP_NO_RESULT)) violation("close.repeat", wn(w) + "a repeated close returned true");
    (void)reps;
  }
}

static void do_also(int w, u64 patience) { // closes it too, at the same time if it can be
  auto& s = wst(w);
  wait_open(w);
  if (! s.opened || ! sut_also || s.forgotten) return;
  block_until([&s] { return s.close_begun; }, now_ns + patience, "sleep");
  if (s.destroyed || s.forgotten || s.dropped) return; // who has it yet?
  if (! s.close_begun) return do_close(w);
  probe(s.close_done ? "repeated-close" : "two-close-at-once");
  { Sut c(w); sut_also(H[w], w); }
  ended_checks(w, "a second close");
}
extern "C" void sim_close_now(int w) { Internal in; do_close(w); }
static void do_destroy(int w) {
  auto& s = wst(w);
  wait_open(w);
  if (! s.opened || s.destroyed) return;
  if (s.close_begun && ! s.close_done && ! s.forgotten) return;
  if (! s.close_begun && ! (caps() & CAP_BARE_DESTROY)) do_close(w);
  bool fresh = ! s.close_begun || (s.forgotten && ! s.close_done);
  if (! s.close_begun) { s.dropped = true; begin_close(w); probe("destroy-without-close"); }
  tracef("destroy watcher %d", w);
  take(w);
  { Sut c(w); sut_destroy(H[w], w); }
  hand_on(w);
  H[w] = nullptr;
  if (fresh) end_close(w, "the destructor");
  s.destroyed = true;
  tracef("destroyed watcher %d", w);
  std::string l;
  if (open_fds(w, &l)) violation("leak.fd", wn(w) + "descriptors still open after its end: " + l);
  for (auto& t : tasks)
    if (t->worker && t->watcher == w && ! t->done) violation("leak.thread", wn(w) + "its thread outlives it");
  for (auto& t : tasks)
    if (t->worker && t->watcher == w && t->done && ! t->joined && ! t->detached) violation("leak.thread", wn(w) + "its thread was neither joined nor detached");
}

static bool parked(Task* t) { return t->done || (t->blocked && (! strcmp(t->what, "gate") || ! strcmp(t->what, "sleep-long"))); }

static bool idle() {
  for (auto& s : W) {
    if (! s.opened || s.destroyed) continue;
    if (queue_len(s.idx) && ! s.n_die && ! s.close_begun) return false;
    if (s.active_cb) return false;
  }
  for (auto& t : tasks)
    if (t->worker && ! t->done && ! t->blocked) return false;
  for (auto& t : tasks)
    if (t->worker && ! t->done && t->blocked && t->pred && t->pred()) return false;
  if (sut_pump_ready && sut_pump_ready()) return false;
  return true;
}

static void quiesce() {
  if (self->id == 0)
    block_until([] {
      for (auto& t : tasks) if (! t->worker && t->id != 0 && ! parked(t.get())) return false;
      return true;
    }, NEVER, "others");
  if (caps() & CAP_POLLING) {
    u64 from = seq;
    for (int i = 0; i < 400; i++) {
      nap(50000000);
      bool all = true;
      for (auto& s : W) if (s.polling && ! poll_looked(s, from)) all = false;
      if (all) break;
    }
    pump_all();
    return;
  }
  for (int i = 0; i < 400; i++) {
    nap(i < 20 ? 200000000ull : 1000000000ull);
    pump_all();
    if (idle()) { dirmoves = 0; break; }
  }
  pump_all();
}
static void do_settle() {
  quiesce();
  tracef("settled");
  oracle_settle();
  if (idle()) // what was pending when it left has been read
    for (auto& n : inodes)
      if (n && n->type == 'd') {
        for (auto& s : W) if (s.opened && s.base && inside(n.get(), s.base)) n->was_out = false;
      }
  if (sut_settled && idle()) { Sut c(-1); sut_settled(); }
}

static void each_dir(Inode* d, std::vector<Inode*>& out) {
  out.push_back(d);
  for (auto& k : d->kids) { Inode* n = inode(k.second); if (n && n->type == 'd') each_dir(n, out); }
}
// is every directory below each watched one really watched?
static void do_probe() {
  static int np = 0;
  quiesce();
  std::vector<Inode*> dirs;
  auto live = [](WState& s) { return s.opened && s.base && s.n_live && s.live_ok && ! s.n_die && ! s.close_begun && ! s.base->dead && ! s.adrift; };
  for (auto& s : W)
    if (live(s)) {
      std::vector<Inode*> d;
      each_dir(s.base, d);
      for (auto* x : d) if (std::find(dirs.begin(), dirs.end(), x) == dirs.end()) dirs.push_back(x);
    }
  int k = 0;
  for (auto* d : dirs) {
    std::string name = "__p" + std::to_string(np++);
    std::string dp = dir_path(d);
    if (dp.size() + 16 >= 4096) continue;
    int e;
    if (resolve(dp, true, &e) != d) continue; // it has gone meanwhile
    e = fs_create((dp == "/" ? "" : dp) + "/" + name);
    if (e) continue;
    if (caps() & CAP_POLLING) continue;
    for (auto& s : W) {
      if (! live(s) || ! inside(d, s.base)) continue;
      bool have = false;
      for (size_t i = s.ents.size(); i-- > 0 && ! have;)
        if (s.ents[i].dirino == d->id && s.ents[i].name == name && ! s.ents[i].unmasked) have = true;
      if (have) continue;
      quiesce();
      if (! live(s)) continue;
      bool said = false;
      for (auto& m : s.msgs) if (m.first >= d->taint_seq) said = true;
      if (d->lookup_taint && s.ino) { known_or_violation("inotify-lookup-by-name-during-pending-rename", "watch.unwatched", wn(s.idx) + "directory " + esc(dp) + " is not watched"); continue; }
      if (s.excuse_seq && std::any_of(s.msgs.begin(), s.msgs.end(), [&](auto& m) { return m.first >= s.excuse_seq; })) { probe("unwatched-dir-announced"); continue; }
      if (d->tainted && said) { probe("unwatched-dir-announced"); continue; }
      if (d->tainted) violation("fault.silent", wn(s.idx) + "directory " + esc(dp) + " is not watched because of a failure, and nothing was said");
      else violation("watch.unwatched", wn(s.idx) + "directory " + esc(dp) + " is not watched");
    }
    if (++k % 3 == 0) quiesce();
  }
  R->probe[0].n += 0;
  probe("coverage-probe");
  do_settle();
}

bool run_op(Op const& o) {
  auto A = [&](size_t i) { return i < o.a.size() ? o.a[i] : std::string(); };
  auto N = [&](size_t i) { return strtoll(A(i).c_str(), nullptr, 10); };
  std::string const& v = o.verb;
  if (v == "setup") setup_raw_mkdir(A(0));
  else if (v == "mount") setup_mount(A(0));
  else if (v == "open") do_open((int)N(0), A(1));
  else if (v == "close") do_close((int)N(0));
  else if (v == "also") do_also((int)N(0), (u64)N(1) * 1000);
  else if (v == "destroy") do_destroy((int)N(0));
  else if (v == "mkdir") fs_mkdir(A(0));
  else if (v == "mkdirs") {
    std::string p = A(0);
    for (size_t i = 1; i <= p.size(); i++)
      if (i == p.size() || p[i] == '/') fs_mkdir(p.substr(0, i));
  }
  else if (v == "create") fs_create(A(0));
  else if (v == "write") fs_write(A(0));
  else if (v == "unlink") fs_unlink(A(0));
  else if (v == "rmdir") fs_rmdir(A(0));
  else if (v == "rmtree") fs_rmtree(A(0));
  else if (v == "rename") fs_rename(A(0), A(1));
  else if (v == "xchg") fs_rename(A(0), A(1), true);
  else if (v == "link") fs_link(A(0), A(1));
  else if (v == "symlink") fs_symlink(A(0), A(1));
  else if (v == "fifo") fs_fifo(A(0));
  else if (v == "chmod") fs_chmod(A(0));
  else if (v == "read") fs_read(A(0));
  else if (v == "list") fs_list(A(0));
  else if (v == "hold") fs_hold(A(0));
  else if (v == "unhold") fs_unhold(A(0));
  else if (v == "noread") { int e; if (Inode* n = resolve(A(0), true, &e)) n->noread = N(1) != 0, fs_gen++; }
  else if (v == "many") { // many n path: create, change, remove
    for (long i = 0, n = N(0); i < n; i++) {
      std::string p = A(1) + std::to_string(i);
      fs_create(p);
      if (i % 3 == 0) fs_write(p);
      if (i % 2 == 0) fs_unlink(p);
    }
  }
  else if (v == "flood") { // flood n path: alternate writes until n are done or the watcher is closed
    std::string a = A(1) + "x", b = A(1) + "y";
    fs_create(a); fs_create(b);
    int w = A(2).empty() ? 0 : (int)N(2);
    for (long i = 0, n = N(0); i < n; i++) {
      if (w < (int)W.size() && W[w].close_done) break;
      fs_write(i % 2 ? a : b);
    }
  }
  else if (v == "save") { // the way editors save: temporary file, rename over
    fs_create(A(0) + "~"); fs_write(A(0) + "~"); fs_rename(A(0) + "~", A(0));
  }
  else if (v == "sleep") nap((u64)N(0) * 1000);
  else if (v == "rush") self->rush = (int)N(0);
  else if (v == "yield") point("yield", 1);
  else if (v == "wait") { std::string g = A(0); int n = o.a.size() > 1 ? (int)N(1) : 1; block_until([g, n] { return gates[g] >= n; }, NEVER, "gate"); }
  else if (v == "signal") gates[A(0)]++;
  else if (v == "live") { // wait until it has said live (or ended)
    int w = (int)N(0);
    if (sut_pump) { for (int i = 0; i < 200 && ! wst(w).n_live; i++) { nap(1000000); pump_all(); } }
    else block_until([w] { return wst(w).n_live > 0 && (wst(w).active_cb == 0); }, now_ns + 20000000000ull, "live");
  }
  else if (v == "ready") { // wait until it is watching: live, walked its tree, and waits
    int w = (int)N(0);
    for (int i = 0; i < 60; i++) {
      nap(i < 10 ? 2000000 : 500000000);
      pump_all();
      if (wst(w).n_live && idle()) break;
    }
  }
  else if (v == "settle") do_settle();
  else if (v == "calm") quiesce();
  else if (v == "probe") do_probe();
  else if (v == "pump") pump_all();
  else if (v == "chdir") do_chdir(A(0));
  else if (v == "jump") clock_jump(N(0) * 1000);
  else if (v == "decoy") decoy_fd();
  else if (v == "slow") { P.cfg["slow" + A(0)] = N(1); }
  else if (v == "stdin") { for (char c : A(0)) stdin_q.push_back((unsigned char)c); }
  else if (v == "eof") stdin_eof = true;
  else if (v == "spawn") {
    for (size_t i = 1; i < P.tasks.size(); i++)
      sim_thread_create(nullptr, nullptr, [](void* a) -> void* {
        go_in(self);
        run_ops((int)(long)a);
        go_out(self);
        return nullptr;
      }, (void*)(long)i, false);
  }
  else if (v == "joinall")
    block_until([] {
      for (auto& t : tasks) if (! t->worker && t->id != 0 && ! t->done) return false;
      return true;
    }, NEVER, "others");
  else if (sut_op) { Sut c(-1); sut_op(v.c_str(), A(0).c_str(), A(1).c_str()); }
  else { fprintf(stderr, "sim: unknown operation %s\n", v.c_str()); _Exit(3); }
  return true;
}

void run_ops(int t) {
  static bool spawned = false;
  if (t == 0) { H.assign(W.size(), nullptr); }
  size_t i = 0;
  // indices, not references: the plan does not change, but stay safe
  for (; i < P.tasks[t].size(); i++) {
    auto& o = P.tasks[t][i];
    if (t == 0 && o.verb == "spawn") { if (spawned) continue; spawned = true; }
    note(0x0b00 + i);
    run_op(o);
  }
  if (t != 0) return;
  block_until([] {
    for (auto& x : tasks) if (! x->worker && x->id != 0 && ! x->done) return false;
    return true;
  }, NEVER, "others");
  for (size_t w = 0; w < W.size(); w++) {
    if (! W[w].opened || W[w].destroyed) continue;
    if (! W[w].close_begun && ! P.get("end_bare", 0)) do_close((int)w);
    do_destroy((int)w);
  }
  if (sut_final) { Sut c(-1); sut_final(); }
  std::string l;
  if (open_fds(-1, &l)) violation("leak.fd", "descriptors still open at the end: " + l);
  oracle_final();
}

} // namespace sim
