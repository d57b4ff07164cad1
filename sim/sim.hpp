// Deterministic simulator: shared declarations.
// Everything the watcher can observe (threads, clock, file system, notification
// queues, descriptors, failures) is decided here, from one seed or one replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

using u64 = uint64_t;
using u32 = uint32_t;
using i64 = int64_t;
constexpr u64 NEVER = ~0ull;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
  template<class T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plan
struct Op {
  std::string verb;
  std::vector<std::string> a;
};

struct Fault {
  std::string site; // e.g. read.inotify
  int watcher = -1; // -1: any
  int nth = 0;      // the nth call of that site (by that watcher)
  int count = 1;    // -1: from then on, for good
  int err = 0;
};

struct Plan {
  std::string prop, profile, glue;
  u64 seed = 0;
  std::map<std::string, long> cfg;
  std::vector<std::vector<Op>> tasks; // tasks[0]: the user's main thread
  std::vector<Fault> faults;
  std::vector<std::pair<int, int>> preempts; // (task, nth function entry)
  std::vector<unsigned char> sched, env;     // recorded choices
  bool replay = false;
  long get(char const* k, long d = 0) const {
    auto i = cfg.find(k);
    return i == cfg.end() ? d : i->second;
  }
};
std::string plan_to_text(Plan const&);
bool plan_from_text(std::string const&, Plan&);
std::string esc(std::string const&);
std::string unesc(std::string const&);

Plan generate(std::string const& prop, std::string const& profile, std::string const& glue, u64 seed);
bool profile_exists(std::string const& profile);

// ---------------------------------------------------------------- tasks
struct Task {
  int id = 0;
  int watcher = -1;     // the watcher on whose behalf it runs (-1: none)
  bool worker = false;  // created by the code under test
  bool host = false;    // a worker which is the program around the watcher
  int pid = 0;
  int cur_watcher = -1; // while inside open/close of that watcher
  u32 gate = 0;
  bool done = false, joined = false, detached = false, exited_real = false;
  bool blocked = false;
  std::function<bool()> pred;
  u64 deadline = NEVER;
  char const* what = "";
  u64 prio = 0;
  int consec = 0;
  int rush = 0; // points which it passes before anybody else may go on
  u64 hooks = 0;
  int internal = 0;
  int in_cb = -1;
  unsigned long pt = 0;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  int last_rc_err = 0;
};
extern thread_local Task* self;
void blind(bool on);         // thread sanitizer: what the simulator does is not the program's doing
inline void go_in(Task* t) { if (t->internal++ == 0) blind(true); }
inline void go_out(Task* t) { if (--t->internal == 0) blind(false); }
struct Internal { // code of the simulator itself: library calls go to the real system
  Task* t;
  Internal() : t(self) { if (t) go_in(t); }
  ~Internal() { if (t) go_out(t); }
};
inline bool on_sim() { return self && self->internal == 0; }

extern Plan P;
extern u64 now_ns;   // simulated monotonic time
extern i64 rt_off;   // realtime = now_ns + rt_off
extern u64 seq;      // global step number
extern std::vector<std::unique_ptr<Task>> tasks;

void core_init(Plan const&);
void point(char const* what, u64 h = 0);    // scheduling point
bool block_until(std::function<bool()> pred, u64 deadline, char const* what); // false: timed out
unsigned choose_env(unsigned n, char const* tag);                   // 0 is the benign choice
int fault(char const* site);                                         // errno to inject, or 0
int sim_thread_create(unsigned long* th, void const* attr, void* (*fn)(void*), void* arg, bool worker);
[[noreturn]] void finish_run();
void note(u64 h);
void tracef(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool trace_on;
struct RtSeg { u64 from; i64 off; };
extern std::vector<RtSeg> rt_segs;
void clock_jump(i64 delta);
bool rt_in_range(i64 t, u64 m0, u64 m1);
int cur_watcher();

// ---------------------------------------------------------------- results
struct Violation {
  std::string cls, msg;
};
constexpr int MAX_SITES = 64;
struct Result { // lives in shared memory, plain data only
  int done;
  int nviol;
  struct V { char cls[64]; char msg[1400]; } v[12];
  int nknown;
  struct K { char sig[96]; } k[24];
  u64 hash, steps, sim_ns, reports, changes, entries, batches, paths_hash;
  u64 nswitch;
  int nfault;
  struct F { char site[40]; int err; u64 n; } f[MAX_SITES];
  int nprobe;
  struct Pr { char name[40]; u64 n; } probe[MAX_SITES];
  u32 nsched, nenv;
  unsigned char sched[400000];
  unsigned char env[60000];
  u32 ntrace;
  char trace[6000000];
};
extern Result* R;
void violation(std::string const& cls, std::string const& msg);
void known_or_violation(std::string const& sig, std::string const& cls, std::string const& msg);
void count_fault(char const* site, int err);
void probe(char const* name); // "this rare condition was hit"
extern std::set<std::string> known_sigs;
extern int dirmoves, dirmoves_max, dirmoves_all; // directories moved since everything was quiet

// ---------------------------------------------------------------- kernel
struct Span { u64 s0, s1; std::string path; };
struct Inode {
  int id = 0;
  char type = 'f'; // d f l p
  std::map<std::string, int> kids;
  std::vector<std::string> order;
  int parent = 0;
  std::string name;
  int nlink = 1;
  int fs = 0;            // which file system it is of
  bool mount = false;    // the root of it
  std::string target;
  bool dead = false;     // no longer reachable by name
  bool gone = false;     // inode released
  int holders = 0;       // open descriptors
  bool noread = false;
  i64 mtime = 0;
  std::vector<Span> hist; // dirs: paths over time
  int lock = -1;
  bool tainted = false;   // dirs: its coverage is excused (failure or overflow)
  bool was_out = false;   // dirs: has been outside of a watched tree it belonged to
  bool lookup_ever = false;
  bool lookup_taint = false; // looked up by name while renames were pending
  u64 dead_seq = 0, taint_seq = 0;
};
extern std::vector<std::unique_ptr<Inode>> inodes;
void kernel_init();
extern bool inheritable_fd;
void fds_checked();
Inode* inode(int id);
std::string dir_path(Inode*); // current path of a directory
bool inside(Inode* d, Inode* base);
Inode* resolve(std::string const& path, bool follow, int* err, Inode** parent = nullptr, std::string* last = nullptr, Inode* from = nullptr);
bool path_ok(Inode* d, u64 s0, u64 s1, std::string const& dirpath);
// file system operations (by the running task); return 0 or errno
int fs_mkdir(std::string const&);
int fs_create(std::string const&);
int fs_write(std::string const&);
int fs_unlink(std::string const&);
int fs_rmdir(std::string const&);
int fs_rename(std::string const&, std::string const&, bool exchange = false);
int fs_link(std::string const&, std::string const&);
int fs_symlink(std::string const& target, std::string const&);
int fs_chmod(std::string const&);
int fs_read(std::string const&);
int fs_list(std::string const&);
int fs_fifo(std::string const&);
int fs_hold(std::string const&);
int fs_unhold(std::string const&);
int fs_rmtree(std::string const&);
void setup_raw_mkdir(std::string const&);
int setup_mount(std::string const&);
int open_fds(int watcher, std::string* list, bool only_nocloexec = false);
int open_fds_total(std::string* list);
void decoy_fd();
bool decoys_intact(std::string* which);
size_t queue_len(int watcher);
extern int n_dirs_created;
extern std::map<int, std::string> task_cwd; // one per process: id 0 is ours
std::string getcwd_str();
int do_chdir(std::string const&);

enum Eff { E_CREATE, E_DELETE, E_MODIFY, E_FROM, E_TO, E_N };

// one pending notification of one watcher, as handed to (or kept from) it
struct Entry {
  int id;
  unsigned effs;        // bit set of Eff (fanotify merges)
  unsigned left;        // effects not yet reported
  bool dir;             // subject is a directory
  int dirino;
  std::string name;
  u64 chg_seq, chg_end, chg_ns;
  u64 last_seq;         // of the last change merged into it
  int pid = 0;
  int ren[E_N];         // rename id per FROM/TO bit
  std::vector<int> more; // further rename ids which merged into it
  bool fan;
  bool queued, dropped, unmasked;
  int batch = -1, pos = -1;
  bool read = false;
  u64 read_seq = 0;
  bool outside = false; // its directory was outside the watched tree
  bool edge = false;    // or may have been: its move was under way
  bool excused = false; // a failure was injected into its delivery
  bool skipped = false;
  unsigned merges = 0;
  bool probe = false;
};

// ---------------------------------------------------------------- oracle
struct WState {
  int idx = -1;
  bool opened = false, open_done = false;
  std::string given, abs_given, cwd;
  Inode* base = nullptr;      // directory named at open
  u64 open_seq = 0, open_ns = 0;
  bool fan = false, ino = false;
  int n_live = 0, n_die = 0;
  bool live_ok = false, die_ok = false;
  std::string live_path;
  u64 live_seq = 0;
  int n_e = 0, n_w = 0, n_w_overflow = 0;
  u64 last_w_seq = 0;
  std::vector<std::pair<u64, std::string>> msgs;
  u64 ncb = 0, causes = 0;
  int excuses = 0;
  u64 excuse_seq = 0;
  u64 fatal_seq = 0;
  bool e_live = false, got_e = false;
  std::vector<u64> w_seqs;
  bool close_begun = false, dropped = false, forgotten = false, close_done = false, destroyed = false;
  u64 close_seq = 0, close_ns = 0;
  u64 reads_after_close = 0, cbs_after_close = 0;
  int close_result = -1;
  Task* closer = nullptr;
  int active_cb = 0;
  int user_busy = 0;
  std::vector<Entry> ents;
  size_t head = 0;            // every entry before it is settled
  u64 hard_faults = 0, stat_faults = 0, sticky_fatal = 0, soft_faults = 0;
  u64 announce_need_seq = 0;  // a failure that must be announced
  std::string announce_why;
  bool expect_overflow = false;
  std::vector<u64> overflow_marks;  // entry index at which overflows sit
  std::vector<bool> overflow_seen, overflow_read;
  std::vector<int> overflow_pos, overflow_batch;
  int fd_base = -1, fd_base_dirs = 0;
  int tid_worker = -1;
  int batches = 0;
  bool any_dropped = false;
  bool polling = false;
  bool adrift = false; // what it watches has been moved: which events it should report then is nobody's promise
  std::string last_msg;
};
extern std::vector<WState> W;
WState& wst(int i);
struct EvView {
  std::string path; bool has_assoc = false; std::string apath;
  int effect = -1, kind = -1, aeffect = -1, akind = -1;
  i64 time = 0, atime = 0;
};
void on_report(int w, EvView const& e);
void on_report_end(int w);
void oracle_settle(int only = -1);
void oracle_final();
void oracle_hard_fault(int w, std::string const& site, int err, bool sticky, Inode* dir, bool base_dir);
std::string watchers_dump();
// watchers which poll
extern u64 fs_gen; // grows whenever what a path leads to may have changed
void poll_reset();
void poll_open(int w);
void poll_changed();
void poll_fault(int w, Inode* on);
bool poll_may_end(int w);
void poll_sleeps(int w);
void poll_wakes(int w);
void poll_looks();
void poll_report(WState& s, EvView const& e);
void poll_settle(WState& s);
bool poll_looked(WState& s, u64 from);

// ---------------------------------------------------------------- interpreter
void run_ops(int task);
bool run_op(Op const&);
extern int n_watch;

} // namespace sim

// the code under test, seen through a glue
extern "C" {
void* sut_open(char const* path, int w);
int sut_close(void* h, int w);
void sut_destroy(void* h, int w);
int sut_caps(); // bit0: destroy without close possible, bit1: repeated close possible
__attribute__((weak)) int sut_pump();       // deliver one pending item on this thread; 0: none
__attribute__((weak)) int sut_pump_ready();
__attribute__((weak)) void sut_op(char const* verb, char const* a0, char const* a1);
__attribute__((weak)) void sut_boot();       // once, before any run
__attribute__((weak)) void sut_final();
__attribute__((weak)) void sut_settled();
__attribute__((weak)) void sut_also(void* h, int w); // close it while somebody else does

// callback entry from the glue
void sim_event(int w, char const* path, int effect, int kind, long long t,
               int has_assoc, char const* apath, int aeffect, int akind, long long atime);
void sim_event_n(int w, char const* path, size_t n, int effect, int kind, long long t,
               int has_assoc, char const* apath, size_t an, int aeffect, int akind, long long atime);
void sim_fail(char const* cls, char const* msg);
int sim_cfg(char const* k, int d);
}
