// The simulated kernel: file tree, inotify, fanotify, epoll, eventfd, descriptors.
#include "sim.hpp"
#include "kapi.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstring>
#include <fcntl.h>
#include <linux/fanotify.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/statfs.h>

namespace sim {

std::vector<std::unique_ptr<Inode>> inodes;
int n_dirs_created = 0;
std::map<int, std::string> task_cwd;

// ================================================================ tree
Inode* inode(int id) { return id > 0 && id < (int)inodes.size() ? inodes[id].get() : nullptr; }

static Inode* new_inode(char type) {
  auto n = std::make_unique<Inode>();
  n->id = (int)inodes.size();
  n->type = type;
  n->mtime = (i64)now_ns + rt_off;
  inodes.push_back(std::move(n));
  return inodes.back().get();
}
std::string dir_path(Inode* d) {
  if (! d) return "";
  if (d->id == 1) return "/";
  std::string s;
  for (Inode* p = d; p && p->id != 1; p = inode(p->parent)) s = "/" + p->name + s;
  return s;
}
bool inside(Inode* d, Inode* base) {
  for (Inode* p = d; p; p = p->id == 1 ? nullptr : inode(p->parent))
    if (p == base) return true;
  return false;
}
static void attach(Inode* dir, std::string const& name, Inode* n) {
  dir->kids[name] = n->id;
  dir->order.push_back(name);
  dir->mtime = std::max(dir->mtime + 1, (i64)now_ns + rt_off);
  fs_gen++;
  if (n->type == 'd') { n->parent = dir->id; n->name = name; }
}
static void detach(Inode* dir, std::string const& name) {
  dir->kids.erase(name);
  dir->mtime = std::max(dir->mtime + 1, (i64)now_ns + rt_off);
  fs_gen++;
  dir->order.erase(std::find(dir->order.begin(), dir->order.end(), name));
}
void kernel_init() {
  inodes.clear();
  inodes.push_back(nullptr);
  Inode* r = new_inode('d');
  r->parent = 1;
  r->hist.push_back({0, NEVER, "/"});
  task_cwd[0] = "/";
}
std::string getcwd_str() { return task_cwd[0]; }

Inode* resolve(std::string const& path, bool follow, int* err, Inode** parent, std::string* last, Inode* from) {
  *err = 0;
  if (parent) *parent = nullptr;
  if (path.empty()) return *err = ENOENT, nullptr;
  if (path.size() >= PATH_MAX) return *err = ENAMETOOLONG, nullptr;
  int links = 0;
  std::function<Inode*(Inode*, std::string const&, bool, bool)> walk =
    [&](Inode* cur, std::string const& p, bool fl, bool top) -> Inode* {
    if (! p.empty() && p[0] == '/') cur = inode(1);
    size_t i = 0;
    while (i < p.size()) {
      while (i < p.size() && p[i] == '/') i++;
      size_t j = i;
      while (j < p.size() && p[j] != '/') j++;
      if (i == j) break;
      std::string c = p.substr(i, j - i);
      size_t k = j;
      while (k < p.size() && p[k] == '/') k++;
      bool is_last = k >= p.size();
      bool trailing = is_last && j < p.size();
      i = j;
      if (cur->type != 'd') return *err = ENOTDIR, nullptr;
      if (c.size() > NAME_MAX) return *err = ENAMETOOLONG, nullptr;
      if (c == ".") { if (top && is_last && parent) { *parent = nullptr; } continue; }
      if (c == "..") { cur = inode(cur->parent); if (! cur) return *err = ENOENT, nullptr; continue; }
      auto it = cur->kids.find(c);
      if (top && is_last && parent) { *parent = cur; *last = c; }
      if (it == cur->kids.end()) return *err = ENOENT, nullptr;
      Inode* n = inode(it->second);
      if (n->type == 'l' && (! is_last || fl || trailing)) {
        if (++links > 40) return *err = ELOOP, nullptr;
        n = walk(cur, n->target, true, false);
        if (! n) return nullptr;
      }
      if ((! is_last || trailing) && n->type != 'd') return *err = ENOTDIR, nullptr;
      cur = n;
    }
    return cur;
  };
  Inode* start = inode(1);
  if (from) start = from;
  else if (path[0] != '/') {
    int e2 = 0;
    std::string cwd = task_cwd[0];
    if (cwd != "/") { start = walk(inode(1), cwd, true, false); if (! start) return *err = ENOENT, nullptr; }
    (void)e2;
    links = 0;
  }
  return walk(start, path, follow, true);
}

bool path_ok(Inode* d, u64 s0, u64 s1, std::string const& p) {
  for (auto& s : d->hist)
    if (s.path == p && s.s0 <= s1 && s.s1 >= s0) return true;
  if (d->dead && d->id != 1) { // its name stays where it was: below a parent which may still move
    auto i = p.rfind('/');
    if (i == std::string::npos || p.substr(i + 1) != d->name) return false;
    return path_ok(inode(d->parent), s0, s1, i ? p.substr(0, i) : "/");
  }
  return false;
}
int do_chdir(std::string const& p) {
  int e;
  Inode* n = resolve(p, true, &e);
  if (! n) return e;
  if (n->type != 'd') return ENOTDIR;
  task_cwd[0] = dir_path(n);
  return 0;
}

// ================================================================ descriptors
struct File {
  char kind; // I F E(poll) V(eventfd) D(dir) O(other/decoy) P(ath) R/W pipe
  int watcher = -1;
  bool by_sut = false;
  bool cloexec = false, nonblock = false;
  std::set<struct Epoll*> pollers;
  virtual ~File() = default;
  virtual short ready() { return 0; }
  virtual void release() {}
};
struct InEv { int wd; u32 mask, cookie; std::string name; int ent; bool ovf; };
struct Inotify : File {
  std::deque<InEv> q;
  int next_wd = (int)P.get("wd0", 1), since_jump = 0;
  std::map<int, int> wd2ino;
  std::map<int, std::pair<int, u32>> ino2wd;
  bool ovf_queued = false;
  short ready() override { return q.empty() ? 0 : POLLIN; }
  void release() override;
};
struct FanEv { u64 mask; int pid; int dir; std::string name; int child; bool has_child, self; int ent; bool ovf; };
struct Fanotify : File {
  unsigned flags = 0;
  std::deque<FanEv> q;
  std::map<int, u64> marks;
  u64 fsmark = 0;
  bool ovf_queued = false;
  short ready() override { return q.empty() ? 0 : POLLIN; }
  void release() override;
};
struct Eventfd : File {
  u64 n = 0;
  bool sem = false;
  short ready() override { return (n ? POLLIN : 0) | POLLOUT; }
};
struct Pipe : File {
  std::shared_ptr<std::deque<char>> b;
  std::shared_ptr<int> writers, readers;
  Pipe* peer = nullptr;
  short ready() override { return kind == 'R' ? (b->empty() ? (*writers ? 0 : POLLHUP) : POLLIN) : POLLOUT; }
  void release() override { if (kind == 'W') --*writers; else --*readers; if (peer) peer->peer = nullptr; }
};
struct EpItem { u32 events; epoll_data_t data; bool linked = false, disabled = false; std::weak_ptr<File> file; };
struct Epoll : File {
  std::map<std::pair<int, File*>, EpItem> items;
  std::deque<std::pair<int, File*>> rdl;
  short ready() override;
  void release() override { for (auto& i : items) if (auto f = i.second.file.lock()) f->pollers.erase(this); }
};
struct DirFile : File {
  int ino = 0;
  bool opath = false; // nothing but a name
  std::string path;   // what it was opened by, or nothing
  void release() override;
};

static std::map<int, std::shared_ptr<File>> fds;
static std::set<Inotify*> in_groups;
static std::set<Fanotify*> fan_groups;
static std::map<int, std::shared_ptr<File>> decoys;

static int lowest_fd() {
  int n = (int)P.get("fd_start", 3);
  while (fds.count(n)) n++;
  return n;
}
static int install(std::shared_ptr<File> f) {
  int n = lowest_fd();
  f->watcher = cur_watcher();
  f->by_sut = self && (self->worker || self->cur_watcher >= 0);
  fds[n] = f;
  if (! f->cloexec && f->watcher >= 0 && f->by_sut) inheritable_fd = true;
  return n;
}
bool inheritable_fd = false;
void fds_checked() { // a program started by another thread now would inherit what is not close-on-exec
  inheritable_fd = false;
  for (auto& w : fds) {
    auto& f = w.second;
    if (f->kind != 'O' && f->by_sut && f->watcher >= 0 && ! f->cloexec) violation("fd.inheritable", "watcher " + std::to_string(f->watcher) + ": descriptor " + std::to_string(w.first) + " is not close-on-exec from the start");
  }
}
static std::shared_ptr<File> get(int fd) {
  auto i = fds.find(fd);
  return i == fds.end() ? nullptr : i->second;
}
static std::shared_ptr<File> use(int fd, char const* what) {
  auto f = get(fd);
  if (! f && fd >= 0) violation("fd.use-closed", std::string(what) + " on descriptor " + std::to_string(fd) + ", which is not open");
  if (f && f->kind == 'O') violation("fd.use-foreign", std::string(what) + " on descriptor " + std::to_string(fd) + ", which belongs to somebody else");
  return f;
}
void decoy_fd() {
  auto f = std::make_shared<File>();
  f->kind = 'O';
  int n = lowest_fd();
  fds[n] = f;
  decoys[n] = f;
  tracef("somebody else opens descriptor %d", n);
}
bool decoys_intact(std::string* which) {
  for (auto& d : decoys)
    if (get(d.first) != d.second) return *which = std::to_string(d.first), false;
  return true;
}
int open_fds(int w, std::string* list, bool nocloexec) {
  int n = 0;
  for (auto& i : fds)
    if (i.second->kind != 'O' && i.second->by_sut && (w < 0 || i.second->watcher == w) && (! nocloexec || ! i.second->cloexec)) {
      n++;
      if (list) *list += std::string(list->empty() ? "" : ",") + std::to_string(i.first) + "(" +
        (i.second->kind == 'I' ? "inotify" : i.second->kind == 'F' ? "fanotify" : i.second->kind == 'E' ? "epoll"
         : i.second->kind == 'V' ? "eventfd" : i.second->kind == 'D' ? "directory" : "other") + ")";
    }
  return n;
}
size_t queue_len(int w) {
  size_t n = 0;
  for (auto* g : in_groups) if (g->watcher == w) n += g->q.size();
  for (auto* g : fan_groups) if (g->watcher == w) n += g->q.size();
  return n;
}

static void wake(File* f) {
  for (auto* ep : f->pollers)
    for (auto& it : ep->items)
      if (it.first.second == f && ! it.second.linked && ! it.second.disabled) {
        it.second.linked = true;
        ep->rdl.push_back(it.first);
        wake(ep);
      }
}
static u32 item_ready(EpItem& it) {
  auto f = it.file.lock();
  return f ? (u32)f->ready() & (it.events | POLLERR | POLLHUP) : 0;
}
short Epoll::ready() {
  for (auto& k : rdl) {
    auto i = items.find(k);
    if (i != items.end() && item_ready(i->second)) return POLLIN;
  }
  return 0;
}

// ================================================================ notifications
static u32 next_cookie = 0; // where it begins is the run's choice
static u32 new_cookie() {
  if (! next_cookie) next_cookie = (u32)P.get("cookie0", 0);
  next_cookie += (u32)P.get("cookie_step", 1); // others rename things, too
  if (! next_cookie) ++next_cookie;
  return next_cookie;
}

static void in_queue(Inotify* g, InEv e) {
  bool is_ign = e.mask & IN_IGNORED;
  if (! g->q.empty() && ! is_ign) {
    auto& l = g->q.back();
    if (! (l.mask & IN_IGNORED) && l.mask == e.mask && l.wd == e.wd && l.name == e.name) {
      if (l.ent >= 0 && e.ent >= 0) { // identical pending one: the kernel keeps one
        auto& s = wst(g->watcher);
        s.ents[l.ent].merges++;
        s.ents[l.ent].last_seq = seq;
        s.ents.pop_back();
        probe("inotify.merged");
      }
      return;
    }
  }
  long max = P.get("inq_max", 16384);
  if ((long)g->q.size() >= max) {
    if (e.ent >= 0) {
      auto& en = wst(g->watcher).ents[e.ent];
      en.queued = false, en.dropped = true;
      wst(g->watcher).any_dropped = true;
    }
    if (! g->ovf_queued) {
      g->ovf_queued = true;
      auto& s = wst(g->watcher);
      s.overflow_marks.push_back(s.ents.size());
      s.overflow_seen.push_back(false);
      s.overflow_read.push_back(false);
      g->q.push_back({-1, IN_Q_OVERFLOW, 0, "", (int)s.overflow_marks.size() - 1, true});
      count_fault("inotify.overflow", 0);
      tracef("inotify queue of w%d overflows", g->watcher);
      wake(g);
    }
    return;
  }
  if (e.ent >= 0) wst(g->watcher).ents[e.ent].queued = true;
  g->q.push_back(std::move(e));
  wake(g);
}

static void fan_overflow(Fanotify* g) {
  if (g->ovf_queued) return;
  g->ovf_queued = true;
  auto& s = wst(g->watcher);
  s.overflow_marks.push_back(s.ents.size());
  s.overflow_seen.push_back(false);
  s.overflow_read.push_back(false);
  g->q.push_back({FAN_Q_OVERFLOW, 0, 0, "", 0, false, false, (int)s.overflow_marks.size() - 1, true});
  count_fault("fanotify.overflow", 0);
  tracef("fanotify queue of w%d overflows", g->watcher);
  wake(g);
}

static void fan_queue(Fanotify* g, FanEv e) {
  for (auto& l : g->q)
    if (! l.ovf && l.pid == e.pid && l.dir == e.dir && l.name == e.name && l.has_child == e.has_child
        && (! e.has_child || l.child == e.child) && l.self == e.self
        && (l.mask & FAN_ONDIR) == (e.mask & FAN_ONDIR)) {
      if (e.ent >= 0 && l.ent >= 0) {
        auto& s = wst(g->watcher);
        Entry ne = s.ents[e.ent];
        Entry& oe = s.ents[l.ent];
        if ((oe.effs | ne.effs) != oe.effs) probe("fanotify.merged-effects"); else probe("fanotify.merged");
        oe.effs |= ne.effs;
        oe.left |= ne.effs;
        oe.merges++;
        oe.last_seq = seq;
        for (int i = 0; i < E_N; i++) if (ne.ren[i]) { if (oe.ren[i]) oe.more.push_back(ne.ren[i]); else oe.ren[i] = ne.ren[i]; }
        s.ents.pop_back();
      }
      l.mask |= e.mask;
      return;
    }
  long max = (g->flags & FAN_UNLIMITED_QUEUE) ? 1 << 30 : P.get("inq_max", 16384);
  if (P.get("fan_max", 0)) max = P.get("fan_max");
  if ((long)g->q.size() >= max) {
    if (e.ent >= 0) {
      auto& en = wst(g->watcher).ents[e.ent];
      en.queued = false, en.dropped = true;
      wst(g->watcher).any_dropped = true;
    }
    fan_overflow(g);
    return;
  }
  if (e.ent >= 0) wst(g->watcher).ents[e.ent].queued = true;
  g->q.push_back(std::move(e));
  wake(g);
}

static void taint_tree(Inode* d) {
  d->tainted = true;
  for (auto& k : d->kids) { Inode* n = inode(k.second); if (n && n->type == 'd') taint_tree(n); }
}

static void lookup_taint_tree(Inode* d) {
  d->lookup_taint = d->lookup_ever = true;
  for (auto& k : d->kids) { Inode* n = inode(k.second); if (n && n->type == 'd') lookup_taint_tree(n); }
}

// An event about the entry `name` of `dir`; mask uses the inotify bit values
// (fanotify's are the same).
struct Change { u64 seq0, ns0; int ren[E_N]; };
static void notify(Inode* dir, std::string const& name, u32 mask, bool isdir, Inode* child, u32 cookie, Change const& c) {
  R->changes++;
  int eff = mask & IN_CREATE ? E_CREATE : mask & IN_DELETE ? E_DELETE : mask & IN_MODIFY ? E_MODIFY
          : mask & IN_MOVED_FROM ? E_FROM : mask & IN_MOVED_TO ? E_TO : -1;
  tracef("change %s%s of %s/%s%s", eff == E_CREATE ? "create" : eff == E_DELETE ? "delete" : eff == E_MODIFY ? "modify" : eff == E_FROM ? "move-from"
         : eff == E_TO ? "move-to" : "other", isdir ? " dir" : "", dir_path(dir).c_str(), esc(name).c_str(), dir->dead ? " (dir removed)" : "");
  std::set<int> expected;
  auto expect = [&](int w, bool fan) -> int {
    if (w < 0 || eff < 0 || expected.count(w)) return -1;
    expected.insert(w);
    auto& s = wst(w);
    if (! s.opened || ! s.base) return -1;
    Entry e{};
    e.id = (int)s.ents.size();
    e.effs = e.left = 1u << eff;
    e.dir = isdir;
    e.dirino = dir->id;
    e.name = name;
    e.chg_seq = c.seq0; e.chg_end = seq; e.chg_ns = c.ns0; e.last_seq = seq;
    for (int i = 0; i < E_N; i++) e.ren[i] = 0;
    if (eff == E_FROM || eff == E_TO) e.ren[eff] = c.ren[eff];
    e.fan = fan;
    e.pid = self ? self->pid : 0;
    e.unmasked = true;
    bool in_any = false, out_any = false;
    for (auto& h : dir->hist) // more than one while a move is under way
      if (h.s1 >= c.seq0) {
        bool in = false;
        for (auto& b : s.base->hist)
          if (b.s1 >= c.seq0 && (b.path == "/" || (h.path.compare(0, b.path.size(), b.path) == 0 && (h.path.size() == b.path.size() || h.path[b.path.size()] == '/')))) in = true;
        (in ? in_any : out_any) = true;
      }
    if (dir->dead) in_any = inside(dir, s.base), out_any = ! in_any;
    e.outside = ! in_any;
    e.edge = out_any;
    if (out_any) dir->was_out = true;
    s.ents.push_back(e);
    R->entries++;
    return e.id;
  };
  u32 m = mask | (isdir ? IN_ISDIR : 0);
  for (auto* g : std::set<Inotify*>(in_groups)) {
    auto it = g->ino2wd.find(dir->id);
    if (it == g->ino2wd.end()) continue;
    int en = expect(g->watcher, false);
    if (it->second.second & mask) {
      if (en >= 0) wst(g->watcher).ents[en].unmasked = false;
      in_queue(g, {it->second.first, m, cookie, name, en, false});
      if (en >= 0 && en < (int)wst(g->watcher).ents.size() && wst(g->watcher).ents[en].dropped && isdir && child) taint_tree(child);
      if (it->second.second & IN_ONESHOT) {
        g->wd2ino.erase(it->second.first);
        int wd = it->second.first;
        g->ino2wd.erase(dir->id);
        in_queue(g, {wd, IN_IGNORED, 0, "", -1, false});
      }
    }
  }
  for (auto* g : std::set<Fanotify*>(fan_groups)) {
    auto it = g->marks.find(dir->id);
    u64 mk = (it == g->marks.end() ? 0 : it->second) | g->fsmark;
    if (! mk) continue;
    int en = it == g->marks.end() ? -1 : expect(g->watcher, true);
    bool dirent = mask & (IN_CREATE | IN_DELETE | IN_MOVE);
    if ((mk & mask) && (! isdir || (mk & FAN_ONDIR)) && (dirent || (mk & FAN_EVENT_ON_CHILD) || (g->fsmark & mask))) {
      if (en < 0 && it == g->marks.end()) en = expect(g->watcher, true);
      if (en >= 0) wst(g->watcher).ents[en].unmasked = false;
      bool child_fid = child && (g->flags & FAN_REPORT_FID) && (! dirent || (g->flags & 0x1000 /* TARGET_FID */));
      fan_queue(g, {(u64)mask | (isdir ? FAN_ONDIR : 0), self ? self->pid : 0, dir->id, name, child ? child->id : 0, child_fid, false, en, false});
      if (en >= 0 && en < (int)wst(g->watcher).ents.size() && wst(g->watcher).ents[en].dropped && isdir && child) taint_tree(child);
    }
  }
}

static void notify_self(Inode* n, u32 mask) {
  u32 m = mask | (n->type == 'd' && (mask & (IN_DELETE_SELF | IN_MOVE_SELF)) == 0 ? IN_ISDIR : 0);
  for (auto* g : std::set<Inotify*>(in_groups)) {
    auto it = g->ino2wd.find(n->id);
    if (it == g->ino2wd.end() || ! (it->second.second & mask)) continue;
    in_queue(g, {it->second.first, m, 0, "", -1, false});
  }
  for (auto* g : std::set<Fanotify*>(fan_groups)) {
    auto it = g->marks.find(n->id);
    u64 mk = (it == g->marks.end() ? 0 : it->second) | g->fsmark;
    if (! (mk & mask) || (n->type == 'd' && ! (mk & FAN_ONDIR))) continue;
    fan_queue(g, {(u64)mask | (n->type == 'd' ? FAN_ONDIR : 0), self ? self->pid : 0, n->id, n->type == 'd' ? "." : "", n->id, false, true, -1, false});
  }
}

// the inode goes away for good
static void inode_gone(Inode* n) {
  if (n->gone) return;
  n->gone = true;
  for (auto* g : std::set<Inotify*>(in_groups)) {
    auto it = g->ino2wd.find(n->id);
    if (it == g->ino2wd.end()) continue;
    int wd = it->second.first;
    if (it->second.second & IN_DELETE_SELF) in_queue(g, {wd, IN_DELETE_SELF, 0, "", -1, false});
    g->ino2wd.erase(n->id);
    g->wd2ino.erase(wd);
    in_queue(g, {wd, IN_IGNORED, 0, "", -1, false});
  }
  for (auto* g : fan_groups) g->marks.erase(n->id);
}
static void maybe_gone(Inode* n) {
  if (n->dead && n->holders == 0) inode_gone(n);
}
static void hold(Inode* n) { n->holders++; }
static void unhold(Inode* n) { if (--n->holders == 0 && n->dead) { tracef("last user of a removed directory lets go"); inode_gone(n); } }
void DirFile::release() { if (Inode* n = inode(ino)) unhold(n); }
void Inotify::release() { in_groups.erase(this); }
void Fanotify::release() { fan_groups.erase(this); }

// ================================================================ changes made by actors
static void lock(Inode* n) {
  while (n->lock != -1 && n->lock != self->id)
    block_until([n] { return n->lock == -1; }, NEVER, "dir lock");
  n->lock = self->id;
}
static void unlock(Inode* n) { if (n) n->lock = -1; }
static int next_pid = 5000;
static Change begin() {
  if (P.get("pids", 0) && self && ! self->worker) self->pid = next_pid++; // every change by a process of its own
  Change c{}; c.seq0 = seq; c.ns0 = now_ns; return c;
}
static bool bad_name(std::string const& n) { return n.empty() || n == "." || n == ".."; }

static int make(std::string const& path, char type, std::string const& target, Inode** out = nullptr) {
  point("fs.op", 1);
  int e;
  Inode* dir;
  std::string name;
  Inode* ex = resolve(path, false, &e, &dir, &name);
  if (ex) return EEXIST;
  if (e != ENOENT || ! dir || bad_name(name)) return e ? e : EINVAL;
  lock(dir);
  if (dir->dead) { unlock(dir); return ENOENT; }
  if (dir->kids.count(name)) { unlock(dir); return EEXIST; }
  Change c = begin();
  Inode* n = new_inode(type);
  n->target = target;
  n->fs = dir->fs;
  attach(dir, name, n);
  if (type == 'd') {
    n_dirs_created++;
    n->hist.push_back({seq, NEVER, dir_path(n)});
    if (dir->tainted) n->tainted = true, n->taint_seq = dir->taint_seq;
    if (dir->lookup_taint) n->lookup_taint = n->lookup_ever = true;
    if (dir->was_out) n->was_out = true;
  }
  point("fs.made", 2);
  notify(dir, name, IN_CREATE, type == 'd', n, 0, c);
  unlock(dir);
  if (out) *out = n;
  return 0;
}
int fs_mkdir(std::string const& p) { return make(p, 'd', ""); }
int fs_symlink(std::string const& t, std::string const& p) { return make(p, 'l', t); }
int fs_fifo(std::string const& p) { return make(p, 'p', ""); }
int fs_create(std::string const& p) {
  Inode* n = nullptr;
  int e = make(p, 'f', "", &n);
  if (e) return e;
  int e2; Inode* dir; std::string name;
  if (resolve(p, false, &e2, &dir, &name) == n && dir) {
    notify(dir, name, IN_OPEN, false, n, 0, begin());
    point("fs.opened", 3);
    notify(dir, name, IN_CLOSE_WRITE, false, n, 0, begin());
  }
  return 0;
}
int fs_write(std::string const& p) {
  point("fs.op", 4);
  int e; Inode* dir; std::string name;
  Inode* n = resolve(p, false, &e, &dir, &name);
  if (! n) return e;
  if (n->type != 'f' || ! dir) return EISDIR;
  notify(dir, name, IN_OPEN, false, n, 0, begin());
  point("fs.opened", 5);
  if (dir->kids.count(name) == 0 || dir->kids[name] != n->id) return 0; // renamed meanwhile: written elsewhere, not modelled
  Change c = begin();
  n->mtime = std::max(n->mtime + 1, (i64)now_ns + rt_off);
  fs_gen++;
  notify(dir, name, IN_MODIFY, false, n, 0, c);
  notify(dir, name, IN_CLOSE_WRITE, false, n, 0, begin());
  return 0;
}
int fs_chmod(std::string const& p) {
  point("fs.op", 6);
  int e; Inode* dir; std::string name;
  Inode* n = resolve(p, false, &e, &dir, &name);
  if (! n || ! dir) return e;
  if (! n->mount) notify(dir, name, IN_ATTRIB, n->type == 'd', n, 0, begin());
  notify_self(n, IN_ATTRIB);
  return 0;
}
int fs_read(std::string const& p) {
  point("fs.op", 7);
  int e; Inode* dir; std::string name;
  Inode* n = resolve(p, false, &e, &dir, &name);
  if (! n || ! dir) return e;
  bool d = n->type == 'd', up = ! n->mount; // what is above is not of this file system
  if (up) notify(dir, name, IN_OPEN, d, n, 0, begin());
  notify_self(n, IN_OPEN);
  point("fs.opened", 8);
  if (dir->kids.count(name) == 0 || dir->kids[name] != n->id) return 0;
  if (up) notify(dir, name, IN_ACCESS, d, n, 0, begin());
  if (up) notify(dir, name, IN_CLOSE_NOWRITE, d, n, 0, begin());
  notify_self(n, IN_CLOSE_NOWRITE);
  return 0;
}
int fs_list(std::string const& p) { return fs_read(p); }
int fs_link(std::string const& from, std::string const& to) {
  point("fs.op", 9);
  int e; Inode* dir; std::string name;
  Inode* n = resolve(from, false, &e);
  if (! n) return e;
  if (n->type == 'd') return EPERM;
  Inode* ex = resolve(to, false, &e, &dir, &name);
  if (ex) return EEXIST;
  if (! dir || e != ENOENT) return e;
  if (n->fs != dir->fs) return EXDEV;
  lock(dir);
  if (dir->dead || dir->kids.count(name)) { unlock(dir); return ENOENT; }
  Change c = begin();
  n->nlink++;
  attach(dir, name, n);
  point("fs.made", 10);
  notify(dir, name, IN_CREATE, false, n, 0, c);
  unlock(dir);
  return 0;
}
int fs_unlink(std::string const& p) {
  point("fs.op", 11);
  int e; Inode* dir; std::string name;
  Inode* n = resolve(p, false, &e, &dir, &name);
  if (! n || ! dir) return e ? e : EINVAL;
  if (n->type == 'd') return EISDIR;
  lock(dir);
  if (! dir->kids.count(name) || dir->kids[name] != n->id) { unlock(dir); return ENOENT; }
  Change c = begin();
  detach(dir, name);
  if (--n->nlink == 0) n->dead = true, n->dead_seq = seq;
  point("fs.gone", 12);
  if (n->dead && ! n->holders && P.get("selfdel_order", 0) == 0) inode_gone(n);
  notify(dir, name, IN_DELETE, false, n, 0, c);
  if (n->dead && ! n->holders) inode_gone(n);
  unlock(dir);
  return 0;
}
int fs_rmdir(std::string const& p) {
  point("fs.op", 13);
  int e; Inode* dir; std::string name;
  Inode* n = resolve(p, false, &e, &dir, &name);
  if (! n || ! dir) return e ? e : EINVAL;
  if (n->type != 'd') return ENOTDIR;
  if (n->id == 1 || n->mount) return EBUSY;
  lock(dir);
  if (! dir->kids.count(name) || dir->kids[name] != n->id || n->lock != -1 || ! n->kids.empty()) { unlock(dir); return n->kids.empty() ? ENOENT : ENOTEMPTY; }
  Change c = begin();
  detach(dir, name);
  n->dead = true; n->dead_seq = seq;
  point("fs.gone", 14);
  if (! n->holders && P.get("selfdel_order", 0) == 0) { inode_gone(n); point("fs.gone", 15); }
  notify(dir, name, IN_DELETE, true, n, 0, c);
  if (! n->gone && ! n->holders) { point("fs.gone", 16); maybe_gone(n); }
  unlock(dir);
  return 0;
}

static void move_hist(Inode* d, std::vector<std::pair<Inode*, size_t>>& closing) {
  closing.push_back({d, d->hist.size() - 1});
  d->hist.push_back({seq, NEVER, dir_path(d)});
  for (auto& k : d->kids) { Inode* n = inode(k.second); if (n && n->type == 'd') move_hist(n, closing); }
}

static void set_was_out(Inode* d) {
  d->was_out = true;
  for (auto& k : d->kids) { Inode* n = inode(k.second); if (n && n->type == 'd') set_was_out(n); }
}
static bool rename_mutex = false;
static std::vector<std::pair<Inode*, u64>> moving; // directories whose rename is under way
int fs_rename(std::string const& from, std::string const& to, bool exchange) {
  point("fs.op", 17);
  int e; Inode *d1, *d2; std::string n1, n2;
  Inode* a = resolve(from, false, &e, &d1, &n1);
  if (! a || ! d1) return e ? e : EINVAL;
  Inode* b = resolve(to, false, &e, &d2, &n2);
  if (! d2 || (! b && e != ENOENT) || bad_name(n1) || bad_name(n2)) return e ? e : EINVAL;
  if (exchange && ! b) return ENOENT;
  bool cross = d1 != d2;
  if (cross) {
    while (rename_mutex) block_until([] { return ! rename_mutex; }, NEVER, "rename lock");
    rename_mutex = true;
  }
  Inode *l1 = d1->id < d2->id ? d1 : d2, *l2 = d1->id < d2->id ? d2 : d1;
  lock(l1);
  if (l2 != l1) lock(l2);
  auto out = [&](int r) {
    unlock(l2); unlock(l1);
    if (cross) rename_mutex = false;
    for (auto i = moving.begin(); i != moving.end();) i = i->first == a || i->first == b ? moving.erase(i) : std::next(i);
    return r;
  };
  auto at = [](Inode* d, std::string const& n) { auto i = d->kids.find(n); return i == d->kids.end() ? nullptr : inode(i->second); };
  a = at(d1, n1);
  b = at(d2, n2);
  if (! a || d1->dead || d2->dead) return out(ENOENT);
  if (exchange && ! b) return out(ENOENT);
  if (a->mount || (b && b->mount)) return out(EBUSY);
  if (d1->fs != d2->fs) return out(EXDEV);
  if (a == b) return out(0);
  if (a->type == 'd' && inside(d2, a)) return out(EINVAL);
  if (exchange && b->type == 'd' && inside(d1, b)) return out(EINVAL);
  // what is watched stays where it is (what its events should say otherwise is nobody's promise)
  auto holds_base = [](Inode* d) {
    if (P.glue.compare(0, 7, "warthog") == 0) return false;
    for (int w = 0; w < (int)P.get("watchers", 1); w++)
      if (auto& s = wst(w); s.opened && s.base && inside(s.base, d)) return true;
    return false;
  };
  if ((a->type == 'd' && holds_base(a)) || (exchange && b->type == 'd' && holds_base(b))) {
    if (! P.get("adrift", 0)) return out(EBUSY);
    // unless that is what the run is about: then only the rest of what is promised is looked at
    for (auto& s : W)
      if (s.opened && s.base && ! s.adrift && ((a->type == 'd' && inside(s.base, a)) || (exchange && b->type == 'd' && inside(s.base, b)))) {
        s.adrift = true;
        probe("base-moved");
        tracef("what watcher %d watches is moved", s.idx);
      }
  }
  if (b && ! exchange) {
    if (a->type == 'd' && b->type != 'd') return out(ENOTDIR);
    if (a->type != 'd' && b->type == 'd') return out(EISDIR);
    if (b->type == 'd' && (! b->kids.empty() || b->lock != -1)) return out(ENOTEMPTY);
  }
  Change c = begin();
  std::vector<std::pair<Inode*, size_t>> closing;
  u32 ck = new_cookie();
  detach(d1, n1);
  if (b) detach(d2, n2);
  attach(d2, n2, a);
  if (a->type == 'd') move_hist(a, closing);
  if (exchange) {
    attach(d1, n1, b);
    if (b->type == 'd') move_hist(b, closing);
  } else if (b) {
    if (b->type == 'd') b->dead = true, b->dead_seq = seq;
    else if (--b->nlink == 0) b->dead = true, b->dead_seq = seq;
  }
  if (a->type == 'd' && d2->tainted) taint_tree(a);
  if (a->type == 'd' && d2->lookup_taint) lookup_taint_tree(a);
  if (b && exchange && b->type == 'd' && d1->tainted) taint_tree(b);
  if (b && exchange && b->type == 'd' && d1->lookup_taint) lookup_taint_tree(b);
  for (auto& s : W) {
    if (! s.opened || ! s.base) continue;
    auto sees = [&](Inode* d) {
      if (! inside(d, s.base)) return false;
      for (auto* g : in_groups) if (g->watcher == s.idx && ! g->ino2wd.count(d->id)) return false;
      return true;
    };
    if (a->type == 'd' && (! sees(d2) || d2->was_out) && inside(d1, s.base)) set_was_out(a);
    if (b && b->type == 'd' && exchange && (! sees(d1) || d1->was_out) && inside(d2, s.base)) set_was_out(b);
    // one half is of a directory which it has not looked up (and will look up by name)
    if (exchange && a->type == 'd' && b->type == 'd' && inside(d1, s.base) && inside(d2, s.base))
      for (auto* g : in_groups)
        if (g->watcher == s.idx && g->ino2wd.count(a->id) != g->ino2wd.count(b->id)) lookup_taint_tree(a), lookup_taint_tree(b);
  }
  if (a->type == 'd') moving.push_back({a, c.seq0});
  if (exchange && b->type == 'd') moving.push_back({b, c.seq0});
  int moved = (a->type == 'd') + (exchange && b->type == 'd');
  dirmoves += moved;
  dirmoves_all += moved;
  dirmoves_max = dirmoves > dirmoves_max ? dirmoves : dirmoves_max;
  c.ren[E_FROM] = c.ren[E_TO] = (int)ck;
  point("fs.moved", 18);
  notify(d1, n1, IN_MOVED_FROM, a->type == 'd', a, ck, c);
  point("fs.moved", 19);
  notify(d2, n2, IN_MOVED_TO, a->type == 'd', a, ck, c);
  if (a->type == 'd' || true) notify_self(a, IN_MOVE_SELF);
  if (exchange) {
    u32 ck2 = new_cookie();
    c.ren[E_FROM] = c.ren[E_TO] = (int)ck2;
    point("fs.moved", 20);
    notify(d2, n2, IN_MOVED_FROM, b->type == 'd', b, ck2, c);
    point("fs.moved", 21);
    notify(d1, n1, IN_MOVED_TO, b->type == 'd', b, ck2, c);
    notify_self(b, IN_MOVE_SELF);
  }
  for (auto& k : closing) k.first->hist[k.second].s1 = seq;
  if (b && ! exchange && b->dead) { point("fs.moved", 22); maybe_gone(b); }
  return out(0);
}
static std::map<std::string, int> held;
int fs_hold(std::string const& p) {
  int e;
  Inode* n = resolve(p, false, &e);
  if (! n) return e;
  if (held.count(p)) return EBUSY;
  hold(n);
  held[p] = n->id;
  return 0;
}
int fs_unhold(std::string const& p) {
  auto i = held.find(p);
  if (i == held.end()) return ENOENT;
  unhold(inode(i->second));
  held.erase(i);
  return 0;
}
int fs_rmtree(std::string const& p) {
  int e;
  Inode* n = resolve(p, false, &e);
  if (! n) return e;
  if (n->type != 'd') return fs_unlink(p);
  for (auto& k : std::vector<std::string>(n->order)) fs_rmtree(p + "/" + k);
  return fs_rmdir(p);
}
// Somebody else, at the very moment a watcher's thread is about to ask the kernel about a path
static void react(std::string const& path) {
  if (! self || ! self->worker || self->host || cur_watcher() < 0 || path[0] != '/' || ! P.get("react", 0)) return;
  int kind = fault("react");
  if (! kind) return;
  auto& s = wst(cur_watcher());
  struct Doing { int kind; std::string p, base, leaf; bool done = false; };
  auto d = std::make_shared<Doing>();
  d->kind = kind;
  d->base = s.base ? dir_path(s.base) : "/w";
  d->p = path;
  while (d->p.size() > 1 && d->p.back() == '/') d->p.pop_back();
  if (kind > 20) { // above it
    d->kind -= 20;
    if (d->p.rfind('/') == 0) return;
    d->leaf = d->p.substr(d->p.rfind('/'));
    d->p.erase(d->p.rfind('/'));
  }
  int e;
  Inode* dir;
  std::string name;
  Inode* n = resolve(d->p, false, &e, &dir, &name);
  if (! n || ! s.base || ! inside(n->type == 'd' ? n : dir, s.base)) return;
  auto under = [&](std::string const& g) { return g == d->p || g.compare(0, d->p.size() + 1, d->p + "/") == 0; };
  if (d->kind < 8 || d->kind > 10) // the way to what is watched stays
    for (auto& w : W) if (w.opened && under(w.abs_given)) return;
  if (d->kind < 8 || d->kind > 10) // what is watched, or lies above, stays
    for (auto& w : W) if (w.opened && w.base && n->type == 'd' && inside(w.base, n)) return;
  sim_thread_create(nullptr, nullptr, [](void* a) -> void* {
    go_in(self);
    auto d = *(std::shared_ptr<Doing>*)a;
    delete (std::shared_ptr<Doing>*)a;
    static int nth = 0;
    std::string const& p = d->p;
    std::string aside = p + "~" + std::to_string(nth++), out = P.get("react_out", 0) ? "/w/o" : "/w";
    out += aside.substr(aside.rfind('/'));
    self->watcher = self->cur_watcher = -1;
    switch (d->kind) {
    case 1: case 11: case 12: case 13: { // a link to somewhere else, where something happens later on
      int e;
      Inode* t = resolve("/w/o/in", true, &e);
      std::string to = t && t->type == 'd' ? "/w/o/in" : "/w/o";
      if (d->kind == 12) to = d->base;      // to what is watched
      else if (d->kind == 13) to = aside;   // to where it is now
      if (d->leaf.size() && d->kind < 13) fs_mkdir(to + d->leaf); // it is there, too
      if (fs_rename(p, aside) || fs_symlink(to, p)) break;
      d->done = true;
      if (d->kind == 1) break;
      block_until(nullptr, now_ns + 3000000, "sleep");
      fs_create(to + "/seen" + std::to_string(nth++));
      fs_mkdir(to + "/seen" + std::to_string(nth++));
      fs_create(p + "/seen" + std::to_string(nth++));
      if (d->leaf.size()) fs_create(to + d->leaf + "/seen" + std::to_string(nth++));
      break;
    }
    case 2: fs_rename(p, aside); break;
    case 3: fs_rmtree(p); break;
    case 4: fs_rmtree(p); fs_mkdir(p); break;
    case 5: fs_rename(p, out); break;
    case 6: if (! fs_rename(p, aside)) fs_mkdir(p); break;
    case 7: if (! fs_rename(p, out)) { fs_mkdir(p); fs_create(p + "/new"); } break;
    case 8: fs_mkdir(p + "/sub"); fs_create(p + "/sub/f"); break;
    case 9: fs_create(p + "/one"); fs_write(p + "/one"); break;
    case 10: fs_mkdir(p + "/sub"); fs_mkdir(p + "/sub/sub"); fs_rename(p + "/sub", p + "/bus"); break;
    }
    d->done = true;
    go_out(self);
    return nullptr;
  }, new std::shared_ptr<Doing>(d), false);
  block_until([d] { return d->done; }, NEVER, "react");
}
static void react_at(int fd) {
  if (! self || ! self->worker || ! P.get("react", 0)) return;
  if (auto f = get(fd); f && f->kind == 'D')
    if (Inode* n = inode(((DirFile*)f.get())->ino); n && n->type == 'd' && ! n->dead) react(dir_path(n));
}
void setup_raw_mkdir(std::string const& path) {
  // parents included, no notifications (before anything is watched)
  Inode* cur = inode(1);
  size_t i = 0;
  while (i < path.size()) {
    while (i < path.size() && path[i] == '/') i++;
    size_t j = i;
    while (j < path.size() && path[j] != '/') j++;
    if (i == j) break;
    std::string c = path.substr(i, j - i);
    i = j;
    auto it = cur->kids.find(c);
    if (it != cur->kids.end()) { cur = inode(it->second); continue; }
    Inode* n = new_inode('d');
    n->fs = cur->fs;
    attach(cur, c, n);
    n->hist.push_back({0, NEVER, dir_path(n)});
    cur = n;
  }
}

int setup_mount(std::string const& p) { // what is there is a file system of its own
  int e;
  Inode* n = resolve(p, false, &e);
  if (! n || n->type != 'd' || n->mount || n->id == 1) return EINVAL;
  static int last = 0;
  int old = n->fs, now = ++last;
  std::function<void(Inode*)> all = [&](Inode* i) {
    i->fs = now;
    for (auto& k : i->kids) if (Inode* c = inode(k.second); c && c->fs == old) all(c);
  };
  all(n);
  n->mount = true;
  probe("other-file-system");
  return 0;
}

// ================================================================ system calls of the code under test
static int fail(int e) {
  errno = e;
  if (e != EAGAIN && e != EINTR && e != EBADF) { int w = cur_watcher(); if (w >= 0) wst(w).causes++; }
  return -1;
}
static bool transparent(int e, char const* site) { return e == EINTR || (e == EAGAIN && strncmp(site, "read.", 5) == 0); }
// the injected failure of a call that concerns `dir` (may be null)
static int inject(char const* site, Inode* dir = nullptr) {
  int e = fault(site);
  if (e && ! transparent(e, site)) {
    int w = cur_watcher();
    if (w >= 0) oracle_hard_fault(w, site, e, self->last_rc_err, dir, dir && wst(w).base == dir);
  }
  return e;
}

static void too_long(char const* site, Inode* n) { // a path which cannot be told
  probe("path-too-long");
  if (int w = cur_watcher(); w >= 0) oracle_hard_fault(w, site, ENAMETOOLONG, false, n, false);
}

int k_eventfd(unsigned init, int flags) {
  point("eventfd", 1);
  if (int e = inject("eventfd")) return fail(e);
  auto f = std::make_shared<Eventfd>();
  f->kind = 'V';
  f->n = init;
  f->sem = flags & EFD_SEMAPHORE;
  f->nonblock = flags & EFD_NONBLOCK;
  f->cloexec = flags & EFD_CLOEXEC;
  return install(f);
}
extern "C" void __tsan_acquire(void*) __attribute__((weak));
extern "C" void __tsan_release(void*) __attribute__((weak));
static void acq(void* p) { if (__tsan_acquire) __tsan_acquire(p); }
static void rel(void* p) { if (__tsan_release) __tsan_release(p); }

static ssize_t ev_write(Eventfd* f, u64 v) {
  if (v == ~0ull) return fail(EINVAL);
  if (f->n > ~0ull - 1 - v) { if (f->nonblock) return fail(EAGAIN); }
  rel(f);
  f->n += v;
  wake(f);
  return 8;
}
static ssize_t ev_read(std::shared_ptr<Eventfd> f, u64* out) {
  if (! f->n) {
    if (f->nonblock) return fail(EAGAIN);
    block_until([f] { return f->n > 0; }, NEVER, "eventfd read");
  }
  acq(f.get());
  if (f->sem) *out = 1, f->n--;
  else *out = f->n, f->n = 0;
  return 8;
}

int k_inotify_init1(int flags) {
  point("inotify_init", 1);
  if (int e = inject("inotify_init")) return fail(e);
  auto g = std::make_shared<Inotify>();
  g->kind = 'I';
  g->cloexec = flags & IN_CLOEXEC;
  g->nonblock = flags & IN_NONBLOCK;
  int fd = install(g);
  in_groups.insert(g.get());
  if (g->watcher >= 0) wst(g->watcher).ino = true;
  return fd;
}
// A lookup by name tells where a directory is now. The watcher learns only later about
// renames which happened before, and takes them for changes of what it found: that cannot
// be avoided when such a rename concerns the looked up path.
static u64 pending_rename_at(int w, Inode* n, std::string const& asked) {
  for (auto& m : moving)
    if (m.second && (m.first == n || inside(n, m.first) || std::any_of(m.first->hist.begin(), m.first->hist.end(), [&](Span const& h) { return asked.compare(0, h.path.size() + 1, h.path + "/") == 0; }))) return m.second; // not even announced yet
  std::string p = dir_path(n);
  for (auto& e : wst(w).ents)
    if (e.left && e.queued && e.dir && (e.effs & ((1u << E_FROM) | (1u << E_TO)))) {
      auto below = [&](std::string d) {
        d = (d == "/" ? "" : d) + "/" + e.name;
        auto at = [&](std::string const& p) { return p.compare(0, d.size(), d) == 0 && (p.size() == d.size() || p[d.size()] == '/'); };
        return at(p) || at(asked) || std::any_of(n->hist.begin(), n->hist.end(), [&](Span const& h) { return h.s1 >= e.chg_seq && at(h.path); });
      };
      Inode* d = inode(e.dirino);
      for (auto& h : d->hist) if (h.s1 >= e.chg_seq && below(h.path)) return e.chg_seq;
      if (e.effs & (1u << E_TO)) // it knows that it has left, and not to where
        for (auto& o : wst(w).ents)
          if (! o.left && (o.effs & (1u << E_FROM)) && o.ren[E_FROM] && o.ren[E_FROM] == e.ren[E_TO])
            for (auto& h : inode(o.dirino)->hist)
              if (h.s1 >= o.chg_seq) {
                std::string p0 = (h.path == "/" ? "" : h.path) + "/" + o.name;
                if (p == p0 || p.compare(0, p0.size() + 1, p0 + "/") == 0) return o.chg_seq;
              }
    }
  return 0;
}
static void lookup_check(Inotify* g, Inode* n, std::string const& asked) {
  if (g->watcher < 0) return;
  u64 q = pending_rename_at(g->watcher, n, asked);
  if (! q) return;
  probe("lookup-with-pending-renames");
  for (auto& e : wst(g->watcher).ents) // what left it before then was still there as far as the watcher knows
    if (e.left && e.queued && e.dir && (e.effs & ((1u << E_FROM) | (1u << E_TO)))) q = std::min(q, e.chg_seq);
  // whatever was, or has come to be, below it
  for (auto& x : inodes)
    if (x && x->type == 'd' && ! x->lookup_taint)
      for (auto& a : x->hist)
        if (a.s1 >= q && ! x->lookup_taint)
          for (auto& b : n->hist)
            if (b.s1 >= q && a.path.compare(0, b.path.size(), b.path) == 0 && (a.path.size() == b.path.size() || a.path[b.path.size()] == '/')) { x->lookup_taint = x->lookup_ever = true; break; }
}
int k_inotify_add_watch(int fd, char const* path, u32 mask) {
  point("inotify_add_watch", 2);
  if (path) react(path);
  auto f = use(fd, "inotify_add_watch");
  if (! f) return fail(EBADF);
  if (f->kind != 'I') return fail(EINVAL);
  if (! path) return fail(EFAULT);
  auto* g = (Inotify*)f.get();
  int e;
  Inode* n = resolve(path, ! (mask & IN_DONT_FOLLOW), &e);
  if (int fe = inject("inotify_add_watch", n)) return fail(fe);
  if (! n) { tracef("inotify_add_watch(%s): errno %d", path, e); return fail(e); }
  if ((mask & IN_ONLYDIR) && n->type != 'd') return fail(ENOTDIR);
  if (n->noread && P.get("euid", 0) != 0) { oracle_hard_fault(g->watcher, "noread", EACCES, true, n, wst(g->watcher).base == n); return fail(EACCES); }
  if (! (mask & (IN_ALL_EVENTS))) return fail(EINVAL);
  auto it = g->ino2wd.find(n->id);
  if (it != g->ino2wd.end()) {
    if (mask & 0x10000000u /* IN_MASK_CREATE */) return fail(EEXIST);
    lookup_check(g, n, path);
    u32 m = mask & (IN_ALL_EVENTS | IN_ONESHOT | IN_EXCL_UNLINK);
    it->second.second = mask & IN_MASK_ADD ? it->second.second | m : m;
    return it->second.first;
  }
  if ((long)g->ino2wd.size() >= P.get("max_watches", 1 << 20)) { count_fault("inotify.max_watches", ENOSPC); oracle_hard_fault(g->watcher, "max_watches", ENOSPC, true, n, wst(g->watcher).base == n); return fail(ENOSPC); }
  lookup_check(g, n, path);
  int wd = g->next_wd++;
  if (int j = (int)P.get("wd_jump", 0); j && ++g->since_jump == 4 && g->next_wd < 0x7e000000) g->next_wd += j - 4, g->since_jump = 0; // as though it had numbered many since
  g->wd2ino[wd] = n->id;
  g->ino2wd[n->id] = {wd, mask & (IN_ALL_EVENTS | IN_ONESHOT | IN_EXCL_UNLINK)};
  tracef("inotify watch %d on %s (inode %d)", wd, path, n->id);
  return wd;
}
int k_inotify_rm_watch(int fd, int wd) {
  point("inotify_rm_watch", 3);
  auto f = use(fd, "inotify_rm_watch");
  if (! f) return fail(EBADF);
  if (f->kind != 'I') return fail(EINVAL);
  auto* g = (Inotify*)f.get();
  auto it = g->wd2ino.find(wd);
  if (it == g->wd2ino.end()) return fail(EINVAL);
  tracef("inotify watch %d removed", wd);
  if (g->watcher >= 0) wst(g->watcher).causes++;
  g->ino2wd.erase(it->second);
  g->wd2ino.erase(it);
  in_queue(g, {wd, IN_IGNORED, 0, "", -1, false});
  return 0;
}

int k_fanotify_init(unsigned flags, unsigned evf) {
  point("fanotify_init", 1);
  if (int e = inject("fanotify_init")) return fail(e);
  long fan = P.get("fan", 0);
  if (P.get("euid", 0) != 0 || fan == 1) { count_fault("fanotify.refused", EPERM); errno = EPERM; return -1; }
  if (fan == 2) { count_fault("fanotify.refused", ENOSYS); errno = ENOSYS; return -1; }
  if (fan == 4) { count_fault("fanotify.refused", EINVAL); errno = EINVAL; return -1; }
  auto g = std::make_shared<Fanotify>();
  g->kind = 'F';
  g->flags = flags;
  g->cloexec = flags & FAN_CLOEXEC;
  g->nonblock = flags & FAN_NONBLOCK;
  (void)evf;
  if (! (flags & FAN_REPORT_NAME) || ! (flags & FAN_REPORT_DIR_FID)) violation("sim.unsupported", "fanotify group without FAN_REPORT_DFID_NAME");
  int fd = install(g);
  fan_groups.insert(g.get());
  if (g->watcher >= 0) wst(g->watcher).fan = true;
  return fd;
}
int k_fanotify_mark(int fd, unsigned flags, u64 mask, int dfd, char const* path) {
  point("fanotify_mark", 2);
  if (path) react(path);
  else react_at(dfd);
  auto f = use(fd, "fanotify_mark");
  if (! f) return fail(EBADF);
  if (f->kind != 'F') return fail(EINVAL);
  auto* g = (Fanotify*)f.get();
  Inode* n = nullptr;
  int e = 0;
  if (path) n = resolve(path, ! (flags & FAN_MARK_DONT_FOLLOW), &e);
  else if (auto df = get(dfd); df && df->kind == 'D') n = inode(((DirFile*)df.get())->ino);
  else e = EBADF;
  if (int fe = inject("fanotify_mark", n)) return fail(fe);
  if (! n) { tracef("fanotify_mark(%s): errno %d", path ? path : "-", e); return fail(e); }
  if ((flags & FAN_MARK_ONLYDIR) && n->type != 'd') return fail(ENOTDIR);
  if (P.get("fan", 0) == 3) { count_fault("fanotify.marks-refused", EOPNOTSUPP); errno = EOPNOTSUPP; return -1; }
  if (flags & FAN_MARK_FLUSH) { g->marks.clear(); return 0; }
  if (flags & FAN_MARK_REMOVE) {
    auto it = g->marks.find(n->id);
    if (it == g->marks.end()) return fail(ENOENT);
    it->second &= ~mask;
    if (! (it->second & 0xffff)) g->marks.erase(it);
    return 0;
  }
  if (! (flags & FAN_MARK_ADD)) return fail(EINVAL);
  if (flags & FAN_MARK_FILESYSTEM) { g->fsmark |= mask; return 0; }
  if (flags & FAN_MARK_MOUNT) return fail(EINVAL);
  if (! (g->flags & FAN_UNLIMITED_MARKS) && (long)g->marks.size() >= P.get("max_watches", 8192)) { oracle_hard_fault(g->watcher, "max_watches", ENOSPC, true, n, false); return fail(ENOSPC); }
  g->marks[n->id] |= mask;
  tracef("fanotify mark on %s (inode %d)", path ? path : dir_path(n).c_str(), n->id);
  return 0;
}

int k_epoll_create1(int flags) {
  point("epoll_create", 1);
  if (int e = inject("epoll_create")) return fail(e);
  auto ep = std::make_shared<Epoll>();
  ep->kind = 'E';
  ep->cloexec = flags & EPOLL_CLOEXEC;
  return install(ep);
}
int k_epoll_ctl(int epfd, int op, int fd, epoll_event* ev) {
  point("epoll_ctl", (u64)op);
  if (int e = inject("epoll_ctl")) return fail(e);
  auto ef = use(epfd, "epoll_ctl");
  auto f = use(fd, "epoll_ctl");
  if (! ef || ! f) return fail(EBADF);
  if (ef->kind != 'E' || ef == f) return fail(EINVAL);
  auto* ep = (Epoll*)ef.get();
  auto k = std::make_pair(fd, f.get());
  auto it = ep->items.find(k);
  if (op == EPOLL_CTL_ADD) {
    if (it != ep->items.end()) return fail(EEXIST);
    if (f->kind == 'D') return fail(EPERM);
    EpItem i;
    i.events = ev->events;
    i.data = ev->data;
    i.file = f;
    ep->items[k] = i;
    f->pollers.insert(ep);
    if (item_ready(ep->items[k])) ep->items[k].linked = true, ep->rdl.push_back(k);
    return 0;
  }
  if (it == ep->items.end()) return fail(ENOENT);
  if (op == EPOLL_CTL_DEL) {
    ep->items.erase(it);
    ep->rdl.erase(std::remove(ep->rdl.begin(), ep->rdl.end(), k), ep->rdl.end());
    return 0;
  }
  it->second.events = ev->events;
  it->second.data = ev->data;
  it->second.disabled = false;
  if (! it->second.linked && item_ready(it->second)) it->second.linked = true, ep->rdl.push_back(k);
  return 0;
}
int k_epoll_wait(int epfd, epoll_event* out, int max, int timeout) {
  point("epoll_wait", 5);
  if (int e = inject("epoll_wait")) return fail(e);
  auto ef = use(epfd, "epoll_wait");
  if (! ef) return fail(EBADF);
  if (ef->kind != 'E' || max <= 0) return fail(EINVAL);
  auto* ep = (Epoll*)ef.get();
  u64 dl = timeout < 0 ? NEVER : now_ns + (u64)timeout * 1000000ull;
  // a wait may be interrupted only after it has begun
  if (int e = fault("epoll_wait.blocked")) {
    if (timeout != 0) block_until([ep] { return ep->ready() != 0; }, std::min(dl, now_ns + 2000000), "epoll_wait");
    return fail(e);
  }
  for (;;) {
    if (timeout != 0) {
      if (! block_until([ep] { return ep->ready() != 0; }, dl, "epoll_wait")) return 0;
    }
    if (P.get("ep_shuffle", 0) && ep->rdl.size() > 1 && choose_env(2, "ready order")) std::swap(ep->rdl[0], ep->rdl[1]);
    int n = 0;
    auto l = std::move(ep->rdl);
    ep->rdl.clear();
    std::deque<std::pair<int, File*>> again;
    while (! l.empty() && n < max) {
      auto k = l.front();
      l.pop_front();
      auto it = ep->items.find(k);
      if (it == ep->items.end()) continue;
      u32 r = item_ready(it->second);
      if (! r) { it->second.linked = false; continue; }
      out[n].events = r;
      out[n].data = it->second.data;
      n++;
      if (it->second.events & EPOLLONESHOT) it->second.disabled = true, it->second.linked = false;
      else if (it->second.events & EPOLLET) it->second.linked = false;
      else again.push_back(k);
    }
    for (auto& k : again) l.push_back(k);
    ep->rdl = std::move(l);
    note(0xE9 + (u64)n);
    if (n) {
      if (n > 1) probe("epoll.two-ready");
      tracef("epoll_wait -> %d ready", n);
      for (int i = 0; i < n; i++) note(out[i].data.u64 * 3 + out[i].events);
      for (int i = 0; i < n; i++) for (auto& kv : ep->items) if (kv.second.data.u64 == out[i].data.u64) { if (auto ff = kv.second.file.lock()) acq(ff.get()); }
      return n;
    }
    if (timeout == 0) return 0;
  }
}
int k_poll(pollfd* p, unsigned long n, i64 timeout_ns) {
  point("poll", n);
  if (int e = inject("poll")) return fail(e);
  auto scan = [p, n](bool set) {
    int c = 0;
    for (unsigned long i = 0; i < n; i++) {
      short r = 0;
      if (p[i].fd >= 0) { auto f = get(p[i].fd); r = f ? f->ready() & (p[i].events | POLLERR | POLLHUP) : POLLNVAL; }
      if (set) p[i].revents = r;
      if (r) c++;
    }
    return c;
  };
  u64 dl = timeout_ns < 0 ? NEVER : now_ns + (u64)timeout_ns;
  if (timeout_ns != 0) block_until([&] { return scan(false) > 0; }, dl, "poll");
  int c = scan(true);
  for (unsigned long i = 0; i < n; i++) if (p[i].revents) { if (auto f = get(p[i].fd)) acq(f.get()); }
  return c;
}

static size_t in_size(InEv const& e) { return sizeof(inotify_event) + (e.name.empty() ? 0 : (e.name.size() + 16) / 16 * 16); }

// a batch read although the user waits for the close to finish
static void count_close_read(int w) {
  if (w < 0) return;
  auto& s = wst(w);
  if (s.close_begun && s.closer && s.closer->blocked) s.reads_after_close++;
}
static void mark_read(int w, int ent, bool ovf, int batch, int pos) {
  if (w < 0 || ent < 0) return;
  auto& s = wst(w);
  if (ovf) { s.overflow_read[ent] = true; s.overflow_pos.resize(s.overflow_read.size(), -1), s.overflow_batch.resize(s.overflow_read.size(), -1); s.overflow_pos[ent] = pos; s.overflow_batch[ent] = batch; return; }
  auto& e = s.ents[ent];
  e.read = true; e.read_seq = seq; e.batch = batch; e.pos = pos;
}

static ssize_t read_inotify(std::shared_ptr<File> f, char* buf, size_t len) {
  auto* g = (Inotify*)f.get();
  if (int e = inject("read.inotify")) return fail(e);
  if (g->q.empty()) {
    if (g->nonblock) return fail(EAGAIN);
    block_until([g] { return ! g->q.empty(); }, NEVER, "inotify read");
  }
  if (in_size(g->q.front()) > len) return fail(EINVAL);
  count_close_read(g->watcher);
  size_t fit = 0, tot = 0;
  while (fit < g->q.size() && tot + in_size(g->q[fit]) <= len) tot += in_size(g->q[fit++]);
  if (tot == len) probe("inotify.exactly-full-read");
  if (fit < g->q.size()) probe("inotify.batch-limited-by-buffer");
  unsigned k = choose_env((unsigned)std::min<size_t>(fit, 200), "short read");
  if (k) count_fault("read.short", 0), fit = k;
  int batch = g->watcher >= 0 ? wst(g->watcher).batches++ : 0;
  R->batches++;
  size_t off = 0;
  for (size_t i = 0; i < fit; i++) {
    InEv e = g->q.front();
    g->q.pop_front();
    inotify_event h{};
    h.wd = e.wd; h.mask = e.mask; h.cookie = e.cookie;
    size_t sz = in_size(e);
    h.len = (u32)(sz - sizeof h);
    memcpy(buf + off, &h, sizeof h);
    if (h.len) { memset(buf + off + sizeof h, 0, h.len); memcpy(buf + off + sizeof h, e.name.data(), e.name.size()); }
    off += sz;
    if (e.ovf) g->ovf_queued = false;
    mark_read(g->watcher, e.ent, e.ovf, batch, (int)i);
  }
  tracef("read inotify: %zu events, %zu bytes%s", fit, off, g->q.empty() ? "" : ", more pending");
  note(0x1000 + fit);
  return (ssize_t)off;
}

// What a handle looks like is the file system's business.
static u32 handle_size(int fs) { return (u32)(fs % 2 ? P.get("fh_bytes1", P.get("fh_bytes", 8)) : P.get("fh_bytes", 8)); }
static int handle_type(int fs) { return handle_size(fs) == 8 ? 1 : (int)handle_size(fs) + 0x40; }
static void handle_of(Inode* n, char* to) {
  u32 z = handle_size(n->fs);
  for (u32 i = 0; i < z; i++) to[i] = (char)(i * 37 + 11);
  u32 id[2] = {(u32)n->id, 0xabcd};
  memcpy(to + z - 8, id, 8); // at its end, so that no byte of it can be missing
}
static void fsid_of(int fs, void* to) {
  u32 v[2] = {P.get("fsid_low", 0) ? 0x51 : 0x51 + (u32)fs, 0x52 + (P.get("fsid_low", 0) ? (u32)fs : 0)};
  memcpy(to, v, 8);
}
static size_t put_fh(char* p, u8 info_type, int ino, std::string const* name) {
  Inode* n = inode(ino);
  u32 z = handle_size(n->fs);
  size_t len = sizeof(fanotify_event_info_fid) + sizeof(struct file_handle_) + z + (name ? name->size() + 1 : 0);
  len = (len + 3) & ~(size_t)3;
  if (! p) return len;
  memset(p, 0, len);
  auto* h = (fanotify_event_info_fid*)p;
  h->hdr.info_type = info_type;
  h->hdr.len = (u16)len;
  fsid_of(n->fs, &h->fsid);
  auto* fh = (struct file_handle_*)(p + sizeof *h);
  fh->handle_bytes = z;
  fh->handle_type = handle_type(n->fs);
  handle_of(n, p + sizeof *h + sizeof *fh);
  if (name) memcpy(p + sizeof *h + sizeof *fh + z, name->c_str(), name->size() + 1);
  return len;
}
static size_t fan_size(Fanotify* g, FanEv const& e, char* p) {
  size_t n = sizeof(fanotify_event_metadata);
  if (! e.ovf) {
    std::string nm = e.name;
    n += put_fh(p ? p + n : nullptr, FAN_EVENT_INFO_TYPE_DFID_NAME, e.dir, &nm);
    if (e.has_child) n += put_fh(p ? p + n : nullptr, FAN_EVENT_INFO_TYPE_FID, e.child, nullptr);
  } else if (g->flags & FAN_REPORT_FID) {
    // the kernel reports an overflow of a fid group with metadata only
  }
  if (p) {
    auto* m = (fanotify_event_metadata*)p;
    memset(m, 0, sizeof *m);
    m->event_len = (u32)n;
    m->vers = FANOTIFY_METADATA_VERSION;
    m->metadata_len = sizeof *m;
    m->mask = e.mask;
    m->fd = FAN_NOFD;
    m->pid = e.pid;
  }
  return n;
}
static ssize_t read_fanotify(std::shared_ptr<File> f, char* buf, size_t len) {
  auto* g = (Fanotify*)f.get();
  if (int e = inject("read.fanotify")) return fail(e);
  if (g->q.empty()) {
    if (g->nonblock) return fail(EAGAIN);
    block_until([g] { return ! g->q.empty(); }, NEVER, "fanotify read");
  }
  if (fan_size(g, g->q.front(), nullptr) > len) return fail(EINVAL);
  count_close_read(g->watcher);
  size_t fit = 0, tot = 0;
  while (fit < g->q.size() && tot + fan_size(g, g->q[fit], nullptr) <= len) tot += fan_size(g, g->q[fit++], nullptr);
  if (tot == len) probe("fanotify.exactly-full-read");
  if (fit < g->q.size()) probe("fanotify.batch-limited-by-buffer");
  unsigned k = choose_env((unsigned)std::min<size_t>(fit, 200), "short read");
  if (k) count_fault("read.short", 0), fit = k;
  int batch = g->watcher >= 0 ? wst(g->watcher).batches++ : 0;
  R->batches++;
  size_t off = 0;
  for (size_t i = 0; i < fit; i++) {
    FanEv e = g->q.front();
    g->q.pop_front();
    off += fan_size(g, e, buf + off);
    if (e.ovf) g->ovf_queued = false;
    mark_read(g->watcher, e.ent, e.ovf, batch, (int)i);
  }
  tracef("read fanotify: %zu events, %zu bytes%s", fit, off, g->q.empty() ? "" : ", more pending");
  note(0x2000 + fit);
  return (ssize_t)off;
}

ssize_t k_read(int fd, void* buf, size_t n) {
  point("read", (u64)fd);
  auto f = use(fd, "read");
  if (! f) return fail(EBADF);
  switch (f->kind) {
  case 'I': return read_inotify(f, (char*)buf, n);
  case 'F': return read_fanotify(f, (char*)buf, n);
  case 'V': {
    if (int e = inject("read.eventfd")) return fail(e);
    if (n < 8) return fail(EINVAL);
    u64 v = 0; ssize_t r = ev_read(std::static_pointer_cast<Eventfd>(f), &v);
    if (r == 8) memcpy(buf, &v, 8);
    return r;
  }
  case 'R': {
    auto p = std::static_pointer_cast<Pipe>(f);
    if (p->b->empty()) {
      if (! *p->writers) return 0;
      if (p->nonblock) return fail(EAGAIN);
      block_until([p] { return ! p->b->empty() || ! *p->writers; }, NEVER, "pipe read");
    }
    size_t k = 0;
    acq(p->b.get());
    while (k < n && ! p->b->empty()) ((char*)buf)[k++] = p->b->front(), p->b->pop_front();
    return (ssize_t)k;
  }
  case 'D': return fail(EISDIR);
  default: return fail(EBADF);
  }
}
ssize_t k_write(int fd, void const* buf, size_t n) {
  point("write", (u64)fd);
  auto f = use(fd, "write");
  if (! f) return fail(EBADF);
  if (f->kind == 'V') {
    if (int e = inject("write.eventfd")) return fail(e);
    if (n < 8) return fail(EINVAL);
    u64 v;
    memcpy(&v, buf, 8);
    return ev_write((Eventfd*)f.get(), v);
  }
  if (f->kind == 'W') {
    auto* p = (Pipe*)f.get();
    rel(p->b.get());
    for (size_t i = 0; i < n; i++) p->b->push_back(((char const*)buf)[i]);
    if (p->peer) wake(p->peer);
    return (ssize_t)n;
  }
  return fail(EBADF);
}
int k_pipe2(int* out, int flags) {
  point("pipe", 1);
  if (int e = inject("pipe")) return fail(e);
  auto r = std::make_shared<Pipe>(), w = std::make_shared<Pipe>();
  r->kind = 'R'; w->kind = 'W';
  r->b = w->b = std::make_shared<std::deque<char>>();
  r->writers = w->writers = std::make_shared<int>(1);
  r->readers = w->readers = std::make_shared<int>(1);
  r->peer = w.get(); w->peer = r.get();
  r->cloexec = w->cloexec = flags & O_CLOEXEC;
  r->nonblock = w->nonblock = flags & O_NONBLOCK;
  out[0] = install(r);
  out[1] = install(w);
  return 0;
}
static int really_close(int fd) {
  auto f = get(fd);
  fds.erase(fd);
  if (f.use_count() == 1) {
    f->release();
    for (auto* ep : f->pollers)
      for (auto it = ep->items.begin(); it != ep->items.end();) {
        if (it->first.second == f.get()) {
          ep->rdl.erase(std::remove(ep->rdl.begin(), ep->rdl.end(), it->first), ep->rdl.end());
          it = ep->items.erase(it);
        } else ++it;
      }
  }
  return 0;
}
int k_close(int fd) {
  point("close", (u64)fd);
  if (fd < 0) return fail(EBADF);
  auto f = get(fd);
  if (! f) {
    violation("fd.double-close", "close of descriptor " + std::to_string(fd) + ", which is not open");
    return fail(EBADF);
  }
  if (f->kind == 'O') {
    violation("fd.foreign-close", "close of descriptor " + std::to_string(fd) + ", which belongs to somebody else");
    fds.erase(fd);
    return 0;
  }
  int w = cur_watcher();
  // It is not, or not any longer, at the path by which it was opened, in whatever way that was noticed.
  if (w >= 0 && f->kind == 'D')
    if (auto* d = (DirFile*)f.get(); ! d->path.empty() && d->path != dir_path(inode(d->ino))) wst(w).causes++, probe("opened-elsewhere");
  if (w >= 0 && f->watcher >= 0 && f->watcher != w)
    violation("fd.foreign-close", "watcher " + std::to_string(w) + " closes descriptor " + std::to_string(fd) + " of watcher " + std::to_string(f->watcher));
  tracef("close(%d)", fd);
  f.reset();
  really_close(fd);
  if (int e = fault("close")) return fail(e);
  return 0;
}
int k_dup(int fd, int minfd, bool cloexec) {
  point("dup", (u64)fd);
  auto f = use(fd, "dup");
  if (! f) return fail(EBADF);
  if (int e = inject("dup")) return fail(e);
  int n = std::max(minfd, (int)P.get("fd_start", 3));
  while (fds.count(n)) n++;
  if (cloexec) f->cloexec = true;
  fds[n] = f;
  return n;
}
int k_fcntl(int fd, int cmd, long arg) {
  auto f = use(fd, "fcntl");
  if (! f) return fail(EBADF);
  switch (cmd) {
  case F_DUPFD: return k_dup(fd, (int)arg, false);
  case F_DUPFD_CLOEXEC: return k_dup(fd, (int)arg, true);
  case F_GETFD: return f->cloexec ? FD_CLOEXEC : 0;
  case F_SETFD: f->cloexec = arg & FD_CLOEXEC; return 0;
  case F_GETFL: return f->nonblock ? O_NONBLOCK : 0;
  case F_SETFL: f->nonblock = arg & O_NONBLOCK; return 0;
  }
  return fail(EINVAL);
}
int k_ioctl(int fd, unsigned long req, void* arg) {
  auto f = use(fd, "ioctl");
  if (! f) return fail(EBADF);
  if (req == FIONREAD && f->kind == 'I') {
    size_t n = 0;
    for (auto& e : ((Inotify*)f.get())->q) n += in_size(e);
    *(int*)arg = (int)n;
    return 0;
  }
  if (req == FIONREAD && f->kind == 'F') {
    size_t n = 0;
    for (auto& e : ((Fanotify*)f.get())->q) n += fan_size((Fanotify*)f.get(), e, nullptr);
    *(int*)arg = (int)n;
    return 0;
  }
  return fail(EINVAL);
}
int k_open_by_handle_at(int mfd, void* h, int flags) {
  point("open_by_handle_at", 1);
  if (auto* x = (struct file_handle_*)h; x->handle_bytes >= 8 && x->handle_bytes <= 128) {
    u32 id;
    memcpy(&id, (char*)(x + 1) + x->handle_bytes - 8, 4);
    if (Inode* n = inode((int)id); n && n->type == 'd' && ! n->dead) react(dir_path(n));
  }
  Inode* m = nullptr; // any directory of the file system meant
  int e = 0;
  if (mfd == AT_FDCWD) m = resolve(".", true, &e);
  else if (auto f = use(mfd, "open_by_handle_at"); f && f->kind == 'D' && ! ((DirFile*)f.get())->opath) m = inode(((DirFile*)f.get())->ino);
  if (! m) return fail(mfd == AT_FDCWD ? ESTALE : EBADF);
  auto* fh = (struct file_handle_*)h;
  if (fh->handle_bytes < 8 || fh->handle_bytes > 128) return fail(EINVAL);
  if (int fe = inject("open_by_handle_at", nullptr)) return fail(fe);
  if (fh->handle_bytes != handle_size(m->fs) || fh->handle_type != handle_type(m->fs)) return fail(ESTALE);
  u32 id[2];
  memcpy(id, (char*)(fh + 1) + fh->handle_bytes - 8, 8);
  std::string same(fh->handle_bytes, 0);
  Inode* n = inode((int)id[0]);
  if (n && n->fs != m->fs) { probe("handle-of-another-file-system"); n = nullptr; }
  if (n) handle_of(n, same.data());
  if (! n || memcmp(same.data(), fh + 1, same.size()) || n->gone) { probe("stale-handle"); return fail(ESTALE); }
  auto f = std::make_shared<DirFile>();
  f->kind = n->type == 'd' ? 'D' : 'P';
  f->ino = n->id;
  f->opath = flags & O_PATH;
  f->cloexec = flags & O_CLOEXEC;
  hold(n);
  return install(f);
}
int k_name_to_handle_at(int dfd, char const* path, void* h, int* mid, int flags) {
  point("name_to_handle_at", 1);
  auto* fh = (struct file_handle_*)h;
  int e;
  Inode* n = nullptr;
  if ((flags & AT_EMPTY_PATH) && ! *path) { if (auto f = get(dfd); f && (f->kind == 'D' || f->kind == 'P')) n = inode(((DirFile*)f.get())->ino); e = EBADF; }
  else n = resolve(path, flags & AT_SYMLINK_FOLLOW, &e);
  if (! n) return fail(e);
  u32 z = handle_size(n->fs);
  if (fh->handle_bytes < z) return fh->handle_bytes = z, fail(EOVERFLOW);
  fh->handle_bytes = z;
  fh->handle_type = handle_type(n->fs);
  handle_of(n, (char*)(fh + 1));
  if (mid) *mid = 1 + n->fs;
  return 0;
}
static Inode* at(int dfd, char const* path, bool follow, int* e) {
  std::string p = path;
  if ((p.empty() || p[0] != '/') && dfd != AT_FDCWD) {
    auto f = get(dfd);
    if (! f || (f->kind != 'D' && f->kind != 'P')) return *e = EBADF, nullptr;
    Inode* d = inode(((DirFile*)f.get())->ino);
    if (p.empty()) return d;
    if (! d || d->type != 'd') return *e = ENOTDIR, nullptr;
    if (d->dead && p != ".") return *e = ENOENT, nullptr;
    return resolve(p, follow, e, nullptr, nullptr, d);
  }
  return resolve(p, follow, e);
}
int k_openat(int dfd, char const* path, int flags, unsigned) {
  point("open", 1);
  react(path);
  poll_looks();
  int e;
  Inode* n = at(dfd, path, ! (flags & O_NOFOLLOW), &e);
  if (int fe = inject(flags & O_DIRECTORY ? "opendir" : "open", n)) return fail(fe);
  if (! n) return fail(e);
  if ((flags & O_DIRECTORY) && n->type != 'd') return fail(ENOTDIR);
  if (n->noread && P.get("euid", 0) != 0 && ! (flags & O_PATH)) { if (cur_watcher() >= 0) oracle_hard_fault(cur_watcher(), "noread", EACCES, true, n, wst(cur_watcher()).base == n); return fail(EACCES); }
  if (n->type != 'd' && ! (flags & O_PATH)) return fail(n->type == 'l' ? ELOOP : EACCES);
  auto f = std::make_shared<DirFile>();
  f->kind = n->type == 'd' ? 'D' : 'P';
  f->ino = n->id;
  f->opath = flags & O_PATH;
  f->cloexec = flags & O_CLOEXEC;
  if (path[0] == '/') f->path = path;
  hold(n);
  return install(f);
}

SimDir* k_fdopendir(int fd) {
  auto f = use(fd, "fdopendir");
  if (! f) return fail(EBADF), nullptr;
  if (f->kind != 'D') return fail(ENOTDIR), nullptr;
  if (((DirFile*)f.get())->opath) return fail(EBADF), nullptr;
  if (int fe = inject("fdopendir", inode(((DirFile*)f.get())->ino))) return fail(fe), nullptr;
  auto* d = new SimDir;
  d->fd = fd;
  d->ino = ((DirFile*)f.get())->ino;
  return d;
}
SimDir* k_opendir(char const* path) {
  int fd = k_openat(AT_FDCWD, path, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
  if (fd < 0) return nullptr;
  if (auto f = get(fd)) if (Inode* n = inode(((DirFile*)f.get())->ino)) notify_self(n, IN_OPEN);
  SimDir* d = k_fdopendir(fd);
  if (! d) { int e = errno; (void)k_close(fd); errno = e; }
  return d;
}
dirent* k_readdir(SimDir* d) {
  if (d->magic != SIMDIR_MAGIC) { violation("fd.bad-dir-stream", "readdir on a directory stream that is not open"); errno = EBADF; return nullptr; }
  Inode* n = inode(d->ino);
  size_t part = (size_t)P.get("dents", 0); // so many are read at once
  if (! d->loaded || (part && d->pos >= d->limit)) {
    point("readdir", 1);
    react_at(d->fd);
    while (n->lock != -1 && n->lock != self->id) block_until([n] { return n->lock == -1; }, NEVER, "readdir");
    if (int e = inject("readdir", n)) { errno = e; return nullptr; }
    long ord = P.get("readdir_order", 0);
    if (! d->loaded) {
      d->ents.push_back({".", n->id});
      d->ents.push_back({"..", n->parent});
      std::vector<std::string> o = n->order;
      if (ord == 1) std::reverse(o.begin(), o.end());
      if (ord == 2) std::sort(o.begin(), o.end());
      for (auto& k : o) d->ents.push_back({k, n->kids[k]});
    } else { // what has gone meanwhile is not found, what has come may or may not be
      std::set<std::string> known;
      for (size_t i = 0; i < d->ents.size(); i++) {
        auto k = n->kids.find(d->ents[i].first);
        if (i >= d->pos && i >= 2) {
          if (k == n->kids.end()) { d->ents.erase(d->ents.begin() + (long)i--), probe("listing-entry-gone"); continue; }
          d->ents[i].second = k->second;
        }
        known.insert(d->ents[i].first);
      }
      if (P.get("dents_new", 0))
        for (auto& k : n->order) if (! known.count(k)) d->ents.push_back({k, n->kids[k]}), probe("listing-entry-new");
    }
    if (n->dead) d->ents.resize(std::min(d->ents.size(), d->pos)); // ENOENT, of which the C library makes the end
    d->loaded = true;
    d->limit = part ? d->pos + part : d->ents.size();
  }
  if (d->pos >= d->ents.size()) return nullptr;
  auto& e = d->ents[d->pos++];
  memset(&d->de, 0, sizeof d->de);
  d->de.d_ino = (ino_t)e.second;
  Inode* k = inode(e.second);
  d->de.d_type = ! k ? DT_UNKNOWN : k->type == 'd' ? DT_DIR : k->type == 'l' ? DT_LNK : k->type == 'p' ? DT_FIFO : DT_REG;
  if (P.get("dt_unknown", 0)) { d->de.d_type = DT_UNKNOWN; count_fault("readdir.dt_unknown", 0); }
  d->de.d_reclen = sizeof d->de;
  snprintf(d->de.d_name, sizeof d->de.d_name, "%s", e.first.c_str());
  return &d->de;
}
int k_closedir(SimDir* d) {
  if (d->magic != SIMDIR_MAGIC) { violation("fd.bad-dir-stream", "closedir on a directory stream that is not open"); return fail(EBADF); }
  d->magic = 0xdead;
  int r = k_close(d->fd);
  // the stream object is leaked on purpose, so that a second closedir is recognised
  return r;
}
int k_dirfd(SimDir* d) { return d->fd; }

static void fill_stat(Inode* n, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_dev = 0x51 + (dev_t)n->fs;
  st->st_ino = (ino_t)n->id;
  st->st_mode = (n->type == 'd' ? S_IFDIR | 0755 : n->type == 'l' ? S_IFLNK | 0777 : n->type == 'p' ? S_IFIFO | 0644 : S_IFREG | 0644);
  st->st_nlink = n->type == 'd' ? (n->dead ? 0 : 2) : (nlink_t)n->nlink;
  st->st_mtim.tv_sec = n->mtime / 1000000000;
  st->st_mtim.tv_nsec = n->mtime % 1000000000;
  st->st_size = 1;
}
int k_statat(int dfd, char const* path, struct stat* st, bool follow, bool empty_ok) {
  point("stat", follow);
  if (path && *path) react(path);
  else react_at(dfd);
  poll_looks();
  int e = 0;
  Inode* n;
  if ((! path || ! *path) && empty_ok) {
    auto f = use(dfd, "fstat");
    if (! f) return fail(EBADF);
    n = f->kind == 'D' || f->kind == 'P' ? inode(((DirFile*)f.get())->ino) : nullptr;
    if (! n) { memset(st, 0, sizeof *st); st->st_mode = S_IFREG; return 0; }
  } else n = at(dfd, path, follow, &e);
  if (int fe = inject("stat", n)) return fail(fe);
  if (! n) return fail(e);
  fill_stat(n, st);
  return 0;
}
static int k_statfs_of(Inode* n, int e, struct statfs* st) {
  if (int fe = inject("statfs", n)) return fail(fe);
  if (! n) return fail(e);
  memset(st, 0, sizeof *st);
  st->f_type = 0xef53;
  st->f_bsize = st->f_frsize = 4096;
  st->f_blocks = 1 << 20;
  st->f_bfree = st->f_bavail = 1 << 19;
  st->f_files = 1 << 20;
  st->f_ffree = 1 << 19;
  st->f_namelen = NAME_MAX;
  fsid_of(n->fs, &st->f_fsid);
  return 0;
}
int k_statfs(char const* path, struct statfs* st) {
  point("statfs", 1);
  react(path);
  int e = 0;
  Inode* n = resolve(path, true, &e);
  return k_statfs_of(n, e, st);
}
int k_fstatfs(int fd, struct statfs* st) {
  point("statfs", 2);
  auto f = use(fd, "fstatfs");
  if (! f) return fail(EBADF);
  Inode* n = f->kind == 'D' || f->kind == 'P' ? inode(((DirFile*)f.get())->ino) : nullptr;
  return k_statfs_of(n, EBADF, st);
}
int k_access(int dfd, char const* path, int) {
  point("access", 1);
  int e;
  Inode* n = at(dfd, path, true, &e);
  return n ? 0 : fail(e);
}
ssize_t k_readlinkat(int dfd, char const* path, char* buf, size_t len) {
  point("readlink", 1);
  if (int fd; sscanf(path, "/proc/self/fd/%d", &fd) == 1) react_at(fd);
  else react(path);
  std::string out;
  int fd;
  Inode* subj = nullptr;
  if (sscanf(path, "/proc/self/fd/%d", &fd) == 1 || sscanf(path, "/dev/fd/%d", &fd) == 1 || sscanf(path, "/proc/thread-self/fd/%d", &fd) == 1) {
    if (int e = inject("readlink", nullptr)) return fail(e);
    auto f = use(fd, "readlink");
    if (! f) return fail(ENOENT);
    if (f->kind == 'D' || f->kind == 'P') {
      subj = inode(((DirFile*)f.get())->ino);
      out = dir_path(subj);
      if (subj->type != 'd') out = "/?";
      if (subj->dead) { out += " (deleted)"; probe("readlink-deleted"); }
      // Who looks finds that it is not (any longer) what was opened.
      if (auto& p = ((DirFile*)f.get())->path; ! p.empty() && p != out)
        if (int w = cur_watcher(); w >= 0) wst(w).causes++, probe("opened-elsewhere");
    } else out = "anon_inode:[x]";
    if (out.size() >= PATH_MAX) { too_long("readlink", subj); return fail(ENAMETOOLONG); }
  } else {
    int e;
    subj = at(dfd, path, false, &e);
    if (int fe = inject("readlink", subj)) return fail(fe);
    if (! subj) return fail(e);
    if (subj->type != 'l') return fail(EINVAL);
    out = subj->target;
  }
  size_t n = std::min(len, out.size());
  memcpy(buf, out.data(), n);
  return (ssize_t)n;
}
int k_realpath(char const* path, std::string* out) {
  point("realpath", 1);
  if (path) react(path);
  int e;
  if (! path) return EINVAL;
  Inode* dir;
  std::string last;
  Inode* n = resolve(path, true, &e);
  if (int fe = inject("realpath", n)) return fail(fe), fe;
  if (! n) return fail(e), e;
  if (n->type == 'd') { *out = dir_path(n); }
  else {
    Inode* x = resolve(path, false, &e, &dir, &last);
    for (int i = 0; x && x->type == 'l' && i < 40; i++) {
      std::string t = x->target[0] == '/' ? x->target : (dir_path(dir) == "/" ? "" : dir_path(dir)) + "/" + x->target;
      x = resolve(t, false, &e, &dir, &last);
    }
    if (! dir) return ENOENT;
    *out = (dir_path(dir) == "/" ? "" : dir_path(dir)) + "/" + last;
  }
  if (out->size() >= PATH_MAX) return too_long("realpath", n), ENAMETOOLONG;
  // what was a directory's path leads through a link by now
  std::string given = path;
  if (given[0] == '/' && given.back() != '/' && (given + "/").find("/./") == given.npos && (given + "/").find("/../") == given.npos && given.find("//") == given.npos && given != *out)
    if (int w = cur_watcher(); w >= 0) wst(w).causes++;
  return 0;
}
int k_getcwd(std::string* out) {
  point("getcwd", 1);
  if (int e = inject("getcwd", nullptr)) return e;
  *out = task_cwd[0];
  return 0;
}
int k_chdir(char const* p) { point("chdir", 1); int e = do_chdir(p); return e ? fail(e) : 0; }

} // namespace sim
