// Seeded generation of plans: what is done to the tree, by whom, to which
// watchers, under which scheduling policy, and which failures are injected.
#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>

namespace sim {

namespace {
using S = std::string;

struct Shadow { // one actor's idea of the tree
  std::set<S> dirs, files;
  void erase_tree(S const& d) {
    auto in = [&](S const& x) { return x == d || x.compare(0, d.size() + 1, d + "/") == 0; };
    for (auto i = dirs.begin(); i != dirs.end();) i = in(*i) ? dirs.erase(i) : std::next(i);
    for (auto i = files.begin(); i != files.end();) i = in(*i) ? files.erase(i) : std::next(i);
  }
  void move_tree(S const& a, S const& b) {
    Shadow n;
    auto mv = [&](S const& x) { return x == a ? b : x.compare(0, a.size() + 1, a + "/") == 0 ? b + x.substr(a.size()) : x; };
    for (auto& x : dirs) n.dirs.insert(mv(x));
    for (auto& x : files) n.files.insert(mv(x));
    *this = n;
  }
};

struct Gen {
  Rng r;
  Plan p;
  std::vector<Shadow> sh;
  S base = "/w/b", out = "/w/o";
  int odd = 0;         // permille of unusual names
  bool keep_base = true;
  std::map<S, int> wt; // operation weights
  int uniq = 0;
  int calm_after = 1; // directories moved before things are left to settle; 0: never
  int moved = 0;
  int big = 0;       // which measure of this run is out of the ordinary, if any
  size_t deepest = 9;
  std::vector<S> roots; // places that mutators work in
  std::vector<S> fixed; // directories never to be removed or renamed

  explicit Gen(u64 seed) : r(seed) {}

  void op(int t, S v, std::vector<S> a = {}) {
    if ((int)p.tasks.size() <= t) p.tasks.resize(t + 1);
    p.tasks[t].push_back({v, a});
  }
  S num(long n) { return std::to_string(n); }

  S name() {
    if (odd && (int)r.below(1000) < odd) {
      switch (r.below(12)) {
      case 8: return "." + num(uniq++ % 10);
      case 9: return ".." + S(1, "ab."[r.below(3)]);
      case 10: return (r.chance(0.5) ? "a" : "b") + S(" (deleted)");
      case 0: return S(255, 'n');
      case 1: return "a b\tc";
      case 2: return "q\"uo\\te";
      case 3: return "nl\n{}";
      case 4: return "\xff\xfe" "bin";
      case 5: return "\xc3\xa9t\xc3\xa9";
      case 6: return S((size_t)r.range(200, 254), 'l') + num(uniq++ % 10);
      case 7: return S((size_t)r.range(13, 18), 'm');
      default: return "ctl\x01\x1f";
      }
    }
    static char const* n[] = {"a", "b", "c", "d", "e", "f1", "f2", "x.txt", "sub", "ab"};
    if (r.chance(0.3)) return "u" + num(uniq++);
    if (r.chance(0.06)) return (char const*[]){".git", "..data", "...", ".a"}[r.below(4)];
    return n[r.below(10)];
  }
  S dirname(S const& p) { auto i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }
  bool isfixed(S const& d) { return std::find(fixed.begin(), fixed.end(), d) != fixed.end(); }
  S some(std::set<S> const& s) {
    if (s.empty()) return "";
    auto i = s.begin();
    std::advance(i, (long)r.below(s.size()));
    return *i;
  }
  S some_in(std::set<S> const& s, S const& root) {
    std::vector<S> v;
    for (auto& x : s) if (x == root || x.compare(0, root.size() + 1, root + "/") == 0) v.push_back(x);
    return v.empty() ? "" : r.pick(v);
  }
  S movable(Shadow& h) {
    std::vector<S> v;
    for (auto& x : h.dirs) if (! isfixed(x)) v.push_back(x);
    return v.empty() ? "" : r.pick(v);
  }
  S dir_for(Shadow& h) {
    S root = r.pick(roots);
    S d = some_in(h.dirs, root);
    return d.empty() ? root : d;
  }
  static size_t depth(S const& s) { return (size_t)std::count(s.begin(), s.end(), '/'); }

  // one mutation by task t
  void mutate(int t) {
    Shadow& h = sh[t];
    int tot = 0;
    for (auto& w : wt) tot += w.second;
    int k = (int)r.below((u64)tot);
    S v;
    for (auto& w : wt) if ((k -= w.second) < 0) { v = w.first; break; }
    if (v == "create" || v == "fifo") {
      S f = dir_for(h) + "/" + name();
      if (! h.dirs.count(f)) { op(t, v, {f}); if (v == "create") h.files.insert(f); }
    } else if (v == "write") {
      S f = some(h.files);
      if (f.empty()) f = dir_for(h) + "/" + name(), op(t, "create", {f}), h.files.insert(f);
      op(t, "write", {f});
    } else if (v == "unlink") {
      S f = some(h.files);
      if (! f.empty()) op(t, "unlink", {f}), h.files.erase(f);
    } else if (v == "mkdir") {
      S d = dir_for(h) + "/" + name();
      if (! h.files.count(d) && depth(d) < deepest) op(t, "mkdir", {d}), h.dirs.insert(d);
    } else if (v == "mkdirs") {
      S d = dir_for(h);
      for (int i = r.range(2, 4); i > 0 && depth(d) < deepest; i--) { d += "/" + name(); if (h.files.count(d)) return; h.dirs.insert(d); }
      op(t, "mkdirs", {d});
      if (r.chance(0.5)) { S f = d + "/" + name(); op(t, "create", {f}); h.files.insert(f); }
    } else if (v == "rmdir") {
      S d = movable(h);
      if (d.empty()) return;
      if (r.chance(0.3)) op(t, "rmdir", {d});
      else { op(t, "rmtree", {d}); h.erase_tree(d); }
    } else if (v == "churn") { // a directory that is made, filled, and removed at once
      S d = dir_for(h) + "/" + name();
      if (h.files.count(d) || h.dirs.count(d)) return;
      op(t, "mkdir", {d});
      for (int i = r.range(0, 3); i > 0; i--) op(t, "create", {d + "/" + name()});
      op(t, "rmtree", {d});
      if (r.chance(0.5)) op(t, "mkdir", {d}), h.dirs.insert(d);
    } else if (v == "mv") { // a file
      S f = some(h.files);
      if (f.empty()) return;
      S g = dir_for(h) + "/" + name();
      if (h.dirs.count(g)) return;
      op(t, "rename", {f, g});
      h.files.erase(f);
      h.files.insert(g);
    } else if (v == "mvdir") {
      S d = movable(h);
      if (d.empty()) return;
      S q = r.chance(0.5) ? dirname(d) : dir_for(h);
      S g = q + "/" + name();
      if (g.compare(0, d.size() + 1, d + "/") == 0 || h.files.count(g) || g == d || isfixed(g)) return;
      if (h.dirs.count(g)) { if (! r.chance(0.3)) return; op(t, "rmtree", {g}); h.erase_tree(g); if (r.chance(0.5)) op(t, "mkdir", {g}); }
      op(t, "rename", {d, g});
      h.move_tree(d, g);
      moved++;
      if (r.chance(0.5)) { S f = g + "/" + name(); if (! h.dirs.count(f)) op(t, "create", {f}), h.files.insert(f); }
    } else if (v == "mvpair") { // several renames in a row, so that halves lie next to each other
      for (int i = r.range(2, 4); i > 0; i--) {
        S f = some(h.files);
        if (f.empty()) return;
        S g = (r.chance(0.4) ? out : dir_for(h)) + "/" + name();
        if (h.dirs.count(g)) continue;
        op(t, "rename", {f, g});
        h.files.erase(f);
        h.files.insert(g);
      }
    } else if (v == "swapnames") { // a -> t, b -> a, t -> b
      S a = some(h.files), b = some(h.files);
      if (a.empty() || a == b) return;
      S x = dirname(a) + "/t" + num(uniq++);
      op(t, "rename", {a, x}); op(t, "rename", {b, a}); op(t, "rename", {x, b});
    } else if (v == "xchg") {
      S a = r.chance(0.5) ? some(h.files) : movable(h), b = r.chance(0.5) ? some(h.files) : movable(h);
      if (a.empty() || b.empty() || a == b || a.compare(0, b.size() + 1, b + "/") == 0 || b.compare(0, a.size() + 1, a + "/") == 0) return;
      op(t, "xchg", {a, b});
      moved += (int)(h.dirs.count(a) + h.dirs.count(b));
      if (h.dirs.count(a) || h.dirs.count(b)) {
        S x = "/tmp-" + num(uniq++);
        h.move_tree(a, x); h.move_tree(b, a); h.move_tree(x, b);
      }
    } else if (v == "dance") { // a few directories which take each other's places, over and over
      S q = dir_for(h);
      if (depth(q) + 2 >= deepest) return;
      std::vector<S> at;
      for (int i = r.range(2, 3); i > 0; i--) at.push_back(q + "/" + name());
      if (r.chance(0.3)) at.push_back((r.chance(0.6) ? out : dir_for(h)) + "/k" + num(uniq++));
      for (auto& x : at) if (h.files.count(x) || isfixed(x)) return;
      for (size_t i = 0; i < at.size(); i++) for (size_t j = 0; j < at.size(); j++) if (i != j && at[i].compare(0, at[j].size() + 1, at[j] + "/") == 0) return;
      auto empty = [&](S const& d) { for (auto* m : {&h.dirs, &h.files}) for (auto& x : *m) if (x.compare(0, d.size() + 1, d + "/") == 0) return false; return true; };
      bool any = false;
      for (auto& x : at) if (! h.dirs.count(x) && r.chance(0.7)) op(t, "mkdir", {x}), h.dirs.insert(x), any = true;
      if (any && r.chance(0.7)) op(t, "calm");
      if (r.chance(0.6)) op(t, "rush", {num(r.range(5, 120))});
      for (int i = r.range(3, 9); i > 0; i--) {
        S x = r.pick(at), y = r.pick(at);
        bool hx = h.dirs.count(x), hy = h.dirs.count(y);
        if (! hx) { if (r.chance(0.4)) op(t, "mkdir", {x}), h.dirs.insert(x); }
        else if (r.chance(0.3)) { S f = x + "/" + name(); if (! h.dirs.count(f)) op(t, "create", {f}), h.files.insert(f); }
        else if (x == y) { if (r.chance(0.3)) op(t, "rmtree", {x}), h.erase_tree(x); }
        else if (hy && r.chance(0.5)) {
          op(t, "xchg", {x, y});
          S z = "/tmp-" + num(uniq++);
          h.move_tree(x, z); h.move_tree(y, x); h.move_tree(z, y);
          moved++;
        } else {
          if (hy && ! empty(y)) { op(t, "rmtree", {y}); h.erase_tree(y); if (r.chance(0.5)) op(t, "mkdir", {y}); }
          op(t, "rename", {x, y});
          h.move_tree(x, y);
          moved++;
        }
        if (r.chance(0.08)) op(t, "calm");
        else if (r.chance(0.15)) op(t, "rush", {num(r.range(5, 60))});
      }
      if (r.chance(0.5)) // and are gone
        for (auto& x : at) if (h.dirs.count(x)) {
          if (r.chance(0.4)) { S f = x + "/" + name(); if (! h.dirs.count(f)) op(t, "create", {f}), h.files.insert(f); }
          if (r.chance(0.5)) op(t, "rmtree", {x}), h.erase_tree(x);
          else if (r.chance(0.7)) {
            S y = (r.chance(0.3) ? out : q) + "/g" + num(uniq++);
            op(t, "rename", {x, y});
            h.move_tree(x, y);
            moved++;
          }
        }
    } else if (v == "link") {
      S f = some(h.files);
      S g = dir_for(h) + "/" + name();
      if (! f.empty() && ! h.dirs.count(g) && ! h.files.count(g)) op(t, "link", {f, g}), h.files.insert(g);
    } else if (v == "symlink") {
      S g = dir_for(h) + "/" + name();
      if (h.dirs.count(g) || h.files.count(g)) return;
      S tgt = r.chance(0.4) ? out : r.chance(0.5) ? some(h.dirs) : r.chance(0.5) ? some(h.files) : "nowhere";
      op(t, "symlink", {tgt, g});
    } else if (v == "turn") { // a directory gives way to something else of the same name
      S d = r.chance(0.4) ? movable(h) : S();
      if (d.empty()) {
        d = dir_for(h) + "/" + name();
        if (h.files.count(d) || h.dirs.count(d)) return;
        op(t, "mkdir", {d});
        h.dirs.insert(d);
      }
      if (r.chance(0.5) && depth(d) + 1 < deepest) { S c = d + "/" + name(); if (! h.files.count(c)) op(t, "mkdir", {c}), h.dirs.insert(c); }
      if (r.chance(0.5)) { op(t, "rmtree", {d}); h.erase_tree(d); }
      else {
        S g = (r.chance(0.4) ? out : dir_for(h)) + "/u" + num(uniq++);
        if (g.compare(0, d.size() + 1, d + "/") == 0) return;
        op(t, "rename", {d, g});
        h.move_tree(d, g);
        moved++;
      }
      switch (r.below(4)) {
      case 0: op(t, "create", {d}); h.files.insert(d); break;
      case 1: op(t, "fifo", {d}); break;
      default: {
        S to = r.chance(0.6) ? out : some(h.dirs), in = to + "/" + name();
        if (r.chance(0.5) && ! h.files.count(in) && depth(in) < deepest) { op(t, "mkdir", {in}); h.dirs.insert(in); }
        op(t, "symlink", {to, d});
        if (r.chance(0.6)) op(t, "create", {(h.dirs.count(in) && r.chance(0.5) ? in : to) + "/" + name()});
      }
      }
    } else if (v == "noise") {
      S f = r.chance(0.5) ? some(h.files) : some(h.dirs);
      if (! f.empty()) op(t, r.chance(0.4) ? "chmod" : "read", {f});
    } else if (v == "hold") {
      S d = movable(h);
      if (d.empty()) return;
      op(t, "hold", {d});
      op(t, "rmtree", {d});
      h.erase_tree(d);
      if (r.chance(0.5)) op(t, "sleep", {num(r.range(1, 5000))});
      if (r.chance(0.8)) op(t, "unhold", {d});
    } else if (v == "save") {
      S f = dir_for(h) + "/" + name();
      if (h.dirs.count(f) || f.size() > 200 + dirname(f).size()) return;
      op(t, "save", {f});
      h.files.insert(f);
    } else if (v == "many") {
      op(t, "many", {num(big == 4 ? r.range(300, 3000) : r.range(5, 60)), dir_for(h) + "/m" + num(uniq++) + "-"});
    } else if (v == "sleep") {
      op(t, "sleep", {num(r.chance(0.5) ? r.range(1, 100) : r.range(100, 20000))});
    }
  }

  void common() { // scheduling policy and environment, chosen anew for every run
    auto& c = p.cfg;
    bool root = r.chance(0.5);
    c["euid"] = root ? 0 : 1000;
    c["pids"] = r.chance(0.6);
    long const fh[] = {12, 16, 20, 24, 28, 32, 40, 128};
    if (r.chance(0.4)) c["fh_bytes"] = fh[r.below(8)];
    if (r.chance(0.3)) c["fh_bytes1"] = fh[r.below(8)];
    if (r.chance(0.5)) c["fsid_low"] = 1;
    if (r.chance(0.1)) c["cookie0"] = (long[]){0x7ffffff8, 0xfffffff8, 0xffff}[r.below(3)];
    if (r.chance(0.1)) c["cookie_step"] = (long[]){256, 65536, 1 << 24}[r.below(3)];
    if (r.chance(0.1)) c["wd_jump"] = (long[]){256, 1024, 32768, 65536, 1 << 20, 1 << 24}[r.below(6)];
    if (r.chance(0.1)) c["wd0"] = (long[]){250, 1020, 65530, 0x7fff0000}[r.below(4)];
    if (r.chance(0.03)) c["fd_start"] = (long[]){250, 1020, 65530, 1000000}[r.below(4)];
    if (root && r.chance(0.1)) c["fan"] = r.range(1, 3);
    switch (r.below(4)) {
    case 0: case 1: c["strat"] = 0; c["p_cont"] = (long[]){0, 300, 600, 850, 950, 990}[r.below(6)]; break;
    case 2: c["strat"] = 1; c["pct_d"] = r.range(0, 8); c["pct_len"] = (long[]){150, 500, 1500, 5000}[r.below(4)]; c["worker_prio"] = r.range(0, 2); break;
    default: c["strat"] = 3; c["starve"] = r.range(0, 4); c["p_cont"] = r.range(0, 950);
    }
    c["readdir_order"] = r.range(0, 2);
    if (r.chance(0.2)) c["dents"] = (int[]){1, 2, 3, 5, 9}[r.below(5)], c["dents_new"] = r.range(0, 1);
    c["selfdel_order"] = r.range(0, 1);
    c["ep_shuffle"] = r.range(0, 1);
    c["env_permille"] = (long[]){0, 0, 60, 200, 500}[r.below(5)];
    c["step_ns"] = (long[]){100, 1000, 1000, 10000}[r.below(4)];
    if (r.chance(0.15)) c["futex_eintr"] = 1;
    if (r.chance(0.15)) c["cv_spurious"] = 1;
    if (r.chance(0.4))
      for (int i = r.range(1, 6); i > 0; i--) p.preempts.push_back({r.range(0, 3), (int)(r.chance(0.5) ? r.below(60) : r.below(1500))});
    if (r.chance(0.25)) c["after"] = 1;
  }

  // the tree before anything is watched; every actor knows it
  Shadow world(int maxd) {
    Shadow h;
    auto add = [&](S const& d) { op(0, "setup", {d}); h.dirs.insert(d); };
    add(base);
    add(out);
    add(out + "/in");
    fixed = {base, out, "/w", out + "/in"};
    for (int i = r.range(0, maxd); i > 0; i--) {
      S d = (r.chance(0.8) ? some_in(h.dirs, base) : some_in(h.dirs, out)) + "/" + name();
      if (depth(d) + 1 < deepest) add(d);
    }
    if (big) { p.cfg["step_cap"] = 600000; p.cfg["big"] = big; }
    if (big == 1) // wide
      for (int i = r.range(100, 1200), j = 0; j < i; j++) add((r.chance(0.5) ? base : some_in(h.dirs, base)) + "/w" + num(j));
    if (big == 2 || big == 3) { // deep, or as long as paths may be
      S d = base;
      bool lng = big == 3;
      deepest = 300;
      for (int i = lng ? 15 : r.range(20, 200); i > 0; i--) {
        d += "/" + (lng ? S((size_t)r.range(240, 255), 'p') : r.chance(0.5) ? S("d") : name());
        if (d.size() > 4000) break;
        add(d);
      }
      if (lng) for (int i = 0; i < 6; i++) add(d + "/" + S((size_t)std::min<long>(255, std::max<long>(1, 4095 - (long)d.size() - r.range(-2, 40))), (char)('q' + i)));
      if (lng || r.chance(0.5)) roots.insert(roots.end(), 4, d);
    }
    if (r.chance(0.2)) // more than one file system
      for (int i = r.range(1, 3); i > 0; i--) {
        S d = r.chance(0.4) ? S("/w") : r.chance(0.3) ? base : some(h.dirs);
        op(0, "mount", {d});
        fixed.push_back(d);
      }
    // some files, made before the watch starts
    for (int i = r.range(0, 5); i > 0; i--) {
      S f = some(h.dirs) + "/" + name();
      if (f.compare(0, 5, "/w/b/") && f.compare(0, 5, "/w/o/")) continue;
      if (! h.dirs.count(f) && ! h.files.count(f)) op(0, "create", {f}), h.files.insert(f);
    }
    return h;
  }
  void actors(Shadow const& h, int n) {
    sh.assign((size_t)n, h);
    if ((int)p.tasks.size() < n) p.tasks.resize((size_t)n);
  }
  void hard_fault(int w) {
    Fault f;
    struct X { char const* site; std::vector<int> errs; bool sticky_ok; };
    static std::vector<X> xs = {
      {"eventfd", {EMFILE, ENFILE, ENOMEM}, true}, {"inotify_init", {EMFILE, ENOMEM, ENFILE}, true},
      {"inotify_add_watch", {ENOSPC, ENOMEM, EACCES, ENOENT}, true}, {"fanotify_init", {EMFILE, ENOMEM, EPERM}, true},
      {"fanotify_mark", {ENOSPC, ENOMEM, EACCES, ENOENT}, true}, {"epoll_create", {EMFILE, ENOMEM}, true},
      {"epoll_ctl", {ENOMEM, ENOSPC}, true}, {"epoll_wait", {EBADF, EINVAL, ENOMEM}, true},
      {"read.inotify", {EIO, EBADF, ENOMEM, EFAULT}, true}, {"read.fanotify", {EIO, EBADF, ENOMEM, EFAULT}, true},
      {"open_by_handle_at", {EMFILE, ENOMEM, ESTALE, EPERM}, true}, {"readlink", {ENOENT, ENAMETOOLONG, ENOMEM, EACCES}, true},
      {"opendir", {EMFILE, EACCES, ENOENT, ENOMEM}, true}, {"fdopendir", {ENOMEM}, true}, {"readdir", {EIO}, true},
      {"stat", {EACCES, ENOENT, ENOMEM}, true}, {"statfs", {EACCES, ENOMEM, EIO}, true}, {"realpath", {EACCES, ENOENT, ENOMEM}, true}, {"getcwd", {ENOENT}, true},
      {"close", {EIO, EINTR}, false},
    };
    static std::vector<X> polling = { // never that something is not there which is
      {"opendir", {EMFILE, EACCES, ENOMEM, EIO}, true}, {"fdopendir", {ENOMEM}, true}, {"readdir", {EIO}, true}, {"stat", {EACCES, ENOMEM, EIO}, true}, {"close", {EIO}, false},
    };
    auto& x = r.pick(p.glue.compare(0, 7, "warthog") ? xs : polling);
    f.site = x.site;
    f.err = r.pick(x.errs);
    f.watcher = w;
    f.nth = r.chance(0.5) ? (int)r.below(3) : (int)r.below(14);
    f.count = x.sticky_ok && r.chance(0.5) ? -1 : 1;
    p.faults.push_back(f);
  }
  void soft_faults(int w) {
    for (int i = r.range(1, 5); i > 0; i--) {
      Fault f;
      f.site = (char const*[]){"epoll_wait", "epoll_wait.blocked", "read.inotify", "read.fanotify", "epoll_wait.blocked"}[r.below(5)];
      f.watcher = w;
      f.nth = (int)r.below(12);
      f.count = r.range(1, 3);
      f.err = f.site[0] == 'r' && r.chance(0.5) ? EAGAIN : EINTR;
      p.faults.push_back(f);
    }
  }
  void reactions() { // somebody does something the moment it looks
    p.cfg["react"] = 1;
    p.cfg["react_out"] = r.range(0, 1);
    int most = (int[]){8, 30, 120, 400}[r.below(4)];
    for (int i = r.range(1, 8); i > 0; i--) {
      Fault f;
      f.site = "react";
      f.nth = (int)r.below((u64)most);
      f.err = (r.chance(0.25) ? r.range(11, 13) : r.range(1, 11)) + (r.chance(0.25) ? 20 : 0);
      f.count = r.chance(0.9) ? 1 : 2;
      p.faults.push_back(f);
    }
  }
  void mutations(int t, int n) {
    if (big == 5) n *= r.range(5, 60); // a long history
    for (int i = 0; i < n; i++) {
      mutate(t);
      if (calm_after && moved >= calm_after) {
        if (r.chance(0.4)) mutate_plain(t, r.range(1, 6));
        op(t, "calm");
        moved = 0;
      }
    }
  }
  void mutate_plain(int t, int n) { // no directory moves
    auto keep = wt;
    for (auto x : {"mvdir", "xchg", "turn", "dance"}) wt.erase(x);
    if (! wt.empty()) while (n-- > 0) mutate(t);
    wt = keep;
  }
  // how long to wait after opening
  void after_open(int w, int ready_bias) {
    int k = (int)r.below(100);
    if (k < ready_bias) op(0, "ready", {num(w)});
    else if (k < ready_bias + 10) op(0, "live", {num(w)});
    else if (k < ready_bias + 15) op(0, "sleep", {num(r.range(0, 300))});
  }
  S spelled(S b) { // the same directory, written differently
    switch (r.below(12)) {
    case 0: return b + "/";
    case 1: return b + "/.";
    case 2: return "/w/./b" + b.substr(4);
    case 3: return "/w//b" + b.substr(4);
    case 4: return "/w/o/../b" + b.substr(4);
    case 5: if (b == "/w/b" && r.chance(0.3)) return "/"; return b;
    default: return b;
    }
  }
};

void mixes(Gen& g, S const& profile) {
  auto& w = g.wt;
  if (profile == "grow") w = {{"mkdir", 6}, {"mkdirs", 8}, {"create", 3}, {"rmdir", 3}, {"churn", 4}, {"mvdir", 5}, {"symlink", 1}, {"sleep", 3}, {"write", 1}, {"turn", 2}, {"dance", 1}};
  else if (profile == "rename") w = {{"mkdir", 3}, {"mkdirs", 2}, {"create", 5}, {"write", 3}, {"unlink", 2}, {"mv", 6}, {"mvdir", 8}, {"mvpair", 4}, {"swapnames", 2}, {"xchg", 2}, {"turn", 1}, {"save", 2}, {"churn", 1}, {"sleep", 3}, {"rmdir", 1}, {"dance", 2}};
  else w = {{"create", 7}, {"write", 7}, {"unlink", 4}, {"mkdir", 4}, {"mkdirs", 2}, {"rmdir", 2}, {"churn", 3}, {"mv", 3}, {"mvdir", 2}, {"mvpair", 1}, {"link", 1}, {"symlink", 2}, {"noise", 3}, {"hold", 1}, {"save", 2}, {"many", 1}, {"sleep", 3}, {"fifo", 1}, {"xchg", 1}, {"turn", 1}};
  // swarm: leave some kinds out of each run
  if (g.r.chance(0.6))
    for (auto i = w.begin(); i != w.end();) i = i->first != "create" && g.r.chance(0.3) ? w.erase(i) : std::next(i);
}
} // namespace

static std::set<S> const PROFILES = {
  "basic", "rename", "grow", "life", "close", "intr", "fail", "leak", "overflow", "multi", "fallback", "time", "mem", "race", "cwd",
  "json", "warthog", "cbasic", "clife", "cfail", "cmulti", "cli", "bindbasic", "bindlife", "bindclose", "bindfail", "bindmulti", "bindodd"};
bool profile_exists(S const& p) { return PROFILES.count(p); }

void gen_special(Plan& p, Rng& r); // profiles of the other interfaces

Plan generate(S const& prop, S const& profile, S const& glue, u64 seed) {
  Gen g(seed * 1000003 + 17);
  auto& r = g.r;
  auto& p = g.p;
  p.prop = prop; p.profile = profile; p.glue = glue; p.seed = seed;
  p.tasks.resize(1);
  S prof = profile;
  if (prof == "cbasic") prof = r.chance(0.5) ? "basic" : "rename";
  if (prof == "clife") prof = r.chance(0.3) ? "close" : "life";
  if (prof == "cfail") prof = r.chance(0.5) ? "fail" : "leak";
  if (prof == "cmulti") prof = "multi";
  bool want_odd = prof == "bindodd";
  bool bind = prof.compare(0, 4, "bind") == 0; // through a language binding
  if (bind) prof = prof == "bindbasic" ? (r.chance(0.5) ? "basic" : "rename") : prof == "bindlife" || prof == "bindodd" ? "life" : prof == "bindclose" ? "close" : prof == "bindmulti" ? "multi" : r.chance(0.5) ? "fail" : "leak";
  if (prof == "mem" ) { S v[] = {"basic", "rename", "fail", "overflow", "intr", "life"}; prof = v[r.below(6)]; g.odd = 300; p.cfg["memory"] = 1; }
  if (prof == "json") { prof = r.chance(0.6) ? "basic" : "rename"; g.odd = 700; p.cfg["json"] = 1; }
  if (prof == "race") { S v[] = {"basic", "life", "close", "multi", "fail"}; prof = v[r.below(5)]; }
  g.common();
  g.roots = {g.base, g.base, g.base, g.base, g.out};
  p.cfg["watchers"] = 1;
  if (prof == "grow") {
    g.roots = {g.base, g.base, g.base, g.base, g.base, g.out};
    if (r.chance(0.3)) p.cfg["dt_unknown"] = 1;
  }
  if (r.chance(prof == "cli" || prof == "py" ? 0.6 : 0.12)) g.odd = std::max(g.odd, 150);
  mixes(g, prof);
  g.calm_after = (int[]){1, 1, 2, 2, 0}[r.below(5)];
  if ((prof == "overflow" || prof == "fail" || prof == "leak") && r.chance(0.8))
    for (auto x : {"mvdir", "xchg", "turn", "dance"}) g.wt.erase(x);
  if (r.chance(0.006) && prof != "overflow") g.big = r.range(1, 5);
  if (glue.compare(0, 7, "warthog") == 0) g.big = 0; // a scan of it takes too many steps
  bool many_actors = r.chance(0.4);
  int na = many_actors ? r.range(2, 3) : 1;

  auto standard = [&](int lo, int hi, bool with_probe) {
    Shadow h = g.world(prof == "grow" || prof == "rename" ? 8 : 5);
    g.actors(h, na);
    g.op(0, "open", {"0", g.spelled(g.base)});
    g.after_open(0, 70);
    if (na > 1) {
      g.op(0, "spawn");
      for (int t = 1; t < na; t++) g.mutations(t, r.range(lo, hi) / 2 + 1);
    }
    g.mutations(0, r.range(lo, hi));
    if (na > 1) g.op(0, "joinall");
    g.op(0, "settle");
    if (r.chance(0.4)) { g.mutations(0, r.range(1, 12)); g.op(0, "settle"); }
    if (with_probe) g.op(0, "probe");
    g.op(0, "close", {"0"});
  };

  if (prof == "basic" || prof == "rename" || prof == "grow") {
    standard(prof == "grow" ? 3 : 5, prof == "basic" ? 45 : 35, r.chance(prof == "basic" ? 0.3 : prof == "grow" ? 1.0 : 0.6));
  } else if (prof == "intr") {
    standard(5, 40, r.chance(0.3));
    g.soft_faults(0);
    p.cfg["env_permille"] = (long[]){60, 200, 500, 800}[r.below(4)];
    p.cfg["futex_eintr"] = r.range(0, 1);
    p.cfg["cv_spurious"] = r.range(0, 1);
  } else if (prof == "overflow") {
    g.wt["many"] = 3;
    p.cfg["inq_max"] = r.range(3, 40);
    p.cfg["fan_max"] = p.cfg["inq_max"];
    standard(10, 60, r.chance(0.7));
  } else if (prof == "life" || prof == "close") {
    Shadow h = g.world(4);
    g.actors(h, std::max(na, prof == "close" ? 2 : 1));
    na = (int)g.sh.size();
    S path = g.spelled(g.base);
    bool bad = false;
    if (prof == "life" && r.chance(0.35)) {
      bad = true;
      switch (r.below(7)) {
      case 0: path = "/w/none"; break;
      case 1: path = ""; break;
      case 2: g.op(0, "create", {"/w/o/file"}); path = "/w/o/file"; break;
      case 3: path = "/w/o/none/x"; break;
      case 4: g.op(0, "symlink", {"/w/b", "/w/link"}); path = "/w/link"; bad = false; break;
      case 5: g.op(0, "symlink", {"/w/gone", "/w/dangling"}); path = "/w/dangling"; break;
      default: path = "/w/" + S((size_t)r.range(250, 300), 'z');
      }
    }
    if (prof == "life" && r.chance(0.15)) g.op(0, "chdir", {"/w"}), path = r.chance(0.5) ? "b" : r.chance(0.5) ? "./b/" : "o/../b", bad = false;
    if (prof == "life" && r.chance(0.08)) p.cfg["fd_start"] = 0;
    if (r.chance(0.2)) g.op(0, "slow", {"0", g.num(r.range(1, 20000))});
    g.op(0, "open", {"0", path});
    bool racer = prof == "close" || (! bad && r.chance(0.4));
    int how = (int)r.below(10);
    if (how < 3) {}                                  // at once
    else if (how < 5) g.op(0, "live", {"0"});
    else if (how < 7) g.op(0, "sleep", {g.num(r.range(0, 400))});
    else g.op(0, "ready", {"0"});
    if (racer) {
      g.op(0, "spawn");
      for (int t = 1; t < na; t++) {
        if (prof == "close" && r.chance(0.5)) g.op(t, "flood", {g.num(r.range(30, 400)), g.base + "/fl" + g.num(t)});
        g.mutations(t, r.range(2, 25));
      }
      if (na == 1) { g.op(1, "flood", {g.num(r.range(30, 300)), g.base + "/fl"}); }
    }
    if (r.chance(0.4)) g.mutations(0, r.range(1, 10));
    else if (r.chance(0.3)) g.op(0, "many", {g.num(r.range(10, 120)), g.base + "/m"});
    if (r.chance(0.3)) g.op(0, "sleep", {g.num(r.range(0, 2000))});
    if (prof == "life" && ! racer && r.chance(0.4)) g.op(0, "settle");
    if (prof == "life" && r.chance(0.1)) g.op(0, "rmtree", {g.base});
    if (r.chance(0.7)) {
      g.op(0, "close", {"0"});
      for (int i = r.range(0, 2); i > 0; i--) { if (r.chance(0.5)) g.op(0, "sleep", {"50"}); g.op(0, "close", {"0"}); }
      if (r.chance(0.5)) g.op(0, "sleep", {g.num(r.range(0, 100))});
    }
    g.op(0, "destroy", {"0"});
    if (prof == "life" && r.chance(0.25)) g.hard_fault(r.chance(0.5) ? 0 : -1);
    if (r.chance(0.3)) g.soft_faults(0);
    if (prof == "close") p.cfg["step_cap"] = 120000;
  } else if (prof == "fail" || prof == "leak") {
    Shadow h = g.world(5);
    g.actors(h, na);
    p.cfg["watchers"] = prof == "leak" ? r.range(1, 3) : 1;
    int nw = (int)p.cfg["watchers"];
    if (r.chance(0.1)) p.cfg["max_watches"] = r.range(1, 8);
    if (r.chance(0.1) && p.cfg["euid"] != 0) g.op(0, "noread", {g.some_in(h.dirs, g.base), "1"});
    if (r.chance(0.1)) p.cfg["fd_start"] = 0;
    for (int w = 0; w < nw; w++) {
      if (prof == "leak" && r.chance(0.5)) g.op(0, "decoy");
      g.op(0, "open", {g.num(w), g.spelled(w == 1 ? g.out : g.base)});
      g.after_open(w, 60);
      if (prof == "leak" && r.chance(0.3)) g.op(0, "decoy");
      if (prof == "leak" && w + 1 < nw && r.chance(0.4)) { g.op(0, r.chance(0.5) ? "close" : "destroy", {g.num(w)}); }
    }
    if (na > 1) {
      g.op(0, "spawn");
      for (int t = 1; t < na; t++) g.mutations(t, r.range(2, 15));
    }
    g.mutations(0, r.range(3, 25));
    if (prof == "leak" && r.chance(0.3)) g.op(0, "many", {g.num(r.range(20, 80)), g.base + "/m"});
    if (na > 1) g.op(0, "joinall");
    g.op(0, "settle");
    if (r.chance(0.5)) { g.mutations(0, r.range(1, 10)); g.op(0, "settle"); }
    if (r.chance(0.5)) g.op(0, "probe");
    if (prof == "leak") {
      if (r.chance(0.3)) p.cfg["end_bare"] = 1;
      if (r.chance(0.4)) g.hard_fault(-1);
    } else for (int i = r.chance(0.2) ? r.range(2, 3) : 1; i > 0; i--) g.hard_fault(0);
    if (r.chance(0.2)) g.soft_faults(0);
  } else if (prof == "multi") {
    Shadow h = g.world(5);
    int nw = r.range(2, 4);
    p.cfg["watchers"] = nw;
    std::vector<S> where;
    bool wanders = r.chance(0.12); // what is watched may be moved
    if (wanders) p.cfg["adrift"] = 1;
    for (int w = 0; w < nw; w++) {
      S d = r.chance(0.4) ? g.base : r.chance(0.4) ? g.out : g.some(h.dirs);
      where.push_back(d);
      if (wanders) continue;
      g.fixed.push_back(d);
      // the path to it must not be moved either
      for (S x = d; x.size() > 2; x = g.dirname(x)) g.fixed.push_back(x);
    }
    g.roots = {g.base, g.base, g.out};
    int n = r.range(1, 3);
    g.actors(h, n);
    bool spawned = n == 1;
    for (int w = 0; w < nw; w++) {
      if (! spawned && r.chance(0.3)) g.op(0, "spawn"), spawned = true;
      int t = r.chance(0.7) || n == 1 || (bind && glue != "py") ? 0 : r.range(1, n - 1);
      g.op(t, "open", {g.num(w), where[(size_t)w]});
      if (r.chance(0.5) && t == 0) g.after_open(w, 60);
      if (r.chance(0.2)) g.op(0, "slow", {g.num(w), g.num(r.range(10, 5000))});
    }
    if (! spawned) g.op(0, "spawn");
    for (int t = 1; t < n; t++) {
      g.mutations(t, r.range(2, 15));
      if ((! bind || glue == "py") && r.chance(0.4)) { int w = r.range(0, nw - 1); g.op(t, r.chance(0.5) ? "close" : "destroy", {g.num(w)}); g.mutations(t, r.range(0, 6)); }
    }
    g.mutations(0, r.range(3, 20));
    if (r.chance(0.4)) { int w = r.range(0, nw - 1); g.op(0, "destroy", {g.num(w)}); g.mutations(0, r.range(1, 10)); }
    g.op(0, "joinall");
    g.op(0, "settle");
    if (r.chance(0.4)) { g.op(0, "close", {g.num(r.range(0, nw - 1))}); g.mutations(0, r.range(1, 8)); g.op(0, "settle"); }
    if (r.chance(0.4)) g.op(0, "probe");
    if (r.chance(0.2)) g.hard_fault(r.range(0, nw - 1));
    if (r.chance(0.2)) g.soft_faults(r.range(0, nw - 1));
  } else if (prof == "fallback") {
    p.cfg["euid"] = r.chance(0.85) ? 0 : 1000;
    p.cfg["fan"] = r.range(0, 4);
    if (r.chance(0.15)) {
      Fault f;
      f.site = r.chance(0.5) ? "fanotify_init" : "fanotify_mark";
      f.watcher = 0; f.nth = 0; f.count = r.chance(0.5) ? 1 : -1; f.err = f.site == "fanotify_init" ? (r.chance(0.5) ? EPERM : ENOSYS) : (r.chance(0.5) ? EXDEV : ENODEV);
      p.cfg["fan"] = 0;
      p.faults.push_back(f);
      p.cfg["refusal"] = 1;
    }
    standard(4, 30, r.chance(0.6));
  } else if (prof == "time") {
    p.cfg["text"] = 1;
    p.cfg["rt0"] = (long[]){0, 1, 9, 1000, 999999999, 1000000000, 1700000000, 4294967296, 9000000000}[r.below(9)];
    Shadow h = g.world(3);
    g.actors(h, 1);
    if (r.chance(0.3)) g.op(0, "slow", {"0", g.num(r.range(10, 3000))});
    g.op(0, "open", {"0", g.base});
    g.after_open(0, 70);
    for (int i = r.range(1, 5); i > 0; i--) {
      g.mutations(0, r.range(1, 8));
      // never far enough back to go before the epoch
      i64 lo = p.cfg["rt0"] > 100 ? -std::min(p.cfg["rt0"] / 8, 10000000l) * 1000000 : 0;
      if (r.chance(0.7)) g.op(0, "jump", {std::to_string(r.chance(0.5) ? (lo ? -(i64)r.below((u64)-lo) : 0) : (i64)r.below(4000000000ull))});
      if (r.chance(0.5)) g.op(0, "sleep", {g.num(r.range(1, 2000000))});
    }
    g.op(0, "settle");
    g.op(0, "close", {"0"});
  } else if (prof == "cwd") {
    Shadow h = g.world(4);
    g.op(0, "setup", {"/v/b"});
    g.op(0, "setup", {"/v/o"});
    g.actors(h, 1);
    g.op(0, "chdir", {r.chance(0.5) ? "/w" : "/w/o"});
    S rel = p.tasks[0].back().a[0] == "/w" ? (r.chance(0.5) ? "b" : r.chance(0.5) ? "./b" : "o/../b") : (r.chance(0.5) ? "../b" : "../b/.");
    if (r.chance(0.1)) { g.op(0, "chdir", {g.base}); rel = r.chance(0.5) ? "." : "./"; }
    if (r.chance(0.2)) p.cfg["strat"] = 1, p.cfg["worker_prio"] = 1;
    g.op(0, "open", {"0", rel});
    if (r.chance(0.8)) g.op(0, "chdir", {(char const*[]){"/v", "/", "/w/o", "/v/o"}[r.below(4)]});
    g.after_open(0, 60);
    if (r.chance(0.3)) g.op(0, "chdir", {"/v/b"});
    g.roots = {g.base};
    g.mutations(0, r.range(2, 15));
    g.op(0, "settle");
    g.op(0, "probe");
    g.op(0, "close", {"0"});
  } else if (prof == "warthog") {
    auto& c = p.cfg;
    int nw = r.chance(0.2) ? 2 : 1;
    c["watchers"] = nw;
    bool base_goes = r.chance(0.08), lose = r.chance(0.35);
    for (auto x : {"fifo", "noise"}) if (r.chance(0.7)) g.wt.erase(x);
    g.wt["sleep"] = 6;
    g.calm_after = 0;
    if (r.chance(0.3)) c["dt_unknown"] = 1;
    Shadow h = g.world(r.chance(0.3) ? 0 : 6);
    g.actors(h, na);
    if (r.chance(0.2)) { S rel[] = {"b", "./b", "o/../b"}; g.op(0, "chdir", {"/w"}); g.op(0, "open", {"0", rel[r.below(3)]}); if (r.chance(0.7)) g.op(0, "chdir", {"/"}); }
    else g.op(0, "open", {"0", g.spelled(g.base)});
    if (nw > 1) g.op(0, "open", {"1", r.chance(0.5) ? g.out : g.base});
    if (r.chance(0.15)) g.op(0, "slow", {"0", g.num(r.range(1, 20000))});
    int how = (int)r.below(10);
    if (how < 5) g.op(0, "sleep", {g.num(r.range(20000, 80000))});
    else if (how < 7) g.op(0, "live", {"0"});
    if (na > 1) {
      g.op(0, "spawn");
      for (int t = 1; t < na; t++) g.mutations(t, r.range(3, 25));
    }
    for (int i = r.range(1, 4); i > 0; i--) {
      g.mutations(0, r.range(1, 14));
      if (r.chance(0.15) && c["euid"] != 0) {
        S d = g.some_in(g.sh[0].dirs, g.base);
        if (! d.empty() && (d != g.base || base_goes)) { g.op(0, "noread", {d, "1"}); g.mutations(0, r.range(0, 4)); if (r.chance(0.7)) g.op(0, "noread", {d, "0"}); }
      }
      if (r.chance(0.5)) g.op(0, "sleep", {g.num(r.range(100, 70000))});
      if (r.chance(0.1)) g.op(0, "jump", {std::to_string((long)r.below(8000000000ull) - 4000000000l)});
      if (r.chance(0.3)) g.op(0, "settle");
    }
    if (na > 1) g.op(0, "joinall");
    if (r.chance(0.7)) g.op(0, "settle");
    if (base_goes) { g.op(0, r.chance(0.5) ? "rmtree" : "rename", {g.base, "/w/elsewhere"}); if (r.chance(0.5)) g.op(0, "sleep", {g.num(r.range(0, 50000))}); if (r.chance(0.3)) g.op(0, "mkdir", {g.base}); if (r.chance(0.7)) g.op(0, "settle"); }
    if (r.chance(0.8)) g.op(0, "close", {"0"});
    if (lose) for (int i = r.range(1, 3); i > 0; i--) g.hard_fault(nw > 1 ? r.range(0, 1) : 0);
    if (r.chance(0.2)) p.faults.push_back({"sleep", -1, 0, r.range(1, 6), EINTR});
  } else if (prof == "cli") {
    static long double const unit[] = {1, 1e3L, 1e6L, 1e9L, 60e9L, 3600e9L, 86400e9L, 7 * 86400e9L, 30 * 86400e9L, 365 * 86400e9L};
    auto& c = p.cfg;
    S path = g.spelled(g.base);
    if (r.chance(0.15)) g.op(0, "cli", {r.chance(0.3) ? "-h" : r.chance(0.3) ? "--help" : "/w/none", r.chance(0.5) ? "" : "50"});
    Shadow h = g.world(4);
    g.actors(h, na);
    if (r.chance(0.6)) { // for some time
      int u = (int)r.below(10);
      long double d = powl(10.0L, 3.0L + (long double)r.below(1500) / 100); // 1 us to 30 years
      if (r.chance(0.5)) d = powl(10.0L, 5.0L + (long double)r.below(500) / 100); // 100 us to 10 s
      if (r.chance(0.5)) while (u > 0 && unit[u] > d) u--;
      c["cli_unit"] = u;
      c["cli_time"] = std::max<long>(1, (long)(d / unit[u]));
      if (r.chance(0.04)) { c["cli_unit"] = r.range(0, 9); c["cli_time"] = (long)(r.next() >> (1 + r.below(8))); c["rt0"] = 0; }
      c["cli_form"] = r.range(0, 1);
      if (r.chance(0.3)) p.faults.push_back({"sleep", r.chance(0.5) ? -1 : 0, 0, r.range(1, 6), EINTR});
    } else if (r.chance(0.2)) { g.op(0, "chdir", {g.base}); path = "."; c["cli_nopath"] = 1; }
    if (r.chance(0.2)) g.op(0, "slow", {"0", g.num(r.range(1, 20000))});
    g.op(0, "open", {"0", path});
    g.after_open(0, 60);
    if (na > 1) {
      g.op(0, "spawn");
      for (int t = 1; t < na; t++) g.mutations(t, r.range(2, 12));
    }
    for (int i = r.range(1, 4); i > 0; i--) {
      g.mutations(0, r.range(1, 10));
      if (r.chance(0.3)) g.op(0, "sleep", {g.num(r.range(1, 2000000))});
      if (r.chance(0.15)) g.op(0, "jump", {std::to_string((long)r.below(8000000000ull) - 4000000000l)});
      if (r.chance(0.3)) g.op(0, "settle");
    }
    if (na > 1 && r.chance(0.7)) g.op(0, "joinall");
    if (r.chance(0.6)) g.op(0, "settle");
    if (! c.count("cli_unit") && r.chance(0.4)) { g.op(0, "stdin", {r.chance(0.5) ? "\n" : "quit\n"}); g.mutations(0, r.range(0, 6)); }
    g.op(0, "close", {"0"});
    if (r.chance(0.15)) g.hard_fault(0);
    if (r.chance(0.2)) g.soft_faults(0);
  } else gen_special(p, r);
  if (! bind && (prof == "basic" || prof == "life" || prof == "close" || prof == "multi" || prof == "leak" || prof == "race") && r.chance(0.05)) { // what is watched is moved
    p.cfg["adrift"] = 1;
    auto& t = p.tasks[0];
    size_t from = 0;
    for (size_t i = 0; i < t.size(); i++) if (t[i].verb == "open") { from = i; break; }
    size_t at = from + 1 + r.below(t.size() - from);
    S away = r.chance(0.5) ? "/w/away" : g.out + "/away";
    if (r.chance(0.5)) t.insert(t.begin() + (long)(at + r.below(t.size() - at + 1)), Op{"rename", {away, g.base}});
    else if (r.chance(0.3)) t.insert(t.begin() + (long)at, Op{"mkdir", {g.base}});
    t.insert(t.begin() + (long)at, Op{"rename", {g.base, away}});
    if (r.chance(0.3)) t.insert(t.begin() + (long)at, Op{"ready", {"0"}});
  }
  if (! bind && r.chance(prof == "grow" || prof == "warthog" ? 0.35 : prof == "basic" || prof == "rename" || prof == "multi" || prof == "race" || prof == "fallback" || prof == "life" || prof == "leak" || prof == "mem" || prof == "cbasic" || prof == "clife" || prof == "cmulti" || prof == "cli" || prof == "overflow" || prof == "json" ? 0.16 : 0)) g.reactions();
  if (bind) { // its user takes events now and then
    auto& t = p.tasks[0];
    size_t from = 0;
    for (size_t i = 0; i < t.size(); i++) if (t[i].verb == "open") { from = i; break; }
    for (int i = r.range(0, 6); i > 0; i--) {
      Op o{"pump", {}};
      if (r.chance(0.5)) o = Op{"take", {g.num(r.range(1, 5))}};
      t.insert(t.begin() + (long)(from + 1 + r.below(t.size() - from)), o);
    }
    if (r.chance(0.012)) { // a great deal happens before it does
      p.cfg["step_cap"] = 400000;
      size_t at = from + 1 + r.below(t.size() - from);
      t.insert(t.begin() + (long)at, Op{"many", {g.num(r.range(400, 1600)), g.base + "/all"}});
      if (r.chance(0.5)) t.insert(t.begin() + (long)at, Op{"ready", {"0"}});
    }
  }
  if (bind && r.chance(want_odd ? 1 : 0.25)) { // what can't be watched, and what hardly can
    auto& t = p.tasks[0];
    size_t from = 0;
    for (size_t i = 0; i < t.size(); i++) if (t[i].verb == "open") { from = i; break; }
    for (int i = want_odd ? r.range(3, 9) : r.range(1, 2); i > 0; i--) {
      S kind = std::vector<S>{"nul", "long", "null", "type", "fail", "plain"}[r.below(6)];
      int n = kind == "long" ? (r.chance(0.5) ? r.range(4000, 4300) : r.range(10, 9000)) : r.range(0, 40);
      t.insert(t.begin() + (long)(from + 1 + r.below(t.size() - from)), Op{"odd", {kind, g.num(n)}});
    }
  }
  if (glue == "node") {
    if (r.chance(0.2)) p.cfg["js_throw"] = r.range(1, 4);
    if (r.chance(0.06)) p.cfg["js_refuse"] = r.range(1, 6);
    if (r.chance(0.2)) p.cfg["js_close_at"] = r.range(1, 8), p.cfg["js_close_w"] = r.range(0, (int)p.get("watchers", 1) - 1);
    auto& t = p.tasks[0];
    size_t from = 0;
    for (size_t i = 0; i < t.size(); i++) if (t[i].verb == "open") { from = i; break; }
    auto some = [&](Op o) { t.insert(t.begin() + (long)(from + 1 + r.below(t.size() - from)), o); };
    if (r.chance(0.15)) some(Op{"forget", {g.num(r.range(0, (int)p.get("watchers", 1) - 1))}});
    for (int i = r.range(0, 2); i > 0; i--) some(Op{"collect", {}});
    if (r.chance(0.1)) { // its worker thread is ended
      size_t last = 0;
      for (size_t i = 0; i < t.size(); i++) if (t[i].verb == "open") last = i;
      t.insert(t.begin() + (long)(last + 1 + r.below(t.size() - last)), Op{"exit", {}});
    }
  }
  if (glue == "py") {
    p.cfg["py_how"] = r.range(0, 15);
    if (r.chance(0.2)) p.cfg["js_throw"] = r.range(1, 4);
    if (r.chance(0.2)) p.cfg["py_cycle"] = 1;
    if (r.chance(0.3)) p.cfg["py_gc_at"] = r.range(1, 150);
    auto& t = p.tasks[0];
    size_t from = 0;
    for (size_t i = 0; i < t.size(); i++) if (t[i].verb == "open") { from = i; break; }
    if (p.cfg.count("py_cycle") && r.chance(0.5)) t.insert(t.begin() + (long)(from + 1 + r.below(t.size() - from)), Op{"forget", {g.num(r.range(0, (int)p.get("watchers", 1) - 1)), g.num(r.range(1, 200))}});
    for (int i = r.range(0, 2); i > 0; i--) t.insert(t.begin() + (long)r.below(t.size() + 1), Op{"collect", {}});
    if (p.tasks.size() > 1 && r.chance(0.5)) {
      auto& u = p.tasks[1 + r.below(p.tasks.size() - 1)];
      u.insert(u.begin() + (long)(r.chance(0.5) ? u.size() : r.below(u.size() + 1)),
               Op{"also", {g.num(r.range(0, (int)p.get("watchers", 1) - 1)), g.num(r.chance(0.5) ? 0 : r.range(1000, 2000000))}});
    }
  }
  if (glue.compare(0, 7, "warthog") == 0) p.cfg["step_cap"] = 400000;
  if (glue == "rust" || glue == "node") // their paths are UTF-8
    for (auto& t : p.tasks) for (auto& o : t) if (o.verb == "open" && o.a[1].find('\xff') != S::npos) o.a[1] = g.base;
  if (glue == "c" && r.chance(0.3)) g.p.tasks[0].insert(g.p.tasks[0].begin() + (long)r.below(p.tasks[0].size() + 1), Op{"nullclose", {}});
  return p;
}

__attribute__((weak)) void gen_special(Plan&, Rng&) {}

} // namespace sim
