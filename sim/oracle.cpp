// What must hold: judged from the reports alone, against the simulated kernel's
// record of what changed and what it handed over.
#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <cstring>

namespace sim {

std::vector<WState> W;
WState& wst(int i) { return W.at((size_t)i); }
static char const* EFF[] = {"create", "delete", "modify", "move-from", "move-to"};
static char const* ET[] = {"rename", "modify", "create", "destroy", "owner", "other"};
static char const* PT[] = {"dir", "file", "hard_link", "sym_link", "watcher", "other"};

static std::string show(std::string const& s) {
  std::string e = esc(s);
  if (e.size() > 160) e = e.substr(0, 70) + "..." + e.substr(e.size() - 70);
  return e;
}
static std::string show(EvView const& e) {
  std::string s = std::string(e.effect >= 0 && e.effect < 6 ? ET[e.effect] : "?") + " " + (e.kind >= 0 && e.kind < 6 ? PT[e.kind] : "?") + " " + show(e.path);
  if (e.has_assoc) s += " -> " + show(e.apath);
  return s;
}
static std::string show(Entry const& e) {
  std::string s = "#" + std::to_string(e.id);
  for (int i = 0; i < E_N; i++) if (e.effs >> i & 1) s += std::string(" ") + EFF[i];
  Inode* d = inode(e.dirino);
  s += std::string(e.dir ? " dir " : " file ") + show((d ? dir_path(d) : "?") + "/" + e.name) + (e.fan ? " (fanotify" : " (inotify");
  if (e.read) s += ", batch " + std::to_string(e.batch) + " pos " + std::to_string(e.pos);
  else if (e.queued) s += ", never read";
  else if (e.unmasked) s += ", not asked for";
  return s + ")";
}
static std::string wname(WState const& s) { return "watcher " + std::to_string(s.idx) + " (" + show(s.given) + "): "; }

std::string watchers_dump() {
  std::string o;
  for (auto& s : W)
    if (s.opened)
      o += " [w" + std::to_string(s.idx) + (s.close_done ? " closed" : s.close_begun ? " closing" : "") + (s.n_die ? " died" : s.n_live ? " live" : "") + " queue " + std::to_string(queue_len(s.idx)) + "]";
  return o;
}

void oracle_hard_fault(int w, std::string const& site, int err, bool sticky, Inode* dir, bool base_dir) {
  if (w < 0) return;
  auto& s = wst(w);
  s.hard_faults++;
  s.causes++;
  if (s.polling) poll_fault(w, dir);
  if (site == "stat") s.stat_faults++;
  bool fatal_site = site == "read.inotify" || site == "read.fanotify" || site == "epoll_wait";
  if (sticky && fatal_site && ! s.close_begun && ! s.fatal_seq) s.fatal_seq = seq;
  (void)err; (void)base_dir;
  if (site == "open_by_handle_at" || site == "readlink") { if (! s.excuses) s.excuse_seq = seq; s.excuses += 2; }
  if (dir && dir->type == 'd') {
    std::function<void(Inode*)> t = [&](Inode* d) {
      if (! d->tainted) d->taint_seq = seq;
      d->tainted = true;
      for (auto& k : d->kids) { Inode* n = inode(k.second); if (n && n->type == 'd') t(n); }
    };
    t(dir);
  } else if (dir == nullptr && site != "open_by_handle_at" && site != "readlink") {
    s.excuses += 0;
  }
}

static bool announced_since(WState& s, u64 q) {
  for (auto& m : s.msgs) if (m.first >= q) return true;
  return false;
}

static void check_time(WState& s, i64 t, u64 m0, char const* what) {
  if (now_ns > 9000000000000000000ull) return; // beyond what nanoseconds can count
  if (! rt_in_range(t, m0, now_ns)) {
    char b[200];
    snprintf(b, sizeof b, "%s time %lld is not between %lld and %lld", what, (long long)t, (long long)((i64)m0 + rt_off), (long long)((i64)now_ns + rt_off));
    violation("time.range", wname(s) + b);
  }
}

static bool split(std::string const& p, std::string* dir, std::string* name) {
  auto i = p.rfind('/');
  if (p.empty() || p[0] != '/' || i == std::string::npos) return false;
  *dir = i == 0 ? "/" : p.substr(0, i);
  *name = p.substr(i + 1);
  return true;
}

static bool live_path_ok(WState& s, std::string const& p) {
  auto norm = [](std::string const& q) {
    std::vector<std::string> c;
    size_t i = 0;
    while (i < q.size()) {
      while (i < q.size() && q[i] == '/') i++;
      size_t j = i;
      while (j < q.size() && q[j] != '/') j++;
      std::string x = q.substr(i, j - i);
      i = j;
      if (x.empty() || x == ".") continue;
      if (x == "..") { if (! c.empty()) c.pop_back(); continue; }
      c.push_back(x);
    }
    std::string o;
    for (auto& x : c) o += "/" + x;
    return o.empty() ? std::string("/") : o;
  };
  if (s.given.empty()) return true;
  if (p == s.abs_given) return true;
  if (p.empty() || p[0] != '/') return false;
  if (norm(p) == norm(s.abs_given)) return true;
  if (s.base) for (auto& h : s.base->hist) if (h.path == norm(p)) return true;
  return false;
}

static bool exact(Entry const& e, int eff, bool dir, std::string const& d, std::string const& n) {
  return (e.left >> eff & 1) && e.read && e.dir == dir && e.name == n && path_ok(inode(e.dirino), e.chg_seq, seq, d);
}

// which of several pending changes that look the same is meant: one that was not passed over
// yet, and of which nothing was reported so far
static int rank(Entry const& e) { return (e.outside ? 8 : 0) + (e.edge ? 4 : 0) + (e.skipped ? 2 : 0) + (e.left != e.effs ? 1 : 0); }

static void overflow_check(WState& s, size_t idx) {
  for (size_t k = 0; k < s.overflow_marks.size(); k++)
    if (s.overflow_marks[k] <= idx && s.overflow_read[k] && ! s.overflow_seen[k]) {
      s.overflow_seen[k] = true;
      violation("overflow.unannounced", wname(s) + "an event after a queue overflow is reported, the overflow was not");
    }
}

// the halves of renames in a directory which left may be joined with those next to them
static char const* beside_left(WState& s, Entry const& e) {
  for (auto& o : s.ents)
    if ((o.outside || o.edge) && o.batch == e.batch && o.read) return "fanotify-moved-out-dir-still-reported";
  return nullptr;
}
// Is there another change, of a kind for which fanotify reports are known to be off, that a
// report about e could belong to just as well?
static char const* confusable(WState& s, Entry const& e) {
  if (! e.fan) {
    Inode* d = inode(e.dirino);
    return d->was_out || d->lookup_taint ? "inotify-lookup-by-name-during-pending-rename" : nullptr;
  }
  if (e.effs & (e.effs - 1)) return "fanotify-merged-effects";
  for (auto& o : s.ents)
    if (&o != &e && o.name == e.name) {
      if (o.outside || o.edge) return "fanotify-moved-out-dir-still-reported";
      if (o.effs & (o.effs - 1)) return "fanotify-merged-effects";
    }
  return beside_left(s, e);
}
// are these (possibly merged) entries the two halves of one rename?
static bool same_rename(Entry const& from, Entry const& to) {
  auto has = [](Entry const& e, int eff, int id) { return id && (e.ren[eff] == id || std::find(e.more.begin(), e.more.end(), id) != e.more.end()); };
  if (has(to, E_TO, from.ren[E_FROM])) return true;
  for (int id : from.more) if (has(to, E_TO, id)) return true;
  return false;
}
static void settle_known(char const* sig, std::string const& cls, std::string const& m) {
  if (sig) known_or_violation(sig, cls, m);
  else violation(cls, m);
}

// entry i is being reported: what was passed over? (The report may as well be about first.)
static void consume(WState& s, size_t i, int eff, size_t first = (size_t)-1) {
  Entry& e = s.ents[i];
  overflow_check(s, i);
  for (size_t j = s.head; j < std::min(i, first); j++) {
    Entry& o = s.ents[j];
    if (o.left == o.effs && o.read && ! o.outside && ! o.skipped) o.skipped = true;
  }
  if (e.skipped) settle_known(confusable(s, e), "report.order", wname(s) + show(e) + " is reported after a later change");
  e.left &= ~(1u << eff);
  while (s.head < s.ents.size() && s.ents[s.head].left == 0) s.head++;
}

// it was looked up by name while a rename was pending, and it once was there
static bool looked_up(Inode* di, std::string const& at) {
  return di->lookup_ever && std::any_of(di->hist.begin(), di->hist.end(), [&](Span const& h) { return h.path == at; });
}
// what it was opened on went away, or was moved away before it could be watched
static bool base_lost(WState& s) {
  if (s.polling) return ! s.base || poll_may_end(s.idx);
  int e;
  if (resolve(s.abs_given, true, &e) != s.base) return true; // or the link which leads there
  return ! s.base || s.base->dead || s.adrift || (s.batches == 0 && s.base->hist.back().s0 >= s.open_seq);
}
// Was this directory ever in the watched tree, or in one which was, and left?
static bool ever_inside(WState& s, Inode* of) {
  if (! s.base) return false;
  auto below = [](std::string const& p, std::string const& d) { return d == "/" || p == d || p.compare(0, d.size() + 1, d + "/") == 0; };
  std::vector<Inode*> in{s.base}, rest;
  for (auto& n : inodes) if (n && n->type == 'd' && n.get() != s.base) rest.push_back(n.get());
  for (size_t i = 0; i < in.size(); i++)
    for (auto& n : rest) {
      if (! n) continue;
      bool was = false;
      for (auto& a : in[i]->hist)
        for (auto& b : n->hist)
          if (a.s0 <= b.s1 && b.s0 <= a.s1 && below(b.path, a.path)) was = true;
      if (was) in.push_back(n), n = nullptr;
    }
  return std::find(in.begin(), in.end(), of) != in.end();
}
static void outside_check(WState& s, Entry& e, EvView const& ev) {
  if (! e.outside) return;
  std::string m = wname(s) + "'" + show(ev) + "' is reported although its directory was outside the watched tree when it changed: " + show(e);
  if (inode(e.dirino)->tainted) return; // its move was dropped by an overflow or hit by a failure
  if (e.fan && ever_inside(s, inode(e.dirino))) known_or_violation("fanotify-moved-out-dir-still-reported", "report.outside", m);
  else if (e.fan) { if (! s.adrift && ! base_lost(s)) violation("report.outside", m); }
  else if (inode(e.dirino)->lookup_taint || inode(e.dirino)->was_out) known_or_violation("inotify-lookup-by-name-during-pending-rename", "report.outside", m);
  else violation("report.outside", m);
}

static void match_single(WState& s, EvView const& ev, bool isdir, std::vector<int> effs) {
  std::string d, n;
  if (! split(ev.path, &d, &n)) { violation("path.relative", wname(s) + "reported path is not absolute: " + show(ev)); return; }
  int best = -1, beff = 0;
  size_t first = (size_t)-1;
  for (size_t i = s.head; i < s.ents.size(); i++)
    for (int f : effs)
      if (exact(s.ents[i], f, isdir, d, n) && (first = std::min(first, i), true) && (best < 0 || rank(s.ents[i]) < rank(s.ents[(size_t)best]))) best = (int)i, beff = f;
  for (size_t i = s.head; best >= 0 && i < first; i++) // or is it about an earlier one, in a directory it took for another?
    for (int f : effs) {
      Entry& e = s.ents[i];
      Inode* di = inode(e.dirino);
      if (! e.fan && (e.left >> f & 1) && e.read && e.dir == isdir && e.name == n && (di->lookup_taint || di->was_out)) first = i;
    }
  if (best >= 0) {
        size_t i = (size_t)best;
        int f = beff;
        Entry& e = s.ents[i];
        outside_check(s, e, ev);
        check_time(s, ev.time, e.chg_ns, "event");
        // both halves handed over together must be reported together
        if (f == E_FROM && e.effs == (1u << E_FROM) && ! inode(e.dirino)->gone)
          for (size_t j = i + 1; j < s.ents.size(); j++) {
            Entry& t = s.ents[j];
            if (t.batch != e.batch) { if (t.read) break; else continue; }
            if (t.pos == e.pos + 1) {
              bool between_ovf = false;
              if (t.effs == (1u << E_TO) && same_rename(e, t) && t.left && t.dir == e.dir && ! e.outside && ! t.outside && ! t.edge && ! inode(t.dirino)->was_out && ! inode(t.dirino)->lookup_taint && ! inode(t.dirino)->gone && ! between_ovf && s.hard_faults == 0)
              {
                for (size_t o = s.head; o < s.ents.size(); o++) // or it is one from outside, whose directory has come in meanwhile
                  for (int f2 : effs)
                    if (o != i && (s.ents[o].outside || s.ents[o].edge) && exact(s.ents[o], f2, isdir, d, n)) {
                      outside_check(s, s.ents[o], ev);
                      consume(s, o, f2);
                      return;
                    }
                violation("pair.split", wname(s) + "'" + show(ev) + "': the other half, " + show(t) + ", was handed over right behind it, but is not associated");
              }
              break;
            }
          }
        consume(s, i, f, first);
        return;
      }
  // why not?
  for (size_t i = s.head; i < s.ents.size(); i++)
    for (int f : effs) {
      Entry& e = s.ents[i];
      Inode* di = inode(e.dirino);
      if (! e.fan && (e.left >> f & 1) && e.read && e.dir == isdir && e.name == n && (di->lookup_taint || di->was_out)) {
        known_or_violation("inotify-lookup-by-name-during-pending-rename", "report.path", wname(s) + "'" + show(ev) + "' is reported, but the change was in " + show(dir_path(di)) + ": " + show(e));
        consume(s, i, f);
        return;
      }
    }
  for (size_t i = 0; i < s.ents.size(); i++)
    for (int f : effs) {
      Entry& e = s.ents[i];
      if ((e.effs >> f & 1) && ! (e.left >> f & 1) && e.name == n && e.dir == isdir && path_ok(inode(e.dirino), e.chg_seq, seq, d)) {
        settle_known(confusable(s, e), "report.duplicate", wname(s) + "'" + show(ev) + "' is reported again: " + show(e));
        return;
      }
    }
  for (size_t i = s.head; i < s.ents.size(); i++)
    for (int f : effs) {
      Entry& e = s.ents[i];
      if ((e.left >> f & 1) && e.read && e.dir == isdir && e.name == n) {
        Inode* di = inode(e.dirino);
        std::string m = wname(s) + "'" + show(ev) + "' is reported, but the change was in " + show(dir_path(di)) + ": " + show(e);
        if (di->tainted) {}
        else if (s.stat_faults && ev.path.find(" (deleted)") != std::string::npos) { e.left &= ~(1u << f); return; } // it could not tell
        else if (! e.fan && (di->lookup_taint || looked_up(di, d))) known_or_violation("inotify-lookup-by-name-during-pending-rename", "report.path", m);
        else if (e.outside) violation("report.outside", m);
        else violation("report.path", m);
        consume(s, i, f);
        return;
      }
    }
  for (size_t i = s.head; i < s.ents.size(); i++) {
    Entry& e = s.ents[i];
    if (e.left && e.read && e.name == n && path_ok(inode(e.dirino), e.chg_seq, seq, d)) {
      bool same = false;
      for (int f : effs) if (e.left >> f & 1) same = true;
      violation(same ? "report.kind" : "report.effect", wname(s) + "'" + show(ev) + "' is reported for " + show(e));
      e.left = 0;
      return;
    }
  }
  violation("report.fabricated", wname(s) + "'" + show(ev) + "' is reported, but no such change was made");
}

static void match_pair(WState& s, EvView const& ev, bool isdir) {
  std::string d, n, d2, n2;
  if (! split(ev.path, &d, &n) || ! split(ev.apath, &d2, &n2)) { violation("path.relative", wname(s) + "reported path is not absolute: " + show(ev)); return; }
  auto find = [&](int eff, std::string const& dd, std::string const& nn, int other, bool anykind) -> int {
    int r = -1;
    for (size_t i = s.head; i < s.ents.size(); i++) {
      Entry& e = s.ents[i];
      if (exact(e, eff, anykind ? e.dir : isdir, dd, nn) && (other < 0 || same_rename(s.ents[(size_t)other], e)) && (r < 0 || rank(e) < rank(s.ents[(size_t)r]))) r = (int)i;
    }
    return r;
  };
  int f = find(E_FROM, d, n, -1, false);
  if (f >= 0) {
    int t = find(E_TO, d2, n2, f, false);
    if (t < 0) // several pending renames of the same name: any whose halves fit
      for (size_t i = s.head; i < s.ents.size() && t < 0; i++)
        if (exact(s.ents[i], E_FROM, isdir, d, n)) { t = find(E_TO, d2, n2, (int)i, false); if (t >= 0) f = (int)i; }
    if (t >= 0) {
      if ((ev.akind != -1 && ev.akind != ev.kind) || (ev.aeffect != -1 && ev.aeffect != ev.effect)) violation("pair.fields", wname(s) + "the two halves of one rename differ in kind or effect: " + show(ev));
      outside_check(s, s.ents[f], ev);
      if (! s.ents[f].outside) outside_check(s, s.ents[t], ev);
      check_time(s, ev.time, s.ents[f].chg_ns, "event");
      check_time(s, ev.atime, s.ents[f].chg_ns, "associated event");
      size_t first = s.head;
      while (first < (size_t)f && ! exact(s.ents[first], E_FROM, isdir, d, n)) first++;
      consume(s, (size_t)f, E_FROM, first);
      // the later half is delivered early, that is what pairing means: mark it without order checks
      s.ents[t].left &= ~(1u << E_TO);
      overflow_check(s, (size_t)f);
      while (s.head < s.ents.size() && s.ents[s.head].left == 0) s.head++;
      if (t > f + 1) probe("pair-not-adjacent");
      return;
    }
    t = find(E_TO, d2, n2, -1, true);
    if (t >= 0) {
      Entry &a = s.ents[f], &b = s.ents[t];
      std::string m = wname(s) + "'" + show(ev) + "' joins two different renames: " + show(a) + " and " + show(b);
      bool adj = a.batch == b.batch && b.pos == a.pos + 1 && a.pid == b.pid && a.dir == b.dir;
      bool merged = (a.effs & (a.effs - 1)) || (b.effs & (b.effs - 1));
      if (a.fan && (adj || merged)) known_or_violation("fanotify-joins-adjacent-halves-of-different-renames", "pair.mismatch", m);
      else settle_known(confusable(s, a) ? confusable(s, a) : confusable(s, b), "pair.mismatch", m);
      consume(s, (size_t)f, E_FROM);
      s.ents[t].left &= ~(1u << E_TO);
      return;
    }
  }
  // swapped?
  int a = find(E_FROM, d2, n2, -1, false), b = find(E_TO, d, n, -1, false);
  if (a >= 0 && b >= 0) {
    bool same = same_rename(s.ents[a], s.ents[b]);
    bool adj = false;
    bool merged = (s.ents[a].effs & (s.ents[a].effs - 1)) || (s.ents[b].effs & (s.ents[b].effs - 1));
    if (! same && s.ents[a].fan && (adj || merged)) known_or_violation("fanotify-joins-adjacent-halves-of-different-renames", "pair.mismatch", wname(s) + show(ev));
    else settle_known(s.ents[a].fan ? beside_left(s, s.ents[a]) : confusable(s, s.ents[a]) ? confusable(s, s.ents[a]) : confusable(s, s.ents[b]), "pair.swapped", wname(s) + "'" + show(ev) + "' has old and new path the wrong way round: " + show(s.ents[a]) + " / " + show(s.ents[b]));
    s.ents[a].left &= ~(1u << E_FROM);
    s.ents[b].left &= ~(1u << E_TO);
    return;
  }
  // one half fits, the other does not, or neither
  bool fan = s.fan && ! s.ino;
  auto near = [&](int eff, std::string const& nn) {
    for (size_t i = s.head; i < s.ents.size(); i++)
      if ((s.ents[i].left >> eff & 1) && s.ents[i].read && s.ents[i].name == nn) return (int)i;
    return -1;
  };
  int x = near(E_FROM, n), y = near(E_TO, n2);
  std::string m = wname(s) + "'" + show(ev) + "'";
  if (x >= 0 && y >= 0 && same_rename(s.ents[x], s.ents[y])) {
    Inode *di = inode(s.ents[x].dirino), *dj = inode(s.ents[y].dirino);
    m += " is reported, but the rename was " + show(s.ents[x]) + " to " + show(s.ents[y]);
    if (di->tainted || dj->tainted) {}
    else if (! fan && (di->lookup_taint || dj->lookup_taint || di->was_out || dj->was_out || looked_up(di, d) || looked_up(dj, d2))) known_or_violation("inotify-lookup-by-name-during-pending-rename", "report.path", m);
    else if (fan && (s.ents[x].outside || s.ents[y].outside)) known_or_violation("fanotify-moved-out-dir-still-reported", "report.outside", m);
    else if ((s.ents[x].outside || s.ents[y].outside)) violation("report.outside", m);
    else violation("report.path", m);
    s.ents[x].left &= ~(1u << E_FROM);
    s.ents[y].left &= ~(1u << E_TO);
    return;
  }
  if (x >= 0 || y >= 0) {
    if (x >= 0) s.ents[x].left &= ~(1u << E_FROM);
    if (y >= 0) s.ents[y].left &= ~(1u << E_TO);
    char const* sig = x >= 0 ? confusable(s, s.ents[x]) : nullptr;
    if (! sig && y >= 0) sig = confusable(s, s.ents[y]);
    settle_known(sig, "pair.mismatch", m + " associates what does not belong together" + (x >= 0 ? ": " + show(s.ents[x]) : "") + (y >= 0 ? ": " + show(s.ents[y]) : ""));
    return;
  }
  for (auto& e : s.ents)
    if (e.name == n && (e.effs >> E_FROM & 1) && path_ok(inode(e.dirino), e.chg_seq, seq, d)) { settle_known(confusable(s, e), "report.duplicate", m + " is reported again"); return; }
  violation("report.fabricated", m + " is reported, but no such change was made");
}

void on_report(int w, EvView const& ev) {
  auto& s = wst(w);
  R->reports++;
  s.ncb++;
  tracef("REPORT w%d %s (%lld)", w, show(ev).c_str(), (long long)ev.time);
  note(0xCB00 + (u64)(ev.effect * 8 + ev.kind));
  for (char c : ev.path) R->paths_hash = R->paths_hash * 131 + (unsigned char)c;
  if (! s.opened) { violation("cb.foreign", "a callback of a watcher that was never opened"); return; }
  if (s.active_cb > 0) violation("cb.overlap", wname(s) + "two calls of the callback overlap: " + show(ev));
  s.active_cb++;
  if (self && self->worker && self->watcher != w) violation("cb.foreign", wname(s) + "its callback is called for watcher " + std::to_string(self->watcher) + ": " + show(ev));
  if (s.close_done || s.destroyed) violation("cb.late", wname(s) + "callback after close had returned: " + show(ev));
  if (s.n_die) violation("life.after-die", wname(s) + "event after the die message: " + show(ev));
  if (s.close_begun) s.cbs_after_close++;
  u64 m0 = s.open_ns;
  if (ev.kind == 4) {
    check_time(s, ev.time, m0, "message");
    if (ev.has_assoc) violation("life.msg-form", wname(s) + "a message with an associated event: " + show(ev));
    auto starts = [&](char const* p) { return ev.path.compare(0, strlen(p), p) == 0; };
    if (ev.effect == 2) {
      bool ok = starts("s/self/live@"), bad = starts("e/self/live@");
      if (! ok && ! bad) violation("life.msg-form", wname(s) + "unexpected text of the live message: " + show(ev));
      if (++s.n_live > 1) violation("life.dup-live", wname(s) + "a second live message");
      if (s.ncb != 1) violation("life.before-live", wname(s) + "the live message is not the first event");
      s.live_ok = ok;
      s.e_live = bad;
      s.live_seq = seq;
      s.live_path = ev.path.size() >= 12 ? ev.path.substr(12) : "";
      if (! live_path_ok(s, s.live_path) && ! s.hard_faults) violation("life.path", wname(s) + "live message names " + show(s.live_path) + ", opened was " + show(s.abs_given));
      if (ok && ! s.base && ! s.adrift) violation("life.live-bad-path", wname(s) + "says it is live, but the path is not a directory");
      if (bad && s.hard_faults == 0 && ! s.close_begun && ! base_lost(s)) violation("life.unexplained-error", wname(s) + "does not start, without a reason");
    } else if (ev.effect == 3) {
      bool ok = starts("s/self/die@"), bad = starts("e/self/die@");
      if (! ok && ! bad) violation("life.msg-form", wname(s) + "unexpected text of the die message: " + show(ev));
      s.n_die++;
      s.die_ok = ok;
      if (! s.n_live) violation("life.before-live", wname(s) + "a die message without a live message");
      std::string p = ev.path.size() >= 11 ? ev.path.substr(11) : "";
      if (p != s.live_path) violation("life.path", wname(s) + "die message names " + show(p) + ", the live message " + show(s.live_path));
      if (ok && s.e_live) violation("life.order", wname(s) + "died well without having lived");
      if (ok && s.got_e) violation("life.hidden-error", wname(s) + "an error was announced (" + show(s.last_msg) + "), but the die message says success");
      if (ok && s.fatal_seq) violation("life.hidden-error", wname(s) + "a fatal error came before the close, but the die message says success");
      if (ok && ! s.close_begun) violation("life.early-end", wname(s) + "ended by itself without an error");
      if (bad && s.live_ok && ! s.got_e && ! s.polling) violation("life.no-error-msg", wname(s) + "died of an error without an e/ message");
      if (bad && s.live_ok && (s.hard_faults == 0 || s.polling) && ! base_lost(s)) violation("life.unexplained-error", wname(s) + "died of an error without a reason (" + show(s.last_msg) + ")");
    } else {
      if (ev.effect != 5 || ev.path.size() < 2 || ev.path[1] != '/' || (ev.path[0] != 'w' && ev.path[0] != 'e'))
        violation("life.msg-form", wname(s) + "malformed message: " + show(ev));
      if (! s.n_live) violation("life.before-live", wname(s) + "a message before the live message: " + show(ev));
      if (s.e_live) violation("life.order", wname(s) + "a message between e/self/live and die: " + show(ev));
      s.msgs.push_back({seq, ev.path});
      s.last_msg = ev.path;
      if (ev.path[0] == 'e') {
        s.got_e = true;
        s.n_e++;
        if (s.hard_faults == 0 && ! base_lost(s)) violation("msg.spurious", wname(s) + "error message without a cause: " + show(ev));
      } else {
        s.n_w++;
        if (ev.path.find("overflow") != std::string::npos) {
          s.n_w_overflow++;
          bool found = false;
          for (size_t k = 0; k < s.overflow_marks.size() && ! found; k++)
            if (s.overflow_read[k] && ! s.overflow_seen[k]) {
              found = true;
              s.overflow_seen[k] = true;
              for (size_t i = s.head; i < s.overflow_marks[k]; i++) {
                Entry& e = s.ents[i];
                if (e.left == e.effs && e.queued && e.read && ! e.outside && ! e.skipped) {
                  Inode* di = inode(e.dirino);
                  if (e.fan && di->gone) continue;
                  e.skipped = true; // reported later: out of order; never: lost
                }
              }
            }
          if (! found) violation("overflow.spurious", wname(s) + "an overflow is announced that did not happen: " + show(ev));
        } else if (s.causes == 0) {
          violation("msg.spurious", wname(s) + "warning without a cause: " + show(ev));
        } else if (size_t at = ev.path.find("@/"); at != std::string::npos && ! s.hard_faults && ! s.polling && ev.path.find("not_watched") != std::string::npos) {
          // that something is not watched: something which was a directory once
          std::string n = ev.path.substr(at + 1);
          while (n.size() > 1 && n.back() == '/') n.pop_back();
          n = n.substr(n.rfind('/') + 1);
          bool was = n.empty() || n == "." || n == "..";
          for (auto& i : inodes)
            if (! was && i && i->type == 'd') {
              was = i->name == n;
              for (auto& h : i->hist) was = was || (h.path.size() > n.size() && h.path[h.path.size() - n.size() - 1] == '/' && h.path.compare(h.path.size() - n.size(), n.size(), n) == 0);
            }
          if (! was) violation("msg.spurious", wname(s) + "says that something is not watched which never was a directory: " + show(ev));
        }
      }
    }
    return;
  }
  if (! s.n_live) violation("life.before-live", wname(s) + "an event before the live message: " + show(ev));
  if (s.e_live) violation("life.order", wname(s) + "an event between e/self/live and die: " + show(ev));
  if (s.polling) {
    check_time(s, ev.time, m0, "event");
    poll_report(s, ev);
    return;
  }
  if (ev.kind != 0 && ev.kind != 1) { violation("report.kind", wname(s) + "path kind: " + show(ev)); return; }
  if (ev.effect < 0 || ev.effect > 3) { violation("report.fabricated", wname(s) + "neither create, modify, destroy nor rename: " + show(ev)); return; }
  if (s.adrift) return;
  if (ev.has_assoc) {
    if (ev.effect != 0) { violation("pair.fields", wname(s) + "an associated path on an event that is no rename: " + show(ev)); return; }
    match_pair(s, ev, ev.kind == 0);
  } else {
    std::vector<int> effs = ev.effect == 2 ? std::vector<int>{E_CREATE} : ev.effect == 3 ? std::vector<int>{E_DELETE}
                          : ev.effect == 1 ? std::vector<int>{E_MODIFY} : std::vector<int>{E_FROM, E_TO};
    match_single(s, ev, ev.kind == 0, effs);
  }
}
void on_report_end(int w) { wst(w).active_cb--; }

// the report of it may have been taken for that of one just like it, in a directory which is gone
static Entry* twin(WState& s, Entry const& e) {
  auto alike = [](unsigned x, unsigned y) { unsigned r = 1u << E_FROM | 1u << E_TO; return (x & y) || ((x & r) && (y & r)); }; // both halves are a "rename"
  Entry* first = nullptr;
  for (auto& o : s.ents)
    if (&o != &e && o.left != o.effs && o.name == e.name && o.dir == e.dir && alike(o.effs, e.effs) && inode(o.dirino)->gone)
      for (auto& h : inode(o.dirino)->hist)
        for (auto& k : inode(e.dirino)->hist)
          if (h.path == k.path && (! first || o.read_seq < first->read_seq)) first = &o;
  return first;
}
// everything has become quiet: whatever was handed over must have been reported
void oracle_settle(int only) {
  for (auto& s : W) {
    if (only >= 0 && s.idx != only) continue;
    if (! s.opened || s.close_begun) continue;
    if (! s.n_live) { violation("life.no-live", wname(s) + "no live message"); continue; }
    if (s.e_live && ! s.n_die) violation("life.no-die", wname(s) + "e/self/live is not followed by the die message");
    if (s.fatal_seq && ! s.n_die) violation("fault.deaf", wname(s) + "a fatal failure did not end it");
    if (s.got_e && ! s.n_die) violation("life.no-die", wname(s) + "an error was announced, but it did not end");
    if (s.n_die) {
      for (auto& t : tasks)
        if (t->worker && ! t->host && t->watcher == s.idx && ! t->done) violation("life.thread-alive", wname(s) + "its thread still runs after the die message");
      s.head = s.ents.size();
      continue;
    }
    if (! s.base) continue;
    if (s.polling) poll_settle(s);
    if (queue_len(s.idx)) violation("report.lost", wname(s) + std::to_string(queue_len(s.idx)) + " pending events are never read");
    for (size_t k = 0; k < s.overflow_marks.size(); k++)
      if (! s.overflow_seen[k]) { s.overflow_seen[k] = true; violation("overflow.unannounced", wname(s) + "a queue overflow was not announced"); }
    for (size_t i = 0; i < s.ents.size(); i++) {
      Entry& e = s.ents[i];
      if (! e.left || e.outside || e.edge || e.dropped || s.adrift) { e.left = 0; continue; }
      Inode* d = inode(e.dirino);
      if (e.left != e.effs) {
        std::string m = wname(s) + "only a part of a merged notification is reported: " + show(e);
        if (e.fan) known_or_violation("fanotify-merged-effects", "report.lost", m);
        else violation("report.lost", m);
      } else if (e.fan && d->gone) {
        u64 from = s.excuses > 0 ? std::min(e.read_seq, s.excuse_seq) : e.read_seq;
        if (Entry* o = twin(s, e)) from = std::min(from, o->read_seq);
        if (! announced_since(s, from)) violation("fault.silent", wname(s) + "an event could not be reported, and nothing was said: " + show(e));
        known_or_violation("fanotify-event-in-removed-directory", "report.lost", wname(s) + "not reported: " + show(e));
      } else if (s.excuses > 0) {
        s.excuses--;
        if (! announced_since(s, s.excuse_seq)) violation("fault.silent", wname(s) + "a failed lookup lost an event, and nothing was said: " + show(e));
      } else if (d->tainted && s.hard_faults) {
        if (! announced_since(s, d->taint_seq)) violation("fault.silent", wname(s) + "a failure lost an event, and nothing was said: " + show(e));
      } else if (! e.fan && d->was_out) {
        known_or_violation("inotify-moved-out-of-sight", "report.lost", wname(s) + "not reported: " + show(e));
      } else if (! e.fan && d->lookup_taint) {
        known_or_violation("inotify-lookup-by-name-during-pending-rename", "report.lost", wname(s) + "not reported: " + show(e));
      } else {
        char const* sig = confusable(s, e);
        if (! sig && e.fan && twin(s, e)) sig = "fanotify-event-in-removed-directory";
        settle_known(sig, "report.lost", wname(s) + "not reported: " + show(e));
      }
      e.left = 0;
    }
    s.head = s.ents.size();
    // descriptors
    std::string l;
    if (open_fds(s.idx, &l, true)) violation("fd.inheritable", wname(s) + "descriptors without close-on-exec: " + l);
    int n = open_fds(s.idx, nullptr);
    if (s.fd_base < 0) s.fd_base = n, s.fd_base_dirs = n_dirs_created;
    else if (n > s.fd_base + (n_dirs_created - s.fd_base_dirs) + 2) {
      l.clear();
      open_fds(s.idx, &l);
      violation("fd.accumulate", wname(s) + "descriptors accumulate: " + std::to_string(s.fd_base) + " then, now " + l);
    }
  }
}

void oracle_final() {
  for (auto& s : W) {
    if (! s.opened) continue;
    if (s.n_live != 1 && ! R->nviol) violation("life.no-live", wname(s) + "live messages: " + std::to_string(s.n_live));
    if (s.n_die != 1 && ! R->nviol) violation("life.no-die", wname(s) + "die messages: " + std::to_string(s.n_die));
  }
  std::string which;
  if (! decoys_intact(&which)) violation("fd.foreign-close", "a descriptor that belongs to somebody else was closed: " + which);
}

} // namespace sim

using namespace sim;
extern "C" void sim_event_n(int w, char const* path, size_t n, int effect, int kind, long long t,
                            int has_assoc, char const* apath, size_t an, int aeffect, int akind, long long atime) {
  if (! self) { fprintf(stderr, "sim: callback outside the simulation\n"); return; }
  Internal in;
  EvView e;
  e.path.assign(path ? path : "", path ? n : 0);
  e.effect = effect; e.kind = kind; e.time = t;
  e.has_assoc = has_assoc;
  if (has_assoc) { e.apath.assign(apath ? apath : "", apath ? an : 0); e.aeffect = aeffect; e.akind = akind; e.atime = atime; }
  auto& s = wst(w);
  on_report(w, e);
  // the user's callback takes its time
  point("callback", (u64)w);
  if (long us = P.get(("slow" + std::to_string(w)).c_str(), 0)) {
    count_fault("callback.slow", 0);
    block_until(nullptr, now_ns + (u64)us * 1000, "slow callback");
  }
  if (s.n_die == 0 || kind == 4) on_report_end(w); else on_report_end(w);
}
extern "C" void sim_event(int w, char const* path, int effect, int kind, long long t, int has_assoc, char const* apath, int aeffect, int akind, long long atime) {
  sim_event_n(w, path, path ? strlen(path) : 0, effect, kind, t, has_assoc, apath, apath ? strlen(apath) : 0, aeffect, akind, atime);
}
extern "C" void sim_fail(char const* cls, char const* msg) { Internal in; violation(cls, msg); }
extern "C" int sim_cfg(char const* k, int d) { return (int)P.get(k, d); }
extern "C" long long sim_cfg_ll(char const* k, long long d) { return P.get(k, (long)d); }
extern "C" long long sim_now(void) { return (long long)now_ns; }
extern "C" void sim_quiet(int on) { if (! self) return; if (on) go_in(self); else go_out(self); }
extern "C" void sim_wait(long long ns) { Internal in; block_until(nullptr, now_ns + (u64)ns, "sleep"); }
extern "C" void sim_probe(char const* n) { Internal in; probe(n); }
extern "C" void sim_thread_host(void) { self->host = true; }
extern "C" void sim_no_watch(int w, int status) { // the program ends without having watched
  Internal in;
  auto& s = wst(w);
  if (s.n_live) return;
  if (! s.causes) violation("cli.status", wname(s) + "the program ends without having watched, with no reason");
  if (! status) violation("cli.status", wname(s) + "the program ends without having watched, and still exits with 0");
  s.opened = false;
}
