// The watchers which look at the tree now and then: what they report is compared with
// what each path was at every moment of the scan they are in.
#include "sim.hpp"
#include <algorithm>
#include <cstring>

namespace sim {

u64 fs_gen = 1;

namespace {
struct State { // of one path
  bool is = false;  // a regular file, by that name
  i64 mtime = 0;    // of whatever has that name: it looks at the kind first, then at the time
  bool hidden = false; // below a directory which may not be read
  bool operator==(State const& o) const { return is == o.is && mtime == o.mtime && hidden == o.hidden; }
};
struct Step { u64 s0; State st; };
struct Told { // what its user was last told
  bool maybe_absent = false, maybe_present = false;
  bool any = false; // it could not see
  std::set<i64> times;
};
struct Poll {
  bool begun = false, scanned = false;
  u64 gen = 0;
  std::map<std::string, State> now;
  std::set<std::string> dirs, links; // which were ever directories, and links to some
  std::map<std::string, std::vector<Step>> hist;
  std::map<std::string, Told> told;
  u64 since = 0;             // the scan began
  std::vector<u64> sleeps;   // the scans ended
  u64 upset = 0;             // the last failure of a call
  bool base_ever_lost = false, base_hit = false;
  u64 sleeps_in_close = 0;
  u64 last_sleep_ns = 0;
};
std::map<int, Poll> polls;

std::string show(std::string const& s) { return esc(s).substr(0, 160); }
std::string wname(WState const& s) { return "watcher " + std::to_string(s.idx) + " (" + show(s.given) + "): "; }

void walk(Inode* d, std::string const& rel, std::string const& full, bool hidden, std::map<std::string, State>& o, std::set<std::string>& dirs, std::set<std::string>& links) {
  if (d->noread && P.get("euid", 0) != 0) hidden = true;
  for (auto& k : d->kids) {
    Inode* n = inode(k.second);
    std::string r = rel.empty() ? k.first : rel + "/" + k.first, f = full + "/" + k.first;
    if (f.size() >= 4096) continue;
    if (n->type == 'd') { dirs.insert(r); walk(n, r, f, hidden, o, dirs, links); }
    if (n->type == 'l') {
      int e;
      Inode* t = resolve(f, true, &e);
      if (t && t->type == 'd') links.insert(r);
      if (t) o[r] = {t->type == 'f', t->mtime, hidden};
    } else o[r] = {n->type == 'f', n->mtime, hidden};
  }
}
Inode* base_of(WState& s) {
  int e;
  Inode* b = resolve(s.abs_given, true, &e);
  return b && b->type == 'd' ? b : nullptr;
}
void look(WState& s, Poll& p) {
  if (p.gen == fs_gen) return;
  p.gen = fs_gen;
  std::map<std::string, State> m;
  Inode* b = base_of(s);
  if (b) { std::string g = s.abs_given; while (g.size() > 1 && g.back() == '/') g.pop_back(); walk(b, "", g == "/" ? "" : g, false, m, p.dirs, p.links); }
  else p.base_ever_lost = true;
  auto unseen = [&](std::string const& f) { if (p.begun) { Told t; t.any = true; p.told[f] = t; } };
  for (auto& x : p.now)
    if (! m.count(x.first)) {
      p.hist[x.first].push_back({seq, State{}});
      if (x.second.hidden) unseen(x.first);
    }
  for (auto& x : m) {
    auto i = p.now.find(x.first);
    if (i == p.now.end() || ! (i->second == x.second)) {
      auto& h = p.hist[x.first];
      if (h.empty()) h.push_back({0, State{}});
      h.push_back({p.begun ? seq : 0, x.second});
      if (x.second.hidden || (i != p.now.end() && i->second.hidden)) unseen(x.first);
    }
  }
  p.now = std::move(m);
}
Told& told_of(Poll& p, std::string const& f) {
  auto i = p.told.find(f);
  if (i != p.told.end()) return i->second;
  Told t; // what it found when it began is not told; what changed meanwhile may be either
  auto h = p.hist.find(f);
  if (h == p.hist.end()) t.maybe_absent = true;
  else if ((p.sleeps.empty() && p.upset) || (h->second.back().s0 == 0 && h->second.back().st.hidden)) t.any = true;
  else {
    u64 changed = h->second.back().s0;
    if (changed == 0) { (h->second.back().st.is ? t.maybe_present : t.maybe_absent) = true; if (h->second.back().st.is) t.times.insert(h->second.back().st.mtime); }
    else if (p.sleeps.empty())
      for (size_t k = 0; k < h->second.size(); k++) {
        if (k + 1 < h->second.size() && h->second[k + 1].s0 == 0) continue;
        State const& s = h->second[k].st;
        (s.is ? t.maybe_present : t.maybe_absent) = true;
        if (s.mtime) t.times.insert(s.mtime);
      }
    else t.maybe_absent = true; // it came later
  }
  return p.told[f] = t;
}
// it may have been reached by way of a link, which then is not seen to go on
bool astray(Poll& p, std::string const& f) {
  if (p.links.empty()) return false;
  for (size_t i = f.find('/'); i != f.npos; i = f.find('/', i + 1)) {
    std::string d = f.substr(0, i);
    if (p.links.count(d) && p.dirs.count(d)) return true;
  }
  return false;
}
// what the path was from a moment on
void during(Poll& p, std::string const& f, u64 a, bool* present, bool* absent, std::set<i64>* times, bool* hidden) {
  *present = *absent = *hidden = false;
  auto h = p.hist.find(f);
  if (h == p.hist.end()) { *absent = true; return; }
  for (size_t k = 0; k < h->second.size(); k++) {
    u64 end = k + 1 < h->second.size() ? h->second[k + 1].s0 : NEVER;
    if (end < a || (end == 0)) continue;
    State const& s = h->second[k].st;
    (s.is ? *present : *absent) = true;
    if (s.mtime) times->insert(s.mtime);
    if (s.hidden) *hidden = true;
  }
}
} // namespace

void poll_reset() { polls.clear(); fs_gen = 1; }
void poll_open(int w) {
  auto& p = polls[w];
  look(wst(w), p);
  p.begun = true;
  p.since = seq;
}
void poll_changed() {
  for (auto& x : polls)
    if (x.second.begun && ! wst(x.first).destroyed) look(wst(x.first), x.second);
}
void poll_fault(int w, Inode* on) {
  auto i = polls.find(w);
  if (i == polls.end()) return;
  i->second.upset = seq;
  if (! on || on == base_of(wst(w))) i->second.base_hit = true;
}
bool poll_may_end(int w) {
  poll_changed();
  auto& p = polls[w];
  return p.base_ever_lost || p.base_hit;
}
void poll_sleeps(int w) {
  auto& s = wst(w);
  auto& p = polls[w];
  if (! p.begun || ! p.scanned) return;
  p.scanned = false;
  poll_changed();
  p.last_sleep_ns = now_ns;
  if (s.close_begun) {
    if (++p.sleeps_in_close == 3) violation("close.slow", wname(s) + "it goes on scanning after close was called");
    return;
  }
  if (p.sleeps.empty()) for (auto& h : p.hist) told_of(p, h.first);
  p.sleeps.push_back(seq);
  R->batches++;
  size_t n = p.sleeps.size();
  if (n < 3) return;
  u64 a = p.sleeps[n - 3];
  if (p.upset >= a || p.base_ever_lost) return;
  for (auto& x : p.hist) {
    auto& h = x.second;
    if (h.back().s0 >= a || h.back().st.hidden || astray(p, x.first)) continue;
    State const& st = h.back().st;
    Told& t = told_of(p, x.first);
    bool unsure = t.maybe_absent && t.maybe_present;
    if (! unsure && ! t.any) {
      std::string m = wname(s) + show(x.first);
      if (st.is && ! t.maybe_present) violation("report.lost", m + " appeared and stays, but is not reported");
      else if (! st.is && ! t.maybe_absent) violation("report.lost", m + " is gone, which is not reported");
      else if (st.is && ! t.times.count(st.mtime)) violation("report.lost", m + " was modified, which is not reported");
    }
    t = Told{};
    (st.is ? t.maybe_present : t.maybe_absent) = true;
    if (st.is) t.times.insert(st.mtime);
  }
}
void poll_wakes(int w) { auto i = polls.find(w); if (i != polls.end() && ! i->second.scanned) i->second.since = seq; }
void poll_looks() { // it looks at the tree
  if (! self || ! self->worker || self->watcher < 0) return;
  auto i = polls.find(self->watcher);
  if (i != polls.end()) i->second.scanned = true;
}

void poll_report(WState& s, EvView const& ev) {
  poll_changed();
  auto& p = polls[s.idx];
  static char const* ET[] = {"rename", "modify", "create", "destroy", "owner", "other"};
  std::string what = std::string(ev.effect >= 0 && ev.effect < 6 ? ET[ev.effect] : "?") + " " + show(ev.path);
  if (ev.has_assoc) { violation("pair.fields", wname(s) + "an associated path on an event that is no rename: " + what); return; }
  std::string const& g = s.abs_given;
  std::string rel;
  if (ev.path.compare(0, g.size(), g) == 0 && ev.path.size() > g.size() && (g.back() == '/' || ev.path[g.size()] == '/'))
    rel = ev.path.substr(g.size() + (g.back() == '/' ? 0 : 1));
  if (! s.base && s.adrift) return; // it came to be there later
  if (ev.path == g && p.base_ever_lost) return; // a file took the place of what it watches
  if (rel.empty()) { violation("report.path", wname(s) + what + " is reported, which is not below the watched path"); return; }
  if (astray(p, rel)) return;
  bool present, absent, hidden;
  std::set<i64> times;
  during(p, rel, p.since, &present, &absent, &times, &hidden);
  Told& t = told_of(p, rel);
  bool any = hidden || t.any;
  auto bad = [&](char const* cls, char const* why) { violation(cls, wname(s) + what + " is reported, but " + why); };
  if (ev.effect == 2) {
    if (! present) bad("report.fabricated", "there was no such file");
    else if (! t.maybe_absent && ! any) bad("report.duplicate", "it was there all the time");
  } else if (ev.effect == 3) {
    if (! absent) bad("report.fabricated", "it is there all the time");
    else if (! t.maybe_present && ! any) bad("report.duplicate", "nobody was told that it was there");
  } else if (ev.effect == 1) {
    bool differs = false;
    for (i64 m : times) for (i64 c : t.times) if (m != c) differs = true;
    if (! present) bad("report.fabricated", "there was no such file");
    else if (! t.maybe_present && ! any) bad("report.effect", "nobody was told that it was there");
    else if (! differs && ! any) bad("report.duplicate", "it was not modified");
  } else violation("report.effect", wname(s) + "neither create, modify nor destroy: " + what);
  if (ev.kind != 1) violation("report.kind", wname(s) + what + " is reported as something else than a file");
  t = Told{};
  (ev.effect == 3 ? t.maybe_absent : t.maybe_present) = true;
  if (ev.effect != 3) t.times = times;
  if (hidden) t.any = true;
}
// has it looked at everything a few times since then, if it looks at all?
bool poll_looked(WState& s, u64 from) {
  if (! s.opened || ! s.base || s.close_begun) return true;
  for (auto& t : tasks)
    if (t->worker && ! t->host && t->watcher == s.idx && t->done) return true;
  if (s.n_die || s.active_cb > 0) return false;
  auto& sl = polls[s.idx].sleeps;
  return sl.size() > 4 && sl[sl.size() - 5] >= from;
}
void poll_settle(WState& s) {
  auto& p = polls[s.idx];
  if (p.last_sleep_ns + 10000000000 < now_ns) violation("report.lost", wname(s) + "it has stopped scanning");
}

} // namespace sim
