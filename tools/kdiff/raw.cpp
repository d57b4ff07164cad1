// What the kernel says of a list of changes: the same program asks the real kernel (raw_real.cpp) and the simulated one (as a glue).
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/fanotify.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
static int ifd = -1, ffd = -1, mnt = -1;
static std::map<int, std::string> wds;
static std::map<unsigned, int> cookies;
static std::string root, out;
static void say(char const* f, ...) {
  char b[9000];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  out += b;
  out += '\n';
}
static std::string rel(std::string const& p) { return p.compare(0, root.size(), root) == 0 ? p.substr(root.size()) : p; }
void raw_mark(std::string const& p) {
  if (p.empty()) return;
  std::string r = root + p;
  int wd = inotify_add_watch(ifd, r.c_str(), IN_CREATE | IN_DELETE | IN_DELETE_SELF | IN_MODIFY | IN_MOVE_SELF | IN_MOVED_FROM | IN_MOVED_TO | IN_ONLYDIR | IN_DONT_FOLLOW);
  if (wd < 0) { say("mark %s fails: %d", p.c_str(), errno); return; }
  if (! wds.count(wd)) wds[wd] = p;
  if (fanotify_mark(ffd, FAN_MARK_ADD | FAN_MARK_ONLYDIR | FAN_MARK_DONT_FOLLOW, FAN_ONDIR | FAN_CREATE | FAN_MODIFY | FAN_MOVE | FAN_DELETE | FAN_EVENT_ON_CHILD, AT_FDCWD, r.c_str()) < 0) say("fmark %s fails: %d", p.c_str(), errno);
}
static std::string type(int r, struct stat const& s) { return r ? "errno " + std::to_string(errno) : S_ISDIR(s.st_mode) ? "d" : S_ISREG(s.st_mode) ? "f" : S_ISLNK(s.st_mode) ? "l" : S_ISFIFO(s.st_mode) ? "p" : "?"; }
void raw_look(std::string const& p) { // what the calls which only look say
  std::string f = root + p;
  struct stat s;
  std::string l = type(lstat(f.c_str(), &s), s);
  std::string t = type(stat(f.c_str(), &s), s);
  char* c = realpath(f.c_str(), nullptr);
  std::string at = c ? rel(c) : "errno " + std::to_string(errno);
  free(c);
  std::string kids;
  if (DIR* d = opendir(f.c_str())) {
    std::vector<std::string> k;
    while (dirent* e = readdir(d)) k.push_back(std::string(e->d_name) + (e->d_type == DT_DIR ? "/" : e->d_type == DT_LNK ? "@" : e->d_type == DT_FIFO ? "|" : ""));
    closedir(d);
    std::sort(k.begin(), k.end());
    for (auto& x : k) kids += " " + x;
  } else kids = " errno " + std::to_string(errno);
  int o = open(f.c_str(), O_PATH | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
  int oe = o < 0 ? errno : 0;
  if (o >= 0) close(o);
  say("look %s: %s, %s, %s,%s, %d", p.c_str(), l.c_str(), t.c_str(), at.c_str(), kids.c_str(), oe);
}
static void walk(std::string const& p) {
  raw_mark(p);
  std::vector<std::string> subs;
  if (DIR* d = opendir((root + p).c_str())) {
    while (dirent* e = readdir(d))
      if (e->d_type == DT_DIR && strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) subs.push_back(e->d_name);
    closedir(d);
  }
  std::sort(subs.begin(), subs.end());
  for (auto& s : subs) walk(p + "/" + s);
}
void raw_start(std::string const& rt, std::string const& base) {
  root = rt;
  ifd = inotify_init1(IN_NONBLOCK | IN_CLOEXEC);
  ffd = fanotify_init(FAN_CLASS_NOTIF | FAN_REPORT_FID | FAN_REPORT_DIR_FID | FAN_REPORT_NAME | FAN_UNLIMITED_QUEUE | FAN_UNLIMITED_MARKS | FAN_CLOEXEC | FAN_NONBLOCK, O_RDONLY | O_CLOEXEC | O_NONBLOCK);
  mnt = open((root + base).c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  if (ifd < 0 || ffd < 0 || mnt < 0) { say("no kernel"); return; }
  walk(base);
}
static std::string mask(unsigned long long m) {
  static char const* const N[] = {"access", "modify", "attrib", "close_write", "close", "open", "from", "to", "create", "delete", "delete_self", "move_self"};
  std::string s;
  for (int i = 0; i < 12; i++) if (m & (1u << i)) s += std::string(s.empty() ? "" : "|") + N[i];
  if (m & IN_IGNORED) s += "ignored";
  if (m & IN_UNMOUNT) s += "unmount";
  if (m & IN_Q_OVERFLOW) s += "overflow";
  if (m & IN_ISDIR) s += "|dir";
  return s;
}
std::string raw_drain() {
  static char b[1 << 16] __attribute__((aligned(8)));
  for (;;) {
    ssize_t n = read(ifd, b, sizeof b);
    if (n <= 0) break;
    for (ssize_t i = 0; i < n;) {
      auto* e = (inotify_event*)(b + i);
      int c = 0;
      if (e->cookie) { if (! cookies.count(e->cookie)) { int k = (int)cookies.size() + 1; cookies[e->cookie] = k; } c = cookies[e->cookie]; }
      say("I %s %s #%d %s", wds[e->wd].c_str(), mask(e->mask).c_str(), c, e->len ? e->name : "");
      i += (ssize_t)(sizeof *e + e->len);
    }
  }
  for (;;) {
    ssize_t n = read(ffd, b, 4096);
    if (n <= 0) break;
    for (auto* m = (fanotify_event_metadata*)b; FAN_EVENT_OK(m, n); m = FAN_EVENT_NEXT(m, n)) {
      std::string l;
      char* p = (char*)m + m->metadata_len;
      while (p < (char*)m + m->event_len) {
        auto* f = (fanotify_event_info_fid*)p;
        auto* h = (file_handle*)f->handle;
        int fd = open_by_handle_at(mnt, h, O_RDONLY | O_CLOEXEC | O_PATH);
        std::string at = fd < 0 ? (errno == ESTALE ? "stale" : "error") : "";
        if (fd >= 0) {
          char k[64], t[4096];
          snprintf(k, sizeof k, "/proc/self/fd/%d", fd);
          ssize_t z = readlink(k, t, sizeof t);
          at = rel(std::string(t, z > 0 ? (size_t)z : 0));
          close(fd);
        }
        bool named = f->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME;
        l += std::string(" ") + (named ? "dfid-name" : f->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID ? "dfid" : f->hdr.info_type == FAN_EVENT_INFO_TYPE_FID ? "fid" : "?");
        if (named || f->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID) l += "(" + at + ")"; // which path of a file, with links, is the kernel's choice
        if (named) l += "=" + std::string((char*)h->f_handle + h->handle_bytes);
        p += f->hdr.len;
      }
      say("F %s%s", mask(m->mask).c_str(), l.c_str());
    }
  }
  std::string o = out;
  out.clear();
  return o;
}
