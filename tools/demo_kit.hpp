// A scripted fanotify (or inotify) for demonstrations: the watcher is handed exactly the batches we write.
#pragma once
#include "wtr/watcher.hpp"
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <mutex>
#include <string>
#include <sys/fanotify.h>
#include <sys/inotify.h>
#include <thread>
#include <unistd.h>
#include <vector>

namespace kit {
static std::mutex m;
static std::condition_variable cv;
static std::vector<wtr::event> got;
static std::vector<std::string> dirs; // what file handle n stands for
static int wr = -1, rd = -1;
static bool use_fan = true;
static unsigned long marks = 0;

static void see(wtr::event const& e) { std::lock_guard<std::mutex> l(m); got.push_back(e); cv.notify_all(); }
template<class F> static bool wait_for(F f, int ms = 5000) {
  std::unique_lock<std::mutex> l(m);
  return cv.wait_for(l, std::chrono::milliseconds(ms), f);
}
static bool wait_path(std::string const& p) {
  return wait_for([&] { for (auto& e : got) if (e.path_name == p) return true; return false; });
}
static int count(std::string const& p) { int n = 0; std::lock_guard<std::mutex> l(m); for (auto& e : got) if (e.path_name == p) n++; return n; }
static std::string scratch() { char t[] = "/tmp/demo-XXXXXX"; return mkdtemp(t); }

struct Batch {
  std::string b;
  // dir is an index into dirs
  Batch& fan(uint64_t mask, int dir, std::string name, int pid = 42) {
    size_t body = sizeof(fanotify_event_info_fid) + sizeof(file_handle) + 8 + name.size() + 1;
    size_t info = (body + 3) / 4 * 4;
    fanotify_event_metadata md{};
    md.event_len = (unsigned)(sizeof md + info);
    md.vers = FANOTIFY_METADATA_VERSION;
    md.metadata_len = sizeof md;
    md.mask = mask;
    md.fd = FAN_NOFD;
    md.pid = pid;
    std::string s((char*)&md, sizeof md);
    fanotify_event_info_fid f{};
    f.hdr.info_type = FAN_EVENT_INFO_TYPE_DFID_NAME;
    f.hdr.len = (uint16_t)info;
    s.append((char*)&f, sizeof f);
    unsigned hb = 8; int ht = 1; uint64_t id = (uint64_t)dir;
    s.append((char*)&hb, 4).append((char*)&ht, 4).append((char*)&id, 8);
    s += name;
    s.resize(md.event_len, 0);
    b += s;
    return *this;
  }
  Batch& ino(int wd, uint32_t mask, uint32_t cookie, std::string name) {
    inotify_event e{};
    size_t n = name.empty() ? 0 : (name.size() + 1 + 15) / 16 * 16;
    e.wd = wd; e.mask = mask; e.cookie = cookie; e.len = (uint32_t)n;
    b.append((char*)&e, sizeof e);
    name.resize(n, 0);
    b += name;
    return *this;
  }
  void send() { if (write(wr, b.data(), b.size()) != (ssize_t)b.size()) perror("write"); }
};
static int queue() {
  int p[2];
  if (pipe2(p, O_DIRECT | O_NONBLOCK | O_CLOEXEC)) return -1;
  rd = p[0]; wr = p[1];
  return p[0];
}
} // namespace kit

extern "C" {
unsigned __wrap_geteuid() { return kit::use_fan ? 0 : 1000; }
int __wrap_fanotify_init(unsigned, unsigned) { return kit::queue(); }
int __wrap_fanotify_mark(int, unsigned, uint64_t, int, char const*) { kit::marks++; return 0; }
int __wrap_open_by_handle_at(int, file_handle* h, int) {
  uint64_t id; memcpy(&id, h->f_handle, 8);
  if (id >= kit::dirs.size()) { errno = ESTALE; return -1; }
  return open(kit::dirs[id].c_str(), O_PATH | O_CLOEXEC);
}
}
#define WRAPS "-Wl,--wrap=geteuid,--wrap=fanotify_init,--wrap=fanotify_mark,--wrap=open_by_handle_at"
