#pragma once
#include <dirent.h>
#include <poll.h>
#include <string>
#include <sys/epoll.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <vector>
namespace sim {
using u8 = unsigned char;
using u16 = unsigned short;
using u32 = uint32_t;
struct file_handle_ { unsigned handle_bytes; int handle_type; };
constexpr unsigned SIMDIR_MAGIC = 0x51d1f11e;
struct SimDir {
  unsigned magic = SIMDIR_MAGIC;
  int fd = -1, ino = 0;
  bool loaded = false;
  size_t pos = 0, limit = 0; // what was read from the kernel goes up to the limit
  std::vector<std::pair<std::string, int>> ents;
  dirent de;
};
int k_eventfd(unsigned, int);
int k_inotify_init1(int);
int k_inotify_add_watch(int, char const*, u32);
int k_inotify_rm_watch(int, int);
int k_fanotify_init(unsigned, unsigned);
int k_fanotify_mark(int, unsigned, uint64_t, int, char const*);
int k_epoll_create1(int);
int k_epoll_ctl(int, int, int, epoll_event*);
int k_epoll_wait(int, epoll_event*, int, int);
int k_poll(pollfd*, unsigned long, int64_t timeout_ns);
ssize_t k_read(int, void*, size_t);
ssize_t k_write(int, void const*, size_t);
int k_pipe2(int*, int);
int k_close(int);
int k_dup(int, int, bool);
int k_fcntl(int, int, long);
int k_ioctl(int, unsigned long, void*);
int k_open_by_handle_at(int, void*, int);
int k_statfs(char const*, struct statfs*);
int k_fstatfs(int, struct statfs*);
int k_name_to_handle_at(int, char const*, void*, int*, int);
int k_openat(int, char const*, int, unsigned);
SimDir* k_opendir(char const*);
SimDir* k_fdopendir(int);
dirent* k_readdir(SimDir*);
int k_closedir(SimDir*);
int k_dirfd(SimDir*);
int k_statat(int, char const*, struct stat*, bool follow, bool empty_ok);
int k_access(int, char const*, int);
ssize_t k_readlinkat(int, char const*, char*, size_t);
int k_realpath(char const*, std::string*);
int k_getcwd(std::string*);
int k_chdir(char const*);
}
