// Link-time seams (-Wl,--wrap): every library and system call through which the
// code under test meets the outside world. On a simulated thread they go to the
// simulator, everywhere else to the real function.
#include "kapi.hpp"
#include "sim.hpp"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <linux/futex.h>
#include <linux/stat.h>
#include <pthread.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <unistd.h>

using namespace sim;

#define REAL(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__)
#define WRAP(ret, name, ...) extern "C" ret __wrap_##name(__VA_ARGS__)

extern "C" void __tsan_acquire(void*) __attribute__((weak));
extern "C" void __tsan_release(void*) __attribute__((weak));
static void acq(void* p) { if (__tsan_acquire) __tsan_acquire(p); }
static void rel(void* p) { if (__tsan_release) __tsan_release(p); }

// The system fills memory of the caller. Sanitizers are told (their own versions
// of these calls would have told them); and in some runs another task goes on
// right after, before the caller has looked at what it got.
extern "C" int __asan_address_is_poisoned(void const volatile*) __attribute__((weak));
extern "C" void* __asan_region_is_poisoned(void*, size_t) __attribute__((weak));
extern "C" void __tsan_write_range(void*, unsigned long) __attribute__((weak));
static void filled(void* b, size_t n, char const* what) {
  int keep = errno;
  if (b && n && __asan_region_is_poisoned && __asan_region_is_poisoned(b, n)) {
    Internal in;
    sim_fail("san.buffer", (std::string(what) + " is given a buffer which is smaller than what it is said to hold").c_str());
  }
  if (b && n && __tsan_write_range) __tsan_write_range(b, n);
  if (P.get("after", 0)) { Internal in; point("after", 3); }
  errno = keep;
}
template<class F> static ssize_t fill(void* b, char const* what, F f) {
  ssize_t r;
  { Internal in; r = f(); }
  filled(b, r > 0 ? (size_t)r : 0, what);
  return r;
}
template<class F> static int fill_stat(struct stat* b, F f) {
  int r;
  { Internal in; r = f(); }
  filled(b, r == 0 ? sizeof *b : 0, "stat");
  return r;
}

// ---------------------------------------------------------------- descriptors
REAL(ssize_t, read, int, void*, size_t);
WRAP(ssize_t, read, int fd, void* b, size_t n) { if (! on_sim()) return __real_read(fd, b, n); return fill(b, "read", [&] { return k_read(fd, b, n); }); }
REAL(ssize_t, write, int, void const*, size_t);
WRAP(ssize_t, write, int fd, void const* b, size_t n) {
  if (! on_sim()) return __real_write(fd, b, n);
  Internal in;
  if (fd == 1 || fd == 2) return __real_write(fd, b, n);
  return k_write(fd, b, n);
}
REAL(int, close, int);
WRAP(int, close, int fd) { if (! on_sim()) return __real_close(fd); Internal in; return k_close(fd); }
REAL(int, dup, int);
WRAP(int, dup, int fd) { if (! on_sim()) return __real_dup(fd); Internal in; return k_dup(fd, 0, false); }
REAL(int, fcntl, int, int, long);
WRAP(int, fcntl, int fd, int c, long a) { if (! on_sim()) return __real_fcntl(fd, c, a); Internal in; return k_fcntl(fd, c, a); }
REAL(int, fcntl64, int, int, long);
WRAP(int, fcntl64, int fd, int c, long a) { if (! on_sim()) return __real_fcntl64(fd, c, a); Internal in; return k_fcntl(fd, c, a); }
REAL(int, ioctl, int, unsigned long, void*);
WRAP(int, ioctl, int fd, unsigned long r, void* a) { if (! on_sim()) return __real_ioctl(fd, r, a); Internal in; return k_ioctl(fd, r, a); }
REAL(int, pipe2, int*, int);
WRAP(int, pipe2, int* o, int f) { if (! on_sim()) return __real_pipe2(o, f); Internal in; return k_pipe2(o, f); }
REAL(int, pipe, int*);
WRAP(int, pipe, int* o) { if (! on_sim()) return __real_pipe(o); Internal in; return k_pipe2(o, 0); }

// ---------------------------------------------------------------- event sources
REAL(int, eventfd, unsigned, int);
WRAP(int, eventfd, unsigned v, int f) { if (! on_sim()) return __real_eventfd(v, f); Internal in; return k_eventfd(v, f); }
REAL(int, eventfd_write, int, eventfd_t);
WRAP(int, eventfd_write, int fd, eventfd_t v) { if (! on_sim()) return __real_eventfd_write(fd, v); Internal in; return k_write(fd, &v, 8) == 8 ? 0 : -1; }
REAL(int, eventfd_read, int, eventfd_t*);
WRAP(int, eventfd_read, int fd, eventfd_t* v) { if (! on_sim()) return __real_eventfd_read(fd, v); Internal in; return k_read(fd, v, 8) == 8 ? 0 : -1; }
REAL(int, inotify_init, void);
WRAP(int, inotify_init, void) { if (! on_sim()) return __real_inotify_init(); Internal in; return k_inotify_init1(0); }
REAL(int, inotify_init1, int);
WRAP(int, inotify_init1, int f) { if (! on_sim()) return __real_inotify_init1(f); Internal in; return k_inotify_init1(f); }
REAL(int, inotify_add_watch, int, char const*, uint32_t);
WRAP(int, inotify_add_watch, int fd, char const* p, uint32_t m) { if (! on_sim()) return __real_inotify_add_watch(fd, p, m); Internal in; return k_inotify_add_watch(fd, p, m); }
REAL(int, inotify_rm_watch, int, int);
WRAP(int, inotify_rm_watch, int fd, int wd) { if (! on_sim()) return __real_inotify_rm_watch(fd, wd); Internal in; return k_inotify_rm_watch(fd, wd); }
REAL(int, fanotify_init, unsigned, unsigned);
WRAP(int, fanotify_init, unsigned f, unsigned e) { if (! on_sim()) return __real_fanotify_init(f, e); Internal in; return k_fanotify_init(f, e); }
REAL(int, fanotify_mark, int, unsigned, uint64_t, int, char const*);
WRAP(int, fanotify_mark, int fd, unsigned f, uint64_t m, int d, char const* p) { if (! on_sim()) return __real_fanotify_mark(fd, f, m, d, p); Internal in; return k_fanotify_mark(fd, f, m, d, p); }
REAL(int, epoll_create1, int);
WRAP(int, epoll_create1, int f) { if (! on_sim()) return __real_epoll_create1(f); Internal in; return k_epoll_create1(f); }
REAL(int, epoll_create, int);
WRAP(int, epoll_create, int n) { if (! on_sim()) return __real_epoll_create(n); Internal in; return k_epoll_create1(0); }
REAL(int, epoll_ctl, int, int, int, epoll_event*);
WRAP(int, epoll_ctl, int e, int o, int fd, epoll_event* v) { if (! on_sim()) return __real_epoll_ctl(e, o, fd, v); Internal in; return k_epoll_ctl(e, o, fd, v); }
REAL(int, epoll_wait, int, epoll_event*, int, int);
WRAP(int, epoll_wait, int e, epoll_event* v, int m, int t) { if (! on_sim()) return __real_epoll_wait(e, v, m, t); int r = 0; fill(v, "epoll_wait", [&] { r = k_epoll_wait(e, v, m, t); return r > 0 ? (ssize_t)((size_t)r * sizeof *v) : 0; }); return r; }
REAL(int, epoll_pwait, int, epoll_event*, int, int, void const*);
WRAP(int, epoll_pwait, int e, epoll_event* v, int m, int t, void const* s) { if (! on_sim()) return __real_epoll_pwait(e, v, m, t, s); int r = 0; fill(v, "epoll_wait", [&] { r = k_epoll_wait(e, v, m, t); return r > 0 ? (ssize_t)((size_t)r * sizeof *v) : 0; }); return r; }
REAL(int, poll, pollfd*, unsigned long, int);
WRAP(int, poll, pollfd* p, unsigned long n, int t) { if (! on_sim()) return __real_poll(p, n, t); Internal in; return k_poll(p, n, t < 0 ? -1 : (i64)t * 1000000); }
REAL(int, ppoll, pollfd*, unsigned long, timespec const*, void const*);
WRAP(int, ppoll, pollfd* p, unsigned long n, timespec const* t, void const* s) {
  if (! on_sim()) return __real_ppoll(p, n, t, s);
  Internal in;
  return k_poll(p, n, t ? (i64)t->tv_sec * 1000000000 + t->tv_nsec : -1);
}

// ---------------------------------------------------------------- files
REAL(int, open_by_handle_at, int, void*, int);
WRAP(int, open_by_handle_at, int d, void* h, int f) { if (! on_sim()) return __real_open_by_handle_at(d, h, f); Internal in; return k_open_by_handle_at(d, h, f); }
REAL(int, name_to_handle_at, int, char const*, void*, int*, int);
WRAP(int, name_to_handle_at, int d, char const* p, void* h, int* m, int f) { if (! on_sim()) return __real_name_to_handle_at(d, p, h, m, f); Internal in; return k_name_to_handle_at(d, p, h, m, f); }
REAL(int, open, char const*, int, unsigned);
WRAP(int, open, char const* p, int f, unsigned m) { if (! on_sim()) return __real_open(p, f, m); Internal in; return k_openat(AT_FDCWD, p, f, m); }
REAL(int, open64, char const*, int, unsigned);
WRAP(int, open64, char const* p, int f, unsigned m) { if (! on_sim()) return __real_open64(p, f, m); Internal in; return k_openat(AT_FDCWD, p, f, m); }
REAL(int, openat, int, char const*, int, unsigned);
WRAP(int, openat, int d, char const* p, int f, unsigned m) { if (! on_sim()) return __real_openat(d, p, f, m); Internal in; return k_openat(d, p, f, m); }
REAL(int, openat64, int, char const*, int, unsigned);
WRAP(int, openat64, int d, char const* p, int f, unsigned m) { if (! on_sim()) return __real_openat64(d, p, f, m); Internal in; return k_openat(d, p, f, m); }
// what the fortified headers make of these
REAL(int, __open_2, char const*, int);
WRAP(int, __open_2, char const* p, int f) { if (! on_sim()) return __real___open_2(p, f); Internal in; return k_openat(AT_FDCWD, p, f, 0); }
REAL(int, __open64_2, char const*, int);
WRAP(int, __open64_2, char const* p, int f) { if (! on_sim()) return __real___open64_2(p, f); Internal in; return k_openat(AT_FDCWD, p, f, 0); }
REAL(int, __openat_2, int, char const*, int);
WRAP(int, __openat_2, int d, char const* p, int f) { if (! on_sim()) return __real___openat_2(d, p, f); Internal in; return k_openat(d, p, f, 0); }
REAL(int, __openat64_2, int, char const*, int);
WRAP(int, __openat64_2, int d, char const* p, int f) { if (! on_sim()) return __real___openat64_2(d, p, f); Internal in; return k_openat(d, p, f, 0); }
REAL(ssize_t, __read_chk, int, void*, size_t, size_t);
WRAP(ssize_t, __read_chk, int fd, void* b, size_t n, size_t m) { if (! on_sim()) return __real___read_chk(fd, b, n, m); return fill(b, "read", [&] { return k_read(fd, b, n); }); }
REAL(ssize_t, __readlink_chk, char const*, char*, size_t, size_t);
WRAP(ssize_t, __readlink_chk, char const* p, char* b, size_t n, size_t m) { if (! on_sim()) return __real___readlink_chk(p, b, n, m); return fill(b, "readlink", [&] { return k_readlinkat(AT_FDCWD, p, b, n); }); }
REAL(DIR*, opendir, char const*);
WRAP(DIR*, opendir, char const* p) { if (! on_sim()) return __real_opendir(p); Internal in; return (DIR*)k_opendir(p); }
REAL(DIR*, fdopendir, int);
WRAP(DIR*, fdopendir, int fd) { if (! on_sim()) return __real_fdopendir(fd); Internal in; return (DIR*)k_fdopendir(fd); }
REAL(dirent*, readdir, DIR*);
WRAP(dirent*, readdir, DIR* d) { if (! on_sim()) return __real_readdir(d); Internal in; return k_readdir((SimDir*)d); }
REAL(dirent*, readdir64, DIR*);
WRAP(dirent*, readdir64, DIR* d) { if (! on_sim()) return __real_readdir64(d); Internal in; return k_readdir((SimDir*)d); }
REAL(int, closedir, DIR*);
WRAP(int, closedir, DIR* d) { if (! on_sim()) return __real_closedir(d); Internal in; return k_closedir((SimDir*)d); }
REAL(int, dirfd, DIR*);
WRAP(int, dirfd, DIR* d) { if (! on_sim()) return __real_dirfd(d); Internal in; return k_dirfd((SimDir*)d); }
REAL(int, stat, char const*, struct stat*);
WRAP(int, stat, char const* p, struct stat* s) { if (! on_sim()) return __real_stat(p, s); return fill_stat(s, [&] { return k_statat(AT_FDCWD, p, s, true, false); }); }
REAL(int, stat64, char const*, struct stat*);
WRAP(int, stat64, char const* p, struct stat* s) { if (! on_sim()) return __real_stat64(p, s); return fill_stat(s, [&] { return k_statat(AT_FDCWD, p, s, true, false); }); }
REAL(int, lstat, char const*, struct stat*);
WRAP(int, lstat, char const* p, struct stat* s) { if (! on_sim()) return __real_lstat(p, s); return fill_stat(s, [&] { return k_statat(AT_FDCWD, p, s, false, false); }); }
REAL(int, lstat64, char const*, struct stat*);
WRAP(int, lstat64, char const* p, struct stat* s) { if (! on_sim()) return __real_lstat64(p, s); return fill_stat(s, [&] { return k_statat(AT_FDCWD, p, s, false, false); }); }
REAL(int, fstat, int, struct stat*);
WRAP(int, fstat, int fd, struct stat* s) { if (! on_sim()) return __real_fstat(fd, s); return fill_stat(s, [&] { return k_statat(fd, "", s, false, true); }); }
REAL(int, fstat64, int, struct stat*);
WRAP(int, fstat64, int fd, struct stat* s) { if (! on_sim()) return __real_fstat64(fd, s); return fill_stat(s, [&] { return k_statat(fd, "", s, false, true); }); }
REAL(int, fstatat, int, char const*, struct stat*, int);
WRAP(int, fstatat, int d, char const* p, struct stat* s, int f) { if (! on_sim()) return __real_fstatat(d, p, s, f); return fill_stat(s, [&] { return k_statat(d, p, s, ! (f & AT_SYMLINK_NOFOLLOW), f & AT_EMPTY_PATH); }); }
REAL(int, fstatat64, int, char const*, struct stat*, int);
WRAP(int, fstatat64, int d, char const* p, struct stat* s, int f) { if (! on_sim()) return __real_fstatat64(d, p, s, f); return fill_stat(s, [&] { return k_statat(d, p, s, ! (f & AT_SYMLINK_NOFOLLOW), f & AT_EMPTY_PATH); }); }
REAL(int, statfs, char const*, struct statfs*);
WRAP(int, statfs, char const* p, struct statfs* s) { if (! on_sim()) return __real_statfs(p, s); Internal in; return k_statfs(p, s); }
REAL(int, statfs64, char const*, struct statfs*);
WRAP(int, statfs64, char const* p, struct statfs* s) { if (! on_sim()) return __real_statfs64(p, s); Internal in; return k_statfs(p, s); }
REAL(int, fstatfs, int, struct statfs*);
WRAP(int, fstatfs, int fd, struct statfs* s) { if (! on_sim()) return __real_fstatfs(fd, s); Internal in; return k_fstatfs(fd, s); }
REAL(int, fstatfs64, int, struct statfs*);
WRAP(int, fstatfs64, int fd, struct statfs* s) { if (! on_sim()) return __real_fstatfs64(fd, s); Internal in; return k_fstatfs(fd, s); }
static int vfs(int r, struct statfs const& s, struct statvfs* v) {
  if (r) return r;
  memset(v, 0, sizeof *v);
  v->f_bsize = v->f_frsize = 4096;
  v->f_blocks = s.f_blocks; v->f_bfree = s.f_bfree; v->f_bavail = s.f_bavail;
  v->f_files = s.f_files; v->f_ffree = v->f_favail = s.f_ffree;
  v->f_namemax = 255;
  memcpy(&v->f_fsid, &s.f_fsid, 8);
  return 0;
}
REAL(int, statvfs, char const*, struct statvfs*);
WRAP(int, statvfs, char const* p, struct statvfs* v) { if (! on_sim()) return __real_statvfs(p, v); Internal in; struct statfs s; return vfs(k_statfs(p, &s), s, v); }
REAL(int, statvfs64, char const*, struct statvfs*);
WRAP(int, statvfs64, char const* p, struct statvfs* v) { if (! on_sim()) return __real_statvfs64(p, v); Internal in; struct statfs s; return vfs(k_statfs(p, &s), s, v); }
REAL(int, fstatvfs, int, struct statvfs*);
WRAP(int, fstatvfs, int fd, struct statvfs* v) { if (! on_sim()) return __real_fstatvfs(fd, v); Internal in; struct statfs s; return vfs(k_fstatfs(fd, &s), s, v); }
REAL(int, fstatvfs64, int, struct statvfs*);
WRAP(int, fstatvfs64, int fd, struct statvfs* v) { if (! on_sim()) return __real_fstatvfs64(fd, v); Internal in; struct statfs s; return vfs(k_fstatfs(fd, &s), s, v); }
REAL(int, access, char const*, int);
WRAP(int, access, char const* p, int m) { if (! on_sim()) return __real_access(p, m); Internal in; return k_access(AT_FDCWD, p, m); }
REAL(int, faccessat, int, char const*, int, int);
WRAP(int, faccessat, int d, char const* p, int m, int f) { if (! on_sim()) return __real_faccessat(d, p, m, f); Internal in; return k_access(d, p, m); }
REAL(ssize_t, readlink, char const*, char*, size_t);
WRAP(ssize_t, readlink, char const* p, char* b, size_t n) { if (! on_sim()) return __real_readlink(p, b, n); return fill(b, "readlink", [&] { return k_readlinkat(AT_FDCWD, p, b, n); }); }
REAL(ssize_t, readlinkat, int, char const*, char*, size_t);
WRAP(ssize_t, readlinkat, int d, char const* p, char* b, size_t n) { if (! on_sim()) return __real_readlinkat(d, p, b, n); return fill(b, "readlink", [&] { return k_readlinkat(d, p, b, n); }); }
REAL(char*, realpath, char const*, char*);
WRAP(char*, realpath, char const* p, char* out) {
  if (! on_sim()) return __real_realpath(p, out);
  char* r = out;
  fill(out, "realpath", [&]() -> ssize_t {
    std::string s;
    if (int e = k_realpath(p, &s)) { errno = e; r = nullptr; return -1; }
    if (! out) { r = strdup(s.c_str()); return 0; }
    memcpy(out, s.c_str(), s.size() + 1);
    return (ssize_t)s.size() + 1;
  });
  return r;
}
REAL(char*, canonicalize_file_name, char const*);
WRAP(char*, canonicalize_file_name, char const* p) { if (! on_sim()) return __real_canonicalize_file_name(p); return __wrap_realpath(p, nullptr); }
REAL(char*, getcwd, char*, size_t);
WRAP(char*, getcwd, char* b, size_t n) {
  if (! on_sim()) return __real_getcwd(b, n);
  Internal in;
  std::string s;
  if (int e = k_getcwd(&s)) { errno = e; return nullptr; }
  if (! b) return strdup(s.c_str());
  if (s.size() + 1 > n) { errno = ERANGE; return nullptr; }
  memcpy(b, s.c_str(), s.size() + 1);
  return b;
}
REAL(int, chdir, char const*);
WRAP(int, chdir, char const* p) { if (! on_sim()) return __real_chdir(p); Internal in; return k_chdir(p); }
REAL(uid_t, geteuid, void);
WRAP(uid_t, geteuid, void) { if (! on_sim()) return __real_geteuid(); return (uid_t)P.get("euid", 0); }
REAL(uid_t, getuid, void);
WRAP(uid_t, getuid, void) { if (! on_sim()) return __real_getuid(); return (uid_t)P.get("euid", 0); }

// ---------------------------------------------------------------- clocks
static u64 clk(clockid_t c) {
  switch (c) {
  case CLOCK_REALTIME: return (u64)((i64)now_ns + rt_off);
  case CLOCK_REALTIME_COARSE: { u64 t = (u64)((i64)now_ns + rt_off); return t - t % 4000000; }
  case CLOCK_MONOTONIC_COARSE: return now_ns - now_ns % 4000000;
  default: return now_ns;
  }
}
REAL(int, clock_gettime, clockid_t, timespec*);
WRAP(int, clock_gettime, clockid_t c, timespec* t) {
  if (! on_sim()) return __real_clock_gettime(c, t);
  Internal in;
  now_ns += 37;
  i64 v = (i64)clk(c);
  t->tv_sec = v / 1000000000;
  t->tv_nsec = v % 1000000000;
  if (t->tv_nsec < 0) t->tv_nsec += 1000000000, t->tv_sec--;
  return 0;
}
REAL(int, gettimeofday, timeval*, void*);
WRAP(int, gettimeofday, timeval* t, void* z) {
  if (! on_sim()) return __real_gettimeofday(t, z);
  i64 v = (i64)clk(CLOCK_REALTIME);
  t->tv_sec = v / 1000000000;
  t->tv_usec = v % 1000000000 / 1000;
  return 0;
}
REAL(time_t, time, time_t*);
WRAP(time_t, time, time_t* o) {
  if (! on_sim()) return __real_time(o);
  time_t t = (time_t)((i64)clk(CLOCK_REALTIME) / 1000000000);
  if (o) *o = t;
  return t;
}
extern "C" __attribute__((weak)) void sut_woke(char const* what);
static void woke(char const* what) { if (sut_woke) sut_woke(what); }
static int do_sleep(u64 ns, u64* left, char const* what) {
  point(what, 1);
  u64 end = now_ns + ns;
  if (int e = fault("sleep")) {
    u64 part = ns / 3;
    block_until(nullptr, now_ns + part, what);
    if (left) *left = end > now_ns ? end - now_ns : 0;
    return e;
  }
  block_until(nullptr, end, what);
  woke("sleep");
  if (left) *left = 0;
  return 0;
}
REAL(int, nanosleep, timespec const*, timespec*);
WRAP(int, nanosleep, timespec const* r, timespec* l) {
  if (! on_sim()) return __real_nanosleep(r, l);
  Internal in;
  if (r->tv_sec < 0 || r->tv_nsec < 0 || r->tv_nsec > 999999999) { errno = EINVAL; return -1; }
  u64 left;
  int e = do_sleep((u64)r->tv_sec * 1000000000ull + (u64)r->tv_nsec, &left, "nanosleep");
  if (e) { if (l) l->tv_sec = (time_t)(left / 1000000000), l->tv_nsec = (long)(left % 1000000000); errno = e; return -1; }
  return 0;
}
REAL(int, clock_nanosleep, clockid_t, int, timespec const*, timespec*);
WRAP(int, clock_nanosleep, clockid_t c, int fl, timespec const* r, timespec* l) {
  if (! on_sim()) return __real_clock_nanosleep(c, fl, r, l);
  Internal in;
  u64 v = (u64)r->tv_sec * 1000000000ull + (u64)r->tv_nsec, left;
  if (fl & TIMER_ABSTIME) {
    point("clock_nanosleep", 2);
    if (int e = fault("sleep")) { block_until(nullptr, now_ns + 1000, "clock_nanosleep"); return e; }
    if (c == CLOCK_REALTIME) { while (clk(c) < v) block_until(nullptr, now_ns + std::min<u64>(v - clk(c), 1000000000ull), "clock_nanosleep"); }
    else block_until(nullptr, v, "clock_nanosleep");
    woke("sleep");
    return 0;
  }
  int e = do_sleep(v, &left, "clock_nanosleep");
  if (e && l) l->tv_sec = (time_t)(left / 1000000000), l->tv_nsec = (long)(left % 1000000000);
  return e;
}
REAL(int, usleep, unsigned);
WRAP(int, usleep, unsigned us) { if (! on_sim()) return __real_usleep(us); Internal in; u64 l; int e = do_sleep((u64)us * 1000, &l, "usleep"); if (e) { errno = e; return -1; } return 0; }
REAL(unsigned, sleep, unsigned);
WRAP(unsigned, sleep, unsigned s) { if (! on_sim()) return __real_sleep(s); Internal in; u64 l; int e = do_sleep((u64)s * 1000000000ull, &l, "sleep"); return e ? (unsigned)((l + 999999999) / 1000000000) : 0; }
REAL(int, sched_yield, void);
WRAP(int, sched_yield, void) { if (! on_sim()) return __real_sched_yield(); Internal in; point("sched_yield", 1); self->consec += 100; return 0; }

// ---------------------------------------------------------------- threads
static Task* by_pt(unsigned long pt) {
  for (auto& t : tasks)
    if (t->pt == pt && t->id > 0 && ! t->joined) return t.get();
  return nullptr;
}
REAL(int, pthread_create, pthread_t*, pthread_attr_t const*, void* (*)(void*), void*);
WRAP(int, pthread_create, pthread_t* th, pthread_attr_t const* at, void* (*fn)(void*), void* arg) {
  if (! on_sim()) return __real_pthread_create(th, at, fn, arg);
  Internal in;
  point("pthread_create", 1);
  if (int e = fault("pthread_create")) { oracle_hard_fault(cur_watcher(), "pthread_create", e, false, nullptr, true); return e; }
  return sim_thread_create((unsigned long*)th, at, fn, arg, true);
}
REAL(int, pthread_join, pthread_t, void**);
WRAP(int, pthread_join, pthread_t th, void** ret) {
  if (! on_sim()) return __real_pthread_join(th, ret);
  Internal in;
  point("pthread_join", 1);
  Task* t = by_pt((unsigned long)th);
  if (! t || t->detached) { violation("thread.bad-join", "join of a thread that is not joinable"); return EINVAL; }
  if (t == self) return EDEADLK;
  block_until([t] { return t->done; }, NEVER, "pthread_join");
  t->joined = true;
  return __real_pthread_join(th, ret);
}
REAL(int, pthread_detach, pthread_t);
WRAP(int, pthread_detach, pthread_t th) {
  if (! on_sim()) return __real_pthread_detach(th);
  Internal in;
  Task* t = by_pt((unsigned long)th);
  if (t) t->detached = true;
  return __real_pthread_detach(th);
}
struct Mx { int owner = -1; int depth = 0; };
static std::map<void*, Mx> mxs;
REAL(int, pthread_mutex_lock, pthread_mutex_t*);
WRAP(int, pthread_mutex_lock, pthread_mutex_t* m) {
  if (! on_sim()) return __real_pthread_mutex_lock(m);
  Internal in;
  point("mutex_lock", 1);
  Mx& x = mxs[m];
  if (x.owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return 0; }
  block_until([&x] { return x.owner == -1; }, NEVER, "mutex");
  x.owner = self->id;
  x.depth = 1;
  acq(m);
  return 0;
}
REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
WRAP(int, pthread_mutex_trylock, pthread_mutex_t* m) {
  if (! on_sim()) return __real_pthread_mutex_trylock(m);
  Internal in;
  point("mutex_trylock", 1);
  Mx& x = mxs[m];
  if (x.owner != -1) return EBUSY;
  x.owner = self->id;
  x.depth = 1;
  acq(m);
  return 0;
}
REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
WRAP(int, pthread_mutex_unlock, pthread_mutex_t* m) {
  if (! on_sim()) return __real_pthread_mutex_unlock(m);
  Internal in;
  Mx& x = mxs[m];
  if (x.owner == self->id && --x.depth > 0) return 0;
  rel(m);
  x.owner = -1;
  point("mutex_unlock", 1);
  return 0;
}
struct Cv { u64 gen = 0, wakes = 0, waiters = 0; };
static std::map<void*, Cv> cvs;
static int cv_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 dl) {
  Mx& x = mxs[m];
  rel(m);
  x.owner = -1;
  Cv& v = cvs[c];
  v.waiters++;
  u64 g = v.gen;
  bool spurious = P.get("cv_spurious", 0) && choose_env(2, "spurious wakeup");
  bool ok = true;
  if (spurious) count_fault("cond.spurious", 0), point("cond_wait", 2);
  else {
    ok = block_until([&v, g] { return v.gen != g && v.wakes > 0; }, dl, "condition variable");
    if (ok) v.wakes--;
  }
  v.waiters--;
  block_until([&x] { return x.owner == -1; }, NEVER, "mutex");
  x.owner = self->id;
  x.depth = 1;
  acq(m);
  return ok ? 0 : ETIMEDOUT;
}
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
WRAP(int, pthread_cond_wait, pthread_cond_t* c, pthread_mutex_t* m) { if (! on_sim()) return __real_pthread_cond_wait(c, m); Internal in; return cv_wait(c, m, NEVER); }
REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, timespec const*);
WRAP(int, pthread_cond_timedwait, pthread_cond_t* c, pthread_mutex_t* m, timespec const* t) {
  if (! on_sim()) return __real_pthread_cond_timedwait(c, m, t);
  Internal in;
  i64 d = (i64)t->tv_sec * 1000000000 + t->tv_nsec - rt_off;
  return cv_wait(c, m, d < 0 ? 0 : (u64)d);
}
REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, timespec const*);
WRAP(int, pthread_cond_clockwait, pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* t) {
  if (! on_sim()) return __real_pthread_cond_clockwait(c, m, k, t);
  Internal in;
  i64 d = (i64)t->tv_sec * 1000000000 + t->tv_nsec - (k == CLOCK_REALTIME ? rt_off : 0);
  return cv_wait(c, m, d < 0 ? 0 : (u64)d);
}
REAL(int, pthread_cond_signal, pthread_cond_t*);
WRAP(int, pthread_cond_signal, pthread_cond_t* c) { if (! on_sim()) return __real_pthread_cond_signal(c); Internal in; Cv& v = cvs[c]; if (v.waiters > v.wakes) v.gen++, v.wakes++; point("cond_signal", 1); return 0; }
REAL(int, pthread_cond_broadcast, pthread_cond_t*);
WRAP(int, pthread_cond_broadcast, pthread_cond_t* c) { if (! on_sim()) return __real_pthread_cond_broadcast(c); Internal in; Cv& v = cvs[c]; v.gen++; v.wakes = v.waiters; point("cond_broadcast", 1); return 0; }
REAL(int, pthread_cond_destroy, pthread_cond_t*);
WRAP(int, pthread_cond_destroy, pthread_cond_t* c) { if (! on_sim()) return __real_pthread_cond_destroy(c); Internal in; cvs.erase(c); return 0; }
struct Rw { int writer = -1; int readers = 0; };
static std::map<void*, Rw> rws;
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
WRAP(int, pthread_rwlock_rdlock, pthread_rwlock_t* l) { if (! on_sim()) return __real_pthread_rwlock_rdlock(l); Internal in; point("rdlock", 1); Rw& r = rws[l]; block_until([&r] { return r.writer == -1; }, NEVER, "rwlock"); r.readers++; acq(l); return 0; }
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
WRAP(int, pthread_rwlock_wrlock, pthread_rwlock_t* l) { if (! on_sim()) return __real_pthread_rwlock_wrlock(l); Internal in; point("wrlock", 1); Rw& r = rws[l]; block_until([&r] { return r.writer == -1 && r.readers == 0; }, NEVER, "rwlock"); r.writer = self->id; acq(l); return 0; }
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
WRAP(int, pthread_rwlock_unlock, pthread_rwlock_t* l) { if (! on_sim()) return __real_pthread_rwlock_unlock(l); Internal in; Rw& r = rws[l]; rel(l); if (r.writer == self->id) r.writer = -1; else r.readers--; point("rwunlock", 1); return 0; }
static std::set<void*> onces; // initialisations in progress
REAL(int, pthread_once, pthread_once_t*, void (*)());
WRAP(int, pthread_once, pthread_once_t* o, void (*fn)()) {
  if (! on_sim()) return __real_pthread_once(o, fn);
  {
    Internal in;
    point("pthread_once", 1);
    if (onces.count(o)) block_until([o] { return ! onces.count(o); }, NEVER, "once");
    if (*(volatile int*)o == 2) { acq(o); return 0; }
    onces.insert(o);
  }
  fn(); // an exception leaves the state claimed; not modelled
  {
    Internal in;
    rel(o);
    *(volatile int*)o = 2;
    onces.erase(o);
    point("once_done", 1);
  }
  return 0;
}

// ---------------------------------------------------------------- raw system calls
struct Fx { int* addr; u64 woken = 0; u64 id; };
static std::deque<Fx*> futexq;
REAL(long, syscall, long, ...);
WRAP(long, syscall, long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (! on_sim()) return __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  Internal in;
  switch (n) {
  case SYS_futex: {
    int op = (int)a[1] & FUTEX_CMD_MASK;
    int* addr = (int*)a[0];
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point("futex_wait", 1);
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; }
      if (P.get("futex_eintr", 0) && choose_env(2, "futex EINTR")) { count_fault("futex", EINTR); errno = EINTR; return -1; }
      u64 dl = NEVER;
      if (a[3]) {
        auto* t = (timespec const*)a[3];
        i64 v = (i64)t->tv_sec * 1000000000 + t->tv_nsec;
        if (op == FUTEX_WAIT) dl = now_ns + (u64)v;
        else { v -= ((int)a[1] & FUTEX_CLOCK_REALTIME) ? rt_off : 0; dl = v < 0 ? 0 : (u64)v; }
      }
      Fx f{addr, 0, seq};
      futexq.push_back(&f);
      bool ok = block_until([&f] { return f.woken != 0; }, dl, "futex");
      for (auto i = futexq.begin(); i != futexq.end(); ++i)
        if (*i == &f) { futexq.erase(i); break; }
      if (! ok) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      long c = 0;
      for (auto* f : futexq)
        if (f->addr == addr && ! f->woken && c < a[2]) f->woken = 1, c++;
      point("futex_wake", 1);
      return c;
    }
    errno = ENOSYS;
    return -1;
  }
  case SYS_gettid: return self->pid + 1;
  case SYS_getrandom: return __real_syscall(n, a[0], a[1], a[2]);
  case SYS_inotify_init1: return k_inotify_init1((int)a[0]);
  case SYS_fanotify_init: return k_fanotify_init((unsigned)a[0], (unsigned)a[1]);
  case SYS_fanotify_mark: return k_fanotify_mark((int)a[0], (unsigned)a[1], (u64)a[2], (int)a[3], (char const*)a[4]);
  case SYS_open_by_handle_at: return k_open_by_handle_at((int)a[0], (void*)a[1], (int)a[2]);
  case SYS_read: return k_read((int)a[0], (void*)a[1], (size_t)a[2]);
  case SYS_close: return k_close((int)a[0]);
  case SYS_eventfd2: return k_eventfd((unsigned)a[0], (int)a[1]);
  }
  { char b[80]; snprintf(b, 80, "raw system call %ld", n); violation("sim.unsupported", b); }
  errno = ENOSYS;
  return -1;
}

// ---------------------------------------------------------------- standard input (the command-line program)
namespace sim { std::deque<int> stdin_q; bool stdin_eof = false; }
static int get_char() {
  point("stdin", 1);
  block_until([] { return ! stdin_q.empty() || stdin_eof; }, NEVER, "standard input");
  woke("stdin");
  if (stdin_q.empty()) return EOF;
  int c = stdin_q.front();
  stdin_q.pop_front();
  return c;
}
extern "C" void sim_stdin_end(void) { Internal in; stdin_eof = true; }
REAL(int, getc, FILE*);
WRAP(int, getc, FILE* f) { if (! on_sim() || f != stdin) return __real_getc(f); Internal in; return get_char(); }
REAL(int, _IO_getc, FILE*);
WRAP(int, _IO_getc, FILE* f) { if (! on_sim() || f != stdin) return getc(f); Internal in; return get_char(); }
REAL(int, fgetc, FILE*);
WRAP(int, fgetc, FILE* f) { if (! on_sim() || f != stdin) return __real_fgetc(f); Internal in; return get_char(); }
REAL(int, getchar, void);
WRAP(int, getchar, void) { if (! on_sim()) return __real_getchar(); Internal in; return get_char(); }
REAL(int, ungetc, int, FILE*);
WRAP(int, ungetc, int c, FILE* f) { if (! on_sim() || f != stdin) return __real_ungetc(c, f); stdin_q.push_front(c); return c; }

REAL(int, statx, int, char const*, int, unsigned, struct statx*);
WRAP(int, statx, int d, char const* p, int f, unsigned m, struct statx* o) {
  if (! on_sim()) return __real_statx(d, p, f, m, o);
  Internal in;
  struct stat st;
  int r = k_statat(d, p, &st, ! (f & AT_SYMLINK_NOFOLLOW), f & AT_EMPTY_PATH);
  if (r) return r;
  memset(o, 0, sizeof *o);
  o->stx_mask = STATX_BASIC_STATS;
  o->stx_mode = (u16)st.st_mode;
  o->stx_nlink = (u32)st.st_nlink;
  o->stx_ino = st.st_ino;
  o->stx_dev_minor = (u32)st.st_dev;
  o->stx_mtime.tv_sec = st.st_mtim.tv_sec;
  o->stx_mtime.tv_nsec = (u32)st.st_mtim.tv_nsec;
  return 0;
}
