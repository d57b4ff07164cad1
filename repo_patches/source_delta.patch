From 228325dfd29a1eea0cb45fcf80c0b64808aa1d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 01/53] fix: a signal handled on the watching thread no longer
 ends the watcher

epoll_wait() and read() can be interrupted (EINTR) by a signal handler,
which is not an error: wait, or read, again.
---
 .../wtr/watcher/adapter/linux/inotify/watch.hpp      |  6 ++++--
 .../detail/wtr/watcher/adapter/linux/watch.hpp       |  6 ++++--
 include/wtr/watcher.hpp                              | 12 ++++++++----
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 2db6bc6..1ae10dc 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -8,6 +8,7 @@
 #if (KERNEL_VERSION(2, 7, 0) <= LINUX_VERSION_CODE) || __ANDROID_API__
 
 #include "wtr/watcher.hpp"
+#include <errno.h>
 #include <filesystem>
 #include <limits.h>
 #include <string.h>
@@ -322,8 +323,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
-  if (read_len < 0 && errno != EAGAIN)
-    return result::e_sys_api_read;
+  if (read_len < 0)
+    return errno == EAGAIN || errno == EINTR ? result::pending
+                                             : result::e_sys_api_read;
   else {
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
     auto const* const in_ev_tail = (inotify_event*)(sr.ke.ev_buf + read_len);
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index a3cb946..7a40347 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -10,6 +10,7 @@
 #endif
 
 #include "wtr/watcher.hpp"
+#include <errno.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter {
@@ -26,8 +27,9 @@ inline auto watch =
     while (sr.ok < result::complete) {
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
-      if (ep_c < 0)
-        sr.ok = result::e_sys_api_epoll;
+      if (ep_c < 0) {
+        if (errno != EINTR) sr.ok = result::e_sys_api_epoll;
+      }
       else
         for (int n = 0; n < ep_c; ++n)
           if (is_ev_of(n, sr.il.fd))
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index bc1c85f..f5e5061 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1287,6 +1287,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 
 #if (KERNEL_VERSION(2, 7, 0) <= LINUX_VERSION_CODE) || __ANDROID_API__
 
+#include <errno.h>
 #include <filesystem>
 #include <limits.h>
 #include <string.h>
@@ -1601,8 +1602,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
-  if (read_len < 0 && errno != EAGAIN)
-    return result::e_sys_api_read;
+  if (read_len < 0)
+    return errno == EAGAIN || errno == EINTR ? result::pending
+                                             : result::e_sys_api_read;
   else {
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
     auto const* const in_ev_tail = (inotify_event*)(sr.ke.ev_buf + read_len);
@@ -1647,6 +1649,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 #error "Define 'WATER_WATCHER_USE_WARTHOG' on kernel versions < 2.7.0"
 #endif
 
+#include <errno.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter {
@@ -1663,8 +1666,9 @@ inline auto watch =
     while (sr.ok < result::complete) {
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
-      if (ep_c < 0)
-        sr.ok = result::e_sys_api_epoll;
+      if (ep_c < 0) {
+        if (errno != EINTR) sr.ok = result::e_sys_api_epoll;
+      }
       else
         for (int n = 0; n < ep_c; ++n)
           if (is_ev_of(n, sr.il.fd))
-- 
2.43.0


From 39503472cca485e83446b3250b9a1b9f2f4bacaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 02/53] fix: fanotify: tell failed reads from empty ones

The errno check was inverted: a read which failed for good was retried
forever, with a full processor core, and one which merely found nothing
(EAGAIN) ended the watcher with an error.
---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp    | 7 +++----
 include/wtr/watcher.hpp                                    | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 49f995e..6d3c694 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -261,10 +261,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
-    return result::pending;
-  else if (read_len < 0)
-    return result::e_sys_api_read;
+  if (read_len < 0)
+    return errno == EAGAIN || errno == EINTR ? result::pending
+                                             : result::e_sys_api_read;
   else
     while (mtd && FAN_EVENT_OK(mtd, read_len))
       if (read_ev_count++ > sr.ke.c_ulim)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index f5e5061..ba241d2 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1247,10 +1247,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
-    return result::pending;
-  else if (read_len < 0)
-    return result::e_sys_api_read;
+  if (read_len < 0)
+    return errno == EAGAIN || errno == EINTR ? result::pending
+                                             : result::e_sys_api_read;
   else
     while (mtd && FAN_EVENT_OK(mtd, read_len))
       if (read_ev_count++ > sr.ke.c_ulim)
-- 
2.43.0


From 1cdde0fbd611ca0dba17c2198444febdaa8a701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 03/53] fix: a close or an error is not forgotten while
 handling other events

When epoll reported both our semaphore and the event queue, whichever was
handled last decided the result: reading events after being asked to close
reset the result to pending, and a close hid an error.
---
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 2 +-
 include/wtr/watcher.hpp                                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index 7a40347..19e7cc8 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -31,7 +31,7 @@ inline auto watch =
         if (errno != EINTR) sr.ok = result::e_sys_api_epoll;
       }
       else
-        for (int n = 0; n < ep_c; ++n)
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index ba241d2..a77bff9 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1669,7 +1669,7 @@ inline auto watch =
         if (errno != EINTR) sr.ok = result::e_sys_api_epoll;
       }
       else
-        for (int n = 0; n < ep_c; ++n)
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
-- 
2.43.0


From 5a2a9c08336310c51227a94bc018b5a602f48af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 04/53] fix: do not leak the inotify and fanotify descriptors
 into child processes

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp        | 1 +
 .../include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp | 2 +-
 include/wtr/watcher.hpp                                        | 3 ++-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 6d3c694..8731d6f 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -45,6 +45,7 @@ struct ke_fa_ev {
     | FAN_REPORT_NAME
     | FAN_UNLIMITED_QUEUE
     | FAN_UNLIMITED_MARKS
+    | FAN_CLOEXEC
     | FAN_NONBLOCK;
   /*  todo: Support change of ownership w/ FAN_ATTRIB */
   static constexpr auto recv_flags
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 1ae10dc..605accc 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -127,7 +127,7 @@ inline auto make_sysres = [](
   auto make_inotify = [](result* ok) -> int
   {
     if (*ok >= result::e) return -1;
-    int in_fd = inotify_init();
+    int in_fd = inotify_init1(IN_CLOEXEC | IN_NONBLOCK);
     if (in_fd < 0) *ok = result::e_sys_api_inotify;
     return in_fd;
   };
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index a77bff9..81611f9 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1031,6 +1031,7 @@ struct ke_fa_ev {
     | FAN_REPORT_NAME
     | FAN_UNLIMITED_QUEUE
     | FAN_UNLIMITED_MARKS
+    | FAN_CLOEXEC
     | FAN_NONBLOCK;
   /*  todo: Support change of ownership w/ FAN_ATTRIB */
   static constexpr auto recv_flags
@@ -1405,7 +1406,7 @@ inline auto make_sysres = [](
   auto make_inotify = [](result* ok) -> int
   {
     if (*ok >= result::e) return -1;
-    int in_fd = inotify_init();
+    int in_fd = inotify_init1(IN_CLOEXEC | IN_NONBLOCK);
     if (in_fd < 0) *ok = result::e_sys_api_inotify;
     return in_fd;
   };
-- 
2.43.0


From fb105b314393a6a55772c7b0105e4984c952fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 05/53] fix: fanotify: descriptor 0 is a valid descriptor

With standard input closed, the first descriptor we are given is 0. It was
mistaken for a failure, and leaked.
---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp     | 6 +++---
 include/wtr/watcher.hpp                                     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 8731d6f..c70277e 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -95,10 +95,10 @@ inline auto make_sysres = [](
                             semabin const& living) -> sysres
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
@@ -149,7 +149,7 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
+  if (fd < 0) {
     *ec = errno;
     return {};
   }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 81611f9..325350f 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1081,10 +1081,10 @@ inline auto make_sysres = [](
                             semabin const& living) -> sysres
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
@@ -1135,7 +1135,7 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
+  if (fd < 0) {
     *ec = errno;
     return {};
   }
-- 
2.43.0


From 6bb2b92019c08a36729c098820a7d9826edaaac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 06/53] fix: say so when a directory can not be watched

While walking the watched tree we skipped, silently, directories which could
not be opened or listed, and directories on filesystems which don't report
the type of their entries (DT_UNKNOWN). A base directory which could not be
marked at all left a fanotify watcher running, deaf; inotify, which we now
fall back to, may still be able to watch it.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 25 +++----
 .../watcher/adapter/linux/inotify/watch.hpp   | 20 +++--
 .../wtr/watcher/adapter/linux/sysres.hpp      | 29 +++++---
 include/wtr/watcher.hpp                       | 74 +++++++++++--------
 4 files changed, 88 insertions(+), 60 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index c70277e..1653a75 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -69,19 +69,14 @@ struct sysres {
   adapter::ep ep{};
 };
 
-inline auto do_mark =
-  [](char const* const dirpath, int fa_fd, auto const& cb) -> result
+inline auto do_mark = [](char const* const dirpath, int fa_fd) -> result
 {
-  auto e = result::w_sys_not_watched;
   char real[PATH_MAX];
   int anonymous_wd =
     realpath(dirpath, real) && is_dir(real)
       ? fanotify_mark(fa_fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
       : -1;
-  if (anonymous_wd == 0)
-    return result::complete;
-  else
-    return send_msg(e, dirpath, cb), e;
+  return anonymous_wd == 0 ? result::complete : result::w_sys_not_watched;
 };
 
 /*  Grabs the resources we need from `fanotify`
@@ -96,7 +91,12 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  char real[PATH_MAX];
+  auto mark = [&](auto dir) { return do_mark(dir, fa_fd); };
+  if (realpath(base_path, real) && mark(real) == result::complete)
+    walkdir_do(real, mark, cb);
+  else
+    return close(fa_fd), sysres{.ok = result::e_sys_api_fanotify, .il = living};
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
@@ -221,14 +221,13 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
 }
 
 inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> result
+  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> void
 {
   auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
                 && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  if (is_newdir)
-    return do_mark(ev.path_name.c_str(), fa_fd, cb);
-  else
-    return result::complete;
+  auto dir = ev.path_name.c_str();
+  if (is_newdir && do_mark(dir, fa_fd) != result::complete)
+    send_msg(result::w_sys_not_watched, dir, cb);
 };
 
 /*  Read some events from what fanotify gives
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 605accc..fedbf23 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -106,9 +106,8 @@ struct sysres {
 };
 
 inline auto do_mark =
-  [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> result
+  [](char const* const dirpath, int dirfd, auto& dm) -> result
 {
-  auto e = result::w_sys_not_watched;
   char real[PATH_MAX];
   int wd = realpath(dirpath, real) && is_dir(real)
            ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
@@ -116,7 +115,7 @@ inline auto do_mark =
   if (wd > 0)
     return dm.emplace(wd, real), result::complete;
   else
-    return send_msg(e, dirpath, cb), e;
+    return result::w_sys_not_watched;
 };
 
 inline auto make_sysres = [](
@@ -136,8 +135,12 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    walkdir_do(base_path, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
-    if (dm.empty()) *ok = result::e_self_noent;
+    char real[PATH_MAX];
+    auto mark = [&](auto dir) { return do_mark(dir, in_fd, dm); };
+    if (realpath(base_path, real) && mark(real) == result::complete)
+      walkdir_do(real, mark, cb);
+    else
+      *ok = result::e_self_noent;
     return dm;
   };
 
@@ -345,8 +348,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        if (msk & IN_ISDIR && msk & IN_CREATE) {
+          auto dir = ev.path_name.c_str();
+          if (do_mark(dir, sr.ke.fd, sr.ke.dm) != result::complete)
+            send_msg(result::w_sys_not_watched, dir, cb);
+        }
         cb(ev);
         in_ev_next = next;
       }
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 5d6a7ba..44752ec 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -148,23 +148,32 @@ inline auto is_dir(char const* const path) -> bool
     hot find-and-mark path, despite
     not having a full picture.
 */
-template<class Fn>
-inline auto walkdir_do(char const* const path, Fn const& f) -> void
+template<class Fn, class Cb>
+inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> void
 {
+  /*  Some filesystems don't tell us what kind of
+      file a directory entry is (DT_UNKNOWN). */
+  auto is_subdir = [](dirent const* const de, char const* const de_path)
+  {
+    struct stat s;
+    return de->d_type == DT_DIR
+        || (de->d_type == DT_UNKNOWN && lstat(de_path, &s) == 0
+            && S_ISDIR(s.st_mode));
+  };
+  bool ok = f(path) == result::complete;
   if (DIR* d = opendir(path)) {
-    f(path);
-    while (dirent* de = readdir(d)) {
-      char next[PATH_MAX];
-      char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
+    while (dirent* de = (errno = 0, readdir(d))) {
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
-      if (! realpath(next, real)) continue;
-      walkdir_do(real, f);
+      auto next = std::string{path} + '/' + de->d_name;
+      if (is_subdir(de, next.c_str())) walkdir_do(next.c_str(), f, cb);
     }
+    ok = ok && errno == 0;
     (void)closedir(d);
   }
+  else
+    ok = false;
+  if (! ok) send_msg(result::w_sys_not_watched, path, cb);
 }
 
 } /*  namespace detail::wtr::watcher::adapter */
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 325350f..8e23456 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -964,23 +964,32 @@ inline auto is_dir(char const* const path) -> bool
     hot find-and-mark path, despite
     not having a full picture.
 */
-template<class Fn>
-inline auto walkdir_do(char const* const path, Fn const& f) -> void
+template<class Fn, class Cb>
+inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> void
 {
+  /*  Some filesystems don't tell us what kind of
+      file a directory entry is (DT_UNKNOWN). */
+  auto is_subdir = [](dirent const* const de, char const* const de_path)
+  {
+    struct stat s;
+    return de->d_type == DT_DIR
+        || (de->d_type == DT_UNKNOWN && lstat(de_path, &s) == 0
+            && S_ISDIR(s.st_mode));
+  };
+  bool ok = f(path) == result::complete;
   if (DIR* d = opendir(path)) {
-    f(path);
-    while (dirent* de = readdir(d)) {
-      char next[PATH_MAX];
-      char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
+    while (dirent* de = (errno = 0, readdir(d))) {
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
-      if (! realpath(next, real)) continue;
-      walkdir_do(real, f);
+      auto next = std::string{path} + '/' + de->d_name;
+      if (is_subdir(de, next.c_str())) walkdir_do(next.c_str(), f, cb);
     }
+    ok = ok && errno == 0;
     (void)closedir(d);
   }
+  else
+    ok = false;
+  if (! ok) send_msg(result::w_sys_not_watched, path, cb);
 }
 
 } /*  namespace detail::wtr::watcher::adapter */
@@ -1055,19 +1064,14 @@ struct sysres {
   adapter::ep ep{};
 };
 
-inline auto do_mark =
-  [](char const* const dirpath, int fa_fd, auto const& cb) -> result
+inline auto do_mark = [](char const* const dirpath, int fa_fd) -> result
 {
-  auto e = result::w_sys_not_watched;
   char real[PATH_MAX];
   int anonymous_wd =
     realpath(dirpath, real) && is_dir(real)
       ? fanotify_mark(fa_fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
       : -1;
-  if (anonymous_wd == 0)
-    return result::complete;
-  else
-    return send_msg(e, dirpath, cb), e;
+  return anonymous_wd == 0 ? result::complete : result::w_sys_not_watched;
 };
 
 /*  Grabs the resources we need from `fanotify`
@@ -1082,7 +1086,12 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  char real[PATH_MAX];
+  auto mark = [&](auto dir) { return do_mark(dir, fa_fd); };
+  if (realpath(base_path, real) && mark(real) == result::complete)
+    walkdir_do(real, mark, cb);
+  else
+    return close(fa_fd), sysres{.ok = result::e_sys_api_fanotify, .il = living};
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
@@ -1207,14 +1216,13 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
 }
 
 inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> result
+  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> void
 {
   auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
                 && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  if (is_newdir)
-    return do_mark(ev.path_name.c_str(), fa_fd, cb);
-  else
-    return result::complete;
+  auto dir = ev.path_name.c_str();
+  if (is_newdir && do_mark(dir, fa_fd) != result::complete)
+    send_msg(result::w_sys_not_watched, dir, cb);
 };
 
 /*  Read some events from what fanotify gives
@@ -1385,9 +1393,8 @@ struct sysres {
 };
 
 inline auto do_mark =
-  [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> result
+  [](char const* const dirpath, int dirfd, auto& dm) -> result
 {
-  auto e = result::w_sys_not_watched;
   char real[PATH_MAX];
   int wd = realpath(dirpath, real) && is_dir(real)
            ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
@@ -1395,7 +1402,7 @@ inline auto do_mark =
   if (wd > 0)
     return dm.emplace(wd, real), result::complete;
   else
-    return send_msg(e, dirpath, cb), e;
+    return result::w_sys_not_watched;
 };
 
 inline auto make_sysres = [](
@@ -1415,8 +1422,12 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    walkdir_do(base_path, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
-    if (dm.empty()) *ok = result::e_self_noent;
+    char real[PATH_MAX];
+    auto mark = [&](auto dir) { return do_mark(dir, in_fd, dm); };
+    if (realpath(base_path, real) && mark(real) == result::complete)
+      walkdir_do(real, mark, cb);
+    else
+      *ok = result::e_self_noent;
     return dm;
   };
 
@@ -1624,8 +1635,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        if (msk & IN_ISDIR && msk & IN_CREATE) {
+          auto dir = ev.path_name.c_str();
+          if (do_mark(dir, sr.ke.fd, sr.ke.dm) != result::complete)
+            send_msg(result::w_sys_not_watched, dir, cb);
+        }
         cb(ev);
         in_ev_next = next;
       }
-- 
2.43.0


From 5a15f3f3558ba70647f71c39512d88fe7bc4e212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 07/53] fix: watch the directories which already are in a new
 directory

A directory which is created and filled with other directories before we get
to mark it (mkdir -p, tar, git checkout, ...) was watched, the directories in
it were not: we never hear of their creation.
---
 .../watcher/adapter/linux/fanotify/watch.hpp   |  8 +++++---
 .../watcher/adapter/linux/inotify/watch.hpp    | 10 +++++-----
 include/wtr/watcher.hpp                        | 18 ++++++++++--------
 3 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 1653a75..35191a9 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -225,9 +225,11 @@ inline auto do_mark_if_newdir =
 {
   auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
                 && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  auto dir = ev.path_name.c_str();
-  if (is_newdir && do_mark(dir, fa_fd) != result::complete)
-    send_msg(result::w_sys_not_watched, dir, cb);
+  if (is_newdir)
+    walkdir_do(
+      ev.path_name.c_str(),
+      [&](auto dir) { return do_mark(dir, fa_fd); },
+      cb);
 };
 
 /*  Read some events from what fanotify gives
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index fedbf23..8cad5ec 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -348,11 +348,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE) {
-          auto dir = ev.path_name.c_str();
-          if (do_mark(dir, sr.ke.fd, sr.ke.dm) != result::complete)
-            send_msg(result::w_sys_not_watched, dir, cb);
-        }
+        if (msk & IN_ISDIR && msk & IN_CREATE)
+          walkdir_do(
+            ev.path_name.c_str(),
+            [&](auto dir) { return do_mark(dir, sr.ke.fd, sr.ke.dm); },
+            cb);
         cb(ev);
         in_ev_next = next;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 8e23456..67ac73d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1220,9 +1220,11 @@ inline auto do_mark_if_newdir =
 {
   auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
                 && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  auto dir = ev.path_name.c_str();
-  if (is_newdir && do_mark(dir, fa_fd) != result::complete)
-    send_msg(result::w_sys_not_watched, dir, cb);
+  if (is_newdir)
+    walkdir_do(
+      ev.path_name.c_str(),
+      [&](auto dir) { return do_mark(dir, fa_fd); },
+      cb);
 };
 
 /*  Read some events from what fanotify gives
@@ -1635,11 +1637,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE) {
-          auto dir = ev.path_name.c_str();
-          if (do_mark(dir, sr.ke.fd, sr.ke.dm) != result::complete)
-            send_msg(result::w_sys_not_watched, dir, cb);
-        }
+        if (msk & IN_ISDIR && msk & IN_CREATE)
+          walkdir_do(
+            ev.path_name.c_str(),
+            [&](auto dir) { return do_mark(dir, sr.ke.fd, sr.ke.dm); },
+            cb);
         cb(ev);
         in_ev_next = next;
       }
-- 
2.43.0


From 9838f4517b5547a36d7fdaa888e60798ea520aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 08/53] fix: never follow a symbolic link to mark a directory

A new directory which is quickly replaced by a symbolic link made us watch,
and report on, whatever the link points to.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  |  6 ++--
 .../watcher/adapter/linux/inotify/watch.hpp   |  8 ++---
 .../wtr/watcher/adapter/linux/sysres.hpp      | 16 +++++-----
 include/wtr/watcher.hpp                       | 30 +++++++++----------
 4 files changed, 28 insertions(+), 32 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 35191a9..284b4bd 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -71,11 +71,9 @@ struct sysres {
 
 inline auto do_mark = [](char const* const dirpath, int fa_fd) -> result
 {
-  char real[PATH_MAX];
+  auto flags = FAN_MARK_ADD | FAN_MARK_ONLYDIR | FAN_MARK_DONT_FOLLOW;
   int anonymous_wd =
-    realpath(dirpath, real) && is_dir(real)
-      ? fanotify_mark(fa_fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
-      : -1;
+    fanotify_mark(fa_fd, flags, ke_fa_ev::recv_flags, AT_FDCWD, dirpath);
   return anonymous_wd == 0 ? result::complete : result::w_sys_not_watched;
 };
 
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 8cad5ec..64b993f 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -108,12 +108,10 @@ struct sysres {
 inline auto do_mark =
   [](char const* const dirpath, int dirfd, auto& dm) -> result
 {
-  char real[PATH_MAX];
-  int wd = realpath(dirpath, real) && is_dir(real)
-           ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
-           : -1;
+  auto flags = ke_in_ev::recv_mask | IN_ONLYDIR | IN_DONT_FOLLOW;
+  int wd = inotify_add_watch(dirfd, dirpath, flags);
   if (wd > 0)
-    return dm.emplace(wd, real), result::complete;
+    return dm.emplace(wd, dirpath), result::complete;
   else
     return result::w_sys_not_watched;
 };
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 44752ec..6a7a6a0 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -6,6 +6,7 @@
 #include "wtr/watcher.hpp"
 #include <dirent.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <limits.h>
 #include <stdio.h>
 #include <string.h>
@@ -125,7 +126,7 @@ inline auto make_ep(int ev_fs_fd, int ev_il_fd) -> ep
 inline auto is_dir(char const* const path) -> bool
 {
   struct stat s;
-  return stat(path, &s) == 0 && S_ISDIR(s.st_mode);
+  return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
 }
 
 /*  $ echo time wtr.watcher / -ms 1
@@ -155,13 +156,12 @@ inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> voi
       file a directory entry is (DT_UNKNOWN). */
   auto is_subdir = [](dirent const* const de, char const* const de_path)
   {
-    struct stat s;
-    return de->d_type == DT_DIR
-        || (de->d_type == DT_UNKNOWN && lstat(de_path, &s) == 0
-            && S_ISDIR(s.st_mode));
+    return de->d_type == DT_DIR || (de->d_type == DT_UNKNOWN && is_dir(de_path));
   };
   bool ok = f(path) == result::complete;
-  if (DIR* d = opendir(path)) {
+  int fd = open(path, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
+  DIR* d = fd < 0 ? nullptr : fdopendir(fd);
+  if (d) {
     while (dirent* de = (errno = 0, readdir(d))) {
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
@@ -171,8 +171,10 @@ inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> voi
     ok = ok && errno == 0;
     (void)closedir(d);
   }
-  else
+  else {
+    if (fd >= 0) close(fd);
     ok = false;
+  }
   if (! ok) send_msg(result::w_sys_not_watched, path, cb);
 }
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 67ac73d..c991686 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -822,6 +822,7 @@ inline auto watch(
 
 #include <dirent.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <limits.h>
 #include <stdio.h>
 #include <string.h>
@@ -941,7 +942,7 @@ inline auto make_ep(int ev_fs_fd, int ev_il_fd) -> ep
 inline auto is_dir(char const* const path) -> bool
 {
   struct stat s;
-  return stat(path, &s) == 0 && S_ISDIR(s.st_mode);
+  return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
 }
 
 /*  $ echo time wtr.watcher / -ms 1
@@ -971,13 +972,12 @@ inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> voi
       file a directory entry is (DT_UNKNOWN). */
   auto is_subdir = [](dirent const* const de, char const* const de_path)
   {
-    struct stat s;
-    return de->d_type == DT_DIR
-        || (de->d_type == DT_UNKNOWN && lstat(de_path, &s) == 0
-            && S_ISDIR(s.st_mode));
+    return de->d_type == DT_DIR || (de->d_type == DT_UNKNOWN && is_dir(de_path));
   };
   bool ok = f(path) == result::complete;
-  if (DIR* d = opendir(path)) {
+  int fd = open(path, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
+  DIR* d = fd < 0 ? nullptr : fdopendir(fd);
+  if (d) {
     while (dirent* de = (errno = 0, readdir(d))) {
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
@@ -987,8 +987,10 @@ inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> voi
     ok = ok && errno == 0;
     (void)closedir(d);
   }
-  else
+  else {
+    if (fd >= 0) close(fd);
     ok = false;
+  }
   if (! ok) send_msg(result::w_sys_not_watched, path, cb);
 }
 
@@ -1066,11 +1068,9 @@ struct sysres {
 
 inline auto do_mark = [](char const* const dirpath, int fa_fd) -> result
 {
-  char real[PATH_MAX];
+  auto flags = FAN_MARK_ADD | FAN_MARK_ONLYDIR | FAN_MARK_DONT_FOLLOW;
   int anonymous_wd =
-    realpath(dirpath, real) && is_dir(real)
-      ? fanotify_mark(fa_fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
-      : -1;
+    fanotify_mark(fa_fd, flags, ke_fa_ev::recv_flags, AT_FDCWD, dirpath);
   return anonymous_wd == 0 ? result::complete : result::w_sys_not_watched;
 };
 
@@ -1397,12 +1397,10 @@ struct sysres {
 inline auto do_mark =
   [](char const* const dirpath, int dirfd, auto& dm) -> result
 {
-  char real[PATH_MAX];
-  int wd = realpath(dirpath, real) && is_dir(real)
-           ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
-           : -1;
+  auto flags = ke_in_ev::recv_mask | IN_ONLYDIR | IN_DONT_FOLLOW;
+  int wd = inotify_add_watch(dirfd, dirpath, flags);
   if (wd > 0)
-    return dm.emplace(wd, real), result::complete;
+    return dm.emplace(wd, dirpath), result::complete;
   else
     return result::w_sys_not_watched;
 };
-- 
2.43.0


From 4e33450794f7b9d57b56b18f9562efd81dd0072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 09/53] fix: fanotify: one bad event does not take the rest of
 the batch with it

An event we could not make sense of (an unresolvable directory, in most cases
one which was just removed) or a queue overflow made us forget, silently, all
of the events which were read along with it. Say what is wrong, and go on.
The half of a rename which can be reported still is.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 41 +++++++++++++------
 include/wtr/watcher.hpp                       | 41 +++++++++++++------
 2 files changed, 58 insertions(+), 24 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 284b4bd..11e705e 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -64,6 +64,7 @@ struct ke_fa_ev {
 
 struct sysres {
   result ok = result::e;
+  char const* base = "";
   ke_fa_ev ke{};
   semabin const& il{};
   adapter::ep ep{};
@@ -100,6 +101,7 @@ inline auto make_sysres = [](
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
+    .base = base_path,
     .ke{.fd = fa_fd},
     .il = living,
     .ep = ep,
@@ -205,12 +207,15 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
   auto one = [&](auto* m) -> Parsed
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
-  auto assoc = [&](auto* m, auto* n) -> Parsed
+  auto assoc = [&](auto* from, auto* to) -> Parsed
   {
-    auto nn = peek(n, read_len);
+    int assoc_ec = 0;
+    auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
-    return {e, nn, here_to_nnn};
+    auto e = ev(
+      ev(pathof(from, &assoc_ec), et, pt),
+      ev(pathof(to, &assoc_ec), et, pt));
+    return assoc_ec ? one(m) : Parsed{e, nn, here_to_nnn};
   };
   return ! n                        ? one(m)
        : isfromto(m->mask, n->mask) ? assoc(m, n)
@@ -261,6 +266,15 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
+  /*  Whatever is wrong with one event, the
+      ones behind it are none the worse. */
+  auto skip_with = [&](result r)
+  {
+    send_msg(r, sr.base, cb);
+    auto const* const next = peek(mtd, read_len);
+    read_len -= mtd->event_len;
+    mtd = next;
+  };
   if (read_len < 0)
     return errno == EAGAIN || errno == EINTR ? result::pending
                                              : result::e_sys_api_read;
@@ -271,19 +285,22 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
       else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
+        skip_with(result::w_sys_bad_fd);
       else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
+        skip_with(result::w_sys_q_overflow);
       else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
+        skip_with(result::w_sys_bad_meta);
       else {
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
-        cb(ev);
-        mtd = n;
-        read_len -= l;
+        if (ec)
+          skip_with(result::w_sys_bad_fd);
+        else {
+          do_mark_if_newdir(ev, sr.ke.fd, cb);
+          cb(ev);
+          mtd = n;
+          read_len -= l;
+        }
       }
   return result::pending;
 };
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index c991686..1e18e7d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1061,6 +1061,7 @@ struct ke_fa_ev {
 
 struct sysres {
   result ok = result::e;
+  char const* base = "";
   ke_fa_ev ke{};
   semabin const& il{};
   adapter::ep ep{};
@@ -1097,6 +1098,7 @@ inline auto make_sysres = [](
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
+    .base = base_path,
     .ke{.fd = fa_fd},
     .il = living,
     .ep = ep,
@@ -1202,12 +1204,15 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
   auto one = [&](auto* m) -> Parsed
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
-  auto assoc = [&](auto* m, auto* n) -> Parsed
+  auto assoc = [&](auto* from, auto* to) -> Parsed
   {
-    auto nn = peek(n, read_len);
+    int assoc_ec = 0;
+    auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
-    return {e, nn, here_to_nnn};
+    auto e = ev(
+      ev(pathof(from, &assoc_ec), et, pt),
+      ev(pathof(to, &assoc_ec), et, pt));
+    return assoc_ec ? one(m) : Parsed{e, nn, here_to_nnn};
   };
   return ! n                        ? one(m)
        : isfromto(m->mask, n->mask) ? assoc(m, n)
@@ -1258,6 +1263,15 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
+  /*  Whatever is wrong with one event, the
+      ones behind it are none the worse. */
+  auto skip_with = [&](result r)
+  {
+    send_msg(r, sr.base, cb);
+    auto const* const next = peek(mtd, read_len);
+    read_len -= mtd->event_len;
+    mtd = next;
+  };
   if (read_len < 0)
     return errno == EAGAIN || errno == EINTR ? result::pending
                                              : result::e_sys_api_read;
@@ -1268,19 +1282,22 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
       else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
+        skip_with(result::w_sys_bad_fd);
       else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
+        skip_with(result::w_sys_q_overflow);
       else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
+        skip_with(result::w_sys_bad_meta);
       else {
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
-        cb(ev);
-        mtd = n;
-        read_len -= l;
+        if (ec)
+          skip_with(result::w_sys_bad_fd);
+        else {
+          do_mark_if_newdir(ev, sr.ke.fd, cb);
+          cb(ev);
+          mtd = n;
+          read_len -= l;
+        }
       }
   return result::pending;
 };
-- 
2.43.0


From bbc0f825bfee35351c8dab8c622de2a63def3cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 10/53] fix: fanotify: check the result of readlink, and don't
 cut long paths short

A failing readlink made us write before the beginning of a buffer and report
whatever was in it. The path of a file in a directory with a path nearly as
long as PATH_MAX was truncated.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 21 ++++++++++---------
 include/wtr/watcher.hpp                       | 21 ++++++++++---------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 11e705e..f83bb30 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -141,12 +141,10 @@ inline auto make_sysres = [](
 inline auto
 pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
 {
-  constexpr size_t path_ulim = PATH_MAX - sizeof('\0');
   constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
   auto dir_info = (fanotify_event_info_fid*)(mtd + 1);
   auto dir_fh = (file_handle*)(dir_info->handle);
   char path_buf[PATH_MAX];
-  ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
   if (fd < 0) {
@@ -155,20 +153,23 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   }
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
-  file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  ssize_t dir_len = readlink(fs_ev_pidpath, path_buf, sizeof(path_buf));
+  if (dir_len < 0) {
+    *ec = errno;
+    close(fd);
+    return {};
+  }
+  auto path = std::string(path_buf, dir_len);
   close(fd);
-  path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
-      can start writing the file name after its offset. */
-  if (file_name_offset > 0) {
+      can start writing the file name after it. */
+  if (dir_len > 0) {
     char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
     auto not_selfdir = strcmp(file_name, ".") != 0;
-    auto beg = path_buf + file_name_offset;
-    auto end = PATH_MAX - file_name_offset;
-    if (file_name && not_selfdir) snprintf(beg, end, "/%s", file_name);
+    if (not_selfdir) path += '/', path += file_name;
   }
-  return {path_buf};
+  return path;
 }
 
 inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 1e18e7d..85d8542 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1138,12 +1138,10 @@ inline auto make_sysres = [](
 inline auto
 pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
 {
-  constexpr size_t path_ulim = PATH_MAX - sizeof('\0');
   constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
   auto dir_info = (fanotify_event_info_fid*)(mtd + 1);
   auto dir_fh = (file_handle*)(dir_info->handle);
   char path_buf[PATH_MAX];
-  ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
   if (fd < 0) {
@@ -1152,20 +1150,23 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   }
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
-  file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  ssize_t dir_len = readlink(fs_ev_pidpath, path_buf, sizeof(path_buf));
+  if (dir_len < 0) {
+    *ec = errno;
+    close(fd);
+    return {};
+  }
+  auto path = std::string(path_buf, dir_len);
   close(fd);
-  path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
-      can start writing the file name after its offset. */
-  if (file_name_offset > 0) {
+      can start writing the file name after it. */
+  if (dir_len > 0) {
     char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
     auto not_selfdir = strcmp(file_name, ".") != 0;
-    auto beg = path_buf + file_name_offset;
-    auto end = PATH_MAX - file_name_offset;
-    if (file_name && not_selfdir) snprintf(beg, end, "/%s", file_name);
+    if (not_selfdir) path += '/', path += file_name;
   }
-  return {path_buf};
+  return path;
 }
 
 inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
-- 
2.43.0


From d5bcd1c7c0e9886b696bd874d833629ed61e0c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 11/53] fix: fanotify: don't report " (deleted)" as a part of a
 path

The kernel appends it to the paths of directories which are removed, but
still in use by someone, which is how it ended up in the middle of the paths
of events in such a directory.
---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp   | 14 ++++++++++++++
 include/wtr/watcher.hpp                            | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index f83bb30..392d6fc 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -14,8 +14,10 @@
 #include <stdio.h>
 #include <string.h>
 #include <string>
+#include <string_view>
 #include <sys/epoll.h>
 #include <sys/fanotify.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter::fanotify {
@@ -160,6 +162,18 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
     return {};
   }
   auto path = std::string(path_buf, dir_len);
+  /*  The kernel tags the path of a removed directory.
+      (Which is not to say that a directory isn't
+      allowed to have a name like this.) */
+  auto const tag = std::string_view{" (deleted)"};
+  auto tag_at = path.size() > tag.size() ? path.size() - tag.size() : 0;
+  struct stat by_fd, by_path;
+  if (
+    tag_at && path.compare(tag_at, tag.size(), tag) == 0
+    && fstat(fd, &by_fd) == 0
+    && (lstat(path.c_str(), &by_path) != 0
+        || by_path.st_ino != by_fd.st_ino || by_path.st_dev != by_fd.st_dev))
+    path.erase(tag_at);
   close(fd);
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 85d8542..ba101ab 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1011,8 +1011,10 @@ inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> voi
 #include <stdio.h>
 #include <string.h>
 #include <string>
+#include <string_view>
 #include <sys/epoll.h>
 #include <sys/fanotify.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter::fanotify {
@@ -1157,6 +1159,18 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
     return {};
   }
   auto path = std::string(path_buf, dir_len);
+  /*  The kernel tags the path of a removed directory.
+      (Which is not to say that a directory isn't
+      allowed to have a name like this.) */
+  auto const tag = std::string_view{" (deleted)"};
+  auto tag_at = path.size() > tag.size() ? path.size() - tag.size() : 0;
+  struct stat by_fd, by_path;
+  if (
+    tag_at && path.compare(tag_at, tag.size(), tag) == 0
+    && fstat(fd, &by_fd) == 0
+    && (lstat(path.c_str(), &by_path) != 0
+        || by_path.st_ino != by_fd.st_ino || by_path.st_dev != by_fd.st_dev))
+    path.erase(tag_at);
   close(fd);
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
-- 
2.43.0


From 64299e42f31147b6a894968dc67ffebe115a317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 12/53] fix: fanotify: one slash is enough between the root
 directory and its entries

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp      | 5 ++++-
 include/wtr/watcher.hpp                                      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 392d6fc..ee62695 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -181,7 +181,10 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   if (dir_len > 0) {
     char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
     auto not_selfdir = strcmp(file_name, ".") != 0;
-    if (not_selfdir) path += '/', path += file_name;
+    if (not_selfdir) {
+      if (path.back() != '/') path += '/';
+      path += file_name;
+    }
   }
   return path;
 }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index ba101ab..18a93dc 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1178,7 +1178,10 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   if (dir_len > 0) {
     char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
     auto not_selfdir = strcmp(file_name, ".") != 0;
-    if (not_selfdir) path += '/', path += file_name;
+    if (not_selfdir) {
+      if (path.back() != '/') path += '/';
+      path += file_name;
+    }
   }
   return path;
 }
-- 
2.43.0


From 777311b5b11f7bfb4cd78141fa663cd93831ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 13/53] fix: inotify: announce a queue overflow as one

The watch descriptor of an overflow event is -1, so it was never found in our
map of directories and was announced as a phantom event.
---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp      | 6 ++++--
 include/wtr/watcher.hpp                                     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 64b993f..c668f39 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -100,6 +100,7 @@ struct ke_in_ev {
 
 struct sysres {
   result ok = result::e;
+  char const* base = "";
   ke_in_ev ke{};
   semabin const& il{};
   adapter::ep ep{};
@@ -156,6 +157,7 @@ inline auto make_sysres = [](
   auto ep = make_ep(&ok, in_fd, living.fd);
   return sysres{
     .ok = ok,
+    .base = base_path,
     .ke{
         .fd = in_fd,
         .dm = std::move(dm),
@@ -340,10 +342,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        send_msg(result::w_sys_q_overflow, sr.base, cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 18a93dc..61f6bae 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1424,6 +1424,7 @@ struct ke_in_ev {
 
 struct sysres {
   result ok = result::e;
+  char const* base = "";
   ke_in_ev ke{};
   semabin const& il{};
   adapter::ep ep{};
@@ -1480,6 +1481,7 @@ inline auto make_sysres = [](
   auto ep = make_ep(&ok, in_fd, living.fd);
   return sysres{
     .ok = ok,
+    .base = base_path,
     .ke{
         .fd = in_fd,
         .dm = std::move(dm),
@@ -1664,10 +1666,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        send_msg(result::w_sys_q_overflow, sr.base, cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
-- 
2.43.0


From 4790842abb7cee648fd9c160635058e74938a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 14/53] fix: inotify: no phantom events after the removal of a
 directory

We forgot a removed directory at the end of the batch its IN_DELETE_SELF was
in. The IN_IGNORED behind it, when read in the next batch, was then announced
as a phantom event. IN_IGNORED is the last event of a watch: forget it there.
---
 .../watcher/adapter/linux/inotify/watch.hpp   | 57 +++----------------
 include/wtr/watcher.hpp                       | 57 +++----------------
 2 files changed, 18 insertions(+), 96 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index c668f39..f4c9610 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -91,7 +91,6 @@ struct ke_in_ev {
   using paths = std::unordered_map<int, std::filesystem::path>;
   paths dm{};
   alignas(inotify_event) char ev_buf[buf_len]{0};
-  int rm_wd_buf[buf_len]{0};
 
   static_assert(sizeof(ev_buf) % sizeof(inotify_event) == 0, "alignment");
 };
@@ -212,36 +211,6 @@ inline auto parse_ev = [](
                              : one(in, next);
 };
 
-struct defer_dm_rm_wd {
-  ke_in_ev& ke;
-  size_t back_idx = 0;
-
-  /*  It is impossible to exceed our buffer
-      because we store as many events as are
-      possible to receive from `read()`.
-      If we do exceed the indices, then some
-      system invariant has been violated. */
-  inline auto push(int wd) -> bool
-  {
-    if (back_idx < ke.buf_len)
-      return ke.rm_wd_buf[back_idx++] = wd, true;
-    else
-      return false;
-  };
-
-  inline defer_dm_rm_wd(ke_in_ev& ke)
-      : ke{ke} {};
-
-  inline ~defer_dm_rm_wd()
-  {
-    for (size_t i = 0; i < back_idx; ++i) {
-      auto wd = ke.rm_wd_buf[i];
-      auto at = ke.dm.find(wd);
-      if (at != ke.dm.end()) ke.dm.erase(at);
-    }
-  };
-};
-
 /*  Parses each event's path name,
     path type and effect.
     Looks for the directory path
@@ -282,24 +251,19 @@ struct defer_dm_rm_wd {
     events. Maybe there is an
     error in our implementation?
 
-    Deferred Events --
+    Ignored Events --
     Inotify closes the removed watch
     descriptors itself. We want to
     keep parity with inotify in our
     path map. That way, we can be
     in agreement about which watch
     descriptors map to which paths.
-    We need to postpone removing
-    this watch and, possibly, its
-    watch descriptor from our path
-    map until we're done with this
-    event batch. Self-destroy events
-    might come before we read other
-    events that would map the watch
-    descriptor to a path. Because
-    we need to look the directory
-    path up in the path map, we
-    will defer its removal.
+    Self-destroy events might come
+    before other events that we need
+    the path of the directory for.
+    IN_IGNORED is the last event of
+    any watch, so that's when we can
+    forget about it.
 
     Other notes:
     Sometimes we can fail to mark
@@ -316,8 +280,6 @@ struct defer_dm_rm_wd {
 */
 inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 {
-  auto is_parity_lost = [](unsigned msk) -> bool
-  { return msk & IN_DELETE_SELF && ! (msk & IN_MOVE_SELF); };
   auto is_real_event = [](unsigned msk) -> bool
   {
     bool has_any = msk & ke_in_ev::recv_mask;
@@ -333,19 +295,18 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
     auto const* const in_ev_tail = (inotify_event*)(sr.ke.ev_buf + read_len);
     unsigned in_ev_c = 0;
-    auto dmrm = defer_dm_rm_wd{sr.ke};
     while (in_ev && in_ev < in_ev_tail) {
       auto in_ev_next = peek(in_ev, in_ev_tail);
       unsigned msk = in_ev->mask;
       auto dmhit = sr.ke.dm.find(in_ev->wd);
       if (in_ev_c++ > ke_in_ev::c_ulim)
         return result::e_sys_ret;
-      else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
-        return result::e_sys_ret;
       else if (msk & IN_Q_OVERFLOW)
         send_msg(result::w_sys_q_overflow, sr.base, cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
+      else if (msk & IN_IGNORED)
+        sr.ke.dm.erase(dmhit);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 61f6bae..2cad781 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1415,7 +1415,6 @@ struct ke_in_ev {
   using paths = std::unordered_map<int, std::filesystem::path>;
   paths dm{};
   alignas(inotify_event) char ev_buf[buf_len]{0};
-  int rm_wd_buf[buf_len]{0};
 
   static_assert(sizeof(ev_buf) % sizeof(inotify_event) == 0, "alignment");
 };
@@ -1536,36 +1535,6 @@ inline auto parse_ev = [](
                              : one(in, next);
 };
 
-struct defer_dm_rm_wd {
-  ke_in_ev& ke;
-  size_t back_idx = 0;
-
-  /*  It is impossible to exceed our buffer
-      because we store as many events as are
-      possible to receive from `read()`.
-      If we do exceed the indices, then some
-      system invariant has been violated. */
-  inline auto push(int wd) -> bool
-  {
-    if (back_idx < ke.buf_len)
-      return ke.rm_wd_buf[back_idx++] = wd, true;
-    else
-      return false;
-  };
-
-  inline defer_dm_rm_wd(ke_in_ev& ke)
-      : ke{ke} {};
-
-  inline ~defer_dm_rm_wd()
-  {
-    for (size_t i = 0; i < back_idx; ++i) {
-      auto wd = ke.rm_wd_buf[i];
-      auto at = ke.dm.find(wd);
-      if (at != ke.dm.end()) ke.dm.erase(at);
-    }
-  };
-};
-
 /*  Parses each event's path name,
     path type and effect.
     Looks for the directory path
@@ -1606,24 +1575,19 @@ struct defer_dm_rm_wd {
     events. Maybe there is an
     error in our implementation?
 
-    Deferred Events --
+    Ignored Events --
     Inotify closes the removed watch
     descriptors itself. We want to
     keep parity with inotify in our
     path map. That way, we can be
     in agreement about which watch
     descriptors map to which paths.
-    We need to postpone removing
-    this watch and, possibly, its
-    watch descriptor from our path
-    map until we're done with this
-    event batch. Self-destroy events
-    might come before we read other
-    events that would map the watch
-    descriptor to a path. Because
-    we need to look the directory
-    path up in the path map, we
-    will defer its removal.
+    Self-destroy events might come
+    before other events that we need
+    the path of the directory for.
+    IN_IGNORED is the last event of
+    any watch, so that's when we can
+    forget about it.
 
     Other notes:
     Sometimes we can fail to mark
@@ -1640,8 +1604,6 @@ struct defer_dm_rm_wd {
 */
 inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 {
-  auto is_parity_lost = [](unsigned msk) -> bool
-  { return msk & IN_DELETE_SELF && ! (msk & IN_MOVE_SELF); };
   auto is_real_event = [](unsigned msk) -> bool
   {
     bool has_any = msk & ke_in_ev::recv_mask;
@@ -1657,19 +1619,18 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
     auto const* const in_ev_tail = (inotify_event*)(sr.ke.ev_buf + read_len);
     unsigned in_ev_c = 0;
-    auto dmrm = defer_dm_rm_wd{sr.ke};
     while (in_ev && in_ev < in_ev_tail) {
       auto in_ev_next = peek(in_ev, in_ev_tail);
       unsigned msk = in_ev->mask;
       auto dmhit = sr.ke.dm.find(in_ev->wd);
       if (in_ev_c++ > ke_in_ev::c_ulim)
         return result::e_sys_ret;
-      else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
-        return result::e_sys_ret;
       else if (msk & IN_Q_OVERFLOW)
         send_msg(result::w_sys_q_overflow, sr.base, cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
+      else if (msk & IN_IGNORED)
+        sr.ke.dm.erase(dmhit);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
-- 
2.43.0


From 7a78921e9d1c47c711a1e47c16b237ad145235f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 15/53] fix: inotify: the new path of a rename may be in
 another directory

We looked for both paths of a rename in the directory of the first one.
---
 .../wtr/watcher/adapter/linux/inotify/watch.hpp       | 11 +++++++----
 include/wtr/watcher.hpp                               | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index f4c9610..b94ad77 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -181,7 +181,7 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
-                         std::filesystem::path const& dirname,
+                         ke_in_ev::paths const& dm,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
 {
@@ -189,7 +189,7 @@ inline auto parse_ev = [](
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  { return dm.at(m->wd) / std::filesystem::path{m->name}; };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -197,7 +197,10 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && dm.find(b->wd) != dm.end();
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
@@ -308,7 +311,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (msk & IN_IGNORED)
         sr.ke.dm.erase(dmhit);
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
+        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
           walkdir_do(
             ev.path_name.c_str(),
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 2cad781..3e7d66a 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1505,7 +1505,7 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
-                         std::filesystem::path const& dirname,
+                         ke_in_ev::paths const& dm,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
 {
@@ -1513,7 +1513,7 @@ inline auto parse_ev = [](
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  { return dm.at(m->wd) / std::filesystem::path{m->name}; };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -1521,7 +1521,10 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && dm.find(b->wd) != dm.end();
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
@@ -1632,7 +1635,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (msk & IN_IGNORED)
         sr.ke.dm.erase(dmhit);
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
+        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
           walkdir_do(
             ev.path_name.c_str(),
-- 
2.43.0


From 0c14987c00e25f6e195f2e4c6f0bd2d5c69acce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 16/53] fix: inotify: keep up with directories which are
 renamed

Everything in a directory which was renamed was, from then on, reported with
its old path. Directories which were moved into the watched tree weren't
watched, and those which were moved out of it still were.
---
 .../watcher/adapter/linux/inotify/watch.hpp   | 116 ++++++++++++++++--
 include/wtr/watcher.hpp                       | 116 ++++++++++++++++--
 2 files changed, 216 insertions(+), 16 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index b94ad77..f7bad69 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -89,7 +89,10 @@ struct ke_in_ev {
 
   int fd = -1;
   using paths = std::unordered_map<int, std::filesystem::path>;
+  using moves = std::unordered_map<unsigned, std::filesystem::path>;
   paths dm{};
+  /*  Directories we saw leave, but not arrive (yet). */
+  moves moved_from{};
   alignas(inotify_event) char ev_buf[buf_len]{0};
 
   static_assert(sizeof(ev_buf) % sizeof(inotify_event) == 0, "alignment");
@@ -111,7 +114,7 @@ inline auto do_mark =
   auto flags = ke_in_ev::recv_mask | IN_ONLYDIR | IN_DONT_FOLLOW;
   int wd = inotify_add_watch(dirfd, dirpath, flags);
   if (wd > 0)
-    return dm.emplace(wd, dirpath), result::complete;
+    return dm.insert_or_assign(wd, dirpath), result::complete;
   else
     return result::w_sys_not_watched;
 };
@@ -199,7 +202,7 @@ inline auto parse_ev = [](
   auto isassoc = [&](auto* a, auto* b) -> bool
   {
     return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
-        && dm.find(b->wd) != dm.end();
+        && dm.find(b->wd) != dm.end() && ! dm.at(b->wd).empty();
   };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
@@ -214,6 +217,102 @@ inline auto parse_ev = [](
                              : one(in, next);
 };
 
+/*  Follows the directories around, so that our
+    path map always has the path which each of
+    them had when the event at hand happened.
+    (And not the path it has by now.)
+
+    - A new directory is marked, and so is all
+      that is in it.
+    - A directory which moves takes everything
+      below it along.
+    - A directory which moves in from somewhere
+      we don't watch is like a new one.
+    - If there already is some other directory
+      where it moves to, then that one is either
+      about to be removed, or the two of them
+      were exchanged. We can't tell these cases
+      apart from the events.
+    - A directory which moves somewhere we don't
+      watch (see `do_moved_self`) isn't watched. */
+inline auto is_at_or_below =
+  [](std::filesystem::path const& path, std::filesystem::path const& dir) -> bool
+{
+  auto const &p = path.native(), &d = dir.native();
+  return p.compare(0, d.size(), d) == 0
+      && (p.size() == d.size() || p[d.size()] == '/');
+};
+
+inline auto do_track =
+  [](inotify_event const* const in, sysres& sr, auto const& cb) -> void
+{
+  auto& dm = sr.ke.dm;
+  auto& moved_from = sr.ke.moved_from;
+  auto is_marked = [&](auto const& dir)
+  {
+    for (auto const& [wd, path] : dm)
+      if (path == dir) return true;
+    return false;
+  };
+  auto mark = [&](auto dir) { return do_mark(dir, sr.ke.fd, dm); };
+  auto mark_unmarked = [&](auto dir)
+  {
+    auto unmarked = ke_in_ev::paths{};
+    auto ok = do_mark(dir, sr.ke.fd, unmarked);
+    return dm.merge(unmarked), ok;
+  };
+  auto rebase = [](auto& path, auto const& from, auto const& to)
+  { path = to.native() + path.native().substr(from.native().size()); };
+
+  if (! (in->mask & IN_ISDIR)) return;
+  auto const dir = dm.at(in->wd) / in->name;
+  if (in->mask & IN_CREATE)
+    walkdir_do(dir.c_str(), mark, cb);
+  else if (in->mask & IN_MOVED_FROM) {
+    if (is_marked(dir)) moved_from.insert_or_assign(in->cookie, dir);
+  }
+  else if (in->mask & IN_MOVED_TO) {
+    auto from_at = moved_from.find(in->cookie);
+    auto was_known = from_at != moved_from.end();
+    auto was_there = is_marked(dir);
+    auto from = was_known ? from_at->second : std::filesystem::path{};
+    if (was_known) {
+      moved_from.erase(from_at);
+      for (auto& [wd, path] : dm)
+        if (is_at_or_below(path, from))
+          rebase(path, from, dir);
+        else if (is_at_or_below(path, dir))
+          rebase(path, dir, from);
+    }
+    /*  It might have moved on by now. */
+    if (was_known && was_there && is_dir(from.c_str()))
+      walkdir_do(from.c_str(), mark, cb);
+    if (! is_dir(dir.c_str()))
+      return;
+    else if (was_known && ! was_there)
+      walkdir_do(dir.c_str(), mark_unmarked, cb);
+    else
+      walkdir_do(dir.c_str(), mark, cb);
+  }
+};
+
+/*  This comes after both halves of a rename. If we
+    haven't seen it arrive anywhere by then, it left. */
+inline auto do_moved_self =
+  [](std::filesystem::path const& dir, sysres& sr) -> void
+{
+  auto& moved_from = sr.ke.moved_from;
+  for (auto at = moved_from.begin(); at != moved_from.end(); ++at)
+    if (at->second == dir) {
+      auto const left = at->second;
+      moved_from.erase(at);
+      for (auto& [wd, path] : sr.ke.dm)
+        if (is_at_or_below(path, left))
+          inotify_rm_watch(sr.ke.fd, wd), path.clear();
+      return;
+    }
+};
+
 /*  Parses each event's path name,
     path type and effect.
     Looks for the directory path
@@ -305,18 +404,19 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       if (in_ev_c++ > ke_in_ev::c_ulim)
         return result::e_sys_ret;
       else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, sr.base, cb);
+        sr.ke.moved_from.clear(), send_msg(result::w_sys_q_overflow, sr.base, cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
       else if (msk & IN_IGNORED)
         sr.ke.dm.erase(dmhit);
+      else if (dmhit->second.empty())
+        /*  Not ours anymore. */;
+      else if (msk & IN_MOVE_SELF)
+        do_moved_self(dmhit->second, sr);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          walkdir_do(
-            ev.path_name.c_str(),
-            [&](auto dir) { return do_mark(dir, sr.ke.fd, sr.ke.dm); },
-            cb);
+        do_track(in_ev, sr, cb);
+        if (ev.associated) do_track(in_ev_next, sr, cb);
         cb(ev);
         in_ev_next = next;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 3e7d66a..77d78a9 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1413,7 +1413,10 @@ struct ke_in_ev {
 
   int fd = -1;
   using paths = std::unordered_map<int, std::filesystem::path>;
+  using moves = std::unordered_map<unsigned, std::filesystem::path>;
   paths dm{};
+  /*  Directories we saw leave, but not arrive (yet). */
+  moves moved_from{};
   alignas(inotify_event) char ev_buf[buf_len]{0};
 
   static_assert(sizeof(ev_buf) % sizeof(inotify_event) == 0, "alignment");
@@ -1435,7 +1438,7 @@ inline auto do_mark =
   auto flags = ke_in_ev::recv_mask | IN_ONLYDIR | IN_DONT_FOLLOW;
   int wd = inotify_add_watch(dirfd, dirpath, flags);
   if (wd > 0)
-    return dm.emplace(wd, dirpath), result::complete;
+    return dm.insert_or_assign(wd, dirpath), result::complete;
   else
     return result::w_sys_not_watched;
 };
@@ -1523,7 +1526,7 @@ inline auto parse_ev = [](
   auto isassoc = [&](auto* a, auto* b) -> bool
   {
     return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
-        && dm.find(b->wd) != dm.end();
+        && dm.find(b->wd) != dm.end() && ! dm.at(b->wd).empty();
   };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
@@ -1538,6 +1541,102 @@ inline auto parse_ev = [](
                              : one(in, next);
 };
 
+/*  Follows the directories around, so that our
+    path map always has the path which each of
+    them had when the event at hand happened.
+    (And not the path it has by now.)
+
+    - A new directory is marked, and so is all
+      that is in it.
+    - A directory which moves takes everything
+      below it along.
+    - A directory which moves in from somewhere
+      we don't watch is like a new one.
+    - If there already is some other directory
+      where it moves to, then that one is either
+      about to be removed, or the two of them
+      were exchanged. We can't tell these cases
+      apart from the events.
+    - A directory which moves somewhere we don't
+      watch (see `do_moved_self`) isn't watched. */
+inline auto is_at_or_below =
+  [](std::filesystem::path const& path, std::filesystem::path const& dir) -> bool
+{
+  auto const &p = path.native(), &d = dir.native();
+  return p.compare(0, d.size(), d) == 0
+      && (p.size() == d.size() || p[d.size()] == '/');
+};
+
+inline auto do_track =
+  [](inotify_event const* const in, sysres& sr, auto const& cb) -> void
+{
+  auto& dm = sr.ke.dm;
+  auto& moved_from = sr.ke.moved_from;
+  auto is_marked = [&](auto const& dir)
+  {
+    for (auto const& [wd, path] : dm)
+      if (path == dir) return true;
+    return false;
+  };
+  auto mark = [&](auto dir) { return do_mark(dir, sr.ke.fd, dm); };
+  auto mark_unmarked = [&](auto dir)
+  {
+    auto unmarked = ke_in_ev::paths{};
+    auto ok = do_mark(dir, sr.ke.fd, unmarked);
+    return dm.merge(unmarked), ok;
+  };
+  auto rebase = [](auto& path, auto const& from, auto const& to)
+  { path = to.native() + path.native().substr(from.native().size()); };
+
+  if (! (in->mask & IN_ISDIR)) return;
+  auto const dir = dm.at(in->wd) / in->name;
+  if (in->mask & IN_CREATE)
+    walkdir_do(dir.c_str(), mark, cb);
+  else if (in->mask & IN_MOVED_FROM) {
+    if (is_marked(dir)) moved_from.insert_or_assign(in->cookie, dir);
+  }
+  else if (in->mask & IN_MOVED_TO) {
+    auto from_at = moved_from.find(in->cookie);
+    auto was_known = from_at != moved_from.end();
+    auto was_there = is_marked(dir);
+    auto from = was_known ? from_at->second : std::filesystem::path{};
+    if (was_known) {
+      moved_from.erase(from_at);
+      for (auto& [wd, path] : dm)
+        if (is_at_or_below(path, from))
+          rebase(path, from, dir);
+        else if (is_at_or_below(path, dir))
+          rebase(path, dir, from);
+    }
+    /*  It might have moved on by now. */
+    if (was_known && was_there && is_dir(from.c_str()))
+      walkdir_do(from.c_str(), mark, cb);
+    if (! is_dir(dir.c_str()))
+      return;
+    else if (was_known && ! was_there)
+      walkdir_do(dir.c_str(), mark_unmarked, cb);
+    else
+      walkdir_do(dir.c_str(), mark, cb);
+  }
+};
+
+/*  This comes after both halves of a rename. If we
+    haven't seen it arrive anywhere by then, it left. */
+inline auto do_moved_self =
+  [](std::filesystem::path const& dir, sysres& sr) -> void
+{
+  auto& moved_from = sr.ke.moved_from;
+  for (auto at = moved_from.begin(); at != moved_from.end(); ++at)
+    if (at->second == dir) {
+      auto const left = at->second;
+      moved_from.erase(at);
+      for (auto& [wd, path] : sr.ke.dm)
+        if (is_at_or_below(path, left))
+          inotify_rm_watch(sr.ke.fd, wd), path.clear();
+      return;
+    }
+};
+
 /*  Parses each event's path name,
     path type and effect.
     Looks for the directory path
@@ -1629,18 +1728,19 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       if (in_ev_c++ > ke_in_ev::c_ulim)
         return result::e_sys_ret;
       else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, sr.base, cb);
+        sr.ke.moved_from.clear(), send_msg(result::w_sys_q_overflow, sr.base, cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
       else if (msk & IN_IGNORED)
         sr.ke.dm.erase(dmhit);
+      else if (dmhit->second.empty())
+        /*  Not ours anymore. */;
+      else if (msk & IN_MOVE_SELF)
+        do_moved_self(dmhit->second, sr);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          walkdir_do(
-            ev.path_name.c_str(),
-            [&](auto dir) { return do_mark(dir, sr.ke.fd, sr.ke.dm); },
-            cb);
+        do_track(in_ev, sr, cb);
+        if (ev.associated) do_track(in_ev_next, sr, cb);
         cb(ev);
         in_ev_next = next;
       }
-- 
2.43.0


From 7a30ee73190d05baf8d9f2ec67a28840f6266145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 17/53] fix: the text of an event's time is as long as the
 number is

It was always 19 characters long, padded with null characters (times before
2001), and empty for large negative numbers, which need 20.
---
 devel/include/wtr/watcher-/event.hpp | 13 ++++++++-----
 include/wtr/watcher.hpp              | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index ce6aaad..98a0016 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -225,20 +225,23 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  static constexpr auto sign_and_partial_digit = 2;
+  static constexpr auto buflen
+    = std::numeric_limits<decltype(from)>::digits10 + sign_and_partial_digit;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto len = static_cast<std::size_t>(end - buf.data());
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 77d78a9..0c5c0a3 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -226,20 +226,23 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  static constexpr auto sign_and_partial_digit = 2;
+  static constexpr auto buflen
+    = std::numeric_limits<decltype(from)>::digits10 + sign_and_partial_digit;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto len = static_cast<std::size_t>(end - buf.data());
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
-- 
2.43.0


From aa77cb64b6acf535ce2123642bcd438b92daad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 18/53] fix: escape the characters which can't be in a json
 string

A quote, backslash or control character in the name of a file made everything
we print about it unparsable.
---
 devel/include/wtr/watcher-/event.hpp | 27 +++++++++++++++++++++++++--
 include/wtr/watcher.hpp              | 27 +++++++++++++++++++++++++--
 src/wtr/watcher/main.cpp             |  2 +-
 watcher-py/watcher/watcher.py        |  5 +++--
 4 files changed, 54 insertions(+), 7 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index 98a0016..ea29f97 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -172,7 +172,7 @@ namespace {
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + json_escaped(to<Cls>(from.path_name)) + Lit"\"";   \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -183,7 +183,7 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + json_escaped(to<Cls>(asc->path_name)) + Lit"\"";\
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
@@ -195,6 +195,29 @@ namespace {
          + Lit"}"                                                             \
          };
 
+/*  Quotes, backslashes and control characters can't
+    be in a json string as they are. */
+template<class Char>
+inline auto json_escaped(std::basic_string<Char> const& from)
+  -> std::basic_string<Char>
+{
+  auto to = std::basic_string<Char>{};
+  auto put = [&](char const* s) { while (*s) to += static_cast<Char>(*s++); };
+  for (auto c : from) {
+    auto is_control = c >= Char{0} && c < Char{0x20};
+    if (c == Char{'"'} || c == Char{'\\'})
+      to += Char{'\\'}, to += c;
+    else if (is_control) {
+      put("\\u00");
+      to += Char("0123456789abcdef"[static_cast<unsigned>(c) >> 4]);
+      to += Char("0123456789abcdef"[static_cast<unsigned>(c) & 0xf]);
+    }
+    else
+      to += c;
+  }
+  return to;
+}
+
 /*  For types larger than char and/or char8_t, we can just cast
     each element in our `char` buffer to an `unsigned char`, and
     then zero-extend the elements to any of `wchar_t`, `char16_t`
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 0c5c0a3..4bab31a 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -173,7 +173,7 @@ namespace {
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + json_escaped(to<Cls>(from.path_name)) + Lit"\"";   \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -184,7 +184,7 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + json_escaped(to<Cls>(asc->path_name)) + Lit"\"";\
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
@@ -196,6 +196,29 @@ namespace {
          + Lit"}"                                                             \
          };
 
+/*  Quotes, backslashes and control characters can't
+    be in a json string as they are. */
+template<class Char>
+inline auto json_escaped(std::basic_string<Char> const& from)
+  -> std::basic_string<Char>
+{
+  auto to = std::basic_string<Char>{};
+  auto put = [&](char const* s) { while (*s) to += static_cast<Char>(*s++); };
+  for (auto c : from) {
+    auto is_control = c >= Char{0} && c < Char{0x20};
+    if (c == Char{'"'} || c == Char{'\\'})
+      to += Char{'\\'}, to += c;
+    else if (is_control) {
+      put("\\u00");
+      to += Char("0123456789abcdef"[static_cast<unsigned>(c) >> 4]);
+      to += Char("0123456789abcdef"[static_cast<unsigned>(c) & 0xf]);
+    }
+    else
+      to += c;
+  }
+  return to;
+}
+
 /*  For types larger than char and/or char8_t, we can just cast
     each element in our `char` buffer to an `unsigned char`, and
     then zero-extend the elements to any of `wchar_t`, `char16_t`
diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index b59649c..75f7bac 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -97,7 +97,7 @@ auto json(event const& e) -> string
   auto s = [](auto a) { return to<string>(a); };
   auto q = [&](auto a) { return '"' + s(a) + '"'; };
   return "{\"path_type\":"   + q(e.path_type)
-       + ",\"path_name\":"   + q(e.path_name)
+       + ",\"path_name\":\"" + json_escaped(s(e.path_name)) + '"'
        + ",\"effect_type\":" + q(e.effect_type)
        + ",\"effect_time\":" + s(e.effect_time)
        + ",\"associated\":"  + tails
diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 3a263d4..838fdf8 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -4,6 +4,7 @@ Filesystem watcher. Simple, efficient and friendly.
 
 from __future__ import annotations
 import ctypes
+import json
 import os
 import sys
 from typing import Callable
@@ -141,10 +142,10 @@ class Event:
     path_type: PathType
 
     def to_json(self) -> str:
-        apn = f'"{self.associated_path_name}"' if self.associated_path_name else "null"
+        apn = json.dumps(self.associated_path_name or None)
         return f'{{\
 "effect_time":{self.effect_time},\
-"path_name":"{self.path_name}",\
+"path_name":{json.dumps(self.path_name)},\
 "associated_path_name":{apn},\
 "effect_type":"{_ET_TO_S[self.effect_type]}",\
 "path_type":"{_PT_TO_S[self.path_type]}"}}'
-- 
2.43.0


From 7a6185cd646464393bb66a14a94832d44883db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 19/53] fix: python: report paths which aren't valid utf-8

File names are bytes. We failed to decode some of them, in which case the
callback never heard about the event. Use the filesystem encoding, which
(by the surrogateescape error handler) can represent all of them.
---
 watcher-py/watcher/watcher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 838fdf8..5fa6b27 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -66,9 +66,9 @@ def _as_utf8(s: str | bytes | memoryview | None) -> str:
     if isinstance(s, str):
         return s
     if isinstance(s, memoryview):
-        return s.tobytes().decode("utf-8")
+        return os.fsdecode(s.tobytes())
     if isinstance(s, bytes):
-        return s.decode("utf-8")
+        return os.fsdecode(s)
     raise TypeError()
 
 
@@ -175,7 +175,7 @@ class Watch:
             callback(py_event)
 
         self._lib = _lazy_static_solib_handle()
-        self._path = path.encode("utf-8")
+        self._path = os.fsencode(path)
         self._c_callback = _CCallback(callback_bridge)
         self._watcher = self._lib.wtr_watcher_open(self._path, self._c_callback, None)
         if not self._watcher:
-- 
2.43.0


From b43e948c4ece3870bccee95b7c82f3415808a183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 20/53] fix: close() always waits for the watcher to be done

When the semaphore could not be released (or created, when out of file
descriptors), close() returned while the callback could still be called.
---
 devel/include/wtr/watcher-/watch.hpp | 4 ++--
 include/wtr/watcher.hpp              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/devel/include/wtr/watcher-/watch.hpp b/devel/include/wtr/watcher-/watch.hpp
index d92817d..be584d5 100644
--- a/devel/include/wtr/watcher-/watch.hpp
+++ b/devel/include/wtr/watcher-/watch.hpp
@@ -88,8 +88,8 @@ public:
 
   inline auto close() noexcept -> bool
   {
-    return this->living.release() != sb::state::error
-        && this->watching.valid() && this->watching.get();
+    auto released = this->living.release() != sb::state::error;
+    return this->watching.valid() && this->watching.get() && released;
   };
 
   inline ~watch() noexcept { this->close(); }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 4bab31a..9373be0 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2419,8 +2419,8 @@ public:
 
   inline auto close() noexcept -> bool
   {
-    return this->living.release() != sb::state::error
-        && this->watching.valid() && this->watching.get();
+    auto released = this->living.release() != sb::state::error;
+    return this->watching.valid() && this->watching.get() && released;
   };
 
   inline ~watch() noexcept { this->close(); }
-- 
2.43.0


From 1a3a422ec2a3adb4332b2b9cfe3030307be9dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 21/53] fix: a relative path is relative to the directory we
 were in when asked

We asked for the current directory on the watching thread, at some later
point. If it was changed in the meantime, we watched something else.
---
 devel/include/wtr/watcher-/watch.hpp | 14 +++++++++++---
 include/wtr/watcher.hpp              | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/devel/include/wtr/watcher-/watch.hpp b/devel/include/wtr/watcher-/watch.hpp
index be584d5..23e2408 100644
--- a/devel/include/wtr/watcher-/watch.hpp
+++ b/devel/include/wtr/watcher-/watch.hpp
@@ -3,6 +3,7 @@
 #include "wtr/watcher.hpp"
 #include <filesystem>
 #include <future>
+#include <utility>
 
 namespace wtr {
 inline namespace watcher {
@@ -56,17 +57,24 @@ private:
   sb living{};
   std::future<bool> watching{};
 
+  static inline auto absolute(std::filesystem::path const& path) noexcept
+    -> std::pair<std::filesystem::path, std::error_code>
+  {
+    auto ec = std::error_code{};
+    auto abs_path = std::filesystem::absolute(path, ec);
+    return {abs_path, ec};
+  }
+
 public:
   inline watch(
     std::filesystem::path const& path,
     event::callback const& callback) noexcept
       : watching{std::async(
           std::launch::async,
-          [this, path, callback]
+          [this, callback, abs = absolute(path)]
           {
             using ::detail::wtr::watcher::adapter::watch;
-            auto ec = std::error_code{};
-            auto abs_path = std::filesystem::absolute(path, ec);
+            auto [abs_path, ec] = abs;
             auto pre_ok = ! ec && std::filesystem::is_directory(abs_path, ec)
                        && ! ec && this->living.state() == sb::state::pending;
             auto live_msg =
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 9373be0..d25a622 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2334,6 +2334,7 @@ inline auto watch(
 
 #include <filesystem>
 #include <future>
+#include <utility>
 
 namespace wtr {
 inline namespace watcher {
@@ -2387,17 +2388,24 @@ private:
   sb living{};
   std::future<bool> watching{};
 
+  static inline auto absolute(std::filesystem::path const& path) noexcept
+    -> std::pair<std::filesystem::path, std::error_code>
+  {
+    auto ec = std::error_code{};
+    auto abs_path = std::filesystem::absolute(path, ec);
+    return {abs_path, ec};
+  }
+
 public:
   inline watch(
     std::filesystem::path const& path,
     event::callback const& callback) noexcept
       : watching{std::async(
           std::launch::async,
-          [this, path, callback]
+          [this, callback, abs = absolute(path)]
           {
             using ::detail::wtr::watcher::adapter::watch;
-            auto ec = std::error_code{};
-            auto abs_path = std::filesystem::absolute(path, ec);
+            auto [abs_path, ec] = abs;
             auto pre_ok = ! ec && std::filesystem::is_directory(abs_path, ec)
                        && ! ec && this->living.state() == sb::state::pending;
             auto live_msg =
-- 
2.43.0


From c582c388154b024df68aa8206ea7abe1eafbbfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 22/53] fix: c: release a watcher which did not end well when
 it is closed

It was leaked, along with its file descriptor.
---
 watcher-c/include/wtr/watcher-c.h | 3 +++
 watcher-c/src/watcher-c.cpp       | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/watcher-c/include/wtr/watcher-c.h b/watcher-c/include/wtr/watcher-c.h
index 8747b0f..9bfa79b 100644
--- a/watcher-c/include/wtr/watcher-c.h
+++ b/watcher-c/include/wtr/watcher-c.h
@@ -59,6 +59,9 @@ typedef void (* wtr_watcher_callback)(struct wtr_watcher_event event, void* cont
 
 void* wtr_watcher_open(char const* const path, wtr_watcher_callback callback, void* context);
 
+/*  Stops the watcher and releases everything it holds,
+    whatever is returned. Don't use the handle afterwards.
+    Returns whether the watcher ran, and ended, well. */
 bool wtr_watcher_close(void* watcher);
 
 #ifdef __cplusplus
diff --git a/watcher-c/src/watcher-c.cpp b/watcher-c/src/watcher-c.cpp
index 52101fe..fcc8c32 100644
--- a/watcher-c/src/watcher-c.cpp
+++ b/watcher-c/src/watcher-c.cpp
@@ -69,9 +69,9 @@ void* wtr_watcher_open(
 bool wtr_watcher_close(void* watcher)
 {
   if (! watcher) return false;
-  if (! ((wtr::watcher::watch*)watcher)->close()) return false;
+  bool ok = ((wtr::watcher::watch*)watcher)->close();
   delete (wtr::watcher::watch*)watcher;
-  return true;
+  return ok;
 }
 
 }  // extern "C"
-- 
2.43.0


From dc8de6e997d3d746bb343955aff0ce7fd36cc020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 23/53] fix: node: don't drop events while javascript is busy

The queue between us and javascript held 1024 events. Those beyond were lost,
and leaked.
---
 watcher-nodejs/lib/watcher-napi.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 62a6af2..75565f5 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -79,8 +79,10 @@ static void callback_bridge(struct wtr_watcher_event event_view, void* ctx)
   event_owned->associated_path_name = event_view.associated_path_name ? strdup(event_view.associated_path_name) : NULL;
   event_owned->effect_type = event_view.effect_type;
   event_owned->path_type = event_view.path_type;
-  if (w->tsfn) {
-    napi_call_threadsafe_function(w->tsfn, event_owned, napi_tsfn_nonblocking);
+  if (! w->tsfn || napi_call_threadsafe_function(w->tsfn, event_owned, napi_tsfn_nonblocking) != napi_ok) {
+    free((void*)event_owned->path_name);
+    free((void*)event_owned->associated_path_name);
+    free(event_owned);
   }
 #else
     napi_call_threadsafe_function(wrapper->tsfn, &event_view, napi_tsfn_blocking);
@@ -142,7 +144,7 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
   napi_value work_name;
   napi_create_string_utf8(env, "Watcher", NAPI_AUTO_LENGTH, &work_name);
-  size_t work_queue_size = 1024;
+  size_t work_queue_size = 0; /* unlimited */
   napi_create_threadsafe_function(
     env,
     js_callback,
-- 
2.43.0


From 7023eaba5aae83dd010b91c5cd09786184a2899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 24/53] fix: node: closing a watcher twice does not use freed
 memory

---
 watcher-nodejs/lib/watcher-napi.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 75565f5..2d55df4 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -101,7 +101,11 @@ static napi_value close(napi_env env, napi_callback_info func_arg_info)
     return result;
   }
   watcher_lifetime* w = (watcher_lifetime*)ctx;
+  if (! w->watcher) {
+    return result;
+  }
   bool closed_ok = wtr_watcher_close(w->watcher);
+  w->watcher = NULL;
   napi_get_boolean(env, closed_ok, &result);
   if (w->tsfn) {
     napi_release_threadsafe_function(w->tsfn, napi_tsfn_release);
@@ -115,11 +119,19 @@ static napi_value close(napi_env env, napi_callback_info func_arg_info)
   } else {
     napi_get_boolean(env, false, &result);
   }
-  free(w);
-  w = NULL;
   return result;
 }
 
+/*  Called when `close` can't be called (again).
+    If it never was, then the watcher goes on. */
+static void close_finalize(napi_env, void* ctx, void* _unused)
+{
+  watcher_lifetime* w = (watcher_lifetime*)ctx;
+  if (! w->watcher) {
+    free(w);
+  }
+}
+
 /*  Opens a watcher on a path (and any children).
     Calls the provided callback when events happen.
     Accepts two arguments, a path and a callback.
@@ -167,7 +179,7 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   napi_value close_func = NULL;
   napi_create_function(env, "close", NAPI_AUTO_LENGTH, close, wrapper, &close_func);
   napi_set_named_property(env, watcher_obj, "close", close_func);
-  napi_wrap(env, watcher_obj, wrapper, NULL, NULL, NULL);
+  napi_add_finalizer(env, close_func, wrapper, close_finalize, NULL, NULL);
   return watcher_obj;
 }
 
-- 
2.43.0


From 5d8b6ec30303af0c5634a26ef5a88bed009ed467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 25/53] fix: rust: close the watcher once

Dropping a watch which was closed before closed it again, by then using
memory which was freed.
---
 watcher-rs/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 958063c..7479732 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -2,11 +2,13 @@
 #![allow(non_camel_case_types)]
 #![allow(non_snake_case)]
 include!(concat!(env!("OUT_DIR"), "/watcher_c.rs"));
+use core::cell::Cell;
 use core::ffi::c_char;
 use core::ffi::c_void;
 use core::ffi::CStr;
 use core::mem::transmute;
 use core::pin::Pin;
+use core::ptr::null_mut;
 use core::str;
 use core::task::Context;
 use core::task::Poll;
@@ -108,7 +110,7 @@ unsafe extern "C" fn fwd_ev(ev: wtr_watcher_event, cx: *mut c_void) {
 
 #[allow(dead_code)] // tx is used in fwd_ev
 pub struct Watch {
-    w: *mut c_void,
+    w: Cell<*mut c_void>,
     tx: Box<Tx<Event>>,
     rx: Pin<Box<Rx<Event>>>,
 }
@@ -122,12 +124,12 @@ impl Watch {
         let cx = unsafe { transmute::<&Tx<Event>, *mut c_void>(&tx) };
         match unsafe { wtr_watcher_open(p.as_ptr(), Some(fwd_ev), cx) } {
             w if w.is_null() => Err("wtr_watcher_open"),
-            w => Ok(Watch { w, tx, rx }),
+            w => Ok(Watch { w: Cell::new(w), tx, rx }),
         }
     }
 
     pub fn close(&self) -> Result<(), &'static str> {
-        match unsafe { wtr_watcher_close(self.w) } {
+        match unsafe { wtr_watcher_close(self.w.replace(null_mut())) } {
             false => Err("wtr_watcher_close"),
             true => Ok(()),
         }
-- 
2.43.0


From a7cf11e10bf15d0df7291a6fc70ec0f94a0c9683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 26/53] fix: rust: report paths which aren't valid utf-8

Such a path was reported as an empty one. What can't be represented is now
replaced, like it is in the other bindings.
---
 watcher-rs/src/lib.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 7479732..f089216 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -9,7 +9,6 @@ use core::ffi::CStr;
 use core::mem::transmute;
 use core::pin::Pin;
 use core::ptr::null_mut;
-use core::str;
 use core::task::Context;
 use core::task::Poll;
 use futures::channel::mpsc::unbounded as async_channel;
@@ -18,6 +17,7 @@ use futures::channel::mpsc::UnboundedSender as Tx;
 use futures::Stream;
 use serde::Deserialize;
 use serde::Serialize;
+use std::borrow::Cow;
 use std::ffi::CString;
 
 #[derive(Debug, Clone, Copy)]
@@ -55,13 +55,11 @@ pub struct Event {
     pub path_type: PathType,
 }
 
-fn c_chars_as_str<'a>(ptr: *const c_char) -> Option<&'a str> {
+fn c_chars_as_str<'a>(ptr: *const c_char) -> Option<Cow<'a, str>> {
     match ptr.is_null() {
         true => None,
         false => {
-            let b = unsafe { CStr::from_ptr(ptr).to_bytes() };
-            let s = str::from_utf8(b).unwrap_or_default();
-            Some(s)
+            Some(unsafe { CStr::from_ptr(ptr) }.to_string_lossy())
         }
     }
 }
@@ -95,8 +93,8 @@ fn path_type_from_c(path_type: i8) -> PathType {
 fn ev_from_c<'a>(ev: wtr_watcher_event) -> Event {
     Event {
         effect_time: ev.effect_time,
-        path_name: c_chars_as_str(ev.path_name).unwrap_or_default().to_string(),
-        associated_path_name: c_chars_as_str(ev.associated_path_name).map(str::to_string),
+        path_name: c_chars_as_str(ev.path_name).unwrap_or_default().into_owned(),
+        associated_path_name: c_chars_as_str(ev.associated_path_name).map(Cow::into_owned),
         effect_type: effect_type_from_c(ev.effect_type),
         path_type: path_type_from_c(ev.path_type),
     }
-- 
2.43.0


From 1421469b1c73c99928ea54457d21e2e2a7021806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 27/53] fix: fanotify: watch directories which are moved into
 the tree

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 30 +++++++++++++------
 include/wtr/watcher.hpp                       | 30 +++++++++++++------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index ee62695..ae40224 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -11,6 +11,7 @@
 #include <errno.h>
 #include <fcntl.h>
 #include <limits.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <string.h>
 #include <string>
@@ -241,16 +242,27 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
                                     : one(m);
 }
 
+/*  A directory which moves in from somewhere we don't
+    watch is as new to us as one which was just made. */
 inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> void
+  [](
+    ::wtr::watcher::event const& ev,
+    uint64_t mask,
+    int fa_fd,
+    auto const& cb) -> void
 {
-  auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
-                && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  if (is_newdir)
-    walkdir_do(
-      ev.path_name.c_str(),
-      [&](auto dir) { return do_mark(dir, fa_fd); },
-      cb);
+  auto is_dir_ev = ev.path_type == ::wtr::watcher::event::path_type::dir;
+  auto is_newdir =
+    ev.effect_type == ::wtr::watcher::event::effect_type::create;
+  auto const& moved_to = ev.associated ? ev.associated->path_name
+                                       : ev.path_name;
+  auto mark = [&](auto dir) { return do_mark(dir, fa_fd); };
+  if (is_dir_ev && is_newdir) walkdir_do(ev.path_name.c_str(), mark, cb);
+  /*  It might have moved on by now. */
+  else if (
+    is_dir_ev && (ev.associated || mask & FAN_MOVED_TO)
+    && is_dir(moved_to.c_str()))
+    walkdir_do(moved_to.c_str(), mark, cb);
 };
 
 /*  Read some events from what fanotify gives
@@ -314,7 +326,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         if (ec)
           skip_with(result::w_sys_bad_fd);
         else {
-          do_mark_if_newdir(ev, sr.ke.fd, cb);
+          do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
           cb(ev);
           mtd = n;
           read_len -= l;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index d25a622..d0cf42a 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1034,6 +1034,7 @@ inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> voi
 #include <errno.h>
 #include <fcntl.h>
 #include <limits.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <string.h>
 #include <string>
@@ -1264,16 +1265,27 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
                                     : one(m);
 }
 
+/*  A directory which moves in from somewhere we don't
+    watch is as new to us as one which was just made. */
 inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> void
+  [](
+    ::wtr::watcher::event const& ev,
+    uint64_t mask,
+    int fa_fd,
+    auto const& cb) -> void
 {
-  auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
-                && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  if (is_newdir)
-    walkdir_do(
-      ev.path_name.c_str(),
-      [&](auto dir) { return do_mark(dir, fa_fd); },
-      cb);
+  auto is_dir_ev = ev.path_type == ::wtr::watcher::event::path_type::dir;
+  auto is_newdir =
+    ev.effect_type == ::wtr::watcher::event::effect_type::create;
+  auto const& moved_to = ev.associated ? ev.associated->path_name
+                                       : ev.path_name;
+  auto mark = [&](auto dir) { return do_mark(dir, fa_fd); };
+  if (is_dir_ev && is_newdir) walkdir_do(ev.path_name.c_str(), mark, cb);
+  /*  It might have moved on by now. */
+  else if (
+    is_dir_ev && (ev.associated || mask & FAN_MOVED_TO)
+    && is_dir(moved_to.c_str()))
+    walkdir_do(moved_to.c_str(), mark, cb);
 };
 
 /*  Read some events from what fanotify gives
@@ -1337,7 +1349,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         if (ec)
           skip_with(result::w_sys_bad_fd);
         else {
-          do_mark_if_newdir(ev, sr.ke.fd, cb);
+          do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
           cb(ev);
           mtd = n;
           read_len -= l;
-- 
2.43.0


From 21d7b3f4328d2efdf77212bc1e18e31d3dda63a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 28/53] fix: inotify: a directory which moves out and back in
 keeps its events

---
 .../wtr/watcher/adapter/linux/inotify/watch.hpp       | 11 ++++++++---
 include/wtr/watcher.hpp                               | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index f7bad69..645f50a 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -234,7 +234,10 @@ inline auto parse_ev = [](
       were exchanged. We can't tell these cases
       apart from the events.
     - A directory which moves somewhere we don't
-      watch (see `do_moved_self`) isn't watched. */
+      watch (see `do_moved_self`) doesn't have a
+      path anymore. We ignore its events, but keep
+      its watch: It might move back in, and what
+      happens in it from there on is ours again. */
 inline auto is_at_or_below =
   [](std::filesystem::path const& path, std::filesystem::path const& dir) -> bool
 {
@@ -259,7 +262,9 @@ inline auto do_track =
   {
     auto unmarked = ke_in_ev::paths{};
     auto ok = do_mark(dir, sr.ke.fd, unmarked);
-    return dm.merge(unmarked), ok;
+    for (auto& [wd, path] : unmarked)
+      if (auto& known = dm[wd]; known.empty()) known = path;
+    return ok;
   };
   auto rebase = [](auto& path, auto const& from, auto const& to)
   { path = to.native() + path.native().substr(from.native().size()); };
@@ -308,7 +313,7 @@ inline auto do_moved_self =
       moved_from.erase(at);
       for (auto& [wd, path] : sr.ke.dm)
         if (is_at_or_below(path, left))
-          inotify_rm_watch(sr.ke.fd, wd), path.clear();
+          path.clear();
       return;
     }
 };
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index d0cf42a..4f6907b 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1596,7 +1596,10 @@ inline auto parse_ev = [](
       were exchanged. We can't tell these cases
       apart from the events.
     - A directory which moves somewhere we don't
-      watch (see `do_moved_self`) isn't watched. */
+      watch (see `do_moved_self`) doesn't have a
+      path anymore. We ignore its events, but keep
+      its watch: It might move back in, and what
+      happens in it from there on is ours again. */
 inline auto is_at_or_below =
   [](std::filesystem::path const& path, std::filesystem::path const& dir) -> bool
 {
@@ -1621,7 +1624,9 @@ inline auto do_track =
   {
     auto unmarked = ke_in_ev::paths{};
     auto ok = do_mark(dir, sr.ke.fd, unmarked);
-    return dm.merge(unmarked), ok;
+    for (auto& [wd, path] : unmarked)
+      if (auto& known = dm[wd]; known.empty()) known = path;
+    return ok;
   };
   auto rebase = [](auto& path, auto const& from, auto const& to)
   { path = to.native() + path.native().substr(from.native().size()); };
@@ -1670,7 +1675,7 @@ inline auto do_moved_self =
       moved_from.erase(at);
       for (auto& [wd, path] : sr.ke.dm)
         if (is_at_or_below(path, left))
-          inotify_rm_watch(sr.ke.fd, wd), path.clear();
+          path.clear();
       return;
     }
 };
-- 
2.43.0


From 9fd0038ae3826f645dd248747c5f85ca5ab2207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 29/53] fix: fanotify: a move in and a move out aren't one
 rename

---
 .../watcher/adapter/linux/fanotify/watch.hpp    | 17 +++++++++++------
 include/wtr/watcher.hpp                         | 17 +++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index ae40224..a2193d7 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -222,8 +222,14 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
           : m->mask & FAN_MODIFY ? ev_et::modify
           : m->mask & FAN_MOVE   ? ev_et::rename
                                  : ev_et::other;
-  auto isfromto = [et](unsigned a, unsigned b) -> bool
-  { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
+  /*  A rename is one system call: One process moves one
+      thing, away from somewhere and (then) to elsewhere. */
+  auto isfromto = [et](auto* a, auto* b) -> bool
+  {
+    return et == ev_et::rename && a->mask & FAN_MOVED_FROM
+        && b->mask & FAN_MOVED_TO && a->pid == b->pid
+        && (a->mask & FAN_ONDIR) == (b->mask & FAN_ONDIR);
+  };
   auto one = [&](auto* m) -> Parsed
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* from, auto* to) -> Parsed
@@ -236,10 +242,9 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
       ev(pathof(to, &assoc_ec), et, pt));
     return assoc_ec ? one(m) : Parsed{e, nn, here_to_nnn};
   };
-  return ! n                        ? one(m)
-       : isfromto(m->mask, n->mask) ? assoc(m, n)
-       : isfromto(n->mask, m->mask) ? assoc(n, m)
-                                    : one(m);
+  return ! n            ? one(m)
+       : isfromto(m, n) ? assoc(m, n)
+                        : one(m);
 }
 
 /*  A directory which moves in from somewhere we don't
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 4f6907b..a6faad1 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1245,8 +1245,14 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
           : m->mask & FAN_MODIFY ? ev_et::modify
           : m->mask & FAN_MOVE   ? ev_et::rename
                                  : ev_et::other;
-  auto isfromto = [et](unsigned a, unsigned b) -> bool
-  { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
+  /*  A rename is one system call: One process moves one
+      thing, away from somewhere and (then) to elsewhere. */
+  auto isfromto = [et](auto* a, auto* b) -> bool
+  {
+    return et == ev_et::rename && a->mask & FAN_MOVED_FROM
+        && b->mask & FAN_MOVED_TO && a->pid == b->pid
+        && (a->mask & FAN_ONDIR) == (b->mask & FAN_ONDIR);
+  };
   auto one = [&](auto* m) -> Parsed
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* from, auto* to) -> Parsed
@@ -1259,10 +1265,9 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
       ev(pathof(to, &assoc_ec), et, pt));
     return assoc_ec ? one(m) : Parsed{e, nn, here_to_nnn};
   };
-  return ! n                        ? one(m)
-       : isfromto(m->mask, n->mask) ? assoc(m, n)
-       : isfromto(n->mask, m->mask) ? assoc(n, m)
-                                    : one(m);
+  return ! n            ? one(m)
+       : isfromto(m, n) ? assoc(m, n)
+                        : one(m);
 }
 
 /*  A directory which moves in from somewhere we don't
-- 
2.43.0


From f164dc54ed0912712c0f06d05d3aee7941697d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 30/53] fix: inotify: a directory which is exchanged for one
 from elsewhere stays watched

---
 .../wtr/watcher/adapter/linux/inotify/watch.hpp   | 15 +++++++++------
 include/wtr/watcher.hpp                           | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 645f50a..607d32f 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -302,18 +302,21 @@ inline auto do_track =
 };
 
 /*  This comes after both halves of a rename. If we
-    haven't seen it arrive anywhere by then, it left. */
+    haven't seen it arrive anywhere by then, it left.
+    (Maybe in exchange for something else.) */
 inline auto do_moved_self =
-  [](std::filesystem::path const& dir, sysres& sr) -> void
+  [](std::filesystem::path const& dir, sysres& sr, auto const& cb) -> void
 {
+  auto& dm = sr.ke.dm;
   auto& moved_from = sr.ke.moved_from;
+  auto mark = [&](auto dir) { return do_mark(dir, sr.ke.fd, dm); };
   for (auto at = moved_from.begin(); at != moved_from.end(); ++at)
     if (at->second == dir) {
       auto const left = at->second;
       moved_from.erase(at);
-      for (auto& [wd, path] : sr.ke.dm)
-        if (is_at_or_below(path, left))
-          path.clear();
+      for (auto& [wd, path] : dm)
+        if (is_at_or_below(path, left)) path.clear();
+      if (is_dir(left.c_str())) walkdir_do(left.c_str(), mark, cb);
       return;
     }
 };
@@ -417,7 +420,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (dmhit->second.empty())
         /*  Not ours anymore. */;
       else if (msk & IN_MOVE_SELF)
-        do_moved_self(dmhit->second, sr);
+        do_moved_self(dmhit->second, sr, cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         do_track(in_ev, sr, cb);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index a6faad1..6b835ce 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1669,18 +1669,21 @@ inline auto do_track =
 };
 
 /*  This comes after both halves of a rename. If we
-    haven't seen it arrive anywhere by then, it left. */
+    haven't seen it arrive anywhere by then, it left.
+    (Maybe in exchange for something else.) */
 inline auto do_moved_self =
-  [](std::filesystem::path const& dir, sysres& sr) -> void
+  [](std::filesystem::path const& dir, sysres& sr, auto const& cb) -> void
 {
+  auto& dm = sr.ke.dm;
   auto& moved_from = sr.ke.moved_from;
+  auto mark = [&](auto dir) { return do_mark(dir, sr.ke.fd, dm); };
   for (auto at = moved_from.begin(); at != moved_from.end(); ++at)
     if (at->second == dir) {
       auto const left = at->second;
       moved_from.erase(at);
-      for (auto& [wd, path] : sr.ke.dm)
-        if (is_at_or_below(path, left))
-          path.clear();
+      for (auto& [wd, path] : dm)
+        if (is_at_or_below(path, left)) path.clear();
+      if (is_dir(left.c_str())) walkdir_do(left.c_str(), mark, cb);
       return;
     }
 };
@@ -1784,7 +1787,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (dmhit->second.empty())
         /*  Not ours anymore. */;
       else if (msk & IN_MOVE_SELF)
-        do_moved_self(dmhit->second, sr);
+        do_moved_self(dmhit->second, sr, cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         do_track(in_ev, sr, cb);
-- 
2.43.0


From 13d69fc29c5aadc118f3266afe29a69b342e68b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 31/53] fix: inotify: the second half of an exchange of
 directories does not undo the first

---
 .../watcher/adapter/linux/inotify/watch.hpp   | 19 ++++++++++++++++---
 include/wtr/watcher.hpp                       | 19 ++++++++++++++++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 607d32f..78f2c01 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -93,6 +93,8 @@ struct ke_in_ev {
   paths dm{};
   /*  Directories we saw leave, but not arrive (yet). */
   moves moved_from{};
+  /*  The last two directories which swapped paths. */
+  std::pair<std::filesystem::path, std::filesystem::path> swapped{};
   alignas(inotify_event) char ev_buf[buf_len]{0};
 
   static_assert(sizeof(ev_buf) % sizeof(inotify_event) == 0, "alignment");
@@ -231,8 +233,10 @@ inline auto parse_ev = [](
     - If there already is some other directory
       where it moves to, then that one is either
       about to be removed, or the two of them
-      were exchanged. We can't tell these cases
-      apart from the events.
+      are exchanged. We can't tell these cases
+      apart yet, so we swap their paths. If it is
+      an exchange, then the next rename is the way
+      back, and there is nothing left to do.
     - A directory which moves somewhere we don't
       watch (see `do_moved_self`) doesn't have a
       path anymore. We ignore its events, but keep
@@ -281,8 +285,14 @@ inline auto do_track =
     auto was_known = from_at != moved_from.end();
     auto was_there = is_marked(dir);
     auto from = was_known ? from_at->second : std::filesystem::path{};
+    auto was_swapped =
+      was_there && sr.ke.swapped == std::make_pair(dir, from);
     if (was_known) {
       moved_from.erase(from_at);
+      sr.ke.swapped = {};
+    }
+    if (was_known && ! was_swapped) {
+      if (was_there) sr.ke.swapped = {from, dir};
       for (auto& [wd, path] : dm)
         if (is_at_or_below(path, from))
           rebase(path, from, dir);
@@ -415,8 +425,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         sr.ke.moved_from.clear(), send_msg(result::w_sys_q_overflow, sr.base, cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_IGNORED)
+      else if (msk & IN_IGNORED) {
+        auto was_exchange = dmhit->second != sr.ke.swapped.first;
+        if (! was_exchange) sr.ke.swapped = {};
         sr.ke.dm.erase(dmhit);
+      }
       else if (dmhit->second.empty())
         /*  Not ours anymore. */;
       else if (msk & IN_MOVE_SELF)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 6b835ce..5ce3435 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1460,6 +1460,8 @@ struct ke_in_ev {
   paths dm{};
   /*  Directories we saw leave, but not arrive (yet). */
   moves moved_from{};
+  /*  The last two directories which swapped paths. */
+  std::pair<std::filesystem::path, std::filesystem::path> swapped{};
   alignas(inotify_event) char ev_buf[buf_len]{0};
 
   static_assert(sizeof(ev_buf) % sizeof(inotify_event) == 0, "alignment");
@@ -1598,8 +1600,10 @@ inline auto parse_ev = [](
     - If there already is some other directory
       where it moves to, then that one is either
       about to be removed, or the two of them
-      were exchanged. We can't tell these cases
-      apart from the events.
+      are exchanged. We can't tell these cases
+      apart yet, so we swap their paths. If it is
+      an exchange, then the next rename is the way
+      back, and there is nothing left to do.
     - A directory which moves somewhere we don't
       watch (see `do_moved_self`) doesn't have a
       path anymore. We ignore its events, but keep
@@ -1648,8 +1652,14 @@ inline auto do_track =
     auto was_known = from_at != moved_from.end();
     auto was_there = is_marked(dir);
     auto from = was_known ? from_at->second : std::filesystem::path{};
+    auto was_swapped =
+      was_there && sr.ke.swapped == std::make_pair(dir, from);
     if (was_known) {
       moved_from.erase(from_at);
+      sr.ke.swapped = {};
+    }
+    if (was_known && ! was_swapped) {
+      if (was_there) sr.ke.swapped = {from, dir};
       for (auto& [wd, path] : dm)
         if (is_at_or_below(path, from))
           rebase(path, from, dir);
@@ -1782,8 +1792,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         sr.ke.moved_from.clear(), send_msg(result::w_sys_q_overflow, sr.base, cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_IGNORED)
+      else if (msk & IN_IGNORED) {
+        auto was_exchange = dmhit->second != sr.ke.swapped.first;
+        if (! was_exchange) sr.ke.swapped = {};
         sr.ke.dm.erase(dmhit);
+      }
       else if (dmhit->second.empty())
         /*  Not ours anymore. */;
       else if (msk & IN_MOVE_SELF)
-- 
2.43.0


From e8a6fef156fb02e62b02417404a629c89c773a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 32/53] fix: inotify: a rename does not spoil the paths of
 directories found at its destination

---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp     | 7 ++++---
 include/wtr/watcher.hpp                                    | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 78f2c01..8097c65 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -296,11 +296,12 @@ inline auto do_track =
       for (auto& [wd, path] : dm)
         if (is_at_or_below(path, from))
           rebase(path, from, dir);
-        else if (is_at_or_below(path, dir))
+        else if (was_there && is_at_or_below(path, dir))
           rebase(path, dir, from);
     }
-    /*  It might have moved on by now. */
-    if (was_known && was_there && is_dir(from.c_str()))
+    /*  It might have moved on by now. And something
+        else might be where it was. */
+    if (was_known && is_dir(from.c_str()))
       walkdir_do(from.c_str(), mark, cb);
     if (! is_dir(dir.c_str()))
       return;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 5ce3435..2e55846 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1663,11 +1663,12 @@ inline auto do_track =
       for (auto& [wd, path] : dm)
         if (is_at_or_below(path, from))
           rebase(path, from, dir);
-        else if (is_at_or_below(path, dir))
+        else if (was_there && is_at_or_below(path, dir))
           rebase(path, dir, from);
     }
-    /*  It might have moved on by now. */
-    if (was_known && was_there && is_dir(from.c_str()))
+    /*  It might have moved on by now. And something
+        else might be where it was. */
+    if (was_known && is_dir(from.c_str()))
       walkdir_do(from.c_str(), mark, cb);
     if (! is_dir(dir.c_str()))
       return;
-- 
2.43.0


From 604a5065bf0ab3a41d44b487899615d3a25533be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 33/53] fix: inotify: a directory which moves into one that
 isn't marked yet stays watched

---
 .../watcher/adapter/linux/inotify/watch.hpp   | 28 +++++++++---
 include/wtr/watcher.hpp                       | 45 +++++++++++++------
 2 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 8097c65..2ae615d 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -93,6 +93,9 @@ struct ke_in_ev {
   paths dm{};
   /*  Directories we saw leave, but not arrive (yet). */
   moves moved_from{};
+  /*  Where we found directories which, by the events
+      we had seen so far, still were somewhere else. */
+  paths ahead{};
   /*  The last two directories which swapped paths. */
   std::pair<std::filesystem::path, std::filesystem::path> swapped{};
   alignas(inotify_event) char ev_buf[buf_len]{0};
@@ -268,6 +271,7 @@ inline auto do_track =
     auto ok = do_mark(dir, sr.ke.fd, unmarked);
     for (auto& [wd, path] : unmarked)
       if (auto& known = dm[wd]; known.empty()) known = path;
+      else if (known != path) sr.ke.ahead.insert_or_assign(wd, path);
     return ok;
   };
   auto rebase = [](auto& path, auto const& from, auto const& to)
@@ -314,22 +318,31 @@ inline auto do_track =
 
 /*  This comes after both halves of a rename. If we
     haven't seen it arrive anywhere by then, it left.
-    (Maybe in exchange for something else.) */
+    (Maybe in exchange for something else.) Or it is
+    in a directory which we had not marked yet. */
 inline auto do_moved_self =
-  [](std::filesystem::path const& dir, sysres& sr, auto const& cb) -> void
+  [](int moved_wd, sysres& sr, auto const& cb) -> void
 {
   auto& dm = sr.ke.dm;
   auto& moved_from = sr.ke.moved_from;
   auto mark = [&](auto dir) { return do_mark(dir, sr.ke.fd, dm); };
+  auto walk_if_dir = [&](auto const& dir)
+  { if (is_dir(dir.c_str())) walkdir_do(dir.c_str(), mark, cb); };
+  auto const dir = dm.at(moved_wd);
+  auto ahead_at = sr.ke.ahead.find(moved_wd);
   for (auto at = moved_from.begin(); at != moved_from.end(); ++at)
     if (at->second == dir) {
-      auto const left = at->second;
       moved_from.erase(at);
       for (auto& [wd, path] : dm)
-        if (is_at_or_below(path, left)) path.clear();
-      if (is_dir(left.c_str())) walkdir_do(left.c_str(), mark, cb);
-      return;
+        if (is_at_or_below(path, dir)) path.clear();
+      walk_if_dir(dir);
+      break;
     }
+  if (ahead_at != sr.ke.ahead.end() && ! is_dir(dm.at(moved_wd).c_str())) {
+    auto const ahead = ahead_at->second;
+    sr.ke.ahead.erase(ahead_at);
+    walk_if_dir(ahead);
+  }
 };
 
 /*  Parses each event's path name,
@@ -430,11 +443,12 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         auto was_exchange = dmhit->second != sr.ke.swapped.first;
         if (! was_exchange) sr.ke.swapped = {};
         sr.ke.dm.erase(dmhit);
+        sr.ke.ahead.erase(in_ev->wd);
       }
       else if (dmhit->second.empty())
         /*  Not ours anymore. */;
       else if (msk & IN_MOVE_SELF)
-        do_moved_self(dmhit->second, sr, cb);
+        do_moved_self(in_ev->wd, sr, cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         do_track(in_ev, sr, cb);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 2e55846..87b121e 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1282,15 +1282,18 @@ inline auto do_mark_if_newdir =
   auto is_dir_ev = ev.path_type == ::wtr::watcher::event::path_type::dir;
   auto is_newdir =
     ev.effect_type == ::wtr::watcher::event::effect_type::create;
-  auto const& moved_to = ev.associated ? ev.associated->path_name
-                                       : ev.path_name;
   auto mark = [&](auto dir) { return do_mark(dir, fa_fd); };
-  if (is_dir_ev && is_newdir) walkdir_do(ev.path_name.c_str(), mark, cb);
   /*  It might have moved on by now. */
-  else if (
-    is_dir_ev && (ev.associated || mask & FAN_MOVED_TO)
-    && is_dir(moved_to.c_str()))
-    walkdir_do(moved_to.c_str(), mark, cb);
+  auto walk_if_dir = [&](auto const& dir)
+  { if (is_dir(dir.c_str())) walkdir_do(dir.c_str(), mark, cb); };
+  if (! is_dir_ev)
+    return;
+  else if (is_newdir)
+    walkdir_do(ev.path_name.c_str(), mark, cb);
+  else if (mask & FAN_MOVED_TO)
+    walk_if_dir(ev.path_name);
+  if (ev.associated)
+    walk_if_dir(ev.associated->path_name);
 };
 
 /*  Read some events from what fanotify gives
@@ -1460,6 +1463,9 @@ struct ke_in_ev {
   paths dm{};
   /*  Directories we saw leave, but not arrive (yet). */
   moves moved_from{};
+  /*  Where we found directories which, by the events
+      we had seen so far, still were somewhere else. */
+  paths ahead{};
   /*  The last two directories which swapped paths. */
   std::pair<std::filesystem::path, std::filesystem::path> swapped{};
   alignas(inotify_event) char ev_buf[buf_len]{0};
@@ -1635,6 +1641,7 @@ inline auto do_track =
     auto ok = do_mark(dir, sr.ke.fd, unmarked);
     for (auto& [wd, path] : unmarked)
       if (auto& known = dm[wd]; known.empty()) known = path;
+      else if (known != path) sr.ke.ahead.insert_or_assign(wd, path);
     return ok;
   };
   auto rebase = [](auto& path, auto const& from, auto const& to)
@@ -1681,22 +1688,31 @@ inline auto do_track =
 
 /*  This comes after both halves of a rename. If we
     haven't seen it arrive anywhere by then, it left.
-    (Maybe in exchange for something else.) */
+    (Maybe in exchange for something else.) Or it is
+    in a directory which we had not marked yet. */
 inline auto do_moved_self =
-  [](std::filesystem::path const& dir, sysres& sr, auto const& cb) -> void
+  [](int moved_wd, sysres& sr, auto const& cb) -> void
 {
   auto& dm = sr.ke.dm;
   auto& moved_from = sr.ke.moved_from;
   auto mark = [&](auto dir) { return do_mark(dir, sr.ke.fd, dm); };
+  auto walk_if_dir = [&](auto const& dir)
+  { if (is_dir(dir.c_str())) walkdir_do(dir.c_str(), mark, cb); };
+  auto const dir = dm.at(moved_wd);
+  auto ahead_at = sr.ke.ahead.find(moved_wd);
   for (auto at = moved_from.begin(); at != moved_from.end(); ++at)
     if (at->second == dir) {
-      auto const left = at->second;
       moved_from.erase(at);
       for (auto& [wd, path] : dm)
-        if (is_at_or_below(path, left)) path.clear();
-      if (is_dir(left.c_str())) walkdir_do(left.c_str(), mark, cb);
-      return;
+        if (is_at_or_below(path, dir)) path.clear();
+      walk_if_dir(dir);
+      break;
     }
+  if (ahead_at != sr.ke.ahead.end() && ! is_dir(dm.at(moved_wd).c_str())) {
+    auto const ahead = ahead_at->second;
+    sr.ke.ahead.erase(ahead_at);
+    walk_if_dir(ahead);
+  }
 };
 
 /*  Parses each event's path name,
@@ -1797,11 +1813,12 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         auto was_exchange = dmhit->second != sr.ke.swapped.first;
         if (! was_exchange) sr.ke.swapped = {};
         sr.ke.dm.erase(dmhit);
+        sr.ke.ahead.erase(in_ev->wd);
       }
       else if (dmhit->second.empty())
         /*  Not ours anymore. */;
       else if (msk & IN_MOVE_SELF)
-        do_moved_self(dmhit->second, sr, cb);
+        do_moved_self(in_ev->wd, sr, cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         do_track(in_ev, sr, cb);
-- 
2.43.0


From fc40478cb7fd2e3c20c512d8546a308d30f33eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 34/53] fix: fanotify: watch a directory which arrives in a
 merged event

---
 .../watcher/adapter/linux/fanotify/watch.hpp    | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index a2193d7..5d39a12 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -259,15 +259,18 @@ inline auto do_mark_if_newdir =
   auto is_dir_ev = ev.path_type == ::wtr::watcher::event::path_type::dir;
   auto is_newdir =
     ev.effect_type == ::wtr::watcher::event::effect_type::create;
-  auto const& moved_to = ev.associated ? ev.associated->path_name
-                                       : ev.path_name;
   auto mark = [&](auto dir) { return do_mark(dir, fa_fd); };
-  if (is_dir_ev && is_newdir) walkdir_do(ev.path_name.c_str(), mark, cb);
   /*  It might have moved on by now. */
-  else if (
-    is_dir_ev && (ev.associated || mask & FAN_MOVED_TO)
-    && is_dir(moved_to.c_str()))
-    walkdir_do(moved_to.c_str(), mark, cb);
+  auto walk_if_dir = [&](auto const& dir)
+  { if (is_dir(dir.c_str())) walkdir_do(dir.c_str(), mark, cb); };
+  if (! is_dir_ev)
+    return;
+  else if (is_newdir)
+    walkdir_do(ev.path_name.c_str(), mark, cb);
+  else if (mask & FAN_MOVED_TO)
+    walk_if_dir(ev.path_name);
+  if (ev.associated)
+    walk_if_dir(ev.associated->path_name);
 };
 
 /*  Read some events from what fanotify gives
-- 
2.43.0


From 22c3783408e1b0e09e0ee2974052dc3d2b5c44c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 35/53] fix: fanotify: keep the name of a directory which moves
 while its event is read

A directory whose own name ends with " (deleted)" was looked up by that
name to tell it from a removed one. If it had moved on meanwhile, the end
of its name was taken for the tag of a removed directory.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 40 +++++++++++--------
 include/wtr/watcher.hpp                       | 40 +++++++++++--------
 2 files changed, 46 insertions(+), 34 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 5d39a12..1677b44 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -156,30 +156,36 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   }
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
-  ssize_t dir_len = readlink(fs_ev_pidpath, path_buf, sizeof(path_buf));
-  if (dir_len < 0) {
-    *ec = errno;
-    close(fd);
-    return {};
-  }
-  auto path = std::string(path_buf, dir_len);
+  auto dir_path = [&]() -> std::string
+  {
+    ssize_t dir_len = readlink(fs_ev_pidpath, path_buf, sizeof(path_buf));
+    if (dir_len < 0) *ec = errno;
+    return std::string(path_buf, dir_len < 0 ? 0 : dir_len);
+  };
+  auto path = dir_path();
   /*  The kernel tags the path of a removed directory.
       (Which is not to say that a directory isn't
-      allowed to have a name like this.) */
+      allowed to have a name like this.) A directory
+      without any links is, and stays, a removed one. */
   auto const tag = std::string_view{" (deleted)"};
-  auto tag_at = path.size() > tag.size() ? path.size() - tag.size() : 0;
-  struct stat by_fd, by_path;
-  if (
-    tag_at && path.compare(tag_at, tag.size(), tag) == 0
-    && fstat(fd, &by_fd) == 0
-    && (lstat(path.c_str(), &by_path) != 0
-        || by_path.st_ino != by_fd.st_ino || by_path.st_dev != by_fd.st_dev))
-    path.erase(tag_at);
+  auto is_tagged = [&]
+  {
+    return path.size() > tag.size()
+        && path.compare(path.size() - tag.size(), tag.size(), tag) == 0;
+  };
+  struct stat dir_stat;
+  if (is_tagged() && fstat(fd, &dir_stat) != 0)
+    *ec = errno;
+  else if (is_tagged() && dir_stat.st_nlink == 0) {
+    path = dir_path();
+    if (is_tagged()) path.erase(path.size() - tag.size());
+  }
   close(fd);
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
       can start writing the file name after it. */
-  if (dir_len > 0) {
+  if (*ec) return {};
+  if (! path.empty()) {
     char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
     auto not_selfdir = strcmp(file_name, ".") != 0;
     if (not_selfdir) {
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 87b121e..ca8e8aa 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1179,30 +1179,36 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   }
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
-  ssize_t dir_len = readlink(fs_ev_pidpath, path_buf, sizeof(path_buf));
-  if (dir_len < 0) {
-    *ec = errno;
-    close(fd);
-    return {};
-  }
-  auto path = std::string(path_buf, dir_len);
+  auto dir_path = [&]() -> std::string
+  {
+    ssize_t dir_len = readlink(fs_ev_pidpath, path_buf, sizeof(path_buf));
+    if (dir_len < 0) *ec = errno;
+    return std::string(path_buf, dir_len < 0 ? 0 : dir_len);
+  };
+  auto path = dir_path();
   /*  The kernel tags the path of a removed directory.
       (Which is not to say that a directory isn't
-      allowed to have a name like this.) */
+      allowed to have a name like this.) A directory
+      without any links is, and stays, a removed one. */
   auto const tag = std::string_view{" (deleted)"};
-  auto tag_at = path.size() > tag.size() ? path.size() - tag.size() : 0;
-  struct stat by_fd, by_path;
-  if (
-    tag_at && path.compare(tag_at, tag.size(), tag) == 0
-    && fstat(fd, &by_fd) == 0
-    && (lstat(path.c_str(), &by_path) != 0
-        || by_path.st_ino != by_fd.st_ino || by_path.st_dev != by_fd.st_dev))
-    path.erase(tag_at);
+  auto is_tagged = [&]
+  {
+    return path.size() > tag.size()
+        && path.compare(path.size() - tag.size(), tag.size(), tag) == 0;
+  };
+  struct stat dir_stat;
+  if (is_tagged() && fstat(fd, &dir_stat) != 0)
+    *ec = errno;
+  else if (is_tagged() && dir_stat.st_nlink == 0) {
+    path = dir_path();
+    if (is_tagged()) path.erase(path.size() - tag.size());
+  }
   close(fd);
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
       can start writing the file name after it. */
-  if (dir_len > 0) {
+  if (*ec) return {};
+  if (! path.empty()) {
     char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
     auto not_selfdir = strcmp(file_name, ".") != 0;
     if (not_selfdir) {
-- 
2.43.0


From 0da9f76edf9674ca3430a7291d5c82609646d6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 36/53] fix: cli: very long times don't overflow into none at
 all

---
 src/wtr/watcher/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index 75f7bac..a43b59e 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -79,6 +79,8 @@ struct Args {
       auto td = strtod(st, (char**)&stend);
       if (is_help || td == HUGE_VAL || td <= 0)
         return nullopt;
+      else if (td >= (double)(nanoseconds::max().count() / ttons))
+        return nanoseconds::max();
       else
         return nanoseconds(llroundl(td) * ttons);
     }();
-- 
2.43.0


From 09410f2e9f03259cbacbb439cdae7cc22d10cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:42 +0000
Subject: [PATCH 37/53] fix: cli: a path which can't be looked at is an error,
 not an abort

---
 src/wtr/watcher/main.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index a43b59e..aa5bdd2 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -7,6 +7,7 @@
 #include <optional>
 #include <string>
 #include <string_view>
+#include <system_error>
 #include <thread>
 
 using namespace wtr;
@@ -54,11 +55,13 @@ struct Args {
 
     bool is_help = argis(1, "-h") || argis(1, "--help");
 
+    auto ec = error_code{};
     auto path =
       is_help ? nullopt
-      : argc < 2 ? optional(fs::current_path())
-      : fs::exists(argv[1]) ? optional(fs::path(argv[1]))
+      : argc < 2 ? optional(fs::current_path(ec))
+      : fs::exists(argv[1], ec) ? optional(fs::path(argv[1]))
       : nullopt;
+    if (ec) path = nullopt;
 
     auto time = [&]() -> optional<nanoseconds> {
       auto st = argc > 3 ? argv[3] : "0";
-- 
2.43.0


From e880018c7113711aeb4b834b10c0b815cb0e6c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 38/53] fix: polling adapter: build as C++17, and on Linux when
 it is asked for

The adapter was written in C++20, while everything else, and the build, is
C++17. On Linux, where an error message asks for WATER_WATCHER_USE_WARTHOG
to be defined for old kernels, defining it took the other adapters away, but
this one did not appear in their place. And filling the bucket from a single
file fell off the end of a function which returns a value.
---
 .../wtr/watcher/adapter/warthog/watch.hpp     | 23 ++++++++++---------
 include/wtr/watcher.hpp                       | 23 ++++++++++---------
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index c5637c2..e96522c 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -6,8 +6,10 @@
       - Only support `kqueue` (`warthog` beats `kqueue`)
       - Only support the C++ standard library */
 
-#if ! defined(__linux__) && ! defined(__ANDROID_API__) && ! defined(__APPLE__) \
-  && ! defined(_WIN32)
+#if (! defined(__linux__) && ! defined(__ANDROID_API__)  \
+     && ! defined(__APPLE__) && ! defined(_WIN32))       \
+  || ((defined(__linux__) || defined(__ANDROID_API__))   \
+      && defined(WATER_WATCHER_USE_WARTHOG))
 
 #include "wtr/watcher.hpp"
 #include <chrono>
@@ -37,7 +39,7 @@ using bucket_type =
     - Returns false if the file tree cannot be scanned. */
 inline bool scan(
   std::filesystem::path const& path,
-  auto const& send_event,
+  ::wtr::watcher::event::callback const& send_event,
   bucket_type& bucket) noexcept
 {
   /*  - Scans a (single) file for changes.
@@ -60,10 +62,10 @@ inline bool scan(
             and remove it from the bucket. */
         send_event(
           event{file, event::effect_type::destroy, event::path_type::file});
-        if (bucket.contains(file)) bucket.erase(file);
+        bucket.erase(file);
       }
       /*  if it's not in our bucket, */
-      else if (! bucket.contains(file)) {
+      else if (bucket.count(file) == 0) {
         /*  we put it in there and call the closure,
             indicating creation. */
         bucket[file] = timestamp;
@@ -111,13 +113,13 @@ inline bool scan(
   return scan_directory(path, send_event) ? true
        : scan_file(path, send_event)      ? true
                                           : false;
-};
+}
 
 /*  If the bucket is empty, try to populate it.
     otherwise, prune it. */
 inline bool tend_bucket(
   std::filesystem::path const& path,
-  auto const& send_event,
+  ::wtr::watcher::event::callback const& send_event,
   bucket_type& bucket) noexcept
 {
   /*  Creates a file map, the "bucket", from `path`. */
@@ -132,7 +134,7 @@ inline bool tend_bucket(
       return false;
     else if (! is_directory(path))
       bucket[path] = last_write_time(path);
-    else {
+    else
       for (auto file :
            recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
         if (! dir_ec) {
@@ -143,8 +145,7 @@ inline bool tend_bucket(
             bucket[file.path()] = last_write_time(path);
         }
       }
-      return true;
-    }
+    return true;
   };
 
   /*  Removes files which no longer exist from our bucket. */
@@ -184,7 +185,7 @@ inline bool tend_bucket(
                         : prune(path, send_event) ? true
                                                   : false
                         : true;
-};
+}
 
 } /* namespace */
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index ca8e8aa..7b935b1 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2184,8 +2184,10 @@ inline auto watch(
       - Only support `kqueue` (`warthog` beats `kqueue`)
       - Only support the C++ standard library */
 
-#if ! defined(__linux__) && ! defined(__ANDROID_API__) && ! defined(__APPLE__) \
-  && ! defined(_WIN32)
+#if (! defined(__linux__) && ! defined(__ANDROID_API__)  \
+     && ! defined(__APPLE__) && ! defined(_WIN32))       \
+  || ((defined(__linux__) || defined(__ANDROID_API__))   \
+      && defined(WATER_WATCHER_USE_WARTHOG))
 
 #include <chrono>
 #include <filesystem>
@@ -2214,7 +2216,7 @@ using bucket_type =
     - Returns false if the file tree cannot be scanned. */
 inline bool scan(
   std::filesystem::path const& path,
-  auto const& send_event,
+  ::wtr::watcher::event::callback const& send_event,
   bucket_type& bucket) noexcept
 {
   /*  - Scans a (single) file for changes.
@@ -2237,10 +2239,10 @@ inline bool scan(
             and remove it from the bucket. */
         send_event(
           event{file, event::effect_type::destroy, event::path_type::file});
-        if (bucket.contains(file)) bucket.erase(file);
+        bucket.erase(file);
       }
       /*  if it's not in our bucket, */
-      else if (! bucket.contains(file)) {
+      else if (bucket.count(file) == 0) {
         /*  we put it in there and call the closure,
             indicating creation. */
         bucket[file] = timestamp;
@@ -2288,13 +2290,13 @@ inline bool scan(
   return scan_directory(path, send_event) ? true
        : scan_file(path, send_event)      ? true
                                           : false;
-};
+}
 
 /*  If the bucket is empty, try to populate it.
     otherwise, prune it. */
 inline bool tend_bucket(
   std::filesystem::path const& path,
-  auto const& send_event,
+  ::wtr::watcher::event::callback const& send_event,
   bucket_type& bucket) noexcept
 {
   /*  Creates a file map, the "bucket", from `path`. */
@@ -2309,7 +2311,7 @@ inline bool tend_bucket(
       return false;
     else if (! is_directory(path))
       bucket[path] = last_write_time(path);
-    else {
+    else
       for (auto file :
            recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
         if (! dir_ec) {
@@ -2320,8 +2322,7 @@ inline bool tend_bucket(
             bucket[file.path()] = last_write_time(path);
         }
       }
-      return true;
-    }
+    return true;
   };
 
   /*  Removes files which no longer exist from our bucket. */
@@ -2361,7 +2362,7 @@ inline bool tend_bucket(
                         : prune(path, send_event) ? true
                                                   : false
                         : true;
-};
+}
 
 } /* namespace */
 
-- 
2.43.0


From 0570dc7f44d7c599a5bc0faeb0234e482f76f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:43 +0000
Subject: [PATCH 39/53] fix: polling adapter: entries which vanish during a
 scan don't end the program

The scan used the throwing forms of exists, is_regular_file, is_directory and
of advancing a directory iterator, below a noexcept function. And a directory
which vanished, or which may not be read, took everything behind it in the
iteration with it. Look at one directory at a time, and never throw. What we
can't look at is not taken to be gone.
---
 .../wtr/watcher/adapter/warthog/watch.hpp     | 84 +++++++++++--------
 include/wtr/watcher.hpp                       | 84 +++++++++++--------
 2 files changed, 100 insertions(+), 68 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index e96522c..3201650 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -19,6 +19,7 @@
 #include <system_error>
 #include <thread>
 #include <unordered_map>
+#include <vector>
 
 namespace detail {
 namespace wtr {
@@ -26,13 +27,33 @@ namespace watcher {
 namespace adapter {
 namespace {
 
-inline constexpr std::filesystem::directory_options scan_dir_opts =
-  std::filesystem::directory_options::skip_permission_denied
-  & std::filesystem::directory_options::follow_directory_symlink;
-
 using bucket_type =
   std::unordered_map<std::string, std::filesystem::file_time_type>;
 
+/*  Calls `with_entry` for everything below `dir`, without following symlinks.
+    Directories change while we are reading them. They vanish, and some we may
+    not read. Those are passed over, and do not keep us from reading others.
+    Nothing in here may throw. */
+template<class Fn>
+inline void each_entry(
+  std::filesystem::path const& dir,
+  Fn const& with_entry) noexcept
+{
+  using namespace std::filesystem;
+  auto pending = std::vector<path>{dir};
+  while (! pending.empty()) {
+    auto ec = std::error_code{};
+    auto it = directory_iterator(pending.back(), ec);
+    pending.pop_back();
+    for (; ! ec && it != directory_iterator{}; it.increment(ec)) {
+      auto entry_ec = std::error_code{};
+      if (it->symlink_status(entry_ec).type() == file_type::directory)
+        pending.push_back(it->path());
+      with_entry(it->path());
+    }
+  }
+}
+
 /*  - Scans `path` for changes.
     - Updates our bucket to match the changes.
     - Calls `send_event` when changes happen.
@@ -52,8 +73,8 @@ inline bool scan(
     using namespace ::wtr::watcher;
     using namespace std::filesystem;
 
-    if (exists(file) && is_regular_file(file)) {
-      auto ec = std::error_code{};
+    auto ec = std::error_code{};
+    if (is_regular_file(file, ec)) {
       /*  grabbing the file's last write time */
       auto timestamp = last_write_time(file, ec);
       if (ec) {
@@ -97,13 +118,11 @@ inline bool scan(
     [&](std::filesystem::path const& dir, auto const& send_event) -> bool
   {
     using namespace std::filesystem;
-    if (is_directory(dir)) {
-      auto ec = std::error_code{};
-      for (auto file : recursive_directory_iterator(dir, scan_dir_opts, ec))
-        if (ec)
-          return false;
-        else
-          scan_file(file.path(), send_event);
+    auto ec = std::error_code{};
+    if (is_directory(dir, ec)) {
+      each_entry(
+        dir,
+        [&](auto const& file) { scan_file(file, send_event); });
       return true;
     }
     else
@@ -128,23 +147,19 @@ inline bool tend_bucket(
     using namespace std::filesystem;
     /*  this happens when a path was changed while we were reading it.
         there is nothing to do here; we prune later. */
-    auto dir_ec = std::error_code{};
-    auto lwt_ec = std::error_code{};
-    if (! exists(path))
+    auto put = [&](auto const& file)
+    {
+      auto ec = std::error_code{};
+      auto timestamp = last_write_time(file, ec);
+      if (! ec) bucket[file] = timestamp;
+    };
+    auto ec = std::error_code{};
+    if (! exists(path, ec))
       return false;
-    else if (! is_directory(path))
-      bucket[path] = last_write_time(path);
+    else if (! is_directory(path, ec))
+      put(path);
     else
-      for (auto file :
-           recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
-        if (! dir_ec) {
-          auto lwt = last_write_time(file, lwt_ec);
-          if (! lwt_ec)
-            bucket[file.path()] = lwt;
-          else
-            bucket[file.path()] = last_write_time(path);
-        }
-      }
+      each_entry(path, put);
     return true;
   };
 
@@ -159,8 +174,9 @@ inline bool tend_bucket(
     /*  while looking through the bucket's contents, */
     while (bucket_it != bucket.end()) {
       /*  check if the stuff in our bucket exists anymore. */
-      exists(bucket_it->first)
-        /*  if so, move on. */
+      auto ec = std::error_code{};
+      exists(bucket_it->first, ec) || ec
+        /*  if so, or if we can't tell, move on. */
         ? std::advance(bucket_it, 1)
         /*  if not, call the closure,
             indicating destruction,
@@ -170,10 +186,10 @@ inline bool tend_bucket(
         send_event(event{
           bucket_it->first,
           event::effect_type::destroy,
-          is_regular_file(path) ? event::path_type::file
-          : is_directory(path)  ? event::path_type::dir
-          : is_symlink(path)    ? event::path_type::sym_link
-                                : event::path_type::other});
+          is_regular_file(path, ec) ? event::path_type::file
+          : is_directory(path, ec)  ? event::path_type::dir
+          : is_symlink(path, ec)    ? event::path_type::sym_link
+                                    : event::path_type::other});
         /*  bucket, erase it! */
         bucket_it = bucket.erase(bucket_it);
       }();
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 7b935b1..a92b779 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2196,6 +2196,7 @@ inline auto watch(
 #include <system_error>
 #include <thread>
 #include <unordered_map>
+#include <vector>
 
 namespace detail {
 namespace wtr {
@@ -2203,13 +2204,33 @@ namespace watcher {
 namespace adapter {
 namespace {
 
-inline constexpr std::filesystem::directory_options scan_dir_opts =
-  std::filesystem::directory_options::skip_permission_denied
-  & std::filesystem::directory_options::follow_directory_symlink;
-
 using bucket_type =
   std::unordered_map<std::string, std::filesystem::file_time_type>;
 
+/*  Calls `with_entry` for everything below `dir`, without following symlinks.
+    Directories change while we are reading them. They vanish, and some we may
+    not read. Those are passed over, and do not keep us from reading others.
+    Nothing in here may throw. */
+template<class Fn>
+inline void each_entry(
+  std::filesystem::path const& dir,
+  Fn const& with_entry) noexcept
+{
+  using namespace std::filesystem;
+  auto pending = std::vector<path>{dir};
+  while (! pending.empty()) {
+    auto ec = std::error_code{};
+    auto it = directory_iterator(pending.back(), ec);
+    pending.pop_back();
+    for (; ! ec && it != directory_iterator{}; it.increment(ec)) {
+      auto entry_ec = std::error_code{};
+      if (it->symlink_status(entry_ec).type() == file_type::directory)
+        pending.push_back(it->path());
+      with_entry(it->path());
+    }
+  }
+}
+
 /*  - Scans `path` for changes.
     - Updates our bucket to match the changes.
     - Calls `send_event` when changes happen.
@@ -2229,8 +2250,8 @@ inline bool scan(
     using namespace ::wtr::watcher;
     using namespace std::filesystem;
 
-    if (exists(file) && is_regular_file(file)) {
-      auto ec = std::error_code{};
+    auto ec = std::error_code{};
+    if (is_regular_file(file, ec)) {
       /*  grabbing the file's last write time */
       auto timestamp = last_write_time(file, ec);
       if (ec) {
@@ -2274,13 +2295,11 @@ inline bool scan(
     [&](std::filesystem::path const& dir, auto const& send_event) -> bool
   {
     using namespace std::filesystem;
-    if (is_directory(dir)) {
-      auto ec = std::error_code{};
-      for (auto file : recursive_directory_iterator(dir, scan_dir_opts, ec))
-        if (ec)
-          return false;
-        else
-          scan_file(file.path(), send_event);
+    auto ec = std::error_code{};
+    if (is_directory(dir, ec)) {
+      each_entry(
+        dir,
+        [&](auto const& file) { scan_file(file, send_event); });
       return true;
     }
     else
@@ -2305,23 +2324,19 @@ inline bool tend_bucket(
     using namespace std::filesystem;
     /*  this happens when a path was changed while we were reading it.
         there is nothing to do here; we prune later. */
-    auto dir_ec = std::error_code{};
-    auto lwt_ec = std::error_code{};
-    if (! exists(path))
+    auto put = [&](auto const& file)
+    {
+      auto ec = std::error_code{};
+      auto timestamp = last_write_time(file, ec);
+      if (! ec) bucket[file] = timestamp;
+    };
+    auto ec = std::error_code{};
+    if (! exists(path, ec))
       return false;
-    else if (! is_directory(path))
-      bucket[path] = last_write_time(path);
+    else if (! is_directory(path, ec))
+      put(path);
     else
-      for (auto file :
-           recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
-        if (! dir_ec) {
-          auto lwt = last_write_time(file, lwt_ec);
-          if (! lwt_ec)
-            bucket[file.path()] = lwt;
-          else
-            bucket[file.path()] = last_write_time(path);
-        }
-      }
+      each_entry(path, put);
     return true;
   };
 
@@ -2336,8 +2351,9 @@ inline bool tend_bucket(
     /*  while looking through the bucket's contents, */
     while (bucket_it != bucket.end()) {
       /*  check if the stuff in our bucket exists anymore. */
-      exists(bucket_it->first)
-        /*  if so, move on. */
+      auto ec = std::error_code{};
+      exists(bucket_it->first, ec) || ec
+        /*  if so, or if we can't tell, move on. */
         ? std::advance(bucket_it, 1)
         /*  if not, call the closure,
             indicating destruction,
@@ -2347,10 +2363,10 @@ inline bool tend_bucket(
         send_event(event{
           bucket_it->first,
           event::effect_type::destroy,
-          is_regular_file(path) ? event::path_type::file
-          : is_directory(path)  ? event::path_type::dir
-          : is_symlink(path)    ? event::path_type::sym_link
-                                : event::path_type::other});
+          is_regular_file(path, ec) ? event::path_type::file
+          : is_directory(path, ec)  ? event::path_type::dir
+          : is_symlink(path, ec)    ? event::path_type::sym_link
+                                    : event::path_type::other});
         /*  bucket, erase it! */
         bucket_it = bucket.erase(bucket_it);
       }();
-- 
2.43.0


From bf7cba3ba0609b1b9c2d21b938e4c706ec4e99d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 40/53] fix: polling adapter: files which appear in an empty
 directory are events

Whenever the bucket was empty, it was filled from what there was, silently.
Files which appeared while there were none were never reported. Fill it when
we begin to watch, and with files only: directories were reported as gone
which had never been reported to be there.
---
 .../wtr/watcher/adapter/warthog/watch.hpp     | 52 +++++++++----------
 include/wtr/watcher.hpp                       | 52 +++++++++----------
 2 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index 3201650..be79ace 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -134,35 +134,37 @@ inline bool scan(
                                           : false;
 }
 
-/*  If the bucket is empty, try to populate it.
-    otherwise, prune it. */
-inline bool tend_bucket(
+/*  Puts the files which are there when we begin into our bucket.
+    Whatever comes later is an event, even if there were none at first.
+    Returns false if there is nothing at `path`. */
+inline bool populate(
   std::filesystem::path const& path,
-  ::wtr::watcher::event::callback const& send_event,
   bucket_type& bucket) noexcept
 {
-  /*  Creates a file map, the "bucket", from `path`. */
-  auto populate = [&](std::filesystem::path const& path) -> bool
+  using namespace std::filesystem;
+  auto put = [&](auto const& file)
   {
-    using namespace std::filesystem;
-    /*  this happens when a path was changed while we were reading it.
-        there is nothing to do here; we prune later. */
-    auto put = [&](auto const& file)
-    {
-      auto ec = std::error_code{};
-      auto timestamp = last_write_time(file, ec);
-      if (! ec) bucket[file] = timestamp;
-    };
     auto ec = std::error_code{};
-    if (! exists(path, ec))
-      return false;
-    else if (! is_directory(path, ec))
-      put(path);
-    else
-      each_entry(path, put);
-    return true;
+    if (! is_regular_file(file, ec)) return;
+    auto timestamp = last_write_time(file, ec);
+    if (! ec) bucket[file] = timestamp;
   };
+  auto ec = std::error_code{};
+  if (! exists(path, ec))
+    return false;
+  else if (! is_directory(path, ec))
+    put(path);
+  else
+    each_entry(path, put);
+  return true;
+}
 
+/*  Prunes the bucket. */
+inline bool tend_bucket(
+  std::filesystem::path const& path,
+  ::wtr::watcher::event::callback const& send_event,
+  bucket_type& bucket) noexcept
+{
   /*  Removes files which no longer exist from our bucket. */
   auto prune =
     [&](std::filesystem::path const& path, auto const& send_event) -> bool
@@ -197,10 +199,7 @@ inline bool tend_bucket(
     return true;
   };
 
-  return bucket.empty() ? populate(path)          ? true
-                        : prune(path, send_event) ? true
-                                                  : false
-                        : true;
+  return prune(path, send_event);
 }
 
 } /* namespace */
@@ -213,6 +212,7 @@ inline auto watch(
   using std::this_thread::sleep_for;
   using namespace std::chrono_literals;
   auto bucket = bucket_type{};
+  if (! populate(path, bucket)) return false;
   /*  Sleep, checking if we're alive every little while.
       Keep running if
         - We are alive
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index a92b779..35cbd72 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2311,35 +2311,37 @@ inline bool scan(
                                           : false;
 }
 
-/*  If the bucket is empty, try to populate it.
-    otherwise, prune it. */
-inline bool tend_bucket(
+/*  Puts the files which are there when we begin into our bucket.
+    Whatever comes later is an event, even if there were none at first.
+    Returns false if there is nothing at `path`. */
+inline bool populate(
   std::filesystem::path const& path,
-  ::wtr::watcher::event::callback const& send_event,
   bucket_type& bucket) noexcept
 {
-  /*  Creates a file map, the "bucket", from `path`. */
-  auto populate = [&](std::filesystem::path const& path) -> bool
+  using namespace std::filesystem;
+  auto put = [&](auto const& file)
   {
-    using namespace std::filesystem;
-    /*  this happens when a path was changed while we were reading it.
-        there is nothing to do here; we prune later. */
-    auto put = [&](auto const& file)
-    {
-      auto ec = std::error_code{};
-      auto timestamp = last_write_time(file, ec);
-      if (! ec) bucket[file] = timestamp;
-    };
     auto ec = std::error_code{};
-    if (! exists(path, ec))
-      return false;
-    else if (! is_directory(path, ec))
-      put(path);
-    else
-      each_entry(path, put);
-    return true;
+    if (! is_regular_file(file, ec)) return;
+    auto timestamp = last_write_time(file, ec);
+    if (! ec) bucket[file] = timestamp;
   };
+  auto ec = std::error_code{};
+  if (! exists(path, ec))
+    return false;
+  else if (! is_directory(path, ec))
+    put(path);
+  else
+    each_entry(path, put);
+  return true;
+}
 
+/*  Prunes the bucket. */
+inline bool tend_bucket(
+  std::filesystem::path const& path,
+  ::wtr::watcher::event::callback const& send_event,
+  bucket_type& bucket) noexcept
+{
   /*  Removes files which no longer exist from our bucket. */
   auto prune =
     [&](std::filesystem::path const& path, auto const& send_event) -> bool
@@ -2374,10 +2376,7 @@ inline bool tend_bucket(
     return true;
   };
 
-  return bucket.empty() ? populate(path)          ? true
-                        : prune(path, send_event) ? true
-                                                  : false
-                        : true;
+  return prune(path, send_event);
 }
 
 } /* namespace */
@@ -2390,6 +2389,7 @@ inline auto watch(
   using std::this_thread::sleep_for;
   using namespace std::chrono_literals;
   auto bucket = bucket_type{};
+  if (! populate(path, bucket)) return false;
   /*  Sleep, checking if we're alive every little while.
       Keep running if
         - We are alive
-- 
2.43.0


From 7214a8da7bb979713f1f1ea360b92105c86469c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 41/53] fix: polling adapter: tell of each file which goes
 away, once, as a file

What was destroyed was reported with the path type of the watched
directory, and as destroyed when it could only not be looked at for a
moment. A file replaced by something which is not a file was not
reported at all, and one which vanished during the scan was reported
while it was not in the bucket.
---
 .../wtr/watcher/adapter/warthog/watch.hpp     | 75 ++++++++-----------
 include/wtr/watcher.hpp                       | 75 ++++++++-----------
 2 files changed, 66 insertions(+), 84 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index be79ace..7c4f6fb 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -79,11 +79,7 @@ inline bool scan(
       auto timestamp = last_write_time(file, ec);
       if (ec) {
         /*  the file changed while we were looking at it.
-            so, we call the closure, indicating destruction,
-            and remove it from the bucket. */
-        send_event(
-          event{file, event::effect_type::destroy, event::path_type::file});
-        bucket.erase(file);
+            if it is gone, it will be pruned. */
       }
       /*  if it's not in our bucket, */
       else if (bucket.count(file) == 0) {
@@ -159,47 +155,43 @@ inline bool populate(
   return true;
 }
 
-/*  Prunes the bucket. */
-inline bool tend_bucket(
-  std::filesystem::path const& path,
+/*  Removes files which no longer exist from our bucket. */
+inline void prune(
   ::wtr::watcher::event::callback const& send_event,
   bucket_type& bucket) noexcept
 {
-  /*  Removes files which no longer exist from our bucket. */
-  auto prune =
-    [&](std::filesystem::path const& path, auto const& send_event) -> bool
-  {
-    using namespace ::wtr::watcher;
-    using namespace std::filesystem;
+  using namespace ::wtr::watcher;
+  using namespace std::filesystem;
 
-    auto bucket_it = bucket.begin();
-    /*  while looking through the bucket's contents, */
-    while (bucket_it != bucket.end()) {
-      /*  check if the stuff in our bucket exists anymore. */
-      auto ec = std::error_code{};
-      exists(bucket_it->first, ec) || ec
-        /*  if so, or if we can't tell, move on. */
-        ? std::advance(bucket_it, 1)
-        /*  if not, call the closure,
-            indicating destruction,
-            and remove it from our bucket. */
-        : [&]()
-      {
-        send_event(event{
-          bucket_it->first,
-          event::effect_type::destroy,
-          is_regular_file(path, ec) ? event::path_type::file
-          : is_directory(path, ec)  ? event::path_type::dir
-          : is_symlink(path, ec)    ? event::path_type::sym_link
-                                    : event::path_type::other});
-        /*  bucket, erase it! */
-        bucket_it = bucket.erase(bucket_it);
-      }();
-    }
-    return true;
+  /*  What we can't look at might still be there. */
+  auto is_gone = [](path const& file)
+  {
+    auto ec = std::error_code{};
+    auto type = status(file, ec).type();
+    return type == file_type::none
+           ? ec == std::errc::too_many_symbolic_link_levels
+           : type != file_type::regular && type != file_type::unknown;
   };
 
-  return prune(path, send_event);
+  auto bucket_it = bucket.begin();
+  /*  while looking through the bucket's contents, */
+  while (bucket_it != bucket.end()) {
+    /*  check if the stuff in our bucket exists anymore.
+        if so, move on. */
+    if (! is_gone(bucket_it->first))
+      std::advance(bucket_it, 1);
+    /*  if not, call the closure,
+        indicating destruction,
+        and remove it from our bucket. */
+    else {
+      send_event(event{
+        bucket_it->first,
+        event::effect_type::destroy,
+        event::path_type::file});
+      /*  bucket, erase it! */
+      bucket_it = bucket.erase(bucket_it);
+    }
+  }
 }
 
 } /* namespace */
@@ -216,11 +208,10 @@ inline auto watch(
   /*  Sleep, checking if we're alive every little while.
       Keep running if
         - We are alive
-        - The bucket is doing well
         - No errors occured while scanning
       Otherwise, stop and return false. */
   while (living.state() == semabin::state::pending) {
-    if (! tend_bucket(path, callback, bucket)) return false;
+    prune(callback, bucket);
     if (! scan(path, callback, bucket)) return false;
     sleep_for(16ms);
   }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 35cbd72..28eb311 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2256,11 +2256,7 @@ inline bool scan(
       auto timestamp = last_write_time(file, ec);
       if (ec) {
         /*  the file changed while we were looking at it.
-            so, we call the closure, indicating destruction,
-            and remove it from the bucket. */
-        send_event(
-          event{file, event::effect_type::destroy, event::path_type::file});
-        bucket.erase(file);
+            if it is gone, it will be pruned. */
       }
       /*  if it's not in our bucket, */
       else if (bucket.count(file) == 0) {
@@ -2336,47 +2332,43 @@ inline bool populate(
   return true;
 }
 
-/*  Prunes the bucket. */
-inline bool tend_bucket(
-  std::filesystem::path const& path,
+/*  Removes files which no longer exist from our bucket. */
+inline void prune(
   ::wtr::watcher::event::callback const& send_event,
   bucket_type& bucket) noexcept
 {
-  /*  Removes files which no longer exist from our bucket. */
-  auto prune =
-    [&](std::filesystem::path const& path, auto const& send_event) -> bool
-  {
-    using namespace ::wtr::watcher;
-    using namespace std::filesystem;
+  using namespace ::wtr::watcher;
+  using namespace std::filesystem;
 
-    auto bucket_it = bucket.begin();
-    /*  while looking through the bucket's contents, */
-    while (bucket_it != bucket.end()) {
-      /*  check if the stuff in our bucket exists anymore. */
-      auto ec = std::error_code{};
-      exists(bucket_it->first, ec) || ec
-        /*  if so, or if we can't tell, move on. */
-        ? std::advance(bucket_it, 1)
-        /*  if not, call the closure,
-            indicating destruction,
-            and remove it from our bucket. */
-        : [&]()
-      {
-        send_event(event{
-          bucket_it->first,
-          event::effect_type::destroy,
-          is_regular_file(path, ec) ? event::path_type::file
-          : is_directory(path, ec)  ? event::path_type::dir
-          : is_symlink(path, ec)    ? event::path_type::sym_link
-                                    : event::path_type::other});
-        /*  bucket, erase it! */
-        bucket_it = bucket.erase(bucket_it);
-      }();
-    }
-    return true;
+  /*  What we can't look at might still be there. */
+  auto is_gone = [](path const& file)
+  {
+    auto ec = std::error_code{};
+    auto type = status(file, ec).type();
+    return type == file_type::none
+           ? ec == std::errc::too_many_symbolic_link_levels
+           : type != file_type::regular && type != file_type::unknown;
   };
 
-  return prune(path, send_event);
+  auto bucket_it = bucket.begin();
+  /*  while looking through the bucket's contents, */
+  while (bucket_it != bucket.end()) {
+    /*  check if the stuff in our bucket exists anymore.
+        if so, move on. */
+    if (! is_gone(bucket_it->first))
+      std::advance(bucket_it, 1);
+    /*  if not, call the closure,
+        indicating destruction,
+        and remove it from our bucket. */
+    else {
+      send_event(event{
+        bucket_it->first,
+        event::effect_type::destroy,
+        event::path_type::file});
+      /*  bucket, erase it! */
+      bucket_it = bucket.erase(bucket_it);
+    }
+  }
 }
 
 } /* namespace */
@@ -2393,11 +2385,10 @@ inline auto watch(
   /*  Sleep, checking if we're alive every little while.
       Keep running if
         - We are alive
-        - The bucket is doing well
         - No errors occured while scanning
       Otherwise, stop and return false. */
   while (living.state() == semabin::state::pending) {
-    if (! tend_bucket(path, callback, bucket)) return false;
+    prune(callback, bucket);
     if (! scan(path, callback, bucket)) return false;
     sleep_for(16ms);
   }
-- 
2.43.0


From bbf2fb2b5b35d8583dda9029272d5ce3372073c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:51 +0000
Subject: [PATCH 42/53] fix: python: don't share the library before its
 functions have types

Of two threads which opened their first watch at the same time, one
could call wtr_watcher_open while it was still taken to return an int.
Its handle was cut short, so the watch was never closed, and its
callback was called after it was gone.
---
 watcher-py/watcher/watcher.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 5fa6b27..68d090a 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -52,11 +52,13 @@ def _lazy_static_solib_handle() -> ctypes.CDLL:
     # pylint: disable=global-statement
     global _LIB
     if _LIB is None:
-        _LIB = ctypes.CDLL(solib_path())
-        _LIB.wtr_watcher_open.argtypes = [ctypes.c_char_p, _CCallback, ctypes.c_void_p]
-        _LIB.wtr_watcher_open.restype = ctypes.c_void_p
-        _LIB.wtr_watcher_close.argtypes = [ctypes.c_void_p]
-        _LIB.wtr_watcher_close.restype = ctypes.c_bool
+        # Other threads may use it as soon as it is set, so it must be ready by then.
+        lib = ctypes.CDLL(solib_path())
+        lib.wtr_watcher_open.argtypes = [ctypes.c_char_p, _CCallback, ctypes.c_void_p]
+        lib.wtr_watcher_open.restype = ctypes.c_void_p
+        lib.wtr_watcher_close.argtypes = [ctypes.c_void_p]
+        lib.wtr_watcher_close.restype = ctypes.c_bool
+        _LIB = lib
     return _LIB
 
 
-- 
2.43.0


From 85e4951535cd3033146b4941470450096d6629ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:52 +0000
Subject: [PATCH 43/53] fix: linux: paths below the root begin with one slash,
 not two

---
 devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp | 2 +-
 include/wtr/watcher.hpp                                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 6a7a6a0..e57faec 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -165,7 +165,7 @@ inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> voi
     while (dirent* de = (errno = 0, readdir(d))) {
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      auto next = std::string{path} + '/' + de->d_name;
+      auto next = std::string{strcmp(path, "/") == 0 ? "" : path} + '/' + de->d_name;
       if (is_subdir(de, next.c_str())) walkdir_do(next.c_str(), f, cb);
     }
     ok = ok && errno == 0;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 28eb311..04d0614 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1007,7 +1007,7 @@ inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> voi
     while (dirent* de = (errno = 0, readdir(d))) {
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      auto next = std::string{path} + '/' + de->d_name;
+      auto next = std::string{strcmp(path, "/") == 0 ? "" : path} + '/' + de->d_name;
       if (is_subdir(de, next.c_str())) walkdir_do(next.c_str(), f, cb);
     }
     ok = ok && errno == 0;
-- 
2.43.0


From f1fba028ea85e392d94a8f4149f520759150fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 44/53] fix: linux: don't watch through a link which has
 replaced a directory

---
 .../watcher/adapter/linux/inotify/watch.hpp   |  9 ++++---
 .../wtr/watcher/adapter/linux/sysres.hpp      | 16 +++++++++++-
 include/wtr/watcher.hpp                       | 25 ++++++++++++++++---
 3 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 2ae615d..16351a0 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -118,10 +118,13 @@ inline auto do_mark =
 {
   auto flags = ke_in_ev::recv_mask | IN_ONLYDIR | IN_DONT_FOLLOW;
   int wd = inotify_add_watch(dirfd, dirpath, flags);
-  if (wd > 0)
-    return dm.insert_or_assign(wd, dirpath), result::complete;
-  else
+  if (wd <= 0)
     return result::w_sys_not_watched;
+  else if (is_elsewhere(dirpath))
+    return dm.emplace(wd, dirpath).second ? result::complete
+                                          : result::w_sys_not_watched;
+  else
+    return dm.insert_or_assign(wd, dirpath), result::complete;
 };
 
 inline auto make_sysres = [](
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index e57faec..653b117 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -9,6 +9,7 @@
 #include <fcntl.h>
 #include <limits.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <string>
 #include <sys/epoll.h>
@@ -129,6 +130,15 @@ inline auto is_dir(char const* const path) -> bool
   return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
 }
 
+/*  By the time we look, a directory on the way may have
+    been replaced by a link. What we find through it has
+    some other path, and might not be ours to watch. */
+inline auto is_elsewhere(char const* const path) -> bool
+{
+  char real[PATH_MAX];
+  return realpath(path, real) && strcmp(path, real) != 0;
+}
+
 /*  $ echo time wtr.watcher / -ms 1
       | sudo bash -E
       ...
@@ -158,8 +168,12 @@ inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> voi
   {
     return de->d_type == DT_DIR || (de->d_type == DT_UNKNOWN && is_dir(de_path));
   };
-  bool ok = f(path) == result::complete;
   int fd = open(path, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
+  if (is_elsewhere(path)) {
+    if (fd >= 0) close(fd);
+    return send_msg(result::w_sys_not_watched, path, cb);
+  }
+  bool ok = f(path) == result::complete;
   DIR* d = fd < 0 ? nullptr : fdopendir(fd);
   if (d) {
     while (dirent* de = (errno = 0, readdir(d))) {
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 04d0614..2de5cd4 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -851,6 +851,7 @@ inline auto watch(
 #include <fcntl.h>
 #include <limits.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <string>
 #include <sys/epoll.h>
@@ -971,6 +972,15 @@ inline auto is_dir(char const* const path) -> bool
   return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
 }
 
+/*  By the time we look, a directory on the way may have
+    been replaced by a link. What we find through it has
+    some other path, and might not be ours to watch. */
+inline auto is_elsewhere(char const* const path) -> bool
+{
+  char real[PATH_MAX];
+  return realpath(path, real) && strcmp(path, real) != 0;
+}
+
 /*  $ echo time wtr.watcher / -ms 1
       | sudo bash -E
       ...
@@ -1000,8 +1010,12 @@ inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> voi
   {
     return de->d_type == DT_DIR || (de->d_type == DT_UNKNOWN && is_dir(de_path));
   };
-  bool ok = f(path) == result::complete;
   int fd = open(path, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
+  if (is_elsewhere(path)) {
+    if (fd >= 0) close(fd);
+    return send_msg(result::w_sys_not_watched, path, cb);
+  }
+  bool ok = f(path) == result::complete;
   DIR* d = fd < 0 ? nullptr : fdopendir(fd);
   if (d) {
     while (dirent* de = (errno = 0, readdir(d))) {
@@ -1494,10 +1508,13 @@ inline auto do_mark =
 {
   auto flags = ke_in_ev::recv_mask | IN_ONLYDIR | IN_DONT_FOLLOW;
   int wd = inotify_add_watch(dirfd, dirpath, flags);
-  if (wd > 0)
-    return dm.insert_or_assign(wd, dirpath), result::complete;
-  else
+  if (wd <= 0)
     return result::w_sys_not_watched;
+  else if (is_elsewhere(dirpath))
+    return dm.emplace(wd, dirpath).second ? result::complete
+                                          : result::w_sys_not_watched;
+  else
+    return dm.insert_or_assign(wd, dirpath), result::complete;
 };
 
 inline auto make_sysres = [](
-- 
2.43.0


From bb712fb535edda72f6733a630633ffd721c6faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:01 +0000
Subject: [PATCH 45/53] fix: python: wait for a close which is under way, and
 close once

Two threads which closed a watch at the same time (or a close and the
exit of a context) could both hand the same handle to
wtr_watcher_close, and use it after it was freed. Or the second close
returned while the first was still waiting for the last callback.
---
 watcher-py/watcher/watcher.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 68d090a..02d761c 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -7,6 +7,7 @@ import ctypes
 import json
 import os
 import sys
+import threading
 from typing import Callable
 from dataclasses import dataclass
 from enum import Enum
@@ -176,6 +177,7 @@ class Watch:
             py_event = _c_event_to_event(c_event)
             callback(py_event)
 
+        self._closing = threading.RLock()
         self._lib = _lazy_static_solib_handle()
         self._path = os.fsencode(path)
         self._c_callback = _CCallback(callback_bridge)
@@ -188,9 +190,10 @@ class Watch:
         You can call this manually (not required) to close the watcher.
         Preferred to use a context manager, like in the example.
         """
-        if self._watcher:
-            self._lib.wtr_watcher_close(self._watcher)
-            self._watcher = None
+        with self._closing:
+            watcher, self._watcher = self._watcher, None
+            if watcher:
+                self._lib.wtr_watcher_close(watcher)
 
     def __del__(self):
         self.close()
-- 
2.43.0


From f21a3f80fb51bfd76a650fcb4c083b4a0d7ce701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:48 +0000
Subject: [PATCH 46/53] fix: linux: resolve a handle on the filesystem it is of

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 83 +++++++++++++++----
 include/wtr/watcher.hpp                       | 83 +++++++++++++++----
 2 files changed, 136 insertions(+), 30 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 1677b44..9fb6785 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -19,7 +19,10 @@
 #include <sys/epoll.h>
 #include <sys/fanotify.h>
 #include <sys/stat.h>
+#include <sys/statfs.h>
 #include <unistd.h>
+#include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter::fanotify {
 
@@ -33,6 +36,49 @@ namespace detail::wtr::watcher::adapter::fanotify {
     and some writable fields within the callback.
 */
 
+/*  An event tells us about a directory with a handle to
+    it and the id of the filesystem which the handle is of.
+    The handle is only good along with a descriptor of some
+    directory on that filesystem. (The working directory
+    might be on another one.) We hold one for each. */
+struct fs_dirs {
+  struct fs_dir {
+    fsid_t id;
+    int fd;
+  };
+
+  std::vector<fs_dir> held{};
+
+  fs_dirs() = default;
+  fs_dirs(fs_dirs&&) = default;
+
+  ~fs_dirs()
+  {
+    for (auto const& d : held) close(d.fd);
+  }
+
+  auto fd_of(void const* const id) const -> int
+  {
+    for (auto const& d : held)
+      if (memcmp(&d.id, id, sizeof(d.id)) == 0) return d.fd;
+    return -1;
+  }
+
+  auto hold(char const* const path) -> bool
+  {
+    struct statfs s, opened;
+    if (statfs(path, &s) != 0) return false;
+    if (fd_of(&s.f_fsid) >= 0) return true;
+    int fd = open(path, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
+    if (fd < 0) return false;
+    if (fstatfs(fd, &opened) == 0 && fd_of(&opened.f_fsid) < 0)
+      held.push_back({opened.f_fsid, fd});
+    else
+      close(fd);
+    return fd_of(&s.f_fsid) >= 0;
+  }
+};
+
 // clang-format off
 struct ke_fa_ev {
   static constexpr auto buf_len = 4096;
@@ -60,6 +106,7 @@ struct ke_fa_ev {
     | FAN_EVENT_ON_CHILD;
 
   int fd = -1;
+  fs_dirs dirs{};
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
 };
 
@@ -73,8 +120,10 @@ struct sysres {
   adapter::ep ep{};
 };
 
-inline auto do_mark = [](char const* const dirpath, int fa_fd) -> result
+inline auto do_mark =
+  [](char const* const dirpath, int fa_fd, fs_dirs& dirs) -> result
 {
+  if (! dirs.hold(dirpath)) return result::w_sys_not_watched;
   auto flags = FAN_MARK_ADD | FAN_MARK_ONLYDIR | FAN_MARK_DONT_FOLLOW;
   int anonymous_wd =
     fanotify_mark(fa_fd, flags, ke_fa_ev::recv_flags, AT_FDCWD, dirpath);
@@ -94,7 +143,8 @@ inline auto make_sysres = [](
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   char real[PATH_MAX];
-  auto mark = [&](auto dir) { return do_mark(dir, fa_fd); };
+  fs_dirs dirs;
+  auto mark = [&](auto dir) { return do_mark(dir, fa_fd, dirs); };
   if (realpath(base_path, real) && mark(real) == result::complete)
     walkdir_do(real, mark, cb);
   else
@@ -105,7 +155,7 @@ inline auto make_sysres = [](
   return sysres{
     .ok = result::pending,
     .base = base_path,
-    .ke{.fd = fa_fd},
+    .ke{.fd = fa_fd, .dirs = std::move(dirs)},
     .il = living,
     .ep = ep,
   };
@@ -142,14 +192,15 @@ inline auto make_sysres = [](
     after the file handle to the directory.
     Confusing, right? */
 inline auto
-pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
+pathof(fanotify_event_metadata const* const mtd, fs_dirs const& dirs, int* ec)
+  -> std::string
 {
   constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
   auto dir_info = (fanotify_event_info_fid*)(mtd + 1);
   auto dir_fh = (file_handle*)(dir_info->handle);
   char path_buf[PATH_MAX];
   /*  Directory name */
-  int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
+  int fd = open_by_handle_at(dirs.fd_of(&dir_info->fsid), dir_fh, ofl);
   if (fd < 0) {
     *ec = errno;
     return {};
@@ -214,9 +265,11 @@ struct Parsed {
   unsigned this_len = 0;
 };
 
-inline auto
-parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
-  -> Parsed
+inline auto parse_ev(
+  fanotify_event_metadata const* const m,
+  size_t read_len,
+  fs_dirs const& dirs,
+  int* ec) -> Parsed
 {
   using ev = ::wtr::watcher::event;
   using ev_pt = enum ev::path_type;
@@ -237,15 +290,15 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
         && (a->mask & FAN_ONDIR) == (b->mask & FAN_ONDIR);
   };
   auto one = [&](auto* m) -> Parsed
-  { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
+  { return {ev(pathof(m, dirs, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* from, auto* to) -> Parsed
   {
     int assoc_ec = 0;
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
     auto e = ev(
-      ev(pathof(from, &assoc_ec), et, pt),
-      ev(pathof(to, &assoc_ec), et, pt));
+      ev(pathof(from, dirs, &assoc_ec), et, pt),
+      ev(pathof(to, dirs, &assoc_ec), et, pt));
     return assoc_ec ? one(m) : Parsed{e, nn, here_to_nnn};
   };
   return ! n            ? one(m)
@@ -259,13 +312,13 @@ inline auto do_mark_if_newdir =
   [](
     ::wtr::watcher::event const& ev,
     uint64_t mask,
-    int fa_fd,
+    ke_fa_ev& ke,
     auto const& cb) -> void
 {
   auto is_dir_ev = ev.path_type == ::wtr::watcher::event::path_type::dir;
   auto is_newdir =
     ev.effect_type == ::wtr::watcher::event::effect_type::create;
-  auto mark = [&](auto dir) { return do_mark(dir, fa_fd); };
+  auto mark = [&](auto dir) { return do_mark(dir, ke.fd, ke.dirs); };
   /*  It might have moved on by now. */
   auto walk_if_dir = [&](auto const& dir)
   { if (is_dir(dir.c_str())) walkdir_do(dir.c_str(), mark, cb); };
@@ -336,11 +389,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         skip_with(result::w_sys_bad_meta);
       else {
         int ec = 0;
-        auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
+        auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.dirs, &ec);
         if (ec)
           skip_with(result::w_sys_bad_fd);
         else {
-          do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
+          do_mark_if_newdir(ev, mtd->mask, sr.ke, cb);
           cb(ev);
           mtd = n;
           read_len -= l;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 2de5cd4..2ec31f2 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1056,7 +1056,10 @@ inline auto walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> voi
 #include <sys/epoll.h>
 #include <sys/fanotify.h>
 #include <sys/stat.h>
+#include <sys/statfs.h>
 #include <unistd.h>
+#include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter::fanotify {
 
@@ -1070,6 +1073,49 @@ namespace detail::wtr::watcher::adapter::fanotify {
     and some writable fields within the callback.
 */
 
+/*  An event tells us about a directory with a handle to
+    it and the id of the filesystem which the handle is of.
+    The handle is only good along with a descriptor of some
+    directory on that filesystem. (The working directory
+    might be on another one.) We hold one for each. */
+struct fs_dirs {
+  struct fs_dir {
+    fsid_t id;
+    int fd;
+  };
+
+  std::vector<fs_dir> held{};
+
+  fs_dirs() = default;
+  fs_dirs(fs_dirs&&) = default;
+
+  ~fs_dirs()
+  {
+    for (auto const& d : held) close(d.fd);
+  }
+
+  auto fd_of(void const* const id) const -> int
+  {
+    for (auto const& d : held)
+      if (memcmp(&d.id, id, sizeof(d.id)) == 0) return d.fd;
+    return -1;
+  }
+
+  auto hold(char const* const path) -> bool
+  {
+    struct statfs s, opened;
+    if (statfs(path, &s) != 0) return false;
+    if (fd_of(&s.f_fsid) >= 0) return true;
+    int fd = open(path, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
+    if (fd < 0) return false;
+    if (fstatfs(fd, &opened) == 0 && fd_of(&opened.f_fsid) < 0)
+      held.push_back({opened.f_fsid, fd});
+    else
+      close(fd);
+    return fd_of(&s.f_fsid) >= 0;
+  }
+};
+
 // clang-format off
 struct ke_fa_ev {
   static constexpr auto buf_len = 4096;
@@ -1097,6 +1143,7 @@ struct ke_fa_ev {
     | FAN_EVENT_ON_CHILD;
 
   int fd = -1;
+  fs_dirs dirs{};
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
 };
 
@@ -1110,8 +1157,10 @@ struct sysres {
   adapter::ep ep{};
 };
 
-inline auto do_mark = [](char const* const dirpath, int fa_fd) -> result
+inline auto do_mark =
+  [](char const* const dirpath, int fa_fd, fs_dirs& dirs) -> result
 {
+  if (! dirs.hold(dirpath)) return result::w_sys_not_watched;
   auto flags = FAN_MARK_ADD | FAN_MARK_ONLYDIR | FAN_MARK_DONT_FOLLOW;
   int anonymous_wd =
     fanotify_mark(fa_fd, flags, ke_fa_ev::recv_flags, AT_FDCWD, dirpath);
@@ -1131,7 +1180,8 @@ inline auto make_sysres = [](
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   char real[PATH_MAX];
-  auto mark = [&](auto dir) { return do_mark(dir, fa_fd); };
+  fs_dirs dirs;
+  auto mark = [&](auto dir) { return do_mark(dir, fa_fd, dirs); };
   if (realpath(base_path, real) && mark(real) == result::complete)
     walkdir_do(real, mark, cb);
   else
@@ -1142,7 +1192,7 @@ inline auto make_sysres = [](
   return sysres{
     .ok = result::pending,
     .base = base_path,
-    .ke{.fd = fa_fd},
+    .ke{.fd = fa_fd, .dirs = std::move(dirs)},
     .il = living,
     .ep = ep,
   };
@@ -1179,14 +1229,15 @@ inline auto make_sysres = [](
     after the file handle to the directory.
     Confusing, right? */
 inline auto
-pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
+pathof(fanotify_event_metadata const* const mtd, fs_dirs const& dirs, int* ec)
+  -> std::string
 {
   constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
   auto dir_info = (fanotify_event_info_fid*)(mtd + 1);
   auto dir_fh = (file_handle*)(dir_info->handle);
   char path_buf[PATH_MAX];
   /*  Directory name */
-  int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
+  int fd = open_by_handle_at(dirs.fd_of(&dir_info->fsid), dir_fh, ofl);
   if (fd < 0) {
     *ec = errno;
     return {};
@@ -1251,9 +1302,11 @@ struct Parsed {
   unsigned this_len = 0;
 };
 
-inline auto
-parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
-  -> Parsed
+inline auto parse_ev(
+  fanotify_event_metadata const* const m,
+  size_t read_len,
+  fs_dirs const& dirs,
+  int* ec) -> Parsed
 {
   using ev = ::wtr::watcher::event;
   using ev_pt = enum ev::path_type;
@@ -1274,15 +1327,15 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
         && (a->mask & FAN_ONDIR) == (b->mask & FAN_ONDIR);
   };
   auto one = [&](auto* m) -> Parsed
-  { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
+  { return {ev(pathof(m, dirs, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* from, auto* to) -> Parsed
   {
     int assoc_ec = 0;
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
     auto e = ev(
-      ev(pathof(from, &assoc_ec), et, pt),
-      ev(pathof(to, &assoc_ec), et, pt));
+      ev(pathof(from, dirs, &assoc_ec), et, pt),
+      ev(pathof(to, dirs, &assoc_ec), et, pt));
     return assoc_ec ? one(m) : Parsed{e, nn, here_to_nnn};
   };
   return ! n            ? one(m)
@@ -1296,13 +1349,13 @@ inline auto do_mark_if_newdir =
   [](
     ::wtr::watcher::event const& ev,
     uint64_t mask,
-    int fa_fd,
+    ke_fa_ev& ke,
     auto const& cb) -> void
 {
   auto is_dir_ev = ev.path_type == ::wtr::watcher::event::path_type::dir;
   auto is_newdir =
     ev.effect_type == ::wtr::watcher::event::effect_type::create;
-  auto mark = [&](auto dir) { return do_mark(dir, fa_fd); };
+  auto mark = [&](auto dir) { return do_mark(dir, ke.fd, ke.dirs); };
   /*  It might have moved on by now. */
   auto walk_if_dir = [&](auto const& dir)
   { if (is_dir(dir.c_str())) walkdir_do(dir.c_str(), mark, cb); };
@@ -1373,11 +1426,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         skip_with(result::w_sys_bad_meta);
       else {
         int ec = 0;
-        auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
+        auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.dirs, &ec);
         if (ec)
           skip_with(result::w_sys_bad_fd);
         else {
-          do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
+          do_mark_if_newdir(ev, mtd->mask, sr.ke, cb);
           cb(ev);
           mtd = n;
           read_len -= l;
-- 
2.43.0


From 5403410edeb456869eb19df958ffb8eb62c70d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:48 +0000
Subject: [PATCH 47/53] fix: node: watch the whole path or throw, and leave
 nothing behind when watching fails

---
 watcher-nodejs/lib/watcher-napi.cpp | 113 +++++++++++++++++++---------
 1 file changed, 76 insertions(+), 37 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 2d55df4..95bdb66 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -89,6 +89,22 @@ static void callback_bridge(struct wtr_watcher_event event_view, void* ctx)
 #endif
 }
 
+/*  Gives back what we own, apart from the watcher.
+    False if there was less than there should be. */
+static bool release(napi_env env, watcher_lifetime* w)
+{
+  bool all = w->tsfn && w->js_callback_ref;
+  if (w->tsfn) {
+    napi_release_threadsafe_function(w->tsfn, napi_tsfn_release);
+    w->tsfn = NULL;
+  }
+  if (w->js_callback_ref) {
+    napi_delete_reference(env, w->js_callback_ref);
+    w->js_callback_ref = NULL;
+  }
+  return all;
+}
+
 /*  Should be called by the user when they are done with the watcher.
     Ends event processing and releases any owned resources. */
 static napi_value close(napi_env env, napi_callback_info func_arg_info)
@@ -107,16 +123,7 @@ static napi_value close(napi_env env, napi_callback_info func_arg_info)
   bool closed_ok = wtr_watcher_close(w->watcher);
   w->watcher = NULL;
   napi_get_boolean(env, closed_ok, &result);
-  if (w->tsfn) {
-    napi_release_threadsafe_function(w->tsfn, napi_tsfn_release);
-    w->tsfn = NULL;
-  } else {
-    napi_get_boolean(env, false, &result);
-  }
-  if (w->js_callback_ref) {
-    napi_delete_reference(env, w->js_callback_ref);
-    w->js_callback_ref = NULL;
-  } else {
+  if (! release(env, w)) {
     napi_get_boolean(env, false, &result);
   }
   return result;
@@ -132,32 +139,20 @@ static void close_finalize(napi_env, void* ctx, void* _unused)
   }
 }
 
-/*  Opens a watcher on a path (and any children).
-    Calls the provided callback when events happen.
-    Accepts two arguments, a path and a callback.
-    Returns an object with a single method: close.
-    Call `.close()` when you don't want to watch
-    things anymore. */
-static napi_value watch(napi_env env, napi_callback_info func_arg_info)
+/*  Everything it makes is in `wrapper`,
+    also when it fails, which is when it
+    returns NULL. */
+static napi_value open(napi_env env, char const* path, napi_value js_callback, watcher_lifetime* wrapper)
 {
-  size_t argc = 2;
-  napi_value args[2];
-  napi_get_cb_info(env, func_arg_info, &argc, args, NULL, NULL);
-  if (argc != 2) {
-    napi_throw_error(env, NULL, "Wrong number of arguments");
+  if (napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref) != napi_ok) {
+    return NULL;
+  }
+  napi_value work_name = NULL;
+  if (napi_create_string_utf8(env, "Watcher", NAPI_AUTO_LENGTH, &work_name) != napi_ok) {
     return NULL;
   }
-  char path[4096];
-  memset(path, 0, sizeof(path));
-  size_t path_len = 0;
-  napi_get_value_string_utf8(env, args[0], path, sizeof(path), &path_len);
-  watcher_lifetime* wrapper = (watcher_lifetime*)malloc(sizeof(watcher_lifetime));
-  napi_value js_callback = args[1];
-  napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
-  napi_value work_name;
-  napi_create_string_utf8(env, "Watcher", NAPI_AUTO_LENGTH, &work_name);
   size_t work_queue_size = 0; /* unlimited */
-  napi_create_threadsafe_function(
+  napi_status status = napi_create_threadsafe_function(
     env,
     js_callback,
     NULL,
@@ -169,17 +164,61 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
     NULL,
     callback_js_receiver,
     &wrapper->tsfn);
+  if (status != napi_ok) {
+    return NULL;
+  }
   wrapper->watcher = wtr_watcher_open(path, callback_bridge, wrapper);
   if (wrapper->watcher == NULL) {
-    napi_throw_error(env, NULL, "Failed to open watcher");
     return NULL;
   }
   napi_value watcher_obj = NULL;
-  napi_create_object(env, &watcher_obj);
   napi_value close_func = NULL;
-  napi_create_function(env, "close", NAPI_AUTO_LENGTH, close, wrapper, &close_func);
-  napi_set_named_property(env, watcher_obj, "close", close_func);
-  napi_add_finalizer(env, close_func, wrapper, close_finalize, NULL, NULL);
+  if (napi_create_object(env, &watcher_obj) != napi_ok
+      || napi_create_function(env, "close", NAPI_AUTO_LENGTH, close, wrapper, &close_func) != napi_ok
+      || napi_set_named_property(env, watcher_obj, "close", close_func) != napi_ok
+      || napi_add_finalizer(env, close_func, wrapper, close_finalize, NULL, NULL) != napi_ok) {
+    return NULL;
+  }
+  return watcher_obj;
+}
+
+/*  Opens a watcher on a path (and any children).
+    Calls the provided callback when events happen.
+    Accepts two arguments, a path and a callback.
+    Returns an object with a single method: close.
+    Call `.close()` when you don't want to watch
+    things anymore. */
+static napi_value watch(napi_env env, napi_callback_info func_arg_info)
+{
+  size_t argc = 2;
+  napi_value args[2];
+  napi_get_cb_info(env, func_arg_info, &argc, args, NULL, NULL);
+  if (argc != 2) {
+    napi_throw_error(env, NULL, "Wrong number of arguments");
+    return NULL;
+  }
+  size_t path_len = 0;
+  if (napi_get_value_string_utf8(env, args[0], NULL, 0, &path_len) != napi_ok) {
+    napi_throw_error(env, NULL, "The path is not a string");
+    return NULL;
+  }
+  char* path = (char*)malloc(path_len + 1);
+  if (! path || napi_get_value_string_utf8(env, args[0], path, path_len + 1, NULL) != napi_ok || strlen(path) != path_len) {
+    free(path);
+    napi_throw_error(env, NULL, "The path can't be used");
+    return NULL;
+  }
+  watcher_lifetime* wrapper = (watcher_lifetime*)calloc(1, sizeof(watcher_lifetime));
+  napi_value watcher_obj = wrapper ? open(env, path, args[1], wrapper) : NULL;
+  free(path);
+  if (watcher_obj == NULL) {
+    if (wrapper) {
+      wtr_watcher_close(wrapper->watcher);
+      release(env, wrapper);
+      free(wrapper);
+    }
+    napi_throw_error(env, NULL, "Failed to open watcher");
+  }
   return watcher_obj;
 }
 
-- 
2.43.0


From 572249c28b959e5962f0cd0165ca4e1c235ab5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:48 +0000
Subject: [PATCH 48/53] fix: python: refuse paths with a null byte, and let a
 watch which never began go quietly

---
 watcher-py/watcher/watcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 02d761c..d12d38d 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -178,8 +178,11 @@ class Watch:
             callback(py_event)
 
         self._closing = threading.RLock()
+        self._watcher = None
         self._lib = _lazy_static_solib_handle()
         self._path = os.fsencode(path)
+        if b"\0" in self._path:
+            raise ValueError("embedded null byte")
         self._c_callback = _CCallback(callback_bridge)
         self._watcher = self._lib.wtr_watcher_open(self._path, self._c_callback, None)
         if not self._watcher:
-- 
2.43.0


From ef24d89e98fd667cb526a3a49c16927a3bd3dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:48 +0000
Subject: [PATCH 49/53] fix: rust: a path with a null byte is an error, not a
 panic

---
 watcher-rs/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index f089216..ae6185c 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -115,7 +115,7 @@ pub struct Watch {
 
 impl Watch {
     pub fn try_new(path: &str) -> Result<Watch, &'static str> {
-        let p = CString::new(path).unwrap();
+        let p = CString::new(path).map_err(|_| "path contains a nul byte")?;
         let (tx, rx) = async_channel();
         let tx = Box::new(tx);
         let rx = Box::pin(rx);
-- 
2.43.0


From 31331c6ef5617d3f1bc549e58574f93bd006430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:33 +0000
Subject: [PATCH 50/53] fix: fanotify: do not mark a directory outside of the
 tree when one above it becomes a link

Between looking at the path of a directory and marking it, a directory on the way
could be replaced by a link, and the mark was on whatever was found through it.
The directory is opened first, looked at, and what was opened is marked.
---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp      | 11 +++++++++--
 include/wtr/watcher.hpp                               | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 9fb6785..e789c79 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -124,9 +124,16 @@ inline auto do_mark =
   [](char const* const dirpath, int fa_fd, fs_dirs& dirs) -> result
 {
   if (! dirs.hold(dirpath)) return result::w_sys_not_watched;
-  auto flags = FAN_MARK_ADD | FAN_MARK_ONLYDIR | FAN_MARK_DONT_FOLLOW;
+  /*  What we mark is what we looked at, even if a
+      directory on the way becomes a link meanwhile. */
+  int fd = open(dirpath, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
+  if (fd < 0) return result::w_sys_not_watched;
+  auto flags = FAN_MARK_ADD | FAN_MARK_ONLYDIR;
   int anonymous_wd =
-    fanotify_mark(fa_fd, flags, ke_fa_ev::recv_flags, AT_FDCWD, dirpath);
+    is_elsewhere(dirpath)
+      ? -1
+      : fanotify_mark(fa_fd, flags, ke_fa_ev::recv_flags, fd, nullptr);
+  close(fd);
   return anonymous_wd == 0 ? result::complete : result::w_sys_not_watched;
 };
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 2ec31f2..6cacf04 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1161,9 +1161,16 @@ inline auto do_mark =
   [](char const* const dirpath, int fa_fd, fs_dirs& dirs) -> result
 {
   if (! dirs.hold(dirpath)) return result::w_sys_not_watched;
-  auto flags = FAN_MARK_ADD | FAN_MARK_ONLYDIR | FAN_MARK_DONT_FOLLOW;
+  /*  What we mark is what we looked at, even if a
+      directory on the way becomes a link meanwhile. */
+  int fd = open(dirpath, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
+  if (fd < 0) return result::w_sys_not_watched;
+  auto flags = FAN_MARK_ADD | FAN_MARK_ONLYDIR;
   int anonymous_wd =
-    fanotify_mark(fa_fd, flags, ke_fa_ev::recv_flags, AT_FDCWD, dirpath);
+    is_elsewhere(dirpath)
+      ? -1
+      : fanotify_mark(fa_fd, flags, ke_fa_ev::recv_flags, fd, nullptr);
+  close(fd);
   return anonymous_wd == 0 ? result::complete : result::w_sys_not_watched;
 };
 
-- 
2.43.0


From a7a8b8bcee2930270381aa77a5b34efb2aedcaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:54 +0000
Subject: [PATCH 51/53] fix: node: close what is open when the environment ends

When a worker thread ended (or the process, with an embedder) and 'close' had
not been called, the watcher went on, and called a thread-safe function which
was gone: The process aborted. It is now closed with its environment, at the
latest.
---
 watcher-nodejs/lib/watcher-napi.cpp | 33 ++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 95bdb66..21491ea 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -15,11 +15,15 @@
       user's callback, which we can call when
       an event is ready.
     - A reference to the user's callback, which
-      we release when the watcher is closed. */
+      we release when the watcher is closed.
+    Belongs to an environment, and is closed with
+    it at the latest. */
 struct watcher_lifetime {
+  napi_env env = NULL;
   napi_ref js_callback_ref = NULL;
   napi_threadsafe_function tsfn = NULL;
   void* watcher = NULL;
+  bool forgotten = false;
 };
 
 static napi_value event_to_js_obj(napi_env env, wtr_watcher_event* event)
@@ -105,6 +109,20 @@ static bool release(napi_env env, watcher_lifetime* w)
   return all;
 }
 
+/*  Called when the environment ends (with a worker thread,
+    or with the process) and `close` was not called. Nothing
+    may be passed on from then on. */
+static void close_with_env(void* ctx)
+{
+  watcher_lifetime* w = (watcher_lifetime*)ctx;
+  wtr_watcher_close(w->watcher);
+  w->watcher = NULL;
+  release(w->env, w);
+  if (w->forgotten) {
+    free(w);
+  }
+}
+
 /*  Should be called by the user when they are done with the watcher.
     Ends event processing and releases any owned resources. */
 static napi_value close(napi_env env, napi_callback_info func_arg_info)
@@ -120,6 +138,7 @@ static napi_value close(napi_env env, napi_callback_info func_arg_info)
   if (! w->watcher) {
     return result;
   }
+  napi_remove_env_cleanup_hook(env, close_with_env, w);
   bool closed_ok = wtr_watcher_close(w->watcher);
   w->watcher = NULL;
   napi_get_boolean(env, closed_ok, &result);
@@ -130,12 +149,15 @@ static napi_value close(napi_env env, napi_callback_info func_arg_info)
 }
 
 /*  Called when `close` can't be called (again).
-    If it never was, then the watcher goes on. */
+    If it never was, then the watcher goes on,
+    until the environment ends. */
 static void close_finalize(napi_env, void* ctx, void* _unused)
 {
   watcher_lifetime* w = (watcher_lifetime*)ctx;
   if (! w->watcher) {
     free(w);
+  } else {
+    w->forgotten = true;
   }
 }
 
@@ -176,7 +198,12 @@ static napi_value open(napi_env env, char const* path, napi_value js_callback, w
   if (napi_create_object(env, &watcher_obj) != napi_ok
       || napi_create_function(env, "close", NAPI_AUTO_LENGTH, close, wrapper, &close_func) != napi_ok
       || napi_set_named_property(env, watcher_obj, "close", close_func) != napi_ok
-      || napi_add_finalizer(env, close_func, wrapper, close_finalize, NULL, NULL) != napi_ok) {
+      || napi_add_env_cleanup_hook(env, close_with_env, wrapper) != napi_ok) {
+    return NULL;
+  }
+  wrapper->env = env;
+  if (napi_add_finalizer(env, close_func, wrapper, close_finalize, NULL, NULL) != napi_ok) {
+    napi_remove_env_cleanup_hook(env, close_with_env, wrapper);
     return NULL;
   }
   return watcher_obj;
-- 
2.43.0


From e9931cefd1f9b6fb819769f81a96cb4f18d2db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:35 +0000
Subject: [PATCH 52/53] fix: inotify: forget a directory which left unmarked
 before something else takes its place

What left had been looked up by name, and was not what the mark was on. Then
what arrived there, and later moved on, was taken for it: Its path was
forgotten, and what happened in it was not reported.
---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp       | 5 +++++
 include/wtr/watcher.hpp                                      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 16351a0..43f6ac6 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -291,6 +291,11 @@ inline auto do_track =
     auto from_at = moved_from.find(in->cookie);
     auto was_known = from_at != moved_from.end();
     auto was_there = is_marked(dir);
+    /*  What left from here, and never told us so itself,
+        wasn't marked. What arrives isn't what left. */
+    for (auto at = moved_from.begin(); at != moved_from.end();)
+      at = at != from_at && at->second == dir ? moved_from.erase(at)
+                                              : std::next(at);
     auto from = was_known ? from_at->second : std::filesystem::path{};
     auto was_swapped =
       was_there && sr.ke.swapped == std::make_pair(dir, from);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 6cacf04..02a7034 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1741,6 +1741,11 @@ inline auto do_track =
     auto from_at = moved_from.find(in->cookie);
     auto was_known = from_at != moved_from.end();
     auto was_there = is_marked(dir);
+    /*  What left from here, and never told us so itself,
+        wasn't marked. What arrives isn't what left. */
+    for (auto at = moved_from.begin(); at != moved_from.end();)
+      at = at != from_at && at->second == dir ? moved_from.erase(at)
+                                              : std::next(at);
     auto from = was_known ? from_at->second : std::filesystem::path{};
     auto was_swapped =
       was_there && sr.ke.swapped == std::make_pair(dir, from);
-- 
2.43.0


From b03e5575dd779d4dff1614fa1bd58bfabbb83090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:34 +0000
Subject: [PATCH 53/53] fix: fanotify: look at what was opened, not at the path
 again, before marking it

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 20 ++++++++++++++-----
 include/wtr/watcher.hpp                       | 20 ++++++++++++++-----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index e789c79..c32ca0a 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -120,19 +120,29 @@ struct sysres {
   adapter::ep ep{};
 };
 
+inline auto is_opened_at(char const* const path, int const fd) -> bool
+{
+  char fd_path[32] = {0};
+  char real[PATH_MAX];
+  snprintf(fd_path, sizeof(fd_path), "/proc/self/fd/%d", fd);
+  ssize_t len = readlink(fd_path, real, sizeof(real));
+  return len >= 0 && std::string_view{real, (size_t)len} == path;
+}
+
 inline auto do_mark =
   [](char const* const dirpath, int fa_fd, fs_dirs& dirs) -> result
 {
   if (! dirs.hold(dirpath)) return result::w_sys_not_watched;
-  /*  What we mark is what we looked at, even if a
-      directory on the way becomes a link meanwhile. */
+  /*  What we mark is what we looked at, which is not what
+      we were told to mark if, by the time we opened it, a
+      directory on the way had become a link. */
   int fd = open(dirpath, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
   if (fd < 0) return result::w_sys_not_watched;
   auto flags = FAN_MARK_ADD | FAN_MARK_ONLYDIR;
   int anonymous_wd =
-    is_elsewhere(dirpath)
-      ? -1
-      : fanotify_mark(fa_fd, flags, ke_fa_ev::recv_flags, fd, nullptr);
+    is_opened_at(dirpath, fd)
+      ? fanotify_mark(fa_fd, flags, ke_fa_ev::recv_flags, fd, nullptr)
+      : -1;
   close(fd);
   return anonymous_wd == 0 ? result::complete : result::w_sys_not_watched;
 };
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 02a7034..028d301 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1157,19 +1157,29 @@ struct sysres {
   adapter::ep ep{};
 };
 
+inline auto is_opened_at(char const* const path, int const fd) -> bool
+{
+  char fd_path[32] = {0};
+  char real[PATH_MAX];
+  snprintf(fd_path, sizeof(fd_path), "/proc/self/fd/%d", fd);
+  ssize_t len = readlink(fd_path, real, sizeof(real));
+  return len >= 0 && std::string_view{real, (size_t)len} == path;
+}
+
 inline auto do_mark =
   [](char const* const dirpath, int fa_fd, fs_dirs& dirs) -> result
 {
   if (! dirs.hold(dirpath)) return result::w_sys_not_watched;
-  /*  What we mark is what we looked at, even if a
-      directory on the way becomes a link meanwhile. */
+  /*  What we mark is what we looked at, which is not what
+      we were told to mark if, by the time we opened it, a
+      directory on the way had become a link. */
   int fd = open(dirpath, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
   if (fd < 0) return result::w_sys_not_watched;
   auto flags = FAN_MARK_ADD | FAN_MARK_ONLYDIR;
   int anonymous_wd =
-    is_elsewhere(dirpath)
-      ? -1
-      : fanotify_mark(fa_fd, flags, ke_fa_ev::recv_flags, fd, nullptr);
+    is_opened_at(dirpath, fd)
+      ? fanotify_mark(fa_fd, flags, ke_fa_ev::recv_flags, fd, nullptr)
+      : -1;
   close(fd);
   return anonymous_wd == 0 ? result::complete : result::w_sys_not_watched;
 };
-- 
2.43.0

