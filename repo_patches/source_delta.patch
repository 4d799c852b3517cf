From 6e384a7b3f2b94b57fb929ef1ca29c120d365a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 001/111] fix: spin locks and try-acquire must move the word
 from 0 to 1, not from 1 to 0

---
 code/source/threading/atomic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index 333b13e..e0f9367 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -400,11 +400,11 @@ ZPL_BEGIN_C_DECLS
 
 
 zpl_b32 zpl_atomic32_spin_lock(zpl_atomic32 *a, zpl_isize time_out) {
-    zpl_atomicarg(zpl_i32) old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+    zpl_atomicarg(zpl_i32) old_value = zpl_atomic32_compare_exchange(a, 0, 1);
     zpl_i32 counter = 0;
     while (old_value != 0 && (time_out < 0 || counter++ < time_out)) {
         zpl_yield_thread();
-        old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+        old_value = zpl_atomic32_compare_exchange(a, 0, 1);
         zpl_mfence();
     }
     return old_value == 0;
@@ -416,11 +416,11 @@ void zpl_atomic32_spin_unlock(zpl_atomic32 *a) {
 }
 
 zpl_b32 zpl_atomic64_spin_lock(zpl_atomic64 *a, zpl_isize time_out) {
-    zpl_atomicarg(zpl_i64) old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+    zpl_atomicarg(zpl_i64) old_value = zpl_atomic64_compare_exchange(a, 0, 1);
     zpl_atomicarg(zpl_i64) counter = 0;
     while (old_value != 0 && (time_out < 0 || counter++ < time_out)) {
         zpl_yield_thread();
-        old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+        old_value = zpl_atomic64_compare_exchange(a, 0, 1);
         zpl_mfence();
     }
     return old_value == 0;
@@ -434,7 +434,7 @@ void zpl_atomic64_spin_unlock(zpl_atomic64 *a) {
 zpl_b32 zpl_atomic32_try_acquire_lock(zpl_atomic32 *a) {
     zpl_atomicarg(zpl_i32) old_value;
     zpl_yield_thread();
-    old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+    old_value = zpl_atomic32_compare_exchange(a, 0, 1);
     zpl_mfence();
     return old_value == 0;
 }
@@ -442,7 +442,7 @@ zpl_b32 zpl_atomic32_try_acquire_lock(zpl_atomic32 *a) {
 zpl_b32 zpl_atomic64_try_acquire_lock(zpl_atomic64 *a) {
     zpl_atomicarg(zpl_i64) old_value;
     zpl_yield_thread();
-    old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+    old_value = zpl_atomic64_compare_exchange(a, 0, 1);
     zpl_mfence();
     return old_value == 0;
 }
-- 
2.43.0


From 0e9cde87a26b0d4ecaa5b1eead807a13c6c8d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 002/111] fix: POSIX file reads and writes must finish
 interrupted or partial transfers and move the cursor only past transferred
 bytes

---
 code/header/core/file.h | 10 ++++++----
 code/source/core/file.c | 38 +++++++++++++++++++++++++-------------
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/code/header/core/file.h b/code/header/core/file.h
index 5a6a911..4fe9600 100644
--- a/code/header/core/file.h
+++ b/code/header/core/file.h
@@ -381,16 +381,18 @@ ZPL_IMPL_INLINE zpl_i64 zpl_file_tell(zpl_file *f) {
 }
 
 ZPL_IMPL_INLINE zpl_b32 zpl_file_read(zpl_file *f, void *buffer, zpl_isize size) {
+    zpl_isize bytes_read = 0;
     zpl_i64 cur_offset = zpl_file_tell(f);
-    zpl_b32 result = zpl_file_read_at(f, buffer, size, zpl_file_tell(f));
-    zpl_file_seek(f, cur_offset + size);
+    zpl_b32 result = zpl_file_read_at_check(f, buffer, size, cur_offset, &bytes_read);
+    zpl_file_seek(f, cur_offset + bytes_read);
     return result;
 }
 
 ZPL_IMPL_INLINE zpl_b32 zpl_file_write(zpl_file *f, void const *buffer, zpl_isize size) {
+    zpl_isize bytes_written = 0;
     zpl_i64 cur_offset = zpl_file_tell(f);
-    zpl_b32 result = zpl_file_write_at(f, buffer, size, zpl_file_tell(f));
-    zpl_file_seek(f, cur_offset + size);
+    zpl_b32 result = zpl_file_write_at_check(f, buffer, size, cur_offset, &bytes_written);
+    zpl_file_seek(f, cur_offset + bytes_written);
     return result;
 }
 
diff --git a/code/source/core/file.c b/code/source/core/file.c
index c819fee..cce1688 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -158,6 +158,7 @@ ZPL_BEGIN_C_DECLS
 
 #else // POSIX
 #    include <fcntl.h>
+#    include <errno.h>
 
     zpl_internal ZPL_FILE_SEEK_PROC(zpl__posix_file_seek) {
 #    if defined(ZPL_SYSTEM_OSX)
@@ -172,25 +173,36 @@ ZPL_BEGIN_C_DECLS
 
     zpl_internal ZPL_FILE_READ_AT_PROC(zpl__posix_file_read) {
         zpl_unused(stop_at_newline);
-        zpl_isize res = pread(fd.i, buffer, size, offset);
-        if (res < 0) return false;
-        if (bytes_read) *bytes_read = res;
-        return true;
+        zpl_isize total = 0;
+        zpl_b32 ok = true;
+        while (total < size) {
+            zpl_isize res = pread(fd.i, cast(zpl_u8 *)buffer + total, size - total, offset + total);
+            if (res < 0 && errno == EINTR) continue;
+            if (res < 0) ok = false;
+            if (res <= 0) break;
+            total += res;
+        }
+        if (bytes_read) *bytes_read = total;
+        return ok;
     }
 
     zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__posix_file_write) {
-        zpl_isize res;
+        zpl_isize res, total = 0;
         zpl_i64 curr_offset = 0;
         zpl__posix_file_seek(fd, 0, ZPL_SEEK_WHENCE_CURRENT, &curr_offset);
-        if (curr_offset == offset) {
-            // NOTE: Writing to stdout et al. doesn't like pwrite for numerous reasons
-            res = write(cast(int) fd.i, buffer, size);
-        } else {
-            res = pwrite(cast(int) fd.i, buffer, size, offset);
+        while (total < size) {
+            if (curr_offset == offset) {
+                // NOTE: Writing to stdout et al. doesn't like pwrite for numerous reasons
+                res = write(cast(int) fd.i, cast(zpl_u8 const *)buffer + total, size - total);
+            } else {
+                res = pwrite(cast(int) fd.i, cast(zpl_u8 const *)buffer + total, size - total, offset + total);
+            }
+            if (res < 0 && errno == EINTR) continue;
+            if (res <= 0) break;
+            total += res;
         }
-        if (res < 0) return false;
-        if (bytes_written) *bytes_written = res;
-        return true;
+        if (bytes_written) *bytes_written = total;
+        return total >= size;
     }
 
     zpl_internal ZPL_FILE_CLOSE_PROC(zpl__posix_file_close) { close(fd.i); }
-- 
2.43.0


From 15ac32401590f4c5916ac06538f1dce958ffaaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 003/111] fix: zpl_file_write_contents must store an error code
 when the write fails

---
 code/source/core/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index cce1688..c6a8f83 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -488,6 +488,8 @@ zpl_b32 zpl_file_write_contents(char const* filepath, void const* buffer, zpl_is
 
     write_ok = zpl_file_write(&f, buffer, size);
     zpl_file_close(&f);
+    if (!write_ok && err)
+        *err = ZPL_FILE_ERROR_UNKNOWN;
     return write_ok;
 }
 
-- 
2.43.0


From 716d9deaa0598f8d9820ae59c897ae2d4e08eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 004/111] fix: opening a file must fail cleanly when its name
 cannot be stored

---
 code/source/core/file.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index c6a8f83..f69a48d 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -243,6 +243,7 @@ zpl_file_error zpl_file_new(zpl_file *f, zpl_file_descriptor fd, zpl_file_operat
     f->dir = NULL;
     f->last_write_time = 0;
     f->filename = zpl_alloc_array(zpl_heap_allocator( ), char, len + 1);
+    if (!f->filename) return ZPL_FILE_ERROR_UNKNOWN;
     zpl_memcopy(cast(char *) f->filename, cast(char *) filename, len + 1);
 
     return err;
@@ -257,7 +258,13 @@ zpl_file_error zpl_file_open_mode(zpl_file *f, zpl_file_mode mode, char const *f
 #else
     err = zpl__posix_file_open(&f->fd, &f->ops, mode, filename);
 #endif
-    if (err == ZPL_FILE_ERROR_NONE) return zpl_file_new(f, f->fd, f->ops, filename);
+    if (err == ZPL_FILE_ERROR_NONE) {
+        err = zpl_file_new(f, f->fd, f->ops, filename);
+        if (err != ZPL_FILE_ERROR_NONE) {
+            f->ops.close(f->fd);
+            f->fd.i = -1;
+        }
+    }
     return err;
 }
 
-- 
2.43.0


From 64dd89dc75ae5d276e0cbd7d20dce4b36d87761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 005/111] fix: reading a whole file or its lines must report
 open, read and allocation failures and stop at the end of the text

---
 code/header/core/string.h | 17 ++++++++++-------
 code/source/core/file.c   | 37 ++++++++++++++++++++++++++++---------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index d6f7559..02878e1 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -434,17 +434,20 @@ ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len)
 
 ZPL_IMPL_INLINE char **zpl_str_split_lines(zpl_allocator alloc, char *source, zpl_b32 strip_whitespace) {
     char **lines = NULL, *p = source, *pd = p;
-    zpl_array_init(lines, alloc);
+    if (!zpl_array_init(lines, alloc)) return NULL;
 
     while (*p) {
-        if (*pd == '\n') {
+        if (*pd == '\n' || *pd == 0) {
+            zpl_b32 is_last = (*pd == 0);
             *pd = 0;
-            if (*(pd - 1) == '\r') *(pd - 1) = 0;
-            if (strip_whitespace && (pd - p) == 0) {
-                p = pd + 1;
-                continue;
+            if (!is_last && pd > p && *(pd - 1) == '\r') *(pd - 1) = 0;
+            if (!strip_whitespace || (pd - p) != 0) {
+                if (!zpl_array_append(lines, p)) {
+                    zpl_array_free(lines);
+                    return NULL;
+                }
             }
-            zpl_array_append(lines, p);
+            if (is_last) break;
             p = pd + 1;
         }
         ++pd;
diff --git a/code/source/core/file.c b/code/source/core/file.c
index f69a48d..80a5d2d 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -458,12 +458,18 @@ zpl_file_contents zpl_file_read_contents(zpl_allocator a, zpl_b32 zero_terminate
     if (zpl_file_open(&file, filepath) == ZPL_FILE_ERROR_NONE) {
         zpl_isize file_size = cast(zpl_isize) zpl_file_size(&file);
         if (file_size > 0) {
+            zpl_isize bytes_read = 0;
             result.data = zpl_alloc(a, zero_terminate ? file_size + 1 : file_size);
-            result.size = file_size;
-            zpl_file_read_at(&file, result.data, result.size, 0);
-            if (zero_terminate) {
-                zpl_u8 *str = cast(zpl_u8 *) result.data;
-                str[file_size] = '\0';
+            if (result.data && (!zpl_file_read_at_check(&file, result.data, file_size, 0, &bytes_read) || bytes_read != file_size)) {
+                zpl_free(a, result.data);
+                result.data = NULL;
+            }
+            if (result.data) {
+                result.size = file_size;
+                if (zero_terminate) {
+                    zpl_u8 *str = cast(zpl_u8 *) result.data;
+                    str[file_size] = '\0';
+                }
             }
         }
         zpl_file_close(&file);
@@ -502,14 +508,27 @@ zpl_b32 zpl_file_write_contents(char const* filepath, void const* buffer, zpl_is
 
 char *zpl_file_read_lines(zpl_allocator alloc, zpl_array(char *)*lines, char const *filename, zpl_b32 strip_whitespace) {
     zpl_file f = { 0 };
-    zpl_file_open(&f, filename);
-    zpl_isize fsize = (zpl_isize)zpl_file_size(&f);
+    *lines = NULL;
+    if (zpl_file_open(&f, filename) != ZPL_FILE_ERROR_NONE)
+        return NULL;
 
+    zpl_isize bytes_read = 0;
+    zpl_isize fsize = (zpl_isize)zpl_file_size(&f);
     char *contents = (char *)zpl_alloc(alloc, fsize + 1);
-    zpl_file_read(&f, contents, fsize);
+    if (contents && (!zpl_file_read_at_check(&f, contents, fsize, 0, &bytes_read) || bytes_read != fsize)) {
+        zpl_free(alloc, contents);
+        contents = NULL;
+    }
+    zpl_file_close(&f);
+    if (!contents)
+        return NULL;
+
     contents[fsize] = 0;
     *lines = zpl_str_split_lines(alloc, contents, strip_whitespace);
-    zpl_file_close(&f);
+    if (!*lines) {
+        zpl_free(alloc, contents);
+        return NULL;
+    }
 
     return contents;
 }
-- 
2.43.0


From 036845c880ec477f2722fe4e4dc3e5d206a6bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 006/111] fix: a job worker must not overwrite a termination
 request when it takes a job

---
 code/source/jobs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/jobs.c b/code/source/jobs.c
index d402475..3ed6195 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -21,7 +21,9 @@ zpl_isize zpl__jobs_entry(struct zpl_thread *thread) {
 
         switch (status) {
             case ZPL_JOBS_STATUS_READY: {
-                zpl_atomic32_store(&tw->status, ZPL_JOBS_STATUS_BUSY);
+                /* NOTE: the pool may have been told to terminate since we have loaded the status */
+                if (zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_READY, ZPL_JOBS_STATUS_BUSY) != ZPL_JOBS_STATUS_READY)
+                    break;
                 tw->job.proc(tw->job.data);
                 zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_BUSY, ZPL_JOBS_STATUS_WAITING);
 
-- 
2.43.0


From 7ab0315c19b85aea755a13b27987a803a128c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 007/111] fix: zpl_thread_start must report a refused thread as
 not started and release its attributes

---
 code/source/threading/thread.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/source/threading/thread.c b/code/source/threading/thread.c
index da1d84c..e69d2a7 100644
--- a/code/source/threading/thread.c
+++ b/code/source/threading/thread.c
@@ -79,11 +79,12 @@ zpl_b32 zpl_thread_start_with_stack(zpl_thread *t, zpl_thread_proc proc, void *u
         pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_JOINABLE);
         if (stack_size != 0)
             pthread_attr_setstacksize(&attr, stack_size);
-        zpl_b32 res = pthread_create(&t->posix_handle, &attr, zpl__thread_proc, t);
+        int res = pthread_create(&t->posix_handle, &attr, zpl__thread_proc, t);
+        pthread_attr_destroy(&attr);
         if (res != 0) {
-            return res;
+            t->posix_handle = 0;
+            return 0;
         }
-        pthread_attr_destroy(&attr);
     }
 #    endif
     if (!t->nowait)
-- 
2.43.0


From ead0835ec1fdea0e92f248f8d8997efe50f481f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 008/111] fix: the portable compare-exchange must return the
 value it found, not a flag

---
 code/source/threading/atomic.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index e0f9367..ae4d2e0 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -346,7 +346,8 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_i32 zpl_atomic32_compare_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) expected, zpl_atomicarg(zpl_i32) desired) {
-        return __atomic_compare_exchange_n((zpl_i32*)&a->value, (zpl_i32*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        __atomic_compare_exchange_n((zpl_i32*)&a->value, (zpl_i32*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        return expected; // NOTE: overwritten with the found value on mismatch
     }
 
     zpl_i32 zpl_atomic32_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) desired) {
@@ -374,7 +375,8 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_i64 zpl_atomic64_compare_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) expected, zpl_atomicarg(zpl_i64) desired) {
-        return __atomic_compare_exchange_n((zpl_i64*)&a->value, (zpl_i64*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        __atomic_compare_exchange_n((zpl_i64*)&a->value, (zpl_i64*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        return expected; // NOTE: overwritten with the found value on mismatch
     }
 
     zpl_i64 zpl_atomic64_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) desired) {
-- 
2.43.0


From 6586bb9fbd7095f032de43aa512b77cc6667eec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 009/111] fix: the first calls of zpl_time_rel from several
 threads must agree on the start

---
 code/source/core/time.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/code/source/core/time.c b/code/source/core/time.c
index c12fec6..cb9cf19 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -177,9 +177,21 @@ ZPL_BEGIN_C_DECLS
         result = 1.0e-6 * (mach_absolute_time() - timestart) * timebase;
         return result;
 #    else
+#        if defined(ZPL_MODULE_THREADING)
+        // NOTE: several threads may ask for the first time at once, all of them have to agree on the start
+        zpl_local_persist zpl_atomic64 unix_timestart_shared = { 0 };
+        zpl_u64 unix_timestart = cast(zpl_u64)zpl_atomic64_load(&unix_timestart_shared);
+
+        if (!unix_timestart) {
+            zpl_u64 first = zpl__unix_gettime( );
+            unix_timestart = cast(zpl_u64)zpl_atomic64_compare_exchange(&unix_timestart_shared, 0, cast(zpl_i64)first);
+            if (!unix_timestart) { unix_timestart = first; }
+        }
+#        else
         zpl_local_persist zpl_u64 unix_timestart = 0.0;
 
         if (!unix_timestart) { unix_timestart = zpl__unix_gettime( ); }
+#        endif
 
         zpl_u64 now = zpl__unix_gettime( );
 
-- 
2.43.0


From 056bc598818fa9082b505c6f751920ba37b82fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 010/111] fix: zpl_sleep_ms must sleep the rest of its time
 after a signal

---
 code/source/core/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/time.c b/code/source/core/time.c
index cb9cf19..77c9062 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -218,7 +218,7 @@ ZPL_BEGIN_C_DECLS
     void zpl_sleep_ms(zpl_u32 ms) {
         struct timespec req = { cast(time_t)(ms * 1e-3), cast(long)((ms % 1000) * 1e6) };
         struct timespec rem = { 0, 0 };
-        nanosleep(&req, &rem);
+        while (nanosleep(&req, &rem) == -1 && errno == EINTR) { req = rem; }
     }
 
     zpl_u64 zpl_time_tz_ms(void) {
-- 
2.43.0


From cbe00f0cc307d8a726836c23486b38894a5b2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 011/111] fix: local time must be right in zones whose daylight
 saving time is not one hour

---
 code/source/core/time.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/core/time.c b/code/source/core/time.c
index 77c9062..5e92d00 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -227,8 +227,10 @@ ZPL_BEGIN_C_DECLS
         zpl_u16 ms = result % 1000;
         result *= 1e-3;
         localtime_r((const time_t*)&result, &t);
+        // NOTE: read the local fields as standard time, so that `timezone` is the whole offset, whatever DST adds
+        t.tm_isdst = 0;
         result = (zpl_u64)mktime(&t);
-        return (result - timezone + t.tm_isdst * 3600) * 1000 + ms + ZPL__UNIX_TO_WIN32_EPOCH;
+        return (result - timezone) * 1000 + ms + ZPL__UNIX_TO_WIN32_EPOCH;
     }
 #endif
 
-- 
2.43.0


From fee575390b9caf48dfe6b5d06e63725897e2ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 012/111] fix: seeding a random generator must not spin forever
 when the thread is delayed for a second

---
 code/source/core/random.c | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 87c38a7..62b7d4f 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -11,17 +11,8 @@ zpl_global zpl_i32 zpl__random_shared_counter = 0;
 
 zpl_internal zpl_u32 zpl__get_noise_from_time(void) {
     zpl_u32 accum = 0;
-    zpl_f64 start, remaining, end, curr = 0;
-    zpl_u64 interval = 100000ll;
-    
-    start     = zpl_time_rel();
-    remaining = (interval - cast(zpl_u64)(interval*start)%interval) / cast(zpl_f64)interval;
-    end       = start + remaining;
-    
-    do {
-        curr = zpl_time_rel();
-        accum += cast(zpl_u32)curr;
-    } while (curr >= end);
+    zpl_f64 curr = zpl_time_rel();
+    accum += cast(zpl_u32)curr;
     return accum;
 }
 
-- 
2.43.0


From 9b2b3e5a73518fd3105c66dbd1deb5eb1ddb9065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 013/111] fix: the random permutation must square in 64 bits,
 or unique draws repeat

---
 code/source/core/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 62b7d4f..f193423 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -24,7 +24,7 @@ zpl_internal ZPL_ALWAYS_INLINE zpl_u32 zpl__permute_qpr(zpl_u32 x) {
     if (x >= prime) {
         return x;
     } else {
-        zpl_u32 residue = cast(zpl_u32)(cast(zpl_u64) x * x) % prime;
+        zpl_u32 residue = cast(zpl_u32)((cast(zpl_u64) x * x) % prime);
         if (x <= prime / 2)
             return residue;
         else
-- 
2.43.0


From cac8399a746c7aa3dcea13918598562001fb8087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 014/111] fix: ranged random draws over the whole integer range
 must not divide by zero

---
 code/source/core/random.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index f193423..76dfc67 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -112,11 +112,11 @@ zpl_isize zpl_random_gen_isize(zpl_random *r) {
 
 zpl_i64 zpl_random_range_i64(zpl_random *r, zpl_i64 lower_inc, zpl_i64 higher_inc) {
     zpl_u64 u = zpl_random_gen_u64(r);
-    zpl_i64 diff = higher_inc-lower_inc+1;
-    u %= diff;
+    zpl_u64 diff = cast(zpl_u64)higher_inc-cast(zpl_u64)lower_inc+1;
+    if (diff) u %= diff; // NOTE: 0 stands for the whole range
+    u += cast(zpl_u64)lower_inc;
     zpl_i64 i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
-    i += lower_inc;
     return i;
 }
 
@@ -126,11 +126,11 @@ zpl_isize zpl_random_range_isize(zpl_random *r, zpl_isize lower_inc, zpl_isize h
 #else
     zpl_u64 u = zpl_random_gen_u64(r);
 #endif
-    zpl_isize diff = higher_inc-lower_inc+1;
-    u %= diff;
+    zpl_usize diff = cast(zpl_usize)higher_inc-cast(zpl_usize)lower_inc+1;
+    if (diff) u %= diff; // NOTE: 0 stands for the whole range
+    u += cast(zpl_usize)lower_inc;
     zpl_isize i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
-    i += lower_inc;
     return i;
 }
 
-- 
2.43.0


From e2b38d32b451ac465f199a63cec4a82ca41aad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 015/111] fix: the last write time must come from a successful
 stat, not from a failed one

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 0cebc0d..57982ab 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -90,7 +90,7 @@ ZPL_BEGIN_C_DECLS
         time_t result = 0;
         struct stat file_stat;
 
-        if (stat(filepath, &file_stat)) result = file_stat.st_mtime;
+        if (stat(filepath, &file_stat) == 0) result = file_stat.st_mtime;
 
         return cast(zpl_file_time) result;
     }
-- 
2.43.0


From 4ad907d42dbde8847fe45c08a4e4699fa42df842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 016/111] fix: copying a file must replace the destination,
 honour fail_if_exists, check every open and finish partial transfers

---
 code/source/core/file_misc.c | 43 +++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 57982ab..3e7dd55 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -103,9 +103,8 @@ ZPL_BEGIN_C_DECLS
 
 
     zpl_b32 zpl_fs_copy(char const *existing_filename, char const *new_filename, zpl_b32 fail_if_exists) {
-        zpl_unused(fail_if_exists);
 #    if defined(ZPL_SYSTEM_OSX)
-        return copyfile(existing_filename, new_filename, NULL, COPYFILE_DATA) == 0;
+        return copyfile(existing_filename, new_filename, NULL, COPYFILE_DATA | (fail_if_exists ? COPYFILE_EXCL : 0)) == 0;
 #    elif defined(ZPL_SYSTEM_OPENBSD)
         ZPL_NOT_IMPLEMENTED;
         return 0;
@@ -113,23 +112,45 @@ ZPL_BEGIN_C_DECLS
         ZPL_NOT_IMPLEMENTED;
         return 0;
 #    else
-        int existing_fd = open(existing_filename, O_RDONLY, 0);
-        struct stat stat_existing;
-        fstat(existing_fd, &stat_existing);
+        zpl_isize size = 0;
+        zpl_b32 result = false;
+        struct stat stat_existing, stat_new;
+        int new_fd, existing_fd = open(existing_filename, O_RDONLY, 0);
+        if (existing_fd < 0) return false;
+        if (fstat(existing_fd, &stat_existing) != 0 || !S_ISREG(stat_existing.st_mode)) {
+            close(existing_fd);
+            return false;
+        }
 
-        zpl_isize size;
-        int new_fd = open(new_filename, O_WRONLY | O_CREAT, stat_existing.st_mode);
+        new_fd = open(new_filename, O_WRONLY | O_CREAT | (fail_if_exists ? O_EXCL : 0), stat_existing.st_mode & 07777);
+        if (new_fd < 0) {
+            close(existing_fd);
+            return false;
+        }
 
+        if (fstat(new_fd, &stat_new) == 0) {
+            if (stat_new.st_dev == stat_existing.st_dev && stat_new.st_ino == stat_existing.st_ino) {
+                // NOTE: Both names refer to the same file, which must not be truncated
+                result = true;
+            } else if (ftruncate(new_fd, 0) == 0) {
+                while (size < stat_existing.st_size) {
 #    if defined(ZPL_SYSTEM_FREEBSD)
-        size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size, NULL, 0, 0);
+                    zpl_isize res = sendfile(new_fd, existing_fd, 0, stat_existing.st_size, NULL, 0, 0);
 #    else
-        size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size);
+                    zpl_isize res = sendfile(new_fd, existing_fd, 0, stat_existing.st_size - size);
 #    endif
+                    if (res < 0 && errno == EINTR) continue;
+                    if (res <= 0) break;
+                    size += res;
+                }
+                result = (size == stat_existing.st_size);
+            }
+        }
 
-        close(new_fd);
+        if (close(new_fd) != 0) result = false;
         close(existing_fd);
 
-        return size == stat_existing.st_size;
+        return result;
 #    endif
     }
 
-- 
2.43.0


From 9e41cb4e4031b1f8380d354480b1a7e578671b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 017/111] fix: sockets and block devices are not folders

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 3e7dd55..1f1b9c6 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -434,7 +434,7 @@ zpl_u8 zpl_fs_get_type(char const *path) {
     struct stat s;
     if( stat(path,&s) == 0 )
     {
-        if(s.st_mode & S_IFDIR)
+        if(S_ISDIR(s.st_mode))
             return ZPL_DIR_TYPE_FOLDER;
         else
             return ZPL_DIR_TYPE_FILE;
-- 
2.43.0


From 47676387bb94e2c0f67a332ecb864f3690fdc5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 018/111] fix: creating a directory path must report failure
 when the path does not exist afterwards

---
 code/source/core/file_misc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 1f1b9c6..23a0b61 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -267,7 +267,9 @@ zpl_isize zpl_path_mkdir_recursive(char const *path, zpl_i32 mode) {
             *p = ZPL_PATH_SEPARATOR;
         }
     }
-    zpl_path_mkdir(tmp, mode);
+    if (zpl_path_mkdir(tmp, mode) != ZPL_FILE_ERROR_NONE && zpl_fs_get_type(tmp) != ZPL_DIR_TYPE_FOLDER) {
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From 794274e3236be4140214db6fca44e812cd16ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 019/111] fix: directory listings must close their handles,
 list names that start with two dots and not rely on d_type

---
 code/source/core/file_misc.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 23a0b61..9aa9c88 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -296,15 +296,14 @@ zpl_file_error zpl_path_rmdir(char const *path) {
 
 void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *output, zpl_b32 recurse) {
 #if defined(ZPL_SYSTEM_UNIX) || defined(ZPL_SYSTEM_OSX)
-    DIR *d, *cd;
+    DIR *d;
     struct dirent *dir;
     d = opendir(dirname);
 
     if (d) {
         while ((dir = readdir(d))) {
             if (dir == 0) break;
-            if (!zpl_strncmp(dir->d_name, "..", 2)) continue;
-            if (dir->d_name[0] == '.' && dir->d_name[1] == 0) continue;
+            if (!zpl_strcmp(dir->d_name, "..") || !zpl_strcmp(dir->d_name, ".")) continue;
 
             zpl_string dirpath = zpl_string_make(alloc, dirname);
             dirpath = zpl_string_appendc(dirpath, "/");
@@ -313,9 +312,18 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
             *output = zpl_string_appendc(*output, dirpath);
             *output = zpl_string_appendc(*output, "\n");
 
-            if (recurse && (cd = opendir(dirpath)) != NULL && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
+            if (recurse) {
+                zpl_b32 is_dir = (dir->d_type == DT_DIR);
+                if (dir->d_type == DT_UNKNOWN) {
+                    // NOTE: Not every file system stores types in its directories
+                    struct stat s;
+                    is_dir = (lstat(dirpath, &s) == 0 && S_ISDIR(s.st_mode));
+                }
+                if (is_dir) zpl__file_direntry(alloc, dirpath, output, recurse);
+            }
             zpl_string_free(dirpath);
         }
+        closedir(d);
     }
 #elif defined(ZPL_SYSTEM_WINDOWS)
     zpl_usize length = zpl_strlen(dirname);
-- 
2.43.0


From 99444be3d482e69018a3ff90383d4b94adc2287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 020/111] fix: directory information must terminate its path
 and handle files without a folder or with a long one

---
 code/source/core/file_misc.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 9aa9c88..a05f71c 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -385,8 +385,8 @@ void zpl_dirinfo_init(zpl_dir_info *dir, char const *path) {
 
     zpl_dir_info dir_ = {0};
     *dir = dir_;
-    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path));
-    zpl_strcpy((char *)dir->fullpath, path);
+    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path) + 1);
+    zpl_memcopy((char *)dir->fullpath, path, zpl_strlen(path) + 1);
 
 
     zpl_string dirlist = zpl_path_dirlist(zpl_heap(), path, false);
@@ -463,13 +463,18 @@ void zpl_dirinfo_step(zpl_dir_entry *entry) {
     zpl_dir_info dir_ = {0};
     *entry->dir_info = dir_;
 
-    zpl_local_persist char buf[128] = {0};
+    char buf[ZPL_MAX_PATH] = {0};
     char const *path = entry->filename;
 
     if (entry->type != ZPL_DIR_TYPE_FOLDER) {
         zpl_path_fix_slashes((char *)path);
         char const* slash = zpl_char_last_occurence(path, ZPL_PATH_SEPARATOR);
-        zpl_strncpy(buf, path, slash-path);
+        zpl_isize len = slash ? zpl_max(slash - path, 1) : 0;
+        if (slash && len < zpl_size_of(buf)) {
+            zpl_strncpy(buf, path, len);
+        } else {
+            buf[0] = '.';
+        }
         path = buf;
     }
 
-- 
2.43.0


From 2e2f2dd20911db7b086ee2f2f13387e0e620b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 021/111] fix: directory listings and information must survive
 a failing allocation

---
 code/source/core/file_misc.c | 40 ++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index a05f71c..350cb96 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -294,6 +294,13 @@ zpl_file_error zpl_path_rmdir(char const *path) {
     return ZPL_FILE_ERROR_UNKNOWN;
 }
 
+// NOTE: Appends to the string, releases it when there is not enough memory
+zpl_internal zpl_string zpl__path_append(zpl_string str, char const *other) {
+    zpl_string result = str ? zpl_string_appendc(str, other) : NULL;
+    if (!result) zpl_string_free(str);
+    return result;
+}
+
 void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *output, zpl_b32 recurse) {
 #if defined(ZPL_SYSTEM_UNIX) || defined(ZPL_SYSTEM_OSX)
     DIR *d;
@@ -301,18 +308,23 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
     d = opendir(dirname);
 
     if (d) {
-        while ((dir = readdir(d))) {
-            if (dir == 0) break;
+        while (*output && (dir = readdir(d))) {
             if (!zpl_strcmp(dir->d_name, "..") || !zpl_strcmp(dir->d_name, ".")) continue;
 
             zpl_string dirpath = zpl_string_make(alloc, dirname);
-            dirpath = zpl_string_appendc(dirpath, "/");
-            dirpath = zpl_string_appendc(dirpath, dir->d_name);
+            dirpath = zpl__path_append(dirpath, "/");
+            dirpath = zpl__path_append(dirpath, dir->d_name);
 
-            *output = zpl_string_appendc(*output, dirpath);
-            *output = zpl_string_appendc(*output, "\n");
+            if (!dirpath) {
+                zpl_string_free(*output);
+                *output = NULL;
+                break;
+            }
 
-            if (recurse) {
+            *output = zpl__path_append(*output, dirpath);
+            *output = zpl__path_append(*output, "\n");
+
+            if (recurse && *output) {
                 zpl_b32 is_dir = (dir->d_type == DT_DIR);
                 if (dir->d_type == DT_UNKNOWN) {
                     // NOTE: Not every file system stores types in its directories
@@ -385,16 +397,16 @@ void zpl_dirinfo_init(zpl_dir_info *dir, char const *path) {
 
     zpl_dir_info dir_ = {0};
     *dir = dir_;
-    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path) + 1);
-    zpl_memcopy((char *)dir->fullpath, path, zpl_strlen(path) + 1);
-
+    dir->fullpath = zpl_alloc_str(zpl_heap(), path);
+    if (!dir->fullpath) return;
 
     zpl_string dirlist = zpl_path_dirlist(zpl_heap(), path, false);
-    char **files=zpl_str_split_lines(zpl_heap(), dirlist, false);
+    char **files = dirlist ? zpl_str_split_lines(zpl_heap(), dirlist, false) : NULL;
     dir->filenames = files;
     dir->buf = dirlist;
 
-    zpl_array_init(dir->entries, zpl_heap());
+    // NOTE: Without enough memory for every entry we report none
+    if (!files || !zpl_array_init_reserve(dir->entries, zpl_heap(), zpl_array_count(files) + 1)) return;
 
     for (zpl_i32 i=0; i<zpl_array_count(files); ++i) {
         zpl_dir_entry entry = {0};
@@ -416,7 +428,7 @@ zpl_internal void zpl__dirinfo_free_entry(zpl_dir_entry *entry) {
 void zpl_dirinfo_free(zpl_dir_info *dir) {
     ZPL_ASSERT_NOT_NULL(dir);
 
-    for (zpl_isize i = 0; i < zpl_array_count(dir->entries); ++i) {
+    for (zpl_isize i = 0; dir->entries && i < zpl_array_count(dir->entries); ++i) {
         zpl__dirinfo_free_entry(dir->entries + i);
     }
 
@@ -460,6 +472,7 @@ void zpl_dirinfo_step(zpl_dir_entry *entry) {
     }
 
     entry->dir_info = (zpl_dir_info *)zpl_malloc(sizeof(zpl_dir_info));
+    if (!entry->dir_info) return;
     zpl_dir_info dir_ = {0};
     *entry->dir_info = dir_;
 
@@ -492,6 +505,7 @@ void zpl_file_dirinfo_refresh(zpl_file *file) {
     }
 
     file->dir = (zpl_dir_entry *)zpl_malloc(sizeof(zpl_dir_entry));
+    if (!file->dir) return;
     zpl_dir_entry dir_ = {0};
     *file->dir = dir_;
     file->dir->filename = file->filename;
-- 
2.43.0


From 0c03f93f92b7f01a6ba969bc73ccc7fcb5e3c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 022/111] fix: resolving a full path must release the system's
 buffer with the system's allocator

---
 code/source/core/file_misc.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 350cb96..2d3174c 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -222,9 +222,12 @@ char *zpl_path_get_full_name(zpl_allocator a, char const *path) {
     len = zpl_strlen(fullpath);
 
     result = zpl_alloc_array(a, char, len + 1);
-    zpl_memmove(result, fullpath, len);
-    result[len] = 0;
-    zpl_free(a, p);
+    if (result) {
+        zpl_memmove(result, fullpath, len);
+        result[len] = 0;
+    }
+    // NOTE: realpath gets its memory from malloc, not from our allocator
+    free(p);
 
     return result;
 #endif
-- 
2.43.0


From b096b4448ef838958925b18150a8bbb8d6120c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 023/111] fix: copying a string must report a failing
 allocation instead of writing to a null pointer

---
 code/header/essentials/memory_custom.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index ec9b383..3b9c05b 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -284,6 +284,7 @@ ZPL_IMPL_INLINE void *zpl_alloc_copy_align(zpl_allocator a, void const *src, zpl
 ZPL_IMPL_INLINE char *zpl_alloc_str_len(zpl_allocator a, char const *str, zpl_isize len) {
     char *result;
     result = cast(char *) zpl_alloc(a, len + 1);
+    if (!result) return NULL;
     zpl_memmove(result, str, len);
     result[len] = '\0';
     return result;
-- 
2.43.0


From a9196306b1833c78616efded3be23f8a74e4c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 024/111] fix: packing a tar archive must keep the whole name
 and size and report everything it could not store

---
 code/source/core/file_tar.c | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 911a8a9..a46f286 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -26,10 +26,9 @@ zpl_internal zpl_usize zpl__tar_checksum(zpl__tar_header *hr) {
 }
 
 zpl_internal zpl_b32 zpl__tar_write_null(zpl_file *archive, zpl_isize cnt) {
-    char *out = zpl_bprintf("%*r", cnt, '\0');
-    if (!zpl_file_write(archive, out, cnt))
-        return 0;
-    return 1;
+    char zeroes[1024] = {0};
+    ZPL_ASSERT(cnt <= zpl_size_of(zeroes));
+    return zpl_file_write(archive, zeroes, cnt);
 }
 
 zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_len) {
@@ -39,6 +38,10 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
     for (zpl_isize i = 0; i < paths_len; i++) {
         ZPL_ASSERT_NOT_NULL(paths[i]);
         zpl__tar_header hr = {0};
+        if (zpl_strlen(paths[i]) >= zpl_size_of(hr.name)) {
+            return -(ZPL_TAR_ERROR_INVALID_INPUT);
+        }
+
         zpl_file file;
         zpl_file_error ferr = zpl_file_open_mode(&file, ZPL_FILE_MODE_READ, paths[i]);
         if (ferr == ZPL_FILE_ERROR_NOT_EXISTS) {
@@ -48,14 +51,22 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
         }
 
         zpl_i64 file_size = zpl_file_size(&file);
-        zpl_snprintf(hr.name, 12, "%s", paths[i]);
-        zpl_snprintf(hr.size, 12, "%o", file_size);
+        if (file_size < 0 || file_size > 077777777777ll) {
+            // NOTE: The header has room for 11 octal digits
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_INVALID_INPUT);
+        }
+        zpl_snprintf(hr.name, zpl_size_of(hr.name), "%s", paths[i]);
+        zpl_snprintf(hr.size, 12, "%llo", file_size);
         zpl_snprintf(hr.mode, 8, "%o", 0664);
-        zpl_snprintf(hr.mtime, 12, "%o", zpl_fs_last_write_time(paths[i]));
+        zpl_snprintf(hr.mtime, 12, "%llo", cast(zpl_i64)zpl_fs_last_write_time(paths[i]) & 077777777777ll);
         hr.type = ZPL_TAR_TYPE_REGULAR;
         zpl_snprintf(hr.checksum, 8, "%o", zpl__tar_checksum(&hr));
 
-        zpl_file_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header));
+        if (!zpl_file_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header))) {
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_IO_ERROR);
+        }
 
         // write data
         {
@@ -65,19 +76,17 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
             char buf[4096] = {0};
             zpl_i64 pos = 0;
             zpl_isize bytes_read = 0;
-            do {
-                if (!zpl_file_read_at_check(&file, buf, 4096, pos, &bytes_read)) {
+            while (remaining_data > 0) {
+                // NOTE: The header has promised file_size bytes
+                if (!zpl_file_read_at_check(&file, buf, zpl_min(4096, remaining_data), pos, &bytes_read) || bytes_read == 0
+                    || !zpl_file_write(archive, buf, bytes_read)) {
                     zpl_file_close(&file);
                     return -(ZPL_TAR_ERROR_IO_ERROR);
-                } else if (bytes_read == 0) {
-                    break;
                 }
 
-                zpl_file_write(archive, buf, bytes_read);
                 pos += bytes_read;
                 remaining_data -= bytes_read;
             }
-            while (remaining_data > 0);
 
             if (padding > 0) {
                 if (!zpl__tar_write_null(archive, padding)) {
-- 
2.43.0


From 7a5495326eb36e473969d7bb511cbc898e35a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 025/111] fix: packing a directory must skip its folders and
 report a failing allocation

---
 code/source/core/file_tar.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index a46f286..c12cfbe 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -108,8 +108,16 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
 
 zpl_isize zpl_tar_pack_dir(zpl_file *archive, char const *path, zpl_allocator alloc) {
     zpl_string filelst = zpl_path_dirlist(alloc, path, true);
-    char const **files = cast(char const**)zpl_str_split_lines(alloc, filelst, false);
-    zpl_isize err = zpl_tar_pack(archive, files, zpl_array_count(files));
+    char const **files = filelst ? cast(char const**)zpl_str_split_lines(alloc, filelst, false) : NULL;
+    zpl_isize err = -(ZPL_TAR_ERROR_IO_ERROR);
+    if (files) {
+        zpl_isize count = 0;
+        // NOTE: The list has folders too, they exist through the files in them
+        for (zpl_isize i = 0; i < zpl_array_count(files); i++) {
+            if (zpl_fs_get_type(files[i]) != ZPL_DIR_TYPE_FOLDER) files[count++] = files[i];
+        }
+        err = zpl_tar_pack(archive, files, count);
+    }
     zpl_string_free(filelst);
     zpl_array_free(files);
     return err;
-- 
2.43.0


From ae835590348bf116e0940cacc708bc31dc63bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 026/111] fix: unpacking must stop with an error at a truncated
 archive and never trust unterminated or negative header fields

---
 code/source/core/file_tar.c | 41 ++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index c12cfbe..a0b6250 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -25,6 +25,23 @@ zpl_internal zpl_usize zpl__tar_checksum(zpl__tar_header *hr) {
     return res;
 }
 
+zpl_internal zpl_b32 zpl__tar_is_null(zpl__tar_header *hr) {
+    zpl_u8 *p = cast(zpl_u8*)(hr);
+    for (zpl_isize i = 0; i < zpl_size_of(zpl__tar_header); i++)
+        if (p[i]) return false;
+    return true;
+}
+
+// NOTE: Numeric fields are octal digits, padded with spaces, that may fill the whole field
+zpl_internal zpl_i64 zpl__tar_octal(char const *field, zpl_isize len) {
+    zpl_i64 res = 0;
+    zpl_isize i = 0;
+    while (i < len && field[i] == ' ') i++;
+    for (; i < len && field[i] >= '0' && field[i] <= '7'; i++)
+        res = res * 8 + (field[i] - '0');
+    return res;
+}
+
 zpl_internal zpl_b32 zpl__tar_write_null(zpl_file *archive, zpl_isize cnt) {
     char zeroes[1024] = {0};
     ZPL_ASSERT(cnt <= zpl_size_of(zeroes));
@@ -130,25 +147,32 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
     zpl_i64 pos = zpl_file_tell(archive);
     zpl__tar_header hr = {0};
     zpl_isize err = ZPL_TAR_ERROR_NONE;
+    zpl_isize bytes_read = 0;
 
     do {
-        if (!zpl_file_read(archive, cast(void*)&hr, zpl_size_of(hr))) {
+        char name[zpl_size_of(hr.name)+1] = {0};
+
+        if (!zpl_file_read_at_check(archive, cast(void*)&hr, zpl_size_of(hr), pos, &bytes_read) || bytes_read != zpl_size_of(hr)) {
             err = ZPL_TAR_ERROR_IO_ERROR;
             break;
         }
-        else if (*hr.checksum == 0) {
+
+        pos += bytes_read;
+        zpl_file_seek(archive, pos);
+
+        if (zpl__tar_is_null(&hr)) {
             break;
         }
-        pos = zpl_file_tell(archive);
 
         zpl_tar_record rec = {0};
         rec.type = hr.type;
-        rec.path = hr.name;
+        zpl_memcopy(name, hr.name, zpl_size_of(hr.name));
+        rec.path = name;
         rec.offset = pos;
-        rec.length = zpl_str_to_i64(hr.size, 0, 8);
+        rec.length = zpl__tar_octal(hr.size, zpl_size_of(hr.size));
         rec.error = ZPL_TAR_ERROR_NONE;
 
-        zpl_usize checksum1 = cast(zpl_usize)(zpl_str_to_i64(hr.checksum, 0, 8));
+        zpl_usize checksum1 = cast(zpl_usize)(zpl__tar_octal(hr.checksum, zpl_size_of(hr.checksum)));
         zpl_usize checksum2 = zpl__tar_checksum(&hr);
         rec.error = (checksum1 != checksum2) ? cast(zpl_isize)ZPL_TAR_ERROR_BAD_CHECKSUM : rec.error;
 
@@ -160,7 +184,10 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
         }
 
         /* tar rounds files to 512 byte boundary */
-        zpl_file_seek(archive, pos + zpl_align_forward_i64(rec.length, 512));
+        pos += zpl_align_forward_i64(rec.length, 512);
+        if (zpl_file_seek(archive, pos) != pos) {
+            err = ZPL_TAR_ERROR_IO_ERROR;
+        }
     }
     while(err == ZPL_TAR_ERROR_NONE);
 
-- 
2.43.0


From 4928adb62f17ed76ef0441aca17904bd792314aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 027/111] fix: unpacking into a directory must stay inside it
 and report files it could not create or write

---
 code/source/core/file_tar.c | 39 ++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index a0b6250..3fd594a 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -208,6 +208,20 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_list_file) {
     return 0;
 }
 
+zpl_internal zpl_b32 zpl__tar_is_separator(char c) {
+    return c == '/' || c == ZPL_PATH_SEPARATOR;
+}
+
+zpl_internal zpl_b32 zpl__tar_path_escapes(char const *path) {
+    while (*path) {
+        char const *end = path;
+        while (*end && !zpl__tar_is_separator(*end)) end++;
+        if (end - path == 2 && path[0] == '.' && path[1] == '.') return true;
+        path = *end ? end + 1 : end;
+    }
+    return false;
+}
+
 ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     if (file->error != ZPL_TAR_ERROR_NONE)
         return 0; /* skip file */
@@ -215,14 +229,18 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     if (file->type != ZPL_TAR_TYPE_REGULAR)
         return 0; /* we only care about regular files */
 
-    if (!zpl_strncmp(file->path, "..", 2))
+    if (zpl__tar_path_escapes(file->path))
         return 0;
 
+    char const *path = file->path;
+    while (zpl__tar_is_separator(*path)) path++; /* names are relative to base_path, also when it is empty */
+
     char tmp[ZPL_MAX_PATH] = {0};
     char *base_path = cast(char*)user_data;
     zpl_isize base_len = zpl_strlen(base_path);
-    zpl_isize len = zpl_strlen(file->path);
-    ZPL_ASSERT(base_len+len-2 < ZPL_MAX_PATH); /* todo: account for missing leading path sep */
+    zpl_isize len = zpl_strlen(path);
+    if (base_len+len+2 > ZPL_MAX_PATH)
+        return 1;
 
     zpl_strcpy(tmp, base_path);
     zpl_path_fix_slashes(tmp); /* todo: need to do twice as base_path is checked before concat */
@@ -231,7 +249,7 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
         char sep[2] = {ZPL_PATH_SEPARATOR, 0};
         zpl_strcat(tmp, sep);
     }
-    zpl_strcat(tmp, file->path);
+    zpl_strcat(tmp, path);
     zpl_path_fix_slashes(tmp);
 
     const char *last_slash = zpl_char_last_occurence(tmp, ZPL_PATH_SEPARATOR);
@@ -244,25 +262,24 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     }
 
     zpl_file f;
-    zpl_file_create(&f, tmp);
+    if (zpl_file_create(&f, tmp) != ZPL_FILE_ERROR_NONE)
+        return 1;
+
     {
         char buf[4096] = {0};
         zpl_isize remaining_data = file->length;
         zpl_isize bytes_read = 0;
         zpl_i64 pos = file->offset;
-        do {
-            if (!zpl_file_read_at_check(archive, buf, zpl_min(4096, remaining_data), pos, &bytes_read)) {
+        while (remaining_data > 0) {
+            if (!zpl_file_read_at_check(archive, buf, zpl_min(4096, remaining_data), pos, &bytes_read) || bytes_read == 0
+                || !zpl_file_write(&f, buf, bytes_read)) {
                 zpl_file_close(&f);
                 return 1;
-            } else if (bytes_read == 0) {
-                break;
             }
 
-            zpl_file_write(&f, buf, bytes_read);
             pos += bytes_read;
             remaining_data -= bytes_read;
         }
-        while (remaining_data > 0);
     }
     zpl_file_close(&f);
     return 0;
-- 
2.43.0


From 63f80fa68b1edcc7287cc40c641b6e90628d2562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 028/111] fix: opening a memory stream must start at its
 beginning and release everything when an allocation fails

---
 code/source/core/file_stream.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index bbf0651..0e69e38 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -45,7 +45,11 @@ zpl_b8 zpl_file_stream_new(zpl_file* file, zpl_allocator allocator) {
     d->alloc = allocator;
     d->flags = ZPL_FILE_STREAM_CLONE_WRITABLE;
     d->cap = 0;
-    if (!zpl_array_init(d->buf, allocator)) return false;
+    d->cursor = 0;
+    if (!zpl_array_init(d->buf, allocator)) {
+        zpl_free(allocator, d);
+        return false;
+    }
     file->ops = zpl_memory_file_operations;
     file->fd = zpl__file_stream_fd_make(d);
     file->dir = NULL;
@@ -62,8 +66,12 @@ zpl_b8 zpl_file_stream_open(zpl_file* file, zpl_allocator allocator, zpl_u8 *buf
     d->magic = ZPL__FILE_STREAM_FD_MAGIC;
     d->alloc = allocator;
     d->flags = flags;
+    d->cursor = 0;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
-        if (!zpl_array_init_reserve(d->buf, allocator, size)) return false;
+        if (!zpl_array_init_reserve(d->buf, allocator, size)) {
+            zpl_free(allocator, d);
+            return false;
+        }
         zpl_memcopy(d->buf, buffer, size);
         d->cap = zpl_array_count(d->buf) = size;
     } else {
-- 
2.43.0


From 7276fbfe0ad6bf820cf877f7a28bacb6e755bad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 029/111] fix: memory streams must not read or write outside
 their bytes and must report what did not fit

---
 code/source/core/file_stream.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index 0e69e38..355dcd7 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -103,7 +103,7 @@ zpl_internal ZPL_FILE_SEEK_PROC(zpl__memory_file_seek) {
     else if (whence == ZPL_SEEK_WHENCE_END)
         d->cursor = buflen;
 
-    d->cursor = zpl_max(0, zpl_clamp(d->cursor + offset, 0, buflen));
+    d->cursor += zpl_clamp(offset, -d->cursor, buflen - d->cursor);
     if (new_offset) *new_offset = d->cursor;
     return true;
 }
@@ -111,27 +111,38 @@ zpl_internal ZPL_FILE_SEEK_PROC(zpl__memory_file_seek) {
 zpl_internal ZPL_FILE_READ_AT_PROC(zpl__memory_file_read) {
     zpl_unused(stop_at_newline);
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
-    zpl_memcopy(buffer, d->buf + offset, size);
-    if (bytes_read) *bytes_read = size;
+    if (bytes_read) *bytes_read = 0;
+    if (offset < 0 || size < 0) return false;
+    if (offset < d->cap) {
+        // NOTE: Like any file, deliver what there is
+        zpl_isize avail = zpl_min(size, cast(zpl_isize)(d->cap - offset));
+        zpl_memcopy(buffer, d->buf + offset, avail);
+        if (bytes_read) *bytes_read = avail;
+    }
     return true;
 }
 
 zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__memory_file_write) {
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
+    if (bytes_written) *bytes_written = 0;
     if (!(d->flags & (ZPL_FILE_STREAM_CLONE_WRITABLE|ZPL_FILE_STREAM_WRITABLE)))
         return false;
+    if (offset < 0 || size < 0)
+        return false;
     zpl_isize buflen = d->cap;
-    zpl_isize extralen = zpl_max(0, size-(buflen-offset));
-    zpl_isize rwlen = size-extralen;
-    zpl_isize new_cap = buflen+extralen;
+    zpl_isize rwlen = zpl_clamp(buflen-offset, 0, size);
+    zpl_isize extralen = size-rwlen;
+    zpl_isize new_cap = extralen > 0 ? offset+size : buflen;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
         if(zpl_array_capacity(d->buf) < new_cap) {
             if (!zpl_array_grow(d->buf, (zpl_i64)(new_cap))) return false;
         }
     }
-    zpl_memcopy(d->buf + offset, buffer, rwlen);
+    if (rwlen > 0) zpl_memcopy(d->buf + offset, buffer, rwlen);
 
     if ((d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) && extralen > 0) {
+        // NOTE: Writing past the end leaves zeroes in between
+        if (offset > buflen) zpl_zero_size(d->buf + buflen, offset - buflen);
         zpl_memcopy(d->buf + offset + rwlen, zpl_ptr_add_const(buffer, rwlen), extralen);
         d->cap = zpl_array_count(d->buf) = new_cap;
     } else {
@@ -139,7 +150,7 @@ zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__memory_file_write) {
     }
 
     if (bytes_written) *bytes_written = (rwlen+extralen);
-    return true;
+    return rwlen+extralen == size;
 }
 
 zpl_internal ZPL_FILE_CLOSE_PROC(zpl__memory_file_close) {
-- 
2.43.0


From c1c8dbf11bd55e1e66c2270d36041f1565b1452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 030/111] fix: analysed heap allocations must honour large
 alignments and survive running out of memory

---
 code/source/essentials/memory_custom.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 8a14656..709279e 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -80,8 +80,7 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
 
 #    ifdef ZPL_HEAP_ANALYSIS
         zpl_isize alloc_info_size = zpl_size_of(zpl__heap_alloc_info);
-        zpl_isize alloc_info_remainder = (alloc_info_size % alignment);
-        zpl_isize track_size = zpl_max(alloc_info_size, alignment) + alloc_info_remainder;
+        zpl_isize track_size = zpl_align_forward_i64(alloc_info_size, alignment);
         switch (type) {
             case ZPL_ALLOCATION_FREE: {
                 if (!old_memory) break;
@@ -145,8 +144,8 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
     }
 
 #    ifdef ZPL_HEAP_ANALYSIS
-        if (type == ZPL_ALLOCATION_ALLOC) {
-            zpl__heap_alloc_info *alloc_info = cast(zpl__heap_alloc_info *)(cast(char *)ptr + alloc_info_remainder);
+        if (type == ZPL_ALLOCATION_ALLOC && ptr) {
+            zpl__heap_alloc_info *alloc_info = cast(zpl__heap_alloc_info *)(cast(char *)ptr + track_size) - 1;
             zpl_zero_item(alloc_info);
             alloc_info->size = size - track_size;
             alloc_info->physical_start = ptr;
-- 
2.43.0


From f557add33126d9db97a01cb17bb358d7abd6656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 031/111] fix: arenas must account for alignment padding and
 hand out nothing without backing memory

---
 code/header/essentials/memory_custom.h |  2 +-
 code/source/essentials/memory_custom.c | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index 3b9c05b..2626ec1 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -339,7 +339,7 @@ ZPL_IMPL_INLINE void zpl_arena_init_from_memory(zpl_arena *arena, void *start, z
 ZPL_IMPL_INLINE void zpl_arena_init_from_allocator(zpl_arena *arena, zpl_allocator backing, zpl_isize size) {
     arena->backing = backing;
     arena->physical_start = zpl_alloc(backing, size); // NOTE: Uses default alignment
-    arena->total_size = size;
+    arena->total_size = arena->physical_start ? size : 0;
     arena->total_allocated = 0;
     arena->temp_count = 0;
 }
diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 709279e..654ead2 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -170,16 +170,16 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
 
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
-            void *end = zpl_pointer_add(arena->physical_start, arena->total_allocated);
-            zpl_isize total_size = zpl_align_forward_i64(size, alignment);
+            zpl_isize offset = arena->total_allocated + zpl_arena_alignment_of(arena, alignment);
+            zpl_isize remaining = arena->total_size - offset;
 
             // NOTE: Out of memory
-            if (arena->total_allocated + total_size > cast(zpl_isize) arena->total_size) {
+            if (size > remaining || zpl_align_forward_i64(size, alignment) > remaining) {
                 return NULL;
             }
 
-            ptr = zpl_align_forward(end, alignment);
-            arena->total_allocated += total_size;
+            ptr = zpl_pointer_add(arena->physical_start, offset);
+            arena->total_allocated = offset + zpl_align_forward_i64(size, alignment);
             if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) zpl_zero_size(ptr, size);
         } break;
 
-- 
2.43.0


From 678071c84a4163cd04b125d90b0234f3d1137830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 032/111] fix: pool blocks must be aligned and not overlap, and
 an empty pool must report it is out of memory

---
 code/source/essentials/memory_custom.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 654ead2..f8bf36e 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -203,6 +203,11 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
 // Pool Allocator
 //
 
+// NOTE: Free blocks hold the link to the next one, every block has to start aligned
+zpl_internal zpl_isize zpl__pool_stride(zpl_isize block_size, zpl_isize block_align) {
+    return zpl_align_forward_i64(block_size + block_align, zpl_max(block_align, zpl_size_of(zpl_uintptr)));
+}
+
 void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_blocks, zpl_isize block_size, zpl_isize block_align) {
     zpl_isize actual_block_size, pool_size, block_index;
     void *data, *curr;
@@ -215,10 +220,14 @@ void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_bl
     pool->block_align = block_align;
     pool->num_blocks = num_blocks;
 
-    actual_block_size = block_size + block_align;
+    actual_block_size = zpl__pool_stride(block_size, block_align);
     pool_size = num_blocks * actual_block_size;
 
-    data = zpl_alloc_align(backing, pool_size, block_align);
+    data = zpl_alloc_align(backing, pool_size, zpl_max(block_align, zpl_size_of(zpl_uintptr)));
+    if (!data) {
+        pool->num_blocks = 0;
+        return;
+    }
 
     // NOTE: Init intrusive freelist
     curr = data;
@@ -246,7 +255,9 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
             zpl_uintptr next_free;
             ZPL_ASSERT(size == pool->block_size);
             ZPL_ASSERT(alignment == pool->block_align);
-            ZPL_ASSERT(pool->free_list != NULL);
+
+            // NOTE: Out of memory
+            if (pool->free_list == NULL) return NULL;
 
             next_free = *cast(zpl_uintptr *) pool->free_list;
             ptr = pool->free_list;
@@ -270,8 +281,9 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
             void *curr;
             zpl_uintptr *end;
 
-            actual_block_size = pool->block_size + pool->block_align;
+            actual_block_size = zpl__pool_stride(pool->block_size, pool->block_align);
             pool->total_size = 0;
+            if (pool->physical_start == NULL) break;
 
             // NOTE: Init intrusive freelist
             curr = pool->physical_start;
-- 
2.43.0


From d740f6bd6e2e447dd236b4b72e0329f229f7c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 033/111] fix: scratch blocks must not overlap each other,
 their headers or the end of the memory

---
 code/source/essentials/memory_custom.c | 60 +++++++++++++++++---------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index f8bf36e..3576314 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -313,10 +313,15 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
 //
 
 void zpl_scratch_memory_init(zpl_scratch_memory *s, void *start, zpl_isize size) {
-    s->physical_start = start;
+    // NOTE: Every header stays aligned
+    void *aligned = zpl_align_forward(start, zpl_size_of(zpl_allocation_header_ev));
+    size = zpl_max(size - zpl_pointer_diff(start, aligned), 0);
+    size -= size % zpl_size_of(zpl_allocation_header_ev);
+
+    s->physical_start = aligned;
     s->total_size = size;
-    s->alloc_point = start;
-    s->free_point = start;
+    s->alloc_point = aligned;
+    s->free_point = aligned;
 }
 
 zpl_b32 zpl_scratch_memory_is_in_use(zpl_scratch_memory *s, void *ptr) {
@@ -339,30 +344,43 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
 
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
-            void *pt = s->alloc_point;
-            zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) pt;
-            void *data = zpl_align_forward(header + 1, alignment);
             void *end = zpl_pointer_add(s->physical_start, s->total_size);
+            zpl_b32 wrapped = cast(zpl_u8 *) s->alloc_point < cast(zpl_u8 *) s->free_point;
+            zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) s->alloc_point;
+            void *data = zpl_align_forward(header + 1, alignment);
+            void *pt;
 
             ZPL_ASSERT(alignment % 4 == 0);
-            size = ((size + 3) / 4) * 4;
-            pt = zpl_pointer_add(pt, size);
-
-            // NOTE: Wrap around
-            if (pt > end) {
-                header->size = zpl_pointer_diff(header, end) | ZPL_ISIZE_HIGH_BIT;
-                pt = s->physical_start;
-                header = cast(zpl_allocation_header_ev *) pt;
+
+            // NOTE: Out of memory
+            if (size > s->total_size - zpl_size_of(zpl_allocation_header_ev)) return NULL;
+
+            // NOTE: Every header stays aligned
+            size = zpl_align_forward_i64(zpl_max(size, 1), zpl_size_of(zpl_allocation_header_ev));
+
+            if (size <= zpl_pointer_diff(data, wrapped ? s->free_point : end)) {
+                pt = zpl_pointer_add(data, size);
+                if (pt == end) pt = s->physical_start;
+
+                // NOTE: Full, meeting the free point would look empty
+                if (pt == s->free_point) return NULL;
+            } else {
+                // NOTE: Wrap around
+                zpl_allocation_header_ev *skipped = header;
+                if (wrapped) return NULL;
+
+                header = cast(zpl_allocation_header_ev *) s->physical_start;
                 data = zpl_align_forward(header + 1, alignment);
-                pt = zpl_pointer_add(pt, size);
-            }
+                if (size >= zpl_pointer_diff(data, s->free_point)) return NULL;
 
-            if (!zpl_scratch_memory_is_in_use(s, pt)) {
-                zpl_allocation_header_fill(header, pt, zpl_pointer_diff(header, pt));
-                s->alloc_point = cast(zpl_u8 *) pt;
-                ptr = data;
+                pt = zpl_pointer_add(data, size);
+                skipped->size = zpl_pointer_diff(skipped, end) | ZPL_ISIZE_HIGH_BIT;
             }
 
+            zpl_allocation_header_fill(header, data, zpl_pointer_diff(header, zpl_pointer_add(data, size)));
+            s->alloc_point = pt;
+            ptr = data;
+
             if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) zpl_zero_size(ptr, size);
         } break;
 
@@ -381,7 +399,7 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
                         zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) s->free_point;
                         if ((header->size & ZPL_ISIZE_HIGH_BIT) == 0) break;
 
-                        s->free_point = zpl_pointer_add(s->free_point, h->size & (~ZPL_ISIZE_HIGH_BIT));
+                        s->free_point = zpl_pointer_add(s->free_point, header->size & (~ZPL_ISIZE_HIGH_BIT));
                         if (s->free_point == end) s->free_point = s->physical_start;
                     }
                 }
-- 
2.43.0


From 3b9526ba4de071d55b3fcd7b955e0bca0490ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 034/111] fix: a growing stack allocator must not move or lose
 live blocks, must align them and report running out of memory

---
 code/header/essentials/memory_custom.h | 26 +++----
 code/source/essentials/memory_custom.c | 97 +++++++++++++++++++-------
 2 files changed, 78 insertions(+), 45 deletions(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index 2626ec1..8c9df85 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -235,6 +235,7 @@ typedef struct zpl_stack_memory {
     void *physical_start;
     zpl_usize total_size;
     zpl_usize allocated;
+    void *chunk; // the memory this one grew out of
 } zpl_stack_memory;
 
 //! Initialize stack allocator from existing memory.
@@ -244,10 +245,10 @@ ZPL_DEF_INLINE void zpl_stack_memory_init_from_memory(zpl_stack_memory *s, void
 ZPL_DEF_INLINE void zpl_stack_memory_init(zpl_stack_memory *s, zpl_allocator backing, zpl_isize size);
 
 //! Check whether stack allocator is in use.
-ZPL_DEF_INLINE zpl_b32 zpl_stack_memory_is_in_use(zpl_stack_memory *s, void *ptr);
+ZPL_DEF zpl_b32 zpl_stack_memory_is_in_use(zpl_stack_memory *s, void *ptr);
 
 //! Release the resources used by stack allocator.
-ZPL_DEF_INLINE void zpl_stack_memory_free(zpl_stack_memory *s);
+ZPL_DEF void zpl_stack_memory_free(zpl_stack_memory *s);
 
 //! Allocation Types: alloc, free, free_all
 ZPL_DEF_INLINE zpl_allocator zpl_stack_allocator(zpl_stack_memory *s);
@@ -436,31 +437,20 @@ ZPL_IMPL_INLINE void zpl_allocation_header_fill(zpl_allocation_header_ev *header
 ZPL_STATIC_ASSERT(ZPL_STACK_ALLOC_OFFSET == 8, "ZPL_STACK_ALLOC_OFFSET != 8");
 
 ZPL_IMPL_INLINE void zpl_stack_memory_init_from_memory(zpl_stack_memory *s, void *start, zpl_isize size) {
+    s->backing.proc = NULL;
+    s->backing.data = NULL;
     s->physical_start = start;
     s->total_size = size;
     s->allocated = 0;
+    s->chunk = NULL;
 }
 
 ZPL_IMPL_INLINE void zpl_stack_memory_init(zpl_stack_memory *s, zpl_allocator backing, zpl_isize size) {
     s->backing = backing;
     s->physical_start = zpl_alloc(backing, size);
-    s->total_size = size;
+    s->total_size = s->physical_start ? size : 0;
     s->allocated = 0;
-}
-
-ZPL_IMPL_INLINE zpl_b32 zpl_stack_memory_is_in_use(zpl_stack_memory *s, void *ptr) {
-    if (s->allocated == 0) return false;
-    
-    if (ptr > s->physical_start && ptr < zpl_pointer_add(s->physical_start, s->total_size)) { return true; }
-    
-    return false;
-}
-
-ZPL_IMPL_INLINE void zpl_stack_memory_free(zpl_stack_memory *s) {
-    if (s->backing.proc) {
-        zpl_free(s->backing, s->physical_start);
-        s->physical_start = NULL;
-    }
+    s->chunk = NULL;
 }
 
 ZPL_IMPL_INLINE zpl_allocator zpl_stack_allocator(zpl_stack_memory *s) {
diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 3576314..e260877 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -422,53 +422,96 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
 //
 // Stack Memory Allocator
 //
+
+// NOTE: Growing adds a chunk, so that live blocks stay where they are. It remembers the memory it stands in for.
+typedef struct zpl__stack_chunk {
+    zpl_stack_memory previous;
+} zpl__stack_chunk;
+
+zpl_internal zpl_b32 zpl__stack_grow(zpl_stack_memory *s, zpl_isize size) {
+    zpl_isize overhead = zpl_size_of(zpl__stack_chunk) + cast(zpl_isize) s->total_size;
+    zpl__stack_chunk *chunk;
+
+    if (!s->backing.proc || size > ZPL_ISIZE_MAX - overhead) return false;
+
+    chunk = cast(zpl__stack_chunk *) zpl_alloc(s->backing, overhead + size);
+    if (!chunk) return false;
+
+    chunk->previous = *s;
+    s->physical_start = chunk;
+    s->total_size = cast(zpl_usize) (overhead + size);
+    s->allocated = zpl_size_of(zpl__stack_chunk);
+    s->chunk = chunk;
+    return true;
+}
+
+zpl_internal void zpl__stack_shrink(zpl_stack_memory *s) {
+    zpl__stack_chunk *chunk = cast(zpl__stack_chunk *) s->chunk;
+    *s = chunk->previous;
+    zpl_free(s->backing, chunk);
+}
+
+zpl_b32 zpl_stack_memory_is_in_use(zpl_stack_memory *s, void *ptr) {
+    zpl_stack_memory const *m = s;
+
+    for (;;) {
+        if (m->allocated != 0 && ptr > m->physical_start && ptr < zpl_pointer_add(m->physical_start, cast(zpl_isize) m->total_size)) return true;
+        if (!m->chunk) return false;
+        m = &(cast(zpl__stack_chunk *) m->chunk)->previous;
+    }
+}
+
+void zpl_stack_memory_free(zpl_stack_memory *s) {
+    while (s->chunk) zpl__stack_shrink(s);
+
+    if (s->backing.proc) {
+        zpl_free(s->backing, s->physical_start);
+        s->physical_start = NULL;
+    }
+}
+
 ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
     zpl_stack_memory *s = cast(zpl_stack_memory *) allocator_data;
     void *ptr = NULL;
     ZPL_ASSERT_NOT_NULL(s);
     zpl_unused(old_size);
-    zpl_unused(flags);
 
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
-            size += ZPL_STACK_ALLOC_OFFSET;
-            zpl_u64 alloc_offset = s->allocated;
-
-            void *curr =
-                cast(zpl_u64 *) zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
-
-            if (cast(zpl_u64 *) zpl_pointer_add(curr, size) > cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->total_size)) {
-                if (s->backing.proc) {
-                    void *old_start = s->physical_start;
-                    s->physical_start =
-                        zpl_resize_align(s->backing, s->physical_start, s->total_size, s->total_size + size, alignment);
-                    curr = cast(zpl_u64 *)
-                        zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
-                    s->total_size = zpl_pointer_diff(old_start, s->physical_start);
-                } else {
-                    ZPL_PANIC("Can not resize stack's memory! Allocator not defined!");
+            for (;;) {
+                void *end = zpl_pointer_add(s->physical_start, cast(zpl_isize) s->total_size);
+                void *curr = zpl_pointer_add(s->physical_start, cast(zpl_isize) (s->allocated + ZPL_STACK_ALLOC_OFFSET));
+                curr = zpl_align_forward(curr, zpl_max(alignment, cast(zpl_isize) ZPL_STACK_ALLOC_OFFSET));
+
+                if (s->physical_start && size <= zpl_pointer_diff(curr, end)) {
+                    *cast(zpl_u64 *) zpl_pointer_sub(curr, ZPL_STACK_ALLOC_OFFSET) = s->allocated;
+                    s->allocated = cast(zpl_usize) (zpl_pointer_diff(s->physical_start, curr) + size);
+                    ptr = curr;
+                    break;
                 }
-            }
-
-            s->allocated = zpl_pointer_diff(s->physical_start, curr) + size;
 
-            *(zpl_u64 *)curr = alloc_offset;
-            curr = zpl_pointer_add(curr, ZPL_STACK_ALLOC_OFFSET);
+                // NOTE: Out of memory
+                if (size > ZPL_ISIZE_MAX - alignment - 2*cast(zpl_isize) ZPL_STACK_ALLOC_OFFSET) return NULL;
+                if (!zpl__stack_grow(s, size + alignment + 2*cast(zpl_isize) ZPL_STACK_ALLOC_OFFSET)) return NULL;
+            }
 
-            ptr = curr;
+            if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) zpl_zero_size(ptr, size);
         } break;
 
         case ZPL_ALLOCATION_FREE: {
             if (old_memory) {
-                void *curr = old_memory;
-                curr = zpl_pointer_sub(curr, ZPL_STACK_ALLOC_OFFSET);
+                // NOTE: Everything above the block goes with it
+                while (s->chunk && (old_memory < s->physical_start || old_memory > zpl_pointer_add(s->physical_start, cast(zpl_isize) s->total_size))) {
+                    zpl__stack_shrink(s);
+                }
 
-                zpl_u64 alloc_offset = *(zpl_u64 *)curr;
-                s->allocated = (zpl_usize)alloc_offset;
+                s->allocated = cast(zpl_usize) *cast(zpl_u64 *) zpl_pointer_sub(old_memory, ZPL_STACK_ALLOC_OFFSET);
+                if (s->chunk && s->allocated == zpl_size_of(zpl__stack_chunk)) zpl__stack_shrink(s);
             }
         } break;
 
         case ZPL_ALLOCATION_FREE_ALL: {
+            while (s->chunk) zpl__stack_shrink(s);
             s->allocated = 0;
         } break;
 
-- 
2.43.0


From 4c89b4944d01839c5fb4e7ec8f4a7a4dba0831de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 035/111] fix: virtual memory calls must release the right
 pages and report failure

---
 code/source/core/memory_virtual.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index 7f16908..1c4243a 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -78,12 +78,15 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
         ZPL_ASSERT(size > 0);
         vm.data = mmap(addr, size, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_PRIVATE, -1, 0);
         vm.size = size;
+        if (vm.data == MAP_FAILED) {
+            vm.data = NULL;
+            vm.size = 0;
+        }
         return vm;
     }
 
     zpl_b32 zpl_vm_free(zpl_virtual_memory vm) {
-        munmap(vm.data, vm.size);
-        return true;
+        return munmap(vm.data, vm.size) == 0;
     }
 
     zpl_virtual_memory zpl_vm_trim(zpl_virtual_memory vm, zpl_isize lead_size, zpl_isize size) {
@@ -95,13 +98,13 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
         trail_size = vm.size - lead_size - size;
 
         if (lead_size != 0) zpl_vm_free(zpl_vm(vm.data, lead_size));
-        if (trail_size != 0) zpl_vm_free(zpl_vm(ptr, trail_size));
+        if (trail_size != 0) zpl_vm_free(zpl_vm(zpl_pointer_add(ptr, size), trail_size));
         return zpl_vm(ptr, size);
     }
 
     zpl_b32 zpl_vm_purge(zpl_virtual_memory vm) {
         int err = madvise(vm.data, vm.size, MADV_DONTNEED);
-        return err != 0;
+        return err == 0;
     }
 
     zpl_isize zpl_virtual_memory_page_size(zpl_isize *alignment_out) {
-- 
2.43.0


From 384f6f7a3ec8bc291d4c9c959af9dd6ab0ab1881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 036/111] fix: shrinking an array must keep its elements when
 the allocation fails

---
 code/header/essentials/collections/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index f237874..adb3cdb 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -115,14 +115,14 @@ do {
 ZPL_IMPL_INLINE zpl_b8 zpl__array_set_capacity(void **array, zpl_isize capacity) {
     zpl_array_header *h = ZPL_ARRAY_HEADER(*array);
     if (capacity == h->capacity) return true;
-    if (capacity < h->count) h->count = capacity;
+    zpl_isize count = zpl_min(h->count, capacity);
     zpl_isize size = zpl_size_of(zpl_array_header) + h->elem_size * capacity;
     zpl_array_header *nh = cast(zpl_array_header *) zpl_alloc(h->allocator, size);
     if (!nh) return false;
-    zpl_memmove(nh, h, zpl_size_of(zpl_array_header) + h->elem_size * h->count);
+    zpl_memmove(nh, h, zpl_size_of(zpl_array_header) + h->elem_size * count);
     nh->allocator = h->allocator;
     nh->elem_size = h->elem_size;
-    nh->count = h->count;
+    nh->count = count;
     nh->capacity = capacity;
     zpl_free(h->allocator, h);
     *array = nh + 1;
-- 
2.43.0


From c2fa73429f09d88f8f99aa946396b96251aff077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 037/111] fix: inserting into an array must write the element
 where it made room for it

---
 code/header/essentials/collections/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index adb3cdb..91963ad 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -149,8 +149,7 @@ ZPL_IMPL_INLINE zpl_b8 zpl__array_append_helper(void **x) {
 #define zpl_array_append(x, item) (zpl__array_append_helper(cast(void **) & (x)) && (((x)[zpl_array_count(x)++] = (item)), true))
 
 ZPL_IMPL_INLINE zpl_b8 zpl__array_append_at_helper(void **x, zpl_isize ind) {
-    if (ind >= zpl_array_count(*x)) ind = zpl_array_count(*x) - 1;
-    if (ind < 0) ind = 0;
+    ind = zpl_clamp(ind, 0, zpl_array_count(*x));
     if (zpl_array_capacity(*x) < zpl_array_count(*x) + 1) {
         if (!zpl__array_grow(x, 0)) return false;
     }
@@ -159,7 +158,7 @@ ZPL_IMPL_INLINE zpl_b8 zpl__array_append_at_helper(void **x, zpl_isize ind) {
     return true;
 }
 
-#define zpl_array_append_at(x, item, ind) (zpl__array_append_at_helper(cast(void **) & (x), (ind)) && (((x)[ind] = (item)), zpl_array_count(x)++, true))
+#define zpl_array_append_at(x, item, ind) (zpl__array_append_at_helper(cast(void **) & (x), (ind)) && (((x)[zpl_clamp((ind), 0, zpl_array_count(x))] = (item)), zpl_array_count(x)++, true))
 
 ZPL_IMPL_INLINE zpl_b8 zpl__array_appendv(void **x, void *items, zpl_isize item_size, zpl_isize item_count) {
     ZPL_ASSERT(item_size == zpl_array_elem_size(*x));
@@ -175,6 +174,7 @@ ZPL_IMPL_INLINE zpl_b8 zpl__array_appendv(void **x, void *items, zpl_isize item_
 
 ZPL_IMPL_INLINE zpl_b8 zpl__array_appendv_at(void **x, void *items, zpl_isize item_size, zpl_isize item_count, zpl_isize ind) {
     if (ind >= zpl_array_count(*x)) return zpl__array_appendv(x, items, item_size, item_count);
+    if (ind < 0) ind = 0;
     ZPL_ASSERT(item_size == zpl_array_elem_size(*x));
     if (zpl_array_capacity(*x) < zpl_array_count(*x) + item_count) {
         if (!zpl__array_grow(x, zpl_array_count(*x) + item_count)) return false;
-- 
2.43.0


From b79594900ad0f03fb064e0266fcc141fe098fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 038/111] fix: buffers and rings that cannot be allocated must
 be null and safe to free

---
 code/header/essentials/collections/buffer.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/code/header/essentials/collections/buffer.h b/code/header/essentials/collections/buffer.h
index 9a0c6bd..bfa2b1a 100644
--- a/code/header/essentials/collections/buffer.h
+++ b/code/header/essentials/collections/buffer.h
@@ -40,13 +40,16 @@ do {
     void **nx = cast(void **) & (x);                                                                               \
     zpl_buffer_header *zpl__bh =                                                                                   \
     cast(zpl_buffer_header *) zpl_alloc((allocator), sizeof(zpl_buffer_header) + (cap)*zpl_size_of(*(x)));     \
-    zpl__bh->backing = allocator;                                                                                  \
-    zpl__bh->count = 0;                                                                                            \
-    zpl__bh->capacity = cap;                                                                                       \
-    *nx = cast(void *)(zpl__bh + 1);                                                                               \
+    *nx = NULL;                                                                                                    \
+    if (zpl__bh) {                                                                                                 \
+        zpl__bh->backing = allocator;                                                                              \
+        zpl__bh->count = 0;                                                                                        \
+        zpl__bh->capacity = cap;                                                                                   \
+        *nx = cast(void *)(zpl__bh + 1);                                                                           \
+    }                                                                                                              \
 } while (0)
 
-#define zpl_buffer_free(x) (zpl_free(ZPL_BUFFER_HEADER(x)->backing, ZPL_BUFFER_HEADER(x)))
+#define zpl_buffer_free(x) ((x) ? zpl_free(ZPL_BUFFER_HEADER(x)->backing, ZPL_BUFFER_HEADER(x)) : (void)0)
 
 #define zpl_buffer_append(x, item)                                                                                     \
 do { (x)[zpl_buffer_count(x)++] = (item); } while (0)
@@ -62,8 +65,10 @@ do {
 #define zpl_buffer_copy_init(y, x)                                                                                     \
 do {                                                                                                               \
     zpl_buffer_init(y, zpl_buffer_allocator(x), zpl_buffer_capacity(x));                                   \
-    zpl_memcopy(y, x, zpl_buffer_capacity(x) * zpl_size_of(*x));                                                   \
-    zpl_buffer_count(y) = zpl_buffer_count(x);                                                                     \
+    if (y) {                                                                                                       \
+        zpl_memcopy(y, x, zpl_buffer_capacity(x) * zpl_size_of(*x));                                               \
+        zpl_buffer_count(y) = zpl_buffer_count(x);                                                                 \
+    }                                                                                                              \
 } while (0)
 
 #define zpl_buffer_pop(x)                                                                                              \
-- 
2.43.0


From acf469dba5bacc6c12af28da4d6bf933e9f826de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 039/111] fix: taking an array out of a ring must honour the
 limit and lose nothing when an allocation fails

---
 code/header/essentials/collections/ring.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/header/essentials/collections/ring.h b/code/header/essentials/collections/ring.h
index d4ac319..4ae60f3 100644
--- a/code/header/essentials/collections/ring.h
+++ b/code/header/essentials/collections/ring.h
@@ -90,9 +90,10 @@ return data;
 zpl_array(type)                                                                                                    \
 ZPL_JOIN2(func, get_array)(ZPL_JOIN2(func, type) * pad, zpl_usize max_size, zpl_allocator a) {    \
 zpl_array(type) vals = 0;                                                                                          \
-zpl_array_init(vals, a);                                                                                       \
-while (--max_size && !ZPL_JOIN2(func, empty)(pad)) {                                               \
-zpl_array_append(vals, *ZPL_JOIN2(func, get)(pad));                                            \
+if (!zpl_array_init(vals, a)) { return NULL; }                                                                 \
+while (max_size-- && !ZPL_JOIN2(func, empty)(pad)) {                                               \
+if (!zpl_array_append(vals, pad->buf[pad->tail])) { break; }                                                   \
+ZPL_JOIN2(func, get)(pad);                                                                         \
 }                                                                                                              \
 return vals;                                                                                                   \
 }
-- 
2.43.0


From dd35f675a5014ebc985d97e2701bfc4a8bbcc717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 040/111] fix: adding and removing list nodes must update the
 links of both neighbours

---
 code/header/essentials/collections/list.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/list.h b/code/header/essentials/collections/list.h
index 65847a0..f2e0e09 100644
--- a/code/header/essentials/collections/list.h
+++ b/code/header/essentials/collections/list.h
@@ -65,7 +65,10 @@ ZPL_IMPL_INLINE void zpl_list_init(zpl_list *list, void const *ptr) {
 ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
     item->next = NULL;
 
-    if (list->next) { item->next = list->next; }
+    if (list->next) {
+        item->next = list->next;
+        list->next->prev = item;
+    }
 
     list->next = item;
     item->prev = list;
@@ -74,6 +77,7 @@ ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
 
 ZPL_IMPL_INLINE zpl_list *zpl_list_remove(zpl_list *list) {
     if (list->prev) { list->prev->next = list->next; }
+    if (list->next) { list->next->prev = list->prev; }
 
     return list->next;
 }
-- 
2.43.0


From 9ce192efe8397ba583d0cc7114d393490752f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 041/111] fix: hash tables must keep their pairs and not write
 out of bounds when an allocation fails

---
 .../header/essentials/collections/hashtable.h | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/code/header/essentials/collections/hashtable.h b/code/header/essentials/collections/hashtable.h
index fc24cdf..9ae9d3d 100644
--- a/code/header/essentials/collections/hashtable.h
+++ b/code/header/essentials/collections/hashtable.h
@@ -82,8 +82,13 @@ typedef struct zpl_hash_table_find_result {
 
 #define ZPL_TABLE_DEFINE(NAME, FUNC, VALUE)                                                                         \
     void ZPL_JOIN2(FUNC, init)(NAME * h, zpl_allocator a) {                                                         \
-        zpl_array_init(h->hashes, a);                                                                               \
-        zpl_array_init(h->entries, a);                                                                              \
+        h->hashes = NULL;                                                                                           \
+        h->entries = NULL;                                                                                          \
+        if (!zpl_array_init(h->hashes, a)) return;                                                                  \
+        if (!zpl_array_init(h->entries, a)) {                                                                       \
+            zpl_array_free(h->hashes);                                                                              \
+            h->hashes = NULL;                                                                                       \
+        }                                                                                                           \
     }                                                                                                               \
                                                                                                                     \
     void ZPL_JOIN2(FUNC, destroy)(NAME * h) {                                                                       \
@@ -111,7 +116,7 @@ typedef struct zpl_hash_table_find_result {
         e.key = key;                                                                                                \
         e.next = -1;                                                                                                \
         index = zpl_array_count(h->entries);                                                                        \
-        zpl_array_append(h->entries, e);                                                                            \
+        if (!zpl_array_append(h->entries, e)) return -1;                                                            \
         return index;                                                                                               \
     }                                                                                                               \
                                                                                                                     \
@@ -142,16 +147,28 @@ typedef struct zpl_hash_table_find_result {
         zpl_isize i, j;                                                                                             \
         NAME nh = { 0 };                                                                                            \
         ZPL_JOIN2(FUNC, init)(&nh, zpl_array_allocator(h->hashes));                                                 \
-        zpl_array_resize(nh.hashes, new_count);                                                                     \
-        zpl_array_reserve(nh.entries, zpl_array_count(h->entries));                                                 \
+        if (!nh.hashes) return;                                                                                     \
+        if (!zpl_array_resize(nh.hashes, new_count) ||                                                              \
+            !zpl_array_reserve(nh.entries, zpl_array_count(h->entries))) {                                          \
+            ZPL_JOIN2(FUNC, destroy)(&nh);                                                                          \
+            return;                                                                                                 \
+        }                                                                                                           \
         for (i = 0; i < new_count; i++) nh.hashes[i] = -1;                                                          \
         for (i = 0; i < zpl_array_count(h->entries); i++) {                                                         \
             ZPL_JOIN2(NAME, Entry) * e;                                                                             \
             zpl_hash_table_find_result fr;                                                                          \
             if (zpl_array_count(nh.hashes) == 0) ZPL_JOIN2(FUNC, grow)(&nh);                                        \
+            if (zpl_array_count(nh.hashes) == 0) {                                                                  \
+                ZPL_JOIN2(FUNC, destroy)(&nh);                                                                      \
+                return;                                                                                             \
+            }                                                                                                       \
             e = &h->entries[i];                                                                                     \
             fr = ZPL_JOIN2(FUNC, _find)(&nh, e->key);                                                               \
             j = ZPL_JOIN2(FUNC, _add_entry)(&nh, e->key);                                                           \
+            if (j < 0) {                                                                                            \
+                ZPL_JOIN2(FUNC, destroy)(&nh);                                                                      \
+                return;                                                                                             \
+            }                                                                                                       \
             if (fr.entry_prev < 0)                                                                                  \
                 nh.hashes[fr.hash_index] = j;                                                                       \
             else                                                                                                    \
@@ -218,11 +235,13 @@ typedef struct zpl_hash_table_find_result {
         zpl_isize index;                                                                                            \
         zpl_hash_table_find_result fr;                                                                              \
         if (zpl_array_count(h->hashes) == 0) ZPL_JOIN2(FUNC, grow)(h);                                              \
+        if (zpl_array_count(h->hashes) == 0) return;                                                                \
         fr = ZPL_JOIN2(FUNC, _find)(h, key);                                                                        \
         if (fr.entry_index >= 0) {                                                                                  \
             index = fr.entry_index;                                                                                 \
         } else {                                                                                                    \
             index = ZPL_JOIN2(FUNC, _add_entry)(h, key);                                                            \
+            if (index < 0) return;                                                                                  \
             if (fr.entry_prev >= 0) {                                                                               \
                 h->entries[fr.entry_prev].next = index;                                                             \
             } else {                                                                                                \
-- 
2.43.0


From 8a77272f89f6bafdfd75f843344a6e77fed4f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 042/111] fix: formatting into a bounded buffer must not write
 past its end

---
 code/source/core/print.c | 83 ++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 38 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index b01e199..a40b120 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -122,14 +122,16 @@ typedef struct {
     zpl_i32 precision;
 } zpl__format_info;
 
+// NOTE: the zpl__print_* helpers return the length they need and write at most max_len - 1 characters of it
 zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__format_info *info, char const *str) {
-    zpl_isize res = 0, len = 0;
-    zpl_isize remaining = max_len;
-    char *begin = text;
-
-    if (str == NULL && max_len >= 6) {
-        res += zpl_strlcpy(text, "(null)", 6);
-        return res;
+    zpl_isize len = 0, padding = 0, res = 0, i;
+    zpl_isize room = zpl_max(max_len - 1, 0);
+    zpl_b32 left = info && (info->flags & ZPL_FMT_MINUS);
+    char pad = ' ';
+
+    if (str == NULL) {
+        zpl_strlcpy(text, "(null)", zpl_min(room, 6));
+        return 6;
     }
 
     if (info && info->precision >= 0)
@@ -141,34 +143,27 @@ zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__for
         return res;
     }
 
-    if (info && (info->width == 0 || info->flags & ZPL_FMT_MINUS)) {
-        if (info->precision > 0) len = info->precision < len ? info->precision : len;
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
-        text += res;
-
-        if (info->width > res) {
-            zpl_isize padding = info->width - len;
-
-            char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
-        }
-    } else {
-        if (info && (info->width > res)) {
-            zpl_isize padding = info->width - len;
-            char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
-        }
+    if (info) {
+        if (info->width > len) padding = info->width - len;
+        if (info->flags & ZPL_FMT_ZERO) pad = '0';
+    }
 
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
+    if (left) {
+        zpl_strlcpy(text, str, zpl_min(room, len));
+        res = len;
+    }
+    for (i = 0; i < padding && res + i < room; i++) text[res + i] = pad;
+    res += padding;
+    if (!left) {
+        if (res < room) zpl_strlcpy(text + res, str, zpl_min(room - res, len));
+        res += len;
     }
 
-    if (info) {
+    for (i = 0; info && i < res && i < room; i++) {
         if (info->flags & ZPL_FMT_UPPER)
-            zpl_str_to_upper(begin);
+            text[i] = zpl_char_to_upper(text[i]);
         else if (info->flags & ZPL_FMT_LOWER)
-            zpl_str_to_lower(begin);
+            text[i] = zpl_char_to_lower(text[i]);
     }
 
     return res;
@@ -184,7 +179,7 @@ zpl_internal zpl_isize zpl__print_repeated_char(char *text, zpl_isize max_len, z
     zpl_isize res = 0;
     zpl_i32 rem = (info) ? (info->width > 0) ? info->width : 1 : 1;
     res = rem;
-    while (rem-- > 0) *text++ = arg;
+    while (rem-- > 0 && max_len-- > 1) *text++ = arg;
 
     return res;
 }
@@ -257,7 +252,7 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
     width = info->width - (text - text_begin);
     if (width > 0) {
         char fill = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-        char *end = text + remaining - 1;
+        char *end = text_begin + max_len - 1;
         len = (text - text_begin);
 
         for (len = (text - text_begin); len--;) {
@@ -282,13 +277,22 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
 ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char const *fmt, va_list va) {
     char const *text_begin = text;
     zpl_isize remaining = max_len, res;
+    zpl_b32 truncated = false;
+
+    if (max_len <= 0) return -1;
 
     while (*fmt) {
         zpl__format_info info = { 0 };
         zpl_isize len = 0;
         info.precision = -1;
 
-        while (*fmt && *fmt != '%' && remaining) *text++ = *fmt++;
+        while (*fmt && *fmt != '%') {
+            if (remaining > 1)
+                *text++ = *fmt, remaining--;
+            else
+                truncated = true;
+            fmt++;
+        }
 
         if (*fmt == '%') {
             do {
@@ -441,16 +445,19 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             }
         }
 
-        text += len;
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
+        if (len >= remaining) {
+            text += remaining - 1;
+            remaining = 1;
+            truncated = true;
+        } else {
+            text += len;
             remaining -= len;
+        }
     }
 
     *text++ = '\0';
     res = (text - text_begin);
-    return (res >= max_len || res < 0) ? -1 : res;
+    return (truncated || res >= max_len || res < 0) ? -1 : res;
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From 99141aec7379e79f3498080c82861d6ce9ef4d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 043/111] fix: printing text that does not fit the print buffer
 must report failure and write nothing

---
 code/source/core/print.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index a40b120..a349c99 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -14,6 +14,7 @@ zpl_isize zpl_printf_err_va(char const *fmt, va_list va) {
 zpl_isize zpl_fprintf_va(struct zpl_file *f, char const *fmt, va_list va) {
     zpl_local_persist zpl_thread_local char buf[ZPL_PRINTF_MAXLEN];
     zpl_isize len = zpl_snprintf_va(buf, zpl_size_of(buf), fmt, va);
+    if (len < 0) return -1;
     zpl_b32 res = zpl_file_write(f, buf, len - 1); // NOTE: prevent extra whitespace
     return res ? len : -1;
 }
-- 
2.43.0


From ed9acd62c53837a7fc81e34a7c234f9d4cb3ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 044/111] fix: formatting into a new string must report a
 failed allocation

---
 code/source/core/print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index a349c99..d928398 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -31,7 +31,7 @@ zpl_isize zpl_asprintf_va(zpl_allocator allocator, char **buffer, char const *fm
     zpl_isize res;
     res = zpl_snprintf_va(tmp, zpl_size_of(tmp), fmt, va);
     *buffer = zpl_alloc_str(allocator, tmp);
-    return res;
+    return *buffer ? res : -1;
 }
 
 zpl_isize zpl_printf(char const *fmt, ...) {
-- 
2.43.0


From 30ade0f122004b80fc7680666368960ec5f483ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 045/111] fix: joining strings must return null and leak
 nothing when an allocation fails

---
 code/source/core/stringlib.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 6db304b..68a96c7 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -83,17 +83,21 @@ ZPL_ALWAYS_INLINE zpl_string zpl_string_appendc(zpl_string str, const char *othe
 }
 
 ZPL_ALWAYS_INLINE zpl_string zpl_string_join(zpl_allocator a, const char **parts, zpl_isize count, const char *glue) {
-    zpl_string ret;
+    zpl_string ret, next;
     zpl_isize i;
 
     ret = zpl_string_make(a, NULL);
 
-    for (i=0; i<count; ++i) {
-        ret = zpl_string_appendc(ret, parts[i]);
+    for (i=0; ret && i<count; ++i) {
+        next = zpl_string_appendc(ret, parts[i]);
 
-        if ((i+1) < count) {
-            ret = zpl_string_appendc(ret, glue);
+        if (next && (i+1) < count) {
+            ret = next;
+            next = zpl_string_appendc(ret, glue);
         }
+
+        if (!next) zpl_string_free(ret);
+        ret = next;
     }
 
     return ret;
-- 
2.43.0


From 9ed3788c133f1b1eddd3fb529ce5142d7bafc1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 046/111] fix: nodes of an ADT tree that change their address
 must keep their children linked to them

---
 code/source/adt.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/code/source/adt.c b/code/source/adt.c
index e8df32b..ad4ab94 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -216,6 +216,19 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     return found_node;
 }
 
+/* nodes[first..] have changed their address: tell their children where their parent is now */
+zpl_internal void zpl__adt_relink(zpl_adt_node *nodes, zpl_isize first, zpl_isize count) {
+    for (zpl_isize i = first; i < count; i++) {
+        zpl_adt_node *node = nodes + i;
+        if ((node->type != ZPL_ADT_TYPE_OBJECT && node->type != ZPL_ADT_TYPE_ARRAY) || !node->nodes)
+            continue;
+
+        for (zpl_isize j = 0; j < zpl_array_count(node->nodes); j++) {
+            node->nodes[j].parent = node;
+        }
+    }
+}
+
 zpl_adt_node *zpl_adt_alloc_at(zpl_adt_node *parent, zpl_isize index) {
     if (!parent || (parent->type != ZPL_ADT_TYPE_OBJECT && parent->type != ZPL_ADT_TYPE_ARRAY)) {
         return NULL;
@@ -229,9 +242,11 @@ zpl_adt_node *zpl_adt_alloc_at(zpl_adt_node *parent, zpl_isize index) {
 
     zpl_adt_node o = {0};
     o.parent = parent;
+    zpl_adt_node *old_nodes = parent->nodes;
     if (!zpl_array_append_at(parent->nodes, o, index))
         return NULL;
 
+    zpl__adt_relink(parent->nodes, parent->nodes == old_nodes ? index + 1 : 0, zpl_array_count(parent->nodes));
     return parent->nodes + index;
 }
 
@@ -301,6 +316,8 @@ void zpl_adt_swap_nodes(zpl_adt_node *node, zpl_adt_node *other_node) {
     other_parent->nodes[index2].parent = parent;
     parent->nodes[index] = other_parent->nodes[index2];
     other_parent->nodes[index2] = temp;
+    zpl__adt_relink(parent->nodes, index, index + 1);
+    zpl__adt_relink(other_parent->nodes, index2, index2 + 1);
 }
 
 void zpl_adt_remove_node(zpl_adt_node *node) {
@@ -309,6 +326,7 @@ void zpl_adt_remove_node(zpl_adt_node *node) {
     zpl_adt_node *parent = node->parent;
     zpl_isize index = (zpl_pointer_diff(parent->nodes, node) / zpl_size_of(zpl_adt_node));
     zpl_array_remove_at(parent->nodes, index);
+    zpl__adt_relink(parent->nodes, index, zpl_array_count(parent->nodes));
 }
 
 
-- 
2.43.0


From 2d8c599bceb939b785446532c34a12dc150c4f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 047/111] fix: moving an ADT node within its parent must keep
 the other nodes, and moving must report a failed allocation

---
 code/source/adt.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index ad4ab94..8bcf181 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -287,11 +287,25 @@ zpl_b8 zpl_adt_set_int(zpl_adt_node *obj, char const *name, zpl_i64 value) {
 zpl_adt_node *zpl_adt_move_node_at(zpl_adt_node *node, zpl_adt_node *new_parent, zpl_isize index) {
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(new_parent);
-    zpl_adt_node *old_parent = node->parent;
+    zpl_adt_node moved = *node;
+    zpl_b32 has_parent = moved.parent != NULL;
+    zpl_b32 same_parent = moved.parent == new_parent;
+    zpl_isize old_index = same_parent ? (zpl_pointer_diff(new_parent->nodes, node) / zpl_size_of(zpl_adt_node)) : 0;
+
     zpl_adt_node *new_node = zpl_adt_alloc_at(new_parent, index);
-    *new_node = *node;
+    if (!new_node)
+        return NULL;
+
+    *new_node = moved;
     new_node->parent = new_parent;
-    if (old_parent) {
+    zpl__adt_relink(new_node, 0, 1);
+
+    if (same_parent) {
+        /* the new slot may have moved or shifted the node we are about to remove */
+        if (index <= old_index) old_index++;
+        zpl_adt_remove_node(new_parent->nodes + old_index);
+        if (index > old_index) new_node--;
+    } else if (has_parent) {
         zpl_adt_remove_node(node);
     }
     return new_node;
-- 
2.43.0


From 484a21f5445374a1bfad379a8997219355730313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 048/111] fix: looking up a name in an ADT object must skip
 nodes that have no name

---
 code/source/adt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 8bcf181..f694818 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -48,7 +48,7 @@ zpl_adt_node *zpl_adt_find(zpl_adt_node *node, char const *name, zpl_b32 deep_se
     }
 
     for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
-        if (!zpl_strcmp(node->nodes[i].name, name)) {
+        if (node->nodes[i].name && !zpl_strcmp(node->nodes[i].name, name)) {
             return (node->nodes + i);
         }
     }
@@ -100,7 +100,7 @@ zpl_internal zpl_adt_node *zpl__adt_get_value(zpl_adt_node *node, char const *va
 
 zpl_internal zpl_adt_node *zpl__adt_get_field(zpl_adt_node *node, char *name, char *value) {
     for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
-        if (!zpl_strcmp(node->nodes[i].name, name)) {
+        if (node->nodes[i].name && !zpl_strcmp(node->nodes[i].name, name)) {
             zpl_adt_node *child = &node->nodes[i];
             if (zpl__adt_get_value(child, value)) {
                 return node; /* this object does contain a field of a specified value! */
-- 
2.43.0


From 97fccd6eaaf1fc09e7c8e9ca45dd2bbb1808cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 049/111] fix: looking up a number in an ADT tree must survive
 a failed allocation

---
 code/source/adt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index f694818..1749f30 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -79,7 +79,9 @@ zpl_internal zpl_adt_node *zpl__adt_get_value(zpl_adt_node *node, char const *va
             zpl_file tmp;
 
             /* allocate a file descriptor for a memory-mapped number to string conversion, input source buffer is not cloned, however. */
-            zpl_file_stream_open(&tmp, zpl_heap(), (zpl_u8*)back, zpl_size_of(back), ZPL_FILE_STREAM_WRITABLE);
+            if (!zpl_file_stream_open(&tmp, zpl_heap(), (zpl_u8*)back, zpl_size_of(back), ZPL_FILE_STREAM_WRITABLE))
+                return NULL;
+
             zpl_adt_print_number(&tmp, node);
 
             zpl_isize fsize=0;
-- 
2.43.0


From 219156fc0c8c0e7359185361043c9695f5d578ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 050/111] fix: a JSON comment must not swallow the text after
 it nor end the parser when it ends the document

---
 code/source/parsers/json.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 5b6e675..ed795a1 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -352,17 +352,18 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
 char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
     ZPL_ASSERT_NOT_NULL(base);
     char *p = base;
-    do {
+    while (*p) {
         if (zpl_str_has_prefix(p, "//")) {
             const char *e = zpl_str_skip(p, '\n');
             p += (e-p);
+            if (*p) ++p;
         }
         else if (zpl_str_has_prefix(p, "/*")) {
             const char *e = zpl_str_skip(p+2, '*');
-            if (*e && *(e+1) == '/') {
-                e+=2; /* advance past end comment block */
-                p += (e-p);
-            }
+            while (*e && *(e+1) != '/') e = zpl_str_skip(e+1, '*');
+            if (!*e) return p; /* this comment block is never closed */
+            e+=2; /* advance past end comment block */
+            p += (e-p);
         }
         else if (*p == '\n' && catch_newline) {
             return p;
@@ -370,8 +371,9 @@ char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
         else if (!zpl_char_is_space(*p)) {
             return p;
         }
-    } while (*p++);
-    return NULL;
+        else ++p;
+    }
+    return p;
 }
 
 zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
-- 
2.43.0


From 2ae554a0266c694ad7b6b3a6e06477226591545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 051/111] fix: a JSON document that starts with an empty line
 must keep its brackets

---
 code/source/parsers/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index ed795a1..f3b8705 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -34,7 +34,7 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     ZPL_ASSERT(root);
     ZPL_ASSERT(text);
     zpl_zero_item(root);
-    text = zpl__json_trim(text, true);
+    text = zpl__json_trim(text, false);
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
     if (!zpl_strchr("{[", *text)) {
-- 
2.43.0


From d8a08c0cf339a807f9f0f328efcc48be6e7abe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 052/111] fix: a JSON document that ends early must be rejected
 without reading past its end, and left as it was

---
 code/source/parsers/json.c | 122 +++++++++++++++++++++++++++----------
 1 file changed, 91 insertions(+), 31 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index f3b8705..2ca69e4 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -20,6 +20,7 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
 char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code);
 char *zpl__json_parse_name(zpl_adt_node *obj, char *base, zpl_u8 *err_code);
 char *zpl__json_trim(char *base, zpl_b32 catch_newline);
+void zpl__json_terminate(zpl_adt_node *node);
 zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_isize indent, zpl_b32 is_inline, zpl_b32 is_last);
 
 #define zpl__json_fprintf(s_, fmt_, ...)                                                                               \
@@ -43,6 +44,13 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
 #endif
 
     zpl__json_parse_object(root, text, a, &err_code);
+
+    if (err_code != ZPL_JSON_ERROR_NONE) {
+        zpl_adt_destroy_branch(root);
+        zpl_zero_item(root);
+    } else {
+        zpl__json_terminate(root);
+    }
     return err_code;
 }
 
@@ -87,13 +95,13 @@ static ZPL_ALWAYS_INLINE const char *zpl__json_string_eol(zpl_adt_node *o, zpl_i
 #endif
     return !force_new_line && indent == ZPL_JSON_INDENT_STYLE_COMPACT ? "" : "\n";
 }
-ZPL_DEF_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err);
+ZPL_DEF_INLINE zpl_b32 zpl__json_validate_name(char const *str, char const *end, char *err);
 
-#define jx(x) !zpl_char_is_hex_digit(str[x])
-ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err) {
-    while (*str) {
+#define jx(x) (str + (x) >= end || !zpl_char_is_hex_digit(str[x]))
+ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char const *end, char *err) {
+    while (str < end) {
         /* todo: refactor name validation. */
-        if ((str[0] == '\\' && !zpl_char_is_control(str[1])) &&
+        if ((str[0] == '\\' && str + 1 < end && !zpl_char_is_control(str[1])) &&
             (str[0] == '\\' && jx(1) && jx(2) && jx(3) && jx(4))) {
             if (err) *err = *str;
             return false;
@@ -123,6 +131,12 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
             return p;
         }
 
+        if (*p == '\0' || *p == '}') {
+            ZPL_JSON_ASSERT("end of array unfulfilled");
+            *err_code = ZPL_JSON_ERROR_ARRAY_LEFT_OPEN;
+            return NULL;
+        }
+
         zpl_adt_node elem = { 0 };
         p = zpl__json_parse_value(&elem, p, a, err_code);
 
@@ -151,16 +165,21 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
 
 char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
     ZPL_ASSERT(obj && base);
-    char *p = base, *b = p, *e = p;
+    char *p = base;
 
     /* handle quoted strings */
-    if (!!zpl_strchr("`\"'", *p)) {
+    if (*p && !!zpl_strchr("`\"'", *p)) {
         char c = *p;
+        char *e = cast(char *)zpl_str_skip_literal(p + 1, c);
+        if (!*e) {
+            ZPL_JSON_ASSERT("string left open");
+            *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+            return NULL;
+        }
+        /* the string keeps its quotes until we know that the document is valid, see zpl__json_terminate */
         obj->type = (c == '`') ? ZPL_ADT_TYPE_MULTISTRING : ZPL_ADT_TYPE_STRING;
-        b = e = p + 1;
-        obj->string = b;
-        e = cast(char *)zpl_str_skip_literal(e, c);
-        *e = '\0', p = e + 1;
+        obj->string = p;
+        p = e + 1;
     } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)))) {
         /* handle constants */
         if (zpl_str_has_prefix(p, "true")) {
@@ -207,21 +226,29 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         /* handle numbers */
         /* defer operation to our helper method. */
         p = zpl_adt_parse_number(obj, p);
-    } else if (!!zpl_strchr("[{", *p)) {
+    } else if (*p && !!zpl_strchr("[{", *p)) {
         /* handle compound objects */
         p = zpl__json_parse_object(obj, p, a, err_code);
+        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         ++p;
     }
 
+    if (obj->type == ZPL_ADT_TYPE_UNINITIALISED) {
+        ZPL_JSON_ASSERT("missing value");
+        *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+        return NULL;
+    }
+
     return p;
 }
 
 char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
     ZPL_ASSERT(obj && base);
     char *p = base;
+    zpl_b32 has_braces = false;
 
     p = zpl__json_trim(p, false);
-    /**/ if (*p == '{') { ++p; }
+    /**/ if (*p == '{') { ++p; has_braces = true; }
     else if (*p == '[') { /* special case for when we call this func on an array. */
         ++p;
         obj->type = ZPL_ADT_TYPE_ARRAY;
@@ -258,7 +285,7 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         p = zpl__json_trim(p, true);
 
         /* this code analyses the keyvalue pair delimiter used in the packet. */
-        if (zpl__json_is_delim_char(*p)) {
+        if (*p && zpl__json_is_delim_char(*p)) {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             zpl_adt_node *n = zpl_array_end(obj->nodes);
             n->delim_style = ZPL_ADT_DELIM_STYLE_COMMA;
@@ -270,19 +297,22 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
                 n->delim_line_width = cast(zpl_u8)(p-end_p);
             }
 #endif
-            if (*p == 0) {
-                return p;
-            }
             ++p;
         }
         p = zpl__json_trim(p, false);
     } while (*p);
+
+    if (has_braces) {
+        ZPL_JSON_ASSERT("object left open");
+        *err_code = ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED;
+        return NULL;
+    }
     return p;
 }
 
 char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
-    char *p = base, *b = p, *e = p;
-    zpl_u8 name_style=0;
+    char *p = base, *b = p, *e = p, *name_end = p;
+    zpl_u8 name_style=0; zpl_unused(name_style);
 
     if (*p == '"' || *p == '\'' || zpl_char_is_alpha(*p) || *p == '_' || *p == '$') {
         if (*p == '"' || *p == '\'') {
@@ -294,19 +324,23 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
             }
 #endif
             char c = *p;
-            b = ++p;
+            b = p + 1;
             e = cast(char *)zpl_str_control_skip(b, c);
-            node->name = b;
-
-            /* we can safely null-terminate here, since "e" points to the quote pair end. */
-            *e++ = '\0';
+            if (!*e) {
+                ZPL_JSON_ASSERT("name left open");
+                *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+                return NULL;
+            }
+            /* the name keeps its quotes until we know that the document is valid, see zpl__json_terminate */
+            node->name = p;
+            name_end = e++;
         }
         else {
             b = e = p;
             zpl_str_advance_while(e, *e && (zpl_char_is_alphanumeric(*e) || *e == '_') && !zpl_char_is_space(*e) && !zpl__json_is_assign_char(*e));
             node->name = b;
+            name_end = e;
             name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
-            /* we defer null-termination as it can potentially wipe our assign char as well. */
         }
 
         char *assign_p = e; zpl_unused(assign_p);
@@ -315,7 +349,7 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
         node->assign_line_width = cast(zpl_u8)(p-assign_p);
 #endif
 
-        if (*p && !zpl__json_is_assign_char(*p)) {
+        if (!*p || !zpl__json_is_assign_char(*p)) {
             ZPL_JSON_ASSERT("invalid assignment");
             *err_code = ZPL_JSON_ERROR_INVALID_ASSIGNMENT;
             return NULL;
@@ -331,16 +365,14 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
 #endif
         }
 
-        /* since we already know the assign style, we can cut it here for unquoted names */
-        if (name_style == ZPL_ADT_NAME_STYLE_NO_QUOTES && *e) {
-            *e = '\0';
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
+        if (name_style == ZPL_ADT_NAME_STYLE_NO_QUOTES) {
             node->name_style = name_style;
-#endif
         }
+#endif
     }
 
-    if (node->name && !zpl__json_validate_name(node->name, NULL)) {
+    if (node->name && !zpl__json_validate_name(b, name_end, NULL)) {
         ZPL_JSON_ASSERT("invalid name");
         *err_code = ZPL_JSON_ERROR_INVALID_NAME;
         return NULL;
@@ -349,6 +381,34 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
     return p;
 }
 
+/* null-terminates the names and strings of a valid document in place */
+void zpl__json_terminate(zpl_adt_node *node) {
+    if (node->name) {
+        char *b = cast(char *)node->name, *e = b, c = *b;
+        if (c == '"' || c == '\'') {
+            ++b;
+            e = cast(char *)zpl_str_control_skip(b, c);
+        }
+        else {
+            zpl_str_advance_while(e, *e && (zpl_char_is_alphanumeric(*e) || *e == '_') && !zpl_char_is_space(*e) && !zpl__json_is_assign_char(*e));
+        }
+        node->name = b;
+        *e = '\0';
+    }
+
+    if (node->type == ZPL_ADT_TYPE_STRING || node->type == ZPL_ADT_TYPE_MULTISTRING) {
+        char *b = cast(char *)node->string, c = *b;
+        ++b;
+        node->string = b;
+        *cast(char *)zpl_str_skip_literal(b, c) = '\0';
+    }
+    else if (node->type == ZPL_ADT_TYPE_OBJECT || node->type == ZPL_ADT_TYPE_ARRAY) {
+        for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
+            zpl__json_terminate(node->nodes + i);
+        }
+    }
+}
+
 char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
     ZPL_ASSERT_NOT_NULL(base);
     char *p = base;
-- 
2.43.0


From 4c1051e24d9d3b852506229ea1d1eed6019cdb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 053/111] fix: a JSON document that cannot be parsed must not
 leak the values inside of it

---
 code/source/parsers/json.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 2ca69e4..8ace773 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -77,6 +77,7 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
 do {\
 if (!zpl_array_append(x, item)) {\
     *err_code = ZPL_JSON_ERROR_OUT_OF_MEMORY;\
+    zpl_adt_destroy_branch(&item);\
     return NULL;\
 }\
 if (item.type == ZPL_ADT_TYPE_OBJECT || item.type == ZPL_ADT_TYPE_ARRAY) {\
@@ -140,7 +141,10 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         zpl_adt_node elem = { 0 };
         p = zpl__json_parse_value(&elem, p, a, err_code);
 
-        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (*err_code != ZPL_JSON_ERROR_NONE) {
+            zpl_adt_destroy_branch(&elem);
+            return NULL;
+        }
 
         zpl__json_append_node(obj->nodes, elem);
 
@@ -277,7 +281,10 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         p = zpl__json_trim(p + 1, false);
         p = zpl__json_parse_value(&node, p, a, err_code);
-        if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (err_code && *err_code != ZPL_JSON_ERROR_NONE) {
+            zpl_adt_destroy_branch(&node);
+            return NULL;
+        }
 
         zpl__json_append_node(obj->nodes, node);
 
-- 
2.43.0


From c5b9ae004d7e9eb15f431601e0e340faf3f57cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 054/111] fix: nodes of a parsed JSON document must know their
 parent

---
 code/source/parsers/json.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 8ace773..443b1f1 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -80,10 +80,6 @@ if (!zpl_array_append(x, item)) {\
     zpl_adt_destroy_branch(&item);\
     return NULL;\
 }\
-if (item.type == ZPL_ADT_TYPE_OBJECT || item.type == ZPL_ADT_TYPE_ARRAY) {\
-for (zpl_isize i = 0; i < zpl_array_count(item.nodes); i++)\
-item.nodes[i].parent = zpl_array_end(x);\
-}\
 } while (0);
 
 static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_assign_char(char c) { return !!zpl_strchr(":=|", c); }
@@ -388,7 +384,7 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
     return p;
 }
 
-/* null-terminates the names and strings of a valid document in place */
+/* null-terminates the names and strings of a valid document in place, and links its nodes to their parents */
 void zpl__json_terminate(zpl_adt_node *node) {
     if (node->name) {
         char *b = cast(char *)node->name, *e = b, c = *b;
@@ -411,6 +407,7 @@ void zpl__json_terminate(zpl_adt_node *node) {
     }
     else if (node->type == ZPL_ADT_TYPE_OBJECT || node->type == ZPL_ADT_TYPE_ARRAY) {
         for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
+            node->nodes[i].parent = node;
             zpl__json_terminate(node->nodes + i);
         }
     }
-- 
2.43.0


From c63bc8fccd3ce169cc5026581d8f710db5f9055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 055/111] fix: a JSON document that cannot be written to a
 string must not leak it

---
 code/source/parsers/json.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 443b1f1..9e7fbf0 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -62,8 +62,10 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
     zpl_file tmp;
     if (!zpl_file_stream_new(&tmp, a))
         return NULL;
-    if (!zpl_json_write(&tmp, obj, indent))
+    if (!zpl_json_write(&tmp, obj, indent)) {
+        zpl_file_close(&tmp);
         return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
-- 
2.43.0


From 07e5fff2cabe340f9706856ac0b735d591991d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 056/111] fix: a comma on the next line must separate JSON
 fields

---
 code/source/parsers/json.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 9e7fbf0..2e04460 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -302,7 +302,16 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
                 n->delim_line_width = cast(zpl_u8)(p-end_p);
             }
 #endif
-            ++p;
+            zpl_b32 was_newline = *p == '\n';
+            p = zpl__json_trim(p + 1, false);
+
+            /* the delimiter may follow on another line */
+            if (was_newline && *p == ',') {
+                ++p;
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
+                n->delim_style = ZPL_ADT_DELIM_STYLE_COMMA;
+#endif
+            }
         }
         p = zpl__json_trim(p, false);
     } while (*p);
-- 
2.43.0


From 12811c3086d88c0aaa2f532350982528ff1dcf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 057/111] fix: fractions between zero and minus one must be
 read and written with one sign

---
 code/source/adt.c          | 3 ++-
 code/source/parsers/json.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 1749f30..21bbb35 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -550,7 +550,8 @@ zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
     }
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-    if (node->neg_zero) {
+    /* unless the number is going to show its sign on its own */
+    if (node->neg_zero && (node->type != ZPL_ADT_TYPE_REAL || node->props != ZPL_ADT_PROPS_NONE || !(node->real < 0))) {
         zpl__adt_fprintf(file, "-");
     }
 #endif
diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 2e04460..ac5cd92 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -182,7 +182,7 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         obj->type = (c == '`') ? ZPL_ADT_TYPE_MULTISTRING : ZPL_ADT_TYPE_STRING;
         obj->string = p;
         p = e + 1;
-    } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)))) {
+    } else if (zpl_char_is_alpha(*p) || (*p == '-' && *(p + 1) != '.' && !zpl_char_is_digit(*(p + 1)))) {
         /* handle constants */
         if (zpl_str_has_prefix(p, "true")) {
             obj->type = ZPL_ADT_TYPE_REAL;
-- 
2.43.0


From 1149388845a091c3ea36dab10d745bb45ad69fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 058/111] fix: a quote inside of a JSON string must survive
 being written and read back

---
 code/source/parsers/json.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index ac5cd92..f818977 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -414,7 +414,14 @@ void zpl__json_terminate(zpl_adt_node *node) {
         char *b = cast(char *)node->string, c = *b;
         ++b;
         node->string = b;
-        *cast(char *)zpl_str_skip_literal(b, c) = '\0';
+
+        /* zpl_adt_print_string escapes the quotes, so undo that here */
+        char *e = cast(char *)zpl_str_skip_literal(b, c), *w = b;
+        for (char *r = b; r < e; ++r) {
+            if (r[0] == '\\' && r[1] == c && r + 1 < e) ++r;
+            *w++ = *r;
+        }
+        *w = '\0';
     }
     else if (node->type == ZPL_ADT_TYPE_OBJECT || node->type == ZPL_ADT_TYPE_ARRAY) {
         for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
-- 
2.43.0


From bd4e9820100b3909cfd18e53d48739db3a58a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 059/111] fix: long numbers must not overflow the buffers of
 the number parser

---
 code/source/adt.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 21bbb35..9503083 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -440,7 +440,8 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
         lead_digit = false;
         buf[ib++] = '0';
         do {
-            buf[ib++] = *e;
+            /* digits beyond the precision of the number are of no use to us */
+            if (ib < zpl_size_of(buf) - 2) buf[ib++] = *e;
         } while (zpl_char_is_digit(*++e));
     } else {
         if (!zpl_strncmp(e, "0x", 2) || !zpl_strncmp(e, "0X", 2)) { node_props = ZPL_ADT_PROPS_IS_HEX; }
@@ -450,7 +451,13 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
             return ++base_str;
         }
 
-        while (zpl_char_is_hex_digit(*e) || zpl_char_to_lower(*e) == 'x') { buf[ib++] = *e++; }
+        while (zpl_char_is_hex_digit(*e) || zpl_char_to_lower(*e) == 'x') {
+            /* bail if the number is too long for us */
+            if (ib >= zpl_size_of(buf) - 4) {
+                return ++base_str;
+            }
+            buf[ib++] = *e++;
+        }
 
         if (*e == '.') {
             node_type = ZPL_ADT_TYPE_REAL;
@@ -458,7 +465,7 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
             zpl_u32 step = 0;
 
             do {
-                buf[ib++] = *e;
+                if (ib < zpl_size_of(buf) - 2) buf[ib++] = *e;
                 ++step;
             } while (zpl_char_is_digit(*++e));
 
@@ -480,7 +487,10 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
         if (*e == '+' || *e == '-' || zpl_char_is_digit(*e)) {
             if (*e == '-') { eb = 0.1f; }
             if (!zpl_char_is_digit(*e)) { ++e; }
-            while (zpl_char_is_digit(*e)) { expbuf[expi++] = *e++; }
+            while (zpl_char_is_digit(*e)) {
+                if (expi < zpl_size_of(expbuf) - 1) expbuf[expi++] = *e;
+                ++e;
+            }
         }
 
         orig_exp = exp = (zpl_u8)zpl_str_to_i64(expbuf, NULL, 10);
-- 
2.43.0


From 94ac21866997dc5aa5c385376524ab4de0db974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 060/111] fix: negative and upper-case hexadecimal numbers must
 keep their value

---
 code/source/adt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 9503083..931eb3d 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -456,7 +456,8 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
             if (ib >= zpl_size_of(buf) - 4) {
                 return ++base_str;
             }
-            buf[ib++] = *e++;
+            buf[ib++] = (*e == 'X') ? 'x' : *e;
+            ++e;
         }
 
         if (*e == '.') {
@@ -497,7 +498,8 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     }
 
     if (node_type == ZPL_ADT_TYPE_INTEGER) {
-        node->integer = zpl_str_to_i64(buf, 0, 0);
+        node->integer = zpl_str_to_i64(buf[0] == '-' ? buf + 1 : buf, 0, 0);
+        if (buf[0] == '-') node->integer = -node->integer;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
         /* special case: negative zero */
         if (node->integer == 0 && buf[0] == '-') {
-- 
2.43.0


From 5468c9afc6974b822a3d5efe642bad7412620b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 061/111] fix: numbers must keep their exponent when they are
 read and written back

---
 code/header/adt.h |  8 ++++----
 code/source/adt.c | 38 ++++++++++++++++++++++++--------------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/code/header/adt.h b/code/header/adt.h
index 88b7210..b426118 100644
--- a/code/header/adt.h
+++ b/code/header/adt.h
@@ -82,10 +82,10 @@ typedef struct zpl_adt_node {
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             /* number analysis */
-            zpl_i32 base;
-            zpl_i32 base2;
-            zpl_u8 base2_offset:4;
-            zpl_i8 exp         :4;
+            zpl_i64 base;
+            zpl_i64 base2;
+            zpl_u8 base2_offset;
+            zpl_i16 exp;
             zpl_u8 neg_zero  :1;
             zpl_u8 lead_digit:1;
 #endif
diff --git a/code/source/adt.c b/code/source/adt.c
index 931eb3d..5fd7983 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -408,10 +408,11 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     ZPL_ASSERT_NOT_NULL(base_str);
     char *p = base_str, *e = p;
 
-    zpl_i32 base=0;
-    zpl_i32 base2=0;
+    zpl_i64 base=0;
+    zpl_i64 base2=0;
     zpl_u8 base2_offset=0;
-    zpl_i8 exp=0,orig_exp=0;
+    zpl_i32 exp=0,orig_exp=0;
+    zpl_isize digits=0;
     zpl_u8 neg_zero=0;
     zpl_u8 lead_digit=0;
     zpl_u8 node_type=0;
@@ -451,7 +452,7 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
             return ++base_str;
         }
 
-        while (zpl_char_is_hex_digit(*e) || zpl_char_to_lower(*e) == 'x') {
+        while ((node_props == ZPL_ADT_PROPS_IS_HEX && zpl_char_is_hex_digit(*e)) || zpl_char_is_digit(*e) || zpl_char_to_lower(*e) == 'x') {
             /* bail if the number is too long for us */
             if (ib >= zpl_size_of(buf) - 4) {
                 return ++base_str;
@@ -479,14 +480,15 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
         return ++base_str;
     }
 
-    zpl_f32 eb = 10;
-    char expbuf[6] = { 0 };
+    digits = ib;
+    zpl_b32 neg_exp = false;
+    char expbuf[5] = { 0 };
     zpl_isize expi = 0;
 
     if (*e && !!zpl_strchr("eE", *e)) {
         ++e;
         if (*e == '+' || *e == '-' || zpl_char_is_digit(*e)) {
-            if (*e == '-') { eb = 0.1f; }
+            if (*e == '-') { neg_exp = true; }
             if (!zpl_char_is_digit(*e)) { ++e; }
             while (zpl_char_is_digit(*e)) {
                 if (expi < zpl_size_of(expbuf) - 1) expbuf[expi++] = *e;
@@ -494,7 +496,15 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
             }
         }
 
-        orig_exp = exp = (zpl_u8)zpl_str_to_i64(expbuf, NULL, 10);
+        orig_exp = exp = (zpl_i32)zpl_str_to_i64(expbuf, NULL, 10);
+
+        /* an integer can't hold a fraction, nor more digits than this */
+        if (node_type == ZPL_ADT_TYPE_INTEGER && exp && (neg_exp || digits + exp > 18)) {
+            node_type = ZPL_ADT_TYPE_REAL;
+            lead_digit = true;
+            buf[ib++] = '.';
+            buf[ib++] = '0';
+        }
     }
 
     if (node_type == ZPL_ADT_TYPE_INTEGER) {
@@ -506,7 +516,7 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
             neg_zero = true;
         }
 #endif
-        while (orig_exp-- > 0) { node->integer *= (zpl_i64)eb; }
+        while (orig_exp-- > 0) { node->integer *= 10; }
     } else {
         node->real = zpl_str_to_f64(buf, 0);
 
@@ -518,10 +528,10 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
         char *base_string_off = base_string2;
         while (*base_string_off++ == '0') base2_offset++;
 
-        base = (zpl_i32)zpl_str_to_i64(q, 0, 0);
-        base2 = (zpl_i32)zpl_str_to_i64(base_string2, 0, 0);
+        base = zpl_str_to_i64(q, 0, 10);
+        base2 = zpl_str_to_i64(base_string2, 0, 10);
         if (exp) {
-            exp = exp * (!(eb == 10.0f) ? -1 : 1);
+            exp = exp * (neg_exp ? -1 : 1);
             node_props = ZPL_ADT_PROPS_IS_EXP;
         }
 
@@ -530,7 +540,7 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
             neg_zero = true;
         }
 #endif
-        while (orig_exp-- > 0) { node->real *= eb; }
+        while (orig_exp-- > 0) { node->real = neg_exp ? node->real / 10 : node->real * 10; }
     }
 
     node->type = node_type;
@@ -540,7 +550,7 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     node->base = base;
     node->base2 = base2;
     node->base2_offset = base2_offset;
-    node->exp = exp;
+    node->exp = (zpl_i16)exp;
     node->neg_zero = neg_zero;
     node->lead_digit = lead_digit;
 #else
-- 
2.43.0


From 46a35c90f167b7dcd979ca5c7258c9c7aac7dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:39 +0000
Subject: [PATCH 062/111] fix: a | on the next line must separate JSON fields

---
 code/source/parsers/json.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index f818977..0feafee 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -306,11 +306,11 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
             p = zpl__json_trim(p + 1, false);
 
             /* the delimiter may follow on another line */
-            if (was_newline && *p == ',') {
-                ++p;
+            if (was_newline && (*p == ',' || *p == '|')) {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-                n->delim_style = ZPL_ADT_DELIM_STYLE_COMMA;
+                n->delim_style = *p == ',' ? ZPL_ADT_DELIM_STYLE_COMMA : ZPL_ADT_DELIM_STYLE_LINE;
 #endif
+                ++p;
             }
         }
         p = zpl__json_trim(p, false);
-- 
2.43.0


From 3da970df2328b985298bb7d1ac95cdd13bbddc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 063/111] fix: an empty quoted CSV field must not unescape the
 text after it

---
 code/source/parsers/csv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 4a1a5b3..ee60d1c 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -55,12 +55,12 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             /* unescape escaped quotes (so that unescaped text escapes :) */
             {
                 char *ep = b;
-                do {
+                while (*ep) {
                     if (*ep == '"' && *(ep+1) == '"') {
                         zpl_memmove(ep, ep+1, zpl_strlen(ep));
                     }
                     ep++;
-                } while (*ep);
+                }
             }
         }
         else if (*p == delim) {
-- 
2.43.0


From 8fc19f1d3404aa6f91f7471f006ac989b14a0beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 064/111] fix: a CSV header made of numbers must be read as
 names

---
 code/source/parsers/csv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index ee60d1c..7cf2c07 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -18,6 +18,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
     zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true);
     char *p = text, *b = p, *e = p;
     zpl_isize colc = 0, total_colc = 0;
+    zpl_b32 is_first_row = true;
 
     do {
         char d = 0;
@@ -86,7 +87,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             }
 
             /* check if number and process if so */
-            zpl_b32 skip_number = false;
+            zpl_b32 skip_number = has_header && is_first_row; /* a header consists of names */
             char *num_p = b;
             do {
                 if (!zpl_char_is_hex_digit(*num_p) && (!zpl_strchr("+-.eExX", *num_p))) {
@@ -119,6 +120,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
                 return err;
             }
             colc = 0;
+            is_first_row = false;
             if (d != 0) p++;
         }
     } while(*p);
-- 
2.43.0


From 42c653b4cc5ff1b6249ee502cd7c68a9a1211629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 065/111] fix: CSV fields that only start like a number must
 keep their text

---
 code/source/adt.c         | 2 +-
 code/source/parsers/csv.c | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 5fd7983..9f5f91d 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -485,7 +485,7 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     char expbuf[5] = { 0 };
     zpl_isize expi = 0;
 
-    if (*e && !!zpl_strchr("eE", *e)) {
+    if (*e && !!zpl_strchr("eE", *e) && (zpl_char_is_digit(*(e+1)) || ((*(e+1) == '+' || *(e+1) == '-') && zpl_char_is_digit(*(e+2))))) {
         ++e;
         if (*e == '+' || *e == '-' || zpl_char_is_digit(*e)) {
             if (*e == '-') { neg_exp = true; }
diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 7cf2c07..1da6c70 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -97,7 +97,11 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             } while (*num_p++);
 
             if (!skip_number) {
-                zpl_adt_str_to_number(&row_item);
+                /* unless the whole field is a number, it has to stay as it is */
+                zpl_csv_object number = row_item;
+                if (*zpl_adt_parse_number(&number, b) == 0) {
+                    row_item = number;
+                }
             }
         }
 
-- 
2.43.0


From 555460102c84b496242dead6443d5024883cd38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 066/111] fix: CSV rows longer than the first one and text
 after a quoted field must be rejected

---
 code/source/parsers/csv.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 1da6c70..cbd4fc5 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -117,7 +117,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
         }
         else if (d == '\n' || d == 0) {
             /* check if number of rows is not mismatched */
-            if (total_colc < colc) total_colc = colc;
+            if (is_first_row) total_colc = colc;
             else if (total_colc != colc) {
                 ZPL_CSV_ASSERT("mismatched rows");
                 err = ZPL_CSV_ERROR_MISMATCHED_ROWS;
@@ -127,6 +127,11 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             is_first_row = false;
             if (d != 0) p++;
         }
+        else {
+            ZPL_CSV_ASSERT("unexpected data after a quoted string");
+            err = ZPL_CSV_ERROR_INTERNAL;
+            return err;
+        }
     } while(*p);
 
     if (zpl_array_count(root->nodes) == 0) {
-- 
2.43.0


From 7fd0528cb9cf7c99b7d4dc0edd3856fa4399aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 067/111] fix: CSV rows that end in an empty field and fields
 separated by tabs must be kept apart

---
 code/source/parsers/csv.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index cbd4fc5..bb46d96 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -10,6 +10,12 @@
 
 ZPL_BEGIN_C_DECLS
 
+/* skips the space around a field, but neither the delimiter nor, unless told so, the end of the row */
+zpl_internal char *zpl__csv_trim(char *p, zpl_b32 catch_newline, char delim) {
+    while (zpl_char_is_space(*p) && *p != delim && !(catch_newline && *p == '\n')) { ++p; }
+    return p;
+}
+
 zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator allocator, zpl_b32 has_header, char delim) {
     zpl_csv_error err = ZPL_CSV_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
@@ -22,8 +28,8 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
 
     do {
         char d = 0;
-        p = cast(char *)zpl_str_trim(p, false);
-        if (*p == 0) break;
+        p = zpl__csv_trim(p, colc > 0, delim);
+        if (*p == 0 && colc == 0) break;
         zpl_adt_node row_item = {0};
         row_item.type = ZPL_ADT_TYPE_STRING;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
@@ -50,7 +56,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
                 return err;
             }
             *e = 0;
-            p = cast(char *)zpl_str_trim(e+1, true);
+            p = zpl__csv_trim(e+1, true, delim);
             d = *p;
 
             /* unescape escaped quotes (so that unescaped text escapes :) */
@@ -64,11 +70,11 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
                 }
             }
         }
-        else if (*p == delim) {
+        else if (*p == delim || *p == '\n' || *p == 0) {
             d = *p;
             row_item.string = "";
         }
-        else if (*p) {
+        else {
             /* regular data */
             b = e = p;
             row_item.string = b;
@@ -76,7 +82,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
                 e++;
             } while (*e && *e != delim && *e != '\n');
             if (*e) {
-                p = cast(char *)zpl_str_trim(e, true);
+                p = zpl__csv_trim(e, true, delim);
                 while (zpl_char_is_space(*(e-1))) { e--; }
                 d = *p;
                 *e = 0;
@@ -132,7 +138,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             err = ZPL_CSV_ERROR_INTERNAL;
             return err;
         }
-    } while(*p);
+    } while(*p || colc > 0);
 
     if (zpl_array_count(root->nodes) == 0) {
         ZPL_CSV_ASSERT("unexpected end of input. stream is empty.");
-- 
2.43.0


From 05a600b59c277561f6c16e2eaed47ac4d3625220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 068/111] fix: parsing CSV must report a failed allocation

---
 code/header/parsers/csv.h |  1 +
 code/source/parsers/csv.c | 13 ++++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/code/header/parsers/csv.h b/code/header/parsers/csv.h
index bd29059..ba1d48d 100644
--- a/code/header/parsers/csv.h
+++ b/code/header/parsers/csv.h
@@ -8,6 +8,7 @@ typedef enum zpl_csv_error {
     ZPL_CSV_ERROR_INTERNAL,
     ZPL_CSV_ERROR_UNEXPECTED_END_OF_INPUT,
     ZPL_CSV_ERROR_MISMATCHED_ROWS,
+    ZPL_CSV_ERROR_OUT_OF_MEMORY,
 } zpl_csv_error;
 
 typedef zpl_adt_node zpl_csv_object;
diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index bb46d96..267eacb 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -21,7 +21,9 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
     ZPL_ASSERT_NOT_NULL(root);
     ZPL_ASSERT_NOT_NULL(text);
     zpl_zero_item(root);
-    zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true);
+    if (zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true)) {
+        return ZPL_CSV_ERROR_OUT_OF_MEMORY;
+    }
     char *p = text, *b = p, *e = p;
     zpl_isize colc = 0, total_colc = 0;
     zpl_b32 is_first_row = true;
@@ -112,10 +114,15 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
         }
 
         if (colc >= zpl_array_count(root->nodes)) {
-            zpl_adt_append_arr(root, NULL);
+            if (!zpl_adt_append_arr(root, NULL)) {
+                return ZPL_CSV_ERROR_OUT_OF_MEMORY;
+            }
         }
 
-        zpl_array_append(root->nodes[colc].nodes, row_item);
+        row_item.parent = root->nodes + colc;
+        if (!zpl_array_append(root->nodes[colc].nodes, row_item)) {
+            return ZPL_CSV_ERROR_OUT_OF_MEMORY;
+        }
 
         if (d == delim) {
             colc++;
-- 
2.43.0


From d101d091bad664d7da67f32e629acaa08e1ded16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 069/111] fix: writing CSV must report failed writes and
 allocations

---
 code/header/parsers/csv.h |  8 +++---
 code/source/parsers/csv.c | 51 ++++++++++++++++++++++++---------------
 2 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/code/header/parsers/csv.h b/code/header/parsers/csv.h
index ba1d48d..539ca85 100644
--- a/code/header/parsers/csv.h
+++ b/code/header/parsers/csv.h
@@ -17,9 +17,9 @@ ZPL_DEF_INLINE zpl_u8 zpl_csv_parse(zpl_csv_object *root, char *text, zpl_alloca
 ZPL_DEF zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator allocator, zpl_b32 has_header, char delim);
 ZPL_DEF void zpl_csv_free(zpl_csv_object *obj);
 
-ZPL_DEF_INLINE void zpl_csv_write(zpl_file *file, zpl_csv_object *obj);
+ZPL_DEF_INLINE zpl_b8 zpl_csv_write(zpl_file *file, zpl_csv_object *obj);
 ZPL_DEF_INLINE zpl_string zpl_csv_write_string(zpl_allocator a, zpl_csv_object *obj);
-ZPL_DEF void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delim);
+ZPL_DEF zpl_b8 zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delim);
 ZPL_DEF zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj, char delim);
 
 /* inline */
@@ -28,8 +28,8 @@ ZPL_IMPL_INLINE zpl_u8 zpl_csv_parse(zpl_csv_object *root, char *text, zpl_alloc
     return zpl_csv_parse_delimiter(root, text, allocator, has_header, ',');
 }
 
-ZPL_IMPL_INLINE void zpl_csv_write(zpl_file *file, zpl_csv_object *obj) {
-    zpl_csv_write_delimiter(file, obj, ',');
+ZPL_IMPL_INLINE zpl_b8 zpl_csv_write(zpl_file *file, zpl_csv_object *obj) {
+    return zpl_csv_write_delimiter(file, obj, ',');
 }
 
 ZPL_IMPL_INLINE zpl_string zpl_csv_write_string(zpl_allocator a, zpl_csv_object *obj) {
diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 267eacb..de5ecba 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -169,20 +169,25 @@ void zpl_csv_free(zpl_csv_object *obj) {
     zpl_adt_destroy_branch(obj);
 }
 
-void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
+#define zpl__csv_fprintf(s_, fmt_, ...)                                                                                \
+do {                                                                                                               \
+    if (zpl_fprintf(s_, fmt_, ##__VA_ARGS__) < 0) return false;                                                    \
+} while (0)
+
+zpl_b8 zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
     switch (node->type) {
         case ZPL_ADT_TYPE_STRING: {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             switch (node->name_style) {
                 case ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE: {
-                    zpl_fprintf(file, "\"");
-                    zpl_adt_print_string(file, node, "\"", "\"");
-                    zpl_fprintf(file, "\"");
+                    zpl__csv_fprintf(file, "\"");
+                    if (zpl_adt_print_string(file, node, "\"", "\"")) return false;
+                    zpl__csv_fprintf(file, "\"");
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
 #endif
-                    zpl_fprintf(file, "%s", node->string);
+                    zpl__csv_fprintf(file, "%s", node->string);
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
                 } break;
             }
@@ -191,55 +196,61 @@ void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
 
         case ZPL_ADT_TYPE_REAL:
         case ZPL_ADT_TYPE_INTEGER: {
-            zpl_adt_print_number(file, node);
+            if (zpl_adt_print_number(file, node)) return false;
         } break;
     }
+    return true;
 }
 
-void zpl__csv_write_header(zpl_file *file, zpl_csv_object *header) {
+zpl_b8 zpl__csv_write_header(zpl_file *file, zpl_csv_object *header) {
     zpl_csv_object temp = *header;
     temp.string = temp.name;
     temp.type = ZPL_ADT_TYPE_STRING;
-    zpl__csv_write_record(file, &temp);
+    return zpl__csv_write_record(file, &temp);
 }
 
-void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter) {
+zpl_b8 zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter) {
     ZPL_ASSERT_NOT_NULL(file);
     ZPL_ASSERT_NOT_NULL(obj);
     ZPL_ASSERT(obj->nodes);
     zpl_isize cols = zpl_array_count(obj->nodes);
-    if (cols == 0) return;
+    if (cols == 0) return true;
 
     zpl_isize rows = zpl_array_count(obj->nodes[0].nodes);
-    if (rows == 0) return;
+    if (rows == 0) return true;
 
     zpl_b32 has_headers = obj->nodes[0].name != NULL;
 
     if (has_headers) {
         for (zpl_isize i = 0; i < cols; i++) {
-            zpl__csv_write_header(file, &obj->nodes[i]);
+            if (!zpl__csv_write_header(file, &obj->nodes[i])) return false;
             if (i+1 != cols) {
-                zpl_fprintf(file, "%c", delimiter);
+                zpl__csv_fprintf(file, "%c", delimiter);
             }
         }
-        zpl_fprintf(file, "\n");
+        zpl__csv_fprintf(file, "\n");
     }
 
     for (zpl_isize r = 0; r < rows; r++) {
         for (zpl_isize i = 0; i < cols; i++) {
-            zpl__csv_write_record(file, &obj->nodes[i].nodes[r]);
+            if (!zpl__csv_write_record(file, &obj->nodes[i].nodes[r])) return false;
             if (i+1 != cols) {
-                zpl_fprintf(file, "%c", delimiter);
+                zpl__csv_fprintf(file, "%c", delimiter);
             }
         }
-        zpl_fprintf(file, "\n");
+        zpl__csv_fprintf(file, "\n");
     }
+    return true;
 }
 
 zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj, char delimiter) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
-    zpl_csv_write_delimiter(&tmp, obj, delimiter);
+    if (!zpl_file_stream_new(&tmp, a))
+        return NULL;
+    if (!zpl_csv_write_delimiter(&tmp, obj, delimiter)) {
+        zpl_file_close(&tmp);
+        return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
@@ -247,4 +258,6 @@ zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj,
     return output;
 }
 
+#undef zpl__csv_fprintf
+
 ZPL_END_C_DECLS
-- 
2.43.0


From a2b15d36729e2e5bfab19274579ae7619e1c1aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 070/111] fix: a CSV table without rows must still write its
 header

---
 code/source/parsers/csv.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index de5ecba..b0ffead 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -217,8 +217,6 @@ zpl_b8 zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimit
     if (cols == 0) return true;
 
     zpl_isize rows = zpl_array_count(obj->nodes[0].nodes);
-    if (rows == 0) return true;
-
     zpl_b32 has_headers = obj->nodes[0].name != NULL;
 
     if (has_headers) {
-- 
2.43.0


From a392449ee7655665a7c795d820a03e132a071884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:33 +0000
Subject: [PATCH 071/111] fix: space after the last CSV field must be cut off
 like after any other

---
 code/source/parsers/csv.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index b0ffead..789a40d 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -83,16 +83,10 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             do {
                 e++;
             } while (*e && *e != delim && *e != '\n');
-            if (*e) {
-                p = zpl__csv_trim(e, true, delim);
-                while (zpl_char_is_space(*(e-1))) { e--; }
-                d = *p;
-                *e = 0;
-            }
-            else {
-                d = 0;
-                p = e;
-            }
+            p = zpl__csv_trim(e, true, delim);
+            while (zpl_char_is_space(*(e-1))) { e--; }
+            d = *p;
+            if (*e) *e = 0;
 
             /* check if number and process if so */
             zpl_b32 skip_number = has_header && is_first_row; /* a header consists of names */
-- 
2.43.0


From cc30039baaeb15c88519c9d1f2efd941e4ed7c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:33 +0000
Subject: [PATCH 072/111] fix: an unquoted CSV field that holds the delimiter
 must be quoted when it is written

---
 code/source/parsers/csv.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 789a40d..585d421 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -168,7 +168,17 @@ do {
     if (zpl_fprintf(s_, fmt_, ##__VA_ARGS__) < 0) return false;                                                    \
 } while (0)
 
-zpl_b8 zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
+/* text that would not be read back the way it is */
+zpl_internal zpl_b32 zpl__csv_needs_quotes(char const *text, char delimiter) {
+    if (*text == '"' || zpl_char_is_space(*text)) return true;
+    for (; *text; ++text) {
+        if (*text == delimiter || *text == '\n') return true;
+        if (!*(text+1) && zpl_char_is_space(*text)) return true;
+    }
+    return false;
+}
+
+zpl_b8 zpl__csv_write_record(zpl_file *file, zpl_csv_object *node, char delimiter) {
     switch (node->type) {
         case ZPL_ADT_TYPE_STRING: {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
@@ -180,6 +190,11 @@ zpl_b8 zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
+                    if (zpl__csv_needs_quotes(node->string, delimiter)) {
+                        zpl_csv_object quoted = *node;
+                        quoted.name_style = ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE;
+                        return zpl__csv_write_record(file, &quoted, delimiter);
+                    }
 #endif
                     zpl__csv_fprintf(file, "%s", node->string);
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
@@ -196,11 +211,11 @@ zpl_b8 zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
     return true;
 }
 
-zpl_b8 zpl__csv_write_header(zpl_file *file, zpl_csv_object *header) {
+zpl_b8 zpl__csv_write_header(zpl_file *file, zpl_csv_object *header, char delimiter) {
     zpl_csv_object temp = *header;
     temp.string = temp.name;
     temp.type = ZPL_ADT_TYPE_STRING;
-    return zpl__csv_write_record(file, &temp);
+    return zpl__csv_write_record(file, &temp, delimiter);
 }
 
 zpl_b8 zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter) {
@@ -215,7 +230,7 @@ zpl_b8 zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimit
 
     if (has_headers) {
         for (zpl_isize i = 0; i < cols; i++) {
-            if (!zpl__csv_write_header(file, &obj->nodes[i])) return false;
+            if (!zpl__csv_write_header(file, &obj->nodes[i], delimiter)) return false;
             if (i+1 != cols) {
                 zpl__csv_fprintf(file, "%c", delimiter);
             }
@@ -225,7 +240,7 @@ zpl_b8 zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimit
 
     for (zpl_isize r = 0; r < rows; r++) {
         for (zpl_isize i = 0; i < cols; i++) {
-            if (!zpl__csv_write_record(file, &obj->nodes[i].nodes[r])) return false;
+            if (!zpl__csv_write_record(file, &obj->nodes[i].nodes[r], delimiter)) return false;
             if (i+1 != cols) {
                 zpl__csv_fprintf(file, "%c", delimiter);
             }
-- 
2.43.0


From 8da303abc8e8d98202e93f966285bfa635e228ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 073/111] fix: digits around an x must not be read as one
 number

---
 code/source/adt.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 9f5f91d..76a0743 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -452,16 +452,25 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
             return ++base_str;
         }
 
-        while ((node_props == ZPL_ADT_PROPS_IS_HEX && zpl_char_is_hex_digit(*e)) || zpl_char_is_digit(*e) || zpl_char_to_lower(*e) == 'x') {
+        if (node_props == ZPL_ADT_PROPS_IS_HEX) {
+            /* bail if there are no digits behind the prefix */
+            if (!zpl_char_is_hex_digit(*(e+2))) {
+                return ++base_str;
+            }
+            buf[ib++] = '0';
+            buf[ib++] = 'x';
+            e += 2;
+        }
+
+        while (zpl_char_is_digit(*e) || (node_props == ZPL_ADT_PROPS_IS_HEX && zpl_char_is_hex_digit(*e))) {
             /* bail if the number is too long for us */
             if (ib >= zpl_size_of(buf) - 4) {
                 return ++base_str;
             }
-            buf[ib++] = (*e == 'X') ? 'x' : *e;
-            ++e;
+            buf[ib++] = *e++;
         }
 
-        if (*e == '.') {
+        if (*e == '.' && node_props != ZPL_ADT_PROPS_IS_HEX) {
             node_type = ZPL_ADT_TYPE_REAL;
             lead_digit = true;
             zpl_u32 step = 0;
-- 
2.43.0


From 0280b9eb74c382941969bcdf4a3a44209e173825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 074/111] fix: a sign followed by only a dot must not be read
 as a number

---
 code/source/adt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 76a0743..45b4469 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -419,7 +419,7 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     zpl_u8 node_props=0;
 
     /* skip false positives and special cases */
-    if (!!zpl_strchr("eE", *p) || (!!zpl_strchr(".+-", *p) && !zpl_char_is_hex_digit(*(p+1)) && *(p+1) != '.')) {
+    if (!!zpl_strchr("eE", *p) || (!!zpl_strchr(".+-", *p) && !zpl_char_is_hex_digit(*(p+1)) && !(*(p+1) == '.' && zpl_char_is_digit(*(p+2))))) {
         return ++base_str;
     }
 
-- 
2.43.0


From d5ce104316bb0250bccc83de6b3f7a361d5f0e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 075/111] fix: the captured output of a command must be whole,
 and capturing it must report a failed allocation

---
 code/source/core/misc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/source/core/misc.c b/code/source/core/misc.c
index 2fee10a..656cfce 100644
--- a/code/source/core/misc.c
+++ b/code/source/core/misc.c
@@ -121,9 +121,11 @@ zpl_string zpl_system_command_str(const char *command, zpl_allocator backing) {
         zpl_string output = zpl_string_make_reserve(backing, 4);
 
         int c;
-        while ((c = getc(handle)) != EOF) {
-            char ins[2] = {(char)c,0};
-            output = zpl_string_appendc(output, ins);
+        while (output && (c = getc(handle)) != EOF) {
+            char ins = (char)c;
+            zpl_string next = zpl_string_append_length(output, &ins, 1);
+            if (!next) zpl_string_free(output);
+            output = next;
         }
 
 #        if defined(ZPL_SYSTEM_WINDOWS)
-- 
2.43.0


From 91303d951ef6bc4bad2e81cccef381effcd30ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 076/111] fix: capturing the output of a command must report a
 failed read

---
 code/source/core/misc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/source/core/misc.c b/code/source/core/misc.c
index 656cfce..0501bf0 100644
--- a/code/source/core/misc.c
+++ b/code/source/core/misc.c
@@ -93,6 +93,7 @@ zpl_u32 zpl_system_command(const char *command, zpl_usize buffer_len, char *buff
         while ((c = getc(handle)) != EOF && i++ < buffer_len) {
             *buffer++ = c;
         }
+        zpl_b32 failed = ferror(handle) != 0;
 
 #        if defined(ZPL_SYSTEM_WINDOWS)
             _pclose(handle);
@@ -100,6 +101,7 @@ zpl_u32 zpl_system_command(const char *command, zpl_usize buffer_len, char *buff
             pclose(handle);
 #        endif
 
+        if (failed) return 0;
 #    endif
 
     return 1;
@@ -127,6 +129,10 @@ zpl_string zpl_system_command_str(const char *command, zpl_allocator backing) {
             if (!next) zpl_string_free(output);
             output = next;
         }
+        if (output && ferror(handle)) {
+            zpl_string_free(output);
+            output = NULL;
+        }
 
 #        if defined(ZPL_SYSTEM_WINDOWS)
             _pclose(handle);
-- 
2.43.0


From 4d5938349f637d794455c71a7425b91883b016c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 077/111] fix: a socket that cannot be set up must not leak its
 descriptor

---
 code/source/socket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/source/socket.c b/code/source/socket.c
index c40695f..edc347f 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -67,6 +67,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 
     if (mode == ZPL_SOCKET_BIND) {
         if (bind(sock, result->ai_addr, (int)result->ai_addrlen) != 0) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
@@ -76,11 +77,13 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 #   if defined(ZPL_SYSTEM_WINDOWS)
         DWORD non_blocking = 1;
         if (ioctlsocket(sock, FIONBIO, &non_blocking)) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
 #   else
         if (fcntl(sock, F_SETFL, O_NONBLOCK) == -1) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
@@ -89,6 +92,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 
     if (mode == ZPL_SOCKET_CONNECT) {
         if (connect(sock, result->ai_addr, (int)result->ai_addrlen) != 0 && !(flags & ZPL_SOCKET_NON_BLOCKING)) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
-- 
2.43.0


From 68169cc63637399328b691616dd55fed7aed23e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 078/111] fix: the address of a socket and the sender of a
 datagram must be reported

---
 code/source/socket.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/socket.c b/code/source/socket.c
index edc347f..39d577d 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -142,7 +142,8 @@ ZPL_DEF zpl_socket zpl_socket_accept(zpl_socket socket, zpl_socket_addr *addr) {
 }
 
 ZPL_DEF zpl_i32 zpl_socket_get_address(zpl_socket socket, zpl_socket_addr *addr) {
-    return getsockname(socket, (struct sockaddr *)addr, (socklen_t *)sizeof(*addr));
+    socklen_t len = sizeof(*addr);
+    return getsockname(socket, (struct sockaddr *)addr, &len);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_get_address_info(zpl_socket_addr *addr, char *host, zpl_i32 host_size, char *service, zpl_i32 service_size) {
@@ -162,7 +163,8 @@ ZPL_DEF zpl_i32 zpl_socket_send_to(zpl_socket socket, zpl_socket_addr *addr, con
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive_from(zpl_socket socket, zpl_socket_addr *addr, char *buffer, zpl_i32 size) {
-    return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, (socklen_t *)sizeof(*addr));
+    socklen_t len = sizeof(*addr);
+    return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, addr ? &len : NULL);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_select(zpl_socket socket, zpl_f64 time) {
-- 
2.43.0


From 16bfe53fbc87113862c2fc598332b394bc31a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 079/111] fix: sending on a connection the peer has closed must
 fail instead of ending the process

---
 code/source/socket.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/code/source/socket.c b/code/source/socket.c
index 39d577d..905352a 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -17,6 +17,13 @@ typedef int socklen_t;
 #   endif
 #endif
 
+/* a connection the peer has closed must not end the process */
+#if defined(MSG_NOSIGNAL)
+#   define ZPL__SOCKET_SEND_FLAGS MSG_NOSIGNAL
+#else
+#   define ZPL__SOCKET_SEND_FLAGS 0
+#endif
+
 ZPL_DEF zpl_socket zpl_socket_init(void) {
 #   if defined(ZPL_SYSTEM_WINDOWS)
     WSADATA winsock_data = {0};
@@ -151,7 +158,7 @@ ZPL_DEF zpl_i32 zpl_socket_get_address_info(zpl_socket_addr *addr, char *host, z
 }
 
 ZPL_DEF zpl_i32 zpl_socket_send(zpl_socket socket, const char *data, zpl_i32 size) {
-    return send(socket, data, size, 0);
+    return send(socket, data, size, ZPL__SOCKET_SEND_FLAGS);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive(zpl_socket socket, char *buffer, zpl_i32 size) {
@@ -159,7 +166,7 @@ ZPL_DEF zpl_i32 zpl_socket_receive(zpl_socket socket, char *buffer, zpl_i32 size
 }
 
 ZPL_DEF zpl_i32 zpl_socket_send_to(zpl_socket socket, zpl_socket_addr *addr, const char *data, zpl_i32 size) {
-    return sendto(socket, data, size, 0, (struct sockaddr *)addr, (socklen_t)sizeof(*addr));
+    return sendto(socket, data, size, ZPL__SOCKET_SEND_FLAGS, (struct sockaddr *)addr, (socklen_t)sizeof(*addr));
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive_from(zpl_socket socket, zpl_socket_addr *addr, char *buffer, zpl_i32 size) {
@@ -197,5 +204,7 @@ ZPL_DEF zpl_i32 zpl_socket_multi_select(zpl_socket *sockets, zpl_i32 count, zpl_
     return select(max + 1, &fds, 0, 0, &tv);
 }
 
+#undef ZPL__SOCKET_SEND_FLAGS
+
 ZPL_END_C_DECLS
 
-- 
2.43.0


From c77ec68a35f8974a37d8f70cb87854472c55d2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 080/111] fix: a non-blocking connection that fails at once
 must be reported

---
 code/source/socket.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/code/source/socket.c b/code/source/socket.c
index 905352a..2f48623 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -9,6 +9,7 @@ typedef int socklen_t;
 #else //unix
 #   include <sys/socket.h>
 #   include <netdb.h>
+#   include <errno.h>
 #   include <fcntl.h>
 #   include <unistd.h>
     #ifndef TCP_NODELAY
@@ -24,6 +25,15 @@ typedef int socklen_t;
 #   define ZPL__SOCKET_SEND_FLAGS 0
 #endif
 
+/* whether the last connect of a non-blocking socket goes on in the background */
+zpl_internal zpl_b32 zpl__socket_in_progress(void) {
+#   if defined(ZPL_SYSTEM_WINDOWS)
+    return WSAGetLastError() == WSAEWOULDBLOCK;
+#   else
+    return errno == EINPROGRESS;
+#   endif
+}
+
 ZPL_DEF zpl_socket zpl_socket_init(void) {
 #   if defined(ZPL_SYSTEM_WINDOWS)
     WSADATA winsock_data = {0};
@@ -98,7 +108,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
     }
 
     if (mode == ZPL_SOCKET_CONNECT) {
-        if (connect(sock, result->ai_addr, (int)result->ai_addrlen) != 0 && !(flags & ZPL_SOCKET_NON_BLOCKING)) {
+        if (connect(sock, result->ai_addr, (int)result->ai_addrlen) != 0 && !((flags & ZPL_SOCKET_NON_BLOCKING) && zpl__socket_in_progress())) {
             zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
-- 
2.43.0


From 4ccbb563999a7aeb1666e11d06da87f4e886ea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 081/111] fix: waiting for a socket past the size of a
 descriptor set must fail instead of writing out of bounds

---
 code/source/socket.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/code/source/socket.c b/code/source/socket.c
index 2f48623..420ed9e 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -184,11 +184,22 @@ ZPL_DEF zpl_i32 zpl_socket_receive_from(zpl_socket socket, zpl_socket_addr *addr
     return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, addr ? &len : NULL);
 }
 
+/* a set of descriptors has no room for those past its size, on windows it is a list instead */
+zpl_internal zpl_b32 zpl__socket_selectable(zpl_socket socket) {
+#   if defined(ZPL_SYSTEM_WINDOWS)
+    zpl_unused(socket);
+    return true;
+#   else
+    return socket < FD_SETSIZE;
+#   endif
+}
+
 ZPL_DEF zpl_i32 zpl_socket_select(zpl_socket socket, zpl_f64 time) {
     fd_set fds;
     struct timeval tv;
 
     FD_ZERO(&fds);
+    if (!zpl__socket_selectable(socket)) return -1;
     if (socket > -1) FD_SET(socket, &fds);
 
     tv.tv_sec = (long)time;
@@ -204,6 +215,7 @@ ZPL_DEF zpl_i32 zpl_socket_multi_select(zpl_socket *sockets, zpl_i32 count, zpl_
 
     FD_ZERO(&fds);
     for (i = 0; i < count; ++i) {
+        if (!zpl__socket_selectable(sockets[i])) return -1;
         if (sockets[i] > max) max = sockets[i];
         if (sockets[i] > -1) FD_SET(sockets[i], &fds);
     }
-- 
2.43.0


From 76e558798073491a67b8dce28155fd851e1ac49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 082/111] fix: positional options must stay valid when more
 options are added

---
 code/source/opts.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/code/source/opts.c b/code/source/opts.c
index bd4bf43..dc5030c 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -42,7 +42,16 @@ void zpl_opts_add(zpl_opts *opts, char const *name, char const *lname, const cha
     e.met = false;
     e.pos = false;
 
+    zpl_opts_entry *old = opts->entries;
     zpl_array_append(opts->entries, e);
+
+    // NOTE: positionals point at the entries, which move when the array grows
+    if (opts->entries != old) {
+        for (zpl_isize i = 0; i < zpl_array_count(opts->positioned); ++i) {
+            zpl_isize offset = cast(zpl_isize)(cast(zpl_uintptr)opts->positioned[i] - cast(zpl_uintptr)old);
+            opts->positioned[i] = cast(zpl_opts_entry *)zpl_ptr_add(opts->entries, offset);
+        }
+    }
 }
 
 zpl_opts_entry *zpl__opts_find(zpl_opts *opts, char const *name, zpl_usize len, zpl_b32 longname) {
-- 
2.43.0


From 66c201072077846f19a8ca8c5f67b25c95535bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 083/111] fix: the help screen must not read past the declared
 options

---
 code/source/opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index dc5030c..610e72b 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -133,7 +133,7 @@ zpl_b32 zpl_opts_has_arg(zpl_opts *opts, char const *name) {
 void zpl_opts_print_help(zpl_opts *opts) {
     zpl_printf("USAGE: %s", opts->appname);
 
-    for (zpl_isize i = zpl_array_count(opts->entries); i >= 0; --i) {
+    for (zpl_isize i = zpl_array_count(opts->entries) - 1; i >= 0; --i) {
         zpl_opts_entry *e = opts->entries + i;
 
         if (e->pos == (zpl_b32) true) { zpl_printf(" [%s]", e->lname); }
-- 
2.43.0


From d09f610beba73d543b1b6a1859233412c94ae2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 084/111] fix: parsing options must not read outside the
 arguments

---
 code/source/opts.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index 610e72b..af1e712 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -213,7 +213,7 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
 
                         b = e = e + 1;
                     } else if (*e == '\0') {
-                        char *sp = argv[i+1];
+                        char *sp = i + 1 < argc ? argv[i+1] : NULL;
 
                         if (sp && *sp != '-' && (zpl_array_count(opts->positioned) < 1  || t->type != ZPL_OPTS_FLAG)) {
                             if (t->type == ZPL_OPTS_FLAG) {
@@ -236,7 +236,6 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
                         }
                     }
 
-                    e = cast(char *)zpl_str_control_skip(e, '\0');
                     zpl__opts_set_value(opts, t, b);
                 } else {
                     zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_OPTION);
-- 
2.43.0


From 493bda9f0869c88f88b8699068089643de9bc1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 085/111] fix: an option without a long name crashed while
 positionals were missing

---
 code/source/opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index af1e712..ce2ea8f 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -115,7 +115,7 @@ void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
     }
 
     for (zpl_isize i=0; i < zpl_array_count(opts->positioned); i++) {
-        if (!zpl_strcmp(opts->positioned[i]->lname, t->lname)) {
+        if (opts->positioned[i] == t) {
             zpl_array_remove_at(opts->positioned, i);
             break;
         }
-- 
2.43.0


From c538657542a250b1f3705949b0dda79474c0e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 086/111] fix: an extra value of an option must be reported
 with the option's name

---
 code/source/opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index ce2ea8f..008515e 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -217,7 +217,7 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
 
                         if (sp && *sp != '-' && (zpl_array_count(opts->positioned) < 1  || t->type != ZPL_OPTS_FLAG)) {
                             if (t->type == ZPL_OPTS_FLAG) {
-                                zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_EXTRA_VALUE);
+                                zpl__opts_push_error(opts, ob, ZPL_OPTS_ERR_EXTRA_VALUE);
                                 had_errors = true;
                                 continue;
                             }
-- 
2.43.0


From 3d6c2f62d830d9905f313a87c76baf0f88a8284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 087/111] fix: repeated string options leaked and a failed
 allocation was not reported

---
 code/source/opts.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index 008515e..965abc4 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -97,12 +97,14 @@ zpl_i64 zpl_opts_integer(zpl_opts *opts, char const *name, zpl_i64 fallback) {
     return (e && e->met) ? e->integer : fallback;
 }
 
-void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
-    t->met = true;
+zpl_b32 zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
 
     switch (t->type) {
         case ZPL_OPTS_STRING: {
-            t->text = zpl_string_make(opts->alloc, b);
+            zpl_string text = zpl_string_make(opts->alloc, b);
+            if (!text) return false;
+            zpl_string_free(t->text);
+            t->text = text;
         } break;
 
         case ZPL_OPTS_FLOAT: {
@@ -114,12 +116,16 @@ void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
         } break;
     }
 
+    t->met = true;
+
     for (zpl_isize i=0; i < zpl_array_count(opts->positioned); i++) {
         if (opts->positioned[i] == t) {
             zpl_array_remove_at(opts->positioned, i);
             break;
         }
     }
+
+    return true;
 }
 
 zpl_b32 zpl_opts_has_arg(zpl_opts *opts, char const *name) {
@@ -236,7 +242,7 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
                         }
                     }
 
-                    zpl__opts_set_value(opts, t, b);
+                    if (!zpl__opts_set_value(opts, t, b)) had_errors = true;
                 } else {
                     zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_OPTION);
                     had_errors = true;
@@ -244,7 +250,7 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
             } else if (zpl_array_count(opts->positioned)) {
                 zpl_opts_entry *l = zpl_array_back(opts->positioned);
                 zpl_array_pop(opts->positioned);
-                zpl__opts_set_value(opts, l, p);
+                if (!zpl__opts_set_value(opts, l, p)) had_errors = true;
             } else {
                 zpl__opts_push_error(opts, p, ZPL_OPTS_ERR_VALUE);
                 had_errors = true;
-- 
2.43.0


From ad7bce5cc2c6d61894f91306cbac8a941a4468c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:27 +0000
Subject: [PATCH 088/111] fix: decoding a URI must not overflow a buffer or
 read past a truncated escape

---
 code/source/parsers/uri.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 846b84f..d62b483 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -3,7 +3,8 @@
 ZPL_BEGIN_C_DECLS
 
 void zpl__uri_decode_str(char *text) {
-    char buf[ZPL_PRINTF_MAXLEN] = {0}, *p = buf;
+    // NOTE: decoded text is never longer than encoded text
+    char *p = text;
     char *tp = text;
     
     char ch = -1;
@@ -16,6 +17,8 @@ void zpl__uri_decode_str(char *text) {
             } else {
                 *(p++) = ch;
             }
+        } else if (!zpl_char_is_hex_digit(tp[0]) || !zpl_char_is_hex_digit(tp[1])) {
+            *(p++) = ch;
         } else {
             char hex[3] = {0};
             hex[0] = tp[0];
@@ -26,8 +29,7 @@ void zpl__uri_decode_str(char *text) {
         }
     }
     
-    zpl_strcpy(text, buf);
-    text[p-buf] = 0;
+    *p = 0;
 }
 
 zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a) {
-- 
2.43.0


From 32a7bcc15e86e5cdc33a98a7277383133787fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:27 +0000
Subject: [PATCH 089/111] fix: the origin of a URI was used as a format string

---
 code/source/parsers/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index d62b483..087108a 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -150,7 +150,7 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     {
         origin = zpl_adt_query(obj, "__zpl_origin__");
         if (origin) {
-            zpl_fprintf(f, origin->string);
+            zpl_fprintf(f, "%s", origin->string);
         }
     }
     
-- 
2.43.0


From 6e4c079e6e3463fa3b600fc8ab7e506ef19ca363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 090/111] fix: a failed allocation while reading a URI must be
 reported

---
 code/source/parsers/uri.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 087108a..6aa29a3 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -36,9 +36,10 @@ zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a) {
     zpl_u8 err_code = ZPL_URI_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
     zpl_zero_item(root);
-    zpl_adt_set_obj(root, NULL, a);
-    if (origin)
-        zpl_adt_append_str(root, "__zpl_origin__", origin);
+    if (zpl_adt_set_obj(root, NULL, a))
+        return ZPL_URI_ERROR_INTERNAL;
+    if (origin && !zpl_adt_append_str(root, "__zpl_origin__", origin))
+        return ZPL_URI_ERROR_INTERNAL;
     return err_code;
 }
 
@@ -49,7 +50,8 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     zpl_zero_item(root);
     text = (char *)zpl_str_trim(text, false);
     
-    zpl_adt_set_obj(root, NULL, a);
+    if (zpl_adt_set_obj(root, NULL, a))
+        return ZPL_URI_ERROR_INTERNAL;
     
     char *p = text, *b = p;
 
@@ -63,7 +65,8 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
         char c = *p;
         *p = 0;
 
-        zpl_adt_append_str(root, "__zpl_origin__", b);
+        if (!zpl_adt_append_str(root, "__zpl_origin__", b))
+            return ZPL_URI_ERROR_INTERNAL;
         
         if (!c) {
             // NOTE(zaklaus): URI has no query params, bail
@@ -96,9 +99,13 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
             field_value = b;
             zpl__uri_decode_str(field_value);
             zpl_adt_node *obj = zpl_adt_append_str(root, field_name, field_value);
+            if (!obj)
+                return ZPL_URI_ERROR_INTERNAL;
             zpl_adt_str_to_number_strict(obj);
         } else {
             zpl_adt_node *obj = zpl_adt_append_flt(root, field_name, 1);
+            if (!obj)
+                return ZPL_URI_ERROR_INTERNAL;
             obj->props = ZPL_ADT_PROPS_TRUE;
         }
         
-- 
2.43.0


From ec27940ee03b6e97a5f4cc9a75c46b072953d00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 091/111] fix: a URI that could not be written must be reported

---
 code/header/parsers/uri.h |  2 +-
 code/source/parsers/uri.c | 41 ++++++++++++++++++++++++++-------------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/code/header/parsers/uri.h b/code/header/parsers/uri.h
index f490d1c..f5c1467 100644
--- a/code/header/parsers/uri.h
+++ b/code/header/parsers/uri.h
@@ -12,7 +12,7 @@ typedef enum zpl_uri_error {
 
 ZPL_DEF zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a);
 ZPL_DEF zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a);
-ZPL_DEF void zpl_uri_write(zpl_file *f, zpl_adt_node *obj);
+ZPL_DEF zpl_u8 zpl_uri_write(zpl_file *f, zpl_adt_node *obj);
 ZPL_DEF zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj);
 ZPL_DEF void zpl_uri_free(zpl_adt_node *obj);
 
diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 6aa29a3..041f394 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -120,6 +120,11 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     return err_code;
 }
 
+#define zpl__uri_fprintf(s_, err_, fmt_, ...)                                                                          \
+do {                                                                                                               \
+    if (zpl_fprintf(s_, fmt_, ##__VA_ARGS__) < 0) return err_;                                                     \
+} while (0)
+
 zpl_adt_error zpl__uri_print_str(zpl_file *file, const char *text) {
     ZPL_ASSERT_NOT_NULL(file);
     
@@ -134,19 +139,19 @@ zpl_adt_error zpl__uri_print_str(zpl_file *file, const char *text) {
     while (*p) {
         ch = (zpl_u8) *p++;
         if (ch == ' ') {
-            zpl_fprintf(file, "%s", "+");
+            zpl__uri_fprintf(file, ZPL_ADT_ERROR_OUT_OF_MEMORY, "%s", "+");
         } else if (zpl_char_is_alphanumeric(ch) || zpl_strchr("-_.~", ch)) {
-            zpl_fprintf(file, "%c", ch);
+            zpl__uri_fprintf(file, ZPL_ADT_ERROR_OUT_OF_MEMORY, "%c", ch);
         } else {
             zpl_snprintf(buf, zpl_size_of(buf), "%02X", ch);
-            zpl_fprintf(file, "%c%s", '%', buf);
+            zpl__uri_fprintf(file, ZPL_ADT_ERROR_OUT_OF_MEMORY, "%c%s", '%', buf);
         }
     }
     
     return ZPL_ADT_ERROR_NONE;
 }
 
-void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
+zpl_u8 zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     ZPL_ASSERT_NOT_NULL(f);
     ZPL_ASSERT_NOT_NULL(obj);
     ZPL_ASSERT(obj->type == ZPL_ADT_TYPE_OBJECT);
@@ -157,35 +162,37 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     {
         origin = zpl_adt_query(obj, "__zpl_origin__");
         if (origin) {
-            zpl_fprintf(f, "%s", origin->string);
+            zpl__uri_fprintf(f, ZPL_URI_ERROR_INTERNAL, "%s", origin->string);
         }
     }
     
 	// NOTE(zaklaus): write params
 	if (zpl_array_count(obj->nodes) > 0)
-    	zpl_fprintf(f, "%s", "?");
+    	zpl__uri_fprintf(f, ZPL_URI_ERROR_INTERNAL, "%s", "?");
     
     for (zpl_isize i = 0; i < zpl_array_count(obj->nodes); i++) {
         zpl_adt_node *n = (obj->nodes+i);
         if (origin == n) continue;
         
-        zpl__uri_print_str(f, n->name);
+        if (zpl__uri_print_str(f, n->name)) return ZPL_URI_ERROR_INTERNAL;
 
         if (n->type == ZPL_ADT_TYPE_STRING) {
-            zpl_fprintf(f, "%c", '=');
-            zpl__uri_print_str(f, n->string);
+            zpl__uri_fprintf(f, ZPL_URI_ERROR_INTERNAL, "%c", '=');
+            if (zpl__uri_print_str(f, n->string)) return ZPL_URI_ERROR_INTERNAL;
         } else if (n->type == ZPL_ADT_TYPE_INTEGER || n->type == ZPL_ADT_TYPE_REAL) {
            if (n->props != ZPL_ADT_PROPS_TRUE) {
-                zpl_fprintf(f, "%c", '=');
+                zpl__uri_fprintf(f, ZPL_URI_ERROR_INTERNAL, "%c", '=');
                 // TODO: ensure the output is URI-encoded
-                zpl_adt_print_number(f, n);
+                if (zpl_adt_print_number(f, n)) return ZPL_URI_ERROR_INTERNAL;
            } 
         }
         
         if (i+1 < zpl_array_count(obj->nodes)) {
-            zpl_fprintf(f, "%s", "&");
+            zpl__uri_fprintf(f, ZPL_URI_ERROR_INTERNAL, "%s", "&");
         }
     }
+
+    return ZPL_URI_ERROR_NONE;
 }
 
 void zpl_uri_free(zpl_adt_node *obj) {
@@ -194,8 +201,12 @@ void zpl_uri_free(zpl_adt_node *obj) {
 
 zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
-    zpl_uri_write(&tmp, obj);
+    if (!zpl_file_stream_new(&tmp, a))
+        return NULL;
+    if (zpl_uri_write(&tmp, obj)) {
+        zpl_file_close(&tmp);
+        return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
@@ -203,5 +214,7 @@ zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj) {
     return output;
 }
 
+#undef zpl__uri_fprintf
+
 ZPL_END_C_DECLS
 
-- 
2.43.0


From ae2955d307b7f7258c816ff0a41e3f55c853b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 092/111] fix: text that only starts like a number was replaced
 by a number in strict conversion

---
 code/source/adt.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 45b4469..031e463 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -397,7 +397,14 @@ char *zpl_adt_parse_number_strict(zpl_adt_node *node, char* base_str) {
     }
 
     if (p >= e) {
-        return zpl_adt_parse_number(node, base_str);
+        zpl_adt_node number = *node;
+        char *end = zpl_adt_parse_number(&number, base_str);
+
+        /* text that merely starts like a number stays as it is */
+        if (end == e) {
+            *node = number;
+            return end;
+        }
     }
 
     return base_str;
-- 
2.43.0


From 17829baa0060c6488f8d586d12847e89a409c5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 093/111] fix: duplicating text crashed when it was longer than
 the copy or the allocation failed

---
 code/header/core/string.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 02878e1..d39adcf 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -426,8 +426,10 @@ ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len)
     ZPL_ASSERT_NOT_NULL(src);
     zpl_isize len = zpl_strlen(src);
     char *dest = cast(char *) zpl_alloc(a, max_len);
+    if (!dest) return NULL;
+    if (len >= max_len) len = max_len - 1;
     zpl_memset(dest + len, 0, max_len - len);
-    zpl_strncpy(dest, src, max_len);
+    zpl_strncpy(dest, src, len);
 
     return dest;
 }
-- 
2.43.0


From b3ebe7cd12863c9dd6d8168e4ee079fc447a0253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 094/111] fix: looking up an environment variable crashed when
 the allocation failed

---
 code/source/core/misc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/misc.c b/code/source/core/misc.c
index 0501bf0..a416d77 100644
--- a/code/source/core/misc.c
+++ b/code/source/core/misc.c
@@ -21,6 +21,7 @@ const char *zpl_get_env(const char *name) {
 
     zpl_isize ptr_size = zpl_strlen(ptr);
     buffer = (char *)zpl_malloc(ptr_size * sizeof(char)+1);
+    if (!buffer) return NULL;
     zpl_memcopy((char *)buffer, ptr, ptr_size+1);
     return buffer;
 }
-- 
2.43.0


From 5712e7ff02afd1e08dcbee1c61271f657c1309c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 095/111] fix: decoding malformed base64 leaked, read and wrote
 out of bounds, and failed allocations crashed

---
 code/source/hashing.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/code/source/hashing.c b/code/source/hashing.c
index e84973d..dda59c5 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -213,15 +213,14 @@ zpl_isize zpl__base64_encoded_size(zpl_isize len) {
     return ret;
 }
 
-zpl_isize zpl__base64_decoded_size(void const *data) {
-    zpl_isize len, ret, i;
+zpl_isize zpl__base64_decoded_size(void const *data, zpl_isize len) {
+    zpl_isize ret, i;
     const zpl_u8 *s = cast(const zpl_u8 *)data;
 
     if (s == NULL) {
         return 0;
     }
 
-    len = zpl_strlen(cast(const char*)s);
     ret = len / 4 * 3;
 
     for (i=len; i-- > 0;) {
@@ -259,6 +258,9 @@ zpl_u8 *zpl_base64_encode(zpl_allocator a, void const *data, zpl_isize len) {
 
     enc_len = zpl__base64_encoded_size(len);
     ret = cast(zpl_u8 *)zpl_alloc(a, enc_len+1);
+    if (!ret) {
+        return NULL;
+    }
     ret[enc_len] = 0;
 
     for (i=0, j=0; i < len; i+=3, j+=4) {
@@ -293,18 +295,27 @@ zpl_u8 *zpl_base64_decode(zpl_allocator a, void const *data, zpl_isize len) {
         return NULL;
     }
 
-    alen = zpl__base64_decoded_size(s);
-    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
-
-    ZPL_ASSERT_NOT_NULL(ret);
-
-    ret[alen] = 0;
+    /* the text consists of groups of 4, only the last 2 characters may be padding */
+    if (len < 0 || len % 4 != 0) {
+        return NULL;
+    }
 
     for (i=0; i<len; i++) {
         if (!zpl__base64_valid_char(s[i]))
             return NULL;
+        if (s[i] == '=' && (i < len-2 || s[len-1] != '='))
+            return NULL;
+    }
+
+    alen = zpl__base64_decoded_size(s, len);
+    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
+
+    if (!ret) {
+        return NULL;
     }
 
+    ret[alen] = 0;
+
     for (i=0, j=0; i<len; i+=4, j+=3) {
         v = zpl__base64_dec_table[s[i]-43];
         v = (v << 6) | zpl__base64_dec_table[s[i+1]-43];
-- 
2.43.0


From 8bced5882faf2b1c716d2ca8dc8db7cf88835685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:57 +0000
Subject: [PATCH 096/111] fix: do not leave the stream of a temporary file
 behind

---
 code/source/core/file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 80a5d2d..167f205 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -434,8 +434,13 @@ zpl_file_error zpl_file_temp(zpl_file *file) {
 
 #if defined(ZPL_SYSTEM_WINDOWS) && !defined(ZPL_COMPILER_GCC)
     file->fd.i = _get_osfhandle(_fileno(fd));
-#else 
+#elif defined(ZPL_SYSTEM_WINDOWS)
     file->fd.i = fileno(fd);
+#else
+    // NOTE: we only keep the descriptor, closing it would leave the stream behind
+    file->fd.i = dup(fileno(fd));
+    fclose(fd);
+    if (file->fd.i < 0) { return ZPL_FILE_ERROR_INVALID; }
 #endif
     file->ops = zpl_default_file_operations;
     file->is_temp = true;
-- 
2.43.0


From 2d30c9d66be98bf7b2048227e69bf7beb8ab5d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:38 +0000
Subject: [PATCH 097/111] fix: pinning a thread reported success without doing
 anything on Linux

---
 code/source/threading/affinity.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/code/source/threading/affinity.c b/code/source/threading/affinity.c
index 62f7d37..b423f85 100644
--- a/code/source/threading/affinity.c
+++ b/code/source/threading/affinity.c
@@ -3,6 +3,8 @@
 
 #if defined(ZPL_SYSTEM_MACOS)
 #    include <sys/sysctl.h>
+#elif defined(ZPL_SYSTEM_LINUX)
+#    include <sched.h>
 #endif
 
 ZPL_BEGIN_C_DECLS
@@ -152,10 +154,26 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_b32 zpl_affinity_set(zpl_affinity * a, zpl_isize core, zpl_isize thread_index) {
+#    if defined(ZPL_SYSTEM_LINUX) && defined(CPU_SET)
+        zpl_isize index;
+        cpu_set_t set;
+
+        ZPL_ASSERT(0 <= core && core < a->core_count);
+        ZPL_ASSERT(0 <= thread_index && thread_index < a->threads_per_core);
+
+        index = core * a->threads_per_core + thread_index;
+        if (index >= CPU_SETSIZE) return false;
+
+        CPU_ZERO(&set);
+        CPU_SET(index, &set);
+        return sched_setaffinity(0, zpl_size_of(set), &set) == 0;
+#    else
+        // NOTE: There is no way to do it here, so do not claim it was done
         zpl_unused(a);
         zpl_unused(core);
         zpl_unused(thread_index);
-        return true;
+        return false;
+#    endif
     }
 
     zpl_isize zpl_affinity_thread_count_for_core(zpl_affinity *a, zpl_isize core) {
-- 
2.43.0


From 43d11e18035c2fbeb0baa4af31bf04db4c495b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:22 +0000
Subject: [PATCH 098/111] fix: shuffling swapped with places before the array

---
 code/source/core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 5b7df2e..694bd00 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -157,7 +157,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
     a = cast(zpl_u8 *) base + (count - 1) * size;
     for (i = count; i > 1; i--) {
-        j = zpl_random_gen_isize(&random) % i;
+        j = zpl_random_range_isize(&random, 0, i - 1);
         zpl_memswap(a, cast(zpl_u8 *) base + j * size, size);
         a -= size;
     }
-- 
2.43.0


From be05f795d7686c7998ad3dc6d68fdd37c18c8590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:22 +0000
Subject: [PATCH 099/111] fix: reversing swapped with places behind the array

---
 code/source/core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 694bd00..e656ebb 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -165,7 +165,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
 void zpl_reverse(void *base, zpl_isize count, zpl_isize size) {
     zpl_isize i, j = count - 1;
-    for (i = 0; i < j; i++, j++) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
+    for (i = 0; i < j; i++, j--) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From d1bb08bd18b2f16dacb7bbcbfb1ebde1726cf196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:22 +0000
Subject: [PATCH 100/111] fix: radix sort of bytes left its result in the
 scratch array

---
 code/source/core/sort.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index e656ebb..f0f8c58 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -142,6 +142,8 @@ ZPL_RADIX_SORT_PROC(Type) {
         }                                                                                                          \
         zpl_swap(zpl_##Type *, source, dest);                                                                            \
     }                                                                                                              \
+    /* NOTE: An odd number of passes leaves the result in temp */                                                  \
+    if (source != items) zpl_memcopy(items, source, count * zpl_size_of(zpl_##Type));                              \
 }
 
 ZPL_RADIX_SORT_PROC_GEN(u8);
-- 
2.43.0


From bbb1805506c2e12da7dfcde2444271886d9cf138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:46 +0000
Subject: [PATCH 101/111] fix: swapping fewer than 8 bytes mixed them up

---
 code/source/essentials/memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/essentials/memory.c b/code/source/essentials/memory.c
index 284492a..ab77aa3 100644
--- a/code/source/essentials/memory.c
+++ b/code/source/essentials/memory.c
@@ -17,7 +17,8 @@ void zpl_memswap(void *i, void *j, zpl_isize size) {
         zpl_u8 *a = cast(zpl_u8 *) i;
         zpl_u8 *b = cast(zpl_u8 *) j;
         if (a != b) {
-            while (size--) { zpl_swap(zpl_u8, *a++, *b++); }
+            // NOTE: the arguments of zpl_swap are evaluated more than once
+            while (size--) { zpl_swap(zpl_u8, *a, *b); a++, b++; }
         }
     } else {
         char buffer[256];
-- 
2.43.0


From bc5ebb518391868ce5d88e6f15d7520b630fd5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:59 +0000
Subject: [PATCH 102/111] fix: exponents with leading zeros lost their value

---
 code/source/adt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 031e463..7501632 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -507,7 +507,8 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
             if (*e == '-') { neg_exp = true; }
             if (!zpl_char_is_digit(*e)) { ++e; }
             while (zpl_char_is_digit(*e)) {
-                if (expi < zpl_size_of(expbuf) - 1) expbuf[expi++] = *e;
+                /* leading zeros add nothing, and there's no number with more digits in its exponent than this */
+                if ((expi > 0 || *e != '0') && expi < zpl_size_of(expbuf) - 1) expbuf[expi++] = *e;
                 ++e;
             }
         }
-- 
2.43.0


From 0c75310e4383fa17de8af6368b4b0d7506740d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:30 +0000
Subject: [PATCH 103/111] fix: threads converting between UTF-8 and UCS-2
 shared one buffer

---
 code/source/core/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 76d837c..4162f16 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -304,12 +304,12 @@ zpl_u8 *zpl_ucs2_to_utf8(zpl_u8 *buffer, zpl_isize len, zpl_u16 const *str) {
 }
 
 zpl_u16 *zpl_utf8_to_ucs2_buf(zpl_u8 const *str) { // NOTE: Uses locally persisting buffer
-    zpl_local_persist zpl_u16 buf[4096];
+    zpl_local_persist zpl_thread_local zpl_u16 buf[4096];
     return zpl_utf8_to_ucs2(buf, zpl_count_of(buf), str);
 }
 
 zpl_u8 *zpl_ucs2_to_utf8_buf(zpl_u16 const *str) { // NOTE: Uses locally persisting buffer
-    zpl_local_persist zpl_u8 buf[4096];
+    zpl_local_persist zpl_thread_local zpl_u8 buf[4096];
     return zpl_ucs2_to_utf8(buf, zpl_count_of(buf), str);
 }
 
-- 
2.43.0


From daa285a1c4afdcd094156118a8c9bae38795d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:52 +0000
Subject: [PATCH 104/111] fix: the compiler could move memory accesses across
 atomic operations it inlines

---
 code/source/threading/atomic.c | 63 +++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index ae4d2e0..6ae4706 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -138,15 +138,28 @@ ZPL_BEGIN_C_DECLS
 
 #elif defined(ZPL_CPU_X86)
 
-    zpl_i32 zpl_atomic32_load (zpl_atomic32 const *a)      { return a->value;  }
-    void zpl_atomic32_store(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) value) { a->value = value; }
+    // NOTE: Whatever the operations are inlined into, the compiler must not move other accesses across them
+#    define zpl__atomic_barrier() __asm__ volatile("" : : : "memory")
+
+    zpl_i32 zpl_atomic32_load (zpl_atomic32 const *a) {
+        zpl_i32 value = a->value;
+        zpl__atomic_barrier();
+        return value;
+    }
+
+    void zpl_atomic32_store(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) value) {
+        zpl__atomic_barrier();
+        a->value = value;
+        zpl__atomic_barrier();
+    }
 
     zpl_i32 zpl_atomic32_compare_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) expected, zpl_atomicarg(zpl_i32) desired) {
         zpl_atomicarg(zpl_i32) original;
-        __asm__(
+        __asm__ volatile(
             "lock; cmpxchgl %2, %1"
             : "=a"(original), "+m"(a->value)
             : "q"(desired), "0"(expected)
+            : "memory"
             );
         return original;
     }
@@ -154,20 +167,22 @@ ZPL_BEGIN_C_DECLS
     zpl_i32 zpl_atomic32_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) desired) {
         // NOTE: No lock prefix is necessary for xchgl
         zpl_atomicarg(zpl_i32) original;
-        __asm__(
+        __asm__ volatile(
             "xchgl %0, %1"
             : "=r"(original), "+m"(a->value)
             : "0"(desired)
+            : "memory"
             );
         return original;
     }
 
     zpl_i32 zpl_atomic32_fetch_add(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) operand) {
         zpl_atomicarg(zpl_i32) original;
-        __asm__(
+        __asm__ volatile(
             "lock; xaddl %0, %1"
             : "=r"(original), "+m"(a->value)
             : "0"(operand)
+            : "memory"
             );
         return original;
     }
@@ -175,7 +190,7 @@ ZPL_BEGIN_C_DECLS
     zpl_i32 zpl_atomic32_fetch_and(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) operand) {
         zpl_atomicarg(zpl_i32) original;
         zpl_atomicarg(zpl_i32) tmp;
-        __asm__(
+        __asm__ volatile(
             "1:     movl    %1, %0\n"
             "       movl    %0, %2\n"
             "       andl    %3, %2\n"
@@ -183,6 +198,7 @@ ZPL_BEGIN_C_DECLS
             "       jne     1b"
             : "=&a"(original), "+m"(a->value), "=&r"(tmp)
             : "r"(operand)
+            : "memory"
             );
         return original;
     }
@@ -190,7 +206,7 @@ ZPL_BEGIN_C_DECLS
     zpl_i32 zpl_atomic32_fetch_or(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) operand) {
         zpl_atomicarg(zpl_i32) original;
         zpl_atomicarg(zpl_i32) temp;
-        __asm__(
+        __asm__ volatile(
             "1:     movl    %1, %0\n"
             "       movl    %0, %2\n"
             "       orl     %3, %2\n"
@@ -198,6 +214,7 @@ ZPL_BEGIN_C_DECLS
             "       jne     1b"
             : "=&a"(original), "+m"(a->value), "=&r"(temp)
             : "r"(operand)
+            : "memory"
             );
         return original;
     }
@@ -205,15 +222,18 @@ ZPL_BEGIN_C_DECLS
 
     zpl_i64 zpl_atomic64_load(zpl_atomic64 const *a) {
 #        if defined(ZPL_ARCH_64_BIT)
-            return a->value;
+            zpl_i64 value = a->value;
+            zpl__atomic_barrier();
+            return value;
 #        else
             zpl_atomicarg(zpl_i64) original;
-            __asm__(
+            __asm__ volatile(
                 "movl %%ebx, %%eax\n"
                 "movl %%ecx, %%edx\n"
                 "lock; cmpxchg8b %1"
                 : "=&A"(original)
                 : "m"(a->value)
+                : "memory"
                 );
             return original;
 #        endif
@@ -221,14 +241,17 @@ ZPL_BEGIN_C_DECLS
 
     void zpl_atomic64_store(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) value) {
 #        if defined(ZPL_ARCH_64_BIT)
+            zpl__atomic_barrier();
             a->value = value;
+            zpl__atomic_barrier();
 #        else
             zpl_atomicarg(zpl_i64) expected = a->value;
-            __asm__(
+            __asm__ volatile(
                 "1:    cmpxchg8b %0\n"
                 "      jne 1b"
                 : "=m"(a->value)
                 : "b"((zpl_atomicarg(zpl_i32))value), "c"((zpl_atomicarg(zpl_i32))(value >> 32)), "A"(expected)
+                : "memory"
                 );
 #        endif
     }
@@ -236,18 +259,20 @@ ZPL_BEGIN_C_DECLS
     zpl_i64 zpl_atomic64_compare_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) expected, zpl_atomicarg(zpl_i64) desired) {
 #        if defined(ZPL_ARCH_64_BIT)
             zpl_atomicarg(zpl_i64) original;
-            __asm__(
+            __asm__ volatile(
                 "lock; cmpxchgq %2, %1"
                 : "=a"(original), "+m"(a->value)
                 : "q"(desired), "0"(expected)
+                : "memory"
                 );
             return original;
 #        else
             zpl_atomicarg(zpl_i64) original;
-            __asm__(
+            __asm__ volatile(
                 "lock; cmpxchg8b %1"
                 : "=A"(original), "+m"(a->value)
                 : "b"((zpl_atomicarg(zpl_i32))desired), "c"((zpl_atomicarg(zpl_i32))(desired >> 32)), "0"(expected)
+                : "memory"
                 );
             return original;
 #        endif
@@ -256,10 +281,11 @@ ZPL_BEGIN_C_DECLS
     zpl_i64 zpl_atomic64_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) desired) {
 #        if defined(ZPL_ARCH_64_BIT)
             zpl_atomicarg(zpl_i64) original;
-            __asm__(
+            __asm__ volatile(
                 "xchgq %0, %1"
                 : "=r"(original), "+m"(a->value)
                 : "0"(desired)
+                : "memory"
                 );
             return original;
 #        else
@@ -276,10 +302,11 @@ ZPL_BEGIN_C_DECLS
     zpl_i64 zpl_atomic64_fetch_add(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) operand) {
 #        if defined(ZPL_ARCH_64_BIT)
             zpl_atomicarg(zpl_i64) original;
-            __asm__(
+            __asm__ volatile(
                 "lock; xaddq %0, %1"
                 : "=r"(original), "+m"(a->value)
                 : "0"(operand)
+                : "memory"
                 );
             return original;
 #        else
@@ -295,7 +322,7 @@ ZPL_BEGIN_C_DECLS
 #        if defined(ZPL_ARCH_64_BIT)
             zpl_atomicarg(zpl_i64) original;
             zpl_atomicarg(zpl_i64) tmp;
-            __asm__(
+            __asm__ volatile(
                 "1:     movq    %1, %0\n"
                 "       movq    %0, %2\n"
                 "       andq    %3, %2\n"
@@ -303,6 +330,7 @@ ZPL_BEGIN_C_DECLS
                 "       jne     1b"
                 : "=&a"(original), "+m"(a->value), "=&r"(tmp)
                 : "r"(operand)
+                : "memory"
                 );
             return original;
 #        else
@@ -318,7 +346,7 @@ ZPL_BEGIN_C_DECLS
 #        if defined(ZPL_ARCH_64_BIT)
             zpl_atomicarg(zpl_i64) original;
             zpl_atomicarg(zpl_i64) temp;
-            __asm__(
+            __asm__ volatile(
                 "1:     movq    %1, %0\n"
                 "       movq    %0, %2\n"
                 "       orq     %3, %2\n"
@@ -326,6 +354,7 @@ ZPL_BEGIN_C_DECLS
                 "       jne     1b"
                 : "=&a"(original), "+m"(a->value), "=&r"(temp)
                 : "r"(operand)
+                : "memory"
                 );
             return original;
 #        else
@@ -337,6 +366,8 @@ ZPL_BEGIN_C_DECLS
 #        endif
     }
 
+#    undef zpl__atomic_barrier
+
 #elif !defined(ZPL_COMPILER_MSVC)
     zpl_i32 zpl_atomic32_load (zpl_atomic32 const *a) {
         return __atomic_load_n((zpl_i32*)&a->value, __ATOMIC_SEQ_CST);
-- 
2.43.0


From dd4b1b4c2a11913baf8fa41591f5a47d6005d4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:47 +0000
Subject: [PATCH 105/111] fix: appending a string to itself or setting it to a
 part of itself read freed or overlapping memory

---
 code/source/core/stringlib.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 68a96c7..7f44995 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -67,10 +67,15 @@ zpl_string zpl_string_sprintf(zpl_allocator a, char *buf, zpl_isize num_bytes, c
 zpl_string zpl_string_append_length(zpl_string str, void const *other, zpl_isize other_len) {
     if (other_len > 0) {
         zpl_isize curr_len = zpl_string_length(str);
+        // NOTE: The text may be (a part of) the string itself, which moves when it grows
+        zpl_b32 is_own = cast(zpl_uintptr)other - cast(zpl_uintptr)str <= cast(zpl_uintptr)curr_len;
+        zpl_isize own_offset = is_own ? cast(char const *)other - str : 0;
 
         str = zpl_string_make_space_for(str, other_len);
         if (str == NULL) return NULL;
 
+        if (is_own) other = str + own_offset;
+
         zpl_memcopy(str + curr_len, other, other_len);
         str[curr_len + other_len] = '\0';
         zpl__set_string_length(str, curr_len + other_len);
@@ -110,7 +115,8 @@ zpl_string zpl_string_set(zpl_string str, const char *cstr) {
         if (str == NULL) return NULL;
     }
 
-    zpl_memcopy(str, cstr, len);
+    // NOTE: The text may be a part of the string itself
+    zpl_memmove(str, cstr, len);
     str[len] = '\0';
     zpl__set_string_length(str, len);
 
-- 
2.43.0


From f3e4744483e2128d71782158e74b4ca2535bb2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:43 +0000
Subject: [PATCH 106/111] fix: JSON without outer braces was written with a
 closing brace when indented

---
 code/source/parsers/json.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 0feafee..3d58a90 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -487,6 +487,9 @@ zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
     zpl___ind(indent);
 
     if (indent > 0) {
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
+        if (!o->cfg_mode)
+#endif
         zpl__json_fprintf(f, "%c", o->type == ZPL_ADT_TYPE_OBJECT ? '}' : ']');
     } else {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-- 
2.43.0


From fd942a748b930564de8326b2057c32a72423ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:02 +0000
Subject: [PATCH 107/111] fix: a job pool handed jobs to workers whose thread
 could not be started, so they never ran

---
 code/source/jobs.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/source/jobs.c b/code/source/jobs.c
index 3ed6195..0263362 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -69,14 +69,18 @@ void zpl_jobs_init_with_limit(zpl_jobs_system *pool, zpl_allocator a, zpl_u32 ma
         q->chance = zpl__jobs_chances[i];
     }
 
-    for (zpl_usize i = 0; i < max_threads; ++i) {
+    for (zpl_usize i = 0; i < pool->max_threads; ++i) {
         zpl_thread_worker worker_ = { 0 };
         zpl_thread_worker *tw = pool->workers + i;
         *tw = worker_;
 
         zpl_thread_init(&tw->thread);
         zpl_atomic32_store(&tw->status, ZPL_JOBS_STATUS_WAITING);
-        zpl_thread_start(&tw->thread, zpl__jobs_entry, (void *)tw);
+        if (!zpl_thread_start(&tw->thread, zpl__jobs_entry, (void *)tw)) {
+            /* NOTE: no job may be handed to a worker without a thread, so do with those we have got */
+            zpl_thread_destroy(&tw->thread);
+            pool->max_threads = cast(zpl_u32)i;
+        }
     }
 }
 
@@ -103,6 +107,8 @@ zpl_b32 zpl_jobs_enqueue_with_priority(zpl_jobs_system *pool, zpl_jobs_proc proc
     job.proc = proc;
     job.data = data;
 
+    if (pool->max_threads == 0) return false; /* there is nobody to run it */
+
     if (!zpl_jobs_full(pool, priority)) {
         zpl__jobs_ring_append(&pool->queues[priority].jobs, job);
         return true;
-- 
2.43.0


From bd18c2da6068899e81bd75cf17721046d6ed3763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:02 +0000
Subject: [PATCH 108/111] fix: a job pool whose queues or workers could not be
 allocated crashed

---
 code/source/jobs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/jobs.c b/code/source/jobs.c
index 0263362..d1912a1 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -62,6 +62,7 @@ void zpl_jobs_init_with_limit(zpl_jobs_system *pool, zpl_allocator a, zpl_u32 ma
     pool->counter = 0;
 
     zpl_buffer_init(pool->workers, a, max_threads);
+    if (!pool->workers) pool->max_threads = 0;
 
     for (zpl_usize i = 0; i < ZPL_JOBS_MAX_PRIORITIES; ++i) {
         zpl_thread_queue *q = &pool->queues[i];
@@ -127,7 +128,7 @@ zpl_b32 zpl_jobs_empty(zpl_jobs_system *pool, zpl_jobs_priority priority) {
 
 zpl_b32 zpl_jobs_full(zpl_jobs_system *pool, zpl_jobs_priority priority) {
     ZPL_ASSERT(priority >= 0 && priority < ZPL_JOBS_MAX_PRIORITIES);
-    return zpl__jobs_ring_full(&pool->queues[priority].jobs);
+    return !pool->queues[priority].jobs.buf || zpl__jobs_ring_full(&pool->queues[priority].jobs);
 }
 
 zpl_b32 zpl_jobs_done(zpl_jobs_system *pool) {
-- 
2.43.0


From 681cd71930c6b5a5d51f3a2e7245129705150f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:05 +0000
Subject: [PATCH 109/111] fix: a printed fraction could have a digit too many
 (0.0014 as 0.001310) or garbage behind its 18th digit

---
 code/source/core/print.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index d928398..0c057c4 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -226,11 +226,13 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
         if (info->precision < 0) info->precision = 6;
 
         if ((info->flags & ZPL_FMT_ALT) || info->precision > 0) {
-            zpl_i64 mult = 10;
+            zpl_f64 mult = 10;
             if (remaining > 1) *text = '.', remaining--;
             text++;
             while (info->precision-- > 0) {
-                value = cast(zpl_u64)(arg * mult);
+                /* NOTE: rounding can leave a bit too much or less than nothing, but a digit has to stay a digit */
+                zpl_f64 digit = arg * mult;
+                value = (digit >= 10) ? 9 : (digit > 0) ? cast(zpl_u64) digit : 0;
                 len = zpl__print_u64(text, remaining, NULL, value);
                 text += len;
                 if (len >= remaining)
-- 
2.43.0


From 8e47f4b7760613012d949c9012ccf8f9f00986d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:56 +0000
Subject: [PATCH 110/111] fix: numbers of 2^64 and above, infinities and NaN
 were printed as unrelated digits

---
 code/source/core/print.c | 49 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index 0c057c4..fb86134 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -197,6 +197,37 @@ zpl_internal zpl_isize zpl__print_u64(char *text, zpl_isize max_len, zpl__format
     return zpl__print_string(text, max_len, info, num);
 }
 
+/* NOTE: writes the digits of a number of 2^64 or above, which is always whole: a 53-bit value shifted left */
+zpl_internal void zpl__f64_big_to_str(zpl_f64 arg, char *str) {
+    zpl_u32 digits[40] = { 0 }; /* nine decimal digits each, the lowest first */
+    zpl_i32 i, j, count = 1, shift = 0;
+
+    while (arg >= 9007199254740992.0) arg /= 2, shift++;
+    digits[0] = cast(zpl_u32)(cast(zpl_u64) arg % 1000000000);
+    digits[1] = cast(zpl_u32)(cast(zpl_u64) arg / 1000000000);
+    if (digits[1]) count = 2;
+
+    for (; shift > 0; shift--) {
+        zpl_u32 carry = 0;
+        for (i = 0; i < count; i++) {
+            zpl_u32 d = digits[i] * 2 + carry;
+            carry = d >= 1000000000;
+            digits[i] = carry ? d - 1000000000 : d;
+        }
+        if (carry) digits[count++] = carry;
+    }
+
+    zpl_u64_to_str(digits[count - 1], str, 10);
+    str += zpl_strlen(str);
+    for (i = count - 2; i >= 0; i--, str += 9) {
+        for (j = 8; j >= 0; j--) {
+            str[j] = cast(char)('0' + digits[i] % 10);
+            digits[i] /= 10;
+        }
+    }
+    *str = '\0';
+}
+
 zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_b32 is_hexadecimal, zpl_f64 arg) {
     // TODO: Handle exponent notation
     zpl_isize width, len, remaining = max_len;
@@ -213,8 +244,22 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
             text++;
         }
 
-        value = cast(zpl_u64) arg;
-        len = zpl__print_u64(text, remaining, NULL, value);
+        if (arg - arg != 0) {
+            len = zpl__print_string(text, remaining, NULL, arg != arg ? "nan" : "inf");
+            info->flags &= ~(ZPL_FMT_ZERO | ZPL_FMT_ALT);
+            info->precision = 0;
+            value = 0;
+            arg = 0;
+        } else if (arg >= 18446744073709551616.0) {
+            char num[320];
+            zpl__f64_big_to_str(arg, num);
+            len = zpl__print_string(text, remaining, NULL, num);
+            value = 0;
+            arg = 0;
+        } else {
+            value = cast(zpl_u64) arg;
+            len = zpl__print_u64(text, remaining, NULL, value);
+        }
         text += len;
 
         if (len >= remaining)
-- 
2.43.0


From d696fc29cfa4778b1555c79b839d739bcbcc24ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:17 +0000
Subject: [PATCH 111/111] fix: JSON names, CSV texts and URI origins of 64 KiB
 and more could not be written

---
 code/source/adt.c          | 10 +++++++++-
 code/source/parsers/csv.c  |  2 +-
 code/source/parsers/json.c | 14 ++++++++++----
 code/source/parsers/uri.c  |  2 +-
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 7501632..3972594 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -7,6 +7,14 @@ do {
     if (zpl_fprintf(s_, fmt_, ##__VA_ARGS__) < 0) return ZPL_ADT_ERROR_OUT_OF_MEMORY;                              \
 } while (0)
 
+/* NOTE: zpl_fprintf is limited to ZPL_PRINTF_MAXLEN bytes, a text is not */
+zpl_internal zpl_b32 zpl__adt_print_text(zpl_file *file, char const *text) {
+    zpl_isize len;
+    if (!text) text = "(null)";
+    len = zpl_strlen(text);
+    return len == 0 || zpl_file_write(file, text, len);
+}
+
 zpl_u8 zpl_adt_make_branch(zpl_adt_node *node, zpl_allocator backing, char const *name, zpl_b32 is_array) {
     zpl_u8 type = ZPL_ADT_TYPE_OBJECT;
     if (is_array) {
@@ -653,7 +661,7 @@ zpl_adt_error zpl_adt_print_string(zpl_file *file, zpl_adt_node *node, char cons
 
     do {
         p = zpl_str_skip_any(p, escaped_chars);
-        zpl__adt_fprintf(file, "%.*s", zpl_ptr_diff(b, p), b);
+        if (p != b && !zpl_file_write(file, b, zpl_ptr_diff(b, p))) return ZPL_ADT_ERROR_OUT_OF_MEMORY;
         if (*p && !!zpl_strchr(escaped_chars, *p)) {
             zpl__adt_fprintf(file, "%s%c", escape_symbol, *p);
             p++;
diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 585d421..469f9a2 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -196,7 +196,7 @@ zpl_b8 zpl__csv_write_record(zpl_file *file, zpl_csv_object *node, char delimite
                         return zpl__csv_write_record(file, &quoted, delimiter);
                     }
 #endif
-                    zpl__csv_fprintf(file, "%s", node->string);
+                    if (!zpl__adt_print_text(file, node->string)) return false;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
                 } break;
             }
diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 3d58a90..8b9e545 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -512,15 +512,19 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             switch (node->name_style) {
                 case ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE: {
-                    zpl__json_fprintf(f, "\"%s\"", node->name);
+                    zpl__json_fprintf(f, "\"");
+                    if (!zpl__adt_print_text(f, node->name)) return false;
+                    zpl__json_fprintf(f, "\"");
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_SINGLE_QUOTE: {
-                    zpl__json_fprintf(f, "\'%s\'", node->name);
+                    zpl__json_fprintf(f, "\'");
+                    if (!zpl__adt_print_text(f, node->name)) return false;
+                    zpl__json_fprintf(f, "\'");
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
-                    zpl__json_fprintf(f, "%s", node->name);
+                    if (!zpl__adt_print_text(f, node->name)) return false;
                 } break;
             }
 
@@ -537,7 +541,9 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
                 }
             }
 #else
-            zpl__json_fprintf(f, "\"%s\":%s", node->name, zpl__json_string_space(indent));
+            zpl__json_fprintf(f, "\"");
+            if (!zpl__adt_print_text(f, node->name)) return false;
+            zpl__json_fprintf(f, "\":%s", zpl__json_string_space(indent));
 #endif
         }
     }
diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 041f394..2611cbb 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -162,7 +162,7 @@ zpl_u8 zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     {
         origin = zpl_adt_query(obj, "__zpl_origin__");
         if (origin) {
-            zpl__uri_fprintf(f, ZPL_URI_ERROR_INTERNAL, "%s", origin->string);
+            if (!zpl__adt_print_text(f, origin->string)) return ZPL_URI_ERROR_INTERNAL;
         }
     }
     
-- 
2.43.0

