From e0c15d75841a6715e652e7d424178c08bb4d2efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 01/11] fix: barrier::arrive_and_drop lowers the expected count
 whichever arrival it is

---
 include/yamc_barrier.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index 135d717..033dcbe 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -66,12 +66,9 @@ class barrier {
   mutable std::condition_variable cv_;
   mutable std::mutex mtx_;
 
-  void phase_completion_step(bool drop)
+  void phase_completion_step()
   {
     completion_();
-    if (drop) {
-      --init_count_;
-    }
     counter_ = init_count_;
     ++phase_;
     cv_.notify_all();
@@ -108,7 +105,7 @@ public:
     arrival_token token{phase_};
     counter_ -= update;
     if (counter_ == 0) {
-      phase_completion_step(false);
+      phase_completion_step();
     }
     return token;
   }
@@ -129,7 +126,7 @@ public:
     auto arrival_phase = phase_;
     counter_ -= 1;
     if (counter_ == 0) {
-      phase_completion_step(false);
+      phase_completion_step();
     }
     while (phase_ <= arrival_phase) {
       cv_.wait(lk);
@@ -141,9 +138,10 @@ public:
     std::unique_lock<decltype(mtx_)> lk(mtx_);
     assert(0 < counter_);
     auto arrival_phase = phase_;
+    --init_count_;
     counter_ -= 1;
     if (counter_ == 0) {
-      phase_completion_step(true);
+      phase_completion_step();
     }
     while (phase_ <= arrival_phase) {
       cv_.wait(lk);
-- 
2.43.0


From 834d5ded0f2d23a51cf949b5a012204c406591c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 02/11] fix: barrier waits survive wrap-around of the phase
 counter

---
 include/yamc_barrier.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index 033dcbe..edbf42a 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -113,7 +113,7 @@ public:
   void wait(arrival_token&& arrival) const
   {
     std::unique_lock<decltype(mtx_)> lk(mtx_);
-    while (phase_ <= arrival.phase_) {
+    while (phase_ == arrival.phase_) {
       cv_.wait(lk);
     }
   }
@@ -128,7 +128,7 @@ public:
     if (counter_ == 0) {
       phase_completion_step();
     }
-    while (phase_ <= arrival_phase) {
+    while (phase_ == arrival_phase) {
       cv_.wait(lk);
     }
   }
@@ -143,7 +143,7 @@ public:
     if (counter_ == 0) {
       phase_completion_step();
     }
-    while (phase_ <= arrival_phase) {
+    while (phase_ == arrival_phase) {
       cv_.wait(lk);
     }
   }
-- 
2.43.0


From 95e7707b9e5a7b4c21a776f7e0fb7b94498e55d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 03/11] fix: wake readers blocked behind a writer whose timed
 lock gave up

---
 include/alternate_shared_mutex.hpp | 1 +
 include/checked_shared_mutex.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/alternate_shared_mutex.hpp b/include/alternate_shared_mutex.hpp
index 64b79e4..2342dbe 100644
--- a/include/alternate_shared_mutex.hpp
+++ b/include/alternate_shared_mutex.hpp
@@ -152,6 +152,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // blocked readers may be admitted now
         return false;
       }
     }
diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 4362520..5b63d55 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -301,6 +301,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // blocked readers may be admitted now
         return false;
       }
     }
-- 
2.43.0


From 10f5decf72a39c5e7b0c028b77897947c22c9e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 04/11] fix: a refused lock() of a checked shared mutex no
 longer counts as a waiting writer

---
 include/checked_shared_mutex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 5b63d55..88b5c4a 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -117,6 +117,8 @@ protected:
 #if YAMC_CHECKED_CALL_ABORT
         std::abort();
 #else
+        RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // blocked readers may be admitted now
         throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
 #endif
       }
-- 
2.43.0


From 916a44c9f23d040d1d118219a23be1f39d6ad421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 05/11] fix: lock validator forgets the waiter of a refused
 wait

---
 include/yamc_lock_validator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index 008d74e..0964fbd 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -162,6 +162,7 @@ public:
         << " " << (shared ? "shared-lock" : "lock") << '\n';
       dump_mutexmap(std::cout, table.mutexmap);
       std::cout << "==== DEADLOCK DETECTED ====" << std::endl;
+      remove_elem(table.mutexmap[mkey].waiters, tid);
       return false;
     }
 #if YAMC_CHECK_VERBOSE
-- 
2.43.0


From fc2891e0bc886848e116dc4d6803c2555da62290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 06/11] fix: posix semaphore accepts deadlines before the epoch

---
 include/posix_semaphore.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index 4775445..63cc837 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -87,6 +87,11 @@ class counting_semaphore {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {
+      // before the epoch, tv_nsec must be normalized in range [0, 1000000000)
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
 
     errno = 0;
     if (::sem_timedwait(&sem_, &abs_timeout) == 0) {
-- 
2.43.0


From cccf8a59fe8093fe236a8762a80e41d55349c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 07/11] fix: posix semaphore retries waits interrupted by a
 signal

---
 include/posix_semaphore.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index 63cc837..e9df374 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -27,6 +27,7 @@
 #define POSIX_SEMAPHORE_HPP_
 
 #include <cassert>
+#include <cerrno>
 #include <cstddef>
 #include <chrono>
 #include <system_error>
@@ -94,12 +95,14 @@ class counting_semaphore {
     }
 
     errno = 0;
-    if (::sem_timedwait(&sem_, &abs_timeout) == 0) {
-      return true;
-    } else if (errno != ETIMEDOUT) {
-      throw_errno("sem_timedwait");
+    while (::sem_timedwait(&sem_, &abs_timeout) != 0) {
+      if (errno == ETIMEDOUT) {
+        return false;
+      } else if (errno != EINTR) {  // retry if interrupted by a signal
+        throw_errno("sem_timedwait");
+      }
     }
-    return false;
+    return true;
   }
 
 public:
@@ -138,8 +141,10 @@ public:
   void acquire()
   {
     errno = 0;
-    if (::sem_wait(&sem_) != 0) {
-      throw_errno("sem_wait");
+    while (::sem_wait(&sem_) != 0) {
+      if (errno != EINTR) {  // retry if interrupted by a signal
+        throw_errno("sem_wait");
+      }
     }
   }
 
-- 
2.43.0


From f3fae48935eede64bb65ef795e7f2f91b23750f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 08/11] fix: unlock of an empty shared_lock throws also in
 debug builds

---
 include/yamc_shared_lock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yamc_shared_lock.hpp b/include/yamc_shared_lock.hpp
index 229fd15..77a738e 100644
--- a/include/yamc_shared_lock.hpp
+++ b/include/yamc_shared_lock.hpp
@@ -159,10 +159,10 @@ public:
 
   void unlock()
   {
-    assert(pm_ != nullptr);
     if (!owns_) {
       throw std::system_error(std::make_error_code(std::errc::operation_not_permitted), "shared_lock::unlock");
     }
+    assert(pm_ != nullptr);
     pm_->unlock_shared();
     owns_ = false;
   }
-- 
2.43.0


From 73eeb13855c830968eea3d69e45ebbc195d41806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 09/11] fix: win: timed operations with an elapsed timeout must
 not block

The negative millisecond count was converted to DWORD, so that the call blocked
for up to 49 days (forever when it equals INFINITE) instead of returning at once.
---
 include/win_native_mutex.hpp | 4 +++-
 include/win_semaphore.hpp    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index 85d8990..bfafd5d 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -68,7 +68,9 @@ class native_mutex {
   {
     using namespace std::chrono;
     // round up timeout to milliseconds precision
-    DWORD timeout_in_msec = static_cast<DWORD>(duration_cast<milliseconds>(timeout + nanoseconds{999999}).count());
+    // (a timeout that has already elapsed shall not wrap around to a huge DWORD value)
+    auto msec = duration_cast<milliseconds>(timeout + nanoseconds{999999}).count();
+    DWORD timeout_in_msec = static_cast<DWORD>(0 < msec ? msec : 0);
     DWORD result = ::WaitForSingleObject(hmtx_, timeout_in_msec);
 #if YAMC_WIN_ACCURATE_TIMEOUT
     if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index c70550b..49c514b 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -71,7 +71,9 @@ class counting_semaphore {
   {
     using namespace std::chrono;
     // round up timeout to milliseconds precision
-    DWORD timeout_in_msec = static_cast<DWORD>(duration_cast<milliseconds>(timeout + nanoseconds{999999}).count());
+    // (a timeout that has already elapsed shall not wrap around to a huge DWORD value)
+    auto msec = duration_cast<milliseconds>(timeout + nanoseconds{999999}).count();
+    DWORD timeout_in_msec = static_cast<DWORD>(0 < msec ? msec : 0);
     DWORD result = ::WaitForSingleObject(hsem_, timeout_in_msec);
 #if YAMC_WIN_ACCURATE_TIMEOUT
     if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
-- 
2.43.0


From 6af4636c2898ac82dce78f9c22a6533c1e91109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 10/11] fix: win::native_mutex::native_handle returns the mutex
 handle

It returned the address of the member variable converted to HANDLE (void*).
---
 include/win_native_mutex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index bfafd5d..3de4d41 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -144,7 +144,7 @@ public:
   using native_handle_type = ::HANDLE;
   native_handle_type native_handle()
   {
-    return &hmtx_;
+    return hmtx_;
   }
 };
 
-- 
2.43.0


From c6767eb4af28e879c9b7d70e96c290ee47ef0253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 11/11] fix: win::counting_semaphore::release(0) must not fail

ReleaseSemaphore() rejects a zero release count, so that release(0) threw
system_error although it satisfies its precondition.
---
 include/win_semaphore.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index 49c514b..2a4585f 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -123,6 +123,9 @@ public:
   void release(std::ptrdiff_t update = 1)
   {
     validate_native_handle("counting_semaphore::release");
+    if (update == 0) {
+      return;  // ReleaseSemaphore() fails when release count is zero
+    }
     BOOL result = ::ReleaseSemaphore(hsem_, (LONG)update, NULL);
     if (!result) {
       // [thread.mutex.requirements.mutex]
-- 
2.43.0

