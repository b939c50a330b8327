From 76a45c9a9ea5ebe9f176478eb67b8225b565fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 01/26] fix: keep timers and socket notifiers alive until their
 handler was left

The operation queued for a handler completed the worker's barrier while its
cancelable_scope was still open. The worker could then drop the last reference
so that leaving the scope accessed a destroyed timer/notifier, e.g. with every
queue::after().
---
 src/naive/naive_socket_notifier.cpp | 19 ++++++++++++-------
 src/naive/naive_timer.cpp           | 14 +++++++++-----
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 488c74d..3cfc934 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -155,18 +155,23 @@ public:
 
                     const auto handler = this_ptr->m_handler;
                     const auto queue = this_ptr->m_queue;
-                    auto& handler_cancelable = this_ptr->m_handler_cancelable;
-
                     // no member access beyond this!
                     inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
 
                     lightweight_barrier barrier;
+                    // keep the notifier alive until the handler was left and
+                    // only complete the barrier as the very last step, the
+                    // barrier and the notifier may be gone as soon as it got
+                    // completed
                     queue->async(make_operation(
-                      [handler, socket, type, &barrier, &handler_cancelable] {
-                          cancelable_scope scope(handler_cancelable);
-                          if (scope) {
-                              execute_operation_on_this_thread(
-                                *handler, socket, type);
+                      [this_ptr, handler, socket, type, &barrier] {
+                          {
+                              cancelable_scope scope(
+                                this_ptr->m_handler_cancelable);
+                              if (scope) {
+                                  execute_operation_on_this_thread(
+                                    *handler, socket, type);
+                              }
                           }
                           barrier.complete();
                       }));
diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index 239de07..c19bc23 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -98,15 +98,19 @@ public:
                 const auto handler = this_ptr->m_handler;
                 const auto interval = this_ptr->m_interval;
                 const auto queue = this_ptr->m_queue;
-                auto& cancelable = this_ptr->m_cancelable;
 
                 inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
 
                 lightweight_barrier barrier;
-                queue->async(make_operation([handler, &barrier, &cancelable] {
-                    cancelable_scope scope(cancelable);
-                    if (scope) {
-                        execute_operation_on_this_thread(*handler);
+                // keep the timer alive until the handler was left and only
+                // complete the barrier as the very last step, the barrier and
+                // the timer may be gone as soon as it got completed
+                queue->async(make_operation([this_ptr, handler, &barrier] {
+                    {
+                        cancelable_scope scope(this_ptr->m_cancelable);
+                        if (scope) {
+                            execute_operation_on_this_thread(*handler);
+                        }
                     }
                     barrier.complete();
                 }));
-- 
2.43.0


From 5e9b8023650d0ffab31241999948e237ee00e217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 02/26] fix: stop the worker of a suspended or cancelled timer

suspend() followed by resume() while the previous worker was still
sleeping left two workers running, each of them firing the handler at the
given interval. A resume() after cancel() restarted the worker.
---
 src/naive/naive_timer.cpp | 104 ++++++++++++++++++++++++++++++--------
 1 file changed, 82 insertions(+), 22 deletions(-)

diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index c19bc23..bc552ba 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -26,6 +26,9 @@
 #include "naive_threadpool.h"
 #include "naive_inverse_lockguard.h"
 
+#include <condition_variable>
+#include <mutex>
+
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
@@ -44,6 +47,8 @@ public:
       , m_pool(pool)
       , m_handler()
       , m_running(0)
+      , m_worker_cookie(0)
+      , m_dispatching(false)
       , m_cancelable()
     {}
 
@@ -78,46 +83,65 @@ public:
     void resume(std::chrono::milliseconds delay) final
     {
         std::lock_guard<std::mutex> lock(m_CS);
+        if (m_running < 0) {
+            // cancelled so do not proceed
+            return;
+        }
         if (1 != ++m_running) {
             // only proceed when we become runnable
             return;
         }
 
         const auto this_ptr = shared_from_this();
+        const auto cookie = m_worker_cookie;
 
         // the timer will execute via a helper borrowed from the
         // global default threadpool. It is ensured that enough
         // threads are available for the pool even though the
         // timer is blocking while it is active
-        auto timer_op = make_operation([this_ptr, delay] {
+        auto timer_op = make_operation([this_ptr, cookie, delay] {
             ithreadpool::block_scope blocked;
-            std::this_thread::sleep_for(delay);
 
             std::unique_lock<std::mutex> lock(this_ptr->m_CS);
-            while (this_ptr->m_running > 0) {
+            this_ptr->sleep_unsafe(lock, cookie, delay);
+
+            while (cookie == this_ptr->m_worker_cookie) {
+                // a handler queued by the worker of an earlier resume() may
+                // still be pending, never have two of them
+                if (this_ptr->m_dispatching) {
+                    this_ptr->m_cond.wait(lock);
+                    continue;
+                }
+
                 const auto handler = this_ptr->m_handler;
                 const auto interval = this_ptr->m_interval;
                 const auto queue = this_ptr->m_queue;
-
-                inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
-
-                lightweight_barrier barrier;
-                // keep the timer alive until the handler was left and only
-                // complete the barrier as the very last step, the barrier and
-                // the timer may be gone as soon as it got completed
-                queue->async(make_operation([this_ptr, handler, &barrier] {
-                    {
-                        cancelable_scope scope(this_ptr->m_cancelable);
-                        if (scope) {
-                            execute_operation_on_this_thread(*handler);
+                this_ptr->m_dispatching = true;
+
+                {
+                    inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
+
+                    lightweight_barrier barrier;
+                    // keep the timer alive until the handler was left and only
+                    // complete the barrier as the very last step, the barrier
+                    // and the timer may be gone as soon as it got completed
+                    queue->async(make_operation([this_ptr, handler, &barrier] {
+                        {
+                            cancelable_scope scope(this_ptr->m_cancelable);
+                            if (scope) {
+                                execute_operation_on_this_thread(*handler);
+                            }
                         }
-                    }
-                    barrier.complete();
-                }));
-                barrier.wait();
+                        barrier.complete();
+                    }));
+                    barrier.wait();
+                }
+
+                this_ptr->m_dispatching = false;
+                this_ptr->m_cond.notify_all();
 
                 if (interval.count() > 0) {
-                    std::this_thread::sleep_for(interval);
+                    this_ptr->sleep_unsafe(lock, cookie, interval);
                 } else {
                     // singleshot timer
                     break;
@@ -132,14 +156,23 @@ public:
     void suspend() override
     {
         std::lock_guard<std::mutex> lock(m_CS);
-        --m_running;
+        if (m_running > 0) {
+            --m_running;
+            // when we have just suspended increment the cookie
+            // so any workers kicked off with the previous cookie
+            // know they should end.
+            if (0 == m_running) {
+                stop_workers_unsafe();
+            }
+        }
     }
 
     void cancel() override
     {
         {
             std::lock_guard<std::mutex> lock(m_CS);
-            m_running = 0;
+            m_running = -1;
+            stop_workers_unsafe();
         }
         m_cancelable.disable();
     }
@@ -147,13 +180,40 @@ public:
     backend_type backend() final { return m_backend; }
 
 private:
+    /**
+        @brief Sleeps the worker for duration or until it got stopped
+     */
+    void sleep_unsafe(std::unique_lock<std::mutex>& lock,
+                      int cookie,
+                      std::chrono::milliseconds duration)
+    {
+        // protects against overflows when the deadline gets calculated
+        static constexpr std::chrono::milliseconds skMaxSleep =
+          std::chrono::hours(24 * 365);
+        m_cond.wait_for(lock,
+                        duration < skMaxSleep ? duration : skMaxSleep,
+                        [this, cookie] { return cookie != m_worker_cookie; });
+    }
+
+    /**
+        @brief Makes all active workers end as soon as possible
+     */
+    void stop_workers_unsafe()
+    {
+        ++m_worker_cookie;
+        m_cond.notify_all();
+    }
+
     const backend_type m_backend;
     std::mutex m_CS;
+    std::condition_variable m_cond;
     std::chrono::milliseconds m_interval;
     iqueue_impl_ptr m_queue;
     ithreadpool_ptr m_pool;
     operation_ptr m_handler;
     int m_running;
+    int m_worker_cookie;
+    bool m_dispatching;
     cancelable m_cancelable;
 };
 
-- 
2.43.0


From ad0fa08343e238815e3d8326cba05b7b661013be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 03/26] fix: do not report a group as completed while
 operations are pending

group.wait() waited for a batch which was already completed by its first
operation as soon as that operation had finished before the next one was
added to the group. Every wait() with a timeout also added another element
to the chain of consumables, each applying the full timeout again and
finally overflowing the stack.
---
 src/naive/naive_consumable.cpp | 32 +++++++++++----------
 src/naive/naive_consumable.h   | 19 +++++++++----
 src/naive/naive_group.cpp      | 51 +++++++++++++++++++++++-----------
 3 files changed, 66 insertions(+), 36 deletions(-)

diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index f2459c0..bf3106f 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -26,9 +26,8 @@
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
-consumable::consumable(size_t resources, const consumable_ptr& preceeding)
-  : m_preceeding(preceeding)
-  , m_resources(resources)
+consumable::consumable(size_t resources)
+  : m_resources(resources)
 {}
 
 void
@@ -37,6 +36,14 @@ consumable::add_resource()
     m_resources.fetch_add(size_t(1));
 }
 
+void
+consumable::chain(const consumable_ptr& succeeding)
+{
+    XDISPATCH_ASSERT(!m_succeeding);
+    succeeding->add_resource();
+    m_succeeding = succeeding;
+}
+
 void
 consumable::consume_resource()
 {
@@ -46,23 +53,20 @@ consumable::consume_resource()
     // the count is one at the time of this call
     // we can complete the barrier
     if (1 == m_resources.fetch_sub(size_t(1))) {
+        // done as a loop, a long chain must not overflow the stack
+        auto succeeding = std::move(m_succeeding);
         m_barrier.complete();
+        while (succeeding && 1 == succeeding->m_resources.fetch_sub(1)) {
+            const auto current = std::move(succeeding);
+            succeeding = std::move(current->m_succeeding);
+            current->m_barrier.complete();
+        }
     }
 }
 
-// Recursion is no risk because infinite recursion is guarded by checking
-// preceeding against this
 bool
-consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
+consumable::wait_for_consumed(const std::chrono::milliseconds timeout)
 {
-    // make sure that the preceeding consumable is satisfied
-    if (m_preceeding && m_preceeding.get() != this) {
-        if (m_preceeding->wait_for_consumed(timeout)) {
-            // satisfied, continue with this
-        } else {
-            return false;
-        }
-    }
     // if no resources have been available or consumed
     // the barrier will never be completed but the consumable
     // can be considered as fully satisfied still
diff --git a/src/naive/naive_consumable.h b/src/naive/naive_consumable.h
index 605f770..085ac1b 100644
--- a/src/naive/naive_consumable.h
+++ b/src/naive/naive_consumable.h
@@ -48,12 +48,8 @@ public:
 
         @param resources The initial number of resources
                     that can be consumed from the very beginning
-        @param preceeding A preceeding consumable that needs to be
-                    freed up as well before this consumable
-                    is considered as fully consumed
      */
-    explicit consumable(size_t resources = 0,
-                        const consumable_ptr& preceeding = consumable_ptr());
+    explicit consumable(size_t resources = 0);
 
     /**
         @brief Adds an additional free resource to the consumable
@@ -64,6 +60,17 @@ public:
      */
     void add_resource();
 
+    /**
+        @brief Chains another consumable so that it is not considered
+               as fully consumed before this one
+
+        Only one consumable can be chained and this needs to be done while
+        there are still resources left to be consumed.
+
+        @param succeeding The consumable that will have to wait for this one
+     */
+    void chain(const consumable_ptr& succeeding);
+
     /**
         @brief Consumes a resource removing it from the list of
                available resources
@@ -83,7 +90,7 @@ public:
       std::chrono::milliseconds timeout = std::chrono::milliseconds(-1));
 
 private:
-    const consumable_ptr m_preceeding;
+    consumable_ptr m_succeeding;
     std::atomic<size_t> m_resources;
     lightweight_barrier m_barrier;
 };
diff --git a/src/naive/naive_group.cpp b/src/naive/naive_group.cpp
index 7a7f3e5..c704160 100644
--- a/src/naive/naive_group.cpp
+++ b/src/naive/naive_group.cpp
@@ -27,6 +27,8 @@
 #include "naive_operations.h"
 #include "naive_threadpool.h"
 
+#include <mutex>
+
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
@@ -39,35 +41,46 @@ public:
       : igroup_impl()
       , m_pool(pool)
       , m_backend(backend)
-      , m_consumable(std::make_shared<consumable>())
+      , m_consumable(std::make_shared<consumable>(1))
+      , m_consumable_used(false)
     {}
 
     ~group_impl() override = default;
 
     void async(const operation_ptr& op, const iqueue_impl_ptr& q) final
     {
-        const auto c = std::atomic_load(&m_consumable);
-        XDISPATCH_ASSERT(c);
-        c->add_resource();
+        consumable_ptr c;
+        {
+            std::lock_guard<std::mutex> lock(m_CS);
+            c = m_consumable;
+            c->add_resource();
+            m_consumable_used = true;
+        }
         q->async(std::make_shared<consuming_operation>(op, c));
     }
 
     bool wait(std::chrono::milliseconds timeout) final
     {
-        // swap the previous consumable with a new one that all operations
+        // exchange the current consumable with a new one that all operations
         // submitted after this call will be added to and which waits on the
-        // previous consumable in a chain. Use a compare/exchange and retry
-        // whenever the consumable was already swapped by another thread
+        // current consumable in a chain.
         consumable_ptr old_c;
-        consumable_ptr new_c;
-        do {
-            old_c = std::atomic_load(&m_consumable);
-            new_c = std::make_shared<consumable>(0, old_c);
-        } while (
-          !std::atomic_compare_exchange_weak(&m_consumable, &old_c, new_c));
-        XDISPATCH_ASSERT(old_c);
-        XDISPATCH_ASSERT(new_c);
-        return old_c->wait_for_consumed(timeout);
+        {
+            std::lock_guard<std::mutex> lock(m_CS);
+            if (m_consumable_used) {
+                const auto new_c = std::make_shared<consumable>(1);
+                m_consumable->chain(new_c);
+                m_preceeding = std::move(m_consumable);
+                m_consumable = new_c;
+                m_consumable_used = false;
+                // the group owned one resource so that the consumable could
+                // not be fully consumed while operations are still added to it
+                m_preceeding->consume_resource();
+            }
+            // nothing was submitted since the previous exchange otherwise
+            old_c = m_preceeding;
+        }
+        return !old_c || old_c->wait_for_consumed(timeout);
 
         // FIXME(zwicker): This is blocking and will not work if invoked from
         // within
@@ -97,7 +110,13 @@ public:
 private:
     const ithreadpool_ptr m_pool;
     const backend_type m_backend;
+    std::mutex m_CS;
+    // used by the operations submitted since the last exchange in wait(..),
+    // always holds one additional resource owned by the group itself
     consumable_ptr m_consumable;
+    bool m_consumable_used;
+    // the consumable replaced by the last exchange
+    consumable_ptr m_preceeding;
 };
 
 igroup_impl_ptr
-- 
2.43.0


From fffb27328beac7f04b73952463168fdd718890f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 04/26] fix: do not overflow when waiting with a huge timeout

The deadline calculated for milliseconds::max() as used by group.notify()
overflowed so that the notification was submitted immediately.
---
 src/lightweight_barrier.cpp | 9 ++++++++-
 src/naive/naive_group.cpp   | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index 03c0d5b..8775b85 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -22,6 +22,7 @@
 #include "xdispatch/impl/lightweight_barrier.h"
 #include "xdispatch_internal.h"
 
+#include <algorithm>
 #include <cstdlib>
 #include <mutex>
 #include <condition_variable>
@@ -38,6 +39,10 @@ static lightweight_barrier::waiter* const kCompleted{
       &kInvalidAddressUsedForCompleted)
 };
 
+// Any longer timeout cannot be told from waiting infinitely
+static constexpr std::chrono::milliseconds kMaxTimeout =
+  std::chrono::hours(24 * 365);
+
 class lightweight_barrier::waiter
 {
 public:
@@ -53,7 +58,9 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         if (!predicate()) {
             if (std::chrono::milliseconds(-1) != timeout) {
-                return m_cond.wait_for(lock, timeout, predicate);
+                // protects against overflows when the deadline gets calculated
+                return m_cond.wait_for(
+                  lock, std::min(timeout, kMaxTimeout), predicate);
             }
             m_cond.wait(lock, predicate);
             return true;
diff --git a/src/naive/naive_group.cpp b/src/naive/naive_group.cpp
index c704160..2ae5578 100644
--- a/src/naive/naive_group.cpp
+++ b/src/naive/naive_group.cpp
@@ -97,7 +97,7 @@ public:
             // note: wait(..) will already notify the threadpool that
             //       we are blocking one of its threads through our internal
             //       use of a consumable
-            this_ptr->wait(std::chrono::milliseconds::max());
+            this_ptr->wait(std::chrono::milliseconds(-1));
             q->async(op);
         });
 
-- 
2.43.0


From e73d6f1eec1fd2cacf2e512286c9dedd14bde5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 05/26] fix: do not lose the completion of a barrier on a
 spurious exchange failure

A weak compare/exchange may fail spuriously while the barrier has no owner
in which case complete() did nothing at all and wait() used a nullptr.
---
 src/lightweight_barrier.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index 8775b85..8f9adda 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -113,7 +113,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
     // try to become the owner of the mutex
     auto candidate = std::make_unique<waiter>();
     previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, candidate.get(), std::memory_order_acq_rel)) {
         // value was incomplete before, we are the owner now so wait
         auto* barrier = candidate.release();
@@ -124,7 +124,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
         return true;
     }
     // else: somebody else placed a waiter barrier before, use it instead
-    // (previous holds the barrier obtained from compare_exchange_weak above)
+    // (previous holds the barrier obtained from compare_exchange_strong above)
     return previous->wait(timeout);
 }
 
@@ -135,7 +135,7 @@ lightweight_barrier::complete()
     // branches are kept for readability
 
     auto* previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, kCompleted, std::memory_order_acq_rel)) { // NOLINT
         // nobody was waiting and now marked as complete
     } else if (kCompleted == previous) { // NOLINT
-- 
2.43.0


From 5795c26bb1a9a194aaf2d0698c38860945acb2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 06/26] fix: do not race with the handler when constructing or
 destroying a signal_barrier

The handler accessed the connection which may not have been stored yet and
values which were constructed after and destroyed before the connection.
---
 include/xdispatch/signals_barrier.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/xdispatch/signals_barrier.h b/include/xdispatch/signals_barrier.h
index 474b546..e925873 100644
--- a/include/xdispatch/signals_barrier.h
+++ b/include/xdispatch/signals_barrier.h
@@ -27,6 +27,7 @@
  * @{
  */
 
+#include <atomic>
 #include <tuple>
 
 #include "xdispatch/signals.h"
@@ -93,10 +94,15 @@ public:
     explicit signal_barrier(signal<void(Args...)>& signal)
       : m_signal(signal)
       , m_barrier()
+      , m_values()
+      , m_raised(false)
       , m_connection(signal.connect([this](Args... values) {
-          m_values.set(values...);
-          m_connection.disconnect();
-          m_barrier.complete();
+          // the handler may get invoked before the connection was stored and
+          // concurrently to itself so only the first one is to be considered
+          if (!m_raised.exchange(true)) {
+              m_values.set(values...);
+              m_barrier.complete();
+          }
       }))
     {}
 
@@ -154,8 +160,10 @@ public:
 private:
     signal<void(Args...)>& m_signal;
     lightweight_barrier m_barrier;
-    scoped_connection m_connection;
     value_holder<0> m_values;
+    std::atomic<bool> m_raised;
+    // keep this last, all of the above is used until it was disconnected
+    scoped_connection m_connection;
 };
 
 __XDISPATCH_END_NAMESPACE
-- 
2.43.0


From 722ca3232826f95c677600a23996a0f7c4e9472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 07/26] fix: do not drop signal invocations executing
 concurrently

A handler connected on a parallel queue only got entered if it was not
active already, any other queued invocation was silently dropped and
remained accounted as pending so that batch_updates never fired again.
Also a second concurrent disconnect did not wait for the active handler.
---
 include/xdispatch/impl/cancelable.h | 41 ++++++++++++-----------------
 src/cancelable.cpp                  | 34 +++++++++++-------------
 2 files changed, 32 insertions(+), 43 deletions(-)

diff --git a/include/xdispatch/impl/cancelable.h b/include/xdispatch/impl/cancelable.h
index 1ecac5e..8817ce8 100644
--- a/include/xdispatch/impl/cancelable.h
+++ b/include/xdispatch/impl/cancelable.h
@@ -22,7 +22,8 @@
 #ifndef XDISPATCH_CANCELABLE_H_
 #define XDISPATCH_CANCELABLE_H_
 
-#include <atomic>
+#include <condition_variable>
+#include <mutex>
 
 /**
  * @addtogroup xdispatch
@@ -30,7 +31,6 @@
  */
 
 #include "xdispatch/dispatch_decl.h"
-#include "xdispatch/impl/lightweight_barrier.h"
 
 __XDISPATCH_BEGIN_NAMESPACE
 
@@ -47,24 +47,15 @@ __XDISPATCH_BEGIN_NAMESPACE
 class XDISPATCH_EXPORT cancelable
 {
 public:
-    enum active_state
-    {
-        /**< Entity is not in a queue right now */
-        active_disabled = 0,
-        /**< Entity has been queued but not executed yet */
-        active_enabled,
-        /**< Entity is actively being executed */
-        active_running
-    };
-
     /**
        @brief Constructs an active (not disabled) cancelable.
      */
     cancelable();
 
     /**
-       Marks the entity as not to be queued anywhere,
-       i.e. sets it to active_disabled
+       Marks the entity as not to be queued anywhere and waits for
+       it not being active anymore unless invoked recursively, i.e.
+       from within the active entity
     */
     void disable();
 
@@ -73,28 +64,30 @@ protected:
 
     /**
         Notifies the entity that it is about to be called,
-        i.e. sets it to active_running if the entity had been enabled
 
-        Make sure to balance this with calls to leave().
+        An entity may be entered multiple times concurrently, make sure
+        to balance each successful enter() with a call to leave().
         It is recommended to not invoke this directly but go through
         cancelable_scope instead which manages this for you.
 
-        @returns true if the entity had been active_enabled
+        @returns true if the entity had not been disabled
     */
     bool enter();
 
     /**
-        Notifies the entity that the call is done,
-        i.e. sets it to active_enabled again if it had
-        been in the active_running state before
+        Notifies the entity that the call is done
     */
     void leave();
 
 private:
-    // the current state of the handler
-    std::atomic<active_state> m_active;
-    // barrier to ensure defined cancellation
-    lightweight_barrier m_barrier;
+    // protects the members below
+    std::mutex m_CS;
+    // notified once the entity is not active anymore
+    std::condition_variable m_cond;
+    // false as soon as the entity was disabled
+    bool m_enabled;
+    // the number of times the entity is active right now
+    int m_running;
 };
 
 /**
diff --git a/src/cancelable.cpp b/src/cancelable.cpp
index 46351aa..fc4023d 100644
--- a/src/cancelable.cpp
+++ b/src/cancelable.cpp
@@ -22,38 +22,35 @@
 #include "xdispatch/impl/cancelable.h"
 #include "xdispatch_internal.h"
 
-#include <cstdlib>
 #include <set>
 
 __XDISPATCH_BEGIN_NAMESPACE
 
-static thread_local std::set<cancelable*> current_c;
+static thread_local std::multiset<cancelable*> current_c;
 
 cancelable::cancelable()
-  : m_active(active_enabled)
+  : m_enabled(true)
+  , m_running(0)
 {}
 
 void
 cancelable::disable()
 {
-    if (current_c.find(this) != current_c.end()) {
-        // recursion
-        m_active.store(active_disabled);
-    } else {
-        auto current = m_active.exchange(active_disabled);
-        if (active_running == current) {
-            // tried to disable while still running
-            m_barrier.wait();
-        }
+    std::unique_lock<std::mutex> lock(m_CS);
+    m_enabled = false;
+    if (current_c.find(this) == current_c.end()) {
+        // no recursion, so wait for everyone being active right now
+        m_cond.wait(lock, [this] { return 0 == m_running; });
     }
 }
 
 bool
 cancelable::enter()
 {
-    auto expected = active_enabled;
-    if (m_active.compare_exchange_strong(expected, active_running)) {
+    std::lock_guard<std::mutex> lock(m_CS);
+    if (m_enabled) {
         current_c.insert(this);
+        ++m_running;
         return true;
     }
     // disabled
@@ -63,11 +60,10 @@ cancelable::enter()
 void
 cancelable::leave()
 {
-    current_c.erase(this);
-    auto expected = active_running;
-    if (!m_active.compare_exchange_strong(expected, active_enabled)) {
-        // disabled in the meantime
-        m_barrier.complete();
+    std::lock_guard<std::mutex> lock(m_CS);
+    current_c.erase(current_c.find(this));
+    if (0 == --m_running) {
+        m_cond.notify_all();
     }
 }
 
-- 
2.43.0


From a2b92303d8f8f2ea5880c78f953d5dd2c6913bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 08/26] fix: invoke handlers for signals emitted after
 skip_all()

skip_all() disabled all handlers for good instead of only the invocations
queued so far and waited for an active handler while holding the lock of
the signal.
---
 include/xdispatch/signals.h | 28 +++++++++++++++++++---------
 src/signals.cpp             | 11 +++++++++--
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index f59ef85..43cdcf9 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -31,6 +31,7 @@
 #include <vector>
 #include <mutex>
 #include <functional>
+#include <memory>
 
 #include "xdispatch/dispatch"
 #include "xdispatch/impl/cancelable.h"
@@ -247,12 +248,17 @@ protected:
         /// i.e. makes sure it is not executed anymore
         void disable();
 
+        /// Makes sure all invocations which are queued but not executing
+        /// yet will not be executed anymore
+        void skip_pending();
+
         // the queue to execute the handler on
         const queue m_queue;
         // the current state of the handler
         cancelable m_active;
-        // the number of items that have been queued
-        std::atomic<int> m_pending;
+        // the number of items that have been queued, this is
+        // replaced whenever the queued items need to be skipped
+        std::shared_ptr<std::atomic<int>> m_pending;
         // the mode in which the handler will be called
         notification_mode m_mode;
     };
@@ -388,20 +394,24 @@ public:
         std::lock_guard<std::mutex> lock(m_CS);
 
         for (const connection_handler_ptr& handler : m_handlers) {
-            auto pending = handler->m_pending++;
             if (notification_mode::_synchronous_update == handler->m_mode) {
                 cancelable_scope cancel_scope(handler->m_active);
                 if (cancel_scope) {
-                    handler->m_pending--;
                     std::static_pointer_cast<connection_handler_t>(handler)
                       ->m_func(argList...);
                 }
-            } else if (notification_mode::single_updates == handler->m_mode ||
-                       pending < 1) {
+                continue;
+            }
+
+            const auto pending = std::atomic_load(&handler->m_pending);
+            const auto previous = (*pending)++;
+            if (notification_mode::single_updates == handler->m_mode ||
+                previous < 1) {
                 auto invocation = [=] {
                     cancelable_scope cancel_scope(handler->m_active);
-                    if (cancel_scope) {
-                        handler->m_pending--;
+                    (*pending)--;
+                    if (cancel_scope &&
+                        pending == std::atomic_load(&handler->m_pending)) {
                         std::static_pointer_cast<connection_handler_t>(handler)
                           ->m_func(argList...);
                     }
@@ -412,7 +422,7 @@ public:
                     handler->m_queue.async(std::move(invocation));
                 }
             } else {
-                handler->m_pending--;
+                (*pending)--;
             }
         }
     }
diff --git a/src/signals.cpp b/src/signals.cpp
index 3872be6..48e9516 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -166,7 +166,7 @@ signal_p::connection_handler::connection_handler(const queue& q,
                                                  notification_mode m)
   : m_queue(q)
   , m_active()
-  , m_pending(0)
+  , m_pending(std::make_shared<std::atomic<int>>(0))
   , m_mode(m)
 {}
 
@@ -176,6 +176,13 @@ signal_p::connection_handler::disable()
     m_active.disable();
 }
 
+void
+signal_p::connection_handler::skip_pending()
+{
+    // all queued invocations hold the previous counter
+    std::atomic_store(&m_pending, std::make_shared<std::atomic<int>>(0));
+}
+
 signal_p::signal_p(const group& g)
   : m_group(new group(g))
 {}
@@ -219,7 +226,7 @@ signal_p::skip_all()
     std::lock_guard<std::mutex> lock(m_CS);
 
     for (const auto& handler : m_handlers) {
-        handler->disable();
+        handler->skip_pending();
     }
 }
 
-- 
2.43.0


From 55ef85832acad76bdb3df941acd79170a0cedc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 09/26] fix: do not access a destroyed signal from
 connection::disconnect()

A queued invocation keeps the handler alive so that a connection considered
its signal as alive, too. Also an active handler emitting or disconnecting
from the signal deadlocked with the destructor of the signal which was
holding the lock.
---
 include/xdispatch/signals.h | 10 +++++++
 src/signals.cpp             | 56 +++++++++++++++++++++++++------------
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index 43cdcf9..245bbf4 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -231,6 +231,12 @@ public:
     void skip_all();
 
 protected:
+    friend class connection;
+
+    /// Destroys the connection with the given id, independent of the
+    /// signal it belongs to being alive
+    static bool disconnect_handler(const std::shared_ptr<void>& id);
+
     /// Registers a connection for the given handler
     connection connect(const connection_handler_ptr& job);
 
@@ -261,6 +267,10 @@ protected:
         std::shared_ptr<std::atomic<int>> m_pending;
         // the mode in which the handler will be called
         notification_mode m_mode;
+        // protects the parent
+        std::mutex m_parent_CS;
+        // the signal this handler is connected to, null if destroyed
+        signal_p* m_parent;
     };
 
     // Protects parallel access
diff --git a/src/signals.cpp b/src/signals.cpp
index 48e9516..0666a91 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -126,10 +126,7 @@ connection::connection()
 bool
 connection::disconnect()
 {
-    bool disconnected = false;
-    if (m_parent) {
-        disconnected = m_parent->disconnect(*this);
-    }
+    const bool disconnected = signal_p::disconnect_handler(m_id.lock());
     m_id.reset();
     m_parent = nullptr;
     return disconnected;
@@ -168,6 +165,7 @@ signal_p::connection_handler::connection_handler(const queue& q,
   , m_active()
   , m_pending(std::make_shared<std::atomic<int>>(0))
   , m_mode(m)
+  , m_parent(nullptr)
 {}
 
 void
@@ -193,31 +191,52 @@ signal_p::signal_p()
 
 signal_p::~signal_p()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
+    std::vector<connection_handler_ptr> handlers;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        handlers.swap(m_handlers);
+    }
 
-    for (const auto& handler : m_handlers) {
+    // never wait for an active handler while holding the lock, the handler
+    // might need it as well
+    for (const auto& handler : handlers) {
+        {
+            // connections are still referring to the handler while it is queued
+            std::lock_guard<std::mutex> parent_lock(handler->m_parent_CS);
+            handler->m_parent = nullptr;
+        }
         handler->disable();
     }
-    m_handlers.clear();
 }
 
 bool
 signal_p::disconnect(connection& c)
 {
     const auto c_void = c.m_id.lock();
-    const auto c_handler = std::static_pointer_cast<connection_handler>(c_void);
-    if (c_handler) {
-        std::lock_guard<std::mutex> lock(m_CS);
-        const auto last =
-          std::remove(m_handlers.begin(), m_handlers.end(), c_handler);
-        m_handlers.erase(last, m_handlers.end());
-    }
     c.m_id.reset();
-    if (c_handler) {
-        c_handler->disable();
-        return true;
+    return disconnect_handler(c_void);
+}
+
+bool
+signal_p::disconnect_handler(const std::shared_ptr<void>& id)
+{
+    const auto handler = std::static_pointer_cast<connection_handler>(id);
+    if (!handler) {
+        return false;
+    }
+    {
+        std::lock_guard<std::mutex> parent_lock(handler->m_parent_CS);
+        // the signal may be gone already with the handler still queued
+        if (auto* const parent = handler->m_parent) {
+            std::lock_guard<std::mutex> lock(parent->m_CS);
+            auto& handlers = parent->m_handlers;
+            handlers.erase(
+              std::remove(handlers.begin(), handlers.end(), handler),
+              handlers.end());
+        }
     }
-    return false;
+    handler->disable();
+    return true;
 }
 
 void
@@ -233,6 +252,7 @@ signal_p::skip_all()
 connection
 signal_p::connect(const connection_handler_ptr& job)
 {
+    job->m_parent = this;
     {
         std::lock_guard<std::mutex> lock(m_CS);
         m_handlers.push_back(job);
-- 
2.43.0


From b135d1490bbad6d75b0ed6922daea609bbd27caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 10/26] fix: do not hold the lock of a connection_manager while
 disconnecting

A handler accessing the manager deadlocked with a thread which was waiting
for that handler to finish.
---
 src/signals.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/signals.cpp b/src/signals.cpp
index 0666a91..c17c522 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -20,6 +20,7 @@
  */
 
 #include <algorithm>
+#include <iterator>
 
 #include "xdispatch_internal.h"
 #include "xdispatch/signals.h"
@@ -34,19 +35,31 @@ connection_manager::~connection_manager()
 void
 connection_manager::reset_connections()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-    m_connections.clear();
+    // never wait for an active handler while holding the lock, the handler
+    // might need it as well
+    std::vector<scoped_connection> connections;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        connections.swap(m_connections);
+    }
 }
 
 void
 connection_manager::reset_connections_with(const signal_p& s)
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-    const auto last = std::remove_if(
-      m_connections.begin(),
-      m_connections.end(),
-      [&s](const scoped_connection& sc) { return sc.is_connected_to(s); });
-    m_connections.erase(last, m_connections.end());
+    // never wait for an active handler while holding the lock, the handler
+    // might need it as well
+    std::vector<scoped_connection> connections;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        const auto first = std::stable_partition(
+          m_connections.begin(),
+          m_connections.end(),
+          [&s](const scoped_connection& sc) { return !sc.is_connected_to(s); });
+        std::move(
+          first, m_connections.end(), std::back_inserter(connections));
+        m_connections.erase(first, m_connections.end());
+    }
 }
 
 connection_manager&
-- 
2.43.0


From c4715033407da5dfb9b3cabea956a73188969afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 11/26] fix: release the operation passed to
 waitable_queue::after()

The timer owned its handler which owned the timer so that neither the
timer nor the operation or the queue ever got released.
---
 src/waitable_queue.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 4876d4a..36aa872 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -159,11 +159,8 @@ public:
     {
         auto timer =
           backend_for_type(backend()).create_timer(shared_from_this());
-        timer->handler(make_operation([op, timer] {
-            execute_operation_on_this_thread(*op);
-            timer->cancel();
-        }));
-        timer->resume(delay);
+        naive::delayed_operation::create_and_dispatch(
+          std::move(timer), delay, op);
     }
 
     backend_type backend() override
-- 
2.43.0


From f71e4fe8d5642474fcb994111e457b934ac8f0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 12/26] fix: do not release operations of a waitable_queue
 while holding its lock

An operation owning an object which uses the queue on destruction
deadlocked.
---
 src/waitable_queue.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 36aa872..a86154c 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -61,6 +61,9 @@ public:
 
             lock.unlock();
             xdispatch::execute_operation_on_this_thread(*op);
+            // might be the last reference, what gets released by this is free
+            // to use the queue as well
+            op.reset();
             lock.lock();
             ++m_completed;
         }
-- 
2.43.0


From 7b19ff9c1f77a2e8aa60e8e9fed8d9408ca76f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 13/26] fix: support any file descriptor with a socket_notifier

Descriptors of FD_SETSIZE and beyond caused memory corruption, a closed
descriptor a busy loop as EBADF is never returned but stored in errno.
---
 src/naive/naive_socket_notifier.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 3cfc934..5a2a8c5 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -30,7 +30,7 @@
 #if (defined XDISPATCH2_HAVE_WINSOCK2)
     #include <winsock2.h>
 #elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-    #include <sys/select.h>
+    #include <poll.h>
 #else
     #error "naive_socket_notifier is not supported on this platform"
 #endif
@@ -107,11 +107,15 @@ public:
                 const auto type = this_ptr->m_type;
 
                 int res = -1;
+#if (defined XDISPATCH2_HAVE_SOCKETPAIR)
+                struct pollfd fd = {};
+#endif
                 {
                     inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
 
-                    struct timeval timeout;
                     constexpr auto k5sec = 5;
+#if (defined XDISPATCH2_HAVE_WINSOCK2)
+                    struct timeval timeout;
                     timeout.tv_sec = k5sec;
                     timeout.tv_usec = 0;
 
@@ -125,6 +129,14 @@ public:
                     } else {
                         res = select(nfds, nullptr, &fds, nullptr, &timeout);
                     }
+#elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
+                    // select() is limited to descriptors below FD_SETSIZE
+                    constexpr auto k1000ms = 1000;
+                    fd.fd = socket;
+                    fd.events =
+                      (notifier_type::READ == type) ? POLLIN : POLLOUT;
+                    res = poll(&fd, 1, k5sec * k1000ms);
+#endif
                 }
 
                 if (cookie != this_ptr->m_worker_cookie) {
@@ -140,7 +152,7 @@ public:
                     break;
                 }
 #elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-                if (EBADF == res) {
+                if (res > 0 && 0 != (fd.revents & POLLNVAL)) {
                     // socket was closed somewhere else
                     XDISPATCH_WARNING()
                       << "socket_notifier: Socket " << socket << " is invalid";
@@ -150,7 +162,7 @@ public:
                 if (res == 0) {
                     // timeout, try again
                 } else if (res > 0) {
-                    XDISPATCH_TRACE() << "socket_notifier: select(" << socket
+                    XDISPATCH_TRACE() << "socket_notifier: poll(" << socket
                                       << ") returned " << res;
 
                     const auto handler = this_ptr->m_handler;
@@ -177,7 +189,7 @@ public:
                       }));
                     barrier.wait();
                 } else {
-                    XDISPATCH_WARNING() << "socket_notifier: select(" << socket
+                    XDISPATCH_WARNING() << "socket_notifier: poll(" << socket
                                         << ") failed: " << strerror(errno);
                 }
             }
-- 
2.43.0


From e83b0b329d2f7edd6a220fb272368df22ea3f570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 14/26] fix: never queue a second socket_notifier handler when
 resuming

A resume() following a suspend() queued another handler while the one
queued before was still pending or active.
---
 src/naive/naive_socket_notifier.cpp | 64 ++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 5a2a8c5..6048c0d 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -35,7 +35,9 @@
     #error "naive_socket_notifier is not supported on this platform"
 #endif
 #include <cerrno>
+#include <condition_variable>
 #include <cstring>
+#include <mutex>
 
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
@@ -59,6 +61,7 @@ public:
       , m_handler()
       , m_resume_counter(0)
       , m_worker_cookie(0)
+      , m_dispatching(false)
     {}
 
     ~socket_notifier_impl() override { socket_notifier_impl::suspend(); }
@@ -87,10 +90,6 @@ public:
             return;
         }
 
-        // FIXME(zwicker): This needs to check if the previous
-        //                 suspend has actually been processed or elsewise
-        //                 we might end up with two handlers running
-
         const auto this_ptr = shared_from_this();
         const auto cookie = m_worker_cookie;
 
@@ -103,6 +102,13 @@ public:
 
             std::unique_lock<std::mutex> lock(this_ptr->m_CS);
             while (cookie == this_ptr->m_worker_cookie) {
+                // a handler queued by the worker of an earlier resume() may
+                // still be pending, never have two of them
+                if (this_ptr->m_dispatching) {
+                    this_ptr->m_cond.wait(lock);
+                    continue;
+                }
+
                 const auto socket = this_ptr->m_socket;
                 const auto type = this_ptr->m_type;
 
@@ -143,6 +149,10 @@ public:
                     // bail out if we were woken as a result of suspending
                     break;
                 }
+                if (this_ptr->m_dispatching) {
+                    // wait for the pending handler, then check again
+                    continue;
+                }
 
 #if (defined XDISPATCH2_HAVE_WINSOCK2)
                 if (SOCKET_ERROR == res && WSAENOTSOCK == WSAGetLastError()) {
@@ -167,27 +177,31 @@ public:
 
                     const auto handler = this_ptr->m_handler;
                     const auto queue = this_ptr->m_queue;
-                    // no member access beyond this!
-                    inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
+                    this_ptr->m_dispatching = true;
+                    {
+                        inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
 
-                    lightweight_barrier barrier;
-                    // keep the notifier alive until the handler was left and
-                    // only complete the barrier as the very last step, the
-                    // barrier and the notifier may be gone as soon as it got
-                    // completed
-                    queue->async(make_operation(
-                      [this_ptr, handler, socket, type, &barrier] {
-                          {
-                              cancelable_scope scope(
-                                this_ptr->m_handler_cancelable);
-                              if (scope) {
-                                  execute_operation_on_this_thread(
-                                    *handler, socket, type);
+                        lightweight_barrier barrier;
+                        // keep the notifier alive until the handler was left and
+                        // only complete the barrier as the very last step, the
+                        // barrier and the notifier may be gone as soon as it got
+                        // completed
+                        queue->async(make_operation(
+                          [this_ptr, handler, socket, type, &barrier] {
+                              {
+                                  cancelable_scope scope(
+                                    this_ptr->m_handler_cancelable);
+                                  if (scope) {
+                                      execute_operation_on_this_thread(
+                                        *handler, socket, type);
+                                  }
                               }
-                          }
-                          barrier.complete();
-                      }));
-                    barrier.wait();
+                              barrier.complete();
+                          }));
+                        barrier.wait();
+                    }
+                    this_ptr->m_dispatching = false;
+                    this_ptr->m_cond.notify_all();
                 } else {
                     XDISPATCH_WARNING() << "socket_notifier: poll(" << socket
                                         << ") failed: " << strerror(errno);
@@ -209,6 +223,7 @@ public:
             // know they should end.
             if (0 == m_resume_counter) {
                 ++m_worker_cookie;
+                m_cond.notify_all();
             }
         };
     }
@@ -219,6 +234,7 @@ public:
             std::lock_guard<std::mutex> lock(m_CS);
             m_resume_counter = -1;
             ++m_worker_cookie;
+            m_cond.notify_all();
         }
         m_handler_cancelable.disable();
     }
@@ -232,6 +248,7 @@ public:
 private:
     const backend_type m_backend;
     std::mutex m_CS;
+    std::condition_variable m_cond;
     const socket_t m_socket;
     const notifier_type m_type;
     iqueue_impl_ptr m_queue;
@@ -239,6 +256,7 @@ private:
     socket_notifier_operation_ptr m_handler;
     int m_resume_counter;
     int m_worker_cookie;
+    bool m_dispatching;
     cancelable m_handler_cancelable;
 };
 
-- 
2.43.0


From 5773725b944b8a80e1f8c13b0728955bd3dcc927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:52 +0000
Subject: [PATCH 15/26] fix: do not strand operations when a pool thread is
 waking up

An operation added after an idle thread had been woken but not updated the
idle count yet did not trigger another thread. It got stuck until the woken
thread had finished, forever if the operation it was executing had to wait
for the stranded one. Also account threads before they are started as the
limit was exceeded by concurrent calls and a thread becoming idle before
it was accounted triggered an assertion.
---
 src/naive/naive_semaphore.h    |  7 ++++
 src/naive/naive_threadpool.cpp | 59 +++++++++++++++++++---------------
 src/naive/naive_threadpool.h   |  2 +-
 3 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/src/naive/naive_semaphore.h b/src/naive/naive_semaphore.h
index 2480963..1cd6e5f 100644
--- a/src/naive/naive_semaphore.h
+++ b/src/naive/naive_semaphore.h
@@ -84,6 +84,13 @@ public:
      */
     void release(int count = 1);
 
+    /**
+        @return the current count, i.e. how often the semaphore could be
+                acquired without blocking. Might be outdated by the time
+                the call returns.
+     */
+    int count() const { return m_count.load(); }
+
 private:
     std::atomic<int> m_count;
     std::atomic<int> m_waiters;
diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index c995561..1b03e1a 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -149,7 +149,7 @@ public:
                     // spin_acquire() as well but this is kept in here for now
                     // to keep the fast path as simple as possible.
                     const auto idle_threads = m_data->m_idle_threads.fetch_add(
-                                                1, std::memory_order_acq_rel) +
+                                                1) +
                                               1;
                     const auto active_threads =
                       m_data->m_active_threads.load(std::memory_order_consume);
@@ -163,14 +163,11 @@ public:
                     if (m_data->m_operations_counter.wait_acquire(
                           skMaxSleepBeforeThreadExit)) {
                         // all good go pick the operation
-                        m_data->m_idle_threads.fetch_sub(
-                          1, std::memory_order_release);
+                        m_data->m_idle_threads.fetch_sub(1);
                     } else {
                         // end this thread it seems there is no work remaining
-                        m_data->m_idle_threads.fetch_sub(
-                          1, std::memory_order_release);
-                        m_data->m_active_threads.fetch_sub(
-                          1, std::memory_order_release);
+                        m_data->m_idle_threads.fetch_sub(1);
+                        m_data->m_active_threads.fetch_sub(1);
 
                         // Opportunistic recovery:
                         // There is a chance that while we made the decision to
@@ -186,12 +183,19 @@ public:
                         if (m_data->m_operations_counter.try_acquire()) {
                             // found another operation, restore the active
                             // counter and go pick/execute that operation
-                            m_data->m_active_threads.fetch_add(
-                              1, std::memory_order_release);
+                            m_data->m_active_threads.fetch_add(1);
                         } else {
                             break;
                         }
                     }
+
+                    // More work may have been added before we updated the
+                    // idle count in which case the entity adding it was still
+                    // relying on us and did not trigger a new thread. We are
+                    // going to be busy so make up for that.
+                    if (m_data->m_operations_counter.count() > 0) {
+                        threadpool::schedule(m_data);
+                    }
                 }
 
                 // search for the next operation starting with the highest
@@ -285,7 +289,7 @@ threadpool::execute(const operation_ptr& work, const queue_priority priority)
     if (enqueued) {
         m_data->m_operations_counter.release();
     }
-    schedule();
+    schedule(m_data);
 }
 
 ithreadpool_ptr
@@ -304,33 +308,36 @@ backend::global_threadpool()
 }
 
 void
-threadpool::schedule()
+threadpool::schedule(const data_ptr& data)
 {
     // lets check if there is an idle thread first
-    const int active_threads =
-      m_data->m_active_threads.load(std::memory_order_consume);
-    const int idle_threads =
-      m_data->m_idle_threads.load(std::memory_order_consume);
+    const int idle_threads = data->m_idle_threads.load();
+    int active_threads = data->m_active_threads.load();
     XDISPATCH_ASSERT(idle_threads >= 0);
     XDISPATCH_ASSERT(active_threads >= 0);
-    XDISPATCH_ASSERT(idle_threads <= active_threads &&
-                     "We must never have more idle than active threads");
 
     if (idle_threads > 0) {
         // idle count will be decremented by thread waking up again
-        XDISPATCH_TP_TRACE(this, active_threads, idle_threads)
+        XDISPATCH_TP_TRACE(data->m_pool, active_threads, idle_threads)
           << "Woke an idle thread";
+        return;
     }
-    // check if we are good to create another thread
-    else if (active_threads <
-             m_data->m_max_threads.load(std::memory_order_consume)) {
-        auto thread = std::make_shared<worker>(m_data);
+
+    // check if we are good to create another thread, needs to be accounted
+    // before the thread is started as others are scheduling concurrently
+    while (active_threads < data->m_max_threads.load()) {
+        if (!data->m_active_threads.compare_exchange_weak(
+              active_threads, active_threads + 1)) {
+            continue;
+        }
+
+        auto thread = std::make_shared<worker>(data);
         operation_queue_manager::instance().attach(thread);
-        m_data->m_active_threads.fetch_add(1, std::memory_order_release);
 
-        XDISPATCH_TP_TRACE(this, active_threads + 1, idle_threads)
+        XDISPATCH_TP_TRACE(data->m_pool, active_threads + 1, idle_threads)
           << "Spawned thread " << thread->get_id()
-          << " (max=" << m_data->m_max_threads << ")";
+          << " (max=" << data->m_max_threads << ")";
+        return;
     }
     // all threads busy and processor allocation reached, wait
     // and the operation will be picked up as soon as a thread is available
@@ -346,7 +353,7 @@ threadpool::notify_thread_blocked()
     const auto idle = m_data->m_idle_threads.load(std::memory_order_consume);
     XDISPATCH_TP_TRACE(this, active, idle)
       << "Increased threadcount to " << max_threads;
-    schedule();
+    schedule(m_data);
 }
 
 void
diff --git a/src/naive/naive_threadpool.h b/src/naive/naive_threadpool.h
index 3f624a6..eca2559 100644
--- a/src/naive/naive_threadpool.h
+++ b/src/naive/naive_threadpool.h
@@ -91,7 +91,7 @@ private:
     class data;
     using data_ptr = std::shared_ptr<data>;
 
-    void schedule();
+    static void schedule(const data_ptr& data);
 
     data_ptr m_data;
 };
-- 
2.43.0


From 2a16933d1d58185d7e885a1d44171ed043fb157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 16/26] fix: release a custom threadpool outside of its own
 threads

A pool shared by several parallel queues was released by the manager with
the first queue being destroyed. The last queue, potentially destroyed by
an operation executed in the pool, then destroyed the pool from within.
---
 src/naive/naive_operation_queue_manager.cpp | 9 +++++----
 src/naive/naive_parallel_queue.cpp          | 6 +++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/naive/naive_operation_queue_manager.cpp b/src/naive/naive_operation_queue_manager.cpp
index 7ce0ab5..4728073 100644
--- a/src/naive/naive_operation_queue_manager.cpp
+++ b/src/naive/naive_operation_queue_manager.cpp
@@ -39,11 +39,12 @@ void
 operation_queue_manager::detach(const void* const q)
 {
     m_thread.execute(make_operation([q, this] {
-        for (auto it = m_queues.begin(); it != m_queues.end();) {
+        // the same object may be attached multiple times,
+        // e.g. a threadpool shared by several queues
+        for (auto it = m_queues.begin(); it != m_queues.end(); ++it) {
             if (it->get() == q) {
-                it = m_queues.erase(it);
-            } else {
-                ++it;
+                m_queues.erase(it);
+                break;
             }
         }
     }));
diff --git a/src/naive/naive_parallel_queue.cpp b/src/naive/naive_parallel_queue.cpp
index be99bed..008154e 100644
--- a/src/naive/naive_parallel_queue.cpp
+++ b/src/naive/naive_parallel_queue.cpp
@@ -47,7 +47,11 @@ public:
 
     ~parallel_queue_impl() override
     {
-        operation_queue_manager::instance().detach(m_pool.get());
+        // make sure the manager is holding the last reference as we may be
+        // released by one of the threads of the pool
+        const auto* const pool = m_pool.get();
+        m_pool.reset();
+        operation_queue_manager::instance().detach(pool);
     }
 
     void async(const operation_ptr& op) final
-- 
2.43.0


From 8c4c33000f1174dd6a37c34efdb05a1afb8c089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 17/26] fix: do not destroy the proxy of a QThread while it is
 handling an event

---
 src/qt5/qt5_serial_queue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qt5/qt5_serial_queue.cpp b/src/qt5/qt5_serial_queue.cpp
index 276a845..0ea4e20 100644
--- a/src/qt5/qt5_serial_queue.cpp
+++ b/src/qt5/qt5_serial_queue.cpp
@@ -94,7 +94,10 @@ create_serial_queue(const std::string& label,
 {
     XDISPATCH_ASSERT(thread);
     thread->setObjectName(QString::fromStdString(label));
-    auto proxy = std::make_shared<ThreadProxy>(thread);
+    // the last reference is not released by the thread itself which might
+    // still be processing an event sent to the proxy
+    auto proxy = std::shared_ptr<ThreadProxy>(
+      new ThreadProxy(thread), [](ThreadProxy* p) { p->deleteLater(); });
     return naive::create_serial_queue(
       label, std::move(proxy), priority, backend_type::qt5);
 }
-- 
2.43.0


From 73b2fd857c0433b32f0f1eddd646807ffa549225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 18/26] fix: throw the documented exception when mixing
 backends

The exception was unreachable because of an assertion terminating the
process first.
---
 src/trace_utils.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/trace_utils.cpp b/src/trace_utils.cpp
index e4db999..bcddc36 100644
--- a/src/trace_utils.cpp
+++ b/src/trace_utils.cpp
@@ -57,7 +57,6 @@ trace_utils::assert_same_backend(backend_type a, backend_type b)
                            std::to_string(static_cast<int>(a)) + " and " +
                            std::to_string(static_cast<int>(b));
         std::cerr << XDISPATCH_TRACE_PREFIX << error << std::endl;
-        XDISPATCH_ASSERT(false && "Cannot mix two different backends");
         throw std::logic_error(error);
     }
 }
-- 
2.43.0


From 63c2ef3799823b97a40acbf58bda8e22f5abc366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 19/26] fix: threadpool: every thread picking work triggers
 another one while more is pending

Several operations submitted while threads are idle all rely on those
threads. When there are more operations than idle threads, only the last
thread waking up triggered a single additional one, the remaining operations
were not started although the pool had capacity left.
---
 src/naive/naive_threadpool.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index 1b03e1a..6c6c52b 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -188,14 +188,14 @@ public:
                             break;
                         }
                     }
+                }
 
-                    // More work may have been added before we updated the
-                    // idle count in which case the entity adding it was still
-                    // relying on us and did not trigger a new thread. We are
-                    // going to be busy so make up for that.
-                    if (m_data->m_operations_counter.count() > 0) {
-                        threadpool::schedule(m_data);
-                    }
+                // More work may have been added while the entity adding it was
+                // still relying on an idle thread, i.e. us or the thread which
+                // triggered us, and did not trigger a new thread. We are going
+                // to be busy so make up for that.
+                if (m_data->m_operations_counter.count() > 0) {
+                    threadpool::schedule(m_data);
                 }
 
                 // search for the next operation starting with the highest
-- 
2.43.0


From 1adc72dde4d341edfaf576d1877728e5929653ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 20/26] fix: serial_queue: leave the last reference to the
 operation queue to the manager

A queue whose last handle was dropped by a thread of its pool could release
the pool from within that very thread, which then had to wait for itself.
---
 src/naive/naive_serial_queue.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/naive/naive_serial_queue.cpp b/src/naive/naive_serial_queue.cpp
index 12bd9d6..aef5374 100644
--- a/src/naive/naive_serial_queue.cpp
+++ b/src/naive/naive_serial_queue.cpp
@@ -49,7 +49,14 @@ public:
         m_queue->attach();
     }
 
-    ~serial_queue_impl() override { m_queue->detach(); }
+    ~serial_queue_impl() override
+    {
+        // make sure the manager is holding the last reference as we may be
+        // released by one of the threads of the pool
+        auto* const queue = m_queue.get();
+        m_queue.reset();
+        queue->detach();
+    }
 
     void async(const operation_ptr& op) final { m_queue->async(op); }
 
-- 
2.43.0


From 4caada079c330cc1e991b0c010140646ecd079a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 21/26] fix: qt5: waiting operations release their thread of
 the QThreadPool instead of reserving another

---
 src/qt5/qt5_threadpool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qt5/qt5_threadpool.cpp b/src/qt5/qt5_threadpool.cpp
index c6dbbda..2850681 100644
--- a/src/qt5/qt5_threadpool.cpp
+++ b/src/qt5/qt5_threadpool.cpp
@@ -89,13 +89,14 @@ ThreadPoolProxy::execute(const operation_ptr& work,
 void
 ThreadPoolProxy::notify_thread_blocked()
 {
-    m_pool->reserveThread();
+    // the blocked thread does not count against the limit of the pool
+    m_pool->releaseThread();
 }
 
 void
 ThreadPoolProxy::notify_thread_unblocked()
 {
-    m_pool->releaseThread();
+    m_pool->reserveThread();
 }
 
 } // namespace qt5
-- 
2.43.0


From ce5ecce57b8f0bf46e223d47c9ba530e6d70bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 22/26] fix: qt5: releasing the queues of a QThreadPool does
 not access a pool which may be gone

---
 src/qt5/qt5_threadpool.cpp | 19 ++++++++-----------
 src/qt5/qt5_threadpool.h   |  6 +++---
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/qt5/qt5_threadpool.cpp b/src/qt5/qt5_threadpool.cpp
index 2850681..a82c7e6 100644
--- a/src/qt5/qt5_threadpool.cpp
+++ b/src/qt5/qt5_threadpool.cpp
@@ -34,13 +34,6 @@ ThreadPoolProxy::ThreadPoolProxy(QThreadPool* pool)
     XDISPATCH_ASSERT(pool);
 }
 
-ThreadPoolProxy::~ThreadPoolProxy()
-{
-    if (m_pool) {
-        m_pool->waitForDone();
-    }
-}
-
 void
 ThreadPoolProxy::execute(const operation_ptr& work,
                          const queue_priority priority)
@@ -48,7 +41,8 @@ ThreadPoolProxy::execute(const operation_ptr& work,
     class OperationRunnable : public QRunnable
     {
     public:
-        OperationRunnable(const operation_ptr& op, naive::ithreadpool* pool)
+        OperationRunnable(const operation_ptr& op,
+                          const naive::ithreadpool_ptr& pool)
           : m_operation(op)
           , m_pool(pool)
         {
@@ -57,12 +51,15 @@ ThreadPoolProxy::execute(const operation_ptr& work,
 
         void run() final
         {
-            naive::ithreadpool::run_with_threadpool(*m_operation, m_pool);
+            naive::ithreadpool::run_with_threadpool(*m_operation, m_pool.get());
         }
 
     private:
         const operation_ptr m_operation;
-        naive::ithreadpool* const m_pool;
+        // keeps the proxy alive until all operations have been executed, so
+        // that releasing it never has to touch the actual pool which may be
+        // gone by then
+        const naive::ithreadpool_ptr m_pool;
     };
 
     int p = 0;
@@ -83,7 +80,7 @@ ThreadPoolProxy::execute(const operation_ptr& work,
     }
 
     XDISPATCH_ASSERT(m_pool);
-    m_pool->start(new OperationRunnable(work, this), p);
+    m_pool->start(new OperationRunnable(work, shared_from_this()), p);
 }
 
 void
diff --git a/src/qt5/qt5_threadpool.h b/src/qt5/qt5_threadpool.h
index e9f26fd..f8a8bd3 100644
--- a/src/qt5/qt5_threadpool.h
+++ b/src/qt5/qt5_threadpool.h
@@ -30,13 +30,13 @@
 __XDISPATCH_BEGIN_NAMESPACE
 namespace qt5 {
 
-class ThreadPoolProxy : public naive::ithreadpool
+class ThreadPoolProxy
+  : public naive::ithreadpool
+  , public std::enable_shared_from_this<ThreadPoolProxy>
 {
 public:
     ThreadPoolProxy(QThreadPool* pool);
 
-    ~ThreadPoolProxy() override;
-
     void execute(const operation_ptr& work, queue_priority priority) final;
     void notify_thread_blocked() final;
     void notify_thread_unblocked() final;
-- 
2.43.0


From b8b76d4ec29fdfd7d4f0bcdbf8d7a9a315985abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:45 +0000
Subject: [PATCH 23/26] fix: qt5: connecting from another thread than the one
 of the object ties the connection to the object

---
 src/qt5/qt5_signals.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qt5/qt5_signals.h b/src/qt5/qt5_signals.h
index fab9213..00d067f 100644
--- a/src/qt5/qt5_signals.h
+++ b/src/qt5/qt5_signals.h
@@ -64,6 +64,9 @@ public:
           QString(), Qt::FindDirectChildrenOnly);
         if (createIfMissing && nullptr == oc) {
             oc = new ObjectConnectionManager;
+            // parent and child always need to live on the same thread, which
+            // is not necessarily the one connecting
+            oc->moveToThread(object->thread());
             oc->setParent(object);
         }
         return oc;
-- 
2.43.0


From e3fbf908e0d22dcac183c7f7cc4afc74a51ae56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 24/26] fix: waiting for a negative time or sleeping before a
 timer fires does not overflow

---
 src/lightweight_barrier.cpp | 5 ++++-
 src/naive/naive_timer.cpp   | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index 8f9adda..5cca7c1 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -60,7 +60,10 @@ public:
             if (std::chrono::milliseconds(-1) != timeout) {
                 // protects against overflows when the deadline gets calculated
                 return m_cond.wait_for(
-                  lock, std::min(timeout, kMaxTimeout), predicate);
+                  lock,
+                  std::max(std::min(timeout, kMaxTimeout),
+                           std::chrono::milliseconds(0)),
+                  predicate);
             }
             m_cond.wait(lock, predicate);
             return true;
diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index bc552ba..09999d0 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -26,6 +26,7 @@
 #include "naive_threadpool.h"
 #include "naive_inverse_lockguard.h"
 
+#include <algorithm>
 #include <condition_variable>
 #include <mutex>
 
@@ -191,7 +192,8 @@ private:
         static constexpr std::chrono::milliseconds skMaxSleep =
           std::chrono::hours(24 * 365);
         m_cond.wait_for(lock,
-                        duration < skMaxSleep ? duration : skMaxSleep,
+                        std::max(std::min(duration, skMaxSleep),
+                                 std::chrono::milliseconds(0)),
                         [this, cookie] { return cookie != m_worker_cookie; });
     }
 
-- 
2.43.0


From 566825e026c6cf28a906dca8e746950371453672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 25/26] fix: do not use destroyed thread locals when
 disconnecting while the process ends

---
 include/xdispatch/impl/cancelable.h |  8 ++++++--
 src/cancelable.cpp                  | 17 ++++++-----------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/xdispatch/impl/cancelable.h b/include/xdispatch/impl/cancelable.h
index 8817ce8..cdbfc8f 100644
--- a/include/xdispatch/impl/cancelable.h
+++ b/include/xdispatch/impl/cancelable.h
@@ -24,6 +24,8 @@
 
 #include <condition_variable>
 #include <mutex>
+#include <set>
+#include <thread>
 
 /**
  * @addtogroup xdispatch
@@ -86,8 +88,10 @@ private:
     std::condition_variable m_cond;
     // false as soon as the entity was disabled
     bool m_enabled;
-    // the number of times the entity is active right now
-    int m_running;
+    // the threads the entity is active on right now, contains a thread as often
+    // as it entered. Intentionally no thread local as these are gone already
+    // when statics get destroyed
+    std::multiset<std::thread::id> m_running;
 };
 
 /**
diff --git a/src/cancelable.cpp b/src/cancelable.cpp
index fc4023d..7069579 100644
--- a/src/cancelable.cpp
+++ b/src/cancelable.cpp
@@ -22,15 +22,11 @@
 #include "xdispatch/impl/cancelable.h"
 #include "xdispatch_internal.h"
 
-#include <set>
-
 __XDISPATCH_BEGIN_NAMESPACE
 
-static thread_local std::multiset<cancelable*> current_c;
-
 cancelable::cancelable()
   : m_enabled(true)
-  , m_running(0)
+  , m_running()
 {}
 
 void
@@ -38,9 +34,9 @@ cancelable::disable()
 {
     std::unique_lock<std::mutex> lock(m_CS);
     m_enabled = false;
-    if (current_c.find(this) == current_c.end()) {
+    if (m_running.find(std::this_thread::get_id()) == m_running.end()) {
         // no recursion, so wait for everyone being active right now
-        m_cond.wait(lock, [this] { return 0 == m_running; });
+        m_cond.wait(lock, [this] { return m_running.empty(); });
     }
 }
 
@@ -49,8 +45,7 @@ cancelable::enter()
 {
     std::lock_guard<std::mutex> lock(m_CS);
     if (m_enabled) {
-        current_c.insert(this);
-        ++m_running;
+        m_running.insert(std::this_thread::get_id());
         return true;
     }
     // disabled
@@ -61,8 +56,8 @@ void
 cancelable::leave()
 {
     std::lock_guard<std::mutex> lock(m_CS);
-    current_c.erase(current_c.find(this));
-    if (0 == --m_running) {
+    m_running.erase(m_running.find(std::this_thread::get_id()));
+    if (m_running.empty()) {
         m_cond.notify_all();
     }
 }
-- 
2.43.0


From 837f2a9e6fc45c9978fbb530bb92c6a961243880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:25 +0000
Subject: [PATCH 26/26] fix: keep the global queues and the main loop while
 statics get destroyed

---
 src/backend.cpp                  | 40 +++++++++++++++++---------------
 src/naive/naive_serial_queue.cpp | 17 ++++++++------
 2 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/backend.cpp b/src/backend.cpp
index b3ff780..13277c5 100644
--- a/src/backend.cpp
+++ b/src/backend.cpp
@@ -117,45 +117,47 @@ platform_backend()
 queue
 main_queue()
 {
-    static iqueue_impl_ptr s_instance =
-      platform_backend().create_main_queue(k_label_main);
-    return queue(k_label_main, s_instance);
+    // remark: intentionally leaked as threads may continue to use the queues
+    // while statics get destroyed
+    static auto* s_instance = new iqueue_impl_ptr(
+      platform_backend().create_main_queue(k_label_main));
+    return queue(k_label_main, *s_instance);
 }
 
 static queue
 global_queue_USER_INTERACTIVE()
 {
-    static iqueue_impl_ptr s_instance =
-      platform_backend().create_parallel_queue(
-        k_label_global_INTERACTIVE, queue_priority::USER_INTERACTIVE);
-    return queue(k_label_global_INTERACTIVE, s_instance);
+    static auto* s_instance =
+      new iqueue_impl_ptr(platform_backend().create_parallel_queue(
+        k_label_global_INTERACTIVE, queue_priority::USER_INTERACTIVE));
+    return queue(k_label_global_INTERACTIVE, *s_instance);
 }
 
 static queue
 global_queue_USER_INITIATED()
 {
-    static iqueue_impl_ptr s_instance =
-      platform_backend().create_parallel_queue(k_label_global_INITIATED,
-                                               queue_priority::USER_INITIATED);
-    return queue(k_label_global_INITIATED, s_instance);
+    static auto* s_instance =
+      new iqueue_impl_ptr(platform_backend().create_parallel_queue(
+        k_label_global_INITIATED, queue_priority::USER_INITIATED));
+    return queue(k_label_global_INITIATED, *s_instance);
 }
 
 static queue
 global_queue_UTILITY()
 {
-    static iqueue_impl_ptr s_instance =
-      platform_backend().create_parallel_queue(k_label_global_UTILITY,
-                                               queue_priority::UTILITY);
-    return queue(k_label_global_UTILITY, s_instance);
+    static auto* s_instance =
+      new iqueue_impl_ptr(platform_backend().create_parallel_queue(
+        k_label_global_UTILITY, queue_priority::UTILITY));
+    return queue(k_label_global_UTILITY, *s_instance);
 }
 
 static queue
 global_queue_BACKGROUND()
 {
-    static iqueue_impl_ptr s_instance =
-      platform_backend().create_parallel_queue(k_label_global_BACKGROUND,
-                                               queue_priority::BACKGROUND);
-    return queue(k_label_global_BACKGROUND, s_instance);
+    static auto* s_instance =
+      new iqueue_impl_ptr(platform_backend().create_parallel_queue(
+        k_label_global_BACKGROUND, queue_priority::BACKGROUND));
+    return queue(k_label_global_BACKGROUND, *s_instance);
 }
 
 queue
diff --git a/src/naive/naive_serial_queue.cpp b/src/naive/naive_serial_queue.cpp
index aef5374..3f5bf3e 100644
--- a/src/naive/naive_serial_queue.cpp
+++ b/src/naive/naive_serial_queue.cpp
@@ -119,18 +119,21 @@ backend::create_serial_queue(const std::string& label,
 static std::shared_ptr<manual_thread>
 main_thread()
 {
-    static std::shared_ptr<manual_thread> s_thread =
-      std::make_shared<manual_thread>(k_label_main,
-                                      queue_priority::USER_INTERACTIVE);
-    return s_thread;
+    // remark: intentionally leaked as it may be running while statics get
+    // destroyed
+    static auto* s_thread =
+      new std::shared_ptr<manual_thread>(std::make_shared<manual_thread>(
+        k_label_main, queue_priority::USER_INTERACTIVE));
+    return *s_thread;
 }
 
 iqueue_impl_ptr
 backend::create_main_queue(const std::string& label, backend_type backend)
 {
-    static iqueue_impl_ptr s_queue = std::make_shared<serial_queue_impl>(
-      main_thread(), label, queue_priority::USER_INTERACTIVE, backend);
-    return s_queue;
+    static auto* s_queue =
+      new iqueue_impl_ptr(std::make_shared<serial_queue_impl>(
+        main_thread(), label, queue_priority::USER_INTERACTIVE, backend));
+    return *s_queue;
 }
 
 void
-- 
2.43.0

