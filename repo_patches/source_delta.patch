From bc091088182165b4ea239f539eab0fb8b971e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 01/56] fix: let_value/let_error/let_stopped: let an exception
 from moving the function escape connect

The constructor of the operation state base was unconditionally noexcept although it
moves the user's function object, so a throwing move terminated the program.
---
 include/stdexec/__detail/__let.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index 9777fcc..5304f2e 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -174,7 +174,8 @@ namespace STDEXEC
                                         _CvFn           __cv,
                                         _Sender const & __sndr,
                                         _Fun            __fn,
-                                        _Receiver&&     __rcvr) noexcept
+                                        _Receiver&&     __rcvr)
+        noexcept(__nothrow_move_constructible<_Fun>)
         : __rcvr_(static_cast<_Receiver&&>(__rcvr))
         , __fn_(STDEXEC::__allocator_aware_forward(static_cast<_Fun&&>(__fn), __rcvr_))
         // TODO(ericniebler): this needs a fallback:
-- 
2.43.0


From c3b3de90aad7ea931b0541c182794ab6b24154f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 02/56] fix: when_all: do not complete twice when a stop
 request races with the last child

---
 include/stdexec/__detail/__when_all.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__when_all.hpp b/include/stdexec/__detail/__when_all.hpp
index 305bf4f..ebcb5ba 100644
--- a/include/stdexec/__detail/__when_all.hpp
+++ b/include/stdexec/__detail/__when_all.hpp
@@ -565,8 +565,21 @@ namespace STDEXEC
       constexpr void operator()() const noexcept
       {
         // Temporarily increment the count to avoid concurrent/recursive arrivals to
-        // pull the rug under our feet. Relaxed memory order is fine here.
-        __state_->__count_.fetch_add(1, __std::memory_order_relaxed);
+        // pull the rug under our feet. Relaxed memory order is fine here. If the count is
+        // already zero, then the last child has arrived and is completing the operation
+        // (it is about to wait for this callback to return), so the stop request is too
+        // late; arriving again would complete the operation a second time.
+        std::size_t __count = __state_->__count_.load(__std::memory_order_relaxed);
+        do
+        {
+          if (__count == 0)
+          {
+            return;
+          }
+        }
+        while (!__state_->__count_.compare_exchange_weak(__count,
+                                                         __count + 1,
+                                                         __std::memory_order_relaxed));
 
         __state_t __expected = __started;
         // Transition to the "stopped" state if and only if we're in the
-- 
2.43.0


From 237d26c48f1a93cd4113133fc2ac1fe08880b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 03/56] fix: spawn_future: keep the shared state alive while a
 stop request runs

When a started future is cancelled and the spawned operation completes from
within its own stop callback, the state (and the stop source that is still
executing request_stop) was destroyed under __do_try_cancel.  Let
__do_try_cancel hold a reference.
---
 include/stdexec/__detail/__spawn_future.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/stdexec/__detail/__spawn_future.hpp b/include/stdexec/__detail/__spawn_future.hpp
index fd74006..0a87a89 100644
--- a/include/stdexec/__detail/__spawn_future.hpp
+++ b/include/stdexec/__detail/__spawn_future.hpp
@@ -40,6 +40,7 @@ import stdexec;
 #  include "__type_traits.hpp"
 
 #  if !STDEXEC_USE_MODULES()
+#    include <cstddef>
 #    include <memory>
 #    include <type_traits>
 #    include <utility>
@@ -374,9 +375,18 @@ namespace STDEXEC
       // be completed with set_stopped because the future received and processed a stop request
       // before the producer could finish.
       void (*__callback_)(__spawn_future_state*, void*) noexcept;
+      // The number of parties that keep *this alive: the producer and consumer together hold one
+      // reference (released by __destroy()), and __do_try_cancel holds one while it is running.
+      __std::atomic<std::size_t> __refs_{1};
 
       void __destroy() noexcept
       {
+        // acq_rel so that whoever drops the last reference sees what the other party has written.
+        if (__refs_.fetch_sub(1, __std::memory_order_acq_rel) != 1)
+        {
+          return;
+        }
+
         [[maybe_unused]]
         auto __assoc = std::move(__assoc_);
 
@@ -459,6 +469,14 @@ namespace STDEXEC
       {
         auto* __self = static_cast<__spawn_future_state*>(__base_ptr);
 
+        // The spawned operation may complete from within the call to request_stop below (e.g. in one
+        // of its own stop callbacks). If the consumer has registered its receiver already, then that
+        // completes the receiver and invokes __destroy, so we have to keep *__self alive ourselves.
+        // It is alive now because the stop callback that has invoked us is destroyed before the
+        // other parties invoke __destroy.
+        __self->__refs_.fetch_add(1, __std::memory_order_relaxed);
+        __scope_guard __release{[__self]() noexcept { __self->__destroy(); }};
+
         // Consider: there's a sense in which we only need to invoke request_stop if we've arrived
         //           here before the producer has invoked __complete so I wonder whether it's possible
         //           to avoid invoking request_stop when it's unnecessary. It might be.
-- 
2.43.0


From a307fc8783762fe9729c1fd09fc4c0f4ca23177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 04/56] fix: timed_thread_context: complete commands still
 queued when the context is destroyed

---
 include/exec/timed_thread_scheduler.hpp | 44 +++++++++++++++----------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index b19e5a2..ed3ea77 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -149,29 +149,34 @@ namespace experimental::execution
     using stop_type    = _time_thrd_sched::timed_thread_stop_operation;
     using time_point   = std::chrono::steady_clock::time_point;
 
-    void run()
+    void execute_commands() noexcept
     {
-      while (true)
+      while (command_type* op = command_queue_.pop_front())
       {
-        while (command_type* op = command_queue_.pop_front())
+        if (op->command_ == command_type::command_type::schedule)
         {
-          if (op->command_ == command_type::command_type::schedule)
+          auto* task  = static_cast<task_type*>(op);
+          task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
+          heap_.insert(task);
+        }
+        else
+        {
+          STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
+          auto* stop_op = static_cast<stop_type*>(op);
+          if (heap_.erase(stop_op->target_))
           {
-            auto* task  = static_cast<task_type*>(op);
-            task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
-            heap_.insert(task);
-          }
-          else
-          {
-            STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
-            auto* stop_op = static_cast<stop_type*>(op);
-            if (heap_.erase(stop_op->target_))
-            {
-              stop_op->target_->set_stopped_(stop_op->target_);
-            }
-            stop_op->set_value_(stop_op);
+            stop_op->target_->set_stopped_(stop_op->target_);
           }
+          stop_op->set_value_(stop_op);
         }
+      }
+    }
+
+    void run()
+    {
+      while (true)
+      {
+        execute_commands();
         time_point now = std::chrono::steady_clock::now();
         task_type* op  = heap_.front();
         while (op && op->time_point_ <= now)
@@ -192,11 +197,14 @@ namespace experimental::execution
           while (
             !n_submissions_in_flight_.compare_exchange_weak(expected,
                                                             context_closed,
+                                                            STDEXEC::__std::memory_order_acquire,
                                                             STDEXEC::__std::memory_order_relaxed))
           {
             STDEXEC::__spin_loop_pause();
             expected = 0;
           }
+          // No more commands can be submitted, but some may have been since we looked last.
+          execute_commands();
           op = heap_.front();
           while (op)
           {
@@ -235,7 +243,7 @@ namespace experimental::execution
         ready_ = true;
         cv_.notify_one();
       }
-      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_release);
     }
 
     void request_stop()
-- 
2.43.0


From 2799c718b0fae091e511028041cb6b174bd63e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 05/56] fix: timed_thread_context: wake the thread up for every
 submitted command

---
 include/exec/timed_thread_scheduler.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index ed3ea77..ac90f7a 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -237,7 +237,9 @@ namespace experimental::execution
                                                          STDEXEC::__std::memory_order_relaxed);
         return;
       }
-      if (command_queue_.push_back(op))
+      // Wake the thread up even if the queue was not empty: it may have looked at the queue while
+      // another submission was being pushed, and have seen nothing.
+      command_queue_.push_back(op);
       {
         std::scoped_lock lock{ready_mutex_};
         ready_ = true;
-- 
2.43.0


From 6332e5bde17ab7ddd3836a424d1b3da5caec7407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 06/56] fix: timed_thread_context: do not lose a stop request
 that overtakes its operation

---
 include/exec/timed_thread_scheduler.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index ac90f7a..14a690e 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -104,6 +104,9 @@ namespace experimental::execution
       timed_thread_schedule_operation_base* prev_  = nullptr;
       timed_thread_schedule_operation_base* left_  = nullptr;
       timed_thread_schedule_operation_base* right_ = nullptr;
+      /// Only the thread of the context touches it: the command that stops this operation has been
+      /// executed before the command that schedules it.
+      bool cancelled_ = false;
       void (*set_stopped_)(timed_thread_operation_base*) noexcept;
     };
 
@@ -156,6 +159,11 @@ namespace experimental::execution
         if (op->command_ == command_type::command_type::schedule)
         {
           auto* task  = static_cast<task_type*>(op);
+          if (task->cancelled_)
+          {
+            task->set_stopped_(task);
+            continue;
+          }
           task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
           heap_.insert(task);
         }
@@ -167,6 +175,11 @@ namespace experimental::execution
           {
             stop_op->target_->set_stopped_(stop_op->target_);
           }
+          else
+          {
+            // Either the target is being completed already, or its own command has yet to arrive.
+            stop_op->target_->cancelled_ = true;
+          }
           stop_op->set_value_(stop_op);
         }
       }
-- 
2.43.0


From b575606499c1dc387c0c3d671bfd3322b474aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 07/56] fix: transform_sender: do not drop the exceptions of
 the transformations before the last

---
 include/stdexec/__detail/__transform_sender.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__transform_sender.hpp b/include/stdexec/__detail/__transform_sender.hpp
index 88f2151..3d365cd 100644
--- a/include/stdexec/__detail/__transform_sender.hpp
+++ b/include/stdexec/__detail/__transform_sender.hpp
@@ -64,7 +64,7 @@ namespace STDEXEC
         }
         else if constexpr (__same_as<__result_t, _Sndr>)
         {
-          return __declfn<__result_t, __is_nothrow>();
+          return __declfn<__result_t, (_Nothrow && __is_nothrow)>();
         }
         else if constexpr (__same_as<_OpTag, start_t>)
         {
-- 
2.43.0


From 97fe3bd75ac2bebe4004615da15667287f0e4f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 08/56] fix: finally: let exceptions from connecting the
 senders escape connect

---
 include/stdexec/__detail/__finally.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__finally.hpp b/include/stdexec/__detail/__finally.hpp
index 82565d3..d5154f5 100644
--- a/include/stdexec/__detail/__finally.hpp
+++ b/include/stdexec/__detail/__finally.hpp
@@ -167,7 +167,9 @@ namespace STDEXEC
       constexpr explicit __final_opstate(__cleanup_callback_t* __cleanup_callback,
                                          _CvFinalSender&&      __final,
                                          _Receiver&&           __rcvr,
-                                         _Env2                 __env2) noexcept
+                                         _Env2                 __env2)
+        noexcept(__nothrow_move_constructible<_Receiver, _Env2>
+                 && __nothrow_connectable<_CvFinalSender, __final_receiver_t>)
         : __opstate_base<_Storage, _Receiver, _Env2>{static_cast<_Receiver&&>(__rcvr),
                                                      static_cast<_Env2&&>(__env2)}
         , __cleanup_callback_{__cleanup_callback}
@@ -230,6 +232,12 @@ namespace STDEXEC
       constexpr explicit __opstate(_CvInitialSender&& __initial,
                                    _CvFinalSender&&   __final,
                                    _Receiver          __rcvr)
+        noexcept(__nothrow_constructible_from<__base_t,
+                                              decltype(&__cleanup_initial_opstate),
+                                              _CvFinalSender,
+                                              _Receiver,
+                                              __env2_t>
+                 && __nothrow_connectable<_CvInitialSender, __initial_receiver_t>)
         : __base_t(&__cleanup_initial_opstate,
                    static_cast<_CvFinalSender&&>(__final),
                    static_cast<_Receiver&&>(__rcvr),
@@ -359,7 +367,11 @@ namespace STDEXEC
 
       template <__decays_to<__sender> _Self, class _Receiver>
       STDEXEC_EXPLICIT_THIS_BEGIN(auto connect)(this _Self&& __self,
-                                                _Receiver&&  __receiver) noexcept
+                                                _Receiver&&  __receiver)
+        noexcept(__nothrow_constructible_from<__opstate_t<_Self, _Receiver>,
+                                              __copy_cvref_t<_Self, _InitialSender>,
+                                              __copy_cvref_t<_Self, _FinalSender>,
+                                              _Receiver>)
         -> __opstate_t<_Self, _Receiver>
       {
         return __opstate_t<_Self, _Receiver>{static_cast<_Self&&>(__self).__initial_sndr_,
-- 
2.43.0


From a9939ac37312213ebe41bd6059247e31fe3e28f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 09/56] fix: fork_join: let exceptions from making the
 operation escape connect

---
 include/exec/fork_join.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/exec/fork_join.hpp b/include/exec/fork_join.hpp
index f2b1f71..8f5d442 100644
--- a/include/exec/fork_join.hpp
+++ b/include/exec/fork_join.hpp
@@ -34,6 +34,7 @@ namespace experimental::execution
       template <class CacheSndr, class... Closures>
       STDEXEC_ATTRIBUTE(always_inline, host, device)
       constexpr auto operator()(CacheSndr sndr, Closures&&... closures) const
+        noexcept(noexcept(STDEXEC::when_all(static_cast<Closures&&>(closures)(sndr)...)))
       {
         return STDEXEC::when_all(static_cast<Closures&&>(closures)(sndr)...);
       }
@@ -130,7 +131,11 @@ namespace experimental::execution
       using _cache_sndr_t = _fork_join::_cache_sndr_t<_variant_t<_child_completions_t>, _domain_t>;
 
       STDEXEC_ATTRIBUTE(host, device)
-      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr) noexcept
+      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr)
+        noexcept(STDEXEC::__nothrow_applicable<_mk_when_all_fn, Closures, _cache_sndr_t>
+                 && STDEXEC::__nothrow_connectable<_when_all_sndr_t, STDEXEC::__receiver_ref<Rcvr>>
+                 && STDEXEC::__nothrow_connectable<Sndr,
+                                                   STDEXEC::__receiver_ref<_opstate_t, _env_t>>)
         : _rcvr_(static_cast<Rcvr&&>(rcvr))
         , _fork_opstate_(STDEXEC::connect(STDEXEC::__apply(_mk_when_all_fn{},
                                                            static_cast<Closures&&>(closures),
@@ -266,7 +271,13 @@ namespace experimental::execution
       }
 
       static constexpr auto __connect =
-        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr) noexcept
+        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr) noexcept(
+          STDEXEC::__nothrow_constructible_from<_fork_join::_opstate_t<STDEXEC::__child_of<_Sender>,
+                                                                       STDEXEC::__data_of<_Sender>,
+                                                                       _Receiver>,
+                                                STDEXEC::__child_of<_Sender>,
+                                                STDEXEC::__data_of<_Sender>,
+                                                _Receiver>)
         -> _fork_join::_opstate_t<STDEXEC::__child_of<_Sender>,
                                   STDEXEC::__data_of<_Sender>,
                                   _Receiver>
-- 
2.43.0


From 530a0ee2e3df7cd849cdfe064bd7b41c05e9fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 10/56] fix: split, ensure_started: ask the operation to stop
 when its last waiters leave together

The use count of the shared state was used to find out whether a consumer that
leaves is the last one. Two consumers leaving at the same time each see the
other's reference, so neither asks the operation to stop. Assigning to a sender
dropped its reference without asking at all.
---
 include/exec/detail/shared.hpp | 89 ++++++++++++++++++++++++----------
 1 file changed, 64 insertions(+), 25 deletions(-)

diff --git a/include/exec/detail/shared.hpp b/include/exec/detail/shared.hpp
index 58407d9..f93cb62 100644
--- a/include/exec/detail/shared.hpp
+++ b/include/exec/detail/shared.hpp
@@ -33,6 +33,7 @@
 #include "../../stdexec/__detail/__variant.hpp"  // IWYU pragma: keep
 #include "../../stdexec/stop_token.hpp"
 
+#include <cstddef>
 #include <exception>
 #include <mutex>
 #include <utility>
@@ -133,6 +134,56 @@ namespace experimental::execution::__shared
                                               static_cast<_Env&&>(__env));
   }
 
+  ////////////////////////////////////////////////////////////////////////////////////////
+  // The reference that a consumer (a sender or an operation connected from it) holds on the
+  // shared state. When the last consumer releases its reference, the shared operation is asked
+  // to stop early.
+  template <class _ShState>
+  struct __sh_state_ref
+  {
+    constexpr explicit __sh_state_ref(std::shared_ptr<_ShState> __ptr) noexcept
+      : __ptr_(std::move(__ptr))
+    {
+      if (__ptr_)
+      {
+        __ptr_->__attach();
+      }
+    }
+
+    constexpr __sh_state_ref(__sh_state_ref&& __other) noexcept = default;
+
+    constexpr __sh_state_ref(__sh_state_ref const & __other) noexcept
+      : __sh_state_ref(__other.__ptr_)
+    {}
+
+    constexpr __sh_state_ref& operator=(__sh_state_ref __other) noexcept
+    {
+      __ptr_.swap(__other.__ptr_);
+      return *this;
+    }
+
+    constexpr ~__sh_state_ref()
+    {
+      reset();
+    }
+
+    constexpr void reset() noexcept
+    {
+      if (auto __ptr = std::move(__ptr_))
+      {
+        __ptr->__detach();
+      }
+    }
+
+    [[nodiscard]]
+    constexpr auto operator->() const noexcept -> _ShState*
+    {
+      return __ptr_.get();
+    }
+
+    std::shared_ptr<_ShState> __ptr_;
+  };
+
   ////////////////////////////////////////////////////////////////////////////////////////
   struct __local_state_base
   {
@@ -154,7 +205,7 @@ namespace experimental::execution::__shared
   {
     using __stok_t         = stop_token_of_t<env_of_t<_Receiver>>;
     using __sh_state_t     = __shared_state<_CvChild, _Env>;
-    using __sh_state_ptr_t = std::shared_ptr<__sh_state_t>;
+    using __sh_state_ptr_t = __sh_state_ref<__sh_state_t>;
 
     static_assert(__one_of<_Tag, split_t, ensure_started_t>);
 
@@ -166,14 +217,6 @@ namespace experimental::execution::__shared
 
     STDEXEC_IMMOVABLE(__local_state);
 
-    constexpr ~__local_state()
-    {
-      if (__sh_state_)
-      {
-        __sh_state_->__detach();
-      }
-    }
-
     constexpr void start() noexcept
     {
       // Scenario: there are no more split senders, this is the only operation state, the
@@ -204,7 +247,7 @@ namespace experimental::execution::__shared
       // Otherwise, failed to add the waiter because of a stop-request.
       // Complete synchronously with set_stopped().
       __on_stop_.reset();
-      std::exchange(__sh_state_, {})->__detach();
+      __sh_state_.reset();
       STDEXEC::set_stopped(static_cast<_Receiver&&>(__rcvr_));
     }
 
@@ -231,7 +274,7 @@ namespace experimental::execution::__shared
       // __notify function is called from the shared state's __notify_waiters function, which
       // first sets __waiters_ to the completed state. As a result, the attempt to remove `this`
       // from the waiters list above will fail and this stop request is ignored.
-      std::exchange(__sh_state_, {})->__detach();
+      __sh_state_.reset();
       STDEXEC::set_stopped(static_cast<_Receiver&&>(__rcvr_));
     }
 
@@ -413,14 +456,16 @@ namespace experimental::execution::__shared
       }
     }
 
+    constexpr void __attach() noexcept
+    {
+      __consumers_.fetch_add(1, __std::memory_order_relaxed);
+    }
+
     constexpr void __detach() noexcept
     {
-      // increments the use count:
-      auto __started_ptr = __started_ref_.load();
-      // If the use count is 3 (one for *this, one for __started_ref_, and one for
-      // __started_ptr), then we are the final "consumer". Ask the operation to stop
+      // If this was the final "consumer" of an operation that is running, ask it to stop
       // early.
-      if (3 == __started_ptr.use_count())
+      if (1 == __consumers_.fetch_sub(1, __std::memory_order_acq_rel) && __started_ref_.load())
       {
         this->__stop_source_.request_stop();
       }
@@ -432,6 +477,8 @@ namespace experimental::execution::__shared
     }
 
     __std::atomic_flag __started_{};
+    // the number of senders and operations that can still receive the result:
+    __std::atomic<std::size_t> __consumers_{0};
     // this shared_ptr is non-null when the operation is running:
     __std::__atomic_shared_ptr<__shared_state> __started_ref_;
     connect_result_t<_CvSender, __receiver_t>  __shared_op_;
@@ -498,14 +545,6 @@ namespace experimental::execution::__shared
     __sndr(__sndr const &)            = default;
     __sndr& operator=(__sndr const &) = default;
 
-    constexpr ~__sndr()
-    {
-      if (__sh_state_)
-      {
-        __sh_state_->__detach();
-      }
-    }
-
     template <class>
     static consteval auto get_completion_signatures()
     {
@@ -531,7 +570,7 @@ namespace experimental::execution::__shared
 
    private:
     friend struct exec::ensure_started_t;
-    std::shared_ptr<__shared_state<_CvChild, _Env>> __sh_state_;
+    __sh_state_ref<__shared_state<_CvChild, _Env>> __sh_state_;
   };
 
   template <class _Tag, class _CvChild, class _Env>
-- 
2.43.0


From 51d0746cb8a9525edd21b52ab18446829af7ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:26 +0000
Subject: [PATCH 11/56] fix: bwos lifo_queue: a thief synchronizes with the
 grant of the block it takes from

---
 include/exec/detail/bwos_lifo_queue.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/exec/detail/bwos_lifo_queue.hpp b/include/exec/detail/bwos_lifo_queue.hpp
index a45863c..c9df4cc 100644
--- a/include/exec/detail/bwos_lifo_queue.hpp
+++ b/include/exec/detail/bwos_lifo_queue.hpp
@@ -552,8 +552,13 @@ namespace experimental::execution::bwos
       result.status = lifo_queue_error_code::empty;
       return result;
     }
-    // Try to claim the item at spos by atomically incrementing steal_tail_
-    if (!steal_tail_.compare_exchange_strong(spos, spos + 1, STDEXEC::__std::memory_order_relaxed))
+    // Try to claim the item at spos by atomically incrementing steal_tail_. Since tail_ was loaded,
+    // the owner may have taken this block over, replaced the item and granted the block again:
+    // acquire ordering synchronizes with the last grant().
+    if (!steal_tail_.compare_exchange_strong(spos,
+                                             spos + 1,
+                                             STDEXEC::__std::memory_order_acquire,
+                                             STDEXEC::__std::memory_order_relaxed))
     {
       // Another thief claimed this item, retry
       result.status = lifo_queue_error_code::conflict;
-- 
2.43.0


From 8a8af0ef1f401b71b84e880f3022670ec8e99e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:16 +0000
Subject: [PATCH 12/56] fix: merge_each: store an item's error before
 completing the item that owns it

---
 include/exec/sequence/merge_each.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 397e312..a7cafca 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -573,8 +573,9 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         auto __op = __op_;
-        STDEXEC::set_stopped(static_cast<_NestedValueReceiver&&>(__nested_value_op_->__rcvr_));
+        // store the error first: completing the item may destroy the operation that owns it
         __op->store_error(static_cast<_Error&&>(__error));
+        STDEXEC::set_stopped(static_cast<_NestedValueReceiver&&>(__nested_value_op_->__rcvr_));
         __op->nested_value_break();
       }
 
-- 
2.43.0


From cd7cd41e9eeaab22eb94c4507a86231a93ec6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:16 +0000
Subject: [PATCH 13/56] fix: merge_each: complete the outer item when it does
 not send a nested sequence

---
 include/exec/sequence/merge_each.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index a7cafca..35baef3 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -1030,7 +1030,7 @@ namespace experimental::execution
           if constexpr (!__is_nothrow)
           {
             __op_->store_error(std::current_exception());
-            __op_->nested_sequence_break();
+            __next_seq_op_->nested_sequence_break();
           }
         }
       }
@@ -1039,12 +1039,12 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         __op_->store_error(static_cast<_Error&&>(__error));
-        __op_->nested_sequence_break();
+        __next_seq_op_->nested_sequence_break();
       }
 
       void set_stopped() noexcept
       {
-        __op_->nested_sequence_complete();
+        __next_seq_op_->nested_sequence_complete();
       }
 
       using __env_t = typename _OperationBase::__nested_stop_env_t;
-- 
2.43.0


From 229122ee590cf36e19ba8518815649b3c5787c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:34 +0000
Subject: [PATCH 14/56] fix: transform_each, merge: subscribe is noexcept only
 if subscribing to the children is

---
 include/exec/sequence/merge.hpp          | 5 ++++-
 include/exec/sequence/transform_each.hpp | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/exec/sequence/merge.hpp b/include/exec/sequence/merge.hpp
index ddf6fa0..7ab39af 100644
--- a/include/exec/sequence/merge.hpp
+++ b/include/exec/sequence/merge.hpp
@@ -130,7 +130,10 @@ namespace experimental::execution
       {
         template <class _Receiver, class... _Sequences>
         auto operator()(_Receiver& __rcvr, __ignore, __ignore, _Sequences... __sequences)
-          noexcept(__nothrow_decay_copyable<_Sequences...>) -> __operation<_Receiver, _Sequences...>
+          noexcept(__nothrow_decay_copyable<_Receiver, _Sequences...>
+                   && __nothrow_connectable<__combine::result_sender_t<_Receiver, _Sequences...>,
+                                            __result_receiver<_Receiver>>)
+            -> __operation<_Receiver, _Sequences...>
         {
           return __operation<_Receiver, _Sequences...>{static_cast<_Receiver&&>(__rcvr),
                                                        static_cast<_Sequences&&>(__sequences)...};
diff --git a/include/exec/sequence/transform_each.hpp b/include/exec/sequence/transform_each.hpp
index 74a5d49..b65ad00 100644
--- a/include/exec/sequence/transform_each.hpp
+++ b/include/exec/sequence/transform_each.hpp
@@ -125,7 +125,8 @@ namespace experimental::execution
 
       template <class _Adaptor, class _Sequence>
       auto operator()(__ignore, _Adaptor __adaptor, _Sequence&& __sequence)
-        noexcept(__nothrow_decay_copyable<_Adaptor, _Sequence>)
+        noexcept(__nothrow_decay_copyable<_Adaptor, _Receiver>
+                 && __nothrow_subscribable<_Sequence, __receiver<_Receiver, _Adaptor>>)
           -> __operation<_Sequence, _Receiver, _Adaptor>
       {
         return {static_cast<_Sequence&&>(__sequence),
-- 
2.43.0


From d22bc3f90ee597ddc2c66237cd4d63510f37c902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:34 +0000
Subject: [PATCH 15/56] fix: merge_each: forward an exception_ptr as it is

---
 include/exec/sequence/merge_each.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 35baef3..b692213 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -362,7 +362,11 @@ namespace experimental::execution
         case __completion_t::__stopped:
           // We are the first child to complete with an error, so we must save the error. (Any
           // subsequent errors are ignored.)
-          if constexpr (__nothrow_decay_copyable<_Error>)
+          if constexpr (__decays_to<_Error, std::exception_ptr>)
+          {
+            __ex_ = static_cast<_Error&&>(__error);
+          }
+          else if constexpr (__nothrow_decay_copyable<_Error>)
           {
             __ex_ = std::make_exception_ptr(static_cast<_Error&&>(__error));
           }
-- 
2.43.0


From e0fe5f9109ce7e79993fceb2c782c8093f735d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:12 +0000
Subject: [PATCH 16/56] fix: schedule_all: start() does not use the operation
 after the last item may have completed it

---
 include/exec/static_thread_pool.hpp | 35 +++++++++++++++++++----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index f84d038..f9cf2d6 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1574,7 +1574,8 @@ namespace experimental::execution
         bool                                 has_started_{false};
         __intrusive_queue<&task_base::next_> tasks_{};
         std::size_t                          tasks_size_{};
-        __std::atomic<std::size_t>           countdown_{std::ranges::size(range_)};
+        // One for each item, and one for start(), which uses this object after starting the items.
+        __std::atomic<std::size_t>           countdown_{std::ranges::size(range_) + 1};
       };
 
       template <class Range, class ItemReceiver>
@@ -1658,6 +1659,14 @@ namespace experimental::execution
           , rcvr_(static_cast<Receiver&&>(rcvr))
         {}
 
+        void complete_one() noexcept
+        {
+          if (this->countdown_.fetch_sub(1, __std::memory_order_acq_rel) == 1)
+          {
+            STDEXEC::set_value(static_cast<Receiver&&>(rcvr_));
+          }
+        }
+
         Receiver rcvr_;
       };
 
@@ -1668,20 +1677,12 @@ namespace experimental::execution
 
         void set_value() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
-          if (countdown == 1)
-          {
-            STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
-          }
+          op_->complete_one();
         }
 
         void set_stopped() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
-          if (countdown == 1)
-          {
-            STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
-          }
+          op_->complete_one();
         }
 
         auto get_env() const noexcept -> env_of_t<Receiver>
@@ -1767,7 +1768,17 @@ namespace experimental::execution
 
           std::unique_lock lock{this->start_mutex_};
           this->has_started_ = true;
-          this->pool_.bulk_enqueue(remote_queue, std::move(this->tasks_), this->tasks_size_);
+          auto                 tasks      = std::move(this->tasks_);
+          std::size_t const    tasks_size = std::exchange(this->tasks_size_, 0);
+          _static_thread_pool& pool       = this->pool_;
+          lock.unlock();
+          // If there are tasks left to enqueue then this cannot complete the operation. As soon as
+          // they are enqueued, the operation can complete, so *this must not be used any more.
+          this->complete_one();
+          if (tasks_size != 0)
+          {
+            pool.bulk_enqueue(remote_queue, std::move(tasks), tasks_size);
+          }
         }
 
        private:
-- 
2.43.0


From 31ba4f8db1de24a3fbc65107b29f83ab27b8284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 17/56] fix: schedule_all: subscribe may throw

---
 include/exec/static_thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index f9cf2d6..c0f9e44 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1811,14 +1811,14 @@ namespace experimental::execution
         {}
 
         template <exec::sequence_receiver_of<item_types> Receiver>
-        auto subscribe(Receiver rcvr) && noexcept -> opstate<Range, Receiver>
+        auto subscribe(Receiver rcvr) && -> opstate<Range, Receiver>
         {
           return opstate<Range, Receiver>{std::move(range_), *pool_, std::move(rcvr)};
         }
 
         template <exec::sequence_receiver_of<item_types> Receiver>
           requires __decay_copyable<Range const &>
-        auto subscribe(Receiver rcvr) const & noexcept -> opstate<Range, Receiver>
+        auto subscribe(Receiver rcvr) const & -> opstate<Range, Receiver>
         {
           return opstate<Range, Receiver>{range_, *pool_, std::move(rcvr)};
         }
-- 
2.43.0


From 42ca26c7f3a0d04bc00433d53ab70e0102ed2279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:22 +0000
Subject: [PATCH 18/56] fix: bulk: a negative shape visits nothing, and the
 function cannot change the index

---
 include/stdexec/__detail/__bulk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__bulk.hpp b/include/stdexec/__detail/__bulk.hpp
index 337af08..591ba6d 100644
--- a/include/stdexec/__detail/__bulk.hpp
+++ b/include/stdexec/__detail/__bulk.hpp
@@ -188,7 +188,7 @@ namespace STDEXEC
       {
         for (; __begin != __end; ++__begin)
         {
-          __fun_(__begin, __args...);
+          __fun_(_Shape(__begin), __args...);
         }
       }
     };
@@ -322,7 +322,7 @@ namespace STDEXEC
 
           STDEXEC_TRY
           {
-            for (__shape_t __i{}; __i != __shape; ++__i)
+            for (__shape_t __i{}; __i < __shape; ++__i)
             {
               __state.__data_.__fun_(__shape_t(__i), __args...);
             }
-- 
2.43.0


From 25fb068d38bc6a2ee125e057538fc81b4d24723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:22 +0000
Subject: [PATCH 19/56] fix: static_thread_pool: bulk with a negative shape
 visits nothing

---
 include/exec/static_thread_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index c0f9e44..4d202d1 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1491,7 +1491,7 @@ namespace experimental::execution
           }
         }
 
-        if (shared_state_.shape_)
+        if (Shape{} < shared_state_.shape_)
         {
           enqueue();
         }
-- 
2.43.0


From e1baf61e1239af87dec3667f14a96ccc10ef0390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:54 +0000
Subject: [PATCH 20/56] fix: parallel_scheduler: an operation that is not
 scheduled gives back the backend

---
 .../stdexec/__detail/__parallel_scheduler.hpp  | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 5d0c290..bda875b 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -199,13 +199,8 @@ namespace STDEXEC
       /// Constructs `this` from `__rcvr` and `__sched_impl`.
       __system_op(_Rcvr&& __rcvr, __backend_ptr_t __sched_impl)
         : __rcvr_{std::forward<_Rcvr>(__rcvr)}
-      {
-        /// Before the operation starts, we store the scheduler implementation in
-        /// __preallocated_. After the operation starts, we don't need this pointer
-        /// anymore, and the storage can be used by the backend
-        auto* __p = &__preallocated_.__as<__backend_ptr_t>();
-        std::construct_at(__p, std::move(__sched_impl));
-      }
+        , __sched_impl_{std::move(__sched_impl)}
+      {}
 
       STDEXEC_IMMOVABLE(__system_op);
 
@@ -218,18 +213,17 @@ namespace STDEXEC
           __rcvr_.set_stopped();
           return;
         }
-        auto& __sched_impl = __preallocated_.__as<__backend_ptr_t>();
-        auto  __impl       = std::move(__sched_impl);
-        std::destroy_at(&__sched_impl);
+        auto __impl = std::move(__sched_impl_);
         __impl->schedule(__rcvr_, __preallocated_.__as_storage());
       }
 
       /// Object that receives completion from the work described by the sender.
       __receiver_proxy<_Rcvr> __rcvr_;
 
+      /// The underlying implementation of the scheduler, until the operation is started.
+      __backend_ptr_t __sched_impl_;
+
       /// Preallocated space for storing the operation state on the implementation size.
-      /// We also store here the backend interface for the scheduler before we actually
-      /// start the operation.
       __aligned_storage<STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_SIZE,
                         STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_ALIGN>
         __preallocated_;
-- 
2.43.0


From 9cba0a9ed6b2370d940a20a91e27dfba84d742a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:54 +0000
Subject: [PATCH 21/56] fix: parallel_scheduler: destroy the predecessor's
 operation when the backend is not called

---
 .../stdexec/__detail/__parallel_scheduler.hpp | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index bda875b..517427f 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -597,7 +597,7 @@ namespace STDEXEC
       {
         auto* __self = static_cast<__system_bulk_op*>(__base);
         // We don't need anymore the storage for the previous operation state.
-        __self->__preallocated_.template __as<__inner_op_state>().~__inner_op_state();
+        __self->__destroy_inner_op();
         // Reuse the preallocated storage for the backend.
         return __self->__preallocated_.__as_storage();
       }
@@ -618,6 +618,16 @@ namespace STDEXEC
 
         // Start using the preallocated buffer to store the inner operation state.
         new (__preallocated_.__as_ptr()) __inner_op_state(static_cast<_InitF&&>(__initFunc)(*this));
+        __has_inner_op_ = true;
+      }
+
+      ~__system_bulk_op()
+      {
+        // The inner operation state is still there if the backend was never called.
+        if (__has_inner_op_)
+        {
+          __destroy_inner_op();
+        }
       }
 
       __system_bulk_op(__system_bulk_op const &)                    = delete;
@@ -632,6 +642,15 @@ namespace STDEXEC
         // Bulk operation will be started when the previous sender completes.
         STDEXEC::start(__preallocated_.template __as<__inner_op_state>());
       }
+
+     private:
+      void __destroy_inner_op() noexcept
+      {
+        __has_inner_op_ = false;
+        std::destroy_at(&__preallocated_.template __as<__inner_op_state>());
+      }
+
+      bool __has_inner_op_{false};
     };
   }  // namespace __detail
 
-- 
2.43.0


From b274d5533b83ce6d63fedbe740f719884de4339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:54 +0000
Subject: [PATCH 22/56] fix: parallel_scheduler: deliver exceptions of the bulk
 function and of the values

---
 .../stdexec/__detail/__parallel_scheduler.hpp | 89 ++++++++++++++-----
 1 file changed, 69 insertions(+), 20 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 517427f..0efcb7c 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -26,6 +26,7 @@ import stdexec;
 
 #  include "__execution_fwd.hpp"
 
+#  include "__atomic.hpp"
 #  include "__bulk.hpp"
 #  include "__domain.hpp"
 #  include "__manual_lifetime.hpp"
@@ -365,12 +366,29 @@ namespace STDEXEC
       void set_value() noexcept override
       {
         auto __state = reinterpret_cast<_BulkState*>(this);
-        auto __args  = std::move(__base_t::__arguments_.__get());
-        __base_t::__arguments_.__destroy();
-        std::destroy_at(this);
-        std::apply([&](auto&&... __args)
-                   { STDEXEC::set_value(std::move(__state->__rcvr_), std::move(__args)...); },
-                   std::move(__args));
+        if (__state->__failed_.load(__std::memory_order_relaxed))
+        {
+          // Some call to the bulk functor threw an exception.
+          set_error(std::move(__state->__exception_));
+          return;
+        }
+        STDEXEC_TRY
+        {
+          auto __args = std::move(__base_t::__arguments_.__get());
+          __base_t::__arguments_.__destroy();
+          std::destroy_at(this);
+          std::apply([&](auto&&... __args)
+                     { STDEXEC::set_value(std::move(__state->__rcvr_), std::move(__args)...); },
+                     std::move(__args));
+        }
+        STDEXEC_CATCH_ALL
+        {
+          // Only moving the values out of the base class storage can throw.
+          if constexpr (!__nothrow_move_constructible<typename __base_t::__storage_t>)
+          {
+            set_error(std::current_exception());
+          }
+        }
       }
 
       /// Calls `set_error()` on the final receiver of the bulk operation, passing `__ex`.
@@ -395,6 +413,34 @@ namespace STDEXEC
       void execute(size_t __begin, size_t __end) noexcept override
       {
         auto __state = reinterpret_cast<_BulkState*>(this);
+        STDEXEC_TRY
+        {
+          __execute(__state, __begin, __end);
+        }
+        STDEXEC_CATCH_ALL
+        {
+          // Keep the first exception, and report it when all the calls are done.
+          if (!__state->__failed_.exchange(true, __std::memory_order_relaxed))
+          {
+            __state->__exception_ = std::current_exception();
+          }
+        }
+      }
+
+     protected:
+      void __query_env(__type_index __query_type,
+                       __type_index __value_type,
+                       void*        __dest) const noexcept override
+      {
+        if (__query_type == __mtypeid<get_stop_token_t>)
+        {
+          __query(get_stop_token, __value_type, __dest);
+        }
+      }
+
+     private:
+      void __execute(_BulkState* __state, size_t __begin, size_t __end)
+      {
         if constexpr (_BulkState::__is_unchunked)
         {
           (void) __end;  // not used
@@ -423,18 +469,6 @@ namespace STDEXEC
         }
       }
 
-     protected:
-      void __query_env(__type_index __query_type,
-                       __type_index __value_type,
-                       void*        __dest) const noexcept override
-      {
-        if (__query_type == __mtypeid<get_stop_token_t>)
-        {
-          __query(get_stop_token, __value_type, __dest);
-        }
-      }
-
-     private:
       void __query(get_stop_token_t, __type_index __value_type, void* __dest) const noexcept
       {
         auto __state         = reinterpret_cast<_BulkState const *>(this);
@@ -481,6 +515,9 @@ namespace STDEXEC
       std::span<std::byte> (*__prepare_storage_for_backend)(__bulk_state_base*){nullptr};
       /// The size of the bulk operation.
       _Size __size_;
+      /// The first exception thrown by the bulk functor.
+      __std::atomic<bool> __failed_{false};
+      std::exception_ptr  __exception_{};
 
       __bulk_state_base(_Fn&& __fun, _Rcvr&& __rcvr, _Size __size)
         : __fun_{std::move(__fun)}
@@ -514,8 +551,20 @@ namespace STDEXEC
         // Store the input data in the shared state.
         using __typed_forward_args_receiver_t =
           __typed_forward_args_receiver<_Previous, _BulkState, _As...>;
-        auto __r = new (&__state_.__forward_args_helper_)
-          __typed_forward_args_receiver_t(std::forward<_As>(__as)...);
+        __typed_forward_args_receiver_t* __r = nullptr;
+        STDEXEC_TRY
+        {
+          __r = new (&__state_.__forward_args_helper_)
+            __typed_forward_args_receiver_t(std::forward<_As>(__as)...);
+        }
+        STDEXEC_CATCH_ALL
+        {
+          if constexpr (!__nothrow_decay_copyable<_As...>)
+          {
+            STDEXEC::set_error(std::move(__state_.__rcvr_), std::current_exception());
+            return;
+          }
+        }
 
         auto __scheduler = __sched_;
         auto __size      = static_cast<size_t>(__state_.__size_);
-- 
2.43.0


From 8fbd68cb85da77af6f314f07fb81d1fa464ce744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:54 +0000
Subject: [PATCH 23/56] fix: parallel_scheduler: connecting bulk may throw

---
 include/stdexec/__detail/__parallel_scheduler.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 0efcb7c..52f7540 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -109,8 +109,7 @@ namespace STDEXEC
   struct __parallel_scheduler_domain : default_domain
   {
     template <__bulk_chunked_or_unchunked _Sender, class _Env>
-    constexpr auto
-    transform_sender(set_value_t, _Sender&& __sndr, _Env const & __env) const noexcept;
+    constexpr auto transform_sender(set_value_t, _Sender&& __sndr, _Env const & __env) const;
   };
 
   namespace __detail
@@ -738,7 +737,7 @@ namespace STDEXEC
       _Previous                 __previous;
       __detail::__backend_ptr_t __sched;
 
-      auto operator()(_Op& __op) && noexcept
+      auto operator()(_Op& __op) &&
       {
         using __receiver_t = _Op::__intermediate_receiver_t;
         return STDEXEC::connect(std::move(__previous), __receiver_t{__op, std::move(__sched)});
@@ -747,7 +746,7 @@ namespace STDEXEC
 
     /// Connects `__self` to `__rcvr`, returning the operation state containing the work to be done.
     template <receiver _Rcvr>
-    auto connect(_Rcvr __rcvr) && noexcept(__nothrow_move_constructible<_Rcvr>)
+    auto connect(_Rcvr __rcvr) &&
       -> __detail::__system_bulk_op<_IsUnchunked, _Previous, _Size, _Fn, _Rcvr, _Parallelize>
     {
       using __res_t =
@@ -811,7 +810,7 @@ namespace STDEXEC
   struct __transform_parallel_bulk_sender
   {
     template <class _Data, class _Previous>
-    auto operator()(bulk_chunked_t, _Data&& __data, _Previous&& __previous) const noexcept
+    auto operator()(bulk_chunked_t, _Data&& __data, _Previous&& __previous) const
     {
       auto [__pol, __shape, __fn]  = static_cast<_Data&&>(__data);
       using __policy_t             = std::remove_cvref_t<decltype(__pol.__get())>;
@@ -828,7 +827,7 @@ namespace STDEXEC
     }
 
     template <class _Data, class _Previous>
-    auto operator()(bulk_unchunked_t, _Data&& __data, _Previous&& __previous) const noexcept
+    auto operator()(bulk_unchunked_t, _Data&& __data, _Previous&& __previous) const
     {
       auto [__pol, __shape, __fn]  = static_cast<_Data&&>(__data);
       using __policy_t             = std::remove_cvref_t<decltype(__pol.__get())>;
@@ -850,7 +849,7 @@ namespace STDEXEC
   template <__bulk_chunked_or_unchunked _Sender, class _Env>
   constexpr auto __parallel_scheduler_domain::transform_sender(set_value_t,
                                                                _Sender&&    __sndr,
-                                                               _Env const & __env) const noexcept
+                                                               _Env const & __env) const
   {
     if constexpr (__completes_on<_Sender, parallel_scheduler, _Env>)
     {
-- 
2.43.0


From f086f543ab6203a4b9bc1a42e2cf1b8b15be2363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:06 +0000
Subject: [PATCH 24/56] fix: parallel_scheduler, task_scheduler: bulk with a
 negative shape visits nothing

---
 include/stdexec/__detail/__parallel_scheduler.hpp | 2 +-
 include/stdexec/__detail/__task_scheduler.hpp     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 52f7540..684e7ff 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -521,7 +521,7 @@ namespace STDEXEC
       __bulk_state_base(_Fn&& __fun, _Rcvr&& __rcvr, _Size __size)
         : __fun_{std::move(__fun)}
         , __rcvr_{std::move(__rcvr)}
-        , __size_{__size}
+        , __size_{_Size() < __size ? __size : _Size()}
       {}
     };
 
diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 476a259..3322aff 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -603,7 +603,9 @@ namespace STDEXEC
                               decltype(__child),
                               decltype(__fn),
                               _Rcvr>{std::move(__child),
-                                     static_cast<size_t>(__shape),
+                                     static_cast<size_t>(decltype(__shape)() < __shape
+                                                           ? __shape
+                                                           : decltype(__shape)()),
                                      std::move(__fn),
                                      std::move(__rcvr),
                                      std::move(__attrs_.__sched_.__backend_)};
-- 
2.43.0


From 868fc4986910e9021be61097f98fbed818499ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:06 +0000
Subject: [PATCH 25/56] fix: task_scheduler: forward stop requests of any stop
 token to the scheduler

---
 include/stdexec/__detail/__task_scheduler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 3322aff..a5e0aec 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -312,6 +312,8 @@ namespace STDEXEC
 
       constexpr void start() noexcept
       {
+        // A stop request that was made already is delivered by the scheduler.
+        (void) __rcvr_proxy_.__register_stop_callback();
         __backend_.schedule(__rcvr_proxy_, std::span{__storage_});
       }
 
-- 
2.43.0


From 6199294a429f722f55a02cb8a79cb94f32e3b8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:07 +0000
Subject: [PATCH 26/56] fix: task_scheduler: bulk without a parallel policy
 runs a single agent

---
 include/stdexec/__detail/__task_scheduler.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index a5e0aec..5ba6300 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -365,6 +365,12 @@ namespace STDEXEC
       __sched_attrs<task_scheduler> __attrs_;
     };
 
+    template <class _Policy>
+    inline constexpr bool __is_parallel_policy =
+      __one_of<std::remove_cvref_t<decltype(__declval<_Policy>().__get())>,
+               STDEXEC::parallel_policy,
+               STDEXEC::parallel_unsequenced_policy>;
+
     //! @brief A receiver used to connect the predecessor of a bulk operation launched by a
     //! task_scheduler. Its set_value member stores the predecessor's values in the bulk
     //! operation state and then starts the bulk operation.
@@ -382,16 +388,18 @@ namespace STDEXEC
           using __values_t = __decayed_tuple<_As...>;
           __state_->__values_.template emplace<__values_t>(static_cast<_As&&>(__as)...);
 
-          // Start the bulk operation.
+          // Start the bulk operation. If we are not parallelizing, a single agent runs all the
+          // iterations.
+          size_t const __count = __task::__is_parallel_policy<_Policy> ? __state_->__shape_ : 1;
           if constexpr (__same_as<_BulkTag, bulk_chunked_t>)
           {
-            __state_->__backend_.schedule_bulk_chunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_chunked(__count,
                                                        *__state_,
                                                        std::span{__state_->__storage_});
           }
           else
           {
-            __state_->__backend_.schedule_bulk_unchunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_unchunked(__count,
                                                          *__state_,
                                                          std::span{__state_->__storage_});
           }
@@ -525,10 +533,7 @@ namespace STDEXEC
       {
         STDEXEC_TRY
         {
-          using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
-          constexpr bool __parallelize =
-            __same_as<__policy_t, STDEXEC::parallel_policy>
-            || __same_as<__policy_t, STDEXEC::parallel_unsequenced_policy>;
+          constexpr bool __parallelize = __task::__is_parallel_policy<_Policy>;
           __visit(__task::__get_execute_bulk_fn<__parallelize>(_BulkTag(),
                                                                __fn_,
                                                                __shape_,
-- 
2.43.0


From 27d963dfe07e357cf30c2790ac5980c0b952bccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:07 +0000
Subject: [PATCH 27/56] fix: task_scheduler: deliver the first exception of the
 bulk function when all calls are done

---
 include/stdexec/__detail/__task_scheduler.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 5ba6300..a91dbd0 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -27,6 +27,7 @@ import stdexec;
 
 // include these after __execution_fwd.hpp
 #  include "__any.hpp"
+#  include "__atomic.hpp"
 #  include "__bulk.hpp"
 #  include "__concepts.hpp"
 #  include "__diagnostics.hpp"
@@ -521,6 +522,12 @@ namespace STDEXEC
 
       constexpr void set_value() noexcept final
       {
+        if (__failed_.load(__std::memory_order_relaxed))
+        {
+          // Some call to the bulk function threw an exception.
+          STDEXEC::set_error(std::move(this->__rcvr_), std::move(__exception_));
+          return;
+        }
         // Send the stored values to the downstream receiver.
         __visit([](auto& __rcvr, auto& __tupl)
                 { __apply(STDEXEC::set_value, std::move(__tupl), std::move(__rcvr)); },
@@ -543,7 +550,11 @@ namespace STDEXEC
         }
         STDEXEC_CATCH_ALL
         {
-          STDEXEC::set_error(std::move(this->__rcvr_), std::current_exception());
+          // Keep the first exception, and report it when all the calls are done.
+          if (!__failed_.exchange(true, __std::memory_order_relaxed))
+          {
+            __exception_ = std::current_exception();
+          }
         }
       }
 
@@ -554,6 +565,9 @@ namespace STDEXEC
       _Fn                          __fn_;
       size_t                       __shape_;
       _Values                      __values_{__no_init};
+      //! The first exception thrown by the bulk function.
+      __std::atomic<bool>          __failed_{false};
+      std::exception_ptr           __exception_{};
       __any_task_scheduler_backend __backend_;
       alignas(STDEXEC_TASK_BULK_SCHEDULE_OPSTATE_ALIGN) std::byte
         __storage_[STDEXEC_TASK_BULK_SCHEDULE_OPSTATE_SIZE];
-- 
2.43.0


From e1cf3a76f6edc1138b8f364c57d6478ea092cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:07 +0000
Subject: [PATCH 28/56] fix: task_scheduler: deliver the error of a bulk
 operation that cannot be started

---
 include/stdexec/__detail/__parallel_scheduler_backend.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_backend.hpp b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
index c18c4cc..bfb594e 100644
--- a/include/stdexec/__detail/__parallel_scheduler_backend.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
@@ -235,7 +235,9 @@ namespace STDEXEC
 
       void set_error(std::exception_ptr eptr) noexcept final
       {
-        if constexpr (_Infallible)
+        // NB: A bulk operation may fail even when scheduling does not.
+        if constexpr (_Infallible
+                      && __same_as<_RcvrProxy, parallel_scheduler_replacement::receiver_proxy>)
         {
           STDEXEC_ASSERT(!+"set_error called on an infallible receiver proxy");
           __std::unreachable();
-- 
2.43.0


From ac857770e4362197f4a888a88ffb557616e984a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 29/56] fix: affine: forward the queries of its attributes to
 the sender

---
 include/stdexec/__detail/__affine.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__affine.hpp b/include/stdexec/__detail/__affine.hpp
index 2306561..f7ee1d5 100644
--- a/include/stdexec/__detail/__affine.hpp
+++ b/include/stdexec/__detail/__affine.hpp
@@ -163,10 +163,11 @@ namespace STDEXEC
       template <__forwarding_query _Tag, class... _Args>
         requires(!__completion_query<_Tag>)
              && __queryable_with<env_of_t<_Sender>, _Tag, _Args const &...>
-      constexpr auto query(_Tag, _Args const &...) const noexcept
-        -> __query_result_t<env_of_t<_Sender>, _Tag, _Args const &...>
+      constexpr auto query(_Tag, _Args const &...__args) const
+        noexcept(__nothrow_queryable_with<env_of_t<_Sender>, _Tag, _Args const &...>)
+          -> __query_result_t<env_of_t<_Sender>, _Tag, _Args const &...>
       {
-        return __query_result_t<env_of_t<_Sender>, _Tag, _Args const &...>{};
+        return __query<_Tag>()(STDEXEC::get_env(__sndr_), __args...);
       }
 
       _Sender const &__sndr_;
-- 
2.43.0


From cf1d75cf2b1921b5a26eb4531790e243678a1a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 30/56] fix: sequence: forward the queries of its attributes to
 the senders

---
 include/stdexec/__detail/__sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__sequence.hpp b/include/stdexec/__detail/__sequence.hpp
index e4c61fd..9293684 100644
--- a/include/stdexec/__detail/__sequence.hpp
+++ b/include/stdexec/__detail/__sequence.hpp
@@ -75,7 +75,7 @@ namespace STDEXEC
       template <class _Query, class... _Args>
         requires __queryable_with<env_of_t<_CvSender>, _Query, _Args...>
       STDEXEC_ATTRIBUTE(nodiscard, always_inline, host, device)
-      constexpr auto operator()(_Query, _Args &&...__args) const
+      constexpr auto query(_Query, _Args &&...__args) const
         noexcept(__nothrow_queryable_with<env_of_t<_CvSender>, _Query, _Args...>)
           -> __query_result_t<env_of_t<_CvSender>, _Query, _Args...>
       {
@@ -170,7 +170,7 @@ namespace STDEXEC
       template <__forwarding_query _Query, class... _Args>
         requires(!__completion_query<_Query>) && __queryable_with<__joined_t, _Query, _Args...>
       [[nodiscard]]
-      constexpr auto operator()(_Query, _Args &&...__args) const
+      constexpr auto query(_Query, _Args &&...__args) const
         noexcept(__nothrow_queryable_with<__joined_t, _Query, _Args...>)
           -> __query_result_t<__joined_t, _Query, _Args...>
       {
-- 
2.43.0


From 77eda9cdd9e397c090e1fa852f33f2aca940b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 31/56] fix: task: let co_await throw when the sender cannot be
 connected

---
 include/exec/task.hpp               | 6 +++---
 include/stdexec/__detail/__task.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 1b0cbda..34d9334 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -600,7 +600,7 @@ namespace experimental::execution
 #ifndef __clang_analyzer__
         template <sender _CvSender>
           requires __start_scheduler_provider<_Context>
-        auto await_transform(_CvSender&& __sndr) noexcept -> decltype(auto)
+        auto await_transform(_CvSender&& __sndr) -> decltype(auto)
         {
           if constexpr (__completes_where_it_starts<set_value_t,
                                                     env_of_t<_CvSender>,
@@ -628,13 +628,13 @@ namespace experimental::execution
 #endif
 
         template <__sender_adaptor_closure_for<__just_void<__scheduler_t>> _Closure>
-        auto await_transform(_Closure&& __closure) noexcept -> decltype(auto)
+        auto await_transform(_Closure&& __closure) -> decltype(auto)
         {
           return await_transform(static_cast<_Closure&&>(__closure)(__just_void<__scheduler_t>()));
         }
 
         template <class _Awaitable>
-        constexpr auto await_transform(_Awaitable&& __awaitable) noexcept -> decltype(auto)
+        constexpr auto await_transform(_Awaitable&& __awaitable) -> decltype(auto)
         {
           return with_awaitable_senders<__promise>::await_transform(
             static_cast<_Awaitable&&>(__awaitable));
diff --git a/include/stdexec/__detail/__task.hpp b/include/stdexec/__detail/__task.hpp
index 66e1b43..578bbfd 100644
--- a/include/stdexec/__detail/__task.hpp
+++ b/include/stdexec/__detail/__task.hpp
@@ -718,7 +718,7 @@ namespace STDEXEC
     }
 
     template <sender _Sender>
-    constexpr auto await_transform(_Sender&& __sndr) noexcept
+    constexpr auto await_transform(_Sender&& __sndr)
     {
       using __schedule_sndr_t = schedule_result_t<start_scheduler_type>;
       if constexpr (__completes_where_it_starts<set_value_t, env_of_t<__schedule_sndr_t>, __env>)
-- 
2.43.0


From 54a8b09fef545b0bb30814266e3cc0103e6e8ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 32/56] fix: exec::task: let reschedule_coroutine_on throw when
 scheduling fails

---
 include/exec/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 34d9334..f8e7492 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -468,7 +468,7 @@ namespace experimental::execution
         }
       }
 
-      void await_resume() noexcept
+      void await_resume()
       {
         if (__eptr_)
         {
-- 
2.43.0


From b3a2e1434bed7dbfc6d3f3fb3446f7cbbe428d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 33/56] fix: inplace_stop_source: let a callback destroy the
 source whose stop request it runs in

---
 include/stdexec/stop_token.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/stdexec/stop_token.hpp b/include/stdexec/stop_token.hpp
index a53bd91..3fca545 100644
--- a/include/stdexec/stop_token.hpp
+++ b/include/stdexec/stop_token.hpp
@@ -158,6 +158,8 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
     mutable STDEXEC::__std::atomic<uint8_t>                __state_{0};
     mutable STDEXEC::__stok::__inplace_stop_callback_base* __callbacks_ = nullptr;
     std::thread::id                                        __notifying_thread_;
+    // Set while request_stop() runs the callbacks, any of which may destroy this object.
+    bool*                                                  __destroyed_during_callback_ = nullptr;
   };
 
   // [stoptoken.inplace], class inplace_stop_token
@@ -258,6 +260,10 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
   {
     STDEXEC_ASSERT((__state_.load(STDEXEC::__std::memory_order_relaxed) & __locked_flag_) == 0);
     STDEXEC_ASSERT(__callbacks_ == nullptr);
+    if (__destroyed_during_callback_ != nullptr)
+    {
+      *__destroyed_during_callback_ = true;
+    }
   }
 
   inline auto inplace_stop_source::request_stop() noexcept -> bool
@@ -267,6 +273,11 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
 
     __notifying_thread_ = std::this_thread::get_id();
 
+    // A callback may complete the operation that owns this stop source, which may then be
+    // destroyed before the callback returns.
+    bool __destroyed_during_callback = false;
+    __destroyed_during_callback_     = &__destroyed_during_callback;
+
     // We are responsible for executing callbacks.
     while (__callbacks_ != nullptr)
     {
@@ -289,9 +300,15 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
         __callbk->__callback_completed_.store(true, STDEXEC::__std::memory_order_release);
       }
 
+      if (__destroyed_during_callback)
+      {
+        return true;
+      }
+
       __lock_();
     }
 
+    __destroyed_during_callback_ = nullptr;
     __state_.store(__stop_requested_flag_, STDEXEC::__std::memory_order_release);
     return true;
   }
-- 
2.43.0


From 16a5b134cd2ad4699a72c8ea1d18b0c40ed3b083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 34/56] fix: __any: tell an exception that a stored object's
 constructor throws

---
 include/stdexec/__detail/__any.hpp | 33 ++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 7325c82..d2f1aac 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -485,12 +485,13 @@ namespace STDEXEC::__any
   template <class _Value>
   struct __box
   {
-    constexpr explicit __box(_Value __val) noexcept
+    constexpr explicit __box(_Value __val) noexcept(__nothrow_move_constructible<_Value>)
       : __val_(std::move(__val))
     {}
 
     template <class... _Args>
-    constexpr explicit __box(_Args &&...__args) noexcept
+    constexpr explicit __box(_Args &&...__args)
+      noexcept(__nothrow_constructible_from<_Value, _Args...>)
       : __val_(static_cast<_Args &&>(__args)...)
     {}
 
@@ -635,6 +636,27 @@ namespace STDEXEC::__any
     }
   };
 
+  // An exception from the constructor of an object in the buffer leaves the pointers to its
+  // vtables behind. Mark the buffer as empty again.
+  struct __empty_guard
+  {
+    std::span<std::byte> __buff;
+    bool                 __dismissed = false;
+
+    constexpr void __dismiss() noexcept
+    {
+      __dismissed = true;
+    }
+
+    constexpr ~__empty_guard() noexcept
+    {
+      if (!__dismissed)
+      {
+        *__std::start_lifetime_as<__tagged_ptr>(__buff.data()) = __tagged_ptr();
+      }
+    }
+  };
+
   template <class _Model, class _Allocator, class... _Args>
   constexpr _Model &__emplace_into([[maybe_unused]] _Allocator const    &__alloc,
                                    [[maybe_unused]] __iroot            *&__root_ptr,
@@ -651,8 +673,11 @@ namespace STDEXEC::__any
     {
       if (STDEXEC::__any::__is_small<_Model>(__buff.size()))
       {
-        return *std::construct_at(reinterpret_cast<_Model *>(__buff.data()),
-                                  static_cast<_Args &&>(__args)...);
+        __empty_guard __guard{__buff};
+        auto *const   __model = std::construct_at(reinterpret_cast<_Model *>(__buff.data()),
+                                                static_cast<_Args &&>(__args)...);
+        __guard.__dismiss();
+        return *__model;
       }
       else
       {
-- 
2.43.0


From 5d89efca9a3571dc3be10fa5da0900a8fe76adb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 35/56] fix: __any: do not put over-aligned objects into the
 buffer

---
 include/stdexec/__detail/__any.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index d2f1aac..bbf4305 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -367,7 +367,8 @@ namespace STDEXEC::__any
       // If _Model requires movability, then it must be nothrow moveable to be small.
       STDEXEC_CONSTEXPR_LOCAL bool __nothrow_movable = !__extension_of<_Model, __imovable>
                                                     || __nothrow_move_constructible<_Model>;
-      return sizeof(_Model) <= __buffer_size && __nothrow_movable;
+      return sizeof(_Model) <= __buffer_size && alignof(_Model) <= _Model::__buffer_alignment
+          && __nothrow_movable;
     }
   }
 
-- 
2.43.0


From 2bd3a29291093fc2e8a06047af508d70a1c18c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 36/56] fix: when_any: do not complete twice when a stop
 request meets the last completion

---
 include/exec/when_any.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/exec/when_any.hpp b/include/exec/when_any.hpp
index 1e1a58b..c58879a 100644
--- a/include/exec/when_any.hpp
+++ b/include/exec/when_any.hpp
@@ -88,8 +88,19 @@ namespace experimental::execution
         constexpr void operator()() const noexcept
         {
           // Temporarily increment the count to avoid concurrent/recursive arrivals to
-          // pull the rug under our feet. Relaxed memory order is fine here.
-          __op_->__count_.fetch_add(1, __std::memory_order_relaxed);
+          // pull the rug under our feet. Relaxed memory order is fine here. When all
+          // senders have arrived already, the operation is completing: it waits for this
+          // callback to return and must not be completed again.
+          std::size_t __n = __op_->__count_.load(__std::memory_order_relaxed);
+          do
+          {
+            if (__n == 0)
+            {
+              return;
+            }
+          } while (!__op_->__count_.compare_exchange_weak(__n,
+                                                          __n + 1,
+                                                          __std::memory_order_relaxed));
 
           __op_->__stop_source_.request_stop();
 
-- 
2.43.0


From 717ae1b78ed7e364e09919e36bdd8216560e12bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 37/56] fix: when_any: deregister the stop callback before
 completing with stopped in start

---
 include/exec/when_any.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/when_any.hpp b/include/exec/when_any.hpp
index c58879a..be7084c 100644
--- a/include/exec/when_any.hpp
+++ b/include/exec/when_any.hpp
@@ -239,6 +239,7 @@ namespace experimental::execution
                                  typename __op_base_t::__forward_stop_request{this});
         if (this->__stop_source_.stop_requested())
         {
+          this->__on_stop_.reset();
           STDEXEC::set_stopped(static_cast<_Receiver&&>(this->__rcvr_));
         }
         else
-- 
2.43.0


From df7b5349d16266a6ea2d2f4ea4087528fb121d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 38/56] fix: async_scope: abandon the work of a future that is
 assigned to

---
 include/exec/async_scope.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/exec/async_scope.hpp b/include/exec/async_scope.hpp
index 7635dbb..d0c7833 100644
--- a/include/exec/async_scope.hpp
+++ b/include/exec/async_scope.hpp
@@ -652,7 +652,15 @@ namespace experimental::execution
       using sender_concept = STDEXEC::sender_tag;
 
       __future(__future&&)                    = default;
-      auto operator=(__future&&) -> __future& = default;
+
+      auto operator=(__future&& __other) noexcept -> __future&
+      {
+        // the future that is replaced must be abandoned like one that is destroyed:
+        __future __tmp(static_cast<__future&&>(__other));
+        std::swap(__state_, __tmp.__state_);
+        return *this;
+      }
+
 
       ~__future() noexcept
       {
-- 
2.43.0


From bcbfbf77b667ce685fd88e40f27cabeb99bf7a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 39/56] fix: async_scope: deregister a future's stop callback
 before abandoning its state

---
 include/exec/async_scope.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/exec/async_scope.hpp b/include/exec/async_scope.hpp
index d0c7833..722393e 100644
--- a/include/exec/async_scope.hpp
+++ b/include/exec/async_scope.hpp
@@ -384,6 +384,8 @@ namespace experimental::execution
       {
         if (__state_ != nullptr)
         {
+          // the stop callback uses the state, which may be gone once it is abandoned
+          __forward_consumer_.reset();
           auto             __raw_state = __state_.get();
           std::unique_lock __guard{__raw_state->__mutex_};
           if (__raw_state->__data_.index() > 0)
-- 
2.43.0


From 3f6b39d5b237237bde1227d4a3cf79b47a168761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 40/56] fix: start_now: let it throw when a sender cannot be
 connected

---
 include/exec/start_now.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/exec/start_now.hpp b/include/exec/start_now.hpp
index b445231..f234369 100644
--- a/include/exec/start_now.hpp
+++ b/include/exec/start_now.hpp
@@ -220,7 +220,11 @@ namespace experimental::execution
                 STDEXEC::sender... _Sender>
       constexpr auto operator()(_Env __env, _AsyncScope& __scope, _Sender&&... __sndr) const
         noexcept(STDEXEC::__nothrow_move_constructible<std::unwrap_reference_t<_Env>>
-                 && (STDEXEC::__nothrow_move_constructible<_Sender> && ...))
+                 && (STDEXEC::__nothrow_move_constructible<_Sender> && ...)
+                 && (STDEXEC::__nothrow_connectable<
+                       nest_result_t<_AsyncScope, _Sender>,
+                       __receiver<STDEXEC::__as_root_env_t<std::unwrap_reference_t<_Env>>>>
+                     && ...))
       {
         using __local_env_t = STDEXEC::__as_root_env_t<std::unwrap_reference_t<_Env>>;
         static_assert(!STDEXEC::sender<_Env>,
@@ -243,7 +247,10 @@ namespace experimental::execution
 
       template <exec::__scope::__async_scope _AsyncScope, STDEXEC::sender... _Sender>
       constexpr auto operator()(_AsyncScope& __scope, _Sender&&... __sndr) const
-        noexcept((STDEXEC::__nothrow_move_constructible<_Sender> && ...))
+        noexcept((STDEXEC::__nothrow_move_constructible<_Sender> && ...)
+                 && (STDEXEC::__nothrow_connectable<nest_result_t<_AsyncScope, _Sender>,
+                                                    __receiver<STDEXEC::__root_env>>
+                     && ...))
       {
         static_assert(!STDEXEC::sender<_AsyncScope>,
                       "The first argument to start_now() must be either an environment or an "
-- 
2.43.0


From 1293f3027c0059cca8ee61b8f72c331fdf0d211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 41/56] fix: function: use the allocator of the receiver's
 environment

The allocator for the erased operation was chosen by querying the
receiver itself rather than its environment, so an allocator given there
was ignored and the global operator new was used instead.
---
 include/exec/function.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/function.hpp b/include/exec/function.hpp
index f0ba12f..872e719 100644
--- a/include/exec/function.hpp
+++ b/include/exec/function.hpp
@@ -141,14 +141,14 @@ namespace experimental::execution
       using __receiver_t   = __receiver_wrapper<__any_receiver_ref<_Sigs, _Queries>>;
       using __prop_t       = __receiver_t::__prop_t;
       using __stop_token_t = stop_token_of_t<env_of_t<__receiver_t>>;
-      using __adaptee_t    = decltype(__choose_frame_allocator(__declval<_Receiver const &>()));
+      using __adaptee_t    = decltype(__choose_frame_allocator(__declval<env_of_t<_Receiver>>()));
 
       __memory_resource_adaptor_t<__adaptee_t> __resource_;
       __prop_t                                 __env_;
       _any::_state<_Receiver, __stop_token_t>  __rcvr_;
 
       explicit __opstate_base(_Receiver __rcvr)
-        : __resource_(__choose_frame_allocator(std::as_const(__rcvr)))
+        : __resource_(__choose_frame_allocator(STDEXEC::get_env(__rcvr)))
         , __env_(__make_env())
         , __rcvr_(static_cast<_Receiver &&>(__rcvr))
       {}
-- 
2.43.0


From 8db25969799aea1ca7f7c0ffabe96e7d5e93dd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:53 +0000
Subject: [PATCH 42/56] fix: split, ensure_started: unregister the stop
 callback when it completes its waiter

The stop callback of a waiter completes the receiver, which may destroy the
receiver's stop token (or the operation itself) right away. Unregister it
before, as the normal completion path does.
---
 include/exec/detail/shared.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/detail/shared.hpp b/include/exec/detail/shared.hpp
index f93cb62..675236d 100644
--- a/include/exec/detail/shared.hpp
+++ b/include/exec/detail/shared.hpp
@@ -274,6 +274,7 @@ namespace experimental::execution::__shared
       // __notify function is called from the shared state's __notify_waiters function, which
       // first sets __waiters_ to the completed state. As a result, the attempt to remove `this`
       // from the waiters list above will fail and this stop request is ignored.
+      __on_stop_.reset();
       __sh_state_.reset();
       STDEXEC::set_stopped(static_cast<_Receiver&&>(__rcvr_));
     }
-- 
2.43.0


From 3e936e3415aad4de1c2a68c80b079b33ecae17b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:53 +0000
Subject: [PATCH 43/56] fix: merge_each: unregister the stop callback when stop
 was requested before start

---
 include/exec/sequence/merge_each.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index b692213..b453a3a 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -1196,6 +1196,7 @@ namespace experimental::execution
         {
           // Stop has already been requested. Don't bother starting
           // the child operations.
+          this->__nested_stop_.unregister_token();
           STDEXEC::set_stopped(static_cast<_Receiver&&>(this->__rcvr_));
         }
         else
-- 
2.43.0


From 1b7e8fbe253198a8e41e15dc0e80eafafc363dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:53 +0000
Subject: [PATCH 44/56] fix: read_with_default: connecting can throw when
 moving the default does

---
 include/exec/env.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/exec/env.hpp b/include/exec/env.hpp
index 455c298..a1ab84b 100644
--- a/include/exec/env.hpp
+++ b/include/exec/env.hpp
@@ -180,7 +180,8 @@ namespace experimental::execution
 
       template <__decays_to<__sender> _Self, class _Receiver>
       constexpr STDEXEC_EXPLICIT_THIS_BEGIN(auto connect)(this _Self&& __self, _Receiver __rcvr)
-        noexcept(std::is_nothrow_move_constructible_v<_Receiver>)
+        noexcept(std::is_nothrow_move_constructible_v<_Receiver>
+                 && __nothrow_move_constructible<__default_t<env_of_t<_Receiver>>>)
           -> __opstate<_Query, __default_t<env_of_t<_Receiver>>, _Receiver>
       {
         using __opstate_t = __opstate<_Query, __default_t<env_of_t<_Receiver>>, _Receiver>;
-- 
2.43.0


From 6f52c09f5f2a55c3521a70025d1c41647403507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 45/56] fix: io_uring_context reports the error of a failed
 io_uring_setup

syscall() returns -1 and sets errno, so every failure was reported as EPERM.
---
 include/exec/linux/io_uring_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 011cf1f..0baeb8e 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -72,7 +72,7 @@ namespace experimental::execution
     __io_uring_setup(unsigned __entries, ::io_uring_params& __params) -> safe_file_descriptor
     {
       int rc = static_cast<int>(::syscall(__NR_io_uring_setup, __entries, &__params));
-      __throw_error_code_if(rc < 0, -rc);
+      __throw_error_code_if(rc < 0, errno);
       return safe_file_descriptor{rc};
     }
 
-- 
2.43.0


From 9b2578a56160715078ab4b05fc9d34f727990d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 46/56] fix: io_uring_context::run() completes only once when
 it fails

After set_error the operation went on to complete its receiver a second time.
---
 include/exec/linux/io_uring_context.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 0baeb8e..8b5c285 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -669,6 +669,7 @@ namespace experimental::execution
           {
             __callback.reset();
             STDEXEC::set_error(static_cast<_Rcvr&&>(__rcvr_), std::current_exception());
+            return;
           }
           __callback.reset();
           if (__context_.stop_requested())
-- 
2.43.0


From c6b5704cb69d07532be5e69eedd216c96d296e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 47/56] fix: io_uring_context can be run again after
 run_until_empty() or finish()

Every run started the wakeup operation, also when it was still in flight. The
second run_until_empty() then waited forever for one of the two to complete.
---
 include/exec/linux/io_uring_context.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 8b5c285..ada384f 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -340,8 +340,9 @@ namespace experimental::execution
 
     struct __wakeup_operation : __task
     {
-      __context* __context_ = nullptr;
-      int        __eventfd_ = -1;
+      __context* __context_   = nullptr;
+      int        __eventfd_   = -1;
+      bool       __is_active_ = false;
 #    ifdef STDEXEC_HAS_IORING_OP_READ
       std::uint64_t __buffer_ = 0;
 #    else
@@ -372,6 +373,7 @@ namespace experimental::execution
       static void __complete_(__task* __pointer, ::io_uring_cqe const &) noexcept
       {
         __wakeup_operation& __self = *static_cast<__wakeup_operation*>(__pointer);
+        __self.__is_active_        = false;
         __self.start();
       }
 
@@ -558,7 +560,8 @@ namespace experimental::execution
           }
           else
           {
-            // This can only happen for the very first pass of run_until_stopped()
+            // The wakeup operation is still active if a previous pass of run_until_stopped()
+            // returned without a stop request.
             __wakeup_operation_.start();
           }
         }
@@ -744,8 +747,9 @@ namespace experimental::execution
 
     inline void __wakeup_operation::start() & noexcept
     {
-      if (!__context_->__stop_source_->stop_requested())
+      if (!__is_active_ && !__context_->__stop_source_->stop_requested())
       {
+        __is_active_ = true;
         __context_->__pending_.push_front(this);
       }
     }
-- 
2.43.0


From 9c5f427eebae8e37e295cef0beecefa6e194d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 48/56] fix: io_uring_context can be stopped while it runs
 until it is empty

The loop was left with the wakeup operation still in flight, and the shutdown
that follows a stop request asserts that nothing is.
---
 include/exec/linux/io_uring_context.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index ada384f..700c9e5 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -573,7 +573,8 @@ namespace experimental::execution
           run_some();
           if (__n_total_submitted_ == 0
               || (__n_total_submitted_ == 1
-                  && __break_loop_.load(STDEXEC::__std::memory_order_acquire)))
+                  && __break_loop_.load(STDEXEC::__std::memory_order_acquire)
+                  && !__stop_source_->stop_requested()))
           {
             __break_loop_.store(false, STDEXEC::__std::memory_order_relaxed);
             break;
@@ -596,9 +597,8 @@ namespace experimental::execution
           __pending_.append(__requests_.pop_all_reversed());
         }
         STDEXEC_ASSERT(__n_total_submitted_ <= 1);
-        if (__stop_source_->stop_requested() && __pending_.empty())
+        if (__stop_source_->stop_requested() && __n_total_submitted_ == 0 && __pending_.empty())
         {
-          STDEXEC_ASSERT(__n_total_submitted_ == 0);
           // try to shutdown the request queue
           int __n_in_flight_expected = 0;
           while (
-- 
2.43.0


From d9f7c11125acc282ac62f51cf0c05593a6adc194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 49/56] fix: schedule_after on a stopped io_uring_context
 completes

A task that has never been submitted has no active operation, so it was taken
for one that is still waiting for its cancellation, and never completed.
---
 include/exec/linux/io_uring_context.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 700c9e5..b4533a1 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -1048,7 +1048,9 @@ namespace experimental::execution
 
       void complete(::io_uring_cqe const & __cqe) noexcept
       {
-        if (__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
+        // A stopped context completes tasks that have never been submitted.
+        if (__n_ops_.load(STDEXEC::__std::memory_order_relaxed) == 0
+            || __n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
         {
           __on_context_stop_.reset();
           __on_receiver_stop_.reset();
-- 
2.43.0


From 255c14a7d830e4be3bf6041878e3dcc238409397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 50/56] fix: a stopped io_uring_context completes the
 cancellations that are left

The shutdown put them into the submission queue, which nobody reads anymore.
A timer that was started, but not yet submitted when the context was stopped
never completed.
---
 include/exec/linux/io_uring_context.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index b4533a1..910edcc 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -614,16 +614,13 @@ namespace experimental::execution
           }
           STDEXEC_ASSERT(__n_submissions_in_flight_.load(STDEXEC::__std::memory_order_relaxed)
                          == __no_new_submissions);
-          // There could have been requests in flight. Complete all of them
-          // and then stop it, finally.
+          // There could have been requests in flight. None of them will be submitted anymore,
+          // not even cancellations: their targets are no longer in flight. Stop all of them.
           __pending_.append(__requests_.pop_all_reversed());
-          __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
-                                                                      __pending_),
-                                                                    __params_.cq_entries,
-                                                                    true);
-          STDEXEC_ASSERT(__result.__n_submitted == 0);
-          STDEXEC_ASSERT(__result.__pending.empty());
-          __completion_queue_.complete(static_cast<__task_queue&&>(__result.__ready));
+          while (!__pending_.empty())
+          {
+            __stop(__pending_.pop_front());
+          }
         }
       }
 
-- 
2.43.0


From 34e4ef4e60ed490966865a036fa35ff80037cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 51/56] fix: the cancellation of an io_uring task is not
 submitted twice

When a task completed while its cancellation was still queued, a second stop
request (of the context and of the receiver) queued the same cancellation
again. Completions on different threads were not ordered either.
---
 include/exec/linux/io_uring_context.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 910edcc..f0754b1 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -919,7 +919,7 @@ namespace experimental::execution
 
       void complete(::io_uring_cqe const &) noexcept
       {
-        if (__op_->__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
+        if (__op_->__n_ops_.fetch_sub(2, STDEXEC::__std::memory_order_acq_rel) == 2)
         {
           __op_->__on_context_stop_.reset();
           __op_->__on_receiver_stop_.reset();
@@ -931,8 +931,8 @@ namespace experimental::execution
       {
         int expected = 1;
         if (__op_->__n_ops_.compare_exchange_strong(expected,
-                                                    2,
-                                                    STDEXEC::__std::memory_order_relaxed))
+                                                    3,
+                                                    STDEXEC::__std::memory_order_acquire))
         {
           if (__op_->context().submit(this))
           {
@@ -1047,7 +1047,7 @@ namespace experimental::execution
       {
         // A stopped context completes tasks that have never been submitted.
         if (__n_ops_.load(STDEXEC::__std::memory_order_relaxed) == 0
-            || __n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
+            || __n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_acq_rel) == 1)
         {
           __on_context_stop_.reset();
           __on_receiver_stop_.reset();
@@ -1066,6 +1066,9 @@ namespace experimental::execution
       }
 
       __stop_operation<__stoppable_task_facade> __stop_operation_;
+      // The number of active operations: the task counts as one, its stop operation as two. When
+      // the task is done, but its stop operation is not, another stop request must not start the
+      // stop operation again.
       STDEXEC::__std::atomic<int>               __n_ops_{0};
       __on_context_stop_t                       __on_context_stop_{};
       __on_receiver_stop_t                      __on_receiver_stop_{};
-- 
2.43.0


From 433740e61f2ce875ce2b6a4aa7f252e3a9e9a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 52/56] fix: an io_uring_context that is being stopped can
 still be woken up

The wakeup operation was dropped as soon as the stop was requested. A stop
callback that submitted its cancellation afterwards woke up nobody, and the
context waited until the task completed by itself. A cancellation also let all
tasks after it be submitted to the stopped context.
---
 include/exec/linux/io_uring_context.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index f0754b1..9e78b3a 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -166,6 +166,8 @@ namespace experimental::execution
       // This function is called when the io operation is completed.
       // The status of the operation is passed as a parameter.
       void (*__complete_)(__task*, ::io_uring_cqe const &) noexcept;
+      // If this is true, the task is submitted even if the context has been stopped.
+      bool __submit_when_stopped_ = false;
     };
 
     // This is the base class for all io operations.
@@ -258,9 +260,11 @@ namespace experimental::execution
           {
             __op->__vtable_->__submit_(__op, __sqe);
 #    ifdef STDEXEC_HAS_IO_URING_ASYNC_CANCELLATION
-            __is_stopped = __is_stopped && __sqe.opcode != IORING_OP_ASYNC_CANCEL;
+            bool const __is_cancellation = __sqe.opcode == IORING_OP_ASYNC_CANCEL;
+#    else
+            bool const __is_cancellation = false;
 #    endif
-            if (__is_stopped)
+            if (__is_stopped && !__is_cancellation && !__op->__vtable_->__submit_when_stopped_)
             {
               __stop(__op);
             }
@@ -377,7 +381,7 @@ namespace experimental::execution
         __self.start();
       }
 
-      static constexpr __task_vtable __vtable{&__ready_, &__submit_, &__complete_};
+      static constexpr __task_vtable __vtable{&__ready_, &__submit_, &__complete_, true};
 
       __wakeup_operation(__context* __ctx, int __eventfd)
         : __task{__vtable}
@@ -579,6 +583,12 @@ namespace experimental::execution
             __break_loop_.store(false, STDEXEC::__std::memory_order_relaxed);
             break;
           }
+          if (__n_total_submitted_ == 1 && __wakeup_operation_.__is_active_
+              && __stop_source_->stop_requested())
+          {
+            // Only the wakeup operation is left. Let it complete to leave the loop.
+            wakeup();
+          }
           constexpr int __min_complete = 1;
           STDEXEC_ASSERT(0 <= __n_total_submitted_
                          && std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
@@ -744,7 +754,11 @@ namespace experimental::execution
 
     inline void __wakeup_operation::start() & noexcept
     {
-      if (!__is_active_ && !__context_->__stop_source_->stop_requested())
+      // When the context is stopped, cancellations of the tasks that are still in flight have to be
+      // able to wake up the context.
+      if (!__is_active_
+          && (!__context_->__stop_source_->stop_requested()
+              || __context_->__n_total_submitted_ > 1))
       {
         __is_active_ = true;
         __context_->__pending_.push_front(this);
-- 
2.43.0


From 7561f7f0a7d7ae4fa847ba86eab5aab50cc99df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:20 +0000
Subject: [PATCH 53/56] fix: bulk on a pool judged noexcept by a call that is
 not made

---
 include/exec/thread_pool_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index ed4f44c..3b18ad3 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -178,7 +178,7 @@ namespace experimental::execution
       template <class Fun, class Shape, class... Args>
       using bulk_non_throwing = STDEXEC::__mbool<
         // If function invocation doesn't throw
-        STDEXEC::__nothrow_callable<Fun, Shape, _pool_::__decay_ref_t<Args>...> &&
+        STDEXEC::__nothrow_callable<Fun&, Shape, Shape, _pool_::__decay_ref_t<Args>...> &&
         // and emplacing a tuple doesn't throw
         noexcept(STDEXEC::__decayed_std_tuple<Args...>(STDEXEC::__declval<Args>()...))
         // there's no need to advertise completion with `exception_ptr`
-- 
2.43.0


From 805bc9ceabee5d232afef8b481d77ba85ec060b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:31 +0000
Subject: [PATCH 54/56] fix: assigning a type-erased pointer to itself emptied
 it

---
 include/stdexec/__detail/__any.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index bbf4305..b09b17b 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -2040,8 +2040,11 @@ namespace STDEXEC::__any
 
     constexpr __any_ptr_base &operator=(__any_ptr_base const &__other) noexcept
     {
-      __reset(__reference_);
-      __reference_.__copy_from(__other.__reference_);
+      if (this != std::addressof(__other))
+      {
+        __reset(__reference_);
+        __reference_.__copy_from(__other.__reference_);
+      }
       return *this;
     }
 
@@ -2179,8 +2182,9 @@ namespace STDEXEC::__any
     template <__extension_of<_Interface> _Proxy>
     constexpr __any_ptr &operator=(_Proxy *__proxy_ptr) noexcept
     {
-      __reset((*this).__reference_);
-      (*this).__proxy_assign(__proxy_ptr);
+      // __proxy_ptr may point to the reference in *this
+      __any_ptr __tmp(__proxy_ptr);
+      __tmp.__reference_.swap((*this).__reference_);
       return *this;
     }
 
@@ -2239,8 +2243,9 @@ namespace STDEXEC::__any
     template <__extension_of<_Interface> _Proxy>
     constexpr __any_cptr &operator=(_Proxy const *__proxy_ptr) noexcept
     {
-      __reset((*this).__reference_);
-      (*this).__proxy_assign(__proxy_ptr);
+      // __proxy_ptr may point to the reference in *this
+      __any_cptr __tmp(__proxy_ptr);
+      __tmp.__reference_.swap((*this).__reference_);
       return *this;
     }
 
-- 
2.43.0


From b1bf1c87d4c8181ef971584918045987013f5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:31 +0000
Subject: [PATCH 55/56] fix: copying an object from a type-erased reference
 failed

---
 include/stdexec/__detail/__any.hpp | 45 ++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index b09b17b..223da7c 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -707,6 +707,9 @@ namespace STDEXEC::__any
                                                   static_cast<_CvRefValue &&>(__val));
   }
 
+  template <template <class> class _Interface, class _Value, class _Allocator>
+  struct __value_model;
+
   // reference
   template <template <class> class _Interface,
             class _Value,
@@ -722,6 +725,29 @@ namespace STDEXEC::__any
     using __base_t = _Interface<
       __mcall1<__bases_of<_Interface>, __reference_root<_Interface, _Value, _Extension>>>;
     using __base_t::__base_t;
+
+    // This is a virtual override if _Interface extends __icopyable. It copies the referant.
+    // It is not constexpr because the value model is not complete when a constexpr function
+    // would be instantiated.
+    void __copy_to(__iroot *&__ptr, std::span<std::byte> __buff) const
+    {
+      using __value_t = std::remove_cv_t<_Value>;
+      if constexpr (__std::copy_constructible<__value_t>)
+      {
+        std::allocator<__value_t> const __alloc{};
+        using __model_t = __value_model<_Interface, __value_t, std::allocator<__value_t>>;
+        STDEXEC::__any::__emplace_into<__model_t>(__alloc,
+                                                  __ptr,
+                                                  __buff,
+                                                  std::allocator_arg,
+                                                  __alloc,
+                                                  __value(*this));
+      }
+      else
+      {
+        STDEXEC::__die("attempt to copy an object that is not copyable\n");
+      }
+    }
   };
 
   // reference proxy
@@ -1922,9 +1948,7 @@ namespace STDEXEC::__any
             && (_Other::__root_kind == __root_kind::__reference)
     constexpr __any(_Interface<_Other> const &__other)
     {
-      _Interface<_Other> __tmp;
-      __tmp.__copy_from(__other);
-      (*this).__assign_from(std::move(__tmp));
+      (*this).__assign_from(__copy_of_(__other));
     }
 
     template <__model_of<_Interface> _Value>
@@ -1955,9 +1979,7 @@ namespace STDEXEC::__any
       if (__data(__other) == __data(*this))
         return *this;
 
-      _Interface<_Other> __tmp;
-      __tmp.__copy_from(__other);
-
+      auto __tmp = __copy_of_(__other);
       __reset(*this);
       (*this).__assign_from(std::move(__tmp));
       return *this;
@@ -1970,6 +1992,17 @@ namespace STDEXEC::__any
     }
 
    private:
+    // Copies the object that a type-erased reference refers to.
+    template <template <class> class _OtherInterface>
+    static constexpr auto __copy_of_(__reference_proxy_root<_OtherInterface> const &__other)
+      -> __any<_OtherInterface>
+    {
+      __any<_OtherInterface> __result;
+      if (!__empty(__other))
+        __value(__other).__copy_to(__result.__root_ptr_, __result.__buff_);
+      return __result;
+    }
+
     // Assigning from a type that __extends _Interface. Its buffer may be larger than
     // ours, or it may be a reference type, so we can be only conditionally
     // noexcept.
-- 
2.43.0


From 4d0698a251cdf04e628f19432e17b25aedbb8d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:31 +0000
Subject: [PATCH 56/56] fix: casting a type-erased object after a conversion
 failed

---
 include/stdexec/__detail/__any.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 223da7c..51000c3 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -1736,6 +1736,13 @@ namespace STDEXEC::__any
       using __value_model     = __copy_cvref_t<_CvProxy, __value_root<_Interface, _Value>>;
       using __reference_model = __copy_cvref_t<_CvProxy, __reference_root<_Interface, _Value>>;
 
+      // The model may have been created for an interface that extends _Interface, in which
+      // case it is not one of the two types above. Ask the model for the address of the value.
+      STDEXEC_IF_NOT_CONSTEVAL
+      {
+        return static_cast<__copy_cvref_t<_CvProxy, _Value> *>(__data(*__proxy_ptr));
+      }
+
       // get the address of the model from the proxy:
       auto *__model_ptr = std::addressof(__value(*__proxy_ptr));
 
-- 
2.43.0

