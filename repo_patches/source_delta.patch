From b6d952dcc9fb2169a3fcbcd3fbcc912bfa745ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:52 +0000
Subject: [PATCH 01/31] verif: add choice/trace hooks to the fault layer,
 guarded by YACLIB_VERIF

---
 include/yaclib/fault/detail/verif.hpp | 35 +++++++++++++++++++++++++++
 src/fault/atomic.cpp                  |  6 +++++
 src/fault/fiber/scheduler.cpp         | 13 ++++++++++
 src/fault/injector.cpp                |  6 +++++
 src/fault/util.cpp                    |  7 ++++++
 5 files changed, 67 insertions(+)
 create mode 100644 include/yaclib/fault/detail/verif.hpp

diff --git a/include/yaclib/fault/detail/verif.hpp b/include/yaclib/fault/detail/verif.hpp
new file mode 100644
index 0000000..79674b0
--- /dev/null
+++ b/include/yaclib/fault/detail/verif.hpp
@@ -0,0 +1,35 @@
+#pragma once
+
+// Observation/choice points for external verification harnesses.
+// Nothing here exists unless YACLIB_VERIF is defined; every hook is optional, null means the default behavior.
+#ifdef YACLIB_VERIF
+
+#  include <cstdint>
+
+namespace yaclib::detail::fiber {
+
+class BiList;
+struct Node;
+
+}  // namespace yaclib::detail::fiber
+
+namespace yaclib::verif {
+
+struct Hooks final {
+  /// Decides whether fault should be injected (for fibers: yield) at the current point, see Injector::NeedInject
+  bool (*need_inject)() noexcept = nullptr;
+  /// Decides random draws in [0, max), see detail::GetRandNumber
+  std::uint64_t (*random)(std::uint64_t max) noexcept = nullptr;
+  /// Decides whether compare_exchange_weak should fail spuriously, see ShouldFailAtomicWeak
+  bool (*fail_weak)() noexcept = nullptr;
+  /// Picks the next fiber from not empty run queue, shouldn't erase it, see Scheduler::GetNext
+  detail::fiber::Node* (*pick)(detail::fiber::BiList& queue) noexcept = nullptr;
+  /// Called before resume of the fiber with such id, see Scheduler::RunLoop
+  void (*resume)(std::uint64_t fiber_id) noexcept = nullptr;
+};
+
+inline Hooks gHooks;
+
+}  // namespace yaclib::verif
+
+#endif
diff --git a/src/fault/atomic.cpp b/src/fault/atomic.cpp
index 2f22fb5..9eaad73 100644
--- a/src/fault/atomic.cpp
+++ b/src/fault/atomic.cpp
@@ -1,6 +1,7 @@
 #include <fault/util.hpp>
 
 #include <yaclib/fault/detail/atomic.hpp>
+#include <yaclib/fault/detail/verif.hpp>
 
 #include <atomic>
 
@@ -9,6 +10,11 @@ namespace yaclib::detail {
 static std::uint32_t sAtomicFailFrequency = 13;
 
 bool ShouldFailAtomicWeak() {
+#ifdef YACLIB_VERIF
+  if (verif::gHooks.fail_weak != nullptr) {
+    return verif::gHooks.fail_weak();
+  }
+#endif
   auto freq = sAtomicFailFrequency;
   return freq != 0 && GetRandNumber(freq) == 0;
 }
diff --git a/src/fault/fiber/scheduler.cpp b/src/fault/fiber/scheduler.cpp
index 05b175b..8b2d6f4 100644
--- a/src/fault/fiber/scheduler.cpp
+++ b/src/fault/fiber/scheduler.cpp
@@ -2,6 +2,7 @@
 
 #include <yaclib/fault/config.hpp>
 #include <yaclib/fault/detail/fiber/scheduler.hpp>
+#include <yaclib/fault/detail/verif.hpp>
 
 #include <cstdio>
 
@@ -13,6 +14,13 @@ static std::uint32_t sTickLength = 10;
 
 detail::fiber::FiberBase* Scheduler::GetNext() {
   YACLIB_DEBUG(_queue.Empty(), "Queue can't be empty");
+#ifdef YACLIB_VERIF
+  if (verif::gHooks.pick != nullptr) {
+    auto* picked = verif::gHooks.pick(_queue);
+    picked->Erase();
+    return static_cast<detail::fiber::FiberBase*>(static_cast<detail::fiber::BiNodeScheduler*>(picked));
+  }
+#endif
   auto* next = PollRandomElementFromList(_queue);
   return static_cast<detail::fiber::FiberBase*>(static_cast<detail::fiber::BiNodeScheduler*>(next));
 }
@@ -91,6 +99,11 @@ void Scheduler::RunLoop() {
     auto* next = GetNext();
     sCurrent = next;
     TickTime();
+#ifdef YACLIB_VERIF
+    if (verif::gHooks.resume != nullptr) {
+      verif::gHooks.resume(next->GetId());
+    }
+#endif
     next->Resume();
     if (next->GetState() == detail::fiber::Completed && !next->IsThreadAlive()) {
       delete next;
diff --git a/src/fault/injector.cpp b/src/fault/injector.cpp
index 721312e..a697364 100644
--- a/src/fault/injector.cpp
+++ b/src/fault/injector.cpp
@@ -1,5 +1,6 @@
 #include <fault/util.hpp>
 
+#include <yaclib/fault/detail/verif.hpp>
 #include <yaclib/fault/injector.hpp>
 
 #include <yaclib_std/thread>
@@ -27,6 +28,11 @@ bool Injector::NeedInject() noexcept {
   if (_pause) {
     return false;
   }
+#ifdef YACLIB_VERIF
+  if (verif::gHooks.need_inject != nullptr) {
+    return verif::gHooks.need_inject();
+  }
+#endif
   if (_count.fetch_add(1, std::memory_order_relaxed) >= sYieldFrequency) {
     Reset();
     return true;
diff --git a/src/fault/util.cpp b/src/fault/util.cpp
index 4f2dd0e..a9e0166 100644
--- a/src/fault/util.cpp
+++ b/src/fault/util.cpp
@@ -1,5 +1,7 @@
 #include <fault/util.hpp>
 
+#include <yaclib/fault/detail/verif.hpp>
+
 namespace yaclib::detail {
 
 static std::uint32_t sSeed = 1239;
@@ -22,6 +24,11 @@ std::uint32_t GetSeed() {
 std::uint64_t GetRandNumber(std::uint64_t max) {
 #if YACLIB_FAULT == 2
   sRandCount++;
+#endif
+#ifdef YACLIB_VERIF
+  if (verif::gHooks.random != nullptr) {
+    return verif::gHooks.random(max);
+  }
 #endif
   return eng() % max;
 }
-- 
2.43.0


From cf928c5723cf4e7fe83b3a1a67a9338f6be73ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 02/31] fix: erase the sleep list entry only if it still exists
 and whenever it is empty

SleepPreemptive dereferenced end() when two timed waiters with the same deadline
were both notified or when the deadline was already reached, and left an empty
entry behind when the clock passed the deadline between the notify and the resume,
after which RunLoop asked an empty run queue for the next fiber.
---
 src/fault/fiber/scheduler.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/fault/fiber/scheduler.cpp b/src/fault/fiber/scheduler.cpp
index 8b2d6f4..ee8966b 100644
--- a/src/fault/fiber/scheduler.cpp
+++ b/src/fault/fiber/scheduler.cpp
@@ -138,13 +138,11 @@ void Scheduler::Sleep(std::uint64_t ns) {
 void Scheduler::SleepPreemptive(std::uint64_t ns) {
   ns += detail::GetRandNumber(GetFaultSleepTime());
   Sleep(ns);
-  // <= because wakeup called before time adjustment
-  if (_time <= ns) {
-    auto it = _sleep_list.find(ns);
-    YACLIB_DEBUG(it == _sleep_list.end(), "sleep_list for time that is not passed yet isn't found");
-    if (it->second.Empty()) {
-      _sleep_list.erase(ns);
-    }
+  // Fiber woken up before its time leaves the list, so the list can be empty here,
+  // but it also can be already removed: by WakeUpNeeded, by other fiber with same time, or it was never created
+  auto it = _sleep_list.find(ns);
+  if (it != _sleep_list.end() && it->second.Empty()) {
+    _sleep_list.erase(it);
   }
 }
 
-- 
2.43.0


From a4a92a582a680530c537d00f2f5cab6d683e55d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 03/31] fix: name the existing kCount in variadic AwaitSticky

---
 include/yaclib/coro/await_sticky.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/coro/await_sticky.hpp b/include/yaclib/coro/await_sticky.hpp
index dce18ad..96560e7 100644
--- a/include/yaclib/coro/await_sticky.hpp
+++ b/include/yaclib/coro/await_sticky.hpp
@@ -16,7 +16,7 @@ YACLIB_INLINE auto AwaitSticky(Waited& waited) noexcept {
 template <typename... Waited, typename = std::enable_if_t<(... && is_waitable_v<Waited>)>>
 YACLIB_INLINE auto AwaitSticky(Waited&... waited) noexcept {
   using namespace detail;
-  static constexpr auto kSharedCount = Count<SharedHandle, typename Waited::Handle...>;
+  static constexpr auto kSharedCount = kCount<SharedHandle, typename Waited::Handle...>;
   using Awaiter = std::conditional_t<kSharedCount == 0, MultiAwaitAwaiter<AwaitEvent<true>>,
                                      MultiAwaitAwaiter<StaticSharedEvent<AwaitEvent<true>, kSharedCount>>>;
   YACLIB_ASSERT(... && waited.Valid());
-- 
2.43.0


From 697fe3b55ad10aa46152d638d4a088727800f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 04/31] fix: core with a registered callback but without a
 result is not ready

---
 include/yaclib/algo/detail/base_core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/algo/detail/base_core.hpp b/include/yaclib/algo/detail/base_core.hpp
index a3aac33..5cf29ea 100644
--- a/include/yaclib/algo/detail/base_core.hpp
+++ b/include/yaclib/algo/detail/base_core.hpp
@@ -26,7 +26,7 @@ class BaseCore : public InlineCore {
 
   bool Empty() const noexcept {
     auto callback = _callback.load(std::memory_order_acquire);
-    return callback == kEmpty;
+    return callback != kResult;  // registered callback does not mean that result exists
   }
 
   template <bool Shared>
-- 
2.43.0


From 99b216e8937805d33eba9e1098282e5c1b5180fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 05/31] fix: coroutine resume should not steal the executor of
 the awaited core

---
 include/yaclib/coro/detail/promise_type.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/coro/detail/promise_type.hpp b/include/yaclib/coro/detail/promise_type.hpp
index f4655bc..500e10c 100644
--- a/include/yaclib/coro/detail/promise_type.hpp
+++ b/include/yaclib/coro/detail/promise_type.hpp
@@ -122,7 +122,8 @@ class PromiseType final : public PromiseTypeBase<V, E, Lazy, Shared> {
   }
 
   YACLIB_INLINE void Impl(InlineCore& caller) noexcept {
-    this->_executor = std::move(DownCast<BaseCore>(caller)._executor);
+    // caller can be observed by others (SharedFuture) or used after resume (Await), so its executor should be copied
+    this->_executor = std::as_const(DownCast<BaseCore>(caller)._executor);
     YACLIB_ASSERT(this->_executor != nullptr);
   }
   [[nodiscard]] InlineCore* Here(InlineCore& caller) noexcept final {
-- 
2.43.0


From 7b8baca3d5fe06105c49826b276be26f38258d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 06/31] fix: acquire releases of other owners before moving the
 value of the last one

---
 include/yaclib/coro/detail/promise_type.hpp   | 2 +-
 include/yaclib/util/detail/unique_counter.hpp | 5 ++++-
 include/yaclib/util/helper.hpp                | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/yaclib/coro/detail/promise_type.hpp b/include/yaclib/coro/detail/promise_type.hpp
index 500e10c..e43cdee 100644
--- a/include/yaclib/coro/detail/promise_type.hpp
+++ b/include/yaclib/coro/detail/promise_type.hpp
@@ -101,7 +101,7 @@ class PromiseType final : public PromiseTypeBase<V, E, Lazy, Shared> {
     return this->Add(1);
   }
   std::size_t GetRef() noexcept final {
-    return this->Get();
+    return this->Get(std::memory_order_acquire);
   }
   void DecRef() noexcept final {
     this->Sub(1);
diff --git a/include/yaclib/util/detail/unique_counter.hpp b/include/yaclib/util/detail/unique_counter.hpp
index 3395d0d..21bc198 100644
--- a/include/yaclib/util/detail/unique_counter.hpp
+++ b/include/yaclib/util/detail/unique_counter.hpp
@@ -2,6 +2,9 @@
 
 #include <yaclib/util/detail/default_deleter.hpp>
 
+#include <atomic>
+#include <cstddef>
+
 namespace yaclib::detail {
 
 template <typename CounterBase, typename Deleter = DefaultDeleter>
@@ -23,7 +26,7 @@ struct OneCounter : CounterBase {
     Deleter::Delete(*this);
   }
 
-  std::size_t Get() noexcept {
+  std::size_t Get(std::memory_order = std::memory_order_relaxed) const noexcept {
     return 1;
   }
 };
diff --git a/include/yaclib/util/helper.hpp b/include/yaclib/util/helper.hpp
index dd2241d..193e905 100644
--- a/include/yaclib/util/helper.hpp
+++ b/include/yaclib/util/helper.hpp
@@ -23,7 +23,8 @@ class Helper final : public Counter<ObjectT, DefaultDeleter> {
   }
 
   std::size_t GetRef() noexcept final {
-    return this->Get();
+    // The only owner can move the value, so reads of the released owners should happen before it
+    return this->Get(std::memory_order_acquire);
   }
 };
 
-- 
2.43.0


From e85e6b9041740db3e32a6ce1a48a22bcf95590c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 07/31] fix: MakeSharedContractOn should return
 SharedContractOn

---
 include/yaclib/async/shared_contract.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/async/shared_contract.hpp b/include/yaclib/async/shared_contract.hpp
index 7bc01d8..d723e11 100644
--- a/include/yaclib/async/shared_contract.hpp
+++ b/include/yaclib/async/shared_contract.hpp
@@ -23,7 +23,7 @@ template <typename V = void, typename E = StopError>
 }
 
 template <typename V = void, typename E = StopError>
-[[nodiscard]] SharedContract<V, E> MakeSharedContractOn(IExecutor& e) {
+[[nodiscard]] SharedContractOn<V, E> MakeSharedContractOn(IExecutor& e) {
   auto core = MakeShared<detail::SharedCore<V, E>>(detail::kSharedRefWithFuture);
   e.IncRef();
   core->_executor.Reset(NoRefTag{}, &e);
-- 
2.43.0


From afe6af9382f9088b5f91477c2c4c376c6faf44c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 08/31] fix: do not hide SharedFutureBase::Subscribe(e, f) in
 SharedFutureOn

---
 include/yaclib/async/shared_future.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/yaclib/async/shared_future.hpp b/include/yaclib/async/shared_future.hpp
index 6ddb251..e37a962 100644
--- a/include/yaclib/async/shared_future.hpp
+++ b/include/yaclib/async/shared_future.hpp
@@ -145,6 +145,7 @@ class SharedFutureOn final : public SharedFutureBase<V, E> {
  public:
   using Base::Base;
   using Base::Detach;
+  using Base::Subscribe;
   using Base::Then;
 
   SharedFutureOn(detail::SharedCorePtr<V, E> core) noexcept : Base{std::move(core)} {
-- 
2.43.0


From 54c47a27ca353381efbd0996dd90b450618ab332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 09/31] fix: start a Task built by Schedule or LazyContract
 when it is returned from a callback or awaited

The head of such Task was treated as a step waiting for its own asynchronous result, so it crashed.
---
 include/yaclib/algo/detail/core.hpp         |  9 ++++++++-
 include/yaclib/algo/detail/promise_core.hpp | 21 +++++++++++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/algo/detail/core.hpp b/include/yaclib/algo/detail/core.hpp
index e87eda5..a95254a 100644
--- a/include/yaclib/algo/detail/core.hpp
+++ b/include/yaclib/algo/detail/core.hpp
@@ -153,7 +153,14 @@ class Core : public ResultCoreT<Type, Ret, E>, public FuncCore<Func> {
       return Done<SymmetricTransfer, true>(core.template MoveOrConst<!AsyncShared>());
     };
     if constexpr (IsRun(Type)) {
-      return async_done();
+      if constexpr (kAsync != AsyncType::None) {
+        if (this->_self.caller != nullptr) {
+          return async_done();
+        }
+      }
+      // It's the head of a Task that was returned from a callback or awaited by a coroutine, so it's time to start it
+      this->_executor->Submit(*this);
+      return Noop<SymmetricTransfer>();
     } else {
       if constexpr (kAsync != AsyncType::None) {
         if (this->_self.unwrapping != 0) {
diff --git a/include/yaclib/algo/detail/promise_core.hpp b/include/yaclib/algo/detail/promise_core.hpp
index c77cd2d..97ef99e 100644
--- a/include/yaclib/algo/detail/promise_core.hpp
+++ b/include/yaclib/algo/detail/promise_core.hpp
@@ -25,10 +25,12 @@ class PromiseCore : public std::conditional_t<Shared, SharedCore<V, E>, UniqueCo
   using Base = std::conditional_t<Shared, SharedCore<V, E>, UniqueCore<V, E>>;
 
   explicit PromiseCore(Func&& f) : F{std::forward<Func>(f)} {
+    this->_self = {};
   }
 
  private:
   void Call() noexcept final {
+    this->_self.unwrapping = 1;
     PromiseT promise{CorePtrT{NoRefTag{}, this}};
     try {
       // We need to move func with capture on stack, because promise can be Set before func return
@@ -46,6 +48,25 @@ class PromiseCore : public std::conditional_t<Shared, SharedCore<V, E>, UniqueCo
     }
   }
 
+  // It can be called twice: for the first time if it's the head of a Task that was returned from a callback
+  // or awaited by a coroutine, so it's time to start it, and then for the Result
+  [[nodiscard]] InlineCore* Here(InlineCore& caller) noexcept final {
+    if (this->_self.unwrapping == 0) {
+      this->_executor->Submit(*this);
+      return Noop<false>();
+    }
+    return Base::Here(caller);
+  }
+#if YACLIB_SYMMETRIC_TRANSFER != 0
+  [[nodiscard]] yaclib_std::coroutine_handle<> Next(InlineCore& caller) noexcept final {
+    if (this->_self.unwrapping == 0) {
+      this->_executor->Submit(*this);
+      return Noop<true>();
+    }
+    return Base::Next(caller);
+  }
+#endif
+
   void Drop() noexcept final {
     this->_func.storage.~Storage();
     this->Store(StopTag{});
-- 
2.43.0


From ef512f420df27ef6dac93a13a859b1620deab620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 10/31] fix: cancel of a completed Task should only release its
 result

---
 include/yaclib/lazy/task.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/yaclib/lazy/task.hpp b/include/yaclib/lazy/task.hpp
index 84891e7..7cebe4d 100644
--- a/include/yaclib/lazy/task.hpp
+++ b/include/yaclib/lazy/task.hpp
@@ -86,6 +86,11 @@ class Task final {
   }
 
   void Cancel() && noexcept {
+    YACLIB_ASSERT(Valid());
+    if (Ready()) {
+      _core = nullptr;
+      return;
+    }
     std::move(*this).Detach(MakeInline(StopTag{}));
   }
 
-- 
2.43.0


From 670dece95c4c3fbdd8c3e7b91c9a7bd298b096ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:59 +0000
Subject: [PATCH 11/31] fix: second failed input of a tuple WhenAll should be
 ignored instead of being read as a value

---
 include/yaclib/async/when/all_tuple.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/yaclib/async/when/all_tuple.hpp b/include/yaclib/async/when/all_tuple.hpp
index fbe322c..b88c32d 100644
--- a/include/yaclib/async/when/all_tuple.hpp
+++ b/include/yaclib/async/when/all_tuple.hpp
@@ -51,14 +51,14 @@ struct AllTuple<FailPolicy::FirstFail, OutputValue, OutputError, InputCore> {
 
   template <std::size_t Index, typename Result>
   void Consume(Result&& result) {
-    if (!result && !_done.load(std::memory_order_relaxed) && !_done.exchange(true, std::memory_order_acq_rel)) {
+    if (result) {
+      std::get<Index>(_tuple) = std::forward<Result>(result).Value();
+    } else if (!_done.load(std::memory_order_relaxed) && !_done.exchange(true, std::memory_order_acq_rel)) {
       if (result.State() == ResultState::Error) {
         std::move(_p).Set(std::forward<Result>(result).Error());
       } else {
         std::move(_p).Set(std::forward<Result>(result).Exception());
       }
-    } else {
-      std::get<Index>(_tuple) = std::forward<Result>(result).Value();
     }
   }
 
-- 
2.43.0


From a42fe1ffe0f67feb82a83ef396f18635360b804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 12/31] fix: coro Mutex::UnlockOn submitted coroutine before
 mutex was released

---
 include/yaclib/coro/mutex.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/coro/mutex.hpp b/include/yaclib/coro/mutex.hpp
index ea9f842..d17d939 100644
--- a/include/yaclib/coro/mutex.hpp
+++ b/include/yaclib/coro/mutex.hpp
@@ -75,8 +75,9 @@ struct MutexImpl {
     // executor for current coroutine resume
     auto curr_executor = std::exchange(curr._executor, &executor);
     YACLIB_ASSERT(curr_executor != nullptr);
-    executor.Submit(curr);
+    // curr can be resumed, and mutex destroyed, right after the submit, so it should be after all accesses to mutex
     if (TryUnlockAwait()) {
+      executor.Submit(curr);
       YACLIB_SUSPEND();
     }
     auto& next = GetHead();
@@ -85,10 +86,12 @@ struct MutexImpl {
         _receiver = static_cast<BaseCore*>(next.next);
         // curr_executor for next critical section
         next._executor = std::move(curr_executor);
+        executor.Submit(curr);
         YACLIB_TRANSFER(next.Curr());
       }
     }
     _receiver = static_cast<BaseCore*>(next.next);
+    executor.Submit(curr);
     // next._executor for next critical section
     next._executor->Submit(next);
     YACLIB_SUSPEND();
-- 
2.43.0


From 878017903cd6efc5ad0b7feceae814c8231176f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 13/31] fix: coro SharedMutex::Lock released internal spinlock
 after last reader could run the writer

---
 include/yaclib/coro/shared_mutex.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/coro/shared_mutex.hpp b/include/yaclib/coro/shared_mutex.hpp
index b1e6253..888cb42 100644
--- a/include/yaclib/coro/shared_mutex.hpp
+++ b/include/yaclib/coro/shared_mutex.hpp
@@ -39,11 +39,13 @@ struct SharedMutexImpl {
 
   [[nodiscard]] bool AwaitLock(BaseCore& curr) noexcept {
     curr.next = nullptr;
-    std::lock_guard lock{_lock};
+    std::unique_lock lock{_lock};
     auto s = _state.fetch_add(kWriter, std::memory_order_acq_rel);
     if (s / kWriter == 0) {
       std::uint32_t r = s % kWriter;
       _writers_first = &curr;
+      // last active reader can run curr, which can destroy the mutex, right after the fetch_add
+      lock.unlock();
       return r != 0 && _readers_wait.fetch_add(r, std::memory_order_acq_rel) != -r;
     }
     _writers_tail->next = &curr;
-- 
2.43.0


From 91d7f230aebfa9db39ffcb7c68155a1c39fa56cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:18 +0000
Subject: [PATCH 14/31] fix: fiber thread passes its arguments to the thread
 function

Helper got an index sequence of length one, so a thread function with arguments did not compile.
---
 include/yaclib/fault/detail/fiber/fiber.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/fiber.hpp b/include/yaclib/fault/detail/fiber/fiber.hpp
index e4a000b..7822e8a 100644
--- a/include/yaclib/fault/detail/fiber/fiber.hpp
+++ b/include/yaclib/fault/detail/fiber/fiber.hpp
@@ -21,7 +21,7 @@ class Fiber final : public FiberBase {
     auto& fiber = *reinterpret_cast<Fiber*>(arg);
     fiber.Start();
     try {
-      Helper(fiber._func, std::index_sequence_for<FuncState<Args...>>{});
+      Helper(fiber._func, std::index_sequence_for<Args...>{});
     } catch (...) {
       fiber._exception = std::current_exception();
     }
-- 
2.43.0


From 49ce7c18f9fa20870a5fce8949149fa3840fdfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:29 +0000
Subject: [PATCH 15/31] fix: define CVStatusFrom in the header

It was constexpr and defined only in a source file, so condition_variable::wait_for/wait_until without a predicate
did not link.
---
 .../yaclib/fault/detail/condition_variable.hpp    | 12 ++++++++++--
 src/fault/condition_variable.cpp                  | 15 ---------------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/include/yaclib/fault/detail/condition_variable.hpp b/include/yaclib/fault/detail/condition_variable.hpp
index 8816de9..57bb799 100644
--- a/include/yaclib/fault/detail/condition_variable.hpp
+++ b/include/yaclib/fault/detail/condition_variable.hpp
@@ -11,8 +11,16 @@
 
 namespace yaclib::detail {
 
-constexpr std::cv_status CVStatusFrom(WaitStatus);
-constexpr std::cv_status CVStatusFrom(std::cv_status);
+constexpr std::cv_status CVStatusFrom(WaitStatus status) {
+  if (status == WaitStatus::Ready) {
+    return std::cv_status::no_timeout;
+  }
+  return std::cv_status::timeout;
+}
+
+constexpr std::cv_status CVStatusFrom(std::cv_status status) {
+  return status;
+}
 
 // TODO(myannyax) unite with ConditionVariableAny
 
diff --git a/src/fault/condition_variable.cpp b/src/fault/condition_variable.cpp
index c5f1d5d..acb7088 100644
--- a/src/fault/condition_variable.cpp
+++ b/src/fault/condition_variable.cpp
@@ -1,16 +1 @@
 #include <yaclib/fault/detail/condition_variable.hpp>
-
-namespace yaclib::detail {
-
-constexpr std::cv_status CVStatusFrom(WaitStatus status) {
-  if (status == WaitStatus::Ready) {
-    return std::cv_status::no_timeout;
-  }
-  return std::cv_status::timeout;
-}
-
-constexpr std::cv_status CVStatusFrom(std::cv_status status) {
-  return status;
-}
-
-}  // namespace yaclib::detail
-- 
2.43.0


From 6d4de3e45ded7746c132e47cbe6eb7c4af7ab857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:17 +0000
Subject: [PATCH 16/31] fix: fiber recursive_mutex wakes a blocked locker and
 checks again after the wake-up

unlock never notified the queue, so a blocked lock() slept forever, and lock() took the mutex after one wait without
looking whether somebody else was faster.
---
 src/fault/fiber/recursive_mutex.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fault/fiber/recursive_mutex.cpp b/src/fault/fiber/recursive_mutex.cpp
index 8598ff1..86fc7b7 100644
--- a/src/fault/fiber/recursive_mutex.cpp
+++ b/src/fault/fiber/recursive_mutex.cpp
@@ -4,7 +4,7 @@
 namespace yaclib::detail::fiber {
 
 void RecursiveMutex::lock() {
-  if (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
+  while (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
     _queue.Wait(NoTimeoutTag{});
   }
   LockHelper();
@@ -23,8 +23,10 @@ void RecursiveMutex::unlock() noexcept {
   _occupied_count--;
   if (_occupied_count == 0) {
     _owner_id = 0;
+    _queue.NotifyOne();
   }
 }
+
 void RecursiveMutex::LockHelper() {
   _occupied_count++;
   _owner_id = fault::Scheduler::GetId();
-- 
2.43.0


From 15595285610a85cae55871b7f2ae08115ebc165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:17 +0000
Subject: [PATCH 17/31] fix: fiber shared_mutex never admits incompatible
 holders and forgets nobody

lock and lock_shared took the lock after one wait without checking it again, lock_shared waited in the queue of
writers where only one of the waiters is woken, and unlock woke either readers or a writer: when the woken one was gone
(timed out, somebody was faster) the others slept on a free lock.
---
 src/fault/fiber/shared_mutex.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/fault/fiber/shared_mutex.cpp b/src/fault/fiber/shared_mutex.cpp
index 8e9b7f3..ce05d4d 100644
--- a/src/fault/fiber/shared_mutex.cpp
+++ b/src/fault/fiber/shared_mutex.cpp
@@ -1,11 +1,9 @@
-#include <fault/util.hpp>
-
 #include <yaclib/fault/detail/fiber/shared_mutex.hpp>
 
 namespace yaclib::detail::fiber {
 
 void fiber::SharedMutex::lock() {
-  if (_occupied) {
+  while (_occupied) {
     _exclusive_queue.Wait(NoTimeoutTag{});
   }
   LockHelper();
@@ -20,18 +18,14 @@ bool SharedMutex::try_lock() noexcept {
 }
 
 void SharedMutex::unlock() noexcept {
-  const bool unlock_shared = !_shared_queue.Empty() && (_exclusive_queue.Empty() || GetRandNumber(2) == 0);
   _occupied = false;
-  if (unlock_shared) {
-    _shared_queue.NotifyAll();
-  } else {
-    _exclusive_queue.NotifyOne();
-  }
+  _shared_queue.NotifyAll();
+  _exclusive_queue.NotifyOne();
 }
 
 void SharedMutex::lock_shared() {
-  if (_occupied && _exclusive_mode) {
-    _exclusive_queue.Wait(NoTimeoutTag{});
+  while (_occupied && _exclusive_mode) {
+    _shared_queue.Wait(NoTimeoutTag{});
   }
   SharedLockHelper();
 }
-- 
2.43.0


From da980ba0230df578f53a3f301c5f544d68a31e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 18/31] fix: timed fiber mutexes check the lock again after a
 wake-up and keep their deadline

A woken waiter took the lock although somebody else could have taken it in between (an assertion in debug builds, two
holders otherwise), and shared_timed_mutex took it in shared mode for try_lock_for/until.
---
 .../detail/fiber/recursive_timed_mutex.hpp    | 17 +++++++--------
 .../fault/detail/fiber/shared_timed_mutex.hpp | 21 +++++++++----------
 .../yaclib/fault/detail/fiber/timed_mutex.hpp | 16 +++++++-------
 3 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp b/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
index 629f7bf..509ec0b 100644
--- a/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
@@ -13,7 +13,7 @@ class RecursiveTimedMutex : public RecursiveMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration);
+    return TimedWaitHelper(SystemClock::now() + timeout_duration);
   }
 
   template <typename Clock, typename Duration>
@@ -24,16 +24,13 @@ class RecursiveTimedMutex : public RecursiveMutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout) {
-    bool r = true;
-    if (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
-      r = _queue.Wait(timeout) == WaitStatus::Ready;
+    while (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
+      if (_queue.Wait(timeout) != WaitStatus::Ready) {
+        return false;
+      }
     }
-    YACLIB_DEBUG(r && (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()),
-                 "about to be locked twice and not in a good way");
-    if (r) {
-      LockHelper();
-    }
-    return r;
+    LockHelper();
+    return true;
   }
 };
 
diff --git a/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp b/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
index 333e13c..f357422 100644
--- a/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
@@ -14,7 +14,7 @@ class SharedTimedMutex : public SharedMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration, true);
+    return TimedWaitHelper(SystemClock::now() + timeout_duration, true);
   }
 
   template <typename Clock, typename Duration>
@@ -24,7 +24,7 @@ class SharedTimedMutex : public SharedMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_shared_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration, false);
+    return TimedWaitHelper(SystemClock::now() + timeout_duration, false);
   }
 
   template <typename Clock, typename Duration>
@@ -35,19 +35,18 @@ class SharedTimedMutex : public SharedMutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout, bool exclusive) {
-    bool r = true;
-    if (_occupied && (exclusive || _exclusive_mode)) {
-      if (exclusive) {
-        r = _exclusive_queue.Wait(timeout) == WaitStatus::Ready;
-      } else {
-        r = _shared_queue.Wait(timeout) == WaitStatus::Ready;
+    while (_occupied && (exclusive || _exclusive_mode)) {
+      auto& queue = exclusive ? _exclusive_queue : _shared_queue;
+      if (queue.Wait(timeout) != WaitStatus::Ready) {
+        return false;
       }
     }
-    YACLIB_DEBUG(r && _occupied && (exclusive || _exclusive_mode), "about to be locked twice and not in a good way");
-    if (r) {
+    if (exclusive) {
+      LockHelper();
+    } else {
       SharedLockHelper();
     }
-    return r;
+    return true;
   }
 };
 
diff --git a/include/yaclib/fault/detail/fiber/timed_mutex.hpp b/include/yaclib/fault/detail/fiber/timed_mutex.hpp
index c712e47..6130f49 100644
--- a/include/yaclib/fault/detail/fiber/timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/timed_mutex.hpp
@@ -13,7 +13,7 @@ class TimedMutex : public Mutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration);
+    return TimedWaitHelper(SystemClock::now() + timeout_duration);
   }
 
   template <typename Clock, typename Duration>
@@ -24,15 +24,13 @@ class TimedMutex : public Mutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout) {
-    bool r = true;
-    if (_occupied) {
-      r = _queue.Wait(timeout) == WaitStatus::Ready;
+    while (_occupied) {
+      if (_queue.Wait(timeout) != WaitStatus::Ready) {
+        return false;
+      }
     }
-    YACLIB_DEBUG(r && _occupied, "about to be locked twice");
-    if (r) {
-      _occupied = true;
-    }
-    return r;
+    _occupied = true;
+    return true;
   }
 };
 
-- 
2.43.0


From 339c6839d70b26a8728b3f2bdf3da313f1b2dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:42 +0000
Subject: [PATCH 19/31] fix: fiber thread is joinable exactly while it has a
 thread

joinable() was true for default constructed, moved-from, joined and detached threads.
---
 src/fault/fiber/thread.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/fault/fiber/thread.cpp b/src/fault/fiber/thread.cpp
index 4269861..dd463b0 100644
--- a/src/fault/fiber/thread.cpp
+++ b/src/fault/fiber/thread.cpp
@@ -16,14 +16,14 @@ void Thread::swap(Thread& t) noexcept {
 }
 
 bool Thread::joinable() const noexcept {
-  return get_id() != fault::Scheduler::GetId();
+  return _impl != nullptr;
 }
 
 void Thread::join() {
   if (_impl == nullptr) {
     throw std::system_error{std::make_error_code(std::errc::no_such_process)};
   }
-  if (!joinable()) {
+  if (get_id() == fault::Scheduler::GetId()) {
     throw std::system_error{std::make_error_code(std::errc::resource_deadlock_would_occur)};
   }
 
@@ -39,9 +39,6 @@ void Thread::detach() {
   if (_impl == nullptr) {
     throw std::system_error{std::make_error_code(std::errc::no_such_process)};
   }
-  if (!joinable()) {
-    throw std::system_error{std::make_error_code(std::errc::resource_deadlock_would_occur)};
-  }
   AfterJoinOrDetach();
 }
 
-- 
2.43.0


From 8d0bee0c9c62bf0ec55dda790a4d3580922cc4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:42 +0000
Subject: [PATCH 20/31] fix: thread-local pointers of fibers are separate
 variables with per fiber values

The index of a pointer was unique only among pointers to the same type, so pointers to different types shared one value.
Copy assignment changed the value of every fiber without its own one, and move assignment made two variables one.
---
 .../fault/detail/fiber/thread_local_proxy.hpp | 27 +++++++------------
 src/fault/fiber/thread_local_proxy.cpp        |  5 ++++
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
index c3944a7..695e1b4 100644
--- a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
+++ b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
@@ -8,22 +8,22 @@ void Set(void* new_value, std::uint64_t i);
 
 void SetDefault(void* new_value, std::uint64_t i);
 
+std::uint64_t NextFreeIndex() noexcept;
+
 template <typename Type>
 class ThreadLocalPtrProxy final {
-  inline static std::uint64_t sNextFreeIndex = 0;
-
  public:
-  ThreadLocalPtrProxy() noexcept : _i(sNextFreeIndex++) {
+  ThreadLocalPtrProxy() noexcept : _i(NextFreeIndex()) {
   }
 
-  ThreadLocalPtrProxy(Type* value) noexcept : _i(sNextFreeIndex++) {
+  ThreadLocalPtrProxy(Type* value) noexcept : _i(NextFreeIndex()) {
     if (value != nullptr) {
       SetDefault(value, _i);
     }
   }
   ThreadLocalPtrProxy(ThreadLocalPtrProxy&& other) noexcept : _i(other._i) {
   }
-  ThreadLocalPtrProxy(const ThreadLocalPtrProxy& other) noexcept : _i(sNextFreeIndex++) {
+  ThreadLocalPtrProxy(const ThreadLocalPtrProxy& other) noexcept : _i(NextFreeIndex()) {
     SetDefault(GetImpl(other._i), _i);
   }
 
@@ -32,34 +32,27 @@ class ThreadLocalPtrProxy final {
     return *this;
   }
   ThreadLocalPtrProxy& operator=(ThreadLocalPtrProxy&& other) noexcept {
-    _i = other._i;
-    return *this;
+    return *this = other.Get();
   }
   ThreadLocalPtrProxy& operator=(const ThreadLocalPtrProxy& other) noexcept {
-    if (this->Get() == other.Get()) {
-      return *this;
-    }
-    SetDefault(GetImpl(other._i), _i);
-    return *this;
+    return *this = other.Get();
   }
 
   template <typename U>
   ThreadLocalPtrProxy(ThreadLocalPtrProxy<U>&& other) noexcept : _i(other._i) {
   }
   template <typename U>
-  ThreadLocalPtrProxy(const ThreadLocalPtrProxy<U>& other) noexcept : _i(sNextFreeIndex++) {
+  ThreadLocalPtrProxy(const ThreadLocalPtrProxy<U>& other) noexcept : _i(NextFreeIndex()) {
     SetDefault(GetImpl(other._i), _i);
   }
 
   template <typename U>
   ThreadLocalPtrProxy& operator=(ThreadLocalPtrProxy<U>&& other) noexcept {
-    _i = other._i;
-    return *this;
+    return *this = other.Get();
   }
   template <typename U>
   ThreadLocalPtrProxy& operator=(const ThreadLocalPtrProxy<U>& other) noexcept {
-    SetDefault(GetImpl(other._i), _i);
-    return *this;
+    return *this = other.Get();
   }
 
   Type& operator*() const noexcept {
diff --git a/src/fault/fiber/thread_local_proxy.cpp b/src/fault/fiber/thread_local_proxy.cpp
index f61fcf4..dbe99f0 100644
--- a/src/fault/fiber/thread_local_proxy.cpp
+++ b/src/fault/fiber/thread_local_proxy.cpp
@@ -27,4 +27,9 @@ void SetDefault(void* new_value, std::uint64_t i) {
   GetMap()[i] = new_value;
 }
 
+std::uint64_t NextFreeIndex() noexcept {
+  static std::uint64_t sNextFreeIndex = 0;
+  return sNextFreeIndex++;
+}
+
 }  // namespace yaclib::detail::fiber
-- 
2.43.0


From 902f4e0999347c00819f5a927663a354ed8d1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:42 +0000
Subject: [PATCH 21/31] fix: fiber condition_variable::wait_for with predicate
 keeps its deadline

Every wake-up started the whole duration again.
---
 include/yaclib/fault/detail/fiber/condition_variable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/condition_variable.hpp b/include/yaclib/fault/detail/fiber/condition_variable.hpp
index fb7cabe..034fbf8 100644
--- a/include/yaclib/fault/detail/fiber/condition_variable.hpp
+++ b/include/yaclib/fault/detail/fiber/condition_variable.hpp
@@ -46,7 +46,7 @@ class ConditionVariable {
   template <typename Rep, typename Period, typename Predicate>
   bool wait_for(std::unique_lock<yaclib::detail::fiber::Mutex>& lock,
                 const std::chrono::duration<Rep, Period>& duration, Predicate predicate) {
-    return WaitImplWithPredicate(lock, duration, predicate);
+    return WaitImplWithPredicate(lock, SystemClock::now() + duration, predicate);
   }
 
   using native_handle_type = std::condition_variable::native_handle_type;
-- 
2.43.0


From 3f4694a943527d2281bb08daa9bcdba0692f3e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 22/31] fix: fiber sleep and timed waits until a time before
 the virtual epoch

The virtual clock starts at zero, so a moment slightly in the past can be negative; converted to unsigned it became a
sleep for centuries, after which the clock itself was negative.
---
 include/yaclib/fault/detail/fiber/queue.hpp | 5 +++--
 include/yaclib_std/detail/this_thread.hpp   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/queue.hpp b/include/yaclib/fault/detail/fiber/queue.hpp
index 069db0c..34d4e38 100644
--- a/include/yaclib/fault/detail/fiber/queue.hpp
+++ b/include/yaclib/fault/detail/fiber/queue.hpp
@@ -30,8 +30,9 @@ class FiberQueue final {
     auto* queue_node = static_cast<BiNodeWaitQueue*>(fiber);
     _queue.PushBack(queue_node);
     auto* scheduler = fault::Scheduler::GetScheduler();
-    scheduler->SleepPreemptive(
-      std::chrono::duration_cast<std::chrono::nanoseconds>(time_point.time_since_epoch()).count());
+    const auto timeout = std::chrono::duration_cast<std::chrono::nanoseconds>(time_point.time_since_epoch()).count();
+    // time before the epoch is already in the past
+    scheduler->SleepPreemptive(timeout > 0 ? static_cast<std::uint64_t>(timeout) : 0);
     bool res = queue_node->Erase();
     return res ? WaitStatus::Timeout : WaitStatus::Ready;
   }
diff --git a/include/yaclib_std/detail/this_thread.hpp b/include/yaclib_std/detail/this_thread.hpp
index 7c45eed..31cc662 100644
--- a/include/yaclib_std/detail/this_thread.hpp
+++ b/include/yaclib_std/detail/this_thread.hpp
@@ -9,8 +9,9 @@ namespace yaclib_std::this_thread {
 
 template <typename Clock, typename Duration>
 inline void sleep_until(const std::chrono::time_point<Clock, Duration>& sleep_time) {
-  std::uint64_t timeout = std::chrono::duration_cast<std::chrono::nanoseconds>(sleep_time.time_since_epoch()).count();
-  yaclib::fault::Scheduler::GetScheduler()->Sleep(timeout);
+  const auto timeout = std::chrono::duration_cast<std::chrono::nanoseconds>(sleep_time.time_since_epoch()).count();
+  // time before the epoch is already in the past
+  yaclib::fault::Scheduler::GetScheduler()->Sleep(timeout > 0 ? static_cast<std::uint64_t>(timeout) : 0);
 }
 
 template <typename Rep, typename Period>
-- 
2.43.0


From 9d1b8d76b4f5a505b498f5e449ecb44fbbe6e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 23/31] fix: assignment of a value to yaclib_std::atomic

The operator was hidden by the implicit copy assignment of every derived class: `a = v` did not compile with the THREAD
backend, with FIBER it copied a temporary atomic without an injection point.
---
 include/yaclib/fault/detail/atomic.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index 4f1cf99..f8b0a81 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -21,12 +21,12 @@ class AtomicBase : public AtomicWait<Impl, T> {
   using Base::is_lock_free;
 
   T operator=(T desired) noexcept {
-    YACLIB_INJECT_FAULT(auto r = Impl::operator=(desired));
-    return r;
+    YACLIB_INJECT_FAULT(Impl::store(desired, std::memory_order_seq_cst));
+    return desired;
   }
   T operator=(T desired) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = Impl::operator=(desired));
-    return r;
+    YACLIB_INJECT_FAULT(Impl::store(desired, std::memory_order_seq_cst));
+    return desired;
   }
 
   void store(T desired, std::memory_order order = std::memory_order_seq_cst) noexcept {
@@ -122,6 +122,7 @@ class AtomicFloatingBase : public AtomicBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename T>
@@ -130,6 +131,7 @@ class AtomicFloatingBase<Impl, T, true> : public AtomicBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_add(T arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto r = Impl::fetch_add(arg, order));
@@ -174,6 +176,7 @@ class AtomicIntegralBase : public AtomicFloatingBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename T>
@@ -182,6 +185,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_and(T arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto r = Impl::fetch_and(arg, order));
@@ -280,6 +284,7 @@ class Atomic : public AtomicIntegralBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename U>
@@ -288,6 +293,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   U* fetch_add(std::ptrdiff_t arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto* r = Impl::fetch_add(arg, order));
-- 
2.43.0


From 26ccb0804ee8ed175f21d81a3b3c219f613085a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 24/31] fix: increment and decrement of a volatile
 yaclib_std::atomic

They cast volatile away with static_cast and did not compile.
---
 include/yaclib/fault/detail/atomic.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index f8b0a81..f7e0e7c 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -219,7 +219,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator++() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = ++static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto r = ++static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -228,7 +228,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator++(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = static_cast<Impl&>(*this)++);
+    YACLIB_INJECT_FAULT(auto r = static_cast<volatile Impl&>(*this)++);
     return r;
   }
 
@@ -237,7 +237,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator--() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = --static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto r = --static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -246,7 +246,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator--(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = static_cast<Impl&>(*this)--);
+    YACLIB_INJECT_FAULT(auto r = static_cast<volatile Impl&>(*this)--);
     return r;
   }
 
@@ -318,7 +318,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator++() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = ++static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto* r = ++static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -327,7 +327,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator++(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = static_cast<Impl&>(*this)++);
+    YACLIB_INJECT_FAULT(auto* r = static_cast<volatile Impl&>(*this)++);
     return r;
   }
 
@@ -336,7 +336,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator--() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = --static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto* r = --static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -345,7 +345,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator--(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = static_cast<Impl&>(*this)--);
+    YACLIB_INJECT_FAULT(auto* r = static_cast<volatile Impl&>(*this)--);
     return r;
   }
 
-- 
2.43.0


From 2f6b40b36f55ee399f5c9d28ffb6b18a5085f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:00 +0000
Subject: [PATCH 25/31] fix: injected weak compare_exchange failure loads with
 a valid memory order

load(release) and load(acq_rel) are undefined (an assertion in libstdc++), the failure order is derived from the
single order as std does.
---
 include/yaclib/fault/detail/atomic.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index f7e0e7c..8a96025 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -3,6 +3,7 @@
 #include <yaclib/fault/detail/atomic_wait.hpp>
 #include <yaclib/fault/inject.hpp>
 
+#include <atomic>
 #include <type_traits>
 
 namespace yaclib::detail {
@@ -11,6 +12,17 @@ bool ShouldFailAtomicWeak();
 
 void SetAtomicWeakFailFrequency(std::uint32_t k);
 
+constexpr std::memory_order FailureOrder(std::memory_order order) noexcept {
+  switch (order) {
+    case std::memory_order_release:
+      return std::memory_order_relaxed;
+    case std::memory_order_acq_rel:
+      return std::memory_order_acquire;
+    default:
+      return order;
+  }
+}
+
 template <typename Impl, typename T>
 class AtomicBase : public AtomicWait<Impl, T> {
   using Base = AtomicWait<Impl, T>;
@@ -81,7 +93,7 @@ class AtomicBase : public AtomicWait<Impl, T> {
   }
   bool compare_exchange_weak(T& expected, T desired, std::memory_order order = std::memory_order_seq_cst) noexcept {
     if (ShouldFailAtomicWeak()) {
-      expected = load(order);
+      expected = load(FailureOrder(order));
       return false;
     }
     YACLIB_INJECT_FAULT(auto r = Impl::compare_exchange_weak(expected, desired, order));
@@ -90,7 +102,7 @@ class AtomicBase : public AtomicWait<Impl, T> {
   bool compare_exchange_weak(T& expected, T desired,
                              std::memory_order order = std::memory_order_seq_cst) volatile noexcept {
     if (ShouldFailAtomicWeak()) {
-      expected = load(order);
+      expected = load(FailureOrder(order));
       return false;
     }
     YACLIB_INJECT_FAULT(auto r = Impl::compare_exchange_weak(expected, desired, order));
-- 
2.43.0


From 37f537b6cc2d6146f43bfa26e87d8f97a6de832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:56 +0000
Subject: [PATCH 26/31] fix: fiber atomic compares bits in compare_exchange and
 its volatile overloads compile

compare_exchange used operator==, so it was wrong for NaN and zeros of different sign and did not compile for types
without it; volatile exchange and compare_exchange did not compile.
---
 include/yaclib/fault/detail/fiber/atomic.hpp | 35 ++++++++++++++++----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 96d16a8..f71155f 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -2,10 +2,27 @@
 
 #include <yaclib/fault/detail/fiber/atomic_wait.hpp>
 
+#include <cstring>
+#include <memory>
+#include <type_traits>
 #include <utility>
 
 namespace yaclib::detail::fiber {
 
+// std::atomic compares bits, without padding if it's possible: 0.0 isn't equal to -0.0, NaN is equal to itself
+template <typename T>
+bool IsSame(T lhs, T rhs) noexcept {
+#if defined(__has_builtin)
+#  if __has_builtin(__builtin_clear_padding)
+  if constexpr (!std::has_unique_object_representations_v<T>) {
+    __builtin_clear_padding(std::addressof(lhs));
+    __builtin_clear_padding(std::addressof(rhs));
+  }
+#  endif
+#endif
+  return std::memcmp(std::addressof(lhs), std::addressof(rhs), sizeof(T)) == 0;
+}
+
 template <typename T>
 class AtomicBase : public AtomicWait<T> {
   using Base = AtomicWait<T>;
@@ -19,14 +36,14 @@ class AtomicBase : public AtomicWait<T> {
     _value = desired;
   }
   void store(T desired, std::memory_order) volatile noexcept {
-    _value = desired;
+    Value() = desired;
   }
 
   T load(std::memory_order) const noexcept {
     return _value;
   }
   T load(std::memory_order) const volatile noexcept {
-    return _value;
+    return const_cast<const T&>(_value);
   }
 
   operator T() const noexcept {
@@ -40,7 +57,7 @@ class AtomicBase : public AtomicWait<T> {
     return std::exchange(_value, desired);
   }
   T exchange(T desired, std::memory_order) volatile noexcept {
-    return std::exchange(_value, desired);
+    return std::exchange(Value(), desired);
   }
 
   bool compare_exchange_weak(T& expected, T desired, std::memory_order, std::memory_order) noexcept {
@@ -69,12 +86,16 @@ class AtomicBase : public AtomicWait<T> {
   }
 
  protected:
-  bool CompareExchangeHelper(T& expected, T desired) {
-    if (this->_value == expected) {
-      this->_value = desired;
+  T& Value() volatile noexcept {
+    return const_cast<T&>(_value);
+  }
+
+  bool CompareExchangeHelper(T& expected, T desired) volatile noexcept {
+    if (IsSame(Value(), expected)) {
+      Value() = desired;
       return true;
     } else {
-      expected = this->_value;
+      expected = Value();
       return false;
     }
   }
-- 
2.43.0


From d4650a8e394516eddf24332dced8c581cd65ce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:59 +0000
Subject: [PATCH 27/31] fix: fiber atomic fetch_and computes and, not sum

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index f71155f..3d08642 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -174,12 +174,12 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
 
   T fetch_and(T arg, std::memory_order) noexcept {
     auto val = _value;
-    _value += arg;
+    _value &= arg;
     return val;
   }
   T fetch_and(T arg, std::memory_order) volatile noexcept {
     auto val = _value;
-    _value += arg;
+    _value &= arg;
     return val;
   }
 
-- 
2.43.0


From 043ebeeb2a168a482d79795692bc60c0d02531eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:59 +0000
Subject: [PATCH 28/31] fix: fiber atomic pre and post increment and decrement
 were swapped

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 32 ++++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 3d08642..8607933 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -206,31 +206,31 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
   }
 
   T operator++() noexcept {
-    return _value++;
+    return ++_value;
   }
   T operator++() volatile noexcept {
-    return _value++;
+    return ++_value;
   }
 
   T operator++(int) noexcept {
-    return ++_value;
+    return _value++;
   }
   T operator++(int) volatile noexcept {
-    return ++_value;
+    return _value++;
   }
 
   T operator--() noexcept {
-    return _value--;
+    return --_value;
   }
   T operator--() volatile noexcept {
-    return _value--;
+    return --_value;
   }
 
   T operator--(int) noexcept {
-    return --_value;
+    return _value--;
   }
   T operator--(int) volatile noexcept {
-    return --_value;
+    return _value--;
   }
 
   T operator&=(T arg) noexcept {
@@ -296,31 +296,31 @@ class Atomic<U*> : public AtomicBase<U*> {
   }
 
   U* operator++() noexcept {
-    return _value++;
+    return ++_value;
   }
   U* operator++() volatile noexcept {
-    return _value++;
+    return ++_value;
   }
 
   U* operator++(int) noexcept {
-    return ++_value;
+    return _value++;
   }
   U* operator++(int) volatile noexcept {
-    return ++_value;
+    return _value++;
   }
 
   U* operator--() noexcept {
-    return _value--;
+    return --_value;
   }
   U* operator--() volatile noexcept {
-    return _value--;
+    return --_value;
   }
 
   U* operator--(int) noexcept {
-    return --_value;
+    return _value--;
   }
   U* operator--(int) volatile noexcept {
-    return --_value;
+    return _value--;
   }
 
   U* operator+=(std::ptrdiff_t arg) noexcept {
-- 
2.43.0


From 2936ae983c966cbc9de89b89c91786e4e5d7277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:59 +0000
Subject: [PATCH 29/31] fix: default constructed fiber atomic and atomic_flag
 have a value

std::atomic is value-initialized and std::atomic_flag is clear, here the value was indeterminate.
---
 include/yaclib/fault/detail/fiber/atomic_wait.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic_wait.hpp b/include/yaclib/fault/detail/fiber/atomic_wait.hpp
index 1c0341a..d6beaa2 100644
--- a/include/yaclib/fault/detail/fiber/atomic_wait.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic_wait.hpp
@@ -60,7 +60,7 @@ class AtomicWait {
 #endif
 
  protected:
-  T _value;
+  T _value{};
 #if YACLIB_FUTEX != 0
   FiberQueue _queue;
 #endif
-- 
2.43.0


From 254009bd353c3d27d55b60648bf294273e24ae2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:54 +0000
Subject: [PATCH 30/31] fix: signed overflow in fiber atomic arithmetic

std::atomic wraps around, here it was undefined behavior.
---
 include/yaclib/fault/detail/fiber/atomic.hpp | 77 ++++++++++++++++----
 1 file changed, 61 insertions(+), 16 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 8607933..78c7a9c 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -23,6 +23,27 @@ bool IsSame(T lhs, T rhs) noexcept {
   return std::memcmp(std::addressof(lhs), std::addressof(rhs), sizeof(T)) == 0;
 }
 
+// arithmetic of std::atomic wraps around for signed types too
+template <typename T>
+constexpr T Add(T lhs, T rhs) noexcept {
+  if constexpr (std::is_integral_v<T>) {
+    using U = std::make_unsigned_t<T>;
+    return static_cast<T>(static_cast<U>(lhs) + static_cast<U>(rhs));
+  } else {
+    return lhs + rhs;
+  }
+}
+
+template <typename T>
+constexpr T Sub(T lhs, T rhs) noexcept {
+  if constexpr (std::is_integral_v<T>) {
+    using U = std::make_unsigned_t<T>;
+    return static_cast<T>(static_cast<U>(lhs) - static_cast<U>(rhs));
+  } else {
+    return lhs - rhs;
+  }
+}
+
 template <typename T>
 class AtomicBase : public AtomicWait<T> {
   using Base = AtomicWait<T>;
@@ -119,38 +140,46 @@ class AtomicFloatingBase<T, true> : public AtomicBase<T> {
 
   T fetch_add(T arg, std::memory_order) noexcept {
     auto val = _value;
-    _value += arg;
+    _value = Add(_value, arg);
     return val;
   }
   T fetch_add(T arg, std::memory_order) volatile noexcept {
     auto val = _value;
-    _value += arg;
+    _value = Add(_value, arg);
     return val;
   }
 
   T fetch_sub(T arg, std::memory_order) noexcept {
     auto val = _value;
-    _value -= arg;
+    _value = Sub(_value, arg);
     return val;
   }
   T fetch_sub(T arg, std::memory_order) volatile noexcept {
     auto val = _value;
-    _value -= arg;
+    _value = Sub(_value, arg);
     return val;
   }
 
   T operator+=(T arg) noexcept {
-    return _value += arg;
+    auto val = Add(_value, arg);
+    _value = val;
+    return val;
   }
   T operator+=(T arg) volatile noexcept {
-    return _value += arg;
+    auto val = Add(_value, arg);
+    _value = val;
+    return val;
   }
 
   T operator-=(T arg) noexcept {
-    return _value -= arg;
+    auto val = Sub(_value, arg);
+    _value = val;
+    return val;
   }
   T operator-=(T arg) volatile noexcept {
-    return _value -= arg;
+    auto val = Sub(_value, arg);
+    _value = val;
+    return val;
   }
 
  protected:
@@ -206,31 +235,47 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
   }
 
   T operator++() noexcept {
-    return ++_value;
+    auto val = Add(_value, T{1});
+    _value = val;
+    return val;
   }
   T operator++() volatile noexcept {
-    return ++_value;
+    auto val = Add(_value, T{1});
+    _value = val;
+    return val;
   }
 
   T operator++(int) noexcept {
-    return _value++;
+    auto val = _value;
+    _value = Add(val, T{1});
+    return val;
   }
   T operator++(int) volatile noexcept {
-    return _value++;
+    auto val = _value;
+    _value = Add(val, T{1});
+    return val;
   }
 
   T operator--() noexcept {
-    return --_value;
+    auto val = Sub(_value, T{1});
+    _value = val;
+    return val;
   }
   T operator--() volatile noexcept {
-    return --_value;
+    auto val = Sub(_value, T{1});
+    _value = val;
+    return val;
   }
 
   T operator--(int) noexcept {
-    return _value--;
+    auto val = _value;
+    _value = Sub(val, T{1});
+    return val;
   }
   T operator--(int) volatile noexcept {
-    return _value--;
+    auto val = _value;
+    _value = Sub(val, T{1});
+    return val;
   }
 
   T operator&=(T arg) noexcept {
-- 
2.43.0


From 1dd2daf598fd7af7ed4447d5b837a1fcc4f08bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 31/31] fix: random count is relative to the seed and
 forwarding goes to it

---
 src/fault/util.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fault/util.cpp b/src/fault/util.cpp
index a9e0166..0fa6363 100644
--- a/src/fault/util.cpp
+++ b/src/fault/util.cpp
@@ -15,6 +15,9 @@ static thread_local std::mt19937_64 eng{sSeed};
 void SetSeed(std::uint32_t new_seed) {
   sSeed = new_seed;
   eng.seed(new_seed);
+#if YACLIB_FAULT == 2
+  sRandCount = 0;
+#endif
 }
 
 std::uint32_t GetSeed() {
@@ -43,7 +46,7 @@ std::uint64_t GetRandCount() {
 
 void ForwardToRandCount([[maybe_unused]] std::uint64_t random_count) {
 #if YACLIB_FAULT == 2
-  for (std::uint64_t i = 0; i != random_count; ++i) {
+  while (sRandCount < random_count) {
     GetRandNumber(1);
   }
 #endif
-- 
2.43.0

