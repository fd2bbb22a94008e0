From 2bdf25a159af3d6992dbc1e801f6578411aa9416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 01/19] fix: fixed_array keeps the memory resource it was given

The constructor allocated from the passed resource, but get_resource() and the
destructor used new_delete_resource, so a thread_pool returned its memory to a
resource which had not allocated it.
---
 include/kelcoro/noexport/fixed_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/noexport/fixed_array.hpp b/include/kelcoro/noexport/fixed_array.hpp
index 5641054..96b90b9 100644
--- a/include/kelcoro/noexport/fixed_array.hpp
+++ b/include/kelcoro/noexport/fixed_array.hpp
@@ -27,7 +27,8 @@ struct fixed_array {
     std::swap(resource, rhs.resource);
     return *this;
   }
-  fixed_array(size_t n, std::pmr::memory_resource& resource = *std::pmr::new_delete_resource()) : n(n) {
+  fixed_array(size_t n, std::pmr::memory_resource& resource = *std::pmr::new_delete_resource())
+      : n(n), resource(&resource) {
     if (n == 0)
       return;
     arr = (T*)resource.allocate(sizeof(T) * n, alignof(T));
-- 
2.43.0


From d0043be3e4d72d88092380ea60bf84a0e7e9e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 02/19] fix: a dead pill of ~thread_pool is never linked into
 two queues

Worker which already exited after request_stop does not consume the pill, the
same node was then pushed into the next queue (or stayed in the queue after
going out of scope), cutting off tasks pushed behind it.
---
 include/kelcoro/thread_pool.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/thread_pool.hpp b/include/kelcoro/thread_pool.hpp
index 859facb..8c3b218 100644
--- a/include/kelcoro/thread_pool.hpp
+++ b/include/kelcoro/thread_pool.hpp
@@ -278,11 +278,14 @@ struct thread_pool {
     // You can't just reset it because the queue is inside the worker,
     // and in that case, while the stop was
     // going on, someone could push into the dead queue.
-    task_node pill = task_node::deadpill();
     for (size_t i = 0; i < threads.size(); i++) {
       if (threads[i].joinable()) {
+        // worker may be already stopped (request_stop), then pill remains in the queue after join,
+        // so it must not be pushed anywhere else and must be removed while it is alive
+        task_node pill = task_node::deadpill();
         queues[i].push(&pill);
         threads[i].join();
+        noexport::cancel_tasks(queues[i].pop_all());
       }
     }
     for (auto& q : queues)
-- 
2.43.0


From 1dc0eae495e55164d516a8d45ea3bcd691c6e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 03/19] fix: latch awaiters do not touch themselves after they
 were pushed

After stack.push another thread may resume the coroutine, which destroys the
awaiter living in its frame; await_suspend still read this->l (and n).
---
 include/kelcoro/latch.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/kelcoro/latch.hpp b/include/kelcoro/latch.hpp
index 8d5e25c..ec493cc 100644
--- a/include/kelcoro/latch.hpp
+++ b/include/kelcoro/latch.hpp
@@ -23,10 +23,12 @@ struct latch {
     }
     void await_suspend(std::coroutine_handle<> handle) noexcept {
       node.task = handle;
-      l.stack.push(&node);
+      // after 'push' coroutine may be resumed on other thread and destroy this awaiter
+      latch& l_ = l;
+      l_.stack.push(&node);
       // in case if 'ready' changed from 'false' to 'true' wakeup all who call 'wait'
-      if (l.ready())
-        l.wakeup_all();
+      if (l_.ready())
+        l_.wakeup_all();
     }
     static void await_resume() noexcept {
     }
@@ -48,8 +50,11 @@ struct latch {
     }
     void await_suspend(std::coroutine_handle<> handle) noexcept {
       node.task = handle;
-      l.stack.push(&node);
-      l.count_down(n);
+      // after 'push' coroutine may be resumed on other thread (if n == 0) and destroy this awaiter
+      latch& l_ = l;
+      const ptrdiff_t n_ = n;
+      l_.stack.push(&node);
+      l_.count_down(n_);
     }
     static void await_resume() noexcept {
     }
-- 
2.43.0


From 07c4ed5c6a1b810f95463e3b0517dd26bdecfe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:43 +0000
Subject: [PATCH 04/19] fix: when_any over events reads its awaiter after the
 coroutine may have been resumed

---
 include/kelcoro/events.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/events.hpp b/include/kelcoro/events.hpp
index 5691981..ea06b23 100644
--- a/include/kelcoro/events.hpp
+++ b/include/kelcoro/events.hpp
@@ -205,8 +205,10 @@ KELCORO_CO_AWAIT_REQUIRED constexpr auto when_any(event<Inputs>&... events) {
           };
         }
       };
+      // copy, because after first subscribing coro may be resumed and awaiter will die
+      const auto events = events_;
       [&]<size_t... Is>(std::index_sequence<Is...>) {
-        (std::get<Is>(events_).set_callback(
+        (std::get<Is>(events).set_callback(
              create_cb_for(std::type_identity<Inputs>{}, std::integral_constant<size_t, Is>{})),
          ...);
       }  // INVOKED HERE
-- 
2.43.0


From ba086aa5a91a091153475fae4d01a2da6f01464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 05/19] fix: expected::error returns the error, not a pointer
 to it

---
 include/kelcoro/noexport/expected.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/noexport/expected.hpp b/include/kelcoro/noexport/expected.hpp
index dd4410d..b972d9f 100644
--- a/include/kelcoro/noexport/expected.hpp
+++ b/include/kelcoro/noexport/expected.hpp
@@ -56,12 +56,12 @@ struct expected {
   // precondition: !has_value()
   E& error() noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
   // precondition: !has_value()
   const E& error() const noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
 };
 
-- 
2.43.0


From bda8d6f0bbb4e98d97cb6852b7b2f72979902cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 06/19] fix: a cleared or released channel is an empty range

---
 include/kelcoro/channel.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 0dcb699..36561e8 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -250,6 +250,7 @@ struct channel : enable_resource_deduction {
   // postcondition: .empty()
   // after this method its caller responsibility to correctly destroy 'handle'
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -261,6 +262,7 @@ struct channel : enable_resource_deduction {
     if (top) {
       top.destroy();
       top = nullptr;
+      current_result = nullptr;
     }
   }
   ~channel() {
-- 
2.43.0


From 9aca484a632684e2db017a6ac931587c46cd210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 07/19] fix: iterating a channel after it was moved or swapped
 delivers to its new place

---
 include/kelcoro/channel.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 36561e8..294643a 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -173,9 +173,9 @@ struct channel_iterator {
     return std::addressof(ref);
   }
   // * after invoking references to value from operator* are invalidated
-  KELCORO_CO_AWAIT_REQUIRED transfer_control_to operator++() noexcept {
+  KELCORO_CO_AWAIT_REQUIRED auto operator++() noexcept {
     KELCORO_ASSUME(!chan->empty());
-    return transfer_control_to{chan->top.promise().current_worker};
+    return typename channel<Yield>::resumer{{}, *chan};
   }
 
   // on the end of loop, when current_value == nullptr reached
@@ -291,6 +291,23 @@ struct channel : enable_resource_deduction {
   }
 
  private:
+  // channel may be moved/swapped between steps, so each step says who waits for its result
+  struct resumer : not_movable {
+    channel& self;
+
+    static constexpr bool await_ready() noexcept {
+      return false;
+    }
+    KELCORO_ASSUME_NOONE_SEES std::coroutine_handle<> await_suspend(
+        std::coroutine_handle<> consumer) noexcept {
+      self.handle = consumer;
+      self.top.promise()._consumer = &self;
+      return self.top.promise().current_worker;
+    }
+    static constexpr void await_resume() noexcept {
+    }
+  };
+
   struct starter : not_movable {
     channel& self;
 
-- 
2.43.0


From b509a84d336109f258c5a993a3948e448d2c48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 08/19] fix: channel_iterator::owner and equivalent refer to
 the channel

---
 include/kelcoro/channel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 294643a..7071f18 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -155,10 +155,10 @@ struct channel_iterator {
 
   // return true if they are attached to same 'channel' object
   constexpr bool equivalent(const channel_iterator& other) const noexcept {
-    return std::addressof(chan) == std::addressof(other.chan);
+    return chan == other.chan;
   }
   channel<Yield>& owner() const noexcept {
-    return chan;
+    return *chan;
   }
 
   constexpr bool operator==(std::default_sentinel_t) const noexcept {
-- 
2.43.0


From 818957b5c2c38348bfed08d958f3cca2469f9c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 09/19] fix: a failed allocation in co_yield elements_of is an
 exception, not a termination

---
 include/kelcoro/channel.hpp   | 2 +-
 include/kelcoro/generator.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 7071f18..d668630 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -87,7 +87,7 @@ struct channel_promise : not_movable {
     return transfer_control_to{consumer_handle()};
   }
   template <typename X>
-  noexport::attach_leaf<channel<Yield>> yield_value(elements_of<X> e) noexcept {
+  noexport::attach_leaf<channel<Yield>> yield_value(elements_of<X> e) {
     return noexport::create_and_attach_leaf<Yield, channel>(std::move(e));
   }
 
diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 4ae3185..1bb86ef 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -108,7 +108,7 @@ struct generator_promise : not_movable, yield_block<generator_promise<Yield>, Yi
   using yield_block<generator_promise, Yield>::yield_value;
 
   template <typename R>
-  noexport::attach_leaf<generator<Yield>> yield_value(elements_of<R> e) noexcept {
+  noexport::attach_leaf<generator<Yield>> yield_value(elements_of<R> e) {
     return noexport::create_and_attach_leaf<Yield, generator>(std::move(e));
   }
 
-- 
2.43.0


From 29be3156ec6fd417dff71c9515d3202300008791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 10/19] fix: an empty generator<nothing_t> may be iterated

---
 include/kelcoro/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 1bb86ef..c95173a 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -177,7 +177,7 @@ struct generator_iterator {
     if constexpr (!std::is_same_v<nothing_t, Yield>) {
       return self->current_result == nullptr;
     } else {
-      return self->top.done();
+      return self->empty();
     }
   }
   constexpr reference operator*() const noexcept {
-- 
2.43.0


From 37370be716b555162e02b1302ffe3ace25cc5207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 11/19] fix: clear, release and reset of a generator leave no
 pointer to the old value or owner

---
 include/kelcoro/generator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index c95173a..1f45611 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -304,11 +304,14 @@ struct generator : enable_resource_deduction {
   constexpr void reset(handle_type handle) noexcept {
     clear();
     top = handle;
+    if (top)
+      prepare_to_start();
   }
 
   // postcondition: .empty()
   // its caller responsibility to correctly destroy handle
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -320,6 +323,7 @@ struct generator : enable_resource_deduction {
     if (top) {
       top.destroy();
       top = nullptr;
+      current_result = nullptr;
     }
   }
   constexpr ~generator() {
-- 
2.43.0


From 2a98be1e2bd76d490f4bfdf3ab7ee22944a38599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 12/19] fix: async_task may be allocated with a memory resource

---
 include/kelcoro/async_task.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/async_task.hpp b/include/kelcoro/async_task.hpp
index e5bccae..11f7cd1 100644
--- a/include/kelcoro/async_task.hpp
+++ b/include/kelcoro/async_task.hpp
@@ -33,8 +33,10 @@ struct async_task_promise : return_block<Result> {
     static bool await_ready() noexcept {
       return false;
     }
-    bool await_suspend(std::coroutine_handle<async_task_promise> handle) const noexcept {
-      auto& p = handle.promise();
+    // promise may be resourced
+    template <typename Promise>
+    bool await_suspend(std::coroutine_handle<Promise> handle) const noexcept {
+      async_task_promise& p = handle.promise();
       p.ready.exchange(true, std::memory_order::acq_rel);
       p.ready.notify_one();
       // continue and destroy if ref count == 0
-- 
2.43.0


From 4fc310dc7d7ebec0a1a94918b1ff50b19e9d0c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 13/19] fix: this_coro::handle and stop_token work in
 coroutines with a memory resource

---
 include/kelcoro/common.hpp         | 6 ++++--
 include/kelcoro/logical_thread.hpp | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/kelcoro/common.hpp b/include/kelcoro/common.hpp
index db6b327..973b00d 100644
--- a/include/kelcoro/common.hpp
+++ b/include/kelcoro/common.hpp
@@ -202,8 +202,10 @@ struct KELCORO_CO_AWAIT_REQUIRED get_handle_t {
     static constexpr bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<PromiseType> handle) noexcept {
-      handle_ = handle;
+    // 'Promise' may be resourced 'PromiseType'
+    template <typename Promise>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<Promise> handle) noexcept {
+      handle_ = std::coroutine_handle<PromiseType>::from_address(handle.address());
       return false;
     }
     [[nodiscard]] std::coroutine_handle<PromiseType> await_resume() const noexcept {
diff --git a/include/kelcoro/logical_thread.hpp b/include/kelcoro/logical_thread.hpp
index 7749945..01a775a 100644
--- a/include/kelcoro/logical_thread.hpp
+++ b/include/kelcoro/logical_thread.hpp
@@ -98,8 +98,9 @@ struct logical_thread_promise {
     static bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(
-        std::coroutine_handle<logical_thread_promise> handle) noexcept {
+    // promise may be resourced
+    template <typename Promise>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<Promise> handle) noexcept {
       stop_state = &handle.promise().stop_requested_;
       return false;  // never suspend rly
     }
-- 
2.43.0


From 04a88d55de80082b6ebbbe96415ce6e17adc3a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 14/19] fix: pmr coroutines use the default resource set with
 dd::pmr::set_default_resource

---
 include/kelcoro/memory_support.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 7e2de52..9748b7b 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -126,7 +126,7 @@ struct polymorphic_resource {
  public:
   polymorphic_resource() noexcept : passed(std::exchange(passed_resource(), nullptr)) {
     if (!passed)
-      passed = std::pmr::get_default_resource();
+      passed = default_resource().load(std::memory_order_acquire);
     assert(passed != nullptr);
   }
   polymorphic_resource(std::pmr::memory_resource& m) noexcept : passed(&m) {
-- 
2.43.0


From ce645f68ce9a978b9394cb12414e510abfae05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:39 +0000
Subject: [PATCH 15/19] fix: reuse_memory of stack_resource reuses the initial
 buffer too

---
 include/kelcoro/stack_memory_resource.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/stack_memory_resource.hpp b/include/kelcoro/stack_memory_resource.hpp
index 37f23e3..3b4435b 100644
--- a/include/kelcoro/stack_memory_resource.hpp
+++ b/include/kelcoro/stack_memory_resource.hpp
@@ -179,6 +179,7 @@ struct stack_resource {
       m = b;
       drop_cur_chunk();
     }
+    m = b;
   }
 };
 
-- 
2.43.0


From bc9df96b14db4cc479e9a8acca6ac025e96febbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:41 +0000
Subject: [PATCH 16/19] fix: co_await this_coro::operation_hash compiles, also
 in a channel

---
 include/kelcoro/channel.hpp        |  1 +
 include/kelcoro/operation_hash.hpp | 30 ++++++++++++++++++------------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index d668630..14a18b9 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -16,6 +16,7 @@ struct channel_promise : not_movable {
  private:
   friend channel<Yield>;
   friend channel_iterator<Yield>;
+  friend operation_hash<std::coroutine_handle<channel_promise<Yield>>>;
   friend noexport::attach_leaf<channel<Yield>>;
   friend noexport::hold_value_until_resume<Yield>;
 
diff --git a/include/kelcoro/operation_hash.hpp b/include/kelcoro/operation_hash.hpp
index e71bc98..ec369d7 100644
--- a/include/kelcoro/operation_hash.hpp
+++ b/include/kelcoro/operation_hash.hpp
@@ -34,18 +34,24 @@ static size_t do_hash(const void* ptr) noexcept {
 }
 
 struct KELCORO_CO_AWAIT_REQUIRED op_hash_t {
-  operation_hash_t hash;
-
-  static constexpr bool await_ready() noexcept {
-    return false;
-  }
-  template <typename P>
-  constexpr bool await_suspend(std::coroutine_handle<P> handle) noexcept {
-    hash = calculate_operation_hash(handle);
-    return false;
-  }
-  constexpr operation_hash_t await_resume() noexcept {
-    return hash;
+  struct awaiter {
+    operation_hash_t hash = 0;
+
+    static constexpr bool await_ready() noexcept {
+      return false;
+    }
+    template <typename P>
+    constexpr bool await_suspend(std::coroutine_handle<P> handle) noexcept {
+      hash = calculate_operation_hash(handle);
+      return false;
+    }
+    constexpr operation_hash_t await_resume() noexcept {
+      return hash;
+    }
+  };
+
+  constexpr awaiter operator co_await() const noexcept {
+    return awaiter{};
   }
 };
 
-- 
2.43.0


From b1e8702d766871a6f66a2c902d262aeeee1f7425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 17/19] fix: subscribers of an event return to waiting if
 copying the input throws

---
 include/kelcoro/events.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/events.hpp b/include/kelcoro/events.hpp
index ea06b23..776451f 100644
--- a/include/kelcoro/events.hpp
+++ b/include/kelcoro/events.hpp
@@ -83,9 +83,16 @@ struct event {
     task_node* top = subscribers.try_pop_all();
     if (!top)
       return false;
-    // TODO not ignore exception from attach/copy construct
+    try {
+      for (task_node* node = top; node; node = node->next)
+        static_cast<subscribe*>(node)->input = input;
+    } catch (...) {
+      // no one resumed yet, all return to waiting
+      subscribers.push_stack(top);
+      throw;
+    }
+    // TODO not ignore exception from attach
     while (top) {
-      static_cast<subscribe*>(top)->input = input;
       task_node* next = top->next;
       exe.attach(top);
       top = next;
-- 
2.43.0


From 7085f96441015a8482052be2b85cb81f03752892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 18/19] fix: a failed subscription in when_all/when_any over
 events leaves no callback with a dangling awaiter

---
 include/kelcoro/events.hpp | 47 ++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/include/kelcoro/events.hpp b/include/kelcoro/events.hpp
index 776451f..7d66aa8 100644
--- a/include/kelcoro/events.hpp
+++ b/include/kelcoro/events.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <exception>
 #include <variant>
 
 #include "job.hpp"
@@ -137,6 +138,7 @@ KELCORO_CO_AWAIT_REQUIRED constexpr auto when_all(event<Inputs>&... events) {
     uint8_t count;
     std::tuple<event<Inputs>&...> events_;
     KELCORO_NO_UNIQUE_ADDRESS storage_t input;
+    std::exception_ptr exception = nullptr;
 
     bool await_ready() const noexcept {
       return false;
@@ -161,15 +163,26 @@ KELCORO_CO_AWAIT_REQUIRED constexpr auto when_all(event<Inputs>&... events) {
         }
       };
 
-      [&]<size_t... Is>(std::index_sequence<Is...>) {
-        (std::get<Is>(events_).set_callback(
-             create_cb_for(std::type_identity<Inputs>{}, std::integral_constant<size_t, Is>{})),
-         ...);
-      }  // INVOKED HERE
-      (std::index_sequence_for<Inputs...>{});
+      size_t subscribed = 0;
+      try {
+        [&]<size_t... Is>(std::index_sequence<Is...>) {
+          ((std::get<Is>(events_).set_callback(
+                create_cb_for(std::type_identity<Inputs>{}, std::integral_constant<size_t, Is>{})),
+            ++subscribed),
+           ...);
+        }  // INVOKED HERE
+        (std::index_sequence_for<Inputs...>{});
+      } catch (...) {
+        // callbacks which are already subscribed use this awaiter, so exception waits for them too
+        exception = std::current_exception();
+        uint8_t missing = sizeof...(Inputs) - subscribed;
+        if (std::atomic_ref(count).fetch_add(missing, std::memory_order::acq_rel) == subscribed)
+          throw;
+      }
     }
-    // noexcept because of event_ invariants
-    [[nodiscard]] storage_t await_resume() noexcept {
+    [[nodiscard]] storage_t await_resume() {
+      if (exception)
+        std::rethrow_exception(exception);
       return std::move(input);
     }
   };
@@ -214,12 +227,18 @@ KELCORO_CO_AWAIT_REQUIRED constexpr auto when_any(event<Inputs>&... events) {
       };
       // copy, because after first subscribing coro may be resumed and awaiter will die
       const auto events = events_;
-      [&]<size_t... Is>(std::index_sequence<Is...>) {
-        (std::get<Is>(events).set_callback(
-             create_cb_for(std::type_identity<Inputs>{}, std::integral_constant<size_t, Is>{})),
-         ...);
-      }  // INVOKED HERE
-      (std::index_sequence_for<Inputs...>{});
+      try {
+        [&]<size_t... Is>(std::index_sequence<Is...>) {
+          (std::get<Is>(events).set_callback(
+               create_cb_for(std::type_identity<Inputs>{}, std::integral_constant<size_t, Is>{})),
+           ...);
+        }  // INVOKED HERE
+        (std::index_sequence_for<Inputs...>{});
+      } catch (...) {
+        // callbacks which are already subscribed must not use this awaiter after exception
+        if (count_ptr->fetch_add(1, std::memory_order::acq_rel) == 0)
+          throw;
+      }
     }
     // always returns variant with information what happens(index) and input
     // always noexcept because of 'event' invariants
-- 
2.43.0


From 04634ecd04324143f019e2ee290f0d706e182a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 19/19] fix: operation hash of regular addresses selected only
 part of the workers

---
 include/kelcoro/operation_hash.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/operation_hash.hpp b/include/kelcoro/operation_hash.hpp
index ec369d7..6b8d708 100644
--- a/include/kelcoro/operation_hash.hpp
+++ b/include/kelcoro/operation_hash.hpp
@@ -30,7 +30,9 @@ static size_t do_hash(const void* ptr) noexcept {
     val ^= static_cast<size_t>(bytes[i]);
     val *= fnv_prime;
   }
-  return val;
+  // low bits depend only on low bits of each byte, so regular addresses (e.g. coroutines with same frame size)
+  // would select only part of queues
+  return val ^ (val >> (sizeof(val) * 4));
 }
 
 struct KELCORO_CO_AWAIT_REQUIRED op_hash_t {
-- 
2.43.0

