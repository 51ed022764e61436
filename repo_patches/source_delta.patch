From d3bc1aeaf2721c23789f706847b9d12a0bf1d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 01/44] fix: hand channel values and room to waiting operations
 when waking them up

A woken-up read or write used to be unlinked and posted only; until it got
resumed another operation could take the value or the room, after which it
overran the buffer or read from an empty one. Cancelling it in that window lost
the wake-up. A read or write that is part of a race and finds a partner now
completes right away, since another alternative could win after the transfer.
Reads from a closed channel<void> drain what is buffered, and a write created
before but awaited after close() fails.
---
 include/boost/cobalt/channel.hpp      |  12 ++-
 include/boost/cobalt/impl/channel.hpp | 108 +++++++++++++++++++-------
 src/channel.cpp                       |  43 +++++-----
 3 files changed, 111 insertions(+), 52 deletions(-)

diff --git a/include/boost/cobalt/channel.hpp b/include/boost/cobalt/channel.hpp
index 26c7f2c..4b116de 100644
--- a/include/boost/cobalt/channel.hpp
+++ b/include/boost/cobalt/channel.hpp
@@ -80,9 +80,10 @@ struct channel
 
     void transactional_unlink()
     {
+      // unlink first, since the transaction can cancel other operations.
+      this->unlink();
       if (begin_transaction)
           begin_transaction(awaited_from.get());
-      this->unlink();
     }
 
     void interrupt_await()
@@ -123,9 +124,10 @@ struct channel
 
     void transactional_unlink()
     {
+      // unlink first, since the transaction can cancel other operations.
+      this->unlink();
       if (begin_transaction)
           begin_transaction(awaited_from.get());
-      this->unlink();
     }
 
     void interrupt_await()
@@ -241,9 +243,10 @@ struct channel<void>
 
     void transactional_unlink()
     {
+      // unlink first, since the transaction can cancel other operations.
+      this->unlink();
       if (begin_transaction)
           begin_transaction(awaited_from.get());
-      this->unlink();
     }
 
     void interrupt_await()
@@ -282,9 +285,10 @@ struct channel<void>
 
     void transactional_unlink()
     {
+      // unlink first, since the transaction can cancel other operations.
+      this->unlink();
       if (begin_transaction)
           begin_transaction(awaited_from.get());
-      this->unlink();
     }
 
     void interrupt_await()
diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index dead930..c5cb221 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -136,6 +136,15 @@ std::coroutine_handle<void> channel<T>::read_op::await_suspend(std::coroutine_ha
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
 
+    if (begin_transaction)
+    {
+      // we're part of a race: complete now, so no other alternative can win after the transfer.
+      awaited_from.release();
+      op.cancel_slot.clear();
+      asio::post(chn->executor_, std::move(op.awaited_from));
+      return h;
+    }
+
     asio::post(chn->executor_, std::move(awaited_from));
     return op.awaited_from.release();
   }
@@ -166,7 +175,10 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (chn->is_closed_ && chn->buffer_.empty() && !direct)
+  if (direct) // already handed over
+    return {system::in_place_value, std::move(*direct)};
+
+  if (chn->is_closed_ && chn->buffer_.empty())
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -178,24 +190,28 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
 
-  T value = chn->buffer_.empty() ? std::move(*direct) : std::move(chn->buffer_.front());
-  if (!chn->buffer_.empty())
-  {
-    chn->buffer_.pop_front();
-    if (direct)
-      chn->buffer_.push_back(std::move(*direct));
-  }
+  T value = std::move(chn->buffer_.front());
+  chn->buffer_.pop_front();
 
   if (!chn->write_queue_.empty())
   {
+    // give the room to the writer right away, so nobody can take it before the writer gets resumed
     auto &op = chn->write_queue_.front();
     BOOST_ASSERT(chn->read_queue_.empty());
-    if (op.await_ready())
+    BOOST_ASSERT(op.awaited_from);
+    op.direct = true;
+    op.cancel_slot.clear();
+    if constexpr (std::is_copy_constructible_v<T>)
     {
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
+      if (op.ref.index() == 0)
+        chn->buffer_.push_back(std::move(*variant2::get<0>(op.ref)));
+      else
+        chn->buffer_.push_back(*variant2::get<1>(op.ref));
     }
+    else
+      chn->buffer_.push_back(std::move(*op.ref));
+    op.transactional_unlink();
+    asio::post(chn->executor_, std::move(op.awaited_from));
   }
   return {system::in_place_value, std::move(value)};
 }
@@ -257,6 +273,15 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
 
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
+
+    if (begin_transaction)
+    {
+      // we're part of a race: complete now, so no other alternative can win after the transfer.
+      awaited_from.release();
+      op.cancel_slot.clear();
+      asio::post(chn->executor_, std::move(op.awaited_from));
+      return h;
+    }
     asio::post(chn->executor_, std::move(awaited_from));
 
     return op.awaited_from.release();
@@ -281,7 +306,10 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (closed)
+  if (direct) // already handed over
+    return system::in_place_value;
+
+  if (closed || (chn->is_closed_ && !cancelled))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -293,32 +321,36 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
 
-  if (!direct)
+  BOOST_ASSERT(!chn->buffer_.full());
+  if (!chn->read_queue_.empty())
   {
-    BOOST_ASSERT(!chn->buffer_.full());
+    // give the value to the reader right away, so nobody can take it before the reader gets resumed
+    auto & op = chn->read_queue_.front();
+    BOOST_ASSERT(chn->write_queue_.empty());
+    BOOST_ASSERT(op.awaited_from);
     if constexpr (std::is_copy_constructible_v<T>)
     {
       if (ref.index() == 0)
-        chn->buffer_.push_back(std::move(*variant2::get<0>(ref)));
+        op.direct.emplace(std::move(*variant2::get<0>(ref)));
       else
-        chn->buffer_.push_back(*variant2::get<1>(ref));
+        op.direct.emplace(*variant2::get<1>(ref));
     }
     else
-      chn->buffer_.push_back(std::move(*ref));
+      op.direct.emplace(std::move(*ref));
+    op.cancel_slot.clear();
+    op.transactional_unlink();
+    asio::post(chn->executor_, std::move(op.awaited_from));
   }
-
-  if (!chn->read_queue_.empty())
+  else if constexpr (std::is_copy_constructible_v<T>)
   {
-    auto & op = chn->read_queue_.front();
-    BOOST_ASSERT(chn->write_queue_.empty());
-    if (op.await_ready())
-    {
-      // unlink?
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
+    if (ref.index() == 0)
+      chn->buffer_.push_back(std::move(*variant2::get<0>(ref)));
+    else
+      chn->buffer_.push_back(*variant2::get<1>(ref));
   }
+  else
+    chn->buffer_.push_back(std::move(*ref));
+
   return system::in_place_value;
 }
 
@@ -383,6 +415,15 @@ std::coroutine_handle<void> channel<void>::read_op::await_suspend(std::coroutine
 
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
+
+    if (begin_transaction)
+    {
+      // we're part of a race: complete now, so no other alternative can win after the transfer.
+      awaited_from.release();
+      op.cancel_slot.clear();
+      asio::post(chn->executor_, std::move(op.awaited_from));
+      return h;
+    }
     asio::post(chn->executor_, std::move(awaited_from));
     return op.awaited_from.release();
   }
@@ -420,6 +461,15 @@ std::coroutine_handle<void> channel<void>::write_op::await_suspend(std::coroutin
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
 
+    if (begin_transaction)
+    {
+      // we're part of a race: complete now, so no other alternative can win after the transfer.
+      awaited_from.release();
+      op.cancel_slot.clear();
+      asio::post(chn->executor_, std::move(op.awaited_from));
+      return h;
+    }
+
     asio::post(chn->executor_, std::move(awaited_from));
     return op.awaited_from.release();
   }
diff --git a/src/channel.cpp b/src/channel.cpp
index eb7333d..fd2272d 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -50,7 +50,10 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (chn->is_closed_)
+  if (direct) // already handed over
+    return {system::in_place_value};
+
+  if (chn->is_closed_ && chn->n_ == 0u)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -62,18 +65,18 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
 
-  if (!direct)
-    chn->n_--;
+  chn->n_--;
   if (!chn->write_queue_.empty())
   {
+    // give the room to the writer right away, so nobody can take it before the writer gets resumed
     auto &op = chn->write_queue_.front();
     BOOST_ASSERT(chn->read_queue_.empty());
-    if (op.await_ready())
-    {
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
+    BOOST_ASSERT(op.awaited_from);
+    op.direct = true;
+    op.cancel_slot.clear();
+    chn->n_++;
+    op.transactional_unlink();
+    asio::post(chn->executor_, std::move(op.awaited_from));
   }
   return {system::in_place_value};
 }
@@ -94,7 +97,10 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (closed)
+  if (direct) // already handed over
+    return {system::in_place_value};
+
+  if (closed || (chn->is_closed_ && !cancelled))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -105,20 +111,19 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
-  if (!direct)
-    chn->n_++;
-
   if (!chn->read_queue_.empty())
   {
+    // give the value to the reader right away, so nobody can take it before the reader gets resumed
     auto & op = chn->read_queue_.front();
     BOOST_ASSERT(chn->write_queue_.empty());
-    if (op.await_ready())
-    {
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
+    BOOST_ASSERT(op.awaited_from);
+    op.direct = true;
+    op.cancel_slot.clear();
+    op.transactional_unlink();
+    asio::post(chn->executor_, std::move(op.awaited_from));
   }
+  else
+    chn->n_++;
   return {system::in_place_value};
 }
 
-- 
2.43.0


From 4afe59a9cc21263e3f0dc5050e0d5af883324768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 02/44] fix: an interrupted channel operation leaves the queue

With race the operation can outlive the interrupted await, so another operation
could pair up with it and resume a null handle.
---
 include/boost/cobalt/channel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/cobalt/channel.hpp b/include/boost/cobalt/channel.hpp
index 4b116de..b6da0e8 100644
--- a/include/boost/cobalt/channel.hpp
+++ b/include/boost/cobalt/channel.hpp
@@ -91,6 +91,7 @@ struct channel
       if (!direct)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -135,6 +136,7 @@ struct channel
       if (!direct)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -254,6 +256,7 @@ struct channel<void>
       if (!direct)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -296,6 +299,7 @@ struct channel<void>
       if (!direct)
       {
         cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
-- 
2.43.0


From b33c82713aec26a3305ce4d0d07ada267bee17cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 03/44] fix: destroying a channel that a race waits on

The operations live in the race, not in the branch that gets destroyed, so the
destructor never saw its queues become empty.
---
 include/boost/cobalt/impl/channel.hpp | 14 ++++++++++++--
 src/channel.cpp                       | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index c5cb221..39c7d2f 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -42,10 +42,20 @@ template<typename T>
 channel<T>::~channel()
 {
   while (!read_queue_.empty())
-    read_queue_.front().awaited_from.reset();
+  {
+    auto & op = read_queue_.front();
+    op.unlink(); // in a race the op can outlive the branch, and the race can outlive the op
+    op.cancel_slot.clear();
+    op.awaited_from.reset();
+  }
 
   while (!write_queue_.empty())
-    write_queue_.front().awaited_from.reset();
+  {
+    auto & op = write_queue_.front();
+    op.unlink(); // in a race the op can outlive the branch, and the race can outlive the op
+    op.cancel_slot.clear();
+    op.awaited_from.reset();
+  }
 
 }
 
diff --git a/src/channel.cpp b/src/channel.cpp
index fd2272d..14edb3e 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -14,10 +14,20 @@ namespace boost::cobalt
 channel<void>::~channel()
 {
   while (!read_queue_.empty())
-    read_queue_.front().awaited_from.reset();
+  {
+    auto & op = read_queue_.front();
+    op.unlink(); // in a race the op can outlive the branch, and the race can outlive the op
+    op.cancel_slot.clear();
+    op.awaited_from.reset();
+  }
 
   while (!write_queue_.empty())
-    write_queue_.front().awaited_from.reset();
+  {
+    auto & op = write_queue_.front();
+    op.unlink(); // in a race the op can outlive the branch, and the race can outlive the op
+    op.cancel_slot.clear();
+    op.awaited_from.reset();
+  }
 
 }
 
-- 
2.43.0


From 7414aaba3b228f104cd7edc0c798f7a994b38e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 04/44] fix: a decided race starts no further awaitables and
 forgets destroyed ones

Starting one awaitable can decide the race through another one; starting the
remaining ones consumed results that were then dropped.
---
 include/boost/cobalt/detail/race.hpp | 31 +++++++++++++++++++---------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 006608f..ad1453e 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -183,13 +183,17 @@ struct race_variadic_impl
       struct interruptor final : interruptible_base
       {
         std::decay_t<typename traits::actual_awaitable> & aw;
-        interruptor(std::decay_t<typename traits::actual_awaitable> & aw) : aw(aw) {}
+        interruptible_base *& entry;
+        interruptor(std::decay_t<typename traits::actual_awaitable> & aw,
+                    interruptible_base *& entry) : aw(aw), entry(entry) {}
+        // the awaited object may destroy the branch
+        ~interruptor() { entry = nullptr; }
         void interrupt_await() override
         {
           traits::do_interrupt(aw);
         }
       };
-      interruptor in{aw_};
+      interruptor in{aw_, this_.working[Idx]};
       //if constexpr (traits::interruptible)
         this_.working[Idx] = &in;
 
@@ -313,13 +317,10 @@ struct race_variadic_impl
         return false;
 
       for (std::size_t idx = 1u;
-           idx < tuple_size; idx++) // we'
+           idx < tuple_size && !has_result(); idx++) // a decided race starts nothing else
       {
         auto l = impls[idx](*this);
-        const auto d = l.done();
         l.release();
-        if (d)
-          break;
       }
 
       if (!this->outstanding_work()) // already done, resume rightaway.
@@ -514,6 +515,19 @@ struct race_ranged_impl
 
       as_result_t aw{aw_};
 
+      struct registration
+      {
+        awaitable & this_;
+        std::size_t idx;
+        // the awaited object may destroy the branch
+        ~registration()
+        {
+          if constexpr (traits::interruptible)
+            this_.working[idx] = nullptr;
+        }
+      };
+      registration reg{this_, idx};
+
       if constexpr (traits::interruptible)
         this_.working[idx] = &aw_;
 
@@ -624,13 +638,10 @@ struct race_ranged_impl
         return false;
 
       for (auto itr = std::next(reorder.begin());
-           itr < reorder.end(); std::advance(itr, 1)) // we'
+           itr < reorder.end() && !has_result(); std::advance(itr, 1)) // a decided race starts nothing else
       {
         auto l = await_impl(*this, *itr);
-        auto d = l.done();
         l.release();
-        if (d)
-          break;
       }
 
       if (!this->outstanding_work()) // already done, resume rightaway.
-- 
2.43.0


From b73f7fd16029ef9b35b8cf94cddd7bef62c7e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 05/44] fix: destroying the last suspended fork

Its frame lives in the state of the race, gather or join it belongs to, which
was released, and with it the frame freed, before the frame was destroyed.
---
 include/boost/cobalt/detail/fork.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 58fef62..10ccb33 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -18,6 +18,7 @@
 #include <boost/intrusive_ptr.hpp>
 
 #include <coroutine>
+#include <cstddef>
 #include <optional>
 
 namespace boost::cobalt::detail
@@ -103,13 +104,28 @@ struct fork
   };
   struct promise_type
   {
+    // The frame lives in the resource of the state. If a suspended fork gets destroyed, the state must
+    // thus be released after the frame, i.e. in operator delete, which finds it in front of the frame.
+    constexpr static std::size_t state_offset = alignof(std::max_align_t);
+    static_assert(sizeof(shared_state*) <= state_offset);
+    static shared_state *& released_state(void * frame)
+    {
+      return *reinterpret_cast<shared_state**>(static_cast<char*>(frame) - state_offset);
+    }
+
     template<typename State, typename ... Rest>
     void * operator new(const std::size_t size, State & st, Rest &&...)
     {
-      return st.resource.allocate(size);
+      void * frame = static_cast<char*>(st.resource.allocate(size + state_offset)) + state_offset;
+      released_state(frame) = nullptr;
+      return frame;
     }
 
-    void operator delete(void *) noexcept {}
+    void operator delete(void * frame) noexcept
+    {
+      if (auto st = released_state(frame))
+        intrusive_ptr_release(st);
+    }
 
     template<typename ... Rest>
     promise_type(shared_state & st, Rest & ...)
@@ -117,6 +133,11 @@ struct fork
     {
     }
 
+    ~promise_type()
+    {
+      released_state(std::coroutine_handle<promise_type>::from_promise(*this).address()) = state.detach();
+    }
+
     intrusive_ptr<shared_state> state;
     asio::cancellation_slot cancel;
 
-- 
2.43.0


From ac83c076c069883f5cb6841428f03f3a400ca839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 06/44] fix: gather and join ask each awaitable only once
 whether it is ready

The ranged constructors called await_ready on every element to fill a vector nobody reads. await_ready
starts nested combinators and may have effects in custom operations, so it must be called once.
---
 include/boost/cobalt/detail/gather.hpp | 10 ----------
 include/boost/cobalt/detail/join.hpp   |  9 ---------
 2 files changed, 19 deletions(-)

diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 92f665f..2b64f1d 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -241,7 +241,6 @@ struct gather_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
                        pmr::vector<co_awaitable_type<type>>> aws;
 
-    pmr::vector<bool> ready{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal> cancel{std::size(aws), alloc};
     pmr::vector<result_storage_type> result{cancel.size(), alloc};
 
@@ -250,7 +249,6 @@ struct gather_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
         std::vector<co_awaitable_type<type>>> aws;
 
-    std::vector<bool> ready{std::size(aws), alloc};
     std::vector<asio::cancellation_signal> cancel{std::size(aws), alloc};
     std::vector<result_storage_type> result{cancel.size(), alloc};
 #endif
@@ -260,7 +258,6 @@ struct gather_ranged_impl
     awaitable(Range & aws_, std::false_type /* needs operator co_await */)
       : fork::shared_state((512 + sizeof(co_awaitable_type<type>)) * std::size(aws_))
       , aws{alloc}
-      , ready{std::size(aws_), alloc}
       , cancel{std::size(aws_), alloc}
     {
       aws.reserve(std::size(aws_));
@@ -271,18 +268,11 @@ struct gather_ranged_impl
             std::is_lvalue_reference_v<Range>, a_0 &, a_0 &&>;
         aws.emplace_back(awaitable_type_getter<a_t>(static_cast<a_t>(a)));
       }
-
-
-      std::transform(std::begin(this->aws),
-                     std::end(this->aws),
-                     std::begin(ready),
-                     [](auto & aw) {return aw.await_ready();});
     }
     awaitable(Range & aws, std::true_type /* needs operator co_await */)
         : fork::shared_state((512 + sizeof(co_awaitable_type<type>)) * std::size(aws))
         , aws(aws)
     {
-      std::transform(std::begin(aws), std::end(aws), std::begin(ready), [](auto & aw) {return aw.await_ready();});
     }
 
     awaitable(Range & aws)
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index f412551..6db4ccf 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -304,7 +304,6 @@ struct join_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
                        pmr::vector<co_awaitable_type<type>>> aws;
 
-    pmr::vector<bool> ready{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal> cancel_{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal*> cancel{std::size(aws), alloc};
 
@@ -321,7 +320,6 @@ struct join_ranged_impl
     std::allocator<void> alloc;
     std::conditional_t<awaitable_type<type>, Range &,  std::vector<co_awaitable_type<type>>> aws;
 
-    std::vector<bool> ready{std::size(aws), alloc};
     std::vector<asio::cancellation_signal> cancel_{std::size(aws), alloc};
     std::vector<asio::cancellation_signal*> cancel{std::size(aws), alloc};
 
@@ -338,7 +336,6 @@ struct join_ranged_impl
     awaitable(Range & aws_, std::false_type /* needs  operator co_await */)
       :  fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws_))
       , aws{alloc}
-      , ready{std::size(aws_), alloc}
       , cancel_{std::size(aws_), alloc}
       , cancel{std::size(aws_), alloc}
     {
@@ -350,17 +347,11 @@ struct join_ranged_impl
             std::is_lvalue_reference_v<Range>, a_0 &, a_0 &&>;
         aws.emplace_back(awaitable_type_getter<a_t>(static_cast<a_t>(a)));
       }
-
-      std::transform(std::begin(this->aws),
-                     std::end(this->aws),
-                     std::begin(ready),
-                     [](auto & aw) {return aw.await_ready();});
     }
     awaitable(Range & aws, std::true_type /* needs operator co_await */)
         : fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws))
         , aws(aws)
     {
-      std::transform(std::begin(aws), std::end(aws), std::begin(ready), [](auto & aw) {return aw.await_ready();});
     }
 
     awaitable(Range & aws)
-- 
2.43.0


From d625663f392394e18c354eb814755af70f638d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 07/44] fix: as_result and as_tuple of a join

The variadic join returned a tuple of results where a result of a tuple is meant, which does not
compile; neither adaptor compiled for a range of void awaitables.
---
 include/boost/cobalt/detail/join.hpp | 44 +++++++++++++++++-----------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 6db4ccf..a55cfb2 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -241,7 +241,7 @@ struct join_variadic_impl
         if (error)
           return std::make_tuple(error, t{});
         else
-          return std::make_tuple(std::current_exception(),
+          return std::make_tuple(std::exception_ptr(),
                                  mp11::tuple_transform(
               []<typename T>(std::optional<T> & var)
                   -> T
@@ -262,13 +262,13 @@ struct join_variadic_impl
         return rt(system::in_place_error, error);
 
       if constexpr(!all_void)
-        return mp11::tuple_transform(
+        return rt(system::in_place_value, mp11::tuple_transform(
             []<typename T>(std::optional<T> & var)
-                -> rt
+                -> T
             {
               BOOST_ASSERT(var.has_value());
               return std::move(*var);
-            }, result);
+            }, result));
       else
         return rt{system::in_place_value};
     }
@@ -471,16 +471,18 @@ struct join_ranged_impl
 
     auto await_resume(const as_tuple_tag & )
     {
+      if constexpr (std::is_void_v<result_type>)
+        return std::make_tuple(error);
+      else
+      {
 #if defined(BOOST_COBALT_NO_PMR)
-      std::vector<result_type> rr;
+        std::vector<result_type> rr;
 #else
-      pmr::vector<result_type> rr{this_thread::get_allocator()};
+        pmr::vector<result_type> rr{this_thread::get_allocator()};
 #endif
 
-      if (error)
-        return std::make_tuple(error, rr);
-      if constexpr (!std::is_void_v<result_type>)
-      {
+        if (error)
+          return std::make_tuple(error, std::move(rr));
         rr.reserve(result.size());
         for (auto & t : result)
           rr.push_back(*std::move(t));
@@ -490,20 +492,28 @@ struct join_ranged_impl
 
     auto await_resume(const as_result_tag & )
     {
+      if constexpr (std::is_void_v<result_type>)
+      {
+        using rt = system::result<void, std::exception_ptr>;
+        if (error)
+          return rt(system::in_place_error, error);
+        return rt(system::in_place_value);
+      }
+      else
+      {
 #if defined(BOOST_COBALT_NO_PMR)
-      std::vector<result_type> rr;
+        std::vector<result_type> rr;
 #else
-      pmr::vector<result_type> rr{this_thread::get_allocator()};
+        pmr::vector<result_type> rr{this_thread::get_allocator()};
 #endif
+        using rt = system::result<decltype(rr), std::exception_ptr>;
 
-      if (error)
-        return system::result<decltype(rr), std::exception_ptr>(error);
-      if constexpr (!std::is_void_v<result_type>)
-      {
+        if (error)
+          return rt(system::in_place_error, error);
         rr.reserve(result.size());
         for (auto & t : result)
           rr.push_back(*std::move(t));
-        return system::result<decltype(rr), std::exception_ptr>(std::move(rr));
+        return rt(system::in_place_value, std::move(rr));
       }
     }
 
-- 
2.43.0


From 5ccc2d8a2f37a10b9bb0fb3235123e6d72e00fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 08/44] fix: combinators drop their cancellation handler once
 they are done

race, gather and join left a handler in the cancellation slot of the awaiting coroutine that refers to
the destroyed awaitable, so a later cancellation while awaiting something that installs no handler
accessed freed memory. Since the last awaitable may complete while it is being cancelled, the awaiting
coroutine is resumed once the cancellation has been passed on to all of them.
---
 include/boost/cobalt/detail/fork.hpp   | 32 ++++++++++++++++++++++++++
 include/boost/cobalt/detail/gather.hpp | 10 ++++----
 include/boost/cobalt/detail/join.hpp   | 14 +++++++----
 include/boost/cobalt/detail/race.hpp   | 14 +++++++----
 4 files changed, 58 insertions(+), 12 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 10ccb33..ac8d16c 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -58,6 +58,38 @@ struct fork
 
     bool outstanding_work() {return use_count != 0u;}
 
+    // Run `func`, which may complete all the forks, without resuming `coro` - and thus destroying this - before it's done.
+    template<typename Func>
+    void guarded(Func && func)
+    {
+      use_count++;
+      std::forward<Func>(func)();
+      if (--use_count == 0u && coro)
+        coro.release().resume();
+    }
+
+    // The slot of the awaiting coroutine; the handler in there must not outlive the await.
+    asio::cancellation_slot awaiting_slot{};
+
+    template<typename Promise, typename Func>
+    void arm_cancellation(std::coroutine_handle<Promise> h, Func func)
+    {
+      if constexpr (requires {h.promise().get_cancellation_slot();})
+        if ((awaiting_slot = h.promise().get_cancellation_slot()).is_connected())
+          awaiting_slot.assign(
+              [this, func](asio::cancellation_type ct)
+              {
+                this->guarded([&]{func(ct);});
+              });
+    }
+
+    void disarm_cancellation()
+    {
+      if (awaiting_slot.is_connected())
+        awaiting_slot.clear();
+      awaiting_slot = {};
+    }
+
     std::optional<executor> exec{};
     bool wired_up() {return exec.has_value();}
 
diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 2b64f1d..1bf7c6e 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -173,9 +173,9 @@ struct gather_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->arm_cancellation(
           h,
-          [&](asio::cancellation_type ct)
+          [this](asio::cancellation_type ct)
           {
             for (auto & cs : cancel)
               cs.emit(ct);
@@ -192,6 +192,7 @@ struct gather_variadic_impl
     BOOST_COBALT_MSVC_NOINLINE
     std::tuple<result_part<Args> ...> await_resume()
     {
+      this->disarm_cancellation();
       return mp11::tuple_transform(
           []<typename T>(variant2::variant<variant2::monostate, T, std::exception_ptr> & var)
               -> system::result<monostate_as_void<T>, std::exception_ptr>
@@ -362,9 +363,9 @@ struct gather_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->arm_cancellation(
           h,
-          [&](asio::cancellation_type ct)
+          [this](asio::cancellation_type ct)
           {
             for (auto & cs : cancel)
               cs.emit(ct);
@@ -377,6 +378,7 @@ struct gather_ranged_impl
     BOOST_COBALT_MSVC_NOINLINE
     auto await_resume()
     {
+      this->disarm_cancellation();
 #if !defined(BOOST_COBALT_NO_PMR)
       pmr::vector<result_type> res{result.size(), this_thread::get_allocator()};
 #else
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index a55cfb2..f6afe7d 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -205,9 +205,9 @@ struct join_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->arm_cancellation(
           h,
-          [&](asio::cancellation_type ct)
+          [this](asio::cancellation_type ct)
           {
             for (auto cs : cancel)
               if (cs)
@@ -221,6 +221,7 @@ struct join_variadic_impl
     BOOST_COBALT_MSVC_NOINLINE
     auto await_resume()
     {
+      this->disarm_cancellation();
       if (error)
         std::rethrow_exception(error);
       if constexpr(!all_void)
@@ -235,6 +236,7 @@ struct join_variadic_impl
 
     auto await_resume(const as_tuple_tag &)
     {
+      this->disarm_cancellation();
       using t = decltype(await_resume());
       if constexpr(!all_void)
       {
@@ -256,6 +258,7 @@ struct join_variadic_impl
 
     auto await_resume(const as_result_tag &)
     {
+      this->disarm_cancellation();
       using t = decltype(await_resume());
       using rt = system::result<t, std::exception_ptr>;
       if (error)
@@ -455,9 +458,9 @@ struct join_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->arm_cancellation(
           h,
-          [&](asio::cancellation_type ct)
+          [this](asio::cancellation_type ct)
           {
             for (auto cs : cancel)
               if (cs)
@@ -471,6 +474,7 @@ struct join_ranged_impl
 
     auto await_resume(const as_tuple_tag & )
     {
+      this->disarm_cancellation();
       if constexpr (std::is_void_v<result_type>)
         return std::make_tuple(error);
       else
@@ -492,6 +496,7 @@ struct join_ranged_impl
 
     auto await_resume(const as_result_tag & )
     {
+      this->disarm_cancellation();
       if constexpr (std::is_void_v<result_type>)
       {
         using rt = system::result<void, std::exception_ptr>;
@@ -520,6 +525,7 @@ struct join_ranged_impl
     BOOST_COBALT_MSVC_NOINLINE
     auto await_resume()
     {
+      this->disarm_cancellation();
       if (error)
         std::rethrow_exception(error);
       if constexpr (!std::is_void_v<result_type>)
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index ad1453e..a8f29ce 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -327,9 +327,9 @@ struct race_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->arm_cancellation(
           h,
-          [&](asio::cancellation_type ct)
+          [this](asio::cancellation_type ct)
           {
             for (auto & cs : cancel)
               if (cs)
@@ -343,6 +343,7 @@ struct race_variadic_impl
     BOOST_COBALT_MSVC_NOINLINE
     auto await_resume()
     {
+      this->disarm_cancellation();
       if (error)
         std::rethrow_exception(error);
       if constexpr (all_void)
@@ -353,6 +354,7 @@ struct race_variadic_impl
 
     auto await_resume(const as_tuple_tag &)
     {
+      this->disarm_cancellation();
       if constexpr (all_void)
         return std::make_tuple(error, index);
       else
@@ -362,6 +364,7 @@ struct race_variadic_impl
     auto await_resume(const as_result_tag & )
         -> system::result<std::conditional_t<all_void, std::size_t, variant2::variant<void_as_monostate<co_await_result_t<Args>>...>>, std::exception_ptr>
     {
+      this->disarm_cancellation();
       if (error)
         return {system::in_place_error, error};
       if constexpr (all_void)
@@ -648,9 +651,9 @@ struct race_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->arm_cancellation(
           h,
-          [&](asio::cancellation_type ct)
+          [this](asio::cancellation_type ct)
           {
             for (auto & cs : cancel)
               if (cs)
@@ -664,6 +667,7 @@ struct race_ranged_impl
     BOOST_COBALT_MSVC_NOINLINE
     auto await_resume()
     {
+      this->disarm_cancellation();
       if (error)
         std::rethrow_exception(error);
       if constexpr (std::is_void_v<result_type>)
@@ -674,6 +678,7 @@ struct race_ranged_impl
 
     auto await_resume(const as_tuple_tag &)
     {
+      this->disarm_cancellation();
       if constexpr (std::is_void_v<result_type>)
         return std::make_tuple(error, index);
       else
@@ -683,6 +688,7 @@ struct race_ranged_impl
     auto await_resume(const as_result_tag & )
     -> system::result<std::conditional_t<std::is_void_v<result_type>, std::size_t, std::pair<std::size_t, result_type>>, std::exception_ptr>
     {
+      this->disarm_cancellation();
       if (error)
         return {system::in_place_error, error};
       if constexpr (std::is_void_v<result_type>)
-- 
2.43.0


From 41c98e60460993109b3431439ac894997829ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 09/44] fix: interrupting a join of a range checks every
 element

The index was never advanced, so the first element decided for all of them.
---
 include/boost/cobalt/detail/join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index f6afe7d..ab25c96 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -381,7 +381,7 @@ struct join_ranged_impl
       {
         std::size_t idx = 0u;
         for (auto & aw : aws)
-          if (cancel[idx])
+          if (cancel[idx++])
             static_cast<t>(aw).interrupt_await();
       }
     }
-- 
2.43.0


From b66ccef7527d06cc349151fbac9098750c39ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 10/44] fix: interrupting a combinator whose last awaitable
 completes right away

An interrupted awaitable may complete immediately, e.g. a promise does. If it was the last one, the
awaiting coroutine was resumed while the combinator was still going through its awaitables.
---
 include/boost/cobalt/detail/gather.hpp | 22 +++++++++++++-------
 include/boost/cobalt/detail/join.hpp   | 28 ++++++++++++++++----------
 include/boost/cobalt/detail/race.hpp   | 20 ++++++++++++------
 3 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 1bf7c6e..fba207d 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -84,11 +84,15 @@ struct gather_variadic_impl
     }
     void interrupt_await()
     {
-      mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
-          ([&](auto idx)
-           {
-             interrupt_await_step<idx>();
-           });
+      this->guarded(
+          [&]
+          {
+            mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
+                ([&](auto idx)
+                 {
+                   interrupt_await_step<idx>();
+                 });
+          });
     }
 
     // GCC doesn't like member funs
@@ -288,8 +292,12 @@ struct gather_ranged_impl
                                    co_awaitable_type<type> &&>;
 
       if constexpr (interruptible<t>)
-        for (auto & aw : aws)
-          static_cast<t>(aw).interrupt_await();
+        this->guarded(
+            [&]
+            {
+              for (auto & aw : aws)
+                static_cast<t>(aw).interrupt_await();
+            });
     }
 
     static detail::fork await_impl(awaitable & this_, std::size_t idx)
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index ab25c96..6c10c0d 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -107,11 +107,15 @@ struct join_variadic_impl
 
     void interrupt_await()
     {
-      mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
-          ([&](auto idx)
-           {
-             interrupt_await_step<idx>();
-           });
+      this->guarded(
+          [&]
+          {
+            mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
+                ([&](auto idx)
+                 {
+                   interrupt_await_step<idx>();
+                 });
+          });
     }
 
     // GCC doesn't like member funs
@@ -378,12 +382,14 @@ struct join_ranged_impl
           co_awaitable_type<type> &&>;
 
       if constexpr (interruptible<t>)
-      {
-        std::size_t idx = 0u;
-        for (auto & aw : aws)
-          if (cancel[idx++])
-            static_cast<t>(aw).interrupt_await();
-      }
+        this->guarded(
+            [&]
+            {
+              std::size_t idx = 0u;
+              for (auto & aw : aws)
+                if (cancel[idx++])
+                  static_cast<t>(aw).interrupt_await();
+            });
     }
 
 
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index a8f29ce..0e65ef9 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -142,9 +142,13 @@ struct race_variadic_impl
 
     void interrupt_await()
     {
-      for (auto i : working)
-        if (i)
-          i->interrupt_await();
+      this->guarded(
+          [&]
+          {
+            for (auto i : working)
+              if (i)
+                i->interrupt_await();
+          });
     }
 
     template<typename T, typename Error>
@@ -484,9 +488,13 @@ struct race_ranged_impl
     void interrupt_await()
     {
       if constexpr (traits::interruptible)
-        for (auto aw : working)
-          if (aw)
-            traits::do_interrupt(*aw);
+        this->guarded(
+            [&]
+            {
+              for (auto aw : working)
+                if (aw)
+                  traits::do_interrupt(*aw);
+            });
     }
 
 
-- 
2.43.0


From 7ab58c5358c57ea9bed6878468d51f03cad57ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 11/44] fix: a branch of a race that throws while being started
 stops the others

An exception thrown by await_ready or await_suspend decided the race but neither interrupted nor
cancelled the other branches.
---
 include/boost/cobalt/detail/race.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 0e65ef9..9de4cfd 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -289,6 +289,8 @@ struct race_variadic_impl
       if (this_.index == Idx)
         this_.error = std::current_exception();
       this_.working[Idx] = nullptr;
+      this_.cancel[Idx] = nullptr;
+      this_.cancel_all();
     }
     BOOST_CATCH_END
 
@@ -625,6 +627,8 @@ struct race_ranged_impl
         this_.error = std::current_exception();
       if constexpr (traits::interruptible)
         this_.working[idx] = nullptr;
+      this_.cancel[idx] = nullptr;
+      this_.cancel_all();
     }
     BOOST_CATCH_END
 
-- 
2.43.0


From 6118730803c68d115c17091b1bfb1636ef5b1fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 12/44] fix: as_tuple of a race that fails

The tuple was made by dereferencing the empty result.
---
 include/boost/cobalt/detail/race.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 9de4cfd..292281f 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -363,6 +363,8 @@ struct race_variadic_impl
       this->disarm_cancellation();
       if constexpr (all_void)
         return std::make_tuple(error, index);
+      else if (error)
+        return std::make_tuple(error, variant2::variant<void_as_monostate<co_await_result_t<Args>>...>());
       else
         return std::make_tuple(error, std::move(*result));
     }
@@ -693,6 +695,8 @@ struct race_ranged_impl
       this->disarm_cancellation();
       if constexpr (std::is_void_v<result_type>)
         return std::make_tuple(error, index);
+      else if (error)
+        return std::make_tuple(error, std::make_pair(index, result_type()));
       else
         return std::make_tuple(error, std::make_pair(index, std::move(*result)));
     }
-- 
2.43.0


From ca6094058b894b2bed0be52c71d72e97c27ff227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 13/44] fix: joining an empty range fails as documented

---
 include/boost/cobalt/join.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/cobalt/join.hpp b/include/boost/cobalt/join.hpp
index 5c917f9..04a22cd 100644
--- a/include/boost/cobalt/join.hpp
+++ b/include/boost/cobalt/join.hpp
@@ -11,6 +11,11 @@
 #include <boost/cobalt/concepts.hpp>
 #include <boost/cobalt/detail/join.hpp>
 
+#include <boost/throw_exception.hpp>
+
+#include <iterator>
+#include <stdexcept>
+
 namespace boost::cobalt
 {
 
@@ -27,6 +32,9 @@ template<typename PromiseRange>
   requires awaitable<std::decay_t<decltype(*std::declval<PromiseRange>().begin())>>
 auto join(PromiseRange && p)
 {
+  if (std::empty(p))
+    boost::throw_exception(std::invalid_argument("empty range joined"));
+
   return detail::join_ranged_impl<PromiseRange>{static_cast<PromiseRange&&>(p)};
 }
 
-- 
2.43.0


From 7486652862bfd7a576c772f06d1c8b7f5793696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 14/44] fix: a race reports the error of a void branch that
 began a transaction

The error was only taken when the branch had not been selected before it completed.
---
 include/boost/cobalt/detail/race.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 292281f..583b58b 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -225,11 +225,9 @@ struct race_variadic_impl
         {
           auto res = co_await aw;
           if (!this_.has_result())
-          {
             this_.index = Idx;
-            if (res.has_error())
-              this_.assign_error(res);
-          }
+          if (this_.index == Idx && res.has_error())
+            this_.assign_error(res);
           if constexpr(!all_void)
             if (this_.index == Idx && !res.has_error())
               this_.result.emplace(variant2::in_place_index<Idx>);
@@ -570,11 +568,9 @@ struct race_ranged_impl
         {
           auto res = co_await aw;
           if (!this_.has_result())
-          {
-            if (res.has_error())
-              this_.assign_error(res);
             this_.index = idx;
-          }
+          if (this_.index == idx && res.has_error())
+            this_.assign_error(res);
         }
         else
         {
-- 
2.43.0


From 641fb5207855eb1825a8b9ed8c2e873d0b558fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 15/44] fix: assigning to a completed promise or generator does
 not touch its released coroutine

---
 include/boost/cobalt/detail/generator.hpp | 2 +-
 include/boost/cobalt/detail/promise.hpp   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 7f3368e..4f8dc99 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -129,7 +129,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
 
   generator_receiver& operator=(generator_receiver && lhs) noexcept
   {
-    if (reference && *reference == this)
+    if (!done && reference && *reference == this)
     {
       *reference = nullptr;
     }
diff --git a/include/boost/cobalt/detail/promise.hpp b/include/boost/cobalt/detail/promise.hpp
index b8655a8..2fbe808 100644
--- a/include/boost/cobalt/detail/promise.hpp
+++ b/include/boost/cobalt/detail/promise.hpp
@@ -133,7 +133,7 @@ struct promise_receiver : promise_value_holder<T>
 
   promise_receiver& operator=(promise_receiver && lhs) noexcept
   {
-    if (reference && *reference == this)
+    if (!done && reference && *reference == this)
     {
       *reference = nullptr;
     }
@@ -151,6 +151,7 @@ struct promise_receiver : promise_value_holder<T>
       lhs.exception = moved_from_exception();
     }
 
+    lhs.done = true;
     return *this;
   }
 
-- 
2.43.0


From 5ddde427f664a8c1d720701fc4816d7fc5373337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 16/44] fix: awaiting a task that is already running waits for
 it

---
 include/boost/cobalt/detail/task.hpp | 29 ++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/detail/task.hpp b/include/boost/cobalt/detail/task.hpp
index 8dedd0b..28b5541 100644
--- a/include/boost/cobalt/detail/task.hpp
+++ b/include/boost/cobalt/detail/task.hpp
@@ -157,6 +157,7 @@ struct task_receiver : task_value_holder<T>
   struct awaitable
   {
     task_receiver * self;
+    std::exception_ptr ex;
     asio::cancellation_slot cl;
     awaitable(task_receiver * self) : self(self)
     {
@@ -179,10 +180,21 @@ struct task_receiver : task_value_holder<T>
       if (self->done) // ok, so we're actually done already, so noop
         return std::coroutine_handle<void>::from_address(h.address());
 
+      if (!ex && self->awaited_from != nullptr) // we're already being awaited, that's an error!
+        ex = already_awaited();
+
+      if (ex)
+        return std::coroutine_handle<void>::from_address(h.address());
+
       if constexpr (requires {h.promise().get_cancellation_slot();})
         if ((cl = h.promise().get_cancellation_slot()).is_connected())
           cl.emplace<forward_cancellation>(self->promise->signal);
 
+      if (self->promise->started) // a previous await got interrupted, so it's running already.
+      {
+        self->awaited_from.reset(h.address());
+        return std::noop_coroutine();
+      }
 
       if constexpr (requires {h.promise().get_executor();})
         self->promise->exec.emplace(h.promise().get_executor());
@@ -198,7 +210,8 @@ struct task_receiver : task_value_holder<T>
     {
       if (cl.is_connected())
         cl.clear();
-
+      if (ex)
+        std::rethrow_exception(ex);
       return self->get_result().value(loc);
     }
 
@@ -206,6 +219,8 @@ struct task_receiver : task_value_holder<T>
     {
       if (cl.is_connected())
         cl.clear();
+      if (ex)
+        return {system::in_place_error, std::move(ex)};
       return self->get_result();
     }
 
@@ -213,11 +228,17 @@ struct task_receiver : task_value_holder<T>
     {
       if (cl.is_connected())
         cl.clear();
-      auto res = self->get_result();
       if constexpr (std::is_void_v<T>)
-        return res.error();
+      {
+        if (ex)
+          return std::move(ex);
+        return self->get_result().error();
+      }
       else
       {
+        if (ex)
+          return std::make_tuple(std::move(ex), T{});
+        auto res = self->get_result();
         if (res.has_error())
           return std::make_tuple(res.error(), T{});
         else
@@ -230,7 +251,7 @@ struct task_receiver : task_value_holder<T>
     {
       if (!self)
         return ;
-      self->exception = detached_exception();
+      ex = detached_exception();
       if (self->awaited_from)
         self->awaited_from.release().resume();
     }
-- 
2.43.0


From ea89f8e8376d8b017ff798e712f62f06d808d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 17/44] fix: a generator await pushes in advance when it
 resumes the generator, and only then

---
 include/boost/cobalt/detail/generator.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 4f8dc99..eb55d19 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -223,10 +223,12 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       self->awaited_from.reset(h.address());
 
       std::coroutine_handle<void> res = std::noop_coroutine();
-      if (self->yield_from != nullptr)
+      // if the value was taken by `get`, an eager generator is waiting for the pushed value, too
+      const bool waiting = self->yield_from != nullptr;
+      if (waiting)
         res = self->yield_from.release();
 
-      if ((to_push.index() > 0) && !self->pushed_value && self->lazy)
+      if ((to_push.index() > 0) && !self->pushed_value && (waiting || (std::is_void_v<Push> && self->lazy)))
       {
         if constexpr (std::is_void_v<Push>)
           self->pushed_value = true;
@@ -299,7 +301,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       }
 
       // now we also want to resume the coroutine, so it starts work
-      if (self->yield_from != nullptr && !self->lazy)
+      if (self->yield_from != nullptr && !self->lazy && self->pushed_value)
       {
         auto exec = self->yield_from->get_executor();
         auto alloc = asio::get_associated_allocator(self->yield_from);
-- 
2.43.0


From 4123eb975c79bc40a19b72e3440c747f74f6a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 18/44] fix: generator::get delivers an exception only once

---
 include/boost/cobalt/detail/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index eb55d19..78ca513 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -339,7 +339,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
   void rethrow_if()
   {
     if (exception)
-      std::rethrow_exception(exception);
+      std::rethrow_exception(std::exchange(exception, nullptr)); // deliver it once
   }
 };
 
-- 
2.43.0


From 93036eb98cabfc7b96eef305c7a6e58800fa3e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 19/44] fix: with passes the resource to its teardown in the
 same way for synchronous bodies

---
 include/boost/cobalt/with.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/cobalt/with.hpp b/include/boost/cobalt/with.hpp
index bdfb21f..e3848c1 100644
--- a/include/boost/cobalt/with.hpp
+++ b/include/boost/cobalt/with.hpp
@@ -43,7 +43,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
     std::exception_ptr e;
 #if defined(BOOST_NO_EXCEPTIONS)
     co_await std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -84,7 +84,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
     std::exception_ptr e;
 #if defined(BOOST_NO_EXCEPTIONS)
     std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -97,7 +97,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
 
     try
     {
-        co_await std::move(teardown)(arg, e);
+        co_await std::move(teardown)(std::move(arg), e);
     }
     catch (...)
     {
@@ -169,7 +169,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<decltype(s
 
 #if defined(BOOST_NO_EXCEPTIONS)
     res = std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -182,7 +182,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<decltype(s
 
     try
     {
-        co_await std::move(teardown)(arg, e);
+        co_await std::move(teardown)(std::move(arg), e);
     }
     catch (...)
     {
-- 
2.43.0


From 01c238c6fb7f669f3dee6b6546d380d296a7604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 20/44] fix: destroying a suspended with destroys the coroutine
 awaiting it

---
 include/boost/cobalt/detail/with.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/with.hpp b/include/boost/cobalt/detail/with.hpp
index 433f34f..d51b864 100644
--- a/include/boost/cobalt/detail/with.hpp
+++ b/include/boost/cobalt/detail/with.hpp
@@ -7,6 +7,7 @@
 
 #include <boost/cobalt/concepts.hpp>
 #include <boost/cobalt/this_coro.hpp>
+#include <boost/cobalt/unique_handle.hpp>
 
 #include <boost/asio/cancellation_signal.hpp>
 
@@ -93,7 +94,7 @@ struct with_impl<T>::promise_type
     BOOST_COBALT_MSVC_NOINLINE
     auto await_suspend(std::coroutine_handle<promise_type> h) noexcept -> std::coroutine_handle<void>
     {
-      return std::coroutine_handle<void>::from_address(h.promise().awaited_from.address());
+      return h.promise().awaited_from.release();
     }
 
     void await_resume() noexcept
@@ -109,7 +110,7 @@ struct with_impl<T>::promise_type
   cancellation_slot_type get_cancellation_slot() const {return slot_;}
   asio::cancellation_slot slot_;
 
-  std::coroutine_handle<void> awaited_from{nullptr};
+  unique_handle<void> awaited_from{nullptr};
 
 };
 
@@ -146,7 +147,7 @@ auto with_impl<T>::await_suspend(std::coroutine_handle<Promise> h) -> std::corou
     if constexpr (requires {h.promise().get_cancellation_slot();})
         promise.slot_ = h.promise().get_cancellation_slot();
 
-    promise.awaited_from = h;
+    promise.awaited_from.reset(h.address());
     return std::coroutine_handle<promise_type>::from_promise(promise);
 }
 
-- 
2.43.0


From f22d196ff74be0b40528ce72294820249373bcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 21/44] fix: a with that never gets awaited frees its coroutine
 and resource

---
 include/boost/cobalt/detail/with.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/with.hpp b/include/boost/cobalt/detail/with.hpp
index d51b864..47e7f0a 100644
--- a/include/boost/cobalt/detail/with.hpp
+++ b/include/boost/cobalt/detail/with.hpp
@@ -27,8 +27,10 @@ struct [[nodiscard]] with_impl
     inline T await_resume();
 
   private:
-    with_impl(promise_type & promise) : promise(promise) {}
+    with_impl(promise_type & promise) : promise(promise), not_started(&promise) {}
     promise_type & promise;
+    // owns the coroutine until it's awaited
+    unique_handle<promise_type> not_started;
 };
 
 template<typename T>
@@ -148,7 +150,7 @@ auto with_impl<T>::await_suspend(std::coroutine_handle<Promise> h) -> std::corou
         promise.slot_ = h.promise().get_cancellation_slot();
 
     promise.awaited_from.reset(h.address());
-    return std::coroutine_handle<promise_type>::from_promise(promise);
+    return not_started.release();
 }
 
 }
-- 
2.43.0


From d7f480ebf88d7544ab82882799036f7c6f5a9d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 22/44] fix: wait_one removes a promise that completed with an
 exception

---
 include/boost/cobalt/detail/wait_group.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/wait_group.hpp b/include/boost/cobalt/detail/wait_group.hpp
index 56ca462..d028881 100644
--- a/include/boost/cobalt/detail/wait_group.hpp
+++ b/include/boost/cobalt/detail/wait_group.hpp
@@ -48,9 +48,19 @@ struct race_wrapper
     {
       if (waitables_.empty())
         return;
-      auto idx = impl_->await_resume();
-      if (idx != std::numeric_limits<std::size_t>::max())
-        waitables_.erase(std::next(waitables_.begin(), idx));
+      // a failed promise is completed, too & thus needs to be removed
+      struct remover
+      {
+        awaitable_type * self;
+        ~remover()
+        {
+          auto idx = self->impl_->index;
+          if (idx != std::numeric_limits<std::size_t>::max())
+            self->waitables_.erase(std::next(self->waitables_.begin(), idx));
+        }
+      };
+      remover rm{this};
+      impl_->await_resume();
     }
 
     awaitable_type(std::list<promise<void>> &waitables) : waitables_(waitables)
-- 
2.43.0


From cd3ebc6d537e394a6e35db1a916a9ebbc09be2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 23/44] fix: waiting for a wait_group keeps the promises added
 meanwhile

---
 include/boost/cobalt/detail/wait_group.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/wait_group.hpp b/include/boost/cobalt/detail/wait_group.hpp
index d028881..9bc499d 100644
--- a/include/boost/cobalt/detail/wait_group.hpp
+++ b/include/boost/cobalt/detail/wait_group.hpp
@@ -112,7 +112,8 @@ struct gather_wrapper
         return;
       BOOST_ASSERT(impl_);
       impl_->await_resume();
-      waitables_.clear();
+      // promises that were added in the meantime have not been waited for
+      waitables_.erase(waitables_.begin(), std::next(waitables_.begin(), size_));
     }
 
     awaitable_type(std::list<promise<void>> &waitables) : waitables_(waitables)
@@ -122,6 +123,7 @@ struct gather_wrapper
     }
    private:
     std::list<promise<void>> &waitables_;
+    std::size_t size_{waitables_.size()};
     std::optional<decltype(gather(waitables_).operator co_await())> impl_;
   };
 
-- 
2.43.0


From 09a3b9f39c02c7662c20192340849ce47bdc83e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 24/44] fix: an op completing while it is initiated never
 resumes its coroutine right away

---
 include/boost/cobalt/detail/handler.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 8376c6b..2b8b72f 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -30,6 +30,14 @@ enum class completed_immediately_t
   no, maybe, yes, initiating
 };
 
+// the operation is still being initiated, i.e. the awaiting coroutine must not be resumed.
+inline bool is_initiating(const completed_immediately_t * completed_immediately)
+{
+  return completed_immediately != nullptr
+     && (*completed_immediately == completed_immediately_t::initiating
+      || *completed_immediately == completed_immediately_t::maybe);
+}
+
 struct completion_handler_noop_executor
 {
   executor exec;
@@ -39,9 +47,7 @@ struct completion_handler_noop_executor
   void execute(Fn && fn) const
   {
     // only allow it when we're still initializing
-    if (completed_immediately &&
-        ((*completed_immediately == completed_immediately_t::initiating)
-      || (*completed_immediately == completed_immediately_t::maybe)))
+    if (is_initiating(completed_immediately))
     {
       // only use this indicator if the fn will actually call our completion-handler
       // otherwise this was a single op in a composed operation
@@ -257,8 +263,7 @@ struct completion_handler : detail::completion_handler_base
         result.emplace(std::move(args)...);
         BOOST_ASSERT(this->self != nullptr);
         auto p = this->self.release();
-        if (completed_immediately != nullptr
-        && *completed_immediately == detail::completed_immediately_t::maybe)
+        if (detail::is_initiating(completed_immediately))
         {
           *completed_immediately = detail::completed_immediately_t::yes;
           return;
-- 
2.43.0


From 13e12b5b4dbef1a8f7faa1f1c51aacf1ffa046f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 25/44] fix: a handler dropped while the op is initiated does
 not destroy the running coroutine

---
 include/boost/cobalt/detail/handler.hpp | 14 ++++++++------
 include/boost/cobalt/op.hpp             |  6 ++++++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 2b8b72f..4922f06 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -27,10 +27,10 @@ template<typename ... Args>
 struct composition_promise;
 enum class completed_immediately_t
 {
-  no, maybe, yes, initiating
+  no, maybe, yes, initiating, dropped
 };
 
-// the operation is still being initiated, i.e. the awaiting coroutine must not be resumed.
+// the operation is still being initiated, i.e. the awaiting coroutine must be neither resumed nor destroyed.
 inline bool is_initiating(const completed_immediately_t * completed_immediately)
 {
   return completed_immediately != nullptr
@@ -54,7 +54,7 @@ struct completion_handler_noop_executor
       *completed_immediately = completed_immediately_t::maybe;
       fn();
       // yes means completion_handler::operator() was called, so we're good.
-      if (*completed_immediately != completed_immediately_t::yes)
+      if (*completed_immediately == completed_immediately_t::maybe)
         *completed_immediately = completed_immediately_t::initiating;
     }
     else
@@ -275,10 +275,12 @@ struct completion_handler : detail::completion_handler_base
 
     ~completion_handler()
     {
-      if (self && completed_immediately
-        && *completed_immediately == detail::completed_immediately_t::initiating
-        && std::uncaught_exceptions() > 0)
+      if (self && detail::is_initiating(completed_immediately))
+      {
+        // await_suspend either reports the exception thrown or destroys the coroutine
         self.release();
+        *completed_immediately = detail::completed_immediately_t::dropped;
+      }
     }
  private:
     unique_handle<void> self;
diff --git a/include/boost/cobalt/op.hpp b/include/boost/cobalt/op.hpp
index b59f668..0a9756f 100644
--- a/include/boost/cobalt/op.hpp
+++ b/include/boost/cobalt/op.hpp
@@ -74,6 +74,12 @@ struct BOOST_SYMBOL_VISIBLE op
 #endif
         if (completed_immediately == detail::completed_immediately_t::initiating)
           completed_immediately = detail::completed_immediately_t::no;
+        if (completed_immediately == detail::completed_immediately_t::dropped)
+        {
+          // destroys this awaitable, too.
+          h.destroy();
+          return true;
+        }
         return completed_immediately != detail::completed_immediately_t::yes;
       }
       BOOST_CATCH(...)
-- 
2.43.0


From 23a53a5dcc4a491717dd5488d4535a76e1ca5424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 26/44] fix: a composition completing immediately does not use
 its destroyed frame

---
 include/boost/cobalt/composition.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 50dd688..6cf6462 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -152,13 +152,13 @@ struct composition_promise
     {
       auto exec = handler.get_executor();
       auto ho = handler.self.release();
+      auto completed_immediately = handler.completed_immediately;
+      // this destroys the handler, too
       detail::self_destroy(h, exec);
 
-      if (handler.completed_immediately != nullptr
-       && *handler.completed_immediately == completed_immediately_t::initiating)
-        //not maybe here, because we don't go through the immediate executor
+      if (is_initiating(completed_immediately))
       {
-        *handler.completed_immediately = completed_immediately_t::yes;
+        *completed_immediately = completed_immediately_t::yes;
         return std::noop_coroutine();
       }
 
-- 
2.43.0


From 50adee38c4965055cea282a4317545c8c7b49fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 27/44] fix: cancellation reaches what a composition awaits

---
 include/boost/cobalt/composition.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 6cf6462..659d5bf 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -128,7 +128,10 @@ struct composition_promise
   completion_handler<Args...> handler;
 
   template<typename ... Ts>
-  composition_promise(Ts && ... args) : handler(std::move(std::get<sizeof... (Ts) - 1>(std::tie(args...))))
+  composition_promise(Ts && ... args)
+      : promise_cancellation_base<asio::cancellation_slot, asio::enable_total_cancellation>(
+            std::get<sizeof... (Ts) - 1>(std::tie(args...)).get_cancellation_slot(), asio::enable_total_cancellation()),
+        handler(std::move(std::get<sizeof... (Ts) - 1>(std::tie(args...))))
   {
 
   }
-- 
2.43.0


From 32965e306e0c6d46abb7b5dc6ed8f1517f34ecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 28/44] fix: dropping a composition frees its frame before the
 one providing the memory

---
 include/boost/cobalt/composition.hpp | 45 ++++++++++++++++------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 659d5bf..8ca34fb 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -92,37 +92,35 @@ struct composition_promise
   using executor_type = typename handler_type::executor_type ;
   const executor & get_executor() const {return handler.get_executor();}
 
-  template<typename ... Ts>
-  static void * operator new(const std::size_t size, Ts & ... args)
+  // | memory_resource | size_t | awaiter | <padding> | coroutine.
+  struct block_header
   {
-    using tt = std::pair<resource_type *, std::size_t>;
-
-    // | memory_resource | size_t | <padding> | coroutine.
-    constexpr auto block_size =  sizeof(tt) / sizeof(std::max_align_t)
-                                 + (sizeof(tt) % sizeof(std::max_align_t) ? 1 : 0);
+    resource_type * resource;
+    std::size_t size;
+    // The coroutine to destroy after the frame got freed, because it might hold the memory.
+    void * awaiter;
+  };
 
+  constexpr static std::size_t block_size =  sizeof(block_header) / sizeof(std::max_align_t)
+                                          + (sizeof(block_header) % sizeof(std::max_align_t) ? 1 : 0);
 
+  template<typename ... Ts>
+  static void * operator new(const std::size_t size, Ts & ... args)
+  {
     auto res = std::get<sizeof... (Ts) - 1>(std::tie(args...)).get_allocator().resource();
     const auto p = res->allocate(size + (block_size * sizeof(std::max_align_t)));
-    new (p) tt(res, size);
+    new (p) block_header{res, size, nullptr};
     return static_cast<std::max_align_t*>(p) + block_size;
   }
 
   static void operator delete(void * raw) noexcept
   {
-    using tt = std::pair<resource_type *, std::size_t>;
-
-    // | memory_resource | size_t | <padding> | coroutine.
-    constexpr auto block_size =  sizeof(tt) / sizeof(std::max_align_t)
-                                 + (sizeof(tt) % sizeof(std::max_align_t) ? 1 : 0);
-
     const auto p = static_cast<std::max_align_t*>(raw) - block_size;
 
-    const auto tp = *reinterpret_cast<tt*>(p);
-    const auto res = tp.first;
-    const auto size = tp.second;
-
-    res->deallocate(p, size +  (block_size * sizeof(std::max_align_t)));
+    const auto header = *reinterpret_cast<block_header*>(p);
+    header.resource->deallocate(p, header.size +  (block_size * sizeof(std::max_align_t)));
+    if (header.awaiter)
+      std::coroutine_handle<void>::from_address(header.awaiter).destroy();
   }
 
   completion_handler<Args...> handler;
@@ -136,6 +134,15 @@ struct composition_promise
 
   }
 
+  ~composition_promise()
+  {
+    if (handler.self && !is_initiating(handler.completed_immediately))
+    {
+      auto raw = std::coroutine_handle<composition_promise>::from_promise(*this).address();
+      reinterpret_cast<block_header*>(static_cast<std::max_align_t*>(raw) - block_size)->awaiter = handler.self.release().address();
+    }
+  }
+
   void unhandled_exception() { throw ; }
   constexpr static std::suspend_never initial_suspend() {return {};}
 
-- 
2.43.0


From e9883bd4ddb9bc69ef7197c2ffa2f1b1ce9ccade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 29/44] fix: a thread completing without suspending does not
 unlock its destroyed mutex

---
 src/thread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 594ecd5..c4f6372 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -46,7 +46,10 @@ void run_thread(
         st->ctx.get_executor(),
         [st, h = std::move(h)]() mutable
         {
-          std::lock_guard<std::mutex> lock{h->mtx};
+          {
+            // wait until the coroutine is suspended; the mutex is gone when it completes.
+            std::lock_guard<std::mutex> lock{h->mtx};
+          }
           std::move(h).resume();
         });
 
-- 
2.43.0


From 9734beb037bdcb7b31af158a1b7045e0e53ea288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 30/44] fix: handlers a thread never runs do not keep its state
 alive forever

---
 include/boost/cobalt/detail/thread.hpp | 4 ++--
 include/boost/cobalt/thread.hpp        | 4 ++--
 src/thread.cpp                         | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 66e9f36..01ea750 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -150,10 +150,10 @@ struct thread_awaitable
             {
               std::lock_guard<std::mutex> lock{st->mtx};
               asio::post(st->ctx,
-                         [st, type]
+                         [s = st.get(), type] // not the shared_ptr, as it owns the context
                          {
                             BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
-                            st->signal.emit(type);
+                            s->signal.emit(type);
                          });
             });
 
diff --git a/include/boost/cobalt/thread.hpp b/include/boost/cobalt/thread.hpp
index 5145758..2b549a4 100644
--- a/include/boost/cobalt/thread.hpp
+++ b/include/boost/cobalt/thread.hpp
@@ -83,8 +83,8 @@ inline
 void thread::cancel(asio::cancellation_type type)
 {
   if (auto st = state_)
-    asio::post(state_->ctx,
-               [s= state_, type]
+    asio::post(st->ctx,
+               [s = st.get(), type] // not the shared_ptr, as it owns the context
                {
                  BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
                  s->signal.emit(type);
diff --git a/src/thread.cpp b/src/thread.cpp
index c4f6372..bb25f5a 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -44,7 +44,7 @@ void run_thread(
 
     asio::post(
         st->ctx.get_executor(),
-        [st, h = std::move(h)]() mutable
+        [h = std::move(h)]() mutable // not the state, as it owns the context
         {
           {
             // wait until the coroutine is suspended; the mutex is gone when it completes.
-- 
2.43.0


From 631c21e81738286db6a45c338ac37cdc55c52745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 31/44] fix: awaiting a finished thread as_tuple does not
 access an empty result

---
 include/boost/cobalt/detail/thread.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 01ea750..162cfe8 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -196,7 +196,9 @@ struct thread_awaitable
     if (thread_)
       thread_->join();
 
-    return std::get<0>(*res);
+    if (!res) // await_ready
+      return std::make_tuple(std::exception_ptr());
+    return *res;
   }
 
   explicit thread_awaitable(std::shared_ptr<detail::thread_state> state)
-- 
2.43.0


From 42de505bd46ee1e9c599447c2b5845ec13f64828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 32/44] fix: a thread being awaited is joined if its awaiter
 gets destroyed or the await throws

---
 include/boost/cobalt/detail/thread.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 162cfe8..918c981 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -207,6 +207,17 @@ struct thread_awaitable
   explicit thread_awaitable(std::thread thread,
                             std::shared_ptr<detail::thread_state> state)
       : thread_(std::move(thread)), state_(std::move(state)) {}
+
+  thread_awaitable(thread_awaitable &&) noexcept = default;
+  ~thread_awaitable()
+  {
+    if (thread_ && thread_->joinable()) // same as the destructor of the thread
+    {
+      if (state_)
+        state_->ctx.stop();
+      thread_->join();
+    }
+  }
  private:
   std::optional<std::thread> thread_;
   std::shared_ptr<detail::thread_state> state_;
-- 
2.43.0


From f5f0d393c7d6ce6c86a242b74ee47f3d5ba8a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 33/44] fix: what a stopped thread leaves in its context does
 not outlive its memory & signal

---
 include/boost/cobalt/detail/thread.hpp |  6 +++++-
 src/thread.cpp                         | 11 +++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 918c981..e18c9a2 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -44,8 +44,12 @@ struct signal_helper_2
 
 struct thread_state
 {
-  asio::io_context ctx{1u};
+  // everything pending in the context may use the resource & the signal, so they need to outlive it.
+#if !defined(BOOST_COBALT_NO_PMR)
+  pmr::unsynchronized_pool_resource resource;
+#endif
   asio::cancellation_signal signal;
+  asio::io_context ctx{1u};
   std::mutex mtx;
   std::optional<completion_handler<std::exception_ptr>> waitor;
   std::atomic<bool> done = false;
diff --git a/src/thread.cpp b/src/thread.cpp
index bb25f5a..931a4b5 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -30,14 +30,14 @@ void run_thread(
     unique_handle<thread_promise> h)
 {
 
+  {
+    auto st = std::move(st_);
+
 #if !defined(BOOST_COBALT_NO_PMR)
-  pmr::unsynchronized_pool_resource resource;
-  boost::cobalt::this_thread::set_default_resource(&resource);
-  h->resource = &resource;
+    boost::cobalt::this_thread::set_default_resource(&st->resource);
+    h->resource = &st->resource;
 #endif
 
-  {
-    auto st = std::move(st_);
     h->reset_cancellation_source(st->signal.slot());
     h->set_executor(st->ctx.get_executor());
     boost::cobalt::this_thread::set_executor(st->ctx.get_executor());
@@ -66,7 +66,6 @@ void run_thread(
     BOOST_CATCH_END
 
     st->done = true;
-    st->signal.slot().clear();
     std::lock_guard<std::mutex> lock(st->mtx);
     if (!st->waitor && ep) // nobodies waiting, so unhandled exception
       std::rethrow_exception(ep);
-- 
2.43.0


From 312b4675dbc3b31f8f008ce75df67f25851e1c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 34/44] fix: a thread that ends with an exception frees its
 coroutine

---
 include/boost/cobalt/detail/thread.hpp | 9 ++++++++-
 src/thread.cpp                         | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index e18c9a2..dd23999 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -87,9 +87,16 @@ struct thread_promise : signal_helper_2,
   }
 
 #if !defined(BOOST_NO_EXCEPTIONS)
-  void unhandled_exception() { throw; }
+  void unhandled_exception()
+  {
+    // the exception leaves through the context, so the coroutine doesn't destroy itself
+    if (failed)
+      failed->reset(this);
+    throw;
+  }
 #endif
   void return_void() { }
+  unique_handle<thread_promise> * failed = nullptr;
 
   using executor_type = typename cobalt::executor;
   const executor_type & get_executor() const {return *exec_;}
diff --git a/src/thread.cpp b/src/thread.cpp
index 931a4b5..c86c57d 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -38,6 +38,8 @@ void run_thread(
     h->resource = &st->resource;
 #endif
 
+    unique_handle<thread_promise> failed;
+    h->failed = &failed;
     h->reset_cancellation_source(st->signal.slot());
     h->set_executor(st->ctx.get_executor());
     boost::cobalt::this_thread::set_executor(st->ctx.get_executor());
@@ -64,6 +66,7 @@ void run_thread(
       ep = std::current_exception();
     }
     BOOST_CATCH_END
+    failed.reset();
 
     st->done = true;
     std::lock_guard<std::mutex> lock(st->mtx);
-- 
2.43.0


From ccbe258d956e35ac1ad17b235000c922311bf261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 35/44] fix: write_at accepts streams that write at an offset

---
 include/boost/cobalt/io/write.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/write.hpp b/include/boost/cobalt/io/write.hpp
index cccd0b6..bfc2543 100644
--- a/include/boost/cobalt/io/write.hpp
+++ b/include/boost/cobalt/io/write.hpp
@@ -48,7 +48,7 @@ struct BOOST_COBALT_IO_DECL write_all_at  final : op<system::error_code, std::si
 template<typename Stream>
 requires requires (Stream & str, std::uint64_t offset, const_buffer_sequence buffer)
 {
-  {str.write_some_at(offset, buffer)} -> std::same_as<write_op>;
+  {str.write_some_at(offset, buffer)} -> std::same_as<write_at_op>;
 }
 [[nodiscard]] BOOST_COBALT_MSVC_NOINLINE
 write_all_at write_at(Stream & str, std::uint64_t offset, const_buffer_sequence buffer)
-- 
2.43.0


From daafe5273f20288cf00a05ea395e34f524957c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:18 +0000
Subject: [PATCH 36/44] fix: receive of a seq_packet_socket does not ignore its
 flags

---
 include/boost/cobalt/io/seq_packet_socket.hpp |  1 +
 src/io/seq_packet_socket.cpp                  | 19 +++++++------------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/boost/cobalt/io/seq_packet_socket.hpp b/include/boost/cobalt/io/seq_packet_socket.hpp
index 84eb9dd..4cf4ae8 100644
--- a/include/boost/cobalt/io/seq_packet_socket.hpp
+++ b/include/boost/cobalt/io/seq_packet_socket.hpp
@@ -55,6 +55,7 @@ struct BOOST_SYMBOL_VISIBLE seq_packet_socket final : socket
     ~receive_op() = default;
    private:
     asio::basic_seq_packet_socket<protocol_type, executor> & socket_;
+    message_flags ignored_flags_{0};
   };
 
   [[nodiscard]] receive_op receive(message_flags in_flags, message_flags& out_flags, mutable_buffer_sequence buffer)
diff --git a/src/io/seq_packet_socket.cpp b/src/io/seq_packet_socket.cpp
index ef89de0..2d63b98 100644
--- a/src/io/seq_packet_socket.cpp
+++ b/src/io/seq_packet_socket.cpp
@@ -51,18 +51,13 @@ void seq_packet_socket::adopt_endpoint_(endpoint & ep)
 
 void seq_packet_socket::receive_op::initiate(boost::cobalt::completion_handler<system::error_code, std::size_t> handler)
 {
-  if (out_flags != nullptr)
-    visit(buffer,
-          [&](auto buf)
-          {
-            socket_.async_receive(buf, in_flags, *out_flags, std::move(handler));
-          });
-  else
-    visit(buffer,
-          [&](auto buf)
-          {
-            socket_.async_receive(buf, in_flags, std::move(handler));
-          });
+  // asio has no overload that takes the in_flags only
+  message_flags & out = out_flags != nullptr ? *out_flags : ignored_flags_;
+  visit(buffer,
+        [&](auto buf)
+        {
+          socket_.async_receive(buf, in_flags, out, std::move(handler));
+        });
 }
 
 void seq_packet_socket::send_op::initiate(boost::cobalt::completion_handler<system::error_code, std::size_t> handler)
-- 
2.43.0


From 6ba69a3928b738dea8b572f333a4a439c3baf8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:37 +0000
Subject: [PATCH 37/44] fix: a stream_socket made of a handle without a
 protocol recognizes the end of the stream

---
 src/io/stream_socket.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/stream_socket.cpp b/src/io/stream_socket.cpp
index 1f35309..45c5ab6 100644
--- a/src/io/stream_socket.cpp
+++ b/src/io/stream_socket.cpp
@@ -15,8 +15,14 @@ stream_socket::stream_socket(const cobalt::executor & exec)
 {
 }
 
+// without its type asio does not recognize the end of the stream
+static protocol_type with_type(protocol_type protocol)
+{
+  return protocol.type() != 0 ? protocol : protocol_type(protocol.family(), BOOST_ASIO_OS_DEF(SOCK_STREAM), protocol.protocol());
+}
+
 stream_socket::stream_socket(native_handle_type h, protocol_type protocol, const cobalt::executor & exec)
-    : socket(stream_socket_), stream_socket_(exec, protocol, h)
+    : socket(stream_socket_), stream_socket_(exec, with_type(protocol), h)
 {
 }
 
-- 
2.43.0


From cd93e13089f110b7be3b55a1b0c057480e4cd4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:37 +0000
Subject: [PATCH 38/44] fix: pipe reports a failure instead of throwing it

---
 src/io/pipe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/pipe.cpp b/src/io/pipe.cpp
index dbd43f9..f0b43bf 100644
--- a/src/io/pipe.cpp
+++ b/src/io/pipe.cpp
@@ -130,7 +130,7 @@ system::result<std::pair<readable_pipe, writable_pipe>> pipe(const cobalt::execu
   readable_pipe r{executor};
   writable_pipe w{executor};
   system::error_code ec;
-  asio::connect_pipe(r.implementation_, w.implementation_);
+  asio::connect_pipe(r.implementation_, w.implementation_, ec);
   if (ec)
     return ec;
   else
-- 
2.43.0


From 0f15274d876ce9a723db71115da0b629061e06c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:19 +0000
Subject: [PATCH 39/44] fix: random_access_file reads and writes at the offset
 given

---
 src/io/random_access_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/random_access_file.cpp b/src/io/random_access_file.cpp
index 1f8c132..d49c29a 100644
--- a/src/io/random_access_file.cpp
+++ b/src/io/random_access_file.cpp
@@ -82,7 +82,7 @@ void initiate_async_read_some_at_helper(boost::asio::posix::basic_stream_descrip
                                         completion_handler<system::error_code, std::size_t> handler)
 {
 
-  if (lseek(str.native_handle(), SEEK_SET, offset) < 0)
+  if (::lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
@@ -95,7 +95,7 @@ void initiate_async_write_some_at_helper(boost::asio::posix::basic_stream_descri
                                         std::uint64_t offset, const_buffer_sequence seq,
                                         completion_handler<system::error_code, std::size_t> handler)
 {
-  if (lseek(str.native_handle(), SEEK_SET, offset) < 0)
+  if (::lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
-- 
2.43.0


From 241bad99faf7a8f1c5bcb96eaecee26571611260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:19 +0000
Subject: [PATCH 40/44] fix: seek of a stream_file returns the new position

---
 src/io/stream_file.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/io/stream_file.cpp b/src/io/stream_file.cpp
index 5fbd111..113cb3a 100644
--- a/src/io/stream_file.cpp
+++ b/src/io/stream_file.cpp
@@ -43,7 +43,7 @@ stream_file::stream_file(stream_file && sf) noexcept = default;
 system::result<std::uint64_t> stream_file::seek(std::int64_t offset, seek_basis whence)
 {
   system::error_code ec;
-  auto n = implementation_.seek(offset, whence);
+  auto n = implementation_.seek(offset, whence, ec);
   return ec ? ec : system::result<std::uint64_t>{n};
 }
 
@@ -104,10 +104,11 @@ stream_file::stream_file(stream_file && sf) noexcept = default;
 
 system::result<std::uint64_t> stream_file::seek(std::int64_t offset, seek_basis whence)
 {
-  if (::lseek(native_handle(), offset, whence) < 0)
+  const auto n = ::lseek(native_handle(), offset, whence);
+  if (n < 0)
     COBALT_RETURN_ERROR();
 
-  return {};
+  return static_cast<std::uint64_t>(n);
 }
 
 void stream_file::initiate_read_some_(void * this_, mutable_buffer_sequence buffer, boost::cobalt::completion_handler<system::error_code, std::size_t> handler)
-- 
2.43.0


From 203c6c679deb7b1e8b1325bf813342b1f731d8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:46 +0000
Subject: [PATCH 41/44] fix: random_access_device.hpp has an include guard of
 its own

---
 include/boost/cobalt/io/random_access_device.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/io/random_access_device.hpp b/include/boost/cobalt/io/random_access_device.hpp
index ec605b5..46fbf62 100644
--- a/include/boost/cobalt/io/random_access_device.hpp
+++ b/include/boost/cobalt/io/random_access_device.hpp
@@ -5,8 +5,8 @@
 // file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 //
 
-#ifndef BOOST_COBALT_IO_STREAM_HPP
-#define BOOST_COBALT_IO_STREAM_HPP
+#ifndef BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
+#define BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
 
 #include <boost/cobalt/io/buffer.hpp>
 #include <boost/cobalt/io/ops.hpp>
@@ -34,4 +34,4 @@ struct random_access_device : random_access_read_device, random_access_write_dev
 
 }
 
-#endif //BOOST_COBALT_IO_STREAM_HPP
+#endif //BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
-- 
2.43.0


From 8b5df80b58cb2fedeb8266f4306c1393af2cf13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:46 +0000
Subject: [PATCH 42/44] fix: opening a file that is open fails before it does
 anything, and leaks no descriptor

---
 src/io/file.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/file.cpp b/src/io/file.cpp
index 6d7bf11..e48b0d2 100644
--- a/src/io/file.cpp
+++ b/src/io/file.cpp
@@ -126,11 +126,15 @@ auto file::native_handle() -> native_handle_type {return file_.native_handle();}
 
 result<void> file::open(const char * path, flags open_flags)
 {
+  boost::system::error_code ec;
+  if (file_.is_open())
+    return ec = asio::error::already_open;
   int r = ::open(path, static_cast<int>(open_flags), 0777);
   if (r == -1)
     COBALT_RETURN_ERROR();
-  boost::system::error_code ec;
   file_.assign(r, ec);
+  if (ec)
+    ::close(r);
   return ec ? ec : result<void>{};
 }
 
-- 
2.43.0


From f8795556057e87f7ec24f9ec3997897069251b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:47 +0000
Subject: [PATCH 43/44] fix: cancel of a file cancels its operations

---
 src/io/file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/file.cpp b/src/io/file.cpp
index e48b0d2..acfcce4 100644
--- a/src/io/file.cpp
+++ b/src/io/file.cpp
@@ -107,7 +107,9 @@ result<void> file::assign(const native_handle_type & native_file)
 }
 result<void> file::cancel()
 {
-  return result<void>{};
+  boost::system::error_code ec;
+  file_.cancel(ec);
+  return ec ? ec : result<void>{};
 }
 
 executor file::get_executor() { return file_.get_executor();}
-- 
2.43.0


From e21eaccc80c1f57bee9bc127fb2f0cc3d903f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:02 +0000
Subject: [PATCH 44/44] fix: sleeping for a duration beyond the end of the
 clock does not return at once

---
 src/io/sleep.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/io/sleep.cpp b/src/io/sleep.cpp
index e0110c2..9b8a148 100644
--- a/src/io/sleep.cpp
+++ b/src/io/sleep.cpp
@@ -10,11 +10,19 @@
 namespace boost::cobalt::detail::io
 {
 
+// a duration that goes beyond the last point in time ends there
+template<typename Clock>
+static typename Clock::time_point from_now(const typename Clock::duration & du)
+{
+  const auto now = Clock::now();
+  return du > Clock::time_point::max() - now ? Clock::time_point::max() : now + du;
+}
+
 steady_sleep::steady_sleep(const std::chrono::steady_clock::time_point & tp) : tp{tp} {}
-steady_sleep::steady_sleep(const std::chrono::steady_clock::duration & du)   : tp{std::chrono::steady_clock::now() + du} {}
+steady_sleep::steady_sleep(const std::chrono::steady_clock::duration & du)   : tp{from_now<std::chrono::steady_clock>(du)} {}
 
 system_sleep::system_sleep(const std::chrono::system_clock::time_point & tp) : tp{tp} {}
-system_sleep::system_sleep(const std::chrono::system_clock::duration & du)   : tp{std::chrono::system_clock::now() + du} {}
+system_sleep::system_sleep(const std::chrono::system_clock::duration & du)   : tp{from_now<std::chrono::system_clock>(du)} {}
 
 
 void steady_sleep::initiate(completion_handler<system::error_code> h)
-- 
2.43.0

