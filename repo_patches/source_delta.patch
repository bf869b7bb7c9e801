From 01d220560760019012e7cee5ccdd04e955401e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 01/32] fix: barrier is not touched after its count reached
 zero without a waiter

decrement() read m_continuation after the count had reached zero. A waiter that
saw the zero may already have destroyed the barrier (use after free), or reused
it and registered as the waiter of the next round, which was then resumed early.
---
 macoro/barrier.h | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/macoro/barrier.h b/macoro/barrier.h
index 2698b5d..a71aeeb 100644
--- a/macoro/barrier.h
+++ b/macoro/barrier.h
@@ -65,20 +65,23 @@ namespace macoro
 		// the coro that is awaiting the barrier
 		coroutine_handle<> m_continuation;
 
-		// the current count, once it decrements to 0, 
-		// m_continuation is called if set.
+		// twice the current count, plus one if m_continuation is
+		// waiting. The party that takes the count to 0 while the 
+		// waiting bit is set resumes m_continuation. Nobody touches 
+		// the barrier after taking the count to 0 otherwise, a waiter 
+		// that sees the 0 is free to destroy or reuse the barrier.
 		std::atomic<std::size_t> m_count;
 	public:
 
 		// construct a new barrier with the given initial value.
 		explicit barrier(std::size_t initial_count = 0) noexcept
-			: m_count(initial_count)
+			: m_count(2 * initial_count)
 		{}
 
 		// increament the count by amount and return the new count.
 		std::size_t add(size_t amount) noexcept
 		{
-			auto old = m_count.fetch_add(amount, std::memory_order_relaxed);
+			auto old = m_count.fetch_add(2 * amount, std::memory_order_relaxed) / 2;
 			auto ret = old + amount;
 			assert(ret >= old);
 			return ret;
@@ -93,21 +96,24 @@ namespace macoro
 		// returns the current count.
 		std::size_t count() const noexcept 
 		{
-			return m_count.load(std::memory_order_acquire);
+			return m_count.load(std::memory_order_acquire) / 2;
 		}
 
 		// decrease the count by 1. Returns the new count.
 		std::size_t decrement() noexcept
 		{
-			const std::size_t old_count = m_count.fetch_sub(1, std::memory_order_acq_rel);
+			const std::size_t old = m_count.fetch_sub(2, std::memory_order_acq_rel);
 
-			assert(old_count);
+			assert(old / 2);
 
-			if (old_count == 1 && m_continuation)
+			if (old == 3)
 			{
-				std::exchange(m_continuation, nullptr).resume();
+				// count 0 and a waiter, which keeps the barrier alive.
+				auto continuation = std::exchange(m_continuation, nullptr);
+				m_count.fetch_sub(1, std::memory_order_relaxed);
+				continuation.resume();
 			}
-			return old_count - 1;
+			return old / 2 - 1;
 		}
 		
 		// suspend until the count reached zero. Only
@@ -130,9 +136,20 @@ namespace macoro
 		{
 			set_parent(get_traceable(continuation), loc);
 			assert(m_barrier.m_continuation == nullptr);
-			m_barrier.m_continuation = std::exchange(ret, noop_coroutine());
+			m_barrier.m_continuation = ret;
+
+			// drop our own count and set the waiting bit. Once done,
+			// we may be resumed & destroyed by another thread.
+			auto& b = m_barrier;
+			if (b.m_count.fetch_sub(1, std::memory_order_acq_rel) != 2)
+				return noop_coroutine();
+
+			// everyone else is done already.
+			b.m_continuation = nullptr;
+			b.m_count.fetch_sub(1, std::memory_order_relaxed);
 		}
-		m_barrier.decrement();
+		else
+			m_barrier.decrement();
 
 		return ret;
 	}
-- 
2.43.0


From ef98e6cecd1e3b8353b1aece06861104c1123149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 02/32] fix: result::value() const returns the value instead of
 recursing without end

---
 macoro/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/result.h b/macoro/result.h
index 8afac5f..9d28b0c 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -327,7 +327,7 @@ namespace macoro
 			if (has_error())
 				result_rethrow(error());
 
-			return value();
+			return MACORO_VARIANT_NAMESPACE::get<0>(var());
 		}
 
 		const value_type& operator*() const { return value(); }
-- 
2.43.0


From 44d2b9d433682e221a86d0f488db14aa2d424e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 03/32] fix: Ok and Err copy from an lvalue instead of moving
 out of it

---
 macoro/result.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index 9d28b0c..f2608e8 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -19,7 +19,7 @@ namespace macoro
 		struct OkTag {
 			const T& mV;
 
-			OkTag(T& e)
+			OkTag(const T& e)
 				:mV(e)
 			{}
 
@@ -53,7 +53,7 @@ namespace macoro
 		struct ErrorTag {
 			const E& mE;
 
-			ErrorTag(E& e)
+			ErrorTag(const E& e)
 				:mE(e)
 			{}
 
@@ -101,7 +101,7 @@ namespace macoro
 	}
 
 	template<typename T>
-	detail::ErrorMvTag<remove_cvref_t<T>> Err(T&& t)
+	enable_if_t<!std::is_lvalue_reference<T>::value, detail::ErrorMvTag<remove_cvref_t<T>>> Err(T&& t)
 	{
 		return detail::ErrorMvTag<remove_cvref_t<T>>(t);
 	}
@@ -119,7 +119,7 @@ namespace macoro
 	}
 
 	template<typename T>
-	detail::OkMvTag<remove_cvref_t<T>> Ok(T&& t)
+	enable_if_t<!std::is_lvalue_reference<T>::value, detail::OkMvTag<remove_cvref_t<T>>> Ok(T&& t)
 	{
 		return detail::OkMvTag<remove_cvref_t<T>>(t);
 	}
-- 
2.43.0


From 256385d326676015ef8ee8476e234be27b33b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 04/32] fix: result::operator!= compiles (it passed an lvalue
 to operator==(&&))

---
 macoro/result.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index f2608e8..2d92510 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -445,24 +445,24 @@ namespace macoro
 		template<typename T2>
 		bool operator!=(detail::OkTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename T2>
 		bool operator!=(detail::OkMvTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 
@@ -600,12 +600,12 @@ namespace macoro
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		detail::result_awaiter<void, Error> MACORO_OPERATOR_COAWAIT()
-- 
2.43.0


From 954d1212cfd7d9b07eab449e9b66a909364a18c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 05/32] fix: sequence_range::skip is well-formed for sequence
 types narrower than int

---
 macoro/sequence_range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_range.h b/macoro/sequence_range.h
index 8b4fd5e..b6eb583 100644
--- a/macoro/sequence_range.h
+++ b/macoro/sequence_range.h
@@ -92,7 +92,7 @@ namespace macoro
 
 		constexpr sequence_range skip(size_type count) const noexcept
 		{
-			return sequence_range{ m_begin + std::min(size(), count), m_end };
+			return sequence_range{ static_cast<SEQUENCE>(m_begin + std::min(size(), count)), m_end };
 		}
 
 	private:
-- 
2.43.0


From ce5260d134b147987f339ec977e95adb6c99741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 06/32] fix: eager_task readiness does not read the coroutine
 frame while another thread finishes it

---
 macoro/task.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/macoro/task.h b/macoro/task.h
index b553067..ea62c9b 100644
--- a/macoro/task.h
+++ b/macoro/task.h
@@ -154,10 +154,10 @@ namespace macoro
 				{
 					auto& promise = coro.promise();
 					// release our result. acquire their continuation (if they beat us).
-					auto b = promise.has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
+					auto b = promise.m_state.fetch_or(completed, std::memory_order_acq_rel);
 
 					// if b, then we have finished after the continuation was set. 
-					if (b)
+					if (b & has_continuation)
 					{
 						assert(promise.m_continuation);
 						return promise.m_continuation;
@@ -171,7 +171,7 @@ namespace macoro
 		public:
 
 			task_promise_base() noexcept
-				: has_completed_or_continutation(false)
+				: m_state(0)
 			{
 				//std::cout << "eager" << std::endl;
 			}
@@ -200,11 +200,20 @@ namespace macoro
 			{
 				assert(!m_continuation);
 				m_continuation = continuation;
-				return has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
+				return (m_state.fetch_or(has_continuation, std::memory_order_acq_rel) & completed) != 0;
+			}
+
+			// true once the final suspend point was reached and the result can be read. Unlike
+			// coroutine_handle::done(), this can be called while the coroutine is still running.
+			bool is_completed() const noexcept
+			{
+				return (m_state.load(std::memory_order_acquire) & completed) != 0;
 			}
 
 		private:
-			std::atomic<bool> has_completed_or_continutation;
+			static constexpr std::uint8_t has_continuation = 1;
+			static constexpr std::uint8_t completed = 2;
+			std::atomic<std::uint8_t> m_state;
 			
 			coroutine_handle<> m_continuation;
 		};
@@ -477,7 +486,7 @@ namespace macoro
 
 			bool await_ready() const noexcept
 			{
-				return !m_coroutine || m_coroutine.done();
+				return !m_coroutine || m_coroutine.promise().is_completed();
 			}
 
 #ifdef MACORO_CPP_20
@@ -584,7 +593,10 @@ namespace macoro
 		/// Awaiting a task that is ready is guaranteed not to block/suspend.
 		bool is_ready() const noexcept
 		{
-			return m_coroutine && m_coroutine.done();
+			if constexpr (lazy)
+				return m_coroutine && m_coroutine.done();
+			else
+				return m_coroutine && m_coroutine.promise().is_completed();
 		}
 
 		struct ref_awaitable : detail::task_awaitable_base<T,lazy>
-- 
2.43.0


From f7101287a744ab362e2d88d89ffaaa2a72054b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 07/32] fix: awaiting a when_all_ready group as an lvalue
 compiles and keeps its trace parent

---
 macoro/detail/when_all_awaitable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/detail/when_all_awaitable.h b/macoro/detail/when_all_awaitable.h
index cac1a29..511bb67 100644
--- a/macoro/detail/when_all_awaitable.h
+++ b/macoro/detail/when_all_awaitable.h
@@ -131,14 +131,14 @@ namespace macoro
 				bool await_suspend(std::coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return await_suspend(coroutine_handle<>(awaitingCoroutine), loc);
+					return m_awaitable.try_await(coroutine_handle<>(awaitingCoroutine));
 				}
 #endif
 				template<typename Promise>
 				bool await_suspend(coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return m_awaitable.try_await(awaitingCoroutine, loc);
+					return m_awaitable.try_await(awaitingCoroutine);
 				}
 
 				TASK_CONTAINER& await_resume() noexcept
-- 
2.43.0


From 06eecd42e69aa8f4d9d1eeebc3d92fab64e497d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 08/32] fix: move-assigning a blocking_task to itself keeps its
 coroutine

---
 macoro/sync_wait.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/macoro/sync_wait.h b/macoro/sync_wait.h
index 2c48cbf..4370dfd 100644
--- a/macoro/sync_wait.h
+++ b/macoro/sync_wait.h
@@ -155,8 +155,12 @@ namespace macoro
 			: m_handle(std::exchange(other.m_handle, nullptr))
 		{}
 		blocking_task& operator=(blocking_task&& h) {
-			this->~blocking_task();
-			m_handle = std::exchange(h.m_handle, std::nullptr_t{});
+			if (this != &h)
+			{
+				if (m_handle)
+					m_handle.destroy();
+				m_handle = std::exchange(h.m_handle, std::nullptr_t{});
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 102357ad9a77f5615673b4ca984f04cfed520eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 09/32] fix: sequence_spsc counts the available slots correctly
 for narrow sequence types

---
 macoro/sequence_spsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_spsc.h b/macoro/sequence_spsc.h
index e282cf6..608f545 100644
--- a/macoro/sequence_spsc.h
+++ b/macoro/sequence_spsc.h
@@ -242,7 +242,7 @@ namespace macoro
 			const SEQUENCE lastAvailableSequence =
 				static_cast<SEQUENCE>(m_consumerWaitOperation.await_resume() + m_sequencer.m_bufferSize);
 			const SEQUENCE begin = m_sequencer.m_nextToClaim;
-			const std::size_t availableCount = static_cast<std::size_t>(lastAvailableSequence - begin) + 1;
+			const std::size_t availableCount = static_cast<std::size_t>(TRAITS::difference(lastAvailableSequence, begin)) + 1;
 			const std::size_t countToClaim = std::min(m_count, availableCount);
 			const SEQUENCE end = static_cast<SEQUENCE>(begin + countToClaim);
 			m_sequencer.m_nextToClaim = end;
-- 
2.43.0


From 811d29571d31cc0ac78c33a2f9f4662d6b08d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 10/32] fix: sequence_mpsc any_available is true exactly when a
 slot can be claimed

---
 macoro/sequence_mpsc.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 4833646..4e31414 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -453,9 +453,9 @@ namespace macoro
 	template<typename SEQUENCE, typename TRAITS>
 	bool sequence_mpsc<SEQUENCE, TRAITS>::any_available() const noexcept
 	{
-		return TRAITS::precedes(
-			m_nextToClaim.load(std::memory_order_relaxed),
-			m_consumerBarrier.last_published() + buffer_size());
+		return !TRAITS::precedes(
+			static_cast<SEQUENCE>(m_consumerBarrier.last_published() + buffer_size()),
+			m_nextToClaim.load(std::memory_order_relaxed));
 	}
 
 	template<typename SEQUENCE, typename TRAITS>
-- 
2.43.0


From ac48d952feb247819231c1a4b7f3582cf479ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 11/32] fix: sequence_mpsc compares the published number in the
 sequence type when re-checking a waiter

---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 4e31414..f7c6be1 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -669,7 +669,7 @@ namespace macoro
 			//
 			// TODO: Check whether we can weaken the memory order here to just use 'seq_cst' on the
 			// first .load() and then use 'acquire' on subsequent .load().
-			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == (lastKnownPublished + 1))
+			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == static_cast<SEQUENCE>(lastKnownPublished + 1))
 			{
 				++lastKnownPublished;
 			}
-- 
2.43.0


From 7f94757cb114c4ee09d4e36c00d69bad7fa18e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 12/32] fix: sequence_mpsc resumes each waiter by its own
 target

---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index f7c6be1..638f798 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -686,7 +686,7 @@ namespace macoro
 
 				while (awaiters != nullptr)
 				{
-					diff_t diff = TRAITS::difference(targetSequence, lastKnownPublished);
+					diff_t diff = TRAITS::difference(awaiters->m_targetSequence, lastKnownPublished);
 					if (diff > 0)
 					{
 						// Not yet ready.
-- 
2.43.0


From 7dacfe1172d10383489ac2dbf6d24afa28124c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 13/32] fix: channel checks its capacity before it builds the
 sequencer from it

---
 macoro/channel.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/macoro/channel.h b/macoro/channel.h
index 598efa3..ea7d6d9 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -35,6 +35,14 @@ namespace macoro
         std::size_t mIndexMask = 0, mFrontIndex = 0, mLastKnown = sequence_traits<std::size_t>::initial_sequence;
         std::vector<optional<T>> mData;
 
+        static std::size_t check_capacity(std::size_t capacity)
+        {
+            auto powOf2 = (capacity > 0 && (capacity & (capacity - 1)) == 0);
+            if (!powOf2)
+                throw std::runtime_error("capacity must be a power of 2");
+            return capacity;
+        }
+
         class wrapper_base
         {
         protected:
@@ -155,12 +163,9 @@ namespace macoro
         // Initialize the channel with an internal max storage of capacity.
         // capacity must be a power of two.
         channel(std::size_t capacity)
-            : mSequence(mBarrier, capacity)
+            : mSequence(mBarrier, check_capacity(capacity))
             , mData(capacity)
         {
-            auto powOf2 = (capacity > 0 && (capacity & (capacity - 1)) == 0);
-            if (!powOf2)
-                throw std::runtime_error("capacity must be a power of 2");
             mIndexMask = capacity - 1;
         }
 
-- 
2.43.0


From b278a576bd21996690a42eb8b8c7c5f526f872e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 14/32] fix: channel pop after close reports that the channel
 is closed

---
 macoro/channel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macoro/channel.h b/macoro/channel.h
index ea7d6d9..5844b1e 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -329,6 +329,8 @@ namespace macoro
                 pop_wrapper await_resume() {
                     this->mChl->mLastKnown = this->mInner.await_resume();
                     assert(this->mChl->mLastKnown >= this->mChl->mFrontIndex);
+                    if (!this->mChl->mData[this->mChl->mFrontIndex & this->mChl->mIndexMask])
+                        throw channel_closed_exception{};
                     return pop_wrapper(this->mChl, this->mChl->mFrontIndex);
                 }
             };
-- 
2.43.0


From 76fa2d58c73b354b0b6228b39f487f5ca3c53f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 15/32] fix: awaiting a stop_token does not touch the coroutine
 frame after it may have resumed

---
 macoro/stop.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/macoro/stop.h b/macoro/stop.h
index e603d6e..bd78233 100644
--- a/macoro/stop.h
+++ b/macoro/stop.h
@@ -1,6 +1,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <optional>
 #include "macoro/coroutine_handle.h"
@@ -34,6 +35,8 @@ namespace macoro
 		stop_awaiter(stop_awaiter&&) = delete;
 
 		stop_token mtoken;
+		// set by the callback or by await_suspend, whichever is done first.
+		std::atomic<bool> mOtherDone{ false };
 		optional_stop_callback mReg;
 		bool await_ready() { return false; }
 
@@ -45,11 +48,16 @@ namespace macoro
 		{
 			if (mtoken.stop_possible() && !mtoken.stop_requested())
 			{
-				mReg.emplace(mtoken, [h] {
-					h.resume();
+				// the callback can run before emplace() returns, either inline or on the
+				// thread that requests the stop. Whoever comes last resumes h so that
+				// this object is not destroyed while it is still being used here.
+				mReg.emplace(mtoken, [this, h] {
+					if (mOtherDone.exchange(true, std::memory_order_acq_rel))
+						h.resume();
 					});
 
-				return noop_coroutine();
+				if (!mOtherDone.exchange(true, std::memory_order_acq_rel))
+					return noop_coroutine();
 			}
 			return h;
 		}
-- 
2.43.0


From 5423cbac3290e5d7ae6f47088e9bde638a9bbe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 16/32] fix: joining an async_scope reports exceptions thrown
 after the join began

---
 macoro/async_scope.h    | 19 +++++++++++++++----
 macoro/when_all_scope.h |  2 +-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index ebb5732..996540b 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -189,7 +189,10 @@ namespace macoro
 		struct join_awaiter
 		{
 			barrier_awaiter m_barrier;
-			std::vector<std::exception_ptr> m_exceptions;
+
+			// the scope whose exceptions are reported. They are only
+			// collected once all tasks have completed.
+			async_scope* m_scope = nullptr;
 
 			bool await_ready() const noexcept { return m_barrier.await_ready(); }
 
@@ -212,8 +215,16 @@ namespace macoro
 			void await_resume()
 			{
 				m_barrier.await_resume();
-				if (m_exceptions.size())
-					throw async_scope_exception(std::move(m_exceptions));
+				if (m_scope == nullptr)
+					return;
+
+				std::vector<std::exception_ptr> exceptions;
+				{
+					std::lock_guard<std::mutex> lock(m_scope->m_exception_mutex);
+					exceptions.swap(m_scope->m_exceptions);
+				}
+				if (exceptions.size())
+					throw async_scope_exception(std::move(exceptions));
 			}
 		};
 
@@ -229,7 +240,7 @@ namespace macoro
 		// until all added awaitables have been completed.
 		join_awaiter MACORO_OPERATOR_COAWAIT() & noexcept
 		{
-			return { m_barrier.MACORO_OPERATOR_COAWAIT(), std::move(m_exceptions) };
+			return { m_barrier.MACORO_OPERATOR_COAWAIT(), this };
 		}
 
 	private:
diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index f36bb3d..3f07989 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -157,7 +157,7 @@ namespace macoro
 
 		auto MACORO_OPERATOR_COAWAIT() const& noexcept
 		{
-			return awaiter{ m_handle, m_handle.promise().m_scope.MACORO_OPERATOR_COAWAIT() };
+			return awaiter{ m_handle, { m_handle.promise().m_scope.m_barrier.MACORO_OPERATOR_COAWAIT() } };
 		}
 
 
-- 
2.43.0


From daa4aaac344aa04f2d4eb7c88b066d69fb52af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 17/32] fix: a scoped_task is only marked completed once it is
 suspended

---
 macoro/async_scope.h                | 24 +++++++++++-------------
 macoro/detail/scoped_task_promise.h | 29 ++++++-----------------------
 2 files changed, 17 insertions(+), 36 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index 996540b..904c9e8 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -270,15 +270,18 @@ namespace macoro
 
 
 		template<typename T>
-		bool scoped_task_promise<T>::final_awaitable::await_ready() noexcept
+		coroutine_handle<> scoped_task_promise<T>::final_awaitable::await_suspend(
+			coroutine_handle<scoped_task_promise> coro) noexcept
 		{
-			scoped_task_promise& promise = m_promise;
+			scoped_task_promise& promise = coro.promise();
 			async_scope* scope = promise.m_scope;
-			bool done = false;
+			coroutine_handle<> next = noop_coroutine();
 
 			// race to see if we need to call the completion handle
 			// it might not have been set yet (or ever).
 			// release our result. acquire their continuation (if they beat us).
+			// The coroutine is suspended here, so that whoever comes second can
+			// destroy it.
 			completion_state b = promise.completion_state_fetch_or(
 				completion_state::has_completed,
 				std::memory_order_acq_rel);
@@ -296,8 +299,7 @@ namespace macoro
 				// the return value. 
 				if (promise.m_continuation)
 				{
-					m_run_continutation = true;
-					done = false;
+					next = promise.m_continuation;
 				}
 				else
 				{
@@ -306,14 +308,11 @@ namespace macoro
 						// todo, replace vector by a lock free linked list, either to the full
 						// coro frame (no allocations) or to the execptions (node allocations).
 						// for now, locking on expcetions should be fine.
-						std::lock_guard<std::mutex> lock(promise.m_scope->m_exception_mutex);
-						promise.m_scope->m_exceptions.push_back(std::move(promise.m_exception));
+						std::lock_guard<std::mutex> lock(scope->m_exception_mutex);
+						scope->m_exceptions.push_back(std::move(promise.m_exception));
 					}
 
-					// destroy the coro.
-					// this is the same as coro.destroy()
-					// but there is a msvc bug if you do that.
-					done = true;
+					coro.destroy();
 				}
 			}
 			else
@@ -326,12 +325,11 @@ namespace macoro
 				// If a continuation is never set, then the scoped_task
 				// will destroy the coro in its distructor. 
 				assert(b == completion_state::inprogress);
-				done = false;
 			}
 
 			// notify the scope that we are done.
 			scope->m_barrier.decrement();
-			return done;
+			return next;
 		}
 	}
 
diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index 76e27cd..3e41074 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -262,39 +262,22 @@ namespace macoro
 			// the status of the value/exception storage.
 			result_type m_result_type = result_type::empty;
 
-			// this final awaiter runs the suspend logic in await_ready
-			// due to a bug un msvc. Using symetric transfer and called
-			// destroy when done = true causes a segfault. This alternative
-			// implementation implicitly destroys the coro by returning
-			// true from await_ready.
+			// the task is only marked as completed once it is suspended. From
+			// then on its owner may destroy it at any time.
 			struct final_awaitable
 			{
-				scoped_task_promise& m_promise;
-
-				// a variable used to remember if we need to call the continuation.
-				bool m_run_continutation = false;
-
-				bool await_ready() noexcept;
+				bool await_ready() noexcept { return false; }
 
 #ifdef MACORO_CPP_20
 				std::coroutine_handle<> await_suspend(
 					std::coroutine_handle<scoped_task_promise> coro) noexcept
 				{
-					if (m_run_continutation)
-						return m_promise.m_continuation.std_cast();
-					else
-						return std::noop_coroutine();
+					return await_suspend(coroutine_handle<scoped_task_promise>(coro)).std_cast();
 				}
 #endif
 
 				coroutine_handle<> await_suspend(
-					coroutine_handle<scoped_task_promise> coro) noexcept
-				{
-					if (m_run_continutation)
-						return m_promise.m_continuation;
-					else
-						return noop_coroutine();
-				}
+					coroutine_handle<scoped_task_promise> coro) noexcept;
 
 				void await_resume() noexcept {
 				}
@@ -311,7 +294,7 @@ namespace macoro
 			}
 
 			suspend_never initial_suspend() noexcept { return {}; }
-			final_awaitable final_suspend() noexcept { return { *this }; }
+			final_awaitable final_suspend() noexcept { return {}; }
 
 #ifdef MACORO_CPP_20
 			completion_state try_set_continuation(std::coroutine_handle<> continuation) noexcept
-- 
2.43.0


From 65a890e5fe4cbcbf3dae55f33dd1ec7f006c4eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 18/32] fix: awaiting an empty scoped_task throws
 broken_promise

---
 macoro/detail/scoped_task_promise.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index 3e41074..3a9455f 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -334,7 +334,8 @@ namespace macoro
 
 			coroutine_handle<promise_type> m_coroutine;
 
-			bool await_ready() const noexcept { return false; }
+			// an empty task has no result, await_resume() throws broken_promise.
+			bool await_ready() const noexcept { return !m_coroutine; }
 
 			scoped_task_awaiter(coroutine_handle<promise_type> c)
 				:m_coroutine(c)
@@ -342,8 +343,8 @@ namespace macoro
 
 			~scoped_task_awaiter()
 			{
-				assert(m_coroutine);
-				m_coroutine.destroy();
+				if (m_coroutine)
+					m_coroutine.destroy();
 			}
 
 #ifdef MACORO_CPP_20
-- 
2.43.0


From 727ec8e00ebfe555446c910b0f1d3cca707446c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 19/32] fix: when_all_scope destroys its coroutine frame

---
 macoro/when_all_scope.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index 3f07989..7e67b97 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -132,6 +132,16 @@ namespace macoro
 			: m_handle(h)
 		{}
 
+		when_all_scope(when_all_scope&& o) noexcept
+			: m_handle(std::exchange(o.m_handle, nullptr))
+		{}
+
+		~when_all_scope()
+		{
+			if (m_handle)
+				m_handle.destroy();
+		}
+
 		struct awaiter
 		{
 			coroutine_handle<promise_type> m_handle;
-- 
2.43.0


From b614f4a80b550501479f96c544b775da7d661ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 20/32] fix: thread_pool notifies its workers before it lets go
 of the mutex

---
 macoro/thread_pool.h | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 8bf9478..edf9d75 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -76,10 +76,10 @@ namespace macoro
             {
                 //log("post");
                 assert(fn);
-                {
-                    std::lock_guard<std::mutex> lock(mMutex);
-                    mDeque.push_back(std::move(fn));
-                }
+                // notify while holding the lock, once it is released the coroutine
+                // might run, complete the last work item and the pool be destroyed.
+                std::lock_guard<std::mutex> lock(mMutex);
+                mDeque.push_back(std::move(fn));
                 mCondition.notify_one();
             }
 
@@ -91,11 +91,8 @@ namespace macoro
                     return true;
                 else
                 {
-                    {
-                        std::lock_guard<std::mutex> lock(mMutex);
-                        mDeque.push_back(std::move(fn));
-                    }
-
+                    std::lock_guard<std::mutex> lock(mMutex);
+                    mDeque.push_back(std::move(fn));
                     mCondition.notify_one();
                     return false;
                 }
@@ -243,14 +240,14 @@ namespace macoro
                 if (mEx)
                 {
 
-                    std::size_t v = 0;
                     {
+                        // notify while holding the lock, once it is released the 
+                        // workers might exit and the pool be destroyed.
                         std::lock_guard<std::mutex> lock(mEx->mMutex);
-                        v = --mEx->mWork;
-                    }
-                    if (v == 0)
-                    {
-                        mEx->mCondition.notify_all();
+                        if (--mEx->mWork == 0)
+                        {
+                            mEx->mCondition.notify_all();
+                        }
                     }
                     mEx = nullptr;
                 }
-- 
2.43.0


From f3a54cf743ae8d0ddcb3850fea6994576f68cef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 21/32] fix: thread_pool can be moved while it has threads

---
 macoro/thread_pool.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index edf9d75..8247057 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -263,7 +263,15 @@ namespace macoro
             :mState(new detail::thread_pool_state)
         {}
         thread_pool(thread_pool&&) = default;
-        thread_pool& operator=(thread_pool&&) = default;
+        thread_pool& operator=(thread_pool&& o)
+        {
+            if (this != &o)
+            {
+                join();
+                mState = std::move(o.mState);
+            }
+            return *this;
+        }
 
         thread_pool(std::size_t number_of_threads, work& w)
             : mState(new detail::thread_pool_state)
@@ -333,7 +341,7 @@ namespace macoro
                 mState->mThreads.reserve(mState->mThreads.size() + n);
                 for (std::size_t i = 0; i < n; ++i)
                 {
-                    mState->mThreads.emplace_back([this] {run(); });
+                    mState->mThreads.emplace_back([state = mState.get()] {run(state); });
                 }
             }
         }
@@ -374,7 +382,14 @@ namespace macoro
 
         void run()
         {
-            auto state = mState.get();
+            run(mState.get());
+        }
+
+    private:
+
+        // the workers use the state only, the pool itself can be moved.
+        static void run(detail::thread_pool_state* state)
+        {
             //state->log("run");
 
             if (detail::thread_pool_state::mCurrentExecutor != nullptr)
-- 
2.43.0


From a0fcee34110998400692b301c177fadd28b7f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 22/32] fix: schedule_after registers for cancellation before
 the workers can resume the coroutine

---
 macoro/thread_pool.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 8247057..8a46261 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -111,16 +111,25 @@ namespace macoro
                     {
                         std::unique_lock<std::mutex> lock(mMutex);
                         idx = mDelayOpIdx++;
-                        mDelayHeap.emplace_back(idx, h, deadline);
-                        std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
                     }
 
+                    // register before h is made visible to the workers, they could
+                    // resume h and destroy reg along with it.
                     if (token.stop_possible())
                     {
-                        reg.emplace(std::move(token), [idx, this] {
+                        reg.emplace(token, [idx, this] {
                             cancel_delay_op(idx);
                             });
                     }
+
+                    std::unique_lock<std::mutex> lock(mMutex);
+
+                    // a request which came before the operation is queued did not find it.
+                    if (token.stop_requested())
+                        deadline = std::min(deadline, thread_pool_clock::now());
+
+                    mDelayHeap.emplace_back(idx, h, deadline);
+                    std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
                     mCondition.notify_one();
                 }
                 else
-- 
2.43.0


From 28b474d950df80b2568984c05effdfb5b4a16e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 23/32] fix: thread_pool::run does not wait on a reference into
 the delay heap

---
 macoro/thread_pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 8a46261..aa48109 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -422,7 +422,9 @@ namespace macoro
 
                         if (state->mDelayHeap.size())
                         {
-                            state->mCondition.wait_until(lock, state->mDelayHeap.front().deadline);
+                            // copy, the heap might be changed while waiting.
+                            auto deadline = state->mDelayHeap.front().deadline;
+                            state->mCondition.wait_until(lock, deadline);
                         }
                         else
                         {
-- 
2.43.0


From 9765f819b167a401929622b8a83bc47595f22f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 24/32] fix: thread_pool workers leave when the last delayed
 operation was cancelled

---
 macoro/thread_pool.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index aa48109..d366a34 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -465,6 +465,9 @@ namespace macoro
                     }
                     //state->log("run::next");
                 }
+
+                // the others might wait for a deadline that was cancelled.
+                state->mCondition.notify_all();
             }
 
             detail::thread_pool_state::mCurrentExecutor = nullptr;
-- 
2.43.0


From 31224fa9aa53f1f8b953dfdefee2fe4f12fc4730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 25/32] fix: the type-erased noop coroutine is not done and can
 be destroyed

---
 macoro/coro_frame.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 26a1772..d765fc4 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -810,6 +810,9 @@ namespace macoro
 
 	inline bool _macoro_coro_done(void* _address)noexcept
 	{
+		// the noop coroutine has no frame and is never done.
+		if (_address == noop_coroutine().address())
+			return false;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
@@ -909,6 +912,9 @@ namespace macoro
 
 	inline void _macoro_coro_destroy(void* _address)noexcept
 	{
+		// the noop coroutine has no frame.
+		if (_address == noop_coroutine().address())
+			return;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
-- 
2.43.0


From 0328f0168b3e43d626755c78c8f43293a50af669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 26/32] fix: the macros do not apply await_transform to the
 initial, final and yield awaits

---
 macoro/coro_frame.h | 22 ++++++++++++++++++--
 macoro/macros.h     | 50 ++++++++++++++++++++++++---------------------
 2 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index d765fc4..d57b930 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -255,13 +255,31 @@ namespace macoro
 
 
 
-	template<typename Promise, size_t idx, typename Expr>
+	// a co_await expression that is written by the user. The promise can transform it.
+	struct explicit_await
+	{
+		template<typename Promise, typename T>
+		static decltype(auto) get(Promise& promise, T&& expr)
+		{
+			return get_awaitable(promise, static_cast<T&&>(expr));
+		}
+	};
+
+	// the await that is implied by co_yield, the initial and the final suspend. The 
+	// promise does not transform it, i.e. await_transform is not called.
+	struct implicit_await
+	{
+		template<typename Promise, typename T>
+		static T&& get(Promise&, T&& expr) { return static_cast<T&&>(expr); }
+	};
+
+	template<typename Promise, size_t idx, typename Expr, typename Transform = explicit_await>
 	struct AwaitContext
 	{
 		using promise_type = Promise;
 		using expression_type = Expr;
 		static const size_t suspend_index = idx;
-		using awaitable_type = decltype(get_awaitable(std::declval<promise_type&>(), std::declval<ExpressionStorage<expression_type>>().get()));
+		using awaitable_type = decltype(Transform::get(std::declval<promise_type&>(), std::declval<ExpressionStorage<expression_type>>().get()));
 		using awaiter_type = decltype(get_awaiter(std::declval<awaitable_type>()));
 
 		ExpressionStorage<expression_type> expr;
diff --git a/macoro/macros.h b/macoro/macros.h
index 9f5ee5e..086fc3b 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -26,17 +26,21 @@
 // the value returned from the function.
 // 
 // Then we have the awaiter, we call await_ready and await_suspend.
-#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)																	\
+// 
+// TRANSFORM is the policy which turns the expression into the awaitable. 
+// It is explicit_await for a co_await that is written by the user and implicit_await
+// for the ones that are implied by co_yield, the initial and the final suspend.
+#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX, TRANSFORM)														\
 	using _macoro_promise_type = decltype(_macoro_frame_->promise);														\
 	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<_macoro_promise_type, SUSPEND_IDX,		\
-		::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>>;						\
-	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;											\
+		::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>, ::macoro::TRANSFORM>;	\
+	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;\
 	{																													\
 		auto& _macoro_promise = _macoro_frame_->promise;																\
 		auto _macoro_handle = _macoro_Handle::from_promise(_macoro_promise, ::macoro::coroutine_handle_type::macoro);	\
 		auto& _macoro_ctx = _macoro_frame_->template makeAwaitContext<MACORO_CAT(_macoro_AwaitContext, SUSPEND_IDX)>();	\
 		_macoro_ctx.expr.ptr      = new (_macoro_ctx.expr.v())      typename decltype(_macoro_ctx.expr)::Constructor(EXPRESSION);															\
-		_macoro_ctx.awaitable.ptr = new (_macoro_ctx.awaitable.v()) typename decltype(_macoro_ctx.awaitable)::Constructor(macoro::get_awaitable(_macoro_promise, _macoro_ctx.expr.get()));	\
+		_macoro_ctx.awaitable.ptr = new (_macoro_ctx.awaitable.v()) typename decltype(_macoro_ctx.awaitable)::Constructor(::macoro::TRANSFORM::get(_macoro_promise, _macoro_ctx.expr.get()));	\
 		_macoro_ctx.awaiter.ptr   = new (_macoro_ctx.awaiter.v())   typename decltype(_macoro_ctx.awaiter)::Constructor(macoro::get_awaiter(_macoro_ctx.awaitable.get()));					\
 		auto& _macoro_awaiter = _macoro_ctx.awaiter.getRef();													\
 		*_macoro_ctx.awaiter_ptr = (void*)&_macoro_awaiter;														\
@@ -56,15 +60,15 @@
 // This macro expands out to generated the await_ready and await_suspend calls.
 // It defines a suspension point but does not call await_resume. This should be
 // used with other macros which perform the await_resume call.
-#define IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)	IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)				\
+#define IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, TRANSFORM)	IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX, TRANSFORM)	\
 			MACORO_FALLTHROUGH; case (std::size_t)::macoro::SuspensionPoint(SUSPEND_IDX):		
 
 // a helper macro that defines a basic co_await expression. 
 // RETURN_SLOT can be used to set a variable to the result of the co_await expression.
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
-#define IMPL_MC_AWAIT(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)														\
+#define IMPL_MC_AWAIT(EXPRESSION, RETURN_SLOT, SUSPEND_IDX, TRANSFORM)											\
 				do {																							\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, TRANSFORM)													\
 					/*<resume-point>*/																			\
 					RETURN_SLOT _macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume();		\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
@@ -75,7 +79,7 @@
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
 #define IMPL_MC_AWAIT_TRY(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)													\
 				do{																								\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, explicit_await)									\
 					/*<resume-point>*/																			\
 					::macoro::detail::try_resume(RETURN_SLOT, 													\
 						_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>());	\
@@ -85,9 +89,9 @@
 // A helper macro that implements the MC_YIELD_AWAIT. We first perform a normal co_await
 // and then we call another co_await on the result of promise.yield_value(awaiter.await_resume()).
 #define IMPL_MC_YIELD_AWAIT(EXPRESSION, SUSPEND_IDX)															\
-				do {	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)												\
+				do {	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, explicit_await)												\
 					/*<resume-point>*/																			\
-					IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume()), ,__COUNTER__);\
+					IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume()), ,__COUNTER__, implicit_await);\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
 				} while(0)
 
@@ -95,18 +99,18 @@
 // A helper macro that implements the MC_AWAIT_AWAIT. We first perform a normal co_await
 // and then we call another co_await on the result of awaiter.await_resume().
 #define IMPL_MC_AWAIT_AWAIT(EXPRESSION, SUSPEND_IDX)															\
-				do{	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+				do{	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, explicit_await)													\
 					/*<resume-point>*/																			\
-					IMPL_MC_AWAIT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume(), ,__COUNTER__);\
+					IMPL_MC_AWAIT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume(), ,__COUNTER__, explicit_await);\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
 				} while(0)
 
 
 // A helper macro that implements the MC_AWAIT_FN. We first perform a normal co_await
 // and then we call the function with the await_resume result as the parameter.
-#define IMPL_MC_AWAIT_FN(FN_SLOT, EXPRESSION, OPTIONAL_GOTO, SUSPEND_IDX)										\
+#define IMPL_MC_AWAIT_FN(FN_SLOT, EXPRESSION, OPTIONAL_GOTO, SUSPEND_IDX, TRANSFORM)										\
 				do{																								\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, TRANSFORM)													\
 					/*<resume-point>*/																			\
 					FN_SLOT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume());							\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
@@ -125,7 +129,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 			{																									\
 			case (std::size_t)::macoro::SuspensionPoint::InitialSuspendBegin:												\
 				do {																								\
-					IMPL_MC_AWAIT_CORE(_macoro_frame_->promise.initial_suspend(), MACORO_INITIAL_SUSPEND_IDX)	\
+					IMPL_MC_AWAIT_CORE(_macoro_frame_->promise.initial_suspend(), MACORO_INITIAL_SUSPEND_IDX, implicit_await)	\
 					_macoro_frame_->_initial_suspend_await_resumed_called_ = true;								\
 					_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,MACORO_INITIAL_SUSPEND_IDX)>().await_resume();			\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,MACORO_INITIAL_SUSPEND_IDX)>();						\
@@ -144,7 +148,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // Calls the given function on the result of the co_await expression. This is equivalent to
 // `f(co_await EXPRESSION)` where f is the function name provided.
-#define MC_AWAIT_FN(FN_SLOT, EXPRESSION)	IMPL_MC_AWAIT_FN(FN_SLOT,EXPRESSION, , __COUNTER__)					
+#define MC_AWAIT_FN(FN_SLOT, EXPRESSION)	IMPL_MC_AWAIT_FN(FN_SLOT,EXPRESSION, , __COUNTER__, explicit_await)					
 
 // Returns void. Equivalent to `co_return;`
 #define MC_RETURN_VOID()																						\
@@ -159,12 +163,12 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // perform a basic co_await expression. This is equivalent to
 // `co_await EXPRESSION`
-#define MC_AWAIT(EXPRESSION)				IMPL_MC_AWAIT(EXPRESSION, , __COUNTER__)
+#define MC_AWAIT(EXPRESSION)				IMPL_MC_AWAIT(EXPRESSION, , __COUNTER__, explicit_await)
 
 
 // perform a basic co_await expression and set VARIABLE to the result. This is equivalent to
 // `VARIABLE = co_await EXPRESSION`
-#define MC_AWAIT_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(EXPRESSION, VARIABLE = , __COUNTER__)
+#define MC_AWAIT_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(EXPRESSION, VARIABLE = , __COUNTER__, explicit_await)
 
 
 // perform a basic co_await expression and set VARIABLE to the Ok(result) or Err(std::current_exception()). This is equivalent to
@@ -174,21 +178,21 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // perform a basic co_await expression and return to the result. This is equivalent to
 // `co_return co_await EXPRESSION`
-#define MC_RETURN_AWAIT(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, EXPRESSION, goto MACORO_FINAL_SUSPEND_BEGIN;,__COUNTER__)
+#define MC_RETURN_AWAIT(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, EXPRESSION, goto MACORO_FINAL_SUSPEND_BEGIN;,__COUNTER__, explicit_await)
 
 
 // perform a basic co_yeild expression. This is equivalent to
 // `co_yeild EXPRESSION`
-#define MC_YIELD(EXPRESSION)				MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_YIELD(EXPRESSION)				IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION), , __COUNTER__, implicit_await);
 
 
 // perform a basic co_yeild expression and set VARIABLE to the result. This is equivalent to
 // `VARIABLE = co_yeild EXPRESSION`
-#define MC_YIELD_SET(VARIABLE, EXPRESSION)	MC_AWAIT_SET(VARIABLE , _macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_YIELD_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION), VARIABLE = , __COUNTER__, implicit_await);
 
 // perform a basic co_yeild expression and return to the result. This is equivalent to
 // `co_return co_yeild EXPRESSION`
-#define MC_RETURN_YIELD(EXPRESSION)			MC_RETURN_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_RETURN_YIELD(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, _macoro_frame_->promise.yield_value(EXPRESSION), goto MACORO_FINAL_SUSPEND_BEGIN;, __COUNTER__, implicit_await);
 
 #define MC_UNHANDLED_EXCEPTION _macoro_frame_->promise.unhandled_exception()
 
@@ -213,7 +217,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 goto MACORO_FINAL_SUSPEND_BEGIN; /*prevents unused warning*/													\
 MACORO_FINAL_SUSPEND_BEGIN:																						\
 		_macoro_frame_->final_suspend();																		\
-		IMPL_MC_AWAIT_CORE_NS(_macoro_frame_->promise.final_suspend(), MACORO_FINAL_SUSPEND_IDX)				\
+		IMPL_MC_AWAIT_CORE_NS(_macoro_frame_->promise.final_suspend(), MACORO_FINAL_SUSPEND_IDX, implicit_await)				\
 MACORO_FINAL_SUSPEND_RESUME:																					\
 		_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext, MACORO_FINAL_SUSPEND_IDX)>().await_resume();	\
 		_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext, MACORO_FINAL_SUSPEND_IDX)>();	\
-- 
2.43.0


From 2051dde32754ee55f9ef1ca3bcba8350a6420a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 27/32] fix: MC_AWAIT_TRY catches the exceptions of the whole
 await expression

---
 macoro/coro_frame.h |  1 -
 macoro/macros.h     | 20 +++++++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index d57b930..531e9f2 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -449,7 +449,6 @@ namespace macoro
 			assert(awaiters.size());
 			auto d = --awaiters.end();
 			assert(d->suspend_index == CTX::suspend_index);
-			assert(d->_awaiter_ptr);
 			assert(d->_awaiter_typeid_ == &typeid(CTX));
 			auto p = (CTX*)d->_ctx_ptr;
 			p->awaiter.destroy();
diff --git a/macoro/macros.h b/macoro/macros.h
index 086fc3b..b2fc734 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -30,11 +30,17 @@
 // TRANSFORM is the policy which turns the expression into the awaitable. 
 // It is explicit_await for a co_await that is written by the user and implicit_await
 // for the ones that are implied by co_yield, the initial and the final suspend.
-#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX, TRANSFORM)														\
+#define IMPL_MC_AWAIT_CORE_TYPES(EXPRESSION, SUSPEND_IDX, TRANSFORM)														\
 	using _macoro_promise_type = decltype(_macoro_frame_->promise);														\
 	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<_macoro_promise_type, SUSPEND_IDX,		\
 		::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>, ::macoro::TRANSFORM>;	\
-	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;\
+	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;											
+
+#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX, TRANSFORM)															\
+	IMPL_MC_AWAIT_CORE_TYPES(EXPRESSION, SUSPEND_IDX, TRANSFORM)															\
+	IMPL_MC_AWAIT_CORE_BODY(EXPRESSION, SUSPEND_IDX, TRANSFORM)
+
+#define IMPL_MC_AWAIT_CORE_BODY(EXPRESSION, SUSPEND_IDX, TRANSFORM)														\
 	{																													\
 		auto& _macoro_promise = _macoro_frame_->promise;																\
 		auto _macoro_handle = _macoro_Handle::from_promise(_macoro_promise, ::macoro::coroutine_handle_type::macoro);	\
@@ -79,7 +85,15 @@
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
 #define IMPL_MC_AWAIT_TRY(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)													\
 				do{																								\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, explicit_await)									\
+					IMPL_MC_AWAIT_CORE_TYPES(EXPRESSION, SUSPEND_IDX, explicit_await)							\
+					try IMPL_MC_AWAIT_CORE_BODY(EXPRESSION, SUSPEND_IDX, explicit_await)						\
+					catch (...)																					\
+					{																							\
+						_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();	\
+						RETURN_SLOT = ::macoro::Err(std::current_exception());									\
+						break;																					\
+					}																							\
+					MACORO_FALLTHROUGH; case (std::size_t)::macoro::SuspensionPoint(SUSPEND_IDX):				\
 					/*<resume-point>*/																			\
 					::macoro::detail::try_resume(RETURN_SLOT, 													\
 						_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>());	\
-- 
2.43.0


From 582d9279d587abfd33a60fe7cb8f88524c7afbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 28/32] fix: a macro coroutine whose unhandled_exception throws
 is at its final suspend point

---
 macoro/macros.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macoro/macros.h b/macoro/macros.h
index b2fc734..4b9f240 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -225,6 +225,8 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 			_macoro_frame_->destroyAwaiters();																	\
 			if (!_macoro_frame_->_initial_suspend_await_resumed_called_)										\
 				throw; 																							\
+			/*the coroutine is at its final suspend point if unhandled_exception() throws.*/					\
+			_macoro_frame_->_suspension_idx_ = ::macoro::SuspensionPoint::FinalSuspend;							\
 			MC_UNHANDLED_EXCEPTION;																				\
 		}																										\
 		/*final suspend*/																						\
-- 
2.43.0


From 5c9159d37f3d4eb1f7532ac84b6c89739e7243ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 29/32] fix: wrap forwards the location of the co_await to
 awaiters which return a handle

---
 macoro/wrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/wrap.h b/macoro/wrap.h
index 21028c6..e0db036 100644
--- a/macoro/wrap.h
+++ b/macoro/wrap.h
@@ -32,7 +32,7 @@ namespace macoro
 			template<typename Handle>
 			auto await_suspend(Handle h)
 			{
-				if constexpr (requires(awaiter_storage m_awaiter) { { m_awaiter.await_suspend(h, m_loc) } -> std::convertible_to<int>; })
+				if constexpr (requires(awaiter_storage m_awaiter) { m_awaiter.await_suspend(h, m_loc); })
 				{
 					return m_awaiter.await_suspend(h, m_loc);
 				}
-- 
2.43.0


From 8320d88ec95dee14d510d29629783b316419e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 30/32] fix: the macros record the location of the await and
 not the one of the library

---
 macoro/coro_frame.h | 26 +++++++++++++++++++-------
 macoro/macros.h     |  2 +-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 531e9f2..48879df 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -12,6 +12,7 @@
 #include <vector>
 #include <cstddef>
 #include <memory>
+#include <source_location>
 #ifdef MACORO_CPP_20
 #include <coroutine>
 #endif
@@ -93,6 +94,17 @@ namespace macoro
 	}
 #endif
 
+	// calls a.await_suspend(h). An awaiter that takes the location of the co_await 
+	// gets the one of the macro, its default argument would be in this file.
+	template<typename Awaiter, typename Handle>
+	decltype(auto) await_suspend_at(Awaiter& a, Handle h, const std::source_location& loc)
+	{
+		if constexpr (requires { a.await_suspend(h, loc); })
+			return a.await_suspend(h, loc);
+		else
+			return a.await_suspend(h);
+	}
+
 	template<typename Awaiter, typename T>
 	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
@@ -101,10 +113,10 @@ namespace macoro
 		||
 		has_void_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept(a.await_suspend(h)))
+		, empty_state> = {}, std::source_location loc = std::source_location::current()) noexcept(noexcept(a.await_suspend(h)))
 	{
 		auto h2 = implicit_cast<has_void_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
-		a.await_suspend(h2);
+		await_suspend_at(a, h2, loc);
 		return { true };
 	}
 
@@ -116,11 +128,11 @@ namespace macoro
 		||
 		has_bool_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept(await_suspend_t<bool>{ a.await_suspend(h) }))
+		, empty_state> = {}, std::source_location loc = std::source_location::current()) noexcept(noexcept(await_suspend_t<bool>{ a.await_suspend(h) }))
 	{
 
 		auto h2 = implicit_cast<has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
-		return { a.await_suspend(h2) };
+		return { await_suspend_at(a, h2, loc) };
 	}
 
 
@@ -148,7 +160,7 @@ namespace macoro
 		!has_void_await_suspend<Awaiter, std::coroutine_handle<void>>::value &&
 		!has_bool_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
+		, empty_state> = {}, std::source_location loc = std::source_location::current()) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 
 		//auto h2 = ;
@@ -167,13 +179,13 @@ namespace macoro
 		if constexpr (requires(Awaiter a) { a.await_suspend(h); })
 		{
 			using promise_type = typename coroutine_handle_traits<decltype(a.await_suspend(h))>::promise_type;
-			auto ret = a.await_suspend(h);
+			auto ret = await_suspend_at(a, h, loc);
 			return await_suspend_t<coroutine_handle<promise_type>>{ ret, h != ret  };
 		}
 		else
 		{
 			auto hstd = h.std_cast();
-			auto ret = a.await_suspend(hstd);
+			auto ret = await_suspend_at(a, hstd, loc);
 			return await_suspend_t<coroutine_handle<void>>{ coroutine_handle<void>(ret), hstd != ret  };
 		}
 	}
diff --git a/macoro/macros.h b/macoro/macros.h
index 4b9f240..a7a3831 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -57,7 +57,7 @@
 																												\
 			/*<call awaiter.await_suspend(). If it's void return, then return true.>*/							\
 			/*perform symmetric transfer or return to caller (for noop_coroutine) */							\
-			auto _macoro_s = ::macoro::await_suspend(_macoro_awaiter, _macoro_handle);							\
+			auto _macoro_s = ::macoro::await_suspend(_macoro_awaiter, _macoro_handle, {}, std::source_location::current());	\
 			if (_macoro_s)																						\
 				return _macoro_s.get_handle();																	\
 		}																										\
-- 
2.43.0


From 4590d1e77a4eea9192c56c4aeb45394b9c84d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 31/32] fix: take_until keeps the outcome if the companion
 fails to stop

---
 macoro/take_until.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/macoro/take_until.h b/macoro/take_until.h
index 2ff14eb..501aa36 100644
--- a/macoro/take_until.h
+++ b/macoro/take_until.h
@@ -36,7 +36,12 @@ namespace macoro
 		}
 
 
-		request_stop(until);
+		// the companion must not replace the outcome, even if it fails to stop.
+		try {
+			request_stop(until);
+		}
+		catch (...)
+		{ }
 
 		try {
 			co_await std::move(until);
-- 
2.43.0


From cda2b9a59ddff970bf0b11a4b51878e323bb05e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 32/32] fix: the callback of a timeout keeps the stop state
 alive while it requests stop

---
 macoro/timeout.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/macoro/timeout.h b/macoro/timeout.h
index c94c11b..694d30b 100644
--- a/macoro/timeout.h
+++ b/macoro/timeout.h
@@ -51,8 +51,11 @@ namespace macoro
 			mSrc.emplace();
 			if (token.stop_possible())
 			{
-				mReg.reset(new stop_callback(token, [src = mSrc.value()]() mutable {
-					src.request_stop();
+				mReg.reset(new stop_callback(token, [src = mSrc.value()]() {
+					// the request might complete the operation and destroy this
+					// callback, the state has to outlive the call.
+					auto s = src;
+					s.request_stop();
 				}));
 			}
 
-- 
2.43.0

