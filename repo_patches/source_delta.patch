From 6bbed6f277414c9a32e2dd8b3902597b9aea9843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 01/43] fix: barrier touched itself after the count reached
 zero

decrement() read m_continuation after its fetch_sub had brought the count to
zero. A concurrent awaiter that observed the zero could already have destroyed
or reused the barrier (use after free / early resume of a later round). Record
the presence of an awaiter in the count so the last decrement knows whether it
owns the continuation.
---
 macoro/barrier.h | 50 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/macoro/barrier.h b/macoro/barrier.h
index 2698b5d..03c0c49 100644
--- a/macoro/barrier.h
+++ b/macoro/barrier.h
@@ -66,8 +66,14 @@ namespace macoro
 		coroutine_handle<> m_continuation;
 
 		// the current count, once it decrements to 0, 
-		// m_continuation is called if set.
+		// m_continuation is called if set. The top bit
+		// records that m_continuation is set. The thread that 
+		// decrements the count to zero only touches the barrier 
+		// again if it is set, as otherwise someone else can 
+		// observe the zero and destroy/reuse the barrier.
 		std::atomic<std::size_t> m_count;
+
+		static constexpr std::size_t awaiting_bit = ~(~std::size_t{} >> 1);
 	public:
 
 		// construct a new barrier with the given initial value.
@@ -78,7 +84,7 @@ namespace macoro
 		// increament the count by amount and return the new count.
 		std::size_t add(size_t amount) noexcept
 		{
-			auto old = m_count.fetch_add(amount, std::memory_order_relaxed);
+			auto old = m_count.fetch_add(amount, std::memory_order_relaxed) & ~awaiting_bit;
 			auto ret = old + amount;
 			assert(ret >= old);
 			return ret;
@@ -93,21 +99,29 @@ namespace macoro
 		// returns the current count.
 		std::size_t count() const noexcept 
 		{
-			return m_count.load(std::memory_order_acquire);
+			return m_count.load(std::memory_order_acquire) & ~awaiting_bit;
 		}
 
 		// decrease the count by 1. Returns the new count.
 		std::size_t decrement() noexcept
 		{
-			const std::size_t old_count = m_count.fetch_sub(1, std::memory_order_acq_rel);
-
-			assert(old_count);
-
-			if (old_count == 1 && m_continuation)
+			std::size_t old_count = m_count.load(std::memory_order_relaxed);
+			std::size_t new_count;
+			do {
+				assert(old_count & ~awaiting_bit);
+				new_count = old_count - 1;
+
+				// the one to reach zero takes the continuation.
+				if (new_count == awaiting_bit)
+					new_count = 0;
+			} while (!m_count.compare_exchange_weak(
+				old_count, new_count, std::memory_order_acq_rel, std::memory_order_relaxed));
+
+			if (old_count == (awaiting_bit | 1))
 			{
 				std::exchange(m_continuation, nullptr).resume();
 			}
-			return old_count - 1;
+			return new_count & ~awaiting_bit;
 		}
 		
 		// suspend until the count reached zero. Only
@@ -125,16 +139,24 @@ namespace macoro
 		coroutine_handle<Promise> continuation,
 		std::source_location loc) noexcept
 	{
-		coroutine_handle<> ret = continuation;
-		if (m_barrier.increment() > 1)
+		auto count = m_barrier.m_count.load(std::memory_order_acquire);
+		if (count)
 		{
 			set_parent(get_traceable(continuation), loc);
 			assert(m_barrier.m_continuation == nullptr);
-			m_barrier.m_continuation = std::exchange(ret, noop_coroutine());
+			m_barrier.m_continuation = continuation;
+
+			while (count)
+			{
+				// once this succeeds we can be resumed and destroyed.
+				if (m_barrier.m_count.compare_exchange_weak(
+					count, count | barrier::awaiting_bit, std::memory_order_acq_rel, std::memory_order_acquire))
+					return noop_coroutine();
+			}
+			m_barrier.m_continuation = nullptr;
 		}
-		m_barrier.decrement();
 
-		return ret;
+		return continuation;
 	}
 
 }
\ No newline at end of file
-- 
2.43.0


From 8e39dff6fbb4ada740ef27d23d20e2f567e2be5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 02/43] fix: eager task readiness was read from the frame of a
 running coroutine

await_ready() and is_ready() used coroutine_handle::done() while the body may
run on another thread, and done() can become true before final_suspend has
published the result. Track completion in the atomic that already decides who
resumes the continuation.
---
 macoro/task.h | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/macoro/task.h b/macoro/task.h
index b553067..44641d2 100644
--- a/macoro/task.h
+++ b/macoro/task.h
@@ -135,6 +135,8 @@ namespace macoro
 		{
 			friend struct final_awaitable;
 
+			enum class state : std::uint8_t { running, has_continuation, completed };
+
 			struct final_awaitable
 			{
 				bool await_ready() const noexcept { return false; }
@@ -154,10 +156,10 @@ namespace macoro
 				{
 					auto& promise = coro.promise();
 					// release our result. acquire their continuation (if they beat us).
-					auto b = promise.has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
+					auto s = promise.m_state.exchange(state::completed, std::memory_order_acq_rel);
 
-					// if b, then we have finished after the continuation was set. 
-					if (b)
+					// the continuation was set before we finished. 
+					if (s == state::has_continuation)
 					{
 						assert(promise.m_continuation);
 						return promise.m_continuation;
@@ -171,7 +173,7 @@ namespace macoro
 		public:
 
 			task_promise_base() noexcept
-				: has_completed_or_continutation(false)
+				: m_state(state::running)
 			{
 				//std::cout << "eager" << std::endl;
 			}
@@ -196,16 +198,28 @@ namespace macoro
 				return try_set_continuation(coroutine_handle<>(continuation));
 			}
 #endif
+			// returns true if the coroutine has already completed, in which case
+			// the continuation will not be resumed by it.
 			bool try_set_continuation(coroutine_handle<> continuation) noexcept
 			{
 				assert(!m_continuation);
 				m_continuation = continuation;
-				return has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
+				auto s = state::running;
+				return !m_state.compare_exchange_strong(s, state::has_continuation,
+					std::memory_order_acq_rel, std::memory_order_acquire);
+			}
+
+			// true once the coroutine is suspended at its final suspend point. The
+			// coroutine may be running on another thread and therefore
+			// coroutine_handle::done() must not be used.
+			bool is_completed() const noexcept
+			{
+				return m_state.load(std::memory_order_acquire) == state::completed;
 			}
 
 		private:
-			std::atomic<bool> has_completed_or_continutation;
-			
+			std::atomic<state> m_state;
+
 			coroutine_handle<> m_continuation;
 		};
 
@@ -477,7 +491,7 @@ namespace macoro
 
 			bool await_ready() const noexcept
 			{
-				return !m_coroutine || m_coroutine.done();
+				return !m_coroutine || m_coroutine.promise().is_completed();
 			}
 
 #ifdef MACORO_CPP_20
@@ -584,7 +598,10 @@ namespace macoro
 		/// Awaiting a task that is ready is guaranteed not to block/suspend.
 		bool is_ready() const noexcept
 		{
-			return m_coroutine && m_coroutine.done();
+			if constexpr (lazy)
+				return m_coroutine && m_coroutine.done();
+			else
+				return m_coroutine && m_coroutine.promise().is_completed();
 		}
 
 		struct ref_awaitable : detail::task_awaitable_base<T,lazy>
-- 
2.43.0


From a054d2091e22f05250e5297f76ff869172ea0404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 03/43] fix: awaiting an lvalue when_all_ready did not compile

---
 macoro/detail/when_all_awaitable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/detail/when_all_awaitable.h b/macoro/detail/when_all_awaitable.h
index cac1a29..24ff599 100644
--- a/macoro/detail/when_all_awaitable.h
+++ b/macoro/detail/when_all_awaitable.h
@@ -138,7 +138,7 @@ namespace macoro
 				bool await_suspend(coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return m_awaitable.try_await(awaitingCoroutine, loc);
+					return m_awaitable.try_await(awaitingCoroutine);
 				}
 
 				TASK_CONTAINER& await_resume() noexcept
-- 
2.43.0


From 07df14e2c873805585f93de15fb7bc3cccc94711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 04/43] fix: scoped_task published its completion before it was
 suspended

The completion was published in await_ready of the final awaiter: from then on
the awaiter or the scoped_task handle may destroy the frame, which was still
running and was read again in await_suspend. Publish it in await_suspend.
A dropped task is destroyed before the scope is told, so that a joiner does
not race with the destruction of the task's parameters and result.
---
 macoro/async_scope.h                | 28 +++++++++++------------
 macoro/detail/scoped_task_promise.h | 35 +++++++----------------------
 2 files changed, 21 insertions(+), 42 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index ebb5732..c1f7bbc 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -259,11 +259,12 @@ namespace macoro
 
 
 		template<typename T>
-		bool scoped_task_promise<T>::final_awaitable::await_ready() noexcept
+		coroutine_handle<> scoped_task_promise<T>::final_awaitable::await_suspend(
+			coroutine_handle<scoped_task_promise> coro) noexcept
 		{
-			scoped_task_promise& promise = m_promise;
+			scoped_task_promise& promise = coro.promise();
 			async_scope* scope = promise.m_scope;
-			bool done = false;
+			coroutine_handle<> continuation = noop_coroutine();
 
 			// race to see if we need to call the completion handle
 			// it might not have been set yet (or ever).
@@ -285,8 +286,7 @@ namespace macoro
 				// the return value. 
 				if (promise.m_continuation)
 				{
-					m_run_continutation = true;
-					done = false;
+					continuation = promise.m_continuation;
 				}
 				else
 				{
@@ -295,14 +295,12 @@ namespace macoro
 						// todo, replace vector by a lock free linked list, either to the full
 						// coro frame (no allocations) or to the execptions (node allocations).
 						// for now, locking on expcetions should be fine.
-						std::lock_guard<std::mutex> lock(promise.m_scope->m_exception_mutex);
-						promise.m_scope->m_exceptions.push_back(std::move(promise.m_exception));
+						std::lock_guard<std::mutex> lock(scope->m_exception_mutex);
+						scope->m_exceptions.push_back(std::move(promise.m_exception));
 					}
 
-					// destroy the coro.
-					// this is the same as coro.destroy()
-					// but there is a msvc bug if you do that.
-					done = true;
+					// destroy the coro before the scope can be joined.
+					coro.destroy();
 				}
 			}
 			else
@@ -313,18 +311,18 @@ namespace macoro
 				// constumes the result.
 				// 
 				// If a continuation is never set, then the scoped_task
-				// will destroy the coro in its distructor. 
+				// will destroy the coro in its distructor. In both cases
+				// this can happen at any time, we can no longer use the coro.
 				assert(b == completion_state::inprogress);
-				done = false;
 			}
 
 			// notify the scope that we are done.
 			scope->m_barrier.decrement();
-			return done;
+
+			return continuation;
 		}
 	}
 
-
 	template<typename T>
 	scoped_task<T>::~scoped_task()
 	{
diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index 76e27cd..ef35f94 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -262,46 +262,27 @@ namespace macoro
 			// the status of the value/exception storage.
 			result_type m_result_type = result_type::empty;
 
-			// this final awaiter runs the suspend logic in await_ready
-			// due to a bug un msvc. Using symetric transfer and called
-			// destroy when done = true causes a segfault. This alternative
-			// implementation implicitly destroys the coro by returning
-			// true from await_ready.
+			// the completion of the task is only published in await_suspend, i.e.
+			// once the coro is suspended. As soon as it is published someone else
+			// can destroy the coro, and this awaiter with it.
 			struct final_awaitable
 			{
-				scoped_task_promise& m_promise;
-
-				// a variable used to remember if we need to call the continuation.
-				bool m_run_continutation = false;
-
-				bool await_ready() noexcept;
+				bool await_ready() noexcept { return false; }
 
 #ifdef MACORO_CPP_20
 				std::coroutine_handle<> await_suspend(
 					std::coroutine_handle<scoped_task_promise> coro) noexcept
 				{
-					if (m_run_continutation)
-						return m_promise.m_continuation.std_cast();
-					else
-						return std::noop_coroutine();
+					return await_suspend(coroutine_handle<scoped_task_promise>(coro)).std_cast();
 				}
 #endif
 
 				coroutine_handle<> await_suspend(
-					coroutine_handle<scoped_task_promise> coro) noexcept
-				{
-					if (m_run_continutation)
-						return m_promise.m_continuation;
-					else
-						return noop_coroutine();
-				}
+					coroutine_handle<scoped_task_promise> coro) noexcept;
 
-				void await_resume() noexcept {
-				}
+				void await_resume() noexcept {}
 			};
 
-
-
 		public:
 
 			template<typename Awaiter>
@@ -311,7 +292,7 @@ namespace macoro
 			}
 
 			suspend_never initial_suspend() noexcept { return {}; }
-			final_awaitable final_suspend() noexcept { return { *this }; }
+			final_awaitable final_suspend() noexcept { return {}; }
 
 #ifdef MACORO_CPP_20
 			completion_state try_set_continuation(std::coroutine_handle<> continuation) noexcept
-- 
2.43.0


From fd3ccbcd0cf1f59dc595b248d07e69b9d2fce892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 05/43] fix: join of an async_scope lost exceptions

The exceptions were taken when the awaiter was created, so those of tasks that
complete while the join is suspended were lost.
---
 macoro/async_scope.h    | 15 +++++++++++----
 macoro/when_all_scope.h |  3 ++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index c1f7bbc..02bc8cd 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -189,7 +189,7 @@ namespace macoro
 		struct join_awaiter
 		{
 			barrier_awaiter m_barrier;
-			std::vector<std::exception_ptr> m_exceptions;
+			async_scope* m_scope;
 
 			bool await_ready() const noexcept { return m_barrier.await_ready(); }
 
@@ -212,8 +212,15 @@ namespace macoro
 			void await_resume()
 			{
 				m_barrier.await_resume();
-				if (m_exceptions.size())
-					throw async_scope_exception(std::move(m_exceptions));
+
+				// only now all of the exceptions are known.
+				std::vector<std::exception_ptr> exceptions;
+				{
+					std::lock_guard<std::mutex> lock(m_scope->m_exception_mutex);
+					std::swap(exceptions, m_scope->m_exceptions);
+				}
+				if (exceptions.size())
+					throw async_scope_exception(std::move(exceptions));
 			}
 		};
 
@@ -229,7 +236,7 @@ namespace macoro
 		// until all added awaitables have been completed.
 		join_awaiter MACORO_OPERATOR_COAWAIT() & noexcept
 		{
-			return { m_barrier.MACORO_OPERATOR_COAWAIT(), std::move(m_exceptions) };
+			return { m_barrier.MACORO_OPERATOR_COAWAIT(), this };
 		}
 
 	private:
diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index f36bb3d..98c5727 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -151,7 +151,8 @@ namespace macoro
 
 			void await_resume()
 			{
-				m_join.await_resume();
+				// unlike async_scope, the exceptions are not rethrown.
+				m_join.m_barrier.await_resume();
 			}
 		};
 
-- 
2.43.0


From 94fa12c8a7d676572e58c7d53732477563553755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 06/43] fix: when_all_scope never destroyed its coroutine

---
 macoro/when_all_scope.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index 98c5727..b2198f8 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -132,6 +132,17 @@ namespace macoro
 			: m_handle(h)
 		{}
 
+		when_all_scope(when_all_scope&& o) noexcept
+			: m_handle(std::exchange(o.m_handle, nullptr))
+		{}
+		when_all_scope& operator=(when_all_scope&&) = delete;
+
+		~when_all_scope()
+		{
+			if (m_handle)
+				m_handle.destroy();
+		}
+
 		struct awaiter
 		{
 			coroutine_handle<promise_type> m_handle;
-- 
2.43.0


From f61ba5cb9d3323896829f62a3ee4228174401aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 07/43] fix: awaiting a stop token raced with a concurrent stop
 request

The stop callback can run on the requesting thread before emplace has
returned. It then resumed, and possibly destroyed, the coroutine whose
frame holds the optional being constructed. Let whichever of callback and
registration comes second resume the coroutine.
---
 macoro/stop.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/macoro/stop.h b/macoro/stop.h
index e603d6e..a36ae23 100644
--- a/macoro/stop.h
+++ b/macoro/stop.h
@@ -1,6 +1,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <optional>
 #include "macoro/coroutine_handle.h"
@@ -45,15 +46,27 @@ namespace macoro
 		{
 			if (mtoken.stop_possible() && !mtoken.stop_requested())
 			{
-				mReg.emplace(mtoken, [h] {
-					h.resume();
+				// The callback can run on another thread before emplace has returned,
+				// or inline if stop was requested in the meantime. Whichever of the
+				// callback and the registration comes second resumes the coroutine.
+				mReg.emplace(mtoken, [this, h] {
+					if (mState.fetch_or(stopped, std::memory_order_acq_rel) & registered)
+						h.resume();
 					});
 
+				if (mState.fetch_or(registered, std::memory_order_acq_rel) & stopped)
+					return h;
+
 				return noop_coroutine();
 			}
 			return h;
 		}
 		void await_resume() {}
+
+	private:
+		static constexpr unsigned char registered = 1;
+		static constexpr unsigned char stopped = 2;
+		std::atomic<unsigned char> mState{ 0 };
 	};
 
 
-- 
2.43.0


From f88463d55f19f15de32e7e18e6eda0cf04ef91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 08/43] fix: sequence waiters' resume handshake lacked half of
 its ordering

The awaiting thread's exchange was acquire only and the resuming thread's
release only. When the resuming thread came second, the awaiting thread's
last access to the awaiter did not happen before the coroutine was resumed,
reused its frame or freed it.
---
 macoro/sequence_barrier.h | 6 +++---
 macoro/sequence_mpsc.h    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/macoro/sequence_barrier.h b/macoro/sequence_barrier.h
index 9977680..f5841ab 100644
--- a/macoro/sequence_barrier.h
+++ b/macoro/sequence_barrier.h
@@ -167,7 +167,7 @@ namespace macoro
 		{
 			m_awaitingCoroutine = awaitingCoroutine;
 			m_barrier.add_awaiter(this);
-			return !m_readyToResume.exchange(true, std::memory_order_acquire);
+			return !m_readyToResume.exchange(true, std::memory_order_acq_rel);
 		}
 
 		SEQUENCE await_resume() noexcept
@@ -181,8 +181,8 @@ namespace macoro
 
 		void resume() noexcept
 		{
-			// This synchronises with the exchange(true, std::memory_order_acquire) in await_suspend().
-			if (m_readyToResume.exchange(true, std::memory_order_release))
+			// This synchronises with the exchange() in await_suspend(), in whichever order the two happen.
+			if (m_readyToResume.exchange(true, std::memory_order_acq_rel))
 			{
 				m_awaitingCoroutine.resume();
 				//resume_impl();
diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 4833646..2719468 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -362,7 +362,7 @@ namespace macoro
 			// If it was already marked as ready-to-resume within the call to add_awaiter() or
 			// on another thread then this exchange() will return true. In this case we want to
 			// resume immediately and continue execution by returning false.
-			return !m_readyToResume.exchange(true, std::memory_order_acquire);
+			return !m_readyToResume.exchange(true, std::memory_order_acq_rel);
 		}
 
 		SEQUENCE await_resume() noexcept
@@ -377,7 +377,7 @@ namespace macoro
 		void resume(SEQUENCE lastKnownPublished) noexcept
 		{
 			m_lastKnownPublished = lastKnownPublished;
-			if (m_readyToResume.exchange(true, std::memory_order_release))
+			if (m_readyToResume.exchange(true, std::memory_order_acq_rel))
 			{
 				resume_impl();
 			}
-- 
2.43.0


From 5495df71258430604d8d8dcc8f7b8c934af29ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 09/43] fix: batch claims of narrow sequence types overran the
 buffer at wrap-around

The difference of two 8 or 16 bit sequence numbers was computed as int, so
after a wrap it was negative and the number of available slots came out huge.
---
 macoro/sequence_spsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_spsc.h b/macoro/sequence_spsc.h
index e282cf6..608f545 100644
--- a/macoro/sequence_spsc.h
+++ b/macoro/sequence_spsc.h
@@ -242,7 +242,7 @@ namespace macoro
 			const SEQUENCE lastAvailableSequence =
 				static_cast<SEQUENCE>(m_consumerWaitOperation.await_resume() + m_sequencer.m_bufferSize);
 			const SEQUENCE begin = m_sequencer.m_nextToClaim;
-			const std::size_t availableCount = static_cast<std::size_t>(lastAvailableSequence - begin) + 1;
+			const std::size_t availableCount = static_cast<std::size_t>(TRAITS::difference(lastAvailableSequence, begin)) + 1;
 			const std::size_t countToClaim = std::min(m_count, availableCount);
 			const SEQUENCE end = static_cast<SEQUENCE>(begin + countToClaim);
 			m_sequencer.m_nextToClaim = end;
-- 
2.43.0


From 60df69357603721f09ca94175007b2e9fa7e600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 10/43] fix: a waiter of the multi-producer sequencer woke
 others too early

add_awaiter() compared the new awaiter's target instead of each queued
awaiter's own, so it resumed waiters whose slots were not published yet.
---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 2719468..bfa4041 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -686,7 +686,7 @@ namespace macoro
 
 				while (awaiters != nullptr)
 				{
-					diff_t diff = TRAITS::difference(targetSequence, lastKnownPublished);
+					diff_t diff = TRAITS::difference(awaiters->m_targetSequence, lastKnownPublished);
 					if (diff > 0)
 					{
 						// Not yet ready.
-- 
2.43.0


From c6ec34de584bd537cfe26eac180af46b8309ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 11/43] fix: any_available() ignored the last free slot

Slot s is free once s - buffer_size() is released, so the next slot to
claim may equal last_published() + buffer_size().
---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index bfa4041..3a07741 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -455,7 +455,7 @@ namespace macoro
 	{
 		return TRAITS::precedes(
 			m_nextToClaim.load(std::memory_order_relaxed),
-			m_consumerBarrier.last_published() + buffer_size());
+			static_cast<SEQUENCE>(m_consumerBarrier.last_published() + buffer_size() + 1));
 	}
 
 	template<typename SEQUENCE, typename TRAITS>
-- 
2.43.0


From 2df402d5a97b589ccf79db425affd03a0f165a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 12/43] fix: waiters of 8 and 16 bit sequencers were lost at
 wrap-around

lastKnownPublished + 1 is promoted to int and never equals the stored
sequence number once it wraps.
---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 3a07741..b98ad40 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -669,7 +669,7 @@ namespace macoro
 			//
 			// TODO: Check whether we can weaken the memory order here to just use 'seq_cst' on the
 			// first .load() and then use 'acquire' on subsequent .load().
-			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == (lastKnownPublished + 1))
+			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == static_cast<SEQUENCE>(lastKnownPublished + 1))
 			{
 				++lastKnownPublished;
 			}
-- 
2.43.0


From 72bc7d810e720deb989ecb97a87bc40805ec0105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 13/43] fix: popping a closed channel returned a default
 element

close() documents that the receiver throws when it tries to pop; only
front() did.
---
 macoro/channel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macoro/channel.h b/macoro/channel.h
index 598efa3..cd6d6d7 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -324,6 +324,8 @@ namespace macoro
                 pop_wrapper await_resume() {
                     this->mChl->mLastKnown = this->mInner.await_resume();
                     assert(this->mChl->mLastKnown >= this->mChl->mFrontIndex);
+                    if (!this->mChl->mData[this->mChl->mFrontIndex & this->mChl->mIndexMask])
+                        throw channel_closed_exception{};
                     return pop_wrapper(this->mChl, this->mChl->mFrontIndex);
                 }
             };
-- 
2.43.0


From 0fb39cd5fe81f2e7cf3f0409f04d3c9dcafd4e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 14/43] fix: thread_pool notified its condition variable after
 it could be destroyed

The last item or work token was published under the lock but the condition
variable was notified after unlocking. By then the pool's threads can have
run the item and returned, and the joining thread can have destroyed the pool.
---
 macoro/thread_pool.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 8bf9478..d38d77a 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -77,10 +77,12 @@ namespace macoro
                 //log("post");
                 assert(fn);
                 {
+                    // notify under the lock. Once it is released the item can run
+                    // and the pool might be destroyed by whoever joins it.
                     std::lock_guard<std::mutex> lock(mMutex);
                     mDeque.push_back(std::move(fn));
+                    mCondition.notify_one();
                 }
-                mCondition.notify_one();
             }
 
             MACORO_NODISCARD
@@ -94,9 +96,9 @@ namespace macoro
                     {
                         std::lock_guard<std::mutex> lock(mMutex);
                         mDeque.push_back(std::move(fn));
+                        mCondition.notify_one();
                     }
 
-                    mCondition.notify_one();
                     return false;
                 }
             }
@@ -243,14 +245,12 @@ namespace macoro
                 if (mEx)
                 {
 
-                    std::size_t v = 0;
                     {
+                        // notify under the lock. Once it is released the pool's
+                        // threads can return and the pool might be destroyed.
                         std::lock_guard<std::mutex> lock(mEx->mMutex);
-                        v = --mEx->mWork;
-                    }
-                    if (v == 0)
-                    {
-                        mEx->mCondition.notify_all();
+                        if (--mEx->mWork == 0)
+                            mEx->mCondition.notify_all();
                     }
                     mEx = nullptr;
                 }
-- 
2.43.0


From e8f90e487c9991ab3e0eba6ba045761347cecdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 15/43] fix: threads of a moved thread_pool used the moved-from
 object

the threads captured the thread_pool object and read its state pointer when
they started, while the object can be moved or destroyed after a move.
---
 macoro/thread_pool.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index d38d77a..96ee94e 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -336,7 +336,7 @@ namespace macoro
                 mState->mThreads.reserve(mState->mThreads.size() + n);
                 for (std::size_t i = 0; i < n; ++i)
                 {
-                    mState->mThreads.emplace_back([this] {run(); });
+                    mState->mThreads.emplace_back([state = mState.get()] {run(state); });
                 }
             }
         }
@@ -377,7 +377,13 @@ namespace macoro
 
         void run()
         {
-            auto state = mState.get();
+            run(mState.get());
+        }
+
+    private:
+
+        static void run(detail::thread_pool_state* state)
+        {
             //state->log("run");
 
             if (detail::thread_pool_state::mCurrentExecutor != nullptr)
-- 
2.43.0


From dfbb3005939a5d78eb8465f91fe5e3142ec893ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 16/43] fix: schedule_after used its awaiter after the
 operation could complete

the stop callback was registered in the awaiter after the operation was
pushed on the delay heap. By then a pool thread can have resumed the
coroutine and freed the awaiter.
---
 macoro/thread_pool.h | 45 +++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 96ee94e..9e02bed 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -110,27 +110,38 @@ namespace macoro
                 optional_stop_callback& reg
             )
             {
-                if (token.stop_requested() == false)
+                if (token.stop_requested())
                 {
-                    std::size_t idx;
-                    {
-                        std::unique_lock<std::mutex> lock(mMutex);
-                        idx = mDelayOpIdx++;
-                        mDelayHeap.emplace_back(idx, h, deadline);
-                        std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
-                    }
+                    post(h);
+                    return;
+                }
 
-                    if (token.stop_possible())
-                    {
-                        reg.emplace(std::move(token), [idx, this] {
-                            cancel_delay_op(idx);
-                            });
-                    }
-                    mCondition.notify_one();
+                // once the operation is in the heap, h can be resumed and token, reg
+                // destroyed. Therefore register first and keep our own copy of the token.
+                stop_token t = std::move(token);
+                std::size_t idx;
+                {
+                    std::unique_lock<std::mutex> lock(mMutex);
+                    idx = mDelayOpIdx++;
                 }
-                else
+
+                if (t.stop_possible())
                 {
-                    post(h);
+                    reg.emplace(t, [idx, this] {
+                        cancel_delay_op(idx);
+                        });
+                }
+
+                {
+                    std::unique_lock<std::mutex> lock(mMutex);
+
+                    // the callback could have run before the operation was in the heap.
+                    if (t.stop_requested())
+                        deadline = thread_pool_clock::now();
+
+                    mDelayHeap.emplace_back(idx, h, deadline);
+                    std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
+                    mCondition.notify_one();
                 }
             }
 
-- 
2.43.0


From 0353e5b7cb1fd7e731987683ec5fbc15d33f97e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 17/43] fix: thread_pool::run waited on a reference into the
 delay heap

wait_until reads the deadline again after it was unblocked, at which point
the heap can have been changed or reallocated by another thread.
---
 macoro/thread_pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 9e02bed..10a9544 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -418,7 +418,9 @@ namespace macoro
 
                         if (state->mDelayHeap.size())
                         {
-                            state->mCondition.wait_until(lock, state->mDelayHeap.front().deadline);
+                            // copy, the heap can change while we wait.
+                            auto deadline = state->mDelayHeap.front().deadline;
+                            state->mCondition.wait_until(lock, deadline);
                         }
                         else
                         {
-- 
2.43.0


From c104d5dfde546b2c823b8792fba370858a95bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 18/43] fix: idle thread_pool threads slept through delayed
 work and shutdown

only one thread is notified about a delayed operation. If it then runs
another item, no other thread waits for the deadline. Also, threads that
waited for the deadline of a canceled operation did not return before it.
---
 macoro/thread_pool.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 10a9544..fe6d434 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -452,6 +452,11 @@ namespace macoro
 
                     if (fn)
                     {
+                        // there might be an idle thread that missed the other items, or their
+                        // deadline, because we are the one who was notified about them.
+                        if (state->mDeque.size() || state->mDelayHeap.size())
+                            state->mCondition.notify_one();
+
                         lock.unlock();
 
                         fn.resume();
@@ -461,6 +466,9 @@ namespace macoro
                     }
                     //state->log("run::next");
                 }
+
+                // others might still be waiting for the deadline of an operation that was canceled.
+                state->mCondition.notify_all();
             }
 
             detail::thread_pool_state::mCurrentExecutor = nullptr;
-- 
2.43.0


From 1d333bb377c8d7ed2a088fce994a2faf0997d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:53 +0000
Subject: [PATCH 19/43] fix: thread_pool::run() leaves the thread's executor
 set when a continuation throws

---
 macoro/thread_pool.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index fe6d434..3f32eb7 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -459,7 +459,16 @@ namespace macoro
 
                         lock.unlock();
 
-                        fn.resume();
+                        try
+                        {
+                            fn.resume();
+                        }
+                        catch (...)
+                        {
+                            // the thread leaves the pool, it must not be treated as part of it.
+                            detail::thread_pool_state::mCurrentExecutor = nullptr;
+                            throw;
+                        }
                         fn = {};
 
                         lock.lock();
-- 
2.43.0


From 915a319e4cab78638b13995c139209bdf648cc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:20 +0000
Subject: [PATCH 20/43] fix: result::value() const called itself

---
 macoro/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/result.h b/macoro/result.h
index 8afac5f..9d28b0c 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -327,7 +327,7 @@ namespace macoro
 			if (has_error())
 				result_rethrow(error());
 
-			return value();
+			return MACORO_VARIANT_NAMESPACE::get<0>(var());
 		}
 
 		const value_type& operator*() const { return value(); }
-- 
2.43.0


From 81fc6310b688d96b807431a05c7e40664d5038ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:20 +0000
Subject: [PATCH 21/43] fix: result::operator!= could not be used

---
 macoro/result.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index 9d28b0c..a14fdd7 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -445,24 +445,24 @@ namespace macoro
 		template<typename T2>
 		bool operator!=(detail::OkTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename T2>
 		bool operator!=(detail::OkMvTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 
@@ -600,12 +600,12 @@ namespace macoro
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		detail::result_awaiter<void, Error> MACORO_OPERATOR_COAWAIT()
-- 
2.43.0


From 9591f7cd9ed813b96012a94c3b93815940cf87a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:20 +0000
Subject: [PATCH 22/43] fix: Ok(x) and Err(x) moved from a named object and
 rejected a const one

---
 macoro/result.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index a14fdd7..caca7c6 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -19,7 +19,7 @@ namespace macoro
 		struct OkTag {
 			const T& mV;
 
-			OkTag(T& e)
+			OkTag(const T& e)
 				:mV(e)
 			{}
 
@@ -53,7 +53,7 @@ namespace macoro
 		struct ErrorTag {
 			const E& mE;
 
-			ErrorTag(E& e)
+			ErrorTag(const E& e)
 				:mE(e)
 			{}
 
@@ -100,7 +100,8 @@ namespace macoro
 		return detail::ErrorTag<remove_cvref_t<T>>(t);
 	}
 
-	template<typename T>
+	// only for rvalues, a named object must not be moved from.
+	template<typename T, enable_if_t<!std::is_reference<T>::value && !std::is_const<T>::value, int> = 0>
 	detail::ErrorMvTag<remove_cvref_t<T>> Err(T&& t)
 	{
 		return detail::ErrorMvTag<remove_cvref_t<T>>(t);
@@ -118,7 +119,8 @@ namespace macoro
 		return detail::OkTag<remove_cvref_t<T>>(t);
 	}
 
-	template<typename T>
+	// only for rvalues, a named object must not be moved from.
+	template<typename T, enable_if_t<!std::is_reference<T>::value && !std::is_const<T>::value, int> = 0>
 	detail::OkMvTag<remove_cvref_t<T>> Ok(T&& t)
 	{
 		return detail::OkMvTag<remove_cvref_t<T>>(t);
-- 
2.43.0


From 40f4d57db8e7451f2ce15aa2254cf2f1bcc9f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 23/43] fix: MC_AWAIT could not await an awaiter that takes
 only std::coroutine_handle

The void and bool forms of await_suspend named a.await_suspend(h) with macoro's
handle in their exception specification, which does not compile for such an
awaiter. Use the same trait as the form returning a handle.
---
 macoro/coro_frame.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 26a1772..173592d 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -93,6 +93,20 @@ namespace macoro
 	}
 #endif
 
+	template<typename Awaiter, typename T>
+	constexpr bool noexcept_await_suspend()
+	{
+
+		if constexpr (requires(Awaiter a, coroutine_handle<T> h) { a.await_suspend(h); })
+		{
+			return noexcept(std::declval<Awaiter&>().await_suspend(coroutine_handle<T>{}));
+		}
+		else
+		{
+			return noexcept(std::declval<Awaiter&>().await_suspend(std::coroutine_handle<void>{}));
+		}
+	}
+
 	template<typename Awaiter, typename T>
 	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
@@ -101,7 +115,7 @@ namespace macoro
 		||
 		has_void_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept(a.await_suspend(h)))
+		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 		auto h2 = implicit_cast<has_void_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
 		a.await_suspend(h2);
@@ -116,7 +130,7 @@ namespace macoro
 		||
 		has_bool_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept(await_suspend_t<bool>{ a.await_suspend(h) }))
+		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 
 		auto h2 = implicit_cast<has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
@@ -124,20 +138,6 @@ namespace macoro
 	}
 
 
-	template<typename Awaiter, typename T>
-	constexpr bool noexcept_await_suspend()
-	{
-
-		if constexpr (requires(Awaiter a, coroutine_handle<T> h) { a.await_suspend(h); })
-		{
-			return noexcept(std::declval<Awaiter>().await_suspend(coroutine_handle<T>{}));
-		}
-		else
-		{
-			return noexcept(std::declval<Awaiter>().await_suspend(std::coroutine_handle<void>{}));
-		}
-	}
-
 	template<typename Awaiter, typename T>
 	auto await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
-- 
2.43.0


From f5b152daf7409a4841468219a5d40eb21d2c4165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:16 +0000
Subject: [PATCH 24/43] fix: a macro coroutine that runs off its end did not
 call return_void()

The end of the body of a coroutine whose promise has return_void() is an
implicit co_return.
---
 macoro/coro_frame.h | 8 ++++++++
 macoro/macros.h     | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 173592d..06b40db 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -178,6 +178,14 @@ namespace macoro
 		}
 	}
 
+	// call promise.return_void() if there is such a function.
+	template<typename Promise>
+	void return_void_if(Promise& promise)
+	{
+		if constexpr (requires { promise.return_void(); })
+			promise.return_void();
+	}
+
 	// Intended to be equivalent to auto&&. When given
 	// an lvalue it works as a reference. For an xvalue
 	// (i.e. a non-reference return from a function (T) 
diff --git a/macoro/macros.h b/macoro/macros.h
index 9f5ee5e..45cb9db 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -194,6 +194,8 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // End the coroutine body.
 #define MC_END()																								\
+				/*falling off the end of the body is an implicit `co_return;`*/								\
+				::macoro::return_void_if(_macoro_frame_->promise);												\
 				break; 																							\
 			case (std::size_t)::macoro::SuspensionPoint::FinalSuspend:														\
 				goto MACORO_FINAL_SUSPEND_RESUME;																\
-- 
2.43.0


From 1aed345528ae3c00fdf380fa9b7e8246be7adc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:16 +0000
Subject: [PATCH 25/43] fix: the frame of a macro coroutine leaked when it
 failed to start

An exception from get_return_object() or from awaiting initial_suspend()
reaches the caller, the frame has to be destroyed.
---
 macoro/coro_frame.h | 14 ++++++++++++++
 macoro/macros.h     |  8 ++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 06b40db..cffd696 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -765,6 +765,20 @@ namespace macoro
 		return !bool((std::size_t)_address & 1);
 	}
 #endif
+	// get the return object of a new coroutine. The frame
+	// is destroyed if that throws.
+	template<typename Frame>
+	decltype(auto) make_return_object(Frame* frame)
+	{
+		try {
+			return frame->promise.macoro_get_return_object();
+		}
+		catch (...) {
+			frame->destroy(frame);
+			throw;
+		}
+	}
+
 	template<typename Promise>
 	Promise* _macoro_coro_promise(void* _address) noexcept
 	{
diff --git a/macoro/macros.h b/macoro/macros.h
index 45cb9db..2441a0e 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -208,7 +208,11 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 		catch (...) {																							\
 			_macoro_frame_->destroyAwaiters();																	\
 			if (!_macoro_frame_->_initial_suspend_await_resumed_called_)										\
-				throw; 																							\
+			{																									\
+				/*the coroutine did not start, the caller gets the exception*/									\
+				_macoro_frame_->destroy(_macoro_frame_);														\
+				throw;																							\
+			}																									\
 			MC_UNHANDLED_EXCEPTION;																				\
 		}																										\
 		/*final suspend*/																						\
@@ -223,7 +227,7 @@ MACORO_FINAL_SUSPEND_RESUME:																					\
 		return ::macoro::noop_coroutine();																				\
 	});																											\
 																												\
-	auto _macoro_ret_ = _macoro_frame_->promise.macoro_get_return_object();										\
+	auto _macoro_ret_ = ::macoro::make_return_object(_macoro_frame_);										\
 	using macoro_promise_type = decltype(_macoro_frame_->promise);												\
 	using Handle = ::macoro::coroutine_handle<macoro_promise_type>;												\
 	macoro_promise_type& promise = _macoro_frame_->promise;														\
-- 
2.43.0


From 9913c3934adf0e5d2a82677b0b2a000b86f61625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:04 +0000
Subject: [PATCH 26/43] fix: MC_AWAIT_TRY let exceptions through that came
 before the resumption

It is documented as try { VARIABLE = Ok(co_await EXPRESSION); } catch (...) {
VARIABLE = Err(std::current_exception()); }, but an exception from evaluating
EXPRESSION, await_ready() or await_suspend() was not caught.
---
 macoro/macros.h | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/macoro/macros.h b/macoro/macros.h
index 2441a0e..f15336e 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -10,6 +10,13 @@
 #define MACORO_EXPAND(x) MACORO_PP_EXPAND_I(x)
 #define MACORO_PP_EXPAND_I(x) x
 
+// This macro names the types that a co_await expression is made of.
+#define IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX)																				\
+	using _macoro_promise_type = decltype(_macoro_frame_->promise);														\
+	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<_macoro_promise_type, SUSPEND_IDX,		\
+		::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>>;						\
+	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;
+
 // This macro expands out to generated the awaiter/awaitable constructors, and
 // then the await_ready and await_suspend calls. This should be used with other 
 // macros which perform the await_resume call and define the suspend case.
@@ -26,11 +33,7 @@
 // the value returned from the function.
 // 
 // Then we have the awaiter, we call await_ready and await_suspend.
-#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)																	\
-	using _macoro_promise_type = decltype(_macoro_frame_->promise);														\
-	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<_macoro_promise_type, SUSPEND_IDX,		\
-		::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>>;						\
-	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;											\
+#define IMPL_MC_AWAIT_SUSPEND(EXPRESSION, SUSPEND_IDX)																				\
 	{																													\
 		auto& _macoro_promise = _macoro_frame_->promise;																\
 		auto _macoro_handle = _macoro_Handle::from_promise(_macoro_promise, ::macoro::coroutine_handle_type::macoro);	\
@@ -51,7 +54,12 @@
 			if (_macoro_s)																						\
 				return _macoro_s.get_handle();																	\
 		}																										\
-	}																					
+	}
+
+// Both of the above. The types are visible to the code that resumes.
+#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)																	\
+	IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX)																\
+	IMPL_MC_AWAIT_SUSPEND(EXPRESSION, SUSPEND_IDX)
 
 // This macro expands out to generated the await_ready and await_suspend calls.
 // It defines a suspension point but does not call await_resume. This should be
@@ -75,7 +83,18 @@
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
 #define IMPL_MC_AWAIT_TRY(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)													\
 				do{																								\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX)												\
+					try																						\
+					{																							\
+						IMPL_MC_AWAIT_SUSPEND(EXPRESSION, SUSPEND_IDX)											\
+					}																							\
+					catch (...)																				\
+					{																							\
+						_macoro_frame_->destroyAwaiters();														\
+						RETURN_SLOT = ::macoro::Err(std::current_exception());									\
+						break;																					\
+					}																							\
+					MACORO_FALLTHROUGH; case (std::size_t)::macoro::SuspensionPoint(SUSPEND_IDX):				\
 					/*<resume-point>*/																			\
 					::macoro::detail::try_resume(RETURN_SLOT, 													\
 						_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>());	\
-- 
2.43.0


From 850468dd56906c518a18441171f7595f90fc6483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:53 +0000
Subject: [PATCH 27/43] fix: await_transform was applied to initial_suspend,
 final_suspend and yields

A promise's await_transform(...) applies to co_await expressions only.
---
 macoro/coro_frame.h |  5 ++++
 macoro/macros.h     | 57 +++++++++++++++++++++++----------------------
 2 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index cffd696..910e322 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -178,6 +178,11 @@ namespace macoro
 		}
 	}
 
+	// stands in for the promise of an await that await_transform
+	// does not apply to: initial_suspend, final_suspend and yields.
+	struct no_await_transform {};
+	inline no_await_transform no_await_transform_v;
+
 	// call promise.return_void() if there is such a function.
 	template<typename Promise>
 	void return_void_if(Promise& promise)
diff --git a/macoro/macros.h b/macoro/macros.h
index f15336e..115a39d 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -10,10 +10,11 @@
 #define MACORO_EXPAND(x) MACORO_PP_EXPAND_I(x)
 #define MACORO_PP_EXPAND_I(x) x
 
-// This macro names the types that a co_await expression is made of.
-#define IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX)																				\
+// This macro names the types that a co_await expression is made of. PROMISE is the object whose
+// await_transform(...) is used, if there is one.
+#define IMPL_MC_AWAIT_TYPES(EXPRESSION, PROMISE, SUSPEND_IDX)																				\
 	using _macoro_promise_type = decltype(_macoro_frame_->promise);														\
-	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<_macoro_promise_type, SUSPEND_IDX,		\
+	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<std::remove_reference_t<decltype(PROMISE)>, SUSPEND_IDX,		\
 		::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>>;						\
 	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;
 
@@ -33,13 +34,13 @@
 // the value returned from the function.
 // 
 // Then we have the awaiter, we call await_ready and await_suspend.
-#define IMPL_MC_AWAIT_SUSPEND(EXPRESSION, SUSPEND_IDX)																				\
+#define IMPL_MC_AWAIT_SUSPEND(EXPRESSION, PROMISE, SUSPEND_IDX)																				\
 	{																													\
 		auto& _macoro_promise = _macoro_frame_->promise;																\
 		auto _macoro_handle = _macoro_Handle::from_promise(_macoro_promise, ::macoro::coroutine_handle_type::macoro);	\
 		auto& _macoro_ctx = _macoro_frame_->template makeAwaitContext<MACORO_CAT(_macoro_AwaitContext, SUSPEND_IDX)>();	\
 		_macoro_ctx.expr.ptr      = new (_macoro_ctx.expr.v())      typename decltype(_macoro_ctx.expr)::Constructor(EXPRESSION);															\
-		_macoro_ctx.awaitable.ptr = new (_macoro_ctx.awaitable.v()) typename decltype(_macoro_ctx.awaitable)::Constructor(macoro::get_awaitable(_macoro_promise, _macoro_ctx.expr.get()));	\
+		_macoro_ctx.awaitable.ptr = new (_macoro_ctx.awaitable.v()) typename decltype(_macoro_ctx.awaitable)::Constructor(macoro::get_awaitable(PROMISE, _macoro_ctx.expr.get()));	\
 		_macoro_ctx.awaiter.ptr   = new (_macoro_ctx.awaiter.v())   typename decltype(_macoro_ctx.awaiter)::Constructor(macoro::get_awaiter(_macoro_ctx.awaitable.get()));					\
 		auto& _macoro_awaiter = _macoro_ctx.awaiter.getRef();													\
 		*_macoro_ctx.awaiter_ptr = (void*)&_macoro_awaiter;														\
@@ -57,22 +58,22 @@
 	}
 
 // Both of the above. The types are visible to the code that resumes.
-#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)																	\
-	IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX)																\
-	IMPL_MC_AWAIT_SUSPEND(EXPRESSION, SUSPEND_IDX)
+#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, PROMISE, SUSPEND_IDX)																	\
+	IMPL_MC_AWAIT_TYPES(EXPRESSION, PROMISE, SUSPEND_IDX)																\
+	IMPL_MC_AWAIT_SUSPEND(EXPRESSION, PROMISE, SUSPEND_IDX)
 
 // This macro expands out to generated the await_ready and await_suspend calls.
 // It defines a suspension point but does not call await_resume. This should be
 // used with other macros which perform the await_resume call.
-#define IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)	IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)				\
+#define IMPL_MC_AWAIT_CORE(EXPRESSION, PROMISE, SUSPEND_IDX)	IMPL_MC_AWAIT_CORE_NS(EXPRESSION, PROMISE, SUSPEND_IDX)				\
 			MACORO_FALLTHROUGH; case (std::size_t)::macoro::SuspensionPoint(SUSPEND_IDX):		
 
 // a helper macro that defines a basic co_await expression. 
 // RETURN_SLOT can be used to set a variable to the result of the co_await expression.
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
-#define IMPL_MC_AWAIT(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)														\
+#define IMPL_MC_AWAIT(EXPRESSION, PROMISE, RETURN_SLOT, SUSPEND_IDX)														\
 				do {																							\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_CORE(EXPRESSION, PROMISE, SUSPEND_IDX)													\
 					/*<resume-point>*/																			\
 					RETURN_SLOT _macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume();		\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
@@ -83,10 +84,10 @@
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
 #define IMPL_MC_AWAIT_TRY(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)													\
 				do{																								\
-					IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX)												\
+					IMPL_MC_AWAIT_TYPES(EXPRESSION, _macoro_frame_->promise, SUSPEND_IDX)												\
 					try																						\
 					{																							\
-						IMPL_MC_AWAIT_SUSPEND(EXPRESSION, SUSPEND_IDX)											\
+						IMPL_MC_AWAIT_SUSPEND(EXPRESSION, _macoro_frame_->promise, SUSPEND_IDX)											\
 					}																							\
 					catch (...)																				\
 					{																							\
@@ -104,9 +105,9 @@
 // A helper macro that implements the MC_YIELD_AWAIT. We first perform a normal co_await
 // and then we call another co_await on the result of promise.yield_value(awaiter.await_resume()).
 #define IMPL_MC_YIELD_AWAIT(EXPRESSION, SUSPEND_IDX)															\
-				do {	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)												\
+				do {	IMPL_MC_AWAIT_CORE(EXPRESSION, _macoro_frame_->promise, SUSPEND_IDX)												\
 					/*<resume-point>*/																			\
-					IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume()), ,__COUNTER__);\
+					IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume()), ::macoro::no_await_transform_v, ,__COUNTER__);\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
 				} while(0)
 
@@ -114,18 +115,18 @@
 // A helper macro that implements the MC_AWAIT_AWAIT. We first perform a normal co_await
 // and then we call another co_await on the result of awaiter.await_resume().
 #define IMPL_MC_AWAIT_AWAIT(EXPRESSION, SUSPEND_IDX)															\
-				do{	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+				do{	IMPL_MC_AWAIT_CORE(EXPRESSION, _macoro_frame_->promise, SUSPEND_IDX)													\
 					/*<resume-point>*/																			\
-					IMPL_MC_AWAIT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume(), ,__COUNTER__);\
+					IMPL_MC_AWAIT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume(), _macoro_frame_->promise, ,__COUNTER__);\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
 				} while(0)
 
 
 // A helper macro that implements the MC_AWAIT_FN. We first perform a normal co_await
 // and then we call the function with the await_resume result as the parameter.
-#define IMPL_MC_AWAIT_FN(FN_SLOT, EXPRESSION, OPTIONAL_GOTO, SUSPEND_IDX)										\
+#define IMPL_MC_AWAIT_FN(FN_SLOT, EXPRESSION, PROMISE, OPTIONAL_GOTO, SUSPEND_IDX)										\
 				do{																								\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_CORE(EXPRESSION, PROMISE, SUSPEND_IDX)													\
 					/*<resume-point>*/																			\
 					FN_SLOT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume());							\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
@@ -144,7 +145,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 			{																									\
 			case (std::size_t)::macoro::SuspensionPoint::InitialSuspendBegin:												\
 				do {																								\
-					IMPL_MC_AWAIT_CORE(_macoro_frame_->promise.initial_suspend(), MACORO_INITIAL_SUSPEND_IDX)	\
+					IMPL_MC_AWAIT_CORE(_macoro_frame_->promise.initial_suspend(), ::macoro::no_await_transform_v, MACORO_INITIAL_SUSPEND_IDX)	\
 					_macoro_frame_->_initial_suspend_await_resumed_called_ = true;								\
 					_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,MACORO_INITIAL_SUSPEND_IDX)>().await_resume();			\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,MACORO_INITIAL_SUSPEND_IDX)>();						\
@@ -163,7 +164,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // Calls the given function on the result of the co_await expression. This is equivalent to
 // `f(co_await EXPRESSION)` where f is the function name provided.
-#define MC_AWAIT_FN(FN_SLOT, EXPRESSION)	IMPL_MC_AWAIT_FN(FN_SLOT,EXPRESSION, , __COUNTER__)					
+#define MC_AWAIT_FN(FN_SLOT, EXPRESSION)	IMPL_MC_AWAIT_FN(FN_SLOT, EXPRESSION, _macoro_frame_->promise, , __COUNTER__)					
 
 // Returns void. Equivalent to `co_return;`
 #define MC_RETURN_VOID()																						\
@@ -178,12 +179,12 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // perform a basic co_await expression. This is equivalent to
 // `co_await EXPRESSION`
-#define MC_AWAIT(EXPRESSION)				IMPL_MC_AWAIT(EXPRESSION, , __COUNTER__)
+#define MC_AWAIT(EXPRESSION)				IMPL_MC_AWAIT(EXPRESSION, _macoro_frame_->promise, , __COUNTER__)
 
 
 // perform a basic co_await expression and set VARIABLE to the result. This is equivalent to
 // `VARIABLE = co_await EXPRESSION`
-#define MC_AWAIT_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(EXPRESSION, VARIABLE = , __COUNTER__)
+#define MC_AWAIT_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(EXPRESSION, _macoro_frame_->promise, VARIABLE = , __COUNTER__)
 
 
 // perform a basic co_await expression and set VARIABLE to the Ok(result) or Err(std::current_exception()). This is equivalent to
@@ -193,21 +194,21 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // perform a basic co_await expression and return to the result. This is equivalent to
 // `co_return co_await EXPRESSION`
-#define MC_RETURN_AWAIT(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, EXPRESSION, goto MACORO_FINAL_SUSPEND_BEGIN;,__COUNTER__)
+#define MC_RETURN_AWAIT(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, EXPRESSION, _macoro_frame_->promise, goto MACORO_FINAL_SUSPEND_BEGIN;,__COUNTER__)
 
 
 // perform a basic co_yeild expression. This is equivalent to
 // `co_yeild EXPRESSION`
-#define MC_YIELD(EXPRESSION)				MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_YIELD(EXPRESSION)				IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION), ::macoro::no_await_transform_v, , __COUNTER__);
 
 
 // perform a basic co_yeild expression and set VARIABLE to the result. This is equivalent to
 // `VARIABLE = co_yeild EXPRESSION`
-#define MC_YIELD_SET(VARIABLE, EXPRESSION)	MC_AWAIT_SET(VARIABLE , _macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_YIELD_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION), ::macoro::no_await_transform_v, VARIABLE = , __COUNTER__);
 
 // perform a basic co_yeild expression and return to the result. This is equivalent to
 // `co_return co_yeild EXPRESSION`
-#define MC_RETURN_YIELD(EXPRESSION)			MC_RETURN_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_RETURN_YIELD(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, _macoro_frame_->promise.yield_value(EXPRESSION), ::macoro::no_await_transform_v, goto MACORO_FINAL_SUSPEND_BEGIN;, __COUNTER__);
 
 #define MC_UNHANDLED_EXCEPTION _macoro_frame_->promise.unhandled_exception()
 
@@ -238,7 +239,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 goto MACORO_FINAL_SUSPEND_BEGIN; /*prevents unused warning*/													\
 MACORO_FINAL_SUSPEND_BEGIN:																						\
 		_macoro_frame_->final_suspend();																		\
-		IMPL_MC_AWAIT_CORE_NS(_macoro_frame_->promise.final_suspend(), MACORO_FINAL_SUSPEND_IDX)				\
+		IMPL_MC_AWAIT_CORE_NS(_macoro_frame_->promise.final_suspend(), ::macoro::no_await_transform_v, MACORO_FINAL_SUSPEND_IDX)				\
 MACORO_FINAL_SUSPEND_RESUME:																					\
 		_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext, MACORO_FINAL_SUSPEND_IDX)>().await_resume();	\
 		_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext, MACORO_FINAL_SUSPEND_IDX)>();	\
-- 
2.43.0


From 459152bb87edb37770d9d5b8bf9be93e891b1383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:53 +0000
Subject: [PATCH 28/43] fix: a macro coroutine whose unhandled_exception()
 throws was not done()

Such a coroutine is considered suspended at its final suspend point.
---
 macoro/macros.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/macoro/macros.h b/macoro/macros.h
index 115a39d..4512bf2 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -233,7 +233,15 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 				_macoro_frame_->destroy(_macoro_frame_);														\
 				throw;																							\
 			}																									\
-			MC_UNHANDLED_EXCEPTION;																				\
+			try {																								\
+				MC_UNHANDLED_EXCEPTION;																		\
+			}																									\
+			catch (...) {																						\
+				/*the coroutine is considered suspended at its final suspend point*/							\
+				_macoro_frame_->_suspension_idx_ = ::macoro::SuspensionPoint::FinalSuspend;					\
+				_macoro_frame_->final_suspend();																\
+				throw;																							\
+			}																									\
 		}																										\
 		/*final suspend*/																						\
 goto MACORO_FINAL_SUSPEND_BEGIN; /*prevents unused warning*/													\
-- 
2.43.0


From 610676ff6988fa173f626d2d6167e5b2b166a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:08 +0000
Subject: [PATCH 29/43] fix: done() and destroy() of a type erased noop
 coroutine_handle dereferenced a bogus address

---
 macoro/coro_frame.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 910e322..dcea48b 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -837,6 +837,9 @@ namespace macoro
 
 	inline bool _macoro_coro_done(void* _address)noexcept
 	{
+		// the type erased noop coroutine has no frame.
+		if (_address == noop_coroutine().address())
+			return false;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
@@ -936,6 +939,9 @@ namespace macoro
 
 	inline void _macoro_coro_destroy(void* _address)noexcept
 	{
+		// the type erased noop coroutine has no frame.
+		if (_address == noop_coroutine().address())
+			return;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
-- 
2.43.0


From c3841162f379e9c25df890c95ca04d5dd56d4f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:08 +0000
Subject: [PATCH 30/43] fix: the trace of a void child of when_all lacked the
 awaiting coroutines

---
 macoro/detail/when_all_task.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/macoro/detail/when_all_task.h b/macoro/detail/when_all_task.h
index a30b974..7c93de2 100644
--- a/macoro/detail/when_all_task.h
+++ b/macoro/detail/when_all_task.h
@@ -220,9 +220,14 @@ namespace macoro
 				}
 			}
 
+			traceable* get_traceable()
+			{
+				return m_awaitable;
+			}
+
 			//private:
 
-			when_all_ready_awaitable_base* m_awaitable;
+			when_all_ready_awaitable_base* m_awaitable = nullptr;
 			coroutine_handle_type m_type;
 			//when_all_counter* m_counter;
 			std::exception_ptr m_exception;
-- 
2.43.0


From ba9297eb874dc5d4b3e50d70ecdca54027b06dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:08 +0000
Subject: [PATCH 31/43] fix: awaiting an lvalue when_all_ready discarded the
 awaiting coroutine from the trace

---
 macoro/detail/when_all_awaitable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/detail/when_all_awaitable.h b/macoro/detail/when_all_awaitable.h
index 24ff599..511bb67 100644
--- a/macoro/detail/when_all_awaitable.h
+++ b/macoro/detail/when_all_awaitable.h
@@ -131,7 +131,7 @@ namespace macoro
 				bool await_suspend(std::coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return await_suspend(coroutine_handle<>(awaitingCoroutine), loc);
+					return m_awaitable.try_await(coroutine_handle<>(awaitingCoroutine));
 				}
 #endif
 				template<typename Promise>
-- 
2.43.0


From 16074ee2ce1f28ab54d928214de88b763c387bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 32/43] fix: wrap passes the location of the await on whatever
 await_suspend returns

---
 macoro/wrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/wrap.h b/macoro/wrap.h
index 21028c6..957409f 100644
--- a/macoro/wrap.h
+++ b/macoro/wrap.h
@@ -32,7 +32,7 @@ namespace macoro
 			template<typename Handle>
 			auto await_suspend(Handle h)
 			{
-				if constexpr (requires(awaiter_storage m_awaiter) { { m_awaiter.await_suspend(h, m_loc) } -> std::convertible_to<int>; })
+				if constexpr (requires { m_awaiter.await_suspend(h, m_loc); })
 				{
 					return m_awaiter.await_suspend(h, m_loc);
 				}
-- 
2.43.0


From cd4fa60a1dcd8631802c4227e7e92b8601ae16ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 33/43] fix: joining a thread_pool missed threads created by
 its own continuations

---
 macoro/thread_pool.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 3f32eb7..33e6b2e 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -362,14 +362,21 @@ namespace macoro
             if (mState)
             {
 
-                std::vector<std::thread> thrds;
+                // the threads that are running can create further ones.
+                while (true)
                 {
-                    std::unique_lock<std::mutex> lock(mState->mMutex);
-                    thrds = std::move(mState->mThreads);
-                }
+                    std::vector<std::thread> thrds;
+                    {
+                        std::unique_lock<std::mutex> lock(mState->mMutex);
+                        thrds.swap(mState->mThreads);
+                    }
 
-                for (auto& t : thrds)
-                    t.join();
+                    if (thrds.empty())
+                        break;
+
+                    for (auto& t : thrds)
+                        t.join();
+                }
             }
         }
 
-- 
2.43.0


From c5a80df08d18af4aa02a5c4eee6e9024c6a282bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:35 +0000
Subject: [PATCH 34/43] fix: coroutines whose promise is not from
 macoro::detail, or macro coroutines, could not await barriers and scopes

---
 macoro/barrier.h        |  2 +-
 macoro/when_all_scope.h | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/macoro/barrier.h b/macoro/barrier.h
index 03c0c49..70cb357 100644
--- a/macoro/barrier.h
+++ b/macoro/barrier.h
@@ -142,7 +142,7 @@ namespace macoro
 		auto count = m_barrier.m_count.load(std::memory_order_acquire);
 		if (count)
 		{
-			set_parent(get_traceable(continuation), loc);
+			set_parent(detail::get_traceable(continuation), loc);
 			assert(m_barrier.m_continuation == nullptr);
 			m_barrier.m_continuation = continuation;
 
diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index b2198f8..07aebde 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -155,9 +155,17 @@ namespace macoro
 				std::coroutine_handle<promise> p, 
 				std::source_location loc = std::source_location::current())
 			{
-				m_handle.promise().m_scope.set_parent(get_traceable(p.promise()), loc);
+				return await_suspend(coroutine_handle<promise>(p), loc).std_cast();
+			}
+
+			template<typename promise>
+			coroutine_handle<> await_suspend(
+				coroutine_handle<promise> p,
+				std::source_location loc = std::source_location::current())
+			{
+				m_handle.promise().m_scope.set_parent(detail::get_traceable(p), loc);
 				m_handle.resume();
-				return m_join.await_suspend(p);
+				return m_join.await_suspend(p, loc);
 			}
 
 			void await_resume()
-- 
2.43.0


From c930dacb51071ff4a0b4e03ff12c66e27ce33eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 35/43] fix: moving a blocking_task onto itself destroyed it
 and kept the dangling handle

---
 macoro/sync_wait.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/macoro/sync_wait.h b/macoro/sync_wait.h
index 2c48cbf..c3c5ff7 100644
--- a/macoro/sync_wait.h
+++ b/macoro/sync_wait.h
@@ -155,8 +155,12 @@ namespace macoro
 			: m_handle(std::exchange(other.m_handle, nullptr))
 		{}
 		blocking_task& operator=(blocking_task&& h) {
-			this->~blocking_task();
-			m_handle = std::exchange(h.m_handle, std::nullptr_t{});
+			if (std::addressof(h) != this)
+			{
+				if (m_handle)
+					m_handle.destroy();
+				m_handle = std::exchange(h.m_handle, nullptr);
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 2b3fc9c22ebb04679448026ca8049f79f286115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:16 +0000
Subject: [PATCH 36/43] fix: a macro result coroutine was leaked when moving
 its result out threw

---
 macoro/result.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/macoro/result.h b/macoro/result.h
index caca7c6..6127fe4 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -230,11 +230,29 @@ namespace macoro
 				}
 			};
 
+			// unlike the compiler, a macro coroutine does not destroy its
+			// frame when the return object can not be constructed.
+			struct macoro_Ret
+			{
+				coroutine_handle<result_promise> handle;
+
+				operator result<T, E>() const
+				{
+					struct destroyer
+					{
+						coroutine_handle<result_promise> handle;
+						~destroyer() { handle.destroy(); }
+					} d{ handle };
+
+					return std::move(handle.promise().mResult.value());
+				}
+			};
+
 			Ret get_return_object()
 			{
 				return { coroutine_handle<result_promise>::from_promise(*this, coroutine_handle_type::std) };
 			}
-			Ret macoro_get_return_object()
+			macoro_Ret macoro_get_return_object()
 			{
 				return { coroutine_handle<result_promise>::from_promise(*this, coroutine_handle_type::macoro) };
 			}
-- 
2.43.0


From d37416f635b8fa791c6dc97e58c46a2090f09b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 37/43] fix: async_scope::add terminated the program when its
 coroutine could not be created

---
 macoro/async_scope.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index 02bc8cd..2436684 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -166,7 +166,7 @@ namespace macoro
 		// exceptions 
 		template<typename Awaitable>
 		scoped_task<macoro::remove_rvalue_reference_t<macoro::awaitable_result_t<Awaitable>>>
-			add(Awaitable a, std::source_location loc = std::source_location::current()) noexcept
+			add(Awaitable a, std::source_location loc = std::source_location::current())
 		{
 			co_return co_await std::move(a);
 		}
@@ -181,7 +181,7 @@ namespace macoro
 		// exceptions 
 		template<typename Awaitable>
 		scoped_task<macoro::remove_rvalue_reference_t<macoro::awaitable_result_t<Awaitable>>>
-			add(Awaitable& a, std::source_location loc = std::source_location::current()) noexcept
+			add(Awaitable& a, std::source_location loc = std::source_location::current())
 		{
 			co_return co_await a;
 		}
-- 
2.43.0


From f16137ac42d7dfed73c018ab2464f6b3424eac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 38/43] fix: co_await scoped(...) terminated the program when
 its coroutine could not be created

---
 macoro/when_all_scope.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index 07aebde..dddde59 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -104,7 +104,7 @@ namespace macoro
 			}
 
 			template<typename A>
-			decltype(auto) await_transform(scoped_t<A>&& a, std::source_location loc = std::source_location::current()) noexcept
+			decltype(auto) await_transform(scoped_t<A>&& a, std::source_location loc = std::source_location::current())
 			{
 				using scoped_task_of_a = decltype(m_scope.add(std::forward<typename scoped_t<A>::awaitable_type>(a.m_awaitable), loc));
 				struct awaiter
-- 
2.43.0


From 36e4bed5c56816d3212eeb0a808cc5b2f1c8770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 39/43] fix: a macro coroutine called a null deleter when
 creating an await context threw

---
 macoro/coro_frame.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index dcea48b..c3400c0 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -393,6 +393,7 @@ namespace macoro
 				assert(aa.suspend_index != CTX::suspend_index);
 #endif
 
+			std::unique_ptr<CTX> ctx(new CTX);
 			awaiters.emplace_back();
 			auto& d = awaiters.back();
 #ifndef NDEBUG
@@ -400,8 +401,7 @@ namespace macoro
 #endif
 			d.suspend_index = CTX::suspend_index;
 
-			auto ctx = new CTX;
-			d._ctx_ptr = ctx;
+			d._ctx_ptr = ctx.get();
 
 			d._awaiter_deleter = [](void* ptr)
 			{
@@ -414,7 +414,7 @@ namespace macoro
 
 			ctx->awaiter_ptr = &d._awaiter_ptr;
 
-			return *ctx;
+			return *ctx.release();
 		}
 
 
-- 
2.43.0


From 8eafd86381e0029ca510a5ee3db09a939a3b8f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 40/43] fix: a thread_pool that could not create its threads
 left them running and the work dangling

---
 macoro/thread_pool.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 33e6b2e..e9d3003 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -280,10 +280,19 @@ namespace macoro
         thread_pool& operator=(thread_pool&&) = default;
 
         thread_pool(std::size_t number_of_threads, work& w)
-            : mState(new detail::thread_pool_state)
+            : thread_pool()
         {
             w = make_work();
-            create_threads(number_of_threads);
+            try
+            {
+                create_threads(number_of_threads);
+            }
+            catch (...)
+            {
+                // the destructor joins the threads that have been created.
+                w.reset();
+                throw;
+            }
         }
 
         ~thread_pool()
-- 
2.43.0


From f94f9f1f8e99d3f7d03974847e3f212ed5d7a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 41/43] fix: values and awaiters with an overloaded operator&
 were read through a wrong address

---
 macoro/channel.h                    | 3 ++-
 macoro/coro_frame.h                 | 4 ++--
 macoro/detail/scoped_task_promise.h | 5 +++--
 macoro/macros.h                     | 2 +-
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/macoro/channel.h b/macoro/channel.h
index cd6d6d7..f912c1c 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -2,6 +2,7 @@
 #include "macoro/sequence_mpsc.h"
 #include "macoro/sequence_spsc.h"
 #include <vector>
+#include <memory>
 #include <stdexcept>
 #include <utility>
 
@@ -118,7 +119,7 @@ namespace macoro
             T* operator->()
             {
                 auto&& t = this->operator T && ();
-                return &t;
+                return std::addressof(t);
             }
         };
 
diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index c3400c0..a290351 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -243,8 +243,8 @@ namespace macoro
 		{
 			T* p;
 			reference_wrapper() = default;
-			reference_wrapper(T& r) : p(&r) {}
-			reference_wrapper(T&& r) : p(&r) {}
+			reference_wrapper(T& r) : p(std::addressof(r)) {}
+			reference_wrapper(T&& r) : p(std::addressof(r)) {}
 		};
 
 
diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index ef35f94..5aa62b8 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -5,6 +5,7 @@
 #include "macoro/barrier.h"
 #include "macoro/awaiter.h"
 #include <iostream>
+#include <memory>
 
 namespace macoro
 {
@@ -38,7 +39,7 @@ namespace macoro
 			void return_value(VALUE&& value)
 				noexcept(std::is_nothrow_constructible<value_type, VALUE&&>::value)
 			{
-				m_value = &value;
+				m_value = std::addressof(value);
 				self().m_result_type = Self::result_type::value;
 			}
 
@@ -84,7 +85,7 @@ namespace macoro
 			void return_value(VALUE&& value)
 				noexcept(std::is_nothrow_constructible<value_type, VALUE&&>::value)
 			{
-				m_value = &value;
+				m_value = std::addressof(value);
 				self().m_result_type = Self::result_type::value;
 			}
 
diff --git a/macoro/macros.h b/macoro/macros.h
index 4512bf2..dfcde57 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -43,7 +43,7 @@
 		_macoro_ctx.awaitable.ptr = new (_macoro_ctx.awaitable.v()) typename decltype(_macoro_ctx.awaitable)::Constructor(macoro::get_awaitable(PROMISE, _macoro_ctx.expr.get()));	\
 		_macoro_ctx.awaiter.ptr   = new (_macoro_ctx.awaiter.v())   typename decltype(_macoro_ctx.awaiter)::Constructor(macoro::get_awaiter(_macoro_ctx.awaitable.get()));					\
 		auto& _macoro_awaiter = _macoro_ctx.awaiter.getRef();													\
-		*_macoro_ctx.awaiter_ptr = (void*)&_macoro_awaiter;														\
+		*_macoro_ctx.awaiter_ptr = (void*)std::addressof(_macoro_awaiter);														\
 		if (!_macoro_awaiter.await_ready())																		\
 		{																										\
 			/*<suspend-coroutine>*/																				\
-- 
2.43.0


From 7669f8c58e2effc51aa26f49c4278d025262c91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 42/43] fix: inline_scheduler.h and sync_wait.h did not include
 what they use, or could not be included twice

---
 macoro/inline_scheduler.h | 2 ++
 macoro/sync_wait.h        | 1 +
 2 files changed, 3 insertions(+)

diff --git a/macoro/inline_scheduler.h b/macoro/inline_scheduler.h
index f1b3df1..4d0ff34 100644
--- a/macoro/inline_scheduler.h
+++ b/macoro/inline_scheduler.h
@@ -1,5 +1,7 @@
+#pragma once
 
 #include "macoro/coroutine_handle.h"
+#include "macoro/awaiter.h"
 
 namespace macoro
 {
diff --git a/macoro/sync_wait.h b/macoro/sync_wait.h
index c3c5ff7..bcf7d93 100644
--- a/macoro/sync_wait.h
+++ b/macoro/sync_wait.h
@@ -4,6 +4,7 @@
 #include "macoro/coro_frame.h"
 #include "macoro/optional.h"
 #include "macoro/coroutine_handle.h"
+#include "macoro/trace.h"
 #include <future>
 #include "macros.h"
 #include <mutex>
-- 
2.43.0


From 0ba06d532e7ec23314961107ec588c74bc7cab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 43/43] fix: a delay too long for the clock overflowed and
 ended at once

---
 macoro/thread_pool.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index e9d3003..dc7a3a4 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -336,12 +336,26 @@ namespace macoro
                 return noop_coroutine();
         };
 
+        // now + delay, or the last (first) point in time if that is too far away to be represented.
+        template<typename Rep, typename Per>
+        static detail::thread_pool_time_point deadline_after(std::chrono::duration<Rep, Per> delay)
+        {
+            using time_point = detail::thread_pool_time_point;
+            using seconds = std::chrono::duration<double>;
+            auto now = clock::now();
+            if (seconds(delay) >= seconds(time_point::max() - now))
+                return time_point::max();
+            if (seconds(delay) <= seconds(time_point::duration::min()))
+                return time_point::min();
+            return now + delay;
+        }
+
         template<typename Rep, typename Per>
         detail::thread_pool_post_after schedule_after(
             std::chrono::duration<Rep, Per> delay,
             stop_token token = {})
         {
-            return { mState.get(), delay + clock::now(), std::move(token) };
+            return { mState.get(), deadline_after(delay), std::move(token) };
         }
 
         work make_work() {
-- 
2.43.0

