From a179ce984852e528215bd99dbeeff283d2806f36 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 01/21] fix: state_t<void>::set_exception marks the state as
 completed

---
 source/state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/state.cpp b/source/state.cpp
index a6f551c..5f3d71b 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -196,7 +196,7 @@ namespace librf
 
 		if (this->_exception)
 			std::rethrow_exception(std::move(this->_exception));
-		if (this->_has_value.load(std::memory_order_acquire) == result_type::None)
+		if (this->_has_value.load(std::memory_order_acquire) != result_type::Value)
 			std::rethrow_exception(std::make_exception_ptr(future_exception{error_code::not_ready}));
 	}
 
@@ -219,6 +219,7 @@ namespace librf
 	{
 		scoped_lock<lock_type> __guard(this->_mtx);
 		this->_exception = std::move(e);
+		this->_has_value.store(result_type::Exception, std::memory_order_release);
 
 		scheduler_t* sch = this->get_scheduler();
 		if (sch != nullptr)
-- 
2.43.0


From 25e082a89d93e578bc8f9172fbefa5aa93be0f74 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 02/21] fix: stop_state is released with its last token only
 when no source is left

---
 include/librf/src/stop_token.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/librf/src/stop_token.h b/include/librf/src/stop_token.h
index 9cef883..46b4ba7 100644
--- a/include/librf/src/stop_token.h
+++ b/include/librf/src/stop_token.h
@@ -46,7 +46,8 @@ struct stop_state
     static constexpr uint64_t kSourceRefIncrement = static_cast<uint64_t>(1u) << 33u;
 
     static constexpr uint64_t kZeroRef = kTokenRefIncrement + kSourceRefIncrement;
-    static constexpr uint64_t kLockedAndZeroRef = kZeroRef + kZeroRef;
+    static constexpr uint64_t kLastTokenRef = kTokenRefIncrement + kTokenRefIncrement;
+    static constexpr uint64_t kLockedAndLastTokenRef = kLockedFlag + kLastTokenRef;
     static constexpr uint64_t kLockAndStopedFlag = kStopRequestedFlag | kLockedFlag;
     static constexpr uint64_t kUnlockAndTokenRefIncrement = kLockedFlag - kTokenRefIncrement;
     static constexpr uint64_t klockAndTokenRefIncrement = kLockedFlag + kTokenRefIncrement;
@@ -123,7 +124,7 @@ struct stop_state
 
     void unlock_and_decrement_token_ref_count() noexcept
     {
-        if (state_.fetch_sub(klockAndTokenRefIncrement, std::memory_order_acq_rel) < kLockedAndZeroRef)
+        if (state_.fetch_sub(klockAndTokenRefIncrement, std::memory_order_acq_rel) < kLockedAndLastTokenRef)
         {
             delete this;
         }
@@ -138,7 +139,7 @@ public:
     void remove_token_reference() noexcept
     {
         auto old_state = state_.fetch_sub(kTokenRefIncrement, std::memory_order_acq_rel);
-        if (old_state < kZeroRef)
+        if (old_state < kLastTokenRef)
         {
             delete this;
         }
-- 
2.43.0


From 0f0bba3c5c7c046b6654c044f87a4755de090142 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 03/21] fix: event wait_all keeps its state alive until the
 batch lock is released

---
 include/librf/src/event_v2.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/librf/src/event_v2.inl b/include/librf/src/event_v2.inl
index 5c7631f..fac1238 100644
--- a/include/librf/src/event_v2.inl
+++ b/include/librf/src/event_v2.inl
@@ -467,6 +467,8 @@ namespace librf
 				cb();
 			}
 
+			//lock_持有_state->_lock，故_state必须比lock_后析构
+			counted_ptr<detail::state_event_all_t> keep_alive_ = _state;
 			batch_lock_t<ref_lock_type> lock_(lockes);
 
 			intptr_t idx = 0;
-- 
2.43.0


From b308be6412a5c19fc28c5a24fafd863f07238b64 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 04/21] fix: event wait_all timeout does not lock the events
 while holding the state lock

---
 source/event_v2.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index 28b9d00..8cfa2d0 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -110,24 +110,23 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_timeout()
 		{
-			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
+			std::vector<sub_state_t> values;
+			{
+				scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
-			if (_counter <= 0) return false;
+				if (_counter <= 0) return false;
 
-			_counter = 0;
-			*_result = false;
-			_thandler.reset();
+				_counter = 0;
+				*_result = false;
+				_thandler.reset();
+				values.swap(_values);
+			}
 
-			for (sub_state_t& sub : _values)
+			//signal()的加锁顺序是先event再state。故不能在持有_lock的时候，去获取event的锁
+			for (sub_state_t& sub : values)
 			{
-				if (sub.first != nullptr)
-				{
-					event_v2_impl* evt = sub.second;
-					sub.second = nullptr;
-
-					if (evt != nullptr)
-						evt->remove_wait_list(sub.first);
-				}
+				if (sub.first != nullptr && sub.second != nullptr)
+					sub.second->remove_wait_list(sub.first);
 			}
 
 			assert(this->_scheduler != nullptr);
-- 
2.43.0


From 5eee28b15599d6ae7bd565d67e49a68da4a83bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 05/21] fix: coroutines waiting on an event keep the event
 alive

---
 include/librf/src/event_v2.inl | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/librf/src/event_v2.inl b/include/librf/src/event_v2.inl
index fac1238..beb4916 100644
--- a/include/librf/src/event_v2.inl
+++ b/include/librf/src/event_v2.inl
@@ -105,7 +105,7 @@ namespace librf
 
 		struct state_event_all_t : public state_base_t
 		{
-			using sub_state_t = std::pair<counted_ptr<state_event_base_t>, detail::event_v2_impl*>;
+			using sub_state_t = std::pair<counted_ptr<state_event_base_t>, std::shared_ptr<detail::event_v2_impl>>;
 
 			state_event_all_t(intptr_t count, bool& val)
 				: _counter(count)
@@ -188,6 +188,7 @@ namespace librf
 	{
 		awaiter(detail::event_v2_impl* evt) noexcept
 			: _event(evt)
+			, _keep_alive(evt->shared_from_this())
 		{
 		}
 		~awaiter()
@@ -240,6 +241,7 @@ namespace librf
 
 	protected:
 		detail::event_v2_impl* _event;
+		std::shared_ptr<detail::event_v2_impl> _keep_alive;		//等待期间，保证event不会提前销毁
 		counted_ptr<detail::state_event_t> _state;
 	};
 
@@ -478,12 +480,12 @@ namespace librf
 				if (evt->try_wait_one())
 				{
 					--_state->_counter;
-					_state->_values[idx].second = evt;
+					_state->_values[idx].second = evt->shared_from_this();
 				}
 				else
 				{
 					auto* proxy = new detail::state_event_proxy_t<detail::state_event_all_t>(_state.get(), idx);
-					_state->_values[idx] = detail::state_event_all_t::sub_state_t{ proxy, evt };
+					_state->_values[idx] = detail::state_event_all_t::sub_state_t{ proxy, evt->shared_from_this() };
 
 					evt->add_wait_list(proxy);
 				}
-- 
2.43.0


From c57dc3784db926593b21a8eba8ccea9a24ed814e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 06/21] fix: request_stop_all_if_possible runs the callbacks
 without holding the task lock

---
 source/scheduler.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index c6232f1..227e00a 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -133,10 +133,21 @@ namespace librf
 
 	LIBRF_API void scheduler_t::request_stop_all_if_possible()
 	{
-		scoped_lock<spinlock> __guard(_lock_ready);
+		std::vector<stop_source> stop_sources;
+		{
+#if !RESUMEF_DISABLE_MULT_THREAD
+			scoped_lock<spinlock> __guard(_lock_ready);
+#endif
+			for (auto& kv : this->_ready_task)
+			{
+				if (kv.second->_stop.stop_possible())
+					stop_sources.push_back(kv.second->_stop);
+			}
+		}
 
-		for (auto& kv : this->_ready_task)
-			kv.second->request_stop_if_possible();
+		//停止回调和定时器回调都是用户代码，不能在持有锁的时候调用
+		for (stop_source& source : stop_sources)
+			source.request_stop();
 		//this->_ready_task.clear();
 		this->_timer->clear();
 	}
-- 
2.43.0


From ba6fe789b89b9dff19a645e6d532adbf89fb4108 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 07/21] fix: mutex_t::try_lock_until(tp, address) compiles

---
 include/librf/src/mutex_v2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index fdadfbe..e4ab69d 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -429,7 +429,7 @@ namespace librf
 	inline bool mutex_t::try_lock_until(const std::chrono::time_point<_Rep, _Period>& tp, void* unique_address)
 	{
 		assert(unique_address != nullptr);
-		return _mutex->try_lock_until(std::chrono::time_point_cast<clock_type::time_point>(tp), unique_address);
+		return _mutex->try_lock_until(std::chrono::time_point_cast<clock_type::duration>(tp), unique_address);
 	}
 
 	inline void mutex_t::unlock(void* unique_address) const
-- 
2.43.0


From 46c018320ad1643fb1202ed4ff9c16846ca4b6ed Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 08/21] fix: generator_t move assignment destroys the frame it
 replaces

---
 include/librf/src/generator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index 74f1a86..20269e8 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -256,6 +256,8 @@ namespace librf
 		generator_t& operator=(generator_t&& right_) noexcept
 		{
 			if (this != std::addressof(right_)) {
+				if (_Coro)
+					_Coro.destroy();
 				_Coro = right_._Coro;
 				right_._Coro = nullptr;
 			}
-- 
2.43.0


From fef370e46bf970ee1723b11096d19168aa3902b4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 09/21] fix: batch_unlock_t move assignment unlocks the mutexes
 it replaces

---
 include/librf/src/mutex_v2.inl | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index e4ab69d..593a6d0 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -177,7 +177,16 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right)
+		{
+			if (this != &_Right)
+			{
+				unlock();
+				_mutex = std::move(_Right._mutex);
+				_owner = _Right._owner;
+			}
+			return *this;
+		}
 	private:
 		mutex_impl_ptr _mutex;
 		void* _owner;
@@ -522,7 +531,15 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right)
+		{
+			if (this != &_Right)
+			{
+				unlock();
+				_MAA = std::move(_Right._MAA);
+			}
+			return *this;
+		}
 	};
 
 	template<class... _Mtxs>
-- 
2.43.0


From d5cf6af4f9fcfbe3a02459baa91213d8a1ef6410 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 10/21] fix: timer_manager::update tolerates callbacks that
 clear the manager

---
 source/timer.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/source/timer.cpp b/source/timer.cpp
index db8492b..3b98a4a 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -107,17 +107,14 @@ namespace librf
 		{
 			auto now_ = clock_type::now();
 
-			auto iter = _runing_timers.begin();
-			for (; iter != _runing_timers.end(); ++iter)
+			//回调可能重入本定时管理器，故先从容器里取出，再调用回调
+			while (!_runing_timers.empty() && !(_runing_timers.begin()->first > now_))
 			{
-				auto & kv = *iter;
-				if (kv.first > now_)
-					break;
+				auto sptr = std::move(_runing_timers.begin()->second);
+				_runing_timers.erase(_runing_timers.begin());
 
-				call_target_(kv.second, kv.second->st == timer_target::State::Invalid);
+				call_target_(sptr, sptr->st == timer_target::State::Invalid);
 			}
-
-			_runing_timers.erase(_runing_timers.begin(), iter);
 		}
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 2fede43118545eb73fab1032b71638212d552235 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 11/21] fix: timer_manager::stop may race with update on
 another thread

---
 include/librf/src/timer.h |  2 +-
 source/timer.cpp          | 17 ++++++++---------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/librf/src/timer.h b/include/librf/src/timer.h
index fae73a5..2514aa8 100644
--- a/include/librf/src/timer.h
+++ b/include/librf/src/timer.h
@@ -27,7 +27,7 @@ namespace librf
 			};
 			timer_clock_type::time_point	tp;
 			timer_callback_type				cb;
-			State							st = State::Invalid;
+			std::atomic<State>				st{ State::Invalid };	//stop()可能在其他线程里调用
 #if _DEBUG
 		private:
 			timer_manager *					_manager = nullptr;
diff --git a/source/timer.cpp b/source/timer.cpp
index 3b98a4a..e43ba7e 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -15,7 +15,8 @@ namespace librf
 	LIBRF_API void timer_manager::call_target_(const timer_target_ptr & sptr, bool canceld)
 	{
 		auto cb = std::move(sptr->cb);
-		sptr->st = timer_target::State::Invalid;
+		if (sptr->st.exchange(timer_target::State::Invalid) == timer_target::State::Invalid)
+			canceld = true;
 #if _DEBUG
 		sptr->_manager = nullptr;
 #endif
@@ -62,14 +63,12 @@ namespace librf
 
 	LIBRF_API bool timer_manager::stop(const timer_target_ptr & sptr)
 	{
-		if (!sptr || sptr->st == timer_target::State::Invalid) 
+		if (!sptr)
 			return false;
 #if _DEBUG
 		assert(sptr->_manager == this);
 #endif
-		sptr->st = timer_target::State::Invalid;
-
-		return true;
+		return sptr->st.exchange(timer_target::State::Invalid) != timer_target::State::Invalid;
 	}
 
 	LIBRF_API void timer_manager::update()
@@ -89,14 +88,14 @@ namespace librf
 
 				for (auto& sptr : _atimer)
 				{
-					if (sptr->st == timer_target::State::Added)
+					auto st = timer_target::State::Added;
+					if (sptr->st.compare_exchange_strong(st, timer_target::State::Runing))
 					{
-						sptr->st = timer_target::State::Runing;
 						_runing_timers.insert({ sptr->tp, sptr });
 					}
 					else
 					{
-						assert(sptr->st == timer_target::State::Invalid);
+						assert(st == timer_target::State::Invalid);
 						call_target_(sptr, true);
 					}
 				}
@@ -113,7 +112,7 @@ namespace librf
 				auto sptr = std::move(_runing_timers.begin()->second);
 				_runing_timers.erase(_runing_timers.begin());
 
-				call_target_(sptr, sptr->st == timer_target::State::Invalid);
+				call_target_(sptr, false);
 			}
 		}
 	}
-- 
2.43.0


From 63f28123e4dbba9445440aaa56ff0927dbff479d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 12/21] fix: timer_manager::empty reads the added timers under
 their lock

---
 include/librf/src/timer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/timer.h b/include/librf/src/timer.h
index 2514aa8..59b5b47 100644
--- a/include/librf/src/timer.h
+++ b/include/librf/src/timer.h
@@ -123,6 +123,9 @@ namespace librf
 
 		inline bool empty() const
 		{
+#if !RESUMEF_DISABLE_MULT_THREAD
+			std::unique_lock<spinlock> __lock(_added_mtx);
+#endif
 			return _runing_timers.empty() && _added_timers.empty();
 		}
 		LIBRF_API void clear();
@@ -141,7 +144,7 @@ namespace librf
 		}
 	private:
 #if !RESUMEF_DISABLE_MULT_THREAD
-		spinlock _added_mtx;
+		mutable spinlock _added_mtx;
 #endif
 		timer_vector_type	_added_timers;
 		timer_map_type		_runing_timers;
-- 
2.43.0


From e87ad40939c4a880d23f31ad0b4b263cb231247f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 13/21] fix: when_all/when_any tasks may complete before or
 while the result is awaited

---
 include/librf/src/when_v2.h | 16 +++++++++++-----
 source/when_v2.cpp          |  4 +++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index f0752df..95b2627 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -33,16 +33,22 @@ namespace librf
 
 			//将自己加入到通知链表里
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-			scheduler_t* on_await_suspend(coroutine_handle<_PromiseT> handler) noexcept
+			bool on_await_suspend(coroutine_handle<_PromiseT> handler) noexcept
 			{
 				_PromiseT& promise = handler.promise();
 				auto* parent_state = promise.get_state();
 				scheduler_t* sch = parent_state->get_scheduler();
 
+				scoped_lock<lock_type> lock_(_lock);
+
+				//在加锁之前，可能已经全部完成了
+				if (_counter.load(std::memory_order_acquire) == 0)
+					return false;
+
 				this->_scheduler = sch;
 				this->_coro = handler;
 
-				return sch;
+				return true;
 			}
 
 			typedef spinlock lock_type;
@@ -70,13 +76,13 @@ namespace librf
 
 			bool await_ready() noexcept
 			{
-				return _state->_counter.load(std::memory_order_relaxed) == 0;
+				return _state->_counter.load(std::memory_order_acquire) == 0;
 			}
 
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-			void await_suspend(coroutine_handle<_PromiseT> handler)
+			bool await_suspend(coroutine_handle<_PromiseT> handler)
 			{
-				_state->on_await_suspend(handler);
+				return _state->on_await_suspend(handler);
 			}
 
 			value_type await_resume() noexcept(std::is_nothrow_move_constructible_v<value_type>)
diff --git a/source/when_v2.cpp b/source/when_v2.cpp
index 00370a2..3b77ba6 100644
--- a/source/when_v2.cpp
+++ b/source/when_v2.cpp
@@ -39,9 +39,11 @@ namespace librf
 
 			if (_counter.fetch_sub(1, std::memory_order_acq_rel) == 1)
 			{
-				assert(this->_scheduler != nullptr);
 				if (this->_coro)
+				{
+					assert(this->_scheduler != nullptr);
 					this->_scheduler->add_generator(this);
+				}
 
 				return true;
 			}
-- 
2.43.0


From 7ccbd8b1d9b14b0e69529e2b936ffbd973f5548d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 14/21] fix: channel awaiters do not release the channel while
 holding its lock

---
 include/librf/src/channel_v2.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/librf/src/channel_v2.inl b/include/librf/src/channel_v2.inl
index 42cc56e..7b70312 100644
--- a/include/librf/src/channel_v2.inl
+++ b/include/librf/src/channel_v2.inl
@@ -359,6 +359,7 @@ namespace detail
 			//在多线程竞争较为多的时候，先检查是否可用，可以稍微提高点效率
 			if constexpr (optimization_for_multithreading)
 			{
+				std::shared_ptr<channel_type> keep_alive_ = _channel;
 				scoped_lock<lock_type> lock_(_channel->_lock);
 
 				if (_channel->try_read_nolock(_value))
@@ -373,6 +374,8 @@ namespace detail
 		template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
 		bool await_suspend(coroutine_handle<_PromiseT> handler)
 		{
+			//可能只有本awaiter持有channel，故channel必须比lock_后析构
+			std::shared_ptr<channel_type> keep_alive_ = _channel;
 			scoped_lock<lock_type> lock_(_channel->_lock);
 
 			if (_channel->try_read_nolock(_value))
@@ -430,6 +433,7 @@ namespace detail
 			//在多线程竞争较为多的时候，先检查是否可用，可以稍微提高点效率
 			if constexpr (optimization_for_multithreading)
 			{
+				std::shared_ptr<channel_type> keep_alive_ = _channel;
 				scoped_lock<lock_type> lock_(_channel->_lock);
 
 				if (_channel->try_write_nolock(_value))
@@ -444,6 +448,8 @@ namespace detail
 		template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
 		bool await_suspend(coroutine_handle<_PromiseT> handler)
 		{
+			//可能只有本awaiter持有channel，故channel必须比lock_后析构
+			std::shared_ptr<channel_type> keep_alive_ = _channel;
 			scoped_lock<lock_type> lock_(_channel->_lock);
 
 			if (_channel->try_write_nolock(_value))
-- 
2.43.0


From 5eb4303e9650e3a626994238791a0cf356b10792 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 15/21] fix: batch_lock_t move assignment is usable and
 releases the replaced locks

---
 include/librf/src/spinlock.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/librf/src/spinlock.h b/include/librf/src/spinlock.h
index 74939b8..483bb0f 100644
--- a/include/librf/src/spinlock.h
+++ b/include/librf/src/spinlock.h
@@ -111,18 +111,18 @@ namespace librf
 		struct _LockVectorAssembleT
 		{
 		private:
-			_Cont& _Lks;
+			_Cont* _Lks;
 		public:
 			_LockVectorAssembleT(_Cont& _LkN)
-				: _Lks(_LkN)
+				: _Lks(&_LkN)
 			{}
 			size_t size() const
 			{
-				return _Lks.size();
+				return _Lks->size();
 			}
 			_Ty& operator[](int _Idx)
 			{
-				return _Lks[_Idx];
+				return (*_Lks)[_Idx];
 			}
 			void _Lock_ref(_Ty& _LkN) const
 			{
@@ -149,18 +149,18 @@ namespace librf
 		struct _LockVectorAssembleT<std::reference_wrapper<_Ty>, _Cont>
 		{
 		private:
-			_Cont& _Lks;
+			_Cont* _Lks;
 		public:
 			_LockVectorAssembleT(_Cont& _LkN)
-				: _Lks(_LkN)
+				: _Lks(&_LkN)
 			{}
 			size_t size() const
 			{
-				return _Lks.size();
+				return _Lks->size();
 			}
 			std::reference_wrapper<_Ty> operator[](int _Idx)
 			{
-				return _Lks[_Idx];
+				return (*_Lks)[_Idx];
 			}
 			void _Lock_ref(std::reference_wrapper<_Ty> _LkN) const
 			{
@@ -289,11 +289,14 @@ namespace librf
 		{
 			if (this != &_Right)
 			{
+				unlock();
+
 				_LkN = _Right._LkN;
 				_Right._LkN = nullptr;
 
 				_LA = std::move(_Right._LA);
 			}
+			return *this;
 		}
 	private:
 		_Cont* _LkN;
-- 
2.43.0


From f3eff3a4dd8effacbcc81415388e96537133ac8d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 16/21] fix: do not resume the awaiter of a future that is
 still running

---
 source/state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/state.cpp b/source/state.cpp
index 5f3d71b..cc31b9a 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -135,7 +135,7 @@ namespace librf
 			return;
 		}
 		
-		if (_coro)
+		if (_coro && future_await_ready())
 		{
 			coroutine_handle<> handler = _coro;
 			_coro = nullptr;
-- 
2.43.0


From d3036ed02170ec7399a2518d3db3c38e1e35678b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 17/21] fix: a finished task is destroyed without holding the
 scheduler lock

---
 include/librf/src/scheduler.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/librf/src/scheduler.h b/include/librf/src/scheduler.h
index 5b6e68a..051b8e1 100644
--- a/include/librf/src/scheduler.h
+++ b/include/librf/src/scheduler.h
@@ -163,10 +163,8 @@ namespace librf
 
 	inline void scheduler_t::del_final(state_base_t* sptr)
 	{
-#if !RESUMEF_DISABLE_MULT_THREAD
-		scoped_lock<spinlock> __guard(_lock_ready);
-#endif
-		this->_ready_task.erase(sptr);
+		//task_t可能持有用户的对象，不能在持有锁的情况下析构
+		(void)this->del_switch(sptr);
 	}
 
 	inline void scheduler_t::add_switch(std::unique_ptr<task_t> task)
-- 
2.43.0


From 420d5fde24f8e4efe2e8fcf7f3089173daee8889 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:40:28 +0000
Subject: [PATCH 18/21] fix: unlocking a mutex does not look into waiters that
 timed out

---
 source/mutex_v2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/mutex_v2.cpp b/source/mutex_v2.cpp
index 942ed3c..336fc42 100644
--- a/source/mutex_v2.cpp
+++ b/source/mutex_v2.cpp
@@ -157,7 +157,8 @@ namespace librf
 						_wait_awakes.pop_front();
 
 						//先将锁定状态转移到新的state上
-						_owner.store(state->get_root(), std::memory_order_release);
+						//已经超时的等待者，其协程可能已经销毁，故只能使用登记时保存的根，而不能访问它
+						_owner.store(state->get_parent(), std::memory_order_release);
 						_counter.fetch_add(1, std::memory_order_acq_rel);
 						
 						if (state->on_notify(this))
-- 
2.43.0


From db104926767b7518386ca884fbf082892b5c0971 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 03:59:07 +0000
Subject: [PATCH 19/21] fix: a generator keeps the value it returns, the
 iterator pointed to a dead temporary

---
 include/librf/src/generator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index 20269e8..786de3f 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -147,7 +147,7 @@ namespace librf
 			//template<class = std::enable_if_t<!std::is_same_v<_Ty, void>, _Ty>>
 			void return_value(_Ty const& _Value) noexcept
 			{
-				_CurrentValue = std::addressof(_Value);
+				_CurrentValue = std::addressof(_ReturnValue.emplace(_Value));
 			}
 			//template<class = std::enable_if_t<std::is_same_v<_Ty, void>, _Ty>>
 			void return_value() noexcept
@@ -216,6 +216,7 @@ namespace librf
 			}
 		private:
 			counted_ptr<state_type> _state = state_generator_t::_Alloc_state();
+			std::optional<_Ty> _ReturnValue;
 		};
 #endif	//DOXYGEN_SKIP_PROPERTY
 
-- 
2.43.0


From dca3ebdf2a030e4af761703ecc4381d3d0fbbe9d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:15:08 +0000
Subject: [PATCH 20/21] fix: the last when_all task keeps the shared state
 until its lock is released

---
 source/when_v2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/when_v2.cpp b/source/when_v2.cpp
index 3b77ba6..0531ffd 100644
--- a/source/when_v2.cpp
+++ b/source/when_v2.cpp
@@ -35,6 +35,8 @@ namespace librf
 
 		LIBRF_API bool state_when_t::on_notify_one()
 		{
+			//被唤醒的协程，可能在另外的线程里，在lock_解锁之前就释放了this
+			counted_ptr<state_when_t> keep_alive_{ this };
 			scoped_lock<lock_type> lock_(_lock);
 
 			if (_counter.fetch_sub(1, std::memory_order_acq_rel) == 1)
-- 
2.43.0


From 52eb99f03cc8a127e506126f4bfc46b4411b5709 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:33:18 +0000
Subject: [PATCH 21/21] fix: the last signal of an event wait_all keeps the
 shared state alive until its lock is released

---
 source/event_v2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index 8cfa2d0..981a5b9 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -59,6 +59,7 @@ namespace librf
 
 		LIBRF_API void state_event_all_t::on_cancel(intptr_t idx)
 		{
+			counted_ptr<state_event_all_t> keep_alive_{ this };		//_lock解锁前，等待的协程可能已经恢复并释放了自己
 			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 			
 			if (_counter <= 0) return ;
@@ -78,6 +79,7 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_notify(event_v2_impl*, intptr_t idx)
 		{
+			counted_ptr<state_event_all_t> keep_alive_{ this };		//_lock解锁前，等待的协程可能已经恢复并释放了自己
 			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
 			if (_counter <= 0) return false;
-- 
2.43.0

