M = []
def m(name, f, old, new, want): M.append((name, f, old, new, want))
EVC='source/event_v2.cpp'; EVI='include/librf/src/event_v2.inl'; EVH='include/librf/src/event_v2.h'
m('ev-signal-noreturn', EVC, '''				if (state->on_notify(this))
					return;''', '''				if (state->on_notify(this))
					break;''', 'E01')
m('ev-signal-count2', EVC, '_counter.fetch_add(1, std::memory_order_acq_rel);', '_counter.fetch_add(2, std::memory_order_acq_rel);', 'E01')
m('ev-signal-store1', EVC, '_counter.fetch_add(1, std::memory_order_acq_rel);', '_counter.store(1, std::memory_order_release);', 'E01')
m('ev-signalall-stop', EVC, '''				(void)state->on_notify(this);''', '''				if (!state->on_notify(this)) break;''', 'E02')
m('ev-signalall-count', EVC, '''				(void)state->on_notify(this);''', '''				if (!state->on_notify(this)) _counter.fetch_add(1);''', 'E02')
m('ev-notify-noorder', EVC, '--_counter == 0', '_counter-- == 0', 'E05')
m('ev-cancel-true', EVC, '''				*_result = false;
				_thandler.stop();''', '''				*_result = true;
				_thandler.stop();''', 'E05')
m('ev-to-norm', EVC, 'sub.second->remove_wait_list(sub.first);', '(void)0;', 'E05')
m('ev-to-reset', EVC, '''				_counter = 0;
''', '''''', 'E05')
# behaviour preserving
m('P-ev-signal', EVC, '''			state_event_ptr state;
			for (; (state = try_pop_list(_wait_awakes)) != nullptr;)
			{
				if (state->on_notify(this))
					return;
			}
''', '''			for (;;)
			{
				state_event_ptr waiter = try_pop_list(_wait_awakes);
				if (waiter == nullptr) break;
				const bool taken = waiter->on_notify(this);
				if (taken) { (void)0; return; }
			}
''', '')
m('P-ev-alltimeout', EVC, '''			for (sub_state_t& sub : values)
			{
				if (sub.first != nullptr && sub.second != nullptr)
					sub.second->remove_wait_list(sub.first);
			}
''', '''			for (size_t i = 0; i < values.size(); ++i)
			{
				auto& sub = values[i];
				if (sub.first == nullptr || sub.second == nullptr) continue;
				sub.second->remove_wait_list(sub.first);
			}
''', '')
m('P-ev-all-alg', EVC, '''				bool result = true;
				for (sub_state_t& sub : _values)
				{
					if (sub.second == nullptr)
					{
						result = false;
						break;
					}
				}
''', '''				bool result = true;
				for (auto it = _values.begin(); it != _values.end() && result; ++it)
					result = it->second != nullptr;
''', '')
m('P-ev-all-alg2', EVC, '''				bool result = true;
				for (sub_state_t& sub : _values)
				{
					if (sub.second == nullptr)
					{
						result = false;
						break;
					}
				}
''', '''				const bool result = std::all_of(_values.begin(), _values.end(), [](const sub_state_t& s) { return s.second != nullptr; });
''', '')
MXC='source/mutex_v2.cpp'; MXI='include/librf/src/mutex_v2.inl'; WDA='include/librf/src/without_deadlock_assemble.inl'
m('mx-unlock-nofree', MXC, '''						//转移状态失败，恢复成空
						_owner.store(nullptr, std::memory_order_relaxed);''', '''						//转移状态失败，恢复成空''', 'M02')
m('mx-unlock-nopop', MXC, '''						_wait_awakes.pop_front();

						//''', '''						//''', 'M02')
m('mx-unlock-late', MXC, '''						_counter.fetch_add(1, std::memory_order_acq_rel);
						
						if (state->on_notify(this))
							break;
''', '''						
						if (state->on_notify(this)) {
						_counter.fetch_add(1, std::memory_order_acq_rel);
							break; }
						_counter.fetch_add(1, std::memory_order_acq_rel);
''', 'M02')
m('mda-nobackout', WDA, 'int _Backout_start = _Hard_lock;', 'int _Backout_start = _Hard_lock + 1;', 'M04')
m('mda-backout0', WDA, '_Backout_start = 0;', '(void)0;', 'M04')
m('mda-range', WDA, '_Try_lock_range(_Hard_lock + 1,', '_Try_lock_range(_Hard_lock + 2,', 'M04')
m('mda-trynobackout', WDA, '''				if (!_Result__)
				{ // try_lock failed, backout
					_Unlock_locks(_First, _Next, _LkN);''', '''				if (!_Result__)
				{ // try_lock failed, backout
					_Unlock_locks(_First + 1, _Next, _LkN);''', 'M04')
m('mx-try-nocount', MXC, '''			if (oldValue == sch)
			{
				_counter.fetch_add(1, std::memory_order_relaxed);
				return true;''', '''			if (oldValue == sch)
			{
				return true;''', 'M01')
m('mx-until-strict', MXC, 'while (clock_type::now() <= tp);', 'while (clock_type::now() + std::chrono::milliseconds(5) <= tp);', 'M01')
m('mx-suspend-noroot', MXI, '_state->on_await_suspend(handler, parent->get_scheduler(), _root);', '_state->on_await_suspend(handler, parent->get_scheduler(), parent);', 'M03')
m('mx-suspend-late-cb', MXI, '''			if constexpr (!std::is_same_v<std::remove_reference_t<_Timeout>, std::nullptr_t>)
				cb();

			_mutex->add_wait_list_lockless(_state.get());
''', '''			_mutex->add_wait_list_lockless(_state.get());
			lock_.~scoped_lock(); new (&lock_) scoped_lock<detail::mutex_v2_impl::lock_type>(_mutex->_lock);

			if constexpr (!std::is_same_v<std::remove_reference_t<_Timeout>, std::nullptr_t>)
				cb();
''', 'M03')
m('mx-suspend-unlocked', MXI, '''			scoped_lock<detail::mutex_v2_impl::lock_type> lock_(_mutex->_lock);
			if (_mutex->try_lock_lockless(_root))
				return false;
''', '''			if (_mutex->try_lock(_root))
				return false;
			scoped_lock<detail::mutex_v2_impl::lock_type> lock_(_mutex->_lock);
''', 'M03')
m('mx-guard-assign', MXI, '''				_mutex = std::move(_Right._mutex);
				_owner = _Right._owner;''', '''				_mutex = _Right._mutex;
				_owner = _Right._owner;''', 'M05')
m('mx-timeout-notimer', MXC, '''				*oldValue = nullptr;
				_thandler.reset();''', '''				_thandler.reset();''', 'M06')
m('mx-notify-order', MXC, '''				*oldValue = eptr;
				_thandler.stop();

				assert(this->_scheduler != nullptr);
				if (this->_coro)
					this->_scheduler->add_generator(this);
''', '''				_thandler.stop();

				assert(this->_scheduler != nullptr);
				if (this->_coro)
					this->_scheduler->add_generator(this);
				*oldValue = eptr;
''', 'M06')
m('P-mx-unlock', MXC, '''					while (!_wait_awakes.empty())
					{
						state_mutex_ptr state = _wait_awakes.front();
						_wait_awakes.pop_front();
''', '''					for (auto it = _wait_awakes.begin(); it != _wait_awakes.end(); )
					{
						state_mutex_ptr state = std::move(*it);
						it = _wait_awakes.erase(it);
''', '')
m('P-mx-try', MXC, '''			if (oldValue == nullptr)
			{
				_owner.store(sch, std::memory_order_relaxed);
				_counter.fetch_add(1, std::memory_order_relaxed);
				return true;
			}
			if (oldValue == sch)
			{
				_counter.fetch_add(1, std::memory_order_relaxed);
				return true;''', '''			const bool can = oldValue == nullptr || oldValue == sch;
			if (can)
			{
				_owner.store(sch, std::memory_order_release);
				++_counter;
				return true;''', '')
m('P-mx-until', MXC, '''			do
			{
				if (try_lock(sch))
					return true;
				std::this_thread::yield();
			} while (clock_type::now() <= tp);
			return false;''', '''			bool ok = try_lock(sch);
			while (!ok && !(clock_type::now() > tp))
			{
				std::this_thread::yield();
				ok = try_lock(sch);
			}
			return ok;''', '')
m('P-mx-timeout', MXC, '''			mutex_v2_impl** oldValue = _value.load(std::memory_order_acquire);
			if (oldValue != nullptr && _value.compare_exchange_strong(oldValue, nullptr, std::memory_order_acq_rel))
			{
				*oldValue = nullptr;
				_thandler.reset();''', '''			mutex_v2_impl** oldValue = _value.exchange(nullptr, std::memory_order_acq_rel);
			if (oldValue != nullptr)
			{
				_thandler.reset();
				*oldValue = nullptr;''', '')
m('P-mx-unlock2', MXC, '''				if (_counter.fetch_sub(1, std::memory_order_relaxed) == 1)''', '''				const auto left = --_counter;
				if (left == 0)''', '')
m('P-mda', WDA, '''		for (; _First != _Last; ++_First) {
			_LkN._Unlock_ref(_LkN[_First]);
		}''', '''		for (int i = _Last - 1; i >= _First; --i)
			_LkN._Unlock_ref(_LkN[i]);''', '')
m('P-mda2', WDA, '''			auto _Result__ = LOCK_ASSEMBLE_AWAIT(_Lock_attempt_small2(_LkN, 0, 1));
			if (!_Result__) break;
			_Result__ = LOCK_ASSEMBLE_AWAIT(_Lock_attempt_small2(_LkN, 1, 0));
			if (!_Result__) break;''', '''			bool _Again__ = LOCK_ASSEMBLE_AWAIT(_Lock_attempt_small2(_LkN, 0, 1));
			if (_Again__)
				_Again__ = LOCK_ASSEMBLE_AWAIT(_Lock_attempt_small2(_LkN, 1, 0));
			if (!_Again__) break;''', '')
# ---------------------------------------------------------------- channel
CHI = 'include/librf/src/channel_v2.inl'
RQ = 'include/librf/src/ring_queue.h'
m('ch-writer-notwoken', CHI, '''			if (_values.try_pop(val))
			{
				awake_one_writer_();
				return true;''', '''			if (_values.try_pop(val))
			{
				if (_values.empty())
					awake_one_writer_();
				return true;''', 'H02')
m('ch-notify-before-value', CHI, '''			*state->_value = std::move(val);

			state->on_notify();
			return true;''', '''			state->on_notify();
			*state->_value = std::move(val);
			return true;''', 'H02')
m('ch-notify-no-coro', CHI, '''			if (this->_coro)
				this->_scheduler->add_generator(this);
		}

		void on_cancel''', '''			if (this->_coro && this->_scheduler != nullptr && this->_channel.use_count() > 2)
				this->_scheduler->add_generator(this);
		}

		void on_cancel''', 'H02')
m('ch-ready-keeps', CHI, '''				if (_channel->try_read_nolock(_value))
				{
					_channel = nullptr;
					return true;
				}''', '''				if (_channel->try_read_nolock(_value))
				{
					return true;
				}''', 'H03')
m('ch-two-holds', CHI, '''			std::shared_ptr<channel_type> keep_alive_ = _channel;
			scoped_lock<lock_type> lock_(_channel->_lock);

			if (_channel->try_write_nolock(_value))
			{
				_channel = nullptr;
				return false;
			}

			_state''', '''			std::shared_ptr<channel_type> keep_alive_ = _channel;
			if (_channel->try_write(_value))
			{
				_channel = nullptr;
				return false;
			}
			scoped_lock<lock_type> lock_(_channel->_lock);

			_state''', 'H02')
m('ch-dtor-state', CHI, '''			_channel->add_write_list_nolock(_state.get());
			_channel = nullptr;
''', '''			_channel->add_write_list_nolock(_state.get());
''', 'H02 H04')
m('ch-cap0', RQ, ''': m_bufferPtr(new optional_type[sz + 1])
		, m_bufferSize(static_cast<size_type>(sz + 1))''', ''': m_bufferPtr(new optional_type[sz + 2])
		, m_bufferSize(static_cast<size_type>(sz ? sz + 1 : 2))''', 'H01 H02')
m('ch-writer-order', CHI, '''			if (_values.try_pop(val))
			{
				awake_one_writer_();
				return true;
			}
		}''', '''			if (awake_one_writer_(val))
				return true;
			if (_values.try_pop(val))
				return true;
		}''', 'H02')
m('rq-size', RQ, 'return (m_bufferSize + m_writeIndex - m_readIndex);', 'return (m_bufferSize - m_readIndex + m_writeIndex - 1);', 'H01')
m('rq-next', RQ, 'return static_cast<size_type>((a_count + 1) % m_bufferSize);', 'return static_cast<size_type>((a_count + 1) >= m_bufferSize - (m_bufferSize > 3) ? 0 : a_count + 1);', 'H01')
m('rq-opt-copy', RQ, '''			value = std::move(ov).value();
			ov = std::nullopt;''', '''			if (ov) value = std::move(ov).value();
			else return false;''', '')
m('P-rq-next', RQ, 'return static_cast<size_type>((a_count + 1) % m_bufferSize);', '''size_type n = a_count + 1;
		if (n == m_bufferSize) n = 0;
		return n;''', '')
m('P-rq-size', RQ, '''		if (m_writeIndex >= m_readIndex)
			return (m_writeIndex - m_readIndex);
		else
			return (m_bufferSize + m_writeIndex - m_readIndex);''', '''		return static_cast<size_type>((m_writeIndex + m_bufferSize - m_readIndex) % m_bufferSize);''', '')
m('P-ch-suspend', CHI, '''			if (_channel->try_read_nolock(_value))
			{
				_channel = nullptr;
				return false;
			}

			_state = new state_type(_channel, _value);
			_state->on_await_suspend(handler);
			_channel->add_read_list_nolock(_state.get());
			_channel = nullptr;

			return true;''', '''			const bool done = _channel->try_read_nolock(_value);
			if (!done)
			{
				counted_ptr<state_type> st = new state_type(keep_alive_, _value);
				st->on_await_suspend(handler);
				keep_alive_->add_read_list_nolock(st.get());
				_state = std::move(st);
			}
			_channel.reset();
			return !done;''', '')
m('P-ch-awake', CHI, '''		state_read_t* state = try_pop_reader_();
		if (state != nullptr)
		{
			*state->_value = std::move(val);

			state->on_notify();
			return true;
		}
		return false;''', '''		if (auto* state = try_pop_reader_(); state)
		{
			auto& slot = *state->_value;
			slot = std::move(val);
			state->on_notify();
			return true;
		}
		else
			return false;''', '')
m('P-ch-trywrite', CHI, '''		scoped_lock<lock_type> lock_(this->_lock);
		return try_write_nolock(val);''', '''		std::unique_lock<lock_type> lock_(this->_lock);
		bool r = try_write_nolock(val);
		lock_.unlock();
		return r;''', '')
# ---------------------------------------------------------------- infra
SP = 'include/librf/src/spinlock.h'; IQ = 'include/librf/src/intrusive_link_queue.h'; CP = 'include/librf/src/counted_ptr.h'
m('sp-giveup', SP, '''							std::this_thread::sleep_for(dt);
''', '''							if (dt >= std::chrono::milliseconds{ 128 }) return;
							std::this_thread::sleep_for(dt);
''', 'L01')
m('sp-relaxed-lock', SP, '''				} while (!lck.compare_exchange_weak(val, LOCKED_VALUE, std::memory_order_acq_rel));''', '''				} while (!lck.compare_exchange_weak(val, LOCKED_VALUE, std::memory_order_relaxed));''', 'L01')
m('sp-relaxed-unlock', SP, 'lck.store(FREE_VALUE, std::memory_order_release);', 'lck.store(FREE_VALUE, std::memory_order_relaxed);', 'L01')
m('sp-val', SP, '''					val = FREE_VALUE;
				} while''', '''				} while''', 'L01')
m('sp-store', SP, '''					val = FREE_VALUE;
				} while (!lck.compare_exchange_weak(val, LOCKED_VALUE, std::memory_order_acq_rel));''', '''					lck.store(LOCKED_VALUE, std::memory_order_release); val = FREE_VALUE;
				} while (val != FREE_VALUE);''', 'L01')
m('bl-dtor', SP, '''				_LkN = nullptr;
				detail::scoped_lock_range_lock_impl::_Unlock_locks(0, (int)_LA.size(), _LA);''', '''				detail::scoped_lock_range_lock_impl::_Unlock_locks(0, (int)_LA.size(), _LA);''', 'L04')
m('bl-move', SP, '''		{
			_Right._LkN = nullptr;
		}''', '''		{
			if (_LA.size() > 1) _Right._LkN = nullptr;
		}''', 'L04')
m('bl-adopt', SP, '''		explicit batch_lock_t(std::adopt_lock_t, _Cont& locks_, _Assemble& la_)
			: _LkN(&locks_)
			, _LA(la_)
		{ // construct but don't lock
''', '''		explicit batch_lock_t(std::adopt_lock_t, _Cont& locks_, _Assemble& la_)
			: _LkN(&locks_)
			, _LA(la_)
		{ // construct but don't lock
			detail::scoped_lock_range_lock_impl::_Lock_range(_LA);
''', 'L04')
m('mda-backout2', WDA, '_Unlock_locks(_First, _Next, _LkN);', '_Unlock_locks(_First, _Next > _First + 1 ? _Next - 1 : _Next, _LkN);', 'L04 M04')
m('mda-range2', WDA, '_Failed = LOCK_ASSEMBLE_AWAIT(_Try_lock_range(_Hard_lock + 1, (int)_LkN.size(), _LkN));', '_Failed = _Hard_lock + 2 < (int)_LkN.size() || _Hard_lock == 0 ? LOCK_ASSEMBLE_AWAIT(_Try_lock_range(_Hard_lock + 1, (int)_LkN.size(), _LkN)) : -1;', 'L04')
m('iq-tail', IQ, '''		if (_tailer == e)
			_tailer = e->_prev;
''', '''		if (_tailer == e && _header)
			_tailer = e->_prev;
''', 'Q01')
m('iq-prev', IQ, '''		if (_header)
			_header->_prev = e;
		_header = e;
''', '''		_header = e;
''', 'Q01')
m('iq-popprev', IQ, '''		if (_header != nullptr)
			_header->_prev = nullptr;
''', '''''', 'Q01')
m('iq-count', IQ, '''		if (_header == e)
			_header = e->_next;''', '''		if (_header == e) { try_pop(); return; }''', '')
m('iq-next', IQ, '''		node->_prev = nullptr;
		node->_next = nullptr;
''', '''		node->_prev = nullptr;
''', 'Q01')
m('cp-massign', CP, '''				std::swap(_p, cp._p);
				cp._unlock();''', '''				std::swap(_p, cp._p);''', 'R01')
m('cp-assign', CP, '''				counted_ptr t(cp);
				std::swap(_p, t._p);''', '''				_unlock();
				_lock(cp._p);''', '')
m('cp-assign-self', CP, '''			if (&cp != this)
			{
				counted_ptr t(cp);
				std::swap(_p, t._p);''', '''			{
				_unlock();
				_lock(cp._p);''', 'R01')
m('P-sp-xchg', SP, '''			int val = FREE_VALUE;
			bool ret = lck.compare_exchange_strong(val, LOCKED_VALUE, std::memory_order_acq_rel);
''', '''			bool ret = lck.exchange(LOCKED_VALUE, std::memory_order_acquire) == FREE_VALUE;
''', '')
m('P-sp-lock', SP, '''				size_t spinCount = 0;
				auto dt = std::chrono::milliseconds{ 1 };
				do
				{
					while (lck.load(std::memory_order_relaxed) != FREE_VALUE)
					{
						if (spinCount < MAX_ACTIVE_SPIN)''', '''				size_t spinCount = 0;
				auto dt = std::chrono::milliseconds{ 1 };
				do
				{
					for (;;)
					{
						if (lck.load(std::memory_order_relaxed) == FREE_VALUE) break;
						if (spinCount < MAX_ACTIVE_SPIN)''', '')
m('P-iq-erase', IQ, '''		if (e->_next)
			e->_next->_prev = e->_prev;
		if (e->_prev)
			e->_prev->_next = e->_next;
''', '''		auto* prev = e->_prev;
		if (e->_next)
			e->_next->_prev = prev;
		if (prev)
			prev->_next = e->_next;
''', '')
m('P-mda3', WDA, '''		int _Hard_lock = 0;
		while (_Hard_lock != -1) {
			_Hard_lock = LOCK_ASSEMBLE_AWAIT(_Lock_attempt(_Hard_lock, _LkN));
		}''', '''		int _Hard_lock = 0;
		do {
			_Hard_lock = LOCK_ASSEMBLE_AWAIT(_Lock_attempt(_Hard_lock, _LkN));
		} while (_Hard_lock >= 0);''', '')
STI='include/librf/src/state.inl'; STH='include/librf/src/state.h'; STC='source/state.cpp'; PRH='include/librf/src/promise.h'; AWH='include/librf/src/awaitable.h'
m('fu-suspend-noadd', STI, '''		if (sch != nullptr && this->is_ready())
			sch->add_generator(this);
	}
''', '''		if (sch != nullptr && this->_is_future)
			sch->add_generator(this);
	}
''', 'F02')
m('fu-suspend-early', STI, '''			this->_coro = handler;

		if (sch != nullptr && this->is_ready())
''', '''			this->_coro = handler;

		if (sch != nullptr && rdy)
''', 'F02')
M[-1] = (M[-1][0], STI, [('''		scheduler_t* sch = parent_state->get_scheduler();
''', '''		scheduler_t* sch = parent_state->get_scheduler();
		const bool rdy = this->is_ready();
'''), (M[-1][2], M[-1][3])], None, 'F02')
m('fu-resume-noclear', STC, '''			coroutine_handle<> handler = _coro;
			_coro = nullptr;
			__guard.unlock();

			handler.resume();
			return;''', '''			coroutine_handle<> handler = _coro;
			__guard.unlock();

			handler.resume();
			_coro = nullptr;
			return;''', 'F03')
m('fu-resume-locked', STC, '''			_is_initor = initor_type::None;
			__guard.unlock();

			handler.destroy();''', '''			_is_initor = initor_type::None;

			handler.destroy();''', 'F03')
m('fu-resume-notready', STC, 'if (_coro && future_await_ready())', 'if (_coro && is_ready())', 'F03')
m('fu-dtor-value', STH, '''			case result_type::Value:
				_value.~value_type();
				break;
			case result_type::Exception:
				_exception''', '''			case result_type::Exception:
				_exception''', 'F04')
m('fu-exc-over-value', STI, '''		case result_type::Value:
			_value.~value_type();
		default:
			new (&this->_exception)''', '''		default:
			new (&this->_exception)''', 'F04')
m('fu-void-notready', STC, '''		if (this->_has_value.load(std::memory_order_acquire) != result_type::Value)
			std::rethrow''', '''		if (this->_has_value.load(std::memory_order_acquire) == result_type::Exception)
			std::rethrow''', 'F01')
m('fu-final-nodel', STI, '''			sch->add_generator(this);
		sch->del_final(this);''', '''			sch->add_generator(this);
		else sch->del_final(this);''', 'F02')
m('fu-transform', PRH, '_Whatever._state->set_scheduler(get_state()->get_scheduler());', '(void)0;', '')
m('fu-handler', STH, 'return (bool)_coro || _is_initor != initor_type::None;', 'return (bool)_coro || _is_initor == initor_type::Initial;', 'F02')
m('fu-isready', STH, 'return 0 != reinterpret_cast<const std::atomic<uint16_t> &>(_has_value).load(std::memory_order_acquire);', 'return 0 != reinterpret_cast<const std::atomic<uint8_t> &>(_has_value).load(std::memory_order_acquire);', 'F02')
m('P-fu-isready', STH, 'return 0 != reinterpret_cast<const std::atomic<uint16_t> &>(_has_value).load(std::memory_order_acquire);', 'return _is_future || _has_value.load(std::memory_order_acquire) != result_type::None;', '')
m('P-fu-resume', STC, '''		if (_is_initor == initor_type::Initial)
		{
			assert((bool)_initor);

			coroutine_handle<> handler = _initor;
			_is_initor = initor_type::None;
			__guard.unlock();

			handler.resume();
			return;
		}
		
		if (_coro && future_await_ready())
		{
			coroutine_handle<> handler = _coro;
			_coro = nullptr;
			__guard.unlock();

			handler.resume();
			return;
		}
''', '''		coroutine_handle<> next;
		if (_is_initor == initor_type::Initial)
		{
			next = _initor;
			_is_initor = initor_type::None;
		}
		else if (future_await_ready())
			std::swap(next, _coro);
		if (next)
		{
			__guard.unlock();
			next.resume();
			return;
		}
''', '')
m('P-fu-set', STC, '''		this->_has_value.store(result_type::Value, std::memory_order_release);

		scheduler_t* sch = this->get_scheduler();''', '''		scheduler_t* sch = this->get_scheduler();
		this->_has_value.store(result_type::Value, std::memory_order_release);
''', '')
m('fu-allocsize', STC, 'size_t _Size = this->_alloc_size;', 'size_t _Size = sizeof(state_future_t);', 'F04')
m('fu-aw-keep', AWH, '''			counted_ptr<state_type> cp(std::move(this->_state));
			cp->set_exception(std::move(e));''', '''			counted_ptr<state_type> cp(this->_state);
			cp->set_exception(std::move(e));''', 'F01')
# ------------------------------------------------------------ scheduler
SCC='source/scheduler.cpp'; SCH='include/librf/src/scheduler.h'; TKC='source/rf_task.cpp'; TKH='include/librf/src/rf_task.h'; SWH='include/librf/src/switch_scheduler.h'; CUR='include/librf/src/current_scheduler.h'; YLD='include/librf/src/yield.h'; STC='source/state.cpp'
m('sc-batch-noclear', SCC, '''		_cached_states.clear();
		return true;''', '''		return true;''', 'C01')
m('sc-batch-copy', SCC, '''			std::swap(_cached_states, _runing_states);
		}''', '''			_cached_states = _runing_states;
		}
		_runing_states.clear();''', 'C01')
m('sc-batch-window', SCC, [('''			std::swap(_cached_states, _runing_states);
		}''', '''			for (auto& s : _runing_states) _cached_states.push_back(s);
		}
		{
			scoped_lock<spinlock> __guard(_lock_running);
			_runing_states.clear();
		}''')], None, 'C01')
m('sc-batch-locked', SCC, '''			std::swap(_cached_states, _runing_states);
		}

		for''', '''			std::swap(_cached_states, _runing_states);

		for''', '') if False else None
m('sc-batch-noupdate', SCC, '''		this->_timer->update();

		{''', '''		{''', 'C01') if False else None
m('sc-batch-after', SCC, '''			if (likely(_runing_states.empty()))
				return false;

			std::swap''', '''			if (likely(_runing_states.empty()))
				return true;

			std::swap''', 'C01')
m('sc-run-notimer', SCC, 'if (unlikely(!_timer->empty())) continue;', '', 'C02')
m('sc-run-notask', SCC, 'if (likely(!_ready_task.empty())) continue;', '', 'C02')
m('sc-run-once', SCC, 'if (likely(this->run_one_batch())) continue;', 'this->run_one_batch();', 'C02')
m('sc-empty-notimer', SCH, 'return _ready_task.empty() && _runing_states.empty() && _timer->empty();', 'return _ready_task.empty() && _runing_states.empty();', 'C02')
m('sc-empty-or', SCH, 'return _ready_task.empty() && _runing_states.empty() && _timer->empty();', 'return _ready_task.empty() && (_runing_states.empty() || _timer->empty());', 'C02')
m('sc-new-latesched', SCC, [('		sptr->set_scheduler(this);\n', ''), ('''			_ready_task.emplace(sptr, task);
		}
''', '''			_ready_task.emplace(sptr, task);
		}
		sptr->set_scheduler(this);
''')], None, 'C03')
m('sc-new-always', SCC, 'if (sptr->has_handler())', 'if (true)', 'C03')
m('sc-new-unlocked', SCC, '''		{
#if !RESUMEF_DISABLE_MULT_THREAD
			scoped_lock<spinlock> __guard(_lock_ready);
#endif
			_ready_task.emplace(sptr, task);
		}''', '''		_ready_task.emplace(sptr, task);''', 'C03')
m('sc-del-first', SCC, 'auto iter = this->_ready_task.find(sptr);', 'auto iter = this->_ready_task.begin(); (void)sptr;', 'C03')
m('sc-del-leak', SCC, 'this->_ready_task.erase(iter);', '', 'C03')
m('sc-del-nomove', SCC, 'task_ptr = std::exchange(iter->second, nullptr);', '', 'C03 C04')
m('sc-addsw-sched', SCH, 'this->_ready_task.emplace(sptr, std::move(task));', 'this->_ready_task.emplace(sptr, std::move(task)); sptr->set_scheduler(nullptr);', 'C04')
m('sc-find-end', SCH, '''		if (iter != this->_ready_task.end())
			return iter->second.get();
		return nullptr;''', '''		if (iter == this->_ready_task.end())
			iter = this->_ready_task.begin();
		return iter == this->_ready_task.end() ? nullptr : iter->second.get();''', 'C03')
m('sc-switch-noparent', STC, '''		if (_parent != nullptr)
			_parent->switch_scheduler_await_suspend(sch);''', '', 'C04')
m('sc-switch-nosched', STC, [("""			auto task_ptr = _scheduler->del_switch(this);

			_scheduler = sch;
""", """			auto task_ptr = _scheduler->del_switch(this);
			if (task_ptr == nullptr) _scheduler = sch;
""")], None, 'C04')
m('sc-via-same', STC, [("""		scoped_lock<lock_type> __guard(this->_mtx);

		if (_scheduler != nullptr)
		{
			if (_scheduler == sch) return false;""", """		scoped_lock<lock_type> __guard(this->_mtx);

		if (_scheduler != nullptr)
		{
			if (_scheduler == sch) return true;""")], None, 'C04')
m('sc-via-noset', SWH, '''				_state->set_value();
				_state->future_await_suspend(handler);''', '''				_state->future_await_suspend(handler);''', 'C04')
m('sc-via-twice', SWH, '''				_state->set_value();
				_state->future_await_suspend(handler);''', '''				_state->future_await_suspend(handler);
				_state->set_value();
				_scheduler->add_generator(_state.get());''', 'C04')
m('sc-cur-own', CUR, 'scheduler_t* sch = state->get_scheduler();', 'scheduler_t* sch = this_scheduler(); (void)state;', 'C04')
m('sc-root-self', CUR, 'this->_state = parent->get_root();', 'this->_state = parent;', 'C04')
m('sc-yield-noset', YLD, '''			_state->set_value();
''', '', 'C01 C04')
m('sc-local-always', SCC, '''		if (th_scheduler_ptr == _scheduler_ptr)
			th_scheduler_ptr = nullptr;
''', '''		th_scheduler_ptr = nullptr;
''', 'C05')
m('sc-local-nounbind', SCC, '''		if (th_scheduler_ptr == this)
			th_scheduler_ptr = nullptr;
''', '''''', 'C05')
m('sc-ctor-steal', SCC, '''		if (th_scheduler_ptr == nullptr)
			th_scheduler_ptr = this;
''', '''		th_scheduler_ptr = this;
''', 'C05')
m('sc-stop-ptr', SCC, [('std::vector<stop_source> stop_sources;', 'std::vector<const stop_source*> stop_sources;'), ('stop_sources.push_back(kv.second->_stop);', 'stop_sources.push_back(&kv.second->_stop);'), ('for (stop_source& source : stop_sources)\n			source.request_stop();', 'for (auto* source : stop_sources)\n			source->request_stop();')], None, 'C07')
m('sc-stop-first', SCC, 'if (kv.second->_stop.stop_possible())\n					stop_sources.push_back(kv.second->_stop);', 'if (!kv.second->_stop.stop_possible()) break;\n				stop_sources.push_back(kv.second->_stop);', 'C07')
m('sc-stop-notimer', SCC, '		this->_timer->clear();\n', '', 'C07')
m('sc-stop-create', SCC, 'if (kv.second->_stop.stop_possible())\n					stop_sources', '{ kv.second->get_stop_source(); }\n				stop_sources', 'C07')
m('sc-task-if', TKH, '''			if (_stop.stop_possible())
				return _stop.request_stop();''', '''			if (_stop.stop_possible())
				{ _stop.request_stop(); return true; }''', 'C07')
m('P-sc-batch', SCC, '''		{
#if !RESUMEF_DISABLE_MULT_THREAD
			scoped_lock<spinlock> __guard(_lock_running);
#endif
			if (likely(_runing_states.empty()))
				return false;

			std::swap(_cached_states, _runing_states);
		}

		for (state_sptr& sptr : _cached_states)
			sptr->resume();

		_cached_states.clear();
		return true;''', '''		state_vector batch;
		{
			scoped_lock<spinlock> __guard(_lock_running);
			batch.swap(_runing_states);
		}
		for (size_t i = 0; i < batch.size(); ++i)
			batch[i]->resume();
		return !batch.empty();''', '')
m('P-sc-run', SCC, '''			if (likely(this->run_one_batch())) continue;	//当前运行了一个state，则认为还可能有任务未完成
''', '''			if (this->run_one_batch()) continue;
''', '') if False else None
m('P-sc-new', SCC, '''			_ready_task.emplace(sptr, task);
		}''', '''			_ready_task.emplace(sptr, std::unique_ptr<task_t>(task));
		}''', '')
m('P-sc-del', SCC, '''			task_ptr = std::exchange(iter->second, nullptr);
''', '''			task_ptr = std::move(iter->second);
''', '')
m('P-sc-del2', SCH, '''		(void)this->del_switch(sptr);''', '''		auto owner = this->del_switch(sptr);
		owner.reset();''', '')
m('P-sc-find', SCH, '''		if (iter != this->_ready_task.end())
			return iter->second.get();
		return nullptr;''', '''		task_t* found = nullptr;
		if (iter != this->_ready_task.end())
			found = iter->second.get();
		return found;''', '')
m('P-sc-stop', SCC, '''		for (stop_source& source : stop_sources)
			source.request_stop();''', '''		while (!stop_sources.empty())
		{
			stop_source source = std::move(stop_sources.back());
			stop_sources.pop_back();
			source.request_stop();
		}''', '')
m('P-sc-stop2', SCC, 'stop_sources.push_back(kv.second->_stop);', 'stop_sources.emplace_back(kv.second->_stop);', '')
m('P-sc-emplace', SCH, '_runing_states.emplace_back(sptr);', '_runing_states.push_back(state_sptr(sptr));', '')
STP = 'include/librf/src/stop_token.h'
m('st-req-twice', STP, '''            if (is_stop_requested(old_state))
            {
                return false;
            }
            while (is_locked''', '''            while (is_locked''', 'K01')
m('st-req-inner', STP, '''                old_state = state_.load(std::memory_order_acquire);
                if (is_stop_requested(old_state))
                {
                    return false;
                }
            }
        } while''', '''                old_state = state_.load(std::memory_order_acquire);
            }
        } while''', 'K01')
m('st-head-unlocked', STP, '''            cb->prev = nullptr;
            unlock();
''', '''            unlock();
            cb->prev = nullptr;
''', 'K01 K02')
m('st-prev-kept', STP, '''            cb->prev = nullptr;
            unlock();
''', '''            unlock();
''', 'K02')
m('st-headprev', STP, '''            if (any_more)
            {
                head_->prev = &head_;
            }
''', '', 'K02')
m('st-nofin', STP, 'cb->finished_executing.store(true, std::memory_order_release);', '', 'K02')
m('st-fin-early', STP, [('            cb->execute();\n            if (!removed)', '            cb->finished_executing.store(true, std::memory_order_release);\n            cb->execute();\n            if (!removed)')], None, 'K02')
m('st-nowait', STP, 'while (!cb->finished_executing.load(std::memory_order_acquire))', 'if (!cb->finished_executing.load(std::memory_order_acquire))', 'K02')
m('st-noremoved', STP, '*cb->is_removed = true;', '', 'K02')
m('st-anymore', STP, '''            if (!any_more)
            {
                return true;
            }
            lock();
        }
        unlock();''', '''            lock();
        }
        unlock();''', '')
m('st-unlink-next', STP, '''            if (cb->next)
            {
                cb->next->prev = cb->prev;
            }
''', '', 'K02')
m('st-unlink-head', STP, '*cb->prev = cb->next;', 'head_ = cb->next;', 'K02')
m('st-add-nocheck', STP, '''                else if (!is_stop_requestable(old_state))
                {
                    return false;
                }
''', '', 'K01 K03')
m('st-add-late', STP, '''                if (is_stop_requested(old_state))
                {
                    cb->execute();
                    return false;
                }
                else if''', '''                if (is_stop_requested(old_state) && !is_locked(old_state))
                {
                    cb->execute();
                    return false;
                }
                else if''', '')
m('st-add-noprev', STP, '''        if (cb->next)
        {
            cb->next->prev = &cb->next;
        }
        cb->prev''', '''        cb->prev''', 'K02')
m('st-add-noinc', STP, 'token.state_->try_add_callback(this, true)', 'token.state_->try_add_callback(this, false)', 'K03')
m('st-take-inc', STP, 'token.state_->try_add_callback(this, false)', 'token.state_->try_add_callback(this, true)', 'K03')
m('st-take-keep', STP, 'state_ = std::exchange(token.state_, nullptr);', 'state_ = token.state_;', 'K03')
m('st-zero', STP, 'kZeroRef = kTokenRefIncrement + kSourceRefIncrement', 'kZeroRef = kTokenRefIncrement + kTokenRefIncrement + kSourceRefIncrement', 'K03')
m('st-lasttoken', STP, 'kLastTokenRef = kTokenRefIncrement + kTokenRefIncrement', 'kLastTokenRef = kTokenRefIncrement + 1', 'K03')
m('st-locklast', STP, 'kLockedAndLastTokenRef = kLockedFlag + kLastTokenRef', 'kLockedAndLastTokenRef = kLastTokenRef', '')
m('st-rm-noref', STP, '''                std::this_thread::yield();
            }
        }
        remove_token_reference();''', '''                std::this_thread::yield();
            }
            remove_token_reference();
        }''', 'K03 K02')
m('st-ref-nonatomic', STP, 'state_.fetch_add(kTokenRefIncrement, std::memory_order_relaxed);', 'state_.store(state_.load() + kTokenRefIncrement);', 'K03')
m('st-sure-noswap', STP, '''                std::memory_order_acquire))
            {
                st->remove_source_reference();
            }''', '''                std::memory_order_acquire))
            {
            }''', 'K03')
m('st-sure-plain', STP, '''            if (!std::atomic_compare_exchange_strong_explicit(
                reinterpret_cast<std::atomic<details::stop_state*>*>(&state_),
                &tmp, 
                st, 
                std::memory_order_release, 
                std::memory_order_acquire))
            {
                st->remove_source_reference();
            }''', '(void)tmp; state_ = st;', 'K03')
m('st-assign-self', STP, '''    stop_source& operator=(stop_source&& other) noexcept
    {
        stop_source tmp{std::move(other)};
        swap(tmp);''', '''    stop_source& operator=(stop_source&& other) noexcept
    {
        state_ = std::exchange(other.state_, nullptr);''', 'K03')
m('st-requestable', STP, 'return is_stop_requested(state) || (state >= kSourceRefIncrement);', 'return (state >= kSourceRefIncrement);', 'K01 K03')
m('st-unlock-set', STP, 'state_.fetch_sub(kLockedFlag, std::memory_order_release);', 'state_.store(state_.load(std::memory_order_relaxed) & ~kLockedFlag, std::memory_order_release);', 'K03')
m('P-st-fifo', STP, '''        cb->next = head_;
        if (cb->next)
        {
            cb->next->prev = &cb->next;
        }
        cb->prev = &head_;
        head_ = cb;
''', '''        stop_callback_base** at = &head_;
        while (*at)
            at = &(*at)->next;
        cb->next = nullptr;
        cb->prev = at;
        *at = cb;
''', '')
m('P-st-unlock', STP, 'state_.fetch_sub(kLockedFlag, std::memory_order_release);', 'state_.fetch_and(~kLockedFlag, std::memory_order_release);', '')
m('P-st-noyield', STP, '''            while (is_locked(old_state))
            {
                std::this_thread::yield();
                old_state = state_.load(std::memory_order_relaxed);''', '''            while (is_locked(old_state))
            {
                old_state = state_.load(std::memory_order_relaxed);''', '')
m('P-st-copyassign', STP, '''    stop_source& operator=(const stop_source& other) noexcept
    {
        if (state_ != other.state_)
        {''', '''    stop_source& operator=(const stop_source& other) noexcept
    {
        {''', '')
m('P-st-unlock2', STP, '''        state_.fetch_sub(kUnlockAndTokenRefIncrement, std::memory_order_release);''', '''        state_.fetch_add(kTokenRefIncrement, std::memory_order_relaxed);
        unlock();''', '')
# ---------------------------------------------------------------- timers
TMC = 'source/timer.cpp'; TMH = 'include/librf/src/timer.h'
m('tm-nomove', TMC, 'auto cb = std::move(sptr->cb);', 'auto cb = sptr->cb;', 'T01')
m('tm-cbfirst', TMC, '''		if(cb) cb(canceld);''', '''		if(sptr->cb) sptr->cb(canceld);''', 'T01')
m('tm-flag', TMC, '''== timer_target::State::Invalid)
			canceld = true;''', '''== timer_target::State::Invalid)
			canceld = canceld;''', 'T01 T02')
m('tm-noexch', TMC, 'if (sptr->st.exchange(timer_target::State::Invalid) == timer_target::State::Invalid)', 'if (sptr->st.load() == timer_target::State::Invalid)', 'T02')
m('tm-stop-load', TMC, '''		return sptr->st.exchange(timer_target::State::Invalid) != timer_target::State::Invalid;''', '''		if (sptr->st == timer_target::State::Invalid) return false;
		sptr->st = timer_target::State::Invalid; return true;''', 'T02')
m('tm-stop-run', TMC, '''		return sptr->st.exchange(timer_target::State::Invalid) != timer_target::State::Invalid;''', '''		auto e = timer_target::State::Runing; return sptr->st.compare_exchange_strong(e, timer_target::State::Invalid);''', 'T02')
m('tm-clear-added', TMC, '''		for (auto& sptr : _atimer)
			call_target_(sptr, true);

		auto''', '''		auto''', 'T01')
m('tm-clear-running', TMC, '''		auto _rtimer = std::move(_runing_timers);
		for (auto & kv : _rtimer)
			call_target_(kv.second, true);''', '''		auto _rtimer = std::move(_runing_timers);''', 'T01')
m('tm-clear-false', TMC, '''		for (auto & kv : _rtimer)
			call_target_(kv.second, true);''', '''		for (auto & kv : _rtimer)
			call_target_(kv.second, false);''', 'T01')
m('tm-clear-nomove', TMC, '''		auto _rtimer = std::move(_runing_timers);
		for (auto & kv : _rtimer)''', '''		auto & _rtimer = _runing_timers;
		for (auto & kv : _rtimer)''', 'T01 T03')
m('tm-add-nolock', TMC, '''		scoped_lock<spinlock> __lock(_added_mtx);''', '', 'T03')
m('tm-upd-nolock', TMC, '''			if (unlikely(_added_timers.size() > 0))
			{
				auto _atimer = std::move(_added_timers);''', '''			__lock.unlock();
			if (unlikely(_added_timers.size() > 0))
			{
				auto _atimer = std::move(_added_timers);__lock.lock();''', 'T03')
m('tm-upd-locked', TMC, '''				__lock.unlock();
#endif

				for''', '''#endif

				for''', 'T01 T03')
m('tm-upd-stopped-dropped', TMC, '''						call_target_(sptr, true);
''', '''
''', 'T01')
m('tm-upd-plain', TMC, '''				if (sptr->st.compare_exchange_strong(st, timer_target::State::Runing))''', '''				sptr->st = timer_target::State::Runing;
				if (true)''', 'T01 T02')
m('tm-upd-load', TMC, '''					if (sptr->st.compare_exchange_strong(st, timer_target::State::Runing))
					{''', '''					if (sptr->st.load() == st)
					{
						sptr->st = timer_target::State::Runing;''', 'T02')
m('tm-early', TMC, '!(_runing_timers.begin()->first > now_)', 'true', 'T01')
m('tm-strict', TMC, '!(_runing_timers.begin()->first > now_)', '(_runing_timers.begin()->first < now_)', 'T01')
m('tm-one', TMC, 'while (!_runing_timers.empty() && ', 'if (!_runing_timers.empty() && ', 'T01')
m('tm-noerase', TMC, '''				_runing_timers.erase(_runing_timers.begin());

				call_target_(sptr, false);''', '''				call_target_(sptr, false);
				_runing_timers.erase(_runing_timers.begin());''', 'T03')
m('tm-map', TMH, 'typedef std::multimap<clock_type::time_point, timer_target_ptr> timer_map_type;', 'typedef std::map<clock_type::time_point, timer_target_ptr> timer_map_type;', 'T01')
m('tm-reserve-lost', TMC, '''				auto _atimer = std::move(_added_timers);''', '''				auto _atimer = _added_timers;''', 'T01')
m('tm-dur', TMH, 'add_(std::make_shared<timer_target>(clock_type::now() + dt_,', 'add_(std::make_shared<timer_target>(clock_type::now(),', 'T01')
m('tm-h-strong', TMH, [('timer_mgr_wptr'+'\t'*4+'_manager;', 'timer_mgr_ptr'+'\t'*4+'_manager;'), ('auto sptr = _manager.lock();', 'auto sptr = _manager;')], '', 'T04')
m('tm-h-noreset', TMH, '''			_target.reset();
		}
		_manager''', '''		}
		_manager''', 'T04')
m('tm-h-self', TMH, '''			_manager = std::move(right_._manager);
			_target = std::move(right_._target);
		}
		return''', '''			_target = std::move(right_._target);
		}
		return''', 'T04')
m('tm-h-stopnull', TMC, '''		if (!sptr)
			return false;''', '', 'T04')
m('tm-empty-or', TMH, 'return _runing_timers.empty() && _added_timers.empty();', 'return _runing_timers.empty();', 'T01')
m('tm-empty-or2', TMH, 'return _runing_timers.empty() && _added_timers.empty();', 'return _added_timers.empty();', 'T01')
m('tm-empty-nolock', TMH, '''			std::unique_lock<spinlock> __lock(_added_mtx);
#endif
			return _run''', '''#endif
			return _run''', 'T03')
m('tm-dtor', TMC, '''	{
		clear();
	}''', '''	{
	}''', 'T01')
m('P-tm-swap', TMC, '''				auto _atimer = std::move(_added_timers);
				_added_timers.reserve(128);''', '''				timer_vector_type _atimer;
				_atimer.swap(_added_timers);
				_added_timers.reserve(128);''', '')
m('P-tm-loop', TMC, '''			while (!_runing_timers.empty() && !(_runing_timers.begin()->first > now_))
			{
				auto sptr = std::move(_runing_timers.begin()->second);
				_runing_timers.erase(_runing_timers.begin());

				call_target_(sptr, false);
			}''', '''		for (;;)
		{
			if (_runing_timers.empty()) break;
			auto it = _runing_timers.begin();
			if (now_ < it->first) break;
			timer_target_ptr next = it->second;
			_runing_timers.erase(it);
			call_target_(next, false);
		}''', '')
m('P-tm-emplace', TMC, '_runing_timers.insert({ sptr->tp, sptr });', '_runing_timers.emplace(sptr->tp, sptr);', '')
m('P-tm-call', TMC, '''		auto cb = std::move(sptr->cb);
		if (sptr->st.exchange(timer_target::State::Invalid) == timer_target::State::Invalid)
			canceld = true;''', '''		const bool was_stopped = sptr->st.exchange(timer_target::State::Invalid) == timer_target::State::Invalid;
		std::function<void(bool)> cb(nullptr);
		cb.swap(sptr->cb);
		canceld = canceld || was_stopped;''', '')
m('P-tm-clear', TMC, '''		auto _atimer = std::move(_added_timers);
#if !RESUMEF_DISABLE_MULT_THREAD
		__lock.unlock();
#endif

		for (auto& sptr : _atimer)
			call_target_(sptr, true);
''', '''		timer_vector_type _atimer(std::move(_added_timers));
		_added_timers.clear();
#if !RESUMEF_DISABLE_MULT_THREAD
		__lock.unlock();
#endif
		for (size_t i = 0; i < _atimer.size(); ++i)
			call_target_(_atimer[i], true);
''', '')
m('P-tm-stop', TMC, '''		return sptr->st.exchange(timer_target::State::Invalid) != timer_target::State::Invalid;''', '''		timer_target::State old = sptr->st.load();
		while (old != timer_target::State::Invalid)
			if (sptr->st.compare_exchange_weak(old, timer_target::State::Invalid)) return true;
		return false;''', '')
m('P-tm-hstop', TMH, '''		if (!_target.expired())
		{
			auto sptr = _manager.lock();
			if (sptr)
				result = sptr->stop(_target.lock());
			_target.reset();
		}''', '''		if (auto target = _target.lock())
		{
			if (auto sptr = _manager.lock())
				result = sptr->stop(target);
			target.reset();
			_target.reset();
		}''', '')
SLC='source/sleep.cpp'; SLH='include/librf/src/sleep.h'
m('sl-cancel-value', SLC, 'if (cancellation_requested)', 'if (false)', 'T05')
m('sl-cancel-code', SLC, 'error_code::timer_canceled', 'error_code::stop_requested', 'T05')
m('sl-for-plus', SLH, 'std::chrono::system_clock::now() + dt_', 'std::chrono::system_clock::now() + (dt_ < dt_.zero() ? -dt_ : dt_)', 'T05')
m('sl-for-half', SLH, 'std::chrono::system_clock::now() + dt_', 'std::chrono::system_clock::now() + std::chrono::duration_cast<std::chrono::microseconds>(dt_)', 'T05')
m('sl-co-noawait', SLH, 'co_await sleep_for(dt_, *sch);', '(void)sleep_for(dt_, *sch);', 'T05')
m('sl-own-sched', SLH, 'return sleep_for_(std::chrono::duration_cast<std::chrono::system_clock::duration>(dt_), scheduler_);', 'return sleep_for_(std::chrono::duration_cast<std::chrono::system_clock::duration>(dt_), *this_scheduler());', 'T05')
m('P-sl-lambda', SLC, '''				if (cancellation_requested)
					awaitable.throw_exception(canceled_exception{ error_code::timer_canceled });
				else
					awaitable.set_value();
''', '''				if (!cancellation_requested)
				{
					awaitable.set_value();
					return;
				}
				canceled_exception ex{ error_code::timer_canceled };
				awaitable.throw_exception(std::move(ex));
''', '')
WHC='source/when_v2.cpp'; WHH='include/librf/src/when_v2.h'
m('wh-count-2', WHC, 'fetch_sub(1, std::memory_order_acq_rel) == 1', 'fetch_sub(1, std::memory_order_acq_rel) <= 2', 'W01')
m('P-wh-no-del', WHC, '				_scheduler->del_final(this);\n', '', '')
m('wh-any-twice', WHH, '''				intptr_t oldValue = -1;
				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
				{
					value->second = std::move(result);

					state->on_notify_one();
				}''', '''				if (value->first == -1)
				{
					value->first = idx;
				}
				value->second = std::move(result);
				state->on_notify_one();''', 'W02')
m('wh-any-overwrite', WHH, '''				intptr_t oldValue = -1;
				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
				{
					value->second = std::move(result);
''', '''				value->second = result;
				intptr_t oldValue = -1;
				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
				{
''', 'W02')
m('P-wh-any-rawstate', WHH, 'when_any_connector(counted_ptr<state_when_t> state,', 'when_any_connector(state_when_t* state,', '')
m('wh-suspend-nolock', WHH, '''				scoped_lock<lock_type> lock_(_lock);

				//在加锁之前，可能已经全部完成了
''', '', 'W01')
m('wh-idx', WHH, 'when_any_one__(sch, state, value, _Idx + 1,', 'when_any_one__(sch, state, value, _Idx + 2,', 'W02')
m('wh-range-idx', WHH, '''				sch + when_all_connector_2<_Awaitable, _Val>(state, *begin, values[_Idx]);''', '''				sch + when_all_connector_2<_Awaitable, _Val>(state, *begin, values[_Idx ? _Idx - 1 : 0]);''', 'W01')
m('wh-value-early', WHH, '''			else
				value = co_await awaitor;
			state->on_notify_one();
		};

		template<class _FuckBoolean>''', '''			else
			{
				state->on_notify_one();
				value = co_await awaitor;
				co_return;
			}
			state->on_notify_one();
		};

		template<class _FuckBoolean>''', 'W01')
m('P-wh-notify', WHC, '''			if (_counter.fetch_sub(1, std::memory_order_acq_rel) == 1)
			{
				if (this->_coro)
				{
					assert(this->_scheduler != nullptr);
					this->_scheduler->add_generator(this);
				}

				return true;
			}
			return false;''', '''			const intptr_t left = _counter.fetch_sub(1, std::memory_order_acq_rel) - 1;
			if (left != 0)
				return false;
			scheduler_t* const target = this->_scheduler;
			if (this->_coro)
			{
				assert(target != nullptr);
				target->add_generator(this);
			}
			return true;''', '')
GNH = 'include/librf/src/generator.h'
m('gn-begin-done', GNH, '''				if (_Coro.done())
					return{ nullptr };
''', '', 'G01')
m('gn-begin-twice', GNH, '''				_Coro.resume();
				if (_Coro.done())
					return{ nullptr };''', '''				_Coro.resume();
				_Coro.resume();
				if (_Coro.done())
					return{ nullptr };''', 'G01')
m('gn-dtor-leak', GNH, '''			if (_Coro) {
				_Coro.destroy();
			}
		}''', '''			if (_Coro && !_Coro.done()) {
				_Coro.destroy();
			}
		}''', 'G01')
m('gn-move-keeps', GNH, '''			: _Coro(right_._Coro)
		{
			right_._Coro = nullptr;
		}''', '''			: _Coro(right_._Coro)
		{
		}''', 'G01')
m('gn-self-assign', GNH, '''			if (this != std::addressof(right_)) {
				if (_Coro)
					_Coro.destroy();''', '''			{
				if (_Coro)
					_Coro.destroy();''', 'G01')
m('gn-detach-keeps', GNH, '''			auto t = _Coro;
			_Coro = nullptr;
			return t''', '''			auto t = _Coro;
			return t''', 'G01')
m('gn-inc-done-late', GNH, '''			if (_Coro.done())
				_Coro = nullptr;
			else
				_Coro.resume();
			return *this;''', '''			_Coro.resume();
			if (_Coro.done())
				_Coro = nullptr;
			return *this;''', 'G01')
m('gn-yield-local', GNH, '''				_CurrentValue = std::addressof(_Value);
				return {};''', '''				_Ty _Keep = _Value;
				_CurrentValue = std::addressof(_Keep);
				return {};''', 'G01')
m('gn-initial-eager', GNH, '''			suspend_always initial_suspend() noexcept
			{
				return {};
			}''', '''			suspend_never initial_suspend() noexcept
			{
				return {};
			}''', 'G01')
m('gn-final-never', GNH, '''			suspend_always final_suspend() noexcept
			{
				return {};
			}''', '''			suspend_never final_suspend() noexcept
			{
				return {};
			}''', 'G01')
m('gn-task-noreq', 'source/state.cpp', '''				_scheduler->add_generator(this);
			}
			else
			{
				coroutine_handle<> handler = _coro;''', '''				_coro.resume();
			}
			else
			{
				coroutine_handle<> handler = _coro;''', 'G01')
m('gn-task-noframe', 'source/state.cpp', '''				_scheduler->del_final(this);

				handler.destroy();''', '''				_scheduler->del_final(this);
''', 'G01')
m('gn-task-nodel', 'source/state.cpp', '''				_scheduler->del_final(this);

				handler.destroy();''', '''				handler.destroy();''', 'G01')
m('P-gn-task-order', 'source/state.cpp', '''				_scheduler->del_final(this);

				handler.destroy();''', '''				handler.destroy();
				_scheduler->del_final(this);''', '')
m('P-gn-inc', GNH, '''			if (_Coro.done())
				_Coro = nullptr;
			else
				_Coro.resume();
			return *this;''', '''			if (!_Coro.done())
			{
				_Coro.resume();
				return *this;
			}
			_Coro = nullptr;
			return *this;''', '')
m('P-gn-task', 'source/state.cpp', '''				coroutine_handle<> handler = _coro;
				_coro = nullptr;
				_scheduler->del_final(this);

				handler.destroy();''', '''				coroutine_handle<> handler = _coro;
				scheduler_t* const sch = _scheduler;
				_coro = nullptr;
				sch->del_final(this);
				handler.destroy();''', '')

# ---------------------------------------------------------------- whole histories of coroutines on events, mutexes, channels
m('sy-ev-gap', EVI, '''			detail::event_v2_impl* evt = _event;
			scoped_lock<detail::event_v2_impl::lock_type> lock_(evt->_lock);

			if (evt->try_wait_one())
			{
				return false;
			}
''', '''			detail::event_v2_impl* evt = _event;
			{
				scoped_lock<detail::event_v2_impl::lock_type> probe_(evt->_lock);
				if (evt->try_wait_one())
				{
					return false;
				}
			}
			scoped_lock<detail::event_v2_impl::lock_type> lock_(evt->_lock);
''', 'E07')
m('sy-ev-early', EVC, '''				*oldValue = eptr;
				_thandler.stop();

				assert(this->_scheduler != nullptr);
				if (this->_coro)
					this->_scheduler->add_generator(this);
''', '''				_thandler.stop();

				assert(this->_scheduler != nullptr);
				if (this->_coro)
					this->_scheduler->add_generator(this);
				*oldValue = eptr;
''', 'E04')
m('sy-ev-fastpath', EVC, '''		LIBRF_API void event_v2_impl::signal() noexcept
		{
			scoped_lock<lock_type> lock_(_lock);
''', '''		LIBRF_API void event_v2_impl::signal() noexcept
		{
			if (_wait_awakes.empty())
			{
				_counter.fetch_add(1, std::memory_order_acq_rel);
				return;
			}
			scoped_lock<lock_type> lock_(_lock);
''', 'E07')
m('sy-ev-notify-outside', EVC, '''			scoped_lock<lock_type> lock_(_lock);

			state_event_ptr state;
			for (; (state = try_pop_list(_wait_awakes)) != nullptr;)
			{
				if (state->on_notify(this))
					return;
			}

			_counter.fetch_add''', '''			for (;;)
			{
				state_event_ptr state;
				{
					scoped_lock<lock_type> lock_(_lock);
					state = try_pop_list(_wait_awakes);
					if (state == nullptr)
						break;
				}
				if (state->on_notify(this))
					return;
			}

			_counter.fetch_add''', 'E07')
m('sy-ev-trywait', EVI, '''					if (_counter.fetch_add(-1, std::memory_order_acq_rel) > 0)
						return true;
					_counter.fetch_add(1);''', '''					_counter.fetch_add(-1, std::memory_order_acq_rel);
					return true;''', 'E07')
m('sy-ev-all-outside', EVC, '''		LIBRF_API void event_v2_impl::signal_all() noexcept
		{
			scoped_lock<lock_type> lock_(_lock);

			state_event_ptr state;
			for (; (state = try_pop_list(_wait_awakes)) != nullptr;)
			{''', '''		LIBRF_API void event_v2_impl::signal_all() noexcept
		{
			wait_queue_type waiters;
			{
				scoped_lock<lock_type> lock_(_lock);
				state_event_ptr one;
				for (; (one = try_pop_list(_wait_awakes)) != nullptr;)
					waiters.push_back(one.get());
			}

			state_event_ptr state;
			for (; (state = try_pop_list(waiters)) != nullptr;)
			{''', 'E07')
m('sy-ev-all-nokeep', EVI, '''			counted_ptr<detail::state_event_all_t> keep_alive_ = _state;
''', '', 'E07')
m('sy-ev-all-nocount', EVC, '''			_values[idx].first = nullptr;

			if (--_counter == 0)''', '''			if (_values[idx].first == nullptr) return false;
			_values[idx].first = nullptr;

			if (--_counter == 0)''', '')
m('sy-ev-all-ready', EVI, '''				if (evt->try_wait_one())
				{
					--_state->_counter;
					_state->_values[idx].second = evt->shared_from_this();
				}''', '''				if (evt->is_signaled())
				{
					--_state->_counter;
					_state->_values[idx].second = evt->shared_from_this();
				}''', 'E07')
m('P-sy-ev-susp', EVI, '''			_state = new detail::state_event_t(_event);
			(void)_state->on_await_suspend(handler);

			if constexpr (!std::is_same_v<std::remove_reference_t<_Timeout>, std::nullptr_t>)
			{
				cb();
			}

			evt->add_wait_list(_state.get());

			return true;''', '''			counted_ptr<detail::state_event_t> waiter{ new detail::state_event_t(_event) };
			_state = waiter;
			(void)waiter->on_await_suspend(handler);
			evt->add_wait_list(waiter.get());

			if constexpr (!std::is_same_v<std::remove_reference_t<_Timeout>, std::nullptr_t>)
				cb();

			return true;''', '')
m('P-sy-ev-trywait', EVI, '''				if (_counter.load(std::memory_order_consume) > 0)
				{
					if (_counter.fetch_add(-1, std::memory_order_acq_rel) > 0)
						return true;
					_counter.fetch_add(1);
				}
				return false;''', '''				intptr_t have = _counter.load(std::memory_order_acquire);
				while (have > 0)
				{
					if (_counter.compare_exchange_strong(have, have - 1, std::memory_order_acq_rel))
						return true;
				}
				return false;''', '')
m('sy-mx-gap', MXI, '''			scoped_lock<detail::mutex_v2_impl::lock_type> lock_(_mutex->_lock);
			if (_mutex->try_lock_lockless(_root))
				return false;
''', '''			if (_mutex->try_lock(_root))
				return false;
			scoped_lock<detail::mutex_v2_impl::lock_type> lock_(_mutex->_lock);
''', 'M07')
m('sy-mx-barge', MXC, '''			scoped_lock<lock_type> lock_(_lock);

			void* oldValue = _owner.load(std::memory_order_relaxed);
			if (oldValue == sch)
			{
				if (_counter.fetch_sub(1, std::memory_order_relaxed) == 1)
				{
					_owner.store(nullptr, std::memory_order_relaxed);
''', '''			_lock.lock();

			void* oldValue = _owner.load(std::memory_order_relaxed);
			const bool last = oldValue == sch && _counter.fetch_sub(1, std::memory_order_relaxed) == 1;
			if (last)
				_owner.store(nullptr, std::memory_order_relaxed);
			_lock.unlock();

			scoped_lock<lock_type> lock_(_lock);
			if (oldValue == sch)
			{
				if (last)
				{
''', 'M07')
m('sy-mx-notify-first', MXC, '''						_owner.store(state->get_parent(), std::memory_order_release);
						_counter.fetch_add(1, std::memory_order_acq_rel);
						
						if (state->on_notify(this))
							break;
''', '''						state_base_t* next = state->get_parent();
						if (state->on_notify(this))
						{
							_owner.store(next, std::memory_order_release);
							_counter.fetch_add(1, std::memory_order_acq_rel);
							break;
						}
						continue;
''', '')
m('sy-mx-notify-outside', MXC, '''			scoped_lock<lock_type> lock_(_lock);

			void* oldValue = _owner.load(std::memory_order_relaxed);
			if (oldValue == sch)
			{
				if (_counter.fetch_sub(1, std::memory_order_relaxed) == 1)
				{
					_owner.store(nullptr, std::memory_order_relaxed);

					while (!_wait_awakes.empty())
					{
						state_mutex_ptr state = _wait_awakes.front();
						_wait_awakes.pop_front();
''', '''			_lock.lock();

			void* oldValue = _owner.load(std::memory_order_relaxed);
			const bool last = oldValue == sch && _counter.fetch_sub(1, std::memory_order_relaxed) == 1;
			if (last)
				_owner.store(nullptr, std::memory_order_relaxed);
			wait_queue_type heirs;
			if (last)
				heirs.swap(_wait_awakes);
			_lock.unlock();

			if (oldValue == sch)
			{
				if (last)
				{
					while (!heirs.empty())
					{
						state_mutex_ptr state = heirs.front();
						heirs.pop_front();
''', 'M07')
m('sy-mx-timeout-owner', MXC, '''				*oldValue = nullptr;
				_thandler.reset();

				assert(this->_scheduler != nullptr);
				if (this->_coro)
					this->_scheduler->add_generator(this);
''', '''				_thandler.reset();

				assert(this->_scheduler != nullptr);
				if (this->_coro)
					this->_scheduler->add_generator(this);
''', 'M07')
m('sy-mx-try-nolock', MXC, '''			scoped_lock<detail::mutex_v2_impl::lock_type> lock_(_lock);
			return try_lock_lockless(sch);''', '''			return try_lock_lockless(sch);''', 'M07')
m('sy-mda-small', WDA, '''		_LkN._Unlock_ref(_LkN[_Idx0]);
		LOCK_ASSEMBLE_AWAIT(_LkN._Yield());

		LOCK_ASSEMBLE_RETURN(true);''', '''		LOCK_ASSEMBLE_AWAIT(_LkN._Yield());
		_LkN._Unlock_ref(_LkN[_Idx0]);

		LOCK_ASSEMBLE_RETURN(true);''', '')
m('sy-mda-swap', WDA, '''			_Result__ = LOCK_ASSEMBLE_AWAIT(_Lock_attempt_small2(_LkN, 1, 0));
			if (!_Result__) break;''', '''			LOCK_ASSEMBLE_AWAIT(_LkN._Lock_ref(_LkN[1]));
			LOCK_ASSEMBLE_AWAIT(_LkN._Lock_ref(_LkN[0]));
			break;''', 'M07')
m('P-sy-mx-susp', MXI, '''			_state->on_await_suspend(handler, parent->get_scheduler(), _root);

			if constexpr (!std::is_same_v<std::remove_reference_t<_Timeout>, std::nullptr_t>)
				cb();

			_mutex->add_wait_list_lockless(_state.get());
''', '''			scheduler_t* const owner_scheduler = parent->get_scheduler();
			_state->on_await_suspend(handler, owner_scheduler, _root);
			_mutex->add_wait_list_lockless(_state.get());

			if constexpr (!std::is_same_v<std::remove_reference_t<_Timeout>, std::nullptr_t>)
				cb();
''', '')
m('P-sy-mx-try', MXC, '''			scoped_lock<detail::mutex_v2_impl::lock_type> lock_(_lock);
			return try_lock_lockless(sch);''', '''			_lock.lock();
			const bool got = try_lock_lockless(sch);
			_lock.unlock();
			return got;''', '')
m('sy-ch-rgap', CHI, '''			std::shared_ptr<channel_type> keep_alive_ = _channel;
			scoped_lock<lock_type> lock_(_channel->_lock);

			if (_channel->try_read_nolock(_value))
			{
				_channel = nullptr;
				return false;
			}

			_state''', '''			std::shared_ptr<channel_type> keep_alive_ = _channel;
			if (_channel->try_read(_value))
			{
				_channel = nullptr;
				return false;
			}
			scoped_lock<lock_type> lock_(_channel->_lock);

			_state''', 'H05')
m('sy-ch-early', CHI, '''			*state->_value = std::move(val);

			state->on_notify();
			return true;''', '''			state->on_notify();
			*state->_value = std::move(val);
			return true;''', 'H05')
m('sy-ch-wearly', CHI, '''			val = std::move(*writer->_value);

			writer->on_notify();
			return true;''', '''			writer->on_notify();
			val = std::move(*writer->_value);
			return true;''', 'H05')
m('sy-ch-order', CHI, '''		state_write_t* writer = try_pop_writer_();
		if (writer != nullptr)
		{
			val =''', '''		state_write_t* writer = try_pop_writer_();
		if (writer != nullptr && !_write_awakes.empty())
		{
			state_write_t* second = try_pop_writer_();
			_write_awakes.push_back(writer);
			writer = second;
		}
		if (writer != nullptr)
		{
			val =''', 'H05')
m('P-sy-ch-tryread', CHI, '''			if (_values.try_pop(val))
			{
				awake_one_writer_();
				return true;
			}
		}''', '''			const bool got = _values.try_pop(val);
			if (got)
				awake_one_writer_();
			if (got)
				return true;
		}''', '')
m('P-sy-ch-susp', CHI, '''			_state = new state_type(_channel, _value);
			_state->on_await_suspend(handler);
			_channel->add_read_list_nolock(_state.get());
			_channel = nullptr;
''', '''			counted_ptr<state_type> waiter{ new state_type(keep_alive_, _value) };
			waiter->on_await_suspend(handler);
			_channel->add_read_list_nolock(waiter.get());
			_state = waiter;
			_channel = nullptr;
''', '')
