# planted bugs: seed(id, property, [(file, old, new)], needs, what it breaks, demo source)
I = 'include/librf/src/'; S = 'source/'

seed('q01-pop-keeps-back-link', 'Q01', [(I + 'intrusive_link_queue.h', '''		if (_header != nullptr)
			_header->_prev = nullptr;

		if (_tailer == node)''', '''		if (_tailer == node)''')],
 'a pop followed by erasing the element that became the first, while the popped element\'s memory is already reused',
 'erasing the first element writes through its stale back link into the element popped before it', r'''
#include "librf/librf.h"
#include <cstdio>
#include <cstring>
using namespace librf;
struct node : intrusive_link_node<node> { int v = 0; };
int main()
{
	alignas(node) unsigned char mem[sizeof(node)];
	node* a = new (mem) node; node b, c;
	intrusive_link_queue<node> q;
	q.push_back(a); q.push_back(&b); q.push_back(&c);
	if (q.try_pop() != a) return 2;
	memset(mem, 0x5a, sizeof mem);		//a is gone, its memory is used for something else
	q.erase(&b);
	for (unsigned char x : mem) if (x != 0x5a) { puts("memory of a popped element was written"); return 1; }
	if (q.try_pop() != &c || q.try_pop() != nullptr) return 1;
	return 0;
}
''')

seed('m02-refused-waiter-count', 'M02', [(S + 'mutex_v2.cpp', '''						_owner.store(nullptr, std::memory_order_relaxed);
						_counter.fetch_sub(1, std::memory_order_relaxed);''', '''						_owner.store(nullptr, std::memory_order_relaxed);''')],
 'a waiter that timed out is still queued when the owner unlocks, and the mutex is locked again later',
 'the mutex stays owned after the next lock / unlock pair', r'''
#include "librf/librf.h"
#include <cstdio>
using namespace librf; using namespace std::chrono_literals;
int main()
{
	mutex_t m; bool ok = false, got = false;
	go[&]() -> future_t<>
	{
		auto g = co_await m.lock();
		co_await sleep_for(200ms);
		g.unlock();
		auto h = co_await m.lock();
		h.unlock();
		ok = !m.is_locked();
	};
	go[&]() -> future_t<>
	{
		got = co_await m.try_lock_for(20ms);
	};
	this_scheduler()->run_until_notask();
	if (got || !ok) { puts("mutex still locked"); return 1; }
	return 0;
}
''')

seed('e05-presignaled-not-consumed', 'E05', [(I + 'event_v2.inl', '''				if (evt->try_wait_one())
				{
					--_state->_counter;''', '''				if (evt->is_signaled())
				{
					--_state->_counter;''')],
 'wait_all over an event that is signaled already, and another wait on that event later',
 'one signal lets two waits complete', r'''
#include "librf/librf.h"
#include <cstdio>
using namespace librf; using namespace std::chrono_literals;
int main()
{
	std::vector<event_t> evs(3); bool res = false, again = true;
	evs[1].signal();
	go[&]() -> future_t<>
	{
		res = co_await event_t::wait_all(evs);
		again = co_await evs[1].wait_for(50ms);
	};
	go[&]() -> future_t<> { evs[0].signal(); co_await yield(); evs[2].signal(); };
	this_scheduler()->run_until_notask();
	if (!res) return 2;
	if (again) { puts("a signal was used twice"); return 1; }
	return 0;
}
''')

seed('r01-move-assign-keeps', 'R01', [(I + 'counted_ptr.h', '''				std::swap(_p, cp._p);
				cp._unlock();''', '''				std::swap(_p, cp._p);''')],
 'moving a pointer onto one that already refers to an object',
 'the moved-from pointer keeps the previous target alive', r'''
#include "librf/librf.h"
#include <cstdio>
struct obj { int n = 0; void lock() { ++n; } void unlock() { --n; } };
int main()
{
	obj a, b;
	librf::counted_ptr<obj> p(&a), q(&b);
	p = std::move(q);
	if (q != nullptr || a.n != 0 || b.n != 1) { puts("reference kept"); return 1; }
	return 0;
}
''')


seed('l04-moved-batch-releases', 'L04', [(I + 'spinlock.h', '''			, _LA(std::move(_Right._LA))
		{
			_Right._LkN = nullptr;
		}''', '''			, _LA(std::move(_Right._LA))
		{
		}''')],
 'a batch lock that is moved from and destroyed while the new owner still holds the locks',
 'the locks are released while the moved-to batch still owns them, and once more when it ends', r'''
#include "librf/librf.h"
#include <cstdio>
using namespace librf;
int main()
{
	std::vector<spinlock> v(3); using B = batch_lock_t<spinlock>;
	std::unique_ptr<B> keep;
	{
		B b(v);
		keep = std::make_unique<B>(std::move(b));
	}
	for (auto& l : v) if (l.try_lock()) { puts("released too early"); return 1; }
	keep.reset();
	for (auto& l : v) if (!l.try_lock()) { puts("never released"); return 1; }
	return 0;
}
''', timeout=30)

seed('h02-waiting-writer-overtakes', 'H02', [(I + 'channel_v2.inl', '''			if (_values.try_pop(val))
			{
				awake_one_writer_();
				return true;
			}
		}
		else
		{
			if (_values.size() > 0)''', '''			if (awake_one_writer_(val))
				return true;
			if (_values.try_pop(val))
				return true;
		}
		else
		{
			if (_values.size() > 0)''')],
 'a reader arrives while the buffer is full and a writer waits for room',
 'the value of the waiting writer is delivered before the older values in the buffer', r'''
#include "librf/librf.h"
#include <cstdio>
using namespace librf;
int main()
{
	channel_t<int> c(2); std::vector<int> got;
	go[&]() -> future_t<> { for (int i = 0; i < 6; ++i) co_await(c << i); };
	this_scheduler()->run_one_batch();
	go[&]() -> future_t<> { for (int i = 0; i < 6; ++i) got.push_back(co_await c); };
	this_scheduler()->run_until_notask();
	for (int i = 0; i < 6; ++i) if (got.at(i) != i) { puts("out of order"); return 1; }
	return 0;
}
''')


seed('f01-ref-throw-after-yield', 'F01', [(I + 'state.inl', '''	void state_t<_Ty&>::set_exception_internal(std::exception_ptr e)
	{
		switch (_has_value.load(std::memory_order_acquire))
		{
		case result_type::Exception:
			_exception = std::move(e);
			break;
		default:''', '''	void state_t<_Ty&>::set_exception_internal(std::exception_ptr e)
	{
		switch (_has_value.load(std::memory_order_acquire))
		{
		case result_type::Exception:
			_exception = std::move(e);
			break;
		case result_type::Value:
			break;
		default:''')],
 'a coroutine returning a reference that yields a value first and throws afterwards',
 'the exception is dropped: whoever awaits the future gets the stale reference', r'''
#include "librf/librf.h"
#include <cstdio>
#include <stdexcept>
using namespace librf;
static int cell = 5;
static future_t<int&> work()
{
	co_yield cell;
	throw std::runtime_error("late");
}
int main()
{
	bool thrown = false, value = false;
	future_t<int&> f = work();
	go f;
	this_scheduler()->run_until_notask();
	go[&]() -> future_t<>
	{
		try { int& r = co_await f; value = &r == &cell; }
		catch (const std::runtime_error&) { thrown = true; }
	};
	this_scheduler()->run_until_notask();
	if (!thrown || value) { puts("exception lost"); return 1; }
	return 0;
}
''')

seed('f02-ready-read-early', 'F02', [(I + 'state.inl', '''		scheduler_t* sch = parent_state->get_scheduler();

		scoped_lock<lock_type> __guard(this->_mtx);

		if (this != parent_state)''', '''		scheduler_t* sch = parent_state->get_scheduler();
		const bool already = sch != nullptr && this->is_ready();

		scoped_lock<lock_type> __guard(this->_mtx);

		if (this != parent_state)'''), (I + 'state.inl', '''		if (sch != nullptr && this->is_ready())
			sch->add_generator(this);''', '''		if (already)
			sch->add_generator(this);''')],
 'another thread completing an awaitable exactly while the awaiting coroutine is about to register, before it holds the lock',
 'the awaiting coroutine is never resumed', r'''
#include "librf/librf.h"
#include <cstdio>
#include <thread>
#include <atomic>
using namespace librf; using namespace std::chrono_literals;
static std::atomic<int> phase{ 0 };
struct slow		//storing the value takes a while
{
	int v;
	explicit slow(int x) : v(x) {}
	slow(slow&& o) noexcept : v(o.v)
	{
		if (phase.load() == 1)
		{
			phase = 2;
			std::this_thread::sleep_for(400ms);
		}
	}
	slow& operator=(slow&&) = default;
};
struct race
{
	future_t<slow> f; awaitable_t<slow> a; std::thread& t;
	bool await_ready() const { return f.await_ready(); }
	template<class P> void await_suspend(coroutine_handle<P> h) const
	{
		phase = 1;
		t = std::thread([a = this->a] { a.set_value(slow(7)); });
		while (phase.load() != 2) std::this_thread::yield();
		f.await_suspend(h);
	}
	int await_resume() const { return f.await_resume().v; }
};
int main()
{
	awaitable_t<slow> a; int got = 0; std::thread t;
	future_t<slow> f = a.get_future();
	go[&]() -> future_t<> { race r{ f, a, t }; got = co_await r; };
	auto s = this_scheduler();
	s->run_one_batch();
	if (t.joinable()) t.join();
	for (int i = 0; i < 100; ++i) s->run_one_batch();
	if (got != 7) { puts("awaiting coroutine was not resumed"); return 1; }
	return 0;
}
''')

seed('f03-initial-cleared-late', 'F03', [(S + 'state.cpp', '''			coroutine_handle<> handler = _initor;
			_is_initor = initor_type::None;
			__guard.unlock();

			handler.resume();
			return;''', '''			coroutine_handle<> handler = _initor;
			__guard.unlock();

			handler.resume();
			_is_initor = initor_type::None;
			return;''')],
 'a coroutine that runs to its end the first time it is resumed',
 'the end of the coroutine is overwritten: its frame and parameters are never destroyed', r'''
#include "librf/librf.h"
#include <cstdio>
#include <memory>
using namespace librf;
static future_t<> work(std::shared_ptr<int> p) { ++*p; co_return; }
int main()
{
	auto p = std::make_shared<int>(0);
	go work(p);
	this_scheduler()->run_until_notask();
	if (*p != 1) return 2;
	if (p.use_count() != 1) { puts("finished coroutine not destroyed"); return 1; }
	return 0;
}
''')

seed('f04-unread-exception-leaks', 'F04', [(I + 'state.h', '''			case result_type::Exception:
				_exception.~exception_ptr();
				break;
			default:
				break;
			}
		}

		auto future_await_resume() -> value_type;''', '''			default:
				break;
			}
		}

		auto future_await_resume() -> value_type;''')],
 'a coroutine with a value result that throws and whose future nobody awaits',
 'the stored exception is never released', r'''
#include "librf/librf.h"
#include <cstdio>
using namespace librf;
static int live = 0;
struct boom { boom() { ++live; } boom(const boom&) { ++live; } ~boom() { --live; } };
static future_t<int> work() { throw boom(); co_return 1; }
int main()
{
	go work();
	this_scheduler()->run_until_notask();
	if (live != 0) { printf("%d exceptions alive\n", live); return 1; }
	return 0;
}
''')

seed('c01-queued-twice-resumed-once', 'C01', [(I + 'scheduler.h', '''		_runing_states.emplace_back(sptr);''', '''		if (_runing_states.empty() || _runing_states.back().get() != sptr)
			_runing_states.emplace_back(sptr);''')],
 'a coroutine that somebody awaits and that ends: its state is queued twice in a row, to resume the awaiting one and to destroy its frame',
 'the second of two resumptions of the same state is dropped: frames of awaited coroutines are never destroyed', r'''
#include "librf/librf.h"
#include <cstdio>
#include <memory>
using namespace librf;
static future_t<int> inner(std::shared_ptr<int> p) { co_await yield(); co_return *p; }
int main()
{
	auto p = std::make_shared<int>(5); int got = 0;
	go[&]() -> future_t<> { got = co_await inner(p); };
	this_scheduler()->run_until_notask();
	if (got != 5) return 2;
	if (p.use_count() != 1) { puts("frame of an awaited coroutine not destroyed"); return 1; }
	return 0;
}
''')

seed('c02-only-waits-for-timers-of-tasks', 'C02', [(S + 'scheduler.cpp', '''				if (likely(!_ready_task.empty())) continue;	//当前还存在task，则必然还有任务未完成
			}
			if (unlikely(!_timer->empty())) continue;			//定时器不为空，也需要等待定时器触发
''', '''				if (likely(!_ready_task.empty())) continue;	//当前还存在task，则必然还有任务未完成
			}
			if (unlikely(!_timer->empty()))						//定时器不为空，再触发一次
			{
				_timer->update();
				if (_runing_states.empty()) break;
			}
			else
''')],
 'a timer that is pending without any task waiting for it',
 'run_until_notask returns although a timer is pending; its callback is never called', r'''
#include "librf/librf.h"
#include <cstdio>
using namespace librf; using namespace std::chrono_literals;
int main()
{
	int fired = 0;
	auto h = this_scheduler()->timer()->add_handler(60ms, [&](bool canceled) { fired += canceled ? 100 : 1; });
	go[]() -> future_t<> { co_await yield(); };
	this_scheduler()->run_until_notask();
	if (fired != 1) { printf("fired %d\n", fired); return 1; }
	return 0;
}
''')

seed('c03-failed-awaitable-stays', 'C03', [(I + 'state.inl', '''	void state_t<_Ty>::set_exception(std::exception_ptr e)
	{
		scoped_lock<lock_type> __guard(this->_mtx);
		set_exception_internal(std::move(e));

		scheduler_t* sch = this->get_scheduler();
		if (sch != nullptr)
		{
			if (this->has_handler_skip_lock())
				sch->add_generator(this);
			else
				sch->del_final(this);
		}
	}''', '''	void state_t<_Ty>::set_exception(std::exception_ptr e)
	{
		scoped_lock<lock_type> __guard(this->_mtx);
		set_exception_internal(std::move(e));

		scheduler_t* sch = this->get_scheduler();
		if (sch != nullptr && this->has_handler_skip_lock())
			sch->add_generator(this);
	}''')],
 'an awaitable with a value result that is started as a task and completed with an exception',
 'its task is never removed', r'''
#include "librf/librf.h"
#include <cstdio>
using namespace librf;
int main()
{
	awaitable_t<int> a, b;
	go a.get_future();
	go b.get_future();
	auto s = this_scheduler();
	s->run_one_batch();
	b.set_value(1);
	if (s->empty()) return 2;
	a.throw_exception(5);
	s->run_one_batch();
	if (!s->empty()) { puts("task of a failed awaitable is still there"); return 1; }
	return 0;
}
''')

seed('c04-only-root-moves', 'C04', [(S + 'state.cpp', '''		if (_parent != nullptr)
			_parent->switch_scheduler_await_suspend(sch);''', '''		if (_parent != nullptr)
			if (auto* root = static_cast<state_future_t*>(get_root()); root != this)
				root->switch_scheduler_await_suspend(sch);''')],
 'a switch to another scheduler at least three coroutines deep, and the coroutine in the middle going on afterwards',
 'coroutines between the switching one and the root stay registered with, and continue on, the old scheduler', r'''
#include "librf/librf.h"
#include <cstdio>
using namespace librf;
struct my_scheduler : scheduler_t {};
static scheduler_t* seen_inner; static scheduler_t* seen_mid; static scheduler_t* seen_outer;
static future_t<> inner(scheduler_t* b)
{
	co_await via(b);
	seen_inner = co_await get_current_scheduler();
}
static future_t<> mid(scheduler_t* b)
{
	co_await inner(b);
	seen_mid = co_await get_current_scheduler();
}
int main()
{
	my_scheduler a, b;
	a + [&]() -> future_t<>
	{
		co_await yield();
		co_await mid(&b);
		seen_outer = co_await get_current_scheduler();
	};
	for (int i = 0; i < 50; ++i) { a.run_one_batch(); b.run_one_batch(); }
	if (seen_inner != &b || seen_mid != &b || seen_outer != &b || !a.empty() || !b.empty()) { puts("a caller is on the wrong scheduler"); return 1; }
	return 0;
}
''')

seed('c05-any-scheduler-unbinds', 'C05', [(S + 'scheduler.cpp', '''		if (th_scheduler_ptr == this)
			th_scheduler_ptr = nullptr;
	}

	LIBRF_API task_t*''', '''		th_scheduler_ptr = nullptr;
	}

	LIBRF_API task_t*''')],
 'a scheduler other than the bound one is destroyed by the thread',
 'the thread silently uses the global scheduler instead of its own afterwards', r'''
#include "librf/librf.h"
#include <cstdio>
using namespace librf;
struct my_scheduler : scheduler_t {};
int main()
{
	int rc = 0;
	std::thread([&]
	{
		local_scheduler_t mine;
		scheduler_t* s = this_scheduler();
		if (s == &scheduler_t::g_scheduler) { rc = 2; return; }
		{ my_scheduler other; if (this_scheduler() != s) { rc = 2; return; } }
		if (this_scheduler() != s) { puts("the scheduler of this thread is gone"); rc = 1; }
	}).join();
	return rc;
}
''')

seed('c07-token-before-source', 'C07', [(I + 'rf_task.h', '''			return get_stop_source().get_token();''', '''			return _stop.get_token();''')],
 'a token is taken from a task before anything else created the stop state of the task',
 'the token never reports the request, although the scheduler asks every task to stop', r'''
#include "librf/librf.h"
#include <cstdio>
using namespace librf;
int main()
{
	auto s = this_scheduler(); int rounds = 0;
	task_t* t = go[&]() -> future_t<>
	{
		task_t* self = co_await get_current_task();
		stop_token k = self->get_stop_token();
		while (!k.stop_requested() && ++rounds < 50) co_await yield();
	};
	(void)t;
	for (int i = 0; i < 5; ++i) s->run_one_batch();
	s->request_stop_all_if_possible();
	s->run_until_notask();
	if (rounds >= 50) { puts("the task was not asked to stop"); return 1; }
	return 0;
}
''')
# ---------------------------------------------------------------- stop tokens
ST = I + 'stop_token.h'
seed('k01-request-forgotten', 'K01', [(ST, '''        return is_stop_requested(state) || (state >= kSourceRefIncrement);''', '''        return state >= kSourceRefIncrement;''')],
 'stop was requested and afterwards the last stop source is destroyed while a token is still held',
 'the token says that stopping is impossible although the request was made', r'''
#include "librf/librf.h"
#include <cstdio>
using namespace librf;
int main()
{
	stop_token t;
	{
		stop_source s;
		t = s.get_token();
		if (!t.stop_possible() || t.stop_requested() || !s.request_stop()) { puts("setup"); return 2; }
	}
	if (!t.stop_requested() || !t.stop_possible()) { puts("the request was forgotten"); return 1; }
	return 0;
}
''')
seed('k02-head-moves-unnoticed', 'K02', [(ST, '''            if (any_more)
            {
                head_->prev = &head_;
            }
            cb->prev = nullptr;''', '''            cb->prev = nullptr;''')],
 'a stop callback that is running destroys the callback that would run next, while a further one is registered',
 'the destroyed callback stays in the list and runs after its destruction', r'''
#include "librf/librf.h"
#include <cstdio>
#include <functional>
#include <new>
using namespace librf;
int ran[3];
struct C { int i; std::function<void()> f; void operator()() const { ++ran[i]; if (f) f(); } };
using cb_t = stop_callback<C>;
alignas(cb_t) static unsigned char mem[3][sizeof(cb_t)];
int main()
{
	stop_source s; cb_t* c[3];
	// the one registered last runs first: 2 runs, destroys 1, 0 still has to run
	c[0] = new (mem[0]) cb_t(s.get_token(), C{0, {}});
	c[1] = new (mem[1]) cb_t(s.get_token(), C{1, {}});
	c[2] = new (mem[2]) cb_t(s.get_token(), C{2, [&] { if (c[1]) { c[1]->~cb_t(); c[1] = nullptr; } }});
	bool gone_early = true;
	s.request_stop();
	(void)gone_early;
	int want1 = 0;
	if (ran[0] != 1 || ran[2] != 1 || ran[1] != want1) { printf("ran %d %d %d\n", ran[0], ran[1], ran[2]); return 1; }
	for (int i : {0, 2}) c[i]->~cb_t();
	return 0;
}
''', flags=' -fsanitize=address')
seed('k03-ran-callback-keeps-state', 'K03', [(ST, '''                *cb->is_removed = true;
            }
        }
        else''', '''                *cb->is_removed = true;
            }
            return;
        }
        else''')],
 'a stop callback ran on the requesting thread and is destroyed there before that thread ends, being or not being the last user',
 'the reference that the callback held is never given back: the stop state leaks', r'''
#include "librf/librf.h"
#include <cstdio>
#include <cstdlib>
#include <new>
static long live;
void* operator new(std::size_t n) { ++live; if (void* p = malloc(n)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { if (p) --live; free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --live; free(p); }
using namespace librf;
int main()
{
	long before = live; int ran = 0;
	{
		stop_source s;
		auto f = [&] { ++ran; };
		stop_callback<decltype(f)> cb(s.get_token(), f);
		s.request_stop();
	}
	if (ran != 1 || live != before) { printf("ran %d, %ld objects left\n", ran, live - before); return 1; }
	return 0;
}
''')

seed('t01-one-timer-per-instant', 'T01', [(I + 'timer.h', '''typedef std::multimap<clock_type::time_point, timer_target_ptr> timer_map_type;''', '''typedef std::map<clock_type::time_point, timer_target_ptr> timer_map_type;''')],
 'two timers with exactly the same deadline in one manager',
 'the second timer of an instant is dropped: its callback is never called', r'''
#include "librf/librf.h"
#include <cstdio>
using namespace librf;
int main()
{
	auto mgr = std::make_shared<timer_manager>();
	auto tp = std::chrono::system_clock::now() - std::chrono::milliseconds(1);
	int calls = 0;
	for (int i = 0; i < 3; ++i) mgr->add(tp, [&](bool) { ++calls; });
	mgr->update();
	if (calls != 3) { printf("%d of 3 callbacks called\n", calls); return 1; }
	return 0;
}
''')

seed('t02-stop-overwritten', 'T02', [(S + 'timer.cpp', '''						_runing_timers.insert({ sptr->tp, sptr });''', '''						_runing_timers.emplace(sptr->tp, sptr);
						sptr->st = timer_target::State::Runing;''')],
 'another thread stops a timer at the moment update() is moving it from the added to the running ones',
 'the stop is overwritten: it reported true, but the timer fires when it is due', r'''
#include "librf/librf.h"
#include <cstdio>
#include <cstdlib>
#include <new>
using namespace librf;
// the "other thread" is placed exactly at the allocation of the map node (not of the list of added timers)
static timer_manager* victim; static detail::timer_target_ptr target; static bool stopped; static bool armed;
void* operator new(std::size_t n)
{
	if (armed && n < 512) { armed = false; stopped = victim->stop(target); }
	return std::malloc(n);
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main()
{
	auto mgr = std::make_shared<timer_manager>();
	victim = mgr.get();
	int fired = 0, cancelled = 0;
	target = mgr->add(std::chrono::system_clock::now() - std::chrono::milliseconds(1), [&](bool c) { c ? ++cancelled : ++fired; });
	auto other = mgr->add(std::chrono::system_clock::now() + std::chrono::hours(1), [](bool) {});
	armed = true;
	mgr->update();
	mgr->update();
	if (stopped && fired) { puts("stop() reported true, but the timer fired"); return 1; }
	return 0;
}
''')

seed('t03-cancel-under-lock', 'T03', [(S + 'timer.cpp', '''		auto _atimer = std::move(_added_timers);
#if !RESUMEF_DISABLE_MULT_THREAD
		__lock.unlock();
#endif

		for (auto& sptr : _atimer)
			call_target_(sptr, true);

		auto _rtimer''', '''		auto _atimer = std::move(_added_timers);

		for (auto& sptr : _atimer)
			call_target_(sptr, true);
#if !RESUMEF_DISABLE_MULT_THREAD
		__lock.unlock();
#endif

		auto _rtimer''')],
 'clear() while a timer added since the last update has a callback that uses the manager when it is cancelled',
 'the callback runs while the lock of the manager is held: adding a timer from it hangs', r'''
#include "librf/librf.h"
#include <cstdio>
using namespace librf;
int main()
{
	auto mgr = std::make_shared<timer_manager>();
	int calls = 0;
	mgr->add(std::chrono::hours(1), [&](bool) { ++calls; mgr->add(std::chrono::hours(1), [&](bool) { ++calls; }); });
	mgr->clear();
	mgr->clear();
	if (calls != 2) { printf("%d callbacks\n", calls); return 1; }
	return 0;
}
''', timeout=10)

seed('t04-handle-owns-manager', 'T04', [(I + 'timer.h', 'timer_mgr_wptr				_manager;', 'timer_mgr_ptr				_manager;'), (I + 'timer.h', 'auto sptr = _manager.lock();', 'auto sptr = _manager;')],
 'a timer handle that outlives its timer manager (scheduler)',
 'a handle keeps the manager alive: its pending timers are not cancelled when their scheduler goes away', r'''
#include "librf/librf.h"
#include <cstdio>
using namespace librf;
int main()
{
	timer_handler h; int cancelled = 0;
	{
		auto mgr = std::make_shared<timer_manager>();
		h = mgr->add_handler(std::chrono::hours(1), [&](bool c) { cancelled += c; });
		mgr->update();
	}
	if (cancelled != 1) { puts("the timer was not cancelled with its manager"); return 1; }
	return 0;
}
''')

seed('t05-past-is-now', 'T05', [(S + 'sleep.cpp', '''		awaitable_t<> awaitable;

		(void)''', '''		awaitable_t<> awaitable;
		if (tp_ <= std::chrono::system_clock::now() + std::chrono::milliseconds(1))
		{
			awaitable.set_value();
			return awaitable.get_future();
		}

		(void)''')],
 'a sleep whose deadline is less than a millisecond ahead (or already past), whose result is awaited',
 'the coroutine continues before the deadline (and a sleep that is over at the call has no future at all)', r'''
#include "librf/librf.h"
#include <cstdio>
#include <thread>
using namespace librf;
struct sch : scheduler_t { };
int main()
{
	int bad = 0, ended = 0;
	std::thread([&] {
		sch s; local_scheduler_t l(s);
		s + [&]() -> future_t<> {
			for (int i = 0; i < 20; ++i)
			{
				auto due = std::chrono::system_clock::now() + std::chrono::microseconds(900);
				try { co_await sleep_until(due); } catch (...) { bad = 2; }
				if (std::chrono::system_clock::now() < due) bad = 1;
			}
			ended = 1;
		};
		for (int i = 0; i < 2000000 && !ended; ++i) s.run_one_batch();
	}).join();
	if (bad || !ended) { printf("woke up early %d, ended %d\n", bad, ended); return 1; }
	return 0;
}
''')

seed('t05-earlier-clock', 'T05', [(I + 'sleep.h', '''	inline future_t<> sleep_until(std::chrono::time_point<_Clock, _Duration> tp_)
	{
		scheduler_t* sch = librf_current_scheduler();
		co_await sleep_until_(std::chrono::time_point_cast<std::chrono::system_clock::duration>(tp_), *sch);''', '''	inline future_t<> sleep_until(std::chrono::time_point<_Clock, _Duration> tp_)
	{
		scheduler_t* sch = librf_current_scheduler();
		try
		{
			co_await sleep_until_(std::chrono::time_point_cast<std::chrono::system_clock::duration>(tp_), *sch);
		}
		catch (const canceled_exception&)
		{
			if (std::chrono::system_clock::now() < tp_)
				throw;
		}''')],
 'sleep_until without naming a scheduler, cancelled after its deadline has passed but before the scheduler looked at its timers',
 'the cancelled sleep is reported as a completed one', r'''
#include "librf/librf.h"
#include <cstdio>
#include <thread>
using namespace librf;
struct sch : scheduler_t { };
int main()
{
	int how = 0;
	std::thread([&] {
		sch s; local_scheduler_t l(s);
		s + [&]() -> future_t<> {
			try { co_await sleep_until(std::chrono::system_clock::now() + std::chrono::milliseconds(5)); how = 1; }
			catch (const canceled_exception&) { how = 2; }
		};
		s.run_one_batch(); s.run_one_batch();
		std::this_thread::sleep_for(std::chrono::milliseconds(20));
		s.timer()->clear();
		for (int i = 0; i < 10; ++i) s.run_one_batch();
	}).join();
	if (how != 2) { printf("the cancelled sleep ended with %d\n", how); return 1; }
	return 0;
}
''')

seed('w01-count-before-value', 'W01', [(I + 'when_v2.h', '''			auto&& awaitor = when_real_awaitor(task);

			if constexpr(std::is_same_v<_Ty, ignore_type>)
				co_await awaitor;
			else
				value = co_await awaitor;
			state->on_notify_one();''', '''			auto&& awaitor = when_real_awaitor(task);

			if constexpr(std::is_same_v<_Ty, ignore_type>)
			{
				co_await awaitor;
				state->on_notify_one();
			}
			else
			{
				decltype(auto) result = co_await awaitor;
				state->on_notify_one();
				value = std::move(result);
			}''')],
 'the iterator or container form of when_all, with tasks on the scheduler of another thread, when the waiter is resumed between the count of the last task and the store of its value',
 'the waiter reads an old value of the last task and its released vector is written', r'''
#include "librf/librf.h"
#include <cstdio>
#include <thread>
#include <atomic>
using namespace librf;
struct sch : scheduler_t { };
// moving the value takes a while, as for large results
struct slow
{
	int v = 0;
	slow() = default; slow(int x) : v(x) { } slow(const slow& o) : v(o.v) { }
	slow& operator = (const slow& o) { std::this_thread::sleep_for(std::chrono::milliseconds(30)); v = o.v; return *this; }
};
int main()
{
	sch a, b; std::atomic<int> stop{0}, done{0}; int bad = 0;
	std::thread tb([&] { local_scheduler_t l(b); while (!stop) b.run_one_batch(); });
	std::thread ta([&] {
		local_scheduler_t l(a);
		a + [&]() -> future_t<> {
			using F = std::function<future_t<slow>()>;
			std::vector<F> fs;
			fs.push_back([]() -> future_t<slow> { co_return slow(1); });
			fs.push_back([]() -> future_t<slow> { co_return slow(2); });
			auto w = when_all(b, fs);
			auto keep = w._values;
			auto r = co_await w;
			if (r.size() != 2 || r[0].v != 1 || r[1].v != 2) bad = 1;
			done = 1;
		};
		for (int i = 0; i < 300 && !done; ++i) { a.run_one_batch(); std::this_thread::sleep_for(std::chrono::milliseconds(2)); }
	});
	ta.join(); std::this_thread::sleep_for(std::chrono::milliseconds(50)); stop = 1; tb.join();
	if (bad || !done) { printf("wrong values %d, done %d\n", bad, done.load()); return 1; }
	return 0;
}
''')

seed('w02-value-after-wakeup', 'W02', [(I + 'when_v2.h', '''					value->second = std::move(result);

					state->on_notify_one();''', '''					state->on_notify_one();
					value->second = std::move(result);''')],
 'when_any over tasks on the scheduler of another thread, when the waiter is resumed before the finished task has stored its value',
 'the waiter is given the index of the finished task with an empty value', r'''
#include "librf/librf.h"
#include <cstdio>
#include <thread>
#include <atomic>
using namespace librf;
struct sch : scheduler_t { };
struct slow
{
	int v = 0;
	slow(int x) : v(x) { } slow(const slow& o) : v(o.v) { std::this_thread::sleep_for(std::chrono::milliseconds(30)); }
};
int main()
{
	sch a, b; std::atomic<int> stop{0}, done{0}; int bad = 0;
	std::thread tb([&] { local_scheduler_t l(b); while (!stop) b.run_one_batch(); });
	std::thread ta([&] {
		local_scheduler_t l(a);
		a + [&]() -> future_t<> {
			auto r = co_await when_any(b, []() -> future_t<slow> { co_return slow(7); });
			auto p = std::any_cast<slow>(&r.second);
			if (r.first != 0 || p == nullptr || p->v != 7) bad = 1;
			done = 1;
		};
		for (int i = 0; i < 500 && !done; ++i) { a.run_one_batch(); std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
	});
	ta.join(); std::this_thread::sleep_for(std::chrono::milliseconds(100)); stop = 1; tb.join();
	if (bad || !done) { printf("no value with the index %d, done %d\n", bad, done.load()); return 1; }
	return 0;
}
''')

seed('g01-unstarted-frame', 'G01', [(I + 'generator.h', '''				if (_Coro)
					_Coro.destroy();
				_Coro = right_._Coro;
				right_._Coro = nullptr;''', '''				std::swap(_Coro, right_._Coro);''')],
 'assigning a generator to one that is not finished, while the source variable lives on',
 'the coroutine that was replaced, with its locals and parameters, lives on in the source, which is not empty after the move', r'''
#include "librf/librf.h"
#include <cstdio>
#include <memory>
using namespace librf;
generator_t<int> numbers(std::shared_ptr<int> p, int n) { for (int i = 0; i < n; ++i) co_yield i + *p; co_return n + *p; }
int main()
{
	auto p = std::make_shared<int>(10), q = std::make_shared<int>(20);
	auto a = numbers(p, 3), b = numbers(q, 3);
	auto it = a.begin(); ++it;
	a = std::move(b);
	if (p.use_count() != 1) { puts("the replaced generator still holds its parameters"); return 1; }
	return b.begin() == b.end() ? 0 : 2;
}
''')

seed('g01-task-frame-kept', 'G01', [(S + 'state.cpp', '''				_scheduler->del_final(this);

				handler.destroy();''', '''				bool const queued = _scheduler->timer()->empty();
				_scheduler->del_final(this);

				if (queued)
					handler.destroy();''')],
 'a generator run as a task that ends while a timer is pending',
 'the finished generator coroutine is never released', r'''
#include "librf/librf.h"
#include <cstdio>
#include <thread>
#include <memory>
using namespace librf;
struct sch : scheduler_t { };
generator_t<int> numbers(std::shared_ptr<int> p) { co_yield *p; co_return 0; }
int main()
{
	long n = 0;
	std::thread([&] {
		sch s; local_scheduler_t l(s);
		auto p = std::make_shared<int>(10);
		auto h = s.timer()->add_handler(std::chrono::hours(1), [](bool) { });
		s + numbers(p);
		for (int i = 0; i < 10; ++i) s.run_one_batch();
		n = p.use_count();
		h.stop(); s.timer()->clear();
	}).join();
	if (n != 1) { printf("%ld owners\n", n); return 1; }
	return 0;
}
''')

WATCH = r'''
#include "librf/librf.h"
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <atomic>
#include <vector>
#include <memory>
using namespace librf; using namespace std::chrono_literals;
struct sch : scheduler_t { };
'''
seed('e07-probe-then-register', 'E07', [(I + 'event_v2.inl', '''			detail::event_v2_impl* evt = _event;
			scoped_lock<detail::event_v2_impl::lock_type> lock_(evt->_lock);

			if (evt->try_wait_one())
			{
				return false;
			}
''', '''			detail::event_v2_impl* evt = _event;
			bool got;
			{
				scoped_lock<detail::event_v2_impl::lock_type> probe_(evt->_lock);
				got = evt->try_wait_one();
			}
			if (got)
			{
				return false;
			}
			scoped_lock<detail::event_v2_impl::lock_type> lock_(evt->_lock);
''')],
 'another thread signals between the look at the counter and the registration of the waiter',
 'the signal is stored while a coroutine waits for it: the coroutine sleeps on although a signal is there', WATCH + r'''
int main()
{
	const int N = 300000;
	event_t ev; std::atomic<int> got{0}; std::atomic<bool> stop{false};
	std::thread t([&] {
		sch s; local_scheduler_t l(s);
		go[&]() -> future_t<> { while (got < N) { co_await ev; ++got; } };
		while (got < N && !stop) s.run_one_batch();
		if (stop) _Exit(1);
	});
	for (int i = 0; i < N && !stop; ++i)
	{
		ev.signal();
		auto dead = std::chrono::steady_clock::now() + 5s;
		while (got <= i) if (std::chrono::steady_clock::now() > dead) { printf("asleep with a signal stored, after %d\n", i); stop = true; break; }
	}
	t.join();
	return stop;
}
''')

seed('e07-wake-outside-lock', 'E07', [(S + 'event_v2.cpp', '''			scoped_lock<lock_type> lock_(_lock);

			state_event_ptr state;
			for (; (state = try_pop_list(_wait_awakes)) != nullptr;)
			{
				if (state->on_notify(this))
					return;
			}

			_counter.fetch_add(1, std::memory_order_acq_rel);''', '''			for (;;)
			{
				state_event_ptr state;
				{
					scoped_lock<lock_type> lock_(_lock);
					state = try_pop_list(_wait_awakes);
				}
				if (state == nullptr)
					break;
				if (state->on_notify(this))
					return;
			}

			_counter.fetch_add(1, std::memory_order_acq_rel);''')],
 'a coroutine that starts to wait between the moment signal() found nobody waiting and the moment it stores the signal',
 'the signal is stored although a coroutine waits', WATCH + r'''
int main()
{
	const int N = 300000;
	event_t ev; std::atomic<int> got{0}; std::atomic<bool> stop{false};
	std::thread t([&] {
		sch s; local_scheduler_t l(s);
		go[&]() -> future_t<> { while (got < N) { co_await ev; ++got; } };
		while (got < N && !stop) s.run_one_batch();
		if (stop) _Exit(1);
	});
	for (int i = 0; i < N && !stop; ++i)
	{
		ev.signal();
		auto dead = std::chrono::steady_clock::now() + 5s;
		while (got <= i) if (std::chrono::steady_clock::now() > dead) { printf("asleep with a signal stored, after %d\n", i); stop = true; break; }
	}
	t.join();
	return stop;
}
''')

seed('m07-lock-then-queue', 'M07', [(I + 'mutex_v2.inl', '''			scoped_lock<detail::mutex_v2_impl::lock_type> lock_(_mutex->_lock);
			if (_mutex->try_lock_lockless(_root))
				return false;

			_state = new detail::state_mutex_t(_mutex);''', '''			if (_mutex->try_lock(_root))
				return false;

			scoped_lock<detail::mutex_v2_impl::lock_type> lock_(_mutex->_lock);
			_state = new detail::state_mutex_t(_mutex);''')],
 'the owner on another thread unlocks between the refused attempt and the registration of the waiter',
 'the coroutine waits for a mutex nobody holds', WATCH + r'''
int main()
{
	const int N = 200000;
	mutex_t m; std::atomic<int> phase{0}, n{0}; std::atomic<bool> stop{false};
	std::thread b([&] {
		sch s; local_scheduler_t l(s);
		go[&]() -> future_t<> { for (int i = 1; i <= N; ++i) { while (phase < i) ; { auto g = co_await m.lock(); } n = i; } };
		while (n < N && !stop) s.run_one_batch();
		if (stop) _Exit(1);
	});
	std::thread a([&] {
		sch s; local_scheduler_t l(s); bool end = false;
		go[&]() -> future_t<> {
			for (int i = 1; i <= N; ++i)
			{
				{ auto g = co_await m.lock(); phase = i; for (volatile int k = 0; k < i % 200; ++k); }
				auto dead = std::chrono::steady_clock::now() + 5s;
				while (n < i) if (std::chrono::steady_clock::now() > dead) { printf("the mutex is free and somebody waits for it, after %d\n", i); stop = end = true; co_return; }
			}
			end = true; };
		while (!end) s.run_one_batch();
	});
	a.join(); b.join();
	return stop;
}
''')

seed('m07-second-wait-keeps-first', 'M07', [(I + 'without_deadlock_assemble.inl', '''			_Result__ = LOCK_ASSEMBLE_AWAIT(_Lock_attempt_small2(_LkN, 1, 0));
			if (!_Result__) break;''', '''			LOCK_ASSEMBLE_AWAIT(_LkN._Lock_ref(_LkN[1]));
			LOCK_ASSEMBLE_AWAIT(_LkN._Lock_ref(_LkN[0]));
			break;''')],
 'two coroutines that lock the same two mutexes in opposite order and are both refused the second one at first',
 'each coroutine holds one mutex and waits for the other one for ever', WATCH + r'''
int main()
{
	mutex_t a, b; std::atomic<int> n{0};
	std::thread t([&] {
		sch s; local_scheduler_t l(s);
		go[&]() -> future_t<> { auto g = co_await b.lock(); co_await sleep_for(20ms); };
		go[&]() -> future_t<> { auto g = co_await a.lock(); co_await sleep_for(40ms); };
		for (int r = 0; r < 8; ++r)
		{
			go[&]() -> future_t<> { for (int i = 0; i < 20; ++i) { auto g = co_await mutex_t::lock(a, b); co_await yield(); } ++n; };
			go[&]() -> future_t<> { for (int i = 0; i < 20; ++i) { auto g = co_await mutex_t::lock(b, a); co_await yield(); } ++n; };
		}
		for (auto end = std::chrono::steady_clock::now() + 10s; n < 16 && std::chrono::steady_clock::now() < end; ) s.run_one_batch();
		if (n < 16) { printf("only %d came through\n", n.load()); fflush(stdout); _Exit(1); }
	});
	t.join();
	return 0;
}
''')

seed('h05-probed-once', 'H05', [(I + 'channel_v2.inl', '''			if (_channel->try_write_nolock(_value))
			{
				_channel = nullptr;
				return false;
			}

			_state''', '''			if (!optimization_for_multithreading || _channel->capacity() > 0)	//otherwise await_ready has tried already
			{
				if (_channel->try_write_nolock(_value))
				{
					_channel = nullptr;
					return false;
				}
			}

			_state''')],
 'a channel without capacity, with the optimization for several threads, and a reader on another thread between the refused write and the registration of the writer',
 'a writer waits for ever although a reader waits', WATCH + r'''
int main()
{
	const int N = 300000;
	channel_t<int, false, true> c(0); std::atomic<int> sent{0}, got{0}; std::atomic<bool> stop{false};
	auto run = [&](std::atomic<int>& n, auto body) {
		sch s; local_scheduler_t l(s);
		s + body();
		while (n < N && !stop) s.run_one_batch();
		if (stop) _Exit(1);
	};
	std::thread w(run, std::ref(sent), [&]() -> future_t<> { for (int i = 0; i < N; ++i) { co_await (c << i); ++sent; } });
	std::thread r(run, std::ref(got), [&]() -> future_t<> { for (int i = 0; i < N; ++i) { int v = co_await c; if (v != i) { puts("wrong value"); _Exit(1); } ++got; } });
	for (int last = -1; got < N; )
	{
		std::this_thread::sleep_for(3s);
		int now = sent + got;
		if (now == last) { printf("nobody goes on, at %d\n", got.load()); stop = true; break; }
		last = now;
	}
	w.join(); r.join();
	return stop;
}
''')

seed('h05-value-after-wake', 'H05', [(I + 'channel_v2.inl', '''			*state->_value = std::move(val);

			state->on_notify();
			return true;''', '''			counted_ptr<state_read_t> keep{ state };
			state->on_notify();
			*state->_value = std::move(val);
			return true;''')],
 'a reader that waits at a channel without capacity and runs on another thread than the writer',
 'the reader continues before the value has arrived', WATCH + r'''
struct num { int v; num(int x = 0) : v(x) { } num(num&& o) noexcept : v(o.v) { } num& operator=(num&& o) noexcept { for (volatile int i = 0; i < 2000; ++i); v = o.v; return *this; } };
int main()
{
	const int N = 20000;
	channel_t<num, false, true> c(0); std::atomic<int> got{0}; std::atomic<bool> bad{false};
	std::thread r([&] {
		sch s; local_scheduler_t l(s);
		go[&]() -> future_t<> { for (int i = 0; i < N && !bad; ++i) { num v = co_await c; if (v.v != i + 1) bad = true; ++got; } };
		while (got < N && !bad) s.run_one_batch();
		if (bad) { puts("the reader got something else"); fflush(stdout); _Exit(1); }
	});
	std::thread w([&] {
		sch s; local_scheduler_t l(s); std::atomic<int> sent{0};
		go[&]() -> future_t<> { for (int i = 0; i < N; ++i) { co_await (c << num(i + 1)); ++sent; } };
		while (sent < N && !bad) s.run_one_batch();
		if (bad) for (;;) std::this_thread::sleep_for(1s);
	});
	r.join(); w.join();
	return 0;
}
''')

seed('f05-resumed-unready', 'F05', [(S + 'state.cpp', '''		if (_coro && future_await_ready())
		{''', '''		if (_coro)
		{''')],
 'a coroutine that is started as a task, waits for something, and is awaited by another coroutine meanwhile',
 'the awaiting coroutine continues before the awaited one is over', WATCH + r'''
int main()
{
	int got = 0, err = 0;
	std::thread([&] {
		sch s; local_scheduler_t l(s);
		awaitable_t<int> a;
		auto child = [](future_t<int> f) -> future_t<int> { co_return co_await f + 1; };
		go[&]() -> future_t<> {
			auto f = child(a.get_future());
			*this_scheduler() + f;
			co_await yield();
			co_await yield();
			try { got = co_await f; } catch (...) { err = 1; }
		};
		for (int i = 0; i < 20; ++i) s.run_one_batch();
		a.set_value(41);
		for (int i = 0; i < 20; ++i) s.run_one_batch();
	}).join();
	if (got != 42 || err) { printf("got %d, exception %d\n", got, err); fflush(stdout); _Exit(1); }
	return 0;
}
''')

seed('f05-awaited-task-left-behind', 'F05', [(S + 'state.cpp', '''			auto task_ptr = _scheduler->del_switch(this);

			_scheduler = sch;
			if (task_ptr != nullptr)
				sch->add_switch(std::move(task_ptr));
		}
		else
		{
			_scheduler = sch;
		}

		if (_parent''', '''			std::unique_ptr<task_t> task_ptr;
			if (_parent == nullptr)
				task_ptr = _scheduler->del_switch(this);

			_scheduler = sch;
			if (task_ptr != nullptr)
				sch->add_switch(std::move(task_ptr));
		}
		else
		{
			_scheduler = sch;
		}

		if (_parent''')],
 'a coroutine that is started as a task, then awaited by another one, and then moves to another scheduler',
 'its task stays registered on the old scheduler for ever', WATCH + r'''
int main()
{
	bool left = false, over = false;
	std::thread([&] {
		sch s, t; local_scheduler_t l(s);
		awaitable_t<int> a;
		auto child = [](future_t<int> f, scheduler_t& t) -> future_t<int> { int v = co_await f; co_await via(t); co_return v; };
		go[&]() -> future_t<> {
			auto f = child(a.get_future(), t);
			*this_scheduler() + f;
			co_await yield();
			over = co_await f == 7;
		};
		for (int i = 0; i < 10; ++i) { s.run_one_batch(); t.run_one_batch(); }
		a.set_value(7);
		for (int i = 0; i < 20; ++i) { s.run_one_batch(); t.run_one_batch(); }
		left = !s.empty() || !t.empty();
		if (!over || left) { printf("over %d, a task is left %d\n", over, left); fflush(stdout); _Exit(1); }
	}).join();
	return 0;
}
''')
