// entry points: coroutines that use events, mutexes and channels.  Never executed.
extern "C" void drv_mark(int who, int what);
namespace drv_sy {
using namespace librf;
using TP = std::chrono::system_clock::time_point; using D = std::chrono::system_clock::duration;
inline future_t<> waiter(int who, int form, event_t* e, int n, long t)
{
	drv_mark(who, 0);
	bool r = false;
	if (form == 0) r = co_await *e;
	else if (form == 1) r = co_await e->wait();
	else if (form == 2) r = co_await e->wait_for(D(t));
	else if (form == 3) r = co_await e->wait_until(TP(D(t)));
	else if (form == 4) r = co_await event_t::wait_all(e, e + n);
	else if (form == 5) r = co_await event_t::wait_all_for(D(t), e, e + n);
	drv_mark(who, r ? 1 : 2);
	drv_mark(who, 9);
}
inline future_t<> drain(int who, event_t* e)
{
	while (co_await e->wait_for(D(0))) drv_mark(who, 30);
	drv_mark(who, 9);
}
}
extern "C" {
using namespace librf;
void drv_sy_event(event_t* e, bool set) { ::new (e) event_t(set); }
void drv_sy_event_dtor(event_t* e) { e->~event_t(); }
void drv_sy_signal(event_t* e) { e->signal(); }
void drv_sy_signal_all(event_t* e) { e->signal_all(); }
void drv_sy_reset(event_t* e) { e->reset(); }
void drv_sy_wait(scheduler_t* s, int who, int form, event_t* e, int n, long t) { *s + drv_sy::waiter(who, form, e, n, t); }
void drv_sy_drain(scheduler_t* s, int who, event_t* e) { *s + drv_sy::drain(who, e); }
}
