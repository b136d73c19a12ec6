// entry points: whole coroutines on a scheduler.  Never executed.
extern "C" { void drv_mark(int who, int what); }
namespace drv_sys {
using namespace librf;
using TP = std::chrono::system_clock::time_point; using D = std::chrono::system_clock::duration;
inline void fate(int who)
{
	try { throw; }
	catch (const canceled_exception& e) { if (e._error == error_code::timer_canceled) drv_mark(who, 100); else drv_mark(who, 101); }
	catch (const future_exception& e) { drv_mark(who, 102); }
	catch (int v) { drv_mark(who, 200 + v); }
	catch (...) { drv_mark(who, 99); }
}
inline future_t<> sleeper(int who, long t, int form, scheduler_t* s, int times)
{
	drv_mark(who, 0);
	for (int k = 0; k < times; ++k)
	{
		try
		{
			if (form == 0) co_await sleep_for(std::chrono::milliseconds(t));
			else if (form == 1) co_await sleep_until(TP(D(t)));
			else if (form == 2) co_await std::chrono::milliseconds(t);
			else if (form == 3) co_await sleep_for_(D(t), *s);
			else if (form == 4) co_await sleep_until_(TP(D(t)), *s);
			else if (form == 5) co_await sleep_for(std::chrono::milliseconds(t), *s);
			else co_await sleep_until(TP(D(t)), *s);
			drv_mark(who, 1);
		}
		catch (...) { fate(who); }
	}
	drv_mark(who, 9);
}
}
extern "C" {
using namespace librf;
void drv_sys_go_sleep(scheduler_t* s, int who, long t, int form, scheduler_t* of, int times) { *s + drv_sys::sleeper(who, t, form, of, times); }
void drv_sys_timer_clear(scheduler_t* s) { s->timer()->clear(); }
bool drv_sys_empty(scheduler_t* s) { return s->empty(); }
}
