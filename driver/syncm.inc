// entry points: coroutines that lock mutexes.  Never executed.
extern "C" void drv_mark(int who, int what);
namespace drv_sy {
using namespace librf;
using TP = std::chrono::system_clock::time_point; using D = std::chrono::system_clock::duration;
struct gate { awaitable_t<> a; future_t<> f = a.get_future(); };
inline future_t<> again(int who, mutex_t* m, int mi, drv_sy::gate* gate)
{
	auto g = co_await m[mi].lock();
	drv_mark(who, 40); co_await gate->f; drv_mark(who, 41);
}
inline future_t<> locker(int who, int form, mutex_t* m, int mi, long t, drv_sy::gate* gate)
{
	drv_mark(who, 0);
	if (form == 0) { auto g = co_await m[mi].lock(); drv_mark(who, 20 + mi); co_await gate->f; drv_mark(who, 30 + mi); }
	else if (form == 1) { auto g = co_await m[mi]; drv_mark(who, 20 + mi); co_await gate->f; drv_mark(who, 30 + mi); }
	else if (form == 2) { co_await m[mi].lock(adopt_manual_unlock); drv_mark(who, 20 + mi); co_await gate->f; drv_mark(who, 30 + mi); co_await m[mi].unlock(); }
	else if (form == 3) { if (co_await m[mi].try_lock()) { drv_mark(who, 20 + mi); co_await gate->f; drv_mark(who, 30 + mi); co_await m[mi].unlock(); } else drv_mark(who, 2); }
	else if (form == 4) { if (co_await m[mi].try_lock_for(D(t))) { drv_mark(who, 20 + mi); co_await gate->f; drv_mark(who, 30 + mi); co_await m[mi].unlock(); } else drv_mark(who, 2); }
	else if (form == 5) { if (co_await m[mi].try_lock_until(TP(D(t)))) { drv_mark(who, 20 + mi); co_await gate->f; drv_mark(who, 30 + mi); co_await m[mi].unlock(); } else drv_mark(who, 2); }
	else if (form == 6) { auto g = co_await mutex_t::lock(m[mi], m[1 - mi]); drv_mark(who, 20); drv_mark(who, 21); co_await gate->f; drv_mark(who, 30); drv_mark(who, 31); }
	else if (form == 7) { co_await mutex_t::lock(adopt_manual_unlock, m[mi], m[1 - mi]); drv_mark(who, 20); drv_mark(who, 21); co_await gate->f; drv_mark(who, 30); drv_mark(who, 31); co_await mutex_t::unlock(m[mi], m[1 - mi]); }
	else if (form == 8) { auto g = co_await m[mi].lock(); drv_mark(who, 20 + mi); co_await again(who, m, mi, gate); co_await gate[1].f; drv_mark(who, 30 + mi); }
	drv_mark(who, 9);
}
}
extern "C" {
using namespace librf;
void drv_sy_gate(drv_sy::gate* g) { ::new (g) drv_sy::gate(); }
void drv_sy_open(drv_sy::gate* g) { g->a.set_value(); }
void drv_sy_gate_dtor(drv_sy::gate* g) { g->~gate(); }
void drv_sy_batches(scheduler_t* s, int n) { for (int k = 0; k < n; ++k) s->run_one_batch(); }
void drv_sy_mutex(mutex_t* m) { ::new (m) mutex_t(); }
void drv_sy_mutex_dtor(mutex_t* m) { m->~mutex_t(); }
bool drv_sy_locked(mutex_t* m) { return m->is_locked(); }
void drv_sy_lock(scheduler_t* s, int who, int form, mutex_t* m, int mi, long t, drv_sy::gate* gate) { *s + drv_sy::locker(who, form, m, mi, t, gate); }
}
