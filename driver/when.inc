// entry points: coroutines that wait for all or any of several tasks.  Never executed.
extern "C" void drv_mark(int who, int what);
namespace drv_wh {
using namespace librf;
template<class T> struct slot { awaitable_t<T> a; future_t<T> f = a.get_future(); };
using A = slot<int>; using AV = slot<void>;
struct call { A* a; future_t<int> operator()() const { return std::move(a->f); } };
inline future_t<int> child(int who, A* a) { drv_mark(who, 50); int v = co_await a->f; drv_mark(who, 51); co_return v; }
inline std::vector<future_t<int>> list(A* a, int n) { std::vector<future_t<int>> v; for (int k = 0; k < n; ++k) v.push_back(std::move(a[k].f)); return v; }
inline void tell(int who, const std::vector<int>& v) { drv_mark(who, 500 + (int)v.size()); for (int x : v) drv_mark(who, 1000 + x); }
inline future_t<> all(int who, int form, scheduler_t* s, A* a, AV* n)
{
	drv_mark(who, 0);
	try
	{
		if (form == 0) { auto [x, y] = co_await when_all(*s, std::move(a[0].f), std::move(a[1].f)); drv_mark(who, 1); drv_mark(who, 1000 + x); drv_mark(who, 1000 + y); }
		else if (form == 1) { auto [x, y] = co_await when_all(std::move(a[0].f), std::move(a[1].f)); drv_mark(who, 1); drv_mark(who, 1000 + x); drv_mark(who, 1000 + y); }
		else if (form == 2) { auto [x, y, z] = co_await when_all(*s, std::move(a[0].f), std::move(n[1].f), std::move(a[2].f)); (void)y; drv_mark(who, 1); drv_mark(who, 1000 + x); drv_mark(who, 1000 + z); }
		else if (form == 3) { auto v = list(a, 2); auto r = co_await when_all(*s, v.begin(), v.end()); drv_mark(who, 1); tell(who, r); }
		else if (form == 4) { auto v = list(a, 2); auto r = co_await when_all(v.begin(), v.end()); drv_mark(who, 1); tell(who, r); }
		else if (form == 5) { auto v = list(a, 3); auto r = co_await when_all(*s, v); drv_mark(who, 1); tell(who, r); }
		else if (form == 6) { auto v = list(a, 2); auto r = co_await when_all(v); drv_mark(who, 1); tell(who, r); }
		else if (form == 7) { auto [x, y] = co_await when_all(*s, call{a}, call{a + 1}); drv_mark(who, 1); drv_mark(who, 1000 + x); drv_mark(who, 1000 + y); }
		else if (form == 8) { auto [x] = co_await when_all(*s, child(who, a)); drv_mark(who, 1); drv_mark(who, 1000 + x); }
		else if (form == 9) { co_await when_all(*s); drv_mark(who, 1); }
		else if (form == 10) { auto v = list(a, 0); auto r = co_await when_all(*s, v); drv_mark(who, 1); tell(who, r); }
		else if (form == 11) { std::vector<call> v; v.push_back(call{a}); v.push_back(call{a + 1}); auto r = co_await when_all(*s, v); drv_mark(who, 1); tell(who, r); }
		else if (form == 12) { std::vector<future_t<>> v; v.push_back(std::move(n[0].f)); v.push_back(std::move(n[1].f)); auto r = co_await when_all(*s, v); drv_mark(who, 1); drv_mark(who, 500 + (int)r.size()); }
		else if (form == 13) { auto [x, y] = co_await when_all(child(who, a), child(who, a + 1)); drv_mark(who, 1); drv_mark(who, 1000 + x); drv_mark(who, 1000 + y); }
	}
	catch (...) { drv_sys::fate(who); }
	drv_mark(who, 9);
}
inline void tell(int who, when_any_pair& r)
{
	drv_mark(who, 1); drv_mark(who, 500 + (int)r.first);
	if (r.second.has_value()) drv_mark(who, 1000 + std::any_cast<int>(r.second));
}
inline future_t<> any(int who, int form, scheduler_t* s, A* a, AV* n)
{
	drv_mark(who, 0);
	try
	{
		if (form == 0) { auto r = co_await when_any(*s, std::move(a[0].f), std::move(a[1].f)); tell(who, r); }
		else if (form == 1) { auto r = co_await when_any(std::move(a[0].f), std::move(a[1].f)); tell(who, r); }
		else if (form == 2) { auto r = co_await when_any(*s, std::move(a[0].f), std::move(n[1].f), std::move(a[2].f)); tell(who, r); }
		else if (form == 3) { auto v = list(a, 2); auto r = co_await when_any(*s, v.begin(), v.end()); tell(who, r); }
		else if (form == 4) { auto v = list(a, 2); auto r = co_await when_any(v.begin(), v.end()); tell(who, r); }
		else if (form == 5) { auto v = list(a, 3); auto r = co_await when_any(*s, v); tell(who, r); }
		else if (form == 6) { auto v = list(a, 2); auto r = co_await when_any(v); tell(who, r); }
		else if (form == 7) { auto r = co_await when_any(*s, call{a}, call{a + 1}); tell(who, r); }
		else if (form == 8) { auto r = co_await when_any(*s, child(who, a)); tell(who, r); }
		else if (form == 9) { auto r = co_await when_any(*s); tell(who, r); }
		else if (form == 10) { auto v = list(a, 0); auto r = co_await when_any(*s, v); tell(who, r); }
		else if (form == 11) { std::vector<call> v; v.push_back(call{a}); v.push_back(call{a + 1}); auto r = co_await when_any(*s, v); tell(who, r); }
		else if (form == 13) { auto r = co_await when_any(child(who, a), child(who, a + 1)); tell(who, r); }
	}
	catch (...) { drv_sys::fate(who); }
	drv_mark(who, 9);
}
}
extern "C" {
using namespace librf;
void drv_wh_int(drv_wh::A* a) { ::new (a) drv_wh::A(); }
void drv_wh_void(drv_wh::AV* a) { ::new (a) drv_wh::AV(); }
void drv_wh_set(drv_wh::A* a, int v) { a->a.set_value(v); }
void drv_wh_vset(drv_wh::AV* a) { a->a.set_value(); }
void drv_wh_throw(drv_wh::A* a, int v) { a->a.throw_exception(v); }
void drv_wh_vthrow(drv_wh::AV* a, int v) { a->a.throw_exception(v); }
void drv_wh_int_dtor(drv_wh::A* a) { a->~slot(); }
void drv_wh_void_dtor(drv_wh::AV* a) { a->~slot(); }
void drv_wh_all(scheduler_t* on, int who, int form, scheduler_t* s, drv_wh::A* a, drv_wh::AV* n) { *on + drv_wh::all(who, form, s, a, n); }
void drv_wh_any(scheduler_t* on, int who, int form, scheduler_t* s, drv_wh::A* a, drv_wh::AV* n) { *on + drv_wh::any(who, form, s, a, n); }
}
