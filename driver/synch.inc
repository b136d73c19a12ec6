// entry points: coroutines that write to and read from channels.  Never executed.
extern "C" void drv_mark(int who, int what);
namespace drv_sy {
using namespace librf;
inline int val(int v) { return v; }
inline int val(const drv_tok& v) { return v.v; }
template<class C, class T> inline future_t<> writer(int who, C ch, int form, int v, int n)
{
	for (int k = 0; k < n; ++k)
	{
		drv_mark(who, 1000 + v + k);
		if (form == 0) co_await ch.write(T(v + k)); else co_await (ch << T(v + k));
		drv_mark(who, 8);
	}
	drv_mark(who, 9);
}
template<class C, class T> inline future_t<> reader(int who, C ch, int form, int n)
{
	for (int k = 0; k < n; ++k)
	{
		drv_mark(who, 7);
		if (form == 0) { T v = co_await ch.read(); drv_mark(who, 1000 + val(v)); }
		else { T v = co_await ch; drv_mark(who, 1000 + val(v)); }
	}
	drv_mark(who, 9);
}
}
#define DRV_SYNCH(N, C, T) \
void drv_sy_##N##_make(C* c, size_t n) { ::new (c) C(n); } \
void drv_sy_##N##_dtor(C* c) { c->~C(); } \
void drv_sy_##N##_write(scheduler_t* s, int who, C* c, int form, int v, int n) { *s + drv_sy::writer<C, T>(who, *c, form, v, n); } \
void drv_sy_##N##_read(scheduler_t* s, int who, C* c, int form, int n) { *s + drv_sy::reader<C, T>(who, *c, form, n); }
extern "C" {
using namespace librf;
using drv_sy_ci = channel_t<int>; using drv_sy_ct = channel_t<drv_tok>; using drv_sy_cm = channel_t<int, false, true>;
DRV_SYNCH(ci, drv_sy_ci, int)
DRV_SYNCH(ct, drv_sy_ct, drv_tok)
DRV_SYNCH(cm, drv_sy_cm, int)
}
