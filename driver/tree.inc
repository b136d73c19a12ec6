// entry points: coroutines that await each other.  Never executed.
extern "C" void drv_mark(int who, int what);
namespace drv_tr {
using namespace librf;
struct ctx { long prog[8]; int cell[8]; scheduler_t* on[2]; awaitable_t<int> give[4]; future_t<int> take[4]; };
template<class T> future_t<T> node(ctx* c, int who)
{
	std::optional<future_t<int>> kept;
	drv_mark(who, 0);
	bool fail = false;
	for (long p = c->prog[who]; !fail && (p & 15) != 0; p >>= 8)
	{
		const int op = int(p & 15), a = int((p >> 4) & 15);
		try
		{
			if (op == 1) fail = true;
			else if (op == 2) { int r = co_await c->take[a]; drv_mark(who, r); }
			else if (op == 3) { int r = co_await node<int>(c, a); drv_mark(who, r); }
			else if (op == 4) { co_await node<void>(c, a); drv_mark(who, 600 + a); }
			else if (op == 5) { int& r = co_await node<int&>(c, a); drv_mark(who, &r == &c->cell[a] ? 700 + a : 799); }
			else if (op == 6) { co_await yield(); drv_mark(who, 6); }
			else if (op == 7) { co_await via(c->on[a]); drv_mark(who, 7); }
			else if (op == 8) { kept.emplace(node<int>(c, a)); drv_mark(who, 800 + a); }
			else if (op == 9) { int r = co_await *kept; drv_mark(who, r); }
			else if (op == 10) { scheduler_t* s = co_await get_current_scheduler(); drv_mark(who, s == c->on[0] ? 300 : s == c->on[1] ? 301 : 399); }
			else if (op == 11) { kept.reset(); drv_mark(who, 11); }
			else if (op == 12) { *c->on[a] + *kept; drv_mark(who, 12); }
		}
		catch (int v) { drv_mark(who, 2000 + v); }
		catch (...) { drv_mark(who, 99); }
	}
	if (fail) { drv_mark(who, 8); throw 50 + who; }
	drv_mark(who, 9);
	if constexpr (std::is_same_v<T, int>) co_return 1000 + who;
	else if constexpr (std::is_same_v<T, int&>) co_return c->cell[who];
}
}
extern "C" {
using namespace librf;
void drv_tr_make(drv_tr::ctx* c, scheduler_t* s, scheduler_t* t)
{
	c->on[0] = s; c->on[1] = t;
	for (int k = 0; k < 4; ++k) { ::new (&c->give[k]) awaitable_t<int>(); ::new (&c->take[k]) future_t<int>(c->give[k].get_future()); }
}
void drv_tr_dtor(drv_tr::ctx* c) { for (int k = 0; k < 4; ++k) { c->give[k].~awaitable_t(); c->take[k].~future_t(); } }
void drv_tr_prog(drv_tr::ctx* c, int who, long p) { c->prog[who] = p; }
void drv_tr_give(drv_tr::ctx* c, int k, int v) { c->give[k].set_value(v); }
void drv_tr_fail(drv_tr::ctx* c, int k, int v) { c->give[k].throw_exception(v); }
void drv_tr_go(drv_tr::ctx* c, int who, int kind, int on)
{
	scheduler_t& s = *c->on[on];
	if (kind == 0) s + drv_tr::node<int>(c, who);
	else if (kind == 1) s + drv_tr::node<void>(c, who);
	else s + drv_tr::node<int&>(c, who);
}
void drv_tr_drop(drv_tr::ctx* c, int who) { (void)drv_tr::node<int>(c, who); }
}
