// entry points: generators.  Never executed.
extern "C" void drv_mark(int who, int what);
namespace drv_gn {
using namespace librf;
using G = generator_t<int>; using I = G::iterator;
struct guard { int who; explicit guard(int w) : who(w) { drv_mark(who, 60); } guard(const guard& o) : who(o.who) { drv_mark(who, 60); } ~guard() { drv_mark(who, 61); } };
inline G count(int who, int n, guard arg)
{
	drv_mark(who, 0);
	guard local(who);
	for (int k = 0; k < n; ++k)
	{
		drv_mark(who, 10 + k);
		co_yield 100 + k;
	}
	drv_mark(who, 8);
	co_return 100 + n;
}
struct call { int who, n; guard held; G operator()() const { return count(who, n, guard(who)); } };
}
extern "C" {
using namespace librf;
void drv_gn_make(drv_gn::G* g, int who, int n) { ::new (g) drv_gn::G(drv_gn::count(who, n, drv_gn::guard(who))); }
void drv_gn_none(drv_gn::G* g) { ::new (g) drv_gn::G(); }
void drv_gn_move(drv_gn::G* g, drv_gn::G* o) { ::new (g) drv_gn::G(std::move(*o)); }
void drv_gn_massign(drv_gn::G* g, drv_gn::G* o) { *g = std::move(*o); }
void drv_gn_dtor(drv_gn::G* g) { g->~generator_t(); }
void drv_gn_begin(drv_gn::G* g, drv_gn::I* i) { ::new (i) drv_gn::I(g->begin()); }
void drv_gn_next(drv_gn::I* i) { ++*i; }
void drv_gn_post(drv_gn::I* i) { (*i)++; }
bool drv_gn_end(drv_gn::G* g, drv_gn::I* i) { return *i == g->end(); }
bool drv_gn_more(drv_gn::G* g, drv_gn::I* i) { return *i != g->end(); }
int drv_gn_get(drv_gn::I* i) { return **i; }
int drv_gn_arrow(drv_gn::I* i) { return *i->operator->(); }
void drv_gn_loop(drv_gn::G* g, int who) { for (int v : *g) drv_mark(who, 1000 + v); drv_mark(who, 9); }
void drv_gn_go(scheduler_t* s, drv_gn::G* g) { *s + std::move(*g); }
void drv_gn_go_call(scheduler_t* s, int who, int n) { *s + drv_gn::call{who, n, drv_gn::guard(who)}; }
task_t* drv_gn_task(scheduler_t* s, drv_gn::G* g) { return *s + std::move(*g); }
}
