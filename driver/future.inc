// entry points: futures, awaitables, promises and their shared state.  Never executed.
struct drv_mov { int v; drv_mov(int x) : v(x) {} drv_mov(const drv_mov&) = delete; drv_mov(drv_mov&& o) noexcept : v(o.v) { o.v = -7; } drv_mov& operator=(const drv_mov&) = delete; drv_mov& operator=(drv_mov&& o) noexcept { v = o.v; o.v = -7; return *this; } ~drv_mov() {} };
extern "C" void drv_lv(int op, const void* p);
struct drv_life { int v; drv_life(int x) : v(x) { drv_lv(1, this); } drv_life(drv_life&& o) noexcept : v(o.v) { o.v = -7; drv_lv(1, this); } drv_life& operator=(drv_life&& o) noexcept { drv_lv(2, this); v = o.v; o.v = -7; return *this; } ~drv_life() { drv_lv(3, this); } };
namespace drv_fu { using namespace librf; using PV = promise_t<void>; using HV = coroutine_handle<PV>; using EP = std::exception_ptr; using SH = switch_scheduler_awaitor; }
#define DRV_FUT(N, T, PUB, VAL) \
void drv_fu_##N##_promise(promise_t<T>* p) { ::new (p) promise_t<T>(); } \
void drv_fu_##N##_promise_dtor(promise_t<T>* p) { p->~promise_t(); } \
void drv_fu_##N##_return_object(future_t<T>* f, promise_t<T>* p) { ::new (f) future_t<T>(p->get_return_object()); } \
void drv_fu_##N##_initial(coroutine_handle<promise_t<T>> h) { auto a = h.promise().initial_suspend(); if (!a.await_ready()) a.await_suspend(h); } \
void drv_fu_##N##_final(coroutine_handle<promise_t<T>> h) { auto a = h.promise().final_suspend(); if (!a.await_ready()) a.await_suspend(h); } \
void drv_fu_##N##_throw(promise_t<T>* p) { p->unhandled_exception(); } \
bool drv_fu_##N##_ready(const future_t<T>* f) { return f->await_ready(); } \
void drv_fu_##N##_transform(promise_t<void>* p, future_t<T>* f) { (void)p->await_transform(*f); } \
void drv_fu_##N##_suspend(const future_t<T>* f, drv_fu::HV h) { f->await_suspend(h); } \
void drv_fu_##N##_suspend_gen(const future_t<T>* f, coroutine_handle<promise_t<T>> h) { f->await_suspend(h); } \
void drv_fu_##N##_dtor(future_t<T>* f) { f->~future_t(); } \
void drv_fu_##N##_copy(future_t<T>* g, const future_t<T>* f) { ::new (g) future_t<T>(*f); } \
void drv_fu_##N##_move(future_t<T>* g, future_t<T>* f) { ::new (g) future_t<T>(std::move(*f)); } \
void drv_fu_##N##_assign(future_t<T>* g, const future_t<T>* f) { *g = *f; } \
void drv_fu_##N##_massign(future_t<T>* g, future_t<T>* f) { *g = std::move(*f); } \
void drv_fu_##N##_aw_make(awaitable_t<T>* a) { ::new (a) awaitable_t<T>(); } \
void drv_fu_##N##_aw_exc(const awaitable_t<T>* a, drv_fu::EP* e) { a->set_exception(*e); } \
void drv_fu_##N##_aw_throw(const awaitable_t<T>* a, int v) { a->throw_exception(v); } \
void drv_fu_##N##_aw_future(future_t<T>* f, const awaitable_t<T>* a) { ::new (f) future_t<T>(a->get_future()); } \
bool drv_fu_##N##_aw_valid(const awaitable_t<T>* a) { return (bool)*a; } \
void drv_fu_##N##_aw_dtor(awaitable_t<T>* a) { a->~awaitable_t(); } \
state_t<T>* drv_fu_##N##_alloc(bool b) { return state_future_t::_Alloc_state<state_t<T>>(b); } \
void drv_fu_##N##_destroy(state_t<T>* s) { s->destroy_deallocate(); }
extern "C" {
using namespace librf;
DRV_FUT(int, int, , )
DRV_FUT(mov, drv_mov, , )
DRV_FUT(life, drv_life, , )
DRV_FUT(ref, int&, , )
DRV_FUT(void, void, , )
void drv_fu_int_return(promise_t<int>* p, int v) { p->return_value(v); }
void drv_fu_int_yield(promise_t<int>* p, int v) { p->yield_value(v); }
void drv_fu_int_aw_set(const awaitable_t<int>* a, int v) { a->set_value(v); }
int drv_fu_int_resume(const future_t<int>* f) { return f->await_resume(); }
void drv_fu_mov_return(promise_t<drv_mov>* p, int v) { p->return_value(drv_mov(v)); }
void drv_fu_life_return(promise_t<drv_life>* p, int v) { p->return_value(drv_life(v)); }
void drv_fu_mov_yield(promise_t<drv_mov>* p, int v) { p->yield_value(drv_mov(v)); }
void drv_fu_life_yield(promise_t<drv_life>* p, int v) { p->yield_value(drv_life(v)); }
void drv_fu_mov_aw_set(const awaitable_t<drv_mov>* a, int v) { a->set_value(drv_mov(v)); }
void drv_fu_life_aw_set(const awaitable_t<drv_life>* a, int v) { a->set_value(drv_life(v)); }
int drv_fu_mov_resume(const future_t<drv_mov>* f) { return f->await_resume().v; }
int drv_fu_life_resume(const future_t<drv_life>* f) { return f->await_resume().v; }
void drv_fu_ref_return(promise_t<int&>* p, int* v) { p->return_value(*v); }
void drv_fu_ref_yield(promise_t<int&>* p, int* v) { p->yield_value(*v); }
void drv_fu_ref_aw_set(const awaitable_t<int&>* a, int* v) { a->set_value(*v); }
int* drv_fu_ref_resume(const future_t<int&>* f) { return &f->await_resume(); }
void drv_fu_void_return(promise_t<void>* p) { p->return_void(); }
void drv_fu_void_yield(promise_t<void>* p) { p->yield_value(); }
void drv_fu_void_aw_set(const awaitable_t<void>* a) { a->set_value(); }
void drv_fu_void_resume(const future_t<void>* f) { f->await_resume(); }
// the state as the scheduler sees it
void drv_st_resume(state_base_t* s) { s->resume(); }
bool drv_st_has_handler(const state_base_t* s) { return s->has_handler(); }
state_base_t* drv_st_parent(const state_base_t* s) { return s->get_parent(); }
state_base_t* drv_st_root(const state_base_t* s) { return s->get_root(); }
scheduler_t* drv_st_scheduler(const state_base_t* s) { return s->get_scheduler(); }
void drv_st_set_scheduler(state_base_t* s, scheduler_t* c) { s->set_scheduler(c); }
void drv_st_ref(state_base_t* s) { s->lock(); }
void drv_st_unref(state_base_t* s) { s->unlock(); }
void drv_fu_yield_suspend(drv_fu::HV h, bool* r) { auto a = yield(); *r = !a.await_ready() && a.await_suspend(h); }
void drv_fu_yield_resume() { yield().await_resume(); }
void drv_fu_via(drv_fu::HV h, scheduler_t* s, bool* r) { auto a = via(s); *r = !a.await_ready() && a.await_suspend(h); }
void drv_fu_viaref(drv_fu::HV h, scheduler_t& s, bool* r) { auto a = via(s); *r = !a.await_ready() && a.await_suspend(h); }
scheduler_t* drv_fu_current_scheduler(drv_fu::HV h) { auto a = get_current_scheduler(); if (!a.await_ready() && a.await_suspend(h)) return nullptr; return a.await_resume(); }
state_base_t* drv_fu_root_state(drv_fu::HV h) { auto a = get_root_state(); if (!a.await_ready() && a.await_suspend(h)) return nullptr; return a.await_resume(); }
task_t* drv_fu_current_task(drv_fu::HV h) { auto a = get_current_task(); if (!a.await_ready() && a.await_suspend(h)) return nullptr; return a.await_resume(); }
}
#define DRV_ST(N, C) extern "C" void drv_stx_##N(C* s) { s->C::resume(); }
namespace librf {
DRV_ST(base, state_base_t)
DRV_ST(event, detail::state_event_t)
DRV_ST(event_all, detail::state_event_all_t)
DRV_ST(mutex, detail::state_mutex_t)
DRV_ST(when, detail::state_when_t)
DRV_ST(generator, state_generator_t)
}
