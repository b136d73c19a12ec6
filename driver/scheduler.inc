// entry points: scheduler, tasks, scheduler switching.  Never executed.
struct drv_sched : librf::scheduler_t { drv_sched() : librf::scheduler_t() {} };
extern "C" void drv_stopped(int id);
namespace drv_sc { using namespace librf; struct on_stop { int id; void operator()() const { drv_stopped(id); } }; using HV = coroutine_handle<promise_t<void>>; inline future_t<int>* the_future; struct make { future_t<int>* f; future_t<int> operator()() const { return *f; } }; }
extern "C" {
using namespace librf;
void drv_sc_make(drv_sched* s) { ::new (s) drv_sched(); }
void drv_sc_dtor(drv_sched* s) { s->~drv_sched(); }
void drv_sc_add(scheduler_t* s, state_base_t* p) { s->add_generator(p); }
void drv_sc_del_final(scheduler_t* s, state_base_t* p) { s->del_final(p); }
bool drv_sc_move(scheduler_t* s, scheduler_t* t, state_base_t* p) { auto k = s->del_switch(p); if (!k) return false; t->add_switch(std::move(k)); return true; }
task_t* drv_sc_find(const scheduler_t* s, state_base_t* p) { return s->find_task(p); }
bool drv_sc_empty(const scheduler_t* s) { return s->empty(); }
bool drv_sc_batch(scheduler_t* s) { return s->run_one_batch(); }
void drv_sc_run(scheduler_t* s) { s->run_until_notask(); }
task_t* drv_sc_go(scheduler_t* s, future_t<int>* f) { return *s + *f; }
task_t* drv_sc_go_call(scheduler_t* s, drv_sc::make* f) { return *s + std::move(*f); }
task_t* drv_sc_go_gen(scheduler_t* s, generator_t<int>* g) { return *s + std::move(*g); }
void drv_sc_stop_all(scheduler_t* s) { s->request_stop_all_if_possible(); }
timer_manager* drv_sc_timer(scheduler_t* s) { return s->timer(); }
void drv_sc_promise(promise_t<int>* p) { ::new (p) promise_t<int>(); }
void drv_sc_future(future_t<int>* f, promise_t<int>* p) { ::new (f) future_t<int>(p->get_return_object()); }
void drv_sc_initial(coroutine_handle<promise_t<int>> h) { auto a = h.promise().initial_suspend(); if (!a.await_ready()) a.await_suspend(h); }
void drv_sc_awaitable(awaitable_t<int>* a, future_t<int>* f) { ::new (a) awaitable_t<int>(); ::new (f) future_t<int>(a->get_future()); }
scheduler_t* drv_sc_of(const state_base_t* s) { return s->get_scheduler(); }
scheduler_t* drv_sc_global() { return &scheduler_t::g_scheduler; }
scheduler_t* drv_sc_this() { return this_scheduler(); }
void drv_sc_local(local_scheduler_t* l) { ::new (l) local_scheduler_t(); }
void drv_sc_local_on(local_scheduler_t* l, scheduler_t* s) { ::new (l) local_scheduler_t(*s); }
void drv_sc_local_dtor(local_scheduler_t* l) { l->~local_scheduler_t(); }
void drv_sc_via(drv_sc::HV h, scheduler_t* s, bool* r) { auto a = via(s); *r = !a.await_ready() && a.await_suspend(h); }
void drv_sc_viaref(drv_sc::HV h, scheduler_t& s, bool* r) { auto a = via(s); *r = !a.await_ready() && a.await_suspend(h); }
void drv_sc_vpromise(promise_t<void>* p) { ::new (p) promise_t<void>(); }
void drv_sc_vfuture(future_t<void>* f, promise_t<void>* p) { ::new (f) future_t<void>(p->get_return_object()); }
void drv_sc_vinitial(coroutine_handle<promise_t<void>> h) { auto a = h.promise().initial_suspend(); if (!a.await_ready()) a.await_suspend(h); }
void drv_sc_gen(generator_t<int>* g, generator_t<int>::promise_type* p) { ::new (p) generator_t<int>::promise_type(); ::new (g) generator_t<int>(p->get_return_object()); }
task_t* drv_sc_vgo(scheduler_t* s, future_t<void>* f) { return *s + *f; }
task_t* drv_sc_go_mov(scheduler_t* s, future_t<drv_mov>* f) { return *s + *f; }
task_t* drv_sc_go_ref(scheduler_t* s, future_t<int&>* f) { return *s + *f; }
void drv_sc_transform(promise_t<void>* p, future_t<void>* f) { (void)p->await_transform(*f); }
void drv_sc_suspend(const future_t<void>* f, drv_sc::HV h) { f->await_suspend(h); }
void drv_sc_yield(drv_sc::HV h, bool* r) { auto a = yield(); *r = !a.await_ready(); a.await_suspend(h); }
scheduler_t* drv_sc_cur(drv_sc::HV h) { auto a = get_current_scheduler(); if (!a.await_ready() && a.await_suspend(h)) return nullptr; return a.await_resume(); }
state_base_t* drv_sc_rootstate(drv_sc::HV h) { auto a = get_root_state(); if (!a.await_ready() && a.await_suspend(h)) return nullptr; return a.await_resume(); }
task_t* drv_sc_curtask(drv_sc::HV h) { auto a = get_current_task(); if (!a.await_ready() && a.await_suspend(h)) return nullptr; return a.await_resume(); }
const stop_source* drv_sc_source(task_t* t) { return &t->get_stop_source(); }
void drv_sc_token(stop_token* k, task_t* t) { ::new (k) stop_token(t->get_stop_token()); }
void drv_sc_token_dtor(stop_token* k) { k->~stop_token(); }
bool drv_sc_token_requested(const stop_token* k) { return k->stop_requested(); }
bool drv_sc_task_stop(task_t* t) { return t->request_stop(); }
bool drv_sc_task_stop_if(const task_t* t) { return t->request_stop_if_possible(); }
void drv_sc_callback(stop_callback<drv_sc::on_stop>* c, const stop_token* k, int id) { ::new (c) stop_callback<drv_sc::on_stop>(*k, drv_sc::on_stop{id}); }
void drv_sc_callback_dtor(stop_callback<drv_sc::on_stop>* c) { c->~stop_callback(); }
}
