// entry points: timers and sleeping.  Never executed.
extern "C" { void drv_timer(int id, bool canceled); void drv_timer_done(int id); void drv_cb_copy(int id); void drv_cb_gone(int id); }
namespace drv_tm {
using namespace librf;
struct on_timer
{
	int id;
	explicit on_timer(int i) : id(i) { drv_cb_copy(id); }
	on_timer(const on_timer& o) : id(o.id) { drv_cb_copy(id); }
	on_timer(on_timer&& o) : id(o.id) { drv_cb_copy(id); }
	~on_timer() { drv_cb_gone(id); }
	void operator()(bool canceled) const { drv_timer(id, canceled); drv_timer_done(id); }
};
using target = timer_manager::timer_target_ptr; using TP = timer_manager::time_point_type; using D = timer_manager::duration_type;
}
extern "C" {
using namespace librf;
void drv_tm_make(timer_mgr_ptr* m) { ::new (m) timer_mgr_ptr(std::make_shared<timer_manager>()); }
void drv_tm_dtor(timer_mgr_ptr* m) { m->~shared_ptr(); }
void drv_tm_add(timer_mgr_ptr* m, long t, int id, drv_tm::target* out) { ::new (out) drv_tm::target((*m)->add(drv_tm::TP(drv_tm::D(t)), drv_tm::on_timer(id))); }
void drv_tm_add_for(timer_mgr_ptr* m, long t, int id, drv_tm::target* out) { ::new (out) drv_tm::target((*m)->add(drv_tm::D(t), drv_tm::on_timer(id))); }
void drv_tm_add_ms(timer_mgr_ptr* m, long t, int id, drv_tm::target* out) { const drv_tm::on_timer f(id); ::new (out) drv_tm::target((*m)->add(std::chrono::milliseconds(t), f)); }
void drv_tm_add_fn(timer_mgr_ptr* m, long t, int id, drv_tm::target* out) { std::function<void(bool)> f(drv_tm::on_timer{id}); ::new (out) drv_tm::target((*m)->add(drv_tm::TP(drv_tm::D(t)), f)); }
void drv_tm_add_h(timer_mgr_ptr* m, long t, int id, timer_handler* out) { ::new (out) timer_handler((*m)->add_handler(drv_tm::TP(drv_tm::D(t)), drv_tm::on_timer(id))); }
void drv_tm_add_hfor(timer_mgr_ptr* m, long t, int id, timer_handler* out) { ::new (out) timer_handler((*m)->add_handler(drv_tm::D(t), drv_tm::on_timer(id))); }
void drv_tm_t_dtor(drv_tm::target* t) { t->~shared_ptr(); }
void drv_tm_t_none(drv_tm::target* t) { ::new (t) drv_tm::target(); }
bool drv_tm_stop(timer_mgr_ptr* m, drv_tm::target* t) { return (*m)->stop(*t); }
void drv_tm_update(timer_mgr_ptr* m) { (*m)->update(); }
void drv_tm_clear(timer_mgr_ptr* m) { (*m)->clear(); }
bool drv_tm_empty(timer_mgr_ptr* m) { return (*m)->empty(); }
void drv_tm_h_none(timer_handler* h) { ::new (h) timer_handler(); }
void drv_tm_h_copy(timer_handler* h, timer_handler* o) { ::new (h) timer_handler(*o); }
void drv_tm_h_move(timer_handler* h, timer_handler* o) { ::new (h) timer_handler(std::move(*o)); }
void drv_tm_h_assign(timer_handler* h, timer_handler* o) { *h = *o; }
void drv_tm_h_massign(timer_handler* h, timer_handler* o) { *h = std::move(*o); }
void drv_tm_h_dtor(timer_handler* h) { h->~timer_handler(); }
void drv_tm_h_reset(timer_handler* h) { h->reset(); }
bool drv_tm_h_stop(timer_handler* h) { return h->stop(); }
bool drv_tm_h_expired(timer_handler* h) { return h->expired(); }
// sleeping
void drv_sl_until_(future_t<>* f, long t, scheduler_t* s) { ::new (f) future_t<>(sleep_until_(drv_tm::TP(drv_tm::D(t)), *s)); }
void drv_sl_for_(future_t<>* f, long t, scheduler_t* s) { ::new (f) future_t<>(sleep_for_(drv_tm::D(t), *s)); }
void drv_sl_until(future_t<>* f, long t, scheduler_t* s) { ::new (f) future_t<>(sleep_until(drv_tm::TP(drv_tm::D(t)), *s)); }
void drv_sl_for_ms(future_t<>* f, long t, scheduler_t* s) { ::new (f) future_t<>(sleep_for(std::chrono::milliseconds(t), *s)); }
void drv_sl_co_for(future_t<>* f, long t) { ::new (f) future_t<>(sleep_for(std::chrono::milliseconds(t))); }
void drv_sl_co_until(future_t<>* f, long t) { ::new (f) future_t<>(sleep_until(drv_tm::TP(drv_tm::D(t)))); }
void drv_sl_co_await(future_t<>* f, long t) { ::new (f) future_t<>(operator co_await(std::chrono::milliseconds(t))); }
}
