// entry points: events.  Nothing in here is ever executed; it instantiates the library for the analysis.
namespace drv_ev { using namespace librf; using H = coroutine_handle<promise_t<void>>; using AA = event_t::all_awaiter<event_t*>; using TAA = event_t::timeout_all_awaiter<event_t*>; }
extern "C" {
using namespace librf;
void drv_event_signal(detail::event_v2_impl* e) { e->signal(); }
void drv_event_signal_all(detail::event_v2_impl* e) { e->signal_all(); }
void drv_event_reset(detail::event_v2_impl* e) { e->reset(); }
bool drv_event_is_signaled(detail::event_v2_impl* e) { return e->is_signaled(); }
void drv_event_ctor(detail::event_v2_impl* m, bool b) { new (m) detail::event_v2_impl(b); }
void drv_event_remove(detail::event_v2_impl* e, detail::state_event_base_t* s) { e->remove_wait_list(s); }
void drv_event_dtor(detail::event_v2_impl* e) { e->~event_v2_impl(); }
void drv_eventt_signal(const event_t* e) { e->signal(); }
void drv_eventt_signal_all(const event_t* e) { e->signal_all(); }
void drv_eventt_reset(const event_t* e) { e->reset(); }
void drv_eventt_ctor(event_t* m, bool b) { new (m) event_t(b); }
void drv_eventt_wait(event_t::awaiter* m, const event_t* e) { new (m) event_t::awaiter(e->wait()); }
void drv_eventt_co_await(event_t::awaiter* m, const event_t* e) { new (m) event_t::awaiter(e->operator co_await()); }
void drv_eventt_wait_for(event_t::timeout_awaiter* m, const event_t* e, std::chrono::milliseconds d) { new (m) event_t::timeout_awaiter(e->wait_for(d)); }
void drv_eventt_wait_until(event_t::timeout_awaiter* m, const event_t* e, std::chrono::system_clock::time_point d) { new (m) event_t::timeout_awaiter(e->wait_until(d)); }
bool drv_event_ready(event_t::awaiter* a) { return a->await_ready(); }
bool drv_event_suspend(event_t::awaiter* a, drv_ev::H h) { return a->await_suspend(h); }
bool drv_event_suspend_to(event_t::timeout_awaiter* a, drv_ev::H h) { return a->await_suspend(h); }
bool drv_event_resume(event_t::awaiter* a) { return a->await_resume(); }
void drv_event_awaiter_dtor(event_t::awaiter* a) { a->~awaiter(); }
bool drv_event_notify(detail::state_event_t* s, detail::event_v2_impl* e) { return s->detail::state_event_t::on_notify(e); }
bool drv_event_timeout(detail::state_event_t* s) { return s->detail::state_event_t::on_timeout(); }
void drv_event_cancel(detail::state_event_t* s) { s->detail::state_event_t::on_cancel(); }
void drv_event_add_timer(detail::state_event_t* s, std::chrono::system_clock::time_point tp) { s->add_timeout_timer(tp); }
// wait_all
bool drv_eventall_ready(drv_ev::AA* a) { return a->await_ready(); }
bool drv_eventall_suspend(drv_ev::AA* a, drv_ev::H h) { return a->await_suspend(h); }
bool drv_eventall_suspend_to(drv_ev::TAA* a, drv_ev::H h) { return a->await_suspend(h); }
bool drv_eventall_resume(drv_ev::AA* a) { return a->await_resume(); }
bool drv_eventall_notify(detail::state_event_all_t* s, detail::event_v2_impl* e, intptr_t i) { return s->on_notify(e, i); }
bool drv_eventall_timeout(detail::state_event_all_t* s) { return s->on_timeout(); }
void drv_eventall_cancel(detail::state_event_all_t* s, intptr_t i) { s->on_cancel(i); }
bool drv_eventall_proxy_notify(detail::state_event_proxy_t<detail::state_event_all_t>* s, detail::event_v2_impl* e) { return s->detail::state_event_proxy_t<detail::state_event_all_t>::on_notify(e); }
void drv_eventall_add_timer(detail::state_event_all_t* s, std::chrono::system_clock::time_point tp) { s->add_timeout_timer(tp); }
void drv_eventall_ctor(detail::state_event_all_t* m, intptr_t n, bool& r) { new (m) detail::state_event_all_t(n, r); }
void drv_eventall_make(drv_ev::AA* m, event_t* b, event_t* e) { new (m) drv_ev::AA(event_t::wait_all(b, e)); }
void drv_eventall_make_for(drv_ev::TAA* m, event_t* b, event_t* e) { new (m) drv_ev::TAA(event_t::wait_all_for(std::chrono::milliseconds(1), b, e)); }
}
