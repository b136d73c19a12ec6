// entry points: mutexes.  Never executed.
namespace drv_mx { using namespace librf; using H = coroutine_handle<promise_t<void>>; using MU = batch_unlock_t<mutex_t>; using MU2 = batch_unlock_t<mutex_t, mutex_t>; using MU3 = batch_unlock_t<mutex_t, mutex_t, mutex_t>; using ms = std::chrono::milliseconds; using tp = std::chrono::system_clock::time_point; }
extern "C" {
using namespace librf;
bool drv_mutex_try_lock(detail::mutex_v2_impl* m, void* who) { return m->try_lock(who); }
bool drv_mutex_try_lock_until(detail::mutex_v2_impl* m, drv_mx::tp t, void* who) { return m->try_lock_until(t, who); }
void drv_mutex_lock(detail::mutex_v2_impl* m, void* who) { m->lock_until_succeed(who); }
bool drv_mutex_unlock(detail::mutex_v2_impl* m, void* who) { return m->unlock(who); }
void* drv_mutex_owner(detail::mutex_v2_impl* m) { return m->owner(); }
void drv_mutex_ctor(detail::mutex_v2_impl* m) { new (m) detail::mutex_v2_impl(); }
// public handle
bool drv_mutext_is_locked(const mutex_t* m) { return m->is_locked(); }
void drv_mutext_lock_addr(const mutex_t* m, void* a) { m->lock(a); }
bool drv_mutext_try_lock_addr(const mutex_t* m, void* a) { return m->try_lock(a); }
bool drv_mutext_try_for_addr(mutex_t* m, drv_mx::ms d, void* a) { return m->try_lock_for(d, a); }
bool drv_mutext_try_until_addr(mutex_t* m, drv_mx::tp d, void* a) { return m->try_lock_until(d, a); }
void drv_mutext_unlock_addr(const mutex_t* m, void* a) { m->unlock(a); }
void drv_mutext_unlock_addr2(void* a, mutex_t* m, mutex_t* n) { mutex_t::unlock(a, *m, *n); }
void drv_mutext_lock_addr2(void* a, mutex_t* m, mutex_t* n) { mutex_t::lock(adopt_manual_unlock, a, *m, *n); }
void drv_mutext_lock_addr3(void* a, mutex_t* m, mutex_t* n, mutex_t* o) { mutex_t::lock(adopt_manual_unlock, a, *m, *n, *o); }
void drv_mutext_lock_addr2g(drv_mx::MU2* r, void* a, mutex_t* m, mutex_t* n) { new (r) drv_mx::MU2(mutex_t::lock(a, *m, *n)); }
void drv_mutext_lock(mutex_t::awaiter* r, const mutex_t* m) { new (r) mutex_t::awaiter(m->lock()); }
void drv_mutext_co_await(mutex_t::awaiter* r, const mutex_t* m) { new (r) mutex_t::awaiter(m->operator co_await()); }
void drv_mutext_lock_manual(mutex_t::manual_awaiter* r, const mutex_t* m) { new (r) mutex_t::manual_awaiter(m->lock(adopt_manual_unlock)); }
void drv_mutext_try_lock(mutex_t::try_awaiter* r, const mutex_t* m) { new (r) mutex_t::try_awaiter(m->try_lock()); }
void drv_mutext_unlock(mutex_t::unlock_awaiter* r, const mutex_t* m) { new (r) mutex_t::unlock_awaiter(m->unlock()); }
void drv_mutext_try_for(mutex_t::timeout_awaiter* r, const mutex_t* m, drv_mx::ms d) { new (r) mutex_t::timeout_awaiter(m->try_lock_for(d)); }
void drv_mutext_try_until(mutex_t::timeout_awaiter* r, const mutex_t* m, drv_mx::tp d) { new (r) mutex_t::timeout_awaiter(m->try_lock_until(d)); }
// awaiter protocol
bool drv_mutex_ready(mutex_t::awaiter* a) { return a->await_ready(); }
bool drv_mutex_suspend(mutex_t::awaiter* a, drv_mx::H h) { return a->await_suspend(h); }
bool drv_mutex_suspend_manual(mutex_t::manual_awaiter* a, drv_mx::H h) { return a->await_suspend(h); }
bool drv_mutex_suspend_to(mutex_t::timeout_awaiter* a, drv_mx::H h) { return a->await_suspend(h); }
bool drv_mutex_suspend_try(mutex_t::try_awaiter* a, drv_mx::H h) { return a->await_suspend(h); }
bool drv_mutex_suspend_unlock(mutex_t::unlock_awaiter* a, drv_mx::H h) { return a->await_suspend(h); }
bool drv_mutex_try_ready(mutex_t::try_awaiter* a) { return a->await_ready(); }
bool drv_mutex_unlock_ready(mutex_t::unlock_awaiter* a) { return a->await_ready(); }
void drv_mutex_resume(drv_mx::MU* r, mutex_t::awaiter* a) { new (r) drv_mx::MU(a->await_resume()); }
void drv_mutex_resume_manual(mutex_t::manual_awaiter* a) { a->await_resume(); }
bool drv_mutex_resume_to(mutex_t::timeout_awaiter* a) { return a->await_resume(); }
bool drv_mutex_resume_try(mutex_t::try_awaiter* a) { return a->await_resume(); }
void drv_mutex_resume_unlock(mutex_t::unlock_awaiter* a) { a->await_resume(); }
// waiter
bool drv_mutex_notify(detail::state_mutex_t* s, detail::mutex_v2_impl* e) { return s->on_notify(e); }
bool drv_mutex_timeout(detail::state_mutex_t* s) { return s->on_timeout(); }
void drv_mutex_cancel(detail::state_mutex_t* s) { s->on_cancel(); }
void drv_mutex_add_timer(detail::state_mutex_t* s, drv_mx::tp t) { s->add_timeout_timer(t); }
void drv_mutex_state_resume(detail::state_mutex_t* s) { s->detail::state_mutex_t::resume(); }
bool drv_mutex_state_has(detail::state_mutex_t* s) { return s->detail::state_mutex_t::has_handler(); }
// guards
void drv_mguard_dtor(drv_mx::MU* g) { g->~batch_unlock_t(); }
void drv_mguard_unlock(drv_mx::MU* g) { g->unlock(); }
void drv_mguard_move(drv_mx::MU* r, drv_mx::MU* g) { new (r) drv_mx::MU(std::move(*g)); }
void drv_mguard_assign(drv_mx::MU* r, drv_mx::MU* g) { *r = std::move(*g); }
void drv_mguard_ctor(drv_mx::MU* r, void* who, const mutex_t* m) { new (r) drv_mx::MU(std::adopt_lock, who, *m); }
void drv_mguard_ctor0(drv_mx::MU* r) { new (r) drv_mx::MU(); }
void drv_mguard2_dtor(drv_mx::MU2* g) { g->~batch_unlock_t(); }
void drv_mguard2_unlock(drv_mx::MU2* g) { g->unlock(); }
void drv_mguard2_move(drv_mx::MU2* r, drv_mx::MU2* g) { new (r) drv_mx::MU2(std::move(*g)); }
void drv_mguard2_assign(drv_mx::MU2* r, drv_mx::MU2* g) { *r = std::move(*g); }
void drv_mguard2_ctor(drv_mx::MU2* r, void* who, mutex_t* m, mutex_t* n) { new (r) drv_mx::MU2(std::adopt_lock, who, *m, *n); }
// coroutine multi-lock
future_t<drv_mx::MU2> drv_mutex_lock2(mutex_t& a, mutex_t& b) { return mutex_t::lock(a, b); }
future_t<drv_mx::MU3> drv_mutex_lock3(mutex_t& a, mutex_t& b, mutex_t& c) { return mutex_t::lock(a, b, c); }
future_t<> drv_mutex_lock2m(mutex_t& a, mutex_t& b) { return mutex_t::lock(adopt_manual_unlock, a, b); }
future_t<> drv_mutex_unlock2(mutex_t& a, mutex_t& b) { return mutex_t::unlock(a, b); }
}
