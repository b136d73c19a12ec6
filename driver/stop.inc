// entry points: stop_source / stop_token / stop_callback.  Never executed.
extern "C" void drv_stopped(int id);
extern "C" void drv_stop_done(int id);
namespace drv_stp { using namespace milk::concurrency; struct on_stop { int id; on_stop(int i) : id(i) {} void operator()() const { int k = id; drv_stopped(k); drv_stop_done(k); } }; using CB = milk::concurrency::stop_callback<on_stop>; }
extern "C" {
using namespace milk::concurrency;
void drv_stp_s_make(stop_source* s) { ::new (s) stop_source(); }
void drv_stp_s_none(stop_source* s) { ::new (s) stop_source(nostopstate); }
void drv_stp_s_copy(stop_source* s, const stop_source* o) { ::new (s) stop_source(*o); }
void drv_stp_s_move(stop_source* s, stop_source* o) { ::new (s) stop_source(std::move(*o)); }
void drv_stp_s_assign(stop_source* s, const stop_source* o) { *s = *o; }
void drv_stp_s_massign(stop_source* s, stop_source* o) { *s = std::move(*o); }
void drv_stp_s_swap(stop_source* s, stop_source* o) { s->swap(*o); }
void drv_stp_s_dtor(stop_source* s) { s->~stop_source(); }
void drv_stp_s_sure(stop_source* s) { s->make_sure_possible(); }
bool drv_stp_s_request(const stop_source* s) { return s->request_stop(); }
bool drv_stp_s_requested(const stop_source* s) { return s->stop_requested(); }
bool drv_stp_s_possible(const stop_source* s) { return s->stop_possible(); }
void drv_stp_s_token(stop_token* t, const stop_source* s) { ::new (t) stop_token(s->get_token()); }
void drv_stp_t_none(stop_token* t) { ::new (t) stop_token(); }
void drv_stp_t_copy(stop_token* t, const stop_token* o) { ::new (t) stop_token(*o); }
void drv_stp_t_move(stop_token* t, stop_token* o) { ::new (t) stop_token(std::move(*o)); }
void drv_stp_t_assign(stop_token* t, const stop_token* o) { *t = *o; }
void drv_stp_t_massign(stop_token* t, stop_token* o) { *t = std::move(*o); }
void drv_stp_t_swap(stop_token* t, stop_token* o) { t->swap(*o); }
void drv_stp_t_dtor(stop_token* t) { t->~stop_token(); }
bool drv_stp_t_requested(const stop_token* t) { return t->stop_requested(); }
bool drv_stp_t_possible(const stop_token* t) { return t->stop_possible(); }
void drv_stp_c_make(drv_stp::CB* c, const stop_token* t, int id) { ::new (c) drv_stp::CB(*t, id); }
void drv_stp_c_take(drv_stp::CB* c, stop_token* t, int id) { ::new (c) drv_stp::CB(std::move(*t), id); }
drv_stp::CB* drv_stp_c_new(const stop_token* t, int id) { return new drv_stp::CB(*t, id); }
drv_stp::CB* drv_stp_c_newt(stop_token* t, int id) { return new drv_stp::CB(std::move(*t), id); }
void drv_stp_c_delete(drv_stp::CB* c) { delete c; }
void drv_stp_c_dtor(drv_stp::CB* c) { c->drv_stp::CB::~CB(); }
}
