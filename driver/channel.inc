// entry points: channels and the ring buffer.  Never executed.
struct drv_tok { int v; drv_tok(int x = 0) : v(x) {} drv_tok(const drv_tok&) = delete; drv_tok(drv_tok&& o) noexcept : v(o.v) { o.v = -7; } drv_tok& operator=(const drv_tok&) = delete; drv_tok& operator=(drv_tok&& o) noexcept { v = o.v; o.v = -7; return *this; } ~drv_tok() {} };
namespace drv_ch { using namespace librf; using H = coroutine_handle<promise_t<void>>;
using CI = channel_t<int>; using CT = channel_t<drv_tok>; using CM = channel_t<int, false, true>;
using RI = ring_queue<int, false, uint32_t>; using RT = ring_queue<drv_tok, true, uint32_t>; }
#define DRV_CHANNEL(N, C, T, RD) \
void drv_ch_##N##_make(C* c, size_t n) { new (c) C(n); } \
size_t drv_ch_##N##_capacity(const C* c) { return c->capacity(); } \
void drv_ch_##N##_write(C::write_awaiter* r, const C* c, int v) { new (r) C::write_awaiter(c->write(T(v))); } \
void drv_ch_##N##_shl(C::write_awaiter* r, const C* c, int v) { new (r) C::write_awaiter(*c << T(v)); } \
void drv_ch_##N##_read(C::read_awaiter* r, const C* c) { new (r) C::read_awaiter(c->read()); } \
void drv_ch_##N##_co_await(C::read_awaiter* r, const C* c) { new (r) C::read_awaiter(c->operator co_await()); } \
bool drv_ch_##N##_wready(C::write_awaiter* a) { return a->await_ready(); } \
bool drv_ch_##N##_rready(C::read_awaiter* a) { return a->await_ready(); } \
bool drv_ch_##N##_wsuspend(C::write_awaiter* a, drv_ch::H h) { return a->await_suspend(h); } \
bool drv_ch_##N##_rsuspend(C::read_awaiter* a, drv_ch::H h) { return a->await_suspend(h); } \
void drv_ch_##N##_wresume(C::write_awaiter* a) { a->await_resume(); } \
int drv_ch_##N##_rresume(C::read_awaiter* a) { RD } \
void drv_ch_##N##_wdtor(C::write_awaiter* a) { a->~write_awaiter(); } \
void drv_ch_##N##_rdtor(C::read_awaiter* a) { a->~read_awaiter(); }
extern "C" {
using namespace librf;
DRV_CHANNEL(int, drv_ch::CI, int, return a->await_resume();)
DRV_CHANNEL(tok, drv_ch::CT, drv_tok, return a->await_resume().v;)
DRV_CHANNEL(mt, drv_ch::CM, int, return a->await_resume();)
void drv_ring_int_make(drv_ch::RI* r, size_t n) { new (r) drv_ch::RI(n); }
bool drv_ring_int_push(drv_ch::RI* r, int v) { return r->try_push(std::move(v)); }
bool drv_ring_int_pop(drv_ch::RI* r, int* v) { return r->try_pop(*v); }
unsigned drv_ring_int_size(drv_ch::RI* r) { return r->size(); }
unsigned drv_ring_int_capacity(drv_ch::RI* r) { return r->capacity(); }
bool drv_ring_int_empty(drv_ch::RI* r) { return r->empty(); }
bool drv_ring_int_full(drv_ch::RI* r) { return r->full(); }
void drv_ring_tok_make(drv_ch::RT* r, size_t n) { new (r) drv_ch::RT(n); }
bool drv_ring_tok_push(drv_ch::RT* r, drv_tok* v) { return r->try_push(std::move(*v)); }
bool drv_ring_tok_pop(drv_ch::RT* r, drv_tok* v) { return r->try_pop(*v); }
unsigned drv_ring_tok_size(drv_ch::RT* r) { return r->size(); }
unsigned drv_ring_tok_capacity(drv_ch::RT* r) { return r->capacity(); }
bool drv_ring_tok_empty(drv_ch::RT* r) { return r->empty(); }
bool drv_ring_tok_full(drv_ch::RT* r) { return r->full(); }
using drv_state_read_int = drv_ch::CI::channel_type::state_read_t;
void drv_ch_state_resume(drv_state_read_int* s) { s->drv_state_read_int::resume(); }
bool drv_ch_state_has(drv_state_read_int* s) { return s->drv_state_read_int::has_handler(); }
void drv_ch_state_dtor(drv_state_read_int* s) { s->drv_state_read_int::~drv_state_read_int(); }
}
