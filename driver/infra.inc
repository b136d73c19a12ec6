// entry points: spin lock, batch lock, intrusive list, counted pointer.  Never executed.
struct drv_node : public librf::intrusive_link_node<drv_node> { int v; };
struct drv_cnode : public librf::intrusive_link_node<drv_cnode, librf::counted_ptr<drv_cnode>> { int v; void lock(); void unlock(); };
namespace drv_in { using namespace librf; using Q = intrusive_link_queue<drv_node>; using QC = intrusive_link_queue<drv_cnode, counted_ptr<drv_cnode>>; using CP = counted_ptr<drv_cnode>;
using LV = std::vector<std::reference_wrapper<spinlock>>; using BL = batch_lock_t<std::reference_wrapper<spinlock>>; using SV = std::vector<spinlock>; using BS = batch_lock_t<spinlock>; 
using LA = detail::_LockVectorAssembleT<std::reference_wrapper<spinlock>, LV>; }
extern "C" {
using namespace librf;
void drv_spin_make(spinlock* s) { new (s) spinlock(); }
void drv_spin_lock(spinlock* s) { s->lock(); }
bool drv_spin_try(spinlock* s) { return s->try_lock(); }
void drv_spin_unlock(spinlock* s) { s->unlock(); }
void drv_batch_vec(drv_in::LV* v) { new (v) drv_in::LV(); }
void drv_batch_add(drv_in::LV* v, spinlock* s) { v->push_back(std::ref(*s)); }
void drv_batch_lock(drv_in::BL* b, drv_in::LV* v) { new (b) drv_in::BL(*v); }
void drv_batch_lock_la(drv_in::BL* b, drv_in::LV* v) { drv_in::LA la(*v); new (b) drv_in::BL(*v, la); }
void drv_batch_adopt(drv_in::BL* b, drv_in::LV* v) { new (b) drv_in::BL(std::adopt_lock, *v); }
void drv_batch_adopt_la(drv_in::BL* b, drv_in::LV* v) { drv_in::LA la(*v); new (b) drv_in::BL(std::adopt_lock, *v, la); }
void drv_batch_unlock(drv_in::BL* b) { b->unlock(); }
void drv_batch_dtor(drv_in::BL* b) { b->~batch_lock_t(); }
void drv_batch_move(drv_in::BL* b, drv_in::BL* a) { new (b) drv_in::BL(std::move(*a)); }
void drv_batch_assign(drv_in::BL* b, drv_in::BL* a) { *b = std::move(*a); }
#define DRV_IQ(N, QT, NP, ARG) \
void drv_iq_##N##_make(QT* q) { new (q) QT(); } \
void drv_iq_##N##_push_back(QT* q, ARG* n) { q->push_back(n); } \
void drv_iq_##N##_push_front(QT* q, ARG* n) { q->push_front(n); } \
void drv_iq_##N##_erase(QT* q, ARG* n) { q->erase(n); } \
void drv_iq_##N##_pop(QT* q, NP* r) { *r = q->try_pop(); } \
bool drv_iq_##N##_empty(QT* q) { return q->empty(); } \
size_t drv_iq_##N##_size(QT* q) { return q->size(); }
DRV_IQ(raw, drv_in::Q, drv_node*, drv_node)
DRV_IQ(cnt, drv_in::QC, drv_in::CP, drv_cnode)
void drv_cp_node(drv_cnode* p) { new (p) drv_cnode(); }
void drv_cp_raw_node(drv_node* p) { new (p) drv_node(); }
void drv_cp_make0(drv_in::CP* p) { new (p) drv_in::CP(); }
void drv_cp_make(drv_in::CP* p, drv_cnode* n) { new (p) drv_in::CP(n); }
void drv_cp_copy(drv_in::CP* p, const drv_in::CP* q) { new (p) drv_in::CP(*q); }
void drv_cp_move(drv_in::CP* p, drv_in::CP* q) { new (p) drv_in::CP(std::move(*q)); }
void drv_cp_assign(drv_in::CP* p, const drv_in::CP* q) { *p = *q; }
void drv_cp_massign(drv_in::CP* p, drv_in::CP* q) { *p = std::move(*q); }
void drv_cp_swap(drv_in::CP* p, drv_in::CP* q) { p->swap(*q); }
void drv_cp_sswap(drv_in::CP* p, drv_in::CP* q) { std::swap(*p, *q); }
void drv_cp_reset(drv_in::CP* p) { p->reset(); }
void drv_cp_dtor(drv_in::CP* p) { p->~counted_ptr(); }
drv_cnode* drv_cp_get(drv_in::CP* p) { return p->get(); }
drv_cnode* drv_cp_arrow(drv_in::CP* p) { return p->operator->(); }
drv_cnode* drv_cp_conv(drv_in::CP* p) { return *p; }
bool drv_cp_eq(drv_in::CP* p, drv_in::CP* q) { return *p == *q; }
bool drv_cp_eq0(drv_in::CP* p) { return *p == nullptr; }
bool drv_cp_0eq(drv_in::CP* p) { return nullptr == *p; }
bool drv_cp_ne0(drv_in::CP* p) { return *p != nullptr; }
bool drv_cp_0ne(drv_in::CP* p) { return nullptr != *p; }
}
