#include <memory>
#include "vp.h"
#include "p08.h"
using QU = sequence_mpsc<std::size_t>; using QB = sequence_mpsc<unsigned char>;
VP_CONST(SZ_q_u64, sizeof(QU)) VP_CONST(SZ_q_u8, sizeof(QB)) VP_CONST(SZ_cb_u64, sizeof(sequence_barrier<std::size_t>)) VP_CONST(SZ_cb_u8, sizeof(sequence_barrier<unsigned char>))
#define BASIC(N, S) extern "C" { void f_cb_##N(sequence_barrier<S>* b, S s) { new (b) sequence_barrier<S>(s); } void f_new_##N(sequence_mpsc<S>* q, sequence_barrier<S>* b, S s) { new (q) sequence_mpsc<S>(*b, 4, s); } void f_cbpub_##N(sequence_barrier<S>* b, S s) { b->publish(s); } \
bool f_one_##N(sequence_mpsc<S>* q, S* front, S* count) { auto a = q->claim_one().MACORO_OPERATOR_COAWAIT(); bool r = a.await_ready(); *front = a.await_resume(); *count = 1; return r; } \
void f_publish_##N(sequence_mpsc<S>* q, S s) { q->publish(s); } void f_publishr_##N(sequence_mpsc<S>* q, S b, S e) { q->publish(sequence_range<S>(b, e)); } }
BASIC(u64, std::size_t)
BASIC(u8, unsigned char)
extern "C" bool f_batch_u64(QU* q, std::size_t* front, std::size_t* count, std::size_t n) { auto a = q->claim_up_to(n).MACORO_OPERATOR_COAWAIT(); bool r = a.await_ready(); auto g = a.await_resume(); *front = g.front(); *count = g.size(); return r; }
