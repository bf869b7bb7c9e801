#include <memory>
#include "vp.h"
#include <macoro/sequence_barrier.h>
#include <macoro/sequence_traits.h>
using namespace macoro;
template<class S> struct V {
    using B = sequence_barrier<S>; using O = sequence_barrier_wait_operation_base<S, sequence_traits<S>>;
    template<class H> static int await(B* b, O* o, S t, H h, S* out) {
        new (o) O(b->wait_until_published(t));
        if (o->await_ready()) { *out = o->await_resume(); return 0; }
        if (o->await_suspend(h)) return 2;
        *out = o->await_resume(); return 1;
    }
};
#define INST(S, N) \
VP_CONST(SZ_b_##N, sizeof(V<S>::B)) VP_CONST(SZ_o_##N, sizeof(V<S>::O)) \
extern "C" { void f_ctor_##N(V<S>::B* b, S s) { new (b) V<S>::B(s); } void f_dtor_##N(V<S>::B* b) { b->~sequence_barrier(); } \
void f_publish_##N(V<S>::B* b, S s) { b->publish(s); } S f_last_##N(V<S>::B* b) { return b->last_published(); } \
int f_await_m_##N(V<S>::B* b, V<S>::O* o, S t, coroutine_handle<> h, S* out) { return V<S>::await(b, o, t, h, out); } \
int f_await_s_##N(V<S>::B* b, V<S>::O* o, S t, std::coroutine_handle<> h, S* out) { return V<S>::await(b, o, t, h, out); } \
void f_copy_##N(V<S>::O* o, V<S>::O* p) { new (o) V<S>::O(*p); } bool f_ready_##N(V<S>::O* o) { return o->await_ready(); } S f_resume_##N(V<S>::O* o) { return o->await_resume(); } }
INST(std::size_t, u64)
INST(unsigned char, u8)
