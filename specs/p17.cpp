#include <macoro/barrier.h>
#include "vp.h"
using namespace macoro;
namespace macoro::detail { struct pv { int x; }; }
using B = barrier; using A = barrier_awaiter; using P = macoro::detail::pv;
VP_CONST(SZ_b, sizeof(B)) VP_CONST(SZ_a, sizeof(A))
extern "C" {
void f_ctor(B* b, size_t n) { new (b) B(n); }
void f_await(B* b, A* a) { new (a) A(b->operator co_await()); }
bool f_ready(A* a) { return a->await_ready(); }
void f_resume(A* a) { a->await_resume(); }
size_t f_inc(B* b) { return b->increment(); }
size_t f_add(B* b, size_t n) { return b->add(n); }
size_t f_count(B* b) { return b->count(); }
size_t f_dec(B* b) { return b->decrement(); }
void* f_susp_m(A* a, void* h) { return a->await_suspend(coroutine_handle<P>::from_address(h)).address(); }
void* f_susp_s(A* a, void* h) { return a->await_suspend(std::coroutine_handle<P>::from_address(h)).address(); }
}
