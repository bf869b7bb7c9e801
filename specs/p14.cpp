#include <memory>
#include "vp.h"
#include "p14.h"
namespace { using P = detail::blocking_promise<d::GateAwaiter<d::Val>&>; using FA = P::final_awaiter; }
VP_CONST(SZ_p, sizeof(P)) 
extern "C" {
void f_ctor(P* p, d::GateAwaiter<d::Val>& a, std::source_location& l) { new (p) P(a, l); }
void f_set(P* p) { p->set(); }
void f_wait(P* p) { p->wait(); }
void f_final(void* h) { FA f; f.await_suspend(std::coroutine_handle<P>::from_address(h)); }
bool f_final_ready() { FA f; return f.await_ready(); }
void f_get(void* h) { blocking_task<d::GateAwaiter<d::Val>&> t(coroutine_handle<P>::from_address(h)); t.get(); }
}
