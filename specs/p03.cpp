#include <memory>
#include "vp.h"
#include "p03.h"
namespace { using PR = detail::task_promise<int, false>; using AW = eager_task<int>::ref_awaitable; using FA = decltype(std::declval<PR&>().final_suspend()); struct pv { int x; }; }
VP_CONST(SZ_frame, sizeof(FrameBase<PR>)) VP_CONST(SZ_pr, sizeof(PR)) VP_CONST(SZ_aw, sizeof(AW))
extern "C" {
void* f_handle(PR* p, bool std_) { return coroutine_handle<PR>::from_promise(*p, std_ ? coroutine_handle_type::std : coroutine_handle_type::macoro).address(); }
void f_ctor(PR* p) { new (p) PR(); }
void f_final_m(void* h) { FA f{}; f.await_suspend(coroutine_handle<PR>::from_address(h)).resume(); }
void f_final_s(void* h) { FA f{}; f.await_suspend(std::coroutine_handle<PR>::from_address(h)).resume(); }
bool f_final_ready(void* h) { FA f{}; return f.await_ready(); }
bool f_ready(AW* a) { return a->await_ready(); }
void f_susp_m(AW* a, void* w) { a->await_suspend(coroutine_handle<pv>::from_address(w)).resume(); }
void f_susp_s(AW* a, void* w) { a->await_suspend(std::coroutine_handle<pv>::from_address(w)).resume(); }
bool f_is_ready(eager_task<int>* t) { return t->is_ready(); }
}
