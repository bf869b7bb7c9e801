#include <memory>
#include "vp.h"
#include <macoro/task.h>
#include <macoro/thread_pool.h>
#include <macoro/thread_pool.cpp>
using namespace macoro;
namespace { using S = detail::thread_pool_state; struct pv { int x; }; }
VP_CONST(SZ_state, sizeof(S)) VP_CONST(SZ_deque, sizeof(std::deque<coroutine_handle<void>>)) VP_CONST(SZ_op, sizeof(detail::thread_pool_delay_op))
extern "C" {
void f_run(thread_pool* p) { p->run(); }
void f_post(S* s, void* h) { s->post(coroutine_handle<>::from_address(h)); }
bool f_dispatch(S* s, void* h) { return s->try_dispatch(coroutine_handle<>::from_address(h)); }
void f_post_aw(S* s, void* h) { detail::thread_pool_post a{ s }; a.await_suspend(std::coroutine_handle<pv>::from_address(h)); }
void f_post_pool(S* s, void* h) { thread_pool p; auto* old = p.mState.release(); p.mState.reset(s); p.post(coroutine_handle<>::from_address(h)); p.mState.release(); delete old; }
void f_work(thread_pool::work* w, S* s) { new (w) thread_pool::work(s); }
void f_work_reset(thread_pool::work* w) { w->reset(); }
void f_work_dtor(thread_pool::work* w) { w->~work(); }
void f_work_assign(thread_pool::work* w) { *w = thread_pool::work(); }
}
