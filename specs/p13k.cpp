#include <memory>
#include "vp.h"
#include <macoro/task.h>
#include <macoro/thread_pool.h>
#include <macoro/thread_pool.cpp>
using namespace macoro;
namespace { using S = detail::thread_pool_state; }
VP_CONST(SZ_state, sizeof(S)) VP_CONST(SZ_deque, sizeof(std::deque<coroutine_handle<void>>)) VP_CONST(SZ_op, sizeof(detail::thread_pool_delay_op))
extern "C" {
void f_run(thread_pool* p) { p->run(); }
void f_after(S* s, void* h, int64_t dl, stop_token* t, optional_stop_callback* reg) { s->post_after(coroutine_handle<>::from_address(h), detail::thread_pool_time_point(std::chrono::nanoseconds(dl)), std::move(*t), *reg); }
void f_cancel(S* s, size_t i) { s->cancel_delay_op(i); }
}
