#include <memory>
#include "vp.h"
#include "p04.h"
namespace { using B = detail::when_all_ready_awaitable_base; using TV = detail::when_all_task<d::Val>; using TU = detail::when_all_task<void>; using VV = detail::when_all_ready_awaitable<std::vector<TV>>; using VU = detail::when_all_ready_awaitable<std::vector<TU>>;
using PV = detail::when_all_task_promise<d::Val>; using PU = detail::when_all_task_promise<void>; struct pv { int x; };
using T0 = detail::when_all_ready_awaitable<std::tuple<TV>>; }
VP_CONST(SZ_aw_v, sizeof(VV)) VP_CONST(SZ_aw_u, sizeof(VU)) VP_CONST(SZ_p_v, sizeof(PV)) VP_CONST(SZ_p_u, sizeof(PU)) VP_CONST(SZ_base, sizeof(T0)) VP_CONST(SZ_law, sizeof(VV::lval_awaiter))
VP_CONST(OFF_tasks_v, offsetof(VV, m_tasks)) VP_CONST(OFF_tasks_u, offsetof(VU, m_tasks))
VP_CONST(FP_v, offsetof(FrameBase<PV>, promise)) VP_CONST(FP_u, offsetof(FrameBase<PU>, promise))
extern "C" {
void f_ctor_v(VV* a, std::vector<TV>* t) { new (a) VV(std::move(*t)); }
void f_mctor_v(VV* a, VV* t) { new (a) VV(std::move(*t)); }
bool f_base_ready(T0* b) { return b->is_ready(); }
bool f_base_try(B* b, void* h) { return b->try_await(coroutine_handle<>::from_address(h)); }
void f_notify(B* b) { b->notify_awaitable_completed(); }
bool f_try_v(VV* a, void* h) { return a->try_await(coroutine_handle<>::from_address(h)); }
bool f_try_u(VU* a, void* h) { return a->try_await(coroutine_handle<>::from_address(h)); }
bool f_lsusp_m(VV* a, void* h) { VV::lval_awaiter w(*a); return w.await_suspend(coroutine_handle<pv>::from_address(h)); }
bool f_lsusp_s(VV* a, void* h) { VV::lval_awaiter w(*a); return w.await_suspend(std::coroutine_handle<pv>::from_address(h)); }
bool f_rsusp_m(VV* a, void* h) { VV::rval_awaiter w(*a); return w.await_suspend(coroutine_handle<pv>::from_address(h)); }
bool f_rsusp_s(VV* a, void* h) { VV::rval_awaiter w(*a); return w.await_suspend(std::coroutine_handle<pv>::from_address(h)); }
void f_final_v(void* h) { auto c = coroutine_handle<PV>::from_address(h); auto f = c.promise().final_suspend(); f.await_suspend(c); }
void f_final_vs(void* h) { auto c = std::coroutine_handle<PV>::from_address(h); auto f = c.promise().final_suspend(); f.await_suspend(c); }
void f_final_u(void* h) { auto c = coroutine_handle<PU>::from_address(h); auto f = c.promise().final_suspend(); f.await_suspend(c); }
void f_final_us(void* h) { auto c = std::coroutine_handle<PU>::from_address(h); auto f = c.promise().final_suspend(); f.await_suspend(c); }
}
