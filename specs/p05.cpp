#include <macoro/manual_reset_event.h>
#include "vp.h"
using namespace macoro;
using ev = async_manual_reset_event; using op = async_manual_reset_event_operation;
VP_CONST(SZ_ev, sizeof(ev)) VP_CONST(SZ_op, sizeof(op))
extern "C" {

void f_ctor(ev* e, bool b) { new (e) ev(b); }
void f_dtor(ev* e) { e->~ev(); }
void f_set(ev* e) { e->set(); }
void f_reset(ev* e) { e->reset(); }
bool f_is_set(ev* e) { return e->is_set(); }
void f_await(ev* e, op* o) { new (o) op(e->operator co_await()); }
bool f_ready(op* o) { return o->await_ready(); }
bool f_susp_m(op* o, coroutine_handle<> h) { return o->await_suspend(h); }
bool f_susp_s(op* o, std::coroutine_handle<> h) { return o->await_suspend(h); }
void f_resume(op* o) { o->await_resume(); }
}
