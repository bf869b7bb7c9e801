#include <memory>
#include "vp.h"
#include <coroutine>
#include <macoro/task.h>
#include <macoro/coroutine_handle.h>
using namespace macoro;
namespace { struct pv { long x; }; }
VP_CONST(SZ_frame, sizeof(FrameBase<void>))
// the body of a coroutine: only its contract is known
extern "C" void* vp_step(FrameBase<void>*);
static coroutine_handle<void> step(FrameBase<void>* f) { return coroutine_handle<void>::from_address(vp_step(f)); }
static void* tag(FrameBase<void>* a) { return (void*)((std::size_t)a ^ 1); }
extern "C" {
void f_erased(FrameBase<void>* a, FrameBase<void>* b) { a->resume = b->resume = step; coroutine_handle<>::from_address(tag(a)).resume(); }
void f_typed(FrameBase<void>* a, FrameBase<void>* b) { a->resume = b->resume = step; coroutine_handle<pv>::from_address(tag(a)).resume(); }
void f_call(FrameBase<void>* a, FrameBase<void>* b) { a->resume = b->resume = step; auto h = coroutine_handle<>::from_address(tag(a)); h(); }
void f_callt(FrameBase<void>* a, FrameBase<void>* b) { a->resume = b->resume = step; auto h = coroutine_handle<pv>::from_address(tag(a)); h(); }
}
