#include <coroutine>
#include <macoro/task.h>
#include <macoro/start_on.h>
#include <macoro/transfer_to.h>
#include <macoro/macros.h>
#include <macoro/thread_pool.h>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p23 {
// a scheduler: resumes at once (without suspending, by declining, inside await_suspend), later, or fails in one of its steps
enum { READY, DECLINES, INSIDE, LATER, FAIL_SCHEDULE, FAIL_READY, FAIL_SUSPEND, FAIL_LATER, MODES };
struct Env { int mode = 0; int schedules = 0, suspends = 0, resumed = 0, ran = 0, bodies = 0; bool on = false; coroutine_handle<> h; d::Gate gate; int v = 0;
    bool pending() const { return (bool)h; } void later() { D_CHECK(pending(), "not suspended in the scheduler"); auto x = std::exchange(h, nullptr); on = true; x.resume(); on = false; } };
struct Sched { Env& e; 
    struct Aw { Env& e; bool await_ready() { if (e.mode == FAIL_READY) throw d::Boom{ 71 }; if (e.mode == READY) e.on = true; return e.mode == READY; }
        template<class H> bool await_suspend(H h) { ++e.suspends; if (e.mode == FAIL_SUSPEND) throw d::Boom{ 72 }; if (e.mode == DECLINES) { e.on = true; return false; } Env& x = e; e.h = coroutine_handle<>(h); if (x.mode == INSIDE) x.later(); return true; }
        void await_resume() { ++e.resumed; if (e.mode == FAIL_LATER) throw d::Boom{ 73 }; } };
    Aw schedule() { ++e.schedules; if (e.mode == FAIL_SCHEDULE) throw d::Boom{ 70 }; return Aw{ e }; } };
inline bool fails(int m) { return m >= FAIL_SCHEDULE; } inline bool waits(int m) { return m == LATER || m == FAIL_LATER; }
inline int code(int m) { return 70 + m - FAIL_SCHEDULE; }
// what is started: its outcome is a value of any kind or an exception, now or after a suspension of its own
template<class R> R give(Env& e) { if constexpr (std::is_void_v<R>) return; else if constexpr (std::is_reference_v<R>) return static_cast<R>(e.v); else return R(e.v); }
template<class R> task<R> work(Env& e, bool boom, bool wait, d::Live) { ++e.bodies; D_CHECK(e.on, "the body runs before the scheduler has resumed it"); D_CHECK(e.resumed == 1 && e.schedules == 1, "the body runs before it was scheduled once"); if (wait) co_await d::pass(e.gate); ++e.ran; if (boom) throw d::Boom{ e.v }; co_return give<R>(e); }
// an awaiter as the awaitable
template<class R> struct Direct { Env& e; bool boom, wait; d::Live l; Direct(Env& e, bool b, bool w, d::Live l) : e(e), boom(b), wait(w), l(std::move(l)) {} Direct(Direct&&) = default; bool await_ready() { ++e.bodies; D_CHECK(e.on, "the body runs before the scheduler has resumed it"); return !wait; } template<class H> void await_suspend(H h) { e.gate.h = coroutine_handle<>(h); } R await_resume() { ++e.ran; if (boom) throw d::Boom{ e.v }; return give<R>(e); } };
template<class R> d::Co consume(Env& e, eager_task<R>& t, bool move, bool boom, int& done, int mode) {
    bool caught = false; try {
        if constexpr (std::is_void_v<R>) { if (move) co_await std::move(t); else co_await t; }
        else if constexpr (std::is_reference_v<R>) { int* p; if (move) { auto& r = co_await std::move(t); p = &r; } else { auto& r = co_await t; p = &r; } D_CHECK(p == &e.v, "another object is delivered"); }
        else if constexpr (std::is_same_v<R, d::Val>) { int c = d::Val::copies; int x; if (move) { d::Val r = co_await std::move(t); x = r.get(); } else { auto& r = co_await t; x = r.get(); } D_CHECK(x == e.v, "another value is delivered"); D_CHECK(d::Val::copies == c, "the value is copied"); }
        else { int x; if (move) x = co_await std::move(t); else x = co_await t; D_CHECK(x == e.v, "another value is delivered"); }
    } catch (d::Boom& b) { caught = true; D_CHECK(b.code == (fails(mode) ? code(mode) : e.v), "another exception is delivered"); }
    D_CHECK(caught == (boom || fails(mode)), caught ? "an exception is delivered although there was none" : "an exception is not delivered"); ++done;
}
template<class R> void started() {
    Env e; int live = 0, done = 0, form = d_choose(5), mode = d_choose(MODES), when = d_choose(3); bool boom = d_choose(2), wait = d_choose(2), move = d_choose(2); e.mode = mode; e.v = d_int(); int vals = d::Val::live; {
        Sched s{ e }; eager_task<R> t = form == 0 ? start_on(s, work<R>(e, boom, wait, d::Live(live))) : form == 1 ? work<R>(e, boom, wait, d::Live(live)) | start_on(s) : form == 2 ? work<R>(e, boom, wait, d::Live(live)) | start_on(Sched{ e }) : form == 3 ? start_on(s, Direct<R>(e, boom, wait, d::Live(live))) : Direct<R>(e, boom, wait, d::Live(live)) | start_on(s);
        e.on = false; D_CHECK(e.schedules == 1, "not scheduled once"); D_CHECK(e.bodies == (!waits(mode) && !fails(mode)), "started at another time"); D_CHECK(e.pending() == waits(mode), "not suspended in the scheduler");
        auto go = [&] { if (e.pending()) e.later(); if (e.gate.waiting()) { D_CHECK(e.ran == 0, "finished without its awaitable"); e.gate.open(); } };
        if (when == 0) go(); if (when < 2) { D_CHECK(t.is_ready() == (when == 0 || (!waits(mode) && (!wait || fails(mode)))), "is_ready"); auto c = consume<R>(e, t, move, boom, done, mode); c.start(); D_CHECK(done == (when == 0 || (!waits(mode) && (!wait || fails(mode)))), "the awaiter is resumed at another time"); if (when == 1) go(); D_CHECK(done == 1, "the awaiter is not resumed once"); D_COVER("awaited"); }
        else if (d_choose(2)) { go(); D_COVER("dropped"); } else { D_COVER("never resumed"); }
        if (when < 2) D_CHECK(e.ran == !fails(mode) && e.bodies == !fails(mode), fails(mode) ? "the body runs although the scheduler failed" : "the body does not run once"); D_CHECK(e.schedules == 1 && e.suspends == (mode != READY && mode != FAIL_SCHEDULE && mode != FAIL_READY), "scheduled again");
        if (when == 2 && e.pending()) D_CHECK(e.bodies == 0, "the body runs although the scheduler did not resume it");
    }
    D_CHECK(live == 0 && d::Val::live == vals, "the awaitable or its result is not destroyed exactly once");
}
// transfer_to: the code before it runs at once, the code after it where the scheduler resumes
inline task<void> transfers(Env& e, Sched s, int n, int& pos, d::Live) { for (int i = 0; i < n; i++) { ++pos; co_await transfer_to(s); D_CHECK(e.on, "the code after the transfer does not run where the scheduler resumed it"); } ++pos; }
inline task<void> transfersm(Env& e, Sched s, int n, int& pos, d::Live l) { MC_BEGIN(task<void>, &e, s, n, &pos, l = std::move(l), i = int(0)); for (i = 0; i < n; i++) { ++pos; MC_AWAIT(transfer_to(s)); D_CHECK(e.on, "the code after the transfer does not run where the scheduler resumed it"); } ++pos; MC_RETURN_VOID(); MC_END(); }
inline d::Co drive(task<void> t, int& done, int& code) { try { co_await std::move(t); } catch (d::Boom& b) { code = b.code; } ++done; }
inline void transfer() {
    Env e; int pos = 0, live = 0, done = 0, c = 0, n = 1 + d_choose(2), mode = e.mode = d_choose(MODES); Sched s{ e }; auto r = drive(d_choose(2) ? transfersm(e, s, n, pos, d::Live(live)) : transfers(e, s, n, pos, d::Live(live)), done, c); r.start();
    if (fails(mode) && !waits(mode)) { D_CHECK(done == 1 && c == code(mode) && pos == 1, "the failure of the scheduler is not reported to the awaiter"); D_COVER("fails"); }
    else if (!waits(mode)) { D_CHECK(done == 1 && c == 0 && pos == n + 1 && e.schedules == n && e.resumed == n, "not run once"); D_COVER("at once"); }
    else for (int i = 1; ; i++) { D_CHECK(pos == i && done == 0 && e.suspends == i && e.resumed == i - 1, "the transfer does not suspend once"); e.later(); if (mode == FAIL_LATER) { D_CHECK(done == 1 && c == code(mode) && pos == 1, "the failure of the scheduler is not reported to the awaiter"); break; } if (i == n) { D_CHECK(done == 1 && c == 0 && pos == n + 1, "not run once"); break; } D_COVER("later"); }
    D_CHECK(live == 0, "destroyed");
}
inline void transfer_never() { Env e; int pos = 0, live = 0; e.mode = LATER; { Sched s{ e }; auto t = d_choose(2) ? transfersm(e, s, 1, pos, d::Live(live)) : transfers(e, s, 1, pos, d::Live(live)); auto h = t.handle(); h.resume(); D_CHECK(pos == 1 && e.pending(), "suspended"); } D_CHECK(pos == 1 && live == 0 && e.resumed == 0, "the code after the transfer runs although the scheduler never resumed it"); D_COVER("never"); }
// the thread pool as the scheduler
struct PoolEnv { thread_pool p; bool running = false; int ran = 0, v = 0; void run() { running = true; p.run(); running = false; } };
template<class R> task<R> pwork(PoolEnv& e, bool boom) { D_CHECK(e.running, "the body runs outside of the pool"); ++e.ran; if (boom) throw d::Boom{ 5 }; if constexpr (std::is_void_v<R>) co_return; else co_return static_cast<R>(e.v); }
inline d::Co puse(PoolEnv& e, int kind, bool boom, int& done) { bool caught = false; try {
    if (kind == 0) { auto t = start_on(e.p, pwork<void>(e, boom)); D_CHECK(e.ran == 0, "the body runs outside of the pool"); co_await t; } else if (kind == 1) { int& r = co_await (pwork<int&>(e, boom) | start_on(e.p)); D_CHECK(&r == &e.v, "another object is delivered"); } else { co_await transfer_to(e.p); D_CHECK(e.running, "runs outside of the pool"); int k = co_await (pwork<int>(e, boom) | start_on(e.p)); D_CHECK(k == e.v, "another value is delivered"); } } catch (d::Boom& b) { caught = true; } D_CHECK(caught == boom, "exception"); D_CHECK(e.running, "runs outside of the pool"); ++done; }
inline void pool() { PoolEnv e; int done = 0, kind = d_choose(3); bool boom = d_choose(2); e.v = d_int(); auto c = puse(e, kind, boom, done); c.start(); D_CHECK(e.ran == 0 && done == 0, "the body runs outside of the pool"); e.run(); D_CHECK(e.ran == 1 && done == 1, "not run once"); D_COVER("pool"); }
// transferring from the worker of one pool to another pool, and starting there
inline task<int> there(PoolEnv& e) { D_CHECK(e.running, "runs outside of the pool"); ++e.ran; co_return e.v; }
inline d::Co hop(PoolEnv& a, PoolEnv& b, int kind, int& pos) {
    co_await transfer_to(a.p); D_CHECK(a.running && !b.running, "runs outside of the pool"); ++pos; if (kind == 2) co_await transfer_to(a.p); D_CHECK(a.running && !b.running, "runs outside of the pool");
    if (kind == 0) { co_await transfer_to(b.p); D_CHECK(b.running && !a.running, "the code after the transfer does not run where the scheduler resumed it"); }
    else { int k = co_await start_on(b.p, there(b)); D_CHECK(k == b.v && b.ran == 1, "another value is delivered"); } ++pos;
    co_await transfer_to(a.p); D_CHECK(a.running && !b.running, "the code after the transfer does not run where the scheduler resumed it"); ++pos; }
inline void pools() { PoolEnv a, b; int pos = 0; b.v = d_int(); auto c = hop(a, b, d_choose(3), pos); c.start(); D_CHECK(pos == 0, "runs outside of the pool"); b.run(); D_CHECK(pos == 0, "runs outside of the pool"); a.run(); D_CHECK(pos == 1, "the transfer does not suspend"); a.run(); D_CHECK(pos == 1, "resumed twice"); b.run(); D_CHECK(pos == 2, "the transfer does not suspend"); b.run(); a.run(); D_CHECK(pos == 3, "not resumed once"); D_COVER("pools"); }
}
D_CLIENT(P23, pools) { p23::pools(); }
D_CLIENT(P23, started_void) { p23::started<void>(); }
D_CLIENT(P23, started_int) { p23::started<int>(); }
D_CLIENT(P23, started_ref) { p23::started<int&>(); }
D_CLIENT(P23, started_val) { p23::started<d::Val>(); }
D_CLIENT(P23, transfer) { p23::transfer(); }
D_CLIENT(P23, transfer_never) { p23::transfer_never(); }
D_CLIENT(P23, pool) { p23::pool(); }
