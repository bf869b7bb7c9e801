#include <macoro/task.h>
#include <macoro/sync_wait.h>
#include <macoro/macros.h>
#include <macoro/result.h>
#include <macoro/wrap.h>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p14 {
struct Log { int started = 0, finished = 0, locals = 0; };
inline task<d::Val> tv(d::Gate& g, Log& l, int v, bool boom) { ++l.started; d::Live x(l.locals); co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; co_return d::Val(v); }
inline task<int&> tr(d::Gate& g, Log& l, int& v, bool boom) { ++l.started; d::Live x(l.locals); co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; co_return v; }
inline task<void> tu(d::Gate& g, Log& l, int v, bool boom) { ++l.started; d::Live x(l.locals); co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; }
inline task<d::Val> mv(d::Gate& g, Log& l, int v, bool boom) { MC_BEGIN(task<d::Val>, &g, &l, v, boom, x = d::Live(l.locals)); ++l.started; MC_AWAIT(d::pass(g)); ++l.finished; if (boom) throw d::Boom{ v }; MC_RETURN(d::Val(v)); MC_END(); }
struct Got { int val = 0; bool ex = false; const void* ref = nullptr; };
template<class F> Got catching(F f) { Got o; try { f(o); } catch (d::Boom& b) { o.ex = true; o.val = b.code; } return o; }
inline void chk(const Got& g, bool boom, int v) { D_CHECK(g.ex == boom, "the exception of the awaitable is lost or invented"); D_CHECK(g.val == v, "the outcome of the awaitable is not what the caller gets"); }
// complete on the spot: rvalue task, lvalue task, pipe form
inline void now() {
    Log l; d::Gate g; g.ready = true; int v = d_int(); bool boom = d_choose(2); int how = d_choose(7); int x = v; Got o;
    if (how == 0) o = catching([&](Got& o) { o.val = sync_wait(tv(g, l, v, boom)).get(); });
    else if (how == 1) { auto t = tv(g, l, v, boom); o = catching([&](Got& o) { auto& r = sync_wait(t); o.val = r.get(); D_CHECK(d::Val::live == 1, "awaiting an lvalue copies its result"); }); D_CHECK(t.is_ready(), "an lvalue task is consumed"); chk(catching([&](Got& o) { o.val = sync_wait(t).get(); }), boom, v); }
    else if (how == 2) { o = catching([&](Got& o) { auto& r = sync_wait(tr(g, l, x, boom)); o.ref = &r; o.val = r; }); if (!boom) D_CHECK(o.ref == &x, "the reference is not the one returned"); }
    else if (how == 3) o = catching([&](Got& o) { sync_wait(tu(g, l, v, boom)); o.val = v; });
    else if (how == 4) o = catching([&](Got& o) { o.val = (tv(g, l, v, boom) | sync_wait()).get(); });
    else if (how == 5) o = catching([&](Got& o) { o.val = sync_wait(mv(g, l, v, boom)).get(); });
    else { auto t = tv(g, l, v, boom); o = catching([&](Got& o) { o.val = sync_wait(std::move(t)).get(); }); }
    chk(o, boom, v); D_CHECK(l.started == 1 && l.finished == 1, "the body does not run exactly once"); if (boom) D_COVER("threw"); else D_COVER("value");
    D_CHECK(l.locals == 0, "locals outlive the body"); D_CHECK(d::Val::live == 0, "the result is not released exactly once");
}
// raw awaitables: value, reference, void; exceptions at ready / suspend / resume
struct Odd { int where; int code; int calls = 0; bool await_ready() { ++calls; if (where == 0) throw d::Boom{ code }; return where == 2; } bool await_suspend(std::coroutine_handle<>) { ++calls; if (where == 1) throw d::Boom{ code }; return false; } int await_resume() { ++calls; if (where >= 2) { if (where == 2) throw d::Boom{ code }; } return code; } };
inline void raw() {
    int v = d_int(); int how = d_choose(3);
    if (how == 0) { d::Gate g; g.ready = true; g.code = v; g.boom = d_choose(2); chk(catching([&](Got& o) { o.val = sync_wait(d::passv(g)).get(); }), g.boom, v); D_CHECK(g.resumes == 1 && g.readies == 1 && g.waits == 0, "the awaitable is not asked exactly once"); D_COVER("awaitable"); }
    else if (how == 1) { d::Gate g; g.ready = true; g.code = v; g.boom = d_choose(2); chk(catching([&](Got& o) { auto& r = sync_wait(d::passr(g)); o.ref = &r; o.val = r; D_CHECK(&r == &g.code, "the reference is not the one returned"); }), g.boom, v); }
    else { Odd a{ d_choose(4), v }; chk(catching([&](Got& o) { o.val = sync_wait(a); }), a.where < 3, v); D_COVER("odd"); }
    D_CHECK(d::Val::live == 0, "the result is not released exactly once");
}
// make_blocking starts at once and keeps the outcome until collected; moves carry it along
template<class MK> void later_with(MK mk) {
    Log l; d::Gate g; g.ready = d_choose(2); int v = d_int(); bool boom = d_choose(2); int how = d_choose(4);
    {
        auto b = mk(g, l, v, boom); D_CHECK(l.started == 1 && l.finished == (int)g.ready, "a blocking task does not start at once");
        if (!g.ready && how != 3) g.open();
        auto b2 = std::move(b); D_CHECK(!b.m_handle, "a moved-from blocking task keeps the coroutine");
        if (how == 1) { b2 = std::move(b2); }
        if (how == 2) { d::Gate g3; g3.ready = true; Log l3; auto b3 = mk(g3, l3, v, false); b3 = std::move(b2); D_CHECK(l3.locals == 0 && !b2.m_handle, "assignment does not release the replaced task"); b2 = std::move(b3); D_COVER("assigned"); }
        if (how == 3) { if (!g.ready) g.open(); D_COVER("dropped"); }          // never collected
        else { chk(catching([&](Got& o) { o.val = b2.get().get(); }), boom, v); D_COVER("collected"); if (how == 1) D_COVER("self"); }
        D_CHECK(l.finished == 1, "the body does not run exactly once");
    }
    D_CHECK(l.locals == 0 && d::Val::live == 0, "something of a blocking task outlives it");
}
inline void later() { if (d_choose(2)) later_with([](d::Gate& g, Log& l, int v, bool b) { return tv(g, l, v, b) | make_blocking(); }); else later_with([](d::Gate& g, Log& l, int v, bool b) { return make_blocking(tv(g, l, v, b)); }); }
inline result<d::Val> rc(bool boom, int v) { if (boom) throw d::Boom{ v }; return Ok(d::Val(v)); }
// through wrap: exceptions become results
inline void wrapped() { Log l; d::Gate g; g.ready = true; int v = d_int(); bool boom = d_choose(2); { auto r = sync_wait(wrap(tv(g, l, v, boom))); D_CHECK(r.has_error() == boom, "wrong kind of outcome"); Got o = catching([&](Got& o) { o.val = r.value().get(); }); chk(o, boom, v); D_COVER("wrapped"); } D_CHECK(d::Val::live == 0 && l.locals == 0, "something outlives the call"); }
}
D_CLIENT(P14, wait_now) { p14::now(); }
D_CLIENT(P14, wait_raw) { p14::raw(); }
D_CLIENT(P14, wait_later) { p14::later(); }
D_CLIENT(P14, wait_wrapped) { p14::wrapped(); }
