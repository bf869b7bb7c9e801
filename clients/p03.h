#include <macoro/task.h>
#include <macoro/macros.h>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p03 {
struct Log { int started = 0, finished = 0, locals = 0; };
eager_task<d::Val> bv(d::Gate& g, Log& l, int v, bool boom) { ++l.started; d::Live x(l.locals); co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; co_return d::Val(v); }
eager_task<int&> br(d::Gate& g, Log& l, int& v, bool boom) { ++l.started; d::Live x(l.locals); co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; co_return v; }
eager_task<> bu(d::Gate& g, Log& l, int v, bool boom) { ++l.started; d::Live x(l.locals); co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; }
eager_task<d::Val> mv(d::Gate& g, Log& l, int v, bool boom) { MC_BEGIN(eager_task<d::Val>, &g, &l, v, boom, x = d::Live(l.locals)); ++l.started; MC_AWAIT(d::pass(g)); ++l.finished; if (boom) throw d::Boom{ v }; MC_RETURN(d::Val(v)); MC_END(); }
eager_task<> mu(d::Gate& g, Log& l, int v, bool boom) { MC_BEGIN(eager_task<>, &g, &l, v, boom, x = d::Live(l.locals)); ++l.started; MC_AWAIT(d::pass(g)); ++l.finished; if (boom) throw d::Boom{ v }; MC_END(); }
struct Out { int resumed = 0; int val = 0; int ex = 0; bool broken = false; const void* ref = nullptr; bool early = false; };
template<class T> d::Co awaitv(eager_task<T>& t, Out& o, Log& l, bool rv) {
    try {
        if constexpr (std::is_void_v<T>) { if (rv) co_await std::move(t); else co_await t; o.val = 1; }
        else if constexpr (std::is_reference_v<T>) { auto& r = co_await t; o.ref = &r; o.val = r; }
        else if (rv) { T r = co_await std::move(t); o.val = r.get(); }
        else { auto& r = co_await t; o.ref = &r; o.val = r.get(); }
    } catch (d::Boom& b) { o.ex = 1; o.val = b.code; } catch (broken_promise&) { o.broken = true; }
    if (!o.broken && l.finished != 1) o.early = true;
    ++o.resumed;
}
template<class T> task<void> awaitm(eager_task<T>& t, Out& o, Log& l) { MC_BEGIN(task<void>, &t, &o, &l); MC_AWAIT(t.when_ready()); ++o.resumed; if (l.finished != 1) o.early = true; MC_END(); }
inline d::Co root(task<void>& t) { co_await t; }
// the body finishes before the task is awaited, or while it is awaited
template<class T, class MK> void one(MK mk, bool isvoid, int* refd, bool macro = false) {
    Log l; d::Gate g; Out o; int v = d_int(); bool boom = d_choose(2); g.ready = d_choose(2); bool rv = d_choose(2); if (refd) *refd = v;
    {
        eager_task<T> t0 = mk(g, l, v, boom); D_CHECK(l.started == 1, "an eager task does not start when called"); D_CHECK(t0.is_ready() == g.ready && l.finished == (int)g.ready, "is_ready disagrees with the body");
        eager_task<T> t = std::move(t0); D_CHECK(!t0.handle() && !t0.is_ready() && t.is_ready() == g.ready, "move does not transfer the coroutine");
        int how = d_choose(5);
        if (how == 4) { Out e; Log el; awaitv<T>(t0, e, el, rv).start(); D_CHECK(e.broken && e.resumed == 1, "awaiting an empty task does not report the broken promise"); }
        if (how == 0) { D_COVER("dropped"); }       // dropped, finished or suspended in its body
        else if (how == 1) {                        // finished first
            if (!g.ready) g.open(); D_CHECK(t.is_ready() && l.finished == 1, "a finished task does not answer ready");
            awaitv<T>(t, o, l, rv).start(); D_CHECK(o.resumed == 1, "awaiting a finished task does not continue at once"); D_COVER("finished-first");
        } else {                                    // awaited first
            awaitv<T>(t, o, l, rv).start(); if (!g.ready) { D_CHECK(o.resumed == 0 && !t.is_ready(), "the awaiter is resumed before the body finished"); g.open(); } D_CHECK(o.resumed == 1 && t.is_ready(), "the awaiter is not resumed exactly once after the body finished"); D_COVER("awaited-first");
            if (how == 3 && !rv && !isvoid) { Out o2; awaitv<T>(t, o2, l, false).start(); D_CHECK(o2.resumed == 1 && o2.val == v && o2.ref == o.ref && o2.ex == (int)boom, "awaiting a finished task again does not give its result"); }
        }
        if (how) {
            D_CHECK(o.resumed == 1 && !o.early && !o.broken && l.started == 1 && l.finished == 1, "the body does not run exactly once before its awaiter continues");
            if (boom) { D_CHECK(o.ex == 1 && o.val == v, "the awaiter does not get the exception thrown by the body"); D_COVER("threw"); }
            else { D_CHECK(o.ex == 0 && o.val == (isvoid ? 1 : v), "the awaiter does not get the value returned by the body"); if (refd) D_CHECK(o.ref == refd, "the awaiter does not get the reference returned by the body"); D_COVER("value"); }
            D_CHECK(macro || l.locals == 0, "locals of a finished body are not destroyed");
        }
    }
    D_CHECK(l.locals == 0, "locals or parameters of the coroutine outlive the task"); D_CHECK(d::Val::live == 0, "the stored result is not released exactly once with the task");
}
inline void ready() {
    Log l; d::Gate g; Out o, o2; int v = d_int(); bool boom = d_choose(2); g.ready = d_choose(2); bool m = d_choose(2);
    { eager_task<d::Val> t = m ? mv(g, l, v, boom) : bv(g, l, v, boom); { task<void> w = awaitm(t, o, l); root(w).start(); D_CHECK(o.resumed == (int)g.ready, "when_ready does not complete with the task"); if (!g.ready) g.open(); D_CHECK(o.resumed == 1 && !o.early, "when_ready does not complete exactly once"); }
      awaitv<d::Val>(t, o2, l, false).start(); D_CHECK(o2.resumed == 1 && o2.val == v && o2.ex == (int)boom, "the result is lost after when_ready"); D_COVER("ready"); }
    D_CHECK(l.locals == 0 && d::Val::live == 0, "something of a task outlives it");
}
// make_eager / | make_eager(): the wrapped awaitable is started at once and its outcome delivered
inline void made() {
    d::Gate g; Out o; Log l; l.finished = 1; int v = d_int(); g.code = v; g.boom = d_choose(2); g.ready = d_choose(2); bool pipe = d_choose(2);
    { eager_task<d::Val> t = pipe ? (d::passv(g) | make_eager()) : make_eager(d::passv(g)); D_CHECK(g.readies == 1 && g.waits == !g.ready, "make_eager does not start the awaitable at once"); bool first = !g.ready && d_choose(2); if (first) g.open();
      awaitv<d::Val>(t, o, l, true).start(); if (!g.ready && !first) { D_CHECK(o.resumed == 0, "resumed early"); g.open(); } D_CHECK(o.resumed == 1 && o.val == v && o.ex == (int)g.boom && g.resumes == 1, "make_eager changes the outcome"); D_COVER("made"); }
    D_CHECK(d::Val::live == 0, "the stored result is not released exactly once with the task");
}
inline void assign() {
    Log l1, l2; d::Gate g1, g2; Out o2; int v = d_int(); g1.ready = d_choose(2);
    { eager_task<d::Val> a = bv(g1, l1, v, false), b = bv(g2, l2, v, false); int how = d_choose(3);
      if (how == 0) { auto h = a.handle(); a = std::move(a); D_CHECK(a.handle() == h && (bool)h, "self-move loses the coroutine"); }
      else if (how == 1) { a = std::move(b); D_CHECK(!b.handle() && l1.locals == 0 && d::Val::live == 0, "move assignment does not release the replaced task"); g2.open(); awaitv<d::Val>(a, o2, l2, true).start(); D_CHECK(o2.resumed == 1 && o2.val == v, "wrong result after assignment"); }
      else { a = eager_task<d::Val>(); D_CHECK(!a.handle() && l1.locals == 0 && d::Val::live == 0, "assigning an empty task keeps the coroutine"); } D_COVER("assigned"); }
    D_CHECK(l1.locals == 0 && l2.locals == 0 && d::Val::live == 0, "something of a task outlives it");
}
}
D_CLIENT(P03, eager_val) { p03::one<d::Val>(p03::bv, false, nullptr); }
D_CLIENT(P03, eager_ref) { int x; p03::one<int&>([&](d::Gate& g, p03::Log& l, int, bool b) { return p03::br(g, l, x, b); }, false, &x); }
D_CLIENT(P03, eager_void) { p03::one<void>(p03::bu, true, nullptr); }
D_CLIENT(P03, meager_val) { p03::one<d::Val>(p03::mv, false, nullptr, true); }
D_CLIENT(P03, meager_void) { p03::one<void>(p03::mu, true, nullptr, true); }
D_CLIENT(P03, eager_ready) { p03::ready(); }
D_CLIENT(P03, eager_made) { p03::made(); }
D_CLIENT(P03, eager_assign) { p03::assign(); }
