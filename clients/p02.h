#include <macoro/task.h>
#include <macoro/macros.h>
#include <tuple>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p02 {
struct Log { int started = 0, finished = 0, locals = 0, result = 0; };
// body: suspends at the gate (unless it is open), then returns / throws
task<d::Val> bv(d::Gate& g, Log& l, int v, bool boom) { ++l.started; d::Live x(l.locals); co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; co_return d::Val(v); }
task<int&> br(d::Gate& g, Log& l, int& v, bool boom) { ++l.started; d::Live x(l.locals); co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; co_return v; }
task<> bu(d::Gate& g, Log& l, int v, bool boom) { ++l.started; d::Live x(l.locals); co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; }
task<d::Val> mv(d::Gate& g, Log& l, int v, bool boom) { MC_BEGIN(task<d::Val>, &g, &l, v, boom, x = d::Live(l.locals)); ++l.started; MC_AWAIT(d::pass(g)); ++l.finished; if (boom) throw d::Boom{ v }; MC_RETURN(d::Val(v)); MC_END(); }
task<> mu(d::Gate& g, Log& l, int v, bool boom) { MC_BEGIN(task<>, &g, &l, v, boom, x = d::Live(l.locals)); ++l.started; MC_AWAIT(d::pass(g)); ++l.finished; if (boom) throw d::Boom{ v }; MC_END(); }

// storing the result can itself fail
struct Src { int v; bool boom; };
struct Thr : d::Val { Thr(Src s) : d::Val(s.boom ? throw d::Boom{ s.v } : s.v) {} };
task<Thr> bt(d::Gate& g, Log& l, int v, bool boom) { ++l.started; d::Live x(l.locals); co_await d::pass(g); ++l.finished; co_return Src{ v, boom }; }
task<Thr> mt(d::Gate& g, Log& l, int v, bool boom) { MC_BEGIN(task<Thr>, &g, &l, v, boom, x = d::Live(l.locals)); ++l.started; MC_AWAIT(d::pass(g)); ++l.finished; { Src s{ v, boom }; MC_RETURN(s); } MC_END(); }

struct Out { int resumed = 0; int val = 0; int ex = 0; bool broken = false; const void* ref = nullptr; bool early = false; };
template<class T> d::Co awaitv(task<T>& t, Out& o, Log& l, bool rv) {
    try {
        if constexpr (std::is_void_v<T>) { if (rv) co_await std::move(t); else co_await t; o.val = 1; }
        else if constexpr (std::is_reference_v<T>) { auto& r = co_await t; o.ref = &r; o.val = r; }
        else if (rv) { T r = co_await std::move(t); o.val = r.get(); }
        else { auto& r = co_await t; o.ref = &r; o.val = r.get(); }
    } catch (d::Boom& b) { o.ex = 1; o.val = b.code; } catch (broken_promise&) { o.broken = true; }
    if (!o.broken && l.finished != 1) o.early = true;
    ++o.resumed;
}
template<class T, class MK> void one(MK mk, bool isvoid, int* refd, bool macro = false) {
    Log l; d::Gate g; Out o; int v = d_int(); bool boom = d_choose(2); g.ready = d_choose(2); bool rv = d_choose(2);
    if (refd) { *refd = v; }
    {
        task<T> t = mk(g, l, v, boom);
        D_CHECK(l.started == 0, "the body runs before the task is awaited");
        int how = d_choose(4);
        if (how == 0) { D_COVER("never-run"); }                         // destroyed without ever running
        else if (how == 1) {                                            // moved, then awaited; the source is empty
            task<T> t2(std::move(t)); D_CHECK(!t.handle() && t2.handle(), "move does not transfer the coroutine");
            Out e; Log el; awaitv<T>(t, e, el, rv).start(); D_CHECK(e.broken && e.resumed == 1, "awaiting an empty task does not report the broken promise");
            awaitv<T>(t2, o, l, rv).start(); D_CHECK(l.started == 1, "awaiting does not start the body exactly once");
            if (!g.ready) { D_CHECK(o.resumed == 0 && l.finished == 0, "the awaiter is resumed before the body finished"); D_CHECK(!t2.is_ready(), "a running task answers ready"); g.open(); }
            D_CHECK(t2.is_ready(), "a finished task does not answer ready"); D_COVER("moved");
        } else {
            awaitv<T>(t, o, l, rv).start(); D_CHECK(l.started == 1, "awaiting does not start the body exactly once");
            if (!g.ready) {
                D_CHECK(o.resumed == 0 && l.finished == 0, "the awaiter is resumed before the body finished");
                g.open();
            }
            D_CHECK(o.resumed == 1 && !o.early, "the awaiter is not resumed exactly once after the body finished");
            if (how == 3 && !boom && !rv && !isvoid) {                   // the stored result can be awaited again
                Out o2; awaitv<T>(t, o2, l, rv).start(); D_CHECK(o2.resumed == 1 && o2.val == v && o2.ref == o.ref && l.started == 1, "awaiting a finished task again does not give its result"); D_COVER("again");
            }
            if (how == 3 && boom) { Out o2; awaitv<T>(t, o2, l, rv).start(); D_CHECK(o2.resumed == 1 && o2.ex && o2.val == v && l.started == 1, "awaiting a failed task again does not rethrow its exception"); }
        }
        if (how) {
            D_CHECK(o.resumed == 1 && !o.broken && l.started == 1 && l.finished == 1, "the body does not run exactly once");
            if (boom) { D_CHECK(o.ex == 1 && o.val == v, "the awaiter does not get the exception thrown by the body"); D_COVER("threw"); }
            else { D_CHECK(o.ex == 0 && o.val == (isvoid ? 1 : v), "the awaiter does not get the value returned by the body"); if (refd) D_CHECK(o.ref == refd, "the awaiter does not get the reference returned by the body"); D_COVER("value"); }
            D_CHECK(macro || l.locals == 0, "locals of a finished body are not destroyed");   // (captures of a macro coroutine live as long as its frame)
        }
    }
    D_CHECK(l.locals == 0, "locals or parameters of the coroutine outlive the task");
    D_CHECK(d::Val::live == 0, "the stored result is not released exactly once with the task");
}
// assignment: releases what the target held, transfers the source; self-assignment keeps it
inline void assign() {
    Log l1, l2; d::Gate g1, g2; Out o1, o2; int v = d_int();
    g1.ready = d_choose(2);
    {
        task<d::Val> a = bv(g1, l1, v, false), b = bv(g2, l2, v + 0, false);
        int pre = d_choose(2);
        if (pre) { awaitv<d::Val>(a, o1, l1, false).start(); if (!g1.ready) g1.open(); D_CHECK(o1.resumed == 1, "not resumed"); }
        int how = d_choose(3);
        if (how == 0) { auto h = a.handle(); a = std::move(a); D_CHECK(a.handle() == h && (bool)h, "self-move loses the coroutine"); }
        else if (how == 1) { a = std::move(b); D_CHECK(!b.handle() && a.handle(), "move assignment does not transfer the coroutine"); D_CHECK(d::Val::live == 0, "the replaced task keeps its result"); g2.ready = true; awaitv<d::Val>(a, o2, l2, true).start(); D_CHECK(o2.resumed == 1 && o2.val == v, "wrong result after assignment"); }
        else { a = task<d::Val>(); D_CHECK(!a.handle(), "assigning an empty task keeps the coroutine"); D_CHECK(d::Val::live == 0, "the replaced task keeps its result"); }
        D_COVER("assigned");
    }
    D_CHECK(l1.locals == 0 && l2.locals == 0 && d::Val::live == 0, "something of a task outlives it");
}
// when_ready: waits for completion without taking or throwing the result
inline d::Co waitready(task<d::Val>& t, Out& o) { co_await t.when_ready(); ++o.resumed; }
inline void ready() {
    Log l; d::Gate g; Out o; int v = d_int(); bool boom = d_choose(2); g.ready = d_choose(2);
    {
        task<d::Val> t = bv(g, l, v, boom); waitready(t, o).start(); if (!g.ready) { D_CHECK(o.resumed == 0, "when_ready completes early"); g.open(); }
        D_CHECK(o.resumed == 1 && l.finished == 1, "when_ready does not complete exactly once");
        Out o2; awaitv<d::Val>(t, o2, l, false).start(); D_CHECK(o2.resumed == 1 && o2.val == v && o2.ex == (int)boom, "the result is lost after when_ready"); D_COVER("ready");
    }
    D_CHECK(l.locals == 0 && d::Val::live == 0, "something of a task outlives it");
}
// a task destroyed while suspended inside its body releases its frame
inline void dropped() {
    Log l; d::Gate g; Out o; bool m = d_choose(2);
    {
        auto t = std::make_unique<task<d::Val>>(m ? mv(g, l, 1, false) : bv(g, l, 1, false));
        auto h = t->handle(); h.promise().set_continuation(noop_coroutine(), std::source_location::current()); h.resume(); D_CHECK(l.started == 1 && !h.done(), "not suspended");
        t.reset();
    }
    D_CHECK(l.locals == 0 && d::Val::live == 0, "destroying a suspended task does not release its locals"); D_COVER("dropped");
}
// chain: each link awaits the next; the outcome arrives unchanged
template<int N> task<int> chain(d::Gate& g, int v, bool boom) { if constexpr (N == 0) { co_await d::pass(g); if (boom) throw d::Boom{ v }; co_return v; } else co_return co_await chain<N - 1>(g, v, boom); }
inline d::Co chainroot(d::Gate& g, int v, bool boom, Out& o) { try { o.val = co_await chain<3>(g, v, boom); } catch (d::Boom& b) { o.ex = 1; o.val = b.code; } ++o.resumed; }
inline void chained() { d::Gate g; Out o; int v = d_int(); bool boom = d_choose(2); chainroot(g, v, boom, o).start(); D_CHECK(o.resumed == 0 && g.waits == 1, "chain did not reach its end"); g.open(); D_CHECK(o.resumed == 1 && o.val == v && o.ex == (int)boom, "outcome changed along the chain"); D_COVER("chained"); }
}
D_CLIENT(P02, task_val) { p02::one<d::Val>(p02::bv, false, nullptr); }
D_CLIENT(P02, task_throwing) { p02::one<p02::Thr>(p02::bt, false, nullptr); }
D_CLIENT(P02, mtask_throwing) { p02::one<p02::Thr>(p02::mt, false, nullptr, true); }
D_CLIENT(P02, task_ref) { int x; p02::one<int&>([&](d::Gate& g, p02::Log& l, int, bool b) { return p02::br(g, l, x, b); }, false, &x); }
D_CLIENT(P02, task_void) { p02::one<void>(p02::bu, true, nullptr); }
D_CLIENT(P02, mtask_val) { p02::one<d::Val>(p02::mv, false, nullptr, true); }
D_CLIENT(P02, mtask_void) { p02::one<void>(p02::mu, true, nullptr, true); }
D_CLIENT(P02, task_assign) { p02::assign(); }
D_CLIENT(P02, task_ready) { p02::ready(); }
D_CLIENT(P02, task_dropped) { p02::dropped(); }
D_CLIENT(P02, task_chain) { p02::chained(); }
