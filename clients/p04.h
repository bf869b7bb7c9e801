#include <macoro/when_all.h>
#include <macoro/task.h>
#include <macoro/macros.h>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p04 {
struct Log { int started = 0, finished = 0, locals = 0; };
inline task<d::Val> tv(d::Gate& g, Log& l, int v, bool boom) { ++l.started; d::Live x(l.locals); co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; co_return d::Val(v); }
inline task<int&> tr(d::Gate& g, Log& l, int& v, bool boom) { ++l.started; d::Live x(l.locals); co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; co_return v; }
inline task<void> tu(d::Gate& g, Log& l, int v, bool boom) { ++l.started; d::Live x(l.locals); co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; }
inline task<d::Val> mv(d::Gate& g, Log& l, int v, bool boom) { MC_BEGIN(task<d::Val>, &g, &l, v, boom, x = d::Live(l.locals)); ++l.started; MC_AWAIT(d::pass(g)); ++l.finished; if (boom) throw d::Boom{ v }; MC_RETURN(d::Val(v)); MC_END(); }
struct Got { int val = 0; bool ex = false; const void* ref = nullptr; };
template<class T> Got look(T&& t) {
    Got g; try {
        if constexpr (std::is_void_v<decltype(std::forward<T>(t).result())>) { std::forward<T>(t).result(); g.val = 1; }
        else { auto&& r = std::forward<T>(t).result(); g.ref = &r; if constexpr (std::is_same_v<std::decay_t<decltype(r)>, int>) g.val = r; else g.val = r.get(); }
    } catch (d::Boom& b) { g.ex = true; g.val = b.code; } return g; }
inline void chk(const Got& g, bool boom, int v, bool isvoid = false) { D_CHECK(g.ex == boom, "a child's exception is lost or appears in the wrong place"); D_CHECK(g.val == (isvoid && !boom ? 1 : v), "a child's result is not at its place"); }
struct Out { int resumed = 0; int early = 0; Got a, b, c; };
template<class A> d::Co lvwait(A& all, Out& o, Log& l, int n) { auto& r = co_await all; ++o.resumed; if (l.finished != n) ++o.early; o.a = look(std::get<0>(r)); o.b = look(std::get<1>(r)); D_CHECK((void*)&r == (void*)&all.m_tasks, "awaiting an lvalue does not give its own results"); }
inline void start_two(d::Gate& g0, d::Gate& g1, Log& l, Out& o, int order) {
    // completion in either order, possibly while starting
    int exp = l.finished; D_CHECK(l.started == 2, "not every child is started"); D_CHECK(o.resumed == (exp == 2), "resumed too early or not at all");
    d::Gate* gs[2] = { order ? &g1 : &g0, order ? &g0 : &g1 };
    for (auto* g : gs) if (g->waiting()) { D_CHECK(o.resumed == 0, "the awaiter is resumed before every child finished"); g->open(); }
    D_CHECK(o.resumed == 1 && !o.early && l.finished == 2, "the awaiter is not resumed exactly once after every child");
}
struct C2 { Log l; d::Gate g0, g1; Out o; int v0, v1; bool b0, b1; int order; C2() { v0 = d_int(); v1 = d_int(); b0 = d_choose(2); b1 = d_choose(2); g0.ready = d_choose(2); g1.ready = d_choose(2); order = (!g0.ready && !g1.ready) ? d_choose(2) : 0; } };
// rvalue / value children, results taken as rvalue
inline d::Co rv2(C2& c, bool mc) { auto r = co_await when_all_ready(mc ? mv(c.g0, c.l, c.v0, c.b0) : tv(c.g0, c.l, c.v0, c.b0), tu(c.g1, c.l, c.v1, c.b1)); ++c.o.resumed; if (c.l.finished != 2) ++c.o.early; 
    if (d_choose(2)) { c.o.a = look(std::get<0>(r)); c.o.b = look(std::get<1>(r)); D_COVER("lvalue-results"); } else { c.o.a = look(std::get<0>(std::move(r))); c.o.b = look(std::get<1>(std::move(r))); D_COVER("rvalue-results"); }
    for (int again = 0; again < 2; again++) { if (c.b0) chk(look(std::get<0>(std::move(r))), true, c.v0); if (c.b1) chk(look(std::get<1>(r)), true, c.v1); } }
inline void vals() { C2 c; { rv2(c, d_choose(2)).start(); start_two(c.g0, c.g1, c.l, c.o, c.order); chk(c.o.a, c.b0, c.v0); chk(c.o.b, c.b1, c.v1, true); } D_CHECK(c.l.locals == 0 && d::Val::live == 0, "something of a child outlives the group"); }
// lvalue group, awaited twice; the second wait finds everything finished
inline void lval() { C2 c; int x = c.v0; { auto all = when_all_ready(tr(c.g0, c.l, x, c.b0), tv(c.g1, c.l, c.v1, c.b1)); auto all2 = std::move(all); D_CHECK(c.l.started == 0, "children start before the group is awaited");
    lvwait(all2, c.o, c.l, 2).start(); start_two(c.g0, c.g1, c.l, c.o, c.order); chk(c.o.a, c.b0, c.v0); chk(c.o.b, c.b1, c.v1); if (!c.b0) D_CHECK(c.o.a.ref == &x, "a reference result is not the child's reference");
    Out o2; lvwait(all2, o2, c.l, 2).start(); D_CHECK(o2.resumed == 1 && c.l.started == 2, "awaiting a finished group again does not give its results"); chk(o2.a, c.b0, c.v0); chk(o2.b, c.b1, c.v1); D_COVER("again"); }
    D_CHECK(c.l.locals == 0 && d::Val::live == 0, "something of a child outlives the group"); }
// children given as lvalue tasks stay usable
inline d::Co refs(C2& c, task<int&>& t0, task<void>& t1) { auto r = co_await when_all_ready(t0, t1); ++c.o.resumed; if (c.l.finished != 2) ++c.o.early; c.o.a = look(std::get<0>(r)); c.o.b = look(std::get<1>(r)); }
inline void byref() { C2 c; { int x = c.v0; auto t0 = tr(c.g0, c.l, x, c.b0); auto t1 = tu(c.g1, c.l, c.v1, c.b1); refs(c, t0, t1).start(); start_two(c.g0, c.g1, c.l, c.o, c.order); chk(c.o.a, c.b0, c.v0); chk(c.o.b, c.b1, c.v1, true); if (!c.b0) D_CHECK(c.o.a.ref == &x, "a reference result is not the child's reference"); D_CHECK(t0.is_ready() && t1.is_ready() && t0.handle() && t1.handle(), "tasks passed by reference are consumed"); D_COVER("refs"); }
    D_CHECK(c.l.locals == 0 && d::Val::live == 0, "something of a child outlives the group"); }
// raw awaitables (not tasks) as children: value and void
inline d::Co raws(C2& c) { auto r = co_await when_all_ready(d::passv(c.g0), d::pass(c.g1)); ++c.o.resumed; c.o.a = look(std::get<0>(r)); c.o.b = look(std::get<1>(r)); }
inline void raw() { C2 c; c.g0.code = c.v0; c.g1.code = c.v1; c.g0.boom = c.b0; c.g1.boom = c.b1; { raws(c).start(); D_CHECK(c.g0.readies == 1 && c.g1.readies == 1, "not every child is started"); D_CHECK(c.o.resumed == (c.g0.ready && c.g1.ready), "resumed too early or not at all");
    d::Gate* gs[2] = { c.order ? &c.g1 : &c.g0, c.order ? &c.g0 : &c.g1 }; for (auto* g : gs) if (g->waiting()) { D_CHECK(!c.o.resumed, "the awaiter is resumed before every child finished"); g->open(); }
    D_CHECK(c.o.resumed == 1, "the awaiter is not resumed exactly once"); chk(c.o.a, c.b0, c.v0); chk(c.o.b, c.b1, c.v1, true); D_COVER("raw"); } D_CHECK(d::Val::live == 0, "a result outlives the group"); }
inline d::Co none(int& n) { co_await when_all_ready(); ++n; std::vector<task<d::Val>> v; auto r = co_await when_all_ready(std::move(v)); D_CHECK(r.size() == 0, "an empty group has results"); ++n; }
inline void empty() { int n = 0; none(n).start(); D_CHECK(n == 2, "awaiting an empty group does not complete at once"); D_COVER("empty"); }
inline task<void> mac(C2& c) { using R = decltype(std::move(std::declval<decltype(when_all_ready(tv(c.g0, c.l, 0, false), tu(c.g1, c.l, 0, false)))&>().m_tasks)); MC_BEGIN(task<void>, &c, r = std::decay_t<R>(std::make_tuple(detail::when_all_task<d::Val>(coroutine_handle<detail::when_all_task_promise<d::Val>>{}), detail::when_all_task<void>(coroutine_handle<detail::when_all_task_promise<void>>{})))); MC_AWAIT(when_all_ready(tv(c.g0, c.l, c.v0, c.b0), tu(c.g1, c.l, c.v1, c.b1))); ++c.o.resumed; if (c.l.finished != 2) ++c.o.early; MC_END(); }
inline d::Co root(task<void>& t) { co_await t; }
inline void macro() { C2 c; { auto t = mac(c); root(t).start(); start_two(c.g0, c.g1, c.l, c.o, c.order); D_COVER("macro"); } D_CHECK(c.l.locals == 0 && d::Val::live == 0, "something of a child outlives the group"); }
// a vector of up to three children (the kernel proofs cover every size)
inline d::Co vecw(C2& c, int n, int* done, bool& ok) { std::vector<task<d::Val>> v; for (int i = 0; i < n; i++) v.push_back(tv(i == 1 ? c.g1 : c.g0, c.l, c.v0 + i, i == 1 ? c.b1 : c.b0)); auto r = co_await when_all_ready(std::move(v)); ++*done; ok = c.l.finished == n && (int)r.size() == n;
    for (int i = 0; i < n; i++) chk(look(r[i]), i == 1 ? c.b1 : c.b0, c.v0 + i); }
inline void vec() { C2 c; int n = d_choose(3), done = 0; bool ok = false; if (c.v0 > 1000) c.v0 = 5; { vecw(c, n, &done, ok).start(); D_CHECK(c.l.started == n, "not every child is started"); 
    d::Gate* gs[2] = { c.order ? &c.g1 : &c.g0, c.order ? &c.g0 : &c.g1 }; for (auto* g : gs) if (g->waiting()) { D_CHECK(!done, "the awaiter is resumed before every child finished"); g->open(); }
    D_CHECK(done == 1 && ok, "the awaiter is not resumed exactly once after every child"); D_COVER("vec"); } D_CHECK(c.l.locals == 0 && d::Val::live == 0, "something of a child outlives the group"); }
}
D_CLIENT(P04, all_vals) { p04::vals(); }
D_CLIENT(P04, all_lval) { p04::lval(); }
D_CLIENT(P04, all_byref) { p04::byref(); }
D_CLIENT(P04, all_raw) { p04::raw(); }
D_CLIENT(P04, all_empty) { p04::empty(); }
D_CLIENT(P04, all_macro) { p04::macro(); }
D_CLIENT(P04, all_vec) { p04::vec(); }
