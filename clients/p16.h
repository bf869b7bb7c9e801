#include <macoro/task.h>
#include <macoro/async_scope.h>
#include <macoro/when_all_scope.h>
#include <optional>
#include <vector>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p16 {
struct Log { int started = 0, finished = 0, frames = 0; };
inline task<d::Val> job(d::Gate& g, Log& l, int v, bool boom, d::Live) { ++l.started; co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; co_return d::Val(v); }
inline task<int&> jobr(d::Gate& g, Log& l, int& v, bool boom, d::Live) { ++l.started; co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; co_return v; }
inline task<void> jobu(d::Gate& g, Log& l, int v, bool boom, d::Live) { ++l.started; co_await d::pass(g); ++l.finished; if (boom) throw d::Boom{ v }; }
// what a joiner is told
struct Told { int n = 0, failures = 0; int code[4] = {}; };
inline void collect(Told& t, async_scope_exception& e) { for (auto& p : e.m_exceptions) { try { std::rethrow_exception(p); } catch (d::Boom& b) { if (t.failures < 4) t.code[t.failures] = b.code; } ++t.failures; } }
template<class J> task<void> joining(J& j) { co_await j(); }
template<class J> d::Co joiner(J j, Told& t) { try { co_await joining(j); } catch (async_scope_exception& e) { collect(t, e); } ++t.n; }
struct Out { int n = 0; bool ex = false; int v = 0; };
inline d::Co user(scoped_task<d::Val>& h, Out& o) { try { d::Val x = co_await std::move(h); o.v = x.get(); } catch (d::Boom& b) { o.ex = true; o.v = b.code; } ++o.n; }
// every order of completing, dropping, awaiting and joining of N tasks
template<int N> void orders(bool simple) {
    Log l; d::Gate g[N]; int v[N], fate[N]; bool boom[N], fin[N] = {}, gone[N] = {}; Out out[N]; Told t; int reported = 0;
    {
        async_scope s; std::optional<scoped_task<d::Val>> h[N]; bool joined = false;
        for (int i = 0; i < N; i++) { v[i] = d_int(); boom[i] = d_choose(2); fate[i] = simple ? (i ? 0 : d_choose(2)) : d_choose(3); if (!simple && i == 0) fin[i] = g[i].ready = d_choose(2);
            if (fate[i] == 0) { s.add(job(g[i], l, v[i], boom[i], d::Live(l.frames))); gone[i] = true; } else h[i].emplace(s.add(job(g[i], l, v[i], boom[i], d::Live(l.frames)))); D_CHECK(l.started == i + 1, "an added task does not start at once"); if (h[i]) D_CHECK(h[i]->is_ready() == fin[i], "is_ready"); }
        for (;;) {
            int ev[2 * N + 1], n = 0; for (int i = 0; i < N; i++) { if (!fin[i]) ev[n++] = i; if (!gone[i]) ev[n++] = N + i; } if (!joined) ev[n++] = 2 * N; if (!n) break;
            int e = ev[n == 1 ? 0 : d_choose(n)];
            if (e < N) { fin[e] = true; g[e].open(); } else if (e < 2 * N) { int i = e - N; gone[i] = true; if (fate[i] == 1) h[i].reset(); else { user(*h[i], out[i]).start(); D_COVER("awaited"); } } else { joined = true; joiner([&]() -> async_scope& { return s; }, t).start(); if (d::Val::live || l.frames) D_COVER("join waits"); }
            bool all = true; int failed = 0, held = 0; for (int i = 0; i < N; i++) { all = all && fin[i]; if (fin[i] && gone[i] && fate[i] != 2 && boom[i]) ++failed; if (!gone[i] || !fin[i]) ++held; if (fate[i] == 2) { D_CHECK(out[i].n == (fin[i] && gone[i]), "the awaiter of a task is not resumed exactly when it has finished"); if (out[i].n) D_CHECK(out[i].ex == boom[i] && out[i].v == v[i], "the awaiter gets another outcome"); } }
            D_CHECK(l.frames == held, "a task's frame is released early or not at all"); D_CHECK(t.n == (joined && all), "joining does not complete exactly when all tasks have finished");
            if (t.n && !reported) { reported = 1 + t.failures; D_CHECK(t.failures == failed, "a failure that nobody awaited is not reported to the joiner"); for (int i = 0; i < N; i++) if (gone[i] && fate[i] != 2 && boom[i]) { bool hit = false; for (int k = 0; k < t.failures; k++) hit = hit || t.code[k] == v[i]; D_CHECK(hit, "another failure is reported"); } if (failed) D_COVER("reported"); }
        }
        Told again; joiner([&]() -> async_scope& { return s; }, again).start(); int failed = 0; for (int i = 0; i < N; i++) if (fate[i] != 2 && boom[i]) ++failed; D_CHECK(again.n == 1 && t.failures + again.failures == failed, "a failure is lost or reported twice");
    }
    D_CHECK(l.finished == N && l.frames == 0 && d::Val::live == 0, "a task does not finish exactly once or its frame or result is not released exactly once");
}
inline void pair() { orders<2>(false); }
inline void drops() { orders<3>(true); }
// result types, lvalue and rvalue awaitables, moved handles, empty handles
inline void kinds() {
    Log l; d::Gate g, h; g.ready = d_choose(2); bool boom = d_choose(2); int v = d_int(), w = v, how = d_choose(7); int n = 0, got = v; bool ex = false; const void* ref = &w; Told t;
    {
        async_scope s;
        auto run = [&]() -> d::Co { try {
            if (how == 0) { int& r = co_await s.add(jobr(g, l, w, boom, d::Live(l.frames))); ref = &r; got = r; }
            else if (how == 1) { co_await s.add(jobu(g, l, v, boom, d::Live(l.frames))); }
            else if (how == 2) { auto k = job(g, l, v, boom, d::Live(l.frames)); d::Val x = co_await s.add(std::move(k)); got = x.get(); }
            else if (how == 3) { auto a = s.add(job(g, l, v, boom, d::Live(l.frames))); scoped_task<d::Val> b; b = std::move(a); auto& bb = b; b = std::move(bb); scoped_task<d::Val> c(std::move(b)); d::Val x = co_await std::move(c); got = x.get(); D_COVER("moved"); }
            else if (how == 4) { auto a = s.add(job(g, l, v, boom, d::Live(l.frames))), b = s.add(job(g, l, v, false, d::Live(l.frames))); b = std::move(a); d::Val x = co_await std::move(b); got = x.get(); D_COVER("replaced"); }
            else if (how == 6) { auto b = s.add(job(h, l, v, boom, d::Live(l.frames))); if (d_choose(2)) b = scoped_task<d::Val>(); else b = s.add(job(g, l, v, boom, d::Live(l.frames))); if (d_choose(2)) h.open(); D_COVER("dropped by assignment"); }
            else { d::Gate r; r.ready = true; r.boom = boom; r.code = v; d::Val x = co_await s.add(d::passv(r)); got = x.get(); ++l.finished; }
        } catch (d::Boom& b) { ex = true; got = b.code; } ++n; };
        if (how == 4) g.ready = true; run().start(); if (how == 6) { if (h.waiting()) h.open(); if (g.waiting()) g.open(); D_CHECK(n == 1 && l.frames == 0, "a task that was dropped by assignment keeps its frame"); ex = boom; } else if (how != 5 && !g.ready) { D_CHECK(n == 0, "resumed before the task has finished"); g.open(); }
        D_CHECK(n == 1 && ex == boom && got == v && ref == &w, "awaiting a task yields another outcome"); D_CHECK(l.frames == 0, "a task's frame is not released when its result was consumed");
        joiner([&]() -> async_scope& { return s; }, t).start(); if (how == 6) D_CHECK(t.n == 1 && t.failures == (boom ? l.finished : 0), "the failure of a task that was dropped by assignment is not reported"); else D_CHECK(t.n == 1 && t.failures == 0, "an awaited task's failure is reported to the joiner"); 
        bool broken = false; auto empty = [&]() -> d::Co { try { scoped_task<d::Val> x; d::Val y = co_await std::move(x); } catch (broken_promise&) { broken = true; } }; empty().start(); D_CHECK(broken, "awaiting an empty task"); scoped_task<void> none; D_CHECK(!none.is_ready(), "an empty task is ready"); D_COVER("empty");
    }
    D_CHECK(d::Val::live == 0, "a result is not released exactly once");
}
// tasks that add further tasks; join() as a call; a scope that is empty or used again
inline task<void> parent(async_scope& s, Log& l, d::Gate& g, d::Gate& c, bool boom, d::Live) { ++l.started; co_await d::pass(g); s.add(jobu(c, l, 5, boom, d::Live(l.frames))); ++l.finished; }
inline void nested() {
    Log l; Told t, u; int rounds = 1 + d_choose(2); async_scope s; { Told e; joiner([&] { return s.join(); }, e).start(); D_CHECK(e.n == 1 && !e.failures, "joining an empty scope waits"); }
    for (int k = 0; k < rounds; k++) { d::Gate a, b; bool boom = d_choose(2); Told t; s.add(parent(s, l, a, b, boom, d::Live(l.frames))); bool early = d_choose(2); if (early) joiner([&] { return s.join(); }, t).start(); a.open(); D_CHECK(t.n == 0, "joining completes before a task added by a task has finished"); if (!early) joiner([&] { return s.join(); }, t).start(); D_CHECK(t.n == 0, "joining completes before a task added by a task has finished"); b.open(); D_CHECK(t.n == 1 && t.failures == boom, "joining does not report the failure of every task"); D_CHECK(l.frames == 0, "frame"); if (k) D_COVER("again"); }
}
// when_all_scope: every scoped task has finished when the scope has been awaited
inline task<void> all(d::Gate* g, Log& l, int v, int fate, bool boom, Out& o, int& done) {
    co_await [&]() -> when_all_scope {
        scoped_task<d::Val> a = co_await scoped(job(g[0], l, v, boom, d::Live(l.frames)));
        { auto b = co_await (job(g[1], l, v + 1, false, d::Live(l.frames)) | scoped()); if (fate == 0) { d::Val y = co_await std::move(b); D_CHECK(y.get() == v + 1, "another outcome"); } }
        if (fate < 2) { try { d::Val x = co_await std::move(a); o.v = x.get(); } catch (d::Boom& b) { o.ex = true; o.v = b.code; } ++o.n; }
    }();
    ++done; D_CHECK(l.finished == 2, "the scope ends before its tasks have finished"); D_CHECK(l.frames == 0, "a task's frame is not released");
}
inline void when_all_scope_client() {
    Log l; d::Gate g[2]; int v = d_int(), fate = d_choose(3), done = 0; bool boom = fate < 2 && d_choose(2), swap = d_choose(2); g[0].ready = d_choose(2); Out o;
    { auto t = all(g, l, v, fate, boom, o, done); auto run = [&]() -> d::Co { co_await t; }; run().start(); for (int k = 0; k < 2; k++) { int i = swap ? 1 - k : k; if (!g[i].ready) { D_CHECK(!done, "the scope ends before its tasks have finished"); g[i].open(); } } D_CHECK(done == 1, "the scope does not end"); if (fate < 2) D_CHECK(o.n == 1 && o.ex == boom && o.v == v, "awaiting a task yields another outcome"); D_COVER("done"); }
    D_CHECK(d::Val::live == 0, "a result is not released");
}
}
D_CLIENT(P16, pair) { p16::pair(); }
D_CLIENT(P16, drops) { p16::drops(); }
D_CLIENT(P16, kinds) { p16::kinds(); }
D_CLIENT(P16, nested) { p16::nested(); }
D_CLIENT(P16, when_all_scope) { p16::when_all_scope_client(); }
#ifdef VP_VERIFY
// known finding: the failures of a when_all_scope are not reported (when_all_scope.h says they are rethrown in an async_scope_exception)
namespace p16 {
inline task<void> failing(d::Gate& g, Log& l, int v, Told& t) { try { co_await [&]() -> when_all_scope { co_await scoped(job(g, l, v, true, d::Live(l.frames))); }(); } catch (async_scope_exception& e) { collect(t, e); } ++t.n; }
inline void scope_failures() { Log l; d::Gate g; Told t; g.ready = d_choose(2); { auto k = failing(g, l, 7, t); auto run = [&]() -> d::Co { co_await k; }; run().start(); if (!g.ready) g.open(); D_CHECK(t.failures == 1, "the failure of a task in a when_all_scope is not reported"); } }
}
D_CLIENT(P16, scope_failures) { p16::scope_failures(); }
#endif
