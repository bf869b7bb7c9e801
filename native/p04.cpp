#include <memory>
#include "../clients/p04.h"
#include <atomic>
namespace {
struct Ext { std::atomic<void*> h{ nullptr }; bool ready = false; };
struct ExtAw { Ext& e; bool await_ready() { return e.ready; } template<class P> void await_suspend(coroutine_handle<P> x) { e.h.store(coroutine_handle<>(x).address()); } template<class P> void await_suspend(std::coroutine_handle<P> x) { e.h.store(coroutine_handle<>(coroutine_handle<P>(x)).address()); } void await_resume() {} };
inline void fire(Ext& e) { void* p; while (!(p = e.h.load())) nx::yield(); coroutine_handle<>::from_address(p).resume(); }
struct S { std::atomic<int> fin{ 0 }; int done = 0, early = 0, bad = 0; int plain[4] = {}; };
task<std::unique_ptr<int>> child(Ext& e, S& s, int i, bool boom) { co_await ExtAw{ e }; s.plain[i] = i + 1; s.fin.fetch_add(1, std::memory_order_relaxed); if (boom) throw d::Boom{ i }; co_return std::make_unique<int>(i); }
d::Co vecroot(std::vector<task<std::unique_ptr<int>>> v, S* s, int n, int boom) {
    auto r = co_await when_all_ready(std::move(v)); ++s->done; if (s->fin.load(std::memory_order_relaxed) != n) ++s->early;
    for (int i = 0; i < n; i++) { if (s->plain[i] != i + 1) ++s->bad; try { int x = *r[i].result(); if (x != i || i == boom) ++s->bad; } catch (d::Boom& b) { if (b.code != i || i != boom) ++s->bad; } }
}
d::Co tuproot(Ext* e, S* s) {
    auto r = co_await when_all_ready(child(e[0], *s, 0, false), child(e[1], *s, 1, true)); ++s->done; if (s->fin.load(std::memory_order_relaxed) != 2) ++s->early;
    if (*std::get<0>(r).result() != 0) ++s->bad; try { std::get<1>(r).result(); ++s->bad; } catch (d::Boom& b) { if (b.code != 1) ++s->bad; }
}
}
NX_SCENARIO(P04, all_vec_mt) {
    int n = nx::choose(4); int boom = nx::choose(n + 1); Ext e[4]; S s;
    for (int i = 0; i < n; i++) e[i].ready = nx::choose(4) == 0;
    {
        std::vector<nx::Thread> th;
        for (int i = 0; i < n; i++) if (!e[i].ready) th.emplace_back([&e, i] { fire(e[i]); });
        std::vector<task<std::unique_ptr<int>>> v; for (int i = 0; i < n; i++) v.push_back(child(e[i], s, i, i == boom));
        vecroot(std::move(v), &s, n, boom).start();
    }
    NX_CHECK(s.done == 1 && !s.early && !s.bad, "done %d early %d bad %d (n %d)", s.done, s.early, s.bad, n);
}
NX_SCENARIO(P04, all_tup_mt) {
    Ext e[2]; S s;
    { std::vector<nx::Thread> th; for (int i = 0; i < 2; i++) th.emplace_back([&e, i] { fire(e[i]); }); tuproot(e, &s).start(); }
    NX_CHECK(s.done == 1 && !s.early && !s.bad, "done %d early %d bad %d", s.done, s.early, s.bad);
}
