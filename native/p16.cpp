#include <memory>
#include "../clients/p16.h"
#include <macoro/sync_wait.h>
namespace {
struct Gate1 { std::atomic<void*> h{ nullptr }; };       // resumed by another thread
struct GA { Gate1& g; bool await_ready() const { return false; } template<class P> bool await_suspend(std::coroutine_handle<P> x) { void* e = nullptr; return g.h.compare_exchange_strong(e, x.address(), std::memory_order_acq_rel, std::memory_order_acquire); } void await_resume() {} };
void fire(Gate1& g) { void* p = g.h.exchange((void*)1, std::memory_order_acq_rel); if (p) std::coroutine_handle<>::from_address(p).resume(); }
struct Fr { std::atomic<int>* n; Fr(std::atomic<int>& c) : n(&c) { ++c; } Fr(Fr&& o) : n(std::exchange(o.n, nullptr)) {} ~Fr() { if (n) --*n; } };
task<std::unique_ptr<int>> work(Gate1& g, int* data, bool boom, std::atomic<int>& fin, Fr) { *data = 5; co_await GA{ g }; *data = 6; ++fin; if (boom) throw d::Boom{ *data }; co_return std::make_unique<int>(7); }
task<> joins(async_scope& s, int n, int (&data)[3], std::atomic<int>& fin, int& fails, int& done) { try { co_await s; } catch (async_scope_exception& e) { for (auto& p : e.m_exceptions) { ++fails; try { std::rethrow_exception(p); } catch (d::Boom& b) { NX_CHECK(b.code == 6, "another failure"); } } } NX_CHECK(fin == n, "joining ends before every task has finished"); for (int i = 0; i < n; i++) NX_CHECK(data[i] == 6, "joining ends before every task has finished"); ++done; }
nx::Detached run(task<> t) { co_await t; }
}
// every task is completed, dropped or awaited, and joined by different threads
NX_SCENARIO(P16, scope_mt) {
    int n = 1 + nx::choose(3), fate[3], done = 0, fails = 0, expect = 0, late = 0; bool boom[3]; int data[3] = {}; std::atomic<int> fin{ 0 }, fr{ 0 }; Gate1 g[3]; std::atomic<int> outs{ 0 }; int nawait = 0;
    for (int i = 0; i < n; i++) { fate[i] = nx::choose(4); boom[i] = nx::choose(2); if (boom[i]) { if (fate[i] == 0 || fate[i] == 1) ++expect; if (fate[i] == 3) ++late; } nawait += fate[i] == 2; }
    {
        async_scope s; std::optional<scoped_task<std::unique_ptr<int>>> h[3]; 
        for (int i = 0; i < n; i++) { h[i].emplace(s.add(work(g[i], &data[i], boom[i], fin, Fr(fr)))); if (fate[i] == 0) h[i].reset(); }
        bool before = nx::choose(2); auto jn = [&] { run(joins(s, n, data, fin, fails, done)).start(); };
        if (before) { jn(); NX_CHECK(!done, "joining ends before every task has finished"); }
        {
            std::vector<nx::Thread> th; 
            for (int i = 0; i < n; i++) { th.emplace_back([&, i] { fire(g[i]); }); if (fate[i] == 1 || fate[i] == 2) th.emplace_back([&, i] { if (fate[i] == 1) h[i].reset(); else run([](auto& h, bool boom, std::atomic<int>& outs) -> task<> { try { auto u = co_await std::move(*h); NX_CHECK(!boom && u && *u == 7, "another outcome"); } catch (d::Boom&) { NX_CHECK(boom, "another outcome"); } ++outs; }(h[i], boom[i], outs)).start(); }); }
            if (!before) th.emplace_back([&] { jn(); });
        }
        NX_CHECK(done == 1, "joining does not end although every task has finished"); NX_CHECK(outs == nawait, "an awaiter sleeps for ever");
        int before_drop = fails; for (int i = 0; i < n; i++) h[i].reset(); int more = 0, d2 = 0; run(joins(s, n, data, fin, more, d2)).start(); NX_CHECK(before_drop + more == expect + late, "%d of %d failures are reported", before_drop + more, expect + late);
        bool sure = true; for (int i = 0; i < n; i++) if (boom[i] && fate[i] == 1) sure = false; if (sure) NX_CHECK(before_drop == expect, "%d of %d failures of dropped tasks are reported to the joiner", before_drop, expect);
    }
    NX_CHECK(fr == 0, "a task's frame is not released");
}
// the joiner destroys the scope and everything the tasks use as soon as it is resumed
NX_SCENARIO(P16, join_destroys_mt) {
    struct All { async_scope s; Gate1 g[2]; int data[3] = {}; std::atomic<int> fin{ 0 }, fr{ 0 }; }; auto* a = new All; int n = 1 + nx::choose(2), done = 0; bool keep = nx::choose(2);
    for (int i = 0; i < n; i++) a->s.add(work(a->g[i], &a->data[i], false, a->fin, Fr(a->fr)));
    std::shared_ptr<Gate1> g[2]; (void)keep;
    auto jn = [](All* a, int n, int& done) -> task<> { int f = 0, d = 0; co_await joins(a->s, n, a->data, a->fin, f, d); NX_CHECK(a->fr == 0, "a task's frame outlives the join"); ++done; };
    std::vector<void*> hs; for (int i = 0; i < n; i++) hs.push_back(a->g[i].h.load());
    { std::vector<nx::Thread> th; for (int i = 0; i < n; i++) th.emplace_back([p = hs[i]] { std::coroutine_handle<>::from_address(p).resume(); }); th.emplace_back([&] { run([](auto jn, All* a, int n, int& done) -> task<> { co_await jn(a, n, done); delete a; }(jn, a, n, done)).start(); }); }
    NX_CHECK(done == 1, "joining does not end although every task has finished");
}
