#include <memory>
#include "../clients/p23.h"
#include <macoro/thread_pool.cpp>
#include <atomic>
#include <thread>
namespace {
template<class T> task<int> job(thread_pool& p, T me, std::atomic<int>& ran, int v, bool boom) { NX_CHECK(std::this_thread::get_id() != me, "the body runs on the thread that started it"); ++ran; if (boom) throw d::Boom{ 9 }; co_return v; }
}
// started on a pool with workers of its own; awaited or dropped while it runs or afterwards
NX_SCENARIO(P23, start_mt) {
    std::atomic<int> ran{ 0 }, done{ 0 }; int n = 1 + nx::choose(3); { thread_pool p; std::optional<thread_pool::work> w(p.make_work()); p.create_threads(1 + nx::choose(2)); auto me = std::this_thread::get_id();
        auto use = [&](int i, bool boom) -> nx::Detached { auto t = start_on(p, job(p, me, ran, i, boom)); bool caught = false; int v = -1; try { v = co_await t; } catch (d::Boom& b) { caught = b.code == 9; } NX_CHECK(caught == boom && (boom || v == i), "the outcome is not delivered"); ++done; };
        for (int i = 0; i < n; i++) use(i, nx::choose(2)).start(); w.reset(); p.join(); } NX_CHECK(ran == n && done == n, "%d of %d bodies run, %d awaiters are resumed", (int)ran, n, (int)done);
}
