#include <memory>
#include "../clients/p12.h"
#include <macoro/thread_pool.cpp>
#include <atomic>
#include <set>
namespace {
struct Seen { std::atomic<int> n{ 0 }; };
thread_local thread_pool* here = nullptr;             // the pool this thread runs (as seen by the scenario)
struct Fr { std::atomic<int>* n; Fr(std::atomic<int>& c) : n(&c) { ++c; } Fr(Fr&& o) : n(std::exchange(o.n, nullptr)) {} ~Fr() { if (n) --*n; } };
nx::Detached item(thread_pool& p, int kind, int hops, std::atomic<int>& done, std::set<std::thread::id>& workers, std::mutex& m, std::thread::id m0, Fr) {
    for (int i = 0; i <= hops; i++) { if (kind == 0) co_await p.schedule(); else if (kind == 1) co_await p.post(); else co_await p.dispatch(); { std::lock_guard<std::mutex> l(m); NX_CHECK(workers.empty() ? std::this_thread::get_id() != m0 : workers.count(std::this_thread::get_id()) != 0, "resumed on a thread that does not run the pool"); } }
    ++done;
}
}
// several workers, items scheduled from several threads, tokens dropped anywhere: everything runs, join ends
NX_SCENARIO(P12, pool_mt) {
    std::atomic<int> done{ 0 }, fr{ 0 }; int producers = 1 + nx::choose(2), each = 1 + nx::choose(2), workers = 1 + nx::choose(2); std::set<std::thread::id> ws; std::mutex m; 
    {
        thread_pool p; std::optional<thread_pool::work> w(p.make_work()); bool viaRun = nx::choose(2); std::vector<nx::Thread> runners, th;
        if (viaRun) for (int i = 0; i < workers; i++) runners.emplace_back([&] { { std::lock_guard<std::mutex> l(m); ws.insert(std::this_thread::get_id()); } p.run(); });
        else { p.create_threads(workers); }
        for (int i = 0; i < producers; i++) th.emplace_back([&, w2 = std::make_shared<thread_pool::work>(p.make_work())]() mutable { for (int k = 0; k < each; k++) item(p, nx::choose(3), nx::choose(2), done, ws, m, std::this_thread::get_id(), Fr(fr)).start(); w2->reset(); });
        if (nx::choose(2)) w.reset(); else { th.clear(); w.reset(); }
        th.clear(); runners.clear(); p.join(); NX_CHECK(done == producers * each, "%d of %d coroutines are resumed when all workers have returned", (int)done, producers * each);
    }
    NX_CHECK(fr == 0, "a coroutine is not resumed");
}
// the token travels with the item; the pool is destroyed as soon as its workers have returned
NX_SCENARIO(P12, pool_destroyed_mt) {
    struct Box { thread_pool p; }; auto* b = new Box; auto w = std::make_shared<thread_pool::work>(b->p.make_work()); b->p.create_threads(1 + nx::choose(2)); int kind = nx::choose(2); std::atomic<int> done{ 0 };
    auto job = [](thread_pool& p, std::shared_ptr<thread_pool::work> w, int kind, std::atomic<int>& done) -> nx::Detached { if (kind) co_await p.schedule(); else co_await p.dispatch(); ++done; w->reset(); };
    nx::Thread t([&, b] { job(b->p, w, kind, done).start(); }); delete b; NX_CHECK(done == 1, "the pool is joined before its work is done"); 
}
// a pool that is moved while its threads start
NX_SCENARIO(P12, pool_moved_mt) {
    std::atomic<int> done{ 0 }; auto* a = new thread_pool; auto w = std::make_shared<thread_pool::work>(a->make_work()); a->create_threads(1 + nx::choose(2)); thread_pool b(std::move(*a)); delete a;
    auto job = [](thread_pool& p, std::atomic<int>& done) -> nx::Detached { co_await p.schedule(); ++done; }; job(b, done).start(); w->reset(); bool assign = nx::choose(2); if (assign) { thread_pool c; auto w2 = std::make_shared<thread_pool::work>(c.make_work()); c.create_thread(); job(c, done).start(); w2->reset(); c = std::move(b); } else b.join();
    NX_CHECK(done == 1 + assign || assign, "join ends before the scheduled coroutine is resumed");
}
// a single worker keeps the order in which one thread schedules
NX_SCENARIO(P12, fifo_mt) {
    thread_pool p; thread_pool::work w; int n = 2 + nx::choose(3), next = 0; thread_pool q(1, w); 
    auto job = [](thread_pool& p, int i, int& next, int kind) -> nx::Detached { if (kind == 0) co_await p.schedule(); else if (kind == 1) co_await p.post(); else co_await p.dispatch(); NX_CHECK(next == i, "not resumed in the order of scheduling"); ++next; };
    for (int i = 0; i < n; i++) job(q, i, next, nx::choose(3)).start(); w.reset(); q.join(); NX_CHECK(next == n, "a coroutine is left behind");
}
