#include <memory>
#include "../clients/p13.h"
#include <macoro/thread_pool.cpp>
#include <atomic>
namespace {
struct Fr { std::atomic<int>* n; Fr(std::atomic<int>& c) : n(&c) { ++c; } Fr(Fr&& o) : n(std::exchange(o.n, nullptr)) {} ~Fr() { if (n) --*n; } };
constexpr long long FAR = 3600'000'000'000ll;
nx::Detached item(thread_pool& p, long long delay, stop_token t, std::atomic<int>* asked, std::atomic<int>& done, Fr) {
    long long dl = (long long)nx::now_ns() + delay; co_await p.schedule_after(std::chrono::nanoseconds(delay), std::move(t)); NX_CHECK((asked && *asked) || (long long)nx::now_ns() >= dl, "resumed before its deadline although it was not cancelled"); ++done;
}
}
// items with short and far deadlines, cancelled by another thread at any time, one or two workers: all fire once, far ones only because they were cancelled
NX_SCENARIO(P13, delay_mt) {
    std::atomic<int> done{ 0 }, fr{ 0 }, asked[3] = {}; int n = 1 + nx::choose(3), workers = 1 + nx::choose(2), producers = 1 + nx::choose(2); long long start = (long long)nx::now_ns(), d[3]; bool far = false; stop_source s[3];
    for (int i = 0; i < n; i++) d[i] = nx::choose(3) ? (long long)nx::choose(4) * 100 : FAR; (void)far;
    {
        thread_pool p; std::optional<thread_pool::work> w(p.make_work()); bool early = nx::choose(2); if (early) p.create_threads(workers);
        { std::vector<nx::Thread> th; auto put = [&](int i) { item(p, d[i], s[i].get_token(), &asked[i], done, Fr(fr)).start(); };
          if (producers == 1) th.emplace_back([&] { for (int i = 0; i < n; i++) put(i); }); else for (int i = 0; i < n; i++) th.emplace_back([&, i] { put(i); });
          th.emplace_back([&] { for (int i = 0; i < n; i++) if (d[i] == FAR || nx::choose(2)) { asked[i] = 1; s[i].request_stop(); } }); 
          if (!early) p.create_threads(workers); }
        w.reset(); p.join(); NX_CHECK(done == n, "%d of %d delayed items fire", (int)done, n); NX_CHECK((long long)nx::now_ns() - start < FAR, "a cancelled item is only released at its deadline");
    }
    NX_CHECK(fr == 0, "a coroutine is not resumed");
}
// no work token: the delayed items keep the workers alive, which leave as soon as the last one has fired
NX_SCENARIO(P13, keeps_workers_mt) {
    std::atomic<int> done{ 0 }, fr{ 0 }, asked{ 0 }; int workers = 1 + nx::choose(3); long long start = (long long)nx::now_ns(); int kind = nx::choose(3);
    { thread_pool p; stop_source s; item(p, kind == 0 ? 50 : FAR, s.get_token(), &asked, done, Fr(fr)).start(); if (nx::choose(2)) item(p, 20, {}, nullptr, done, Fr(fr)).start(); else ++done;
      p.create_threads(workers); if (kind == 1) { asked = 1; s.request_stop(); } if (kind == 2) { nx::Thread t([&] { if (nx::choose(2)) std::this_thread::sleep_for(std::chrono::nanoseconds(30)); asked = 1; s.request_stop(); }); }
      p.join(); NX_CHECK(done == 2, "a worker leaves although a delayed item is queued"); NX_CHECK((long long)nx::now_ns() - start < FAR, "a worker stays until the deadline of an item that was cancelled"); }
    NX_CHECK(fr == 0, "a coroutine is not resumed");
}
// a queue that is reallocated while workers wait for its first entry
NX_SCENARIO(P13, grows_mt) {
    std::atomic<int> done{ 0 }, fr{ 0 }; int n = 2 + nx::choose(4); thread_pool p; std::optional<thread_pool::work> w(p.make_work()); p.create_threads(1 + nx::choose(2)); item(p, 1000, {}, nullptr, done, Fr(fr)).start();
    { nx::Thread t([&] { for (int i = 1; i < n; i++) item(p, nx::choose(3) * 700, {}, nullptr, done, Fr(fr)).start(); }); } w.reset(); p.join(); NX_CHECK(done == n, "%d of %d delayed items fire", (int)done, n); NX_CHECK(fr == 0, "a coroutine is not resumed");
}
// two items due at different times on two workers while posted coroutines come in between
NX_SCENARIO(P13, mixed_mt) {
    std::atomic<int> done{ 0 }, fr{ 0 }; thread_pool p; std::optional<thread_pool::work> w(p.make_work()); p.create_threads(1 + nx::choose(2)); int n = 1 + nx::choose(2), m = 1 + nx::choose(2); stop_source s; std::atomic<int> asked{ 0 };
    auto post = [](thread_pool& p, std::atomic<int>& done, Fr) -> nx::Detached { co_await p.schedule(); ++done; };
    { nx::Thread a([&] { for (int i = 0; i < n; i++) item(p, 10 * nx::choose(3), s.get_token(), &asked, done, Fr(fr)).start(); }), b([&] { for (int i = 0; i < m; i++) post(p, done, Fr(fr)).start(); if (nx::choose(2)) { asked = 1; s.request_stop(); } }); }
    w.reset(); p.join(); NX_CHECK(done == n + m, "a coroutine is left behind"); NX_CHECK(fr == 0, "a coroutine is not resumed");
}

// up to six items with distinct deadlines, some of them cancelled in any order: the order in which they fire
NX_SCENARIO(P13, heap) {
    p13::Env e; int n = 3 + nx::choose(4); for (int i = 0; i < n; i++) p13::item(e, i, (1 + nx::choose(9)) * 100 + i, 0, true, d::Live(e.frames)).start();
    int c = nx::choose(3); for (int k = 0; k < c; k++) { int i = nx::choose(n); if (!e.cancelled[i]) { e.cancel(i); if (nx::choose(2)) std::this_thread::sleep_for(std::chrono::nanoseconds(50)); } }
    p13::run(e); for (int i = 0; i < n; i++) NX_CHECK(e.count[i] == 1, "a delayed item fires %d times", e.count[i]);
}
// a posted coroutine and an item that is cancelled while the worker is busy: it is the worker's next action
NX_SCENARIO(P13, cancelled_first) {
    p13::Env e; int n = 0, c = nx::choose(2); auto busy = [&](thread_pool& p) -> nx::Detached { co_await p.schedule(); if (c) e.cancel(0); ++n; }; auto post = [&](thread_pool& p) -> nx::Detached { co_await p.schedule(); NX_CHECK(c != 1 || e.count[0] == 1, "a cancelled item waits for a coroutine that was posted"); ++n; };
    busy(e.p).start(); p13::item(e, 0, 20 * nx::choose(2) + 100, 0, true, d::Live(e.frames)).start(); post(e.p).start(); p13::run(e); NX_CHECK(n == 2 && e.count[0] == 1, "a coroutine is lost");
}
