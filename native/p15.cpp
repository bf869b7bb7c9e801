#include <memory>
#include "../clients/p15.h"
#include <macoro/thread_pool.cpp>
#include <atomic>
namespace {
struct Shared { std::atomic<int> st{ 0 }, done{ 0 }; };
task<int> work(thread_pool& p, stop_token t, int kind, long long d, bool boom, Shared& x) {
    if (kind == 0) co_await p.schedule_after(std::chrono::nanoseconds(d), t); else if (kind == 1) co_await p.schedule_after(std::chrono::nanoseconds(d)); else if (kind == 2) co_await p.schedule(); else co_await std::move(t);
    x.st = 1; if (boom) throw d::Boom{ 9 }; co_return 5; }
nx::Detached use(thread_pool& p, stop_token ext, int kind, long long dt, long long d, bool boom, Shared& x) {
    co_await p.schedule(); timeout t(p, std::chrono::nanoseconds(dt), ext); stop_token tok = t.get_token(); bool caught = false; long long t0 = nx::now_ns();
    try { int r = co_await take_until(work(p, tok, kind, d, boom, x), std::move(t)); NX_CHECK(r == 5, "another value is delivered"); } catch (d::Boom& b) { caught = b.code == 9; }
    NX_CHECK(caught == boom, "the outcome is lost"); NX_CHECK(x.st == 1, "completed although the awaitable still runs"); NX_CHECK(tok.stop_requested(), "the companion is not asked to stop"); if (!ext.stop_requested() && (kind == 3)) NX_CHECK((long long)nx::now_ns() >= t0 + dt, "stop is requested although neither the delay has elapsed nor the token was triggered"); ++x.done; }
}
// an operation under a timeout on a pool with its own workers, and a caller which triggers its token at any time
NX_SCENARIO(P15, race_mt) {
    Shared x; int kind = nx::choose(4); bool boom = nx::choose(2); long long dt = nx::choose(3) * 40, d = nx::choose(3) * 40; { stop_source ext; thread_pool p; std::optional<thread_pool::work> w(p.make_work()); p.create_threads(1 + nx::choose(2));
        int e = nx::choose(3); use(p, e ? ext.get_token() : stop_token(), kind, dt, d, boom, x).start(); nx::Thread th([&] { if (e == 2) ext.request_stop(); }); w.reset(); th.join(); p.join(); }
    NX_CHECK(x.done == 1 && x.st == 1, "the combined operation does not complete");
}
// several timeouts share the caller's token
NX_SCENARIO(P15, shared_mt) {
    Shared x[3]; int n = 1 + nx::choose(3); { stop_source ext; thread_pool p; std::optional<thread_pool::work> w(p.make_work()); p.create_threads(1 + nx::choose(2)); for (int i = 0; i < n; i++) use(p, ext.get_token(), nx::choose(2) ? 0 : 3, nx::choose(2) ? 40 : 1000000, 500, false, x[i]).start(); nx::Thread th([&] { ext.request_stop(); }); w.reset(); th.join(); p.join(); }
    for (int i = 0; i < n; i++) NX_CHECK(x[i].done == 1, "the combined operation does not complete");
}
