#include <macoro/task.h>
#include <macoro/thread_pool.h>
#include <macoro/macros.h>
#include <optional>
#include <vector>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p13 {
using ns = std::chrono::nanoseconds;
struct Env { thread_pool p; static const int M = 6; long long dl[M] = {}; bool live[M] = {}, cancelled[M] = {}, immediate[M] = {}; int count[M] = {}, posted = 0, frames = 0; bool running = false; std::optional<stop_source> s[M]; long long tc[M] = {};
    void cancel(int i) { bool was = live[i]; tc[i] = was && !cancelled[i] ? d_clock() : -1; s[i]->request_stop(); cancelled[i] = true; }
    void fired(int i) {
        long long now = d_clock(); D_CHECK(running, "resumed outside of the pool's workers"); D_CHECK(live[i], "resumed twice"); live[i] = false; ++count[i];
        D_CHECK(cancelled[i] || now >= dl[i], "resumed before its deadline although it was not cancelled");
        if (!cancelled[i]) for (int k = 0; k < M; k++) if (live[k] && !cancelled[k]) D_CHECK(dl[i] <= dl[k], "an item with an earlier deadline is overtaken");
        // a cancelled item is the next action unless others are due
        for (int k = 0; k < M; k++) if (live[k] && cancelled[k] && k != i) { D_CHECK(cancelled[i] || dl[i] <= now, "a cancelled item is overtaken by one that is not due"); if (tc[k] > 0) D_CHECK(cancelled[i] || dl[i] <= tc[k], "a cancelled item is not the next to run"); }
    } };
d::Co item(Env& e, int i, long long delay, int act, bool token, d::Live) {
    stop_token t; if (token) { if (!e.s[i]) e.s[i].emplace(); t = e.s[i]->get_token(); }
    e.live[i] = true; e.dl[i] = d_clock() + delay; if (token) co_await e.p.schedule_after(ns(delay), t); else co_await e.p.schedule_after(ns(delay));
    e.fired(i);
    if (act == 1) { for (int k = 0; k < Env::M; k++) if (e.live[k] && e.s[k]) { e.cancel(k); D_COVER("cancel other"); break; } }
    else if (act == 2) { std::this_thread::sleep_for(ns(7)); D_COVER("busy"); }
    else if (act == 3) { item(e, 3, d_int() & 0xffff, 0, true, d::Live(e.frames)).start(); D_COVER("more"); }
    else if (act == 4) { e.live[i] = true; e.cancelled[i] = false; e.s[i].reset(); e.dl[i] = d_clock() + 3; co_await e.p.schedule_after(ns(3)); e.fired(i); D_COVER("again"); }
}
d::Co now(Env& e, d::Live) { long long t = d_clock(); co_await e.p.schedule(); ++e.posted; (void)t; }
inline void run(Env& e) { e.running = true; e.p.run(); e.running = false; for (int i = 0; i < Env::M; i++) D_CHECK(!e.live[i], "a delayed item is left behind when the worker exits"); D_CHECK(e.frames == 0, "a coroutine is not resumed"); }
// N items with any delays, cancelled before being scheduled, before the worker starts, or by one another
template<int N> void order(bool acts, bool cancels, bool small = false) {
    Env e; int who = small ? d_choose(N) : 0; long long dmin = -1; int k[N];
    for (int i = 0; i < N; i++) { long long d = d_int() & 0xffff; if (i == 0 && cancels && !small && d_choose(2)) { e.s[0].emplace(); e.s[0]->request_stop(); e.cancelled[0] = true; D_COVER("cancelled before"); } item(e, i, d, acts ? (i ? d_choose(2) : d_choose(5)) : 0, cancels || acts, d::Live(e.frames)).start(); D_CHECK(e.count[i] == 0, "resumed outside of the pool's workers"); if (dmin < 0 || d < dmin) dmin = d; }
    if (cancels) for (int i = 0; i < N; i++) if (!e.cancelled[i] && (small ? i == who : d_choose(2))) { e.cancel(i); D_CHECK(e.count[i] == 0, "resumed outside of the pool's workers"); D_COVER("cancelled queued"); }
    bool post = !acts && !small && d_choose(2); if (post) now(e, d::Live(e.frames)).start();
    run(e); for (int i = 0; i < N; i++) D_CHECK(e.count[i] >= 1, "a delayed item is lost"); D_CHECK(e.posted == post, "a scheduled coroutine is lost");
    for (int i = 0; i < N; i++) if (e.s[i]) e.s[i]->request_stop();                                 // too late: nothing happens
    for (int i = 0; i < N; i++) D_CHECK(e.count[i] <= 2, "resumed again"); D_COVER("end");
}
inline void order3() { order<3>(false, false); }
inline void cancel2() { order<2>(false, true); }
inline void cancel3() { order<3>(false, true, true); }
inline void acts2() { order<2>(true, false); }
}
D_CLIENT(P13, order3) { p13::order3(); }
D_CLIENT(P13, cancel2) { p13::cancel2(); }
D_CLIENT(P13, cancel3) { p13::cancel3(); }
D_CLIENT(P13, acts2) { p13::acts2(); }
