#include <macoro/task.h>
#include <macoro/stop.h>
#include <memory>
#include <optional>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p10 {
constexpr int MAX = 56;
// N possible callbacks and the model: state 0 not registered, 1 registered, 2 has run
struct World {
    stop_source src; stop_token tok = src.get_token(); bool asked = false; bool notifying = false;
    std::unique_ptr<stop_callback> cb[MAX]; int st[MAX] = {}; int runs[MAX] = {}; int expect[MAX] = {};
    void ran(int i) { ++runs[i]; st[i] = 2; D_CHECK(asked, "a callback runs although stop was never requested"); D_CHECK(src.stop_requested() && tok.stop_requested(), "a callback runs before the request is visible"); D_CHECK(runs[i] <= expect[i], runs[i] == 1 ? "a callback runs that must not run" : "a callback runs twice"); }
    template<class F> void add(int i, F f) { D_CHECK(!cb[i], "client"); st[i] = 1; if (asked) { expect[i] = runs[i] + 1; } cb[i].reset(new stop_callback(tok, std::move(f))); D_CHECK(runs[i] == expect[i], "a callback registered after the request does not run in its constructor"); }
    void add(int i) { add(i, [this, i] { ran(i); }); }
    void del(int i) { D_CHECK((bool)cb[i], "client"); cb[i].reset(); if (st[i] == 1) { st[i] = 0; if (!notifying) expect[i] = runs[i]; } }
    void stop() { bool first = !asked; asked = true; if (first) for (int i = 0; i < MAX; i++) if (st[i] == 1) expect[i] = runs[i] + 1; src.request_stop(); check(); }
    void check() { D_CHECK(src.stop_requested() == asked && tok.stop_requested() == asked, "the request is not reported"); for (int i = 0; i < MAX; i++) D_CHECK(runs[i] == expect[i], "a registered callback does not run exactly once"); }
};
// every history of 4 operations on 3 callbacks
inline void history() {
    World w;
    for (int s = 0; s < 4; s++) {
        int live = 0; for (int i = 0; i < 3; i++) if (w.cb[i]) ++live;
        int c = d_choose(live + 2);                        // request, register, deregister one of the live ones
        if (c == 0) { w.stop(); D_COVER("requested"); }
        else if (c == 1) { int i = 0; while (i < 3 && w.cb[i]) ++i; if (i == 3) return; w.add(i); }
        else { int i = 0; for (int k = c - 2;; ++i) if (w.cb[i]) { if (!k) break; --k; } w.del(i); D_COVER("deregistered"); }
        w.check();
    }
    w.stop(); w.stop();
}
// more callbacks than one block of entries holds, with holes that are filled again
inline void many() {
    World w; int n = d_choose(2) ? 20 : 50; int step = 1 + d_choose(4);
    for (int i = 0; i < n; i++) w.add(i);
    for (int i = 0; i < n; i += step) w.del(i);
    int again = d_choose(3); if (again) for (int i = 0; i < n; i += step * again) w.add(i);
    w.stop(); D_COVER("all"); if (n < 50) { w.add(n); D_CHECK(w.runs[n] == 1, "late"); }
    for (int i = 0; i < n; i++) if (w.cb[i] && i % 2) w.del(i);
    w.check();
}
// callbacks that remove themselves or another one, register new ones, ask again or drop the source
inline void inside() {
    World w; int n = 3, who = d_choose(n), what = d_choose(5), other = d_choose(n); bool first = d_choose(2);
    for (int i = 0; i < n; i++) if (i != who) { w.add(i, [&w, i] { w.ran(i); }); } else w.add(i, [&w, i, what, other, n] { World& u = w; int k = i, o = other, d = what, m = n; u.ran(k);
        if (d == 0) { u.cb[k].reset(); D_COVER("self"); }
        else if (d == 1) { if (o != k && u.st[o] == 1) { u.expect[o] = 0; u.st[o] = 0; u.cb[o].reset(); D_COVER("other"); } else if (u.cb[o]) u.cb[o].reset(); }
        else if (d == 2) { u.add(m); D_COVER("nested"); }
        else if (d == 3) { u.src.request_stop(); u.tok = stop_token(); u.tok = u.src.get_token(); D_COVER("again"); }
        else { for (int j = 0; j < m; j++) { if (u.st[j] == 1) { u.expect[j] = 0; u.st[j] = 0; } u.cb[j].reset(); } D_COVER("all gone"); } });
    if (first && what != 2) w.stop(); else { w.notifying = true; w.stop(); }
    for (int i = 0; i < n; i++) if (w.cb[i]) w.cb[i].reset(); w.check();
}
// a coroutine waiting for the request resumes exactly when it is made
inline d::Co waiter(stop_token t, int& started, int& resumed) { ++started; co_await std::move(t); ++resumed; }
inline void await() {
    int s = 0, r = 0; int how = d_choose(4);
    { stop_source src; if (how == 0) src.request_stop(); if (how == 3) { waiter(stop_token(), s, r).start(); D_CHECK(r == 1, "waits for a request that can never be made"); r = 0; }
      int n = 1 + d_choose(2); if (how == 2 && n == 2) { waiter(src.get_token(), s, r).start(); D_CHECK(r == 0, "resumed although stop was not requested"); n = 1; }
      for (int i = 0; i < n; i++) { waiter(src.get_token(), s, r).start(); if (how == 0) D_CHECK(r == i + 1, "not resumed although stop was requested"); }
      if (how) D_CHECK(r == 0, "resumed although stop was not requested"); src.request_stop(); D_CHECK(r == (how == 2 ? s : n), "not resumed exactly once by the request"); D_COVER("resumed"); src.request_stop(); }
}
// a request nobody can make any more: registered callbacks never run and cost nothing
inline void never() {
    int runs = 0; std::unique_ptr<stop_callback> a, b; int how = d_choose(3);
    { stop_source s; a.reset(new stop_callback(s.get_token(), [&] { ++runs; })); stop_token t = s.get_token(); if (how == 0) { s = stop_source(); D_CHECK(!t.stop_possible(), "a request is possible without a source"); b.reset(new stop_callback(t, [&] { ++runs; })); D_COVER("orphan"); } if (how == 1) { stop_source z(std::move(s)); z.request_stop(); D_CHECK(runs == 1, "not run"); b.reset(new stop_callback(t, [&] { ++runs; })); D_CHECK(runs == 2, "a callback registered after the request does not run in its constructor"); } }
    { stop_callback c(stop_token(), [&] { ++runs; }); }
    D_CHECK(runs == (how == 1 ? 2 : 0), "a callback runs although stop was never requested"); if (d_choose(2)) std::swap(a, b); a.reset(); b.reset(); D_CHECK(runs == (how == 1 ? 2 : 0), "a callback runs when it is destroyed");
}
}
D_CLIENT(P10, history) { p10::history(); }
D_CLIENT(P10, many) { p10::many(); }
D_CLIENT(P10, inside) { p10::inside(); }
D_CLIENT(P10, await) { p10::await(); }
D_CLIENT(P10, never) { p10::never(); }
