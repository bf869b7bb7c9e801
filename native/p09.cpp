#include <memory>
#include "../clients/p09.h"
namespace {
using U = std::unique_ptr<int>;
template<class C> struct Ch { C c; int n[3] = {}; int sdone[3] = {}; int rdone = 0; Ch(int cap) : c(cap) {} };
// sender id pushes id*100 + i
template<class C> nx::Detached sender(Ch<C>& w, int id, int kind, bool close) {
    for (int i = 0; i < w.n[id]; i++) {
        if (kind == 0) co_await w.c.push(std::make_unique<int>(id * 100 + i));
        else { auto s = co_await w.c.push(); s = std::make_unique<int>(id * 100 + i); if (kind == 1) s.publish(); }
    }
    if (close) co_await w.c.close();
    w.sdone[id] = 1;
}
template<class C> nx::Detached receiver(Ch<C>& w, int kind, int expect, bool closes) {
    int next[3] = {}; int got = 0; bool closed = false;
    while (closes ? !closed : got < expect) {
        try {
            if (kind == 1) { U& f = co_await w.c.front(); NX_CHECK(f != nullptr, "the front is not yet stored"); }
            auto p = co_await w.c.pop(); U u = std::move(*p); if (kind == 2) p.publish();
            NX_CHECK(u != nullptr, "an element is received before it was stored"); int id = *u / 100, i = *u % 100;
            NX_CHECK(id >= 0 && id < 3 && i == next[id], "sender %d: element %d received where %d is next", id, i, next[id]); ++next[id]; ++got;
        } catch (channel_closed_exception&) { closed = true; }
    }
    NX_CHECK(got == expect, "%d of %d elements received when the channel is closed", got, expect); w.rdone = 1;
}
template<class C> void scen(int maxs) {
    Ch<C> w(1 << nx::choose(3)); int ns = 1 + nx::choose(maxs), total = 0; int rk = nx::choose(3), sk[3]; for (int i = 0; i < ns; i++) { total += w.n[i] = 1 + nx::choose(maxs == 1 ? 6 : 3); sk[i] = nx::choose(3); }
    bool cl = ns == 1 && nx::choose(2);
    { std::vector<nx::Thread> th; for (int i = 0; i < ns; i++) th.emplace_back([&, i] { sender(w, i, sk[i], cl).start(); }); th.emplace_back([&] { receiver(w, rk, total, cl).start(); }); }
    for (int i = 0; i < ns; i++) NX_CHECK(w.sdone[i], "sender %d sleeps for ever", i);
    NX_CHECK(w.rdone, "the receiver sleeps for ever");
}
}
NX_SCENARIO(P09, channel_mt_spsc) { scen<spsc::channel<U>>(1); }
NX_SCENARIO(P09, channel_mt_mpsc) { scen<mpsc::channel<U>>(3); }
