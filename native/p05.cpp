#include "nx.h"
#include <macoro/manual_reset_event.h>
using namespace macoro;
namespace {
struct W { int id; int* resumed; };
nx::Detached waiter(async_manual_reset_event& e, int* resumed, std::atomic<int>* sets, int* order, int* ord) {
    co_await e;
    NX_CHECK(sets->load(std::memory_order_relaxed) > 0, "a waiter was released although the event was never set");
    ++*resumed;
}
}
NX_SCENARIO(P05, event_mt) {
    int n = 1 + nx::choose(3); int resumed[4] = { 0, 0, 0, 0 }; std::atomic<int> sets{ 0 };
    int mode = nx::choose(3);
    {
        async_manual_reset_event e(false);
        {
            std::vector<nx::Thread> th;
            for (int i = 0; i < n; i++) th.emplace_back([&, i] { waiter(e, &resumed[i], &sets, nullptr, nullptr).start(); });
            th.emplace_back([&] { sets.store(1, std::memory_order_relaxed); e.set(); if (mode == 1) e.reset(); if (mode == 2) e.set(); });
        }
        sets.store(1, std::memory_order_relaxed);
        for (int i = 0; i < n; i++) NX_CHECK(resumed[i] <= 1, "waiter %d resumed %d times", i, resumed[i]);
        if (mode != 1) { NX_CHECK(e.is_set(), "event not set after set"); for (int i = 0; i < n; i++) NX_CHECK(resumed[i] == 1, "waiter %d lost its wake-up", i); }
        e.set(); NX_CHECK(e.is_set(), "event not set after set");
        for (int i = 0; i < n; i++) NX_CHECK(resumed[i] == 1, "waiter %d resumed %d times after the final set", i, resumed[i]);
        e.reset(); NX_CHECK(!e.is_set(), "event set after reset");
    }
}
NX_SCENARIO(P05, event_seq) {
    std::atomic<int> sets{ 0 }; int resumed[16] = {}; int expect[16] = {}; int n = 0;
    bool is = nx::choose(2); async_manual_reset_event e(is); if (is) sets = 1;
    std::vector<int> pend;
    for (int s = 0; s < 8; s++) {
        int c = nx::choose(4);
        if (c == 0) { sets = 1; e.set(); is = true; for (int p : pend) expect[p] = 1; pend.clear(); }
        else if (c == 1) { e.reset(); is = false; }
        else if (n < 16) { if (is) expect[n] = 1; else pend.push_back(n); waiter(e, &resumed[n], &sets, nullptr, nullptr).start(); ++n; }
        NX_CHECK(e.is_set() == is, "is_set answers %d, expected %d", (int)e.is_set(), (int)is);
        for (int i = 0; i < n; i++) NX_CHECK(resumed[i] == expect[i], "waiter %d resumed %d times, expected %d", i, resumed[i], expect[i]);
    }
    sets = 1; e.set(); for (int i = 0; i < n; i++) NX_CHECK(resumed[i] == 1, "waiter %d resumed %d times at the end", i, resumed[i]);
}
