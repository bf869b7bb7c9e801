#include "nx.h"
#include <memory>
#include <macoro/barrier.h>
using namespace macoro;
namespace macoro::detail { NX_DETACHED(Det) }
namespace {
macoro::detail::Det wait1(barrier& b, std::atomic<int>* done, std::function<void()> after) {
    co_await b;
    done->fetch_add(1, std::memory_order_relaxed);
    if (after) after();
}
}
// the last decrement races with the start of the wait; the waiter may release the barrier as soon as it continues
NX_SCENARIO(P17, barrier_mt) {
    int n = 1 + nx::choose(3); bool ctor = nx::choose(2); int owner = nx::choose(2);
    auto* b = new barrier(ctor ? n : 0); if (!ctor) { if (nx::choose(2)) NX_CHECK(b->add(n) == (size_t)n, "add answers the wrong count"); else for (int i = 0; i < n; i++) b->increment(); }
    std::atomic<int> dec{ 0 }, done{ 0 }, early{ 0 };
    {
        std::vector<nx::Thread> th;
        for (int i = 0; i < n; i++) th.emplace_back([&] { dec.fetch_add(1, std::memory_order_relaxed); b->decrement(); });
        th.emplace_back([&] { wait1(*b, &done, [&] { if (dec.load(std::memory_order_relaxed) != n) early = 1; if (owner) { delete b; } }).start(); });
    }
    NX_CHECK(!early, "the waiter proceeds before the count reached zero");
    NX_CHECK(done == 1, "the waiter was resumed %d times", (int)done);
    if (!owner) { NX_CHECK(b->count() == 0, "count is %d at the end", (int)b->count()); delete b; }
}
// reuse: second round starts as soon as the first wait is over
NX_SCENARIO(P17, barrier_reuse) {
    barrier b(1); std::atomic<int> done1{ 0 }, done2{ 0 }; int rel2 = 0; std::atomic<int> go{ 0 };
    {
        std::vector<nx::Thread> th;
        th.emplace_back([&] { b.decrement(); });
        th.emplace_back([&] { wait1(b, &done1, [&] { b.add(1); wait1(b, &done2, [&] { NX_CHECK(go.load() == 1, "second wait is over before its decrement"); rel2++; }).start(); go = 1; b.decrement(); }).start(); });
    }
    NX_CHECK(done1 == 1 && done2 == 1, "waits done %d %d", (int)done1, (int)done2);
}
NX_SCENARIO(P17, barrier_seq) {
    size_t c = nx::choose(3); barrier b(c); std::atomic<int> done{ 0 }; int expect = 0; bool waiting = false;
    for (int s = 0; s < 10; s++) {
        int k = nx::choose(4);
        if (k == 0) { c++; NX_CHECK(b.increment() == c, "increment answers the wrong count"); if (0) waiting = waiting; }
        else if (k == 1) { int a = nx::choose(3); c += a; NX_CHECK(b.add(a) == c, "add answers the wrong count"); }
        else if (k == 2) { if (c) { --c; if (!c && waiting) { waiting = false; ++expect; } NX_CHECK(b.decrement() == c, "decrement answers the wrong count"); } }
        else if (!waiting) { if (c) waiting = true; else ++expect; wait1(b, &done, nullptr).start(); }
        NX_CHECK(done == expect, "resumed %d waits, expected %d", (int)done, expect);
        NX_CHECK(b.count() == c, "count() answers %d, expected %d", (int)b.count(), (int)c);
        if (!c && waiting) nx::fail("model");
    }
    while (c) { --c; if (!c && waiting) { waiting = false; ++expect; } b.decrement(); }
    NX_CHECK(done == expect, "resumed %d waits at the end, expected %d", (int)done, expect);
}
