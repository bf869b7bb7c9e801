#include <memory>
#include "../clients/p10.h"
namespace {
struct Cb { int runs = 0; std::atomic<int> in{ 0 }; bool dead = false; int kind = 0; std::unique_ptr<stop_callback> cb; };
void body(Cb* c) { c->in.store(1, std::memory_order_relaxed); NX_CHECK(!c->dead, "a callback runs after its deregistration"); ++c->runs; NX_CHECK(c->runs == 1, "a callback runs twice"); nx::yield(); c->in.store(0, std::memory_order_relaxed); }
}
// registrations, deregistrations and requests from several threads
NX_SCENARIO(P10, register_mt) {
    int pre = nx::choose(4); pre = pre == 3 ? 15 + nx::choose(2) : pre; int nt = 1 + nx::choose(3), nstop = 1 + nx::choose(2), per = 1 + nx::choose(2); bool holes = nx::choose(2);
    stop_source src; std::vector<std::unique_ptr<Cb>> P, Q(nt * per); int kinds[8]; for (auto& k : kinds) k = nx::choose(4); std::atomic<int> asked{ 0 };
    auto mk = [&](Cb* c) { c->cb.reset(new stop_callback(src.get_token(), [c, &asked] { NX_CHECK(asked.load(std::memory_order_relaxed), "a callback runs although stop was never requested"); body(c); })); };
    for (int i = 0; i < pre; i++) { P.emplace_back(new Cb); mk(P.back().get()); }
    if (holes && pre) P[nx::choose(pre)]->cb.reset();
    {
        std::vector<nx::Thread> th;
        for (int t = 0; t < nt; t++) th.emplace_back([&, t] { for (int k = 0; k < per; k++) { auto& q = Q[t * per + k]; q.reset(new Cb); Cb* c = q.get(); c->kind = kinds[t * 2 + k]; bool before = src.stop_requested(); mk(c); if (before) NX_CHECK(c->runs == 1, "a callback registered after the request does not run in its constructor");
            if (c->kind == 1) { nx::yield(); c->cb.reset(); NX_CHECK(c->in.load(std::memory_order_relaxed) == 0, "the destructor returns while the callback runs"); c->dead = true; if (before) NX_CHECK(c->runs == 1, "not run"); q.reset(); } } });
        for (int s = 0; s < nstop; s++) th.emplace_back([&] { asked.store(1, std::memory_order_relaxed); src.request_stop(); NX_CHECK(src.stop_requested(), "the request is not reported"); });
    }
    for (auto& q : Q) if (q) NX_CHECK(q->runs == 1, "a registered callback never runs");
    for (auto& p : P) NX_CHECK(p->runs == (p->cb ? 1 : 0), "a callback registered before the request runs %d times", p->runs);
    P.clear(); Q.clear();
}
// a callback that is destroyed by another thread, by itself or by another callback while the request is served
NX_SCENARIO(P10, destroy_mt) {
    stop_source src; int n = 2 + nx::choose(2); Cb* C[4] = {}; int who = nx::choose(n), self = nx::choose(3);
    for (int i = 0; i < n; i++) { C[i] = new Cb; Cb* c = C[i]; int k = i == who ? 0 : self; c->cb.reset(new stop_callback(src.get_token(), [c, k, &C, who, n, i] { Cb* d = c; int kk = k; body(d); if (kk == 1) { d->in = 0; d->cb.reset(); } })); }
    {
        std::vector<nx::Thread> th; th.emplace_back([&] { src.request_stop(); }); if (nx::choose(2)) th.emplace_back([&] { src.request_stop(); });
        th.emplace_back([&] { Cb* c = C[who]; c->cb.reset(); NX_CHECK(c->in.load(std::memory_order_relaxed) == 0, "the destructor returns while the callback runs"); delete c; C[who] = nullptr; });
    }
    for (int i = 0; i < n; i++) if (C[i]) { NX_CHECK(C[i]->runs == 1, "a registered callback never runs"); delete C[i]; }
}
namespace { nx::Detached awaiting(stop_token t, std::atomic<int>& r, std::unique_ptr<int> mine) { co_await std::move(t); NX_CHECK(*mine == 7, "the frame is gone"); ++r; } }
NX_SCENARIO(P10, await_mt) {
    std::atomic<int> r{ 0 }; int n = 1 + nx::choose(2);
    { stop_source src; std::vector<nx::Thread> th; for (int i = 0; i < n; i++) th.emplace_back([&] { awaiting(src.get_token(), r, std::make_unique<int>(7)).start(); }); th.emplace_back([&] { src.request_stop(); }); }
    NX_CHECK(r == n, "%d of %d waiting coroutines are resumed", (int)r, n);
}
