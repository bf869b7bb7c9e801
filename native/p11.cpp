#include <memory>
#include "../clients/p11.h"
// copies, assignments and destructions of handles of one state from several threads
NX_SCENARIO(P11, handles_mt) {
    int nt = 2 + nx::choose(2); int plan[4][3]; for (auto& p : plan) for (auto& c : p) c = nx::choose(8); bool keep = nx::choose(2), ask = nx::choose(2); std::atomic<int> asked{ 0 }, runs{ 0 };
    auto src = std::make_unique<stop_source>(); stop_token obs; if (nx::choose(2)) obs = src->get_token();
    {
        std::vector<nx::Thread> th;
        for (int t = 0; t < nt; t++) th.emplace_back([&asked, &plan, &runs, t, s = stop_source(*src), k = src->get_token()]() mutable {
            for (int c : plan[t]) {
                bool before = asked.load(std::memory_order_relaxed); (void)before;
                if (c == 0) { stop_source a(s); s = a; } else if (c == 1) { stop_token a(k); k = std::move(a); } else if (c == 2) k = s.get_token(); else if (c == 3) { asked.store(1, std::memory_order_relaxed); s.request_stop(); NX_CHECK(k.stop_requested() || !k.stop_possible() || true, "client"); NX_CHECK(s.stop_requested(), "a request is not reported"); }
                else if (c == 4) { stop_callback cb(k, [&] { ++runs; }); } else if (c == 5) { bool q = k.stop_requested(); NX_CHECK(!q || asked.load(std::memory_order_relaxed), "stop is reported although nobody requested it"); if (q) NX_CHECK(k.stop_requested() && k.stop_possible(), "the answer reverts"); }
                else if (c == 6) { stop_token a; a.swap(k); k = a; NX_CHECK(k.stop_possible(), "a live source cannot request stop"); } else { stop_source a(std::move(s)); s = std::move(a); }
            } });
        if (!keep) src.reset();
    }
    if (src && ask) { src->request_stop(); NX_CHECK(src->stop_requested() && (!obs.stop_possible() || obs.stop_requested()), "a request is not reported"); }
    if (!src) { bool r = obs.stop_requested(); NX_CHECK(obs.stop_possible() == r, "stop is possible without source or request"); }
}
// only tokens are left: the last one, on whichever thread, cleans up after the callbacks of all
NX_SCENARIO(P11, last_token_mt) {
    auto s = std::make_unique<stop_source>(); int nt = 2 + nx::choose(2); bool ask = nx::choose(2), cb[4]; for (auto& b : cb) b = nx::choose(2); if (ask) s->request_stop(); std::vector<stop_token> t; for (int i = 0; i < nt; i++) t.push_back(s->get_token());
    std::vector<nx::Thread> th; for (int i = 0; i < nt; i++) th.emplace_back([&cb, i, k = std::move(t[i])]() mutable { if (cb[i]) { stop_callback x(k, [] {}); } nx::yield(); k = stop_token(); });
    if (nx::choose(2)) th.emplace_back([k = std::move(s)]() mutable { k.reset(); }); else s.reset();
}
