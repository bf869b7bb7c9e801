#include <memory>
#include "../clients/p08.h"
namespace {
template<class S> struct Ring {
    S init; std::size_t B; sequence_barrier<S> cb; sequence_mpsc<S> q; std::vector<int> slot; int total; std::vector<std::atomic<int>> claimed; int pdone[3] = {}; int received = 0, cdone = 0;
    Ring(S i, std::size_t b, int n) : init(i), B(b), cb(i), q(cb, b, i), slot(b), total(n), claimed(n + 1) {}
    int& at(S s) { return slot[(std::size_t)s & (B - 1)]; }
    int idx(S s) { return (int)(typename std::make_signed<S>::type)(S)(s - init); }
    void own(S s) { int i = idx(s); NX_CHECK(i >= 1 && i <= total, "number init+%d handed out of %d", i, total); NX_CHECK(claimed[i].exchange(1, std::memory_order_relaxed) == 0, "number init+%d is handed out twice", i); at(s) = i; }
};
template<class S, bool Batch> nx::Detached producer(Ring<S>& r, int id, int n, const int* how) {
    int k = 0;
    while (n) {
        int h = Batch ? how[k++ & 7] : 0;
        if (h == 0) { S s = co_await r.q.claim_one(); r.own(s); r.q.publish(s); --n; }
        else if constexpr (Batch) {
            std::size_t want = std::min(h, n); auto g = co_await r.q.claim_up_to(want); NX_CHECK(g.size() >= 1 && g.size() <= want, "batch of %d for %d", (int)g.size(), (int)want);
            for (S s : g) r.own(s);
            if (h == 3) for (std::size_t i = g.size(); i--;) r.q.publish(g[i]); else r.q.publish(g);
            n -= (int)g.size();
        }
    }
    r.pdone[id] = 1;
}
template<class S> nx::Detached consumer(Ring<S>& r, int ahead, int lag) {
    S known = r.init;
    while (r.received < r.total) {
        int t = std::min(r.received + 1 + ahead % (int)r.B, r.total);
        S last = co_await r.q.wait_until_published((S)(r.init + t), known); known = last;
        int upto = r.idx(last); NX_CHECK(upto >= t && upto <= r.total, "told %d waiting for %d of %d", upto, t, r.total);
        while (r.received < upto) {
            S s = (S)(r.init + 1 + r.received); int v = r.at(s); ++r.received; NX_CHECK(v == r.received, "slot of number %d holds %d: overwritten before its release or not yet written", r.received, v);
            r.at(s) = -1; if (r.received % lag == 0) r.cb.publish(s);
        }
        r.cb.publish((S)(r.init + r.received));
    }
    r.cdone = 1;
}
template<class S, bool Batch> void scen() {
    static const S inits[] = { (S)-1, (S)0, (S)(std::numeric_limits<S>::max() / 2 - 1), (S)-4 }; static const std::size_t sizes[] = { 1, 2, 4 };
    int np = 1 + nx::choose(3); int n[3]; int total = 0; for (int i = 0; i < np; i++) total += n[i] = 1 + nx::choose(3);
    Ring<S> r(inits[nx::choose(4)], sizes[nx::choose(3)], total); int how[3][8]; for (auto& a : how) for (int& h : a) h = nx::choose(4); int ahead = nx::choose(2), lag = 1 + nx::choose(3);
    { std::vector<nx::Thread> th; for (int i = 0; i < np; i++) th.emplace_back([&, i] { producer<S, Batch>(r, i, n[i], how[i]).start(); }); th.emplace_back([&] { consumer(r, Batch ? 0 : ahead, lag).start(); }); }
    for (int i = 0; i < np; i++) NX_CHECK(r.pdone[i], "producer %d sleeps for ever (%d of %d received)", i, r.received, total);
    NX_CHECK(r.cdone, "the consumer sleeps for ever (%d of %d received)", r.received, total);
}
// several coroutines wait for different numbers while producers publish out of order; nothing is released, so nothing may be lapped
template<class S> nx::Detached waiter(Ring<S>& r, int t, int* n, int* told) { S s = co_await r.q.wait_until_published((S)(r.init + t), r.init); *told = r.idx(s); for (int i = 1; i <= t; i++) NX_CHECK(r.at((S)(r.init + i)) == i, "element %d is not visible after waiting for %d", i, t); ++*n; }
template<class S> void waiters() {
    static const S inits[] = { (S)-1, (S)0, (S)(std::numeric_limits<S>::max() / 2 - 1), (S)-3 };
    int total = 2 + nx::choose(3), nw = 1 + nx::choose(3), np = 1 + nx::choose(2); Ring<S> r(inits[nx::choose(4)], 4, total); int n[3] = {}, told[3] = {}, t[3], how[8] = {};
    for (int i = 0; i < nw; i++) t[i] = 1 + nx::choose(total);
    { std::vector<nx::Thread> th; for (int i = 0; i < nw; i++) { auto go = [&, i] { waiter(r, t[i], &n[i], &told[i]).start(); }; if (nx::choose(3) == 0) go(); else th.emplace_back(go); }
      for (int p = 0; p < np; p++) th.emplace_back([&, p] { producer<S, false>(r, p, p == 0 ? total - total / 2 * (np - 1) : total / 2, how).start(); }); }
    NX_CHECK(r.q.last_published_after(r.init) == (S)(r.init + total), "not everything is published");
    for (int i = 0; i < nw; i++) { NX_CHECK(n[i] == 1, "waiter for %d resumed %d times when %d numbers are published", t[i], n[i], total); NX_CHECK(told[i] >= t[i] && told[i] <= total, "waiter for %d told %d", t[i], told[i]); }
}
}
NX_SCENARIO(P08, mpsc_mt_u64) { scen<std::size_t, true>(); }
NX_SCENARIO(P08, mpsc_mt_u8) { scen<std::uint8_t, false>(); }
NX_SCENARIO(P08, mpsc_waiters_u64) { waiters<std::size_t>(); }
NX_SCENARIO(P08, mpsc_waiters_u8) { waiters<std::uint8_t>(); }
