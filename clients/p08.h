#include <macoro/task.h>
#include <macoro/sequence_mpsc.h>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p08 {
template<class S> S any() {
#ifdef VP_VERIFY
    return (S)vp_nondet_u64();
#else
    int k = nx::choose(4); int o = nx::choose(17) - 8; return k == 0 ? (S)o : k == 1 ? (S)((S)((S)1 << (sizeof(S) * 8 - 1)) + o) : (S)(nx::choose(65536) * 2654435761ull);
#endif
}
inline std::size_t within(std::size_t lo, std::size_t hi) {
#ifdef VP_VERIFY
    std::size_t n = vp_nondet_u64(); vp_assume(n >= lo && n <= hi); return n;
#else
    std::size_t w = hi - lo; int k = nx::choose(4); std::size_t o = k == 0 ? nx::choose(9) : k == 1 ? w - nx::choose(9) : nx::choose(65536); return lo + (w == ~std::size_t(0) ? o : o % (w + 1));
#endif
}
template<class S> struct Got { int n = 0; S front{}; std::size_t size = 0; };
template<class S> d::Co batch(sequence_mpsc<S>& q, std::size_t count, Got<S>& g) { sequence_range<S> r = co_await q.claim_up_to(count); g.front = r.front(); g.size = r.size(); ++g.n; }
template<class S> d::Co one(sequence_mpsc<S>& q, Got<S>& g) { S s = co_await q.claim_one(); g.front = s; g.size = 1; ++g.n; }
template<class S> struct Wt { int n = 0; S told{}; int target = 0; bool reg = false; };
template<class S> d::Co wait(const sequence_mpsc<S>& q, S target, S known, Wt<S>& w) { S s = co_await q.wait_until_published(target, known); w.told = s; ++w.n; }
// claims: distinct consecutive numbers, at least one, at most what was asked for (and the ring's size), granted exactly when all of them are free
template<class S, bool Batch> void claims() {
    S init = any<S>(); std::size_t B = (std::size_t)1 << (Batch ? d_choose(4) : d_choose(3)); sequence_barrier<S> cb(init); sequence_mpsc<S> q(cb, B, init);
    D_CHECK(q.buffer_size() == B && q.any_available(), "a new sequencer has no free slot"); D_CHECK(q.last_published_after(init) == init, "a new sequencer has published something");
    std::size_t p = 0, rel = 0; Got<S> g[3]; std::size_t want[3];
    for (int i = 0; i < 3; i++) {
        D_CHECK(q.any_available() == (p - rel < B), "any_available is not whether a slot is free");
        bool b = Batch && d_choose(2); std::size_t c = b ? within(1, ~(std::size_t)0) : 1; want[i] = c < B ? c : B;
        if constexpr (Batch) { if (b) batch(q, c, g[i]).start(); else one(q, g[i]).start(); } else one(q, g[i]).start();
        p += want[i]; D_CHECK(g[i].n == (p - rel <= B), "a claim is granted before its slots are released, or waits although they are free"); if (!g[i].n) D_COVER("waits"); else D_COVER("granted");
        if (i == 0) { std::size_t r = within(0, want[0]); if (r) { rel = r; cb.publish((S)(init + r)); } }
    }
    std::size_t r2 = within(rel, want[0]); rel = r2; cb.publish((S)(init + rel)); 
    std::size_t e = 0; for (int i = 0; i < 3; i++) { e += want[i]; D_CHECK(g[i].n == (e - rel <= B || e <= B), "a claim is granted before its slots are released, or not granted although they are"); }
    cb.publish((S)(init + want[0] + want[1])); e = 0;
    for (int i = 0; i < 3; i++) { D_CHECK(g[i].n == 1, "a claim is left asleep or granted twice"); D_CHECK(g[i].front == (S)(init + 1 + e), "numbers are not distinct and consecutive"); D_CHECK(g[i].size == want[i], "a batch has not min(requested, ring) numbers"); e += want[i]; }
    D_COVER("all-granted");
}
// publications in any order: numbers become available in order, each waiter exactly once, exactly when its number and all before it are published
template<class S, int K, int NW> void publishes() {
    S init = any<S>(); sequence_barrier<S> cb(init); sequence_mpsc<S> q(cb, K < 3 ? 2 : 4, init); Got<S> g[K]; for (int i = 0; i < K; i++) { one(q, g[i]).start(); D_CHECK(g[i].n == 1 && g[i].front == (S)(init + 1 + i), "numbers are not distinct and consecutive"); }
    bool pub[K + 2] = {}; Wt<S> w[NW]; int pre = 0, left = K; for (auto& x : w) x.target = d_choose(K + 1);
    auto expect = [&] { 
        D_CHECK(q.last_published_after(init) == (S)(init + pre), "the last published number is not the end of the contiguous published prefix");
        for (auto& x : w) if (x.reg) { if (x.n == 0) D_CHECK(x.target > pre, "a waiter is left asleep although its number and all before it are published"); else { D_CHECK(x.n == 1, "a waiter is resumed twice"); D_CHECK(x.target <= pre, "a waiter is resumed before its number and all before it are published"); } } };
    auto reg = [&](Wt<S>& x) { if (!x.reg && d_choose(2)) { x.reg = true; int known = pre && d_choose(2) ? pre : 0; int p0 = pre; wait(q, (S)(init + x.target), (S)(init + known), x).start(); if (x.n) D_CHECK(x.told == (S)(init + (x.target <= known ? known : p0)), "a waiter is told a wrong number"); D_COVER(x.n ? "not-waited" : "waited"); } };
    while (left) {
        for (auto& x : w) reg(x); expect();
        int k = 0; for (int r = d_choose(left) + 1; r; r -= !pub[k]) ++k;                       // some unpublished number
        int m = k; if (left > 1 && m < K && !pub[m + 1] && d_choose(2)) ++m;      // or a range of two
        for (int i = k; i <= m; i++) { pub[i] = true; --left; }
        int before[NW]; for (int i = 0; i < NW; i++) before[i] = w[i].n; while (pre < K && pub[pre + 1]) ++pre;
        if (m == k) q.publish((S)(init + k)); else { q.publish(sequence_range<S>((S)(init + k), (S)(init + m + 1))); D_COVER("range"); }
        for (int i = 0; i < NW; i++) if (w[i].n > before[i]) { D_CHECK(w[i].told == (S)(init + pre), "a waiter is told a wrong number"); D_COVER("woken"); }
        expect();
    }
    for (auto& x : w) { if (!x.reg) { x.reg = true; wait(q, (S)(init + x.target), init, x).start(); } D_CHECK(x.n == 1, "a waiter is left asleep"); } expect();
}
}
D_CLIENT(P08, claims_u64) { p08::claims<std::size_t, true>(); }
D_CLIENT(P08, claims_u8) { p08::claims<unsigned char, false>(); }
D_CLIENT(P08, publishes2_u64) { p08::publishes<std::size_t, 2, 2>(); }
D_CLIENT(P08, publishes3_u64) { p08::publishes<std::size_t, 3, 1>(); }
D_CLIENT(P08, publishes3_u8) { p08::publishes<unsigned char, 3, 1>(); }
