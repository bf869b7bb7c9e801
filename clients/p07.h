#include <macoro/task.h>
#include <macoro/sequence_spsc.h>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p07 {
// any number of the type (bounded stand-in: around the edges)
template<class S> S any() {
#ifdef VP_VERIFY
    return (S)vp_nondet_u64();
#else
    int k = nx::choose(4); int o = nx::choose(9) - 4; return k == 0 ? (S)o : k == 1 ? (S)((S)((S)1 << (sizeof(S) * 8 - 1)) + o) : (S)(nx::choose(65536) * 2654435761ull);
#endif
}
// any number lo <= n <= hi
inline std::size_t within(std::size_t lo, std::size_t hi) {
#ifdef VP_VERIFY
    std::size_t n = vp_nondet_u64(); vp_assume(n >= lo && n <= hi); return n;
#else
    std::size_t w = hi - lo; int k = nx::choose(4); std::size_t o = k == 0 ? nx::choose(5) : k == 1 ? w - nx::choose(5) : nx::choose(65536); return lo + (w == ~std::size_t(0) ? o : o % (w + 1));
#endif
}
template<class S> struct Got { int n = 0; S front{}, back{}; std::size_t size = 0; sequence_range<S> r; };
template<class S> d::Co batch(sequence_spsc<S>& q, std::size_t count, Got<S>& g) { sequence_range<S> r = co_await q.claim_up_to(count); g.r = r; g.front = r.front(); g.back = r.back(); g.size = r.size(); ++g.n; }
template<class S> d::Co one(sequence_spsc<S>& q, Got<S>& g) { S s = co_await q.claim_one(); g.r = sequence_range<S>(s, (S)(s + 1)); g.front = g.back = s; g.size = 1; ++g.n; }
template<class S> d::Co wait(sequence_spsc<S>& q, S target, bool known, int& n, S& told) { S s; if (known) s = co_await q.wait_until_published(target, told); else s = co_await q.wait_until_published(target); told = s; ++n; }
// Any state (up to renaming of numbers) is reached by one batch claim, one publication and one release; then one more claim of either kind from there.
template<class S> void claims() {
    const std::size_t half = (std::size_t)1 << (sizeof(S) * 8 - 1); S init = any<S>(); std::size_t B = within(1, half);
    sequence_barrier<S> cb(init); sequence_spsc<S> q(cb, B, init); D_CHECK(q.last_published() == init, "a new sequencer has published something");
    std::size_t c1 = within(1, ~(std::size_t)0); Got<S> g1; batch(q, c1, g1).start();
    D_CHECK(g1.n == 1, "a claim waits although slots are free"); std::size_t p = c1 < B ? c1 : B;
    D_CHECK(g1.front == (S)(init + 1) && g1.size == p && g1.back == (S)(init + p), "the first batch is not min(requested, free) consecutive numbers from the start"); D_CHECK(q.last_published() == init, "claiming publishes");
    std::size_t c = within(0, p); if (c) cb.publish((S)(init + c));
    std::size_t free = B - (p - c); bool batched = d_choose(2); std::size_t c2 = batched ? within(1, ~(std::size_t)0) : 1; Got<S> g2;
    if (batched) batch(q, c2, g2).start(); else one(q, g2).start();
    if (!free) {
        D_CHECK(g2.n == 0, "a slot not yet released by the consumer is handed out"); D_COVER("waits");
        std::size_t d = within(1, p); cb.publish((S)(init + d)); free = d;
    }
    D_CHECK(g2.n == 1, "a claim waits although a slot is free"); std::size_t want = c2 < free ? c2 : free;
    D_CHECK(g2.front == (S)(init + p + 1), "numbers are not handed out consecutively"); D_CHECK(g2.size >= 1 && g2.size <= c2, "a batch is empty or larger than requested"); D_CHECK(g2.size <= free, "a batch contains slots not yet released by the consumer");
    D_CHECK(g2.size == want && g2.back == (S)(g2.front + (want - 1)), "the batch is not min(requested, free) numbers"); if (want == c2) D_COVER("all"); else D_COVER("part");
    cb.publish((S)(init + p)); Got<S> g3; one(q, g3).start(); 
    if (want < B) { D_CHECK(g3.n == 1 && g3.front == (S)(init + p + want + 1), "the number after a claimed batch is handed out twice or skipped"); D_COVER("next"); }
    else { D_CHECK(g3.n == 0, "a slot not yet released by the consumer is handed out"); cb.publish((S)(init + p + 1)); D_CHECK(g3.n == 1 && g3.front == (S)(init + p + want + 1), "the claim is not granted when a slot is released"); }
}
// publishing makes exactly the claimed numbers visible
template<class S> void publishes() {
    const std::size_t half = (std::size_t)1 << (sizeof(S) * 8 - 1); S init = any<S>(); std::size_t B = within(1, half - 1);
    sequence_barrier<S> cb(init); sequence_spsc<S> q(cb, B, init); Got<S> g; batch(q, within(1, half), g).start(); D_CHECK(g.n == 1, "a claim waits although slots are free"); std::size_t p = g.size;
    std::size_t t = within(0, B + 1 < half ? B + 1 : B); S told = init; int woken = 0; wait(q, (S)(init + t), d_choose(2), woken, told).start(); D_CHECK(woken == (t == 0), "waiting for a number ends before it is published, or not although it is"); 
    std::size_t a = within(1, p); q.publish((S)(init + a)); D_CHECK(q.last_published() == (S)(init + a), "publishing one number publishes another");
    D_CHECK(woken == (t <= a), "the waiter is not resumed exactly when its number is published"); if (t && t <= a) { D_CHECK(told == (S)(init + a), "the waiter is told a wrong number"); D_COVER("by-number"); }
    q.publish(g.r); D_CHECK(q.last_published() == (S)(init + p) && q.last_published() == g.back, "publishing a batch does not publish exactly the batch");
    D_CHECK(woken == (t <= p), "the waiter is not resumed exactly when its number is published"); if (t > a && t <= p) { D_CHECK(told == (S)(init + p), "the waiter is told a wrong number"); D_COVER("by-batch"); }
    if (t > p) { D_COVER("later"); cb.publish((S)(init + p)); Got<S> g2; batch(q, B + 1, g2).start(); D_CHECK(g2.n == 1 && g2.size == B, "a whole free ring is not granted"); q.publish(g2.r); D_CHECK(q.last_published() == (S)(init + p + B), "publishing a batch does not publish exactly the batch"); 
        if (t > p + B) q.publish((S)(init + t)); }
    D_CHECK(woken == 1, "a waiter is left asleep or resumed twice");
}
// several claims outstanding at once: each publication makes visible what it names and nothing claimed later
template<class S> void overlapping() {
    const std::size_t half = (std::size_t)1 << (sizeof(S) * 8 - 1); S init = any<S>(); std::size_t B = within(2, half - 1);
    sequence_barrier<S> cb(init); sequence_spsc<S> q(cb, B, init); Got<S> g, h; std::size_t p = within(1, B - 1); batch(q, p, g).start(); D_CHECK(g.n == 1 && g.size == p, "a claim waits although slots are free");
    bool single = d_choose(2); if (single) one(q, h).start(); else batch(q, within(1, half), h).start(); D_CHECK(h.n == 1 && h.front == (S)(g.back + 1), "numbers are not handed out consecutively"); D_CHECK(q.last_published() == init, "claiming publishes");
    std::size_t all = p + h.size; D_CHECK(all <= B, "more numbers are handed out than there are slots"); std::size_t t = within(1, all); S told = init; int woken = 0; wait(q, (S)(init + t), d_choose(2), woken, told).start(); D_CHECK(woken == 0, "waiting for a number ends before it is published");
    if (d_choose(2)) q.publish(g.r); else q.publish(g.back);
    D_CHECK(q.last_published() == g.back, "publishing makes numbers visible that were claimed but not published"); D_CHECK(woken == (t <= p), "the waiter is not resumed exactly when its number is published");
    if (single) q.publish(h.front); else q.publish(h.r); D_CHECK(q.last_published() == (S)(init + all), "publishing a batch does not publish exactly the batch"); D_CHECK(woken == 1, "a waiter is left asleep or resumed twice"); D_COVER("both");
}
}
D_CLIENT(P07, overlapping_u64) { p07::overlapping<std::size_t>(); }
D_CLIENT(P07, overlapping_u8) { p07::overlapping<unsigned char>(); }
D_CLIENT(P07, claims_u64) { p07::claims<std::size_t>(); }
D_CLIENT(P07, claims_u8) { p07::claims<unsigned char>(); }
D_CLIENT(P07, publishes_u64) { p07::publishes<std::size_t>(); }
D_CLIENT(P07, publishes_u8) { p07::publishes<unsigned char>(); }
