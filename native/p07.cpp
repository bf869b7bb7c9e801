#include <memory>
#include "../clients/p07.h"
namespace {
template<class S> struct Ring {
    S init; std::size_t B; sequence_barrier<S> cb; sequence_spsc<S> q; std::vector<int> slot; int total; int sent = 0, received = 0; int pdone = 0, cdone = 0;
    Ring(S i, std::size_t b, int n) : init(i), B(b), cb(i), q(cb, b, i), slot(b), total(n) {}
    int& at(S s) { return slot[(std::size_t)s % B]; }
};
template<class S> nx::Detached producer(Ring<S>& r, const int* how) {
    while (r.sent < r.total) {
        int h = how[r.sent & 7];
        if (h == 0) { S s = co_await r.q.claim_one(); NX_CHECK(s == (S)(r.init + 1 + r.sent), "numbers are not consecutive"); r.at(s) = ++r.sent; r.q.publish(s); }
        else {
            std::size_t want = std::min<std::size_t>(h, r.total - r.sent); auto g = co_await r.q.claim_up_to(want);
            NX_CHECK(g.size() >= 1 && g.size() <= want, "batch of %d for %d", (int)g.size(), (int)want); NX_CHECK(g.front() == (S)(r.init + 1 + r.sent), "numbers are not consecutive");
            for (S s : g) r.at(s) = ++r.sent;
            r.q.publish(g);
        }
    }
    r.pdone = 1;
}
template<class S> nx::Detached consumer(Ring<S>& r, int lag) {
    while (r.received < r.total) {
        S last = co_await r.q.wait_until_published((S)(r.init + 1 + r.received));
        int upto = (int)(typename std::make_signed<S>::type)(S)(last - r.init); NX_CHECK(upto > r.received && upto <= r.total, "told %d when %d was received of %d", upto, r.received, r.total);
        while (r.received < upto) {
            S s = (S)(r.init + 1 + r.received); int v = r.at(s); ++r.received; NX_CHECK(v == r.received, "slot of number %d holds %d: overwritten before it was released, or not yet written", r.received, v);
            r.at(s) = -1; if (r.received % lag == 0) r.cb.publish(s);
        }
        r.cb.publish((S)(r.init + r.received));
    }
    r.cdone = 1;
}
template<class S> void scen() {
    static const S inits[] = { (S)-1, (S)0, (S)(std::numeric_limits<S>::max() / 2 - 1), (S)-4 }; static const std::size_t sizes[] = { 1, 2, 4, 3 };
    Ring<S> r(inits[nx::choose(4)], sizes[nx::choose(3)], 1 + nx::choose(7)); int how[8]; for (int& h : how) h = nx::choose(4); int lag = 1 + nx::choose(3);
    { nx::Thread p([&] { producer(r, how).start(); }), c([&] { consumer(r, lag).start(); }); }
    NX_CHECK(r.pdone && r.cdone, "producer (%d of %d) or consumer (%d) sleeps for ever", r.sent, r.total, r.received);
    NX_CHECK(r.q.last_published() == (S)(r.init + r.total), "last_published wrong");
}
}
NX_SCENARIO(P07, spsc_mt_u64) { scen<std::size_t>(); }
NX_SCENARIO(P07, spsc_mt_u8) { scen<std::uint8_t>(); }
