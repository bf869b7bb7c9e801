#include "nx.h"
#include <macoro/sequence_barrier.h>
#include <macoro/macros.h>
#include <macoro/task.h>
using namespace macoro;
namespace {
template<class S> struct Env {
    sequence_barrier<S> b; S init; int total; int data[8] = {}; int resumed[8] = {}; S got[8] = {};
    Env(S i, int n) : b(i), init(i), total(n) {}
    bool prec(S a, S c) { return sequence_traits<S>::precedes(a, c); }
    S at(int k) { return (S)(init + (S)k); }
};
template<class S> nx::Detached waiter(Env<S>& e, int id, int k) {
    S r = co_await e.b.wait_until_published(e.at(k));
    NX_CHECK(!e.prec(r, e.at(k)), "wait for init+%d finished with a number before it", k);
    NX_CHECK(!e.prec(e.at(e.total), r), "wait finished with a number that was never published");
    for (int i = 1; i <= k; i++) NX_CHECK(e.data[i] == i, "element %d is not visible after waiting for %d", i, k);
    e.got[id] = r; ++e.resumed[id];
}
// one coroutine waiting for several numbers in turn
template<class S> nx::Detached walker(Env<S>& e, int id) {
    int k = 1;
    while (k <= e.total) {
        S r = co_await e.b.wait_until_published(e.at(k));
        int upto = (int)(typename std::make_signed<S>::type)(S)(r - e.init);
        NX_CHECK(upto >= k && upto <= e.total, "wait for %d returned %d", k, upto);
        for (; k <= upto; k++) NX_CHECK(e.data[k] == k, "element %d is not visible although reported published", k);
    }
    ++e.resumed[id];
}
template<class S> void scen() {
    static const S inits[] = { (S)-1, (S)0, (S)(std::numeric_limits<S>::max() / 2 - 1), (S)-3 };
    int total = 1 + nx::choose(3); Env<S> e(inits[nx::choose(4)], total + 1); int nw = 1 + nx::choose(4); int last = 0; int tgt[4] = {};
    {
        std::vector<nx::Thread> th;         for (int i = 0; i < nw; i++) {
            int k = nx::choose(5) % (total + 2);           // total + 1 is published at the very end only
            bool wk = nx::choose(4) == 0; tgt[i] = wk ? total + 1 : k;
            auto run = [&e, i, k, wk] { if (wk) walker<S>(e, i).start(); else waiter<S>(e, i, k).start(); };
            if (nx::choose(2)) run(); else th.emplace_back(run);
        }
        int step = 1 + nx::choose(2);
        th.emplace_back([&] { while (last < total) { int nx_ = std::min(total, last + step); for (int i = last + 1; i <= nx_; i++) e.data[i] = i; last = nx_; e.b.publish(e.at(last)); } });
    }
    NX_CHECK(e.b.last_published() == e.at(total), "last_published is not the last published number");
    for (int i = 0; i < nw; i++) NX_CHECK(e.resumed[i] == (tgt[i] <= total), "waiter %d (target %d) resumed %d times when %d is published", i, tgt[i], e.resumed[i], total);
    e.data[total + 1] = total + 1; e.b.publish(e.at(total + 1));
    for (int i = 0; i < nw; i++) NX_CHECK(e.resumed[i] == 1, "waiter %d resumed %d times although its number was published", i, e.resumed[i]);
}
template<class S> void seq() {
    static const S inits[] = { (S)-1, (S)0, (S)(std::numeric_limits<S>::max() / 2 - 2), (S)-4 };
    Env<S> e(inits[nx::choose(4)], 7); int n = 0, last = 0; int tgt[8];
    for (int s = 0; s < 9; s++) {
        if (n < 7 && nx::choose(2)) { tgt[n] = nx::choose(8); waiter<S>(e, n, tgt[n]).start(); ++n; }
        else if (last < 7) { int to = std::min(7, last + 1 + nx::choose(2)); for (int i = last + 1; i <= to; i++) e.data[i] = i; last = to; e.b.publish(e.at(last)); }
        NX_CHECK(e.b.last_published() == e.at(last), "last_published wrong");
        for (int i = 0; i < n; i++) NX_CHECK(e.resumed[i] == (tgt[i] <= last), "waiter for init+%d resumed %d times when init+%d is published", tgt[i], e.resumed[i], last);
        for (int i = 0; i < n; i++) if (e.resumed[i]) NX_CHECK(!e.prec(e.at(last), e.got[i]) && !e.prec(e.got[i], e.at(tgt[i])), "waiter told a wrong number");
    }
    for (int i = last + 1; i <= 7; i++) e.data[i] = i; last = 7; e.b.publish(e.at(7));
    for (int i = 0; i < n; i++) NX_CHECK(e.resumed[i] == 1, "waiter %d resumed %d times", i, e.resumed[i]);
}
}
NX_SCENARIO(P06, barrier_mt_u64) { scen<std::size_t>(); }
NX_SCENARIO(P06, barrier_mt_u8) { scen<std::uint8_t>(); }
NX_SCENARIO(P06, barrier_seq_u64) { seq<std::size_t>(); }
NX_SCENARIO(P06, barrier_seq_u16) { seq<std::uint16_t>(); }
namespace {
// the same wait from a macoro coroutine (resumed through a macoro handle)
task<int> mc_wait(sequence_barrier<>& b, std::size_t t, int* out) {
    MC_BEGIN(task<int>, &b, t, out, r = std::size_t{});
    MC_AWAIT_SET(r, b.wait_until_published(t));
    NX_CHECK(r >= t, "wait finished early"); ++*out;
    MC_RETURN(1);
    MC_END();
}
nx::Detached run_mc(sequence_barrier<>& b, std::size_t t, int* out) { int v = co_await mc_wait(b, t, out); NX_CHECK(v == 1, "wrong result"); }
}
NX_SCENARIO(P06, barrier_macro) {
    sequence_barrier<> b(0); int out = 0; std::size_t t = 1 + nx::choose(2); 
    { nx::Thread a([&] { run_mc(b, t, &out).start(); }); nx::Thread p([&] { b.publish(1); b.publish(2); }); }
    NX_CHECK(out == 1, "macro coroutine resumed %d times", out);
}
