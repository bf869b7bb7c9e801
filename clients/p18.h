#include <coroutine>
#include <macoro/task.h>
#include <macoro/coroutine_handle.h>
#include <macoro/macros.h>
#include <macoro/awaiter.h>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p18 {
struct Ev { int n = 0, id[24] = {}, born[8] = {}, dead[8] = {}, ran[8] = {}, ended[8] = {}; void log(int i) { D_CHECK(n < 24, "coroutines are resumed again and again"); id[n++] = i; ++ran[i]; } };
// how the next coroutine is named by an awaiter or at final suspension
enum { TO_ERASED, TO_TYPED, TO_STD, NONE, FORMS = NONE };
template<size_t A, size_t N> struct Coro {
    struct alignas(A) promise_type {
        char pad[N] = {}; Ev* ev = nullptr; int id = -1; coroutine_handle<> next; bool stdEnd = false; d::Val* v = nullptr;
        promise_type() = default; promise_type(const promise_type&) = delete; ~promise_type() { if (ev) { D_CHECK(!v, "promise"); ++ev->dead[id]; } }
        suspend_always initial_suspend() noexcept { return {}; }
        struct Final { coroutine_handle<> to; bool await_ready() noexcept { return false; } coroutine_handle<> await_suspend(coroutine_handle<promise_type>) noexcept { return to; } std::coroutine_handle<> await_suspend(std::coroutine_handle<promise_type>) noexcept { return to.std_cast(); } void await_resume() noexcept {} };
        Final final_suspend() noexcept { ++ev->ended[id]; return { next ? next : coroutine_handle<>(noop_coroutine()) }; }
        void return_void() {} void unhandled_exception() { d_fail("exception in a coroutine"); }
        Coro get_return_object() { return { coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::std) }; }
        Coro macoro_get_return_object() { return { coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::macoro) }; }
    };
    coroutine_handle<promise_type> h;
    Coro& as(Ev& e, int id) { auto& p = h.promise(); D_CHECK(p.ev == nullptr && p.id == -1, "promise() is another coroutine's"); p.ev = &e; p.id = id; ++e.born[id]; return *this; }
};
// transfers control to another coroutine, named in one of the possible forms
template<int F, class P> struct Hop {
    coroutine_handle<> to; bool await_ready() const noexcept { return false; }
    auto await_suspend(coroutine_handle<P>) const noexcept { if constexpr (F == TO_ERASED) return to; else return coroutine_handle<P>::from_address(to.address()); }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<P>) const noexcept { return to.std_cast(); } void await_resume() const noexcept {}
};
template<class P> struct Hop<TO_STD, P> { coroutine_handle<> to; bool await_ready() const noexcept { return false; } std::coroutine_handle<> await_suspend(std::coroutine_handle<>) const noexcept { return to.std_cast(); } void await_resume() const noexcept {} };
struct Stay { bool await_ready() const noexcept { return false; } template<class H> void await_suspend(H) const noexcept {} void await_resume() const noexcept {} };
struct StayB { bool stay; bool await_ready() const noexcept { return false; } template<class H> bool await_suspend(H) const noexcept { return stay; } void await_resume() const noexcept {} };
template<class C> C sco(Ev& e, int id, coroutine_handle<>* to) { e.log(id); if (*to) co_await Hop<TO_ERASED, typename C::promise_type>{ *to }; else co_await Stay{}; e.log(id); }
template<class C, int F> C mco(Ev* e, int id, coroutine_handle<>* to) { MC_BEGIN(C, e, id, to); e->log(id); if (*to) { MC_AWAIT((Hop<F, typename C::promise_type>{ *to })); } else { MC_AWAIT(Stay{}); } e->log(id); MC_RETURN_VOID(); MC_END(); }
using C1 = Coro<8, 1>; using C2 = Coro<64, 40>;
template<class C> C make(Ev& e, int id, coroutine_handle<>* to, bool mac, int f = 0) { C c = !mac ? sco<C>(e, id, to) : f == 0 ? mco<C, TO_ERASED>(&e, id, to) : f == 1 ? mco<C, TO_TYPED>(&e, id, to) : mco<C, TO_STD>(&e, id, to); return c.as(e, id); }
template<class P> void same(coroutine_handle<P> h, Ev& e, int id, bool done, bool mac) {
    void* a = h.address(); auto t = coroutine_handle<P>::from_address(a); coroutine_handle<> v = h; auto w = coroutine_handle<>::from_address(v.address());
    D_CHECK(t == h && v == h && w == v && !(t != h) && (bool)h && (bool)v && t.address() == a && v.address() == a, "a handle does not survive the conversion to its erased or raw form");
    D_CHECK(h <= v && h >= v && !(h < v) && !(h > v), "comparison"); auto back = coroutine_handle<P>::from_address(w.address()); D_CHECK(&back.promise() == &h.promise() && h.promise().ev == &e && h.promise().id == id, "another promise");
    auto f = coroutine_handle<P>::from_promise(h.promise(), mac ? coroutine_handle_type::macoro : coroutine_handle_type::std); D_CHECK(f == h, "from_promise yields another coroutine");
    D_CHECK(h.done() == done && v.done() == done && w.done() == done, "done()"); D_CHECK(v.is_std() == !mac, "is_std");
    std::coroutine_handle<> s = h.std_cast(), s2 = v.std_cast(), s3(h), s4(w); D_CHECK(s == s2 && s == s3 && s == s4 && (bool)s, "the std handle is another coroutine's"); D_CHECK(s.done() == done, "done() of the std handle"); if (!mac) D_CHECK(s.address() == a, "std_cast of a std coroutine");
    coroutine_handle<> x(s); D_CHECK(x.done() == done && (bool)x && x.std_cast() == s, "a std handle converted and back");
    coroutine_handle<> z = v; z = nullptr; coroutine_handle<P> y; y = h; y = nullptr; D_CHECK(!z && !y && z == nullptr && y == coroutine_handle<P>() && v != z && !coroutine_handle<>(nullptr).address(), "the empty handle");
}
template<class P> void resume(coroutine_handle<P> h, int how) { if (how == 0) h.resume(); else if (how == 1) h(); else if (how == 2) coroutine_handle<>(h).resume(); else if (how == 3) { coroutine_handle<> v = h; v(); } else if (how == 4) h.std_cast().resume(); else if (how == 5) coroutine_handle<>(h).std_cast().resume(); else coroutine_handle<>(h.std_cast()).resume(); }
template<class P> void destroy(coroutine_handle<P> h, int how) { if (how == 0) h.destroy(); else if (how == 1) coroutine_handle<>(h).destroy(); else if (how == 2) h.std_cast().destroy(); else coroutine_handle<>(h.std_cast()).destroy(); }
// two coroutines of either kind: every operation acts on exactly the one that is named
template<class A, class B> void two() {
    Ev e; coroutine_handle<> none; bool ma = d_choose(2), mb = d_choose(2); A a = make<A>(e, 0, &none, ma); B b = make<B>(e, 1, &none, mb); bool done[2] = {};
    D_CHECK(coroutine_handle<>(a.h) != coroutine_handle<>(b.h) && ((coroutine_handle<>(a.h) < coroutine_handle<>(b.h)) != (coroutine_handle<>(a.h) > coroutine_handle<>(b.h))) && a.h.std_cast() != b.h.std_cast(), "two coroutines compare equal");
    int how = d_choose(7), stop = d_choose(3);
    for (int k = 0; k < stop; k++) { same(a.h, e, 0, done[0], ma); same(b.h, e, 1, done[1], mb); resume(a.h, how); D_CHECK(e.ran[0] == k + 1 && e.ran[1] == 0, "another coroutine is resumed"); done[0] = k == 1; D_CHECK(e.ended[0] == done[0] && e.ended[1] == 0, "a coroutine ends at another point"); }
    same(a.h, e, 0, done[0], ma); resume(b.h, (how + 3) % 7); D_CHECK(e.ran[0] == stop && e.ran[1] == 1, "another coroutine is resumed"); same(b.h, e, 1, false, mb); int d = d_choose(4);
    destroy(a.h, d); D_CHECK(e.dead[0] == 1 && e.dead[1] == 0, "another coroutine is destroyed"); same(b.h, e, 1, false, mb); resume(b.h, how); D_CHECK(e.ran[1] == 2 && e.ended[1] == 1, "another coroutine is resumed"); same(b.h, e, 1, true, mb); destroy(b.h, 3 - d); D_CHECK(e.dead[1] == 1 && e.dead[0] == 1, "destroyed"); D_COVER("two"); if (stop == 2) D_COVER("at its end");
}
// a chain of N coroutines of either kind; each names the next one, by an awaiter or by its final suspension
template<int N> void chain() {
    Ev e; coroutine_handle<> to[N + 1]; C1 c[N]; bool mac[N], fin[N]; int how = d_choose(3);
    for (int i = N - 1; i >= 0; i--) { mac[i] = d_choose(2); int f = mac[i] ? d_choose(FORMS) : 0; fin[i] = i + 1 < N && d_choose(2); c[i] = make<C1>(e, i, &to[i], mac[i], f); if (i + 1 < N && !fin[i]) to[i] = c[i + 1].h; if (fin[i]) { c[i].h.promise().next = c[i + 1].h; c[i].h.resume(); D_CHECK(e.ran[i] == 1, "not resumed"); } }
    int pre = 0; for (int i = 0; i < N; i++) pre += fin[i]; D_CHECK(e.n == pre, "resumed by its construction");
    resume(c[0].h, how == 0 ? 0 : how == 1 ? 2 : 4);
    D_CHECK(e.n == pre + N, "a link of the chain is skipped or run twice"); for (int i = 0; i < N; i++) { D_CHECK(e.id[pre + i] == i, "the chain runs in another order"); D_CHECK(c[i].h.done() == fin[i] && e.ended[i] == fin[i], "a link ends at another point"); }
    // once again from the end: every link continues behind its transfer and ends
    for (int i = N - 1; i >= 0; i--) if (!fin[i]) { resume(c[i].h, (how + i) % 3 * 2); D_CHECK(e.ran[i] == 2 && e.ended[i] == 1 && c[i].h.done(), "a link does not continue behind its transfer"); }
    D_CHECK(e.n == 2 * N, "a link is resumed again"); for (int i = 0; i < N; i++) { c[i].h.destroy(); D_CHECK(e.dead[i] == 1, "destroyed"); } D_COVER("chain");
}
// transfers to itself, back and forth, and to the no-op coroutine in all of its forms
inline C1 pingm(Ev* e, int id, coroutine_handle<>* to, int n, int k) { MC_BEGIN(C1, e, id, to, n, k); for (k = 0; k < n; ++k) { e->log(id); MC_AWAIT((Hop<TO_ERASED, C1::promise_type>{ *to })); } MC_RETURN_VOID(); MC_END(); }
inline C1 pings(Ev& e, int id, coroutine_handle<>* to, int n) { for (int k = 0; k < n; ++k) { e.log(id); co_await Hop<TO_ERASED, C1::promise_type>{ *to }; } }
inline void ping() {
    Ev e; coroutine_handle<> to[2]; int n = 1 + d_choose(3), kind = d_choose(2), end = d_choose(3); bool m[2] = { (bool)d_choose(2), (bool)d_choose(2) }; C1 c[2];
    for (int i = 0; i < 2; i++) c[i] = (m[i] ? pingm(&e, i, &to[i], n, 0) : pings(e, i, &to[i], n)).as(e, i);
    coroutine_handle<> stop = end == 0 ? coroutine_handle<>(noop_coroutine()) : end == 1 ? coroutine_handle<>(std::coroutine_handle<>(std::noop_coroutine())) : coroutine_handle<>(noop_coroutine().std_cast()); for (int i = 0; i < 2; i++) c[i].h.promise().next = stop;
    if (kind) { to[0] = c[0].h; c[0].h.resume(); D_CHECK(e.ran[0] == n && e.ended[0] == 1, "a coroutine that transfers to itself does not run to its end"); D_COVER("self"); }
    else { to[0] = c[1].h; to[1] = c[0].h; c[0].h.resume(); D_CHECK(e.ran[0] == n && e.ran[1] == n, "coroutines that transfer to each other do not run to their end"); for (int i = 0; i < 2 * n; i++) D_CHECK(e.id[i] == i % 2, "order"); D_CHECK(e.ended[0] == 1 && e.ended[1] == 0, "end"); c[1].h.resume(); D_CHECK(e.ended[1] == 1, "end"); D_COVER("both"); }
    for (int i = 0; i < 2; i++) c[i].h.destroy();
}
// await_suspend that returns bool or nothing
inline C1 boolm(Ev* e, bool stay) { MC_BEGIN(C1, e, stay); e->log(0); MC_AWAIT(StayB{ stay }); e->log(0); MC_AWAIT(Stay{}); e->log(0); MC_RETURN_VOID(); MC_END(); }
inline C1 bools(Ev& e, bool stay) { e.log(0); co_await StayB{ stay }; e.log(0); co_await Stay{}; e.log(0); }
inline void bools() { Ev e; bool stay = d_choose(2); C1 c = (d_choose(2) ? boolm(&e, stay) : bools(e, stay)).as(e, 0); c.h.resume(); D_CHECK(e.n == (stay ? 1 : 2) && !c.h.done(), "await_suspend returning bool"); if (stay) c.h.resume(); D_CHECK(e.n == 2 && !c.h.done(), "not suspended"); c.h.resume(); D_CHECK(e.n == 3 && c.h.done(), "end"); c.h.destroy(); D_COVER("bool"); }
// the no-op coroutine
inline void noop() {
    auto n = noop_coroutine(); coroutine_handle<> v = n, w = coroutine_handle<>::from_address(n.address()); auto m = noop_coroutine(); D_CHECK(v == w && v == m && (bool)v && (bool)n && n.address() == m.address() && &n.promise() == &m.promise(), "the no-op coroutine does not survive the conversion to its erased or raw form");
    n.resume(); n(); n.destroy(); n.resume(); D_CHECK(!n.done(), "done"); v.resume(); v(); w.resume(); D_CHECK(!v.done() && !w.done(), "the no-op coroutine is done"); v.destroy(); w.destroy(); v.resume(); D_CHECK(!v.done() && v == noop_coroutine(), "the no-op coroutine is not inert");
    std::coroutine_handle<> s = n.std_cast(), t = v.std_cast(), u(n), x(v); D_CHECK((bool)s && (bool)t && !s.done() && !t.done() && !u.done() && !x.done(), "std form"); s.resume(); t.resume(); u.destroy(); t.destroy(); x.resume(); D_CHECK(!s.done() && !t.done(), "std form");
    coroutine_handle<> b(s); b.resume(); b.destroy(); b(); D_CHECK(!b.done() && (bool)b && b.std_cast() == s, "std form"); std::noop_coroutine_handle sn(n); sn.resume(); D_COVER("noop");
}
// continuation_awaiter: names its continuation in the form that is asked for
template<bool R> inline C1 contm(Ev* e, coroutine_handle<>* to) { MC_BEGIN(C1, e, to); e->log(0); MC_AWAIT((detail::continuation_awaiter<coroutine_handle<>, R>{ *to })); e->log(0); MC_RETURN_VOID(); MC_END(); }
template<bool R> inline C1 conts(Ev& e, coroutine_handle<>* to) { e.log(0); co_await detail::continuation_awaiter<coroutine_handle<>, R>{ *to }; e.log(0); }
template<bool R> inline void cont() {
    Ev e; coroutine_handle<> none, to; int state = d_choose(R ? 3 : 1); bool ms = d_choose(2); C1 b = make<C1>(e, 1, &none, d_choose(2)); C1 a = (ms ? contm<R>(&e, &to) : conts<R>(e, &to)).as(e, 0);
    if (state != 1) to = b.h; if (state == 2) { b.h.resume(); b.h.resume(); } int n = e.ran[1]; a.h.resume(); if (state == 0) { D_CHECK(e.ran[1] == n + 1 && e.ran[0] == 1 && !a.h.done(), "the continuation does not run"); a.h.resume(); } D_CHECK(e.ran[0] == 2 && a.h.done() && e.ran[1] == n + (state == 0), "the coroutine does not continue"); a.h.destroy(); b.h.destroy(); D_COVER("cont");
}
inline void conts() { if (d_choose(2)) cont<false>(); else cont<true>(); }
}
D_CLIENT(P18, two_small) { p18::two<p18::C1, p18::C1>(); }
D_CLIENT(P18, two_aligned) { p18::two<p18::C2, p18::C1>(); }
D_CLIENT(P18, chain3) { p18::chain<3>(); }
D_CLIENT(P18, ping) { p18::ping(); }
D_CLIENT(P18, bools) { p18::bools(); }
D_CLIENT(P18, noop) { p18::noop(); }
D_CLIENT(P18, cont) { p18::conts(); }
