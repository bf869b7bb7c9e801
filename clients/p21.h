#include <macoro/wrap.h>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p21 {
// awaitable with countable life; suspension style S: 0 void, 1 bool, 2 symmetric transfer handle; bool style may decline to suspend
struct Ev { int made = 0, ready = 0, susp = 0, res = 0, live = 0, starts = 0; coroutine_handle<> h; bool isready = false, decline = false, boom = false, inlineResume = false; int v = 0; d::Val* ref = nullptr; };
template<class R, int S> struct Aw {
    Ev& e; explicit Aw(Ev& x) : e(x) { ++e.made; ++e.live; } Aw(const Aw&) = delete; ~Aw() { --e.live; }
    bool await_ready() { ++e.ready; return e.isready; }
    template<class P> auto await_suspend(coroutine_handle<P> x) { ++e.susp; e.h = x; return fin(x); }
    template<class P> auto await_suspend(std::coroutine_handle<P> x) { ++e.susp; e.h = coroutine_handle<P>(x); return fin(x); }
    template<class H> auto fin(H x) { if constexpr (S == 0) return; else if constexpr (S == 1) { if (e.decline) e.h = {}; return !e.decline; } else { if (e.decline) { e.h = {}; return coroutine_handle<>(coroutine_handle<typename Pr<H>::type>(x)).std_cast(); } return std::coroutine_handle<>(std::noop_coroutine()); } }
    template<class H> struct Pr; template<class P> struct Pr<coroutine_handle<P>> { using type = P; }; template<class P> struct Pr<std::coroutine_handle<P>> { using type = P; };
    R await_resume() { ++e.res; D_CHECK(e.live == 1, "awaiter used after its destruction"); if (e.boom) throw d::Boom{ e.v }; if constexpr (std::is_void_v<R>) return; else if constexpr (std::is_reference_v<R>) return (R)*e.ref; else return R(e.v); }
};
template<class R, int S> struct Able { Ev& e; d::Live l; Aw<R, S> operator co_await() { ++e.starts; return Aw<R, S>(e); } };
struct Out { int n = 0, val = 0, err = 0, threw = 0; };
template<class T> void take(result<T>& r, Out& o) {
    if (r.has_error()) { o.err = 1; try { std::rethrow_exception(r.error()); } catch (d::Boom& b) { o.val = b.code; } catch (...) { o.threw = 2; } }
    else if constexpr (!std::is_void_v<T>) o.val = r.value().get();
    ++o.n;
}
// an rvalue-result reference is stored by value
template<class A> d::Co run(A a, Out& o) { try { auto r = co_await std::move(a); take(r, o); } catch (...) { o.threw = 1; } }
template<class A> d::Co runp(A& a, Out& o) { try { auto r = co_await (a | wrap()); take(r, o); } catch (...) { o.threw = 1; } }
template<class A> d::Co runl(A& a, Out& o) { try { auto w = wrap(a); auto r = co_await w; take(r, o); } catch (...) { o.threw = 1; } }

template<class R, int S> void one() {
    { Ev e; Out o; int dead = 0; d::Val target(d_int()); e.ref = &target; e.v = std::is_reference_v<R> && !std::is_void_v<R> ? target.get() : d_int(); e.boom = d_choose(2); e.isready = d_choose(2); if (!e.isready && S) e.decline = d_choose(2);
      bool susp = !e.isready && !e.decline; int want = std::is_void_v<R> && !e.boom ? 0 : e.v; bool lv = false; int how = d_choose(3);
      {
        Able<R, S> a{ e, d::Live(dead) };
        if (how == 0) { auto w = wrap(std::move(a)); D_CHECK(e.starts == 0, "wrapping starts the awaitable"); run(std::move(w), o).start(); }
        else if (how == 1) runp(a, o).start();
        else { runl(a, o).start(); }
        D_CHECK(e.ready == 1 && e.starts == 1, "the wrapped awaitable is not started exactly once"); D_CHECK(e.susp == !e.isready, "the wrapped awaitable is not suspended exactly when it is not ready");
        if (susp) { D_CHECK(o.n == 0 && e.res == 0, "the awaiter continues before it is resumed"); auto h = std::exchange(e.h, coroutine_handle<>()); D_CHECK((bool)h, "no handle given to the wrapped awaitable"); h.resume(); D_COVER("suspended"); }
        D_CHECK(o.n == 1 && o.threw == 0 && e.res == 1, "awaiting a wrapped awaitable throws or does not complete once"); D_CHECK(e.live == 0, "the wrapped awaiter is not destroyed once");
        D_CHECK(o.err == (int)e.boom && o.val == want, "the wrapped result is not the inner value or exception"); if (e.boom) D_COVER("error"); else D_COVER("value");
      }
      D_CHECK(dead == 0, "the wrapped awaitable is not destroyed exactly once");
      if constexpr (!std::is_rvalue_reference_v<R>) { D_CHECK(!target.moved(), "wrapping moves out of the referenced object"); D_CHECK(!std::is_reference_v<R> || target.get() == e.v, "wrapping modifies the referenced object"); }
    }
    D_CHECK(d::Val::live == 0, "a payload is not released exactly once");
}
// tasks
task<d::Val> tv(d::Gate& g, int v, bool boom, int& n) { ++n; co_await d::pass(g); if (boom) throw d::Boom{ v }; co_return d::Val(v); }
task<d::Val&> tr(d::Gate& g, d::Val& x, bool boom, int& n) { ++n; co_await d::pass(g); if (boom) throw d::Boom{ x.get() }; co_return x; }
task<void> tu(d::Gate& g, int v, bool boom, int& n) { ++n; co_await d::pass(g); if (boom) throw d::Boom{ v }; }
template<class MK> void tasks(MK mk, int v, bool isvoid) {
    d::Gate g; g.ready = d_choose(2); bool boom = d_choose(2); int n = 0; Out o;
    { auto t = mk(g, v, boom, n); int how = d_choose(4);
      if (how == 0) run(wrap(std::move(t)), o).start();
      else if (how == 1) runp(t, o).start();
      else if (how == 2) runl(t, o).start();
      else { auto w = wrap(std::move(t)); D_CHECK(n == 0, "wrapping starts the task"); D_COVER("unused"); return; }
      D_CHECK(n == 1, "the wrapped task is not started exactly once");
      if (!g.ready) { D_CHECK(o.n == 0, "the awaiter continues before the task finished"); g.open(); }
      D_CHECK(o.n == 1 && o.threw == 0 && o.err == (int)boom && o.val == (isvoid && !boom ? 0 : v), "the wrapped result is not the task's value or exception"); if (boom) D_COVER("error"); else D_COVER("value"); }
}
// in a macro coroutine, with MC_AWAIT_SET and with MC_AWAIT_TRY (the unwrapped form of the same)
template<class R> task<void> mset(Able<R, 1>& a, Out& o) { MC_BEGIN(task<void>, &a, &o, r = result<R>(Ok(d::Val(0)))); MC_AWAIT_SET(r, a | wrap()); take(r, o); MC_END(); }
template<class R> task<void> mtry(Able<R, 1>& a, Out& o) { MC_BEGIN(task<void>, &a, &o, r = result<d::Val>(Ok(d::Val(0)))); MC_AWAIT_TRY(r, a); take(r, o); MC_END(); }
d::Co root(task<void>& t, Out& o) { try { co_await t; } catch (...) { o.threw = 3; } }
template<class R> void macro() {
    { Ev e; Out o; int dead = 0; d::Val target(d_int()); e.ref = &target; e.v = target.get(); e.boom = d_choose(2); e.isready = d_choose(2); if (!e.isready) e.decline = d_choose(2); bool susp = !e.isready && !e.decline;
      Able<R, 1> a{ e, d::Live(dead) }; task<void> t = d_choose(2) ? mset<R>(a, o) : mtry<R>(a, o); root(t, o).start();
      D_CHECK(e.ready == 1 && e.starts == 1 && e.susp == !e.isready, "the wrapped awaitable is not started exactly once");
      if (susp) { D_CHECK(o.n == 0, "continues early"); std::exchange(e.h, coroutine_handle<>()).resume(); }
      D_CHECK(o.n == 1 && o.threw == 0 && e.res == 1 && e.live == 0 && o.err == (int)e.boom && o.val == e.v, "the wrapped result is not the inner value or exception"); D_CHECK(!target.moved(), "wrapping moves out of the referenced object"); if (e.boom) D_COVER("error"); else D_COVER("value"); }
    D_CHECK(d::Val::live == 0, "a payload is not released exactly once");
}
}
D_CLIENT(P21, val_void) { p21::one<d::Val, 0>(); }
D_CLIENT(P21, val_bool) { p21::one<d::Val, 1>(); }
D_CLIENT(P21, val_handle) { p21::one<d::Val, 2>(); }
D_CLIENT(P21, ref) { p21::one<d::Val&, 1>(); }
D_CLIENT(P21, rref) { p21::one<d::Val&&, 1>(); }
D_CLIENT(P21, nothing) { p21::one<void, 1>(); }
D_CLIENT(P21, task_val) { p21::tasks([](d::Gate& g, int v, bool b, int& n) { return p21::tv(g, v, b, n); }, d_int(), false); D_CHECK(d::Val::live == 0, "a payload is not released exactly once"); }
D_CLIENT(P21, task_ref) { { d::Val x(d_int()); p21::tasks([&](d::Gate& g, int, bool b, int& n) { return p21::tr(g, x, b, n); }, x.get(), false); D_CHECK(!x.moved(), "wrapping moves out of the referenced object"); } D_CHECK(d::Val::live == 0, "a payload is not released exactly once"); }
D_CLIENT(P21, task_void) { p21::tasks([](d::Gate& g, int v, bool b, int& n) { return p21::tu(g, v, b, n); }, d_int(), true); }
D_CLIENT(P21, macro_val) { p21::macro<d::Val>(); }
D_CLIENT(P21, macro_ref) { p21::macro<d::Val&>(); }
