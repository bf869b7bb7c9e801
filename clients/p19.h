#include <coroutine>
#include <macoro/task.h>
#include <macoro/coroutine_handle.h>
#include <macoro/macros.h>
#include <macoro/result.h>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p19 {
// everything the promise, the awaiters and the awaited temporaries are asked to do, in order
enum { PROMISE, GRO, INITIAL, INIT_READY, INIT_SUSPEND, INIT_RESUME, INIT_END, EXPR, EXPR_COPY, EXPR_MOVE, EXPR_END, TRANSFORM, OPERATOR, AWAITER, AWAITER_MOVE, READY, SUSPEND, RESUME, AWAITER_END, RETURN_VALUE, RETURN_VOID, UNHANDLED, YIELD, FINAL, FINAL_READY, FINAL_SUSPEND_, PROMISE_END, ARG_END, BODY, CALL, RESUMED_BY_CLIENT, DESTROYED_BY_CLIENT, RETURNED, THREW };
struct Log { static const int M = 160; int n = 0, e[M] = {}; int live = 0; void add(int code, int id = 0, int v = 0) { D_CHECK(n + 3 <= M, "log"); e[n++] = code; e[n++] = id; e[n++] = v; } };
enum { B_NONE, B_EXPR, B_TRANSFORM, B_OPERATOR, B_READY, B_SUSPEND, B_RESUME };
enum { READY_NOW, STAYS, GOES_ON, INSIDE };
// what one await does: does it suspend, where does it throw, which value does it yield
struct Await { int susp = STAYS, boom = B_NONE, v = 0; };
struct Env { Log& l; Await a[6]; int init = 0, val = 0; int throws = 0; coroutine_handle<> h, self; void at(int id, int code, int boom) { l.add(code, id); if (a[id].boom == boom) throw d::Boom{ id }; } };
template<class P> coroutine_handle<> er(coroutine_handle<P> h) { return h; } template<class P> coroutine_handle<> er(std::coroutine_handle<P> h) { return coroutine_handle<>(h); }
// S: what await_suspend returns; R: what await_resume returns
struct Handle {}; template<class S, class H> struct Ret { using type = S; }; template<class H> struct Ret<Handle, H> { using type = typename coroutine_handle_traits<H>::template coroutine_handle<void>; };
template<class S, class R> struct Aw {
    Env& e; int id; Aw(Env& e, int id) : e(e), id(id) { e.l.add(AWAITER, id); ++e.l.live; } Aw(Aw&& o) : e(o.e), id(o.id) { e.l.add(AWAITER_MOVE, id); ++e.l.live; } Aw(const Aw&) = delete; ~Aw() { D_CHECK(id >= 0, "an awaiter is destroyed twice"); e.l.add(AWAITER_END, id); id = -1; --e.l.live; }
    bool await_ready() { D_CHECK(id >= 0, "an awaiter is used after its destruction"); e.at(id, READY, B_READY); return e.a[id].susp == READY_NOW; }
    template<class H> typename Ret<S, H>::type await_suspend(H h) {
        int susp = e.a[id].susp, i = id; Env& x = e; x.at(id, SUSPEND, B_SUSPEND); x.h = er(h);
        if (susp == INSIDE) { auto k = x.h; x.l.add(RESUMED_BY_CLIENT, i); k.resume(); x.l.add(RETURNED, i); }
        if constexpr (std::is_void_v<S>) return; else if constexpr (std::is_same_v<S, bool>) return susp != GOES_ON; else { using V = typename Ret<S, H>::type; return susp == GOES_ON ? V(h) : V(noop_coroutine()); }
    }
    R await_resume() { D_CHECK(id >= 0, "an awaiter is used after its destruction"); e.at(id, RESUME, B_RESUME); if constexpr (std::is_void_v<R>) return; else if constexpr (std::is_reference_v<R>) return e.a[id].v; else if constexpr (std::is_constructible_v<R, Env&, int>) return R(e, 1); else return R(e.a[id].v); }
};
// awaitables: by value, as an lvalue, moved, with a member or a free operator co_await, whose awaiter is a temporary or a part of it
template<class S, class R> struct Mem { Env& e; int id; Mem(Env& e, int id) : e(e), id(id) { e.l.add(EXPR, id); ++e.l.live; } Mem(const Mem& o) : e(o.e), id(o.id) { e.l.add(EXPR_COPY, id); ++e.l.live; } Mem(Mem&& o) : e(o.e), id(o.id) { e.l.add(EXPR_MOVE, id); ++e.l.live; } ~Mem() { D_CHECK(id >= 0, "an awaited temporary is destroyed twice"); e.l.add(EXPR_END, id); id = -1; --e.l.live; }
    Aw<S, R> operator co_await() && { D_CHECK(id >= 0, "an awaited temporary is used after its destruction"); e.at(id, OPERATOR, B_OPERATOR); return Aw<S, R>(e, id); } Aw<S, R> operator co_await() & { D_CHECK(id >= 0, "an awaited temporary is used after its destruction"); e.at(id, OPERATOR, B_OPERATOR); return Aw<S, R>(e, id); } };
template<class S, class R> struct Part { Aw<S, R> a; Part(Env& e, int id) : a(e, id) {} Aw<S, R>& operator co_await() & { a.e.at(a.id, OPERATOR, B_OPERATOR); return a; } Aw<S, R>&& operator co_await() && { a.e.at(a.id, OPERATOR, B_OPERATOR); return static_cast<Aw<S, R>&&>(a); } };
template<class S, class R> struct Free { Env& e; int id; Free(Env& e, int id) : e(e), id(id) { e.l.add(EXPR, id); ++e.l.live; } Free(const Free&) = delete; Free(Free&& o) : e(o.e), id(o.id) { e.l.add(EXPR_MOVE, id); ++e.l.live; } ~Free() { D_CHECK(id >= 0, "an awaited temporary is destroyed twice"); e.l.add(EXPR_END, id); id = -1; --e.l.live; } };
template<class S, class R> Aw<S, R> operator co_await(Free<S, R>&& f) { f.e.at(f.id, OPERATOR, B_OPERATOR); return Aw<S, R>(f.e, f.id); }
template<class S, class R> Aw<S, R> operator co_await(Free<S, R>& f) { f.e.at(f.id, OPERATOR, B_OPERATOR); return Aw<S, R>(f.e, f.id); }
template<class A> A ex(Env& e, int id) { if (e.a[id].boom == B_EXPR) throw d::Boom{ id }; return A(e, id); }
struct Arg { Env& e; explicit Arg(Env& e) : e(e) { ++e.l.live; } Arg(Arg&& o) : e(o.e) { ++e.l.live; } Arg(const Arg& o) : e(o.e) { ++e.l.live; } ~Arg() { --e.l.live; } };
struct Named { int id; };
inline Env* curE = nullptr;
template<bool T> struct Transforms { Env& e; };
template<> struct Transforms<true> { Env& e;
        template<class A> A&& await_transform(A&& a) { e.l.add(TRANSFORM); return static_cast<A&&>(a); }
        Aw<void, int> await_transform(Named n) { e.at(n.id, TRANSFORM, B_TRANSFORM); return Aw<void, int>(e, n.id); } };
template<bool T> struct Co {
    struct promise_type : Transforms<T> {
        using Transforms<T>::e; int failed = -1; promise_type() : Transforms<T>{ *curE } { e.l.add(PROMISE); ++e.l.live; } promise_type(const promise_type&) = delete; ~promise_type() { e.l.add(PROMISE_END); --e.l.live; }
        Co get_return_object() { e.l.add(GRO); auto h = coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::std); e.self = h; return { h }; }
        Co macoro_get_return_object() { e.l.add(GRO); auto h = coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::macoro); e.self = h; return { h }; }
        struct Init { Env& e; int id = 0; Init(Env& e) : e(e) { ++e.l.live; } Init(Init&&) = delete; ~Init() { if (e.init != 2) e.l.add(INIT_END); --e.l.live; } bool await_ready() { e.l.add(INIT_READY); return e.init == 0; } template<class H> void await_suspend(H h) { e.l.add(INIT_SUSPEND); e.h = er(h); } void await_resume() { e.l.add(INIT_RESUME); if (e.init == 2) throw d::Boom{ 90 }; } };
        Init initial_suspend() { e.l.add(INITIAL); return Init(e); }
        struct Final { Env& e; Final(Env& e) : e(e) { ++e.l.live; } Final(Final&&) = delete; ~Final() { --e.l.live; } bool await_ready() noexcept { e.l.add(FINAL_READY); return false; } template<class H> void await_suspend(H) noexcept { e.l.add(FINAL_SUSPEND_); } void await_resume() noexcept { d_fail("resumed at the end"); } };
        Final final_suspend() noexcept { e.l.add(FINAL); return Final(e); }
        void return_value(int v) { e.l.add(RETURN_VALUE, 0, v); e.val = v; } void return_value(d::Val&& v) { e.l.add(RETURN_VALUE, 1, v.get()); e.val = v.get(); if (e.throws == 1) throw d::Boom{ 91 }; }
        void unhandled_exception() { int c = -1; try { throw; } catch (d::Boom& b) { c = b.code; } e.l.add(UNHANDLED, c); e.val = -c; failed = c; if (e.throws == 2) throw; }
        Aw<void, int> yield_value(int v) { e.l.add(YIELD, 0, v); if (e.a[4].boom == B_EXPR) throw d::Boom{ 4 }; return Aw<void, int>(e, 4); }
    };
    coroutine_handle<promise_type> h;
};
// ---- the same texts, once native and once with the macros
#define S_ template<class S, class R, bool T>
S_ Co<T> n_prvalue(Env* e, Arg) { co_await ex<Aw<S, R>>(*e, 0); e->l.add(BODY); co_return 7; }
S_ Co<T> m_prvalue(Env* e, Arg a) { MC_BEGIN(Co<T>, e, a); MC_AWAIT((ex<Aw<S, R>>(*e, 0))); e->l.add(BODY); MC_RETURN(7); MC_END(); }
S_ Co<T> n_member(Env* e, Arg) { co_await ex<Mem<S, R>>(*e, 0); e->l.add(BODY); co_return 7; }
S_ Co<T> m_member(Env* e, Arg a) { MC_BEGIN(Co<T>, e, a); MC_AWAIT((ex<Mem<S, R>>(*e, 0))); e->l.add(BODY); MC_RETURN(7); MC_END(); }
S_ Co<T> n_free(Env* e, Arg) { co_await ex<Free<S, R>>(*e, 0); e->l.add(BODY); co_return 7; }
S_ Co<T> m_free(Env* e, Arg a) { MC_BEGIN(Co<T>, e, a); MC_AWAIT((ex<Free<S, R>>(*e, 0))); e->l.add(BODY); MC_RETURN(7); MC_END(); }
S_ Co<T> n_part(Env* e, Arg) { co_await ex<Part<S, R>>(*e, 0); e->l.add(BODY); co_return 7; }
S_ Co<T> m_part(Env* e, Arg a) { MC_BEGIN(Co<T>, e, a); MC_AWAIT((ex<Part<S, R>>(*e, 0))); e->l.add(BODY); MC_RETURN(7); MC_END(); }
template<class A, bool T> Co<T> n_lvalue(Env* e, A* x, Arg) { A& r = *x; co_await r; e->l.add(BODY); co_return 7; }
template<class A, bool T> Co<T> m_lvalue(Env* e, A* x, Arg a) { MC_BEGIN(Co<T>, e, x, a); MC_AWAIT(*x); e->l.add(BODY); MC_RETURN(7); MC_END(); }
template<class A, bool T> Co<T> n_moved(Env* e, A* x, Arg) { co_await std::move(*x); e->l.add(BODY); co_return 7; }
template<class A, bool T> Co<T> m_moved(Env* e, A* x, Arg a) { MC_BEGIN(Co<T>, e, x, a); MC_AWAIT(std::move(*x)); e->l.add(BODY); MC_RETURN(7); MC_END(); }
// several awaits, results in variables, loops and branches; yields; awaits of awaits
inline Co<false> n_body(Env* e, int n, Arg) { int s = 0; for (int i = 0; i < n; ++i) { s += co_await ex<Mem<void, int>>(*e, i); e->l.add(BODY, i, s); if (i == 1) { int& r = co_await ex<Aw<bool, int&>>(*e, 2); D_CHECK(&r == &e->a[2].v, "another object"); e->l.add(BODY, 9, r); } } co_return s; }
inline Co<false> m_body(Env* e, int n, Arg a) { MC_BEGIN(Co<false>, e, n, a, i = int(0), s = int(0), k = int(0), r = (int*)nullptr); for (i = 0; i < n; ++i) { MC_AWAIT_SET(k, (ex<Mem<void, int>>(*e, i))); s += k; e->l.add(BODY, i, s); if (i == 1) { MC_AWAIT_FN(r = std::addressof, (ex<Aw<bool, int&>>(*e, 2))); D_CHECK(r == &e->a[2].v, "another object"); e->l.add(BODY, 9, *r); } } MC_RETURN(s); MC_END(); }
inline Co<false> n_value(Env* e, Arg) { co_return co_await ex<Free<void, d::Val>>(*e, 0); }
inline Co<false> m_value(Env* e, Arg a) { MC_BEGIN(Co<false>, e, a); MC_RETURN_AWAIT((ex<Free<void, d::Val>>(*e, 0))); MC_END(); }
inline Co<false> n_yield(Env* e, int how, Arg) { if (how == 0) co_yield 5; else if (how == 1) { int k = co_yield 6; e->l.add(BODY, k); } else if (how == 2) co_yield co_await ex<Mem<void, int>>(*e, 0); else if (how == 3) co_await co_await ex<Aw<bool, Mem<void, int>>>(*e, 0); else co_return co_yield 8; e->l.add(BODY); co_return 1; }
inline Co<false> m_yield(Env* e, int how, Arg a) { MC_BEGIN(Co<false>, e, how, a, k = int(0)); if (how == 0) { MC_YIELD(5); } else if (how == 1) { MC_YIELD_SET(k, 6); e->l.add(BODY, k); } else if (how == 2) { MC_YIELD_AWAIT((ex<Mem<void, int>>(*e, 0))); } else if (how == 3) { MC_AWAIT_AWAIT((ex<Aw<bool, Mem<void, int>>>(*e, 0))); } else { MC_RETURN_YIELD(8); } e->l.add(BODY); MC_RETURN(1); MC_END(); }
inline Co<false> n_try(Env* e, Arg) { result<int> r = Err(std::exception_ptr{}); try { r = Ok(co_await ex<Mem<void, int>>(*e, 0)); } catch (...) { r = Err(std::current_exception()); } e->l.add(BODY, r.has_value(), r.has_value() ? r.value() : 0); result<void> u = Err(std::exception_ptr{}); try { co_await ex<Aw<bool, void>>(*e, 1); u = Ok(); } catch (...) { u = Err(std::current_exception()); } e->l.add(BODY, u.has_value()); co_return 3; }
inline Co<false> m_try(Env* e, Arg a) { MC_BEGIN(Co<false>, e, a, r = result<int>(Err(std::exception_ptr{})), u = result<void>(Err(std::exception_ptr{}))); MC_AWAIT_TRY(r, (ex<Mem<void, int>>(*e, 0))); e->l.add(BODY, r.has_value(), r.has_value() ? r.value() : 0); MC_AWAIT_TRY(u, (ex<Aw<bool, void>>(*e, 1))); e->l.add(BODY, u.has_value()); MC_RETURN(3); MC_END(); }
inline Co<true> n_named(Env* e, Arg) { int k = co_await Named{ 0 }; e->l.add(BODY, k); co_return k; }
inline Co<true> m_named(Env* e, Arg a) { MC_BEGIN(Co<true>, e, a, k = int(0)); MC_AWAIT_SET(k, Named{ 0 }); e->l.add(BODY, k); MC_RETURN(k); MC_END(); }
#ifdef P19_SHOW
inline void show(Log& x, Log& y) { static const char* N[] = { "PROMISE", "GRO", "INITIAL", "INIT_READY", "INIT_SUSPEND", "INIT_RESUME", "INIT_END", "EXPR", "EXPR_COPY", "EXPR_MOVE", "EXPR_END", "TRANSFORM", "OPERATOR", "AWAITER", "AWAITER_MOVE", "READY", "SUSPEND", "RESUME", "AWAITER_END", "RETURN_VALUE", "RETURN_VOID", "UNHANDLED", "YIELD", "FINAL", "FINAL_READY", "FINAL_SUSPEND_", "PROMISE_END", "ARG_END", "BODY", "CALL", "RESUMED_BY_CLIENT", "DESTROYED_BY_CLIENT", "RETURNED", "THREW" };
    bool d = x.n != y.n; for (int i = 0; i < x.n && i < y.n; i++) d |= x.e[i] != y.e[i]; if (!d && x.live == 0) return; FILE* o = fopen("/tmp/p19/log", "w"); for (int i = 0; i < x.n || i < y.n; i += 3) fprintf(o, "   %-20s %d %d   %-20s %d %d %s\n", i < x.n ? N[x.e[i]] : "", x.e[i + 1], x.e[i + 2], i < y.n ? N[y.e[i]] : "", y.e[i + 1], y.e[i + 2], x.e[i] == y.e[i] ? "" : "<<"); fclose(o); }
#else
inline void show(Log&, Log&) {}
#endif
// ---- the client: runs a coroutine to its end, or destroys it while it is suspended
template<class F> void drive(Log& l, Env& e, int after, F f) {
    curE = &e; l.add(CALL); try { f(); l.add(RETURNED); } catch (d::Boom& b) { l.add(THREW, b.code); } auto c = e.self; int k = 0;
    while (!c.done() && k < after) { ++k; l.add(RESUMED_BY_CLIENT); try { if (e.init == 3) c.std_cast().resume(); else c.resume(); l.add(RETURNED); } catch (d::Boom& b) { l.add(THREW, b.code); } }
    l.add(DESTROYED_BY_CLIENT, c.done(), e.val); c.destroy(); l.add(RETURNED);
}
template<class N, class M> void compare(const Await* a, int na, int init, int throws, N n, M m) {
    int after = d_choose(na + 2); Log x, y; Env e{ x }, f{ y }; for (int i = 0; i < na; i++) e.a[i] = f.a[i] = a[i]; e.init = f.init = init; e.throws = f.throws = throws;
    drive(x, e, after, [&] { return n(&e); }); drive(y, f, after, [&] { return m(&f); });
    show(x, y); D_CHECK(throws == 2 || x.live == 0, "native"); D_CHECK(y.live == 0, "an awaiter, an awaited temporary, an argument or the promise is not destroyed exactly once");
    for (int i = 0; i < x.n && i < y.n; i++) D_CHECK(x.e[i] == y.e[i], "the macro coroutine makes another call than the native one"); D_CHECK(x.n == y.n, "the macro coroutine makes more or fewer calls than the native one"); if (after < na) D_COVER("destroyed early"); else D_COVER("to the end");
}
inline Await any(bool inside = true) { Await a; a.boom = d_choose(7); a.susp = a.boom ? d_choose(2) : d_choose(inside ? 4 : 3); a.v = d_int(); return a; }
template<class S, class R> void kinds() {
    Await a = any(); int init = d_choose(2), k = d_choose(8); if (k < 4) { if (d_choose(2)) k += 10; } constexpr bool t = true, f = false;
    auto go = [&](auto n, auto m) { compare(&a, 1, init, 0, n, m); };
    auto lv = [&](auto* tag, auto tr, auto n, auto m) { using A = std::remove_pointer_t<decltype(tag)>; compare(&a, 1, init, 0, [&](Env* e) { return n(e, (A*)nullptr); }, [&](Env* e) { return m(e, (A*)nullptr); }); };
    switch (k) {
    case 0: go([](Env* e) { return n_prvalue<S, R, f>(e, Arg(*e)); }, [](Env* e) { return m_prvalue<S, R, f>(e, Arg(*e)); }); break;
    case 1: go([](Env* e) { return n_member<S, R, f>(e, Arg(*e)); }, [](Env* e) { return m_member<S, R, f>(e, Arg(*e)); }); break;
    case 2: go([](Env* e) { return n_free<S, R, f>(e, Arg(*e)); }, [](Env* e) { return m_free<S, R, f>(e, Arg(*e)); }); break;
    case 3: go([](Env* e) { return n_part<S, R, f>(e, Arg(*e)); }, [](Env* e) { return m_part<S, R, f>(e, Arg(*e)); }); break;
    case 10: go([](Env* e) { return n_prvalue<S, R, t>(e, Arg(*e)); }, [](Env* e) { return m_prvalue<S, R, t>(e, Arg(*e)); }); break;
    case 11: go([](Env* e) { return n_member<S, R, t>(e, Arg(*e)); }, [](Env* e) { return m_member<S, R, t>(e, Arg(*e)); }); break;
    case 12: go([](Env* e) { return n_free<S, R, t>(e, Arg(*e)); }, [](Env* e) { return m_free<S, R, t>(e, Arg(*e)); }); break;
    case 13: go([](Env* e) { return n_part<S, R, t>(e, Arg(*e)); }, [](Env* e) { return m_part<S, R, t>(e, Arg(*e)); }); break;
    default: {
        int throws = 0; if (a.boom == B_EXPR) break; int after = d_choose(3); Log x, y; Env e{ x }, g{ y }; e.a[0] = g.a[0] = a; e.init = g.init = init;
        auto both = [&](auto* n, auto* m) { using A = std::remove_reference_t<decltype(*n)>; (void)m; { A p(e, 0), q(g, 0);
            if (k < 6) { drive(x, e, after, [&] { return n_lvalue<A, f>(&e, &p, Arg(e)); }); drive(y, g, after, [&] { return m_lvalue<A, f>(&g, &q, Arg(g)); }); } else { drive(x, e, after, [&] { return n_moved<A, t>(&e, &p, Arg(e)); }); drive(y, g, after, [&] { return m_moved<A, t>(&g, &q, Arg(g)); }); } } };
        if (k % 2) { if (d_choose(2)) both((Mem<S, R>*)nullptr, (int*)nullptr); else both((Part<S, R>*)nullptr, (int*)nullptr); } else { if (d_choose(2)) both((Aw<S, R>*)nullptr, (int*)nullptr); else both((Free<S, R>*)nullptr, (int*)nullptr); }
        D_CHECK(throws == 2 || x.live == 0, "native"); D_CHECK(y.live == 0, "an awaiter, an awaited temporary, an argument or the promise is not destroyed exactly once"); show(x, y);
        D_CHECK(x.n == y.n, "the macro coroutine makes more or fewer calls than the native one"); for (int i = 0; i < x.n; i++) D_CHECK(x.e[i] == y.e[i], "the macro coroutine makes another call than the native one"); D_COVER("named"); } }
}
inline void kinds_void() { kinds<void, void>(); }
inline void kinds_bool() { kinds<bool, int&>(); }
inline void kinds_handle() { kinds<Handle, d::Val>(); }
inline void body() { Await a[3]; int n = 1 + d_choose(2), bad = d_choose(4); for (int i = 0; i < 3; i++) { a[i].susp = i < n || n == 2 ? d_choose(2) : 0; a[i].v = d_int() & 0xff; if (i == bad) a[i].boom = i == 2 ? B_SUSPEND : B_RESUME; } compare(a, 3, d_choose(2), 0, [=](Env* e) { return n_body(e, n, Arg(*e)); }, [=](Env* e) { return m_body(e, n, Arg(*e)); }); }
inline void value() { Await a = any(); compare(&a, 1, d_choose(4), d_choose(2), [](Env* e) { return n_value(e, Arg(*e)); }, [](Env* e) { return m_value(e, Arg(*e)); }); }
// unhandled_exception() throws: the coroutine is then at its final suspend point (only the macro coroutine: clang 18 destroys objects it did not construct here)
inline void rethrow() { Await a = any(false); Log y; int init = 1 + 2 * d_choose(2), after = d_choose(3); { Env f{ y }; f.a[0] = a; f.init = init; f.throws = 2; drive(y, f, after, [&] { return m_value(&f, Arg(f)); }); }
    int threw = 0, un = 0, fin = 0; for (int i = 0; i < y.n; i += 3) { if (y.e[i] == THREW) { ++threw; D_CHECK(y.e[i + 3] == DESTROYED_BY_CLIENT && y.e[i + 4] == 1, "a coroutine whose unhandled_exception throws is not at its final suspend point"); } un += y.e[i] == UNHANDLED; fin += y.e[i] == FINAL; }
    D_CHECK(threw + fin <= 1, "final_suspend is called after unhandled_exception threw"); D_CHECK(threw == un && un <= 1, "the exception of unhandled_exception does not reach the caller"); D_CHECK(y.live == 0, "an awaiter, an awaited temporary, an argument or the promise is not destroyed exactly once"); D_COVER("over"); }
inline void yields() { Await a[5]; int how = d_choose(5); a[0] = how == 2 || how == 3 ? any(false) : Await(); a[4].susp = d_choose(2); a[4].boom = d_choose(3) * 3; if (a[4].boom == 3) a[4].boom = B_EXPR; a[4].v = d_int(); compare(a, 5, d_choose(2), 0, [=](Env* e) { return n_yield(e, how, Arg(*e)); }, [=](Env* e) { return m_yield(e, how, Arg(*e)); }); }
inline void tries() { Await a[2]; a[0] = any(); a[1].boom = d_choose(2) ? B_RESUME : B_NONE; a[1].susp = d_choose(2); compare(a, 2, d_choose(2), 0, [](Env* e) { return n_try(e, Arg(*e)); }, [](Env* e) { return m_try(e, Arg(*e)); }); }
inline void named() { Await a = any(); if (a.boom == B_EXPR) a.boom = 0; compare(&a, 1, d_choose(4), 0, [](Env* e) { return n_named(e, Arg(*e)); }, [](Env* e) { return m_named(e, Arg(*e)); }); }
}
D_CLIENT(P19, kinds_void) { p19::kinds_void(); }
D_CLIENT(P19, kinds_bool) { p19::kinds_bool(); }
D_CLIENT(P19, kinds_handle) { p19::kinds_handle(); }
D_CLIENT(P19, body) { p19::body(); }
D_CLIENT(P19, value) { p19::value(); }
D_CLIENT(P19, rethrow) { p19::rethrow(); }
D_CLIENT(P19, yields) { p19::yields(); }
D_CLIENT(P19, tries) { p19::tries(); }
D_CLIENT(P19, named) { p19::named(); }
