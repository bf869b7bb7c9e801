#include <macoro/result.h>
#include <macoro/task.h>
#include <macoro/macros.h>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p01 {
struct Er : d::Val { explicit Er(int x) : d::Val(x) {} };
using R = result<d::Val, Er>; using RV = result<void, Er>; using X = result<d::Val>; using XV = result<void>;
// the abstract value of a result: which side it holds and the content
struct Abs { bool err; int v; };
template<class Q> void is(Q& r, Abs a, bool payload = true) {
    const Q& c = r;
    D_CHECK(r.has_value() == !a.err && r.has_error() == a.err && c.has_value() == !a.err && c.has_error() == a.err && (bool)r == !a.err, "queries disagree with what the result was given");
    int thrown = 0, got = 0;
    if constexpr (!std::is_void_v<typename Q::value_type>) {
        try { got = r.value().get(); } catch (Er& e) { thrown = 1; got = e.get(); } D_CHECK(thrown == (int)a.err && got == a.v, "value() does not give the value or throw the error held");
        thrown = 0; try { got = c.value().get(); } catch (Er& e) { thrown = 1; got = e.get(); } D_CHECK(thrown == (int)a.err && got == a.v, "value() const does not give the value or throw the error held");
        thrown = 0; try { got = (*r).get(); } catch (Er& e) { thrown = 1; got = e.get(); } D_CHECK(thrown == (int)a.err && got == a.v, "operator* does not give the value or throw the error held");
        thrown = 0; try { got = (*c).get(); } catch (Er& e) { thrown = 1; got = e.get(); } D_CHECK(thrown == (int)a.err && got == a.v, "operator* const does not give the value or throw the error held");
    } else {
        got = a.v; try { r.value(); } catch (Er& e) { thrown = 1; got = e.get(); } D_CHECK(thrown == (int)a.err && got == a.v, "value() does not return or throw the error held");
        thrown = 0; got = a.v; try { *c; } catch (Er& e) { thrown = 1; got = e.get(); } D_CHECK(thrown == (int)a.err && got == a.v, "operator* does not return or throw the error held");
    }
    thrown = 0; try { got = r.error().get(); } catch (std::runtime_error&) { thrown = 1; got = a.v; } D_CHECK(thrown == (int)!a.err && got == a.v, "error() does not give the error or throw when there is none");
    thrown = 0; try { got = c.error().get(); } catch (std::runtime_error&) { thrown = 1; got = a.v; } D_CHECK(thrown == (int)!a.err && got == a.v, "error() const does not give the error or throw when there is none");
}
template<class Q> Q mk(Abs a) {
    if (a.err) { if (d_choose(2)) return Err(Er(a.v)); const Er e(a.v); Q r = Err(e); D_CHECK(e.get() == a.v, "constructing from an lvalue error modifies it"); return r; }
    if constexpr (std::is_void_v<typename Q::value_type>) return Ok();
    else { int k = d_choose(3); if (k == 0) return Ok(d::Val(a.v)); if (k == 1) { const d::Val x(a.v); Q r = Ok(x); D_CHECK(x.get() == a.v, "constructing from an lvalue modifies it"); return r; }
        d::Val x(a.v); Q r = Ok(x); D_CHECK(x.get() == a.v, "constructing from an lvalue modifies it"); return r; }
}
inline Abs any() { Abs a; a.err = d_choose(2); a.v = d_int(); return a; }
template<class Q> void cov(Abs a) { if (a.err) D_COVER("error"); else D_COVER("value"); }
// construction
template<class Q> void make() { { Abs a = any(); Q r = mk<Q>(a); is(r, a); is(r, a); cov<Q>(a); } D_CHECK(d::Val::live == 0, "a payload is not destroyed exactly once"); }
// copies and moves
template<class Q> void copies() {
    { Abs a = any(), b = any(); Q r = mk<Q>(a);
    switch (d_choose(4)) {
    case 0: { Q s(r); is(s, a); is(r, a); D_COVER("copied"); break; }
    case 1: { Q s(std::move(r)); is(s, a); D_CHECK(r.has_error() == a.err, "a moved-from result changes sides"); D_COVER("moved"); break; }
    case 2: { Q s = mk<Q>(b); s = r; is(s, a); is(r, a); D_COVER("copy-assigned"); break; }
    default: { Q s = mk<Q>(b); s = std::move(r); is(s, a); D_CHECK(r.has_error() == a.err, "a moved-from result changes sides"); D_COVER("move-assigned"); break; } }
    cov<Q>(a); }
    D_CHECK(d::Val::live == 0, "a payload is not destroyed exactly once");
}
// assignment of Ok / Err over any earlier state
template<class Q> void assigns() {
    { Abs a = any(), b = any(); Q r = mk<Q>(a);
    if (b.err) { if (d_choose(2)) r = Err(Er(b.v)); else { Er e(b.v); r = Err(e); D_CHECK(e.get() == b.v, "assigning from an lvalue error modifies it"); } }
    else if constexpr (std::is_void_v<typename Q::value_type>) r = Ok();
    else { if (d_choose(2)) r = Ok(d::Val(b.v)); else { d::Val x(b.v); r = Ok(x); D_CHECK(x.get() == b.v, "assigning from an lvalue modifies it"); } }
    is(r, b); int n = d::Val::live; D_CHECK(n == (b.err || !std::is_void_v<typename Q::value_type> ? 1 : 0), "a replaced payload is not destroyed"); cov<Q>(b); }
    D_CHECK(d::Val::live == 0, "a payload is not destroyed exactly once");
}
// fallbacks
template<class Q> void fallbacks() {
    { Abs a = any(); int f = d_int(); Q r = mk<Q>(a); const Q& c = r;
    if constexpr (!std::is_void_v<typename Q::value_type>) {
        d::Val alt(f); const d::Val& calt = alt;
        { const d::Val& g = r.value_or(alt); D_CHECK(g.get() == (a.err ? f : a.v) && &g == (a.err ? &alt : &r.value()), "value_or(lvalue) wrong"); }
        { const d::Val& g = c.value_or(calt); D_CHECK(g.get() == (a.err ? f : a.v), "value_or(const lvalue) wrong"); }
        { d::Val g = r.value_or(d::Val(f)); D_CHECK(g.get() == (a.err ? f : a.v), "value_or(rvalue) wrong"); }
        D_CHECK(alt.get() == f, "value_or modifies its alternative");
    }
    { Er ea(f); const Er& cea = ea;
        { const Er& g = r.error_or(ea); D_CHECK(g.get() == (a.err ? a.v : f), "error_or(lvalue) wrong"); }
        { const Er& g = c.error_or(cea); D_CHECK(g.get() == (a.err ? a.v : f), "error_or(const lvalue) wrong"); }
        { Er g = r.error_or(Er(f)); D_CHECK(g.get() == (a.err ? a.v : f), "error_or(rvalue) wrong"); }
        D_CHECK(ea.get() == f, "error_or modifies its alternative"); }
    is(r, a); cov<Q>(a); }
    D_CHECK(d::Val::live == 0, "a payload is not destroyed exactly once");
}
// comparison
template<class Q> void compares() {
    { Abs a = any(), b = any(); Q r = mk<Q>(a); const Q& c = r; bool same = a.err == b.err && a.v == b.v;
    if (b.err) { Er e(b.v); D_CHECK((c == Err(e)) == same && (c != Err(e)) == !same && (c == Err(Er(b.v))) == same && (c != Err(Er(b.v))) == !same && e.get() == b.v, "comparison with an error is wrong"); }
    else if constexpr (std::is_void_v<typename Q::value_type>) { D_CHECK((c == Ok()) == !a.err && (c != Ok()) == a.err, "comparison with Ok() is wrong"); }
    else { d::Val x(b.v); D_CHECK((c == Ok(x)) == same && (c != Ok(x)) == !same && (c == Ok(d::Val(b.v))) == same && (c != Ok(d::Val(b.v))) == !same && x.get() == b.v, "comparison with a value is wrong"); }
    is(r, a); if (same) D_COVER("same"); else D_COVER("different"); }
    D_CHECK(d::Val::live == 0, "a payload is not destroyed exactly once");
}
// unwrapping with co_await, in a task, and in a coroutine that returns a result
struct Tag { int id; };
template<class Q> d::Co unwrap(Q& r, Abs a, int& done) {
    int got = a.v, ex = 0;
    try { if constexpr (std::is_void_v<typename Q::value_type>) co_await r; else { d::Val x = co_await r; got = x.get(); } } catch (Er& e) { ex = 1; got = e.get(); }
    D_CHECK(ex == (int)a.err && got == a.v, "co_await does not give the value or throw the error held"); ++done;
}
template<class Q> void unwraps() { { int done = 0; Abs a = any(); Q r = mk<Q>(a); unwrap(r, a, done).start(); D_CHECK(done == 1, "co_await of a result does not complete once"); cov<Q>(a); } D_CHECK(d::Val::live == 0, "a payload is not destroyed exactly once"); }
// default construction
template<class Q> void defaults() { Q r; D_CHECK(r.has_value() && !r.has_error(), "a default result is not a value"); }
// errors held as exceptions
inline std::exception_ptr boomptr(int v) { try { throw d::Boom{ v }; } catch (...) { return std::current_exception(); } }
template<class Q> int rethrown(Q& r, int* v) { try { r.value(); } catch (d::Boom& b) { *v = b.code; return 1; } return 0; }
template<class Q> void exceptions() {
    { int v = d_int(), w = 0; Q r = Err(boomptr(v)); const Q& c = r; D_CHECK(rethrown(r, &w) && w == v, "value() does not rethrow the exception held"); w = v ^ 1; D_CHECK(rethrown(c, &w) && w == v, "value() const does not rethrow the exception held");
    std::exception_ptr p = boomptr(v), p0 = p; Q s = Err(p); D_CHECK(p == p0, "Err(lvalue) modifies the exception pointer"); D_CHECK(s.error() == p, "error() is not the exception given"); D_CHECK((s == Err(p0)), "comparison of exceptions wrong");
    Q t(s); w = 0; D_CHECK(rethrown(t, &w) && w == v && t.error() == p, "a copy does not hold the same exception"); t = Err(boomptr(v)); D_CHECK(t.error() != p, "assignment keeps the earlier exception"); D_COVER("rethrown"); }
}
inline X inner(Abs a, int& locals) { d::Live l(locals); if (a.err) throw d::Boom{ a.v }; co_return Ok(d::Val(a.v)); }
inline X outer(Abs a, int& locals, int& after) { d::Live l(locals); X r = inner(a, locals); d::Val v = co_await r; ++after; co_return Ok(std::move(v)); }
inline XV outerv(Abs a, int& locals, int& after) { d::Live l(locals); XV r; if (a.err) r = Err(boomptr(a.v)); co_await r; ++after; co_return Ok(); }
inline X given(Abs a) { if (a.err) co_return Err(boomptr(a.v)); co_return Ok(d::Val(a.v)); }
inline void coro() {
    { Abs a = any(); int locals = 0, after = 0, w = 0; int k = d_choose(3);
      if (k == 0) { X r = outer(a, locals, after); D_CHECK(r.has_error() == a.err, "a result coroutine reports the wrong side"); if (a.err) D_CHECK(rethrown(r, &w) && w == a.v, "a result coroutine loses its exception"); else D_CHECK(r.value().get() == a.v, "a result coroutine returns the wrong value"); }
      else if (k == 1) { XV r = outerv(a, locals, after); D_CHECK(r.has_error() == a.err, "a result coroutine reports the wrong side"); if (a.err) D_CHECK(rethrown(r, &w) && w == a.v, "a result coroutine loses its exception"); }
      else { X r = given(a); after = !a.err; D_CHECK(r.has_error() == a.err, "a result coroutine reports the wrong side"); if (a.err) D_CHECK(rethrown(r, &w) && w == a.v, "a result coroutine loses its exception"); else D_CHECK(r.value().get() == a.v, "a result coroutine returns the wrong value"); }
      D_CHECK(after == (a.err ? 0 : 1), "unwrapping does not continue exactly when a value is held"); D_CHECK(locals == 0, "locals of a result coroutine are not destroyed"); cov<X>(a); }
    D_CHECK(d::Val::live == 0, "a payload is not destroyed exactly once");
}
// a payload constructor that throws leaves the result unchanged
struct Bad { int v; static inline int throws = 0; static inline int live = 0; explicit Bad(int x) : v(x) { ++live; } Bad(const Bad& o) : v(o.v) { if (throws) throw d::Boom{ 1 }; ++live; } Bad(Bad&& o) noexcept : v(o.v) { ++live; } Bad& operator=(const Bad&) = default; Bad& operator=(Bad&&) noexcept = default; ~Bad() { --live; } };
inline void strong() {
    { bool e = d_choose(2); int v = d_int(), w = d_int(); result<Bad, Er> r = Ok(Bad(v)); if (e) r = Err(Er(v)); Bad b(w); int t = 0; Bad::throws = d_choose(2);
      try { r = Ok(b); } catch (d::Boom&) { t = 1; } 
      if (t) { D_CHECK(r.has_error() == e && (e ? r.error().get() : r.value().v) == v, "a failed assignment changes the result"); D_COVER("failed"); } else { D_CHECK(r.has_value() && r.value().v == w, "assignment lost"); D_COVER("assigned"); } Bad::throws = 0; }
    D_CHECK(d::Val::live == 0 && Bad::live == 0, "a payload is not destroyed exactly once");
}
}
#define P01C(n, f) D_CLIENT(P01, n##_t) { p01::f<p01::R>(); } D_CLIENT(P01, n##_v) { p01::f<p01::RV>(); }
P01C(make, make) P01C(copies, copies) P01C(assigns, assigns) P01C(fallbacks, fallbacks) P01C(compares, compares) P01C(unwraps, unwraps)
D_CLIENT(P01, defaults) { p01::defaults<result<int, p01::Er>>(); p01::defaults<p01::RV>(); p01::defaults<p01::XV>(); }
D_CLIENT(P01, exceptions_t) { p01::exceptions<p01::X>(); }
D_CLIENT(P01, exceptions_v) { p01::exceptions<p01::XV>(); }
D_CLIENT(P01, coro) { p01::coro(); }
D_CLIENT(P01, strong) { p01::strong(); }
