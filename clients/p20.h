#include <coroutine>
#include <macoro/task.h>
#include <macoro/macros.h>
#include <macoro/trace.h>
#include <macoro/wrap.h>
#include <macoro/sync_wait.h>
#include <macoro/async_scope.h>
#include <macoro/when_all_scope.h>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p20 {
inline bool ends(const char* s, const char* suffix) { int n = 0, m = 0; while (s[n]) ++n; while (suffix[m]) ++m; if (m > n) return false; for (int i = 0; i < m; i++) if (s[n - m + i] != suffix[i]) return false; return true; }
// the awaits in progress, outermost first
struct Env { int n = 0; unsigned line[24] = {}; bool lib[24] = {}; int checks = 0; bool anyline = false; void in(unsigned l) { line[n] = l; lib[n++] = false; } void inLib() { lib[n++] = true; } void out(int k = 1) { n -= k; } };
struct In { Env& e; int k; In(Env& e, unsigned l) : e(e), k(1) { e.in(l); } ~In() { e.out(k); } };
// the recorded stack is: here, then the awaits in progress, innermost first, and nothing else
inline void check(Env& e, const trace& t, unsigned here) {
    D_CHECK((int)t.stack.size() == 1 + e.n, "the call stack does not have one entry per awaiting coroutine"); D_CHECK(t.stack[0].line() == here, "the call stack does not begin where it was asked for"); ++e.checks;
    for (int i = 0; i < e.n; i++) { const auto& s = t.stack[1 + i]; int k = e.n - 1 - i; if (e.lib[k]) continue; D_CHECK(s.line() == e.line[k], "an entry of the call stack is not the location of the await"); D_CHECK(ends(s.file_name(), "p20.h"), "an entry of the call stack names another file"); }
}
#define HERE(e) check(e, co_await get_trace{}, __LINE__)
// a root that is not traceable
inline d::Co rootv(Env& e, task<void> t) { In i(e, __LINE__); co_await t; }
inline d::Co rootm(Env& e, task<void> t) { In i(e, __LINE__); co_await std::move(t); }
inline task<void> leaf(Env& e) { HERE(e); HERE(e); co_return; }
inline task<int> leafi(Env& e, d::Gate* g) { HERE(e); if (g) { int k = co_await d::passr(*g); HERE(e); co_return k; } HERE(e); co_return 5; }
inline task<int&> leafr(Env& e, int& x) { HERE(e); co_return x; }
inline task<d::Val> leafv(Env& e) { HERE(e); co_return d::Val(9); }
inline task<int> thrower(Env& e) { HERE(e); throw d::Boom{ 3 }; co_return 0; }
// any depth: every level asks before, between and after its children
inline task<void> nest(Env& e, int depth, int how, d::Gate* g) {
    HERE(e); int x = 7;
    if (depth == 0) { { In i(e, __LINE__ ); co_await leaf(e); } { In i(e, __LINE__); int k = co_await leafi(e, g); D_CHECK(k == (g ? 11 : 5), "value"); } HERE(e); { In i(e, __LINE__); auto& r = co_await leafr(e, x); D_CHECK(&r == &x, "reference"); } { In i(e, __LINE__); auto v = co_await leafv(e); D_CHECK(v.get() == 9, "value"); } { In i(e, __LINE__); try { co_await thrower(e); } catch (d::Boom&) {} } HERE(e); co_return; }
    if (how == 0) { In i(e, __LINE__); co_await nest(e, depth - 1, how, g); }
    else if (how == 1) { auto t = nest(e, depth - 1, how, g); HERE(e); { In i(e, __LINE__); co_await t; } HERE(e); }
    else if (how == 2) { auto t = nest(e, depth - 1, how, g); auto u = std::move(t); In i(e, __LINE__); co_await u.when_ready(); }
    else { In i(e, __LINE__); auto r = co_await (nest(e, depth - 1, how, g) | wrap()); r.value(); }
    HERE(e);
}
inline void depths() {
    Env e; int depth = d_choose(4), how = d_choose(4), root = d_choose(2); d::Gate gate; gate.ready = d_choose(2); gate.code = 11; d::Gate* g = d_choose(2) ? &gate : nullptr;
    auto t = nest(e, depth, how, g); auto r = root ? rootv(e, std::move(t)) : rootm(e, std::move(t)); r.start(); if (g && !gate.ready) { D_CHECK(gate.waiting(), "not suspended"); gate.open(); D_COVER("suspended"); }
    D_CHECK(e.n == 0 && e.checks >= 10, "not run to the end"); D_COVER("depth");
}
// sync_wait is the root: the place where it was called is the last entry
inline void blocking() {
    Env e; int depth = d_choose(3); e.in(__LINE__ + 1); e.inLib(); 
    sync_wait(nest(e, depth, d_choose(2), nullptr));
    D_CHECK(e.checks >= 9, "not run"); D_COVER("sync_wait");
}
// macro coroutines in the chain: the location is that of the macro
inline task<int> mleaf(Env* e) { MC_BEGIN(task<int>, e, t = (trace*)nullptr); MC_AWAIT_FN([&](trace x) { check(*e, x, __LINE__); }, get_trace{}); MC_RETURN(4); MC_END(); }
inline task<int> mnest(Env* e, int depth) { MC_BEGIN(task<int>, e, depth, k = int(0), t = task<int>());
    MC_AWAIT_FN([&](trace x) { check(*e, x, __LINE__); }, get_trace{});
    if (depth == 0) { e->in(__LINE__); MC_AWAIT_SET(k, mleaf(e)); e->out(); } else if (depth == 1) { e->in(__LINE__); MC_AWAIT_SET(k, leafi(*e, nullptr)); e->out(); } else { t = mnest(e, depth - 1); e->in(__LINE__); MC_AWAIT_SET(k, std::move(t)); e->out(); }
    MC_AWAIT_FN([&](trace x) { check(*e, x, __LINE__); }, get_trace{});
    MC_RETURN(k); MC_END(); }
inline task<void> overm(Env& e, int depth) { HERE(e); { In i(e, __LINE__); int k = co_await mnest(&e, depth); D_CHECK(k == 4 || k == 5, "value"); } HERE(e); }
inline void macros() { Env e; int depth = d_choose(4); auto r = rootv(e, overm(e, depth)); r.start(); D_CHECK(e.n == 0 && e.checks >= 4, "not run to the end"); D_COVER("macros"); }
// scopes: a task of a scope was started where add() was called; below it are the awaits of the scope
inline task<int> member(Env& e, d::Gate* g) { HERE(e); int k = co_await d::passr(*g); HERE(e); co_return k; }
inline when_all_scope scopeBody(Env& e, d::Gate* g, d::Gate* h) { e.in(__LINE__); e.inLib(); auto a = co_await scoped(member(e, g)); e.out(2); e.in(__LINE__); e.inLib(); auto b = co_await scoped(member(e, h)); e.out(2); (void)a; (void)b; }
inline task<void> joins(Env& e, d::Gate* g, d::Gate* h) { HERE(e); { In i(e, __LINE__); co_await scopeBody(e, g, h); } HERE(e); }
inline d::Co rootsc(Env& e, d::Gate* g, d::Gate* h) { In i(e, __LINE__); co_await joins(e, g, h); }
inline void when_scope() { Env e; d::Gate g, h; g.ready = h.ready = true; auto r = rootsc(e, &g, &h); r.start(); D_CHECK(e.n == 0 && e.checks == 6, "not run to the end"); D_COVER("scope"); }
// every way for a promise to have a trace
template<int K> struct Own; template<> struct Own<0> {}; template<> struct Own<1> : basic_traceable {}; template<> struct Own<2> { basic_traceable m_trace; }; template<> struct Own<3> { basic_traceable x; traceable* m_trace = &x; }; template<> struct Own<4> { basic_traceable x; traceable* get_traceable() { return &x; } };
template<int K> traceable* own(Own<K>& o) { if constexpr (K == 0) return nullptr; else if constexpr (K == 1) return &o; else if constexpr (K == 2) return &o.m_trace; else return &o.x; }
template<int K> struct Co { struct promise_type : Own<K> { Co get_return_object() { return { coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::std) }; } Co macoro_get_return_object() { return { coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::macoro) }; } suspend_always initial_suspend() noexcept { return {}; } suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { d_fail("exception"); } }; coroutine_handle<promise_type> h; };
template<int K> Co<K> ownroot(Env& e) { In i(e, __LINE__); co_await leaf(e); }
template<int K> Co<K> ownrootm(Env* e) { MC_BEGIN(Co<K>, e); e->in(__LINE__); MC_AWAIT(leaf(*e)); e->out(); MC_RETURN_VOID(); MC_END(); }
template<int K> void owner() {
    Env e; Co<K> c = d_choose(2) ? ownroot<K>(e) : ownrootm<K>(&e); auto& p = c.h.promise(); traceable* t = own<K>(p);
    D_CHECK(detail::get_traceable(p) == t && detail::get_traceable(c.h) == t && detail::get_traceable(coroutine_handle<>(c.h)) == nullptr, "the trace of a promise");
    bool parent = t && d_choose(2); std::source_location l = std::source_location::current(); basic_traceable gp; basic_traceable* g = d_choose(2) ? &gp : nullptr; unsigned gl = __LINE__ + 1;
    if (g) { g->set_parent(nullptr, std::source_location::current()); }
    if (parent) { t->set_parent(g, l); if (g) { e.line[0] = gl; e.lib[0] = false; e.n = 1; } e.in(l.line()); } else if (t) { t->set_parent(nullptr, l); e.in(l.line()); }
    c.h.resume(); D_CHECK(c.h.done() && e.checks == 2, "not run to the end"); c.h.destroy(); D_COVER("owner");
}
// links: replaced by set_parent, children of a frame
inline void links() {
    basic_traceable a, b, c; auto l1 = std::source_location::current(); auto l2 = std::source_location::current(); bool two = d_choose(2); a.set_parent(&b, l1); D_CHECK(a.m_parent == &b && a.m_location.line() == l1.line(), "set_parent"); if (two) a.set_parent(&c, l2); c.set_parent(nullptr, l1); b.set_parent(nullptr, l2);
    std::vector<std::source_location> s; s.push_back(l1); a.get_call_stack(s); D_CHECK(s.size() == 3 && s[1].column() == (two ? l2 : l1).column() && s[2].column() == (two ? l1 : l2).column(), "the call stack follows a replaced parent");
    b.add_child(&a); D_CHECK(b.m_child == &a && a.m_child == nullptr, "add_child"); b.remove_child(&a); D_CHECK(b.m_child == nullptr, "remove_child"); b.add_child(&c); D_CHECK(b.m_child == &c, "add_child"); D_COVER("links");
}
// the induction step: whatever is above a frame (its own contract: it appends its entry and those above it), the frame appends its entry before them
using Stack = std::vector<std::source_location>;
struct Above : traceable { void get_call_stack(Stack& s) override { for (traceable* t = this; t; t = t->m_parent) s.push_back(t->m_location); } void add_child(traceable*) override {} void remove_child(traceable*) override {} };
struct Plain : traceable { void add_child(traceable*) override {} void remove_child(traceable*) override {} };
inline void step() {
    std::source_location l[8] = { std::source_location::current(), std::source_location::current(), std::source_location::current(), std::source_location::current(), std::source_location::current(), std::source_location::current(), std::source_location::current(), std::source_location::current() };
    Above up[3]; int above = d_choose(4), before = d_choose(4), kind = d_choose(3); for (int i = 0; i < above; i++) up[i].set_parent(i + 1 < above ? &up[i + 1] : nullptr, l[1 + i]);
    basic_traceable b; Plain p; async_scope sc; traceable& t = kind == 0 ? (traceable&)b : kind == 1 ? (traceable&)p : (traceable&)sc; t.set_parent(above ? &up[0] : nullptr, l[0]);
    Stack s; if (d_choose(2)) s.reserve(8); for (int i = 0; i < before; i++) s.push_back(l[4 + i]); t.get_call_stack(s);
    D_CHECK((int)s.size() == before + 1 + above, "the walk misses, repeats or invents an entry"); for (int i = 0; i < (int)s.size(); i++) D_CHECK(s[i].column() == l[i < before ? 4 + i : i - before].column() && s[i].line() == l[0].line(), "the walk appends other entries");
    trace q(l[7], t); D_CHECK((int)q.stack.size() == 2 + above && q.stack[0].column() == l[7].column(), "a trace does not begin where it was asked for"); for (int i = 0; i <= above; i++) D_CHECK(q.stack[1 + i].column() == l[i].column(), "a trace has other entries"); D_COVER("step");
}
}
D_CLIENT(P20, step) { p20::step(); }
D_CLIENT(P20, depths) { p20::depths(); }
D_CLIENT(P20, blocking) { p20::blocking(); }
D_CLIENT(P20, macros) { p20::macros(); }
D_CLIENT(P20, when_scope) { p20::when_scope(); }
D_CLIENT(P20, own_none) { p20::owner<0>(); }
D_CLIENT(P20, own_base) { p20::owner<1>(); }
D_CLIENT(P20, own_member) { p20::owner<2>(); }
D_CLIENT(P20, own_pointer) { p20::owner<3>(); }
D_CLIENT(P20, own_function) { p20::owner<4>(); }
D_CLIENT(P20, links) { p20::links(); }
