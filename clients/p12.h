#include <macoro/task.h>
#include <macoro/thread_pool.h>
#include <macoro/macros.h>
#include <optional>
#include <vector>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p12 {
struct Env { thread_pool p; int q[24] = {}, n = 0, h = 0, frames = 0, count[8] = {}; bool running = false; std::optional<thread_pool::work> w[2];
    void enq(int id) { q[n++] = id; }
    void got(int id) { D_CHECK(running, "resumed outside of the pool's workers"); D_CHECK(h < n && q[h] == id, "not resumed in the order of scheduling, or resumed twice"); ++h; ++count[id]; } };
struct ByPost { Env& e; bool await_ready() const noexcept { return false; } template<class H> void await_suspend(H x) { e.p.schedule(coroutine_handle<void>(x)); } void await_resume() {} };
struct ByPost2 { Env& e; bool await_ready() const noexcept { return false; } template<class H> void await_suspend(H x) { e.p.post(coroutine_handle<void>(x)); } void await_resume() {} };
struct ByDispatch { Env& e; bool await_ready() const noexcept { return false; } template<class P> std::coroutine_handle<> await_suspend(std::coroutine_handle<P> x) { auto r = e.p.dispatch(coroutine_handle<void>(coroutine_handle<P>(x))); return r == noop_coroutine() ? std::coroutine_handle<>(std::noop_coroutine()) : x; } void await_resume() {} };
d::Co item(Env& e, int id, int how, int act, d::Live) {
    e.enq(id);
    if (how == 0) co_await e.p.schedule(); else if (how == 1) co_await e.p.post(); else if (how == 2) co_await e.p.dispatch(); else if (how == 3) co_await ByPost{ e }; else if (how == 4) co_await ByPost2{ e }; else co_await ByDispatch{ e };
    e.got(id);
    if (act == 1) { e.enq(id); co_await e.p.schedule(); e.got(id); D_COVER("again"); }
    else if (act == 2) { int h = e.h, n = e.n; co_await e.p.dispatch(); D_CHECK(e.h == h && e.n == n && e.running, "dispatching on a worker does not continue inline"); co_await ByDispatch{ e }; D_CHECK(e.h == h && e.running, "dispatching on a worker does not continue inline"); D_COVER("inline"); }
    else if (act == 3) { item(e, 4 + id, d_choose(2) ? 0 : 1, 0, d::Live(e.frames)).start(); D_CHECK(e.count[4 + id] == 0, "scheduling resumes the coroutine at once"); D_COVER("more"); }
    else if (act == 4) { bool ex = false; try { e.p.run(); } catch (std::runtime_error&) { ex = true; } D_CHECK(ex, "a worker runs the pool a second time"); D_COVER("nested"); }
    else if (act == 5) { e.w[0].reset(); e.w[1].reset(); D_COVER("token"); }
}
inline void run(Env& e) { e.running = true; e.p.run(); e.running = false; D_CHECK(e.h == e.n, "a scheduled coroutine is left behind when the worker exits"); D_CHECK(e.frames == 0, "a coroutine is not resumed"); }
// N coroutines scheduled in every way; each does something on the worker; the pool runs again afterwards
inline void fifo() {
    Env e; int N = 2; run(e); int again = 1 + d_choose(2);
    for (int r = 0; r < again; r++) { for (int i = 0; i < N; i++) { int n = e.count[i]; item(e, i, r ? 0 : d_choose(6), r ? 0 : d_choose(5), d::Live(e.frames)).start(); D_CHECK(e.count[i] == n, "resumed outside of the pool's workers"); } run(e); D_COVER("round"); }
}
// work tokens: the worker stays until the last token is gone (here: released by the items, in any way)
inline void tokens() {
    Env e, f; thread_pool::work other = f.p.make_work(); int k = d_choose(8); 
    if (k == 0) { e.w[0].emplace(e.p.make_work()); e.w[1].emplace(e.p.make_work()); }
    else if (k == 1) { thread_pool::work a = e.p.make_work(); thread_pool::work b(std::move(a)); e.w[0].emplace(std::move(b)); }
    else if (k == 2) { thread_pool::work a = e.p.make_work(), b = e.p.make_work(); a = std::move(b); e.w[1].emplace(std::move(a)); }
    else if (k == 3) { thread_pool::work a = e.p.make_work(), b; a.reset(); a.reset(); b.reset(); }
    else if (k == 4) { e.w[0].emplace(e.p.make_work()); e.w[0]->reset(); }
    else if (k == 5) { thread_pool::work a = e.p.make_work(); thread_pool::work b; b = std::move(a); a.reset(); e.w[1].emplace(std::move(b)); }
    // a token of this pool is replaced by one of another pool, and the other way round
    else if (k == 6) { e.w[1].emplace(e.p.make_work()); *e.w[1] = std::move(other); }
    else { e.w[1].emplace(f.p.make_work()); thread_pool::work a = e.p.make_work(); *e.w[1] = std::move(a); }
    bool last = d_choose(2);
    if (last) { item(e, 1, 0, 0, d::Live(e.frames)).start(); item(e, 0, 0, 5, d::Live(e.frames)).start(); } else { item(e, 0, 0, 5, d::Live(e.frames)).start(); item(e, 1, 0, 3, d::Live(e.frames)).start(); }
    run(e); if (k == 6) { D_CHECK(!e.w[1], "token"); } other.reset(); run(f); e.p.join(); e.p.join();
}
// dispatching to a pool from a worker of another one
inline d::Co across(Env& a, Env& b, int how, bool boomerang, d::Live) {
    a.enq(0); co_await a.p.schedule(); a.got(0); b.enq(1); if (how == 0) co_await b.p.dispatch(); else if (how == 1) co_await ByDispatch{ b }; else co_await b.p.schedule(); b.got(1);
    if (boomerang) { a.enq(2); co_await a.p.dispatch(); a.got(2); }
}
inline void pools() { Env a, b; bool back = d_choose(2); across(a, b, d_choose(3), back, d::Live(a.frames)).start(); a.running = true; a.p.run(); a.running = false; D_CHECK(b.count[1] == 0 && a.count[0] == 1, "dispatching from a worker of another pool continues there"); b.running = true; b.p.run(); b.running = false; D_CHECK(b.count[1] == 1, "lost"); a.running = true; a.p.run(); D_CHECK(a.count[2] == back && a.frames == 0, "lost"); D_COVER("hopped"); }
// coroutines written with the macros, tasks, and a pool that is moved
inline task<d::Val> hop(Env& e, int v, bool boom) { e.enq(0); co_await e.p.schedule(); e.got(0); if (boom) throw d::Boom{ v }; co_return d::Val(v); }
inline task<int> mac(Env* e, int v) { MC_BEGIN(task<int>, e, v); e->enq(0); MC_AWAIT(e->p.schedule()); e->got(0); e->enq(0); MC_AWAIT(e->p.post()); e->got(0); MC_AWAIT(e->p.dispatch()); MC_RETURN(v); MC_END(); }
inline void kinds() {
    Env e; int v = d_int(), got = 0, done = 0; bool boom = d_choose(2), macros = !boom && d_choose(2); if (d_choose(2)) { thread_pool q(std::move(e.p)); e.p = std::move(q); D_COVER("moved"); }
    auto r = [&]() -> d::Co { try { if (macros) got = co_await mac(&e, v); else got = (co_await hop(e, v, boom)).get(); D_CHECK(!boom, "exception lost"); } catch (d::Boom& b) { D_CHECK(boom, "exception"); got = b.code; } ++done; };
    r().start(); D_CHECK(!done, "resumed outside of the pool's workers"); run(e); D_CHECK(done == 1 && got == v, "another outcome"); D_COVER("done"); if (macros) D_COVER("macros");
}
}
D_CLIENT(P12, fifo) { p12::fifo(); }
D_CLIENT(P12, tokens) { p12::tokens(); }
D_CLIENT(P12, kinds) { p12::kinds(); }
D_CLIENT(P12, pools) { p12::pools(); }
