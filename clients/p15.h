#include <coroutine>
#include <macoro/task.h>
#include <macoro/stop.h>
#include <macoro/take_until.h>
#include <macoro/timeout.h>
#include <macoro/macros.h>
#include <macoro/thread_pool.h>
#include <optional>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p15 {
// the companion finishes: already, inside request_stop, inside await_suspend, when the client says so, or before the awaitable does; any of its steps may fail
enum { DONE, INSIDE_STOP, INSIDE_SUSPEND, LATER, EARLY, UMODES };
enum { NOFAIL, F_STOP, F_OP, F_READY, F_SUSPEND, F_RESUME, FAILS };
struct Env { int stops = 0, a = 0, awaits = 0, umode = 0, ufail = 0, v = 0; bool urun = true; d::Gate ag; coroutine_handle<> uh;
    void finish() { D_CHECK(urun, "client"); urun = false; if (uh) { auto x = std::exchange(uh, nullptr); x.resume(); } } };
struct Until { Env* e; d::Live l;
    void request_stop() { D_CHECK(e->a == 2, "the companion is asked to stop before the awaitable has completed"); D_CHECK(e->awaits == 0, "the companion is awaited before it is asked to stop"); D_CHECK(++e->stops == 1, "the companion is asked to stop more than once"); Env* x = e; if (x->umode == INSIDE_STOP && x->urun) x->finish(); if (x->ufail == F_STOP) throw d::Boom{ 81 }; }
    struct Aw { Env* e; bool await_ready() { if (e->ufail == F_READY) { e->urun = false; throw d::Boom{ 83 }; } return !e->urun; }
        template<class H> void await_suspend(H h) { Env* x = e; if (x->ufail == F_SUSPEND) { x->urun = false; throw d::Boom{ 84 }; } x->uh = coroutine_handle<>(h); if (x->umode == INSIDE_SUSPEND) x->finish(); }
        int await_resume() { D_CHECK(!e->urun, "resumed although the companion still runs"); if (e->ufail == F_RESUME) throw d::Boom{ 85 }; return 7; } };
    Aw get() { D_CHECK(e->stops == 1, "the companion is awaited before it is asked to stop"); D_CHECK(++e->awaits == 1, "the companion is awaited more than once"); if (e->ufail == F_OP) { e->urun = false; throw d::Boom{ 82 }; } return Aw{ e }; }
    auto MACORO_OPERATOR_COAWAIT() { return get(); } };
template<class R> R give(Env& e) { if constexpr (std::is_void_v<R>) return; else return R(e.v); }
inline void begin(Env& e) { D_CHECK(e.a == 0, "the awaitable runs twice"); D_CHECK(e.stops == 0 && e.awaits == 0, "the companion is stopped or awaited before the awaitable runs"); e.a = 1; }
template<class R> task<R> work(Env& e, bool boom, bool wait, d::Live) { begin(e); if (wait) co_await d::pass(e.ag); e.a = 2; if (boom) throw d::Boom{ e.v }; co_return give<R>(e); }
template<class R> struct Direct { Env& e; bool boom, wait; d::Live l; Direct(Env& e, bool b, bool w, d::Live l) : e(e), boom(b), wait(w), l(std::move(l)) {} Direct(Direct&&) = default; bool await_ready() { begin(e); return !wait; } template<class H> void await_suspend(H h) { e.ag.h = coroutine_handle<>(h); } R await_resume() { e.a = 2; if (boom) throw d::Boom{ e.v }; return give<R>(e); } };
template<class R> d::Co consume(Env& e, task<R> t, bool move, bool boom, int& done, d::Live) {
    bool caught = false; try {
        if constexpr (std::is_void_v<R>) { if (move) co_await std::move(t); else co_await t; }
        else if constexpr (std::is_same_v<R, d::Val>) { int x; if (move) { d::Val r = co_await std::move(t); x = r.get(); } else { auto& r = co_await t; x = r.get(); } D_CHECK(x == e.v, "another value is delivered"); }
        else { int x; if (move) x = co_await std::move(t); else x = co_await t; D_CHECK(x == e.v, "another value is delivered"); }
    } catch (d::Boom& b) { caught = true; D_CHECK(b.code == e.v, "the failure of the companion replaces the outcome"); }
    D_CHECK(caught == boom, caught ? "an exception is delivered although the awaitable returned" : "the exception of the awaitable is lost"); D_CHECK(e.a == 2, "completed although the awaitable still runs"); D_CHECK(!e.urun, "completed although the companion still runs"); D_CHECK(e.stops == 1, "completed without asking the companion to stop"); ++done;
}
template<class R> void until() {
    Env e; int live = 0, ulive = 0, clive = 0, done = 0; bool direct = d_choose(2), boom = d_choose(2), wait = d_choose(2), move = d_choose(2); e.umode = d_choose(UMODES); e.ufail = d_choose(FAILS); e.v = d_int(); int vals = d::Val::live; if (e.umode == DONE) e.urun = false;
    { auto t = direct ? take_until(Direct<R>(e, boom, wait, d::Live(live)), Until{ &e, d::Live(ulive) }) : take_until(work<R>(e, boom, wait, d::Live(live)), Until{ &e, d::Live(ulive) });
      D_CHECK(e.a == 0 && e.stops == 0 && ulive == 1, "runs before it is awaited"); if (e.umode == EARLY && (!wait || d_choose(2))) { e.finish(); D_COVER("early"); } auto c = consume<R>(e, std::move(t), move, boom, done, d::Live(clive)); c.start(); }
    if (wait) { D_CHECK(e.a == 1 && done == 0 && e.stops == 0 && e.ag.waiting(), "completed although the awaitable still runs"); if (e.umode == EARLY && e.urun) { e.finish(); D_CHECK(done == 0 && e.stops == 0, "completed although the awaitable still runs"); D_COVER("companion first"); } e.ag.open(); D_COVER("awaitable later"); }
    D_CHECK(e.stops == 1 && e.a == 2, "the companion is not asked to stop"); D_CHECK(done == !e.urun, "completed at another time");
    if (e.urun) { D_CHECK((bool)e.uh, "the companion is not awaited"); e.finish(); D_COVER("companion later"); }
    D_CHECK(done == 1, "the awaiter is not resumed once"); D_CHECK(clive == 0 && live == 0 && ulive == 0 && d::Val::live == vals, "the awaitable, the companion or the result is not destroyed exactly once"); D_COVER(boom ? "fails" : "returns");
}
// never started or dropped while the awaitable or the companion is pending
inline void dropped() { Env e; int live = 0, ulive = 0, clive = 0, done = 0, at = d_choose(3); e.umode = LATER; { auto t = take_until(work<int>(e, false, at == 1, d::Live(live)), Until{ &e, d::Live(ulive) }); if (at) { auto c = consume<int>(e, std::move(t), d_choose(2), false, done, d::Live(clive)); c.start(); D_CHECK(done == 0 && e.stops == (at == 2), "completed"); c.h.destroy(); } } D_CHECK(done == 0 && live == 0 && ulive == 0 && clive == 0 && e.stops == (at == 2), "the awaitable or the companion is not destroyed exactly once"); D_COVER("dropped"); }

// a scheduler for delays: resumes at once, when the delay elapses (and when its token is triggered, if it honours it), or fails in one of its steps
enum { HONOURS, IGNORES, NOW, S_SCHEDULE, S_READY, S_SUSPEND, S_RESUME, SMODES };
struct Clock { int mode = 0, scheduled = 0; long long d = -1; bool pending = false; coroutine_handle<> h; int aws = 0;
    void elapse() { D_CHECK(pending, "client"); pending = false; auto x = std::exchange(h, nullptr); x.resume(); } };
struct CSched { Clock* c; struct Aw { Clock* c; stop_token tok; d::Live l; std::unique_ptr<stop_callback> reg;
        bool await_ready() { if (c->mode == S_READY) throw d::Boom{ 91 }; return c->mode == NOW || (c->mode != IGNORES && tok.stop_requested()); }
        template<class H> void await_suspend(H h) { if (c->mode == S_SUSPEND) throw d::Boom{ 92 }; c->h = coroutine_handle<>(h); c->pending = true; if (c->mode != IGNORES && tok.stop_possible()) reg.reset(new stop_callback(tok, [c = c] { if (c->pending) c->elapse(); })); }
        void await_resume() { if (c->mode == S_RESUME) throw d::Boom{ 93 }; } };
    template<class Rep, class Per> Aw schedule_after(std::chrono::duration<Rep, Per> d, stop_token t) { ++c->scheduled; c->d = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); if (c->mode == S_SCHEDULE) throw d::Boom{ 90 }; return Aw{ c, std::move(t), d::Live(c->aws), nullptr }; } };
inline bool sfails(int m) { return m == S_SCHEDULE || m == S_READY || m == S_SUSPEND; }
inline bool waits(int m) { return m == HONOURS || m == IGNORES || m == S_RESUME; }
inline d::Co wait(timeout& t, Clock& c, int& done) { co_await t; D_CHECK(!c.pending, "the timeout completes although its delay is still pending"); ++done; }
inline timeout make(CSched& s, long long d, int form, std::optional<stop_source>& ext, int token) {
    std::chrono::nanoseconds n(d); stop_token tok; if (token) tok = ext->get_token();
    if (form == 0) return token == 0 && d_choose(2) ? timeout(s, n) : timeout(s, n, tok);
    if (form == 1) { timeout t; t.reset(s, n, tok); return t; }
    if (form == 2) { timeout t(s, n, tok); timeout u(std::move(t)); return u; }
    timeout t(s, n, tok), u; u = std::move(t); return u; }
// the request is made exactly when one of its causes occurs, in any order
inline void timeouts() {
    Clock c; CSched s{ &c }; int done = 0; c.mode = d_choose(SMODES); long long d = d_int() & 0xffff; int form = d_choose(4); int token = d_choose(3); std::optional<stop_source> ext; ext.emplace(); if (token == 2) ext->request_stop(); bool stop = token == 2;
    stop_token seen; bool got = false; {
        timeout t = make(s, d, form, ext, token); D_CHECK(c.scheduled == 1 && c.d == d, "not scheduled once with the delay"); bool run = c.mode == IGNORES || ((c.mode == HONOURS || c.mode == S_RESUME) && !stop); D_CHECK(c.pending == run, "the delay is not pending"); if (!run && !sfails(c.mode) && c.mode != S_RESUME) stop = true;
        seen = d_choose(2) ? t.get_token() : t.get_source().get_token(); bool any = sfails(c.mode) || c.mode == S_RESUME;
        auto chk = [&] { D_CHECK(seen.stop_requested() || !stop, "stop is not requested although the delay has elapsed or the caller's token was triggered"); if (!any) D_CHECK(seen.stop_requested() == stop, "stop is requested although neither the delay has elapsed nor the token was triggered"); D_CHECK(t.get_token().stop_requested() == seen.stop_requested() && t.get_source().stop_requested() == seen.stop_requested(), "the tokens disagree"); };
        chk(); int aw = d_choose(3); if (aw == 0) { wait(t, c, done).start(); D_CHECK(done == !c.pending, "the timeout does not complete with its delay"); }
        for (int i = 0; i < 2; i++) { int ev = d_choose(4); if (ev == 0 && c.pending) { c.elapse(); stop = true; D_COVER("elapses"); } else if (ev == 1 && token && !ext->stop_requested()) { ext->request_stop(); stop = true; D_COVER("triggered"); } else if (ev == 2) { t.request_stop(); stop = true; D_COVER("requested"); } chk(); D_CHECK(aw != 0 || done == !c.pending, "the timeout does not complete with its delay"); if (stop && c.mode == HONOURS) D_CHECK(!c.pending, "the delay is not cancelled"); }
        if (aw == 1) { wait(t, c, done).start(); D_CHECK(done == !c.pending, "the timeout does not complete with its delay"); }
        if (c.pending) { c.elapse(); stop = true; chk(); } if (aw < 2) D_CHECK(done == 1, "the awaiter is not resumed once"); got = seen.stop_requested(); D_COVER("completed");
    }
    ext->request_stop(); D_CHECK(seen.stop_requested() == got && c.aws == 0 && c.scheduled == 1, "a request after the timeout is gone has an effect");
}
// an operation under a timeout: it watches the timeout's token, the client's gate, or nothing
struct Op { d::Gate g; int st = 0; bool by = false; };
inline task<int> op(Op& o, stop_token t, int kind, int v, bool boom, d::Live) {
    o.st = 1; std::unique_ptr<stop_callback> cb; if (kind == 1 && !t.stop_requested()) { cb.reset(new stop_callback(t, [&o] { if (o.g.waiting()) { o.by = true; o.g.open(); } })); co_await d::pass(o.g); } else if (kind == 2) co_await d::pass(o.g);
    o.st = 2; if (boom) throw d::Boom{ v }; co_return v; }
inline d::Co outcome(task<int> t, Op& o, Clock& c, int v, bool boom, int& done, bool move) { bool caught = false; try { int x; if (move) x = co_await std::move(t); else x = co_await t; D_CHECK(x == v, "another value is delivered"); } catch (d::Boom& b) { caught = true; D_CHECK(b.code == v, "the failure of the companion replaces the outcome"); } D_CHECK(caught == boom, "the outcome is lost"); D_CHECK(o.st == 2, "completed although the awaitable still runs"); D_CHECK(!c.pending, "completed although the companion still runs"); ++done; }
inline void combined() {
    Clock c; CSched s{ &c }; Op o; int done = 0, live = 0; c.mode = d_choose(5); if (c.mode > NOW) c.mode += 2; int kind = d_choose(3), token = d_choose(3), v = d_int(); bool boom = d_choose(2), move = d_choose(2); std::optional<stop_source> ext; ext.emplace(); if (token == 2) ext->request_stop();
    std::optional<timeout> t(make(s, 5, d_choose(2) ? 0 : 3, ext, token)); std::optional<stop_token> tok(t->get_token()); auto x = take_until(op(o, *tok, kind, v, boom, d::Live(live)), std::move(*t)); auto w = outcome(std::move(x), o, c, v, boom, done, move); if (move) { tok.reset(); t.reset(); } /* nobody else holds the state */ w.start();
    auto chk = [&] { D_CHECK(done == (o.st == 2 && !c.pending), "the combined operation does not complete when both sides have"); if (o.st == 2) D_CHECK((!tok || tok->stop_requested()), "the companion is not asked to stop"); if (o.st == 2 && c.mode == HONOURS) D_CHECK(!c.pending, "the companion is not asked to stop"); if (o.st == 1 && kind == 1) D_CHECK(!tok || !tok->stop_requested(), "the operation is not told to stop"); };
    chk(); for (int i = 0; i < 2; i++) { int ev = d_choose(4); if (ev == 0 && c.pending) { c.elapse(); D_CHECK((!tok || tok->stop_requested()), "stop is not requested although the delay has elapsed"); D_COVER("elapses"); } else if (ev == 1 && token == 1 && !ext->stop_requested()) { ext->request_stop(); if (o.st != 2) D_CHECK((!tok || tok->stop_requested()), "stop is not requested although the caller's token was triggered"); D_COVER("triggered"); } else if (ev == 2 && o.g.waiting()) { o.g.open(); D_COVER("finishes"); } chk(); }
    if (o.g.waiting()) { o.g.open(); chk(); } if (c.pending) { c.elapse(); chk(); } D_CHECK(done == 1 && live == 0 && c.aws == 0, "not completed once"); ext->request_stop(); D_COVER(o.by ? "stopped" : "ended");
}
// a companion that was never set or was moved from cannot be stopped or awaited: the outcome stays
inline void empty() { Clock c; Op o; int done = 0, live = 0, v = d_int(); bool boom = d_choose(2), wait = d_choose(2), move = d_choose(2); c.mode = HONOURS; CSched s{ &c }; timeout t; bool moved = d_choose(2); std::optional<timeout> u; if (moved) { t.reset(s, std::chrono::nanoseconds(5)); u.emplace(std::move(t)); }
    stop_token tok; auto x = take_until(op(o, tok, wait ? 2 : 0, v, boom, d::Live(live)), std::move(t)); Clock c2; auto w = outcome(std::move(x), o, c2, v, boom, done, move); w.start(); if (wait) { D_CHECK(done == 0, "completed although the awaitable still runs"); o.g.open(); } D_CHECK(done == 1 && live == 0, "not completed once"); if (c.pending) c.elapse(); D_COVER("empty"); }
// with the thread pool as the clock
inline task<int> nap(thread_pool& p, stop_token t, long long d, int kind, bool& ran, long long& at) { if (kind == 1) co_await p.schedule_after(std::chrono::nanoseconds(d), t); else if (kind == 2) co_await p.schedule_after(std::chrono::nanoseconds(d)); else if (kind == 3) co_await p.schedule(); ran = true; at = d_clock(); co_return 3; }
inline d::Co pooled(thread_pool& p, long long dt, long long d, int kind, stop_token ext, int& done, bool& ran, long long& at) { timeout t(p, std::chrono::nanoseconds(dt), ext); stop_token tok = t.get_token(); int r = co_await take_until(nap(p, tok, d, kind, ran, at), std::move(t)); D_CHECK(r == 3 && ran, "completed although the awaitable still runs"); D_CHECK(tok.stop_requested(), "the companion is not asked to stop"); ++done; }
inline void pool() { thread_pool p; int done = 0, kind = d_choose(4); bool ran = false; long long at = 0, dt = d_int() & 0xffff, d = d_int() & 0xffff, t0 = d_clock(); bool ext = d_choose(2); stop_source s; pooled(p, dt, d, kind, ext ? s.get_token() : stop_token(), done, ran, at).start(); D_CHECK(done == 0, "completed outside of the pool"); bool trig = ext && d_choose(2); if (trig) { s.request_stop(); D_COVER("triggered"); } p.run(); D_CHECK(done == 1, "the combined operation does not complete");
    if (kind == 2) D_CHECK(at >= t0 + d, "the operation is resumed too early"); if (kind == 1 && !trig) D_CHECK(at >= t0 + d || at >= t0 + dt, "stop is requested although neither the delay has elapsed nor the token was triggered"); D_COVER("pool"); }
}
D_CLIENT(P15, until_void) { p15::until<void>(); }
D_CLIENT(P15, until_int) { p15::until<int>(); }
D_CLIENT(P15, until_val) { p15::until<d::Val>(); }
D_CLIENT(P15, dropped) { p15::dropped(); }
D_CLIENT(P15, timeouts) { p15::timeouts(); }
D_CLIENT(P15, combined) { p15::combined(); }
D_CLIENT(P15, empty) { p15::empty(); }
D_CLIENT(P15, pool) { p15::pool(); }
