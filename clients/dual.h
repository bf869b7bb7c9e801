// Client programs ("lemma clients") usable by both back ends:
//  -DVP_VERIFY : verified by the deductive engine for every value / choice / path
//  otherwise   : executed natively under the controlled scheduler (bounded stand-in, concrete replay)
#pragma once
#include <coroutine>
#include <exception>
#include <stdexcept>
#include <utility>
#include <new>
#ifdef VP_VERIFY
#include "vp.h"
#define D_CHECK(c, msg) vp_assert(c, msg)
#define D_COVER(x) vp_cover(x)
inline int d_choose(int n) { return vp_choice(n); }
inline int d_int() { return vp_nondet_int(); }
inline long long d_clock() { return (long long)vp_clock(); }
inline void d_fail(const char* m) { vp_assert(false, m); }
#define D_CLIENT(prop, name) extern "C" void c_##name()
#else
#include "nx.h"
#define D_CHECK(c, msg) do { if (!(c)) nx::fail("%s", msg); } while (0)
#define D_COVER(x) ((void)0)
inline int d_choose(int n) { return nx::choose(n); }
inline long long d_clock() { return (long long)nx::now_ns(); }
inline int d_int() { int k = nx::choose(5); return k < 4 ? k - 1 : 1 + nx::choose(251) * 7919; }
inline void d_fail(const char* m) { nx::fail("%s", m); }
#define D_CLIENT(prop, name) static void c_##name(); NX_SCENARIO(prop, c_##name) { ::c_##name(); } static void c_##name()
#endif
namespace d {
struct Boom { int code; };
// payload: owns one live count; reading a dead / moved payload is an error
struct Val {
    static inline int live = 0; static inline int copies = 0;
    enum : unsigned { GOOD = 0x600DF00Du, MOVED = 0x30F3D000u, DEAD = 0xDEADDEADu };
    unsigned magic; int v;
    explicit Val(int x) : magic(GOOD), v(x) { ++live; }
    Val(const Val& o) : magic(GOOD), v(o.get()) { ++live; ++copies; }
    Val(Val&& o) noexcept : magic(GOOD), v(o.get()) { ++live; o.magic = MOVED; o.v = -77; }
    Val& operator=(const Val& o) { chk(); int x = o.get(); v = x; magic = GOOD; ++copies; return *this; }
    Val& operator=(Val&& o) noexcept { chk(); int x = o.get(); if (&o != this) { o.magic = MOVED; o.v = -77; } v = x; magic = GOOD; return *this; }
    ~Val() { chk(); magic = DEAD; --live; }
    bool alive() const { return magic == GOOD || magic == MOVED; }
    bool moved() const { return magic == MOVED; }
    void chk() const { if (!alive()) d_fail("payload used after destruction or before construction"); }
    int get() const { chk(); if (magic == MOVED) d_fail("payload read after it was moved away"); return v; }
    friend bool operator==(const Val& a, const Val& b) { return a.get() == b.get(); }
};
// counts the objects of one role
struct Live { int* n; explicit Live(int& c) : n(&c) { ++c; } Live(Live&& o) noexcept : n(o.n) { o.n = nullptr; } Live(const Live& o) : n(o.n) { if (n) ++*n; } ~Live() { if (n) --*n; } };
// fire-and-forget native coroutine whose frame dies at its end
struct Co { struct promise_type {
        Co get_return_object() { return { std::coroutine_handle<promise_type>::from_promise(*this) }; }
        std::suspend_always initial_suspend() noexcept { return {}; }
        std::suspend_never final_suspend() noexcept { return {}; }
        void return_void() {}
        void unhandled_exception() { d_fail("exception escaped into the client coroutine"); } };
    std::coroutine_handle<promise_type> h; void start() { h.resume(); } };
}
#ifdef D_MACORO
namespace d {
// an awaitable controlled by the client: ready or not, value / reference / void result or exception, resumed from outside
struct Gate {
    bool ready = false; bool boom = false; int code = 0; macoro::coroutine_handle<> h; int waits = 0, resumes = 0, readies = 0;
    void open() { auto x = std::exchange(h, macoro::coroutine_handle<>()); D_CHECK((bool)x, "nobody waits at the gate"); x.resume(); }
    bool waiting() const { return (bool)h; }
};
template<class R> struct GateAwaiter {
    Gate& g; 
    bool await_ready() const noexcept { ++g.readies; return g.ready; }
    template<class P> void await_suspend(macoro::coroutine_handle<P> x) noexcept { ++g.waits; g.h = x; }
    template<class P> void await_suspend(std::coroutine_handle<P> x) noexcept { ++g.waits; g.h = macoro::coroutine_handle<P>(x); }
    R await_resume() { ++g.resumes; if (g.boom) throw Boom{ g.code }; if constexpr (std::is_void_v<R>) return; else if constexpr (std::is_reference_v<R>) return (R)g.code; else return R(g.code); }
};
inline GateAwaiter<void> pass(Gate& g) { return { g }; }
inline GateAwaiter<Val> passv(Gate& g) { return { g }; }
inline GateAwaiter<int&> passr(Gate& g) { return { g }; }
}
#endif
