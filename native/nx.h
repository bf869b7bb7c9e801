// nx: a controlled scheduler + memory checker for small scenarios against the real code.
// The code is compiled with g++ -fsanitize=thread and linked against nx.cpp (our own runtime): every
// atomic operation, lock, wait, thread start is a scheduling point; plain accesses are checked for
// use-after-free and data races (vector clocks, honouring the memory orders).
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <thread>
#include <coroutine>
#include <exception>
#include <stdexcept>
namespace nx {
int choose(int n);                       // nondeterministic input choice (0..n-1)
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // report a violation of the property
#define NX_CHECK(c, ...) do { if (!(c)) nx::fail(__VA_ARGS__); } while (0)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void yield();                            // scheduling point
uint64_t now_ns();                       // virtual clock
bool& leak_check();                      // enable the end-of-scenario leak check (default on)
bool& race_check();
int tid();
void allow_block(bool);                  // the scenario expects to end with blocked threads
struct Scenario { const char* prop; const char* name; void (*fn)(); int weight; Scenario* next; Scenario(const char*, const char*, void (*)(), int); };
#define NX_SCENARIO(prop, name) static void nxs_##name(); static nx::Scenario nxr_##name(#prop, #name, nxs_##name, 1); static void nxs_##name()
// thread joined at the end of the scope
struct Thread { std::thread t; template<class F> explicit Thread(F&& f) : t(std::forward<F>(f)) {} Thread(Thread&&) = default; ~Thread() { if (t.joinable()) t.join(); } void join() { t.join(); } };
// a tracked payload: counts live objects, detects use of a destroyed / moved-from payload
struct Val {
    static int live; static int copies;
    enum : uint32_t { GOOD = 0x600DF00D, MOVED = 0x30F3D000, DEAD = 0xDEADDEAD };
    uint32_t magic; int v;
    explicit Val(int x = -1) : magic(GOOD), v(x) { ++live; }
    Val(const Val& o) : magic(GOOD), v(o.get()) { ++live; ++copies; }
    Val(Val&& o) : magic(GOOD), v(o.get()) { ++live; o.magic = MOVED; o.v = -77; }
    Val& operator=(const Val& o) { chk(); v = o.get(); magic = GOOD; return *this; }
    Val& operator=(Val&& o) { chk(); int x = o.get(); if (&o != this) { o.magic = MOVED; o.v = -77; } v = x; magic = GOOD; return *this; }
    ~Val() { chk(); magic = DEAD; --live; }
    void chk() const { if (magic != GOOD && magic != MOVED) fail("payload used after destruction or before construction (magic %x)", magic); }
    int get() const { chk(); if (magic == MOVED) fail("payload read after it was moved away"); return v; }
    friend bool operator==(const Val& a, const Val& b) { return a.get() == b.get(); }
};
struct Err { int code; };
// fire-and-forget native coroutine (usable in any namespace)
#define NX_DETACHED(Name) struct Name { struct promise_type { \
        Name get_return_object() { return { std::coroutine_handle<promise_type>::from_promise(*this) }; } \
        std::suspend_always initial_suspend() noexcept { return {}; } \
        std::suspend_never final_suspend() noexcept { return {}; } \
        void return_void() {} \
        void unhandled_exception() { nx::fail("exception escaped into a detached coroutine"); } }; \
    std::coroutine_handle<promise_type> h; void start() { h.resume(); } };
NX_DETACHED(Detached)
}
