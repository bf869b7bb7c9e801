#include <memory>
#include "../clients/p14.h"
#include <atomic>
namespace {
struct Ext { std::atomic<void*> h{ nullptr }; };
struct ExtAw { Ext& e; bool await_ready() { return false; } template<class P> void await_suspend(coroutine_handle<P> x) { e.h.store(coroutine_handle<>(x).address()); } template<class P> void await_suspend(std::coroutine_handle<P> x) { e.h.store(x.address()); } void await_resume() {} };
inline void fire(Ext& e) { void* p; while (!(p = e.h.load())) nx::yield(); coroutine_handle<>::from_address(p).resume(); }
task<std::unique_ptr<int>> body(Ext& e, int& fin, int v, bool boom) { co_await ExtAw{ e }; fin = 1; if (boom) throw d::Boom{ v }; co_return std::make_unique<int>(v); }
}
NX_SCENARIO(P14, wait_mt) {
    Ext e; int fin = 0; bool boom = nx::choose(2); int how = nx::choose(4); bool lv = nx::choose(2);
    {
        nx::Thread t([&] { fire(e); });
        try {
            int r = -1;
            if (how == 0) { if (lv) { auto tk = body(e, fin, 5, boom); r = *sync_wait(tk); } else r = *sync_wait(body(e, fin, 5, boom)); }
            else if (how == 1) { auto b = make_blocking(body(e, fin, 5, boom)); r = *b.get(); }
            else if (how == 2) { auto b = make_blocking(body(e, fin, 5, boom)); auto c = std::move(b); r = *c.get(); }
            else { sync_wait(ExtAw{ e }); fin = 1; boom = false; r = 5; }
            NX_CHECK(r == 5 && !boom, "wrong outcome");
        } catch (d::Boom& b) { NX_CHECK(boom && b.code == 5, "wrong exception"); }
        NX_CHECK(fin == 1, "returned before the awaitable completed");
    }
}
