#include <memory>
#include "../clients/p03.h"
#include <memory>
// the body finishes on one thread while the task is awaited (and then destroyed) on another
namespace {
struct Sh { d::Gate g; int out = 0; int plain = 0; std::atomic<int> resumed{ 0 }; int got = 0; bool ex = false; };
eager_task<d::Val> body(Sh& s, int v, bool boom) { co_await d::pass(s.g); s.plain = v; if (boom) throw d::Boom{ v }; co_return d::Val(v); }
eager_task<d::Val> mbody(Sh& s, int v, bool boom) { MC_BEGIN(eager_task<d::Val>, &s, v, boom); MC_AWAIT(d::pass(s.g)); s.plain = v; if (boom) throw d::Boom{ v }; MC_RETURN(d::Val(v)); MC_END(); }
d::Co waiter(std::unique_ptr<eager_task<d::Val>> t, Sh& s, bool del, std::unique_ptr<eager_task<d::Val>>& back, bool rv) {
    try { if (rv) { d::Val x = co_await std::move(*t); s.got = x.get(); } else { s.got = (co_await *t).get(); } } catch (d::Boom& b) { s.ex = true; s.got = b.code; }
    s.out = s.plain; s.resumed.fetch_add(1, std::memory_order_relaxed);
    if (del) t.reset(); else back = std::move(t);
}
}
NX_SCENARIO(P03, eager_mt) {
    Sh s; int v = 1 + nx::choose(50); bool boom = nx::choose(2), macro = nx::choose(2), del = nx::choose(2), poll = nx::choose(2), rv = nx::choose(2); std::unique_ptr<eager_task<d::Val>> back;
    { auto t = std::make_unique<eager_task<d::Val>>(macro ? mbody(s, v, boom) : body(s, v, boom));
      nx::Thread a([&] { s.g.open(); });
      nx::Thread b([&] { if (poll) { if (t->is_ready()) NX_CHECK(s.plain == v, "is_ready answers before the body finished"); } waiter(std::move(t), s, del, back, rv).start(); }); }
    NX_CHECK(s.resumed == 1, "the awaiter is resumed %d times", (int)s.resumed); NX_CHECK(s.got == v && s.ex == boom && s.out == v, "the awaiter gets the wrong outcome"); back.reset(); NX_CHECK(d::Val::live == 0, "the stored result is not released once");
}
// polling is_ready until it answers, then releasing the task at once
NX_SCENARIO(P03, eager_poll) {
    Sh s; int v = 5; bool macro = nx::choose(2); auto t = std::make_unique<eager_task<d::Val>>(macro ? mbody(s, v, false) : body(s, v, false));
    { nx::Thread a([&] { s.g.open(); }); nx::Thread b([&] { for (int i = 0; i < 6 && !t->is_ready(); i++) nx::yield(); if (t->is_ready()) { NX_CHECK(s.plain == v, "is_ready answers before the body finished"); t.reset(); } }); }
}
