#include <macoro/task.h>
#include <macoro/channel.h>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p09 {
struct El : d::Val { El() : d::Val(-5) {} using d::Val::Val; };      // elements must be default constructible
// an actor does one operation each time it is let through its gate; gates are opened in every order
struct Actor { d::Gate g; bool done = false; int at = 0; };
template<class C> struct World { C& c; int n; int v[4]; int sent = 0, got = 0, closes = 0, loops = 0; World(C& x, int k) : c(x), n(k) { for (int i = 0; i < n; i++) v[i] = d_int(); } };
template<class C> d::Co sender(World<C>& w, Actor& a, int kind) {
    typename C::push_wrapper slot;
    for (int i = 0; i < w.n; i++) {
        co_await d::pass(a.g); a.at = 1;
        if (kind == 0) co_await w.c.push(El(w.v[i]));
        else if (kind == 1) { auto s = co_await w.c.push(); s = El(w.v[i]); s.publish(); s.publish(); }
        else if (kind == 2) { auto s = co_await w.c.push(); s = El(i); auto t = std::move(s); t = El(w.v[i]); }            // overwritten before it is published; published by the destructor
        else { slot = co_await w.c.push(); slot = El(w.v[i]); slot.publish(); }
        ++w.sent; a.at = 0;
    }
    co_await d::pass(a.g); a.at = 1; co_await w.c.close(); a.at = 0; a.done = true;
}
template<class C> d::Co receiver(World<C>& w, Actor& a, int kind) {
    typename C::pop_wrapper keep;
    for (int tries = 0; tries < 2;) {
        co_await d::pass(a.g); a.at = 1; bool closed = false;
        try {
            if (kind == 0) { auto p = co_await w.c.pop(); El x(*p); D_CHECK(x.get() == w.v[w.got], "received something else than was pushed, or out of order"); p.publish(); }
            else if (kind == 1) { El& f = co_await w.c.front(); D_CHECK(f.get() == w.v[w.got], "the front is not the oldest element"); auto p = co_await w.c.pop(); D_CHECK(p->get() == w.v[w.got], "received something else than was pushed, or out of order"); auto q = std::move(p); }
            else { keep = co_await w.c.pop(); El x = *keep; D_CHECK(x.get() == w.v[w.got], "received something else than was pushed, or out of order"); keep.publish(); keep.publish(); }
        } catch (channel_closed_exception&) { closed = true; }
        a.at = 0;
        if (closed) { ++w.closes; ++tries; D_CHECK(w.got == w.n, "closed is reported before every element was received"); D_COVER("closed"); }
        else { D_CHECK(w.got < w.n && tries == 0, "an element that was never pushed is received"); ++w.got; }
    }
    a.done = true;
}
// who is running: at == 0 at its gate, at == 1 inside the channel
template<class C> void run(C& c, int cap, int n, int sk, int rk) {
    World<C> w(c, n); Actor s, r; sender(w, s, sk).start(); receiver(w, r, rk).start();
    while (!s.done || !r.done) {
        bool cs = !s.done && s.g.waiting(), cr = !r.done && r.g.waiting();
        if (!cs) D_CHECK(s.done || (s.at == 1 && w.sent - w.got == cap), "the sender waits although a slot is free"); if (!cr) D_CHECK(r.done || (r.at == 1 && w.sent == w.got), "the receiver waits although an element is there");
        D_CHECK(d::Val::live == w.sent - w.got + 2 * (sk == 0 && s.at && w.sent < n), "an element is destroyed early or not at all"); D_CHECK(w.sent - w.got <= cap && w.sent >= w.got, "more elements in the channel than it has slots");
        D_CHECK(cs || cr, "sender and receiver both wait for ever"); if (!cs && s.at) D_COVER("full"); if (!cr && r.at) D_COVER("empty");
        if (cs && (!cr || d_choose(2))) s.g.open(); else r.g.open();
    }
    D_CHECK(w.sent == n && w.got == n && w.closes == 2, "elements are lost"); D_CHECK(d::Val::live == 0, "an element is not destroyed");
}
template<class C> void fifo(int sk, int rk, int maxn) { int cap = 1 << d_choose(2); { C c(cap); run(c, cap, maxn, sk, rk); } D_CHECK(d::Val::live == 0, "an element outlives the channel"); }
// elements left in the channel when it goes away, wrong capacities, shared handles
template<template<class> class S, template<class> class R, class MK> void misc_with(MK make) {
    int what = d_choose(3);
    if (what == 0) { int bad = d_choose(2) ? 0 : 3; bool threw = false; try { auto p = make(bad); } catch (std::runtime_error&) { threw = true; } D_CHECK(threw, "a capacity that is not a power of two is accepted"); D_COVER("capacity"); return; }
    {
        auto sr = make(2); auto snd = std::move(std::get<0>(sr)); auto rcv = std::move(std::get<1>(sr)); int v = d_int(), got = 0, n = 1 + d_choose(2); bool closed = false;
        auto send = [&]() -> d::Co { for (int i = 0; i < n; i++) { auto s = co_await snd.push(); s = El(v + 0 * i); } }; auto recv = [&]() -> d::Co { try { auto p = co_await rcv.pop(); D_CHECK(p->get() == v, "wrong element"); ++got; } catch (channel_closed_exception&) { closed = true; } };
        auto end = [&]() -> d::Co { co_await snd.close(); };
        send().start(); D_CHECK(d::Val::live == n, "an element is lost"); if (what == 1) { recv().start(); D_CHECK(got == 1, "not received"); end().start(); if (n == 1) { recv().start(); D_CHECK(closed, "closing is not reported"); bool again = false; closed = false; recv().start(); D_CHECK(closed, "closing is reported once only"); } } else D_COVER("left-over");
        D_CHECK(d::Val::live == n - got, "an element is destroyed twice or never");
    }
    D_CHECK(d::Val::live == 0, "an element is not destroyed with the channel");
}
// plain elements: slots are reused before the channel is closed; a place is given back by publishing, by destruction or by assigning an empty one
template<class C> void plain() {
    C c(1 << d_choose(2)); int n = d_choose(4), got = 0; bool closed = false; int v = d_int();
    auto go = [&]() -> d::Co {
        for (int i = 0; i < n; i++) {
            { auto s = co_await c.push(); s = v + 0; int how = d_choose(3); if (how == 0) s.publish(); else if (how == 1) { s = typename C::push_wrapper(); D_COVER("emptied"); } }
            int& f = co_await c.front(); D_CHECK(f == v, "the front is not the oldest element");
            { auto p = co_await c.pop(); D_CHECK(*p == v, "received something else than was pushed, or out of order"); int how = d_choose(3); if (how == 0) p.publish(); else if (how == 1) p = typename C::pop_wrapper(); } ++got;
        }
        co_await c.close(); bool front = d_choose(2);
        try { if (front) { int& f = co_await c.front(); (void)f; } else { auto p = co_await c.pop(); } D_CHECK(false, "an element is received after the channel was closed and drained"); } catch (channel_closed_exception&) { closed = true; D_COVER("closed"); }
    };
    go().start(); D_CHECK(got == n && closed, "a side waits although it can go on");
}
template<class T> using SS = spsc::channel_sender<T>; template<class T> using SR = spsc::channel_receiver<T>; template<class T> using MS = mpsc::channel_sender<T>; template<class T> using MR = mpsc::channel_receiver<T>;
inline void misc_s() { misc_with<SS, SR>([](int n) { return spsc::make_channel<p09::El>(n); }); }
inline void misc_m() { misc_with<MS, MR>([](int n) { return mpsc::make_channel<p09::El>(n); }); }
}
D_CLIENT(P09, fifo_spsc) { p09::fifo<spsc::channel<p09::El>>(d_choose(4), d_choose(3), 2); }
D_CLIENT(P09, fifo_spsc_3) { p09::fifo<spsc::channel<p09::El>>(0, 0, 3); }
D_CLIENT(P09, fifo_mpsc) { p09::fifo<mpsc::channel<p09::El>>(d_choose(4), d_choose(3), 2); }
D_CLIENT(P09, fifo_mpsc_3) { p09::fifo<mpsc::channel<p09::El>>(0, 0, 3); }
D_CLIENT(P09, misc_spsc) { p09::misc_s(); }
D_CLIENT(P09, misc_mpsc) { p09::misc_m(); }
D_CLIENT(P09, plain_spsc) { p09::plain<spsc::channel<int>>(); }
D_CLIENT(P09, plain_mpsc) { p09::plain<mpsc::channel<int>>(); }
