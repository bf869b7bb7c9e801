#include <memory>
#include "vp.h"
#include "p09.h"
// slot discipline: one push / one pop with every atomic store observed
#define SLOT(N, NS) VP_CONST(SZ_##N, sizeof(NS::channel<p09::El>)) extern "C" { \
void f_new_##N(NS::channel<p09::El>* c) { new (c) NS::channel<p09::El>(2); } \
void f_push_##N(NS::channel<p09::El>* c, int v) { auto a = c->push(p09::El(v)); if (a.await_ready()) a.await_resume(); } \
void f_place_##N(NS::channel<p09::El>* c, int v) { auto a = c->push(); if (a.await_ready()) { auto s = a.await_resume(); s = p09::El(v); s.publish(); } } \
int f_pop_##N(NS::channel<p09::El>* c) { auto a = c->pop(); if (!a.await_ready()) { struct { NS::channel<p09::El>* c; } x{c}; a.await_suspend(std::noop_coroutine()); } auto p = a.await_resume(); int r = (*p).get(); return r; } }
SLOT(s, spsc)
SLOT(m, mpsc)
