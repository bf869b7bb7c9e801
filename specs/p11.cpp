#include <memory>
#include "vp.h"
#include "p11.h"
// the handles one by one, on a shared state whose counts are arbitrary
extern "C" {
void f_src(stop_source* s) { new (s) stop_source(); }
void f_src_copy(stop_source* s, stop_source* o) { new (o) stop_source(*s); }
void f_src_del(stop_source* s) { s->~stop_source(); }
void f_src_move(stop_source* s, stop_source* o) { new (o) stop_source(std::move(*s)); }
void f_src_assign(stop_source* s, stop_source* o) { *o = *s; }
void f_src_massign(stop_source* s, stop_source* o) { *o = std::move(*s); }
void f_req(stop_source* s) { s->request_stop(); }
bool f_src_asked(stop_source* s) { return s->stop_requested(); }
void f_tok(stop_source* s, stop_token* o) { new (o) stop_token(s->get_token()); }
void f_tok_none(stop_token* o) { new (o) stop_token(); }
void f_tok_copy(stop_token* s, stop_token* o) { new (o) stop_token(*s); }
void f_tok_del(stop_token* s) { s->~stop_token(); }
void f_tok_move(stop_token* s, stop_token* o) { new (o) stop_token(std::move(*s)); }
void f_tok_assign(stop_token* s, stop_token* o) { *o = *s; }
void f_tok_massign(stop_token* s, stop_token* o) { *o = std::move(*s); }
void f_tok_swap(stop_token* s, stop_token* o) { o->swap(*s); }
bool f_tok_asked(stop_token* s) { return s->stop_requested(); }
bool f_tok_possible(stop_token* s) { return s->stop_possible(); }
void f_cb(stop_token* s, stop_callback* c) { new (c) stop_callback(*s, [] { vp_event("ran"); }); }
void f_cb_del(stop_callback* c) { c->~stop_callback(); }
}
VP_CONST(SZ_src, sizeof(stop_source)) VP_CONST(SZ_tok, sizeof(stop_token)) VP_CONST(SZ_cb, sizeof(stop_callback))
