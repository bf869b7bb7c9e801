#include <macoro/task.h>
#include <macoro/stop.h>
#include <macoro/detail/operation_cancelled.h>
#include <memory>
#include <optional>
#define D_MACORO
#include "dual.h"
using namespace macoro;
namespace p11 {
// model: which shared state (0 none, 1.., ) a handle refers to, which states were asked to stop, how many sources each has
struct Model { bool asked[8] = {}; int src[3] = {}, tok[3] = {}; int next = 1;
    int sources(int st) const { int n = 0; for (int s : src) n += s == st; return n; } };
struct World {
    Model m; std::optional<stop_source> s[3]; std::optional<stop_token> t[3]; int runs = 0, expect = 0, cbst = 0;
    void put(int i) { s[i].emplace(); m.src[i] = m.next++; }
    void ask(int i) { s[i]->request_stop(); if (int k = m.src[i]) { if (!m.asked[k] && cbst == k) ++expect; m.asked[k] = true; } }
    void check() {
        for (int i = 0; i < 3; i++) if (s[i]) { int k = m.src[i]; D_CHECK(s[i]->stop_requested() == (k && m.asked[k]), "a source does not tell whether stop was requested"); D_CHECK(s[i]->stop_possible() == (k != 0), "a source does not know whether it has a state"); stop_token x = s[i]->get_token(); D_CHECK(x.stop_requested() == (k && m.asked[k]) && x.stop_possible() == (k != 0), "a token of a source disagrees with it"); }
        for (int i = 0; i < 3; i++) if (t[i]) { int k = m.tok[i]; D_CHECK(t[i]->stop_requested() == (k && m.asked[k]), "a token does not tell whether stop was requested"); D_CHECK(t[i]->stop_possible() == (k && (m.asked[k] || m.sources(k))), "a token does not tell whether stop is possible"); }
        D_CHECK(runs == expect, "callback");
    }
    void drop(int i) { s[i].reset(); m.src[i] = 0; }
    void dropt(int i) { t[i].reset(); m.tok[i] = 0; }
};
// one operation on two sources; slot 2 is used for construction
inline void sop(World& w, int c) {
    int i = c & 1, j = (c >> 1) & 1; auto& m = w.m;
    switch (c >> 2) {
    case 0: *w.s[i] = *w.s[j]; m.src[i] = m.src[j]; if (i == j) D_COVER("self"); break;
    case 1: { *w.s[i] = std::move(*w.s[j]); int k = m.src[j]; if (i != j) m.src[j] = 0; m.src[i] = k; break; }
    case 2: if (j) w.ask(i); else { w.s[2].emplace(*w.s[i]); m.src[2] = m.src[i]; w.check(); w.drop(2); D_COVER("copy"); } break;
    default: if (j) { w.s[2].emplace(std::move(*w.s[i])); m.src[2] = m.src[i]; m.src[i] = 0; w.check(); w.drop(2); } else { w.s[i].emplace(); m.src[i] = m.next++; D_COVER("fresh"); } break;
    }
}
inline void sources() { World w; w.put(0); w.put(1); w.t[0].emplace(w.s[0]->get_token()); w.m.tok[0] = 1; w.t[1].emplace(w.s[1]->get_token()); w.m.tok[1] = 2; for (int k = 0; k < 3; k++) { sop(w, d_choose(16)); w.check(); } w.drop(d_choose(2)); w.check(); }
inline void top(World& w, int c) {
    int i = c & 1, j = (c >> 1) & 1; auto& m = w.m;
    switch (c >> 2) {
    case 0: *w.t[i] = *w.t[j]; m.tok[i] = m.tok[j]; if (i == j) D_COVER("self"); break;
    case 1: { *w.t[i] = std::move(*w.t[j]); int k = m.tok[j]; if (i != j) m.tok[j] = 0; m.tok[i] = k; break; }
    case 2: *w.t[i] = w.s[j]->get_token(); m.tok[i] = m.src[j]; break;
    case 3: if (j) { w.t[i]->swap(*w.t[1 - i]); std::swap(m.tok[0], m.tok[1]); D_COVER("swap"); } else w.t[i]->swap(*w.t[i]); break;
    case 4: if (j) { w.t[2].emplace(*w.t[i]); m.tok[2] = m.tok[i]; w.check(); w.dropt(2); } else { w.t[2].emplace(std::move(*w.t[i])); m.tok[2] = m.tok[i]; m.tok[i] = 0; w.check(); w.dropt(2); } break;
    default: if (j) { w.drop(i); w.put(i); D_COVER("dropped"); } else w.ask(i); break;
    }
}
inline void tokens() { World w; w.put(0); w.put(1); w.t[0].emplace(w.s[0]->get_token()); w.m.tok[0] = 1; w.t[1].emplace(); for (int k = 0; k < 2; k++) { top(w, d_choose(24)); w.check(); } if (d_choose(2)) w.ask(d_choose(2)); w.drop(0); w.drop(1); w.check(); }
// the state goes with the last of source, token and callback, in every order
inline void lifetime() {
    World w; w.put(0); w.t[0].emplace(w.s[0]->get_token()); w.m.tok[0] = 1; std::unique_ptr<stop_callback> cb; bool asked = d_choose(2), late = d_choose(2);
    if (asked && !late) w.ask(0);
    if (asked && !late) { ++w.expect; } cb.reset(new stop_callback(*w.t[0], [&w] { ++w.runs; })); w.cbst = asked && !late ? 0 : 1; if (asked && late) w.ask(0);
    w.check(); bool gone[3] = {};
    for (int k = 0; k < 3; k++) { int c = d_choose(3); while (gone[c]) c = (c + 1) % 3; gone[c] = true; if (c == 0) w.drop(0); else if (c == 1) w.dropt(0); else cb.reset(); w.check(); }
    D_COVER("all orders"); if (asked) D_COVER("asked");
}
// throw_if_stop_requested, const access, default constructed handles
inline void misc() {
    stop_token none; D_CHECK(!none.stop_possible() && !none.stop_requested(), "a token without state"); none.throw_if_stop_requested(); stop_source s; stop_token t = s.get_token(); bool threw = false;
    try { t.throw_if_stop_requested(); } catch (operation_cancelled&) { threw = true; } D_CHECK(!threw, "cancelled without request"); bool ask = d_choose(2); if (ask) { s.request_stop(); s.request_stop(); } try { t.throw_if_stop_requested(); } catch (operation_cancelled&) { threw = true; } D_CHECK(threw == ask, "throw_if_stop_requested does not follow the request"); if (threw) D_COVER("threw");
    stop_source e(std::move(s)); s.request_stop(); D_CHECK(t.stop_requested() == ask, "a moved-from source requests stop"); stop_token u = s.get_token(); D_CHECK(!u.stop_possible(), "a token of a moved-from source"); s = e; D_CHECK(s.stop_possible() && s.stop_requested() == ask, "assignment to a moved-from source");
}
}
D_CLIENT(P11, sources) { p11::sources(); }
D_CLIENT(P11, tokens) { p11::tokens(); }
D_CLIENT(P11, lifetime) { p11::lifetime(); }
D_CLIENT(P11, misc) { p11::misc(); }
