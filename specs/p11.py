from lib import *
from harness import Proof, REPO
import os
SRCS = ["p11.cpp"] + [os.path.join(REPO, "macoro/detail", x) for x in sorted(os.listdir(os.path.join(REPO, "macoro/detail"))) if x.startswith("stop") and x.endswith(".cpp")]
F = ("macoro::stop_source (copy, move, assign, destroy, get_token, request_stop)", "macoro::stop_token (copy, move, assign, destroy, swap, stop_possible, stop_requested)", "macoro::detail::stop_state::add/release_token/source_ref", "macoro::detail::stop_state::~stop_state")
SS = "macoro::detail::stop_state"
class Refs(WordProto):
    """the shared word: flags + src_inc * sources + tok_inc * tokens (increments learned from the real constructors).  Every handle this
    thread owns keeps the state alive; between two accesses the others change the word at will (flags only ever get set)."""
    def __init__(s, base, off, req, allbits, si, ti): s.base = base; s.off = off; s.req = req; s.bits = allbits; s.si = si; s.ti = ti; s.sl = si.bit_length() - 1; s.tl = ti.bit_length() - 1
    def cnt(s, w): return z3.Extract(s.tl - 1, s.sl, w), z3.LShR(w, s.tl)
    def atomic(s, eng, st, a, sz, kind, order, *r):
        o = eng.obj(st, a if a.__class__ is int else a.base); off = a - o.base
        if off != s.off:
            if not o.dead: return None
        return WordProto.atomic(s, eng, st, a, sz, kind, order, *r)
    def havoc(s, eng, st, off, sz):
        g = st.ghost
        if g.get("excl"): return [(st, g["word"])]
        x = eng.fresh("word", 64); S, T = s.cnt(x); n = S.size()
        eng.assume(st, z3.UGE(S, g["s"])); eng.assume(st, z3.UGE(T, g["t"])); eng.assume(st, z3.ULT(S, (1 << n) - 2)); eng.assume(st, z3.ULT(T, (1 << (64 - s.tl)) - 2))
        if s.bits != s.si - 1: eng.assume(st, x & (s.si - 1 - s.bits) == 0)
        p = g.get("seen")
        if p is not None: eng.assume(st, z3.And((p & s.bits) & ~x == 0))
        g["seen"] = x
        return [(st, x)]
    def read(s, eng, st, off, sz, val, order, kind):
        st.ghost["lastread"] = val; st.ghost["readorder"] = order
        return [(st, val)]
    def write(s, eng, st, off, sz, old, new, order, kind):
        g = st.ghost; o = bv(old, 64); n = bv(eng.res(st, new), 64)
        if not kind.startswith("rmw") and kind != "cas": eng.fail(st, "refs:no-blind-store", "the shared word is overwritten, losing concurrent updates")
        if g.get("excl"): g["word"] = new; return [(st, old)]
        d = simp(n - o)
        if d.__class__ is not int:
            ok = eng.valid(st, n == o | s.req) or eng.valid(st, n == o | s.bits)
            eng.oblige(st, ok, "refs:counts-exact", "the shared word is changed by something that is neither one reference nor the request")
            eng.oblige(st, g["s"] + g["t"] > 0, "refs:alive", "the state is used by a handle that owns no reference")
            g["asked"] = 1; g["seen"] = n; return [(st, old)]
        d = sgn(d, 64); out = []
        if d == s.si or d == s.ti:
            eng.oblige(st, g["s"] + g["t"] > 0, "refs:alive", "a reference is taken by a handle that owns none")
            g["s" if d == s.si else "t"] += 1; g["seen"] = n; return [(st, old)]
        if d == s.bits - s.req and d > 0: g["seen"] = n; return [(st, old)]
        if d not in (-s.si, -s.ti): eng.fail(st, "refs:counts-exact", "the shared word is changed by %d, which is no reference" % d)
        k = "s" if d == -s.si else "t"
        eng.oblige(st, g[k] > 0, "refs:own-reference", "a reference is given back that this handle does not own")
        order_ob(eng, st, order, REL, "giving a reference back"); g[k] -= 1; g["seen"] = n
        if g["s"] + g["t"]: return [(st, old)]
        S, T = s.cnt(n); none = z3.And(S == 0, T == 0)
        if eng.feasible(st, none):
            t = st.copy(); eng.assume(t, none); t.ghost["excl"] = 1; t.ghost["word"] = new; t.ghost["last"] = 1; order_ob(eng, t, order, ACQ, "the last reference must see what the others did before it destroys the state"); out.append((t, old))
        t = st.copy(); eng.assume(t, z3.Not(none)); eng.release(t, s.base, "the last own reference was given back (others may have destroyed it)"); out.append((t, old))
        return out
def states(st): return [o for o in st.mem.values() if o.kind == "heap" and not o.dead]
def learn(eng, cont):
    """src, tok, second slots; cont(st, src, tok, osrc, otok, proto maker)"""
    st = eng.start_state(); m = eng.m
    src = eng.alloc(st, const(m, "SZ_src"), "global", "source"); tok = eng.alloc(st, const(m, "SZ_tok"), "global", "token"); osrc = eng.alloc(st, const(m, "SZ_src"), "global", "source2"); otok = eng.alloc(st, const(m, "SZ_tok"), "global", "token2"); cb = eng.alloc(st, const(m, "SZ_cb"), "global", "callback")
    K = {}
    def word(st): o = [o for o in states(st)][0]; return o, o.cells
    def a(st, _):
        o, c = word(st); nz = [(f, v[1]) for f, v in c.items() if v[1].__class__ is int and v[1]]
        if len(nz) != 1: raise Unsupported("layout of the shared state not recognised")
        K["off"], K["si"] = nz[0]; K["base"] = o.base
        eng.run(st.copy(), "f_req", [src], b); eng.run(st, "f_tok", [src, tok], d)
    def W(st): return [o for o in st.mem.values() if o.base == K["base"]][0].cells[K["off"]][1]
    def b(st, _): K["req"] = W(st) ^ K["si"]
    def d(st, _):
        K["ti"] = W(st) - K["si"]
        t = st.copy(); eng.run(t, "f_cb", [tok, cb], lambda st, _: eng.run(st, "f_req", [src], lambda st, _: K.__setitem__("bits", W(st) & (K["si"] - 1))))
        for k in ("si", "ti"):
            if K[k] <= 0 or K[k] & (K[k] - 1): raise Unsupported("layout of the shared word not recognised")
        eng.oblige(st, K["req"] != 0 and K["bits"] & K["req"] == K["req"], "learned:request-flag", "a request leaves no mark in the shared state")
        cont(st, src, tok, osrc, otok, cb, K)
    eng.run(st, "f_src", [src], a)
def p(fn, args, before, after, res=None, empty=None):
    """before/after: (sources, tokens) owned"""
    def go(eng):
        eng.covers = ("exit",) + (("last",) if sum(after) == 0 else ())
        def c(st, src, tok, osrc, otok, cb, K):
            A = dict(src=src, tok=tok, osrc=osrc, otok=otok, cb=cb)
            def share2(st, _=None):
                P = Refs(K["base"], K["off"], K["req"], K["bits"], K["si"], K["ti"]); st.ghost["s"], st.ghost["t"] = before; share(eng, st, K["base"], P)
                def ex(st, r):
                    eng.reached.add("exit"); g = st.ghost; o = st.mem[K["base"] >> OBJ_SHIFT]
                    eng.oblige(st, (g["s"], g["t"]) == after, "post:references", "owns %s references afterwards, should be %s" % ((g["s"], g["t"]), after))
                    if g.get("last"): eng.reached.add("last")
                    if sum(after) == 0 and sum(before): eng.oblige(st, bool(g.get("last")) == (o.dead == "delete" or (bool(o.dead) and "last own" not in str(o.dead))), "post:state-destroyed-by-the-last", "the shared state is %sdestroyed with the last reference" % ("not " if g.get("last") else "wrongly "))
                    elif sum(after): eng.oblige(st, not o.dead, "post:state-kept", "the shared state is destroyed although it is referred to")
                    if fn == "f_req": eng.oblige(st, bool(g.get("asked")), "post:requested", "the request leaves no mark")
                    if res: res(eng, st, r, P)
                eng.run(st, fn, [A[x] for x in args], ex)
            # slots that are not constructed: make them empty handles
            if empty == "tok": eng.run(st, "f_tok_none", [otok], share2)
            elif empty == "src": eng.run(st, "f_src", [osrc], lambda st, _: eng.run(st, "f_src_move", [osrc, cb], share2))
            else: share2(st)
        learn(eng, c)
    return go
def r_asked(eng, st, r, P):
    w = st.ghost.get("lastread"); eng.oblige(st, w is not None and eng.valid(st, (bv(r, 1) == 1) == (w & P.req != 0)), "post:answer", "the answer does not follow the shared state"); order_ob(eng, st, st.ghost.get("readorder"), ACQ, "seeing the request means seeing what was done before it")
def r_possible(eng, st, r, P):
    w = st.ghost.get("lastread"); S, T = P.cnt(w); eng.oblige(st, eng.valid(st, (bv(r, 1) == 1) == z3.Or(w & P.bits != 0, S != 0)), "post:answer", "the answer does not follow the shared state")
R = lambda n, *a, **k: Proof(n, p(*a, **k), F)
PROOFS = [client("sources", ("self", "copy", "fresh"), F, unroll=1100, steps=20_000_000), client("tokens", ("self", "swap", "dropped"), F, unroll=1100), client("lifetime", ("all orders", "asked"), F, unroll=1100), client("misc", ("threw",), F + ("macoro::stop_token::throw_if_stop_requested",), unroll=1100),
    R("stop_source.copy", "f_src_copy", ("src", "osrc"), (1, 0), (2, 0)), R("stop_source.move", "f_src_move", ("src", "osrc"), (1, 0), (1, 0)), R("stop_source.destroy", "f_src_del", ("src",), (1, 0), (0, 0)), R("stop_source.get_token", "f_tok", ("src", "otok"), (1, 0), (1, 1)),
    R("stop_source.assign", "f_src_assign", ("src", "osrc"), (1, 0), (2, 0), empty="src"), R("stop_source.assign-empty", "f_src_assign", ("osrc", "src"), (1, 0), (0, 0), empty="src"), R("stop_source.self-assign", "f_src_assign", ("src", "src"), (1, 0), (1, 0)), R("stop_source.move-assign", "f_src_massign", ("src", "osrc"), (1, 0), (1, 0), empty="src"),
    R("stop_source.move-assign-empty", "f_src_massign", ("osrc", "src"), (1, 0), (0, 0), empty="src"), R("stop_source.self-move-assign", "f_src_massign", ("src", "src"), (1, 0), (1, 0)),
    R("stop_source.request_stop", "f_req", ("src",), (1, 0), (1, 0)), R("stop_source.stop_requested", "f_src_asked", ("src",), (1, 0), (1, 0), res=r_asked),
    R("stop_token.copy", "f_tok_copy", ("tok", "otok"), (0, 1), (0, 2)), R("stop_token.move", "f_tok_move", ("tok", "otok"), (0, 1), (0, 1)), R("stop_token.destroy", "f_tok_del", ("tok",), (0, 1), (0, 0)), R("stop_token.assign", "f_tok_assign", ("tok", "otok"), (0, 1), (0, 2), empty="tok"),
    R("stop_token.assign-empty", "f_tok_assign", ("otok", "tok"), (0, 1), (0, 0), empty="tok"), R("stop_token.self-assign", "f_tok_assign", ("tok", "tok"), (0, 1), (0, 1)), R("stop_token.move-assign", "f_tok_massign", ("tok", "otok"), (0, 1), (0, 1), empty="tok"), R("stop_token.move-assign-empty", "f_tok_massign", ("otok", "tok"), (0, 1), (0, 0), empty="tok"),
    R("stop_token.self-move-assign", "f_tok_massign", ("tok", "tok"), (0, 1), (0, 1)), R("stop_token.swap", "f_tok_swap", ("tok", "otok"), (0, 1), (0, 1), empty="tok"), R("stop_token.stop_requested", "f_tok_asked", ("tok",), (0, 1), (0, 1), res=r_asked), R("stop_token.stop_possible", "f_tok_possible", ("tok",), (0, 1), (0, 1), res=r_possible)]
NATIVE_VARIANTS = ["own"]
NOTE = ("Every handle operation is proved against the protocol of the shared word for arbitrary counts and arbitrary interference: it takes or gives back exactly the references it owns by atomic read-modify-writes, gives them back with release order, and "
    "destroys the state exactly when it gave back the last one (acquire). stop_requested / stop_possible answer as the word says. Lemma clients prove the answers and the lifetime for every history of up to 3 handle operations on two states (no leak, no use after release). Trusted: clang front end, VC generator, z3.")
ASSUMPTIONS = ["fewer than 2^31 - 2 sources and as many tokens and callbacks share one state"]
