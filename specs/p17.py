"""P17  barrier.  State word = 2*count + waiting bit (representation invariant).
Ownership: every unit of the count keeps the barrier alive for its holder; the waiting bit owns the continuation field and the
right to resume the waiter; whoever takes the word from 3 to 1 (or the waiter finding itself last) acquires both, and thereby
everything every decrementer released."""
from lib import *
from harness import Proof
SRCS = ["p17.cpp"]
B = "macoro::barrier"; A = "macoro::barrier_awaiter"

class Proto(WordProto):
    def __init__(s, b, coff, conoff, role, h): s.b = b; s.coff = coff; s.con = conoff; s.role = role; s.h = h
    def havoc(s, eng, st, off, sz):
        g = st.ghost
        if g.get("excl"): return [(st, g["word"])]
        x = eng.fresh("word", 64)
        n = z3.LShR(x, 1); w = x & 1
        eng.assume(st, z3.ULT(n, z3.BitVecVal(1 << 62, 64)))
        if s.role == "waiter": eng.assume(st, w == 0)        # one waiter at a time, and it is me
        if g["units"]: eng.assume(st, z3.UGE(n, z3.BitVecVal(g["units"], 64)))
        elif s.role != "waiter" and s.role != "adder" and s.role != "reader": pass
        eng.assume(st, z3.Implies(w == 1, n != 0))           # a pending waiter means a positive count
        return [(st, x)]
    def read(s, eng, st, off, sz, val, order, kind):
        st.ghost["lastread"] = val; st.ghost["readorder"] = order
        return [(st, val)]
    def write(s, eng, st, off, sz, old, new, order, kind):
        g = st.ghost
        if g.get("excl"):
            g["word"] = new; return [(st, old)]
        o = bv(old, 64); n = bv(eng.res(st, new), 64); out = []
        if not kind.startswith("rmw") and kind != "cas": eng.fail(st, "guarantee:no-blind-store", "the shared count is overwritten, losing concurrent updates")
        d = simp(n - o)
        if d.__class__ is not int:
            amt = st.ghost.get("amount")
            eng.oblige(st, amt is not None and eng.valid(st, n - o == 2 * amt), "guarantee:count-exact", "the count changes by something else than the requested amount")
            g["added"] = 1; g["sum"] = old; return [(st, old)]
        d = sgn(d, 64)
        if d > 0:
            eng.oblige(st, d % 2 == 0, "guarantee:count-exact", "unknown update of the count word")
            g["units"] += d // 2; g["added"] = g.get("added", 0) + d // 2; g["sum"] = old
            if s.role == "waiter":
                for c, z in ((o == 0, 1), (o != 0, 0)):
                    if eng.feasible(st, c):
                        t = st.copy(); eng.assume(t, c); t.ghost["sawzero"] = z; t.ghost["acq"] = t.ghost.get("acq", 0) or (order in ACQ); out.append((t, old))
                return out
            return [(st, old)]
        order_ob(eng, st, order, REL, "everything done before the decrement must be visible to the waiter")
        if d == -2:
            eng.oblige(st, g["units"] >= 1, "guarantee:own-unit", "a unit of the count is released that this call does not own")
            g["units"] -= 1; g["released"] = g.get("released", 0) + 1; g["sum"] = old
            if s.role == "waiter":
                g["acq"] = g.get("acq", 0) or (order in ACQ)
                for c, z in ((o == 2, 1), (o != 2, g.get("sawzero", 0))):
                    if eng.feasible(st, c):
                        t = st.copy(); eng.assume(t, c); t.ghost["sawzero"] = z; out.append((t, old))
                return out
            t = st.copy()
            if eng.feasible(t, o == 3):
                eng.assume(t, o == 3); order_ob(eng, t, order, ACQ, "the last decrement releases the waiter and must see everything before the other decrements")
                t.ghost["excl"] = 1; t.ghost["word"] = 1
                ob = eng.wobj(t, s.b); ob.cells[s.con] = (8, s.h); t.res[("resume", s.h)] = 1; t.ghost["waited"] = 1
                t.note("took the count to zero: owns the waiter"); out.append((t, old))
            if eng.feasible(st, o != 3):
                eng.assume(st, o != 3)
                st.ghost["gone"] = "its count was released (the waiter may have continued and destroyed the barrier)"; out.append((st, old))
            return out
        if d == -1 and s.role == "waiter":
            eng.oblige(st, g["units"] >= 1, "guarantee:own-unit", "the waiter trades a unit it does not own")
            ob = eng.obj(st, s.b); c = eng.raw_load(ob, s.con, 8)
            eng.oblige(st, c is not UNDEF and eng.valid(st, bv(c, 64) == s.h), "guarantee:continuation-stored", "the waiting bit is set before the continuation is stored")
            g["units"] -= 1
            if eng.feasible(st, o == 2):
                t = st.copy(); eng.assume(t, o == 2); order_ob(eng, t, order, ACQ, "the waiter sees that everyone is done")
                t.ghost["excl"] = 1; t.ghost["word"] = 1; t.ghost["sawzero"] = 1; t.ghost["acq"] = 1; out.append((t, old))
            if eng.feasible(st, o != 2):
                eng.assume(st, o != 2)
                st.res.pop(("resume", s.h), None); st.ghost["given"] = 1
                st.ghost["gone"] = "the waiter was handed over (it may have been resumed and the barrier destroyed)"
                a = st.ghost.get("awaiter")
                if a: eng.release(st, a, st.ghost["gone"])
                out.append((st, old))
            return out
        eng.fail(st, "guarantee:unknown-transition", "the count word changes by %d" % d)
    def alive(s, eng, st, a):
        if st.ghost.get("gone"): eng.fail(st, "mem:use-after-release", "atomic access to the barrier after %s" % st.ghost["gone"], "mem")
    def plain_off(s, eng, st, a, off, sz, kind, v):
        if st.ghost.get("gone"): eng.fail(st, "mem:use-after-release", "%s of the barrier after %s" % (kind, st.ghost["gone"]), "mem")
        if off is not None and off <= s.con < off + sz and not st.ghost.get("excl") and s.role != "waiter":
            eng.fail(st, "race:continuation", "%s of the continuation without owning it" % kind, "mem")
        if s.role == "waiter" and kind == "store": pass
        return None

def mk(eng, role, units):
    m = eng.m; st = eng.start_state()
    coff = m.field(B, "m_count", "atomic"); con = m.field(B, "m_continuation", "coroutine_handle")
    b = eng.alloc(st, const(m, "SZ_b"), "global", "barrier")
    st.ghost["units"] = units
    def onres(eng, st, h):
        # at the moment the waiter continues the barrier must be idle and reusable
        if st.ghost.get("excl"):
            c = eng.raw_load(eng.obj(st, b), con, 8)
            eng.oblige(st, eng.valid(st, bv(st.ghost["word"], 64) == 0), "inv:idle-count", "the waiter is resumed while the count word is not zero: the barrier cannot be reused")
            eng.oblige(st, c is not UNDEF and eng.valid(st, bv(c, 64) == 0), "inv:idle-continuation", "the waiter is resumed while it is still registered: it can be resumed again")
            st.ghost["excl"] = 0
        st.ghost["gone"] = "the waiter was resumed (it may have destroyed the barrier)"
    h = coro(eng, st, "waiter", onres, perm=(role == "waiter"))
    P = Proto(b, coff, con, role, h)
    if role == "waiter": eng.wobj(st, b).cells[con] = (8, 0)
    share(eng, st, b, P)
    return st, b, h, P, coff, con
def p_dec(eng):
    st, b, h, P, *_ = mk(eng, "dec", 1); eng.covers = ("last-with-waiter", "other")
    def ex(st, v):
        g = st.ghost
        eng.reached.add("last-with-waiter" if g.get("waited") else "other")
        eng.oblige(st, g.get("released") == 1 and g["units"] == 0, "post:count-decremented-once", "the count is not decremented exactly once")
        eng.oblige(st, bv(v, 64) == z3.LShR(bv(g["sum"], 64), 1) - 1, "post:returns-new-count", "decrement answers the wrong count")
        eng.oblige(st, not g.get("waited") or str(g.get("resumed", 0)) == "1", "post:last-releases-waiter", "the last decrement does not resume the waiter")
        no_leaks(eng, st)
    eng.run(st, "f_dec", [b], ex)
def p_add(fn):
    def go(eng):
        st, b, h, P, *_ = mk(eng, "adder", 0); eng.covers = ("exit",)
        amt = eng.fresh("amount", 64) if fn == "f_add" else z3.BitVecVal(1, 64)
        eng.assume(st, z3.ULT(amt, z3.BitVecVal(1 << 61, 64)))
        st.ghost["amount"] = amt
        def ex(st, v):
            eng.reached.add("exit")
            eng.oblige(st, st.ghost.get("added", 0) == 1, "post:count-incremented-once", "the count is not incremented exactly once")
            eng.oblige(st, bv(v, 64) == z3.LShR(bv(st.ghost["sum"], 64), 1) + amt, "post:returns-new-count", "the answer is not the new count")
            no_leaks(eng, st)
        eng.run(st, fn, [b] if fn == "f_inc" else [b, amt], ex)
    return go
def p_count(eng):
    st, b, h, P, *_ = mk(eng, "reader", 0); eng.covers = ("exit",)
    def ex(st, v):
        eng.reached.add("exit")
        eng.oblige(st, bv(v, 64) == z3.LShR(bv(st.ghost["lastread"], 64), 1), "post:count", "count() does not answer the count")
        order_ob(eng, st, st.ghost["readorder"], ACQ, "observing the count")
    eng.run(st, "f_count", [b], ex)
def p_susp(fn):
    def go(eng):
        st, b, h, P, coff, con = mk(eng, "waiter", 0); eng.covers = ("suspended", "continues")
        a = eng.alloc(st, const(eng.m, "SZ_a"), "global", "awaiter"); st.ghost["awaiter"] = a
        eng.wobj(st, a).cells[eng.m.field(A, "m_barrier", "barrier&")] = (8, b)
        par = eng.m.field("macoro::basic_traceable", "m_parent", "traceable\\*") if False else None
        def ex(st, v):
            g = st.ghost
            if g.get("given"):
                eng.reached.add("suspended")
                eng.oblige(st, eng.valid(st, bv(v, 64) != h), "post:suspended-stays-suspended", "the waiter continues although it was handed to the last decrementer: resumed twice")
            else:
                eng.reached.add("continues")
                eng.oblige(st, eng.valid(st, bv(v, 64) == h), "post:continues", "the waiter neither continues nor is registered: lost wake-up")
                eng.oblige(st, g.get("sawzero") == 1, "post:continue-only-at-zero", "the waiter continues although the count was not seen zero")
                eng.oblige(st, bool(g.get("acq")), "order:continue-acquires", "the waiter continues without acquiring the effects of the decrementers")
                eng.oblige(st, g["units"] == 0, "post:no-unit-kept", "the waiter leaves a unit in the count")
                c = eng.raw_load(eng.obj(st, b), con, 8)
                eng.oblige(st, c is not UNDEF and eng.valid(st, bv(c, 64) == 0), "inv:idle-continuation", "the waiter continues while still registered")
                if g.get("excl"): eng.oblige(st, eng.valid(st, bv(g["word"], 64) == 0), "inv:idle-count", "the count is not zero when the waiter continues")
                st.res.pop(("resume", h), None)
            no_leaks(eng, st)
        eng.run(st, fn, [a, h], ex)
    return go
def p_ctor(eng):
    m = eng.m; st = eng.start_state(); b = eng.alloc(st, const(m, "SZ_b"), "global", "barrier"); n = eng.fresh("n", 64); eng.assume(st, z3.ULT(n, z3.BitVecVal(1 << 61, 64)))
    coff = m.field(B, "m_count", "atomic"); con = m.field(B, "m_continuation", "coroutine_handle"); eng.covers = ("exit",)
    def ex(st, v):
        eng.reached.add("exit")
        w = eng.load(st, b + coff, 8); c = eng.load(st, b + con, 8)
        eng.oblige(st, w is not UNDEF and eng.valid(st, bv(w, 64) == 2 * n), "post:initial-count", "wrong initial count")
        eng.oblige(st, c is not UNDEF and eng.valid(st, bv(c, 64) == 0), "post:no-waiter", "a new barrier has a waiter")
    eng.run(st, "f_ctor", [b, n], ex)
def p_await(eng):
    st, b, h, P, *_ = mk(eng, "reader", 0); a = eng.alloc(st, const(eng.m, "SZ_a"), "global", "awaiter"); eng.covers = ("exit",)
    def ex(st, v):
        eng.oblige(st, eng.load(st, a + eng.m.field(A, "m_barrier", "barrier&"), 8) == b, "post:bound-to-barrier", "the awaiter refers to another barrier")
        def ex2(st, v):
            eng.reached.add("exit")
            eng.oblige(st, z3.Not(boolof(v)), "post:never-ready-without-looking", "await_ready lets the waiter proceed without looking at the count")
        eng.run(st.copy(), "f_ready", [a], ex2)
    eng.run(st, "f_await", [b, a], ex)
PROOFS = [Proof("barrier.decrement", p_dec, (B + "::decrement",)), Proof("barrier.add", p_add("f_add"), (B + "::add",)), Proof("barrier.increment", p_add("f_inc"), (B + "::increment",)),
    Proof("barrier.count", p_count, (B + "::count",)), Proof("awaiter.await_suspend(macoro)", p_susp("f_susp_m"), (A + "::await_suspend",)), Proof("awaiter.await_suspend(std)", p_susp("f_susp_s"), (A + "::await_suspend(std)",)),
    Proof("barrier.ctor", p_ctor, (B + "::barrier",)), Proof("barrier.co_await", p_await, (B + "::operator co_await", A + "::await_ready"))]
NOTE = ("Every operation of barrier and its awaiter is verified on the IR of the real header against a counted-word protocol: for every count, every interference by other threads and both handle kinds, the last decrement "
    "resumes the waiter exactly once, the waiter continues only after observing zero with acquire order, nobody touches the barrier after giving up the right to, and the barrier is idle (reusable) when the waiter continues.")
ASSUMPTIONS = ["one waiter at a time and count below 2^62 (documented)", "coroutine bodies are opaque", "a party calls decrement only for a unit it added (client contract)"]
