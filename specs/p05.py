"""P05  async_manual_reset_event: contracts and protocol."""
from lib import *
from harness import Proof
SRCS = ["p05.cpp"]
EV = "macoro::async_manual_reset_event"; OP = "macoro::async_manual_reset_event_operation"

class EventProto(WordProto):
    """state word: ev (set) | 0 | head of list of waiters (owned by the word).
    reset may do ev->0; a waiter may do L->node::L (L != ev); set may do any->ev and then owns the list."""
    def __init__(s, ev, node, spec, noff, hoff): s.ev = ev; s.node = node; s.spec = spec; s.noff = noff; s.hoff = hoff
    def havoc(s, eng, st, off, sz):
        x = eng.fresh("word", 64)
        if s.node: eng.assume(st, x != s.node)
        return [(st, x)]
    def read(s, eng, st, off, sz, val, order, kind):
        eng_last(st, val, order)
        return [(st, val)]
    def write(s, eng, st, off, sz, old, new, order, kind):
        new = eng.res(st, new)
        st.ghost["wrote"] = st.ghost.get("wrote", 0) + 1
        if new.__class__ is int and new == s.ev:
            order_ob(eng, st, order, REL, "publishing the set state")
            out = []
            # already set
            if eng.feasible(st, bv(old, 64) == s.ev):
                t = st.copy(); eng.assume(t, bv(old, 64) == s.ev); t.ghost["set"] = 1; out.append((t, s.ev))
            t = st.copy()
            if eng.feasible(t, bv(old, 64) == 0):
                u = t.copy(); eng.assume(u, bv(old, 64) == 0); u.ghost["set"] = 1; out.append((u, 0))
            try:
                order_ob(eng, t, order, ACQ, "taking over the waiter list")
                t.ghost["set"] = 1
                lp = eng.lseg(t, s.spec, 0, (), False)
                if kind == "cas":     # the program keeps the old bits in another register: pin them
                    for u in eng.unfold(t, lp):
                        a = u.bind[lp.id]; eng.assume(u, bv(old, 64) == a); out.append((u, a))
                else: out.append((t, lp))
            except PathEnd: pass
            return out
        if new.__class__ is int and new == 0:
            eng.oblige(st, bv(old, 64) == s.ev, "guarantee:reset-only-from-set", "the state word is cleared while waiters may be linked to it")
            st.ghost["reset"] = 1
            return [(st, old)]
        if s.node and new.__class__ is int and new == s.node:
            eng.oblige(st, bv(old, 64) != s.ev, "guarantee:enqueue-only-when-unset", "a waiter replaces the set state")
            eng.oblige(st, not st.ghost.get("enq"), "guarantee:enqueue-once", "the waiter is linked twice")
            order_ob(eng, st, order, REL, "handing the waiter node to the setter")
            o = eng.obj(st, s.node)
            nx = eng.raw_load(o, s.noff, 8); h = eng.raw_load(o, s.hoff, 8)
            eng.oblige(st, nx is not UNDEF and bv(nx, 64) == bv(old, 64), "guarantee:list-linked", "the new head does not link to the previous head")
            eng.oblige(st, h == st.ghost["h"], "guarantee:awaiter-stored", "the node does not hold the awaiting coroutine when it becomes visible")
            st.res.pop(("resume", h), None)
            st.ghost["enq"] = 1
            eng.release(st, s.node, "it was handed to the event (the setter may already have resumed its coroutine)")
            st.note("node enqueued")
            return [(st, old)]
        eng.fail(st, "guarantee:unknown-transition", "the state word is set to %s" % new)
def eng_last(st, val, order):
    st.ghost["lastread"] = val; st.ghost["readorder"] = order

def mk(eng, with_node=False):
    m = eng.m; st = eng.start_state()
    soff = m.field(EV, "m_state", "atomic")
    noff = m.field(OP, "m_next", r"operation\*$"); hoff = m.field(OP, "m_awaiter", "coroutine_handle"); eoff = m.field(OP, "m_event", r"manual_reset_event&")
    ev = eng.alloc(st, const(m, "SZ_ev"), "global", "event")
    node = eng.alloc(st, const(m, "SZ_op"), "global", "operation") if with_node else None
    spec = WaiterSpec(const(m, "SZ_op"), noff, hoff)
    def extra(eng, st, a): eng.wobj(st, a).cells[eoff] = (8, ev)
    spec.extra = extra
    P = EventProto(ev, node, spec, noff, hoff)
    return st, ev, node, P, eoff, hoff, soff

def p_set(eng):
    st, ev, _, P, *_ = mk(eng); share(eng, st, ev, P)
    eng.covers = ("exit", "resumed-some")
    def ex(st, v):
        eng.reached.add("exit")
        if str(st.ghost.get("resumed", 0)) != "0": eng.reached.add("resumed-some")
        sawset = st.ghost.get("lastread")
        eng.oblige(st, st.ghost.get("set", 0) == 1 or (sawset is not None and eng.valid(st, bv(sawset, 64) == ev)), "post:event-set", "set returns although the event was never set by it nor seen set")
        no_leaks(eng, st)
    eng.run(st, "f_set", [ev], ex)
def p_reset(eng):
    st, ev, _, P, *_ = mk(eng); share(eng, st, ev, P)
    eng.covers = ("did", "not")
    def ex(st, v):
        eng.reached.add("did" if st.ghost.get("reset") else "not")
        lr = st.ghost.get("lastread")
        eng.oblige(st, bool(st.ghost.get("reset")) or (lr is not None and eng.valid(st, bv(lr, 64) != ev)), "post:event-unset", "reset returns although the event may still be set")
        no_leaks(eng, st)
    eng.run(st, "f_reset", [ev], ex)
def p_isset(fn):
    def go(eng):
        st, ev, node, P, eoff, hoff, soff = mk(eng, fn != "f_is_set"); share(eng, st, ev, P)
        if node: eng.wobj(st, node).cells[eoff] = (8, ev)
        eng.covers = ("exit",)
        def ex(st, v):
            eng.reached.add("exit")
            lr = st.ghost.get("lastread")
            eng.oblige(st, lr is not None and st.ghost.get("wrote", 0) == 0, "post:reads-state", "the answer does not come from the state word")
            order_ob(eng, st, st.ghost["readorder"], ACQ, "observing the set state")
            eng.oblige(st, boolof(v) == (bv(lr, 64) == ev), "post:answer", "wrong answer about the state")
        eng.run(st, fn, [node or ev], ex)
    return go
def p_susp(fn):
    def go(eng):
        st, ev, node, P, eoff, hoff, soff = mk(eng, True); share(eng, st, ev, P)
        eng.wobj(st, node).cells[eoff] = (8, ev)
        h = coro(eng, st, "awaiter"); st.ghost["h"] = h
        eng.covers = ("suspended", "continues")
        def ex(st, v):
            def side(st, susp):
                if susp:
                    eng.reached.add("suspended")
                    eng.oblige(st, bool(st.ghost.get("enq")), "post:suspended-means-enqueued", "the coroutine stays suspended but is not in the waiter list: lost wake-up")
                else:
                    eng.reached.add("continues")
                    eng.oblige(st, not st.ghost.get("enq"), "post:continue-means-not-enqueued", "the coroutine continues although it was handed to the setter: resumed twice")
                    lr = st.ghost.get("lastread")
                    eng.oblige(st, lr is not None and eng.valid(st, bv(lr, 64) == ev), "post:continue-means-set", "the coroutine continues although the event was not seen set")
                    order_ob(eng, st, st.ghost["readorder"], ACQ, "observing the set state")
            for cond, b in ((boolof(v), True), (z3.Not(boolof(v)), False)):
                if eng.feasible(st, cond):
                    t = st.copy(); eng.assume(t, cond)
                    try: side(t, b)
                    except PathEnd: pass
        eng.run(st, fn, [node, h], ex)
    return go
def p_ctor(eng):
    st, ev, _, P, eoff, hoff, soff = mk(eng)
    b = eng.freshb("initiallySet"); eng.covers = ("exit",)
    def ex(st, v):
        eng.reached.add("exit")
        w = eng.load(st, ev + soff, 8)
        eng.oblige(st, w is not UNDEF and z3.If(b, bv(w, 64) == ev, bv(w, 64) == 0), "post:initial-state", "wrong initial state")
        # then the destructor accepts it (no waiters)
        eng.run(st.copy() if False else st, "f_dtor", [ev], lambda st, v: eng.oblige(st, True, "dtor"))
    eng.run(st, "f_ctor", [ev, b], ex)
def p_await(eng):
    st, ev, node, P, eoff, hoff, soff = mk(eng, True); share(eng, st, ev, P)
    eng.covers = ("exit",)
    def ex(st, v):
        eng.reached.add("exit")
        eng.oblige(st, eng.load(st, node + eoff, 8) == ev, "post:bound-to-event", "the operation refers to another event")
        eng.oblige(st, st.ghost.get("wrote", 0) == 0, "post:no-effect", "creating the operation changed the event")
    eng.run(st, "f_await", [ev, node], ex)

PROOFS = [
    Proof("event.set", p_set, (EV + "::set",)), Proof("event.reset", p_reset, (EV + "::reset",)),
    Proof("event.is_set", p_isset("f_is_set"), (EV + "::is_set",)), Proof("operation.await_ready", p_isset("f_ready"), (OP + "::await_ready",)),
    Proof("operation.await_suspend(macoro)", p_susp("f_susp_m"), (OP + "::await_suspend",)), Proof("operation.await_suspend(std)", p_susp("f_susp_s"), (OP + "::await_suspend(std)",)),
    Proof("event.ctor/dtor", p_ctor, (EV + "::async_manual_reset_event",)), Proof("event.co_await", p_await, (EV + "::operator co_await",)),
]
NOTE = ("Every operation of the event (set, reset, is_set, await_ready, both await_suspend overloads, construction/destruction, co_await) is verified on the IR of the real header against "
        "an atomic-word protocol with ownership transfer: for every list of waiters and every interference by other threads, each enqueued waiter is resumed exactly once, a waiter that stays suspended is in the list, "
        "no access after hand-over. Trusted: clang front end, VC generator, z3; coroutine bodies are opaque; sequential consistency per location with explicit memory-order obligations.")
ASSUMPTIONS = ["the event outlives its waiters (documented precondition)", "coroutines resumed by set() may do anything except destroy the event"]
