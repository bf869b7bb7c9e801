from lib import *
SRCS = ["p09.cpp"]
from harness import Proof
C = "macoro::channel"
GOOD = 0x600DF00D
class Monitor(WordProto):
    """what one side does to a slot, in order: the atomic store that hands the slot over comes after the last access to it"""
    def __init__(s, role, v): s.role = role; s.v = v
    def atomic(s, eng, st, a, sz, kind, order, *r):
        if kind != "store": return None
        order_ob(eng, st, order, REL, "handing a slot over"); vals = [c[1] for o in st.mem.values() if o.kind == "heap" and not o.dead for c in o.cells.values()]
        if s.role == "push": eng.oblige(st, any(x.__class__ is not int and not isinstance(x, tuple) and z3.is_bv(x) and x.size() == 32 and eng.valid(st, x == s.v) for x in vals), "slot:stored-before-published", "the slot is published before the element was stored in it")
        else: eng.oblige(st, GOOD not in [x for x in vals if x.__class__ is int], "slot:emptied-before-release", "the slot is released to the sender before its element was taken out and destroyed")
        st.ghost["over"] = st.ghost.get("over", 0) + 1
        return None
    def plain_off(s, eng, st, a, off, sz, kind, v):
        if st.ghost.get("over") and eng.obj(st, a if a.__class__ is int else a.base).kind == "heap": eng.fail(st, "slot:not-touched-after-handover", "%s of a slot after it was handed over" % kind)
        return None
def p_slot(fn, N, role):
    def go(eng):
        st = eng.start_state(); c = eng.alloc(st, const(eng.m, "SZ_" + N), "global", "channel"); v = eng.fresh("v", 32); eng.covers = ("exit",)
        def mon(st): 
            M = Monitor(role, v); share(eng, st, c, M)
            for o in list(st.mem.values()):
                if o.kind == "heap" and not o.dead: share(eng, st, o.base, M)
        def a(st, _):
            if role == "push": mon(st); eng.run(st, fn + N, [c, v], ex)
            else: eng.run(st, "f_push_" + N, [c, v], b)
        def b(st, _): mon(st); eng.run(st, fn + N, [c], ex)
        def ex(st, r):
            eng.reached.add("exit"); eng.oblige(st, st.ghost.get("over") == 1, "slot:handed-over-once", "the slot is not handed over exactly once (%s)" % st.ghost.get("over"))
            if role == "pop": eng.oblige(st, bv(r, 32) == v, "post:element", "another element is received")
        eng.run(st, "f_new_" + N, [c], a)
    return go
F = (C + "::push/close/front/pop", C + "::wrapper_base::publish", C + "::push_wrapper/pop_wrapper", "macoro::sequence_spsc/sequence_mpsc")
PROOFS = [client("fifo_" + n, ("closed", "full", "empty"), F, unroll=60) for n in ("spsc", "spsc_3", "mpsc", "mpsc_3")] + [client("misc_" + n, ("capacity", "left-over"), F + (C + "::channel", "macoro::%s::make_channel" % n), unroll=60) for n in ("spsc", "mpsc")]
PROOFS += [client("plain_" + n, ("closed", "emptied"), F, unroll=60, steps=20_000_000) for n in ("spsc", "mpsc")]
for N, n in (("s", "spsc"), ("m", "mpsc")):
    PROOFS += [Proof("push<%s>.slot" % n, p_slot("f_push_", N, "push"), (C + "::push(T&&)",)), Proof("push_wrapper<%s>.slot" % n, p_slot("f_place_", N, "push"), (C + "::push", C + "::wrapper_base::publish")), Proof("pop<%s>.slot" % n, p_slot("f_pop_", N, "pop"), (C + "::pop", C + "::wrapper_base::publish"))]
NATIVE_VARIANTS = ["own", "std"]
NOTE = ("Slot discipline proved on the real code of push, push_wrapper and pop for both sequencers: an element is stored before the (release) store that publishes its slot and the slot is never touched afterwards; a slot is emptied before the "
    "(release) store that gives it back. With the sequencers' contracts (P07, P08: no occupied slot is claimed, no unpublished one is reported) this gives exactly-once, in-order delivery. Lemma clients prove it for every order of the "
    "operations of one sender and one receiver up to 3 elements with arbitrary values over 1 and 2 slots, closing included (bounded in the number of elements); schedules are additionally explored. Trusted: clang front end and coroutine lowering, VC generator, z3.")
ASSUMPTIONS = ["element type: a counted value (default constructible); elements do not throw when moved", "client histories: at most 3 elements, 1 or 2 slots (induction over longer histories rests on the sequencers' contracts)"]
