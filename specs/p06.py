"""P06  sequence_barrier: publish and wait against the waiter-list protocol (seqlib)."""
from lib import *
from seqlib import *
from harness import Proof
SRCS = ["p06.cpp"]
def names(N):
    T = {"u64": "unsigned long", "u8": "unsigned char"}[N]; tr = "macoro::sequence_traits<%s>" % T
    return "macoro::sequence_barrier<%s, %s >" % (T, tr), "macoro::sequence_barrier_wait_operation_base<%s, %s >" % (T, tr)
def mk(eng, N, role, track):
    m = eng.m; st = eng.start_state(); W = {"u64": 64, "u8": 8}[N]; Bn, On = names(N)
    B = eng.alloc(st, const(m, "SZ_b_" + N), "global", "barrier"); 
    P = BarrierProto(eng, st, B, m.field(Bn, "m_awaiters", r"\*>"), m.field(Bn, "m_lastPublished", "atomic<SEQ|atomic<unsigned"), On, W, role, const(m, "SZ_o_" + N), track)
    st.ghost["lp"] = P.newseq(eng, st, "lp0"); st.ghost["pending"] = 0; st.ghost["scstore"] = 0; st.ghost["X"] = "unseen" if track else "none"; st.ghost["A"] = "none"
    if track: P.tX = P.newseq(eng, st, "targetX")
    share(eng, st, B, P); eng.cand_terms = P.terms; eng.cand_preds = P.preds; eng.ephemeral = ("t!", "k!", "g!", "word!")
    if track: P.X = (1 << 47) + 0x100000; eng.xnodes[P.X] = P.spec
    return st, B, P
def p_publish(N):
    def go(eng):
        st, B, P = mk(eng, N, "publish", True); seq = P.newseq(eng, st, "seq"); eng.assume(st, z3.Not(P.prec(seq, st.ghost["lp"]))); st.ghost["seq"] = seq
        eng.covers = ("exit", "X-resumed", "X-requeued", "nobody")
        def ex(st, v):
            g = st.ghost; eng.reached.add("exit"); eng.reached.add({"done": "X-resumed", "word": "X-requeued", "unseen": "nobody"}.get(g["X"], "?"))
            eng.oblige(st, bv(g["lp"], P.W) == seq, "post:published", "the number is not published")
            eng.oblige(st, g["pending"] == 0, "post:waiters-checked", "publish returns without having looked for waiters registered before (in a way ordered after the publication): a waiter can sleep for ever")
            eng.oblige(st, g["X"] != "local", "exit:lost-waiters", "a waiter taken from the list is neither resumed nor put back"); no_leaks(eng, st)
        eng.run(st, "f_publish_" + N, [B, seq], ex)
    return go
def p_await(N, k, track):
    def go(eng):
        st, B, P = mk(eng, N, "wait", track); m = eng.m
        A = eng.alloc(st, const(m, "SZ_o_" + N), "global", "waiterA"); P.A = A; P.tA = P.newseq(eng, st, "targetA"); eng.xnodes[A] = P.spec; st.ghost["A"] = "new"
        out = eng.alloc(st, 8, "global", "told"); h = coro(eng, st, "awaiter"); st.ghost["h"] = h; share(eng, st, A, OwnProto(P, P.foff))
        eng.covers = ("ready", "continues", "suspended") + (("X-resumed", "X-requeued") if track else ())
        def ex(st, v):
            g = st.ghost
            eng.reached.add({"done": "X-resumed", "word": "X-requeued"}.get(g["X"], "?"))
            v = eng.res(st, v); eng.oblige(st, v.__class__ is int or z3.is_bv(v), "post:answer")
            for k, nm in ((0, "ready"), (1, "continues"), (2, "suspended")):
                c = bv(v, 32) == k
                if not eng.feasible(st, c): continue
                t = st.copy(); eng.assume(t, c); g = t.ghost; eng.reached.add(nm)
                try:
                    eng.oblige(t, not g["resp"], "post:registered-waiter-rechecked", "a waiter (%s) was put into the shared list and the published number not re-checked afterwards: it can sleep for ever" % ",".join(g["resp"]))
                    eng.oblige(t, g["X"] != "local", "exit:lost-waiters", "a waiter taken from the list is neither resumed nor put back")
                    if k == 2: eng.oblige(t, g.get("suspended") == "yes" and g["A"] == "gone", "post:suspended-means-registered", "the coroutine stays suspended but nobody will resume it (%s)" % g["A"])
                    else:
                        eng.oblige(t, g["A"] == ("new" if k == 0 else "woken"), "post:continue-means-woken", "the coroutine continues although it can still be resumed (%s)" % g["A"])
                        r = eng.load(t, out, P.W // 8)
                        eng.oblige(t, r is not UNDEF and eng.valid(t, z3.Not(P.prec(r, P.tA))), "post:not-before-published", "the waiter continues with a number before the one it waited for")
                        eng.oblige(t, z3.Not(P.prec(g["lp"], r)), "post:told-published-number", "the waiter is told a number that was never published")
                        if k == 0: order_ob(eng, t, g["lporder"], ACQ, "observing the published number")
                        t.res.pop(("resume", h), None)
                    no_leaks(eng, t)
                except PathEnd: pass
        eng.run(st, "f_await_%s_%s" % (k, N), [B, A, P.tA, h, out], ex)
    return go
def p_ctor(N):
    def go(eng):
        st, B, P = mk(eng, N, "wait", False); st.ghost.pop(("proto", B)); v0 = P.newseq(eng, st, "init"); eng.covers = ("exit",)
        def a(st, v): eng.run(st, "f_last_" + N, [B], b)
        def b(st, v): eng.oblige(st, bv(v, P.W) == v0, "post:initial", "a new barrier does not report its initial number"); eng.run(st, "f_dtor_" + N, [B], c)
        def c(st, v): eng.reached.add("exit"); eng.oblige(st, True, "dtor")
        eng.run(st, "f_ctor_" + N, [B, v0], a)
    return go
def p_last(N):
    def go(eng):
        st, B, P = mk(eng, N, "wait", False); eng.covers = ("exit",)
        def ex(st, v): eng.reached.add("exit"); eng.oblige(st, bv(v, P.W) == st.ghost["lp"], "post:last-published", "not the published number"); order_ob(eng, st, st.ghost["lporder"], ACQ, "the data published with the number is read")
        eng.run(st, "f_last_" + N, [B], ex)
    return go
BN = "macoro::sequence_barrier"; ON = "macoro::sequence_barrier_wait_operation_base"
PROOFS = []
for N in ("u64", "u8"):
    PROOFS += [Proof("publish<%s>" % N, p_publish(N), (BN + "::publish", ON + "::resume")), Proof("ctor<%s>" % N, p_ctor(N), (BN + "::sequence_barrier",)), Proof("last_published<%s>" % N, p_last(N), (BN + "::last_published",))]
NATIVE_VARIANTS = ["own", "std"]
NOTE = ("sequence_barrier::publish under the waiter-list protocol (specs/seqlib.py): for every list of waiters (an arbitrary tracked waiter with an arbitrary target, all others anonymous), every sequence number (64 and 8 bit, "
        "wrap-around included) and every interference: each waiter taken is resumed exactly once iff its number is published, else put back; nobody is resumed before; the publication is ordered before the look at the list; data published is "
        "visible (release/acquire). last_published and the constructor are proved too. wait_until_published/add_awaiter (the waiter's side) is decided by controlled execution of the real code over schedules (bounded, not proved): "
        "its nested loops exceed the time the invariant search may take.")
ASSUMPTIONS = ["one producer publishes (documented precondition); the barrier outlives its waiters", "wait_until_published: explored over schedules, not proved"]
