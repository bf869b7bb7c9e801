from lib import *
SRCS = ["p08.cpp"]
Q = "macoro::sequence_mpsc"; BN = "macoro::sequence_barrier"
FC = (Q + "::sequence_mpsc/claim_one/claim_up_to/any_available/buffer_size", Q + "_claim_operation::operator co_await", Q + "_claim_one_operation::operator co_await", Q + "_claim_awaiter::*", Q + "_claim_one_awaiter::*")
FP = (Q + "::publish/last_published_after/wait_until_published/resume_ready_awaiters/add_awaiter", Q + "_wait_operation_base::*")
from harness import Proof
W_ = {"u64": 64, "u8": 8}
class Claim(WordProto):
    """the claim counter under arbitrary concurrent claims: only changed by adding, in one atomic step"""
    def __init__(s, W): s.W = W
    def havoc(s, eng, st, off, sz): return [(st, eng.fresh("next", s.W))]
    def write(s, eng, st, off, sz, old, new, order, kind):
        eng.oblige(st, kind in ("rmw-add", "cas"), "guarantee:one-step-claim", "the claim counter is changed by %s: concurrent claims are lost" % kind); eng.oblige(st, not st.ghost.get("claimed"), "guarantee:claims-once", "numbers are claimed twice and dropped")
        st.ghost["claimed"] = (old, new); return [(st, old)]
def setup(eng, N, then):
    st = eng.start_state(); W = W_[N]; b = eng.alloc(st, const(eng.m, "SZ_cb_" + N), "global", "consumer barrier"); q = eng.alloc(st, const(eng.m, "SZ_q_" + N), "global", "sequencer"); init = eng.fresh("init", W); lp = eng.fresh("lp", W)
    eng.unroll_limit = lambda f: 40
    def a(st, v): eng.run(st, "f_new_" + N, [q, b, init], c)
    def c(st, v): eng.run(st, "f_cbpub_" + N, [b, lp], lambda st, v: then(st, b, q, init, lp))
    eng.run(st, "f_cb_" + N, [b, init], a)
def p_claim(fn, N):
    def go(eng):
        W = W_[N]; eng.covers = ("granted", "waits")
        def then(st, b, q, init, lp):
            share(eng, st, q, Claim(W)); f = eng.alloc(st, 8, "global", "front"); n = eng.alloc(st, 8, "global", "count"); cnt = eng.fresh("count", 64) if fn == "f_batch_" else 1
            if fn == "f_batch_": eng.assume(st, z3.UGE(cnt, 1))
            def ex(st, r):
                g = st.ghost.get("claimed"); eng.oblige(st, bool(g), "post:claims", "no number is claimed")
                old, new = g; fr = eng.load(st, f, W // 8); k = eng.load(st, n, W // 8)
                eng.oblige(st, z3.And(bv(fr, W) == bv(old, W), bv(fr, W) + bv(k, W) == bv(new, W)), "post:range-is-what-was-claimed", "the numbers handed out are not the ones claimed")
                want = z3.If(z3.ULT(cnt, 4), cnt, z3.BitVecVal(4, 64)) if fn == "f_batch_" else z3.BitVecVal(1, W)
                eng.oblige(st, bv(k, W) == want, "post:count", "not min(requested, ring) numbers")
                d = bv(lp, W) - (bv(new, W) - 1 - 4)          # >= 0 (signed) iff the last slot of the range was released
                for ok, nm in ((True, "granted"), (False, "waits")):
                    c = boolof(r) if ok else z3.Not(boolof(r))
                    if not eng.feasible(st, c): continue
                    t = st.copy(); eng.assume(t, c); eng.reached.add(nm); 
                    try: eng.oblige(t, (d >= 0) if ok else (d < 0), "post:granted-iff-released", "a claim is granted before its slots are released, or waits although they are")
                    except PathEnd: pass
            eng.run(st, fn + N, [q, f, n] + ([cnt] if fn == "f_batch_" else []), ex)
        setup(eng, N, then)
    return go
class Pub(WordProto):
    """the array of published numbers and the waiter list: what publish does, in order"""
    def __init__(s, W, q, arr, nums): s.W = W; s.q = q; s.arr = arr; s.nums = nums
    def atomic(s, eng, st, a, sz, kind, order, *r):
        if a.__class__ is SymPtr:
            e = simp(a.expr()); vals = [e] if e.__class__ is int else eng.all_vals(st, e, "slot")
            if len(vals) > 1: raise NeedSplit(e, vals)
            a = vals[0]
        if kind == "store" and a.__class__ is int and (a >> OBJ_SHIFT) == (s.arr >> OBJ_SHIFT):
            v = r[0]; k = st.ghost.get("stored", 0); i = next((i for i, x in enumerate(s.nums) if eng.valid(st, bv(v, s.W) == x)), None)
            eng.oblige(st, i is not None, "publish:claimed-numbers-only", "another number is published"); i = i or 0; eng.oblige(st, not k >> i & 1, "publish:once", "a number is published twice"); 
            slot = (a - s.arr) // (s.W // 8); eng.oblige(st, (bv(v, s.W) & 3) == slot, "publish:own-slot", "a number is published in another number's slot")
            if i == 0 or k & 1: order_ob(eng, st, order, ("seq_cst",), "a number that can complete the published prefix must be ordered before the look at the waiters")
            st.ghost["stored"] = k | 1 << i
        elif kind in ("load", "rmw") and a.__class__ is int and (a >> OBJ_SHIFT) == (s.q >> OBJ_SHIFT) and st.ghost.get("stored", 0) == (1 << len(s.nums)) - 1 and order == "seq_cst": st.ghost["looked"] = 1
        return None
def p_pub(N, n):
    def go(eng):
        W = W_[N]; eng.covers = ("exit",)
        def then(st, b, q, init, lp):
            first = eng.fresh("first", W); arr = next(o.base for o in st.mem.values() if o.kind == "heap" and not o.dead); P = Pub(W, q, arr, [first + i for i in range(n)]); share(eng, st, q, P); share(eng, st, arr, P)
            def ex(st, r):
                eng.reached.add("exit"); eng.oblige(st, st.ghost.get("stored", 0) == (1 << n) - 1, "post:all-published", "a number of the range is not published")
                eng.oblige(st, bool(st.ghost.get("looked")), "post:waiters-checked", "publish returns without having looked for waiters after the publication: a waiter can sleep for ever")
            if n == 1: eng.run(st, "f_publish_" + N, [q, first], ex)
            else: eng.run(st, "f_publishr_" + N, [q, first, simp(first + n)], ex)
        setup(eng, N, then)
    return go
PROOFS = [Proof("claim_one<%s>" % n, p_claim("f_one_", n), FC) for n in ("u64", "u8")] + [Proof("claim_up_to<u64>", p_claim("f_batch_", "u64"), FC)] + [Proof("publish<%s,%d>" % (n, k), p_pub(n, k), (Q + "::publish",)) for n in ("u64", "u8") for k in (1, 2, 3)]
PROOFS += [client("claims_" + n, ("waits", "granted", "all-granted"), FC, unroll=40) for n in ("u64", "u8")] + [client("publishes%d_%s" % (k, n), ("not-waited", "waited", "woken", "range"), FP, unroll=40) for k, n in ((2, "u64"),(3, "u64"), (3, "u8"))]
NATIVE_VARIANTS = ["own", "std"]
NOTE = ("Lemma clients, exhaustive over choices and symbolic in the initial number (wrap-around included) and the requested counts: three claims of either kind in a row over rings of 1, 2, 4 and 8 slots with arbitrary releases in between (distinct "
    "consecutive numbers, granted exactly when released), publications of 2 and 3 numbers in every order and grouping with waiters registered at every point (resumed exactly once, exactly when the prefix is complete). Every loop is executed to its end. "
    "Interleavings of concurrent producers and the consumer are explored over schedules (bounded). Trusted: clang front end and coroutine lowering, VC generator, z3.")
ASSUMPTIONS = ["ring sizes 1..8, at most 3 claims and 2 waiters in the clients", "batch claims: 64-bit sequence type (claim_up_to does not compile for narrower ones)", "concurrency: bounded (schedules), not proved; the claim counter is changed by fetch_add only (one atomic step)", "a waiter's last known number is not behind what the consumers released (documented use)"]
