"""P03  eager task.  One state word per task: bit 0 = an awaiter has registered, bit 1 = the body has completed.
Before setting bit 1 the running side owns the promise (result); before setting bit 0 the awaiting side owns the continuation
field.  Whoever comes second acquires what the other released and must continue the awaiter; whoever comes first loses every
right to the frame (completing side) or to the awaiter and itself (awaiting side)."""
from lib import *
from harness import Proof
SRCS = ["p03.cpp"]
PB = "macoro::detail::task_promise_base<false>"
class Proto(WordProto):
    def __init__(s, f, woff, con, role, w, aw): s.f = f; s.w = woff; s.con = con; s.role = role; s.wt = w; s.aw = aw
    def havoc(s, eng, st, off, sz):
        if off != s.w: raise Unsupported("second atomic in the promise")
        g = st.ghost
        if g.get("excl"): return [(st, g["word"])]
        out = []
        for x in ((0, 1) if s.role == "complete" else (0, 2)):
            if s.role == "await" and x == 0 and g.get("sawdone"): continue
            t = st.copy() ; t.note("the other side has %s" % ("acted" if x else "not acted yet")); out.append((t, x))
        return out
    def read(s, eng, st, off, sz, val, order, kind):
        if val == 2: st.ghost["sawdone"] = 1; st.ghost["acq"] = st.ghost.get("acq") or order in ACQ
        if val == 1: st.ghost["sawcont"] = 1
        return [(st, val)]
    def write(s, eng, st, off, sz, old, new, order, kind):
        new = eng.res(st, new); g = st.ghost
        if kind == "store": eng.fail(st, "guarantee:no-blind-store", "the state word is overwritten: a concurrent update of the other side is lost")
        mine = 2 if s.role == "complete" else 1
        eng.oblige(st, new.__class__ is int and new == old | mine, "guarantee:transition", "the state word goes from %s to %s, expected %s" % (old, new, old | mine))
        eng.oblige(st, not g.get("done"), "guarantee:once", "the same side acts twice")
        g["done"] = 1
        order_ob(eng, st, order, REL, "the result (or the continuation) must be visible to the other side")
        if s.role == "complete":
            if old == 1:
                order_ob(eng, st, order, ACQ, "the continuation stored by the awaiter is used")
                g["excl"] = 1; g["word"] = 3; eng.wobj(st, s.f).cells[s.con] = (8, s.wt); st.res[("resume", s.wt)] = 1; g["second"] = 1
            else:
                g["gone"] = "the body completed without a registered awaiter (the task may be destroyed at once)"; g["first"] = 1
        else:
            c = eng.raw_load(eng.obj(st, s.f), s.con, 8)
            eng.oblige(st, c is not UNDEF and eng.valid(st, bv(c, 64) == s.wt), "guarantee:continuation-stored", "the awaiter registers before its continuation is stored")
            if old == 2:
                order_ob(eng, st, order, ACQ, "the awaiter continues and reads the result"); g["excl"] = 1; g["word"] = 3; g["second"] = 1
            else:
                st.res.pop(("resume", s.wt), None); g["first"] = 1
                g["gone"] = "the awaiter registered (it may have been resumed and the task destroyed)"
                eng.release(st, s.aw, g["gone"])
        return [(st, old)]
    def alive(s, eng, st, a):
        if st.ghost.get("gone"): eng.fail(st, "mem:use-after-release", "atomic access to the promise after %s" % st.ghost["gone"], "mem")
    def plain_off(s, eng, st, a, off, sz, kind, v):
        g = st.ghost
        if g.get("gone"): eng.fail(st, "mem:use-after-release", "%s of the task frame after %s" % (kind, g["gone"]), "mem")
        if off is None: return None
        oncon = off < s.con + 8 and s.con < off + sz
        if g.get("excl") or (s.role == "await" and oncon and not g.get("done")): return None
        if oncon: eng.fail(st, "race:continuation", "%s of the continuation field without owning it" % kind, "mem")
        if s.role == "await" and not g.get("sawdone"): eng.fail(st, "race:frame", "%s of the running task's frame (offset %d) before its completion was observed" % (kind, off), "mem")
        return None
def mk(eng, role, std):
    m = eng.m; st = eng.start_state(); sz = const(m, "SZ_frame") + 64
    F = coro(eng, st, "task frame", perm=False, size=sz)
    woff = m.field(PB, "m_state", "atomic"); con = m.field(PB, "m_continuation", "coroutine_handle")
    po = 16 if std else m.field("macoro::FrameBase<macoro::detail::task_promise<int, false> >", "promise", "task_promise")
    po_base = po
    def resumed(eng, st, h): st.ghost["gone"] = "the awaiter was resumed (it may have destroyed the task)"
    w = coro(eng, st, "waiter", resumed, perm=(role == "await"))
    aw = eng.alloc(st, const(m, "SZ_aw"), "global", "awaitable")
    box = []
    def got(st2, v): box.append((st2, v))
    o = eng.wobj(st, F)
    eng.run(st, "f_ctor", [F + po], lambda st2, v: eng.run(st2, "f_handle", [F + po, int(std)], got))
    st, h = box[0]
    o = eng.wobj(st, F)
    for c in [c for c in o.cells if po <= c < po + const(m, "SZ_pr") and c != po + woff and c != po + con]: pass
    if role != "await": o.cells.pop(po + con, None)
    eng.wobj(st, aw).cells[0] = (8, h)
    P = Proto(F, po + woff, po + con, role, w, aw); share(eng, st, F, P)
    return st, F, po, h, w, aw
def p_final(fn, std):
    def go(eng):
        eng.covers = ("first", "second"); st, F, po, h, w, aw = mk(eng, "complete", std)
        def ex(st, v):
            g = st.ghost; eng.oblige(st, bool(g.get("done")), "post:completion-published", "the body's completion is never published: the awaiter waits forever")
            eng.reached.add("second" if g.get("second") else "first")
            eng.oblige(st, not g.get("second") or str(g.get("resumed", 0)) == "1", "post:second-resumes-awaiter", "the registered awaiter is not resumed")
            eng.oblige(st, bool(g.get("second")) or not g.get("resumed"), "post:first-resumes-nobody", "something is resumed although nobody registered")
            no_leaks(eng, st)
        eng.run(st, fn, [h], ex)
    return go
def p_susp(fn, std):
    def go(eng):
        eng.covers = ("first", "second"); st, F, po, h, w, aw = mk(eng, "await", std)
        def ex(st, v):
            g = st.ghost; eng.oblige(st, bool(g.get("done")), "post:registered", "the awaiter neither registers nor continues")
            eng.reached.add("second" if g.get("second") else "first")
            eng.oblige(st, (str(g.get("resumed", 0)) == "1") == bool(g.get("second")), "post:continue-iff-completed", "the awaiter continues exactly when the body had completed")
            no_leaks(eng, st)
        eng.run(st, fn, [aw, w], ex)
    return go
def p_ready(fn, std):
    def go(eng):
        eng.covers = ("ready", "not-ready"); st, F, po, h, w, aw = mk(eng, "await", std); st.res.pop(("resume", w), None)
        def ex(st, v):
            g = st.ghost
            for b, c in ((1, boolof(v)), (0, z3.Not(boolof(v)))):
                if not eng.feasible(st, c): continue
                t = st.copy(); eng.assume(t, c); eng.reached.add("ready" if b else "not-ready")
                if b: eng.oblige(t, bool(g.get("sawdone")), "post:ready-only-when-completed", "answers ready although the completion was not observed"); eng.oblige(t, bool(g.get("acq")), "order:ready-acquires", "answers ready without acquiring the result")
            eng.oblige(st, not g.get("done"), "post:query-only", "a query changes the state")
        eng.run(st, fn, [aw], ex)
    return go
def p_empty(eng):
    eng.covers = ("exit",); st = eng.start_state(); aw = eng.alloc(st, const(eng.m, "SZ_aw"), "global", "awaitable"); eng.wobj(st, aw).cells[0] = (8, 0)
    def ex(st, v): eng.reached.add("exit"); eng.oblige(st, boolof(v), "post:empty-is-ready", "awaiting an empty task suspends")
    eng.run(st, "f_ready", [aw], ex)
def p_finalready(eng):
    eng.covers = ("exit",); st, F, po, h, w, aw = mk(eng, "complete", True)
    def ex(st, v): eng.reached.add("exit"); eng.oblige(st, z3.Not(boolof(v)), "post:suspends-at-end", "the body does not suspend at its end: the frame would be released while it is awaited")
    eng.run(st, "f_final_ready", [h], ex)
FA = PB + "::final_awaitable"; AB = "macoro::detail::task_awaitable_base<T,false>"
VT = ("value", "threw")
F = ("macoro::task<T,false>::task/~task/operator=/operator co_await/is_ready", "macoro::detail::task_promise<T,false>::return_value/unhandled_exception/result")
PROOFS = [Proof("final(std handle)", p_final("f_final_s", True), (FA + "::await_suspend",)), Proof("final(std handle, macoro entry)", p_final("f_final_m", True), (FA + "::await_suspend",)), Proof("final(macoro handle)", p_final("f_final_m", False), (FA + "::await_suspend",)), Proof("final.await_ready", p_finalready, (FA + "::await_ready",)),
    Proof("await_suspend(macoro)", p_susp("f_susp_m", True), (AB + "::await_suspend", PB + "::try_set_continuation")), Proof("await_suspend(std)", p_susp("f_susp_s", True), (AB + "::await_suspend(std)", PB + "::try_set_continuation")), Proof("await_suspend(macoro frame)", p_susp("f_susp_m", False), (AB + "::await_suspend", PB + "::try_set_continuation")),
    Proof("await_ready", p_ready("f_ready", True), (AB + "::await_ready",)), Proof("await_ready(macoro frame)", p_ready("f_ready", False), (AB + "::await_ready",)), Proof("await_ready(empty)", p_empty, (AB + "::await_ready",)), Proof("is_ready", p_ready("f_is_ready", True), ("macoro::task<T,false>::is_ready",))] + \
    [client(n, c, F) for n, c in (("eager_val", VT + ("dropped", "finished-first", "awaited-first")), ("eager_ref", VT), ("eager_void", VT), ("meager_val", VT), ("meager_void", VT), ("eager_ready", ("ready",)), ("eager_made", ("made",)), ("eager_assign", ("assigned",)))]
NOTE = ("Two-party rendezvous contract on the task's state word, proved for both final-suspend forms, both await_suspend forms, await_ready and is_ready under every interference of the other side (memory orders included); plus lemma clients for values, references, exceptions, lifetime, re-await and make_eager on native and macro-written bodies. "
    "Trusted: clang front end and coroutine lowering, VC generator, z3; coroutine bodies are opaque to the kernel proofs.")
ASSUMPTIONS = ["one awaiter at a time (asserted by the library)", "payload types d::Val, int, int&, void stand for all T"]
