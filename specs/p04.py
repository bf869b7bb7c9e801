"""P04  when_all_ready.  The count word holds one unit per child plus one for the awaiting coroutine.  A unit keeps the group alive
for its holder; whoever takes the count from 1 to 0 acquires what everyone released and continues the awaiter: a child by resuming
it, the awaiter by not suspending.  Before it gives up its own unit the awaiter stores its continuation and starts every child."""
from lib import *
from harness import Proof
import vp
SRCS = ["p04.cpp"]
B = "macoro::detail::when_all_ready_awaitable_base"
class Proto(WordProto):
    def __init__(s, a, coff, con, role, h): s.a = a; s.c = coff; s.con = con; s.role = role; s.h = h
    def havoc(s, eng, st, off, sz):
        if off != s.c: raise Unsupported("second atomic in the group")
        if st.ghost.get("excl"): return [(st, st.ghost["word"])]
        x = eng.fresh("count", 64); g = st.ghost
        eng.assume(st, z3.ULT(x, z3.BitVecVal(1 << 60, 64))); eng.assume(st, z3.UGE(x, bv(g["units"], 64)) if g["units"].__class__ is int else z3.UGE(x, g["units"]))
        return [(st, x)]
    def write(s, eng, st, off, sz, old, new, order, kind):
        g = st.ghost
        if not kind.startswith("rmw") and kind != "cas": eng.fail(st, "guarantee:no-blind-store", "the shared count is overwritten, losing concurrent updates")
        o = bv(old, 64); d = simp(bv(eng.res(st, new), 64) - o)
        eng.oblige(st, d == (1 << 64) - 1, "guarantee:count-exact", "the count does not go down by one")
        eng.oblige(st, not g.get("released"), "guarantee:own-unit", "a second unit of the count is given up")
        order_ob(eng, st, order, REL, "everything done so far must be visible to the awaiter")
        if s.role == "awaiter":
            c = eng.raw_load(eng.obj(st, s.a), s.con, 8)
            eng.oblige(st, c is not UNDEF and eng.valid(st, bv(c, 64) == s.h), "guarantee:continuation-stored", "the awaiter gives up its unit before its continuation is stored")
            if "n" in g: eng.oblige(st, eng.valid(st, bv(g["started"], 64) == g["n"]), "guarantee:all-started", "the awaiter may continue before every child was started")
        g["released"] = 1; g["units"] = 0; out = []
        t = st.copy()
        if eng.feasible(t, o == 1):
            eng.assume(t, o == 1); order_ob(eng, t, order, ACQ, "the last one continues the awaiter, which reads every child's result")
            t.ghost["excl"] = 1; t.ghost["word"] = 0; t.ghost["last"] = 1
            if s.role == "child": eng.wobj(t, s.a).cells[s.con] = (8, s.h); t.res[("resume", s.h)] = 1
            t.note("took the count to zero"); out.append((t, old))
        if eng.feasible(st, o != 1):
            eng.assume(st, o != 1); st.ghost["gone"] = "it gave up its unit of the count (the awaiter may have continued and destroyed the group)"
            if s.role == "awaiter": st.res.pop(("resume", s.h), None)
            st.ghost["last"] = 0; out.append((st, old))
        return out
    def alive(s, eng, st, a):
        if st.ghost.get("gone"): eng.fail(st, "mem:use-after-release", "atomic access to the group after %s" % st.ghost["gone"], "mem")
    def plain_off(s, eng, st, a, off, sz, kind, v):
        g = st.ghost
        if g.get("gone"): eng.fail(st, "mem:use-after-release", "%s of the group after %s" % (kind, g["gone"]), "mem")
        if off is None: return None
        if off < s.con + 8 and s.con < off + sz and s.role == "child" and not g.get("excl"): eng.fail(st, "race:continuation", "%s of the continuation without owning it" % kind, "mem")
        if s.role == "awaiter" and kind == "store" and off < s.con + 8 and s.con < off + sz and g.get("anystarted", 0) and not g.get("excl") and False: pass
        return None
def mk(eng, role, size, units=1):
    m = eng.m; st = eng.start_state()
    coff = m.field(B, "m_count", "atomic"); con = m.field(B, "m_awaitingCoroutine", "coroutine_handle")
    a = eng.alloc(st, size, "global", "group"); st.ghost["units"] = units
    def onres(eng, st, h): st.ghost["gone"] = "the awaiter was resumed (it may have destroyed the group)"; st.ghost["excl"] = 0
    h = coro(eng, st, "awaiter", onres, perm=(role == "awaiter"))
    if role == "awaiter": eng.wobj(st, a).cells[con] = (8, 0)
    for off in range(0, m.field(B, "m_count", "atomic"), 8): eng.wobj(st, a).cells.setdefault(off, (8, 0))
    share(eng, st, a, Proto(a, coff, con, role, h))
    return st, a, h, coff, con
def end_awaiter(eng, a, h, covers=("suspended", "continues")):
    eng.covers = covers
    def ex(st, v):
        g = st.ghost
        eng.oblige(st, bool(g.get("released")), "post:unit-released", "the awaiter keeps its unit of the count: it is never resumed")
        if g.get("last"):
            eng.reached.add("continues"); eng.oblige(st, z3.Not(boolof(v)), "post:continues", "the awaiter suspends although every child had finished: lost wake-up"); st.res.pop(("resume", h), None)
        else:
            eng.reached.add("suspended"); eng.oblige(st, boolof(v), "post:stays-suspended", "the awaiter continues although a child is still running")
        eng.oblige(st, str(g.get("resumed", 0)) == "0" or "n" in g, "post:nobody-else", "something is resumed")
        no_leaks(eng, st)
    return ex
def p_base_try(eng):
    st, a, h, coff, con = mk(eng, "awaiter", const(eng.m, "SZ_base")); eng.run(st, "f_base_try", [a, h], end_awaiter(eng, a, h))
def childx(eng):
    eng.covers = ("last", "other")
    def ex(st, v):
        g = st.ghost; eng.reached.add("last" if g.get("last") else "other")
        eng.oblige(st, bool(g.get("released")), "post:unit-released", "a finished child keeps its unit of the count: the awaiter is never resumed")
        eng.oblige(st, (str(g.get("resumed", 0)) == "1") == bool(g.get("last")), "post:last-resumes-awaiter", "the last child does not resume the awaiter, or another one does")
        no_leaks(eng, st)
    return ex
def p_notify(eng):
    st, a, h, coff, con = mk(eng, "child", const(eng.m, "SZ_base")); eng.run(st, "f_notify", [a], childx(eng))
def p_final(fn, t, std):
    def go(eng):
        st, a, h, coff, con = mk(eng, "child", const(eng.m, "SZ_base")); m = eng.m; po = 16 if std else const(m, "FP_" + t)
        f = coro(eng, st, "child frame", perm=False, size=po + const(m, "SZ_p_" + t)); PR = "macoro::detail::when_all_task_promise<%s>" % ("void" if t == "u" else "d::Val")
        eng.wobj(st, f).cells[po + m.field(PR, "m_awaitable")] = (8, a)
        eng.run(st, fn, [f if std else f | 1], childx(eng))
    return go
def vec_parts(eng, st, t, a, n):
    """m_tasks = a vector of n arbitrary, not yet started children (native or macro-written)"""
    m = eng.m; off = const(m, "OFF_tasks_" + t); PR = "macoro::detail::when_all_task_promise<%s>" % ("void" if t == "u" else "d::Val")
    arr = eng.alloc(st, 1 << 40, "heap", "children"); o = eng.wobj(st, arr); o.kind = "global"
    def elem(eng, st, o, idx, fo, v, sz):
        if v is not None: eng.fail(st, "guarantee:children-fixed", "the stored children are overwritten while they run")
        cur = st.ghost.get("cur")
        if cur is not None and eng.valid(st, bv(cur[0], 64) == bv(idx, 64)): return cur[1]
        if "pick" not in st.ghost: raise NeedChoice()
        return child(eng, st, idx)
    def child(eng, st, idx):
        std = st.ghost["kind"]; po = 16 if std else const(m, "FP_" + t)
        def onres(eng, st, h, idx=idx):
            g = st.ghost; c = st.mem[h >> vp.OBJ_SHIFT]
            aw = c.cells.get(po + m.field(PR, "m_awaitable"))
            eng.oblige(st, aw is not None and eng.valid(st, bv(aw[1], 64) == a), "guarantee:child-knows-group", "a child is started without knowing the group it belongs to")
            eng.oblige(st, bv(g["started"], 64) == bv(idx, 64), "guarantee:started-in-turn", "a child is started twice or left out")
            g["started"] = simp(bv(g["started"], 64) + 1); g.pop("cur", None)
            eng.wobj(st, h).dead = "it was started (it runs on its own)"
        f = (coro if std else mcoro)(eng, st, "child", onres, size=po + const(m, "SZ_p_" + t))
        eng.wobj(st, f).cells[po + m.field(PR, "m_type")] = (4, 0 if std else 1)
        st.ghost["cur"] = (idx, f if std else f | 1)
        return st.ghost["cur"][1]
    o.arr = {"es": 8, "n": n, ("f", 0): (8, None), "elem": elem}
    w = eng.wobj(st, a).cells
    w[off] = (8, arr); w[off + 8] = (8, vp.SymPtr(arr, 0, ((n, 8),))); w[off + 16] = (8, vp.SymPtr(arr, 0, ((n, 8),)))
    return arr
def symn(eng, st):
    n = eng.fresh("n", 64); eng.assume(st, z3.ULT(n, z3.BitVecVal(1 << 36, 64))); return n
def p_try(fn, t, std, which="SZ_aw_"):
    def go(eng):
        st, a, h, coff, con = mk(eng, "awaiter", const(eng.m, "SZ_aw_" + t)); n = symn(eng, st)
        st.ghost.update(n=n, started=0, kind=std, pick=1); vec_parts(eng, st, t, a, n)
        eng.cand_terms = lambda eng, st: {"n": n}
        eng.run(st, fn, [a, h], end_awaiter(eng, a, h))
    return go
def p_ctor(fn):
    def go(eng):
        m = eng.m; st = eng.start_state(); a = eng.alloc(st, const(m, "SZ_aw_v"), "global", "group"); b = eng.alloc(st, const(m, "SZ_aw_v"), "global", "source"); n = symn(eng, st); eng.covers = ("exit",)
        coff = m.field(B, "m_count", "atomic"); con = m.field(B, "m_awaitingCoroutine", "coroutine_handle"); off = const(m, "OFF_tasks_v"); so = off if fn == "f_mctor_v" else 0
        arr = eng.alloc(st, 1 << 40, "global", "children"); w = eng.wobj(st, b).cells
        for i in range(3): w[so + 8 * i] = (8, arr if not i else vp.SymPtr(arr, 0, ((n, 8),)))
        def ex(st, v):
            eng.reached.add("exit"); c = eng.load(st, a + coff, 8)
            eng.oblige(st, c is not UNDEF and eng.valid(st, bv(c, 64) == n + 1), "post:initial-count", "a new group does not count one unit per child and one for its awaiter")
            k = eng.load(st, a + con, 8); eng.oblige(st, k is not UNDEF and eng.valid(st, bv(k, 64) == 0), "post:not-awaited", "a new group looks awaited")
            for i, e in ((0, z3.BitVecVal(arr, 64)), (1, arr + 8 * n)):
                x = eng.load(st, a + off + 8 * i, 8); eng.oblige(st, eng.valid(st, bv(x, 64) == e), "post:children-moved", "the group does not own the children it was given")
        eng.run(st, fn, [a, b], ex)
    return go
def p_ready(eng):
    st, a, h, coff, con = mk(eng, "awaiter", const(eng.m, "SZ_base")); eng.covers = ("exit",)
    def ex(st, v): eng.reached.add("exit"); eng.oblige(st, z3.Not(boolof(v)), "post:not-ready-before-await", "a group that was not awaited yet answers ready")
    eng.run(st, "f_base_ready", [a], ex)
G = "macoro::detail::when_all_ready_awaitable<std::vector>"; T = "macoro::detail::when_all_task_promise<T>"
PROOFS = [Proof("base.try_await", p_base_try, (B + "::try_await",)), Proof("base.notify_awaitable_completed", p_notify, (B + "::notify_awaitable_completed",)), Proof("base.is_ready", p_ready, (B + "::is_ready",)),
    Proof("ctor(n children)", p_ctor("f_ctor_v"), (G + "::when_all_ready_awaitable", B + "::when_all_ready_awaitable_base")), Proof("move ctor(n children)", p_ctor("f_mctor_v"), (G + "::when_all_ready_awaitable(&&)",))]
for fn, t, std in (("f_final_v", "v", True), ("f_final_v", "v", False), ("f_final_vs", "v", True), ("f_final_u", "u", True), ("f_final_u", "u", False), ("f_final_us", "u", True)):
    PROOFS.append(Proof("child.final_suspend %s%s" % (fn[8:], "(std frame)" if std else "(macoro frame)"), p_final(fn, t, std), (T + "::final_suspend",)))
for fn, t in (("f_try_v", "v"), ("f_try_u", "u"), ("f_lsusp_m", "v"), ("f_lsusp_s", "v"), ("f_rsusp_m", "v"), ("f_rsusp_s", "v")):
    for std in (True, False):
        if fn[2] != "t" and not std: continue
        PROOFS.append(Proof("start n children: %s%s" % (fn[2:], "" if std else " (macoro frames)"), p_try(fn, t, std), (G + "::try_await", T + "::start", G + "::lval_awaiter/rval_awaiter::await_suspend")))
F = ("macoro::when_all_ready", "macoro::detail::make_when_all_task", T + "::yield_value/unhandled_exception/result", "macoro::detail::when_all_ready_awaitable<std::tuple>::try_await/start_tasks")
PROOFS += [client(n, c, F) for n, c in (("all_vals", ("lvalue-results", "rvalue-results")), ("all_lval", ("again",)), ("all_byref", ("refs",)), ("all_raw", ("raw",)), ("all_empty", ("empty",)), ("all_macro", ("macro",)), ("all_vec", ("vec",)))]
NOTE = ("Counted-unit contract on the group's count word (memory orders included), with the start loop of a vector group proved for every number of children by an inferred loop invariant (children started so far = position), plus lemma clients for tuple groups: values, references, void, exceptions in every combination, both completion orders, ready and suspended children, re-await. "
    "Trusted: clang front end and coroutine lowering, VC generator, z3; children are opaque to the kernel proofs.")
ASSUMPTIONS = ["fewer than 2^36 children", "one awaiter at a time", "payload types d::Val, int&, void stand for all T", "tuple groups of more than two children are covered by the same code through the pack expansion (two checked)"]
