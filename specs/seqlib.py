"""Waiter lists of sequence_barrier / sequence_mpsc: one shared word (head of a list of waiters) next to published sequence numbers.
An arbitrary other waiter X and the caller's own waiter A are tracked individually; all further waiters are anonymous list segments.
Sequence numbers are b + k with 0 <= k < 2^(W-2): live numbers are less than a quarter of the range apart (the documented use)."""
from lib import *
class FlagProto(WordProto):
    """wake-up flag of a waiter in a list we own: set by its own await_suspend (then it is suspended) or by the waker (then await_suspend continues it)"""
    def __init__(s, P, a, foff, tr=None): s.P = P; s.a = a; s.f = foff; s.tr = tr
    def havoc(s, eng, st, off, sz):
        if off != s.f: raise Unsupported("unknown atomic in a waiter")
        return [(st.copy(), 0), (st.copy(), 1)]
    def write(s, eng, st, off, sz, old, new, order, kind):
        if kind == "store": eng.fail(st, "guarantee:no-blind-store", "the wake-up flag of a waiter is overwritten")
        eng.oblige(st, new.__class__ is int and new & 1 == 1, "guarantee:flag-set", "the wake-up flag is not set")
        order_ob(eng, st, order, REL, "the published number written into the waiter must be visible to it")
        s.P.woken(eng, st, s.a, s.tr)
        h = eng.res(st, eng.raw_load(eng.obj(st, s.a), s.P.spec.h_off, 8))
        if old == 0:
            if s.tr: st.ghost[s.tr] = "done"
            st.res.pop(("resume", h), None); eng.release(st, s.a, "its wake-up flag was set first (its await_suspend continues it)")
        else: st.res[("woke", s.a)] = 1
        return [(st, old)]
class OwnProto(WordProto):
    """the caller's own waiter A"""
    def __init__(s, P, foff): s.P = P; s.f = foff
    def alive(s, eng, st, a):
        if st.ghost["A"] == "gone": eng.fail(st, "mem:use-after-release", "atomic access to the waiter after it was suspended (it may have been resumed)", "mem")
    def havoc(s, eng, st, off, sz):
        if off != s.f: raise Unsupported("unknown atomic in the waiter")
        g = st.ghost["A"]
        if g == "word": return [(st.copy(), 0), (st.copy(), 1)]
        return [(st, 1 if g == "woken" else 0)]
    def read(s, eng, st, off, sz, val, order, kind): raise Unsupported("wake-up flag only read")
    def write(s, eng, st, off, sz, old, new, order, kind):
        if kind == "store": eng.fail(st, "guarantee:no-blind-store", "the wake-up flag is overwritten")
        eng.oblige(st, new.__class__ is int and new & 1 == 1, "guarantee:flag-set", "the wake-up flag is not set")
        g = st.ghost; A = s.P.A; P = s.P
        if g["A"] == "local":          # waking itself as holder of the list
            order_ob(eng, st, order, REL, "the published number written into the waiter must be visible to it")
            P.woken(eng, st, A, "A"); g["A"] = "woken"
        elif g["A"] == "word":
            if old == 0: g["A"] = "gone"; g["suspended"] = "yes"; st.res.pop(("resume", g["h"]), None)
            else:
                order_ob(eng, st, order, ACQ, "reading the number written by the waker")
                g["A"] = "woken"; P.published(eng, st); v = eng.fresh("told", P.W); o = eng.wobj(st, A)
                P.told_by_other(eng, st, v); o.cells[P.koff] = (P.W // 8, v)
        elif g["A"] == "woken": pass
        elif g["A"] == "new": eng.fail(st, "guarantee:flag-before-enqueue", "the waiter decides to suspend without having been registered")
        else: eng.fail(st, "guarantee:flag-once", "the wake-up flag is set twice by the waiter")
        return [(st, old)]
    def plain_off(s, eng, st, a, off, sz, kind, v):
        g = st.ghost["A"]
        if g == "gone": eng.fail(st, "mem:use-after-release", "%s of the waiter (offset %s) after it was suspended (it may have been resumed)" % (kind, off), "mem")
        if g == "word":
            if kind == "load" and off in (s.P.boff, s.P.toff): return None
            eng.fail(st, "race:waiter", "%s of the waiter (offset %s) while it is in the shared list" % (kind, off), "mem")
        return None
class SeqProto(WordProto):
    def __init__(s, eng, st, base, woff, op, W, role, szop, track):
        m = eng.m; s.base = base; s.w = woff; s.W = W; s.role = role; s.szop = szop; s.track = track
        s.noff = m.field(op, "m_next", r"\*$"); s.hoff = m.field(op, "m_awaitingCoroutine", "coroutine_handle"); s.toff = m.field(op, "m_targetSequence", "SEQUENCE")
        s.koff = m.field(op, "m_lastKnownPublished"); s.foff = m.field(op, "m_readyToResume", "atomic"); s.boff = next(x[1] for x in m.di[op]["m"] if x[2].endswith("&") or "sequence" in x[2] and x[0] != "<base>")
        s.b = z3.BitVec("b", W); s.win = 1 << (W - 2)
        s.spec = WaiterSpec(szop, s.noff, s.hoff); s.spec.extra = s.extra; s.spec.on_resume = s.on_resume; s.spec.name = "waiter"
        s.spec.generic = (s.toff, s.koff); s.spec.generalise = s.generalise
        s.A = None; s.X = None; g = st.ghost
        g["resp"] = ()
    # ---- sequence numbers
    def inwin(s, v): return z3.ULT(z3.simplify(v - s.b), z3.BitVecVal(s.win, s.W))
    def prec(s, x, y):
        d = z3.simplify(bv(x, s.W) - bv(y, s.W)); q = nonneg_diff(d)
        return z3.ULT(*q) if q else d < 0
    def newseq(s, eng, st, n):
        return s.b + z3.ZeroExt(2, eng.fresh(n, s.W - 2))
    # ---- nodes
    def extra(s, eng, st, a):
        o = eng.wobj(st, a); n = s.W // 8
        o.cells[s.toff] = (n, s.newseq(eng, st, "t")); o.cells[s.koff] = (n, s.newseq(eng, st, "k")); o.cells[s.boff] = (8, s.base)
        st.ghost[("proto", a)] = FlagProto(s, a, s.foff)
    def generalise(s, eng, st, a):
        o = eng.wobj(st, a); n = s.W // 8
        for c in (s.toff, s.koff):
            v = eng.raw_load(o, c, n)
            if v is UNDEF or not eng.valid(st, s.inwin(v)): continue
            eng.raw_store(o, c, n, s.newseq(eng, st, "g"))
    def on_resume(s, eng, st, a, h):
        eng.oblige(st, bool(st.res.get(("woke", a))), "resume:only-after-flag", "a waiter is resumed whose await_suspend may still be running (flag not seen set)")
        st.res.pop(("woke", a), None)
        if a == s.X: st.ghost["X"] = "done"
    def mkX(s, eng, st):
        """the tracked waiter becomes ours"""
        if s.X is None or (s.X >> OBJ_SHIFT) not in st.mem:
            if s.X is None: s.X = (1 << 47) + 0x100000; 
            o = Obj(s.X, s.szop, "xnode", "waiterX", st.tok); st.mem[s.X >> OBJ_SHIFT] = o
        else: o = eng.wobj(st, s.X)
        o.dead = None; o.cells.clear()
        def resumed(eng, st, h, a=s.X):
            eng.wobj(st, a).dead = "its coroutine was resumed"; eng.wobj(st, h).dead = "it was resumed"; return s.on_resume(eng, st, a, h)
        h = coro(eng, st, "coroX", resumed); n = s.W // 8
        o.cells[s.hoff] = (8, h); o.cells[s.toff] = (n, s.tX); o.cells[s.koff] = (n, s.newseq(eng, st, "kX")); o.cells[s.boff] = (8, s.base)
        st.ghost[("proto", s.X)] = FlagProto(s, s.X, s.foff, "X"); st.ghost["X"] = "local"
    def takeA(s, eng, st):
        st.ghost["A"] = "local"
    # ---- word
    def take(s, eng, st):
        """the non-empty list becomes ours: every way the tracked waiters may occur in it"""
        out = []; g = st.ghost
        ax = (0, 1) if s.A and g["A"] == "word" else (0,); xs = (0, 1) if s.track and g["X"] in ("unseen", "word") else (0,)
        for ia in ax:
            for ix in xs:
                for order in ((0, 1) if ia and ix else (0,)):
                    t = st.copy()
                    seq = []
                    if ia: s.takeA(eng, t); seq.append(s.A)
                    if ix: s.mkX(eng, t); seq.append(s.X)
                    t.ghost["resp"] = ()
                    if order: seq.reverse()
                    nxt = 0
                    for i, n in enumerate(reversed(seq)):
                        lp = eng.lseg(t, s.spec, nxt); eng.wobj(t, n).cells[s.noff] = (8, lp); nxt = n
                    lp = eng.lseg(t, s.spec, nxt, (), bool(seq)); t.note("takes the list; contains", [("A" if n == s.A else "X") for n in seq] or "others only")
                    out.append((t, lp))
        return out
    def give(s, eng, st, new, old):
        """the list new .. old is handed to the word; returns which tracked waiters are in it"""
        got = []; cur = new; n = 0
        while True:
            cur = eng.res(st, cur); n += 1
            if n > 50: eng.fail(st, "guarantee:list-acyclic", "the enqueued list is cyclic")
            if cur.__class__ is LazyPtr:
                ch = st.chunks.pop(cur.id, None)
                if ch is None: eng.fail(st, "guarantee:list-owned", "a list that is not owned is enqueued")
                eng._given = True
                cur = ch.end; continue
            if cur is UNDEF: eng.fail(st, "guarantee:list-linked", "the last enqueued waiter has no successor set (not linked to the previous head)")
            if cur.__class__ is int and cur >= HEAP_BASE_ and eng.obj(st, cur) is not None and (eng.obj(st, cur).kind in ("node", "xnode") or cur == s.A):
                o = eng.obj(st, cur)
                if o.dead: eng.fail(st, "guarantee:list-owned", "a waiter is enqueued after %s" % o.dead)
                nx = eng.raw_load(o, s.noff, 8)
                if cur == s.A:
                    if st.ghost["A"] not in ("new", "local"): eng.fail(st, "guarantee:enqueue-once", "the waiter is enqueued although it is %s" % st.ghost["A"])
                    h = eng.raw_load(o, s.hoff, 8)
                    eng.oblige(st, h is not UNDEF and h.__class__ is int and h == st.ghost["h"], "guarantee:awaiter-stored", "the waiter is visible before its coroutine handle is stored")
                    st.ghost["A"] = "word"; got.append("A")
                else:
                    h = eng.raw_load(o, s.hoff, 8); st.res.pop(("resume", h), None)
                    if cur == s.X: st.ghost["X"] = "word"; got.append("X")
                    o = eng.wobj(st, cur); o.dead = "it was handed to the shared list"
                    if h.__class__ is int and eng.obj(st, h): eng.wobj(st, h).dead = "its waiter was handed to the shared list"
                cur = nx; continue
            break
        eng.oblige(st, bv(cur, 64) == bv(old, 64), "guarantee:list-linked", "the last enqueued waiter does not link to the previous head: waiters are lost")
        return got
    def target(s, n): return s.tA if n == "A" else s.tX
    def terms(s, eng, st):
        d = {}
        lp = st.ghost.get("lp")
        if lp is None: return d
        if s.track: d["dX"] = bv(s.tX, s.W) - bv(lp, s.W)
        if s.A: d["dA"] = bv(s.tA, s.W) - bv(lp, s.W)
        return d
    def preds(s, eng, st):
        d = {}; lp = st.ghost.get("lp")
        if lp is None: return d
        lp = bv(lp, s.W); d["win"] = s.inwin(lp)
        for n, t in (("X", s.tX if s.track else None), ("A", s.tA if s.A else None)):
            if t is not None: d["prec" + n] = s.prec(lp, t); d["nprec" + n] = z3.Not(s.prec(lp, t))
        return d
class BarrierProto(SeqProto):
    """roles: 'publish' (the only publisher) and 'wait'"""
    def __init__(s, eng, st, base, woff, loff, *a): SeqProto.__init__(s, eng, st, base, woff, *a); s.l = loff
    def published(s, eng, st):
        """the others may have published more"""
        if s.role == "publish": return
        x = s.newseq(eng, st, "lp"); lp = st.ghost["lp"]
        eng.assume(st, z3.Not(s.prec(x, lp))); st.ghost["lp"] = x
    def told_by_other(s, eng, st, v):
        eng.assume(st, s.inwin(v)); eng.assume(st, z3.Not(s.prec(v, s.tA))); eng.assume(st, z3.Not(s.prec(st.ghost["lp"], v)))
    def woken(s, eng, st, a, tr):
        if tr is None: return
        v = eng.raw_load(eng.obj(st, a), s.koff, s.W // 8); t = s.target(tr)
        eng.oblige(st, v is not UNDEF and eng.valid(st, z3.Not(s.prec(v, t))), "wake:not-before-published", "a waiter is woken with a number before the one it waits for")
        eng.oblige(st, z3.Not(s.prec(st.ghost["lp"], v)), "wake:told-published-number", "a waiter is told a number that was never published")
    def havoc(s, eng, st, off, sz):
        if off == s.w: return [(st, eng.fresh("word", 64))]
        if off == s.l:
            s.published(eng, st); return [(st, st.ghost["lp"])]
        raise Unsupported("unknown atomic of the barrier")
    def read(s, eng, st, off, sz, val, order, kind):
        g = st.ghost
        if off == s.l:
            g["lporder"] = order; g["lpread"] = g["lp"]
            if s.role == "wait" and g["resp"] and order == "seq_cst":
                left = []; out = [(st, ())]
                for n in g["resp"]:
                    nx = []
                    for t, l in out:
                        c = s.prec(t.ghost["lp"], s.target(n))
                        for b in (1, 0):
                            cc = c if b else z3.Not(c)
                            if eng.feasible(t, cc):
                                u = t.copy(); eng.assume(u, cc); nx.append((u, l if b else l + (n,)))
                    out = nx
                for t, l in out: t.ghost["resp"] = l
                return [(t, val) for t, l in out]
            return [(st, val)]
        if s.role == "publish" and kind == "load" and g["pending"] and order == "seq_cst" and g["scstore"]:
            out = []
            for b, c in ((1, bv(val, 64) == 0), (0, bv(val, 64) != 0)):
                if eng.feasible(st, c):
                    t = st.copy(); eng.assume(t, c); t.ghost["pending"] = 0 if b else 2; out.append((t, val))
            return out
        return [(st, val)]
    def write(s, eng, st, off, sz, old, new, order, kind):
        g = st.ghost; new = eng.res(st, new)
        if off == s.l:
            eng.oblige(st, s.role == "publish" and kind == "store", "guarantee:only-publish-stores", "the published number is changed by a waiter")
            eng.oblige(st, bv(new, s.W) == bv(g["seq"], s.W), "guarantee:publishes-the-number", "another number is published")
            order_ob(eng, st, order, REL, "publishing the data"); g["scstore"] = int(order == "seq_cst"); g["lp"] = new; g["pending"] = 1
            return [(st, old)]
        eng.oblige(st, kind != "store", "guarantee:no-blind-store", "the waiter list is overwritten: concurrently registered waiters are lost")
        if new.__class__ is int and new == 0:
            out = []
            e = st.copy()
            sc = g.get("scstore") and order == "seq_cst"
            if eng.feasible(e, bv(old, 64) == 0):
                eng.assume(e, bv(old, 64) == 0)
                if s.role == "publish" and (g["pending"] == 2 or sc): e.ghost["pending"] = 0
                e.ghost["resp"] = ()
                if s.track and e.ghost["X"] == "word": pass
                out.append((e, 0))
            t = st.copy()
            try:
                eng.assume(t, bv(old, 64) != 0)
                if not eng.feasible(t): raise PathEnd()
                order_ob(eng, t, order, ACQ, "taking over the waiter list")
                if s.role == "publish" and (g["pending"] == 2 or sc): t.ghost["pending"] = 0
                out += s.take(eng, t)
            except PathEnd: pass
            return out
        order_ob(eng, st, order, REL, "handing waiters to the shared list")
        got = s.give(eng, st, new, old)
        for n in got:
            if s.role == "publish":
                eng.oblige(st, s.prec(g["lp"], s.target(n)), "guarantee:requeue-only-unsatisfied", "a waiter whose number is already published is put back to sleep")
            else:
                order_ob(eng, st, order, ("seq_cst",), "registration must be ordered before the re-check of the published number (store/load race with publish)")
                g["resp"] = tuple(sorted(set(g["resp"]) | {n}))
        return [(st, old)]
HEAP_BASE_ = 1 << 40
