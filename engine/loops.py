"""Loop invariants: inferred by joining the states that reach a loop head (shape abstraction of owned
lists + Houdini-style candidate facts), then checked inductive; the accepted invariant covers every iteration."""
import z3
from ir import UNDEF, OBJ_SHIFT, GLOBAL_BASE, HEAP_BASE
from vp import *
import vp as V

MAXROUND = 60
import os
DEBUGL = os.environ.get("VP_LOOPS")

def loop_head(eng, st, stopper):
    f = st.frames[-1]; h = f.b
    body = f.fn.loops[h]
    if f.prev not in body or h not in f.heads:
        f.heads[h] = (0, st.act)
        if eng.eager_loops and eng.eager_loops(f.fn): return fixpoint(eng, st, stopper)      # the invariant is searched from the first arrival on
        return None
    cnt, act0 = f.heads[h]
    if st.act == act0:
        f.heads[h] = (cnt, st.act); return None      # nothing symbolic happened: plain unrolling
    un = eng.unroll_limit(f.fn) if eng.unroll_limit else None
    if un is not None:
        if cnt + 1 > un: raise Unsupported("unroll limit in " + f.fn.d)
        f.heads[h] = (cnt + 1, st.act); return None
    return fixpoint(eng, st, stopper)

class Inv:
    __slots__ = ("st", "gen", "stable", "ptr")
    def __init__(s, st): s.st = st; s.gen = {}; s.stable = False; s.ptr = {}

class Stop:
    """states arriving at one of these loop heads are taken out of the exploration (inner loops first)"""
    def __init__(s, stops): s.stops = stops
    def __call__(s, st):
        for uid, h, arrive, back in s.stops:
            if arrive(st): back.append(st); return True
        return False

def fixpoint(eng, st, stopper):
    f = st.frames[-1]; h = f.b; uid = f.uid; depth = len(st.frames)
    label = lab0 = "%s loop@line %s" % (f.fn.d, f.fn.blocks[h][-1].x.get("ln"))
    invs = {}
    stops = [t for t in (stopper.stops if stopper is not None else []) if not (t[0] == uid and t[1] in f.fn.loops[h] and t[1] != h)]
    def arrive(s2):
        return len(s2.frames) == depth and s2.frames[-1].uid == uid and s2.frames[-1].b == h and s2.frames[-1].prev in s2.frames[-1].fn.loops[h]
    def strip(s2):
        fr = s2.frames[-1]; s2.act += 1
        fr.heads = {k: v for k, v in fr.heads.items() if k != h and k != "pend" and h in fr.fn.loops.get(k, ())}      # enclosing loops stay known
        fr.heads[h] = (0, s2.act)
    canon(eng, st); strip(st)
    invs[signature(eng, st)] = Inv(st)
    eng.quiet += 1
    scope0 = eng.loop_scope; eng.loop_scope = (uid, f.fn.loops[h])      # while searching: paths that leave the loop are not followed
    try:
        for rnd in range(MAXROUND):
            todo = [k for k in invs if not invs[k].stable]
            if not todo: break
            if DEBUGL: print("  "*eng.quiet, "round", rnd, label[-60:], "states", len(invs), "todo", len(todo), flush=True)
            for k in todo:
                inv = invs[k]; inv.stable = True
                back = []
                stp = Stop([(uid, h, arrive, back)] + stops)
                eng.explore([inv.st.copy()], stp)
                for B in back:
                    try: canon(eng, B)
                    except PathEnd: continue
                    strip(B)
                    sg = signature(eng, B)
                    if sg not in invs: invs[sg] = Inv(B); inv.stable = False; continue
                    I2 = invs[sg]
                    if join(eng, I2, B): I2.stable = False
        else:
            raise Unsupported("no inductive invariant found for " + label)
    finally:
        eng.quiet -= 1; eng.loop_scope = scope0
    if not eng.quiet: eng.loops_inferred.append((label, len(invs), rnd + 1))
    # final pass: the invariant is inductive, and everything after the loop is verified from it
    for k, inv in list(invs.items()):
        back = []
        stp = Stop([(uid, h, arrive, back)] + stops)
        s0 = inv.st.copy()
        s0.note("loop %s: arbitrary iteration" % label)
        eng.explore([s0], stp)
        for B in back:
            try:
                canon(eng, B); strip(B); sg = signature(eng, B)
                ok = sg in invs and not join(eng, invs[sg], B, dry=True)
                if not ok and DEBUGL and not eng.quiet: pass
                eng.oblige(B, ok, "loop-invariant-inductive", "inferred invariant of %s not preserved" % label, "loop")
            except PathEnd: pass
    return []

# ---------------------------------------------------------------------------------- canonical form
def is_addr(v): return v.__class__ is int and v >= GLOBAL_BASE

def live_regs(f, top):
    if top: return f.fn.live[f.b]
    return f.regs.keys()

def canon(eng, st):
    f = st.frames[-1]
    eng.m.analyse(f.fn)
    lv = f.fn.live[f.b]
    f.regs = {k: v for k, v in f.regs.items() if k in lv or k < f.fn.nargs and k in lv}
    R = lambda v: eng.res(st, v) if v.__class__ is LazyPtr else (tuple(R(e) for e in v) if v.__class__ is tuple else v)
    for fr in st.frames:
        for k, v in fr.regs.items():
            if v.__class__ is LazyPtr or v.__class__ is tuple: fr.regs[k] = R(v)
    # drop dead objects
    for k in [k for k, o in st.mem.items() if o.dead and (o.kind in ("node", "coro", "stack", "heap", "exc"))]:
        o = st.mem.pop(k)
        for fr in st.frames:
            if o.base in fr.objs: fr.objs.remove(o.base)
    for k, o in list(st.mem.items()):
        for c, (z, v) in list(o.cells.items()):
            if v.__class__ is LazyPtr:
                r = R(v)
                if r is not v:
                    o = eng.wobj(st, o.base); o.cells[c] = (z, r)
    for k, v in list(st.ghost.items()):
        if v.__class__ is LazyPtr or v.__class__ is tuple: st.ghost[k] = R(v)
    st.bind = {}
    drop_stale(eng, st)
    fold(eng, st)
    for o in list(st.mem.values()):
        if o.kind == "node" and not o.dead and o.info.generic: o.info.generalise(eng, st, o.base)
    if eng.ephemeral and st.pc:
        live = set()
        def see(v):
            if v.__class__ is tuple:
                for e in v: see(e)
            elif isinstance(v, z3.ExprRef): live.update(syms(v))
        for fr in st.frames:
            for v in fr.regs.values(): see(v)
        for o in st.mem.values():
            for c, (z, v) in o.cells.items(): see(v)
        for v in st.ghost.values(): see(v)
        st.pc = tuple(c for c in st.pc if not any(n.startswith(eng.ephemeral) and n not in live for n in syms(c)))

_symc = {}
def syms(e):
    r = _symc.get(e.get_id())
    if r is not None: return r[0]
    out = set(); seen = set(); todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        else: todo += x.children()
    _symc[e.get_id()] = (out, e); return out
def drop_stale(eng, st):
    """a link field whose address is held elsewhere (tail pointer of a list under construction) is about to be overwritten: when what
    it points to is also reachable otherwise, its value is forgotten (a later read of it would be an uninitialised read: sound)"""
    nexts = {}
    for o in st.mem.values():
        if o.dead: continue
        sp = o.info if o.kind == "node" else getattr(eng, "xnodes", {}).get(o.base)
        if sp is not None and sp.next in o.cells: nexts[o.base + sp.next] = o.base
    if not nexts: return
    held = set(); cnt = {}
    def see(v, at):
        if v.__class__ is int:
            if v in nexts: held.add(v)
            if v >= HEAP_BASE: k = v >> OBJ_SHIFT; cnt[k] = cnt.get(k, 0) + 1
        elif v.__class__ is LazyPtr: cnt[("l", v.id)] = cnt.get(("l", v.id), 0) + 1
    for fr in st.frames:
        for v in fr.regs.values(): see(v, None)
    for o in st.mem.values():
        if not o.dead:
            for c, (z, v) in o.cells.items(): see(v, None)
    for ch in st.chunks.values(): see(ch.end, None)
    for a, b in nexts.items():
        o = st.mem[b >> OBJ_SHIFT]; v = o.cells[a - b][1]
        if v.__class__ is int and v >= HEAP_BASE and (v >> OBJ_SHIFT not in st.mem or st.mem[v >> OBJ_SHIFT].dead) and not (a in eng.xnodes and False): eng.wobj(st, b).cells.pop(a - b)
    for a in held:
        o = st.mem[nexts[a] >> OBJ_SHIFT]; c = a - o.base
        if c not in o.cells: continue
        v = o.cells[c][1]
        k = v >> OBJ_SHIFT if v.__class__ is int else ("l", v.id) if v.__class__ is LazyPtr else None
        if v.__class__ is int and v < HEAP_BASE: continue
        if k is None: continue
        if cnt.get(k, 0) > 1: eng.wobj(st, o.base).cells.pop(c)

def refs_to(eng, st):
    """node base -> list of holders ; holder = ('r',frame,id) | ('m',objbase,off) | ('c',lazyid) | ('x',...)"""
    nodes = {o.base for o in st.mem.values() if o.kind == "node"}
    out = {b: [] for b in nodes}
    if not nodes: return out
    def see(v, h):
        if v.__class__ is int:
            b = v >> OBJ_SHIFT << OBJ_SHIFT
            if b in nodes: out[b].append((h, v - b))
        elif v.__class__ is tuple:
            for e in v: see(e, ("x",))
        elif v.__class__ is SymPtr:
            if v.base in nodes: out[v.base].append((("x",), 0))
    for i, fr in enumerate(st.frames):
        for k, v in fr.regs.items(): see(v, ("r", i, k))
    parts = {}
    for o in st.mem.values():
        if o.kind == "node":
            for p in o.info.parts(eng, st, o.base): parts[p] = o.base
    for o in st.mem.values():
        for c, (z, v) in o.cells.items():
            if o.base in parts and is_addr(v) and (v >> OBJ_SHIFT << OBJ_SHIFT) == parts[o.base]: continue
            see(v, ("m", o.base, c))
    for k, ch in st.chunks.items(): see(ch.end, ("c", k))
    for k, v in st.ghost.items():
        if isinstance(k, tuple) and k[0] in ("proto",): continue
        see(v, ("x",))
    return out

def fold(eng, st):
    changed = True
    while changed:
        changed = False
        refs = refs_to(eng, st)
        for b, hs in refs.items():
            o = st.mem[b >> OBJ_SHIFT]; spec = o.info
            hs = [x for x in hs if not (x[0][0] == "m" and x[0][1] == b)]   # self references inside the node
            if len(hs) != 1 or hs[0][1] != spec.entry: continue
            hold = hs[0][0]
            if hold[0] == "x": continue
            if hold[0] == "r" and hold[1] < len(st.frames) - 1: continue
            nx = eng.res(st, eng.raw_load(o, spec.next, 8))
            if nx is UNDEF: continue
            if nx.__class__ is LazyPtr:
                ch = st.chunks.get(nx.id)
                if ch is None or ch.spec is not spec: continue
                end = ch.end; fa = ch.facts if True else None
            elif nx.__class__ is int: end = nx; ch = None
            else: continue
            if hold[0] == "m" and st.mem[hold[1] >> OBJ_SHIFT].kind == "node" and hold[2] != spec.next: continue
            facts = {n for n, fn in spec.facts.items() if eng.valid(st, fn(eng, st, b))}
            if not spec.fold(eng, st, b): continue
            if ch is not None: facts &= ch.facts
            if hold[0] == "c":      # previous segment ends at this node: merge
                pc = st.chunks[hold[1]]
                st.chunks[hold[1]] = Chunk(spec, end, pc.facts & facts, False)
                if ch is not None: del st.chunks[nx.id]
            else:
                lp = LazyPtr(next(eng.lazy_n))
                st.chunks[lp.id] = Chunk(spec, end, facts, False)
                if ch is not None: del st.chunks[nx.id]
                if hold[0] == "r": st.frames[hold[1]].regs[hold[2]] = lp
                else:
                    ho = eng.wobj(st, hold[1]); ho.cells[hold[2]] = (8, lp)
            for p in spec.parts(eng, st, b): st.mem.pop(p >> OBJ_SHIFT, None)
            st.mem.pop(b >> OBJ_SHIFT)
            changed = True; break

# ---------------------------------------------------------------------------------- positions
def positions(eng, st):
    """ordered list of (pos, value) that make up the abstract state"""
    out = []
    for i, fr in enumerate(st.frames):
        for k in sorted(fr.regs, key=str):
            out.append((("r", i, k), fr.regs[k]))
    for k in sorted(st.mem):
        o = st.mem[k]
        if o.kind in ("node", "coro") and o.kind == "node": continue
        for c in sorted(o.cells): out.append((("m", o.base, c), o.cells[c][1]))
    for k in sorted(st.ghost, key=str):
        if isinstance(k, tuple) and k[0] == "proto": continue
        out.append((("g", k), st.ghost[k]))
    return out

def node_order(eng, st):
    """explicit nodes numbered in traversal order from the roots"""
    num = {}; q = []
    def see(v):
        if v.__class__ is int:
            b = v >> OBJ_SHIFT << OBJ_SHIFT
            o = st.mem.get(b >> OBJ_SHIFT)
            if o is not None and o.kind == "node" and b not in num: num[b] = len(num); q.append(b)
        elif v.__class__ is LazyPtr and v.id in st.chunks: see(st.chunks[v.id].end)
        elif v.__class__ is tuple:
            for e in v: see(e)
    for p, v in positions(eng, st):
        see(v)
        while q:
            b = q.pop(0); o = st.mem[b >> OBJ_SHIFT]
            for c in sorted(o.cells): see(o.cells[c][1])
    return num

def desc(eng, st, v, num):
    if v.__class__ is int:
        if v < GLOBAL_BASE: return "*0" if v == 0 else "*"
        b = v >> OBJ_SHIFT << OBJ_SHIFT
        if b in num: return ("N", num[b], v - b)
        o = st.mem.get(b >> OBJ_SHIFT)
        if o is not None and o.arr is not None and (v - b) % o.arr["es"] == o.arr.get("off", 0): return ("Y", b)
        if o is not None and not o.dead and o.kind not in ("node", "coro"): return ("O", b, v - b)
        return "*"
    if v.__class__ is LazyPtr:
        e = st.chunks[v.id].end if v.id in st.chunks else None
        return "*0" if e == 0 else ("L", desc(eng, st, e, num))
    if v.__class__ is SymPtr:
        o = st.mem.get(v.base >> OBJ_SHIFT)
        if o is not None and o.arr is not None and v.coff % o.arr["es"] == o.arr.get("off", 0): return ("Y", v.base)
    if v.__class__ is tuple: return tuple(desc(eng, st, e, num) for e in v)
    if isinstance(v, str) or v is None: return ("S", v)
    return "*"

def signature(eng, st):
    num = node_order(eng, st)
    sig = [("split", k, st.ghost.get(k)) for k in eng.split_ghost]          # states that differ in these are never joined
    for p, v in positions(eng, st):
        d = desc(eng, st, v, num)
        if d in ("*", "*0"): continue
        sig.append((p, d))
    for b, n in sorted(num.items(), key=lambda x: x[1]):
        o = st.mem[b >> OBJ_SHIFT]
        for c in sorted(o.cells):
            d = desc(eng, st, o.cells[c][1], num)
            if d not in ("*", "*0"): sig.append((("n", n, c), d if not (isinstance(d, tuple) and d[0] == "O" and o.info and b in ()) else d))
    pn = {}
    for b, n in num.items():
        for i, x in enumerate(st.mem[b >> OBJ_SHIFT].info.parts(eng, st, b)): pn[x] = ("P", n, i)
    def rk(k):
        if k.__class__ is tuple: return tuple(rk(e) for e in k)
        if k.__class__ is int and k >= HEAP_BASE:
            b = k >> OBJ_SHIFT << OBJ_SHIFT
            return ("N", num[b], k - b) if b in num else (pn[b] + (k - b,) if b in pn else k)
        return k
    for o in st.mem.values():
        if o.dead: continue
        sp = o.info if o.kind == "node" else getattr(eng, "xnodes", {}).get(o.base)
        if sp is not None and sp.next not in o.cells: sig.append((("undef", num.get(o.base, o.base)), ""))
    for k, v in st.res.items():
        if v: sig.append(("res", str(rk(k)), v if isinstance(v, (bool, str, int)) else "*"))
    sig.sort(key=str)
    leak = sorted(o.name for o in st.mem.values() if o.kind == "node" and o.base not in num)
    return (tuple(sig), tuple(leak))

def setpos(eng, st, p, v):
    if p[0] == "r": st.frames[p[1]].regs[p[2]] = v
    elif p[0] == "m":
        o = eng.wobj(st, p[1]); z = o.cells[p[2]][0]; o.cells[p[2]] = (z, v)
    elif p[0] == "g": st.ghost[p[1]] = v
def width(eng, st, p, v, st2=None):
    if isinstance(v, z3.BitVecRef): return v.size()
    if p[0] == "r":
        fr = st.frames[p[1]]
        if p[2] < fr.fn.nargs: return eng.m.tw(fr.fn.args[p[2]])
        for bl in fr.fn.blocks:
            for I in bl:
                if I.id == p[2]: return I.w
    if p[0] == "m": return 8 * st.mem[p[1] >> OBJ_SHIFT].cells[p[2]][0]
    if p[0] == "g": return eng.ghost_width.get(p[1], 64) if hasattr(eng, "ghost_width") else 64
    return 64

def same(eng, st, a, b, w):
    if a is b: return True
    if a.__class__ is int and b.__class__ is int: return a == b
    if a is UNDEF or b is UNDEF: return False
    if isinstance(a, (z3.BitVecRef, z3.BoolRef)) and isinstance(b, (z3.BitVecRef, z3.BoolRef)) and a.eq(b): return True
    num = (int, z3.BitVecRef, z3.BoolRef)
    if isinstance(a, num) and isinstance(b, num):
        try:
            if w == 1 or z3.is_bool(a) or z3.is_bool(b): return eng.valid(st, boolof(a) == boolof(b))
            return eng.valid(st, bv(a, w) == bv(b, w))
        except z3.Z3Exception: return False
    if isinstance(a, SymPtr) and isinstance(b, SymPtr):
        return a.base == b.base and eng.valid(st, a.expr() == b.expr())
    try: return a == b
    except Exception: return False

def join(eng, inv, B, dry=False):
    """make inv cover B (same signature).  Returns True if inv had to change."""
    A = inv.st; changed = False
    na = node_order(eng, A); nb = node_order(eng, B)
    ren = {}
    inva = {n: b for b, n in na.items()}
    for b, n in nb.items():
        ren[b] = inva[n]
        for x, y in zip(B.mem[b >> OBJ_SHIFT].info.parts(eng, B, b), A.mem[inva[n] >> OBJ_SHIFT].info.parts(eng, A, inva[n])): ren[x] = y
    def mapv(v):
        if v.__class__ is int:
            b = v >> OBJ_SHIFT << OBJ_SHIFT
            if b in ren: return ren[b] + (v - b)
            return v
        if v.__class__ is tuple: return tuple(mapv(e) for e in v)
        return v
    for k in ("resumed",):                # counters: absent means 0
        if (k in A.ghost) != (k in B.ghost): A.ghost.setdefault(k, 0); B.ghost.setdefault(k, 0)
    num = (int, z3.BitVecRef, z3.BoolRef)
    odd = [k for k in set(A.ghost) ^ set(B.ghost) if isinstance((A.ghost if k in A.ghost else B.ghost)[k], num) and not (isinstance(k, tuple) and k[0] == "proto")]
    if odd: raise_loop(eng, B, "ghost %s exists on one side of the loop head only" % odd)
    pa = dict(positions(eng, A)); pb = dict(positions(eng, B))
    # node cells as extra positions
    for b, n in na.items():
        gen = A.mem[b >> OBJ_SHIFT].info.generic
        for c, (z, v) in A.mem[b >> OBJ_SHIFT].cells.items():
            if c not in gen: pa[("m", b, c)] = v
    for b, n in nb.items():
        for c, (z, v) in B.mem[b >> OBJ_SHIFT].cells.items(): pb[("m", ren[b], c)] = v
    # structure: objects
    oa = {o.base for o in A.mem.values() if o.kind != "node" and not o.dead}
    ob = {o.base for o in B.mem.values() if o.kind != "node" and not o.dead}
    for b in na: oa -= set(A.mem[b >> OBJ_SHIFT].info.parts(eng, A, b))
    for b in nb: ob -= set(B.mem[b >> OBJ_SHIFT].info.parts(eng, B, b))
    ra = {ren_key(k, {}): v for k, v in A.res.items() if v}; rb = {ren_key(k, ren, eng, B): v for k, v in B.res.items() if v}
    if ra != rb:
        raise_loop(eng, B, "resources held at the loop head differ between iterations: %s vs %s" % (ra, rb))
    extra = [o for o in (ob - oa) if B.mem[o >> OBJ_SHIFT].kind in ("heap", "node")]
    if extra: raise_loop(eng, B, "memory allocated in the loop is still held at the loop head: %s" % [B.mem[o >> OBJ_SHIFT].name for o in extra])
    missing = [o for o in (oa - ob) if A.mem[o >> OBJ_SHIFT].kind in ("heap", "global", "coro", "exc", "node")]
    sub = []          # (symbol in A, value in B)
    amap = {}; bmap = {}; made = {}      # aliasing of list pointers must agree on both sides
    newgen = []
    for p, va in list(pa.items()):
        if p[0] == "m" and (p[1] not in ob and p[1] not in inva.values()): continue
        vb = pb.get(p, UNDEF)
        if p in inv.gen:
            x = inv.gen[p]
            if vb is UNDEF:
                if not dry: drop_uninit(eng, A, p); del inv.gen[p]
                changed = True
                continue
            w = 1 if z3.is_bool(x) else x.size()
            if p in inv.ptr:
                e = elem_off(B, vb)
                if e is None or e[:2] != inv.ptr[p][:2]: raise_loop(eng, B, "pointer leaves its array at loop head: %s" % (p,))
                sub.append((x, e[2])); continue
            if isinstance(vb, LazyPtr) or isinstance(vb, tuple): raise_loop(eng, B, "value kind changes at loop head: %s" % (p,))
            sub.append((x, boolof(vb) if z3.is_bool(x) else bv(vb, w)))
            continue
        la = va.__class__ is LazyPtr; lb = vb.__class__ is LazyPtr
        if la or lb:
            ka = va.id if la else va; kb = vb.id if lb else vb
            if la and amap.setdefault(ka, kb) != kb: raise_loop(eng, B, "two references to one list become different at %s" % (p,))
            if lb and bmap.setdefault(kb, ka) != ka: raise_loop(eng, B, "two lists become one at %s" % (p,))
            if la and lb:
                ca = A.chunks[va.id]; cb = B.chunks[vb.id]
                if ca.spec is not cb.spec or mapv(cb.end) != ca.end: raise_loop(eng, B, "list shapes differ")
                nf = ca.facts & cb.facts; me = ca.mayempty or cb.mayempty
                if nf != ca.facts or me != ca.mayempty:
                    changed = True
                    if dry and DEBUGL: join_why2(p, ("chunk", ca.facts,cb.facts,ca.mayempty,cb.mayempty))
                    if not dry: A.chunks[va.id] = Chunk(ca.spec, ca.end, nf, me)
            elif la and vb.__class__ is int and vb == 0:
                ca = A.chunks[va.id]
                if not ca.mayempty:
                    changed = True
                    if not dry: A.chunks[va.id] = Chunk(ca.spec, ca.end, ca.facts, True)
            elif lb and va.__class__ is int and va == 0:
                changed = True
                if not dry:
                    cb = B.chunks[vb.id]
                    if vb.id not in made:
                        lp = made[vb.id] = LazyPtr(next(eng.lazy_n)); A.chunks[lp.id] = Chunk(cb.spec, mapv(cb.end), cb.facts, True)
                    setpos(eng, A, p, made[vb.id])
            elif va is UNDEF or vb is UNDEF:
                raise_loop(eng, B, "owned list lost or uninitialised at loop head at %s" % (p,))
            else: raise_loop(eng, B, "list pointer joined with %s at %s" % (va if lb else vb, p))
            continue
        if va is UNDEF: continue
        if vb is UNDEF:
            changed = True
            if dry and DEBUGL: join_why2(p, (va, "undef"))
            if not dry: drop_uninit(eng, A, p)
            continue
        w = width(eng, A, p, va)
        mb = mapv(vb)
        if same(eng, B, va, mb, w): continue
        changed = True
        if dry and DEBUGL: join_why2(p, (va, mb))
        if dry: continue
        if isinstance(va, tuple) or isinstance(vb, tuple):
            ja = eng.join_ghost(p, va, vb) if hasattr(eng, "join_ghost") else None
            if ja is None: raise_loop(eng, B, "cannot generalise %s: %s vs %s" % (p, va, vb))
            setpos(eng, A, p, ja); continue
        if isinstance(va, SymPtr) or isinstance(vb, SymPtr):
            # same base: generalise the offset
            g = gen_symptr(eng, A, B, p, va, vb)
            if g is None: raise_loop(eng, B, "cannot generalise pointer at %s" % (p,))
            x = eng.fresh("idx", 64); inv.ptr[p] = (g[0], g[1], g[4]); newgen.append((p, x, g[2], g[3], 64))
            continue
        if isinstance(va, str) or isinstance(vb, str) or va is None or vb is None: raise_loop(eng, B, "cannot generalise %s: %s vs %s" % (p, va, vb))
        if is_addr(va) and is_addr(vb) and (va >> OBJ_SHIFT) == (vb >> OBJ_SHIFT) and A.mem.get(va >> OBJ_SHIFT) is not None and A.mem[va >> OBJ_SHIFT].arr is not None:
            g = gen_symptr(eng, A, B, p, va, vb)
            if g is not None:
                x = eng.fresh("idx", 64); inv.ptr[p] = (g[0], g[1], g[4]); newgen.append((p, x, g[2], g[3], 64))
                continue
        x = eng.freshb("inv") if (w == 1 and p[0] == "r") or z3.is_bool(va) else eng.fresh("inv_" + str(p[-1]), w)
        newgen.append((p, x, va, vb, w))
    for p in missing:
        changed = True
    if dry and changed: return True
    # path condition of A that also holds in B
    keep = []
    bid = {c.get_id() for c in B.pc}
    for c in A.pc:
        cc = z3.substitute(c, *sub) if sub else c
        if cc.get_id() in bid or eng.valid(B, cc): keep.append(c)
        else:
            changed = True
            if dry and DEBUGL: join_why2(c, cc)
    if dry: return changed
    if not changed: return False
    # candidate facts over the newly generalised values
    newpc = list(keep)
    A0 = A.copy() if newgen and (eng.cand_terms or eng.cand_preds) else None
    for p in missing: A.mem.pop(p >> OBJ_SHIFT, None)
    for p, x, va, vb, w in newgen:
        setpos(eng, A, p, x if p not in inv.ptr else SymPtr(inv.ptr[p][0], inv.ptr[p][1], ((x, inv.ptr[p][2]),))); inv.gen[p] = x
    if newgen:
        A2pc = A.pc
        scal = {}
        for p, v in positions(eng, A):
            if isinstance(v, (z3.BitVecRef,)) or (v.__class__ is int and not is_addr(v)): scal[p] = v
        ovA = {p: va for p, x, va, vb, w in newgen}; ovB = {p: vb for p, x, va, vb, w in newgen}
        if eng.cand_terms:
            t0, tb, tx = eng.cand_terms(eng, A0), eng.cand_terms(eng, B), eng.cand_terms(eng, A)
            for n in tx:
                if n in t0 and n in tb: scal[("t", n)] = tx[n]; ovA[("t", n)] = t0[n]; ovB[("t", n)] = tb[n]
        if eng.cand_preds:
            t0, tb, tx = eng.cand_preds(eng, A0), eng.cand_preds(eng, B), eng.cand_preds(eng, A)
            for n in tx:
                if n in t0 and n in tb:
                    try:
                        if eng.valid(A0, t0[n]) and eng.valid(B, tb[n]): newpc.append(z3.simplify(tx[n]))
                    except z3.Z3Exception: pass
        cands = []
        for p, x, va, vb, w in newgen:
            if z3.is_bool(x) or eng.cand_skip and eng.cand_skip(p): continue
            for q, y in scal.items():
                if q == p or eng.cand_skip and eng.cand_skip(q): continue
                wy = y.size() if isinstance(y, z3.BitVecRef) else width(eng, A, q, y)
                if wy != w: continue
                for nm, fn in (("ule", lambda a, b: z3.ULE(a, b)), ("uge", lambda a, b: z3.UGE(a, b)), ("sle", lambda a, b: a <= b), ("sge", lambda a, b: a >= b), ("ne", lambda a, b: a != b), ("eq", lambda a, b: a == b)):
                    cands.append((p, q, w, fn))
            for cst in (va, vb, 0):
                if cst.__class__ is int: 
                    cands.append((p, ("k", cst), w, lambda a, b: z3.UGE(a, b))); cands.append((p, ("k", cst), w, lambda a, b: z3.ULE(a, b)))
                    cands.append((p, ("k", cst), w, lambda a, b: a != b))
        # two values that advance together: their difference stays what it was on entry
        gl = [g for g in newgen if not z3.is_bool(g[1]) and not (eng.cand_skip and eng.cand_skip(g[0]))]
        lo = lambda v, w, m: v if w == m else (z3.simplify(z3.Extract(m - 1, 0, bv(v, w))))
        for i, (p, x, va, vb, w) in enumerate(gl):
            for q, y, ya, yb, wq in gl[:i]:
                m = min(w, wq)
                try:
                    d = lo(bv(va, w), w, m) - lo(bv(ya, wq), wq, m)
                    if eng.valid(B, lo(bv(vb, w), w, m) - lo(bv(yb, wq), wq, m) == d): newpc.append(z3.simplify(lo(x, w, m) - lo(y, wq, m) == d))
                except (z3.Z3Exception, AttributeError): continue
        symval = dict(pa)
        A.pc = A2pc
        seen = {}
        for p, q, w, fn in cands:
            def val(side, pos):
                if pos[0] == "k": return bv(pos[1], w)
                if side == "x":
                    return bv(inv.gen[pos] if pos in inv.gen else scal[pos], w)
                if side == "A": return bv(ovA[pos] if pos in ovA else (scal[pos]), w)
                v = ovB[pos] if pos in ovB else pb.get(pos)
                return bv(v, w)
            try:
                cx = z3.simplify(fn(val("x", p), val("x", q)))
                if cx.get_id() in seen or z3.is_true(cx) or z3.is_false(cx): continue
                seen[cx.get_id()] = cx
                if eng.valid(A, fn(val("A", p), val("A", q))) and eng.valid(B, fn(val("B", p), val("B", q))): newpc.append(cx)
            except (z3.Z3Exception, KeyError, AttributeError): continue
    A.pc = tuple(newpc)
    return True

join_why = None
def join_why2(c, cc):
    global join_why; join_why = (c, cc)

def ren_key(k, ren, eng=None, st=None):
    if isinstance(k, tuple): return tuple(ren_key(e, ren) for e in k)
    if k.__class__ is int and k >= HEAP_BASE:
        b = k >> OBJ_SHIFT << OBJ_SHIFT
        return ren.get(b, b) + (k - b)
    return k
def drop_uninit(eng, st, p):
    if os.environ.get("VP_DROP"): print("DROP", p, st.frames[-1].fn.d[-60:], st.mem[p[1] >> OBJ_SHIFT].name if p[0] == "m" else "", flush=True)
    if p[0] == "r": st.frames[p[1]].regs.pop(p[2], None)
    elif p[0] == "m":
        o = eng.wobj(st, p[1]); o.cells.pop(p[2], None)
def raise_loop(eng, st, msg):
    f = st.frames[-1]; msg = "%s [loop %s line %s]" % (msg, f.fn.d[:80], f.fn.blocks[f.b][-1].x.get("ln"))
    raise LoopShape(msg)
class LoopShape(Unsupported): pass
def elem_off(st, v, base=None):
    """(object, byte remainder, element index) of a pointer into an array object"""
    if v.__class__ is int: b, c, terms = v >> OBJ_SHIFT << OBJ_SHIFT, v & ((1 << OBJ_SHIFT) - 1), ()
    elif v.__class__ is SymPtr: b, c, terms = v.base, v.coff, v.terms
    else: return None
    o = st.mem.get(b >> OBJ_SHIFT)
    if o is None or o.arr is None: return None
    es = o.arr["es"]; i = z3.BitVecVal((c // es) & V.M64, 64)
    for t, sc in terms:
        if sc % es: return None
        i = i + t * z3.BitVecVal((sc // es) & V.M64, 64)
    return b, c % es, z3.simplify(i), es
def gen_symptr(eng, A, B, p, va, vb):
    """pointers into one array: generalise the element index"""
    a = elem_off(A, va); b = elem_off(B, vb)
    if a is None or b is None or a[:2] != b[:2]: return None
    return a[0], a[1], a[2], b[2], a[3]
