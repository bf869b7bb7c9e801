"""Specification vocabulary shared by the property specs: opaque coroutines with linear resume permission,
list nodes, single-word atomic protocols, exit checks."""
import z3
from ir import UNDEF, OBJ_SHIFT
from vp import *

# ------------------------------------------------------------------ opaque coroutines
def coro(eng, st, name, on_resume=None, on_destroy=None, perm=True, size=64, align=16):
    """A suspended coroutine of unknown body.  ('resume',h) is the linear right to resume it once."""
    if not hasattr(eng, "_coro_special"):
        eng._coro_special = (eng.new_special(_resume, "coro.resume"), eng.new_special(_destroy, "coro.destroy"))
        eng._coro_cb = {}
    a = eng.alloc(st, size, "coro", name)
    o = eng.wobj(st, a)
    o.cells[0] = (8, eng._coro_special[0]); o.cells[8] = (8, eng._coro_special[1])
    o.noown = ((0, 16, "coroutine header") ,) if False else None
    o.info = (on_resume, on_destroy)
    if perm: st.res[("resume", a)] = 1
    return a
def mcoro(eng, st, name, on_resume=None, on_destroy=None, perm=True, size=96):
    """a suspended coroutine written with the macoro macros (unknown body): its handle is the address | 1; returns the address"""
    a = coro(eng, st, name, on_resume, on_destroy, perm, size); o = eng.wobj(st, a); o.cells.clear()
    if not hasattr(eng, "_mcoro_special"):
        def mres(eng, st, I, args):
            r = _resume(eng, st, I, args); return 43 if r is None else r
        eng._mcoro_special = (eng.new_special(mres, "frame.resume"), eng.new_special(_destroy, "frame.destroy"))
    m = eng.m; B = "macoro::FrameBase<void>"
    o.cells[m.field(B, "resume")] = (8, eng._mcoro_special[0]); o.cells[m.field(B, "destroy")] = (8, eng._mcoro_special[1])
    return a
def _resume(eng, st, I, args):
    h = args[0]
    if h.__class__ is LazyPtr: raise NeedUnfold(h)
    h = eng.ptr(st, h, "resume")
    o = eng.obj(st, h)
    if o is None or o.dead: eng.fail(st, "resume:dangling", "resume of a coroutine that is gone (%s)" % (o and o.dead))
    if not st.res.get(("resume", h)):
        eng.fail(st, "resume:exactly-once", "%s is resumed without the right to do so (resumed twice, or never suspended here)" % o.name)
    st.res[("resume", h)] -= 1
    if not st.res[("resume", h)]: del st.res[("resume", h)]
    st.note("RESUME", o.name)
    st.ghost["resumed"] = st.ghost.get("resumed", 0) + 1 if isinstance(st.ghost.get("resumed", 0), int) else st.ghost["resumed"] + 1
    cb = o.info[0] if isinstance(o.info, tuple) else None
    if cb:
        r = cb(eng, st, h)
        if r is not None: return r
    return None
def _destroy(eng, st, I, args):
    h = eng.ptr(st, args[0], "destroy"); o = eng.obj(st, h)
    if o is None or o.dead: eng.fail(st, "destroy:exactly-once", "destroy of a coroutine that is gone (%s)" % (o and o.dead))
    st.note("DESTROY", o.name)
    cb = o.info[1] if isinstance(o.info, tuple) else None
    if cb:
        r = cb(eng, st, h)
        if r is not None: return r
    if ("destroy", h) in st.res: del st.res[("destroy", h)]
    eng.release(st, h, "destruction of the coroutine")
    return None

# ------------------------------------------------------------------ list nodes
class NodeSpec:
    """owned singly linked nodes: subclass fills populate(eng, st, base) and owned(eng, st, base)"""
    generic = ()         # offsets of data cells about which nothing is remembered at loop heads (generalise() makes them arbitrary)
    def generalise(s, eng, st, a): pass
    entry = 0            # offset inside the object the list pointers point to
    facts = {}
    name = "node"
    def __init__(s, size, next_off, **kw): s.size = size; s.next = next_off; s.__dict__.update(kw)
    def fresh(s, eng, st, facts, nxt):
        a = eng.alloc(st, s.size, "node", "%s#%d" % (s.name, st.nobj))
        o = eng.wobj(st, a); o.info = s
        o.cells[s.next] = (8, nxt)
        s.populate(eng, st, a)
        for n in facts: eng.assume(st, s.facts[n](eng, st, a))
        return a + s.entry
    def populate(s, eng, st, a): pass
    def parts(s, eng, st, a): return []
    def fold(s, eng, st, a):
        """give the node back to the segment: remove its resources; False if they are not all there"""
        return True

class WaiterSpec(NodeSpec):
    """node holding the handle of a suspended coroutine; resuming it ends the node's lifetime"""
    name = "waiter"
    def __init__(s, size, next_off, h_off, **kw): NodeSpec.__init__(s, size, next_off, h_off=h_off, **kw)
    def populate(s, eng, st, a):
        def resumed(eng, st, h, a=a):
            eng.wobj(st, a).dead = "its coroutine was resumed"
            eng.wobj(st, h).dead = "it was resumed"
            if s.on_resume: return s.on_resume(eng, st, a, h)
        h = coro(eng, st, "coro#%d" % st.nobj, resumed)
        o = eng.wobj(st, a); o.cells[s.h_off] = (8, h)
        eng.wobj(st, h).info = (resumed, None)
        s.extra(eng, st, a)
    on_resume = None
    def extra(s, eng, st, a): pass
    def parts(s, eng, st, a):
        o = st.mem[a >> OBJ_SHIFT]; c = o.cells.get(s.h_off)
        if c and c[1].__class__ is int:
            ho = st.mem.get(c[1] >> OBJ_SHIFT)
            if ho is not None and ho.kind == "coro": return [ho.base]
        return []
    def fold(s, eng, st, a):
        p = s.parts(eng, st, a)
        if len(p) != 1 or not st.res.get(("resume", p[0])): return False
        del st.res[("resume", p[0])]
        return True

# ------------------------------------------------------------------ protocols
ACQ = ("acquire", "acq_rel", "seq_cst"); REL = ("release", "acq_rel", "seq_cst")
class WordProto:
    """All atomic accesses to one object.  Subclass:
        havoc(eng, st, off, sz)                  -> [(st, current value)]     rely: what the others may have done
        write(eng, st, off, sz, old, new, order, kind) -> [(st, old)]         guarantee + ownership transfer
        read(eng, st, off, sz, val, order, kind) -> [(st, val)]"""
    name = "shared"
    def atomic(s, eng, st, a, sz, kind, order, v, exp, rmw, ford, weak):
        off = a - st.mem[a >> OBJ_SHIFT].base if a.__class__ is int else None
        s.alive(eng, st, a)
        out = []
        for t, cur in s.havoc(eng, st, off, sz):
            try:
                if kind == "load":
                    out += s.read(eng, t, off, sz, cur, order, kind)
                elif kind == "store":
                    out += s.write(eng, t, off, sz, cur, v, order, kind)
                elif kind == "rmw":
                    new = eng.rmwval(t, rmw, cur, v, 8 * sz)
                    out += s.write(eng, t, off, sz, cur, new, order, "rmw-" + rmw)
                elif kind == "cas":
                    if cur.__class__ is LazyPtr: raise Unsupported("lazy value in cas")
                    e = exp
                    eq = eng.icmp("eq", cur, e, 8 * sz)
                    c1 = boolof(eq); c0 = z3.Not(c1)
                    if eng.feasible(t, c1):
                        u = t.copy(); eng.assume(u, c1)
                        out += [(w, (o, 1)) for w, o in s.write(eng, u, off, sz, cur, v, order, "cas")]
                    if eng.feasible(t, c0):
                        u = t.copy(); eng.assume(u, c0)
                        out += [(w, (o, 0)) for w, o in s.read(eng, u, off, sz, cur, ford, "cas-fail")]
                    if weak and eng.feasible(t, c1):
                        u = t.copy(); eng.assume(u, c1); u.note("spurious CAS failure")
                        out += [(w, (o, 0)) for w, o in s.read(eng, u, off, sz, cur, ford, "cas-fail")]
            except PathEnd: pass
        return out
    def alive(s, eng, st, a):
        o = eng.obj(st, a if a.__class__ is int else a.base)
        if o.dead: eng.fail(st, "mem:use-after-release", "atomic access to %s after %s" % (o.name, o.dead), "mem")
    def read(s, eng, st, off, sz, val, order, kind): return [(st, val)]
    def plain(s, eng, st, a, sz, kind, v):
        o = eng.obj(st, a if a.__class__ is int else a.base)
        if o.dead: eng.fail(st, "mem:use-after-release", "%s of %s after %s" % (kind, o.name, o.dead), "mem")
        return s.plain_off(eng, st, a, a - o.base if a.__class__ is int else None, sz, kind, v)
    def plain_off(s, eng, st, a, off, sz, kind, v):
        return None
def share(eng, st, base, proto):
    st.ghost[("proto", base)] = proto

def order_ob(eng, st, order, need, what):
    """memory-order obligation"""
    eng.oblige(st, order in need, "order:" + what, "memory order %s is too weak: %s needs one of %s" % (order, what, "/".join(need)), "order")

# ------------------------------------------------------------------ exit checks
def no_leaks(eng, st, allow_nodes=False, heap=True):
    for k, ch in st.chunks.items():
        eng.oblige(st, False, "exit:lost-waiters", "a list of %ss still owned at exit is dropped without being processed" % ch.spec.name)
    for o in st.mem.values():
        if o.kind == "node" and not o.dead and not allow_nodes: eng.fail(st, "exit:lost-waiters", "%s still owned at exit: never resumed / handed over" % o.name)
    for k, v in st.res.items():
        if v and k[0] == "resume": eng.fail(st, "exit:lost-resume", "%s is never resumed" % st.mem[k[1] >> OBJ_SHIFT].name if (k[1] >> OBJ_SHIFT) in st.mem else str(k))
    if heap:
        for o in st.mem.values():
            if o.kind == "heap" and not o.dead: eng.fail(st, "exit:leak", "%s allocated and never released" % o.name)
    eng.oblige(st, True, "exit:nothing-lost")
def const(mod, name):
    """value of an exported size/offset constant"""
    v = mod.globals[name]["init"]
    return mod.const(v)[1]
def newobj(eng, st, size, name, kind="global", fill=True):
    a = eng.alloc(st, size, kind, name)
    return a
def client(name, covers, functions, limit=240, unroll=None, steps=None, **kw):
    """a client program verified for every value, choice and path"""
    from harness import Proof
    def go(eng):
        st = eng.start_state(); eng.covers = tuple(covers) + ("<end>",)
        if steps: eng.max_steps = steps
        if unroll: eng.unroll_limit = (lambda f: unroll) if isinstance(unroll, int) else (lambda f: next((n for k, n in unroll.items() if k in f.d), None))
        def ex(st, v):
            eng.reached.add("<end>")
            no_leaks(eng, st)
        eng.run(st, "c_" + name, [], ex)
    p = Proof("client." + name, go, functions); p.limit = limit
    for k, v in kw.items(): setattr(p, k, v)
    return p

# ------------------------------------------------------------------ locks
class LockInv:
    """contract of a mutex: acquire() yields the states with the protected data as the others may have left it, release() checks what we
    leave behind.  waiting=True: through a condition variable.  Register with guard()."""
    cv = None
    def acquire(s, eng, st, m, waiting=False): return [st]
    def release(s, eng, st, m, waiting=False): return [st]
    def notify(s, eng, st, m, allw): pass
def guard(eng, st, m, inv): st.ghost[("lock", m)] = inv
def is_held(st, m): return bool(st.ghost.get(("held", m)))
