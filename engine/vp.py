"""Deductive verifier for LLVM IR: VC generation by symbolic execution over an object heap with
ownership chunks, function contracts at call sites, inferred loop invariants, atomic-location protocols
(rely/guarantee + ownership transfer), exceptions.  z3 discharges the obligations."""
import re, time, os, sys, itertools
import z3
from ir import Module, UNDEF, OBJ_SHIFT, GLOBAL_BASE, FUNC_BASE, HEAP_BASE

M64 = (1 << 64) - 1
SPECIAL_BASE = 0x6800_0000_0000

class Unsupported(Exception): pass
class Stop(Exception): pass
class NeedUnfold(Exception):
    def __init__(s, lp): s.lp = lp
class NeedSplit(Exception):
    def __init__(s, e, vals): s.e = e; s.vals = vals
class PathEnd(Exception): pass        # path killed (after an obligation failure, or assume(false))

class Throw:
    __slots__ = ("exc",)
    def __init__(s, exc): s.exc = exc
class Push:
    """hook outcome: continue by calling another function"""
    __slots__ = ("fn", "args", "then")
    def __init__(s, fn, args, then=None): s.fn = fn; s.args = args; s.then = then

class LazyPtr:
    __slots__ = ("id",)
    def __init__(s, id): s.id = id
    def __repr__(s): return "lazy%d" % s.id
class SymPtr:
    __slots__ = ("base", "coff", "terms")
    def __init__(s, base, coff, terms): s.base = base; s.coff = coff; s.terms = terms
    def expr(s):
        e = z3.BitVecVal((s.base + s.coff) & M64, 64)
        for i, sc in s.terms: e = e + i * z3.BitVecVal(sc & M64, 64)
        return e
    def __repr__(s): return "sym(%x+%d+%s)" % (s.base, s.coff, s.terms)

class Obj:
    __slots__ = ("base", "size", "cells", "kind", "name", "tok", "dead", "arr", "info", "noown", "align")
    def __init__(s, base, size, kind, name, tok):
        s.base = base; s.size = size; s.cells = {}; s.kind = kind; s.name = name; s.tok = tok
        s.dead = None; s.arr = None; s.info = None; s.noown = None; s.align = 16
    def copy(s, tok):
        o = Obj.__new__(Obj); o.base = s.base; o.size = s.size; o.cells = dict(s.cells); o.kind = s.kind; o.name = s.name
        o.tok = tok; o.dead = s.dead; o.arr = None if s.arr is None else dict(s.arr); o.info = s.info; o.noown = s.noown; o.align = s.align
        return o

class Chunk:
    """list segment: lazy pointer .. end, every node described by spec with facts"""
    __slots__ = ("spec", "end", "facts", "mayempty")
    def __init__(s, spec, end, facts, mayempty=True): s.spec = spec; s.end = end; s.facts = frozenset(facts); s.mayempty = mayempty

class Frame:
    __slots__ = ("fn", "b", "ip", "prev", "regs", "objs", "call", "then", "heads", "uid")
    def copy(s):
        f = Frame.__new__(Frame); f.fn = s.fn; f.b = s.b; f.ip = s.ip; f.prev = s.prev; f.regs = dict(s.regs); f.objs = list(s.objs)
        f.call = s.call; f.then = s.then; f.heads = dict(s.heads); f.uid = s.uid
        return f

class State:
    __slots__ = ("frames", "mem", "pc", "ghost", "res", "bind", "chunks", "exc", "caught", "trace", "tok", "nobj", "excs", "depth", "atexit", "act")
    def copy(s):
        t = State.__new__(State)
        t.frames = [f.copy() for f in s.frames]; t.mem = dict(s.mem); t.pc = s.pc; t.ghost = dict(s.ghost); t.res = dict(s.res)
        t.bind = dict(s.bind); t.chunks = dict(s.chunks); t.exc = s.exc; t.caught = s.caught; t.trace = s.trace
        t.tok = object(); s.tok = object(); t.nobj = s.nobj; t.excs = dict(s.excs); t.depth = s.depth; t.atexit = s.atexit; t.act = s.act
        return t
    def note(s, *a): s.trace = (s.trace, a)          # rendered when needed
    def trace_list(s):
        out = []; t = s.trace
        while t is not None: out.append(" ".join((str(z3.simplify(x))[:160] if z3.is_expr(x) else str(x)) for x in t[1])); t = t[0]
        return out[::-1]

def isc(v): return isinstance(v, int)
def bv(v, w):
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if isinstance(v, SymPtr): return v.expr()
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v
def simp(e):
    """simplify; return python int when constant"""
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e
def boolof(v):
    if isinstance(v, int): return z3.BoolVal(bool(v))
    if isinstance(v, bool): return z3.BoolVal(v)
    if z3.is_bool(v): return v
    return v != z3.BitVecVal(0, v.size())
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

def nonneg(e):
    """x when e = 0..0 ++ x (top bit zero)"""
    if z3.is_bv_value(e): return e if e.as_long() >> (e.size() - 1) == 0 else None
    if e.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() >> (e.arg(0).size() - 1) == 0: return e
    if e.decl().kind() == z3.Z3_OP_ZERO_EXT: return e
    return None
def nonneg_diff(e):
    """(x, y) when e = x - y with both top bits zero: the signed comparison of e with 0 is the unsigned comparison of x with y"""
    if e.__class__ is int or not z3.is_bv(e): return None
    if e.decl().kind() != z3.Z3_OP_BADD or e.num_args() != 2: return None
    w = e.size(); pos = neg = None
    for a in e.children():
        if z3.is_bv_value(a):
            v = a.as_long()
            if v >> (w - 1): neg = z3.BitVecVal(-v, w) if v != 1 << (w - 1) else None
            else: pos = a
        elif a.decl().kind() == z3.Z3_OP_BMUL and a.num_args() == 2 and z3.is_bv_value(a.arg(0)) and a.arg(0).as_long() == (1 << w) - 1 and nonneg(a.arg(1)) is not None: neg = a.arg(1)
        elif nonneg(a) is not None: pos = a
    return (pos, neg) if pos is not None and neg is not None else None
class Failure:
    def __init__(s, name, where, msg, model, trace, kind):
        s.name = name; s.where = where; s.msg = msg; s.model = model; s.trace = trace; s.kind = kind
    def text(s):
        r = "FAILED OBLIGATION %s\n  at %s\n  %s\n" % (s.name, s.where, s.msg)
        if s.model: r += "  counterexample (solver model): %s\n" % s.model
        if s.trace: r += "  path:\n" + "".join("    %s\n" % t for t in s.trace[-60:])
        return r

DEBUG = os.environ.get("VP_DEBUG")

class Engine:
    def __init__(s, mod, name="", deadline=None):
        s.m = mod; s.name = name
        s.failures = []; s.obl = {}; s.n_obl = 0; s.n_solver = 0; s.t_solver = 0.0; s.n_static = 0
        s.quiet = 0               # >0 while inferring invariants: obligations not recorded
        s.hooks = {}; s.rhooks = []; s.special = {}; s.nspecial = 0
        s.cand_skip = None; s.split_ghost = (); s.eager_loops = None; s.executed = {}; s.hooked = {}; s.contracted = {}
        s.loops_inferred = []
        s.steps = 0; s.max_steps = 3_000_000; s.deadline = deadline
        s.fresh_n = itertools.count(); s.lazy_n = itertools.count(1); s.uid_n = itertools.count(1)
        s.protos = {}             # name -> protocol
        s.on_exit = None; s.on_throw = None; s.on_obj_free = None
        s.paths = 0; s.reached = set()
        s.peel = 1
        s.node_specs = []
        s.cand_terms = None       # fn(eng, st) -> {name: bit-vector}: derived quantities offered to the invariant search
        s.cand_preds = None       # fn(eng, st) -> {name: bool}: extra candidate invariants
        s.ephemeral = ()          # name prefixes of symbols whose facts are forgotten once the symbol is no longer stored anywhere
        s.xnodes = {}             # explicitly tracked list nodes: base -> NodeSpec
        s.typeids = {}
        s.sol = z3.Solver(); s.sol.set("timeout", 20000)
        s.cache = {}; s.solstk = []
        s.spec_bases = {}
        s.leak_kinds = ("heap",)
        s.cur = None
        import stdlib
        stdlib.install(s)
        s._hookcache = {}
    # ------------------------------------------------------------------ solver
    def check(s, st, *extra):
        """is pc /\\ extra satisfiable? -> 'sat'/'unsat' ; unknown raises"""
        fs = [e for e in extra if not z3.is_true(e)]
        for e in fs:
            if z3.is_false(e): return "unsat"
        key = (tuple(c.get_id() for c in st.pc), tuple(e.get_id() for e in fs))
        r = s.cache.get(key)
        if r is not None: return r[0]
        if s.deadline and time.time() > s.deadline: raise Unsupported("time budget exhausted")
        t0 = time.time()
        stk = s.solstk; pc = st.pc; n = 0; m = min(len(stk), len(pc))
        while n < m and stk[n] is pc[n]: n += 1
        if len(stk) > n: s.sol.pop(len(stk) - n); del stk[n:]
        for c in pc[n:]: s.sol.push(); s.sol.add(c); stk.append(c)
        if fs:
            s.sol.push()
            try:
                for e in fs: s.sol.add(e)
                r = str(s.sol.check())
            finally:
                s.sol.pop()
        else: r = str(s.sol.check())
        s.n_solver += 1; s.t_solver += time.time() - t0
        if r == "unknown": raise Unsupported("solver returned unknown")
        s.cache[key] = (r, st.pc, fs)     # keep refs so ids stay valid
        return r
    def valid(s, st, cond):
        if isinstance(cond, (bool, int)): return bool(cond) or (len(st.pc) > 0 and s.check(st) == "unsat")
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        return s.check(st, z3.Not(c)) == "unsat"
    def feasible(s, st, cond=True):
        if isinstance(cond, (bool, int)): return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return s.check(st, c) == "sat"
    def assume(s, st, cond):
        if isinstance(cond, (bool, int)):
            if not cond: raise PathEnd()
            return
        c = z3.simplify(cond)
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd()
        st.pc = st.pc + (c,)
    def model(s, st, *extra):
        sol = z3.Solver(); sol.set("timeout", 10000)
        for c in st.pc: sol.add(c)
        for e in extra: sol.add(e)
        if str(sol.check()) != "sat": return None
        m = sol.model()
        return ", ".join(sorted("%s = %s" % (d.name(), m[d]) for d in m.decls()))[:1500]
    # ------------------------------------------------------------------ obligations
    def where(s, st):
        if not st.frames: return "exit of " + s.name
        f = st.frames[-1]
        try: I = f.fn.blocks[f.b][min(f.ip, len(f.fn.blocks[f.b]) - 1)]; ln = I.x.get("ln"); fl = I.x.get("fl", "")
        except Exception: ln = None; fl = ""
        return "%s (%s:%s)" % (f.fn.d, os.path.basename(fl or ""), ln)
    def oblige(s, st, cond, name, msg="", kind="spec"):
        """obligation: cond must hold on this path.  Returns True if discharged; on failure records and kills the path"""
        if isinstance(cond, (bool, int)):
            ok = bool(cond)
            if not ok and st.pc and s.check(st) == "unsat": ok = True
            if not s.quiet: s.n_static += 1
        else: ok = s.valid(st, cond)
        if not s.quiet:
            s.n_obl += 1; k = s.name + "/" + name; s.obl[k] = s.obl.get(k, 0) + 1
        if ok: return True
        if not s.quiet:
            extra = [] if isinstance(cond, (bool, int)) else [z3.Not(cond)]
            s.failures.append(Failure(s.name + "/" + name, s.where(st), msg, s.model(st, *extra), st.trace_list(), kind))
            if DEBUG: print(s.failures[-1].text())
        raise PathEnd()
    def fail(s, st, name, msg, kind="spec"): s.oblige(st, False, name, msg, kind)
    # ------------------------------------------------------------------ fresh things
    def fresh(s, name, w): return z3.BitVec("%s!%d" % (name, next(s.fresh_n)), w)
    any_undef = False
    def freshu(s, w):
        """undefined bits that are only masked / moved around; a branch that depends on them fails"""
        s.any_undef = True; return s.fresh("undef", w)
    def dep_undef(s, e):
        if not s.any_undef or e.__class__ is int: return False
        seen = set(); todo = [z3.simplify(e) if z3.is_expr(e) else boolof(e)]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.num_args() == 0 and z3.is_const(x) and x.decl().name().startswith("undef!"): return True
            todo += x.children()
        return False
    def freshb(s, name): return z3.Bool("%s!%d" % (name, next(s.fresh_n)))
    def alloc(s, st, size, kind, name, align=16):
        base = HEAP_BASE + (st.nobj << OBJ_SHIFT); st.nobj += 1
        o = Obj(base, size, kind, name, st.tok); o.align = align
        st.mem[base >> OBJ_SHIFT] = o
        return base
    def wobj(s, st, base):
        k = base >> OBJ_SHIFT; o = st.mem[k]
        if o.tok is not st.tok:
            o = o.copy(st.tok); st.mem[k] = o
        return o
    def obj(s, st, addr, write=False):
        k = addr >> OBJ_SHIFT
        o = st.mem.get(k)
        if o is None:
            g = s.m.addr2g.get(k << OBJ_SHIFT)
            if g is not None: o = s.mkglobal(st, g)
            else: return None
        if write and o.tok is not st.tok:
            o = o.copy(st.tok); st.mem[k] = o
        return o
    def mkglobal(s, st, name):
        g = s.m.globals[name]; a = s.m.gaddr[name]
        o = Obj(a, g["sz"], "const" if g["c"] else "global", name, st.tok); st.mem[a >> OBJ_SHIFT] = o
        if g["init"] is not None: s.init_cells(o, 0, g["ty"], s.m.const(g["init"])[1] if g["init"][0] not in ("zero",) else None)
        elif name == "__libc_single_threaded": o.cells[0] = (1, 0)
        else: o.info = "extern"
        return o
    def init_cells(s, o, off, ty, v):
        T = s.m.types[ty]; k = T["k"]
        if v is None:
            n = T.get("sz", 0); i = 0
            while i < n:
                step = 8 if (n - i) >= 8 and (off + i) % 8 == 0 else 1
                o.cells[off + i] = (step, 0); i += step
            return
        if k == "s":
            for e, eo, ev in zip(T["e"], T["of"], v): s.init_cells(o, off + eo, e, ev)
        elif k in ("a", "vec"):
            es = T.get("es") or s.m.types[T["e"]]["sz"]
            if v == 0: return s.init_cells(o, off, ty, None)
            for i in range(T["n"]): s.init_cells(o, off + i * es, T["e"], v[i])
        else:
            if v is UNDEF: return
            o.cells[off] = (T["sz"], v)
    def new_special(s, fn, name):
        a = SPECIAL_BASE + (s.nspecial << 6); s.nspecial += 1
        s.special[a] = (fn, name); return a
    # ------------------------------------------------------------------ memory access
    def res(s, st, v):
        while v.__class__ is LazyPtr and v.id in st.bind: v = st.bind[v.id]
        return v
    def ptr(s, st, v, what):
        """resolve pointer value to (obj address int) or SymPtr"""
        v = s.res(st, v)
        if v.__class__ is int: return v
        if v.__class__ is LazyPtr: raise NeedUnfold(v)
        if v.__class__ is SymPtr: return v
        if v is UNDEF: s.fail(st, "mem:uninit-pointer", "%s through an uninitialised pointer" % what, "mem")
        # z3 expression: try to find the unique concrete value
        e = simp(v) if not isinstance(v, int) else v
        if isinstance(e, int): return e
        mm = s.model_val(st, e)
        if mm is not None and s.check(st, e != z3.BitVecVal(mm, 64)) == "unsat": return mm
        s.fail(st, "mem:unknown-pointer", "%s through a pointer the caller does not own (%s)" % (what, e), "mem")
    def model_val(s, st, e):
        sol = z3.Solver(); sol.set("timeout", 10000)
        for c in st.pc: sol.add(c)
        if str(sol.check()) != "sat": return None
        return sol.model().eval(e, model_completion=True).as_long()
    def all_vals(s, st, e, what, limit=64):
        sol = z3.Solver(); sol.set("timeout", 10000); out = []
        for c in st.pc: sol.add(c)
        while True:
            r = str(sol.check())
            if r == "unsat": return out
            if r != "sat": raise Unsupported("solver returned unknown")
            v = sol.model().eval(e, model_completion=True).as_long(); out.append(v)
            if len(out) > limit: raise Unsupported("symbolic offset into non-array object %s" % what)
            sol.add(e != z3.BitVecVal(v, e.size()))
    def access(s, st, a, sz, what, write):
        o = s.obj(st, a, write)
        if o is None:
            s.fail(st, "mem:invalid-pointer", "%s of %d bytes at %s" % (what, sz, "null" if a < 4096 else hex(a)), "mem")
        off = a - o.base
        if o.dead: s.fail(st, "mem:use-after-release", "%s of %s+%d after %s" % (what, o.name, off, o.dead), "mem")
        if off < 0 or (isinstance(o.size, int) and off + sz > o.size):
            s.fail(st, "mem:out-of-bounds", "%s of %d bytes at %s+%d (size %s)" % (what, sz, o.name, off, o.size), "mem")
        if write and o.kind == "const": s.fail(st, "mem:write-to-constant", "%s" % o.name, "mem")
        if o.noown:
            for lo, hi, why in o.noown:
                if off < hi and lo < off + sz: s.fail(st, "mem:unowned-access", "%s of %s+%d: %s" % (what, o.name, off, why), "mem")
        return o, off
    def bytes_of(s, v, sz):
        """list of per-byte values, little endian"""
        if v.__class__ is int: return [(v >> (8 * i)) & 255 for i in range(sz)]
        if v is UNDEF: return [UNDEF] * sz
        if z3.is_bool(v): v = bv(v, 8 * sz)
        if isinstance(v, SymPtr): v = v.expr()
        if isinstance(v, LazyPtr): return [("lz", v, i) for i in range(sz)]
        if isinstance(v, z3.BitVecRef): return [simp(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(sz)]
        raise Unsupported("bytes of %r" % (v,))
    def from_bytes(s, bs):
        if all(b.__class__ is int for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if any(b is UNDEF for b in bs):
            if all(b is UNDEF for b in bs) or any(isinstance(b, tuple) for b in bs): return UNDEF
            bs = [s.freshu(8) if b is UNDEF else b for b in bs]   # padding read together with initialised bytes (coerced struct arguments)
        if isinstance(bs[0], tuple):
            if len(bs) == 8 and all(isinstance(b, tuple) and b[1] is bs[0][1] and b[2] == i for i, b in enumerate(bs)): return bs[0][1]
            raise Unsupported("partial lazy pointer read")
        if len(bs) == 1: return bs[0]
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))
    def raw_load(s, o, off, sz):
        c = o.cells.get(off)
        if c is not None and c[0] == sz: return c[1]
        bs = [UNDEF] * sz; found = False
        for co, (csz, cv) in o.cells.items():
            if co < off + sz and off < co + csz:
                found = True
                cb = s.bytes_of(cv, csz)
                for i in range(csz):
                    if off <= co + i < off + sz: bs[co + i - off] = cb[i]
        if not found: return UNDEF
        return s.from_bytes(bs)
    def clear_range(s, o, off, sz):
        hit = [co for co, (csz, _) in o.cells.items() if co < off + sz and off < co + csz]
        for co in hit:
            csz, cv = o.cells.pop(co)
            if co < off or co + csz > off + sz:
                cb = s.bytes_of(cv, csz)
                for i in range(csz):
                    if not (off <= co + i < off + sz): o.cells[co + i] = (1, cb[i])
    def raw_store(s, o, off, sz, v):
        c = o.cells.get(off)
        if c is not None and c[0] == sz: o.cells[off] = (sz, v); return
        s.clear_range(o, off, sz); o.cells[off] = (sz, v)
    def load(s, st, a, sz, what="load"):
        a = s.ptr(st, a, what)
        if a.__class__ is SymPtr: return s.sym_access(st, a, sz, None, what)
        o, off = s.access(st, a, sz, what, False)
        if o.arr is not None:
            r = s.arr_access(st, o, off, (), sz, None, what)
            if r is not None: return r
        if o.info == "extern":
            raise Unsupported("load from external global " + o.name)
        return s.res(st, s.raw_load(o, off, sz))
    def store(s, st, a, sz, v, what="store"):
        a = s.ptr(st, a, what)
        if a.__class__ is SymPtr: return s.sym_access(st, a, sz, v, what)
        o, off = s.access(st, a, sz, what, True)
        if o.arr is not None:
            r = s.arr_access(st, o, off, (), sz, v, what)
            if r is not None: return
        s.raw_store(o, off, sz, v)
    # arrays: obj.arr = {"es": elem size, "n": count (int or z3 64), ("f",off): (sz, z3 array)}
    def sym_access(s, st, p, sz, v, what):
        o = s.obj(st, p.base, v is not None)
        if o is None: s.fail(st, "mem:invalid-pointer", what, "mem")
        if o.dead: s.fail(st, "mem:use-after-release", "%s of %s after %s" % (what, o.name, o.dead), "mem")
        if o.arr is None:
            e = simp(p.expr())
            if isinstance(e, int): return s.load(st, e, sz, what) if v is None else s.store(st, e, sz, v, what)
            mv = s.model_val(st, e)
            if mv is not None and s.check(st, e != z3.BitVecVal(mv, 64)) == "unsat":
                return s.load(st, mv, sz, what) if v is None else s.store(st, mv, sz, v, what)
            raise NeedSplit(e, s.all_vals(st, e, o.name))
        r = s.arr_access(st, o, p.coff, p.terms, sz, v, what)
        if r is None: raise Unsupported("symbolic access not matching array layout")
        return r
    def arr_index(s, st, o, coff, terms):
        es = o.arr["es"]; b = o.arr.get("off", 0)
        idx = None
        cst = coff - b
        for t, sc in terms:
            if sc % es: return None
            e = t if sc == es else t * z3.BitVecVal(sc // es, 64)
            idx = e if idx is None else idx + e
        k = cst // es; fo = cst % es
        idx = z3.BitVecVal(k & M64, 64) if idx is None else (idx + z3.BitVecVal(k & M64, 64) if k else idx)
        return simp(idx), fo
    def arr_access(s, st, o, coff, terms, sz, v, what):
        r = s.arr_index(st, o, coff, terms)
        if r is None: return None
        idx, fo = r
        f = o.arr.get(("f", fo))
        if f is None or f[0] != sz:
            return None
        s.oblige(st, z3.ULT(bv(idx, 64), bv(o.arr["n"], 64)), "mem:array-bounds", "%s of %s[%s] (count %s)" % (what, o.name, idx, o.arr["n"]), "mem")
        if o.arr.get("acc"): o.arr["acc"](s, st, o, idx, fo, v)
        if o.arr.get("elem"): return s.arr_elem(st, o, idx, fo, v, sz)
        if v is None: return simp(z3.Select(f[1], bv(idx, 64)))
        o = s.wobj(st, o.base)
        o.arr[("f", fo)] = (sz, z3.Store(f[1], bv(idx, 64), bv(v, 8 * sz)))
        return True
    def arr_elem(s, st, o, idx, fo, v, sz): return o.arr["elem"](s, st, o, idx, fo, v, sz)
    def release(s, st, a, why):
        o = s.wobj(st, a); o.dead = why
    # ------------------------------------------------------------------ operands
    def ev(s, st, f, o):
        t = o[0]
        if t == "k": return o[1]
        if t == "v":
            v = f.regs.get(o[1], UNDEF)
            if v.__class__ is LazyPtr: return s.res(st, v)
            return v
        if t == "gep": return s.gep(st, f, o)
        if t == "asm": return ("asm", o[1])
        raise Unsupported("operand %s" % (o,))
    def gep(s, st, f, g):
        base = s.ev(st, f, g[1]); off = g[2]; terms = []
        for io, sc, w in g[3]:
            i = s.ev(st, f, io)
            if i.__class__ is int:
                if w < 64 and i >> (w - 1): i -= 1 << w
                off += i * sc
            elif i is UNDEF: return UNDEF
            else:
                i = bv(i, w)
                if w < 64: i = z3.SignExt(64 - w, i)
                terms.append((i, sc))
        return s.padd(st, base, off, tuple(terms))
    def padd(s, st, base, off, terms):
        if base.__class__ is int:
            if not terms: return (base + off) & M64
            b = base & ~((1 << OBJ_SHIFT) - 1)
            return SymPtr(b, base - b + off, terms)
        if base.__class__ is SymPtr: return SymPtr(base.base, base.coff + off, base.terms + terms)
        if base is UNDEF: return UNDEF
        if off == 0 and not terms: return base
        if base.__class__ is LazyPtr: raise NeedUnfold(base)
        e = base + z3.BitVecVal(off & M64, 64)
        for i, sc in terms: e = e + i * z3.BitVecVal(sc, 64)
        return simp(e)
    # ------------------------------------------------------------------ running
    def start_state(s):
        st = State(); st.frames = []; st.mem = {}; st.pc = (); st.ghost = {}; st.res = {}; st.bind = {}; st.chunks = {}
        st.exc = None; st.caught = (); st.trace = None; st.tok = object(); st.nobj = 1; st.excs = {}; st.depth = 0; st.atexit = (); st.act = 0
        return st
    def func(s, name):
        F = s.m.funcs.get(name)
        if F is None:
            L = s.m.demangled.get(name)
            if not L: raise Unsupported("function not found: " + name)
            F = next((x for x in L if x.defined), L[0])
        return F
    def push(s, st, F, args, call=None, then=None):
        f = Frame(); f.fn = F; f.b = 0; f.ip = 0; f.prev = None; f.regs = {}; f.objs = []; f.call = call; f.then = then; f.heads = {}; f.uid = next(s.uid_n)
        for i, a in enumerate(args[:F.nargs]): f.regs[i] = a
        if len(st.frames) > 400: raise Unsupported("call depth")
        st.frames.append(f)
        s.executed[F.d] = s.executed.get(F.d, 0) + 1
    def run(s, st, F, args, on_exit=None, on_throw=None):
        """explore every path from calling F(args) in st.  on_exit(st, retval) / on_throw(st, exc) at the root."""
        if isinstance(F, str): F = s.func(F)
        s.push(st, F, args, call=None, then=("root", on_exit, on_throw))
        s.explore([st], None)
    def explore(s, work, stopper):
        """DFS over states; stopper(st) -> True to take a state out at a loop head"""
        work = list(work)
        while work:
            st = work.pop()
            try:
                s.step_until_fork(st, work, stopper)
            except PathEnd:
                s.paths += 0 if s.quiet else 1
    def step_until_fork(s, st, work, stopper):
        while True:
            if not st.frames:
                s.paths += 0 if s.quiet else 1
                return
            f = st.frames[-1]
            if f.heads and f.heads.pop("pend", None):
                if stopper is not None and stopper(st): return
                k = s.loop_head(st, stopper)
                if k is not None: work.extend(k); return
                continue
            I = f.fn.blocks[f.b][f.ip]
            s.steps += 1
            if s.steps > s.max_steps: raise Unsupported("step budget exhausted")
            if (s.steps & 1023) == 0 and s.deadline and time.time() > s.deadline: raise Unsupported("time budget exhausted")
            try:
                r = getattr(s, "i_" + I.o)(st, f, I)
            except NeedUnfold as nu:
                r = s.unfold(st, nu.lp)
                work.extend(r)
                return
            except NeedSplit as ns:
                for v in ns.vals:
                    t = st.copy(); t.act += 1
                    try: s.assume(t, ns.e == z3.BitVecVal(v, ns.e.size())); work.append(t)
                    except PathEnd: pass
                return
            except AttributeError as e:
                if "i_" + I.o in str(e): raise Unsupported("instruction " + I.o)
                raise
            if r is None: continue
            if r == "head":
                # arrived at loop header (phis done)
                if stopper is not None and stopper(st): return
                k = s.loop_head(st, stopper)
                if k is not None: work.extend(k); return
                continue
            work.extend(r)
            return
    # ------------------------------------------------------------------ lists
    def lseg(s, st, spec, end=0, facts=(), mayempty=True):
        lp = LazyPtr(next(s.lazy_n))
        st.chunks[lp.id] = Chunk(spec, end, facts, mayempty)
        return lp
    def unfold(s, st, lp):
        ch = st.chunks.get(lp.id)
        if ch is None: raise Unsupported("lazy pointer without chunk")
        out = []
        st.act += 1
        if ch.mayempty:
            e = st.copy(); del e.chunks[lp.id]; e.bind[lp.id] = ch.end; e.note("list %s is empty" % lp); out.append(e)
        n = st.copy() if ch.mayempty else st
        del n.chunks[lp.id]
        nxt = LazyPtr(next(s.lazy_n)); n.chunks[nxt.id] = Chunk(ch.spec, ch.end, ch.facts, True)
        try:
            a = ch.spec.fresh(s, n, ch.facts, nxt)
            n.bind[lp.id] = a; n.note("list %s has a first node %s" % (lp, n.mem[a >> OBJ_SHIFT].name))
            out.append(n)
        except PathEnd: pass
        return out
    # ------------------------------------------------------------------ control flow
    loop_scope = None
    def goto(s, st, f, b):
        ls = s.loop_scope
        if ls is not None and f.uid == ls[0] and b not in ls[1]: raise PathEnd()
        f.prev = f.b; f.b = b; f.ip = 0
        bl = f.fn.blocks[b]
        if bl[0].o == "phi":
            vals = []
            for I in bl:
                if I.o != "phi": break
                vals.append((I.id, s.ev(st, f, I.x["in"][f.prev])))
            for k, v in vals: f.regs[k] = v
            f.ip = len(vals)
        s.m.analyse(f.fn)
        if b in f.fn.loops: return "head"
        return None
    def i_br(s, st, f, I):
        x = I.x
        if "c" not in x: return s.goto(st, f, x["t"])
        c = s.ev(st, f, x["c"])
        if c.__class__ is int: return s.goto(st, f, x["t"] if c else x["f"])
        if c is UNDEF or s.dep_undef(c): s.fail(st, "mem:uninit-branch", "branch on uninitialised value", "mem")
        return s.branch(st, [(boolof(c), x["t"]), (z3.Not(boolof(c)), x["f"])])
    def branch(s, st, alts):
        alts = [(c, b) for c, b in alts if s.feasible(st, c)]
        if not alts: raise PathEnd()
        out = []
        for i, (c, b) in enumerate(alts):
            t = st if i == len(alts) - 1 else st.copy()
            if len(alts) > 1: t.act += 1
            try: s.assume(t, c)
            except PathEnd: continue
            ln = t.frames[-1].fn.blocks[t.frames[-1].b][t.frames[-1].ip].x.get("ln")
            if len(alts) > 1: t.note("%s line %s: take branch" % (t.frames[-1].fn.d[:80], ln), c)
            try: r = s.goto(t, t.frames[-1], b)
            except PathEnd: continue
            if r == "head" : t.frames[-1].heads["pend"] = True
            out.append(t)
        if not out: raise PathEnd()
        return out
    def i_switch(s, st, f, I):
        x = I.x; c = s.ev(st, f, x["c"])
        if c.__class__ is int:
            for v, b in x["cs"]:
                if v == c: return s.goto(st, f, b)
            return s.goto(st, f, x["def"])
        if c is UNDEF or s.dep_undef(c): s.fail(st, "mem:uninit-branch", "switch on uninitialised value", "mem")
        w = x["w"]; alts = [(bv(c, w) == z3.BitVecVal(v, w), b) for v, b in x["cs"]]
        alts.append((z3.And(*[z3.Not(a) for a, _ in alts]), x["def"]))
        return s.branch(st, alts)
    def i_unreachable(s, st, f, I):
        s.fail(st, "reach:unreachable", "control reaches a point declared unreachable", "mem")
    def i_ret(s, st, f, I):
        v = s.ev(st, f, I.a[0]) if I.a else None
        return s.do_return(st, v)
    def pop_frame(s, st):
        f = st.frames.pop()
        if s.loop_scope is not None and f.uid == s.loop_scope[0]: raise PathEnd()
        for b in f.objs:
            o = s.wobj(st, b)
            o.dead = "end of the scope of %s" % o.name
        return f
    def do_return(s, st, v):
        f = s.pop_frame(st)
        if f.then is not None:
            th = f.then
            if th[0] == "root":
                if th[1]:
                    s.at_root(st, lambda: th[1](st, v))
                else: raise PathEnd()
                return []
            r = th[0](s, st, v, *th[1:])
            if f.call is None: return r
            return s.outcome(st, f.call, r, st.frames[-1])
        if f.call is None: return []
        return s.finish_call(st, st.frames[-1], f.call, v)
    def at_root(s, st, fn):
        r = fn()
        if r:  # list of states to continue with
            pass
        s.paths += 0 if s.quiet else 1
        raise PathEnd()
    def finish_call(s, st, f, I, v):
        if I.ty is not None: f.regs[I.id] = v
        if I.o == "invoke": return s.goto(st, f, I.x["nd"])
        f.ip += 1
        return None
    # ------------------------------------------------------------------ calls
    def i_call(s, st, f, I): return s.do_call(st, f, I)
    def i_invoke(s, st, f, I): return s.do_call(st, f, I)
    def resolve_hook(s, F):
        k = F.n
        if k in s._hookcache: return s._hookcache[k]
        h = s.hooks.get(k) or s.hooks.get(F.d)
        if h is None:
            for r, fn in s.rhooks:
                if r.fullmatch(F.d): h = fn; break
        s._hookcache[k] = h
        return h
    def hook(s, name, fn):
        s.hooks[name] = fn; s._hookcache = {}
    def rhook(s, pat, fn):
        s.rhooks.insert(0, (re.compile(pat), fn)); s._hookcache = {}
    def do_call(s, st, f, I):
        x = I.x; t = s.ev(st, f, x["f"])
        args = [s.ev(st, f, o) for o in I.a]
        if isinstance(t, tuple):   # inline asm
            f.ip += 1; return None
        if t.__class__ is LazyPtr: raise NeedUnfold(t)
        if t.__class__ is not int:
            t = s.ptr(st, t, "indirect call")
        if t in s.special:
            fn, nm = s.special[t]
            return s.outcome(st, I, fn(s, st, I, args), f)
        n = s.m.addr2f.get(t)
        if n is None: s.fail(st, "mem:bad-call-target", "call through %s" % hex(t), "mem")
        F = s.m.funcs[n]
        return s.invoke_fn(st, f, I, F, args)
    def invoke_fn(s, st, f, I, F, args):
        h = s.resolve_hook(F)
        if h is not None:
            s.hooked[F.d] = s.hooked.get(F.d, 0) + 1
            return s.outcome(st, I, h(s, st, I, args), f)
        if not F.defined:
            if F.n.startswith("llvm."): return s.intrinsic(st, f, I, F, args)
            raise Unsupported("call of external function without contract: " + F.d)
        if "bv" in I.x:
            for i, b in enumerate(I.x["bv"]):
                if b: args[i] = s.copy_byval(st, args[i], b)
        if I.x.get("mt"):
            # musttail: the caller's frame is replaced
            cf = s.pop_frame(st)
            s.push(st, F, args, call=cf.call, then=cf.then)
            return None
        s.push(st, F, args, call=I)
        return None
    def copy_byval(s, st, a, n):
        b = s.alloc(st, n, "stack", "byval"); s.memcpy(st, b, a, n); return b
    def outcome(s, st, I, r, f):
        """r: value | Throw | Push | list[(state, value|Throw|Push)]"""
        if isinstance(r, list):
            if I.x.get("mt") and False: pass
            out = []
            if len(r) > 1:
                for t, v in r: t.act += 1
            for t, v in r:
                try:
                    q = s.outcome1(t, I, v)
                    if q == "head": t.frames[-1].heads["pend"] = True; out.append(t)
                    elif q is None: out.append(t)
                    else: out.extend(q)
                except PathEnd: pass
            return out
        return s.outcome1(st, I, r)
    def outcome1(s, st, I, v):
        f = st.frames[-1]
        if isinstance(v, Throw): return s.unwind(st, v.exc, first=True)
        if isinstance(v, Push):
            if isinstance(v.fn, int) and v.fn in s.special:
                return s.outcome(st, I, s.special[v.fn][0](s, st, I, v.args), f)
            F = v.fn if not isinstance(v.fn, (int, str)) else (s.func(v.fn) if isinstance(v.fn, str) else s.m.funcs[s.m.addr2f[v.fn]])
            h = s.resolve_hook(F)
            if h is not None and v.then is None: return s.outcome(st, I, h(s, st, I, v.args), f)
            if not F.defined: raise Unsupported("pushed call of external function " + F.d)
            s.push(st, F, v.args, call=I, then=v.then)
            return None
        return s.finish_call(st, f, I, v)
    # ------------------------------------------------------------------ exceptions
    def typeid(s, addr):
        return s.typeids.setdefault(addr, len(s.typeids) + 1)
    def unwind(s, st, exc, first=False):
        """exc: address of the exception object (allocated by __cxa_allocate_exception); search handlers"""
        # phase 1 is folded into phase 2: every frame either handles, cleans up or is left
        top = True
        while st.frames:
            f = st.frames[-1]
            I = f.fn.blocks[f.b][f.ip] if f.ip < len(f.fn.blocks[f.b]) else None
            if I is not None and I.o == "invoke":
                ub = I.x["ud"]
                lp = next(i for i in f.fn.blocks[ub] if i.o == "landingpad")
                sel = s.match(st, exc, lp)
                if isinstance(sel, list):     # may or may not match a clause
                    out = []
                    for t, sv in sel:
                        if sv is None:
                            try:
                                r = s.leave_frame(t, exc)
                                q = s.unwind(t, exc) if r is None else r
                                out.extend([t] if q in (None, "head") else q)
                            except PathEnd: pass
                        else: s.land(t, exc, sv); out.append(t)
                    return out
                if sel is not None:
                    r = s.land(st, exc, sel); return r
            r = s.leave_frame(st, exc)
            if r is not None: return r
        return []
    def land(s, st, exc, sel):
        f = st.frames[-1]
        I = f.fn.blocks[f.b][f.ip]
        r = s.goto(st, f, I.x["ud"])
        f.regs["lp"] = (exc, sel)
        if r == "head": f.heads["pend"] = True
        return r
    def leave_frame(s, st, exc):
        f = s.pop_frame(st)
        th = f.then
        if th is not None:
            if th[0] == "root":
                if th[2]: s.at_root(st, lambda: th[2](st, exc))
                else:
                    s.fail(st, "exception:escapes", "exception %s escapes" % s.exc_name(st, exc))
            cb = getattr(th[0], "on_throw", None)
            if cb:
                r = cb(s, st, exc, *th[1:])
                if r is not None:
                    return s.outcome(st, f.call, r, st.frames[-1])
        return None
    def match(s, st, exc, lp):
        info = st.excs.get(exc)
        ti = info["type"] if info else None
        for kind, cl in lp.x["cl"]:
            if kind != "catch":
                raise Unsupported("exception filter")
            c = cl[1]
            if c == 0: return s.typeid(0)
            m = s.derives(ti, c)
            if m == "maybe":
                a = st; b = st.copy()
                return [(a, s.typeid(c)), (b, 0 if lp.x["cleanup"] else None)]
            if m: return s.typeid(c)
        if lp.x["cleanup"]: return 0
        return None
    STD_BASES = {"_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt12system_error": "_ZTISt13runtime_error",
                 "_ZTISt12future_error": "_ZTISt11logic_error", "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
                 "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt18bad_variant_access": "_ZTISt9exception",
                 "_ZTISt19bad_optional_access": "_ZTISt9exception", "_ZTISt17bad_function_call": "_ZTISt9exception", "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc"}
    def derives(s, ti, c):
        if ti == c: return True
        if ti is None or ti == "any": return "maybe"
        n = s.m.addr2g.get(ti)
        if n is None: return False
        b = s.STD_BASES.get(n)
        if b and b in s.m.gaddr: return s.derives(s.m.gaddr[b], c)
        if b: 
            while b:
                if s.m.gaddr.get(b) == c: return True
                b = s.STD_BASES.get(b)
            return False
        g = s.m.globals[n]
        if g["init"] and g["init"][0] == "agg" and len(g["init"][2]) >= 3:
            vals = s.m.const(g["init"])[1]
            if isinstance(vals[2], int) and vals[2] in s.m.addr2g and s.derives(vals[2], c): return True
            for v in vals[4::2]:
                if isinstance(v, int) and v in s.m.addr2g and s.derives(v, c): return True
        return False
    def exc_name(s, st, exc):
        i = st.excs.get(exc)
        if not i: return "?"
        t = i["type"]
        return i.get("name") or (s.m.addr2g.get(t, t) if isinstance(t, int) else str(t))
    def new_exc(s, st, name="E", ti="any"):
        """an opaque exception object, e.g. thrown by client code"""
        a = s.alloc(st, 64, "exc", name)
        st.excs[a] = {"type": ti, "ref": 0, "name": name, "dtor": None}
        return a
    def exc_addref(s, st, a, d):
        i = dict(st.excs[a]); i["ref"] += d; st.excs[a] = i
        if i["ref"] <= 0:
            if i["ref"] < 0: s.fail(st, "exception:refcount", "exception released twice")
            return s.exc_free(st, a)
        return None
    def exc_free(s, st, a):
        i = st.excs[a]
        o = s.wobj(st, a)
        d = i.get("dtor")
        if d and isinstance(d, int) and d in s.m.addr2f and s.m.funcs[s.m.addr2f[d]].defined:
            def done(eng, st, v, a=a):
                eng.wobj(st, a).dead = "destruction of the exception"; return None
            return Push(s.m.funcs[s.m.addr2f[d]], [a], (done,))
        o.dead = "destruction of the exception"
        return None
    def i_landingpad(s, st, f, I):
        f.regs[I.id] = f.regs["lp"]; f.ip += 1
    def i_resume(s, st, f, I):
        v = s.ev(st, f, I.a[0]); exc = v[0]
        # continue unwinding out of this frame
        r = s.leave_frame(st, exc)
        if r is not None: return r
        return s.unwind(st, exc)
    # ------------------------------------------------------------------ data instructions
    def i_phi(s, st, f, I): f.ip += 1
    def i_alloca(s, st, f, I):
        n = s.ev(st, f, I.x["n"])
        if n.__class__ is not int: raise Unsupported("variable alloca")
        a = s.alloc(st, I.x["sz"] * n, "stack", "%s:%%%d" % (f.fn.d[:60], I.id))
        f.objs.append(a); f.regs[I.id] = a; f.ip += 1
    def i_getelementptr(s, st, f, I):
        f.regs[I.id] = s.ev(st, f, I.x["g"]); f.ip += 1
    def i_load(s, st, f, I):
        a = s.ev(st, f, I.a[0]); x = I.x
        if x["ord"] != "na": return s.atomic(st, f, I, "load", a, x["sz"], x["ord"])
        p = s.ptr(st, a, "load")
        r = s.shared_plain(st, p, x["sz"], "load", None)
        if r is not None:
            return s.outcome_val(st, f, I, r)
        T = s.m.types[I.ty]
        if T["k"] == "s":
            f.regs[I.id] = tuple(s.load(st, s.padd(st, p, o, ()), s.m.types[e]["sz"]) for e, o in zip(T["e"], T["of"]))
        else:
            v = s.load(st, p, x["sz"])
            if I.w == 1: v = s.to_i1(v)
            f.regs[I.id] = v
        f.ip += 1
    def to_i1(s, v):
        if v.__class__ is int: return v & 1
        if v is UNDEF or z3.is_bool(v): return v
        return simp(z3.Extract(0, 0, v) == z3.BitVecVal(1, 1))
    def outcome_val(s, st, f, I, r):
        if isinstance(r, list):
            for t, v in r:
                if len(r) > 1: t.act += 1
                t.frames[-1].regs[I.id] = v; t.frames[-1].ip += 1
            return [t for t, v in r]
        f.regs[I.id] = r[0]; f.ip += 1
        return None
    def i_store(s, st, f, I):
        v = s.ev(st, f, I.a[0]); a = s.ev(st, f, I.a[1]); x = I.x
        if x["ord"] != "na": return s.atomic(st, f, I, "store", a, x["sz"], x["ord"], v)
        p = s.ptr(st, a, "store")
        r = s.shared_plain(st, p, x["sz"], "store", v)
        if r is not None:
            if isinstance(r, list):
                for t, _ in r: t.frames[-1].ip += 1
                return [t for t, _ in r]
            f.ip += 1; return None
        if isinstance(v, tuple):
            s.store_agg(st, p, x["vt"], v)
        else: s.store(st, p, x["sz"], v)
        f.ip += 1
    def store_agg(s, st, p, ty, v):
        T = s.m.types[ty]
        if T["k"] == "s":
            for e, o, ev in zip(T["e"], T["of"], v): s.store_agg(st, s.padd(st, p, o, ()), e, ev)
        elif T["k"] == "a":
            for i in range(T["n"]): s.store_agg(st, s.padd(st, p, i * T["es"], ()), T["e"], v[i])
        elif T["k"] == "vec":
            es = s.m.types[T["e"]]["sz"]
            for i in range(T["n"]): s.store(st, s.padd(st, p, i * es, ()), es, v[i] if isinstance(v, tuple) else v)
        else: s.store(st, p, T["sz"], v)
    def i_extractvalue(s, st, f, I):
        v = s.ev(st, f, I.a[0])
        for i in I.x["ix"]:
            if v is UNDEF: break
            v = v[i]
        f.regs[I.id] = v; f.ip += 1
    def i_insertvalue(s, st, f, I):
        v = s.ev(st, f, I.a[0]); e = s.ev(st, f, I.a[1])
        def ins(v, ix, ty):
            if not ix: return e
            T = s.m.types[ty]
            if v is UNDEF: v = s.m.undef_of(ty)
            l = list(v); et = T["e"][ix[0]] if T["k"] == "s" else T["e"]
            l[ix[0]] = ins(l[ix[0]], ix[1:], et); return tuple(l)
        f.regs[I.id] = ins(v, I.x["ix"], I.ty); f.ip += 1
    def i_freeze(s, st, f, I):
        v = s.ev(st, f, I.a[0])
        if v is UNDEF: v = s.fresh("freeze", I.w) if I.w != 1 else s.freshb("freeze")
        f.regs[I.id] = v; f.ip += 1
    def i_fence(s, st, f, I): f.ip += 1
    def i_select(s, st, f, I):
        c = s.ev(st, f, I.a[0]); a = s.ev(st, f, I.a[1]); b = s.ev(st, f, I.a[2])
        if c.__class__ is int: f.regs[I.id] = a if c else b; f.ip += 1; return
        if c is UNDEF: f.regs[I.id] = UNDEF; f.ip += 1; return
        if a.__class__ is int and b.__class__ is int and a == b: f.regs[I.id] = a; f.ip += 1; return
        simple = lambda v: v.__class__ is int or isinstance(v, (z3.BitVecRef, z3.BoolRef))
        w = I.w
        isptr = s.m.types[I.ty]["k"] == "p"
        if w and not isptr and simple(a) and simple(b):
            f.regs[I.id] = simp(z3.If(boolof(c), bv(a, w), bv(b, w))) if w != 1 else simp(z3.If(boolof(c), boolof(a), boolof(b)))
            f.ip += 1; return
        out = []
        for cond, v in ((boolof(c), a), (z3.Not(boolof(c)), b)):
            if s.feasible(st, cond):
                t = st.copy(); t.act += 1; s.assume(t, cond); t.frames[-1].regs[I.id] = v; t.frames[-1].ip += 1; out.append(t)
        return out
    def i_icmp(s, st, f, I):
        a = s.ev(st, f, I.a[0]); b = s.ev(st, f, I.a[1])
        if a.__class__ is LazyPtr or b.__class__ is LazyPtr:
            if a.__class__ is LazyPtr and b.__class__ is LazyPtr and a.id == b.id:
                f.regs[I.id] = 1 if I.x["p"] in ("eq", "ule", "uge", "sle", "sge") else 0; f.ip += 1; return
            raise NeedUnfold(a if a.__class__ is LazyPtr else b)
        f.regs[I.id] = s.icmp(I.x["p"], a, b, I.x["vw"] or 64); f.ip += 1
    def icmp(s, p, a, b, w):
        if a.__class__ is int and b.__class__ is int:
            if p == "eq": return int(a == b)
            if p == "ne": return int(a != b)
            if p[0] == "s": a = sgn(a, w); b = sgn(b, w)
            q = p[1:]
            return int(a < b if q == "lt" else a <= b if q == "le" else a > b if q == "gt" else a >= b)
        if a is UNDEF or b is UNDEF: return UNDEF
        if w == 1:
            a = boolof(a); b = boolof(b)
            e = {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.And(z3.Not(a), b), "ugt": lambda: z3.And(a, z3.Not(b))}[p]()
            return simp(e)
        if b.__class__ is int and b == 0 and p[0] == "s":
            d = nonneg_diff(a)
            if d is not None: return simp({"slt": z3.ULT, "sle": z3.ULE, "sgt": z3.UGT, "sge": z3.UGE}[p](*d))
        a = bv(a, w); b = bv(b, w)
        e = {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b),
             "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b}[p]()
        return simp(e)
    def binop(s, st, f, I):
        a = s.ev(st, f, I.a[0]); b = s.ev(st, f, I.a[1]); f.regs[I.id] = s.bin(st, I.o, a, b, I.w, I); f.ip += 1
    i_add = i_sub = i_mul = i_and = i_or = i_xor = i_shl = i_lshr = i_ashr = i_udiv = i_urem = i_sdiv = i_srem = binop
    def bin(s, st, o, a, b, w, I=None):
        if a.__class__ is LazyPtr: raise NeedUnfold(a)
        if b.__class__ is LazyPtr: raise NeedUnfold(b)
        m = (1 << w) - 1
        if o in ("udiv", "urem", "sdiv", "srem"):
            if b.__class__ is int:
                if b == 0: s.fail(st, "ub:div-by-zero", "division by zero", "mem")
            elif b is not UNDEF: s.oblige(st, bv(b, w) != 0, "ub:div-by-zero", "division by zero", "mem")
        if a.__class__ is int and b.__class__ is int:
            if o == "add": return (a + b) & m
            if o == "sub": return (a - b) & m
            if o == "mul": return (a * b) & m
            if o == "and": return a & b
            if o == "or": return a | b
            if o == "xor": return a ^ b
            if o == "shl": return (a << b) & m if b < w else UNDEF
            if o == "lshr": return a >> b if b < w else UNDEF
            if o == "ashr": return (sgn(a, w) >> b) & m if b < w else UNDEF
            if o == "udiv": return a // b
            if o == "urem": return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if o == "sdiv" else x - q * y) & m
        if a is UNDEF or b is UNDEF:
            if a is b or w == 1 or o not in ("and", "or", "shl", "lshr"): return UNDEF
            if a is UNDEF: a = s.freshu(w)
            else: b = s.freshu(w)
        if w == 1:
            a = boolof(a); b = boolof(b)
            return simp({"and": lambda: z3.And(a, b), "or": lambda: z3.Or(a, b), "xor": lambda: z3.Xor(a, b), "add": lambda: z3.Xor(a, b), "sub": lambda: z3.Xor(a, b)}[o]())
        # pointer arithmetic kept structured
        if isinstance(a, SymPtr): a = a.expr()
        if isinstance(b, SymPtr): b = b.expr()
        if I is not None and s.overflow_checks and I.x.get("nsw") and o in ("add", "sub", "mul"):
            A, B = bv(a, w), bv(b, w)
            ok = {"add": lambda: z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B)), "sub": lambda: z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True)), "mul": lambda: z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))}[o]()
            s.oblige(st, ok, "ub:signed-overflow", "signed overflow in %s" % o, "mem")
        a = bv(a, w); b = bv(b, w)
        e = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b,
             "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b, "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b), "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[o]()
        return simp(e)
    overflow_checks = False
    def i_zext(s, st, f, I):
        v = s.ev(st, f, I.a[0]); fw = I.x["vw"]
        if v is UNDEF and I.w == 64: v = s.freshu(fw)
        if v.__class__ is int or v is UNDEF: pass
        elif z3.is_bool(v): v = bv(v, I.w)
        else: v = simp(z3.ZeroExt(I.w - fw, v))
        f.regs[I.id] = v; f.ip += 1
    def i_sext(s, st, f, I):
        v = s.ev(st, f, I.a[0]); fw = I.x["vw"]
        if v.__class__ is int: v = sgn(v, fw) & ((1 << I.w) - 1)
        elif v is UNDEF: pass
        elif z3.is_bool(v): v = z3.If(v, z3.BitVecVal(-1, I.w), z3.BitVecVal(0, I.w))
        else: v = simp(z3.SignExt(I.w - fw, v))
        f.regs[I.id] = v; f.ip += 1
    def i_trunc(s, st, f, I):
        v = s.ev(st, f, I.a[0])
        if v.__class__ is LazyPtr: raise NeedUnfold(v)
        if v.__class__ is int: v &= (1 << I.w) - 1
        elif v is UNDEF: pass
        else:
            if isinstance(v, SymPtr): v = v.expr()
            if I.w == 1: v = s.to_i1(v)
            else: v = simp(z3.Extract(I.w - 1, 0, bv(v, I.x["vw"])))
        f.regs[I.id] = v; f.ip += 1
    def i_bitcast(s, st, f, I): f.regs[I.id] = s.ev(st, f, I.a[0]); f.ip += 1
    def i_inttoptr(s, st, f, I):
        v = s.ev(st, f, I.a[0])
        if isinstance(v, z3.BitVecRef):
            mv = simp(v); v = mv
        f.regs[I.id] = v; f.ip += 1
    def i_ptrtoint(s, st, f, I):
        v = s.ev(st, f, I.a[0])
        if v.__class__ is LazyPtr: raise NeedUnfold(v)
        if v.__class__ is SymPtr: v = v.expr()
        f.regs[I.id] = v; f.ip += 1
    # ------------------------------------------------------------------ atomics
    def proto_of(s, st, a):
        if a.__class__ is SymPtr: k = a.base; 
        else: k = a & ~((1 << OBJ_SHIFT) - 1)
        p = st.ghost.get(("proto", k))
        return p
    def shared_plain(s, st, a, sz, kind, v):
        """plain access to an object with a protocol: None = treat as owned memory"""
        p = s.proto_of(st, a)
        if p is None: return None
        fn = getattr(p, "plain", None)
        if fn is None: return None
        return fn(s, st, a, sz, kind, v)
    def atomic(s, st, f, I, kind, a, sz, order, v=None, exp=None, rmw=None, ford=None, weak=False):
        a = s.ptr(st, a, "atomic " + kind)
        p = s.proto_of(st, a)
        if p is not None:
            r = p.atomic(s, st, a, sz, kind, order, v, exp, rmw, ford, weak)
            if r is not None:
                out = []
                for t, old in r:
                    ft = t.frames[-1]; t.act += 1
                    if kind == "cas": ft.regs[I.id] = old            # (old, success)
                    elif kind != "store": ft.regs[I.id] = old
                    ft.ip += 1; out.append(t)
                return out
        # not shared: sequential semantics
        if kind == "store": s.store(st, a, sz, v); f.ip += 1; return
        old = s.load(st, a, sz, "atomic load")
        if kind == "load":
            if I.w == 1: old = s.to_i1(old)
            f.regs[I.id] = old
        elif kind == "rmw":
            s.store(st, a, sz, s.rmwval(st, rmw, old, v, 8 * sz)); f.regs[I.id] = old
        elif kind == "cas":
            if old.__class__ is LazyPtr: raise NeedUnfold(old)
            if exp.__class__ is LazyPtr: raise NeedUnfold(exp)
            eq = s.icmp("eq", old, exp, 8 * sz)
            if eq.__class__ is int and not (weak and eq and s.spurious):
                if eq: s.store(st, a, sz, v)
                f.regs[I.id] = (old, eq); f.ip += 1; return
            out = []
            for val, cond in ((1, boolof(eq)), (0, z3.Not(boolof(eq)))) + (((0, z3.BoolVal(True)),) if weak and s.spurious else ()):
                if s.feasible(st, cond):
                    t = st.copy(); t.act += 1; s.assume(t, cond)
                    if val: s.store(t, a, sz, v)
                    t.frames[-1].regs[I.id] = (old, val); t.frames[-1].ip += 1; out.append(t)
            return out
        f.ip += 1
    spurious = False
    def rmwval(s, st, op, old, v, w):
        if op == "xchg": return v
        if op in ("add", "sub", "and", "or", "xor"): return s.bin(st, op, old, v, w)
        raise Unsupported("atomicrmw " + op)
    def i_atomicrmw(s, st, f, I):
        return s.atomic(st, f, I, "rmw", s.ev(st, f, I.a[0]), I.x["sz"], I.x["ord"], v=s.ev(st, f, I.a[1]), rmw=I.x["rmw"])
    def i_cmpxchg(s, st, f, I):
        return s.atomic(st, f, I, "cas", s.ev(st, f, I.a[0]), I.x["sz"], I.x["ord"], v=s.ev(st, f, I.a[2]), exp=s.ev(st, f, I.a[1]), ford=I.x["ford"], weak=bool(I.x["weak"]))
    # ------------------------------------------------------------------ intrinsics
    def memcpy(s, st, d, a, n):
        if n == 0: return
        d = s.ptr(st, d, "memcpy"); a = s.ptr(st, a, "memcpy")
        if d.__class__ is SymPtr or a.__class__ is SymPtr:
            # word-wise through the array machinery
            i = 0
            while i < n:
                step = next(k for k in (8, 4, 2, 1) if n - i >= k)
                s.store(st, s.padd(st, d, i, ()), step, s.load(st, s.padd(st, a, i, ()), step)); i += step
            return
        so, soff = s.access(st, a, n, "copy from", False); do, doff = s.access(st, d, n, "copy to", True)
        if so.arr is not None or do.arr is not None:
            i = 0
            while i < n:
                step = next(k for k in (8, 4, 2, 1) if n - i >= k)
                s.store(st, d + i, step, s.load(st, a + i, step)); i += step
            return
        new = []
        for co, (csz, cv) in so.cells.items():
            if co >= soff and co + csz <= soff + n: new.append((co - soff, csz, s.res(st, cv)))
            elif co < soff + n and soff < co + csz:
                cb = s.bytes_of(cv, csz)
                for i in range(csz):
                    if soff <= co + i < soff + n: new.append((co + i - soff, 1, cb[i]))
        s.clear_range(do, doff, n)
        for o, z, v in new: do.cells[doff + o] = (z, v)
    def intrinsic(s, st, f, I, F, args):
        n = F.n; r = None
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            if args[2].__class__ is not int: raise Unsupported("memcpy of symbolic size")
            s.memcpy(st, args[0], args[1], args[2])
        elif n.startswith("llvm.memset"):
            if args[2].__class__ is not int: raise Unsupported("memset of symbolic size")
            p = s.ptr(st, args[0], "memset")
            if p.__class__ is SymPtr: raise Unsupported("memset via symbolic pointer")
            if args[2]:
                o, off = s.access(st, p, args[2], "memset", True); s.clear_range(o, off, args[2]); i = 0
                b = args[1] if args[1].__class__ is int else None
                while i < args[2]:
                    step = 8 if (args[2] - i) >= 8 and (off + i) % 8 == 0 else 1
                    o.cells[off + i] = (step, UNDEF if b is None else int.from_bytes(bytes([b]) * step, "little")); i += step
        elif n.startswith(("llvm.lifetime.start",)):
            pass
        elif n.startswith("llvm.lifetime.end"): pass
        elif n.startswith(("llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.va_", "llvm.donothing", "llvm.prefetch")): pass
        elif n.startswith("llvm.expect"): r = args[0]
        elif n.startswith("llvm.launder") or n.startswith("llvm.strip"): r = args[0]
        elif n.startswith("llvm.threadlocal.address"): r = args[0]
        elif n.startswith("llvm.eh.typeid.for"): r = s.typeid(args[0])
        elif n.startswith("llvm.objectsize"): r = M64
        elif n.startswith(("llvm.stacksave",)): r = 0
        elif n.startswith(("llvm.stackrestore",)): pass
        elif n.startswith(("llvm.trap", "llvm.ubsantrap")): s.fail(st, "reach:trap", "trap reached")
        elif re.match(r"llvm\.(u|s)(min|max)\.", n):
            k = n.split(".")[1]; a, b = args; w = I.w
            c = s.icmp({"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[k], a, b, w)
            r = (a if c else b) if c.__class__ is int else simp(z3.If(c, bv(a, w), bv(b, w)))
        elif re.match(r"llvm\.(u|s)(add|sub|mul)\.with\.overflow", n):
            k = n.split(".")[1]; a, b = args; w = s.m.tw(I.x["at"][0])
            if a.__class__ is int and b.__class__ is int:
                x, y = (a, b) if k[0] == "u" else (sgn(a, w), sgn(b, w))
                full = {"add": x + y, "sub": x - y, "mul": x * y}[k[1:]]
                m = (1 << w) - 1
                ok = 0 <= full <= m if k[0] == "u" else -(1 << (w - 1)) <= full < (1 << (w - 1))
                r = (full & m, 0 if ok else 1)
            else:
                A, B = bv(a, w), bv(b, w)
                ext = (lambda z: z3.ZeroExt(w, z)) if k[0] == "u" else (lambda z: z3.SignExt(w, z))
                fu = {"add": ext(A) + ext(B), "sub": ext(A) - ext(B), "mul": ext(A) * ext(B)}[k[1:]]
                lo = z3.Extract(w - 1, 0, fu)
                r = (simp(lo), simp(ext(lo) != fu))
        elif n.startswith("llvm.ctlz") or n.startswith("llvm.cttz") or n.startswith("llvm.ctpop"):
            a = args[0]; w = I.w
            if a.__class__ is int:
                if "ctlz" in n: r = w - a.bit_length()
                elif "cttz" in n: r = (a & -a).bit_length() - 1 if a else w
                else: r = bin(a).count("1")
            else:
                A = bv(a, w)
                if "ctpop" in n: r = simp(sum([z3.ZeroExt(w - 1, z3.Extract(i, i, A)) for i in range(w)], z3.BitVecVal(0, w)))
                else:
                    rng = range(w) if "ctlz" in n else range(w - 1, -1, -1)
                    e = z3.BitVecVal(w, w)
                    for i in rng:
                        e = z3.If(z3.Extract(i, i, A) == 1, z3.BitVecVal(w - 1 - i if "ctlz" in n else i, w), e)
                    r = simp(e)
        elif n.startswith("llvm.abs"):
            a = args[0]; w = I.w
            r = abs(sgn(a, w)) & ((1 << w) - 1) if a.__class__ is int else simp(z3.If(a < 0, -a, a))
        else: raise Unsupported("intrinsic " + n)
        return s.finish_call(st, f, I, r)
    # ------------------------------------------------------------------ loops
    unroll_limit = None
    def cstr(s, st, p):
        import stdlib
        return stdlib.cstr(s, st, p)
    def loop_head(s, st, stopper):
        import loops
        return loops.loop_head(s, st, stopper)
