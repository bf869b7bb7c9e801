"""Load the JSON rendering of an LLVM module produced by irdump (see irdump.cpp)."""
import json, re
from collections import namedtuple

OBJ_SHIFT = 20
GLOBAL_BASE = 0x5000_0000_0000      # globals
FUNC_BASE = 0x6000_0000_0000        # code addresses
HEAP_BASE = 0x7000_0000_0000        # everything allocated during execution

class _Undef:
    def __repr__(self): return "undef"
    def __deepcopy__(self, m): return self
UNDEF = _Undef()

class Inst:
    __slots__ = ("o", "id", "ty", "a", "x", "w", "fn", "blk", "ix")
    def __repr__(self): return "%s#%d" % (self.o, self.id)

class Func:
    def __init__(self, d): self.__dict__.update(d)
    def __repr__(self): return self.d

class Module:
    def __init__(self, path):
        J = json.load(open(path))
        self.types = J["types"]; self.di = J["di"]
        self.globals = {}; self.gaddr = {}; self.addr2g = {}
        self.funcs = {}; self.faddr = {}; self.addr2f = {}
        k = 0
        for g in J["globals"]:
            a = GLOBAL_BASE + (k << OBJ_SHIFT); k += 1
            self.globals[g["n"]] = g; self.gaddr[g["n"]] = a; self.addr2g[a] = g["n"]
        for i, f in enumerate(J["functions"]):
            a = FUNC_BASE + (i << 6)
            self.faddr[f["n"]] = a; self.addr2f[a] = f["n"]
        for f in J["functions"]:
            F = Func({k: v for k, v in f.items() if k != "blocks"})
            F.nargs = len(f["args"]); F.defined = "blocks" in f
            F.loops = None; F.live = None
            if F.defined:
                F.blocks = [[self._inst(i, f["n"], b, n) for n, i in enumerate(bl)] for b, bl in enumerate(f["blocks"])]
            self.funcs[F.n] = F
        self.demangled = {}
        for n, F in self.funcs.items(): self.demangled.setdefault(F.d, []).append(F)
    def tw(self, t):
        T = self.types[t]
        k = T["k"]
        if k == "i": return T["w"]
        if k in "pf": return T["w"]
        return None
    def tsize(self, t): return self.types[t].get("sz", 0)
    def const(self, o):
        """operand -> ('v',id) | ('k',value) | ('bb',n) | ..."""
        t = o[0]
        if t == "v": return ("v", o[1])
        if t == "c": return ("k", o[1])
        if t == "undef": return ("k", self.undef_of(o[1]))
        if t == "g":
            n = o[1]
            if n in self.gaddr: return ("k", self.gaddr[n])
            return ("k", self.faddr[n])
        if t == "zero": return ("k", self.zero_of(o[1]))
        if t == "agg": return ("k", tuple(self.const(e)[1] for e in o[2]))
        if t == "gep":
            b = self.const(o[1])
            if b[0] == "k" and not o[3]: return ("k", b[1] + o[2])
            return ("gep", b, o[2], [(self.const(i), s, w) for i, s, w in o[3]])
        if t == "ce":
            ops = [self.const(e)[1] for e in o[3]]
            if o[1] in ("ptrtoint", "inttoptr", "bitcast"): return ("k", ops[0])
            w = self.tw(o[2])
            if all(isinstance(x, int) for x in ops):
                m = (1 << (w or 64)) - 1
                if o[1] == "sub": return ("k", (ops[0] - ops[1]) & m)
                if o[1] == "add": return ("k", (ops[0] + ops[1]) & m)
                if o[1] == "trunc": return ("k", ops[0] & m)
            return ("unk", "ce " + o[1])
        if t == "fp": return ("k", o[1])
        if t == "bb": return ("bb", o[1])
        if t in ("md", "token"): return ("k", None)
        if t == "asm": return ("asm", o[1])
        return ("unk", t)
    def undef_of(self, t):
        T = self.types[t]
        if T["k"] == "s": return tuple(self.undef_of(e) for e in T["e"])
        if T["k"] == "a" and T["n"] <= 64: return tuple(self.undef_of(T["e"]) for _ in range(T["n"]))
        return UNDEF
    def zero_of(self, t):
        T = self.types[t]
        if T["k"] == "s": return tuple(self.zero_of(e) for e in T["e"])
        if T["k"] in ("a", "vec") and T["n"] <= 4096: return tuple(self.zero_of(T["e"]) for _ in range(T["n"]))
        return 0
    def _inst(self, d, fn, b, n):
        I = Inst(); I.o = d["o"]; I.id = d["id"]; I.ty = d["ty"]; I.x = d; I.fn = fn; I.blk = b; I.ix = n
        I.w = self.tw(d["ty"])
        if "a" in d: I.a = [self.const(o) for o in d["a"]]
        else: I.a = ()
        if "gep" in d: d["g"] = self.const(d["gep"]) ; d["g"] = d["g"] if d["g"][0] == "gep" else d["g"]
        if "f" in d and isinstance(d["f"], list): d["f"] = self.const(d["f"])
        if "c" in d: d["c"] = self.const(d["c"])
        if "n" in d and I.o == "alloca": d["n"] = self.const(d["n"])
        if "in" in d: d["in"] = {b: self.const(v) for b, v in d["in"]}
        if "cl" in d: d["cl"] = [(k, self.const(v)) for k, v in d["cl"]]
        if "vt" in d: d["vw"] = self.tw(d["vt"])
        return I
    # ---- CFG helpers ----
    def succs(self, F, b):
        t = F.blocks[b][-1]; x = t.x
        if t.o == "br": return [x["t"]] + ([x["f"]] if "c" in x else [])
        if t.o == "switch": return [x["def"]] + [c[1] for c in x["cs"]]
        if t.o == "invoke": return [x["nd"], x["ud"]]
        return []
    def analyse(self, F):
        """natural loops (header -> body) and per-header live-in registers"""
        if F.loops is not None: return
        n = len(F.blocks); S = [self.succs(F, b) for b in range(n)]
        P = [[] for _ in range(n)]
        for b in range(n):
            for s in S[b]: P[s].append(b)
        # reachability + dominators (iterative, sets; functions are small)
        order = []; seen = {0}; st = [(0, iter(S[0]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(S[s]))); break
            else: order.append(b); st.pop()
        order.reverse()
        dom = {b: None for b in order}; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in P[b] if p in dom and dom[p] is not None]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        loops = {}
        for b in order:
            for s in S[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s}); stack = [b]
                    while stack:
                        y = stack.pop()
                        if y not in body: body.add(y); stack.extend(p for p in P[y] if p in dom)
        # liveness
        use = [set() for _ in range(n)]; df = [set() for _ in range(n)]; phiuse = [set() for _ in range(n)]
        def ops_of(I):
            out = []
            def walk(o):
                if isinstance(o, tuple):
                    if o and o[0] == "v" and len(o) == 2: out.append(o[1])
                    elif o and o[0] == "gep":
                        walk(o[1]); [walk(i[0]) for i in o[3]]
            for o in I.a: walk(o)
            for k in ("g", "f", "c", "n"):
                if k in I.x and isinstance(I.x[k], tuple): walk(I.x[k])
            return out
        for b in range(n):
            for I in F.blocks[b]:
                if I.o == "phi":
                    for pb, v in I.x["in"].items():
                        if v[0] == "v": phiuse[pb].add(v[1])
                else:
                    for r in ops_of(I):
                        if r not in df[b]: use[b].add(r)
                df[b].add(I.id)
        livein = [set(u) for u in use]; ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set(phiuse[b])
                for s in S[b]: out |= livein[s]
                ni = use[b] | (out - df[b])
                if ni != livein[b]: livein[b] = ni; ch = True
        for h in loops:   # phi results of the header are live-in for our purpose (we cut after the phis)
            for I in F.blocks[h]:
                if I.o == "phi": livein[h].add(I.id)
        F.loops = loops; F.live = livein
    def find(self, pat):
        """functions whose demangled name matches regex fully"""
        r = re.compile(pat)
        return [F for F in self.funcs.values() if r.fullmatch(F.d)]
    def field(self, cls, name, typehint=None, index=None):
        """byte offset of a field from debug info: by name, else by unique type"""
        c = self.di.get(cls)
        if c is None: raise KeyError("no debug info for type " + cls)
        fl = [m for m in c["m"] if m[0] != "<base>"]
        for m in fl:
            if m[0] == name: return m[1]
        if typehint:
            c2 = [m for m in fl if re.search(typehint, m[2])]
            if len(c2) == 1: return c2[0][1]
            if index is not None and index < len(c2): return c2[index][1]
        raise KeyError("field %s of %s not found" % (name, cls))
