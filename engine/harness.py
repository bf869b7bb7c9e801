"""Build the contract translation units from /repo's current headers and run proofs."""
import os, subprocess, sys, time, hashlib, traceback, json, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "engine"))
from ir import Module
import vp
from vp import Engine, Unsupported, PathEnd
WORK = os.path.join(VERIF, "work")
CLANG = "clang++-18"; OPT = "opt-18"; LINK = "llvm-link-18"

def sh(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout

def gen_config(d, own_stop=True):
    """config.h from the repo's template (what cmake's configure_file does)"""
    t = open(os.path.join(REPO, "macoro/config.h.in")).read()
    on = {"MACORO_CPP_20": "ON"}
    if not own_stop: on["MACORO_HAS_STD_STOP_TOKEN"] = "ON"
    def rep(m):
        n = m.group(1)
        return "#define %s %s" % (n, on[n]) if n in on else "/* #undef %s */" % n
    t = re.sub(r"#cmakedefine\s+(\w+)[^\n]*", rep, t)
    os.makedirs(os.path.join(d, "macoro"), exist_ok=True)
    p = os.path.join(d, "macoro/config.h")
    if not os.path.exists(p) or open(p).read() != t: open(p, "w").write(t)
    return d

def ensure_irdump():
    out = os.path.join(VERIF, "bin/irdump"); src = os.path.join(VERIF, "engine/irdump.cpp")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    rc, o = sh(["g++", "-std=c++20", "-O1", "-I/usr/include/llvm-18", "-I/usr/include/llvm-c-18", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    if rc: raise RuntimeError("irdump build failed\n" + o)
    os.rename(tmp, out); return out

def compile_module(pid, srcs, own_stop=True, defs=(), passes=None, extra=()):
    """srcs: list of C++ files (harness TU and possibly repo .cpp files). -> Module"""
    d = os.path.join(WORK, pid); os.makedirs(d, exist_ok=True)
    inc = gen_config(os.path.join(d, "inc_own" if own_stop else "inc_std"), own_stop)
    bcs = []
    procs = []
    for i, sfile in enumerate(srcs):
        bc = os.path.join(d, "%s_%d.bc" % (os.path.basename(sfile), i)); bcs.append(bc)
        cmd = [CLANG, "-std=c++20", "-O1", "-g", "-fno-access-control", "-fstandalone-debug" if False else "-g", "-Xclang", "-disable-llvm-passes", "-w", "-I", inc, "-I", REPO, "-I", os.path.join(VERIF, "specs"), "-I", os.path.join(VERIF, "clients"),
               "-DVP_VERIFY=1"] + ["-D" + x for x in defs] + list(extra) + ["-c", "-emit-llvm", sfile, "-o", bc]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for cmd, p in procs:
        o, _ = p.communicate()
        if p.returncode: raise CompileError(o)
    bc = bcs[0]
    if len(bcs) > 1:
        bc = os.path.join(d, "linked.bc")
        rc, o = sh([LINK, *bcs, "-o", bc])
        if rc: raise CompileError(o)
    b2 = os.path.join(d, "low.bc")
    rc, o = sh([OPT, "-passes=" + (passes or "coro-early,cgscc(coro-split),coro-cleanup,function(sroa,simplifycfg)"), bc, "-o", b2])
    if rc: raise CompileError(o)
    js = os.path.join(d, "mod.json")
    rc, o = sh([ensure_irdump(), b2, js])
    if rc: raise CompileError(o)
    return Module(js)

class CompileError(Exception): pass

class Proof:
    """One function under contract.  body(ctx) sets up the precondition, runs the real code and states the postcondition."""
    def __init__(s, name, body, functions=(), weight=1): s.name = name; s.body = body; s.functions = functions; s.weight = weight

class Result:
    pass

def run_proof(mod, pid, pr, deadline):
    eng = Engine(mod, pr.name, deadline)
    r = Result(); r.name = pr.name; r.error = None; r.functions = pr.functions
    t0 = time.time()
    try:
        pr.body(eng)
    except Unsupported as e: r.error = "unsupported: %s" % e
    except KeyError as e: r.error = "missing: %s" % e
    except PathEnd: pass
    except RecursionError: r.error = "recursion"
    except Exception as e:
        r.error = "internal: %s\n%s" % (e, traceback.format_exc())
    r.failures = eng.failures; r.obl = dict(eng.obl); r.n_obl = eng.n_obl; r.n_solver = eng.n_solver; r.t_solver = eng.t_solver; r.n_static = eng.n_static
    r.executed = sorted(eng.executed); r.hooked = sorted(eng.hooked); r.loops = eng.loops_inferred; r.paths = eng.paths; r.reached = set(eng.reached); r.steps = eng.steps
    r.covers = getattr(eng, "covers", ()); r.wall = time.time() - t0
    if r.error is None and not r.failures:
        if r.n_obl == 0: r.error = "vacuous: no obligations"
        miss = [c for c in r.covers if c not in r.reached]
        if miss: r.error = "vacuous: not reached: %s" % miss
    return r
