#!/usr/bin/env python3-vt
"""Check driver:  main.py <property> [quick|thorough]
 1 deductive verification of the functions under contract (specs/<p>.cpp, specs/<p>.py) on IR of /repo's current sources
 2 bounded stand-ins: controlled-scheduler scenarios (native/<p>.cpp) on the real code
 3 on a failed obligation: longer search for a concrete failing execution to replay
exit 0 held / 1 violation / 2 error of the check."""
import sys, os, time, json, subprocess, multiprocessing as mp, traceback, signal, re, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import harness as H
from check import load_spec
VERIF = H.VERIF; REPO = H.REPO
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
EVD = os.path.join(VERIF, "evidence"); REPL = os.path.join(EVD, "replay")
NPROC = os.cpu_count() or 4

def log(*a): print(*a, flush=True)

# ------------------------------------------------------------------ native scenarios
def ensure_nx():
    out = os.path.join(VERIF, "bin/nx.o"); deps = [os.path.join(VERIF, "native", x) for x in ("nx.cpp", "nx.h")]
    if os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(d) for d in deps): return out
    os.makedirs(os.path.dirname(out), exist_ok=True); tmp = out + ".%d" % os.getpid()
    rc, o = H.sh(["g++", "-std=c++20", "-O1", "-g", "-c", deps[0], "-o", tmp])
    if rc: raise RuntimeError("nx runtime build failed\n" + o)
    os.rename(tmp, out); return out

def build_native(pid, variants):
    """-> [(variant, binary)]; raises CompileError"""
    d = os.path.join(H.WORK, pid + ".native"); os.makedirs(d, exist_ok=True)
    nx = ensure_nx(); bins = []; jobs = []
    for var in variants:
        own = var != "std"
        inc = H.gen_config(os.path.join(d, "inc_" + var), own)
        srcs = [os.path.join(VERIF, "native", pid.lower() + ".cpp")]
        if own: srcs += [os.path.join(REPO, "macoro/detail", x) for x in sorted(os.listdir(os.path.join(REPO, "macoro/detail"))) if x.endswith(".cpp") and x.startswith("stop")]
        objs = []
        for i, s in enumerate(srcs):
            o = os.path.join(d, "%s_%s_%d.o" % (var, os.path.basename(s), i)); objs.append(o)
            cmd = ["g++", "-std=c++20", "-O1", "-g", "-w", "-fsanitize=thread", "-fno-strict-aliasing", "-I", inc, "-I", REPO, "-I", os.path.join(VERIF, "native"), "-I", os.path.join(VERIF, "clients")] + (["-DNX_STD_STOP=1"] if not own else []) + ["-c", s, "-o", o]
            jobs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bins.append((var, os.path.join(d, "scen_" + var), objs))
    for cmd, p in jobs:
        o, _ = p.communicate(timeout=400)
        if p.returncode: raise H.CompileError(o[-4000:])
    out = []
    for var, b, objs in bins:
        rc, o = H.sh(["g++", *objs, nx, "-o", b, "-ldl", "-lpthread"])
        if rc: raise H.CompileError(o[-4000:])
        out.append((var, b))
    return out

class Native:
    def __init__(s, pid, bins, seconds, procs, seed0, maxex=None):
        s.jobs = []; s.pid = pid
        for k in range(procs):
            var, b = bins[k % len(bins)]
            rp = os.path.join(REPL, "%s-%s-%d.txt" % (pid, var, k))
            if os.path.exists(rp): os.remove(rp)
            cmd = [b, "--prop", pid, "--time", str(seconds), "--seed", str(seed0 * 1000 + k), "--out", rp] + (["--max", str(maxex)] if maxex else [])
            lf = open(os.path.join(H.WORK, "%s.native" % pid, "log_%d" % k), "w+")
            s.jobs.append((var, b, rp, subprocess.Popen(cmd, stdout=lf, stderr=subprocess.DEVNULL, start_new_session=True), lf))
        s.seconds = seconds; s.t0 = time.time()
    def wait(s, early=True):
        """-> (violation or None, stats, error)"""
        end = s.t0 + s.seconds * 1.5 + 60; viol = None; err = None
        live = list(s.jobs)
        while live and time.time() < end:
            for j in list(live):
                rc = j[3].poll()
                if rc is None: continue
                live.remove(j)
                if rc == 1 and viol is None: viol = j
                elif rc not in (0, 1): err = "native runner ended with status %s" % rc
            if viol and early: break
            if live: time.sleep(0.05)
        for j in live:
            try: os.killpg(j[3].pid, signal.SIGKILL)
            except OSError: pass
            j[3].wait()
        if live and not viol: err = "native runner did not end in time"
        stats = {}
        res = None
        for j in s.jobs:
            j[4].flush(); j[4].seek(0); t = j[4].read()
            for m in re.finditer(r"OK scenario=(\S+) executions=(\d+) distinct=(\d+)", t):
                a = stats.setdefault(m.group(1), [0, 0]); a[0] += int(m.group(2)); a[1] += int(m.group(3))
            if j is viol:
                m = re.search(r"FAIL scenario=(\S+) seed=(\d+) msg=([^\n]*)", t)
                res = dict(scenario=m.group(1), seed=int(m.group(2)), msg=m.group(3), replay=j[2], variant=j[0], binary=j[1]) if m else None
                if res is None: err = "native runner failed without a report"
        return res, stats, err

def confirm(v):
    """replay the recorded schedule against the real code"""
    try: p = subprocess.run([v["binary"], "--replay", v["replay"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=90)
    except subprocess.TimeoutExpired: return False
    return p.returncode == 1

# ------------------------------------------------------------------ proofs
_MOD = {}
def _one(args):
    pid, key, name, deadline = args
    S, mod = _MOD[key]
    pr = next(p for p in S.PROOFS if p.name == name)
    r = H.run_proof(mod, pid, pr, min(deadline, time.time() + getattr(pr, "limit", 240)))
    r.failures = [(f.name, f.text()) for f in r.failures]; r.reached = sorted(map(str, r.reached)); r.loops = str(r.loops)
    return r

def run_proofs(pid, S, budget):
    """-> (results, errors)"""
    res = []; errs = []; groups = {}
    deadline = time.time() + budget
    for pr in S.PROOFS: groups.setdefault(getattr(pr, "unit", None), []).append(pr)
    units = getattr(S, "UNITS", None) or {None: S.SRCS}
    tasks = []
    for u, prs in groups.items():
        try:
            srcs = [x.replace("/repo", REPO) if x.startswith("/") else os.path.join(VERIF, "specs", x) for x in units[u]]
            _MOD[(pid, u)] = (S, H.compile_module(pid + ("." + u if u else ""), srcs, own_stop=getattr(S, "OWN_STOP", True)))
            tasks += [(pid, (pid, u), p.name, deadline) for p in prs]
        except H.CompileError as e:
            errs.append(("unit %s" % (u or pid), "the contract translation unit no longer compiles: " + str(e)[-1500:]))
        except Exception as e:
            errs.append(("unit %s" % (u or pid), "extraction failed: %s" % traceback.format_exc()[-1500:]))
    if tasks:
        tasks.sort(key=lambda t: -next(p for p in S.PROOFS if p.name == t[2]).weight)
        with mp.get_context("fork").Pool(min(NPROC, len(tasks)), maxtasksperchild=1) as pool:
            its = [(t, pool.apply_async(_one, (t,))) for t in tasks]
            for t, it in its:
                try: res.append(it.get(timeout=max(1, deadline + 60 - time.time())))
                except mp.TimeoutError: errs.append((t[2], "time limit"))
                except Exception as e: errs.append((t[2], "engine failure: %r" % e))
            pool.terminate()
    return res, errs

# ------------------------------------------------------------------ known findings
def known():
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
            if m: out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    proofs_only = tier == "proofs"; only = sys.argv[3:]
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    os.makedirs(REPL, exist_ok=True); os.makedirs(H.WORK, exist_ok=True)
    K = known().get(pid, {})
    S = load_spec(pid) if os.path.exists(os.path.join(VERIF, "specs", pid.lower() + ".py")) else None
    has_native = os.path.exists(os.path.join(VERIF, "native", pid.lower() + ".cpp"))
    thorough = tier == "thorough"
    if proofs_only:
        if only: S.PROOFS = [p for p in S.PROOFS if any(o in p.name for o in only)]
        res, errs = run_proofs(pid, S, 800)
        for r in sorted(res, key=lambda r: r.name):
            log("%-40s %s obl=%d solver=%d(%.1fs) paths=%d wall=%.1f%s" % (r.name, "FAIL" if r.failures else "ERR" if r.error else "ok", r.n_obl, r.n_solver, r.t_solver, r.paths, r.wall, " " + r.error.splitlines()[0] if r.error else ""))
            if r.error and "internal" in r.error: log(r.error)
            seen = {}
            for f in r.failures: seen.setdefault(f[0], []).append(f[1])
            for k, v in seen.items(): log("    %s x%d" % (k, len(v)))
            if r.failures: log("\n".join(min(r.failures, key=lambda f: len(f[1]))[1].splitlines()[:int(os.environ.get("L", "12"))]))
        for e in errs: log(e)
        return 0
    variants = getattr(S, "NATIVE_VARIANTS", ["own"]) if S else ["own"]
    # native compile in background thread while proofs run
    import threading
    nat = {}
    def nbuild():
        try: nat["bins"] = build_native(pid, variants)
        except H.CompileError as e: nat["err"] = "native scenarios do not compile: " + str(e)[-1500:]
        except Exception as e: nat["err"] = "native build: %s" % traceback.format_exc()[-1500:]
    H.ensure_irdump()
    results, errs = [], []
    if has_native: th = threading.Thread(target=nbuild); 
    if S and S.PROOFS:
        # fork before starting threads is not needed: compile first, then build natives
        if has_native: th.start(); th.join()
        results, errs = run_proofs(pid, S, 700 if thorough else 300)
    elif has_native: th.start(); th.join()
    failed = [(r, f) for r in results for f in r.failures]
    undecided = [(r.name, r.error) for r in results if r.error and not r.failures] + errs
    for r in results:
        log("proof %-44s %s obligations=%d solver=%d(%.2fs) paths=%d wall=%.1fs" % (r.name, "FAILED" if r.failures else ("UNDECIDED " + r.error.splitlines()[0]) if r.error else "discharged", r.n_obl, r.n_solver, r.t_solver, r.paths, r.wall))
    for n, e in errs: log("proof %s UNDECIDED %s" % (n, e[-600:]))
    # known findings among the failed obligations
    hits = {}; newfail = []
    for r, f in failed:
        key = "%s/%s" % (r.name, f[0])
        k = next((k for k in K if k in (key, key.replace(" ", "_"), f[0], f[0].replace(" ", "_"))), None)
        if k: hits[k] = K[k]
        else: newfail.append((r, f))
    viol = None; stats = {}; nerr = nat.get("err")
    if nat.get("bins"):
        secs = (90 if thorough else (12 if not newfail else 100))
        if undecided and not newfail: secs = max(secs, 60)
        n = Native(pid, nat["bins"], secs, NPROC if (thorough or newfail or undecided) else 4, SEED)
        viol, stats, e2 = n.wait()
        if e2: nerr = e2
        if viol and not confirm(viol): log("note: the recorded schedule did not replay identically: %s" % viol["msg"])
    for s, (a, b) in sorted(stats.items()): log("scenario %-30s executions=%d distinct schedules=%d" % (s, a, b))
    # known-finding demonstrations (scenario keys)
    for k, what in K.items(): hits.setdefault(k, what)
    for k, what in sorted(hits.items()): log("KNOWN-FINDING: property=%s %s (%s)" % (pid, what, k))
    nob = sum(r.n_obl for r in results); nfail = len(failed)
    level = getattr(S, "LEVEL", "proof") if S and S.PROOFS else "exploration"
    asm = list(getattr(S, "ASSUMPTIONS", ())) if S else []
    hooked = sorted(set(h for r in results for h in r.hooked))
    cov = {}
    if S and S.PROOFS:
        dis = sum(r.n_obl - len(r.failures) for r in results if not r.error)
        cov.update(obligations=nob + len(undecided) - (nfail - len(newfail)), discharged=dis, known_findings=sorted(hits),
            checker_cmd="python3-vt /verif/engine/main.py %s %s  (IR of /repo's headers -> verification conditions -> z3)" % (pid, tier),
            trusted_base=["clang-18 front end and coroutine lowering", "engine/vp.py verification-condition generator", "z3 " + __import__("z3").get_version_string()] + ["contract (trusted): " + h for h in hooked],
            functions_under_contract=sorted(set(f for r in results for f in r.functions)),
            functions_executed=sorted(set(x for r in results for x in r.executed if "macoro" in x))[:400],
            back_end=dict(z3_queries=sum(r.n_solver for r in results), z3_seconds=round(sum(r.t_solver for r in results), 2), decided_by_simplification=sum(r.n_static for r in results)),
            loops_with_inferred_invariants=[r.loops for r in results if r.loops not in ("[]", "0", "{}", "None")],
            per_proof=[dict(name=r.name, functions=list(r.functions), obligations=r.n_obl, failed=len(r.failures), undecided=r.error, bounded=getattr(r, "bounded", None), paths=r.paths, wall_s=round(r.wall, 2), reached=r.reached[:20]) for r in results],
            undecided=[dict(proof=a, why=str(b)[-400:]) for a, b in undecided])
    if stats:
        cov["bounded_stand_in"] = dict(label="bounded: executions of the real code under a controlled scheduler; never counted as proved", scenarios={k: dict(executions=a, distinct_schedules=b) for k, (a, b) in stats.items()})
    if level == "exploration":
        cov.update(evaluations=sum(a for a, b in stats.values()), distinct_nontrivial=sum(b for a, b in stats.values()), rule="one execution of a scenario with one schedule/input choice sequence; distinct = different choice sequences", samples=[k for k in stats][:5] or ["none"])
    bad = bool(newfail or viol)
    os.makedirs(EVD, exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=SEED, level=level, coverage=cov or {"explanation": "nothing ran"}, assumptions=asm, wall_s=round(time.time() - t0, 2), violations=(len(newfail) if newfail else int(bool(viol)))), open(os.path.join(EVD, pid + ".json"), "w"), indent=1)
    if nerr: log("note: %s" % nerr)
    if viol:
        with open(viol["replay"], "a") as f:
            f.write("\n# replay: %s --replay %s   (binary is built by the check from /repo)\n" % (viol["binary"], viol["replay"]))
            for r, x in newfail: f.write("# failed obligation: %s: %s\n%s\n" % (r.name, x[0], "\n".join("#   " + l for l in x[1].splitlines()[:60])))
        for r, x in newfail[:6]: log("failed obligation: %s: %s" % (r.name, x[0]))
        log("concrete failing execution: scenario %s: %s" % (viol["scenario"], viol["msg"]))
        log("VIOLATION property=%s replay=%s" % (pid, viol["replay"])); return 1
    if newfail:
        rp = os.path.join(REPL, pid + "-obligation.txt")
        with open(rp, "w") as f:
            f.write("# failed proof obligations (no concrete failing input was found)\n")
            for r, x in newfail: f.write("proof: %s\nobligation: %s\n%s\n\n" % (r.name, x[0], x[1]))
        for r, x in newfail[:6]: log("failed obligation: %s: %s\n%s" % (r.name, x[0], "\n".join(x[1].splitlines()[:12])))
        log("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp)); return 1
    decided = [r for r in results if not r.error]
    if not decided and not stats: log("ERROR: nothing could be decided"); return 2
    if has_native and not stats and not (decided and not undecided): log("ERROR: neither proofs nor scenarios decide the property on this tree"); return 2
    log("OK property=%s obligations=%d discharged=%d undecided=%d scenarios=%d wall=%.1fs" % (pid, nob, nob - nfail, len(undecided), len(stats), time.time() - t0))
    return 0
if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc)
