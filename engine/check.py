import sys, os, time, importlib.util
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness as H
def load_spec(pid):
    p = os.path.join(H.VERIF, "specs", pid.lower() + ".py")
    sys.path.insert(0, os.path.join(H.VERIF, "specs"))
    sp = importlib.util.spec_from_file_location(pid.lower(), p); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m
if __name__ == "__main__":
    pid = sys.argv[1]; only = sys.argv[2:] 
    S = load_spec(pid)
    t0 = time.time()
    mod = H.compile_module(pid, [os.path.join(H.VERIF, "specs", x) if not x.startswith("/") else x for x in S.SRCS], own_stop=getattr(S, "OWN_STOP", True))
    print("compile+load %.1fs" % (time.time() - t0))
    for pr in S.PROOFS:
        if only and not any(o in pr.name for o in only): continue
        r = H.run_proof(mod, pid, pr, time.time() + 600)
        print("%-45s %s obl=%d (static %d) solver=%d %.2fs paths=%d steps=%d wall=%.2f loops=%s" % (r.name, "ERR" if r.error else ("FAIL" if r.failures else "ok"), r.n_obl, r.n_static, r.n_solver, r.t_solver, r.paths, r.steps, r.wall, r.loops))
        if r.error: print("   ", r.error)
        seen = set()
        for f in r.failures:
            if f.name in seen or len(seen) > 3: continue
            seen.add(f.name); print(f.text())
