"""runseeds.py [substr...]: quick check of each planted bug's property on a mutated copy; prints what caught it"""
import sys, os, json, subprocess, tempfile, shutil, time
V = "/verif"; want = sys.argv[1:]
for d in sorted(os.listdir(V + "/seeded")):
    if want and not any(w in d for w in want): continue
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, d))); t = tempfile.mkdtemp(prefix="seed")
    shutil.copytree("/repo/macoro", t + "/macoro"); shutil.copytree("/repo/tests", t + "/tests")
    a = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + t, "%s/seeded/%s/patch.diff" % (V, d)], cwd="/", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if a.returncode: print(d, "PATCH FAILS", a.stdout[:200]); continue
    t0 = time.time()
    r = subprocess.run(["python3-vt", V + "/engine/main.py", meta["property"], "quick"], env=dict(os.environ, VP_REPO=t, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    L = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "FAILED", "UNDECIDED", "  concrete"))]
    print("%-40s %s rc=%d %.0fs %s" % (d, "CAUGHT" if r.returncode == 1 else "MISSED", r.returncode, time.time() - t0, " | ".join(l[:110] for l in L[:4])), flush=True)
    shutil.rmtree(t)
