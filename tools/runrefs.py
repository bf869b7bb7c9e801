"""runrefs.py [substr..]  apply each behaviour-preserving refactoring of tools/refs.py to a scratch copy and run the checks: they must stay quiet"""
import sys, os, shutil, subprocess, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refs import REFS
src = os.environ.get("MUTSRC", "/repo"); bad = 0
for name, props, edits in REFS:
    if len(sys.argv) > 1 and not any(x in name for x in sys.argv[1:]): continue
    d = tempfile.mkdtemp(prefix="ref"); shutil.copytree(src + "/macoro", d + "/macoro"); ok = True
    for f, old, new in edits:
        p = d + "/macoro/" + f; s = open(p, newline='').read(); crlf = '\r\n' in s; s = s.replace('\r\n', '\n')
        if s.count(old) != 1: print(name, "edit matches", s.count(old), f, repr(old[:60])); ok = False; break
        s = s.replace(old, new); open(p, "w", newline='').write(s.replace('\n', '\r\n') if crlf else s)
    if ok:
        if os.environ.get("KEEP"): print(d)
        for pid in props:
            r = subprocess.run(["python3-vt", "/verif/engine/main.py", pid, "quick"], env=dict(os.environ, VP_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); L = r.stdout.splitlines()
            print("%-14s %s rc=%d %s" % (name, pid, r.returncode, "" if r.returncode == 0 else "*** ALARM"), flush=True)
            for l in L:
                if any(x in l for x in ("FAILED", "UNDECIDED", "VIOLATION", "ERROR", "does not compile", "no longer compiles")): print("      " + l[:200])
            bad += r.returncode != 0
    if not os.environ.get("KEEP"): shutil.rmtree(d)
print("alarms", bad)
