"""mkseed.py DEF.py...   build /verif/seeded/<id>/ from a definition and confirm it: applies, builds, passes the stable tests, demo 0 on the clean
tree and nonzero with the change.  DEF.py defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, MODE ('plain'|'nx'), DEMO (C++), optional FLAGS, SECS."""
import sys, os, subprocess, json, shutil
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
PLAIN = '''#!/bin/bash
# builds the demonstration against the tree in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -g -w %s -I "$PWD/_build/own_stop" -I "$PWD" "$D"/demo.cpp "$PWD"/macoro/detail/stop*.cpp -o "$T/demo" -lpthread || exit 3
timeout 120 "$T/demo"
'''
NX = '''#!/bin/bash
# explores thread schedules of the demonstration (nx: controlled scheduler) against the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -w -c "$D"/nx.cpp -o "$T/nx.o" || exit 3
g++ -std=c++20 -O1 -g -w -fsanitize=thread -fno-strict-aliasing %s -I "$PWD/_build/own_stop" -I "$PWD" -I "$D" -c "$D"/demo.cpp -o "$T/demo.o" || exit 3
i=0; for f in "$PWD"/macoro/detail/stop*.cpp; do i=$((i+1)); g++ -std=c++20 -O1 -w -fsanitize=thread -fno-strict-aliasing -I "$PWD/_build/own_stop" -I "$PWD" -c "$f" -o "$T/s$i.o" || exit 3; done
g++ "$T"/*.o -o "$T/demo" -ldl -lpthread || exit 3
timeout 200 "$T/demo" --prop DEMO --time %d --seed 1 --out "$T/replay"
'''
for path in sys.argv[1:]:
    g = dict(MODE="plain", FLAGS="", SECS=20); exec(open(path).read(), g)
    d = "/verif/seeded/" + g["ID"]; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    if sh("git -C /repo status --porcelain").stdout.strip(): print("repo dirty"); sys.exit(1)
    ok = True
    try:
        for f, old, new in g["EDITS"]:
            p = "/repo/" + f; s = open(p, newline='').read()
            if s.count(old) != 1: print(g["ID"], "edit matches", s.count(old), f, repr(old[:50])); ok = False; break
            open(p, "w", newline='').write(s.replace(old, new))
        if ok: open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally: sh("git -C /repo checkout -- .")
    if not ok: shutil.rmtree(d); continue
    open(d + "/demo.cpp", "w").write(g["DEMO"])
    if g["MODE"] == "nx":
        for x in ("nx.cpp", "nx.h"): shutil.copy("/verif/native/" + x, d)
        open(d + "/demo.sh", "w").write(NX % (g["FLAGS"], g["SECS"]))
    else: open(d + "/demo.sh", "w").write(PLAIN % g["FLAGS"])
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    msgs = []
    # original lines only
    bl = sh("git -C /repo apply --check %s/patch.diff" % d); 
    if bl.returncode: print(g["ID"], "patch does not apply"); continue
    r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    if r.returncode != 0: print(g["ID"], "DEMO FAILS ON CLEAN TREE rc", r.returncode, r.stdout[-1500:]); continue
    try:
        sh("git -C /repo apply %s/patch.diff" % d)
        b = sh("bash /opt/vp/test.sh /tmp/seed.json", timeout=600)
        base = json.load(open("/opt/vp/BASELINE.json")); ids = base.get("passed") or base.get("tests") or base.get("stable") or list(base)
        if isinstance(ids, dict): ids = list(ids)
        got = set(json.load(open("/tmp/seed.json"))["passed"]); miss = [x for x in ids if x not in got]
        r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        print(g["ID"], "tests-missing", len(miss), miss[:4], "demo rc", r.returncode, r.stdout[-200:].replace("\n", " | "), "" if not miss and r.returncode not in (0, 3) else "  <<<<<< NOT GOOD", flush=True)
    finally: sh("git -C /repo checkout -- ."); 
sh("bash /opt/vp/build.sh")
