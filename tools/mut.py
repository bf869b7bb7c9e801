"""mut.py PID file old new [count]   run proofs (and native 10s) on a mutated copy"""
import sys,os,shutil,subprocess,tempfile
pid,f,old,new=sys.argv[1:5]
d=tempfile.mkdtemp(prefix="mut"); shutil.copytree(os.environ.get("MUTSRC","/repo")+"/macoro",d+"/macoro")
p=d+"/macoro/"+f; s=open(p,newline='').read().replace('\r\n','\n')
old=old.replace('\\n','\n').replace('\\t','\t'); new=new.replace('\\n','\n').replace('\\t','\t')
n=s.count(old); print("matches",n)
if not n: sys.exit(1)
k=int(sys.argv[5]) if len(sys.argv)>5 else 0
i=-1
for _ in range(k+1): i=s.index(old,i+1)
s=s[:i]+new+s[i+len(old):]
open(p,"w").write(s)
env=dict(os.environ,VP_REPO=d)
r=subprocess.run(["python3-vt","/verif/engine/main.py",pid,"quick"],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
L=r.stdout.splitlines()
print("\n".join(l[:240] for l in L if any(x in l for x in ("FAILED","UNDECIDED","VIOLATION","concrete","OK ","ERROR","note","failed ob","Error"))))
print("rc",r.returncode); shutil.rmtree(d)
