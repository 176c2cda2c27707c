import sys,json,subprocess,os,re
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
import tempfile; TMP=tempfile.mkdtemp()
sys.path.insert(0,VERIF+'/lib')
import gvf
from check import leaves
from gvf import *
sr=subprocess.check_output(["rustc","+nightly","--print","sysroot"],text=True).strip()
env=dict(os.environ,LD_LIBRARY_PATH=sr+"/lib",VF_FACTS=TMP,RUSTUP_TOOLCHAIN="nightly",VF_ALL="1",CARGO_PRIMARY_PACKAGE="1")
r=subprocess.run([VERIF+"/.build/driver","rustc","--crate-name","pairs","--crate-type","lib","--edition","2024","--emit","metadata","-o",TMP+"/x.rmeta",HERE+"/pairs.rs"],env=env,capture_output=True,text=True)
if r.returncode: print(r.stderr); sys.exit(1)
P=Program({'pairs':json.load(open(TMP+'/pairs.json'))})
def summ(b):
    E=Engine(P,sinks=[r'^pairs::sink',r'::sink2?$'])
    r=E.run_root(b)
    out={}
    for k,(c,w) in E.table_of(lambda e:e.kind in('sink','mut','store','write')).items(): out[k]=E.condtext(c)
    for l,c in leaves(E,r,E.pc,b["types"][b["locals"][0][0]]=="bool"): out["RET "+E.text(l,c)]=E.condtext(c)
    return out
groups={}; REF={}
DIFFER=[(60,61),(69,70)]   # groups that must not mean the same (a loop left early against one element skipped)
for b in P.bodies.values():
    m=re.match(r'^pairs::([a-z])(\d+)$',b['name'])
    if m: groups.setdefault(int(m.group(2)),[]).append((m.group(1),b))
bad=0
for g in sorted(groups):
    if len(sys.argv)>1 and str(g) not in sys.argv[1:]: continue
    ref=None
    for n,b in sorted(groups[g],key=lambda x:x[0]):
        s=summ(b)
        if ref is None: ref=REF[g]=s; print(f"== {n}{g}"); [print("   ",k,"WHEN",v) for k,v in sorted(s.items())]
        elif s!=ref:
            bad+=1
            print(f"!! {n}{g} differs"); [print("   ",k,"WHEN",v) for k,v in sorted(s.items())]
        else: print(f"ok {n}{g}")
for a,b in DIFFER:
    if a in REF and b in REF and REF[a]==REF[b]: bad+=1; print(f"!! {a} and {b} are told apart by nothing")
print("BAD",bad)
