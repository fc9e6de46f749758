"""tools/mutate.py FILE...  plants every small mutation of the given source files of /repo, one at a time in a scratch copy,
and runs the checks against it until one reports a violation. Results go to /tmp/mutants.txt; survivors are to be looked at:
most are equivalent or outside of every property."""
import json,os,subprocess,sys,time,glob,shutil
V="/verif"; W="/tmp/mutwork-%d"%os.getpid()
env=dict(os.environ,GOFLAGS="-mod=mod",GOPROXY="off",GOTOOLCHAIN="local",VF_CAP="15",VERIF_TIER="quick")
def sh(c,cwd=None): return subprocess.run(c,shell=True,cwd=cwd,env=env,capture_output=True,text=True)
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
SLOW=["C23","C29","C31"]
sh(f"cd {V}/tools/mutate && go run main.go /repo/time.go && go build -o /tmp/mutate main.go")
M="/tmp/mutverif-%d"%os.getpid()
shutil.copytree(V,M,ignore=shutil.ignore_patterns(".git","seeded","evidence","replays","engine"))
shutil.copytree("/repo",W,ignore=shutil.ignore_patterns(".git"))
done=set(tuple(l.split(" | ")[0].split()) for l in open("/tmp/mutants.txt")) if os.path.exists("/tmp/mutants.txt") else set()
out=open("/tmp/mutants.txt","a")
caught={}
for f in sys.argv[1:]:
    ids=[p["id"] for p in props if f in p["anchors"]["files"]]
    rest=[p["id"] for p in props if p["id"] not in ids]
    for l in sh(f"/tmp/mutate /repo/{f}").stdout.splitlines():
        n=l.split("\t")[0]
        if (f,n) in done: continue
        src=sh(f"/tmp/mutate /repo/{f} {n}").stdout
        open(f"{W}/{f}","w").write(src)
        if sh("go build ./...",cwd=W).returncode: continue
        t=time.time(); res="SURVIVED"
        order=sorted(ids,key=lambda i:(-caught.get((f,i),0),i in SLOW))+[i for i in rest if i in ("C15","C20","C30","C28","C31","C32")]
        odd=[]
        for i in order:
            r=sh(f"{M}/bin/symgo check {i} -repo {W} -verif {M}")
            if r.returncode==1: res=i; caught[(f,i)]=caught.get((f,i),0)+1; break
            if r.returncode: odd.append(i)
        print(f,l.replace("\t"," | "),"=>",res,odd,f"{time.time()-t:.0f}s",file=out,flush=True)
    shutil.copy(f"/repo/{f}",f"{W}/{f}")
shutil.rmtree(W)
shutil.rmtree(M)
