"""tools/refactor.py [NAME...]  applies edits that keep the behaviour to a scratch copy of /repo and runs all checks on it:
each has to stay quiet."""
import glob,os,shutil,subprocess,sys,json
V="/verif"
env=dict(os.environ,GOFLAGS="-mod=mod",GOPROXY="off",GOTOOLCHAIN="local",VERIF_TIER="quick")
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
names=[a for a in sys.argv[1:] if not a.startswith("C")] or sorted(os.path.basename(f)[:-3] for f in glob.glob(V+"/tools/refactorings/*.py"))
only=[a for a in sys.argv[1:] if a.startswith("C")] or ids
for n in names:
    W=f"/tmp/refac-{n}"
    shutil.rmtree(W,ignore_errors=True)
    shutil.copytree("/repo",W,ignore=shutil.ignore_patterns(".git"))
    g={}; exec(open(f"{V}/tools/refactorings/{n}.py").read(),g)
    for f,eds in g["F"].items():
        s=open(f"{W}/{f}").read()
        for a,b in eds:
            if s.count(a)!=1: print(n,f,"does not apply:",s.count(a),a[:80])
            s=s.replace(a,b,1)
        open(f"{W}/{f}","w").write(s)
    r=subprocess.run("go vet . ./cmd/... 2>&1 | grep -v '^#' | head; go build ./...",shell=True,cwd=W,env=env,capture_output=True,text=True)
    if r.returncode: print(n,"does not build",r.stdout,r.stderr); continue
    M=f"/tmp/refacverif-{n}"
    shutil.rmtree(M,ignore_errors=True)
    shutil.copytree(V,M,ignore=shutil.ignore_patterns(".git","seeded","evidence","replays","engine"))
    for i in only:
        r=subprocess.run(f"{M}/bin/symgo check {i} -repo {W} -verif {M}",shell=True,env=env,capture_output=True,text=True)
        odd=[l for l in r.stdout.splitlines() if l.startswith("REDUCED")]
        print(n,i,r.returncode,r.stdout.splitlines()[-1] if r.returncode==0 and r.stdout else r.stdout[-900:]+r.stderr[-300:],*odd[:3],sep=" | ",flush=True)
    shutil.rmtree(W); shutil.rmtree(M)
