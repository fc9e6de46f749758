"""tools/seed.py make [ID...]   write /verif/seeded/ID from tools/seeds/ID.py
tools/seed.py test [ID...]   in a scratch copy: builds, stable tests, demo without and with the change
tools/seed.py check [ID...]  runs the property's check against the changed copy"""
import json,os,subprocess,sys,shutil,glob,time
V="/verif"; W="/tmp/seedwork-%d"%os.getpid()
env=dict(os.environ,GOFLAGS="-mod=mod",GOPROXY="off",GOTOOLCHAIN="local")
def sh(c,cwd=None,**k): return subprocess.run(c,shell=True,cwd=cwd,env=env,capture_output=True,text=True,**k)
def fresh():
    os.makedirs(W,exist_ok=True)
    sh(f"rsync -a --delete --exclude .git /repo/ {W}/ || (cp -a /repo/. {W}/)")
def load(i):
    d={}; exec(open(f"{V}/tools/seeds/{i}.py").read(),d); return d
def make(i):
    d=load(i); o=f"{V}/seeded/{i}"; os.makedirs(o,exist_ok=True)
    a,b=W+"A",W+"B"
    for x in (a,b): os.makedirs(x,exist_ok=True)
    patch=""
    files={}
    for f,old,new in d["edits"]:
        s=files.get(f) or open(f"/repo/{f}").read()
        assert s.count(old)==1,(i,f,s.count(old),old)
        files[f]=s.replace(old,new)
    for f,s in sorted(files.items()):
        open(f"{a}/x","w").write(open(f"/repo/{f}").read()); open(f"{b}/x","w").write(s)
        if not sh(f"gofmt -l {a}/x").stdout: sh(f"gofmt -w {b}/x")
        r=sh(f"diff -u --label a/{f} --label b/{f} {a}/x {b}/x")
        patch+=f"diff --git a/{f} b/{f}\n"+r.stdout
    open(f"{o}/patch.diff","w").write(patch)
    json.dump({"property":d["prop"],"needs":d["needs"],"what_it_breaks":d["breaks"]},open(f"{o}/meta.json","w"),indent=1)
    imports="".join(f'\t"{x}"\n' for x in d.get("imports","net/http testing").split())
    open(f"{o}/demo_test.go","w").write("package j8a\n\nimport (\n"+imports+")\n"+d["demo"])
    shutil.copy(f"{V}/tools/seeds/demolib.go.txt",f"{o}/demolib_test.go")
    shutil.copy(f"{V}/tools/seeds/demo.sh.txt",f"{o}/demo.sh"); os.chmod(f"{o}/demo.sh",0o755)
    r=sh(f"gofmt -l {o}/demo_test.go"); 
    sh(f"gofmt -w {o}/demo_test.go")
def test(i,full=True):
    o=f"{V}/seeded/{i}"; fresh()
    r0=sh(f"bash {o}/demo.sh",cwd=W)
    p=sh(f"patch -p1 < {o}/patch.diff",cwd=W)
    if p.returncode: return print(i,"PATCH FAILS",p.stdout)
    b=sh("go build ./... ",cwd=W)
    if b.returncode: return print(i,"BUILD FAILS",b.stderr[:600])
    r1=sh(f"bash {o}/demo.sh",cwd=W)
    bad=None
    if full:
        sh(f"go test -json -vet=off -count=1 -timeout 10m . ./cmd/... > {W}.log",cwd=W)
        sh(f"python3 /opt/vp/results.py {W}.json gojson:{W}.log")
        st=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); ps=set(json.load(open(f"{W}.json"))["passed"])
        bad=sorted(st-ps)
    ok=r0.returncode==0 and r1.returncode!=0 and not bad
    print(i,"OK" if ok else "NOT OK","demo",r0.returncode,r1.returncode,"tests lost",bad,flush=True)
    if r0.returncode: print(r0.stdout[-1500:])
    if r1.returncode==0 or "build failed" in r1.stdout: print(r1.stdout[-1500:])
    elif not full: print(r1.stdout[-600:])
def check(i,prop=None):
    o=f"{V}/seeded/{i}"; fresh()
    p=sh(f"patch -p1 < {o}/patch.diff",cwd=W)
    prop=prop or json.load(open(f"{o}/meta.json"))["property"]
    t=time.time()
    r=sh(f"VERIF_TIER=quick {V}/bin/symgo check {prop} -repo {W}")
    v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    why=[l.strip() for l in r.stdout.splitlines() if l.startswith("  vfH")]
    print(i,prop,"rc",r.returncode,"CAUGHT" if r.returncode==1 and v else "MISSED",f"{time.time()-t:.0f}s",why[:2] or r.stdout[-400:],flush=True)
cmd=sys.argv[1]; ids=sys.argv[2:] or sorted(os.path.basename(x)[:-3] for x in glob.glob(f"{V}/tools/seeds/*.py"))
for i in ids:
    if cmd=="make": make(i)
    if cmd=="demo": make(i); test(i,False)
    if cmd=="test": make(i); test(i)
    if cmd=="check": check(i)
for x in ('','A','B','.log','.json'):
    if os.path.isdir(W+x): shutil.rmtree(W+x)
    elif os.path.exists(W+x): os.remove(W+x)
