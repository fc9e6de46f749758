package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type entrySpec struct {
	Name     string   `json:"name"`
	Covers   []string `json:"covers"`
	Quick    int      `json:"quick_s"`
	Thorough int      `json:"thorough_s"`
	MaxPaths int      `json:"max_paths"`
	Steps    int      `json:"steps"`
	Samples  int      `json:"samples"`
	TierOnly string   `json:"tier"`
	NoNative bool     `json:"no_native"`
	Workers  int      `json:"workers"`
}

type checkSpec struct {
	Property    string      `json:"property"`
	Harness     []string    `json:"harness"`
	Entries     []entrySpec `json:"entries"`
	Level       string      `json:"level"`
	Bounds      string      `json:"bounds"`
	Outside     string      `json:"outside"`
	Assumptions []string    `json:"assumptions"`
	Overlays    []string    `json:"overlays"`
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo check ID | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "mine":
		os.Exit(cmdMine(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

type nativeBin struct {
	path string
	err  error
	done chan struct{}
	dir  string
	took time.Duration
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

// buildNative compiles the repository with the harness overlaid, as a replay program.
// fitting drops the harness files in which the type checker found errors.
func fitting(files []string, msg string) (keep, bad []string) {
	for _, f := range files {
		n := overlayName(f)
		if strings.Contains(msg, string(filepath.Separator)+n+":") {
			bad = append(bad, strings.TrimSuffix(filepath.Base(f), ".go"))
		} else {
			keep = append(keep, f)
		}
	}
	return
}

func fits(names, unfit []string) (out []string) {
	for _, n := range names {
		ok := true
		for _, u := range unfit {
			ok = ok && n != u+".go"
		}
		if ok {
			out = append(out, n)
		}
	}
	return
}

func buildNative(repo string, files []string, dir string, overlays []string) *nativeBin {
	nb := &nativeBin{done: make(chan struct{}), dir: dir, path: filepath.Join(dir, "replay.bin")}
	go func() {
		defer close(nb.done)
		t0 := time.Now()
		rep := map[string]string{}
		for _, f := range files {
			rep[filepath.Join(repo, overlayName(f))] = f
		}
		mainSrc := filepath.Join(dir, "main.go")
		os.WriteFile(mainSrc, []byte("package main\n\nimport j8a \""+mainPkgPath+"\"\n\nfunc main() { j8a.VfMain() }\n"), 0644)
		rep[filepath.Join(repo, "zz_vf_cmd", "main.go")] = mainSrc
		if hasCmd(overlays) {
			// the command itself, callable from the harness
			os.WriteFile(mainSrc, []byte("package main\n\nimport vf \""+mainPkgPath+"\"\n\nfunc init() { vf.VfCommand = vfCommand }\n\nfunc main() { vf.VfMain() }\n"), 0644)
			fs, _ := filepath.Glob(filepath.Join(repo, "cmd", "j8a", "*.go"))
			for _, f := range fs {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				b, err := os.ReadFile(f)
				if err != nil {
					nb.err = err
					return
				}
				o := filepath.Join(dir, "cmd_"+filepath.Base(f))
				os.WriteFile(o, bytes.Replace(b, []byte("func main() {"), []byte("func vfCommand() {"), 1), 0644)
				rep[filepath.Join(repo, "zz_vf_cmd", "cmd_"+filepath.Base(f))] = o
			}
		}
		var hook, hookImports string
		if hasPoints(overlays) {
			src, err := pointSources(repo)
			if err != nil {
				nb.err = err
				return
			}
			for f, b := range src {
				o := filepath.Join(dir, "pt_"+filepath.Base(f))
				os.WriteFile(o, b, 0644)
				rep[f] = o
			}
		}
		for _, name := range overlays {
			if name == "points" || name == "cmd" {
				continue
			}
			op, ok := nativeOverlays[name]
			if !ok {
				nb.err = fmt.Errorf("unknown overlay %s", name)
				return
			}
			p, err := op.locate(repo)
			if err != nil {
				nb.err = err
				return
			}
			b, err := os.ReadFile(p)
			if err != nil {
				nb.err = err
				return
			}
			for _, e := range op.edits {
				if !bytes.Contains(b, []byte(e[0])) {
					nb.err = fmt.Errorf("overlay %s: %s has changed", name, p)
					return
				}
				b = bytes.Replace(b, []byte(e[0]), []byte(e[1]), 1)
			}
			f := filepath.Join(dir, "ov_"+name+".go")
			os.WriteFile(f, b, 0644)
			rep[p] = f
			hookImports += op.imp + "\n"
			hook += op.hook + "\n"
		}
		if hook != "" {
			f := filepath.Join(dir, "hook.go")
			os.WriteFile(f, []byte("package j8a\n\nimport (\n"+hookImports+")\n\nfunc init() {\n"+hook+"}\n"), 0644)
			rep[filepath.Join(repo, "zz_vf_hooks.go")] = f
		}
		ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
		ovf := filepath.Join(dir, "overlay.json")
		os.WriteFile(ovf, ov, 0644)
		cmd := exec.Command("go", "build", "-overlay", ovf, "-o", nb.path, "./zz_vf_cmd")
		cmd.Dir = repo
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			nb.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
		nb.took = time.Since(t0)
	}()
	return nb
}

func hasCmd(overlays []string) bool {
	for _, o := range overlays {
		if o == "cmd" {
			return true
		}
	}
	return false
}

// nativeOverlay patches a dependency in the replay program so that the harness can supply its result.
type nativeOverlay struct {
	locate    func(repo string) (string, error)
	edits     [][2]string
	imp, hook string
}

func inGoroot(rel string) func(string) (string, error) {
	return func(string) (string, error) {
		out, err := exec.Command("go", "env", "GOROOT").Output()
		return filepath.Join(strings.TrimSpace(string(out)), rel), err
	}
}

var nativeOverlays = map[string]nativeOverlay{
	// virtual time: the replay runs in a bubble whose clock advances only when everything is waiting
	"clock": {inGoroot("src/testing/synctest/synctest.go"),
		[][2]string{{"func Wait() {", "func VFRun(f func()) { synctest.Run(f) }\n\nfunc Wait() {"}},
		"\"testing/synctest\"", "vfBubble = synctest.VFRun"},
	"dial": {inGoroot("src/net/dial.go"),
		[][2]string{{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {", "var VFDial func(*Dialer, string) error\n\nfunc (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif VFDial != nil {\n\t\treturn nil, VFDial(d, address)\n\t}\n"}},
		"\"net\"", "net.VFDial = vfOnDial"},
	"rand": {inGoroot("src/math/rand/rand.go"),
		[][2]string{{"func (r *Rand) Float64() float64 {", "var VFDraw func(int64) uint64\n\nfunc (r *Rand) Float64() float64 {\n\tif VFDraw != nil {\n\t\treturn float64(VFDraw(0)) / (1 << 53)\n\t}\n"},
			{"func (r *Rand) Float32() float32 {", "func (r *Rand) Float32() float32 {\n\tif VFDraw != nil {\n\t\treturn float32(VFDraw(0)>>29) / (1 << 24)\n\t}\n"},
			{"func (r *Rand) Intn(n int) int {", "func (r *Rand) Intn(n int) int {\n\tif VFDraw != nil {\n\t\treturn int(VFDraw(int64(n)))\n\t}\n"},
			{"func (r *Rand) Int31n(n int32) int32 {", "func (r *Rand) Int31n(n int32) int32 {\n\tif VFDraw != nil {\n\t\treturn int32(VFDraw(int64(n)))\n\t}\n"},
			{"func (r *Rand) Int63n(n int64) int64 {", "func (r *Rand) Int63n(n int64) int64 {\n\tif VFDraw != nil {\n\t\treturn int64(VFDraw(n))\n\t}\n"},
			{"func (r *Rand) Int() int {", "func (r *Rand) Int() int {\n\tif VFDraw != nil {\n\t\treturn 0\n\t}\n"},
			{"func (r *Rand) Int63() int64 { return r.src.Int63() }", "func (r *Rand) Int63() int64 {\n\tif VFDraw != nil {\n\t\treturn int64(VFDraw(0) << 10)\n\t}\n\treturn r.src.Int63()\n}"}},
		"\"math/rand\"", "vfRandHook = func(f func(int64) uint64) { rand.VFDraw = f }"},
	"listen": {inGoroot("src/net/http/server.go"),
		[][2]string{
			{"func (s *Server) ListenAndServe() error {", "var VFListen func(*Server, bool) error\n\nfunc (s *Server) ListenAndServe() error {\n\tif VFListen != nil {\n\t\treturn VFListen(s, false)\n\t}\n"},
			{"func (s *Server) ListenAndServeTLS(certFile, keyFile string) error {", "func (s *Server) ListenAndServeTLS(certFile, keyFile string) error {\n\tif VFListen != nil {\n\t\treturn VFListen(s, true)\n\t}\n"}},
		"\"net/http\"", "http.VFListen = vfOnListen"},
	// waiting for a mutex lets virtual time pass
	"mutex": {inGoroot("src/sync/mutex.go"),
		[][2]string{{"func (m *Mutex) Lock() {", "var VFWait func()\n\nfunc (m *Mutex) Lock() {\n\tif VFWait != nil {\n\t\tfor !m.TryLock() {\n\t\t\tVFWait()\n\t\t}\n\t\treturn\n\t}\n"}},
		"\"sync\"\n\"time\"", "sync.VFWait = func() { time.Sleep(time.Millisecond) }"},
	"exit": {inGoroot("src/os/proc.go"),
		[][2]string{{"func Exit(code int) {", "var VFExit func(int)\n\nfunc Exit(code int) {\n\tif VFExit != nil {\n\t\tVFExit(code)\n\t}\n"}},
		"\"os\"", "os.VFExit = vfOnExit"},
}

type natCase struct {
	ID      int               `json:"id"`
	Harness string            `json:"harness"`
	Tier    int               `json:"tier"`
	Vals    map[string]string `json:"vals"`
}
type natResult struct {
	ID     int      `json:"id"`
	Obs    []ObsOut `json:"obs"`
	Fail   []string `json:"fail"`
	Panic  string   `json:"panic"`
	Skip   bool     `json:"skip"`
	Covers []string `json:"covers"`
}

// runNative executes the cases against the real code; a crash of the process is the result of the case it was in.
func (nb *nativeBin) runNative(cases []natCase, per time.Duration) (map[int]*natResult, error) {
	<-nb.done
	if nb.err != nil {
		return nil, nb.err
	}
	res := map[int]*natResult{}
	rest := cases
	for n := 0; len(rest) > 0; n++ {
		if n > 60 {
			return res, fmt.Errorf("too many native crashes")
		}
		cf := filepath.Join(nb.dir, "cases.json")
		of := filepath.Join(nb.dir, "out.txt")
		os.Remove(of)
		b, _ := json.Marshal(rest)
		os.WriteFile(cf, b, 0644)
		cmd := exec.Command(nb.path)
		cmd.Dir = nb.dir
		cmd.Env = append(os.Environ(), "VF_CASES="+cf, "VF_OUT="+of, "TZ=UTC", "LOGLEVEL=WARN")
		var ob bytes.Buffer
		cmd.Stdout = &ob
		cmd.Stderr = &ob
		if err := cmd.Start(); err != nil {
			return res, err
		}
		tm := time.AfterFunc(per*time.Duration(len(rest))+20*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		timedOut := !tm.Stop()
		data, _ := os.ReadFile(of)
		cur := -1
		for _, l := range strings.Split(string(data), "\n") {
			if strings.HasPrefix(l, "start ") {
				cur, _ = strconv.Atoi(l[6:])
			} else if strings.HasPrefix(l, "result ") {
				var r natResult
				if json.Unmarshal([]byte(l[7:]), &r) == nil {
					res[r.ID] = &r
				}
				cur = -1
			}
		}
		if cur < 0 {
			if err != nil && len(res) == 0 {
				return res, fmt.Errorf("native run: %v %s", err, tailStr(ob.String(), 400))
			}
			break
		}
		if debugOn {
			fmt.Fprintln(os.Stderr, ob.String())
		}
		msg := "process ended: " + fmt.Sprint(err) + " " + firstPanic(ob.String())
		if timedOut {
			msg = "process timed out"
		}
		res[cur] = &natResult{ID: cur, Panic: msg}
		var nr []natCase
		seen := false
		for _, c := range rest {
			if seen {
				nr = append(nr, c)
			}
			if c.ID == cur {
				seen = true
			}
		}
		rest = nr
	}
	return res, nil
}

func firstPanic(s string) string {
	for _, k := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(s, k); i >= 0 {
			r := s[i:]
			if j := strings.Index(r, "\n"); j >= 0 {
				r = r[:j]
			}
			return r
		}
	}
	return ""
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func toCase(id int, h string, tier int, vals map[string]uint64) natCase {
	c := natCase{ID: id, Harness: strings.TrimPrefix(h, "vfH_"), Tier: tier, Vals: map[string]string{}}
	for k, v := range vals {
		c.Vals[k] = strconv.FormatUint(v, 10)
	}
	return c
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "", "quick|thorough")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("only", "", "entry substring")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	prof := fs.String("prof", "", "cpu profile")
	verbose := fs.Bool("v", false, "")
	id := args[0]
	fs.Parse(args[1:])
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	t0 := time.Now()
	b, err := os.ReadFile(filepath.Join(*verif, "checks", id+".json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var spec checkSpec
	if err := json.Unmarshal(b, &spec); err != nil {
		fmt.Fprintln(os.Stderr, "spec:", err)
		return 2
	}
	var files []string
	for _, h := range append([]string{"common.go"}, spec.Harness...) {
		files = append(files, filepath.Join(*verif, "harness", h))
	}
	work, err := os.MkdirTemp("", "symgo-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	files = append(files, minedFile(*repo, *verif, work))
	nb := buildNative(*repo, files, work, spec.Overlays)
	prg, err := loadProgram(*repo, files, hasPoints(spec.Overlays), hasCmd(spec.Overlays))
	var unfit []string
	for k := 0; err != nil && k < 4; k++ {
		// a harness that names something the repository no longer has says nothing about it; the others still do
		keep, bad := fitting(files, err.Error())
		if len(bad) == 0 {
			break
		}
		unfit = append(unfit, bad...)
		files = keep
		prg, err = loadProgram(*repo, files, hasPoints(spec.Overlays), hasCmd(spec.Overlays))
	}
	if err == nil && len(unfit) > 0 {
		<-nb.done
		nb = buildNative(*repo, files, work, spec.Overlays)
		left := 0
		for _, e := range spec.Entries {
			if prg.pkg.Func(e.Name) != nil {
				left++
			}
		}
		if left == 0 {
			<-nb.done
			fmt.Fprintln(os.Stderr, "the harness no longer fits the repository:", unfit)
			return 2
		}
	}
	if err != nil {
		<-nb.done
		fmt.Fprintln(os.Stderr, "cannot load the repository with the harness:", err)
		return 2
	}
	loadT := time.Since(t0)
	known := loadKnown(filepath.Join(*verif, "known_findings.json"))
	tierN := 0
	if *tier == "thorough" {
		tierN = 1
	}

	var all []*Explorer
	broken := ""
	reduced := []string{}
	for _, e := range spec.Entries {
		if e.TierOnly != "" && e.TierOnly != *tier {
			continue
		}
		if *only != "" && !strings.Contains(e.Name, *only) {
			continue
		}
		fn := prg.pkg.Func(e.Name)
		if fn == nil && len(unfit) > 0 {
			reduced = append(reduced, fmt.Sprintf("%s: left out, its harness names what the repository no longer has", e.Name))
			continue
		}
		if fn == nil {
			fmt.Fprintln(os.Stderr, "no entry", e.Name)
			return 2
		}
		secs := e.Quick
		if secs == 0 {
			secs = 60
		}
		if *tier == "thorough" {
			secs = e.Thorough
			if secs == 0 {
				secs = 600
			}
		}
		if c, err := strconv.Atoi(os.Getenv("VF_CAP")); err == nil && secs > c {
			// for development only: tools/mutate.py
			secs = c
		}
		// a run that has found something ends soon: what counts is the
		// counterexample, the bounds are for runs that find nothing
		const hurry = 30 * time.Second
		for _, x := range all {
			if len(x.viol) > 0 && secs > 30 {
				secs = 30
			}
		}
		ex := &Explorer{stopSoon: hurry, prg: prg, entry: fn, harness: e.Name, deadline: time.Now().Add(time.Duration(secs) * time.Second),
			maxPaths: 2000000, tier: tierN, seed: seed, unsupp: map[string]int{}, violSeen: map[string]int{}, covers: map[string]int{},
			asserts: map[string]int{}, fnUse: map[*ssa.Function]int{}, modelUse: map[string]int{}, intrUse: map[string]int{}, forkSites: map[string]int{},
			solverTO: 20000, stepMax: 3000000, nosamp: 24, maxViol: 2}
		if *tier == "thorough" {
			ex.solverTO = 60000
			ex.nosamp = 60
			ex.stepMax = 20000000
		}
		if e.MaxPaths > 0 {
			ex.maxPaths = e.MaxPaths
		}
		if e.Steps > 0 {
			ex.stepMax = e.Steps
		}
		if e.Samples > 0 {
			ex.nosamp = e.Samples
		}
		if e.NoNative {
			ex.nosamp = 0
		}
		te := time.Now()
		nw := *workers
		if e.Workers > 0 && e.Workers < nw {
			nw = e.Workers
		}
		ex.run(nw)
		if *verbose {
			fmt.Printf("# %s: paths %d (infeasible %d) queries %d (sat %d unsat %d unknown %d) solver %.1fs wall %.1fs unsupported %d violations %d exhausted %v\n",
				e.Name, ex.paths, ex.infeas, ex.queries, ex.nsat, ex.nunsat, ex.nunknown, ex.solveTime.Seconds(), time.Since(te).Seconds(), ex.unsuppN, len(ex.viol), ex.exhausted)
			for k, v := range ex.unsupp {
				fmt.Printf("#   unsupported %q x%d\n", k, v)
			}
			for _, k := range sortedKeys(ex.covers) {
				fmt.Printf("#   cover %s x%d\n", k, ex.covers[k])
			}
			for _, k := range sortedKeys(ex.asserts) {
				fmt.Printf("#   assert %s x%d\n", k, ex.asserts[k])
			}
			if debugOn {
				for _, k := range sortedKeys(ex.forkSites) {
					fmt.Printf("#   fork %s x%d\n", k, ex.forkSites[k])
				}
			}
		}
		all = append(all, ex)
		if ex.exhausted {
			reduced = append(reduced, fmt.Sprintf("%s: budget exhausted after %d paths", e.Name, ex.paths))
		}
		for k, v := range ex.unsupp {
			reduced = append(reduced, fmt.Sprintf("%s: not decided on %d paths: %s", e.Name, v, k))
		}
		if len(ex.viol) == 0 && len(ex.unsupp) == 0 && !ex.exhausted {
			for _, c := range e.Covers {
				if ex.covers[c] == 0 {
					broken = fmt.Sprintf("%s: required witness %q is unreachable (vacuous)", e.Name, c)
				}
			}
		}
		if ex.covers["__paths"] == 0 && len(ex.viol) == 0 && len(ex.unsuppSamples) == 0 {
			broken = fmt.Sprintf("%s: no path completed: %v", e.Name, ex.unsupp)
		}
	}

	// native confirmation
	type job struct {
		kind string
		ex   *Explorer
		v    *Violation
		s    *Sample
	}
	var jobs []job
	var cases []natCase
	for _, ex := range all {
		for _, v := range ex.viol {
			jobs = append(jobs, job{"viol", ex, v, nil})
			cases = append(cases, toCase(len(cases), v.Harness, tierN, v.Values))
		}
		for _, s := range ex.unsuppSamples {
			jobs = append(jobs, job{"unsupp", ex, nil, s})
			cases = append(cases, toCase(len(cases), s.Harness, tierN, s.Values))
		}
		for _, s := range ex.samples {
			jobs = append(jobs, job{"sample", ex, nil, s})
			cases = append(cases, toCase(len(cases), s.Harness, tierN, s.Values))
		}
	}
	tn := time.Now()
	nres, nerr := nb.runParallel(cases, 20*time.Second)
	if nerr != nil {
		fmt.Fprintln(os.Stderr, "native replay unavailable:", nerr)
		if len(nres) == 0 && len(cases) > 0 {
			return 2
		}
	}
	nativeT := time.Since(tn)
	validated, mismatched, unconfirmed := 0, 0, 0
	nviol, nknown := 0, 0
	seenV := map[string]bool{}
	knownHit := map[string]bool{}
	var samplesOut []interface{}
	var mism []string
	repDir := filepath.Join(*verif, "replays", id)
	os.RemoveAll(repDir)
	report := func(ex *Explorer, h, label, msg string, c natCase, r *natResult) {
		for _, k := range known {
			if k.Property == id && k.Status == "known" && k.Harness == h && k.Label == label {
				if !knownHit[h+label] {
					knownHit[h+label] = true
					nknown++
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				}
				return
			}
		}
		if seenV[h+"|"+label] {
			return
		}
		seenV[h+"|"+label] = true
		nviol++
		os.MkdirAll(repDir, 0755)
		p := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", strings.TrimPrefix(h, "vfH_"), nviol))
		out, _ := json.MarshalIndent(map[string]interface{}{"property": id, "harness": h, "label": label, "message": msg, "case": c, "files": fits(append([]string{"common.go"}, spec.Harness...), unfit),
			"overlays": spec.Overlays, "native": r, "readable": readable(c.Vals), "how": "/verif/bin/symgo replay <this file>"}, "", " ")
		os.WriteFile(p, out, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		fmt.Printf("  %s: %s [%s] %s\n", h, label, msg, readable(c.Vals))
	}
	// a native run that fails where the encoding does not is believed when it fails again on its own, not when the
	// machine was merely too slow for its timers once
	retried := 0
	for i, j := range jobs {
		r := nres[i]
		for k := 0; k < 2 && j.kind != "viol" && retried < 40 && r != nil && !r.Skip && (r.Panic != "" || len(r.Fail) > 0); k++ {
			retried++
			again, _ := nb.runParallel(cases[i:i+1], 20*time.Second)
			if again[i] == nil {
				break
			}
			if r = again[i]; r.Panic == "" && len(r.Fail) == 0 {
				reduced = append(reduced, fmt.Sprintf("%s: a native run failed once and not when repeated %s %v %.300s", j.s.Harness, readable(cases[i].Vals), nres[i].Fail, nres[i].Panic))
			}
		}
		switch j.kind {
		case "viol":
			ok := false
			if r != nil {
				if j.v.Label == "panic" || j.v.Label == "deadlock" || j.v.Label == "exit" {
					ok = r.Panic != ""
				} else {
					for _, f := range r.Fail {
						if f == j.v.Label {
							ok = true
						}
					}
				}
			}
			if ok {
				report(j.ex, j.v.Harness, j.v.Label, j.v.Msg, cases[i], r)
			} else if r != nil && (r.Panic != "" || len(r.Fail) > 0) {
				// the real code fails on this input, though under another assertion
				lab := "panic"
				if len(r.Fail) > 0 {
					lab = r.Fail[0]
				}
				report(j.ex, j.v.Harness, lab, "native: "+r.Panic, cases[i], r)
			} else {
				unconfirmed++
				reduced = append(reduced, fmt.Sprintf("%s: counterexample for %s did not reproduce natively %s", j.v.Harness, j.v.Label, readable(cases[i].Vals)))
				if *verbose {
					fmt.Printf("# UNCONFIRMED %s %s %s %v -> %+v\n", j.v.Harness, j.v.Label, j.v.Msg, readable(cases[i].Vals), r)
				}
			}
		case "unsupp":
			if r != nil && !r.Skip && (r.Panic != "" || len(r.Fail) > 0) {
				lab := "panic"
				if len(r.Fail) > 0 {
					lab = r.Fail[0]
				}
				report(j.ex, j.s.Harness, lab, "native run of a solver assignment: "+r.Panic, cases[i], r)
			}
		case "sample":
			if r == nil {
				continue
			}
			if r.Panic != "" || len(r.Fail) > 0 {
				lab := "panic"
				if len(r.Fail) > 0 {
					lab = r.Fail[0]
				}
				report(j.ex, j.s.Harness, lab, "native run disagrees with the encoding: "+r.Panic, cases[i], r)
				mismatched++
				continue
			}
			if !obsEqual(j.s.Obs, r.Obs) {
				mismatched++
				m := fmt.Sprintf("%s: encoding and real code disagree on %s: engine %v native %v", j.s.Harness, readable(cases[i].Vals), j.s.Obs, r.Obs)
				mism = append(mism, m)
				if *verbose {
					fmt.Println("# MISMATCH", m)
				}
				continue
			}
			validated++
			if len(samplesOut) < 6 {
				samplesOut = append(samplesOut, map[string]interface{}{"harness": j.s.Harness, "input": readable(cases[i].Vals), "observed": r.Obs})
			}
		}
	}
	if mismatched > 0 {
		reduced = append(reduced, mism...)
	}
	sort.Strings(reduced)
	// evidence
	ev := map[string]interface{}{"property": id, "tier": *tier, "seed": seed, "level": spec.Level, "wall_s": time.Since(t0).Seconds(), "violations": nviol}
	if spec.Level == "" {
		ev["level"] = "model_checking"
	}
	cov := map[string]interface{}{}
	var paths, infeas, queries, nsat, nunsat, nunk, triv int
	var steps int64
	var solve time.Duration
	fns := map[string]int{}
	mods := map[string]int{}
	intr := map[string]int{}
	asserts := map[string]int{}
	covers := map[string]int{}
	perEntry := []interface{}{}
	maxDec := 0
	exhaustive := true
	for _, ex := range all {
		paths += ex.paths
		infeas += ex.infeas
		queries += ex.queries
		nsat += ex.nsat
		nunsat += ex.nunsat
		nunk += ex.nunknown
		triv += ex.trivial
		steps += ex.steps
		solve += ex.solveTime
		if ex.maxDec > maxDec {
			maxDec = ex.maxDec
		}
		if ex.exhausted || ex.unsuppN > 0 {
			exhaustive = false
		}
		for f, n := range ex.fnUse {
			pos := prg.prog.Fset.Position(f.Pos())
			if strings.Contains(pos.Filename, "zz_vf_") {
				continue
			}
			if f.Pkg != nil && f.Pkg.Pkg.Path() == mainPkgPath || strings.HasPrefix(f.String(), mainPkgPath) || strings.Contains(f.String(), mainPkgPath+".") {
				fns[strings.ReplaceAll(f.String(), mainPkgPath+".", "")] += n
			} else {
				fns["lib: "+f.String()] += n
			}
		}
		for f, n := range ex.modelUse {
			mods[f] += n
		}
		for f, n := range ex.intrUse {
			if !strings.HasPrefix(f, mainPkgPath+".vf") {
				intr[f] += n
			}
		}
		for f, n := range ex.asserts {
			asserts[f] += n
		}
		for f, n := range ex.covers {
			if f != "__paths" {
				covers[f] += n
			}
		}
		perEntry = append(perEntry, map[string]interface{}{"entry": ex.harness, "paths": ex.paths, "infeasible": ex.infeas, "queries": ex.queries, "unsat": ex.nunsat, "sat": ex.nsat, "unknown": ex.nunknown,
			"solver_s": ex.solveTime.Seconds(), "complete": !ex.exhausted && ex.unsuppN == 0, "undecided_paths": ex.unsuppN})
	}
	libN := 0
	for f := range fns {
		if strings.HasPrefix(f, "lib: ") {
			libN++
		}
	}
	var own []string
	for _, f := range sortedKeys(fns) {
		if !strings.HasPrefix(f, "lib: ") {
			own = append(own, f)
		}
	}
	cov["states"] = paths
	cov["transitions"] = steps
	cov["states_rule"] = "states: symbolic paths (each stands for every input satisfying its path condition); transitions: SSA instructions executed symbolically"
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samplesOut
	cov["exhaustive"] = exhaustive && len(all) > 0
	cov["functions_encoded"] = own
	cov["library_functions_encoded"] = libN
	cov["library_functions_modelled"] = sortedKeys(mods)
	cov["library_functions_summarised"] = sortedKeys(intr)
	cov["queries_discharged"] = queries
	cov["queries_unsat"] = nunsat
	cov["queries_sat"] = nsat
	cov["queries_unknown"] = nunk
	cov["solver_seconds"] = solve.Seconds()
	cov["solver"] = solverBin
	cov["assertions"] = asserts
	cov["assertions_decided_without_solver"] = triv
	cov["reachability_witnesses"] = covers
	cov["max_decisions_on_a_path"] = maxDec
	cov["infeasible_paths"] = infeas
	cov["bounds"] = spec.Bounds
	cov["outside_the_bounds"] = spec.Outside
	cov["reduced_bounds_this_run"] = reduced
	cov["entries"] = perEntry
	cov["known_findings_reproduced"] = nknown
	cov["load_s"] = loadT.Seconds()
	cov["native_build_s"] = nb.took.Seconds()
	cov["native_run_s"] = nativeT.Seconds()
	ev["coverage"] = cov
	ev["assumptions"] = spec.Assumptions
	ev["wall_s"] = time.Since(t0).Seconds()
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", id+".json"), eb, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, r := range reduced {
		fmt.Println("REDUCED-BOUND:", tailStr(r, 600))
	}
	fmt.Printf("%s %s: %d symbolic paths, %d solver queries (%d unsat, %d unknown), %d assertions, %d traces validated natively, %d violations, %.1fs\n",
		id, *tier, paths, queries, nunsat, nunk, sumMap(asserts), validated, nviol, time.Since(t0).Seconds())
	if nviol > 0 {
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, "check broken:", broken)
		return 2
	}
	return 0
}

func (nb *nativeBin) runParallel(cases []natCase, per time.Duration) (map[int]*natResult, error) {
	<-nb.done
	if nb.err != nil {
		return nil, nb.err
	}
	k := 8
	if len(cases) < k {
		k = len(cases)
	}
	res := map[int]*natResult{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var ferr error
	for i := 0; i < k; i++ {
		var part []natCase
		for j := i; j < len(cases); j += k {
			part = append(part, cases[j])
		}
		d := filepath.Join(nb.dir, fmt.Sprintf("w%d", i))
		os.MkdirAll(d, 0755)
		wg.Add(1)
		go func() {
			defer wg.Done()
			sub := &nativeBin{path: nb.path, dir: d, done: nb.done}
			r, err := sub.runNative(part, per)
			mu.Lock()
			defer mu.Unlock()
			for a, b := range r {
				res[a] = b
			}
			if err != nil {
				ferr = err
			}
		}()
	}
	wg.Wait()
	return res, ferr
}

func sumMap(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func obsEqual(a, b []ObsOut) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Label != b[i].Label {
			return false
		}
		if a[i].Val != b[i].Val && a[i].Val != "?" {
			return false
		}
	}
	return true
}

// readable joins byte variables into strings.
func readable(vals map[string]string) string {
	strs := map[string]map[int]byte{}
	out := map[string]string{}
	for k, v := range vals {
		if i := strings.LastIndex(k, "."); i > 0 {
			if n, err := strconv.Atoi(k[i+1:]); err == nil {
				if strs[k[:i]] == nil {
					strs[k[:i]] = map[int]byte{}
				}
				u, _ := strconv.ParseUint(v, 10, 64)
				strs[k[:i]][n] = byte(u)
				continue
			}
		}
		out[k] = v
	}
	for k, m := range strs {
		b := make([]byte, len(m))
		for i, c := range m {
			if i < len(b) {
				b[i] = c
			}
		}
		out[k] = strconv.Quote(string(b))
	}
	var ks []string
	for k := range out {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for i, k := range ks {
		if i > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString(k + "=" + out[k])
	}
	return sb.String()
}

func loadKnown(p string) []knownFinding {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var k struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
	}
	return k.Findings
}

// cmdReplay runs one recorded counterexample against the real code.
func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	file := args[0]
	fs.Parse(args[1:])
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Label string   `json:"label"`
		Case  natCase  `json:"case"`
		Files []string `json:"files"`
		Rand  []string `json:"overlays"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var files []string
	for _, h := range r.Files {
		files = append(files, filepath.Join(*verif, "harness", h))
	}
	work, _ := os.MkdirTemp("", "symgo-replay-")
	defer os.RemoveAll(work)
	files = append(files, minedFile(*repo, *verif, work))
	nb := buildNative(*repo, files, work, r.Rand)
	res, err := nb.runNative([]natCase{r.Case}, 60*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o, _ := json.MarshalIndent(res[r.Case.ID], "", " ")
	fmt.Println(string(o))
	if x := res[r.Case.ID]; x != nil && (x.Panic != "" || len(x.Fail) > 0) {
		return 1
	}
	return 0
}
