package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decision struct {
	v uint64
	b bool
}

// Path is one symbolic execution of a harness.
type Path struct {
	delays   int
	delayMax uint64
	// with delays < 0: how many statements were held up in order, and whether the first goes on
	ordered   int
	firstOver bool
	pointN   map[string]int
	clock    map[*Term]clockRec
	prefix   []decision
	dec      []decision
	pc       []*Term
	vars     []*Term
	varSet   map[string]*Term
	dom      map[*Term][]uint64 // values left by constraints on one narrow variable
	multi    map[*Term]bool     // variables that occur in other constraints too
	labels   map[string]int

	gs          []*G
	wg          sync.WaitGroup
	killed      bool
	ended       bool
	outcome     interface{}
	endCh       chan struct{}
	timers      []*timer
	now         *Term
	startNow    uint64
	maxTime     uint64
	schedChoice bool
	muts        map[*value]*mutexState
	randSym     bool
	fixed       []int // digits of the coming random draws, nil: symbolic
	radix       []int
	dice        []*Term
	uuidN       int
	native      bool // vfNativeOff
	obs         []obsRec
	covers      map[string]bool
	logCount    map[string]int
	logLevel    value
	logRec      bool
	logs        []*logEvent
	logCapture  bool
	env         map[string]value
	noReplay    string
	eng         map[string]value // engine side state
	side        map[interface{}]interface{}
}

type obsRec struct {
	label  string
	v      value
	t      types.Type
	signed bool
}

type mutexState struct {
	locked  bool
	readers int
	count   int64
}

// Violation is a candidate counterexample.
type Violation struct {
	Harness string
	Label   string
	Msg     string
	Values  map[string]uint64
	Vars    []varInfo
	Trace   []string
	NoRep   string
	Class   string
}

type varInfo struct {
	Name string
	Sort Sort
}

type Worker struct {
	id         int
	prg        *Program
	c          *TermCtx
	s          *Solver
	ex         *Explorer
	infos      map[*ssa.Function]*fnInfo
	logOut     map[*value]*stdLogger
	meths      map[methKey]*ssa.Function
	impl       map[implKey]bool
	canonCache map[types.Type]types.Type
	globals    map[*ssa.Global]*value
	unique     map[string][]*value
	initState  map[*ssa.Package]int
	initDepth  int
	undo       []undoRec
	path       *Path
	cur        *G
	steps      int
	maxSteps   int
	totalSteps int64
	nopaque    int

	opaqueBytes map[*OpaqueStr]bool
	modelUse    map[string]int
	intrUse     map[string]int
	fnUse       map[*ssa.Function]int

	lastModel   map[string]uint64 // model satisfying path's pc, or nil
	modelPC     int
	assertsBy   map[string]int
	asserts     int
	assertsTriv int
	forks       map[string]int
	recycleN    int
	tables      map[string]interface{}
	prepared    bool
}

// Explorer shares the work list among workers.
type Explorer struct {
	prg      *Program
	entry    *ssa.Function
	harness  string
	mu       sync.Mutex
	cond     *sync.Cond
	work     [][]decision
	busy     int
	stop     bool
	deadline time.Time
	stopSoon time.Duration // how much longer to go on once something has been found
	hurry    atomic.Int64  // when that is over
	maxPaths int
	tier     int
	seed     int64

	paths         int
	infeas        int
	unsupp        map[string]int
	unsuppN       int
	timeouts      int
	viol          []*Violation
	violSeen      map[string]int
	covers        map[string]int
	samples       []*Sample
	unsuppSamples []*Sample
	exhausted     bool // budget exhausted
	queries       int
	nsat          int
	nunsat        int
	nunknown      int
	solveTime     time.Duration
	steps         int64
	asserts       map[string]int
	trivial       int
	maxDec        int
	fnUse         map[*ssa.Function]int
	modelUse      map[string]int
	intrUse       map[string]int
	forkSites     map[string]int
	solverTO      int
	stepMax       int
	known         map[string]int
	noVal         map[string]bool
	nosamp        int
	maxViol       int
}

// Sample is an explored path with a satisfying assignment, for validation against the real code.
type Sample struct {
	Harness string
	Values  map[string]uint64
	Vars    []varInfo
	Obs     []ObsOut
	Outcome string
}
type ObsOut struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

func (w *Worker) recycle() {
	if w.s != nil {
		w.flushStats()
		w.s.Close()
	}
	w.c = NewTermCtx()
	var err error
	w.s, err = NewSolver(w.c, w.ex.solverTO)
	if err != nil {
		panic(engineError("cannot start solver: " + err.Error()))
	}
	w.lastModel = nil
	w.tables = map[string]interface{}{}
}

func (w *Worker) flushStats() {
	ex := w.ex
	ex.mu.Lock()
	ex.queries += w.s.queries
	ex.nsat += w.s.sat
	ex.nunsat += w.s.unsat
	ex.nunknown += w.s.unknown
	ex.solveTime += w.s.time
	w.s.queries, w.s.sat, w.s.unsat, w.s.unknown, w.s.time = 0, 0, 0, 0, 0
	ex.mu.Unlock()
}

func newWorker(ex *Explorer, id int) *Worker {
	w := &Worker{id: id, prg: ex.prg, ex: ex,
		infos: map[*ssa.Function]*fnInfo{}, meths: map[methKey]*ssa.Function{}, impl: map[implKey]bool{},
		canonCache: map[types.Type]types.Type{}, globals: map[*ssa.Global]*value{}, initState: map[*ssa.Package]int{},
		opaqueBytes: map[*OpaqueStr]bool{}, modelUse: map[string]int{}, intrUse: map[string]int{}, fnUse: map[*ssa.Function]int{},
		assertsBy: map[string]int{}, forks: map[string]int{}, tables: map[string]interface{}{}}
	w.maxSteps = ex.stepMax
	w.recycle()
	return w
}

// ---- decisions ----

func (w *Worker) addPC(t *Term) {
	if t.op == OConst {
		return
	}
	p := w.path
	p.pc = append(p.pc, t)
	if tab := w.table(t); tab != nil {
		p.narrow(t.vars, tab)
	} else {
		var vs []*Term
		collectVars(t, map[int]bool{}, &vs)
		if p.multi == nil {
			p.multi = map[*Term]bool{}
		}
		for _, v := range vs {
			p.multi[v] = true
		}
	}
	if w.lastModel != nil {
		if w.c.eval(t) != 1 {
			w.lastModel = nil
		}
	}
}

// table lists the values of t's only variable for which t holds; nil if t has several variables or a wide one.
func (w *Worker) table(t *Term) []uint64 {
	v := t.vars
	if v == nil || t.sort != SBool || v.sort > 10 || v.sort == SBool || t.op == OVar {
		return nil
	}
	if t.tab != nil {
		return t.tab
	}
	n := uint64(1) << v.sort
	tab := make([]uint64, (n+63)/64)
	c := w.c
	keep := c.model
	m := map[string]uint64{}
	for x := uint64(0); x < n; x++ {
		m[v.name] = x
		c.setModel(m)
		if c.eval(t) == 1 {
			tab[x/64] |= 1 << (x % 64)
		}
	}
	c.setModel(keep)
	t.tab = tab
	return tab
}

func (p *Path) narrow(v *Term, tab []uint64) {
	if p.dom == nil {
		p.dom = map[*Term][]uint64{}
	}
	d, ok := p.dom[v]
	if !ok {
		p.dom[v] = append([]uint64(nil), tab...)
		return
	}
	for i := range d {
		d[i] &= tab[i]
	}
}

// decide answers a condition on one narrow variable from the values its constraints leave: can it hold, can it fail.
func (w *Worker) decide(t *Term) (yes, no, known bool) {
	tab := w.table(t)
	if tab == nil {
		return
	}
	d, ok := w.path.dom[t.vars]
	n := uint64(1) << t.vars.sort
	for i := range tab {
		left := ^uint64(0)
		if n < 64 {
			left = 1<<n - 1
		}
		if ok {
			left = d[i]
		}
		if left&tab[i] != 0 {
			yes = true
		}
		if left&^tab[i] != 0 {
			no = true
		}
	}
	return yes, no, true
}

func (ex *Explorer) expired() bool {
	now := time.Now()
	if h := ex.hurry.Load(); h > 0 && now.UnixNano() > h {
		return true
	}
	return now.After(ex.deadline)
}

func (w *Worker) check(extra *Term) (SatResult, map[string]uint64) {
	if w.path == nil {
		panic(engineError("solver query outside a path"))
	}
	if w.ex.expired() {
		w.ex.mu.Lock()
		w.ex.stop = true
		w.ex.exhausted = true
		w.ex.mu.Unlock()
		panic(pathEnd{"deadline"})
	}
	r, m := w.s.Check(w.path.pc, extra, w.path.vars)
	return r, m
}

func (w *Worker) useModel(m map[string]uint64) {
	w.lastModel = m
	w.c.setModel(m)
}

// ensureModel makes lastModel satisfy the pc (nil pc inconsistent => path ends).
func (w *Worker) ensureModel() {
	if w.lastModel != nil {
		return
	}
	r, m := w.check(nil)
	switch r {
	case Sat:
		w.useModel(m)
	case Unsat:
		panic(pathEnd{"infeasible"})
	default:
		unsup("solver unknown")
	}
}

func (w *Worker) inPrefix() bool { return len(w.path.dec) < len(w.path.prefix) }

func (w *Worker) branch(c *Term) bool { return w.branchAt(c, "") }

func (w *Worker) truthAt(v value, fr *frame, in ssa.Instruction) bool {
	if t, ok := v.(*Term); ok && debugOn {
		return w.branchAt(t, fr.fi.name)
	}
	return w.truth(v)
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (w *Worker) branchAt(c *Term, where string) bool {
	if c.op == OConst {
		return c.val == 1
	}
	if w.initDepth > 0 {
		unsup("symbolic branch in initialiser")
	}
	p := w.path
	yes, no, known := w.decide(c)
	if known && yes != no {
		return yes
	}
	if w.inPrefix() {
		d := p.prefix[len(p.dec)]
		p.dec = append(p.dec, d)
		if d.b {
			w.addPC(c)
		} else {
			w.addPC(w.c.Not(c))
		}
		return d.b
	}
	w.ensureModel()
	cur := w.c.eval(c) == 1
	other := c
	if cur {
		other = w.c.Not(c)
	}
	r := Sat
	if !known || !yes || p.multi[c.vars] {
		r, _ = w.check(other)
	}
	take := cur
	switch r {
	case Unsat:
	case Sat:
		alt := append(append([]decision(nil), p.dec...), decision{b: !cur})
		w.ex.push(alt)
		if where != "" {
			w.forks[where]++
		}
	default:
		// unknown: other side not decided => reduced bound
		w.ex.noteUnsupported("solver unknown on branch")
	}
	p.dec = append(p.dec, decision{b: take})
	if take {
		w.addPC(c)
	} else {
		w.addPC(w.c.Not(c))
	}
	return take
}

// concretize returns a concrete value of v, forking over all feasible ones.
func (w *Worker) concretize(v value) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case poison:
		unsup("poison: %s", x.why)
	case *Term:
		if x.op == OConst {
			return x.val
		}
		if w.initDepth > 0 {
			unsup("symbolic value in initialiser")
		}
		p := w.path
		for n := 0; ; n++ {
			if n > 4096 {
				unsup("concretisation of more than 4096 values")
			}
			if w.inPrefix() {
				d := p.prefix[len(p.dec)]
				p.dec = append(p.dec, d)
				e := w.c.Eq(x, w.c.BV(d.v, x.sort))
				if d.b {
					w.addPC(e)
					return d.v
				}
				w.addPC(w.c.Not(e))
				continue
			}
			w.ensureModel()
			u := w.c.eval(x)
			e := w.c.Eq(x, w.c.BV(u, x.sort))
			if e.op == OConst {
				return u
			}
			r, _ := w.check(w.c.Not(e))
			switch r {
			case Sat:
				alt := append(append([]decision(nil), p.dec...), decision{v: u, b: false})
				w.ex.push(alt)
			case Unknown:
				w.ex.noteUnsupported("solver unknown on concretisation")
			}
			p.dec = append(p.dec, decision{v: u, b: true})
			w.addPC(e)
			return u
		}
	}
	panic(engineError(fmt.Sprintf("concretize %T", v)))
}

// choose makes an unconstrained n-way choice.
func (w *Worker) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	p := w.path
	if w.inPrefix() {
		d := p.prefix[len(p.dec)]
		p.dec = append(p.dec, d)
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		alt := append(append([]decision(nil), p.dec...), decision{v: uint64(i)})
		w.ex.push(alt)
	}
	p.dec = append(p.dec, decision{v: 0})
	return 0
}

func (ex *Explorer) push(d []decision) {
	ex.mu.Lock()
	ex.work = append(ex.work, d)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) noteUnsupported(msg string) {
	ex.mu.Lock()
	ex.unsupp[msg]++
	ex.unsuppN++
	ex.mu.Unlock()
}

// ---- variables ----

func (w *Worker) newVar(label string, s Sort) *Term {
	p := w.path
	n := p.labels[label]
	p.labels[label] = n + 1
	name := label
	if n > 0 {
		name = fmt.Sprintf("%s#%d", label, n)
	}
	t := w.c.Var(name, s)
	p.vars = append(p.vars, t)
	p.varSet[name] = t
	return t
}

// ---- running ----

func (ex *Explorer) run(workers int) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.work = [][]decision{nil}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			w := newWorker(ex, id)
			rnd := rand.New(rand.NewSource(int64(id) + int64(ex.seed)))
			defer func() {
				w.flushStats()
				w.s.Close()
				ex.mu.Lock()
				ex.steps += w.totalSteps
				for f, n := range w.fnUse {
					ex.fnUse[f] += n
				}
				for f, n := range w.modelUse {
					ex.modelUse[f] += n
				}
				for f, n := range w.intrUse {
					ex.intrUse[f] += n
				}
				for f, n := range w.forks {
					ex.forkSites[f] += n
				}
				for f, n := range w.assertsBy {
					ex.asserts[f] += n
				}
				ex.trivial += w.assertsTriv
				ex.mu.Unlock()
			}()
			for {
				ex.mu.Lock()
				for len(ex.work) == 0 && ex.busy > 0 && !ex.stop {
					ex.cond.Wait()
				}
				if ex.stop || len(ex.work) == 0 {
					ex.mu.Unlock()
					ex.cond.Broadcast()
					return
				}
				if ex.expired() || ex.paths >= ex.maxPaths {
					ex.exhausted = true
					ex.stop = true
					ex.mu.Unlock()
					ex.cond.Broadcast()
					return
				}
				// half of the workers pick at random, so that what is looked at first is varied when
				// there is more than the budget allows
				last := len(ex.work) - 1
				if id%2 == 1 {
					i := rnd.Intn(last + 1)
					ex.work[i], ex.work[last] = ex.work[last], ex.work[i]
				}
				pre := ex.work[last]
				ex.work[last] = nil
				ex.work = ex.work[:last]
				ex.busy++
				ex.paths++
				ex.mu.Unlock()
				w.runPath(pre)
				ex.mu.Lock()
				ex.busy--
				ex.mu.Unlock()
				ex.cond.Broadcast()
			}
		}(i)
	}
	wg.Wait()
}

const baseNow = int64(1_760_000_000) * 1e9 // virtual wall clock origin, unix ns

func (w *Worker) runPath(prefix []decision) {
	if w.c.next > 400000 {
		w.recycle()
	}
	p := &Path{prefix: prefix, varSet: map[string]*Term{}, labels: map[string]int{}, endCh: make(chan struct{}),
		muts: map[*value]*mutexState{}, covers: map[string]bool{}, logCount: map[string]int{}, env: map[string]value{},
		side: map[interface{}]interface{}{}}
	w.path = p
	p.now = w.c.BV(uint64(baseNow), 64)
	w.steps = 0
	w.lastModel = map[string]uint64{}
	w.c.setModel(w.lastModel)
	w.prepare()
	w.spawn(w.ex.entry, nil)
	p.gs[0].wake <- struct{}{}
	<-p.endCh
	w.endOfPath(p)
	p.killed = true
	for _, g := range p.gs {
		close(g.wake)
	}
	p.wg.Wait()
	w.totalSteps += int64(w.steps)
	w.rollback()
	w.path = nil
}

func (w *Worker) endOfPath(p *Path) {
	ex := w.ex
	outcome := "ok"
	switch o := p.outcome.(type) {
	case nil:
	case pathEnd:
		if o.why != "done" {
			ex.mu.Lock()
			ex.infeas++
			ex.mu.Unlock()
			return
		}
	case unsupported:
		debugf("unsupported: %s (cur %v)\n", o.msg, w.stackOf())
		ex.noteUnsupported(o.msg)
		w.sampleUnsupported(o.msg)
		return
	case targetPanic:
		outcome = "panic: " + w.panicString(o.v)
		w.reportViolation("panic", outcome)
	case exitSignal:
		outcome = fmt.Sprintf("exit %d", o.code)
		w.reportViolation("exit", outcome)
	case deadlock:
		outcome = o.String()
		w.reportViolation("deadlock", outcome)
	case engineError:
		ex.noteUnsupported("engine: " + string(o))
		debugf("engine error: %s\n", string(o))
		return
	default:
		ex.noteUnsupported(fmt.Sprintf("engine crash: %v", o))
		if debugOn {
			fmt.Printf("engine crash: %v\n", o)
		}
		return
	}
	ex.mu.Lock()
	for c := range p.covers {
		ex.covers[c]++
	}
	if len(p.dec) > ex.maxDec {
		ex.maxDec = len(p.dec)
	}
	n := ex.covers["__paths"]
	ex.covers["__paths"] = n + 1
	ex.mu.Unlock()
	// sampling for validation: first paths, then a deterministic sparse subset
	if outcome == "ok" && p.noReplay == "" && (n < 3 || (n%97) == int(ex.seed%97) || isPow2(n)) && len(ex.samples) < ex.nosamp {
		func() {
			defer func() { recover() }()
			w.ensureModel()
			s := &Sample{Harness: ex.harness, Values: map[string]uint64{}, Outcome: outcome}
			for _, v := range p.vars {
				s.Values[v.name] = w.lastModel[v.name]
				s.Vars = append(s.Vars, varInfo{v.name, v.sort})
			}
			for _, o := range p.obs {
				s.Obs = append(s.Obs, ObsOut{o.label, w.obsShow(o)})
			}
			ex.mu.Lock()
			ex.samples = append(ex.samples, s)
			ex.mu.Unlock()
		}()
	}
}

// sampleUnsupported keeps a solver assignment of a path the executor could not follow to its end.
func (w *Worker) sampleUnsupported(msg string) {
	ex := w.ex
	ex.mu.Lock()
	n := len(ex.unsuppSamples)
	ex.mu.Unlock()
	if n >= 12 {
		return
	}
	defer func() { recover() }()
	w.ensureModel()
	s := &Sample{Harness: ex.harness, Values: map[string]uint64{}, Outcome: "unsupported: " + msg}
	for _, v := range w.path.vars {
		s.Values[v.name] = w.lastModel[v.name]
	}
	ex.mu.Lock()
	ex.unsuppSamples = append(ex.unsuppSamples, s)
	ex.mu.Unlock()
}

func isPow2(n int) bool { return n > 0 && n&(n-1) == 0 }

func (w *Worker) stackOf() string { return "" }

func (w *Worker) obsShow(o obsRec) string {
	if o.signed {
		switch v := o.v.(type) {
		case uint64:
			return fmt.Sprint(int64(v))
		case *Term:
			return fmt.Sprint(int64(w.c.eval(v)))
		}
	}
	return w.evalShow(o.v)
}

// evalShow renders a value under the current model.
func (w *Worker) evalShow(v value) string {
	switch v := v.(type) {
	case bool:
		return fmt.Sprint(v)
	case uint64:
		return fmt.Sprint(v)
	case string:
		return fmt.Sprintf("%q", v)
	case *SymStr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			switch y := x.(type) {
			case uint64:
				b[i] = byte(y)
			case *Term:
				b[i] = byte(w.c.eval(y))
			}
		}
		return fmt.Sprintf("%q", string(b))
	case *Term:
		u := w.c.eval(v)
		if v.sort == SBool {
			return fmt.Sprint(u == 1)
		}
		return fmt.Sprint(u)
	case slice:
		return w.evalShow(mkStr(v))
	case *OpaqueStr:
		return "?"
	}
	return fmt.Sprintf("?%T", v)
}

// reportViolation records a counterexample for the current path condition (lastModel must satisfy it).
func (w *Worker) reportViolation(label, msg string) {
	ex := w.ex
	ex.mu.Lock()
	n := ex.violSeen[label]
	ex.mu.Unlock()
	if n >= ex.maxViol {
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				ex.noteUnsupported(fmt.Sprintf("no model for violation %s: %v", label, r))
				label = ""
			}
		}()
		w.ensureModel()
	}()
	if label == "" {
		return
	}
	w.recordViolation(label, msg, w.lastModel)
}

func (w *Worker) recordViolation(label, msg string, model map[string]uint64) {
	ex := w.ex
	v := &Violation{Harness: ex.harness, Label: label, Msg: msg, Values: map[string]uint64{}, NoRep: w.path.noReplay}
	for _, x := range w.path.vars {
		v.Values[x.name] = model[x.name]
		v.Vars = append(v.Vars, varInfo{x.name, x.sort})
	}
	ex.mu.Lock()
	ex.violSeen[label]++
	ex.viol = append(ex.viol, v)
	if ex.stopSoon > 0 {
		if ex.hurry.Load() == 0 {
			ex.hurry.Store(time.Now().Add(ex.stopSoon).UnixNano())
		}
	}
	if len(ex.viol) >= 12 {
		ex.stop = true
	}
	ex.mu.Unlock()
}

// assertTerm checks an assertion; violation is recorded and the path continues under the assumption.
func (w *Worker) assertTerm(label string, c *Term) {
	w.assertsBy[label]++
	if c.op == OConst {
		if c.val == 1 {
			w.assertsTriv++
			return
		}
		w.reportViolation(label, "assertion failed: "+label)
		panic(pathEnd{"violation"})
	}
	if w.inPrefix() {
		// already checked when the prefix was first run under a weaker pc
		w.addPC(c)
		return
	}
	if w.lastModel != nil && w.c.eval(c) == 0 {
		w.reportViolation(label, "assertion failed: "+label)
	} else {
		r, m := w.check(w.c.Not(c))
		switch r {
		case Sat:
			ex := w.ex
			ex.mu.Lock()
			n := ex.violSeen[label]
			ex.mu.Unlock()
			if n < ex.maxViol {
				w.recordViolation(label, "assertion failed: "+label, m)
			}
		case Unknown:
			w.ex.noteUnsupported("solver unknown on assertion " + label)
		}
	}
	w.addPC(c)
	// continue only where the assertion holds
	if w.lastModel == nil {
		r, m := w.check(nil)
		if r == Unsat {
			panic(pathEnd{"violation"})
		}
		if r == Sat {
			w.useModel(m)
		}
	}
}

func (w *Worker) assume(c *Term) {
	if c.op == OConst {
		if c.val == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	w.addPC(c)
	if !w.inPrefix() {
		w.ensureModel()
	}
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

var _ = strings.Join
