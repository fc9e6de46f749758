package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"net"
	"reflect"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// prepare runs once per path before the harness starts.
func (w *Worker) prepare() {
	if w.prepared {
		return
	}
	w.prepared = true
	w.initPackage(w.prg.pkg)
}

// stateOf returns the engine-side state kept in a sync primitive (in its first field).
func (w *Worker) stateCell(p value, what string) *value {
	pp, ok := p.(*value)
	if !ok {
		unsup("%s receiver %T", what, p)
	}
	if pp == nil {
		w.nilDeref()
	}
	st, ok := (*pp).(structure)
	if !ok || len(st) == 0 {
		unsup("%s receiver content %T", what, *pp)
	}
	return &st[0]
}

func nat(c *value) interface{} {
	if n, ok := (*c).(*native); ok && n != nil {
		return n.v
	}
	return nil
}

type lockSt struct {
	w bool
	r int
}

func getLock(c *value) lockSt {
	s, _ := nat(c).(lockSt)
	return s
}

func init() {
	// ---- sync ----
	reg("(*sync.Mutex).Lock", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		c := w.stateCell(a[0], "mutex")
		if getLock(c).w {
			if w.initDepth > 0 {
				unsup("lock contention in init")
			}
			w.park(fr.g, "mutex", func() bool { return !getLock(c).w })
		}
		w.set(c, &native{lockSt{w: true}})
		return nil
	})
	reg("(*sync.Mutex).TryLock", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		c := w.stateCell(a[0], "mutex")
		if getLock(c).w {
			return false
		}
		w.set(c, &native{lockSt{w: true}})
		return true
	})
	reg("(*sync.Mutex).Unlock", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		c := w.stateCell(a[0], "mutex")
		if !getLock(c).w {
			w.rtPanic("sync: unlock of unlocked mutex")
		}
		w.set(c, &native{lockSt{}})
		return nil
	})
	reg("(*sync.RWMutex).Lock", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		c := w.stateCell(a[0], "rwmutex")
		free := func() bool { l := getLock(c); return !l.w && l.r == 0 }
		if !free() {
			w.park(fr.g, "rwmutex", free)
		}
		w.set(c, &native{lockSt{w: true}})
		return nil
	})
	reg("(*sync.RWMutex).Unlock", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		c := w.stateCell(a[0], "rwmutex")
		if !getLock(c).w {
			w.rtPanic("sync: Unlock of unlocked RWMutex")
		}
		w.set(c, &native{lockSt{}})
		return nil
	})
	reg("(*sync.RWMutex).RLock", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		c := w.stateCell(a[0], "rwmutex")
		free := func() bool { return !getLock(c).w }
		if !free() {
			w.park(fr.g, "rwmutex", free)
		}
		w.set(c, &native{lockSt{r: getLock(c).r + 1}})
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		c := w.stateCell(a[0], "rwmutex")
		r := getLock(c).r
		if r == 0 {
			w.rtPanic("sync: RUnlock of unlocked RWMutex")
		}
		w.set(c, &native{lockSt{r: r - 1}})
		return nil
	})
	wgGet := func(c *value) int64 { n, _ := nat(c).(int64); return n }
	wgAdd := func(w *Worker, p value, d int64) {
		c := w.stateCell(p, "waitgroup")
		n := wgGet(c) + d
		if n < 0 {
			panic(targetPanic{iface{t: types.Typ[types.String], v: "sync: negative WaitGroup counter"}})
		}
		w.set(c, &native{n})
	}
	reg("(*sync.WaitGroup).Add", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		wgAdd(w, a[0], int64(w.concretize(a[1])))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		wgAdd(w, a[0], -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		c := w.stateCell(a[0], "waitgroup")
		w.park(fr.g, "waitgroup", func() bool { return wgGet(c) == 0 })
		return nil
	})
	reg("(*sync.Once).Do", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		c := w.stateCell(a[0], "once")
		if b, _ := nat(c).(bool); b {
			return nil
		}
		w.set(c, &native{true})
		w.callValue(fr.g, fr, a[1], nil)
		return nil
	})
	reg("(*sync.Pool).Get", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		c := w.stateCell(a[0], "pool")
		if l, _ := nat(c).([]value); len(l) > 0 {
			w.set(c, &native{l[: len(l)-1 : len(l)-1]})
			return l[len(l)-1]
		}
		st := (*a[0].(*value)).(structure)
		nf := st[len(st)-1]
		if w.isZeroPtr(nf) {
			return iface{}
		}
		return w.callValue(fr.g, fr, nf, nil)
	})
	reg("(*sync.Pool).Put", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		c := w.stateCell(a[0], "pool")
		l, _ := nat(c).([]value)
		nl := append(append([]value(nil), l...), a[1])
		w.set(c, &native{nl})
		return nil
	})
	smap := func(w *Worker, p value) *Map {
		c := w.stateCell(p, "sync.Map")
		if m, ok := nat(c).(*Map); ok {
			return m
		}
		m := newMap(types.NewInterfaceType(nil, nil))
		w.set(c, &native{m})
		return m
	}
	reg("(*sync.Map).Load", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		if e := w.mapFind(smap(w, a[0]), a[1]); e != nil {
			return tuple{e.v, true}
		}
		return tuple{iface{}, false}
	})
	reg("(*sync.Map).Store", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		w.mapSet(smap(w, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		m := smap(w, a[0])
		if e := w.mapFind(m, a[1]); e != nil {
			return tuple{e.v, true}
		}
		w.mapSet(m, a[1], a[2])
		return tuple{a[2], false}
	})
	reg("(*sync.Map).Delete", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		w.mapDelete(smap(w, a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).Range", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		for _, e := range smap(w, a[0]).ents {
			if !e.deleted && !w.truth(w.callValue(fr.g, fr, a[1], []value{e.k, e.v})) {
				break
			}
		}
		return nil
	})

	// ---- sync/atomic ----
	cell := func(w *Worker, p value) *value {
		pp, ok := p.(*value)
		if !ok {
			unsup("atomic on %T", p)
		}
		if pp == nil {
			w.nilDeref()
		}
		return pp
	}
	for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, ty := range []struct {
			n string
			w Sort
		}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
			ty := ty
			reg(pk+"Load"+ty.n, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return copyVal(*cell(w, a[0])) })
			reg(pk+"Store"+ty.n, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
				w.set(cell(w, a[0]), a[1])
				return nil
			})
			reg(pk+"Swap"+ty.n, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
				c := cell(w, a[0])
				o := *c
				w.set(c, a[1])
				return o
			})
			reg(pk+"CompareAndSwap"+ty.n, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
				c := cell(w, a[0])
				if w.truth(w.equals(*c, a[1])) {
					w.set(c, a[2])
					return true
				}
				return false
			})
			if ty.w > 0 {
				reg(pk+"Add"+ty.n, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
					c := cell(w, a[0])
					n := w.fromTerm(w.c.Bin(OAdd, w.toBV(*c, ty.w), w.toBV(a[1], ty.w)))
					w.set(c, n)
					return n
				})
			}
		}
	}
	reg("(*sync/atomic.Value).Load", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		return *w.stateCell(a[0], "atomic.Value")
	})
	reg("(*sync/atomic.Value).Store", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		w.set(w.stateCell(a[0], "atomic.Value"), a[1])
		return nil
	})

	// ---- time ----
	reg("time.Now", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.timeNow() })
	reg("time.runtimeNano", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		if w.path == nil || w.initDepth > 0 {
			return uint64(1)
		}
		return w.fromTerm(w.c.Bin(OSub, w.path.now, w.c.BV(uint64(baseNow)-1, 64)))
	})
	reg("time.Since", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		sub := w.methodByName(fn.Signature.Params().At(0).Type(), "Sub")
		return w.callFn(fr.g, fr, sub, []value{w.timeNow(), a[0]}, nil)
	})
	reg("time.Until", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		sub := w.methodByName(fn.Signature.Params().At(0).Type(), "Sub")
		return w.callFn(fr.g, fr, sub, []value{a[0], w.timeNow()}, nil)
	})
	// instants read from the clock are compared as nanoseconds; any other time runs the library's own code
	binT := func(name string, f func(w *Worker, x, y *Term) value) {
		reg("(time.Time)."+name, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			x, y := w.clockNanos(a[0]), w.clockNanos(a[1])
			if x == nil || y == nil || (x.op == OConst && y.op == OConst) {
				return declined{}
			}
			return f(w, x, y)
		})
	}
	binT("Sub", func(w *Worker, x, y *Term) value { return w.fromTerm(w.c.Bin(OSub, x, y)) })
	binT("Before", func(w *Worker, x, y *Term) value { return w.fromTerm(w.c.Cmp(OSlt, x, y)) })
	binT("After", func(w *Worker, x, y *Term) value { return w.fromTerm(w.c.Cmp(OSlt, y, x)) })
	binT("Equal", func(w *Worker, x, y *Term) value { return w.fromTerm(w.c.Eq(x, y)) })
	reg("(time.Time).Add", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		x := w.clockNanos(a[0])
		d := w.toBV(a[1], 64)
		if x == nil || d.op != OConst || int64(d.val) > 1<<60 || int64(d.val) < -1<<60 || (x.op == OConst && w.path == nil) {
			return declined{}
		}
		if x.op == OConst {
			return declined{}
		}
		return w.timeAt(w.c.Bin(OAdd, x, d))
	})
	reg("time.Sleep", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		w.sleep(fr.g, a[0])
		return nil
	})
	timerOf := func(w *Worker, fn *ssa.Function, p value) *timer {
		st := (*p.(*value)).(structure)
		for _, f := range st {
			if n, ok := f.(*native); ok {
				if t, ok := n.v.(*timer); ok {
					return t
				}
			}
		}
		return nil
	}
	mkTimer := func(w *Worker, tt types.Type, d value, ch *Chan, fire func()) value {
		t := w.addTimer(d, fire)
		st := zero(tt).(structure)
		us := tt.Underlying().(*types.Struct)
		put := false
		for i := 0; i < us.NumFields(); i++ {
			if us.Field(i).Name() == "C" {
				st[i] = ch
			} else if !put {
				st[i] = &native{t}
				put = true
			}
		}
		p := new(value)
		*p = st
		return p
	}
	timerType := func(fn *ssa.Function) types.Type {
		return fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
	}
	reg("time.AfterFunc", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		f := a[1]
		return mkTimer(w, timerType(fn), a[0], nil, func() { w.spawn(f, nil) })
	})
	newTimer := func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		ch := &Chan{cap: 1, w: w}
		return mkTimer(w, timerType(fn), a[0], ch, func() { w.doSendNow(ch, w.timeNow()) })
	}
	reg("time.NewTimer", newTimer)
	reg("time.After", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		ch := &Chan{cap: 1, w: w}
		w.addTimer(a[0], func() { w.doSendNow(ch, w.timeNow()) })
		return ch
	})
	reg("(*time.Timer).Stop", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		if a[0].(*value) == nil {
			w.nilDeref()
		}
		t := timerOf(w, fn, a[0])
		if t == nil {
			unsup("stop of foreign timer")
		}
		was := !t.fired && !t.stopped
		t.stopped = true
		return was
	})
	reg("(*time.Timer).Reset", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		t := timerOf(w, fn, a[0])
		if t == nil {
			unsup("reset of foreign timer")
		}
		was := !t.fired && !t.stopped
		t.stopped = true
		nt := w.addTimer(a[1], t.fire)
		st := (*a[0].(*value)).(structure)
		for i, f := range st {
			if n, ok := f.(*native); ok {
				if _, ok := n.v.(*timer); ok {
					w.set(&st[i], &native{nt})
				}
			}
		}
		return was
	})

	// ---- math/rand ----
	nop := func(w *Worker, fr *frame, fn *ssa.Function, args []value) value { return zero(fn.Signature.Results()) }
	reg("math/rand.Seed", nop)
	for _, recv := range []bool{false, true} {
		name := func(n string) string {
			if recv {
				return "(*math/rand.Rand)." + n
			}
			return "math/rand." + n
		}
		arg := func(a []value) value { return a[len(a)-1] }
		reg(name("Float64"), func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			// k / 2^53, as the library produces it
			f := w.c.IToF(w.draw(nil), true)
			return w.fromTerm(w.c.FBin(OFMul, f, w.c.FP(1.0/(1<<53))))
		})
		// Int picks the slogan of a response, whichever
		reg(name("Int"), func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return uint64(0) })
		reg(name("Int63"), func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.fromTerm(w.c.Bin(OShl, w.draw(nil), w.c.BV(10, 64)))
		})
		for _, n := range []string{"Intn", "Int63n"} {
			reg(name(n), func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
				return w.fromTerm(w.draw(w.toBV(arg(a), 64)))
			})
		}
		reg(name("Int31n"), func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.fromTerm(w.c.Extract(w.draw(w.c.Zext(w.toBV(arg(a), 32), 64)), 31, 0))
		})
	}
	reg("(*math/rand.Rand).Seed", nop)
	reg("math/rand.NewSource", nop)
	reg("math/rand.New", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		var cell value = zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return &cell
	})
	reg("github.com/google/uuid.NewRandom", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		return tuple{w.mkUUID(), iface{}}
	})
	reg("github.com/google/uuid.New", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.mkUUID() })

	// ---- os ----
	env := func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		k, ok := a[0].(string)
		if !ok {
			unsup("symbolic environment name")
		}
		var v value = ""
		set := false
		if w.path != nil {
			if x, ok := w.path.env[k]; ok {
				v, set = x, true
			}
		}
		if fn.Signature.Results().Len() == 2 {
			return tuple{v, set}
		}
		return v
	}
	reg("os.Getenv", env)
	reg("os.LookupEnv", env)
	reg("syscall.Getenv", env)
	reg("os.Setenv", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		w.path.env[a[0].(string)] = a[1]
		return iface{}
	})
	reg("os.Unsetenv", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		delete(w.path.env, a[0].(string))
		return iface{}
	})
	reg("os.Hostname", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return tuple{"host", iface{}} })
	reg("os.Getpid", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return uint64(42) })
	reg("os.Exit", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		panic(exitSignal{int(int64(w.concretize(a[0])))})
	})

	// ---- regexp ----
	comp := func(w *Worker, s value) (value, error) {
		switch p := s.(type) {
		case string:
			re, err := regexp.Compile(p)
			if err != nil {
				return (*value)(nil), err
			}
			c := new(value)
			*c = &native{re}
			return c, nil
		case *SymStr:
			if u, ok := p.b[0].(uint64); !ok || u != '^' {
				unsup("symbolic regexp without anchor")
			}
			var ok []*Term
			for _, x := range p.b[1:] {
				switch y := x.(type) {
				case uint64:
					if strings.IndexByte(`\.+*?()|[]{}^$`, byte(y)) >= 0 {
						unsup("regexp with metacharacter and symbolic bytes")
					}
				case *Term:
					ok = append(ok, w.classTerm(y, func(c int) bool {
						return c < 0x80 && strings.IndexByte(`\.+*?()|[]{}^$`, byte(c)) < 0
					}))
				}
			}
			if !w.branch(w.c.And(ok...)) {
				unsup("symbolic regexp metacharacter")
			}
			c := new(value)
			*c = &native{symPrefix(append([]value(nil), p.b[1:]...))}
			return c, nil
		}
		unsup("regexp from %T", s)
		return nil, nil
	}
	reg("regexp.Compile", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		v, err := comp(w, a[0])
		if err != nil {
			return tuple{v, w.mkError(err.Error())}
		}
		return tuple{v, iface{}}
	})
	reg("regexp.MustCompile", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		v, err := comp(w, a[0])
		if err != nil {
			w.rtPanic(err.Error())
		}
		return v
	})
	match := func(w *Worker, re value, s value) value {
		n := nat(re.(*value))
		switch r := n.(type) {
		case *regexp.Regexp:
			if x, ok := s.(string); ok {
				return r.MatchString(x)
			}
			return w.fromTerm(w.reMatch(r, strBytes(s)))
		case symPrefix:
			b := strBytes(s)
			if len(b) < len(r) {
				return false
			}
			w.asciiAll(b, "regexp subject")
			return w.bytesEq(b[:len(r)], r)
		}
		unsup("regexp value %T", n)
		return nil
	}
	reg("(*regexp.Regexp).MatchString", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		if a[0].(*value) == nil {
			w.nilDeref()
		}
		return match(w, a[0], a[1])
	})
	reg("(*regexp.Regexp).String", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		if r, ok := nat(a[0].(*value)).(*regexp.Regexp); ok {
			return r.String()
		}
		return w.strConcat("^", mkStr(nat(a[0].(*value)).(symPrefix)))
	})
	// find returns the bounds of the match that regexp reports, nil if there is none
	find := func(w *Worker, re value, s value) []int {
		if re.(*value) == nil {
			w.nilDeref()
		}
		r, ok := nat(re.(*value)).(*regexp.Regexp)
		if !ok {
			unsup("regexp value %T", nat(re.(*value)))
		}
		if x, ok := s.(string); ok {
			return r.FindStringIndex(x)
		}
		return w.reFind(r, strBytes(s))
	}
	reg("(*regexp.Regexp).FindStringSubmatch", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		if s, ok := a[1].(string); ok && a[0].(*value) != nil {
			if r, ok := nat(a[0].(*value)).(*regexp.Regexp); ok {
				m := r.FindStringSubmatch(s)
				if m == nil {
					return slice(nil)
				}
				res := make(slice, len(m))
				for i := range m {
					res[i] = m[i]
				}
				return res
			}
		}
		m := find(w, a[0], a[1])
		if m == nil {
			return slice(nil)
		}
		res := make(slice, nat(a[0].(*value)).(*regexp.Regexp).NumSubexp()+1)
		for i := range res {
			res[i] = unknownGroup{} // groups other than the whole match are not tracked
		}
		res[0] = mkStr(strBytes(a[1])[m[0]:m[1]])
		return res
	})
	reg("(*regexp.Regexp).FindString", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		m := find(w, a[0], a[1])
		if m == nil {
			return ""
		}
		return mkStr(strBytes(a[1])[m[0]:m[1]])
	})
	reg("(*regexp.Regexp).FindStringIndex", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		m := find(w, a[0], a[1])
		if m == nil {
			return slice(nil)
		}
		return slice{uint64(m[0]), uint64(m[1])}
	})
	reg("(*regexp.Regexp).Longest", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		if a[0].(*value) == nil {
			w.nilDeref()
		}
		r, ok := nat(a[0].(*value)).(*regexp.Regexp)
		if !ok {
			unsup("Longest of symbolic regexp")
		}
		r.Longest()
		return nil
	})
	reg("regexp.QuoteMeta", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		if s, ok := a[0].(string); ok {
			return regexp.QuoteMeta(s)
		}
		return w.interpret(fr, fn, a)
	})
	reg("regexp.MatchString", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		v, err := comp(w, a[0])
		if err != nil {
			return tuple{false, w.mkError(err.Error())}
		}
		return tuple{match(w, v, a[1]), iface{}}
	})

	// ---- encoding/json ----
	reg("encoding/json.Marshal", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		b := w.jsonEnc(a[0].(iface))
		return tuple{slice(b), iface{}}
	})
	reg("encoding/json.Unmarshal", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		s, ok := mkStr(a[0].(slice)).(string)
		t := a[1].(iface)
		if f := w.prg.pkg.Func("vfUnmarshal"); f != nil && strings.HasSuffix(t.t.String(), "*"+mainPkgPath+".Config") {
			return w.callFn(fr.g, fr, f, a, nil)
		}
		if !ok {
			unsup("json.Unmarshal of symbolic data")
		}
		pt, isP := t.t.Underlying().(*types.Pointer)
		if !isP {
			unsup("json.Unmarshal target %s", t.t)
		}
		if mt, isM := pt.Elem().Underlying().(*types.Map); isM {
			var m map[string]interface{}
			if err := json.Unmarshal([]byte(s), &m); err != nil {
				return w.mkError(err.Error())
			}
			if m != nil {
				w.store(t.v.(*value), w.hostJSON(m, mt))
			}
			return iface{}
		}
		unsup("json.Unmarshal into %s", t.t)
		return nil
	})

	// ---- runtime / log odds and ends ----
	// a handle is the address of its value, made once
	reg("unique.Make", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		if !isConcrete(a[0]) {
			unsup("unique.Make of a symbolic value")
		}
		k := fn.String()
		for _, p := range w.unique[k] {
			if eq, ok := w.equals(*p, a[0]).(bool); ok && eq {
				return structure{p}
			}
		}
		p := new(value)
		*p = copyVal(a[0])
		if w.unique == nil {
			w.unique = map[string][]*value{}
		}
		w.unique[k] = append(w.unique[k], p)
		return structure{p}
	})
	reg("net.ParseIP", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		s, ok := a[0].(string)
		if !ok {
			return w.interpret(fr, fn, a)
		}
		ip := net.ParseIP(s)
		if ip == nil {
			return slice(nil)
		}
		r := make(slice, len(ip))
		for i := range ip {
			r[i] = uint64(ip[i])
		}
		return r
	})
	reg("github.com/hako/durafmt.Parse", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		p := new(value)
		*p = zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return p
	})
	reg("(*github.com/hako/durafmt.Durafmt).LimitFirstN", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return a[0] })
	reg("(*github.com/hako/durafmt.Durafmt).String", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.opaque() })
	reg("(time.Time).Format", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.opaque() })
	reg("(time.Time).String", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.opaque() })
	reg("(time.Time).Local", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return a[0] })
	reg("(time.Duration).String", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.opaque() })
	reg("(*time.Location).get", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return a[0] })
}

type symPrefix []value

func (w *Worker) timeNow() value {
	t := w.c.BV(uint64(baseNow), 64)
	if w.path != nil && w.initDepth == 0 {
		t = w.path.now
	}
	return w.timeAt(t)
}

const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400

func (w *Worker) timeAt(t *Term) value {
	var wall, sec value
	if t.op == OConst {
		wall = t.val % 1e9
		sec = t.val/1e9 + unixToInternal
	} else {
		wall = w.fromTerm(w.c.Bin(OURem, t, w.c.BV(1e9, 64)))
		s := w.c.Bin(OAdd, w.c.Bin(OUDiv, t, w.c.BV(1e9, 64)), w.c.BV(unixToInternal, 64))
		sec = w.fromTerm(s)
		if w.path != nil {
			if w.path.clock == nil {
				w.path.clock = map[*Term]clockRec{}
			}
			w.path.clock[s] = clockRec{t, wall}
		}
	}
	return structure{wall, sec, (*value)(nil)}
}

type clockRec struct {
	nanos *Term
	wall  value
}

// clockNanos is the instant in nanoseconds of a time that was read from the clock.
func (w *Worker) clockNanos(v value) *Term {
	st, ok := v.(structure)
	if !ok || w.path == nil {
		return nil
	}
	switch sec := st[1].(type) {
	case uint64:
		wall, ok := st[0].(uint64)
		if !ok || wall >= 1e9 || int64(sec) < unixToInternal || int64(sec) > unixToInternal+4000000000 {
			return nil
		}
		return w.c.BV((sec-unixToInternal)*1e9+wall, 64)
	case *Term:
		if r, ok := w.path.clock[sec]; ok && r.wall == st[0] {
			return r.nanos
		}
	}
	return nil
}

func (w *Worker) mkUUID() value {
	a := make(array, 16)
	n := 0
	if w.path != nil {
		w.path.uuidN++
		n = w.path.uuidN
	}
	for i := range a {
		a[i] = uint64(0)
	}
	a[15] = uint64(n)
	a[6] = uint64(0x40)
	a[8] = uint64(0x80)
	return a
}

// jsonEnc encodes flat values as encoding/json does.
func (w *Worker) jsonEnc(v iface) []value {
	if v.t == nil {
		return strBytes("null")
	}
	switch t := v.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			s, ok := v.v.(string)
			if !ok {
				if isOpaque(v.v) {
					unsup("json of opaque string")
				}
				// symbolic: only when no byte needs escaping
				b := strBytes(v.v)
				var ts []*Term
				for _, x := range b {
					if y, ok := x.(*Term); ok {
						ts = append(ts, w.classTerm(y, func(c int) bool {
							return c >= 0x20 && c < 0x7f && c != '"' && c != '\\' && c != '<' && c != '>' && c != '&'
						}))
					}
				}
				if !w.branch(w.c.And(ts...)) {
					unsup("json escape of symbolic byte")
				}
				return append(append([]value{uint64('"')}, b...), uint64('"'))
			}
			b, _ := json.Marshal(s)
			return strBytes(string(b))
		case t.Info()&types.IsBoolean != 0:
			if w.truth(v.v) {
				return strBytes("true")
			}
			return strBytes("false")
		case t.Info()&types.IsInteger != 0:
			wd, sg := kindWidth(t.Kind())
			return strBytes(w.fmtInt(v.v, wd, sg))
		case t.Info()&types.IsFloat != 0:
			if f, ok := v.v.(float64); ok {
				b, _ := json.Marshal(f)
				return strBytes(string(b))
			}
		}
	case *types.Pointer:
		p := v.v.(*value)
		if p == nil {
			return strBytes("null")
		}
		return w.jsonEnc(iface{t.Elem(), *p})
	case *types.Struct:
		out := []value{uint64('{')}
		first := true
		var walk func(t *types.Struct, s structure)
		walk = func(t *types.Struct, s structure) {
			for i := 0; i < t.NumFields(); i++ {
				f := t.Field(i)
				tag := t.Tag(i)
				if f.Anonymous() && tag == "" {
					if st, ok := f.Type().Underlying().(*types.Struct); ok {
						walk(st, s[i].(structure))
						continue
					}
				}
				if !f.Exported() {
					continue
				}
				name := f.Name()
				if tag != "" {
					tv := reflectTag(tag)
					if tv == "-" {
						continue
					}
					parts := strings.Split(tv, ",")
					if parts[0] != "" {
						name = parts[0]
					}
					if len(parts) > 1 {
						unsup("json tag options %q", tv)
					}
				}
				if !first {
					out = append(out, uint64(','))
				}
				first = false
				k, _ := json.Marshal(name)
				out = append(out, strBytes(string(k))...)
				out = append(out, uint64(':'))
				fv := s[i]
				ft := f.Type()
				if x, ok := fv.(iface); ok {
					out = append(out, w.jsonEnc(x)...)
				} else {
					out = append(out, w.jsonEnc(iface{ft, fv})...)
				}
			}
		}
		walk(t, v.v.(structure))
		return append(out, uint64('}'))
	case *types.Map:
		m := v.v.(*Map)
		if m == nil {
			return strBytes("null")
		}
		out := []value{uint64('{')}
		// sorted by key
		var es []*mentry
		for _, e := range m.ents {
			if !e.deleted {
				if _, ok := e.k.(string); !ok {
					unsup("json map key")
				}
				es = append(es, e)
			}
		}
		for i := range es {
			for j := i + 1; j < len(es); j++ {
				if es[j].k.(string) < es[i].k.(string) {
					es[i], es[j] = es[j], es[i]
				}
			}
		}
		for i, e := range es {
			if i > 0 {
				out = append(out, uint64(','))
			}
			k, _ := json.Marshal(e.k.(string))
			out = append(out, strBytes(string(k))...)
			out = append(out, uint64(':'))
			if x, ok := e.v.(iface); ok {
				out = append(out, w.jsonEnc(x)...)
			} else {
				out = append(out, w.jsonEnc(iface{t.Elem(), e.v})...)
			}
		}
		return append(out, uint64('}'))
	}
	unsup("json.Marshal of %s", v.t)
	return nil
}

func reflectTag(tag string) string {
	i := strings.Index(tag, `json:"`)
	if i < 0 {
		return ""
	}
	r := tag[i+6:]
	j := strings.Index(r, `"`)
	return r[:j]
}

// hostJSON converts decoded JSON to an interpreted map.
func (w *Worker) hostJSON(m map[string]interface{}, mt *types.Map) value {
	r := newMap(mt.Key())
	var conv func(x interface{}) value
	conv = func(x interface{}) value {
		switch y := x.(type) {
		case nil:
			return iface{}
		case string:
			return iface{types.Typ[types.String], y}
		case float64:
			return iface{types.Typ[types.Float64], y}
		case bool:
			return iface{types.Typ[types.Bool], y}
		default:
			return iface{types.Typ[types.String], fmt.Sprint(y)}
		}
	}
	keys := make([]string, 0)
	for k := range m {
		keys = append(keys, k)
	}
	for i := range keys {
		for j := i + 1; j < len(keys); j++ {
			if keys[j] < keys[i] {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	for _, k := range keys {
		e := &mentry{k: k}
		switch y := m[k].(type) {
		case map[string]interface{}, []interface{}:
			e.v = iface{types.NewPointer(types.Typ[types.Bool]), new(value)}
			_ = y
		default:
			e.v = conv(y)
		}
		r.ents = append(r.ents, e)
		r.idx[k] = e
		r.n++
	}
	return r
}

// reMatch encodes an unanchored regular expression match over symbolic ASCII bytes.
func (w *Worker) reMatch(re *regexp.Regexp, b []value) *Term {
	w.asciiAll(b, "regexp subject")
	key := "re:" + re.String()
	var prog *syntax.Prog
	if p, ok := w.tables[key].(*syntax.Prog); ok {
		prog = p
	} else {
		rx, err := syntax.Parse(re.String(), syntax.Perl)
		if err != nil {
			unsup("regexp parse")
		}
		prog, err = syntax.Compile(rx.Simplify())
		if err != nil {
			unsup("regexp compile")
		}
		w.tables[key] = prog
	}
	c := w.c
	matched := c.False
	n := len(b)
	cur := map[uint32]*Term{}
	// closure adds state s with guard g at position pos
	var add func(set map[uint32]*Term, s uint32, g *Term, pos int, seen map[uint32]bool)
	add = func(set map[uint32]*Term, s uint32, g *Term, pos int, seen map[uint32]bool) {
		if g == c.False || seen[s] {
			return
		}
		in := &prog.Inst[s]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			seen[s] = true
			add(set, in.Out, g, pos, seen)
			add(set, in.Arg, g, pos, seen)
			delete(seen, s)
		case syntax.InstCapture, syntax.InstNop:
			seen[s] = true
			add(set, in.Out, g, pos, seen)
			delete(seen, s)
		case syntax.InstEmptyWidth:
			e := syntax.EmptyOp(in.Arg)
			if e&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				unsup("regexp empty-width op")
			}
			if e&syntax.EmptyBeginText != 0 && pos != 0 {
				return
			}
			if e&syntax.EmptyEndText != 0 && pos != n {
				return
			}
			seen[s] = true
			add(set, in.Out, g, pos, seen)
			delete(seen, s)
		case syntax.InstMatch:
			matched = c.Or(matched, g)
		case syntax.InstFail:
		default:
			if o, ok := set[s]; ok {
				set[s] = c.Or(o, g)
			} else {
				set[s] = g
			}
		}
	}
	for pos := 0; pos <= n; pos++ {
		add(cur, uint32(prog.Start), c.True, pos, map[uint32]bool{})
		if pos == n {
			break
		}
		next := map[uint32]*Term{}
		x := w.toBV(b[pos], 8)
		ks := make([]int, 0, len(cur))
		for s := range cur {
			ks = append(ks, int(s))
		}
		for i := range ks {
			for j := i + 1; j < len(ks); j++ {
				if ks[j] < ks[i] {
					ks[i], ks[j] = ks[j], ks[i]
				}
			}
		}
		for _, si := range ks {
			s := uint32(si)
			in := &prog.Inst[s]
			var ok *Term
			switch in.Op {
			case syntax.InstRuneAny:
				ok = c.True
			case syntax.InstRuneAnyNotNL:
				ok = c.Not(c.Eq(x, c.BV('\n', 8)))
			default:
				ok = w.classTerm(x, func(ch int) bool { return ch < 0x80 && in.MatchRune(rune(ch)) })
			}
			add(next, in.Out, c.And(cur[s], ok), pos+1, map[uint32]bool{})
		}
		cur = next
	}
	return matched
}

// unknownGroup stands for a submatch the engine does not compute, using it stops the path as unsupported.
type unknownGroup struct{}

// reFind locates the first match in symbolic ASCII bytes with the semantics of package regexp, leftmost-first or, after
// Longest, leftmost-longest. The conditions of all possible matches are terms, only different bounds fork.
func (w *Worker) reFind(re *regexp.Regexp, b []value) []int {
	w.asciiAll(b, "regexp subject")
	longest := reflect.ValueOf(re).Elem().FieldByName("longest").Bool()
	key := "re:" + re.String()
	var prog *syntax.Prog
	if p, ok := w.tables[key].(*syntax.Prog); ok {
		prog = p
	} else {
		rx, err := syntax.Parse(re.String(), syntax.Perl)
		if err != nil {
			unsup("regexp parse")
		}
		prog, err = syntax.Compile(rx.Simplify())
		if err != nil {
			unsup("regexp compile")
		}
		w.tables[key] = prog
	}
	c := w.c
	n := len(b)
	type state struct {
		pc  uint32
		pos int
	}
	type ends map[int]*Term
	memo := map[state]ends{}
	busy := map[state]bool{}
	any := func(e ends) *Term {
		t := c.False
		for p := 0; p <= n; p++ {
			if g, ok := e[p]; ok {
				t = c.Or(t, g)
			}
		}
		return t
	}
	var run func(pc uint32, pos int) ends
	run = func(pc uint32, pos int) ends {
		st := state{pc, pos}
		if m, ok := memo[st]; ok {
			return m
		}
		if busy[st] {
			return nil // an empty round of a loop
		}
		busy[st] = true
		in := &prog.Inst[pc]
		var m ends
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			x := run(in.Out, pos)
			y := run(in.Arg, pos)
			m = ends{}
			for p, g := range x {
				m[p] = g
			}
			no := c.True
			if !longest {
				no = c.Not(any(x))
			}
			for p := 0; p <= n; p++ {
				g, is := y[p]
				if !is {
					continue
				}
				g = c.And(no, g)
				if o, ok := m[p]; ok {
					g = c.Or(o, g)
				}
				if g != c.False {
					m[p] = g
				}
			}
		case syntax.InstCapture, syntax.InstNop:
			m = run(in.Out, pos)
		case syntax.InstEmptyWidth:
			e := syntax.EmptyOp(in.Arg)
			if e&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				unsup("regexp empty-width op")
			}
			if (e&syntax.EmptyBeginText == 0 || pos == 0) && (e&syntax.EmptyEndText == 0 || pos == n) {
				m = run(in.Out, pos)
			}
		case syntax.InstMatch:
			m = ends{pos: c.True}
		case syntax.InstFail:
		default:
			if pos == n {
				break
			}
			x := w.toBV(b[pos], 8)
			var ok *Term
			switch in.Op {
			case syntax.InstRuneAny:
				ok = c.True
			case syntax.InstRuneAnyNotNL:
				ok = c.Not(c.Eq(x, c.BV('\n', 8)))
			default:
				ok = w.classTerm(x, func(ch int) bool { return ch < 0x80 && in.MatchRune(rune(ch)) })
			}
			if ok != c.False {
				m = ends{}
				rest := run(in.Out, pos+1)
				for p := 0; p <= n; p++ {
					if g, is := rest[p]; is {
						if g = c.And(ok, g); g != c.False {
							m[p] = g
						}
					}
				}
			}
		}
		delete(busy, st)
		memo[st] = m
		return m
	}
	for i := 0; i <= n; i++ {
		m := run(uint32(prog.Start), i)
		if len(m) == 0 || !w.branch(any(m)) {
			continue
		}
		var ps []int
		for p := range m {
			ps = append(ps, p)
		}
		sort.Sort(sort.Reverse(sort.IntSlice(ps)))
		for k, p := range ps {
			// the longest possible end comes first, without Longest the conditions exclude each other anyway
			if k == len(ps)-1 || w.branch(m[p]) {
				return []int{i, p}
			}
		}
	}
	return nil
}

var _ = math.MaxInt64

func init() {
	reg("runtime.Caller", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		return tuple{uint64(0), "unknown", uint64(0), false}
	})
	// assembly kernels with a portable twin
	for k, v := range map[string]string{"crypto/md5.block": "blockGeneric", "crypto/sha1.block": "blockGeneric"} {
		twin := v
		reg(k, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.callFn(fr.g, fr, fn.Pkg.Func(twin), a, nil)
		})
	}
}

// draw is one result of math/rand: a fraction in units of 2^-53 (n is nil), or an integer below n.
func (w *Worker) draw(n *Term) *Term {
	p := w.path
	nv := uint64(0)
	if n != nil {
		nv = w.concretize(w.fromTerm(n))
		if int64(nv) <= 0 {
			unsup("math/rand with bound %d", int64(nv))
		}
	}
	if !p.randSym {
		return w.c.BV(0, 64)
	}
	if p.fixed != nil {
		d := 0
		if len(p.radix) < len(p.fixed) {
			d = p.fixed[len(p.radix)]
		}
		r, k := 10, uint64(d)
		switch {
		case n == nil:
			k = uint64(2*d+1) * (1 << 53) / 20
		case nv <= 20:
			r = int(nv)
		default:
			k = uint64(2*d+1) * nv / 20
		}
		p.radix = append(p.radix, r)
		return w.c.BV(k, 64)
	}
	if n == nil {
		k := w.c.Zext(w.newVar("rand.f", 53), 64)
		p.dice = append(p.dice, k)
		return k
	}
	v := w.newVar("rand.n", 64)
	w.assume(w.c.Cmp(OUlt, v, n))
	p.dice = append(p.dice, w.c.Bin(OMul, v, w.c.BV((1<<53)/nv, 64)))
	return v
}
