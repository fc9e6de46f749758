package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

var debugOn = os.Getenv("VF_DEBUG") != ""

func debugf(f string, a ...interface{}) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}

type opKind uint8

const (
	okNone opKind = iota
	okReg
	okConst
	okGlobal
)

type opnd struct {
	kind opKind
	idx  int
	v    value
	g    *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []opnd
	dst int
}

type cblock struct {
	instrs []cinstr
	phis   int
}

type fnInfo struct {
	fn        *ssa.Function
	name      string
	nregs     int
	blocks    []cblock
	hasDefer  bool
	intrinsic intrinsic
	model     *ssa.Function
	nobody    bool
	compiled  bool
	generic   string
}

type frame struct {
	w       *Worker
	g       *G
	fi      *fnInfo
	regs    []value
	caller  *frame
	defers  []*deferred
	panicv  *targetPanic
	panick  bool
	result  value
	block   int
	prev    int
	pos     token.Pos
	isDefer bool // frame was called by a panicking caller's deferred call
}

type deferred struct {
	fn   value
	args []value
	call *ssa.CallCommon
}

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, name: fn.String()}
	if o := fn.Origin(); o != nil && o != fn {
		fi.generic = o.String()
	}
	w.infos[fn] = fi
	if m := w.prg.models[fi.name]; m != nil && m != fn {
		fi.model = m
		return fi
	}
	fi.intrinsic = lookupIntrinsic(fi.name)
	if fi.intrinsic == nil && fi.generic != "" {
		fi.intrinsic = lookupIntrinsic(fi.generic)
	}
	if fi.intrinsic == nil {
		fi.intrinsic = pkgIntrinsic(fn)
	}
	if fi.intrinsic != nil {
		return fi
	}
	return fi
}

func (w *Worker) compile(fi *fnInfo) {
	fi.compiled = true
	fn := fi.fn
	// never look at Blocks before the package is known to be built: another worker may be building it
	if fn.Pkg != nil {
		w.prg.buildPkg(fn.Pkg)
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		w.prg.buildPkg(o.Pkg)
	} else if pf := fn.Parent(); pf != nil && pf.Pkg != nil {
		w.prg.buildPkg(pf.Pkg)
	}
	if fn.Blocks == nil {
		fi.nobody = true
		return
	}
	regs := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		regs[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	fi.nregs = n
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			switch in.(type) {
			case *ssa.Defer:
				fi.hasDefer = true
			case *ssa.Phi:
				cb.phis++
			}
			var rands []*ssa.Value
			rands = in.Operands(rands)
			ci.ops = make([]opnd, len(rands))
			for i, r := range rands {
				if r == nil || *r == nil {
					continue
				}
				ci.ops[i] = w.mkOpnd(*r, regs)
			}
			cb.instrs = append(cb.instrs, ci)
		}
	}
	if fn.Recover != nil {
		fi.hasDefer = true
	}
}

func (w *Worker) mkOpnd(v ssa.Value, regs map[ssa.Value]int) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{kind: okConst, v: constValue(v)}
	case *ssa.Function:
		return opnd{kind: okConst, v: v}
	case *ssa.Builtin:
		return opnd{kind: okConst, v: v}
	case *ssa.Global:
		return opnd{kind: okGlobal, g: v}
	}
	i, ok := regs[v]
	if !ok {
		panic(engineError(fmt.Sprintf("no register for %T %s", v, v.Name())))
	}
	return opnd{kind: okReg, idx: i}
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic(engineError("const of type param"))
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case b.Info()&types.IsInteger != 0:
			wd, signed := kindWidth(b.Kind())
			v := constant.ToInt(c.Value)
			if signed {
				i, ok := constant.Int64Val(v)
				if !ok {
					u, _ := constant.Uint64Val(v)
					return u & mask(wd)
				}
				return uint64(i) & mask(wd)
			}
			if i, ok := constant.Int64Val(v); ok {
				return uint64(i) & mask(wd)
			}
			u, _ := constant.Uint64Val(v)
			return u & mask(wd)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if b.Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Kind() == types.UnsafePointer:
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			if u == 0 {
				return uptr{}
			}
		}
	}
	panic(engineError(fmt.Sprintf("const %v of type %v", c.Value, c.Type())))
}

func (fr *frame) get(o *opnd) value {
	switch o.kind {
	case okReg:
		return fr.regs[o.idx]
	case okConst:
		return o.v
	case okGlobal:
		return fr.w.globalAddr(o.g)
	}
	return nil
}

func (w *Worker) rtPanic(msg string) {
	// runtime error
	rt := w.prg.runtimeErrorType
	panic(targetPanic{iface{t: rt, v: msg}})
}
func (w *Worker) rtPanicStr(msg string) { w.rtPanic(msg) }

// callValue calls any function value.
func (w *Worker) callValue(g *G, caller *frame, fn value, args []value) value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			w.nilDeref()
		}
		return w.callFn(g, caller, f, args, nil)
	case *closure:
		return w.callFn(g, caller, f.fn, args, f.env)
	case *nativeFn:
		return f.fn(w, caller, args)
	case *ssa.Builtin:
		unsup("builtin value call %s", f.Name())
	case poison:
		unsup("call of poison: %s", f.why)
	}
	panic(engineError(fmt.Sprintf("callValue %T", fn)))
}

const maxDepth = 400

func (w *Worker) callFn(g *G, caller *frame, fn *ssa.Function, args []value, env []value) value {
	fi := w.info(fn)
	if fi.model != nil {
		w.modelUse[fi.name]++
		return w.callFn(g, caller, fi.model, args, nil)
	}
	if fi.intrinsic != nil {
		w.intrUse[fi.name]++
		fr := caller
		if fr == nil {
			fr = &frame{w: w, g: g, fi: fi}
		}
		if r := fi.intrinsic(w, fr, fn, args); r != (value)(declined{}) {
			return r
		}
		w.intrUse[fi.name]--
	}
	if caller != nil && fn.Synthetic == "package initializer" {
		return nil // packages are initialised on first use of one of their globals
	}
	if !fi.compiled {
		w.compile(fi)
	}
	if fi.nobody {
		unsup("no body: %s from %s", fi.name, callerName(caller))
	}
	if w.initDepth == 0 {
		w.fnUse[fn]++
	}
	fr := &frame{w: w, g: g, fi: fi, caller: caller}
	fr.regs = make([]value, fi.nregs)
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	g.depth++
	if g.depth > maxDepth {
		g.depth = 0
		unsup("recursion deeper than %d in %s", maxDepth, fi.name)
	}
	d := g.depth
	if fi.hasDefer {
		fr.runDeferred()
	} else {
		fr.exec()
	}
	g.depth = d - 1
	return fr.result
}

// runDeferred executes a function which has defers (Go panics are intercepted).
func (fr *frame) runDeferred() {
	w := fr.w
	depth := fr.g.depth
	normal := func() (ok bool) {
		defer func() {
			if ok {
				return
			}
			r := recover()
			if tp, is := r.(targetPanic); is {
				fr.panick = true
				fr.panicv = &tp
				fr.g.depth = depth
				return
			}
			panic(r)
		}()
		fr.exec()
		return true
	}
	if normal() {
		return
	}
	// panicking: run defers
	fr.runDefersPanicking(depth)
	if fr.panick {
		panic(*fr.panicv)
	}
	// recovered
	if fr.fi.fn.Recover != nil {
		fr.block = fr.fi.fn.Recover.Index
		fr.prev = -1
		fr.exec()
		return
	}
	fr.result = zero(fr.fi.fn.Signature.Results())
	_ = w
}

func (fr *frame) runDefersPanicking(depth int) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				if tp, is := r.(targetPanic); is {
					fr.panick = true
					fr.panicv = &tp
					fr.g.depth = depth
					return
				}
				panic(r)
			}()
			fr.callDeferred(d)
			ok = true
		}()
	}
}

func (fr *frame) callDeferred(d *deferred) {
	if b, ok := d.fn.(*ssa.Builtin); ok {
		fr.callBuiltin(b, d.args, d.call)
		return
	}
	fr.w.callValue(fr.g, fr, d.fn, d.args)
}

func (fr *frame) exec() {
	w := fr.w
	fi := fr.fi
	for {
		cb := &fi.blocks[fr.block]
		instrs := cb.instrs
		i := 0
		if cb.phis > 0 {
			// parallel phi assignment
			preds := fi.fn.Blocks[fr.block].Preds
			pi := -1
			for k, p := range preds {
				if p.Index == fr.prev {
					pi = k
					break
				}
			}
			if pi < 0 {
				panic(engineError("phi pred"))
			}
			if cb.phis == 1 {
				fr.regs[instrs[0].dst] = fr.get(&instrs[0].ops[pi])
			} else {
				tmp := make([]value, cb.phis)
				for k := 0; k < cb.phis; k++ {
					tmp[k] = fr.get(&instrs[k].ops[pi])
				}
				for k := 0; k < cb.phis; k++ {
					fr.regs[instrs[k].dst] = tmp[k]
				}
			}
			i = cb.phis
		}
		w.steps += len(instrs)
		if w.steps > w.maxSteps {
			unsup("step budget exceeded (loop bound) in %s", fi.name)
		}
		next := -1
		for ; i < len(instrs); i++ {
			ci := &instrs[i]
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = in.Block().Succs[0].Index
			case *ssa.If:
				c := fr.get(&ci.ops[0])
				var b bool
				if cb, ok := c.(bool); ok {
					b = cb
				} else {
					fr.pos = in.Pos()
					b = w.truthAt(c, fr, in)
				}
				if b {
					next = in.Block().Succs[0].Index
				} else {
					next = in.Block().Succs[1].Index
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(tuple, len(ci.ops))
					for k := range ci.ops {
						t[k] = fr.get(&ci.ops[k])
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				panic(targetPanic{fr.get(&ci.ops[0])})
			case *ssa.RunDefers:
				fr.execRunDefers()
			case *ssa.Defer:
				fn, args := fr.prepareCall(&in.Call, ci.ops)
				if in.DeferStack != nil {
					unsup("defer inside range-over-func")
				}
				fr.defers = append(fr.defers, &deferred{fn: fn, args: args, call: &in.Call})
			case *ssa.Go:
				fn, args := fr.prepareCall(&in.Call, ci.ops)
				if b, ok := fn.(*ssa.Builtin); ok {
					fr.callBuiltin(b, args, &in.Call)
				} else {
					w.spawn(fn, args)
				}
			case *ssa.Store:
				p := fr.get(&ci.ops[0])
				v := fr.get(&ci.ops[1])
				w.storePtr(p, v)
			case *ssa.MapUpdate:
				m, ok := fr.get(&ci.ops[0]).(*Map)
				if !ok {
					unsup("map update on %T", fr.get(&ci.ops[0]))
				}
				w.mapSet(m, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
			case *ssa.Send:
				w.chanSend(fr, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
			default:
				if w.initDepth > 0 && fr.fi.fn.Synthetic == "package initializer" {
					fr.regs[ci.dst] = fr.evalInit(ci)
				} else {
					fr.regs[ci.dst] = fr.eval(ci)
				}
			}
		}
		if next < 0 {
			panic(engineError("block without terminator"))
		}
		fr.prev = fr.block
		fr.block = next
	}
}

// evalInit evaluates an initialiser instruction, turning failures into poison.
func (fr *frame) evalInit(ci *cinstr) (v value) {
	depth := fr.g.depth
	d := fr.w.initDepth
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				v = poison{x.msg}
			case targetPanic:
				v = poison{fmt.Sprintf("panic in init: %v", fr.w.panicString(x.v))}
			case engineError:
				v = poison{string(x)}
			default:
				if _, ok := r.(error); ok {
					v = poison{fmt.Sprint(r)}
				} else {
					panic(r)
				}
			}
			fr.w.initDepth = d
			fr.g.depth = depth
			debugf("init poison in %s: %v\n", fr.fi.name, v)
		}
	}()
	return fr.eval(ci)
}

func (fr *frame) execRunDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.callDeferred(d)
	}
}

func (w *Worker) storePtr(p value, v value) {
	if sp, is := p.(*symPtr); is {
		p = &sp.s[w.concretize(sp.idx)]
	}
	pp, ok := p.(*value)
	if !ok {
		if po, is := p.(poison); is {
			unsup("store through poison %s", po.why)
		}
		unsup("store through %T", p)
	}
	if pp == nil {
		w.nilDeref()
	}
	w.store(pp, v)
}

// prepareCall resolves the callee and evaluates args.
func (fr *frame) prepareCall(call *ssa.CallCommon, ops []opnd) (value, []value) {
	w := fr.w
	fv := fr.get(&ops[0])
	if call.Method == nil {
		args := make([]value, len(call.Args))
		for i := range call.Args {
			args[i] = fr.get(&ops[i+1])
		}
		return fv, args
	}
	recv, ok := fv.(iface)
	if !ok {
		if p, is := fv.(poison); is {
			unsup("invoke on poison: %s", p.why)
		}
		panic(engineError(fmt.Sprintf("invoke on %T", fv)))
	}
	if recv.t == nil {
		w.nilDeref()
	}
	args := make([]value, len(call.Args)+1)
	args[0] = recv.v
	for i := range call.Args {
		args[i+1] = fr.get(&ops[i+1])
	}
	f := w.lookupMethod(recv.t, call.Method)
	if f == nil {
		unsup("no method %s on %s", call.Method.Name(), recv.t)
	}
	return f, args
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.meths[k]; ok {
		return f
	}
	f := w.prg.lookupMethod(t, m.Pkg(), m.Name())
	w.meths[k] = f
	return f
}

func (w *Worker) methodByName(t types.Type, name string) *ssa.Function {
	return w.prg.lookupMethodName(t, name)
}

func typeOfInstr(in ssa.Instruction) types.Type { return in.(ssa.Value).Type() }

func (fr *frame) eval(ci *cinstr) value {
	w := fr.w
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		p := new(value)
		*p = zero(in.Type().Underlying().(*types.Pointer).Elem())
		return p
	case *ssa.BinOp:
		return w.binop(fr, in.Op, in.X.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in.Y.Type())
	case *ssa.UnOp:
		x := fr.get(&ci.ops[0])
		switch in.Op {
		case token.MUL:
			if sp, is := x.(*symPtr); is {
				return w.loadSym(sp)
			}
			p, ok := x.(*value)
			if !ok {
				if po, is := x.(poison); is {
					unsup("load through poison %s", po.why)
				}
				unsup("load through %T", x)
			}
			if p == nil {
				w.nilDeref()
			}
			return copyVal(*p)
		case token.ARROW:
			v, ok := w.chanRecv(fr, x)
			if v == nil {
				v = zero(in.X.Type().Underlying().(*types.Chan).Elem())
			}
			if in.CommaOk {
				return tuple{v, ok}
			}
			return v
		}
		return w.unop(in.Op, in.X.Type(), x)
	case *ssa.Call:
		fn, args := fr.prepareCall(&in.Call, ci.ops)
		if b, ok := fn.(*ssa.Builtin); ok {
			return fr.callBuiltin(b, args, &in.Call)
		}
		fr.pos = in.Pos()
		return w.callValue(fr.g, fr, fn, args)
	case *ssa.FieldAddr:
		p, ok := fr.get(&ci.ops[0]).(*value)
		if !ok {
			unsup("field address of %T (%s)", fr.get(&ci.ops[0]), in.X.Type())
		}
		if p == nil {
			w.nilDeref()
		}
		st, ok := (*p).(structure)
		if !ok {
			if po, is := (*p).(poison); is {
				unsup("field of poison: %s", po.why)
			}
			unsup("field address into %T (%s)", *p, in.X.Type())
		}
		return &st[in.Field]
	case *ssa.Field:
		x := fr.get(&ci.ops[0])
		st, ok := x.(structure)
		if !ok {
			unsup("field of %T", x)
		}
		return copyVal(st[in.Field])
	case *ssa.IndexAddr:
		x := fr.get(&ci.ops[0])
		idxv := fr.get(&ci.ops[1])
		var s []value
		switch x := x.(type) {
		case slice:
			s = x
		case *value:
			if x == nil {
				w.nilDeref()
			}
			a, ok := (*x).(array)
			if !ok {
				unsup("index address into %T", *x)
			}
			s = a
		case poison:
			unsup("poison: %s", x.why)
		default:
			panic(engineError(fmt.Sprintf("IndexAddr %T", x)))
		}
		if _, isT := idxv.(*Term); isT {
			if srt, ok := scalarSort(in.Type().Underlying().(*types.Pointer).Elem()); ok {
				wd, signed := Sort(64), true
				if b, ok := isBasic(in.Index.Type()); ok {
					wd, signed = kindWidth(b.Kind())
				}
				w.boundsCheck(idxv, wd, signed, len(s))
				return &symPtr{s: s, idx: w.toBV(idxv, wd), srt: srt}
			}
		}
		i := w.index(idxv, in.Index.Type(), len(s))
		return &s[i]
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		idxv := fr.get(&ci.ops[1])
		switch x := x.(type) {
		case array:
			return w.indexRead([]value(x), idxv, in.Index.Type(), in.Type())
		case string:
			if u, ok := idxv.(uint64); ok {
				if u >= uint64(len(x)) {
					w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(u), len(x)))
				}
				return uint64(x[u])
			}
			return w.indexRead(strBytes(x), idxv, in.Index.Type(), types.Typ[types.Uint8])
		case *SymStr:
			return w.indexRead(x.b, idxv, in.Index.Type(), types.Typ[types.Uint8])
		}
		unsup("index of %T", x)
	case *ssa.Lookup:
		x := fr.get(&ci.ops[0])
		k := fr.get(&ci.ops[1])
		switch x := x.(type) {
		case *Map:
			vt := in.X.Type().Underlying().(*types.Map).Elem()
			v, ok := w.mapLookup(x, k, vt)
			if in.CommaOk {
				return tuple{v, ok}
			}
			return v
		case string, *SymStr:
			if u, ok := k.(uint64); ok {
				if u >= uint64(strLen(x)) {
					w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(u), strLen(x)))
				}
				return strAt(x, int(u))
			}
			return w.indexRead(strBytes(x), k, in.Index.Type(), types.Typ[types.Uint8])
		}
		unsup("lookup in %T", x)
	case *ssa.MakeInterface:
		return iface{t: w.canon(in.X.Type()), v: copyVal(fr.get(&ci.ops[0]))}
	case *ssa.ChangeInterface:
		return fr.get(&ci.ops[0])
	case *ssa.ChangeType:
		return fr.get(&ci.ops[0])
	case *ssa.Convert:
		return w.conv(fr, in.Type(), in.X.Type(), fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		return w.conv(fr, in.Type(), in.X.Type(), fr.get(&ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			w.rtPanic("cannot convert slice to array pointer: length too short")
		}
		p := new(value)
		*p = array(s[:n:n])
		return p
	case *ssa.MakeClosure:
		env := make([]value, len(in.Bindings))
		for i := range in.Bindings {
			env[i] = fr.get(&ci.ops[i+1])
		}
		return &closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.MakeMap:
		return newMap(in.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeSlice:
		n := w.lenArg(fr.get(&ci.ops[0]), in.Len.Type())
		c := w.lenArg(fr.get(&ci.ops[1]), in.Cap.Type())
		if n < 0 {
			w.rtPanic("makeslice: len out of range")
		}
		if c < n {
			w.rtPanic("makeslice: cap out of range")
		}
		if c > 1<<24 {
			unsup("makeslice of %d elements", c)
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make(slice, c)
		z := zero(et)
		switch z.(type) {
		case structure, array:
			for i := range s {
				s[i] = zero(et)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
		return s[:n]
	case *ssa.MakeChan:
		n := w.lenArg(fr.get(&ci.ops[0]), in.Size.Type())
		return &Chan{cap: int(n), w: w}
	case *ssa.Slice:
		return fr.doSlice(in, ci)
	case *ssa.TypeAssert:
		return w.typeAssert(in, fr.get(&ci.ops[0]))
	case *ssa.Extract:
		x := fr.get(&ci.ops[0])
		t, ok := x.(tuple)
		if !ok {
			if p, is := x.(poison); is {
				if w.initDepth > 0 {
					return p
				}
				unsup("poison tuple: %s", p.why)
			}
			panic(engineError(fmt.Sprintf("extract from %T in %s", x, fr.fi.name)))
		}
		return t[in.Index]
	case *ssa.Range:
		return w.rangeIter(fr.get(&ci.ops[0]))
	case *ssa.Next:
		return fr.get(&ci.ops[0]).(iterator).next(w)
	case *ssa.Select:
		return w.selectStmt(fr, in, ci)
	case *ssa.Phi:
		panic(engineError("phi in eval"))
	}
	panic(engineError(fmt.Sprintf("instr %T", ci.in)))
}

func (w *Worker) mapLookup(m *Map, k value, vt types.Type) (value, bool) {
	e := w.mapFind(m, k)
	if e == nil {
		return zero(vt), false
	}
	return copyVal(e.v), true
}

// lenArg concretises a length.
func (w *Worker) lenArg(v value, t types.Type) int64 {
	wd, signed := Sort(64), true
	if b, ok := isBasic(t); ok {
		wd, signed = kindWidth(b.Kind())
	}
	u := w.concretize(v)
	if signed {
		return sx(u, wd)
	}
	if u > 1<<62 {
		return -1
	}
	return int64(u)
}

// index checks bounds and concretises an index.
func (w *Worker) index(v value, t types.Type, n int) int {
	wd, signed := Sort(64), true
	if b, ok := isBasic(t); ok {
		wd, signed = kindWidth(b.Kind())
	}
	if u, ok := v.(uint64); ok {
		i := int64(u)
		if signed {
			i = sx(u, wd)
		}
		if i < 0 || i >= int64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	w.boundsCheck(v, wd, signed, n)
	u := w.concretize(v)
	return int(u)
}

func (w *Worker) boundsCheck(v value, wd Sort, signed bool, n int) {
	t := w.toBV(v, wd)
	var ok *Term
	if wd < 64 && uint64(n) > mask(wd) {
		if signed {
			ok = w.c.Cmp(OSle, w.c.BV(0, wd), t)
		} else {
			ok = w.c.True
		}
	} else {
		ok = w.c.Cmp(OUlt, t, w.c.BV(uint64(n), wd))
	}
	if !w.branch(ok) {
		w.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

// indexRead reads s[idx] with an ITE chain when the index is symbolic and the elements scalar.
type symPtr struct {
	s   []value
	idx *Term
	srt Sort
}

func (w *Worker) loadSym(p *symPtr) value {
	if r, ok := w.iteTable(p.s, p.idx, p.srt); ok {
		return r
	}
	return copyVal(p.s[w.concretize(p.idx)])
}

func scalarSort(t types.Type) (Sort, bool) {
	b, ok := isBasic(t)
	if !ok {
		return 0, false
	}
	if b.Info()&types.IsBoolean != 0 {
		return SBool, true
	}
	if b.Info()&types.IsInteger != 0 {
		wd, _ := kindWidth(b.Kind())
		return wd, true
	}
	return 0, false
}

// indexRead reads s[idx] with an ITE chain when the index is symbolic and the elements scalar.
func (w *Worker) indexRead(s []value, v value, t types.Type, et types.Type) value {
	if _, ok := v.(uint64); ok {
		return copyVal(s[w.index(v, t, len(s))])
	}
	wd, signed := Sort(64), true
	if b, ok := isBasic(t); ok {
		wd, signed = kindWidth(b.Kind())
	}
	w.boundsCheck(v, wd, signed, len(s))
	it := w.toBV(v, wd)
	if srt, ok := scalarSort(et); ok {
		if r, ok := w.iteTable(s, it, srt); ok {
			return r
		}
	}
	return copyVal(s[w.concretize(v)])
}

func (w *Worker) iteTable(s []value, it *Term, srt Sort) (value, bool) {
	if len(s) == 0 || len(s) > 1024 {
		return nil, false
	}
	conv := func(x value) *Term {
		switch y := x.(type) {
		case *Term:
			return y
		case bool:
			return w.c.Bool(y)
		case uint64:
			return w.c.BV(y, srt)
		}
		return nil
	}
	// group equal constants into ranges to keep the chain short
	last := conv(s[len(s)-1])
	if last == nil {
		return nil, false
	}
	res := last
	for i := len(s) - 2; i >= 0; i-- {
		c := conv(s[i])
		if c == nil {
			return nil, false
		}
		nx := conv(s[i+1])
		if c == nx {
			continue
		}
		// values up to and including i take c, later ones res
		if wdFits(uint64(i), it.sort) {
			res = w.c.Ite(w.c.Cmp(OUle, it, w.c.BV(uint64(i), it.sort)), c, res)
		} else {
			res = c
		}
	}
	return w.fromTerm(res), true
}

func wdFits(v uint64, s Sort) bool { return s >= 64 || v <= mask(s) }

func (fr *frame) doSlice(in *ssa.Slice, ci *cinstr) value {
	w := fr.w
	x := fr.get(&ci.ops[0])
	// operands: X, Low, High, Max
	getn := func(i int, v ssa.Value) (int64, bool) {
		if v == nil {
			return 0, false
		}
		return w.lenArg(fr.get(&ci.ops[i]), v.Type()), true
	}
	lo, _ := getn(1, in.Low)
	hi, hasHi := getn(2, in.High)
	mx, hasMax := getn(3, in.Max)
	switch s := x.(type) {
	case string, *SymStr, *OpaqueStr:
		if isOpaque(s) && !hasHi && lo == 0 {
			return s
		}
		n := int64(strLen(s))
		if !hasHi {
			hi = n
		}
		if hi < 0 || hi > n {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return strSlice(s, int(lo), int(hi))
	case slice:
		c := int64(cap(s))
		if !hasHi {
			hi = int64(len(s))
		}
		if !hasMax {
			mx = c
		}
		if mx < 0 || mx > c {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, c))
		}
		if hi < 0 || hi > mx {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, mx))
		}
		if lo < 0 || lo > hi {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		if s == nil {
			return s
		}
		return s[lo:hi:mx]
	case *value:
		if s == nil {
			w.nilDeref()
		}
		a := (*s).(array)
		c := int64(len(a))
		if !hasHi {
			hi = c
		}
		if !hasMax {
			mx = c
		}
		if mx < 0 || mx > c || hi < 0 || hi > mx || lo < 0 || lo > hi {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d]", lo, hi, mx))
		}
		return slice(a[lo:hi:mx])
	case poison:
		unsup("slice of poison %s", s.why)
	}
	panic(engineError(fmt.Sprintf("slice of %T", x)))
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if b, ok := w.impl[k]; ok {
		return b
	}
	b := types.Implements(t, it)
	w.impl[k] = b
	return b
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, x value) value {
	v, ok := x.(iface)
	if !ok {
		if p, is := x.(poison); is {
			unsup("type assert on poison %s", p.why)
		}
		panic(engineError(fmt.Sprintf("typeassert on %T", x)))
	}
	var res value
	good := false
	if v.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if w.implements(v.t, it) {
				res, good = v, true
			}
		} else if w.sameType(v.t, in.AssertedType) {
			res, good = copyVal(v.v), true
		}
	}
	if in.CommaOk {
		if !good {
			res = zero(in.AssertedType)
		}
		return tuple{res, good}
	}
	if !good {
		dyn := "nil"
		if v.t != nil {
			dyn = v.t.String()
		}
		w.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, in.AssertedType))
	}
	return res
}

// ---- iterators ----

type iterator interface{ next(w *Worker) value }

type mapIter struct {
	m *Map
	i int
}

func (it *mapIter) next(w *Worker) value {
	for it.m != nil && it.i < len(it.m.ents) {
		e := it.m.ents[it.i]
		it.i++
		if e.deleted {
			continue
		}
		return tuple{true, copyVal(e.k), copyVal(e.v)}
	}
	return tuple{false, nil, nil}
}

type strIter struct {
	s value
	i int
}

func (it *strIter) next(w *Worker) value {
	n := strLen(it.s)
	if it.i >= n {
		return tuple{false, nil, nil}
	}
	if s, ok := it.s.(string); ok {
		for j, r := range s[it.i:] {
			_ = j
			i := it.i
			sz := len(string(r))
			if r == 0xFFFD {
				// could be invalid byte
				sz = 1
				if strings.HasPrefix(s[it.i:], "\uFFFD") {
					sz = 3
				}
			}
			it.i += sz
			return tuple{true, uint64(i), uint64(uint32(r))}
		}
	}
	b := strAt(it.s, it.i)
	i := it.i
	if u, ok := b.(uint64); ok && u < 0x80 {
		it.i++
		return tuple{true, uint64(i), u}
	}
	t := w.toBV(b, 8)
	if w.branch(w.c.Cmp(OUlt, t, w.c.BV(0x80, 8))) {
		it.i++
		return tuple{true, uint64(i), w.fromTerm(w.c.Zext(t, 32))}
	}
	unsup("range over string with symbolic non-ASCII byte")
	return nil
}

func (w *Worker) rangeIter(x value) value {
	switch x := x.(type) {
	case *Map:
		return &mapIter{m: x}
	case string, *SymStr:
		return &strIter{s: x}
	}
	unsup("range over %T", x)
	return nil
}

// ---- builtins ----

func (fr *frame) callBuiltin(b *ssa.Builtin, args []value, call *ssa.CallCommon) value {
	w := fr.w
	for _, a := range args {
		if p, ok := a.(poison); ok {
			unsup("builtin %s on poison %s", b.Name(), p.why)
		}
	}
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		dst := args[0].(slice)
		var src []value
		switch s := args[1].(type) {
		case slice:
			src = s
		case string, *SymStr:
			src = strBytes(s)
		case *OpaqueStr:
			unsup("append of opaque string bytes")
		}
		return w.appendVals(dst, src)
	case "copy":
		dst := args[0].(slice)
		var src []value
		switch s := args[1].(type) {
		case slice:
			src = s
		default:
			src = strBytes(s)
		}
		n := len(src)
		if len(dst) < n {
			n = len(dst)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			w.store(&dst[i], tmp[i])
		}
		return uint64(n)
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(x))
		case *OpaqueStr:
			unsup("len of opaque string")
		case slice:
			return uint64(len(x))
		case array:
			return uint64(len(x))
		case *value:
			return uint64(len((*x).(array)))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case slice:
			return uint64(cap(x))
		case array:
			return uint64(len(x))
		case *value:
			return uint64(len((*x).(array)))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		}
	case "close":
		w.chanClose(args[0])
		return nil
	case "delete":
		if m := args[0].(*Map); m != nil {
			w.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.ents {
					if !e.deleted {
						w.mapDelete(x, e.k)
					}
				}
			}
		case slice:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				w.store(&x[i], zero(et))
			}
		}
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		return fr.doRecover()
	case "print", "println":
		return nil
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "min", "max":
		r := args[0]
		t := call.Args[0].Type()
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := w.binop(fr, op, t, a, r, t)
			if cb, ok := c.(bool); ok {
				if cb {
					r = a
				}
			} else if bt, ok := isBasic(t); ok && bt.Info()&types.IsInteger != 0 {
				wd, _ := kindWidth(bt.Kind())
				r = w.fromTerm(w.c.Ite(c.(*Term), w.toBV(a, wd), w.toBV(r, wd)))
			} else if w.truth(c) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		recv := args[0]
		if p, ok := recv.(*value); ok && p == nil {
			w.rtPanic(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return recv
	case "ssa:deferstack":
		return nil
	case "String": // unsafe.String
		n := int(w.concretize(args[1]))
		if n == 0 {
			return ""
		}
		return mkStr(unsafe.Slice(args[0].(*value), n))
	case "StringData":
		bs := strBytes(args[0])
		if len(bs) == 0 {
			return (*value)(nil)
		}
		nb := make([]value, len(bs))
		copy(nb, bs)
		return &nb[0]
	case "Slice":
		n := int(w.concretize(args[1]))
		p, _ := args[0].(*value)
		if p == nil {
			return slice(nil)
		}
		return slice(unsafe.Slice(p, n))
	case "SliceData":
		s := args[0].(slice)
		if cap(s) == 0 {
			if s == nil {
				return (*value)(nil)
			}
			p := new(value)
			return p
		}
		return &s[:1][0]
	}
	unsup("builtin %s(%T)", b.Name(), args[0])
	return nil
}

func (w *Worker) appendVals(dst slice, src []value) value {
	if len(src) == 0 {
		return dst
	}
	n := len(dst)
	if n+len(src) <= cap(dst) {
		r := dst[: n+len(src) : cap(dst)]
		tmp := make([]value, len(src))
		for i := range src {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			w.store(&r[n+i], tmp[i])
		}
		return r
	}
	// grow like the runtime does (16-byte elements)
	nc := 0
	{
		old := cap(dst)
		need := n + len(src)
		nc = old * 2
		if nc < need {
			nc = need
		} else if old >= 256 {
			nc = old
			for nc < need {
				nc += (nc + 3*256) >> 2
			}
		}
		if nc < 4 && need <= 4 && len(src) == 1 && old == 0 {
			nc = need
		}
	}
	r := make(slice, n+len(src), nc)
	for i := range dst {
		r[i] = copyVal(dst[i])
	}
	for i := range src {
		r[n+i] = copyVal(src[i])
	}
	// spare capacity holds typed zero values lazily: fill with zero of same shape
	if len(r) > 0 {
		z := zeroLike(r[0])
		full := r[:nc]
		for i := len(r); i < nc; i++ {
			full[i] = copyZ(z)
		}
	}
	return r
}

func copyZ(v value) value {
	switch v := v.(type) {
	case structure, array:
		return copyVal(v)
	}
	return v
}

func zeroLike(v value) value {
	switch v := v.(type) {
	case bool:
		return false
	case uint64:
		return uint64(0)
	case float64:
		return float64(0)
	case complex128:
		return complex128(0)
	case string, *SymStr, *OpaqueStr:
		return ""
	case *value:
		return (*value)(nil)
	case slice:
		return slice(nil)
	case *Map:
		return (*Map)(nil)
	case *Chan:
		return (*Chan)(nil)
	case *ssa.Function, *closure, *nativeFn:
		return (*ssa.Function)(nil)
	case iface:
		return iface{}
	case uptr:
		return uptr{}
	case *Term:
		switch v.sort {
		case SBool:
			return false
		case SFP:
			return float64(0)
		}
		return uint64(0)
	case structure:
		s := make(structure, len(v))
		for i := range v {
			s[i] = zeroLike(v[i])
		}
		return s
	case array:
		s := make(array, len(v))
		for i := range v {
			s[i] = zeroLike(v[i])
		}
		return s
	}
	return nil
}

func (fr *frame) doRecover() value {
	// recover is effective when fr was called by a deferring frame that is panicking
	c := fr.caller
	if c != nil && c.panick {
		c.panick = false
		v := c.panicv.v
		c.panicv = nil
		if i, ok := v.(iface); ok {
			return i
		}
		return iface{t: types.Typ[types.String], v: fmt.Sprint(v)}
	}
	return iface{}
}

func (w *Worker) panicString(v value) string {
	if i, ok := v.(iface); ok {
		switch s := i.v.(type) {
		case string:
			return s
		case nil:
			return "nil"
		}
		if i.t != nil {
			return fmt.Sprintf("%s %s", i.t, w.show(i.v))
		}
	}
	return w.show(v)
}

func (w *Worker) show(v value) string {
	switch v := v.(type) {
	case string:
		return fmt.Sprintf("%q", v)
	case *Term:
		return "<sym>"
	case *SymStr:
		return fmt.Sprintf("<symstr %d>", len(v.b))
	case *value:
		if v == nil {
			return "nil"
		}
		return "&" + w.show(*v)
	case structure:
		if len(v) > 4 {
			return "{...}"
		}
		s := "{"
		for _, x := range v {
			s += w.show(x) + " "
		}
		return s + "}"
	case iface:
		if v.t == nil {
			return "nil"
		}
		return w.show(v.v)
	}
	return fmt.Sprintf("%v", v)
}

func callerName(fr *frame) string {
	s := ""
	for i := 0; fr != nil && i < 4; i++ {
		s += " < " + fr.fi.name
		fr = fr.caller
	}
	return s
}
