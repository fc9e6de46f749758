package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type value interface{}

type structure []value
type array []value
type slice []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

// nativeFn is a function value provided by the engine.
type nativeFn struct {
	name string
	fn   func(w *Worker, fr *frame, args []value) value
}

// native boxes a host object that interpreted code only handles by reference.
type native struct{ v interface{} }

// uptr is an unsafe.Pointer value.
type uptr struct{ v value }

// SymStr is a string of concrete length with symbolic bytes.
type SymStr struct{ b []value }

// OpaqueStr is a string whose content is not modelled.
type OpaqueStr struct{ id int }

// declined is returned by an intrinsic that leaves the call to the function's own code.
type declined struct{}

type poison struct{ why string }

type engineError string
type unsupported struct{ msg string }
type pathEnd struct{ why string } // path ends quietly (infeasible, assume false, done)
type pathKill struct{}
type exitSignal struct{ code int }
type targetPanic struct{ v value }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func isBasic(t types.Type) (*types.Basic, bool) {
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

func kindWidth(k types.BasicKind) (Sort, bool) { // width, signed
	switch k {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 0, false
}

func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Kind() == types.UnsafePointer:
			return uptr{}
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return slice(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 0 {
			return nil
		}
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		return iface{}
	}
	panic(engineError(fmt.Sprintf("zero: %T %v", t, t)))
}

// copyVal makes a copy of v (aggregates are copied deeply, references shared).
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		s := make(structure, len(v))
		for i, x := range v {
			s[i] = copyVal(x)
		}
		return s
	case array:
		s := make(array, len(v))
		for i, x := range v {
			s[i] = copyVal(x)
		}
		return s
	case poison:
		unsup("use of uninitialised value: %s", v.why)
	}
	return v
}

// set writes a leaf cell with undo logging.
func (w *Worker) set(p *value, v value) {
	if w.initDepth == 0 {
		w.undo = append(w.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

func (w *Worker) undoFn(f func()) {
	if w.initDepth == 0 {
		w.undo = append(w.undo, undoRec{f: f})
	}
}

type undoRec struct {
	p   *value
	old value
	f   func()
}

func (w *Worker) rollback() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := &w.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		*u = undoRec{}
	}
	w.undo = w.undo[:0]
}

// store writes v into *p in place (aggregates fieldwise).
func (w *Worker) store(p *value, v value) {
	switch nv := v.(type) {
	case structure:
		if old, ok := (*p).(structure); ok && len(old) == len(nv) {
			for i := range nv {
				w.store(&old[i], nv[i])
			}
			return
		}
		w.set(p, copyVal(v))
		return
	case array:
		if old, ok := (*p).(array); ok && len(old) == len(nv) {
			for i := range nv {
				w.store(&old[i], nv[i])
			}
			return
		}
		w.set(p, copyVal(v))
		return
	}
	w.set(p, v)
}

func (w *Worker) nilDeref() {
	w.rtPanic("invalid memory address or nil pointer dereference")
}

func (w *Worker) load(p *value) value {
	if p == nil {
		w.nilDeref()
	}
	return copyVal(*p)
}

// ---- strings ----

func strLen(v value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	case *OpaqueStr:
		unsup("length of opaque string")
	case poison:
		unsup("poison string: %s", v.why)
	}
	panic(engineError(fmt.Sprintf("strLen of %T", v)))
}

func strAt(v value, i int) value {
	switch v := v.(type) {
	case string:
		return uint64(v[i])
	case *SymStr:
		return v.b[i]
	}
	unsup("byte of opaque string")
	return nil
}

func mkStr(b []value) value {
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			nb := make([]value, len(b))
			copy(nb, b)
			return &SymStr{nb}
		}
	}
	s := make([]byte, len(b))
	for i, x := range b {
		u, ok := x.(uint64)
		if !ok {
			if p, ok := x.(poison); ok {
				unsup("poison byte %s", p.why)
			}
			panic(engineError(fmt.Sprintf("mkStr elem %T", x)))
		}
		s[i] = byte(u)
	}
	return string(s)
}

func strBytes(v value) []value {
	switch v := v.(type) {
	case string:
		b := make([]value, len(v))
		for i := 0; i < len(v); i++ {
			b[i] = uint64(v[i])
		}
		return b
	case *SymStr:
		return v.b
	}
	if p, ok := v.(poison); ok {
		unsup("poison string: %s", p.why)
	}
	unsup("bytes of opaque string")
	return nil
}

func strSlice(v value, lo, hi int) value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return mkStr(v.b[lo:hi])
	}
	unsup("slice of opaque string")
	return nil
}

func (w *Worker) strConcat(a, b value) value {
	if x, ok := a.(string); ok {
		if x == "" {
			return b
		}
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	if isOpaque(a) || isOpaque(b) {
		return w.opaque()
	}
	return mkStr(append(append([]value(nil), strBytes(a)...), strBytes(b)...))
}

func isOpaque(v value) bool { _, ok := v.(*OpaqueStr); return ok }

func (w *Worker) opaque() value {
	w.nopaque++
	return &OpaqueStr{w.nopaque}
}

// byteEq returns bool or *Term.
func (w *Worker) byteEq(a, b value) value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return x == y
	}
	return w.fromTerm(w.c.Eq(w.toBV(a, 8), w.toBV(b, 8)))
}

func (w *Worker) strEq(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	if isOpaque(a) || isOpaque(b) {
		if a == b {
			return true
		}
		unsup("comparison of opaque string")
	}
	if strLen(a) != strLen(b) {
		return false
	}
	x, y := strBytes(a), strBytes(b)
	return w.bytesEq(x, y)
}

func (w *Worker) bytesEq(x, y []value) value {
	if len(x) != len(y) {
		return false
	}
	var ts []*Term
	for i := range x {
		e := w.byteEq(x[i], y[i])
		if eb, ok := e.(bool); ok {
			if !eb {
				return false
			}
			continue
		}
		ts = append(ts, e.(*Term))
	}
	return w.fromTerm(w.c.And(ts...))
}

// strLess: lexicographic a < b.
func (w *Worker) strLess(a, b value, orEq bool) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			if orEq {
				return x <= y
			}
			return x < y
		}
	}
	x, y := strBytes(a), strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	var res *Term
	if len(x) < len(y) || (orEq && len(x) == len(y)) {
		res = w.c.True
	} else {
		res = w.c.False
	}
	for i := n - 1; i >= 0; i-- {
		p, q := w.toBV(x[i], 8), w.toBV(y[i], 8)
		res = w.c.Ite(w.c.Eq(p, q), res, w.c.Cmp(OUlt, p, q))
	}
	return w.fromTerm(res)
}

// ---- term conversion ----

func (w *Worker) toBV(v value, width Sort) *Term {
	switch v := v.(type) {
	case uint64:
		return w.c.BV(v, width)
	case *Term:
		if v.sort != width {
			panic(engineError(fmt.Sprintf("toBV width %d want %d", v.sort, width)))
		}
		return v
	case poison:
		unsup("poison: %s", v.why)
	}
	panic(engineError(fmt.Sprintf("toBV of %T", v)))
}
func (w *Worker) toBool(v value) *Term {
	switch v := v.(type) {
	case bool:
		return w.c.Bool(v)
	case *Term:
		return v
	case poison:
		unsup("poison: %s", v.why)
	}
	panic(engineError(fmt.Sprintf("toBool of %T", v)))
}
func (w *Worker) toFP(v value) *Term {
	switch v := v.(type) {
	case float64:
		return w.c.FP(v)
	case *Term:
		return v
	case poison:
		unsup("poison: %s", v.why)
	}
	panic(engineError(fmt.Sprintf("toFP of %T", v)))
}

// fromTerm turns constants back into host values.
func (w *Worker) fromTerm(t *Term) value {
	if t.op == OConst {
		switch t.sort {
		case SBool:
			return t.val == 1
		case SFP:
			return math.Float64frombits(t.val)
		}
		return t.val
	}
	return t
}

// ---- maps ----

type mentry struct {
	k, v    value
	deleted bool
}
type Map struct {
	ents []*mentry
	idx  map[interface{}]*mentry // concrete keys
	n    int
	sym  bool // has symbolic keys
	kt   types.Type
}

func newMap(kt types.Type) *Map { return &Map{idx: map[interface{}]*mentry{}, kt: kt} }

type ifaceKey struct {
	t types.Type
	k interface{}
}

// mapKey returns a comparable host key when v is fully concrete.
func (w *Worker) mapKey(v value) (interface{}, bool) {
	switch v := v.(type) {
	case bool, uint64, float64, string, complex128, *value, *Map, *Chan, *native:
		return v, true
	case *Term, *SymStr:
		return nil, false
	case *OpaqueStr:
		unsup("opaque string as map key")
	case iface:
		if v.t == nil {
			return ifaceKey{}, true
		}
		k, ok := w.mapKey(v.v)
		if !ok {
			return nil, false
		}
		return ifaceKey{w.canon(v.t), k}, true
	case structure:
		s := ""
		for _, f := range v {
			k, ok := w.mapKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%#v|", k, k)
		}
		return s, true
	case array:
		s := ""
		for _, f := range v {
			k, ok := w.mapKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%#v|", k, k)
		}
		return "A" + s, true
	case uptr:
		return w.mapKey(v.v)
	case poison:
		unsup("poison key %s", v.why)
	}
	unsup("map key %T", v)
	return nil, false
}

// find locates the entry for k, forking on symbolic equality.
func (w *Worker) mapFind(m *Map, k value) *mentry {
	if m == nil {
		return nil
	}
	hk, ok := w.mapKey(k)
	if ok && !m.sym {
		return m.idx[hk]
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if w.truth(w.equals(e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapSet(m *Map, k, v value) {
	if m == nil {
		w.rtPanicStr("assignment to entry in nil map")
	}
	if e := w.mapFind(m, k); e != nil {
		w.set(&e.v, copyVal(v))
		return
	}
	e := &mentry{k: copyVal(k), v: copyVal(v)}
	hk, ok := w.mapKey(k)
	if ok {
		m.idx[hk] = e
	} else {
		if !m.sym {
			m.sym = true
			w.undoFn(func() { m.sym = false })
		}
	}
	m.ents = append(m.ents, e)
	m.n++
	w.undoFn(func() {
		m.ents = m.ents[:len(m.ents)-1]
		m.n--
		if ok {
			delete(m.idx, hk)
		}
	})
}

func (w *Worker) mapDelete(m *Map, k value) {
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	hk, ok := w.mapKey(e.k)
	if ok {
		delete(m.idx, hk)
	}
	w.undoFn(func() {
		e.deleted = false
		m.n++
		if ok {
			m.idx[hk] = e
		}
	})
}

// ---- equality ----

func (w *Worker) canon(t types.Type) types.Type {
	if c, ok := w.canonCache[t]; ok {
		return c
	}
	c := w.prg.canonType(t)
	w.canonCache[t] = c
	return c
}

func (w *Worker) sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	return w.canon(a) == w.canon(b)
}

func (w *Worker) isZeroPtr(v value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *value:
		return v == nil
	case slice:
		return v == nil
	case *Map:
		return v == nil
	case *Chan:
		return v == nil
	case *ssa.Function:
		return v == nil
	case *closure:
		return v == nil
	case *nativeFn:
		return v == nil
	case iface:
		return v.t == nil
	case uptr:
		return w.isZeroPtr(v.v)
	case *ssa.Builtin:
		return false
	case *native:
		return v == nil
	case poison:
		unsup("poison: %s", v.why)
	}
	panic(engineError(fmt.Sprintf("isZeroPtr %T", v)))
}

// equals returns bool or *Term.
func (w *Worker) equals(a, b value) value {
	switch x := a.(type) {
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		return w.fromTerm(w.c.Eq(w.toBool(a), w.toBool(b)))
	case uint64:
		if y, ok := b.(uint64); ok {
			return x == y
		}
		y := b.(*Term)
		return w.fromTerm(w.c.Eq(w.c.BV(x, y.sort), y))
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
		return w.fromTerm(w.c.FCmp(OFEq, w.toFP(a), w.toFP(b)))
	case complex128:
		return x == b.(complex128)
	case *Term:
		switch y := b.(type) {
		case bool:
			return w.fromTerm(w.c.Eq(x, w.c.Bool(y)))
		case uint64:
			return w.fromTerm(w.c.Eq(x, w.c.BV(y, x.sort)))
		case float64:
			return w.fromTerm(w.c.FCmp(OFEq, x, w.c.FP(y)))
		case *Term:
			return w.fromTerm(w.c.Eq(x, y))
		}
	case string, *SymStr, *OpaqueStr:
		return w.strEq(a, b)
	case structure:
		y := b.(structure)
		return w.allEq(x, y)
	case array:
		y := b.(array)
		return w.allEq(x, y)
	case iface:
		y, ok := b.(iface)
		if !ok {
			panic(engineError(fmt.Sprintf("equals iface vs %T", b)))
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !w.sameType(x.t, y.t) {
			return false
		}
		if !types.Comparable(x.t) {
			w.rtPanicStr("comparing uncomparable type " + x.t.String())
		}
		return w.equals(x.v, y.v)
	case *value:
		if b == nil {
			return x == nil
		}
		switch y := b.(type) {
		case *value:
			return x == y
		case uptr:
			return w.equals(a, y.v)
		}
	case uptr:
		var bv value = b
		if y, ok := b.(uptr); ok {
			bv = y.v
		}
		if x.v == nil || bv == nil {
			return w.isZeroPtr(x.v) && w.isZeroPtr(bv)
		}
		return w.equals(x.v, bv)
	case *Map:
		if y, ok := b.(*Map); ok {
			return x == y
		}
		return x == nil && w.isZeroPtr(b)
	case *Chan:
		if y, ok := b.(*Chan); ok {
			return x == y
		}
		return x == nil && w.isZeroPtr(b)
	case *native:
		if y, ok := b.(*native); ok {
			return x == y
		}
		return false
	case slice, *ssa.Function, *closure, *nativeFn, *ssa.Builtin:
		return w.isZeroPtr(a) && w.isZeroPtr(b)
	case nil:
		return w.isZeroPtr(b)
	case poison:
		unsup("poison: %s", x.why)
	}
	if p, ok := b.(poison); ok {
		unsup("poison: %s", p.why)
	}
	panic(engineError(fmt.Sprintf("equals %T %T", a, b)))
}

func (w *Worker) allEq(x, y []value) value {
	var ts []*Term
	for i := range x {
		e := w.equals(x[i], y[i])
		if eb, ok := e.(bool); ok {
			if !eb {
				return false
			}
			continue
		}
		ts = append(ts, e.(*Term))
	}
	return w.fromTerm(w.c.And(ts...))
}

// truth resolves a bool value, forking when symbolic.
func (w *Worker) truth(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return w.branch(v)
	case poison:
		unsup("poison condition: %s", v.why)
	}
	panic(engineError(fmt.Sprintf("truth of %T", v)))
}

func isConcrete(v value) bool {
	switch v := v.(type) {
	case *Term, *SymStr, *OpaqueStr, poison:
		return false
	case structure:
		for _, x := range v {
			if !isConcrete(x) {
				return false
			}
		}
	case array:
		for _, x := range v {
			if !isConcrete(x) {
				return false
			}
		}
	case slice:
		for _, x := range v {
			if !isConcrete(x) {
				return false
			}
		}
	case iface:
		return isConcrete(v.v)
	}
	return true
}
