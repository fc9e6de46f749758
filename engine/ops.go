package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"unicode/utf8"
)

func (w *Worker) binop(fr *frame, op token.Token, t types.Type, x, y value, yt types.Type) value {
	if p, ok := x.(poison); ok {
		unsup("poison operand: %s", p.why)
	}
	if p, ok := y.(poison); ok {
		unsup("poison operand: %s", p.why)
	}
	switch op {
	case token.EQL:
		return w.eqTyped(t, x, y)
	case token.NEQ:
		e := w.eqTyped(t, x, y)
		if b, ok := e.(bool); ok {
			return !b
		}
		return w.fromTerm(w.c.Not(e.(*Term)))
	}
	b, ok := isBasic(t)
	if !ok {
		unsup("binop %s on %s", op, t)
	}
	switch {
	case b.Info()&types.IsString != 0:
		switch op {
		case token.ADD:
			return w.strConcat(x, y)
		case token.LSS:
			return w.strLess(x, y, false)
		case token.LEQ:
			return w.strLess(x, y, true)
		case token.GTR:
			return w.strLess(y, x, false)
		case token.GEQ:
			return w.strLess(y, x, true)
		}
	case b.Info()&types.IsFloat != 0:
		return w.floatBin(op, b, x, y)
	case b.Info()&types.IsComplex != 0:
		p, q := x.(complex128), y.(complex128)
		switch op {
		case token.ADD:
			return p + q
		case token.SUB:
			return p - q
		case token.MUL:
			return p * q
		case token.QUO:
			return p / q
		}
	case b.Info()&types.IsInteger != 0:
		wd, signed := kindWidth(b.Kind())
		if op == token.SHL || op == token.SHR {
			return w.shift(op, wd, signed, x, y, yt)
		}
		u, ok1 := x.(uint64)
		v, ok2 := y.(uint64)
		if ok1 && ok2 {
			return w.intBin(op, wd, signed, u, v)
		}
		return w.symBin(op, wd, signed, w.toBV(x, wd), w.toBV(y, wd))
	}
	unsup("binop %s on %s (%T,%T)", op, t, x, y)
	return nil
}

func (w *Worker) eqTyped(t types.Type, x, y value) value {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Signature, *types.Map:
		return w.isZeroPtr(x) && w.isZeroPtr(y) || sameRef(x, y)
	case *types.Struct:
		return w.equals(x, y)
	}
	if _, ok := x.(iface); ok {
		if _, ok := y.(iface); !ok {
			// comparison of interface with concrete value
			unsup("mixed interface comparison")
		}
	}
	return w.equals(x, y)
}

func sameRef(x, y value) bool {
	a, ok1 := x.(*Map)
	b, ok2 := y.(*Map)
	return ok1 && ok2 && a == b
}

func (w *Worker) intBin(op token.Token, wd Sort, signed bool, u, v uint64) value {
	m := mask(wd)
	switch op {
	case token.ADD:
		return (u + v) & m
	case token.SUB:
		return (u - v) & m
	case token.MUL:
		return (u * v) & m
	case token.QUO, token.REM:
		if v == 0 {
			w.rtPanic("integer divide by zero")
		}
		o := OUDiv
		if signed {
			o = OSDiv
			if op == token.REM {
				o = OSRem
			}
		} else if op == token.REM {
			o = OURem
		}
		return evalBin(o, u, v, wd)
	case token.AND:
		return u & v
	case token.OR:
		return u | v
	case token.XOR:
		return u ^ v
	case token.AND_NOT:
		return u &^ v
	}
	var a, b int64
	if signed {
		a, b = sx(u, wd), sx(v, wd)
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	switch op {
	case token.LSS:
		return u < v
	case token.LEQ:
		return u <= v
	case token.GTR:
		return u > v
	case token.GEQ:
		return u >= v
	}
	panic(engineError("intBin " + op.String()))
}

func (w *Worker) symBin(op token.Token, wd Sort, signed bool, a, b *Term) value {
	c := w.c
	switch op {
	case token.ADD:
		return w.fromTerm(c.Bin(OAdd, a, b))
	case token.SUB:
		return w.fromTerm(c.Bin(OSub, a, b))
	case token.MUL:
		return w.fromTerm(c.Bin(OMul, a, b))
	case token.QUO, token.REM:
		if w.branch(c.Eq(b, c.BV(0, wd))) {
			w.rtPanic("integer divide by zero")
		}
		o := OUDiv
		if signed {
			o = OSDiv
			if op == token.REM {
				o = OSRem
			}
		} else if op == token.REM {
			o = OURem
		}
		return w.fromTerm(c.Bin(o, a, b))
	case token.AND:
		return w.fromTerm(c.Bin(OBAnd, a, b))
	case token.OR:
		return w.fromTerm(c.Bin(OBOr, a, b))
	case token.XOR:
		return w.fromTerm(c.Bin(OBXor, a, b))
	case token.AND_NOT:
		return w.fromTerm(c.Bin(OBAnd, a, c.BNot(b)))
	}
	lt, le := OUlt, OUle
	if signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.LSS:
		return w.fromTerm(c.Cmp(lt, a, b))
	case token.LEQ:
		return w.fromTerm(c.Cmp(le, a, b))
	case token.GTR:
		return w.fromTerm(c.Cmp(lt, b, a))
	case token.GEQ:
		return w.fromTerm(c.Cmp(le, b, a))
	}
	panic(engineError("symBin " + op.String()))
}

func (w *Worker) shift(op token.Token, wd Sort, signed bool, x, y value, yt types.Type) value {
	ywd, ysigned := Sort(64), false
	if b, ok := isBasic(yt); ok {
		ywd, ysigned = kindWidth(b.Kind())
		if ywd == 0 {
			ywd = 64
		}
	}
	if ysigned {
		if yv, ok := y.(uint64); ok {
			if sx(yv, ywd) < 0 {
				w.rtPanic("negative shift amount")
			}
		} else if w.branch(w.c.Cmp(OSlt, w.toBV(y, ywd), w.c.BV(0, ywd))) {
			w.rtPanic("negative shift amount")
		}
	}
	u, ok1 := x.(uint64)
	s, ok2 := y.(uint64)
	o := OShl
	if op == token.SHR {
		o = OLshr
		if signed {
			o = OAshr
		}
	}
	if ok2 {
		if s > 64 {
			s = 64
		}
		if ok1 {
			if s >= uint64(wd) && o != OAshr {
				return uint64(0)
			}
			if o == OAshr && s >= uint64(wd) {
				s = uint64(wd) - 1
			}
			return evalBin(o, u, s, wd)
		}
		if s >= uint64(wd) {
			if o == OAshr {
				s = uint64(wd) - 1
			} else {
				return uint64(0)
			}
		}
		return w.fromTerm(w.c.Bin(o, w.toBV(x, wd), w.c.BV(s, wd)))
	}
	// symbolic shift amount: saturate to width
	yt64 := w.toBV(y, ywd)
	var amt *Term
	if ywd >= wd {
		big := w.c.Cmp(OUle, w.c.BV(uint64(wd), ywd), yt64)
		if ywd > wd {
			amt = w.c.Ite(big, w.c.BV(uint64(wd), wd), w.c.Extract(yt64, uint(wd)-1, 0))
		} else {
			amt = yt64
		}
	} else {
		amt = w.c.Zext(yt64, wd)
	}
	return w.fromTerm(w.c.Bin(o, w.toBV(x, wd), amt))
}

func (w *Worker) floatBin(op token.Token, b *types.Basic, x, y value) value {
	p, ok1 := x.(float64)
	q, ok2 := y.(float64)
	if ok1 && ok2 {
		r := 0.0
		switch op {
		case token.ADD:
			r = p + q
		case token.SUB:
			r = p - q
		case token.MUL:
			r = p * q
		case token.QUO:
			r = p / q
		case token.LSS:
			return p < q
		case token.LEQ:
			return p <= q
		case token.GTR:
			return p > q
		case token.GEQ:
			return p >= q
		}
		if b.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return r
	}
	if b.Kind() == types.Float32 {
		unsup("symbolic float32")
	}
	s, t := w.toFP(x), w.toFP(y)
	c := w.c
	if r, ok := w.ratioCmp(op, s, t); ok {
		return r
	}
	switch op {
	case token.ADD:
		return w.fromTerm(c.FBin(OFAdd, s, t))
	case token.SUB:
		return w.fromTerm(c.FBin(OFSub, s, t))
	case token.MUL:
		return w.fromTerm(c.FBin(OFMul, s, t))
	case token.QUO:
		return w.fromTerm(c.FBin(OFDiv, s, t))
	case token.LSS:
		return w.fromTerm(c.FCmp(OFLt, s, t))
	case token.LEQ:
		return w.fromTerm(c.FCmp(OFLe, s, t))
	case token.GTR:
		return w.fromTerm(c.FCmp(OFLt, t, s))
	case token.GEQ:
		return w.fromTerm(c.FCmp(OFLe, t, s))
	}
	panic(engineError("floatBin"))
}

func (w *Worker) unop(op token.Token, t types.Type, x value) value {
	if p, ok := x.(poison); ok {
		unsup("poison operand: %s", p.why)
	}
	switch op {
	case token.NOT:
		if b, ok := x.(bool); ok {
			return !b
		}
		return w.fromTerm(w.c.Not(x.(*Term)))
	case token.SUB, token.XOR:
		b, _ := isBasic(t)
		switch {
		case b.Info()&types.IsInteger != 0:
			wd, _ := kindWidth(b.Kind())
			if u, ok := x.(uint64); ok {
				if op == token.SUB {
					return (-u) & mask(wd)
				}
				return (^u) & mask(wd)
			}
			if op == token.SUB {
				return w.fromTerm(w.c.Neg(x.(*Term)))
			}
			return w.fromTerm(w.c.BNot(x.(*Term)))
		case b.Info()&types.IsFloat != 0:
			if f, ok := x.(float64); ok {
				return -f
			}
			return w.fromTerm(w.c.FNeg(x.(*Term)))
		case b.Info()&types.IsComplex != 0:
			return -x.(complex128)
		}
	}
	unsup("unop %s %T", op, x)
	return nil
}

func (w *Worker) conv(fr *frame, dst, src types.Type, x value) value {
	if p, ok := x.(poison); ok {
		unsup("poison operand: %s", p.why)
	}
	ud, us := dst.Underlying(), src.Underlying()
	switch s := us.(type) {
	case *types.Pointer:
		if b, ok := ud.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return uptr{x}
		}
		return x
	case *types.Slice:
		// []byte / []rune -> string
		if b, ok := ud.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			sl := x.(slice)
			eb := s.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return mkStr(sl)
			}
			var out []value
			for _, r := range sl {
				out = append(out, w.runeBytes(r)...)
			}
			return mkStr(out)
		}
		if a, ok := ud.(*types.Array); ok {
			sl := x.(slice)
			if int64(len(sl)) < a.Len() {
				w.rtPanic("cannot convert slice to array: length too short")
			}
			r := make(array, a.Len())
			for i := range r {
				r[i] = copyVal(sl[i])
			}
			return r
		}
		return x
	case *types.Basic:
		if s.Kind() == types.UnsafePointer {
			u, _ := x.(uptr)
			if db, ok := ud.(*types.Basic); ok {
				if db.Kind() == types.UnsafePointer {
					return x
				}
				if db.Kind() == types.Uintptr {
					if u.v == nil || w.isZeroPtr(u.v) {
						return uint64(0)
					}
					return uint64(0xdead0000) // addresses are not modelled
				}
			}
			if u.v == nil {
				return zero(dst)
			}
			return u.v
		}
		if s.Info()&types.IsString != 0 {
			switch d := ud.(type) {
			case *types.Slice:
				eb := d.Elem().Underlying().(*types.Basic)
				if eb.Kind() == types.Uint8 {
					if isOpaque(x) {
						w.opaqueBytes[x.(*OpaqueStr)] = true
						unsup("bytes of opaque string")
					}
					b := strBytes(x)
					r := make(slice, len(b))
					copy(r, b)
					return r
				}
				// []rune
				var r slice = slice{}
				it := &strIter{s: x}
				for {
					t := it.next(w).(tuple)
					if !t[0].(bool) {
						break
					}
					r = append(r, t[2])
				}
				return r
			case *types.Basic:
				return x
			}
		}
		if db, ok := ud.(*types.Basic); ok {
			return w.convBasic(db, s, x)
		}
	}
	if _, ok := ud.(*types.Basic); !ok {
		return x
	}
	unsup("convert %s -> %s", src, dst)
	return nil
}

func (w *Worker) runeBytes(r value) []value {
	if u, ok := r.(uint64); ok {
		var buf [4]byte
		n := utf8.EncodeRune(buf[:], rune(int32(u)))
		out := make([]value, n)
		for i := 0; i < n; i++ {
			out[i] = uint64(buf[i])
		}
		return out
	}
	t := r.(*Term)
	if w.branch(w.c.Cmp(OUlt, t, w.c.BV(0x80, t.sort))) {
		return []value{w.fromTerm(w.c.Extract(t, 7, 0))}
	}
	unsup("symbolic non-ASCII rune")
	return nil
}

func (w *Worker) convBasic(d, s *types.Basic, x value) value {
	di, si := d.Info(), s.Info()
	switch {
	case si&types.IsInteger != 0 && di&types.IsString != 0:
		wd, signed := kindWidth(s.Kind())
		if u, ok := x.(uint64); ok {
			v := int64(u)
			if signed {
				v = sx(u, wd)
			}
			if v < 0 || v > 0x10ffff {
				return "\uFFFD"
			}
			return string(rune(v))
		}
		return mkStr(w.runeBytes(x))
	case si&types.IsInteger != 0 && di&types.IsInteger != 0:
		sw, signed := kindWidth(s.Kind())
		dw, _ := kindWidth(d.Kind())
		if u, ok := x.(uint64); ok {
			if dw > sw && signed {
				return uint64(sx(u, sw)) & mask(dw)
			}
			return u & mask(dw)
		}
		t := x.(*Term)
		switch {
		case dw == sw:
			return t
		case dw < sw:
			return w.fromTerm(w.c.Extract(t, uint(dw)-1, 0))
		case signed:
			return w.fromTerm(w.c.Sext(t, dw))
		default:
			return w.fromTerm(w.c.Zext(t, dw))
		}
	case si&types.IsInteger != 0 && di&types.IsFloat != 0:
		sw, signed := kindWidth(s.Kind())
		if u, ok := x.(uint64); ok {
			var f float64
			if signed {
				f = float64(sx(u, sw))
			} else {
				f = float64(u)
			}
			if d.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
		return w.fromTerm(w.c.IToF(x.(*Term), signed))
	case si&types.IsFloat != 0 && di&types.IsInteger != 0:
		dw, signed := kindWidth(d.Kind())
		if f, ok := x.(float64); ok {
			if signed {
				return uint64(int64(f)) & mask(dw)
			}
			if f < 0 {
				return uint64(int64(f)) & mask(dw)
			}
			return uint64(f) & mask(dw)
		}
		return w.fromTerm(w.c.FToI(x.(*Term), dw, signed))
	case si&types.IsFloat != 0 && di&types.IsFloat != 0:
		if f, ok := x.(float64); ok {
			if d.Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		}
		if d.Kind() == types.Float32 || s.Kind() == types.Float32 {
			unsup("symbolic float32 conversion")
		}
		return x
	case si&types.IsComplex != 0:
		return x
	case s.Kind() == types.Uintptr && d.Kind() == types.UnsafePointer:
		if u, ok := x.(uint64); ok && u == 0 {
			return uptr{}
		}
		unsup("uintptr to pointer")
	case si&types.IsBoolean != 0:
		return x
	case si&types.IsString != 0 && di&types.IsString != 0:
		return x
	case d.Kind() == types.UnsafePointer:
		return x
	}
	unsup("convBasic %s->%s (%s)", s, d, fmt.Sprintf("%T", x))
	return nil
}

var _ = math.Pi

// ratioCmp decides float64(a)/float64(b) <op> c exactly in integers when c = p/q is a small dyadic
// constant and 0 < b, a < 2^53, b < 2^52/(c*q): then |a/b - c| >= 1/(b*q) exceeds half an ulp around c, so
// the rounded quotient compares with c as the exact one does.
func (w *Worker) ratioCmp(op token.Token, s, t *Term) (value, bool) {
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}
	if _, ok := flip[op]; !ok {
		return nil, false
	}
	if s.op == OConst && (t.op == OFDiv || t.op == OFMul) {
		s, t, op = t, s, flip[op]
	}
	if r, ok := w.unitCmp(op, s, t); ok {
		return r, true
	}
	if s.op != OFDiv || t.op != OConst {
		return nil, false
	}
	k := math.Float64frombits(t.val)
	if !(k > 0 && k < 1<<16) {
		return nil, false
	}
	q := uint64(1)
	for k != math.Floor(k) && q < 1<<10 {
		k *= 2
		q *= 2
	}
	if k != math.Floor(k) || k >= 1<<10 {
		return nil, false
	}
	c := w.c
	arg := func(x *Term) *Term {
		switch {
		case x.op == OUToF && x.args[0].sort == 64, x.op == OSToF && x.args[0].sort == 64:
			return x.args[0]
		case x.op == OConst:
			f := math.Float64frombits(x.val)
			if f == math.Floor(f) && f >= 0 && f < 1<<53 {
				return c.BV(uint64(f), 64)
			}
		}
		return nil
	}
	a, b := arg(s.args[0]), arg(s.args[1])
	if a == nil || b == nil {
		return nil, false
	}
	// guard keeps every product below 2^64 too: q <= 2^10, a < 2^53; p < 2^10, b < 2^52
	lim := uint64(1<<52) / (uint64(k) + 1)
	guard := c.And(c.Cmp(OUlt, a, c.BV(1<<53, 64)), c.Cmp(OUlt, b, c.BV(lim, 64)), c.Not(c.Eq(b, c.BV(0, 64))))
	if !w.branch(guard) {
		return nil, false
	}
	l, r := c.Bin(OMul, a, c.BV(q, 64)), c.Bin(OMul, b, c.BV(uint64(k), 64))
	switch op {
	case token.LSS:
		return w.fromTerm(c.Cmp(OUlt, l, r)), true
	case token.LEQ:
		return w.fromTerm(c.Cmp(OUle, l, r)), true
	case token.GTR:
		return w.fromTerm(c.Cmp(OUlt, r, l)), true
	}
	return w.fromTerm(c.Cmp(OUle, r, l)), true
}

// unitCmp decides k*2^-53 <op> c for an integer k below 2^53: the product is exact, so the comparison is one of
// k with c*2^53, which is computed exactly.
func (w *Worker) unitCmp(op token.Token, s, t *Term) (value, bool) {
	if s.op != OFMul || t.op != OConst || s.args[1].op != OConst || math.Float64frombits(s.args[1].val) != 1.0/(1<<53) {
		return nil, false
	}
	x := s.args[0]
	if x.op != OSToF && x.op != OUToF {
		return nil, false
	}
	k := x.args[0]
	if k.op != OZext || k.args[0].sort > 53 || k.sort != 64 {
		return nil, false
	}
	f := math.Float64frombits(t.val)
	if math.IsNaN(f) || f < 0 {
		return op == token.GTR || op == token.GEQ, !math.IsNaN(f)
	}
	if f > 1 {
		return op == token.LSS || op == token.LEQ, true
	}
	v := new(big.Float).SetPrec(200).SetFloat64(f)
	v.Mul(v, new(big.Float).SetPrec(200).SetFloat64(1<<53))
	fl, _ := v.Uint64()
	exact := v.IsInt()
	ce := fl
	if !exact {
		ce++
	}
	c := w.c
	switch op {
	case token.LSS:
		return w.fromTerm(c.Cmp(OUlt, k, c.BV(ce, 64))), true
	case token.LEQ:
		return w.fromTerm(c.Cmp(OUle, k, c.BV(fl, 64))), true
	case token.GTR:
		return w.fromTerm(c.Cmp(OUlt, c.BV(fl, 64), k)), true
	}
	return w.fromTerm(c.Cmp(OUle, c.BV(ce, 64), k)), true
}
