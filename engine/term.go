package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

// Sorts: 0 = Bool, 1..64 = bit-vector width, SortFP = float64.
type Sort uint8

const (
	SBool Sort = 0
	SFP   Sort = 200
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // val = hi<<8|lo
	OZext
	OSext
	OConcat
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFNeg
	OFromBits // bv64 -> fp
	OSToF     // signed bv -> fp
	OUToF
	OFToS // fp -> signed bv (rtz), width = sort
	OFToU
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFNeg: "fp.neg",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE",
}

type Term struct {
	op      Op
	sort    Sort
	val     uint64
	name    string
	args    []*Term
	id      int
	defined bool // sent to solver
	evGen   int
	evVal   uint64
	vars    *Term // single var this term depends on (nil: none or many)
	many    bool
	tab     []uint64 // values of the single variable for which the term holds
}

func (t *Term) isConst() bool { return t.op == OConst }

type termKey struct {
	op         Op
	sort       Sort
	val        uint64
	name       string
	a, b, c, d int
}

// TermCtx hash-conses terms; one per worker.
type TermCtx struct {
	tab   map[termKey]*Term
	next  int
	True  *Term
	False *Term
	gen   int
	model map[string]uint64
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}}
	c.True = c.mk(OConst, SBool, 1, "")
	c.False = c.mk(OConst, SBool, 0, "")
	return c
}

func (c *TermCtx) mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, sort: s, val: val, name: name, a: -1, b: -1, c: -1, d: -1}
	if len(args) > 4 {
		// n-ary: use string key through name
		var sb strings.Builder
		for _, a := range args {
			sb.WriteString(strconv.Itoa(a.id))
			sb.WriteByte(',')
		}
		k.name = sb.String()
	} else {
		for i, a := range args {
			switch i {
			case 0:
				k.a = a.id
			case 1:
				k.b = a.id
			case 2:
				k.c = a.id
			case 3:
				k.d = a.id
			}
		}
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, val: val, name: name, args: append([]*Term(nil), args...), id: c.next, evGen: -1}
	c.next++
	if op == OVar {
		t.vars = t
	} else {
		for _, a := range args {
			if a.many {
				t.many = true
			} else if a.vars != nil {
				if t.vars == nil {
					t.vars = a.vars
				} else if t.vars != a.vars {
					t.many = true
				}
			}
		}
		if t.many {
			t.vars = nil
		}
	}
	c.tab[k] = t
	return t
}

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}
func sx(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *TermCtx) BV(v uint64, w Sort) *Term { return c.mk(OConst, w, v&mask(w), "") }
func (c *TermCtx) FP(f float64) *Term        { return c.mk(OConst, SFP, math.Float64bits(f), "") }
func (c *TermCtx) Var(name string, s Sort) *Term {
	return c.mk(OVar, s, 0, name)
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(ONot, SBool, 0, "", a)
}

func (c *TermCtx) And(as ...*Term) *Term { return c.nary(OAnd, as) }
func (c *TermCtx) Or(as ...*Term) *Term  { return c.nary(OOr, as) }

func (c *TermCtx) nary(op Op, as []*Term) *Term {
	var out []*Term
	absorb, unit := uint64(0), uint64(1)
	if op == OOr {
		absorb, unit = 1, 0
	}
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.op == OConst {
			return a.val != absorb
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		if a.op == ONot && seen[a.args[0].id] {
			return false
		}
		if n, ok := c.tab[termKey{op: ONot, sort: SBool, a: a.id, b: -1, c: -1, d: -1}]; ok && seen[n.id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.Bool(absorb == 1)
		}
	}
	switch len(out) {
	case 0:
		return c.Bool(unit == 1)
	case 1:
		return out[0]
	}
	return c.mk(op, SBool, 0, "", out...)
}

func (c *TermCtx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *TermCtx) Ite(g, a, b *Term) *Term {
	if g.op == OConst {
		if g.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if g.op == ONot {
		return c.Ite(g.args[0], b, a)
	}
	if a.sort == SBool {
		if a.op == OConst && b.op == OConst {
			if a.val == 1 {
				return g
			}
			return c.Not(g)
		}
		if a.op == OConst {
			if a.val == 1 {
				return c.Or(g, b)
			}
			return c.And(c.Not(g), b)
		}
		if b.op == OConst {
			if b.val == 1 {
				return c.Or(c.Not(g), a)
			}
			return c.And(g, a)
		}
	}
	return c.mk(OIte, a.sort, 0, "", g, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b && a.sort != SFP {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %d %d", a.sort, b.sort))
	}
	if a.sort == SFP {
		return c.FCmp(OFEq, a, b)
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.sort == SBool {
		if b.op == OConst {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
	} else if b.op == OConst {
		switch a.op {
		case OZext:
			in := a.args[0]
			if b.val&^mask(in.sort) != 0 {
				return c.False
			}
			return c.Eq(in, c.BV(b.val, in.sort))
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.op == OConst || y.op == OConst {
				return c.Ite(a.args[0], c.Eq(x, b), c.Eq(y, b))
			}
		case OAdd:
			if a.args[1].op == OConst {
				return c.Eq(a.args[0], c.BV(b.val-a.args[1].val, a.sort))
			}
		}
	} else if a.op == OZext && b.op == OZext && a.args[0].sort == b.args[0].sort {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return c.mk(OEq, SBool, 0, "", a, b)
}

// Bin builds a bit-vector binary operation of equal width operands.
func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.sort
	if a.sort != b.sort {
		panic(fmt.Sprintf("Bin %s sort mismatch %d %d", opNames[op], a.sort, b.sort))
	}
	if a.op == OConst && b.op == OConst {
		return c.BV(evalBin(op, a.val, b.val, w), w)
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].op == OConst {
				return c.Bin(OAdd, a.args[0], c.BV(a.args[1].val+b.val, w))
			}
			if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
				return c.Ite(a.args[0], c.BV(a.args[1].val+b.val, w), c.BV(a.args[2].val+b.val, w))
			}
		}
	case OSub:
		if b.op == OConst {
			return c.Bin(OAdd, a, c.BV(-b.val, w))
		}
		if a == b {
			return c.BV(0, w)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if bits.OnesCount64(b.val) == 1 {
				return c.Bin(OShl, a, c.BV(uint64(bits.TrailingZeros64(b.val)), w))
			}
		}
	case OUDiv:
		if b.op == OConst && b.val == 1 {
			return a
		}
		if b.op == OConst && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OLshr, a, c.BV(uint64(bits.TrailingZeros64(b.val)), w))
		}
	case OURem:
		if b.op == OConst && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OBAnd, a, c.BV(b.val-1, w))
		}
	case OSDiv:
		if b.op == OConst && b.val == 1 {
			return a
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val == 0 {
			return a
		}
		if a == b {
			return c.BV(0, w)
		}
	case OShl, OLshr, OAshr:
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) && op != OAshr {
				return c.BV(0, w)
			}
		}
	}
	return c.mk(op, w, 0, "", a, b)
}

func evalBin(op Op, a, b uint64, w Sort) uint64 {
	m := mask(w)
	a &= m
	b &= m
	var r uint64
	switch op {
	case OAdd:
		r = a + b
	case OSub:
		r = a - b
	case OMul:
		r = a * b
	case OUDiv:
		if b == 0 {
			r = m
		} else {
			r = a / b
		}
	case OURem:
		if b == 0 {
			r = a
		} else {
			r = a % b
		}
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x >= 0 {
				r = m
			} else {
				r = 1
			}
		} else if y == -1 {
			r = uint64(-x)
		} else {
			r = uint64(x / y)
		}
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			r = a
		} else if y == -1 {
			r = 0
		} else {
			r = uint64(x % y)
		}
	case OBAnd:
		r = a & b
	case OBOr:
		r = a | b
	case OBXor:
		r = a ^ b
	case OShl:
		if b >= uint64(w) {
			r = 0
		} else {
			r = a << b
		}
	case OLshr:
		if b >= uint64(w) {
			r = 0
		} else {
			r = a >> b
		}
	case OAshr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		r = uint64(x >> b)
	default:
		panic("evalBin")
	}
	return r & m
}

func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic("Cmp sort mismatch")
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(evalCmp(op, a.val, b.val, a.sort))
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	w := a.sort
	// zero-extended operand against constants
	if b.op == OConst && a.op == OZext {
		in := a.args[0]
		mx := mask(in.sort)
		switch op {
		case OUlt, OSlt:
			if op == OSlt && sx(b.val, w) < 0 {
				return c.False
			}
			if b.val > mx {
				return c.True
			}
			return c.Cmp(OUlt, in, c.BV(b.val, in.sort))
		case OUle, OSle:
			if op == OSle && sx(b.val, w) < 0 {
				return c.False
			}
			if b.val >= mx {
				return c.True
			}
			return c.Cmp(OUle, in, c.BV(b.val, in.sort))
		}
	}
	if a.op == OConst && b.op == OZext {
		in := b.args[0]
		mx := mask(in.sort)
		switch op {
		case OUlt, OSlt:
			if op == OSlt && sx(a.val, w) < 0 {
				return c.True
			}
			if a.val >= mx {
				return c.False
			}
			return c.Cmp(OUlt, c.BV(a.val, in.sort), in)
		case OUle, OSle:
			if op == OSle && sx(a.val, w) < 0 {
				return c.True
			}
			if a.val > mx {
				return c.False
			}
			return c.Cmp(OUle, c.BV(a.val, in.sort), in)
		}
	}
	if op == OUlt && b.op == OConst && b.val == 0 {
		return c.False
	}
	if op == OUle && b.op == OConst && b.val == mask(w) {
		return c.True
	}
	if op == OUle && a.op == OConst && a.val == 0 {
		return c.True
	}
	if a.op == OIte && b.op == OConst && a.args[1].op == OConst && a.args[2].op == OConst {
		return c.Ite(a.args[0], c.Cmp(op, a.args[1], b), c.Cmp(op, a.args[2], b))
	}
	return c.mk(op, SBool, 0, "", a, b)
}

func evalCmp(op Op, a, b uint64, w Sort) bool {
	switch op {
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return sx(a, w) < sx(b, w)
	case OSle:
		return sx(a, w) <= sx(b, w)
	}
	panic("evalCmp")
}

func (c *TermCtx) Extract(a *Term, hi, lo uint) *Term {
	w := Sort(hi - lo + 1)
	if w == a.sort {
		return a
	}
	if a.op == OConst {
		return c.BV(a.val>>lo, w)
	}
	if (a.op == OZext || a.op == OSext) && lo == 0 {
		in := a.args[0]
		if w == in.sort {
			return in
		}
		if w < in.sort {
			return c.Extract(in, hi, lo)
		}
		if a.op == OZext {
			return c.Zext(in, w)
		}
		return c.Sext(in, w)
	}
	if a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) {
		return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
	}
	return c.mk(OExtract, w, uint64(hi)<<8|uint64(lo), "", a)
}
func (c *TermCtx) Zext(a *Term, w Sort) *Term {
	if w == a.sort {
		return a
	}
	if a.op == OConst {
		return c.BV(a.val, w)
	}
	if a.op == OZext {
		return c.Zext(a.args[0], w)
	}
	if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
		return c.Ite(a.args[0], c.Zext(a.args[1], w), c.Zext(a.args[2], w))
	}
	return c.mk(OZext, w, 0, "", a)
}
func (c *TermCtx) Sext(a *Term, w Sort) *Term {
	if w == a.sort {
		return a
	}
	if a.op == OConst {
		return c.BV(uint64(sx(a.val, a.sort)), w)
	}
	if a.op == OZext {
		return c.Zext(a.args[0], w)
	}
	if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
		return c.Ite(a.args[0], c.Sext(a.args[1], w), c.Sext(a.args[2], w))
	}
	return c.mk(OSext, w, 0, "", a)
}
func (c *TermCtx) Neg(a *Term) *Term { return c.Bin(OSub, c.BV(0, a.sort), a) }
func (c *TermCtx) BNot(a *Term) *Term {
	return c.Bin(OBXor, a, c.BV(mask(a.sort), a.sort))
}

// FP
func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.FP(evalF(op, math.Float64frombits(a.val), math.Float64frombits(b.val)))
	}
	return c.mk(op, SFP, 0, "", a, b)
}
func evalF(op Op, a, b float64) float64 {
	switch op {
	case OFAdd:
		return a + b
	case OFSub:
		return a - b
	case OFMul:
		return a * b
	case OFDiv:
		return a / b
	}
	panic("evalF")
}
func (c *TermCtx) FCmp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Bool(evalFCmp(op, math.Float64frombits(a.val), math.Float64frombits(b.val)))
	}
	return c.mk(op, SBool, 0, "", a, b)
}
func evalFCmp(op Op, a, b float64) bool {
	switch op {
	case OFLt:
		return a < b
	case OFLe:
		return a <= b
	case OFEq:
		return a == b
	}
	panic("evalFCmp")
}
func (c *TermCtx) FNeg(a *Term) *Term {
	if a.op == OConst {
		return c.FP(-math.Float64frombits(a.val))
	}
	return c.mk(OFNeg, SFP, 0, "", a)
}
func (c *TermCtx) FromBits(a *Term) *Term {
	if a.op == OConst {
		return c.mk(OConst, SFP, a.val, "")
	}
	return c.mk(OFromBits, SFP, 0, "", a)
}
func (c *TermCtx) IToF(a *Term, signed bool) *Term {
	if a.op == OConst {
		if signed {
			return c.FP(float64(sx(a.val, a.sort)))
		}
		return c.FP(float64(a.val))
	}
	if signed {
		return c.mk(OSToF, SFP, 0, "", a)
	}
	return c.mk(OUToF, SFP, 0, "", a)
}
func (c *TermCtx) FToI(a *Term, w Sort, signed bool) *Term {
	if a.op == OConst {
		f := math.Float64frombits(a.val)
		if signed {
			return c.BV(uint64(int64(f)), w)
		}
		return c.BV(uint64(f), w)
	}
	if signed {
		return c.mk(OFToS, w, 0, "", a)
	}
	return c.mk(OFToU, w, 0, "", a)
}

// eval evaluates t under the current model (missing vars read 0).
func (c *TermCtx) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evGen == c.gen {
		return t.evVal
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		r = c.model[t.name]
	case ONot:
		r = 1 - c.eval(t.args[0])
	case OAnd:
		r = 1
		for _, a := range t.args {
			if c.eval(a) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for _, a := range t.args {
			if c.eval(a) == 1 {
				r = 1
				break
			}
		}
	case OIte:
		if c.eval(t.args[0]) == 1 {
			r = c.eval(t.args[1])
		} else {
			r = c.eval(t.args[2])
		}
	case OEq:
		r = b2u(c.eval(t.args[0]) == c.eval(t.args[1]))
	case OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr:
		r = evalBin(t.op, c.eval(t.args[0]), c.eval(t.args[1]), t.sort)
	case OUlt, OUle, OSlt, OSle:
		r = b2u(evalCmp(t.op, c.eval(t.args[0]), c.eval(t.args[1]), t.args[0].sort))
	case OExtract:
		r = (c.eval(t.args[0]) >> (t.val & 0xff)) & mask(t.sort)
	case OZext:
		r = c.eval(t.args[0])
	case OSext:
		r = uint64(sx(c.eval(t.args[0]), t.args[0].sort)) & mask(t.sort)
	case OConcat:
		r = c.eval(t.args[0])<<t.args[1].sort | c.eval(t.args[1])
	case OFAdd, OFSub, OFMul, OFDiv:
		r = math.Float64bits(evalF(t.op, math.Float64frombits(c.eval(t.args[0])), math.Float64frombits(c.eval(t.args[1]))))
	case OFLt, OFLe, OFEq:
		r = b2u(evalFCmp(t.op, math.Float64frombits(c.eval(t.args[0])), math.Float64frombits(c.eval(t.args[1]))))
	case OFNeg:
		r = math.Float64bits(-math.Float64frombits(c.eval(t.args[0])))
	case OFromBits:
		r = c.eval(t.args[0])
	case OSToF:
		r = math.Float64bits(float64(sx(c.eval(t.args[0]), t.args[0].sort)))
	case OUToF:
		r = math.Float64bits(float64(c.eval(t.args[0])))
	case OFToS:
		r = uint64(int64(math.Float64frombits(c.eval(t.args[0])))) & mask(t.sort)
	case OFToU:
		r = uint64(math.Float64frombits(c.eval(t.args[0]))) & mask(t.sort)
	default:
		panic("eval op")
	}
	t.evGen = c.gen
	t.evVal = r
	return r
}

func (c *TermCtx) setModel(m map[string]uint64) {
	c.model = m
	c.gen++
}

// smtRef returns the text by which t is referenced.
func (t *Term) smtRef() string {
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case SFP:
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
		}
		if t.sort%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.sort)/4, t.val)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort)
	case OVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

func (s Sort) smt() string {
	switch s {
	case SBool:
		return "Bool"
	case SFP:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

// smtDefs appends the commands which define t and everything below it.
func (t *Term) smtDefs(sb *strings.Builder) {
	if t.defined || t.op == OConst {
		return
	}
	t.defined = true
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-const |%s| %s)\n", t.name, t.sort.smt())
		return
	}
	for _, a := range t.args {
		a.smtDefs(sb)
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, t.sort.smt())
	switch t.op {
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", t.val>>8, t.val&0xff, t.args[0].smtRef())
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.sort-t.args[0].sort, t.args[0].smtRef())
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.sort-t.args[0].sort, t.args[0].smtRef())
	case OFromBits:
		fmt.Fprintf(sb, "((_ to_fp 11 53) %s)", t.args[0].smtRef())
	case OSToF:
		fmt.Fprintf(sb, "((_ to_fp 11 53) RNE %s)", t.args[0].smtRef())
	case OUToF:
		fmt.Fprintf(sb, "((_ to_fp_unsigned 11 53) RNE %s)", t.args[0].smtRef())
	case OFToS:
		fmt.Fprintf(sb, "((_ fp.to_sbv %d) RTZ %s)", t.sort, t.args[0].smtRef())
	case OFToU:
		fmt.Fprintf(sb, "((_ fp.to_ubv %d) RTZ %s)", t.sort, t.args[0].smtRef())
	default:
		sb.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(a.smtRef())
		}
		sb.WriteByte(')')
	}
	sb.WriteString(")\n")
}

// collectVars adds all variables below t.
func collectVars(t *Term, seen map[int]bool, out *[]*Term) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OVar {
		*out = append(*out, t)
		return
	}
	for _, a := range t.args {
		collectVars(a, seen, out)
	}
}

func parseBVLit(s string) (uint64, error) {
	s = strings.TrimSpace(s)
	switch {
	case s == "true":
		return 1, nil
	case s == "false":
		return 0, nil
	case strings.HasPrefix(s, "#x"):
		return strconv.ParseUint(s[2:], 16, 64)
	case strings.HasPrefix(s, "#b"):
		return strconv.ParseUint(s[2:], 2, 64)
	case strings.HasPrefix(s, "(_ bv"):
		f := strings.Fields(s[5:])
		b, ok := new(big.Int).SetString(f[0], 10)
		if !ok {
			return 0, fmt.Errorf("bad literal %q", s)
		}
		return b.Uint64(), nil
	}
	return 0, fmt.Errorf("bad literal %q", s)
}
