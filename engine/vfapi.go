package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) strArg(v value) string {
	s, ok := v.(string)
	if !ok {
		unsup("symbolic label")
	}
	return s
}

func init() {
	p := mainPkgPath + "."
	r := func(name string, f func(w *Worker, fr *frame, a []value) value) {
		reg(p+name, func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return f(w, fr, a) })
	}
	r("vfSymbolic", func(w *Worker, fr *frame, a []value) value { return true })
	r("vfTier", func(w *Worker, fr *frame, a []value) value { return uint64(w.ex.tier) })
	r("vfBool", func(w *Worker, fr *frame, a []value) value { return w.newVar(w.strArg(a[0]), SBool) })
	r("vfByte", func(w *Worker, fr *frame, a []value) value { return w.newVar(w.strArg(a[0]), 8) })
	r("vfInt64", func(w *Worker, fr *frame, a []value) value { return w.newVar(w.strArg(a[0]), 64) })
	r("vfUint64", func(w *Worker, fr *frame, a []value) value { return w.newVar(w.strArg(a[0]), 64) })
	r("vfFloat", func(w *Worker, fr *frame, a []value) value {
		return w.c.FromBits(w.newVar(w.strArg(a[0]), 64))
	})
	r("vfInt", func(w *Worker, fr *frame, a []value) value {
		lo, hi := int64(w.concretize(a[1])), int64(w.concretize(a[2]))
		if lo > hi {
			panic(pathEnd{"assume"})
		}
		c := w.c
		if lo >= 0 {
			wd := Sort(1)
			for int64(mask(wd)) < hi && wd < 63 {
				wd++
			}
			v := w.newVar(w.strArg(a[0]), wd)
			w.assume(c.And(c.Cmp(OUle, c.BV(uint64(lo), wd), v), c.Cmp(OUle, v, c.BV(uint64(hi), wd))))
			return w.fromTerm(c.Zext(v, 64))
		}
		v := w.newVar(w.strArg(a[0]), 64)
		w.assume(c.And(c.Cmp(OSle, c.BV(uint64(lo), 64), v), c.Cmp(OSle, v, c.BV(uint64(hi), 64))))
		return v
	})
	r("vfChoice", func(w *Worker, fr *frame, a []value) value {
		n := int(w.concretize(a[1]))
		t := w.newVar(w.strArg(a[0]), 8)
		k := w.choose(n, w.strArg(a[0]))
		if w.lastModel != nil {
			m := map[string]uint64{}
			for x, y := range w.lastModel {
				m[x] = y
			}
			m[t.name] = uint64(k)
			w.useModel(m)
		}
		w.addPC(w.c.Eq(t, w.c.BV(uint64(k), 8)))
		return uint64(k)
	})
	mk := func(w *Worker, a []value) []value {
		n := int(w.concretize(a[1]))
		b := make([]value, n)
		for i := range b {
			b[i] = w.newVar(fmt.Sprintf("%s.%d", w.strArg(a[0]), i), 8)
		}
		return b
	}
	r("vfStr", func(w *Worker, fr *frame, a []value) value { return mkStr(mk(w, a)) })
	r("vfBytes", func(w *Worker, fr *frame, a []value) value { return slice(mk(w, a)) })
	r("vfAssume", func(w *Worker, fr *frame, a []value) value {
		w.assume(w.toBool(a[0]))
		return nil
	})
	r("vfAssert", func(w *Worker, fr *frame, a []value) value {
		w.assertTerm(w.strArg(a[0]), w.toBool(a[1]))
		return nil
	})
	r("vfCover", func(w *Worker, fr *frame, a []value) value {
		w.path.covers[w.strArg(a[0])] = true
		return nil
	})
	obs := func(w *Worker, fr *frame, a []value) value {
		w.path.obs = append(w.path.obs, obsRec{label: w.strArg(a[0]), v: a[1]})
		return nil
	}
	r("vfObsS", obs)
	r("vfObsB", obs)
	r("vfObsI", func(w *Worker, fr *frame, a []value) value {
		w.path.obs = append(w.path.obs, obsRec{label: w.strArg(a[0]), v: a[1], signed: true})
		return nil
	})
	conn := func(and bool) func(w *Worker, fr *frame, a []value) value {
		return func(w *Worker, fr *frame, a []value) value {
			var ts []*Term
			for _, x := range a[0].(slice) {
				ts = append(ts, w.toBool(x))
			}
			if and {
				return w.fromTerm(w.c.And(ts...))
			}
			return w.fromTerm(w.c.Or(ts...))
		}
	}
	r("vfAnd", conn(true))
	r("vfOr", conn(false))
	r("vfNot", func(w *Worker, fr *frame, a []value) value { return w.fromTerm(w.c.Not(w.toBool(a[0]))) })
	r("vfImplies", func(w *Worker, fr *frame, a []value) value {
		return w.fromTerm(w.c.Implies(w.toBool(a[0]), w.toBool(a[1])))
	})
	r("vfEqS", func(w *Worker, fr *frame, a []value) value { return w.strEq(a[0], a[1]) })
	r("vfIteI", func(w *Worker, fr *frame, a []value) value {
		return w.fromTerm(w.c.Ite(w.toBool(a[0]), w.toBV(a[1], 64), w.toBV(a[2], 64)))
	})
	r("vfLogCount", func(w *Worker, fr *frame, a []value) value { return uint64(w.path.logCount[w.strArg(a[0])]) })
	r("vfRunCommand", func(w *Worker, fr *frame, a []value) value {
		if w.prg.cmd == nil || w.prg.cmd.Func("main") == nil {
			unsup("no command")
		}
		return w.callFn(fr.g, fr, w.prg.cmd.Func("main"), nil, nil)
	})
	r("vfLogCapture", func(w *Worker, fr *frame, a []value) value {
		w.path.logCount = map[string]int{}
		w.path.logRec, w.path.logs = true, nil
		return nil
	})
	r("vfLogLen", func(w *Worker, fr *frame, a []value) value { return uint64(len(w.path.logs)) })
	ev := func(w *Worker, i value) *logEvent { return w.path.logs[w.concretize(i)] }
	r("vfLogLevel", func(w *Worker, fr *frame, a []value) value { return ev(w, a[0]).level })
	r("vfLogHas", func(w *Worker, fr *frame, a []value) value {
		_, ok := ev(w, a[0]).get(w.strArg(a[1]))
		return ok
	})
	r("vfLogS", func(w *Worker, fr *frame, a []value) value {
		v, _ := ev(w, a[0]).get(w.strArg(a[1]))
		switch v.(type) {
		case string, *SymStr:
			return v
		}
		return ""
	})
	r("vfLogI", func(w *Worker, fr *frame, a []value) value {
		v, _ := ev(w, a[0]).get(w.strArg(a[1]))
		switch v := v.(type) {
		case uint64, *Term:
			return v
		}
		return ^uint64(0)
	})
	r("vfLogLeaks", func(w *Worker, fr *frame, a []value) value {
		want := strBytes(a[0])
		var or []*Term
		for _, e := range w.path.logs {
			for _, v := range e.vals {
				switch v.(type) {
				case string, *SymStr:
				default:
					continue
				}
				b := strBytes(v)
				for i := 0; i+len(want) <= len(b); i++ {
					t := w.toBool(w.bytesEq(b[i:i+len(want)], want))
					or = append(or, t)
				}
			}
		}
		return w.fromTerm(w.c.Or(or...))
	})
	r("vfRandSym", func(w *Worker, fr *frame, a []value) value {
		w.path.randSym, w.path.fixed, w.path.radix = true, nil, nil
		return nil
	})
	r("vfRandFix", func(w *Worker, fr *frame, a []value) value {
		w.path.randSym, w.path.fixed, w.path.radix = true, []int{}, nil
		if sl, ok := a[0].(slice); ok {
			for _, x := range sl {
				w.path.fixed = append(w.path.fixed, int(w.concretize(x)))
			}
		}
		return nil
	})
	r("vfRandRadixN", func(w *Worker, fr *frame, a []value) value { return uint64(len(w.path.radix)) })
	r("vfRandRadix", func(w *Worker, fr *frame, a []value) value {
		return uint64(w.path.radix[int(w.concretize(a[0]))])
	})
	r("vfDice", func(w *Worker, fr *frame, a []value) value {
		i := int(w.concretize(a[0]))
		if i >= len(w.path.dice) {
			return uint64(0)
		}
		return w.fromTerm(w.path.dice[i])
	})
	r("vfDiceN", func(w *Worker, fr *frame, a []value) value { return uint64(len(w.path.dice)) })
	r("vfSetField", func(w *Worker, fr *frame, a []value) value {
		p := a[0].(iface)
		st := p.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		cell := p.v.(*value)
		s := (*cell).(structure)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == w.strArg(a[1]) {
				v := a[2].(iface)
				if _, ok := st.Field(i).Type().Underlying().(*types.Interface); ok {
					s[i] = v
				} else {
					s[i] = v.v
				}
				return nil
			}
		}
		unsup("vfSetField: no field %v", a[1])
		return nil
	})
	r("vfLeft", func(w *Worker, fr *frame, a []value) value {
		n := 0
		for _, g := range w.path.gs {
			if !g.done && g != w.cur {
				n++
			}
		}
		return uint64(n)
	})
	r("vfSched", func(w *Worker, fr *frame, a []value) value {
		w.path.schedChoice = true
		return nil
	})
}
