package main

import (
	"fmt"
	"go/types"
	"runtime"
	"runtime/debug"

	"golang.org/x/tools/go/ssa"
)

// G is an interpreted goroutine; exactly one runs at a time.
type G struct {
	id     int
	depth  int
	wake   chan struct{}
	ready  func() bool // nil = runnable
	done   bool
	fn     value
	args   []value
	what   string
	timerT *Term // sleeping until (virtual ns)
}

type timer struct {
	at      *Term // absolute virtual time, ns
	seq     int
	fire    func()
	stopped bool
	fired   bool
}

type Chan struct {
	w      *Worker
	cap    int
	buf    []value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

// waiter is a goroutine parked in a channel operation or select.
type waiter struct {
	g     *G
	sel   *selState
	idx   int
	val   value // to send
	state *selState
}

type selState struct {
	done bool
	idx  int
	val  value
	ok   bool
	pan  bool
}

func (w *Worker) spawn(fn value, args []value) {
	if w.initDepth > 0 {
		unsup("goroutine during initialisation")
	}
	p := w.path
	g := &G{id: len(p.gs), wake: make(chan struct{}), fn: fn, args: args}
	p.gs = append(p.gs, g)
	if len(p.gs) > 600 {
		unsup("more than 600 goroutines")
	}
	p.wg.Add(1)
	go w.runG(g)
}

func (w *Worker) runG(g *G) {
	p := w.path
	defer p.wg.Done()
	<-g.wake
	if p.killed {
		return
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if _, ok := r.(pathKill); ok {
				return
			}
			if e, ok := r.(runtime.Error); ok && debugOn {
				fmt.Printf("%v\n%s\n", e, debug.Stack())
			}
			p.finish(w, r)
		}()
		w.cur = g
		w.callValue(g, nil, g.fn, g.args)
		g.done = true
		if g.id == 0 {
			p.finish(w, nil)
			return
		}
		w.scheduleFrom(g)
	}()
}

// finish ends the path with outcome r.
func (p *Path) finish(w *Worker, r interface{}) {
	if p.ended {
		return
	}
	p.ended = true
	p.outcome = r
	close(p.endCh)
}

// park blocks g until ready() holds.
func (w *Worker) park(g *G, what string, ready func() bool) {
	if ready() {
		return
	}
	g.ready = ready
	g.what = what
	w.scheduleFrom(g)
}

// scheduleFrom picks the next goroutine to run; returns when g is scheduled again (if not done).
func (w *Worker) scheduleFrom(g *G) {
	p := w.path
	for {
		var run []*G
		for _, x := range p.gs {
			if x.done {
				continue
			}
			if x.ready == nil || x.ready() {
				run = append(run, x)
			}
		}
		if len(run) > 0 {
			next := run[0]
			// round robin: prefer ids after the one that just ran
			if p.schedChoice && len(run) > 1 {
				next = run[w.choose(len(run), "sched")]
			} else {
				for _, x := range run {
					if x.id > g.id {
						next = x
						break
					}
				}
			}
			next.ready = nil
			if next == g {
				w.cur = g
				return
			}
			done := g.done
			w.cur = next
			next.wake <- struct{}{}
			if done {
				return
			}
			<-g.wake
			if p.killed {
				panic(pathKill{})
			}
			w.cur = g
			return
		}
		if !w.advanceTime() {
			panic(deadlock{g.what})
		}
	}
}

type deadlock struct{ what string }

// advanceTime fires the earliest pending timer.
func (w *Worker) advanceTime() bool {
	p := w.path
	var pend []*timer
	live := p.timers[:0:0]
	for _, t := range p.timers {
		if !t.stopped && !t.fired {
			pend = append(pend, t)
			live = append(live, t)
		}
	}
	p.timers = live
	if len(pend) == 0 {
		return false
	}
	best := pend[0]
	for _, t := range pend[1:] {
		// t strictly earlier than best?
		if w.truth(w.fromTerm(w.c.Cmp(OSlt, t.at, best.at))) {
			best = t
		}
	}
	if p.maxTime != 0 {
		if !w.truth(w.fromTerm(w.c.Cmp(OSle, best.at, w.c.BV(p.maxTime, 64)))) {
			return false
		}
	}
	p.now = best.at
	best.fired = true
	best.fire()
	return true
}

func (w *Worker) addTimer(d value, fire func()) *timer {
	p := w.path
	dt := w.toBV(d, 64)
	at := w.c.Bin(OAdd, p.now, dt)
	if dt.op == OConst {
		if int64(dt.val) < 0 {
			at = p.now
		}
	} else {
		at = w.c.Ite(w.c.Cmp(OSlt, dt, w.c.BV(0, 64)), p.now, at)
	}
	t := &timer{at: at, seq: len(p.timers), fire: fire}
	p.timers = append(p.timers, t)
	return t
}

func (w *Worker) sleep(g *G, d value) {
	woken := false
	w.addTimer(d, func() { woken = true })
	w.park(g, "sleep", func() bool { return woken })
}

// ---- channels ----

func asChan(v value) *Chan {
	switch c := v.(type) {
	case *Chan:
		return c
	case poison:
		unsup("poison channel: %s", c.why)
	}
	unsup("channel op on %T", v)
	return nil
}

func dequeue(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if !x.state.done {
			return x
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, x := range q {
		if !x.state.done {
			return true
		}
	}
	return false
}

func (c *Chan) canRecv() bool { return len(c.buf) > 0 || c.closed || hasWaiter(c.sendq) }
func (c *Chan) canSend() bool { return c.closed || len(c.buf) < c.cap || hasWaiter(c.recvq) }

func (w *Worker) doRecvNow(c *Chan) (value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if s := dequeue(&c.sendq); s != nil {
			c.buf = append(c.buf, s.val)
			s.state.done = true
			s.state.idx = s.idx
		}
		return v, true
	}
	if s := dequeue(&c.sendq); s != nil {
		s.state.done = true
		s.state.idx = s.idx
		return s.val, true
	}
	return nil, false // closed
}

func (w *Worker) doSendNow(c *Chan, v value) {
	if c.closed {
		w.panicPlain("send on closed channel")
	}
	if r := dequeue(&c.recvq); r != nil {
		r.state.done = true
		r.state.idx = r.idx
		r.state.val = v
		r.state.ok = true
		return
	}
	c.buf = append(c.buf, v)
}

func (w *Worker) panicPlain(msg string) { w.rtPanic(msg) }

func (w *Worker) chanSend(fr *frame, cv, v value) {
	c := asChan(cv)
	v = copyVal(v)
	if c == nil {
		w.park(fr.g, "send on nil channel", func() bool { return false })
	}
	if c.canSend() {
		w.doSendNow(c, v)
		return
	}
	st := &selState{}
	c.sendq = append(c.sendq, &waiter{g: fr.g, val: v, state: st})
	w.park(fr.g, "chan send", func() bool { return st.done })
	if st.pan {
		w.panicPlain("send on closed channel")
	}
}

func (w *Worker) chanRecv(fr *frame, cv value) (value, bool) {
	c := asChan(cv)
	if c == nil {
		w.park(fr.g, "receive on nil channel", func() bool { return false })
	}
	if c.canRecv() {
		return w.doRecvNow(c)
	}
	st := &selState{}
	c.recvq = append(c.recvq, &waiter{g: fr.g, state: st})
	w.park(fr.g, "chan receive", func() bool { return st.done })
	return st.val, st.ok
}

func (w *Worker) chanClose(cv value) {
	c := asChan(cv)
	if c == nil {
		w.panicPlain("close of nil channel")
	}
	if c.closed {
		w.panicPlain("close of closed channel")
	}
	c.closed = true
	for {
		r := dequeue(&c.recvq)
		if r == nil {
			break
		}
		r.state.done = true
		r.state.idx = r.idx
		r.state.val = nil
		r.state.ok = false
	}
	for {
		s := dequeue(&c.sendq)
		if s == nil {
			break
		}
		s.state.done = true
		s.state.idx = s.idx
		s.state.pan = true
	}
}

func (w *Worker) selectStmt(fr *frame, in *ssa.Select, ci *cinstr) value {
	type scase struct {
		c    *Chan
		send bool
		v    value
		et   types.Type
	}
	cases := make([]scase, len(in.States))
	oi := 0
	for i, s := range in.States {
		cv := fr.get(&ci.ops[oi])
		oi++
		sc := scase{c: asChan(cv), send: s.Dir == types.SendOnly}
		if s.Send != nil {
			sc.v = copyVal(fr.get(&ci.ops[oi]))
		}
		oi++
		sc.et = s.Chan.Type().Underlying().(*types.Chan).Elem()
		cases[i] = sc
	}
	var ready []int
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		if c.send && c.c.canSend() || !c.send && c.c.canRecv() {
			ready = append(ready, i)
		}
	}
	idx := -1
	var val value
	ok := false
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = w.choose(len(ready), "select")
		}
		idx = ready[k]
		if cases[idx].send {
			w.doSendNow(cases[idx].c, cases[idx].v)
		} else {
			val, ok = w.doRecvNow(cases[idx].c)
		}
	} else if in.Blocking {
		st := &selState{}
		for i, c := range cases {
			if c.c == nil {
				continue
			}
			wt := &waiter{g: fr.g, idx: i, val: c.v, state: st}
			if c.send {
				c.c.sendq = append(c.c.sendq, wt)
			} else {
				c.c.recvq = append(c.c.recvq, wt)
			}
		}
		w.park(fr.g, "select", func() bool { return st.done })
		if st.pan {
			w.panicPlain("send on closed channel")
		}
		idx, val, ok = st.idx, st.val, st.ok
	}
	res := tuple{uint64(int64(idx)), ok}
	for i, c := range cases {
		if c.send {
			continue
		}
		if i == idx && val != nil {
			res = append(res, val)
		} else {
			res = append(res, zero(c.et))
		}
	}
	return res
}

func (d deadlock) String() string { return fmt.Sprintf("deadlock (%s)", d.what) }
