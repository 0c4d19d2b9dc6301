package main

import (
	"fmt"
	"go/types"
	"sort"
)

type lockKey struct {
	o *Obj
	n uint64
}

type condTicket struct {
	g        *G
	notified bool
}

type vtimer struct {
	when   Value // nanoseconds, concrete or a 64-bit term
	period Value
	seq    int
	active bool
	ch     *Chan
	fn     Value // closure run in a goroutine of its own
	wake   *G
	vc     vclock // of the goroutine that set it
}

type selState struct{ fired bool }

type waiter struct {
	g   *G
	ch  *Chan
	val Value
	ok  bool
	sel *selState
	idx int
}

func (in *Interp) newG(name string) *G {
	g := &G{id: len(in.gs), name: name}
	in.gs = append(in.gs, g)
	return g
}

func (in *Interp) ready(g *G) {
	if g.done {
		return
	}
	g.blocked = false
	in.runq = append(in.runq, g)
}

func (in *Interp) spawn(fi *funcInfo, args, env []Value) {
	g := in.newG(fi.name)
	if p := in.cur; p != nil {
		g.vc.join(p.vc)
		in.tick(p)
	}
	in.tick(g)
	g.fresh = fi.repo && !fi.harness
	in.pushFrame(g, fi, args, env, -1, false)
	in.ready(g)
}

func (in *Interp) schedLog(f string, a ...any) {
	if len(in.sched) < 60 {
		in.sched = append(in.sched, fmt.Sprintf(f, a...))
	}
}

// schedPoint decides whether the running goroutine stalls before its next visible operation.
// A stalled goroutine resumes once no other goroutine can run.
func (in *Interp) schedPoint(g *G) bool {
	if g.skip {
		g.skip = false
		return false
	}
	if in.delays <= 0 || g.id < 0 {
		return false
	}
	if len(in.runq) == 0 && len(in.stalled) == 0 {
		return false
	}
	if in.choose(2, "stall") == 0 {
		return false
	}
	in.delays--
	in.schedLog("stall g%d before %s", g.id, in.gwhere1(g))
	g.skip = true
	g.stalled = true
	return true
}

func (in *Interp) gwhere1(g *G) string {
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		if f.fi.repo && !f.fi.harness {
			return shortName(f.fi.name) + "(" + in.pos1(f) + ")"
		}
	}
	return in.gwhere(g)
}

// schedule runs goroutines until main has ended.
func (in *Interp) schedule(main *G) {
	for !main.done {
		if len(in.runq) == 0 {
			if !in.quiescent(main) {
				lbl := in.deadLabel
				if lbl == "" {
					lbl = "deadlock"
				}
				msg := "no goroutine can run; main is blocked at " + in.gwhere(main) + in.blockedList(main)
				in.violate("deadlock", lbl, msg, in.model)
				panic(abort{abViolation, "deadlock: " + msg})
			}
			continue
		}
		g := in.runq[0]
		in.runq = in.runq[1:]
		if g.done {
			continue
		}
		in.cur = g
		if g.fresh {
			g.fresh = false
			if in.explore && in.schedPoint(g) {
				g.skip = false
				g.stalled = false
				in.stalled = append(in.stalled, g)
				continue
			}
		}
		switch in.runG(g) {
		case rYield:
			if g.stalled {
				g.stalled = false
				in.stalled = append(in.stalled, g)
			} else {
				in.runq = append(in.runq, g)
			}
		case rBlocked:
			g.blocked = true
		case rDone:
			g.done = true
		}
	}
}

func (in *Interp) blockedList(main *G) string {
	s := ""
	n := 0
	for _, g := range in.gs {
		if g != main && !g.done && n < 8 {
			s += " | g" + fmt.Sprint(g.id) + ": " + in.gwhere(g)
			n++
		}
	}
	return s
}

// quiescent is called when nothing can run; it returns false at a dead end.
func (in *Interp) quiescent(main *G) bool {
	if n := len(in.stalled); n > 0 {
		k := 0
		if n > 1 {
			k = in.choose(n, "release")
		}
		g := in.stalled[k]
		in.stalled = append(append([]*G(nil), in.stalled[:k]...), in.stalled[k+1:]...)
		in.runq = append(in.runq, g)
		return true
	}
	if main.quiesce {
		main.quiesce = false
		main.blocked = false
		in.runq = append(in.runq, main)
		return true
	}
	return in.fireNext(nil)
}

// fireNext advances virtual time to the earliest timer not after limit and fires it.
// Which timer is the earliest is decided by the solver when their times are symbolic.
func (in *Interp) fireNext(limit *Value) bool {
	var best *vtimer
	for _, t := range in.timers { // in order of their creation
		if t.active && (best == nil || in.tBefore(t.when, best.when)) {
			best = t
		}
	}
	if best == nil || limit != nil && in.tBefore(*limit, best.when) {
		return false
	}
	if best.when.r != nil || in.now.r != nil || int64(best.when.n) > int64(in.now.n) {
		in.now = best.when
	}
	in.fire(best)
	return true
}

// tAdd adds instants or durations.
func (in *Interp) tAdd(a, b Value) Value {
	if a.r == nil && b.r == nil {
		s := a.n + b.n
		if int64(b.n) > 0 && int64(a.n) > 0 && int64(s) < 0 {
			s = 1<<63 - 1
		}
		return Value{n: s}
	}
	// stated bound: symbolic times stay far below 2^63
	return fromTerm(in.tt.Bin(OAdd, in.t64(a), in.t64(b)))
}

func (in *Interp) tSub(a, b Value) Value {
	if a.r == nil && b.r == nil {
		return Value{n: a.n - b.n}
	}
	return fromTerm(in.tt.Bin(OSub, in.t64(a), in.t64(b)))
}

func (in *Interp) tBefore(a, b Value) bool {
	if a.r == nil && b.r == nil {
		return int64(a.n) < int64(b.n)
	}
	return in.decide(fromTerm(in.tt.Slt(in.t64(a), in.t64(b))))
}

// inFuture gives the instant d from now, or now if d is negative.
func (in *Interp) inFuture(d Value) Value {
	if in.tBefore(d, Value{}) {
		return in.now
	}
	return in.tAdd(in.now, d)
}

func (in *Interp) fire(t *vtimer) {
	sc := in.cur
	in.cur = &G{id: -1, vc: t.vc, name: "timer"}
	defer func() { in.cur = sc }()
	if t.period.r != nil || t.period.n != 0 {
		t.when = in.tAdd(t.when, t.period)
	} else {
		t.active = false
		in.dropTimer(t)
	}
	switch {
	case t.wake != nil:
		g := t.wake
		t.wake = nil
		in.ready(g)
	case t.ch != nil:
		in.chanTrySend(t.ch, in.timeNow())
	case t.fn.r != nil:
		cl := t.fn.r.(*Closure)
		in.spawn(cl.fn, nil, cl.env)
	}
}

func (in *Interp) dropTimer(t *vtimer) {
	out := in.timers[:0:0]
	for _, x := range in.timers {
		if x != t {
			out = append(out, x)
		}
	}
	in.timers = out
}

func (in *Interp) addTimer(t *vtimer) {
	in.tseq++
	t.seq = in.tseq
	t.active = true
	t.vc.join(in.cur.vc)
	in.tick(in.cur)
	in.timers = append(in.timers, t)
	sort.SliceStable(in.timers, func(i, j int) bool { return in.timers[i].seq < in.timers[j].seq })
}

// ---- channels

func (in *Interp) touchChan(c *Chan) {
	if c.epoch == in.epoch || in.epoch == 0 {
		return
	}
	old := *c
	old.buf = append([]Value(nil), c.buf...)
	old.bufvc, old.rvc, old.nsend, old.nrecv, old.clvc = nil, nil, 0, 0, nil
	c.bufvc, c.rvc, c.nsend, c.nrecv, c.clvc = nil, nil, 0, 0, nil
	c.epoch = in.epoch
	in.undo = append(in.undo, func() { *c = old; c.epoch = 0; c.recvq, c.sendq = nil, nil })
}

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func hasLive(q []*waiter) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

func (in *Interp) complete(w *waiter) {
	if w.sel != nil {
		w.sel.fired = true
	}
	w.g.resumed = w
	in.ready(w.g)
}

// canRecv/canSend: would the operation proceed now?
func canRecv(c *Chan) bool { return len(c.buf) > 0 || c.closed || hasLive(c.sendq) }
func canSend(c *Chan) bool { return c.closed || len(c.buf) < c.cap || hasLive(c.recvq) }

func (in *Interp) doRecv(c *Chan) (Value, bool) {
	in.touchChan(c)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if len(c.bufvc) > 0 {
			in.cur.vc.join(c.bufvc[0])
			c.bufvc = append([]vclock(nil), c.bufvc[1:]...)
		}
		in.noteRecv(c, in.cur)
		if w := deq(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			in.noteSend(c, w.g)
			w.ok = true
			in.complete(w)
		}
		return v, true
	}
	if w := deq(&c.sendq); w != nil {
		w.ok = true
		in.meet(in.cur, w.g)
		in.complete(w)
		return w.val, true
	}
	in.cur.vc.join(c.clvc)
	return in.zero(c.et), false // closed
}

func (in *Interp) doSend(c *Chan, v Value) {
	in.touchChan(c)
	if c.closed {
		in.goPanicStr("send on closed channel")
	}
	if w := deq(&c.recvq); w != nil {
		w.val, w.ok = v, true
		if c.cap == 0 {
			in.meet(in.cur, w.g)
		} else {
			in.noteSend(c, in.cur)
			w.g.vc.join(c.bufvc[len(c.bufvc)-1])
			c.bufvc = c.bufvc[:len(c.bufvc)-1]
			in.noteRecv(c, w.g)
		}
		in.complete(w)
		return
	}
	in.noteSend(c, in.cur)
	c.buf = append(c.buf, v)
}

func (in *Interp) chanTrySend(c *Chan, v Value) {
	if canSend(c) && !c.closed {
		in.doSend(c, v)
	}
}

func (in *Interp) closeChan(v Value) {
	if v.r == nil {
		in.goPanicStr("close of nil channel")
	}
	c := v.r.(*Chan)
	if c.closed {
		in.goPanicStr("close of closed channel")
	}
	in.touchChan(c)
	c.closed = true
	c.clvc = append(vclock(nil), in.cur.vc...)
	in.tick(in.cur)
	for {
		w := deq(&c.recvq)
		if w == nil {
			break
		}
		w.g.vc.join(c.clvc)
		w.val, w.ok = in.zero(c.et), false
		in.complete(w)
	}
	for {
		w := deq(&c.sendq)
		if w == nil {
			break
		}
		w.ok = false // the sender panics when it resumes
		in.complete(w)
	}
}

// noteSend and noteRecv order buffered channel operations: a send before its receive, and the k-th receive before the
// (k+cap)-th send.
func (in *Interp) noteSend(c *Chan, g *G) {
	if c.cap > 0 && c.nsend >= c.cap && len(c.rvc) == c.cap {
		g.vc.join(c.rvc[c.nsend%c.cap])
	}
	c.nsend++
	c.bufvc = append(c.bufvc[:len(c.bufvc):len(c.bufvc)], append(vclock(nil), g.vc...))
	in.tick(g)
}

func (in *Interp) noteRecv(c *Chan, g *G) {
	if c.cap > 0 && c.cap <= 64 {
		if len(c.rvc) != c.cap {
			c.rvc = make([]vclock, c.cap)
		}
		c.rvc[c.nrecv%c.cap] = append(vclock(nil), g.vc...)
	}
	c.nrecv++
	in.tick(g)
}

// meet synchronises both parties of an unbuffered channel operation.
func (in *Interp) meet(a, b *G) {
	va := append(vclock(nil), a.vc...)
	a.vc.join(b.vc)
	b.vc.join(va)
	in.tick(a)
	in.tick(b)
}

func recvResult(ci *cinstr, v Value, ok bool) Value {
	if ci.commaOk {
		return Value{r: Tuple{v, mkBool(ok)}}
	}
	return v
}

func (in *Interp) execRecv(g *G, f *frame, ci *cinstr) bool {
	if w := g.resumed; w != nil {
		g.resumed = nil
		f.regs[ci.dst] = recvResult(ci, w.val, w.ok)
		return true
	}
	v := f.get(ci.a)
	if v.r == nil {
		g.why = "receive from nil channel"
		return false
	}
	c := v.r.(*Chan)
	if canRecv(c) {
		x, ok := in.doRecv(c)
		f.regs[ci.dst] = recvResult(ci, x, ok)
		return true
	}
	in.touchChan(c)
	c.recvq = append(c.recvq, &waiter{g: g, ch: c})
	return false
}

func (in *Interp) execSend(g *G, f *frame, ci *cinstr) bool {
	if w := g.resumed; w != nil {
		g.resumed = nil
		if !w.ok {
			in.goPanicStr("send on closed channel")
		}
		return true
	}
	v := f.get(ci.a)
	if v.r == nil {
		return false
	}
	c := v.r.(*Chan)
	if canSend(c) {
		in.doSend(c, f.get(ci.b))
		return true
	}
	in.touchChan(c)
	c.sendq = append(c.sendq, &waiter{g: g, ch: c, val: f.get(ci.b)})
	return false
}

func (in *Interp) selResult(sel *selInfo, idx int, v Value, ok bool) Value {
	t := make(Tuple, 2+sel.nrecv)
	t[0] = Value{n: uint64(int64(idx))}
	t[1] = mkBool(ok)
	for i, c := range sel.cases {
		if c.send {
			continue
		}
		if i == idx {
			t[2+c.out] = v
		} else {
			t[2+c.out] = in.zero(c.et)
		}
	}
	return Value{r: t}
}

func (in *Interp) execSelect(g *G, f *frame, ci *cinstr) bool {
	sel := ci.x.(*selInfo)
	if w := g.resumed; w != nil {
		g.resumed = nil
		if sel.cases[w.idx].send {
			if !w.ok {
				in.goPanicStr("send on closed channel")
			}
			f.regs[ci.dst] = in.selResult(sel, w.idx, Value{}, false)
		} else {
			f.regs[ci.dst] = in.selResult(sel, w.idx, w.val, w.ok)
		}
		return true
	}
	var rdy []int
	for i, c := range sel.cases {
		v := f.get(c.ch)
		if v.r == nil {
			continue
		}
		ch := v.r.(*Chan)
		if (c.send && canSend(ch)) || (!c.send && canRecv(ch)) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := 0
		if len(rdy) > 1 && in.explore && in.delays > 0 && f.fi.repo && !f.fi.harness {
			k = in.choose(len(rdy), "select")
			if k > 0 {
				in.delays--
				in.schedLog("g%d select takes case %d at %s", g.id, rdy[k], in.gwhere1(g))
			}
		}
		i := rdy[k]
		c := sel.cases[i]
		ch := f.get(c.ch).r.(*Chan)
		if c.send {
			in.doSend(ch, f.get(c.val))
			f.regs[ci.dst] = in.selResult(sel, i, Value{}, false)
		} else {
			v, ok := in.doRecv(ch)
			f.regs[ci.dst] = in.selResult(sel, i, v, ok)
		}
		return true
	}
	if !sel.blocking {
		f.regs[ci.dst] = in.selResult(sel, -1, Value{}, false)
		return true
	}
	st := &selState{}
	for i, c := range sel.cases {
		v := f.get(c.ch)
		if v.r == nil {
			continue
		}
		ch := v.r.(*Chan)
		in.touchChan(ch)
		w := &waiter{g: g, ch: ch, sel: st, idx: i}
		if c.send {
			w.val = f.get(c.val)
			ch.sendq = append(ch.sendq, w)
		} else {
			ch.recvq = append(ch.recvq, w)
		}
	}
	return false
}

// ---- map order

func (in *Interp) mapOrder(f *frame, m *MapObj) []*MapEntry {
	ents := append([]*MapEntry(nil), m.ents...)
	if in.mapNondet && len(ents) > 1 && len(ents) <= 3 && f.fi.repo && !f.fi.harness {
		// all orders
		var out []*MapEntry
		for len(ents) > 0 {
			k := in.choose(len(ents), "maporder")
			out = append(out, ents[k])
			ents = append(ents[:k:k], ents[k+1:]...)
		}
		return out
	}
	return ents
}

// ---- builtins

func (in *Interp) builtin(g *G, f *frame, ci *cinstr) bool {
	ca := ci.x.(*callInfo)
	arg := func(i int) Value { return f.get(ci.args[i]) }
	set := func(v Value) {
		if ci.dst >= 0 {
			f.regs[ci.dst] = v
		}
	}
	switch ca.builtin {
	case "len":
		v := arg(0)
		switch u := ca.argT[0].Underlying().(type) {
		case *types.Basic:
			set(ciN(in.strLen(v)))
		case *types.Slice:
			if v.r == nil {
				set(Value{})
			} else {
				set(v.r.(*SliceV).len)
			}
		case *types.Map:
			if v.r == nil {
				set(Value{})
			} else {
				set(ciN(v.r.(*MapObj).live))
			}
		case *types.Chan:
			if v.r == nil {
				set(Value{})
			} else {
				set(ciN(len(v.r.(*Chan).buf)))
			}
		case *types.Array:
			set(ciN(int(u.Len())))
		case *types.Pointer:
			set(ciN(int(u.Elem().Underlying().(*types.Array).Len())))
		}
	case "cap":
		v := arg(0)
		switch u := ca.argT[0].Underlying().(type) {
		case *types.Slice:
			if v.r == nil {
				set(Value{})
			} else {
				set(v.r.(*SliceV).cap)
			}
		case *types.Chan:
			if v.r == nil {
				set(Value{})
			} else {
				set(ciN(v.r.(*Chan).cap))
			}
		case *types.Array:
			set(ciN(int(u.Len())))
		case *types.Pointer:
			set(ciN(int(u.Elem().Underlying().(*types.Array).Len())))
		}
	case "append":
		st := ca.argT[0].Underlying().(*types.Slice)
		var src *SliceV
		if basicOf(ca.argT[1]).kind == 3 {
			src = in.strAsSlice(arg(1))
		} else {
			src = in.sl(arg(1))
			if arg(1).r == nil {
				src = &SliceV{esz: sizeOf(st.Elem())}
			}
		}
		set(in.appendSlice(arg(0), src, sizeOf(st.Elem()), st.Elem()))
	case "copy":
		d := in.sl(arg(0))
		var src *SliceV
		if basicOf(ca.argT[1]).kind == 3 {
			src = in.strAsSlice(arg(1))
		} else {
			src = in.sl(arg(1))
		}
		n := in.minV(d.len, src.len)
		in.copyN(d, src, n)
		set(n)
	case "delete":
		if m := arg(0); m.r != nil {
			in.mapDelete(m.r.(*MapObj), arg(1))
		}
	case "close":
		if in.explore && f.fi.repo && !f.fi.harness && in.schedPoint(g) {
			return false
		}
		in.closeChan(arg(0))
	case "clear":
		v := arg(0)
		switch ca.argT[0].Underlying().(type) {
		case *types.Map:
			if v.r != nil {
				m := v.r.(*MapObj)
				in.touchMap(m)
				for _, e := range append([]*MapEntry(nil), m.ents...) {
					in.mapKill(m, e)
				}
			}
		case *types.Slice:
			if v.r != nil {
				s := v.r.(*SliceV)
				n := int(in.concretize(s.len, 64))
				et := ca.argT[0].Underlying().(*types.Slice).Elem()
				for i := 0; i < n; i++ {
					in.store(in.elemPtr(s, ciN(i), 8, false), in.zero(et), s.esz, !isAgg(et))
				}
			}
		}
	case "min", "max":
		v := arg(0)
		bi := basicOf(ca.argT[0])
		for i := 1; i < len(ci.args); i++ {
			x := arg(i)
			var lt Value
			switch bi.kind {
			case 3:
				lt = in.ltStr(x, v)
			case 1:
				if bi.signed {
					lt = fromTerm(in.tt.Slt(in.term(x, bi.w), in.term(v, bi.w)))
				} else {
					lt = fromTerm(in.tt.Ult(in.term(x, bi.w), in.term(v, bi.w)))
				}
			default:
				in.unsupported("min/max")
			}
			if in.decide(lt) == (ca.builtin == "min") {
				v = x
			}
		}
		set(v)
	case "recover":
		set(in.doRecover(g))
	case "print", "println":
	case "ssa:wrapnilchk":
		if arg(0).r == nil {
			in.nilDeref()
		}
		set(arg(0))
	case "String": // unsafe.String
		set(in.unsafeString(arg(0), arg(1)))
	case "StringData":
		v := arg(0)
		if v.r == nil {
			set(Value{})
		} else {
			s := in.strAsSlice(v)
			set(Value{r: s.obj})
		}
	case "SliceData":
		v := arg(0)
		if v.r == nil {
			set(Value{})
		} else {
			s := v.r.(*SliceV)
			if s.obj == nil {
				set(Value{})
			} else {
				set(in.elemPtr(s, Value{}, 8, false))
			}
		}
	case "Slice":
		p := arg(0)
		n := int(in.concretize(arg(1), 64))
		if p.r == nil {
			set(Value{})
		} else {
			o := p.r.(*Obj)
			et := ca.argT[0].Underlying().(*types.Pointer).Elem()
			set(Value{r: &SliceV{obj: o, base: int(p.n), esz: sizeOf(et), len: ciN(n), cap: ciN(n)}})
		}
	case "Add":
		p := arg(0)
		if p.r == nil {
			in.unsupported("unsafe.Add on nil")
		}
		set(Value{n: p.n + in.concretize(arg(1), 64), r: p.r})
	default:
		in.unsupported("builtin %s", ca.builtin)
	}
	return true
}

func ciN(n int) Value { return Value{n: uint64(n)} }

func (in *Interp) unsafeString(p, n Value) Value {
	k := int(in.concretize(n, 64))
	if k == 0 || p.r == nil {
		return Value{}
	}
	b := make([]Value, k)
	for i := range b {
		b[i] = in.load(Value{n: p.n + uint64(i), r: p.r}, 1, true)
	}
	return mkStrB(b)
}

// doRecover implements recover() called directly by a deferred function.
func (in *Interp) doRecover(g *G) Value {
	// top frame is the deferred function, the frame below is being unwound
	n := len(g.frames)
	if n < 2 || len(g.panics) == 0 {
		return Value{}
	}
	top := g.frames[n-1]
	below := g.frames[n-2]
	if !top.isDefer || !below.unwind {
		return Value{}
	}
	p := g.panics[len(g.panics)-1]
	if p.recovered || p.goexit {
		return Value{}
	}
	p.recovered = true
	return p.val
}
