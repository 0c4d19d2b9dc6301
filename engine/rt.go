package main

import (
	"fmt"
	"strings"
)

// Runtime interface of the harness package (functions named v*).

func (in *Interp) inputName(label Value) string {
	s, ok := strConc(label)
	if !ok {
		in.unsupported("symbolic label")
	}
	in.incount[s]++
	if n := in.incount[s]; n > 1 {
		return fmt.Sprintf("%s#%d", s, n)
	}
	return s
}

func (in *Interp) newInput(label Value, kind string, w int) Value {
	name := in.inputName(label)
	t := in.tt.Var("in_"+name, w)
	if _, ok := in.model.Vars[t.name]; !ok {
		in.setModel(t.name, 0)
	}
	in.inputs = append(in.inputs, &inputRec{name: name, kind: kind, v: Value{r: t}, w: w})
	return Value{r: t}
}

func init() {
	scalar := func(w int) nativeFn {
		return func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
			return done(in.newInput(a[0], "int", w))
		}
	}
	rtNatives["vByte"] = scalar(8)
	rtNatives["vBool"] = scalar(0)
	rtNatives["vU16"] = scalar(16)
	rtNatives["vU32"] = scalar(32)
	rtNatives["vU64"] = scalar(64)
	rtNatives["vInt"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		lo, hi := int64(in.concretize(a[1], 64)), int64(in.concretize(a[2], 64))
		name := in.inputName(a[0])
		t := in.tt.Var("in_"+name, 64)
		if _, ok := in.model.Vars[t.name]; !ok {
			in.setModel(t.name, uint64(lo))
		}
		in.inputs = append(in.inputs, &inputRec{name: name, kind: "int", v: Value{r: t}, w: 64})
		in.assumeV(fromTerm(in.tt.And(in.tt.Sle(in.tt.Const(64, uint64(lo)), t), in.tt.Sle(t, in.tt.Const(64, uint64(hi))))))
		return done(Value{r: t})
	}
	rtNatives["vAnd"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(fromTerm(in.tt.And(in.boolT(a[0]), in.boolT(a[1]))))
	}
	rtNatives["vOr"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(fromTerm(in.tt.Or(in.boolT(a[0]), in.boolT(a[1]))))
	}
	pick := func(min bool) nativeFn {
		return func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
			x, y := in.t64(a[0]), in.t64(a[1])
			less := in.tt.Slt(x, y)
			if !min {
				less = in.tt.Not(less)
			}
			return done(fromTerm(in.tt.Ite(less, x, y)))
		}
	}
	rtNatives["vMin"], rtNatives["vMax"] = pick(true), pick(false)
	rtNatives["vChoose"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		n := in.concretize(a[1], 64)
		name := in.inputName(a[0])
		if n <= 1 {
			in.inputs = append(in.inputs, &inputRec{name: name, kind: "int", v: ciN(0), w: 64})
			return done(ciN(0))
		}
		t := in.tt.Var("in_"+name, 64)
		if _, ok := in.model.Vars[t.name]; !ok {
			in.setModel(t.name, 0)
		}
		in.inputs = append(in.inputs, &inputRec{name: name, kind: "int", v: Value{r: t}, w: 64})
		in.assumeV(fromTerm(in.tt.Ult(t, in.tt.Const(64, n))))
		return done(ciN(int(in.concretize(Value{r: t}, 64))))
	}
	bytesIn := func(in *Interp, a []Value) []Value {
		n := int(in.concretize(a[1], 64))
		name := in.inputName(a[0])
		b := make([]Value, n)
		for i := range b {
			t := in.tt.Var(fmt.Sprintf("in_%s.%d", name, i), 8)
			if _, ok := in.model.Vars[t.name]; !ok {
				in.setModel(t.name, 0)
			}
			b[i] = Value{r: t}
		}
		in.inputs = append(in.inputs, &inputRec{name: name, kind: "bytes", v: Value{r: b}})
		return b
	}
	rtNatives["vBytes"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(in.mkByteSlice(bytesIn(in, a)))
	}
	rtNatives["vString"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(mkStrB(bytesIn(in, a)))
	}
	rtNatives["vBlob"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		lo, hi := in.concretize(a[1], 64), in.concretize(a[2], 64)
		name := in.inputName(a[0])
		n := in.tt.Var("in_"+name+".len", 64)
		if _, ok := in.model.Vars[n.name]; !ok {
			in.setModel(n.name, lo)
		}
		arr := "arr_" + name
		in.assumeV(fromTerm(in.tt.And(in.tt.Ule(in.tt.Const(64, lo), n), in.tt.Ule(n, in.tt.Const(64, hi)))))
		ln := Value{r: n}
		in.inputs = append(in.inputs, &inputRec{name: name, kind: "blob", arr: arr, ln: ln, w: 64})
		o := in.newObj(0, "blob")
		o.bytes = true
		o.blob = &Blob{arr: &Arr{kind: 1, name: arr}, size: ln}
		return done(Value{r: &SliceV{obj: o, esz: 1, len: ln, cap: ln}})
	}
	rtNatives["vConcrete"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(mkInt(in.concretize(a[0], 64)))
	}
	rtNatives["vAssume"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		in.assumeV(a[0])
		return done(Value{})
	}
	rtNatives["vAssert"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		l, _ := strConc(a[1])
		in.assertV(a[0], l, "assertion "+l+" fails @ "+in.where())
		return done(Value{})
	}
	rtNatives["vFail"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		l, _ := strConc(a[0])
		in.assertV(Value{}, l, l+" @ "+in.where())
		return done(Value{})
	}
	// vAssertSame: equal length and equal content, for any length
	rtNatives["vAssertSame"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		l, _ := strConc(a[2])
		x, y := in.sl(a[0]), in.sl(a[1])
		msg := "assertion " + l + " fails @ " + in.where()
		if x.len.r == nil && y.len.r == nil {
			if x.len.n != y.len.n {
				in.assertV(Value{}, l, msg+fmt.Sprintf(" (lengths %d and %d)", x.len.n, y.len.n))
				return done(Value{})
			}
			r := in.tt.True
			for i := 0; i < int(x.len.n); i++ {
				r = in.tt.And(r, in.tt.Eq(in.term(in.sliceByte(x, i), 8), in.term(in.sliceByte(y, i), 8)))
			}
			in.assertV(fromTerm(r), l, msg)
			return done(Value{})
		}
		in.assertV(fromTerm(in.tt.Eq(in.t64(x.len), in.t64(y.len))), l, msg+" (length)")
		in.symCtr++
		i := in.tt.Var(fmt.Sprintf("idx%d", in.symCtr), 64)
		inb := in.tt.Ult(i, in.t64(x.len))
		get := func(s *SliceV) *Term {
			if s.obj == nil {
				return in.tt.Const(8, 0)
			}
			if s.obj.blob != nil {
				return in.term(in.arrSelect(s.obj.blob.arr, in.add(s.off, Value{r: i})), 8)
			}
			return in.term(in.arrSelect(&Arr{kind: 4, cells: s.obj.cells, coff: s.base}, in.add(s.off, Value{r: i})), 8)
		}
		in.assertV(fromTerm(in.tt.Or(in.tt.Not(inb), in.tt.Eq(get(x), get(y)))), l, msg+" (content)")
		return done(Value{})
	}
	rtNatives["vReach"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		l, _ := strConc(a[0])
		in.reached[l] = true
		return done(Value{})
	}
	obs := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		l, _ := strConc(a[0])
		v := a[1]
		if s, ok := v.r.(*SliceV); ok && s.obj != nil {
			// snapshot
			n := *s
			o := *s.obj
			o.cells = append([]Value(nil), s.obj.cells...)
			n.obj = &o
			v = Value{r: &n}
		}
		in.obs = append(in.obs, obsRec{l, ca.argT[1], v})
		return done(Value{})
	}
	for _, n := range []string{"vObsBytes", "vObsInt", "vObsStr", "vObsBool"} {
		rtNatives[n] = obs
	}
	rtNatives["vQuiesce"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		if g.qdone {
			g.qdone = false
			return done(Value{})
		}
		g.qdone = true
		g.quiesce = true
		return Value{}, actBlock
	}
	rtNatives["vAdvance"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		if !g.adv {
			g.adv = true
			g.advTo = in.tAdd(in.now, a[0])
			g.quiesce = true
			return Value{}, actBlock
		}
		if in.fireNext(&g.advTo) {
			g.quiesce = true
			return Value{}, actBlock
		}
		in.now = g.advTo
		g.adv = false
		return done(Value{})
	}
	rtNatives["vExplore"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		k := int(in.concretize(a[0], 64))
		in.delays = k
		in.explore = k > 0
		return done(Value{})
	}
	rtNatives["vRaceCheck"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		in.raceCheck = true
		return done(Value{})
	}
	rtNatives["vMapOrder"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		in.mapNondet = a[0].n != 0
		return done(Value{})
	}
	rtNatives["vYield"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		if in.explore && in.schedPoint(g) {
			return Value{}, actYield
		}
		return done(Value{})
	}
	rtNatives["vPause"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		// let every runnable goroutine take a turn
		if g.paused {
			g.paused = false
			return done(Value{})
		}
		g.paused = true
		return Value{}, actYield
	}
	rtNatives["vParam"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		if in.tier == "quick" {
			return done(a[1])
		}
		return done(a[2])
	}
	rtNatives["vMaxAlloc"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		l, _ := strConc(a[1])
		for _, c := range in.allocs {
			in.assertV(fromTerm(in.uleT(c, a[0])), l, "allocation larger than bound @ "+in.where())
		}
		in.allocs = nil
		return done(Value{})
	}
	rtNatives["vSymbolic"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) { return done(mkBool(true)) }
	rtNatives["vDeadlockLabel"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		l, _ := strConc(a[0])
		in.deadLabel = l
		return done(Value{})
	}
	rtNatives["vLog"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		s, ok := strConc(a[0])
		if !ok {
			s = "<sym>"
		}
		if len(in.logs) < 200 {
			in.logs = append(in.logs, s)
		}
		return done(Value{})
	}
	rtNatives["vLiveGoroutines"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		n := 0
		for _, x := range in.gs {
			if x != g && !x.done && x.repoG() {
				n++
				if len(in.logs) < 200 {
					in.logs = append(in.logs, "live goroutine: "+in.gwhere(x))
				}
			}
		}
		return done(ciN(n))
	}
	rtNatives["vSameErr"] = nil
	delete(rtNatives, "vSameErr")
	// errors.As support: assign target if assignable
	rtNatives["vAsAssign"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		if a[1].r == nil {
			in.goPanicStr("errors: target cannot be nil")
		}
		e := a[0].r.(*Iface)
		ti := a[1].r.(*Iface)
		et := deref(ti.t)
		o, n := in.cellOf(ti.v)
		if isInterface(et) {
			if in.p.implements(e.t, ifaceOf(et), in.p.canon(et)) {
				in.setCell(o, n, a[0])
				return done(mkBool(true))
			}
			return done(mkBool(false))
		}
		if e.t == in.p.canon(et) {
			in.store(ti.v, e.v, sizeOf(et), !isAgg(et))
			return done(mkBool(true))
		}
		return done(mkBool(false))
	}
	rtNatives["vComparable"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		if a[0].r == nil {
			return done(mkBool(true))
		}
		return done(mkBool(comparable1(a[0].r.(*Iface).t)))
	}
	rtNatives["vSliceLen"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		i := a[0].r.(*Iface)
		if i.v.r == nil {
			return done(Value{})
		}
		return done(i.v.r.(*SliceV).len)
	}
	rtNatives["vSliceSwap"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		s := a[0].r.(*Iface).v.r.(*SliceV)
		i, j := int(in.concretize(a[1], 64)), int(in.concretize(a[2], 64))
		in.touch(s.obj)
		for k := 0; k < s.esz; k++ {
			x, y := s.base+(int(s.off.n)+i)*s.esz+k, s.base+(int(s.off.n)+j)*s.esz+k
			s.obj.cells[x], s.obj.cells[y] = s.obj.cells[y], s.obj.cells[x]
		}
		return done(Value{})
	}
}

// repoG: does the goroutine run code of the module under test?
func (g *G) repoG() bool {
	if len(g.frames) == 0 {
		return false
	}
	for _, f := range g.frames {
		if f.fi.repo && !f.fi.harness {
			return true
		}
	}
	n := g.name
	return strings.Contains(n, modPath) && !strings.Contains(n, harnessPkg)
}
