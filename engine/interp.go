package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const noOp = -1 << 30

type frame struct {
	fi      *funcInfo
	regs    []Value
	blk     *cblock
	pc      int
	defers  []deferRec
	dst     int32 // register in the caller
	isDefer bool  // runs a deferred call of the frame below
	unwind  bool  // this frame is being unwound by a panic
	running bool  // RunDefers in progress
}

type deferRec struct {
	fi   *funcInfo
	args []Value
	env  []Value
}

type goPanic struct {
	val       Value // interface value
	recovered bool
	goexit    bool
	where     string
}

type G struct {
	id                 int
	frames             []*frame
	blocked            bool
	done               bool
	why                string
	panics             []*goPanic
	wait               *waiter
	resumed            *waiter // completed blocking channel operation
	skip               bool
	slice              int
	quiesce            bool
	sleeping           bool
	parked             bool
	qdone, adv, paused bool
	advTo              Value
	ticket             *condTicket
	fresh              bool
	stalled            bool
	wakeAt             int64
	name               string
	token              any // state of a blocking native across retries
	vc                 vclock
}

func (f *frame) get(o int32) Value {
	if o >= 0 {
		return f.regs[o]
	}
	if o == noOp {
		return Value{}
	}
	return f.fi.consts[^o]
}

// ---- host-level signals

type abortKind int

const (
	abDone abortKind = iota
	abAssume
	abViolation
	abUnsupported
	abLimit
	abInconclusive
)

type abort struct {
	kind abortKind
	msg  string
}

type goPanicSig struct{ val Value }

func (in *Interp) unsupported(f string, a ...any) {
	panic(abort{abUnsupported, fmt.Sprintf(f, a...) + " at " + in.where()})
}

func (in *Interp) where() string {
	if in.cur == nil || len(in.cur.frames) == 0 {
		return "?"
	}
	return in.gwhere(in.cur)
}

func (in *Interp) pos1(f *frame) string {
	if f.blk == nil || len(f.blk.ins) == 0 {
		return f.fi.name
	}
	pc := f.pc
	if pc >= len(f.blk.ins) {
		pc = len(f.blk.ins) - 1
	}
	for ; pc >= 0; pc-- {
		if s := f.blk.ins[pc].src; s != nil && s.Pos().IsValid() {
			p := in.p.prog.Fset.Position(s.Pos())
			return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, in.p.repo+"/"), p.Line)
		}
	}
	return f.fi.name
}

func (in *Interp) gwhere(g *G) string {
	var sb strings.Builder
	n := 0
	for i := len(g.frames) - 1; i >= 0 && n < 12; i-- {
		f := g.frames[i]
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(shortName(f.fi.name) + "(" + in.pos1(f) + ")")
		n++
	}
	return sb.String()
}

func shortName(s string) string { return strings.ReplaceAll(s, modPath, "zmq4") }

// goPanicStr raises a Go run-time panic with the given text.
func (in *Interp) goPanicStr(s string) {
	panic(goPanicSig{Value{r: &Iface{t: in.rtErrT(), v: mkStrC(s)}}})
}

func (in *Interp) rtErrT() types.Type {
	if in.rterr == nil {
		m := in.p.harness.Pkg.Scope().Lookup("rtError")
		in.rterr = in.p.canon(m.Type())
	}
	return in.rterr
}

// ---- frames

func (in *Interp) pushFrame(g *G, fi *funcInfo, args, env []Value, dst int32, isDefer bool) {
	if !fi.comp {
		in.compiling++
		in.compile(fi)
		in.compiling--
		for in.compiling == 0 && len(in.pendInit) > 0 {
			p := in.pendInit[0]
			in.pendInit = in.pendInit[1:]
			in.initPkg(p)
		}
	}
	fi.used = true
	if len(g.frames) > 2000 {
		panic(abort{abLimit, "stack depth"})
	}
	f := in.newFrame(fi.nregs)
	f.fi = fi
	copy(f.regs, args)
	copy(f.regs[len(args):], env)
	f.dst = dst
	f.isDefer = isDefer
	f.blk = fi.blocks[0]
	g.frames = append(g.frames, f)
}

func (in *Interp) newFrame(n int) *frame {
	f := &frame{}
	if cap(in.slab)-len(in.slab) < n {
		sz := 16384
		if n > sz {
			sz = n
		}
		in.slab = make([]Value, 0, sz)
	}
	l := len(in.slab)
	in.slab = in.slab[:l+n]
	f.regs = in.slab[l : l+n : l+n]
	return f
}

// wrapperFor builds a function that performs a native or builtin call from a frame of its own.
func (in *Interp) wrapperFor(op iop, ca *callInfo, fi *funcInfo, nargs int, name string) *funcInfo {
	w := &funcInfo{name: name, comp: true, nregs: nargs + 1, np: nargs, repo: true, harness: true}
	ci := cinstr{op: op, dst: int32(nargs), x: ca}
	for i := 0; i < nargs; i++ {
		ci.args = append(ci.args, int32(i))
	}
	if fi != nil {
		ca2 := &callInfo{fi: fi, argT: ca.argT, resT: ca.resT, common: ca.common}
		ci.x = ca2
	}
	b := &cblock{ins: []cinstr{ci, {op: iReturn, dst: -1}}}
	w.blocks = []*cblock{b}
	return w
}

// target resolves the callee of a call-like instruction. ok=false: a panic was raised.
func (in *Interp) target(f *frame, ci *cinstr, op iop) (fi *funcInfo, args, env []Value) {
	ca := ci.x.(*callInfo)
	switch op {
	case iCallFn:
		fi = ca.fi
		args = make([]Value, len(ci.args))
		for i, a := range ci.args {
			args[i] = f.get(a)
		}
	case iCallClo:
		v := f.get(ci.a)
		if v.r == nil {
			in.nilDeref()
		}
		cl := v.r.(*Closure)
		fi = cl.fn
		env = cl.env
		args = make([]Value, len(ci.args))
		for i, a := range ci.args {
			args[i] = f.get(a)
		}
	case iCallInvoke:
		v := f.get(ci.a)
		if v.r == nil {
			in.nilDeref()
		}
		ifc := v.r.(*Iface)
		fi = ca.cache[ifc.t]
		if fi == nil {
			fn := in.p.prog.LookupMethod(ifc.t, ca.method.Pkg(), ca.method.Name())
			if fn == nil {
				in.unsupported("no method %s on %s", ca.method.Name(), ifc.t)
			}
			fi = in.fnInfo(fn)
			ca.cache[ifc.t] = fi
		}
		args = make([]Value, len(ci.args)+1)
		args[0] = ifc.v
		for i, a := range ci.args {
			args[i+1] = f.get(a)
		}
	}
	if fi.subst != nil {
		fi = in.fnInfo(fi.subst)
	}
	return
}

func (in *Interp) nilDeref() {
	in.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
}

const (
	actDone = iota
	actBlock
	actPushed
	actYield
)

type nativeFn func(in *Interp, g *G, args []Value, ca *callInfo) (Value, int)

// ---- memory

func (in *Interp) newObj(n int, what string) *Obj {
	in.nobj++
	return &Obj{cells: make([]Value, n), epoch: in.epoch, id: in.nobj, what: what}
}

func (in *Interp) touch(o *Obj) {
	if o.epoch == in.epoch || in.epoch == 0 {
		return
	}
	oldc := make([]Value, len(o.cells))
	copy(oldc, o.cells)
	ob := o.blob
	o.epoch = in.epoch
	in.undo = append(in.undo, func() { o.cells = oldc; o.blob = ob; o.epoch = 0 })
}

func (in *Interp) load(p Value, size int, cell bool) Value {
	switch o := p.r.(type) {
	case *Obj:
		if o.blob != nil {
			return in.arrSelect(o.blob.arr, Value{n: p.n})
		}
		if o.noinit {
			in.unsupported("global %s is not modelled", o.what)
		}
		if cell {
			return o.cells[p.n]
		}
		a := make(Agg, size)
		copy(a, o.cells[p.n:int(p.n)+size])
		return Value{r: a}
	case *SymPtr:
		if o.obj.blob != nil {
			return in.arrSelect(o.obj.blob.arr, Value{r: o.idx})
		}
		var t *Term
		w := o.w
		for i := o.hi - 1; i >= o.lo; i-- {
			e := in.term(o.obj.cells[o.base+i], w)
			if t == nil {
				t = e
			} else {
				t = in.tt.Ite(in.tt.Eq(o.idx, in.tt.Const(64, uint64(i))), e, t)
			}
		}
		return fromTerm(t)
	case nil:
		in.nilDeref()
	}
	in.unsupported("load through %T", p.r)
	return Value{}
}

func (in *Interp) store(p, v Value, size int, cell bool) {
	switch o := p.r.(type) {
	case *Obj:
		in.touch(o)
		if o.blob != nil {
			o.blob = &Blob{arr: &Arr{kind: 2, base: o.blob.arr, idx: Value{n: p.n}, val: v}, size: o.blob.size}
			return
		}
		if cell {
			o.cells[p.n] = v
			return
		}
		copy(o.cells[p.n:int(p.n)+size], v.r.(Agg))
		return
	case *SymPtr:
		in.touch(o.obj)
		if o.obj.blob != nil {
			o.obj.blob = &Blob{arr: &Arr{kind: 2, base: o.obj.blob.arr, idx: Value{r: o.idx}, val: v}, size: o.obj.blob.size}
			return
		}
		for i := o.lo; i < o.hi; i++ {
			c := in.tt.Eq(o.idx, in.tt.Const(64, uint64(i)))
			o.obj.cells[o.base+i] = fromTerm(in.tt.Ite(c, in.term(v, o.w), in.term(o.obj.cells[o.base+i], o.w)))
		}
		return
	case nil:
		in.nilDeref()
	}
	in.unsupported("store through %T", p.r)
}

func (in *Interp) blobify(o *Obj) {
	if o.blob != nil {
		return
	}
	if !o.bytes {
		in.unsupported("symbolic-size access to a non-byte object")
	}
	in.touch(o)
	n := len(o.cells)
	a := &Arr{kind: 4, cells: append([]Value(nil), o.cells...)}
	o.blob = &Blob{arr: a, size: ci(n)}
	o.cells = nil
}

func (in *Interp) sl(v Value) *SliceV {
	if v.r == nil {
		return &SliceV{esz: 1}
	}
	return v.r.(*SliceV)
}

// elemPtr gives a pointer to element i of s; i is known to be in bounds.
func (in *Interp) elemPtr(s *SliceV, i Value, w int, scalar bool) Value {
	p := in.add(s.off, i)
	if p.r == nil {
		if s.obj.blob != nil {
			return Value{n: p.n, r: s.obj}
		}
		return Value{n: uint64(s.base + int(p.n)*s.esz), r: s.obj}
	}
	if s.obj.blob != nil {
		return Value{r: &SymPtr{obj: s.obj, idx: p.r.(*Term), w: 8}}
	}
	lo, hi := 0, (len(s.obj.cells)-s.base)/s.esz
	if s.off.r == nil {
		lo = int(s.off.n)
		if s.len.r == nil {
			hi = lo + int(s.len.n)
		}
	}
	if scalar && s.esz == 1 && hi-lo <= 300 {
		return Value{r: &SymPtr{obj: s.obj, base: s.base, lo: lo, hi: hi, idx: p.r.(*Term), w: w}}
	}
	n := in.concretize(p, 64)
	return Value{n: uint64(s.base + int(n)*s.esz), r: s.obj}
}

// sliceByte reads byte i of a byte slice.
func (in *Interp) sliceByte(s *SliceV, i int) Value {
	return in.load(in.elemPtr(s, ci(i), 8, true), 1, true)
}

// sliceBytes returns the content of a byte slice, concretising its length.
func (in *Interp) sliceBytes(v Value) []Value {
	if v.r == nil {
		return nil
	}
	s := v.r.(*SliceV)
	n := int(in.concretize(s.len, 64))
	out := make([]Value, n)
	for i := range out {
		out[i] = in.sliceByte(s, i)
	}
	return out
}

func (in *Interp) mkByteSlice(b []Value) Value {
	o := in.newObj(0, "bytes")
	o.cells = append([]Value(nil), b...)
	o.bytes = true
	return Value{r: &SliceV{obj: o, esz: 1, len: ci(len(b)), cap: ci(len(b))}}
}

func (in *Interp) arrOf(s *SliceV) (*Arr, Value) { // array and offset such that element i is arr[off+i]
	if s.obj.blob != nil {
		return s.obj.blob.arr, s.off
	}
	return &Arr{kind: 4, cells: append([]Value(nil), s.obj.cells...), coff: s.base}, s.off
}

// copyN copies n elements (n <= both lengths).
func (in *Interp) copyN(d, s *SliceV, n Value) {
	if n.r == nil && n.n == 0 {
		return
	}
	if d.obj == nil || s.obj == nil {
		return
	}
	conc := n.r == nil && d.off.r == nil && s.off.r == nil
	if conc && d.obj.blob == nil && s.obj.blob == nil {
		in.touch(d.obj)
		db := d.base + int(d.off.n)*d.esz
		sb := s.base + int(s.off.n)*s.esz
		k := int(n.n) * d.esz
		copy(d.obj.cells[db:db+k], s.obj.cells[sb:sb+k])
		return
	}
	if conc && d.obj.blob == nil && n.n <= 4096 {
		in.touch(d.obj)
		db := d.base + int(d.off.n)
		arr, so := in.arrOf(s)
		for i := 0; i < int(n.n); i++ {
			d.obj.cells[db+i] = in.arrSelect(arr, in.add(so, ci(i)))
		}
		return
	}
	if d.obj.blob == nil && !d.obj.bytes {
		// byte field inside a larger object: concretise
		k := int(in.concretize(n, 64))
		so := Value{n: in.concretize(s.off, 64)}
		do := Value{n: in.concretize(d.off, 64)}
		s2, d2 := *s, *d
		s2.off, d2.off = so, do
		in.copyN(&d2, &s2, ci(k))
		return
	}
	arr, so := in.arrOf(s)
	in.blobify(d.obj)
	in.touch(d.obj)
	d.obj.blob = &Blob{arr: &Arr{kind: 3, base: d.obj.blob.arr, idx: d.off, n: n, src: arr, soff: so}, size: d.obj.blob.size}
}

// strAsSlice views a string as a slice.
func (in *Interp) strAsSlice(v Value) *SliceV {
	in.inspect(v)
	b := in.strBytes(v)
	o := &Obj{cells: b, epoch: in.epoch, bytes: true}
	return &SliceV{obj: o, esz: 1, len: ci(len(b)), cap: ci(len(b))}
}

func (in *Interp) minV(a, b Value) Value {
	if a.r == nil && b.r == nil {
		if int64(a.n) < int64(b.n) {
			return a
		}
		return b
	}
	if in.decide(fromTerm(in.tt.Sle(in.t64(a), in.t64(b)))) {
		return a
	}
	return b
}

// ---- append

func (in *Interp) appendSlice(dst Value, src *SliceV, esz int, et types.Type) Value {
	d := in.sl(dst)
	if dst.r == nil {
		d = &SliceV{esz: esz}
	}
	if src.len.r == nil && src.len.n == 0 {
		return dst
	}
	need := in.add(d.len, src.len)
	fits := false
	if need.r == nil && d.cap.r == nil {
		fits = int64(need.n) <= int64(d.cap.n)
	} else {
		fits = in.decide(fromTerm(in.tt.Sle(in.t64(need), in.t64(d.cap))))
	}
	if fits && d.obj != nil {
		nd := *d
		tail := *d
		tail.off = in.add(d.off, d.len)
		in.copyN(&tail, src, src.len)
		nd.len = need
		return Value{r: &nd}
	}
	// grow
	var n *SliceV
	if need.r == nil && need.n <= 1<<20 {
		nc := int(need.n)
		if d.cap.r == nil {
			oc := int(d.cap.n)
			dbl := oc * 2
			if nc <= dbl {
				if oc < 256 {
					nc = dbl
				} else {
					c := oc
					for c < nc {
						c += (c + 768) / 4
					}
					nc = c
				}
			}
			if esz == 1 && nc < 8 {
				nc = 8
			}
		}
		o := in.newObj(nc*esz, "append")
		o.bytes = isByte(et)
		n = &SliceV{obj: o, esz: esz, len: need, cap: ci(nc)}
	} else {
		if !isByte(et) {
			in.unsupported("append of symbolic length to non-byte slice")
		}
		o := in.newObj(0, "append")
		o.bytes = true
		o.blob = &Blob{arr: &Arr{kind: 0}, size: need}
		n = &SliceV{obj: o, esz: 1, len: need, cap: need}
	}
	if d.obj != nil {
		in.copyN(n, d, d.len)
	}
	tail := *n
	tail.off = d.len
	in.copyN(&tail, src, src.len)
	return Value{r: n}
}

// ---- maps

func (in *Interp) touchMap(m *MapObj) {
	if m.epoch == in.epoch || in.epoch == 0 {
		return
	}
	old := *m
	ents := make([]*MapEntry, len(m.ents))
	for i, e := range m.ents {
		c := *e
		ents[i] = &c
	}
	idx := map[string]*MapEntry{}
	for _, e := range ents {
		if e.conc && !e.dead {
			idx[e.ek] = e
		}
	}
	old.ents, old.idx = ents, idx
	m.epoch = in.epoch
	in.undo = append(in.undo, func() { *m = old; m.epoch = 0 })
}

func (in *Interp) keyStr(v Value, t types.Type) (string, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		bi := basicOf(u)
		switch bi.kind {
		case 3:
			in.inspect(v)
			return strConc(v)
		case 1, 2, 4:
			if v.r != nil {
				return "", false
			}
			return fmt.Sprintf("%d", v.n), true
		case 6:
			return in.ptrKey(v), true
		}
	case *types.Pointer, *types.Chan:
		return in.ptrKey(v), true
	case *types.Interface:
		if v.r == nil {
			return "nil", true
		}
		i := v.r.(*Iface)
		if !types.Comparable(i.t) {
			in.goPanicStr("runtime error: hash of unhashable type " + i.t.String())
		}
		k, ok := in.keyStr(i.v, i.t)
		return fmt.Sprintf("%p|%s", i.t, k), ok
	case *types.Struct:
		a := v.r.(Agg)
		off := 0
		var sb strings.Builder
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			sz := sizeOf(ft)
			k, ok := in.keyStr(cellVal(a[off:off+sz], ft), ft)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
			off += sz
		}
		return sb.String(), true
	case *types.Array:
		a := v.r.(Agg)
		sz := sizeOf(u.Elem())
		var sb strings.Builder
		for i := 0; i < int(u.Len()); i++ {
			k, ok := in.keyStr(cellVal(a[i*sz:i*sz+sz], u.Elem()), u.Elem())
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	}
	in.unsupported("map key type %s", t)
	return "", false
}

func (in *Interp) ptrKey(v Value) string {
	switch o := v.r.(type) {
	case nil:
		return fmt.Sprintf("nil%d", v.n)
	case *Obj:
		return fmt.Sprintf("o%d.%d", o.id, v.n)
	case *Chan:
		return fmt.Sprintf("c%d", o.id)
	}
	in.unsupported("pointer key %T", v.r)
	return ""
}

func (in *Interp) mapFind(m *MapObj, k Value) *MapEntry {
	ek, conc := in.keyStr(k, m.kt)
	if conc {
		if e, ok := m.idx[ek]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead || (conc && e.conc) {
			continue
		}
		if in.decide(in.eq(e.k, k, m.kt)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *MapObj, k, v Value) {
	in.touchMap(m)
	if e := in.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	ek, conc := in.keyStr(k, m.kt)
	e := &MapEntry{k: k, v: v, ek: ek, conc: conc}
	m.ents = append(m.ents, e)
	if conc {
		m.idx[ek] = e
	} else {
		m.nsym++
	}
	m.live++
}

func (in *Interp) mapDelete(m *MapObj, k Value) {
	in.touchMap(m)
	if e := in.mapFind(m, k); e != nil {
		in.mapKill(m, e)
	}
}

func (in *Interp) mapKill(m *MapObj, e *MapEntry) {
	if e.dead {
		return
	}
	e.dead = true
	if e.conc {
		delete(m.idx, e.ek)
	} else {
		m.nsym--
	}
	m.live--
	out := m.ents[:0:0]
	for _, x := range m.ents {
		if x != e {
			out = append(out, x)
		}
	}
	m.ents = out
}

func (in *Interp) newMap(kt types.Type) *MapObj {
	in.nobj++
	return &MapObj{kt: kt, idx: map[string]*MapEntry{}, epoch: in.epoch, id: in.nobj}
}

type mapIter struct {
	m    *MapObj
	ents []*MapEntry
	i    int
}

type strIter struct {
	s Value
	i int
}

// ---- main step loop

const (
	rBlocked = iota
	rYield
	rDone
)

// runG executes g until it blocks, yields or ends.
func (in *Interp) runG(g *G) (res int) {
	for {
		r, again := in.runG1(g)
		if !again {
			return r
		}
	}
}

func (in *Interp) runG1(g *G) (res int, again bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(goPanicSig); ok {
				in.startPanic(g, s.val)
				if len(g.frames) == 0 {
					res, again = rDone, false
					return
				}
				res, again = 0, true
				return
			}
			panic(r)
		}
	}()
	return in.exec(g), false
}

func (in *Interp) startPanic(g *G, val Value) {
	p := &goPanic{val: val, where: in.gwhere(g)}
	g.panics = append(g.panics, p)
	in.unwindG(g)
}

// unwindG continues unwinding the top frame of g.
func (in *Interp) unwindG(g *G) {
	for {
		if len(g.frames) == 0 {
			p := g.panics[len(g.panics)-1]
			if p.goexit {
				g.done = true
				return
			}
			g.done = true
			msg := "panic: " + in.panicText(p.val)
			panic(abort{abViolation, msg + " @ " + p.where})
		}
		f := g.frames[len(g.frames)-1]
		f.unwind = true
		f.running = false
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			in.pushFrame(g, d.fi, d.args, d.env, -1, true)
			return
		}
		g.frames = g.frames[:len(g.frames)-1]
	}
}

func (in *Interp) panicText(v Value) string {
	if v.r == nil {
		return "nil"
	}
	i := v.r.(*Iface)
	if b := basicOf(i.t); b.kind == 3 {
		if s, ok := strConc(i.v); ok {
			return s
		}
	}
	return describe(in, v, types.NewInterfaceType(nil, nil))
}

// returned is called when the top frame has been popped with the given value.
func (in *Interp) returned(g *G, top *frame, v Value) bool {
	if len(g.frames) == 0 {
		g.done = true
		return false
	}
	f := g.frames[len(g.frames)-1]
	if top.isDefer {
		if f.unwind {
			p := g.panics[len(g.panics)-1]
			if p.recovered {
				g.panics = g.panics[:len(g.panics)-1]
				f.unwind = false
				// run remaining defers, then return via the recover block
				if f.fi.recov != nil {
					f.blk = f.fi.recov
					f.pc = 0
					return true
				}
				// no named results: run the remaining defers then return zero values
				f.blk = in.zeroRet(f.fi)
				f.pc = 0
				return true
			}
			in.unwindG(g)
			return len(g.frames) > 0
		}
		return true // RunDefers continues at same pc
	}
	if top.dst >= 0 {
		f.regs[top.dst] = v
	}
	return true
}

func (in *Interp) zeroRet(fi *funcInfo) *cblock {
	res := fi.fn.Signature.Results()
	ret := cinstr{op: iReturn, dst: -1}
	for i := 0; i < res.Len(); i++ {
		k := ^int32(len(fi.consts))
		fi.consts = append(fi.consts, in.zero(res.At(i).Type()))
		ret.args = append(ret.args, k)
	}
	return &cblock{ins: []cinstr{{op: iRunDefers, dst: -1}, ret}}
}

func (in *Interp) enterBlock(f *frame, b *cblock) {
	if b.phis != nil {
		mv := b.phis[f.blk.idx]
		if len(mv) == 1 {
			f.regs[mv[0].dst] = f.get(mv[0].src)
		} else {
			var tmp [16]Value
			t := tmp[:0]
			for _, m := range mv {
				t = append(t, f.get(m.src))
			}
			for i, m := range mv {
				f.regs[m.dst] = t[i]
			}
		}
	}
	f.blk = b
	f.pc = 0
}

func (in *Interp) exec(g *G) int {
	f := g.frames[len(g.frames)-1]
	for {
		if in.steps++; in.steps > in.maxSteps {
			panic(abort{abLimit, "step limit @ " + in.where()})
		}
		g.slice++
		if g.slice > 20000 {
			g.slice = 0
			if len(in.runq) > 0 {
				return rYield
			}
		}
		ci := &f.blk.ins[f.pc]
		switch ci.op {
		case iNop:
			f.pc++
		case iAlloc:
			o := in.newObj(ci.n, "")
			if at, ok := ci.t.Underlying().(*types.Array); ok && isByte(at.Elem()) {
				o.bytes = true
			}
			f.regs[ci.dst] = Value{r: o}
			f.pc++
		case iBin:
			f.regs[ci.dst] = in.binop(ci, f.get(ci.a), f.get(ci.b))
			f.pc++
		case iNot:
			v := f.get(ci.a)
			if v.r == nil {
				f.regs[ci.dst] = Value{n: v.n ^ 1}
			} else {
				f.regs[ci.dst] = fromTerm(in.tt.Not(v.r.(*Term)))
			}
			f.pc++
		case iNeg:
			v := f.get(ci.a)
			if ci.bi.kind == 4 {
				f.regs[ci.dst] = Value{n: math.Float64bits(-math.Float64frombits(v.n))}
			} else if v.r == nil {
				f.regs[ci.dst] = Value{n: -v.n & mask(ci.bi.w)}
			} else {
				f.regs[ci.dst] = fromTerm(in.tt.Bin(OSub, in.tt.Const(ci.bi.w, 0), v.r.(*Term)))
			}
			f.pc++
		case iXor:
			v := f.get(ci.a)
			if v.r == nil {
				f.regs[ci.dst] = Value{n: ^v.n & mask(ci.bi.w)}
			} else {
				f.regs[ci.dst] = fromTerm(in.tt.BNot(v.r.(*Term)))
			}
			f.pc++
		case iLoad:
			p := f.get(ci.a)
			if in.tracked(f) && ci.src != nil {
				if in.racy[ci.src] && in.explore && in.schedPoint(g) {
					return rYield
				}
				in.accessPtr(p, ci.n, false, ci.src)
			}
			f.regs[ci.dst] = in.load(p, ci.n, ci.cell)
			f.pc++
		case iStore:
			p := f.get(ci.a)
			if in.tracked(f) && ci.src != nil {
				if in.racy[ci.src] && in.explore && in.schedPoint(g) {
					return rYield
				}
				in.accessPtr(p, ci.n, true, ci.src)
			}
			in.store(p, f.get(ci.b), ci.n, ci.cell)
			f.pc++
		case iMove:
			f.regs[ci.dst] = f.get(ci.a)
			f.pc++
		case iConvert:
			f.regs[ci.dst] = in.convert(f.get(ci.a), ci.t, ci.t2)
			f.pc++
		case iExtract:
			f.regs[ci.dst] = f.get(ci.a).r.(Tuple)[ci.n]
			f.pc++
		case iField:
			a := f.get(ci.a).r.(Agg)
			if ci.cell {
				f.regs[ci.dst] = a[ci.n]
			} else {
				f.regs[ci.dst] = Value{r: a[ci.n : ci.n+ci.m : ci.n+ci.m]}
			}
			f.pc++
		case iFieldAddr:
			v := f.get(ci.a)
			o, ok := v.r.(*Obj)
			if !ok {
				if v.r == nil {
					in.nilDeref()
				}
				in.unsupported("field of %T", v.r)
			}
			f.regs[ci.dst] = Value{n: v.n + uint64(ci.n), r: o}
			f.pc++
		case iIf:
			if in.decide(f.get(ci.a)) {
				in.enterBlock(f, f.blk.succ0)
			} else {
				in.enterBlock(f, f.blk.succ1)
			}
		case iJump:
			in.enterBlock(f, f.blk.succ0)
		case iIndex:
			f.regs[ci.dst] = in.index(ci, f.get(ci.a), f.get(ci.b))
			f.pc++
		case iIndexAddr:
			f.regs[ci.dst] = in.indexAddr(ci, f.get(ci.a), f.get(ci.b))
			f.pc++
		case iLookup:
			mv := f.get(ci.a)
			var v Value
			ok := false
			if mv.r != nil {
				if in.tracked(f) && ci.src != nil {
					if in.racy[ci.src] && in.explore && in.schedPoint(g) {
						return rYield
					}
					in.accessMap(mv.r.(*MapObj), false, ci.src)
				}
				if e := in.mapFind(mv.r.(*MapObj), f.get(ci.b)); e != nil {
					v, ok = e.v, true
				}
			}
			if !ok {
				v = in.zero(ci.t2)
			}
			if ci.commaOk {
				v = Value{r: Tuple{v, mkBool(ok)}}
			}
			f.regs[ci.dst] = v
			f.pc++
		case iMapUpdate:
			mv := f.get(ci.a)
			if mv.r == nil {
				in.goPanicStr("assignment to entry in nil map")
			}
			if in.tracked(f) && ci.src != nil {
				if in.racy[ci.src] && in.explore && in.schedPoint(g) {
					return rYield
				}
				in.accessMap(mv.r.(*MapObj), true, ci.src)
			}
			in.mapSet(mv.r.(*MapObj), f.get(ci.b), f.get(ci.c))
			f.pc++
		case iMakeChan:
			n := f.get(ci.a)
			k := int64(in.concretize(n, 64))
			if k < 0 || k > 1<<24 {
				in.goPanicStr("makechan: size out of range")
			}
			in.nobj++
			f.regs[ci.dst] = Value{r: &Chan{id: in.nobj, cap: int(k), epoch: in.epoch, et: ci.t}}
			f.pc++
		case iMakeClosure:
			env := make([]Value, len(ci.args))
			for i, a := range ci.args {
				env[i] = f.get(a)
			}
			f.regs[ci.dst] = Value{r: &Closure{fn: ci.x.(*funcInfo), env: env}}
			f.pc++
		case iMakeInterface:
			f.regs[ci.dst] = Value{r: &Iface{t: ci.t, v: f.get(ci.a)}}
			f.pc++
		case iMakeMap:
			f.regs[ci.dst] = Value{r: in.newMap(ci.t)}
			f.pc++
		case iMakeSlice:
			f.regs[ci.dst] = in.makeSlice(ci, f.get(ci.a), f.get(ci.b), f.fi)
			f.pc++
		case iRange:
			v := f.get(ci.a)
			if ci.m == 1 {
				in.inspect(v)
				f.regs[ci.dst] = Value{r: &strIter{s: v}}
			} else {
				it := &mapIter{}
				if v.r != nil {
					it.m = v.r.(*MapObj)
					if in.tracked(f) && ci.src != nil {
						if in.racy[ci.src] && in.explore && in.schedPoint(g) {
							return rYield
						}
						in.accessMap(it.m, false, ci.src)
					}
					it.ents = in.mapOrder(f, it.m)
				}
				f.regs[ci.dst] = Value{r: it}
			}
			f.pc++
		case iNext:
			if it, ok := f.get(ci.a).r.(*mapIter); ok && it.m != nil && in.tracked(f) && ci.src != nil {
				if in.racy[ci.src] && in.explore && in.schedPoint(g) {
					return rYield
				}
				in.accessMap(it.m, false, ci.src)
			}
			f.regs[ci.dst] = in.next(ci, f.get(ci.a))
			f.pc++
		case iSlice:
			f.regs[ci.dst] = in.slice(ci, f)
			f.pc++
		case iSliceToArray:
			s := in.sl(f.get(ci.a))
			if !in.decide(fromTerm(in.tt.Sle(in.tt.Const(64, uint64(ci.n)), in.t64(s.len)))) {
				in.goPanicStr("runtime error: cannot convert slice to array pointer: length too short")
			}
			if s.obj == nil {
				f.regs[ci.dst] = Value{}
			} else {
				f.regs[ci.dst] = in.elemPtr(s, Value{}, 8, false)
			}
			f.pc++
		case iTypeAssert:
			f.regs[ci.dst] = in.typeAssert(ci, f.get(ci.a))
			f.pc++
		case iPanic:
			v := f.get(ci.a)
			f.pc++
			if v.r == nil {
				in.goPanicStr("panic called with nil argument")
			}
			panic(goPanicSig{v})
		case iReturn:
			var v Value
			switch len(ci.args) {
			case 0:
			case 1:
				v = f.get(ci.args[0])
			default:
				t := make(Tuple, len(ci.args))
				for i, a := range ci.args {
					t[i] = f.get(a)
				}
				v = Value{r: t}
			}
			g.frames = g.frames[:len(g.frames)-1]
			if !in.returned(g, f, v) {
				return rDone
			}
			f = g.frames[len(g.frames)-1]
		case iRunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				in.pushFrame(g, d.fi, d.args, d.env, -1, true)
				f = g.frames[len(g.frames)-1]
			} else {
				f.pc++
			}
		case iCallFn, iCallClo, iCallInvoke:
			fi, args, env := in.target(f, ci, ci.op)
			if fi.native != nil {
				if in.explore && visible[fi.origin] && f.fi.repo && !f.fi.harness && in.schedPoint(g) {
					return rYield
				}
				fi.used = true
				v, act := fi.native(in, g, args, ci.x.(*callInfo))
				switch act {
				case actDone:
					if ci.dst >= 0 {
						f.regs[ci.dst] = v
					}
					f.pc++
				case actBlock:
					return rBlocked
				case actYield:
					return rYield
				case actPushed:
					f.pc++
					f = g.frames[len(g.frames)-1]
					f.dst = ci.dst
				}
				continue
			}
			if fi.vis && in.explore && f.fi.repo && !f.fi.harness && in.schedPoint(g) {
				return rYield
			}
			in.pushFrame(g, fi, args, env, ci.dst, false)
			f.pc++
			f = g.frames[len(g.frames)-1]
		case iCallBuiltin:
			if in.tracked(f) && ci.src != nil {
				if in.racy[ci.src] && in.explore && in.schedPoint(g) {
					return rYield
				}
				in.accessBuiltin(f, ci)
			}
			if !in.builtin(g, f, ci) {
				return rYield
			}
			f.pc++
		case iGo:
			if in.explore && f.fi.repo && !f.fi.harness && in.schedPoint(g) {
				return rYield
			}
			in.goStmt(f, ci)
			f.pc++
		case iDefer:
			in.deferStmt(f, ci)
			f.pc++
		case iRecv:
			if in.explore && f.fi.repo && !f.fi.harness && g.resumed == nil && in.schedPoint(g) {
				return rYield
			}
			if !in.execRecv(g, f, ci) {
				return rBlocked
			}
			f.pc++
		case iSend:
			if in.explore && f.fi.repo && !f.fi.harness && g.resumed == nil && in.schedPoint(g) {
				return rYield
			}
			if !in.execSend(g, f, ci) {
				return rBlocked
			}
			f.pc++
		case iSelect:
			if in.explore && f.fi.repo && !f.fi.harness && g.resumed == nil && in.schedPoint(g) {
				return rYield
			}
			if !in.execSelect(g, f, ci) {
				return rBlocked
			}
			f.pc++
		default:
			panic(fmt.Sprintf("op %d", ci.op))
		}
	}
}

func (in *Interp) resolveCall(f *frame, ci *cinstr) (fi *funcInfo, args, env []Value) {
	op := iop(ci.m)
	ca := ci.x.(*callInfo)
	if op == iCallBuiltin {
		args = make([]Value, len(ci.args))
		for i, a := range ci.args {
			args[i] = f.get(a)
		}
		fi = in.wrapperFor(iCallBuiltin, ca, nil, len(args), ca.builtin)
		return
	}
	fi, args, env = in.target(f, ci, op)
	if fi.native != nil {
		fi = in.wrapperFor(iCallFn, ca, fi, len(args), fi.name)
	}
	return
}

func (in *Interp) goStmt(f *frame, ci *cinstr) {
	fi, args, env := in.resolveCall(f, ci)
	in.spawn(fi, args, env)
}

func (in *Interp) deferStmt(f *frame, ci *cinstr) {
	fi, args, env := in.resolveCall(f, ci)
	f.defers = append(f.defers, deferRec{fi, args, env})
}

func (in *Interp) makeSlice(ci *cinstr, l, c Value, fi *funcInfo) Value {
	esz := ci.n
	if ci.bi.w < 64 {
		l, c = in.extV(l, ci.bi), in.extV(c, ci.bi)
	}
	if l.r == nil && c.r == nil {
		if int64(l.n) < 0 || int64(l.n) > 1<<47/int64(max(esz, 1)) {
			in.goPanicStr("runtime error: makeslice: len out of range")
		}
		if int64(c.n) < int64(l.n) || int64(c.n) > 1<<47/int64(max(esz, 1)) {
			in.goPanicStr("runtime error: makeslice: cap out of range")
		}
	} else {
		lim := in.tt.Const(64, 1<<47)
		if !in.decide(fromTerm(in.tt.Ule(in.t64(l), lim))) {
			in.goPanicStr("runtime error: makeslice: len out of range")
		}
		if c != l && !in.decide(fromTerm(in.tt.And(in.tt.Ule(in.t64(l), in.t64(c)), in.tt.Ule(in.t64(c), lim)))) {
			in.goPanicStr("runtime error: makeslice: cap out of range")
		}
	}
	byt := isByte(ci.t)
	if byt && !fi.harness {
		in.allocs = append(in.allocs, c)
	}
	if c.r == nil && c.n*uint64(max(esz, 1)) <= 1<<20 {
		o := in.newObj(int(c.n)*esz, "make")
		o.bytes = byt
		return Value{r: &SliceV{obj: o, esz: esz, len: l, cap: c}}
	}
	if !byt {
		k := in.concretize(c, 64)
		if k > 1<<22 {
			panic(abort{abLimit, "large slice"})
		}
		o := in.newObj(int(k)*esz, "make")
		return Value{r: &SliceV{obj: o, esz: esz, len: l, cap: ciU(k)}}
	}
	o := in.newObj(0, "make")
	o.bytes = true
	o.blob = &Blob{arr: &Arr{kind: 0}, size: c}
	return Value{r: &SliceV{obj: o, esz: 1, len: l, cap: c}}
}

func ciU(n uint64) Value { return Value{n: n} }

// extV widens an integer of the given kind to 64 bits.
func (in *Interp) extV(v Value, bi basicInfo) Value {
	if bi.w == 64 {
		return v
	}
	if v.r == nil {
		if bi.signed {
			return Value{n: uint64(sext(v.n, bi.w))}
		}
		return v
	}
	if bi.signed {
		return fromTerm(in.tt.SExt(v.r.(*Term), 64))
	}
	return fromTerm(in.tt.ZExt(v.r.(*Term), 64))
}

func (in *Interp) boundsFail(i, n Value) {
	in.goPanicStr("runtime error: index out of range")
}

// inBounds decides 0 <= i < n (unsigned comparison).
func (in *Interp) inBounds(i, n Value) bool {
	if i.r == nil && n.r == nil {
		return i.n < n.n
	}
	return in.decide(fromTerm(in.ultT(i, n)))
}

func (in *Interp) index(ci *cinstr, x, i Value) Value {
	i = in.extV(i, ci.bi)
	if basicOf(ci.t).kind == 3 { // string
		n := in.strLen(x)
		if !in.inBounds(i, ciU(uint64(n))) {
			in.boundsFail(i, ciU(uint64(n)))
		}
		in.inspect(x)
		if i.r == nil {
			return in.strByte(x, int(i.n))
		}
		b := in.strBytes(x)
		return in.arrSelect(&Arr{kind: 4, cells: b}, i)
	}
	if !in.inBounds(i, ciU(uint64(ci.n))) {
		in.boundsFail(i, Value{})
	}
	a := x.r.(Agg)
	k := int(in.concretize(i, 64))
	if ci.cell {
		return a[k]
	}
	return Value{r: a[k*ci.m : (k+1)*ci.m : (k+1)*ci.m]}
}

func (in *Interp) indexAddr(ci *cinstr, x, i Value) Value {
	i = in.extV(i, ci.bi)
	if ci.n >= 0 { // pointer to array
		if x.r == nil {
			in.nilDeref()
		}
		if !in.inBounds(i, ciU(uint64(ci.n))) {
			in.boundsFail(i, Value{})
		}
		o, ok := x.r.(*Obj)
		if !ok {
			in.unsupported("index of %T", x.r)
		}
		if i.r == nil && o.blob == nil {
			return Value{n: x.n + i.n*uint64(ci.m), r: o}
		}
		s := &SliceV{obj: o, base: int(x.n), esz: ci.m, len: ciU(uint64(ci.n)), cap: ciU(uint64(ci.n))}
		w := 8
		if ci.cell {
			w = basicOf(deref(ci.src.(*ssa.IndexAddr).Type())).w
		}
		return in.elemPtr(s, i, w, ci.cell)
	}
	if x.r == nil {
		in.boundsFail(i, Value{})
	}
	s := x.r.(*SliceV)
	if !in.inBounds(i, s.len) {
		in.boundsFail(i, s.len)
	}
	if i.r == nil && s.off.r == nil && s.obj.blob == nil {
		return Value{n: uint64(s.base) + (s.off.n+i.n)*uint64(s.esz), r: s.obj}
	}
	w := 8
	if ci.cell {
		w = basicOf(deref(ci.src.(*ssa.IndexAddr).Type())).w
	}
	return in.elemPtr(s, i, w, ci.cell)
}

func (in *Interp) slice(ci *cinstr, f *frame) Value {
	x := f.get(ci.a)
	has := func(k int) bool { return ci.args[k] != noOp }
	ext := func(k int) Value {
		v := f.get(ci.args[k])
		var op ssa.Value
		s := ci.src.(*ssa.Slice)
		switch k {
		case 0:
			op = s.Low
		case 1:
			op = s.High
		default:
			op = s.Max
		}
		return in.extV(v, basicOf(op.Type()))
	}
	if basicOf(ci.t).kind == 3 {
		n := in.strLen(x)
		lo, hi := Value{}, ciU(uint64(n))
		if has(0) {
			lo = ext(0)
		}
		if has(1) {
			hi = ext(1)
		}
		in.checkSlice(lo, hi, ciU(uint64(n)))
		if lo.r == nil && lo.n == 0 && hi.r == nil && int(hi.n) == n {
			return x
		}
		l, h := int(in.concretize(lo, 64)), int(in.concretize(hi, 64))
		in.inspect(x)
		return in.strSlice(x, l, h)
	}
	var s SliceV
	if pt, ok := ci.t.Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		if x.r == nil {
			in.nilDeref()
		}
		o, ok := x.r.(*Obj)
		if !ok {
			in.unsupported("slice of %T", x.r)
		}
		s = SliceV{obj: o, base: int(x.n), esz: sizeOf(at.Elem()), len: ciU(uint64(at.Len())), cap: ciU(uint64(at.Len()))}
		if o.blob != nil {
			s.base = 0
			s.off = ciU(x.n)
		}
	} else if x.r == nil {
		s = SliceV{esz: sizeOf(ci.t.Underlying().(*types.Slice).Elem())}
	} else {
		s = *x.r.(*SliceV)
	}
	lo, hi, mx := Value{}, s.len, s.cap
	if has(0) {
		lo = ext(0)
	}
	if has(1) {
		hi = ext(1)
	}
	if has(2) {
		mx = ext(2)
		if !in.decide(fromTerm(in.uleT(mx, s.cap))) {
			in.goPanicStr("runtime error: slice bounds out of range")
		}
	}
	in.checkSlice(lo, hi, mx)
	n := s
	n.off = in.add(s.off, lo)
	n.len = in.sub(hi, lo)
	n.cap = in.sub(mx, lo)
	if s.obj == nil {
		return Value{}
	}
	return Value{r: &n}
}

func (in *Interp) checkSlice(lo, hi, mx Value) {
	if lo.r == nil && hi.r == nil && mx.r == nil {
		if hi.n > mx.n || lo.n > hi.n {
			in.goPanicStr("runtime error: slice bounds out of range")
		}
		return
	}
	if !in.decide(fromTerm(in.tt.And(in.uleT(hi, mx), in.uleT(lo, hi)))) {
		in.goPanicStr("runtime error: slice bounds out of range")
	}
}

func (in *Interp) typeAssert(ci *cinstr, v Value) Value {
	var i *Iface
	if v.r != nil {
		i = v.r.(*Iface)
	}
	ok := false
	var res Value
	if it, isI := ci.x.(*types.Interface); isI {
		if i != nil && in.p.implements(i.t, it, ci.t) {
			ok = true
			res = v
		}
	} else if i != nil && i.t == ci.t {
		ok = true
		res = i.v
	}
	if ci.commaOk {
		if !ok {
			res = in.zero(ci.t)
		}
		return Value{r: Tuple{res, mkBool(ok)}}
	}
	if !ok {
		dyn := "nil"
		if i != nil {
			dyn = i.t.String()
		}
		in.goPanicStr("interface conversion: interface is " + dyn + ", not " + ci.t.String())
	}
	return res
}

func (in *Interp) next(ci *cinstr, it Value) Value {
	switch x := it.r.(type) {
	case *mapIter:
		for x.i < len(x.ents) {
			e := x.ents[x.i]
			x.i++
			if e.dead {
				continue
			}
			return Value{r: Tuple{mkBool(true), e.k, e.v}}
		}
		return Value{r: Tuple{mkBool(false), Value{}, Value{}}}
	case *strIter:
		n := in.strLen(x.s)
		if x.i >= n {
			return Value{r: Tuple{mkBool(false), Value{}, Value{}}}
		}
		k := x.i
		b := in.strByte(x.s, k)
		if b.r == nil && b.n < 0x80 {
			x.i++
			return Value{r: Tuple{mkBool(true), ci1(k), b}}
		}
		if b.r != nil {
			if in.decide(fromTerm(in.tt.Ult(b.r.(*Term), in.tt.Const(8, 0x80)))) {
				x.i++
				return Value{r: Tuple{mkBool(true), ci1(k), fromTerm(in.tt.ZExt(b.r.(*Term), 32))}}
			}
			in.unsupported("range over non-ASCII symbolic string")
		}
		s, ok := strConc(in.strSlice(x.s, k, n))
		if !ok {
			in.unsupported("range over non-ASCII symbolic string")
		}
		r, w := utf8.DecodeRuneInString(s)
		x.i += w
		return Value{r: Tuple{mkBool(true), ci1(k), Value{n: uint64(uint32(r))}}}
	}
	panic("next")
}

func ci1(n int) Value { return Value{n: uint64(n)} }

// ---- operators

func (in *Interp) binop(ci *cinstr, a, b Value) Value {
	w := ci.bi.w
	switch ci.tok {
	case token.EQL:
		return in.eq(a, b, ci.t)
	case token.NEQ:
		v := in.eq(a, b, ci.t)
		if v.r == nil {
			return Value{n: v.n ^ 1}
		}
		return fromTerm(in.tt.Not(v.r.(*Term)))
	}
	if ci.bi.kind == 3 {
		switch ci.tok {
		case token.ADD:
			return in.strConcat(a, b)
		case token.LSS:
			return in.ltStr(a, b)
		case token.GTR:
			return in.ltStr(b, a)
		case token.LEQ:
			return in.notV(in.ltStr(b, a))
		case token.GEQ:
			return in.notV(in.ltStr(a, b))
		}
	}
	if ci.bi.kind == 4 {
		return in.floatOp(ci, a, b)
	}
	if ci.bi.kind == 2 {
		// &&, || are control flow; & | ^ on bools do not exist
		in.unsupported("bool op %s", ci.tok)
	}
	switch ci.tok {
	case token.SHL, token.SHR:
		return in.shift(ci, a, b)
	}
	if a.r == nil && b.r == nil {
		x, y := a.n, b.n
		sx, sy := sext(x, w), sext(y, w)
		switch ci.tok {
		case token.ADD:
			return Value{n: (x + y) & mask(w)}
		case token.SUB:
			return Value{n: (x - y) & mask(w)}
		case token.MUL:
			return Value{n: (x * y) & mask(w)}
		case token.QUO:
			if y == 0 {
				in.goPanicStr("runtime error: integer divide by zero")
			}
			if ci.bi.signed {
				if sy == -1 {
					return Value{n: uint64(-sx) & mask(w)}
				}
				return Value{n: uint64(sx/sy) & mask(w)}
			}
			return Value{n: x / y}
		case token.REM:
			if y == 0 {
				in.goPanicStr("runtime error: integer divide by zero")
			}
			if ci.bi.signed {
				if sy == -1 {
					return Value{}
				}
				return Value{n: uint64(sx%sy) & mask(w)}
			}
			return Value{n: x % y}
		case token.AND:
			return Value{n: x & y}
		case token.OR:
			return Value{n: x | y}
		case token.XOR:
			return Value{n: x ^ y}
		case token.AND_NOT:
			return Value{n: x &^ y}
		case token.LSS:
			if ci.bi.signed {
				return mkBool(sx < sy)
			}
			return mkBool(x < y)
		case token.LEQ:
			if ci.bi.signed {
				return mkBool(sx <= sy)
			}
			return mkBool(x <= y)
		case token.GTR:
			if ci.bi.signed {
				return mkBool(sx > sy)
			}
			return mkBool(x > y)
		case token.GEQ:
			if ci.bi.signed {
				return mkBool(sx >= sy)
			}
			return mkBool(x >= y)
		}
		panic("binop " + ci.tok.String())
	}
	x, y := in.term(a, w), in.term(b, w)
	tt := in.tt
	switch ci.tok {
	case token.ADD:
		return fromTerm(tt.Bin(OAdd, x, y))
	case token.SUB:
		return fromTerm(tt.Bin(OSub, x, y))
	case token.MUL:
		return fromTerm(tt.Bin(OMul, x, y))
	case token.QUO, token.REM:
		if in.decide(fromTerm(tt.Eq(y, tt.Const(w, 0)))) {
			in.goPanicStr("runtime error: integer divide by zero")
		}
		op := OUDiv
		switch {
		case ci.tok == token.QUO && ci.bi.signed:
			op = OSDiv
		case ci.tok == token.REM && ci.bi.signed:
			op = OSRem
		case ci.tok == token.REM:
			op = OURem
		}
		return fromTerm(tt.Bin(op, x, y))
	case token.AND:
		return fromTerm(tt.Bin(OBAnd, x, y))
	case token.OR:
		return fromTerm(tt.Bin(OBOr, x, y))
	case token.XOR:
		return fromTerm(tt.Bin(OBXor, x, y))
	case token.AND_NOT:
		return fromTerm(tt.Bin(OBAnd, x, tt.BNot(y)))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if ci.tok == token.GTR || ci.tok == token.LEQ {
			x, y = y, x
		}
		var t *Term
		if ci.bi.signed {
			t = tt.Slt(x, y)
		} else {
			t = tt.Ult(x, y)
		}
		if ci.tok == token.LEQ || ci.tok == token.GEQ {
			t = tt.Not(t)
		}
		return fromTerm(t)
	}
	panic("binop " + ci.tok.String())
}

func (in *Interp) notV(v Value) Value {
	if v.r == nil {
		return Value{n: v.n ^ 1}
	}
	return fromTerm(in.tt.Not(v.r.(*Term)))
}

func (in *Interp) floatOp(ci *cinstr, a, b Value) Value {
	if a.r != nil || b.r != nil {
		in.unsupported("symbolic float")
	}
	x, y := math.Float64frombits(a.n), math.Float64frombits(b.n)
	fv := func(f float64) Value {
		if ci.bi.w == 32 {
			f = float64(float32(f))
		}
		return Value{n: math.Float64bits(f)}
	}
	switch ci.tok {
	case token.ADD:
		return fv(x + y)
	case token.SUB:
		return fv(x - y)
	case token.MUL:
		return fv(x * y)
	case token.QUO:
		return fv(x / y)
	case token.LSS:
		return mkBool(x < y)
	case token.LEQ:
		return mkBool(x <= y)
	case token.GTR:
		return mkBool(x > y)
	case token.GEQ:
		return mkBool(x >= y)
	}
	panic("float op")
}

func (in *Interp) shift(ci *cinstr, a, b Value) Value {
	w := ci.bi.w
	if ci.m == 1 { // signed count
		neg := false
		if b.r == nil {
			neg = sext(b.n, ci.n) < 0
		} else {
			neg = in.decide(fromTerm(in.tt.Slt(b.r.(*Term), in.tt.Const(ci.n, 0))))
		}
		if neg {
			in.goPanicStr("runtime error: negative shift amount")
		}
	}
	if a.r == nil && b.r == nil {
		c := b.n
		if ci.tok == token.SHL {
			if c >= uint64(w) {
				return Value{}
			}
			return Value{n: a.n << c & mask(w)}
		}
		if ci.bi.signed {
			if c > 63 {
				c = 63
			}
			return Value{n: uint64(sext(a.n, w)>>c) & mask(w)}
		}
		if c >= uint64(w) {
			return Value{}
		}
		return Value{n: a.n >> c}
	}
	x := in.term(a, w)
	var y *Term
	tt := in.tt
	if b.r == nil {
		c := b.n
		if c > 255 {
			c = 255
		}
		if c > mask(w) {
			c = mask(w)
		}
		y = tt.Const(w, c)
	} else {
		bt := b.r.(*Term)
		if bt.w <= w {
			y = tt.ZExt(bt, w)
		} else {
			y = tt.Ite(tt.Ult(bt, tt.Const(bt.w, uint64(w))), tt.Extract(w-1, 0, bt), tt.Const(w, uint64(w)))
		}
	}
	op := OShl
	if ci.tok == token.SHR {
		op = OLShr
		if ci.bi.signed {
			op = OAShr
		}
	}
	return fromTerm(tt.Bin(op, x, y))
}

func (in *Interp) convert(v Value, from, to types.Type) Value {
	fb, tb := basicOf(from), basicOf(to)
	switch {
	case fb.kind == 1 && tb.kind == 1:
		if v.r == nil {
			n := v.n
			if fb.signed {
				n = uint64(sext(n, fb.w))
			}
			return Value{n: n & mask(tb.w)}
		}
		t, ok := v.r.(*Term)
		if !ok {
			return v // uintptr carrying a pointer
		}
		if tb.w <= fb.w {
			return fromTerm(in.tt.Extract(tb.w-1, 0, t))
		}
		if fb.signed {
			return fromTerm(in.tt.SExt(t, tb.w))
		}
		return fromTerm(in.tt.ZExt(t, tb.w))
	case fb.kind == 1 && tb.kind == 4:
		if v.r != nil {
			in.unsupported("symbolic int to float")
		}
		if fb.signed {
			return Value{n: math.Float64bits(float64(sext(v.n, fb.w)))}
		}
		return Value{n: math.Float64bits(float64(v.n))}
	case fb.kind == 4 && tb.kind == 1:
		fl := math.Float64frombits(v.n)
		if tb.signed {
			return Value{n: uint64(int64(fl)) & mask(tb.w)}
		}
		return Value{n: uint64(fl) & mask(tb.w)}
	case fb.kind == 4 && tb.kind == 4:
		if tb.w == 32 {
			return Value{n: math.Float64bits(float64(float32(math.Float64frombits(v.n))))}
		}
		return v
	case fb.kind == 3 && tb.kind == 3:
		return v
	case fb.kind == 1 && tb.kind == 3:
		if v.r != nil {
			in.unsupported("symbolic rune to string")
		}
		return mkStrC(string(rune(int32(v.n))))
	case tb.kind == 3: // slice -> string
		st := from.Underlying().(*types.Slice)
		if isByte(st.Elem()) {
			return mkStrB(in.sliceBytes(v))
		}
		if v.r == nil {
			return Value{}
		}
		s := v.r.(*SliceV)
		n := int(in.concretize(s.len, 64))
		var rs []rune
		for i := 0; i < n; i++ {
			e := in.load(in.elemPtr(s, ci1(i), 32, true), 1, true)
			if e.r != nil {
				in.unsupported("symbolic runes to string")
			}
			rs = append(rs, rune(int32(e.n)))
		}
		return mkStrC(string(rs))
	case fb.kind == 3: // string -> slice
		st := to.Underlying().(*types.Slice)
		if isByte(st.Elem()) {
			if v.r == nil {
				o := in.newObj(0, "conv")
				o.bytes = true
				return Value{r: &SliceV{obj: o, esz: 1}}
			}
			if s := v.r.(*StrV); s.opaque {
				in.inspect(v)
			}
			return in.mkByteSlice(in.strBytes(v))
		}
		s, ok := strConc(v)
		if !ok {
			in.unsupported("symbolic string to runes")
		}
		rs := []rune(s)
		o := in.newObj(len(rs), "conv")
		for i, r := range rs {
			o.cells[i] = Value{n: uint64(uint32(r))}
		}
		return Value{r: &SliceV{obj: o, esz: 1, len: ci1(len(rs)), cap: ci1(len(rs))}}
	}
	return v // pointers, unsafe
}
