package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Happens-before tracking (vector clocks) over the paths the interpreter executes. Accesses of the code under test to
// shared memory that are not ordered by synchronisation are races; the instructions involved become scheduling points
// and the exploration starts over, so that what they can lead to is explored as well.

type vclock []uint32

func (a *vclock) join(b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

func (a vclock) at(i int32) uint32 {
	if int(i) < len(a) {
		return a[i]
	}
	return 0
}

type racc struct {
	g   int32
	clk uint32
	src ssa.Instruction
}

// shadow holds the last write and the last reads per goroutine of each cell of an object.
type shadow struct {
	epoch int
	w     []racc
	r     [][]racc
}

func (in *Interp) tick(g *G) {
	if g.id >= 0 {
		for len(g.vc) <= g.id {
			g.vc = append(g.vc, 0)
		}
		g.vc[g.id]++
	}
}

func (in *Interp) acq(g *G, o *Obj, n uint64) {
	if v, ok := in.syncVC[lockKey{o, n}]; ok {
		g.vc.join(*v)
	}
}

func (in *Interp) rel(g *G, o *Obj, n uint64) {
	k := lockKey{o, n}
	v, ok := in.syncVC[k]
	if !ok {
		v = &vclock{}
		in.syncVC[k] = v
	}
	v.join(g.vc)
	in.tick(g)
}

func (in *Interp) acqrel(g *G, o *Obj, n uint64) {
	in.acq(g, o, n)
	in.rel(g, o, n)
}

func (in *Interp) shOf(sh **shadow, n int) *shadow {
	s := *sh
	if s == nil || s.epoch != in.epoch {
		s = &shadow{epoch: in.epoch}
		*sh = s
	}
	if len(s.w) < n {
		w := make([]racc, n)
		copy(w, s.w)
		s.w = w
		r := make([][]racc, n)
		copy(r, s.r)
		s.r = r
	}
	return s
}

// tracked tells whether accesses of the running frame are to be recorded.
func (in *Interp) tracked(f *frame) bool {
	return len(in.gs) > 1 && in.epoch > 0 && in.cur.id >= 0 && f.fi.repo && !f.fi.harness
}

func (in *Interp) accCell(s *shadow, i int, write bool, src ssa.Instruction, what string) {
	g := in.cur
	id := int32(g.id)
	clk := g.vc.at(id)
	w := &s.w[i]
	if w.clk != 0 && w.g != id && w.clk > g.vc.at(w.g) {
		in.raceFound(*w, true, src, write, what)
	}
	if write {
		for _, r := range s.r[i] {
			if r.g != id && r.clk > g.vc.at(r.g) {
				in.raceFound(r, false, src, write, what)
			}
		}
		s.r[i] = s.r[i][:0]
		*w = racc{id, clk, src}
		return
	}
	rs := s.r[i]
	for k := range rs {
		if rs[k].g == id {
			rs[k] = racc{id, clk, src}
			return
		}
	}
	s.r[i] = append(rs, racc{id, clk, src})
}

// access records an access to n cells from off on.
func (in *Interp) access(o *Obj, off, n int, write bool, src ssa.Instruction) {
	if o == nil {
		return
	}
	if o.blob != nil {
		off, n = 0, 1
	}
	s := in.shOf(&o.sh, max(len(o.cells), off+n))
	if n > 64 { // a sample of a long range
		for k := 0; k < 16; k++ {
			in.accCell(s, off+k, write, src, "memory")
			in.accCell(s, off+n-1-k, write, src, "memory")
		}
		for k := 16; k < n-16; k += max(1, n/32) {
			in.accCell(s, off+k, write, src, "memory")
		}
		return
	}
	for k := 0; k < n; k++ {
		in.accCell(s, off+k, write, src, "memory")
	}
}

func (in *Interp) accessPtr(p Value, n int, write bool, src ssa.Instruction) {
	if o, ok := p.r.(*Obj); ok {
		in.access(o, int(p.n), n, write, src)
	}
}

func (in *Interp) accessMap(m *MapObj, write bool, src ssa.Instruction) {
	in.accCell(in.shOf(&m.sh, 1), 0, write, src, "map")
}

// accessSlice records an access to the first n elements of s.
func (in *Interp) accessSlice(s *SliceV, n Value, write bool, src ssa.Instruction) {
	if s == nil || s.obj == nil || n.r != nil || s.off.r != nil || n.n == 0 {
		return
	}
	in.access(s.obj, s.base+int(s.off.n)*s.esz, int(n.n)*s.esz, write, src)
}

// accessBuiltin records what a builtin reads and writes.
func (in *Interp) accessBuiltin(f *frame, ci *cinstr) {
	ca := ci.x.(*callInfo)
	arg := func(i int) Value { return f.get(ci.args[i]) }
	slice := func(v Value) *SliceV {
		s, _ := v.r.(*SliceV)
		return s
	}
	switch ca.builtin {
	case "append":
		d, s := slice(arg(0)), slice(arg(1))
		if s == nil {
			return
		}
		in.accessSlice(s, s.len, false, ci.src)
		if d != nil && d.len.r == nil && d.cap.r == nil && s.len.r == nil && d.obj != nil {
			if int64(d.len.n+s.len.n) <= int64(d.cap.n) {
				t := *d
				t.off = in.add(d.off, d.len)
				in.accessSlice(&t, s.len, true, ci.src)
			} else {
				in.accessSlice(d, d.len, false, ci.src)
			}
		}
	case "copy":
		d, s := slice(arg(0)), slice(arg(1))
		if d == nil || d.len.r != nil || s == nil || s.len.r != nil {
			return
		}
		n := d.len
		if s.len.n < n.n {
			n = s.len
		}
		in.accessSlice(s, n, false, ci.src)
		in.accessSlice(d, n, true, ci.src)
	case "delete", "clear":
		if m, ok := arg(0).r.(*MapObj); ok {
			in.accessMap(m, true, ci.src)
		}
	case "len":
		if m, ok := arg(0).r.(*MapObj); ok {
			in.accessMap(m, false, ci.src)
		}
	}
}

func (in *Interp) srcPos(s ssa.Instruction) string {
	p := in.p.prog.Fset.Position(s.Pos())
	if !p.IsValid() { // the nearest earlier instruction that has a position
		for _, x := range s.Block().Instrs {
			if q := in.p.prog.Fset.Position(x.Pos()); q.IsValid() {
				p = q
			}
			if x == s && p.IsValid() {
				break
			}
		}
	}
	return fmt.Sprintf("%s(%s:%d)", shortName(s.Parent().String()), strings.TrimPrefix(p.Filename, in.p.repo+"/"), p.Line)
}

func (in *Interp) raceFound(a racc, aw bool, b ssa.Instruction, bw bool, what string) {
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	if in.w == nil || a.src == nil || b == nil {
		return
	}
	r := in.w.run
	if in.raceCheck {
		fa, fb := outer(a.src.Parent()), outer(b.Parent())
		if fb < fa {
			fa, fb = fb, fa
		}
		in.violate("race", "data race: "+fa+" and "+fb, fmt.Sprintf("%s at %s and %s at %s of the same %s (%s) are not ordered by synchronisation @ %s",
			kind(aw), in.srcPos(a.src), kind(bw), in.srcPos(b), what, accName(b), in.where()), in.model)
		panic(abort{abDone, "after violation"})
	}
	if !in.explore || in.racy[a.src] && in.racy[b] {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.newRacy == nil {
		r.newRacy = map[ssa.Instruction]bool{}
	}
	r.newRacy[a.src] = true
	r.newRacy[b] = true
	if !r.noRestart {
		r.restart, r.stop = true, true
		r.cond.Broadcast()
	}
}

func outer(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return shortName(f.String())
}

// accName describes what an instruction accesses.
func accName(s ssa.Instruction) string {
	var v ssa.Value
	switch x := s.(type) {
	case *ssa.UnOp:
		v = x.X
	case *ssa.Store:
		v = x.Addr
	case *ssa.Lookup:
		v = x.X
	case *ssa.MapUpdate:
		v = x.Map
	case *ssa.Range:
		v = x.X
	case *ssa.Call:
		if len(x.Call.Args) > 0 {
			v = x.Call.Args[0]
		}
	}
	for k := 0; v != nil && k < 4; k++ {
		switch y := v.(type) {
		case *ssa.FieldAddr:
			t := y.X.Type().Underlying().(*types.Pointer).Elem()
			return shortName(t.String()) + "." + t.Underlying().(*types.Struct).Field(y.Field).Name()
		case *ssa.UnOp:
			v = y.X
		case *ssa.IndexAddr:
			v = y.X
		case *ssa.Global:
			return shortName(y.String())
		case *ssa.FreeVar, *ssa.Alloc, *ssa.Parameter:
			return "variable " + y.Name()
		default:
			v = nil
		}
	}
	return s.String()
}

// visibleCall: library functions whose call is a scheduling point although their code is interpreted.
func visibleCall(name string) bool {
	if strings.HasPrefix(name, "context.With") && strings.Contains(name, "$") {
		return true // a cancel function
	}
	switch name {
	case "(*context.cancelCtx).Err", "(*sync.Once).Do", "(*sync.Cond).Wait", "(*sync.Map).Load", "(*sync.Map).Store", "(*sync.Map).Delete",
		"(*sync.Map).LoadOrStore", "(*sync.Map).LoadAndDelete", "(*sync.Map).Range", "(*sync.Map).Swap", "(*sync.Map).CompareAndSwap":
		return true
	}
	return false
}
