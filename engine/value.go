package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
)

// Value: one cell. Interpretation is by static type:
//
//	ints/bools: r==nil -> concrete n (zero-extended to 64 bit); r=*Term symbolic
//	floats: n = IEEE bits (always float64 bits), concrete only
//	string: r==nil "" | *StrV
//	pointer/unsafe.Pointer: r==nil nil | *Obj with cell offset n | *SymPtr
//	slice: nil | *SliceV ; map: nil | *MapObj ; chan: nil | *Chan
//	func: nil | *Closure ; interface: nil | *Iface
//	struct/array: Agg (flat cells) ; tuple: Tuple
type Value struct {
	n uint64
	r any
}

type Agg []Value
type Tuple []Value

type Obj struct {
	cells  []Value
	blob   *Blob
	epoch  int
	id     int
	what   string
	bytes  bool  // a plain byte array (may become a blob)
	alloc  Value // requested size
	vt     *vtimer
	noinit bool
	sh     *shadow
}

type Blob struct {
	arr  *Arr
	size Value // int64
}

// Arr: functional byte arrays indexed by 64-bit terms.
type Arr struct {
	kind  int // 0 zero, 1 var, 2 store, 3 copy, 4 cells
	name  string
	base  *Arr
	idx   Value
	val   Value
	src   *Arr
	soff  Value
	n     Value
	cells []Value
	coff  int
}

type SymPtr struct {
	obj    *Obj
	base   int
	lo, hi int // candidate element indices [lo,hi) (cells only)
	w      int
	idx    *Term
}

type StrV struct {
	s      string
	b      []Value // symbolic bytes when non-nil
	opaque bool    // formatted text whose content is not modelled
}

type SliceV struct {
	obj           *Obj
	base, esz     int
	off, len, cap Value
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *funcInfo
	env []Value
}

type MapEntry struct {
	k, v Value
	ek   string
	conc bool
	dead bool
}

type MapObj struct {
	ents  []*MapEntry
	idx   map[string]*MapEntry
	nsym  int
	live  int
	kt    types.Type
	epoch int
	id    int
	sh    *shadow
}

type Chan struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	epoch  int
	recvq  []*waiter
	sendq  []*waiter
	bufvc  []vclock // of the senders of the buffered values
	rvc    []vclock // of the last cap receivers
	nsend  int
	nrecv  int
	clvc   vclock // of the closer
	et     types.Type
}

func mkInt(n uint64) Value { return Value{n: n} }
func mkBool(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func mkStrC(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{r: &StrV{s: s}}
}

func mkOpaque(s string) Value { return Value{r: &StrV{s: s, opaque: true}} }

func mkStrB(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	for _, x := range b {
		if x.r != nil {
			return Value{r: &StrV{b: b}}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.n)
	}
	return Value{r: &StrV{s: string(bs)}}
}

func (in *Interp) strLen(v Value) int {
	if v.r == nil {
		return 0
	}
	s := v.r.(*StrV)
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (in *Interp) strByte(v Value, i int) Value {
	s := v.r.(*StrV)
	if s.b != nil {
		return s.b[i]
	}
	return Value{n: uint64(s.s[i])}
}

// inspect marks that program logic looks into a string's content.
func (in *Interp) inspect(v Value) {
	if v.r != nil {
		if s := v.r.(*StrV); s.opaque {
			in.unsupported("inspects formatted text %q", s.s)
		}
	}
}

func strConc(v Value) (string, bool) {
	if v.r == nil {
		return "", true
	}
	s := v.r.(*StrV)
	if s.b != nil {
		return "", false
	}
	return s.s, true
}

func (in *Interp) strBytes(v Value) []Value {
	if v.r == nil {
		return nil
	}
	s := v.r.(*StrV)
	if s.b != nil {
		return s.b
	}
	out := make([]Value, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = Value{n: uint64(s.s[i])}
	}
	return out
}

func (in *Interp) strSlice(v Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	s := v.r.(*StrV)
	if s.b != nil {
		return mkStrB(s.b[lo:hi:hi])
	}
	return Value{r: &StrV{s: s.s[lo:hi], opaque: s.opaque}}
}

func (in *Interp) strConcat(a, b Value) Value {
	if a.r == nil {
		return b
	}
	if b.r == nil {
		return a
	}
	x, y := a.r.(*StrV), b.r.(*StrV)
	if x.b == nil && y.b == nil {
		return Value{r: &StrV{s: x.s + y.s, opaque: x.opaque || y.opaque}}
	}
	if x.opaque || y.opaque {
		return mkOpaque("<text>")
	}
	xb, yb := in.strBytes(a), in.strBytes(b)
	out := make([]Value, 0, len(xb)+len(yb))
	out = append(out, xb...)
	out = append(out, yb...)
	return mkStrB(out)
}

// ---- terms from values

func (in *Interp) term(v Value, w int) *Term {
	if v.r == nil {
		return in.tt.Const(w, v.n)
	}
	t := v.r.(*Term)
	if t.w != w {
		panic(fmt.Sprintf("term width: have %d want %d", t.w, w))
	}
	return t
}

func fromTerm(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.k}
	}
	return Value{r: t}
}

func (in *Interp) t64(v Value) *Term { return in.term(v, 64) }

func isSym(v Value) bool { _, ok := v.r.(*Term); return ok }

// 64-bit integer helpers over Values
func (in *Interp) add(a, b Value) Value {
	if a.r == nil && b.r == nil {
		return Value{n: a.n + b.n}
	}
	return fromTerm(in.tt.Bin(OAdd, in.t64(a), in.t64(b)))
}
func (in *Interp) sub(a, b Value) Value {
	if a.r == nil && b.r == nil {
		return Value{n: a.n - b.n}
	}
	return fromTerm(in.tt.Bin(OSub, in.t64(a), in.t64(b)))
}
func (in *Interp) uleT(a, b Value) *Term { return in.tt.Ule(in.t64(a), in.t64(b)) }
func (in *Interp) ultT(a, b Value) *Term { return in.tt.Ult(in.t64(a), in.t64(b)) }

func ci(n int) Value { return Value{n: uint64(n)} }

// ---- types

type basicInfo struct {
	w      int // 0 bool
	signed bool
	kind   int // 1 int, 2 bool, 3 string, 4 float, 5 complex, 6 unsafe ptr, 7 other
}

func basicOf(t types.Type) basicInfo {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return basicInfo{kind: 7}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return basicInfo{0, false, 2}
	case types.Int, types.Int64, types.UntypedInt:
		return basicInfo{64, true, 1}
	case types.Int8:
		return basicInfo{8, true, 1}
	case types.Int16:
		return basicInfo{16, true, 1}
	case types.Int32, types.UntypedRune:
		return basicInfo{32, true, 1}
	case types.Uint, types.Uint64, types.Uintptr:
		return basicInfo{64, false, 1}
	case types.Uint8:
		return basicInfo{8, false, 1}
	case types.Uint16:
		return basicInfo{16, false, 1}
	case types.Uint32:
		return basicInfo{32, false, 1}
	case types.String, types.UntypedString:
		return basicInfo{0, false, 3}
	case types.Float32:
		return basicInfo{32, true, 4}
	case types.Float64, types.UntypedFloat:
		return basicInfo{64, true, 4}
	case types.UnsafePointer, types.UntypedNil:
		return basicInfo{64, false, 6}
	}
	return basicInfo{kind: 5}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func sizeOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += sizeOf(u.Field(i).Type())
		}
		return n
	case *types.Array:
		return int(u.Len()) * sizeOf(u.Elem())
	}
	return 1
}

func fieldOff(t types.Type, i int) int {
	u := t.Underlying().(*types.Struct)
	n := 0
	for k := 0; k < i; k++ {
		n += sizeOf(u.Field(k).Type())
	}
	return n
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func isScalarInt(t types.Type) bool {
	k := basicOf(t).kind
	return k == 1 || k == 2
}

// ---- equality

func (in *Interp) eqStr(a, b Value) Value {
	if a.r == nil || b.r == nil {
		return mkBool(a.r == b.r || (in.strLen(a) == 0 && in.strLen(b) == 0))
	}
	x, y := a.r.(*StrV), b.r.(*StrV)
	if x == y {
		return mkBool(true)
	}
	in.inspect(a)
	in.inspect(b)
	if x.b == nil && y.b == nil {
		return mkBool(x.s == y.s)
	}
	n := in.strLen(a)
	if n != in.strLen(b) {
		return mkBool(false)
	}
	r := in.tt.True
	for i := 0; i < n; i++ {
		r = in.tt.And(r, in.tt.Eq(in.term(in.strByte(a, i), 8), in.term(in.strByte(b, i), 8)))
		if r == in.tt.False {
			break
		}
	}
	return fromTerm(r)
}

// ltStr: lexicographic a<b
func (in *Interp) ltStr(a, b Value) Value {
	in.inspect(a)
	in.inspect(b)
	if x, ok := strConc(a); ok {
		if y, ok := strConc(b); ok {
			return mkBool(x < y)
		}
	}
	n, m := in.strLen(a), in.strLen(b)
	k := n
	if m < k {
		k = m
	}
	r := in.tt.Bool(n < m)
	for i := k - 1; i >= 0; i-- {
		x, y := in.term(in.strByte(a, i), 8), in.term(in.strByte(b, i), 8)
		r = in.tt.Ite(in.tt.Eq(x, y), r, in.tt.Ult(x, y))
	}
	return fromTerm(r)
}

func (in *Interp) andV(a, b Value) Value {
	if a.r == nil {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.r == nil {
		if b.n == 0 {
			return b
		}
		return a
	}
	return fromTerm(in.tt.And(a.r.(*Term), b.r.(*Term)))
}

func (in *Interp) eq(a, b Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		bi := basicOf(u)
		switch bi.kind {
		case 1, 2:
			if a.r == nil && b.r == nil {
				return mkBool(a.n == b.n)
			}
			return fromTerm(in.tt.Eq(in.term(a, bi.w), in.term(b, bi.w)))
		case 3:
			return in.eqStr(a, b)
		case 4:
			return mkBool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
		default:
			return mkBool(in.eqPtr(a, b))
		}
	case *types.Pointer, *types.Chan, *types.Map, *types.Slice, *types.Signature:
		return mkBool(in.eqPtr(a, b))
	case *types.Interface:
		x, _ := a.r.(*Iface)
		y, _ := b.r.(*Iface)
		if x == nil || y == nil {
			return mkBool(x == nil && y == nil)
		}
		if x.t != y.t {
			return mkBool(false)
		}
		if !types.Comparable(x.t) {
			in.goPanicStr("runtime error: comparing uncomparable type " + x.t.String())
		}
		return in.eq(x.v, y.v, x.t)
	case *types.Struct:
		r := mkBool(true)
		x, y := a.r.(Agg), b.r.(Agg)
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			sz := sizeOf(ft)
			if u.Field(i).Name() != "_" {
				r = in.andV(r, in.eq(cellVal(x[off:off+sz], ft), cellVal(y[off:off+sz], ft), ft))
			}
			off += sz
		}
		return r
	case *types.Array:
		r := mkBool(true)
		x, y := a.r.(Agg), b.r.(Agg)
		sz := sizeOf(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			r = in.andV(r, in.eq(cellVal(x[i*sz:i*sz+sz], u.Elem()), cellVal(y[i*sz:i*sz+sz], u.Elem()), u.Elem()))
		}
		return r
	}
	panic("eq: " + t.String())
}

func (in *Interp) eqPtr(a, b Value) bool {
	if a.r == nil || b.r == nil {
		return a.r == nil && b.r == nil
	}
	x, ok1 := a.r.(*Obj)
	y, ok2 := b.r.(*Obj)
	if ok1 && ok2 {
		return x == y && a.n == b.n
	}
	if ok1 != ok2 {
		return false
	}
	return a.r == b.r
}

// cellVal turns cells (of a value of type t) into a register value.
func cellVal(c []Value, t types.Type) Value {
	if isAgg(t) {
		o := make(Agg, len(c))
		copy(o, c)
		return Value{r: o}
	}
	return c[0]
}

func describe(in *Interp, v Value, t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		bi := basicOf(u)
		if tm, ok := v.r.(*Term); ok {
			if in.model != nil {
				return fmt.Sprintf("%d(sym)", in.tt.Eval(tm, in.model))
			}
			return "sym"
		}
		switch bi.kind {
		case 3:
			if s, ok := strConc(v); ok {
				return fmt.Sprintf("%q", s)
			}
			return "symstr"
		case 1:
			if bi.signed {
				return fmt.Sprint(sext(v.n, bi.w))
			}
			return fmt.Sprint(v.n)
		case 2:
			return fmt.Sprint(v.n != 0)
		}
	case *types.Interface:
		if v.r == nil {
			return "nil"
		}
		i := v.r.(*Iface)
		return i.t.String() + "(" + describe(in, i.v, i.t) + ")"
	case *types.Pointer:
		if v.r == nil {
			return "nil"
		}
		// error types: show string fields
		if o, ok := v.r.(*Obj); ok {
			if st, ok := u.Elem().Underlying().(*types.Struct); ok && st.NumFields() > 0 && len(o.cells) > int(v.n) {
				if b := basicOf(st.Field(0).Type()); b.kind == 3 {
					if s, ok := strConc(o.cells[v.n]); ok {
						return "&{" + s + "}"
					}
				}
			}
		}
		return "ptr"
	}
	return strings.TrimPrefix(t.String(), "github.com/luxfi/zmq/v4")
}

// ---- byte arrays

func (in *Interp) arrSelect(a *Arr, i Value) Value {
	switch a.kind {
	case 0:
		return Value{}
	case 1:
		return fromTerm(in.tt.Select(a.name, in.t64(i)))
	case 2:
		c := in.tt.Eq(in.t64(i), in.t64(a.idx))
		if c.op == OConst {
			if c.k != 0 {
				return a.val
			}
			return in.arrSelect(a.base, i)
		}
		return fromTerm(in.tt.Ite(c, in.term(a.val, 8), in.term(in.arrSelect(a.base, i), 8)))
	case 3:
		// i in [idx, idx+n)
		d := in.sub(i, a.idx)
		c := in.ultT(d, a.n)
		if c.op == OConst {
			if c.k != 0 {
				return in.arrSelect(a.src, in.add(d, a.soff))
			}
			return in.arrSelect(a.base, i)
		}
		return fromTerm(in.tt.Ite(c, in.term(in.arrSelect(a.src, in.add(d, a.soff)), 8), in.term(in.arrSelect(a.base, i), 8)))
	case 4:
		if i.r == nil {
			k := int64(i.n) + int64(a.coff)
			if k < 0 || k >= int64(len(a.cells)) {
				return Value{}
			}
			return a.cells[k]
		}
		t := in.tt.Const(8, 0)
		it := in.t64(i)
		for k := len(a.cells) - 1; k >= a.coff; k-- {
			t = in.tt.Ite(in.tt.Eq(it, in.tt.Const(64, uint64(k-a.coff))), in.term(a.cells[k], 8), t)
		}
		return fromTerm(t)
	}
	panic("arr")
}

func isInterface(t types.Type) bool         { return types.IsInterface(t) }
func ifaceOf(t types.Type) *types.Interface { return t.Underlying().(*types.Interface) }
func comparable1(t types.Type) bool         { return types.Comparable(t) }

func (in *Interp) boolT(v Value) *Term {
	if v.r == nil {
		return in.tt.Bool(v.n != 0)
	}
	return v.r.(*Term)
}
