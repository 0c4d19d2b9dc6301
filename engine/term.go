package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Terms: hash-consed bit-vector / boolean expressions. Width 0 means Bool.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // k = hi<<8|lo
	OZExt
	OSExt
	OSelect // name = array variable, a = 64-bit index
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat"}

type Term struct {
	id      int
	op      Op
	w       int
	a, b, c *Term
	k       uint64
	name    string
	// model evaluation memo
	mgen int
	mval uint64
	// printed in solver generation
	sgen int
}

type tkey struct {
	op      Op
	w       int
	a, b, c int
	k       uint64
	name    string
}

type TermTab struct {
	tab         map[tkey]*Term
	next        int
	True, False *Term
	selects     map[string][]*Term // array name -> select terms created
	mgen        int
}

func NewTermTab() *TermTab {
	t := &TermTab{tab: map[tkey]*Term{}, selects: map[string][]*Term{}}
	t.True = t.mk(OConst, 0, nil, nil, nil, 1, "")
	t.False = t.mk(OConst, 0, nil, nil, nil, 0, "")
	return t
}

func tid(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}

func (tt *TermTab) mk(op Op, w int, a, b, c *Term, k uint64, name string) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(c), k, name}
	if t, ok := tt.tab[key]; ok {
		return t
	}
	tt.next++
	t := &Term{id: tt.next, op: op, w: w, a: a, b: b, c: c, k: k, name: name}
	tt.tab[key] = t
	if op == OSelect {
		tt.selects[name] = append(tt.selects[name], t)
	}
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (tt *TermTab) Const(w int, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return tt.True
		}
		return tt.False
	}
	return tt.mk(OConst, w, nil, nil, nil, v&mask(w), "")
}
func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}
func (tt *TermTab) Var(name string, w int) *Term { return tt.mk(OVar, w, nil, nil, nil, 0, name) }

func (t *Term) isConst() bool { return t.op == OConst }

func (tt *TermTab) Not(a *Term) *Term {
	if a.op == OConst {
		return tt.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return tt.mk(ONot, 0, a, nil, nil, 0, "")
}

func (tt *TermTab) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tt.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, 0, a, b, nil, 0, "")
}

func (tt *TermTab) Or(a, b *Term) *Term { return tt.Not(tt.And(tt.Not(a), tt.Not(b))) }

// range of a term as unsigned interval, cheap
func urange(t *Term) (lo, hi uint64) {
	switch t.op {
	case OConst:
		return t.k, t.k
	case OZExt:
		return urange(t.a)
	case OIte:
		l1, h1 := urange(t.b)
		l2, h2 := urange(t.c)
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1
	case OBAnd:
		_, h1 := urange(t.a)
		_, h2 := urange(t.b)
		if h2 < h1 {
			h1 = h2
		}
		return 0, h1
	case OLShr:
		if t.b.op == OConst {
			_, h := urange(t.a)
			if t.b.k >= uint64(t.w) {
				return 0, 0
			}
			return 0, h >> t.b.k
		}
	case OAdd:
		l1, h1 := urange(t.a)
		l2, h2 := urange(t.b)
		s, carry := bits.Add64(h1, h2, 0)
		if carry == 0 && s <= mask(t.w) {
			return l1 + l2, s
		}
	case OURem:
		if t.b.op == OConst && t.b.k > 0 {
			return 0, t.b.k - 1
		}
	case OConcat:
		if t.a.op == OConst && t.b.w < 64 {
			l, h := urange(t.b)
			return t.a.k<<uint(t.b.w) | l, t.a.k<<uint(t.b.w) | h
		}
	}
	return 0, mask(t.w)
}

func (tt *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return tt.Bool(a.k == b.k)
	}
	if b.op == OConst {
		a, b = b, a
	}
	if a.op == OConst {
		if a.w == 0 {
			if a.k != 0 {
				return b
			}
			return tt.Not(b)
		}
		lo, hi := urange(b)
		if a.k < lo || a.k > hi {
			return tt.False
		}
		switch b.op {
		case OZExt:
			return tt.Eq(tt.Const(b.a.w, a.k), b.a)
		case OIte:
			if b.b.op == OConst && b.c.op == OConst {
				e1, e2 := b.b.k == a.k, b.c.k == a.k
				switch {
				case e1 && e2:
					return tt.True
				case e1:
					return b.a
				case e2:
					return tt.Not(b.a)
				default:
					return tt.False
				}
			}
			if b.b.op == OConst || b.c.op == OConst {
				return tt.Ite(b.a, tt.Eq(a, b.b), tt.Eq(a, b.c))
			}
		case OAdd:
			if b.a.op == OConst {
				return tt.Eq(tt.Const(a.w, a.k-b.a.k), b.b)
			}
		case OConcat:
			lw := b.b.w
			return tt.And(tt.Eq(tt.Const(b.a.w, a.k>>uint(lw)), b.a), tt.Eq(tt.Const(lw, a.k), b.b))
		case OBNot:
			return tt.Eq(tt.Const(a.w, ^a.k), b.a)
		case OBXor:
			if b.a.op == OConst {
				return tt.Eq(tt.Const(a.w, a.k^b.a.k), b.b)
			}
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return tt.Eq(a.a, b.a)
	}
	if a.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, 0, a, b, nil, 0, "")
}

func (tt *TermTab) Ult(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.op == OConst && b.op == OConst {
		return tt.Bool(a.k < b.k)
	}
	l1, h1 := urange(a)
	l2, h2 := urange(b)
	if h1 < l2 {
		return tt.True
	}
	if l1 >= h2 {
		return tt.False
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return tt.Ult(a.a, b.a)
	}
	if a.op == OZExt && b.op == OConst {
		if b.k > mask(a.a.w) {
			return tt.True
		}
		return tt.Ult(a.a, tt.Const(a.a.w, b.k))
	}
	if b.op == OZExt && a.op == OConst {
		return tt.Ult(tt.Const(b.a.w, a.k), b.a)
	}
	return tt.mk(OUlt, 0, a, b, nil, 0, "")
}
func (tt *TermTab) Ule(a, b *Term) *Term { return tt.Not(tt.Ult(b, a)) }

func nonneg(t *Term) bool {
	if t.w == 0 {
		return false
	}
	_, h := urange(t)
	return h <= mask(t.w)>>1
}

func (tt *TermTab) Slt(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.op == OConst && b.op == OConst {
		return tt.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return tt.Ult(a, b)
	}
	return tt.mk(OSlt, 0, a, b, nil, 0, "")
}
func (tt *TermTab) Sle(a, b *Term) *Term { return tt.Not(tt.Slt(b, a)) }

func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tt.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.k != 0 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.op == OConst {
			if b.k != 0 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return tt.mk(OIte, a.w, c, a, b, 0, "")
}

func binConst(op Op, w int, x, y uint64) (uint64, bool) {
	switch op {
	case OAdd:
		return x + y, true
	case OSub:
		return x - y, true
	case OMul:
		return x * y, true
	case OUDiv:
		if y == 0 {
			return mask(w), true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return 0, false
		}
		if b == -1 {
			return uint64(-a), true
		}
		return uint64(a / b), true
	case OSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return 0, false
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a % b), true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		a := sext(x, w)
		if y >= 64 {
			y = 63
		}
		return uint64(a >> y), true
	}
	return 0, false
}

func commut(op Op) bool {
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		return true
	}
	return false
}

func (tt *TermTab) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %v width %d %d", opNames[op], a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		if v, ok := binConst(op, w, a.k, b.k); ok {
			return tt.Const(w, v)
		}
	}
	if commut(op) && (b.op == OConst || (a.op != OConst && a.id > b.id)) {
		a, b = b, a
	}
	switch op {
	case OSub:
		if a == b {
			return tt.Const(w, 0)
		}
		if b.op == OConst {
			return tt.Bin(OAdd, tt.Const(w, -b.k), a)
		}
		// (x + y) - y
		if a.op == OAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
			if a.a.op == OConst && b.op == OAdd && b.a.op == OConst {
				return tt.Bin(OAdd, tt.Const(w, a.a.k-b.a.k), tt.Bin(OSub, a.b, b.b))
			}
			if a.a.op == OConst {
				return tt.Bin(OAdd, a.a, tt.Bin(OSub, a.b, b))
			}
		}
		if b.op == OAdd && b.a.op == OConst {
			return tt.Bin(OAdd, tt.Const(w, -b.a.k), tt.Bin(OSub, a, b.b))
		}
		if b.op == OAdd {
			if b.a == a {
				return tt.Bin(OSub, tt.Const(w, 0), b.b)
			}
			if b.b == a {
				return tt.Bin(OSub, tt.Const(w, 0), b.a)
			}
		}
	case OAdd:
		if a.op == OConst {
			if a.k == 0 {
				return b
			}
			if b.op == OAdd && b.a.op == OConst {
				return tt.Bin(OAdd, tt.Const(w, a.k+b.a.k), b.b)
			}
		} else {
			// pull constants out
			if a.op == OAdd && a.a.op == OConst {
				return tt.Bin(OAdd, a.a, tt.Bin(OAdd, a.b, b))
			}
			if b.op == OAdd && b.a.op == OConst {
				return tt.Bin(OAdd, b.a, tt.Bin(OAdd, a, b.b))
			}
			// x + (y - x) = y
			if b.op == OSub && b.b == a {
				return b.a
			}
			if a.op == OSub && a.b == b {
				return a.a
			}
		}
	case OMul:
		if a.op == OConst {
			if a.k == 0 {
				return a
			}
			if a.k == 1 {
				return b
			}
		}
	case OBAnd:
		if a == b {
			return a
		}
		if a.op == OConst {
			if a.k == 0 {
				return a
			}
			if a.k == mask(w) {
				return b
			}
			// low mask of contiguous bits: and(x, 2^n-1) = zext(extract(n-1,0,x))
			if a.k&(a.k+1) == 0 {
				n := bits.Len64(a.k)
				_, h := urange(b)
				if h <= a.k {
					return b
				}
				return tt.ZExt(tt.Extract(n-1, 0, b), w)
			}
		}
	case OBOr:
		if a == b {
			return a
		}
		if a.op == OConst {
			if a.k == 0 {
				return b
			}
			if a.k == mask(w) {
				return a
			}
		}
		if r := tt.orConcat(a, b); r != nil {
			return r
		}
	case OBXor:
		if a == b {
			return tt.Const(w, 0)
		}
		if a.op == OConst && a.k == 0 {
			return b
		}
	case OShl:
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return tt.Const(w, 0)
			}
			n := int(b.k)
			// shl(x,n) = concat(extract(w-1-n,0,x), 0_n)
			return tt.Concat(tt.Extract(w-1-n, 0, a), tt.Const(n, 0))
		}
	case OLShr:
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return tt.Const(w, 0)
			}
			return tt.ZExt(tt.Extract(w-1, int(b.k), a), w)
		}
	case OAShr:
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if b.k < uint64(w) {
				return tt.SExt(tt.Extract(w-1, int(b.k), a), w)
			}
		}
	case OUDiv:
		if b.op == OConst {
			if b.k == 1 {
				return a
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return tt.Bin(OLShr, a, tt.Const(w, uint64(bits.TrailingZeros64(b.k))))
			}
		}
	case OURem:
		if b.op == OConst && b.k != 0 {
			if b.k == 1 {
				return tt.Const(w, 0)
			}
			if b.k&(b.k-1) == 0 {
				return tt.Bin(OBAnd, tt.Const(w, b.k-1), a)
			}
			_, h := urange(a)
			if h < b.k {
				return a
			}
		}
	case OSDiv:
		if nonneg(a) && nonneg(b) {
			return tt.Bin(OUDiv, a, b)
		}
	case OSRem:
		if nonneg(a) && nonneg(b) {
			return tt.Bin(OURem, a, b)
		}
	}
	return tt.mk(op, w, a, b, nil, 0, "")
}

// orConcat: or of terms with disjoint bits expressed as segments.
type seg struct {
	t  *Term // nil => zero
	lo int
	w  int
}

func (tt *TermTab) segs(t *Term, lo int, out []seg) ([]seg, bool) {
	switch t.op {
	case OConcat:
		out, ok := tt.segs(t.b, lo, out)
		if !ok {
			return nil, false
		}
		return tt.segs(t.a, lo+t.b.w, out)
	case OZExt:
		out, ok := tt.segs(t.a, lo, out)
		if !ok {
			return nil, false
		}
		return append(out, seg{nil, lo + t.a.w, t.w - t.a.w}), true
	case OConst:
		if t.k == 0 {
			return append(out, seg{nil, lo, t.w}), true
		}
		return append(out, seg{t, lo, t.w}), true
	default:
		return append(out, seg{t, lo, t.w}), true
	}
}

func (tt *TermTab) orConcat(a, b *Term) *Term {
	if !(a.op == OConcat || a.op == OZExt) || !(b.op == OConcat || b.op == OZExt) {
		return nil
	}
	sa, ok := tt.segs(a, 0, nil)
	if !ok || len(sa) > 40 {
		return nil
	}
	sb, ok := tt.segs(b, 0, nil)
	if !ok || len(sb) > 40 {
		return nil
	}
	// split at common boundaries
	cut := map[int]bool{}
	for _, s := range sa {
		cut[s.lo] = true
	}
	for _, s := range sb {
		cut[s.lo] = true
	}
	var res *Term
	ia, ib := 0, 0
	pos := 0
	for pos < a.w {
		for sa[ia].lo+sa[ia].w <= pos {
			ia++
		}
		for sb[ib].lo+sb[ib].w <= pos {
			ib++
		}
		end := sa[ia].lo + sa[ia].w
		if e := sb[ib].lo + sb[ib].w; e < end {
			end = e
		}
		var piece *Term
		x, y := sa[ia], sb[ib]
		switch {
		case x.t == nil && y.t == nil:
			piece = tt.Const(end-pos, 0)
		case x.t == nil:
			piece = tt.Extract(end-1-y.lo, pos-y.lo, y.t)
		case y.t == nil:
			piece = tt.Extract(end-1-x.lo, pos-x.lo, x.t)
		default:
			return nil
		}
		if res == nil {
			res = piece
		} else {
			res = tt.Concat(piece, res)
		}
		pos = end
	}
	return res
}

func (tt *TermTab) BNot(a *Term) *Term {
	if a.op == OConst {
		return tt.Const(a.w, ^a.k)
	}
	if a.op == OBNot {
		return a.a
	}
	return tt.mk(OBNot, a.w, a, nil, nil, 0, "")
}

func (tt *TermTab) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if w > 64 {
		panic("concat > 64")
	}
	if a.op == OConst && b.op == OConst {
		return tt.Const(w, a.k<<uint(b.w)|b.k)
	}
	if a.op == OConst && a.k == 0 {
		return tt.ZExt(b, w)
	}
	// merge adjacent extracts
	if a.op == OExtract && b.op == OExtract && a.a == b.a {
		ahi, alo := int(a.k>>8), int(a.k&255)
		bhi, blo := int(b.k>>8), int(b.k&255)
		if alo == bhi+1 {
			return tt.Extract(ahi, blo, a.a)
		}
	}
	// concat(extract, concat(extract, rest))
	if a.op == OExtract && b.op == OConcat && b.a.op == OExtract && b.a.a == a.a && int(a.k&255) == int(b.a.k>>8)+1 {
		return tt.Concat(tt.Extract(int(a.k>>8), int(b.a.k&255), a.a), b.b)
	}
	// concat(zext(x), y) -> zext(concat(x,y))
	if a.op == OZExt {
		return tt.ZExt(tt.Concat(a.a, b), w)
	}
	// right-assoc
	if a.op == OConcat {
		return tt.Concat(a.a, tt.Concat(a.b, b))
	}
	return tt.mk(OConcat, w, a, b, nil, 0, "")
}

func (tt *TermTab) Extract(hi, lo int, a *Term) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return tt.Const(w, a.k>>uint(lo))
	case OExtract:
		l := int(a.k & 255)
		return tt.Extract(hi+l, lo+l, a.a)
	case OZExt:
		if hi < a.a.w {
			return tt.Extract(hi, lo, a.a)
		}
		if lo >= a.a.w {
			return tt.Const(w, 0)
		}
		return tt.ZExt(tt.Extract(a.a.w-1, lo, a.a), w)
	case OSExt:
		if hi < a.a.w {
			return tt.Extract(hi, lo, a.a)
		}
	case OConcat:
		if hi < a.b.w {
			return tt.Extract(hi, lo, a.b)
		}
		if lo >= a.b.w {
			return tt.Extract(hi-a.b.w, lo-a.b.w, a.a)
		}
		return tt.Concat(tt.Extract(hi-a.b.w, 0, a.a), tt.Extract(a.b.w-1, lo, a.b))
	case OBAnd, OBOr, OBXor:
		return tt.Bin(a.op, tt.Extract(hi, lo, a.a), tt.Extract(hi, lo, a.b))
	case OBNot:
		return tt.BNot(tt.Extract(hi, lo, a.a))
	case OIte:
		if a.b.op == OConst || a.c.op == OConst {
			return tt.Ite(a.a, tt.Extract(hi, lo, a.b), tt.Extract(hi, lo, a.c))
		}
	case OAdd:
		if lo == 0 {
			return tt.Bin(OAdd, tt.Extract(hi, 0, a.a), tt.Extract(hi, 0, a.b))
		}
	case OSub:
		if lo == 0 {
			return tt.Bin(OSub, tt.Extract(hi, 0, a.a), tt.Extract(hi, 0, a.b))
		}
	}
	// high bits known zero
	_, h := urange(a)
	if lo < 64 && h>>uint(lo) == 0 {
		return tt.Const(w, 0)
	}
	return tt.mk(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo), "")
}

func (tt *TermTab) ZExt(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return tt.Extract(w-1, 0, a)
	}
	switch a.op {
	case OConst:
		return tt.Const(w, a.k)
	case OZExt:
		return tt.ZExt(a.a, w)
	case OIte:
		if a.b.op == OConst && a.c.op == OConst {
			return tt.Ite(a.a, tt.Const(w, a.b.k), tt.Const(w, a.c.k))
		}
	}
	return tt.mk(OZExt, w, a, nil, nil, 0, "")
}

func (tt *TermTab) SExt(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return tt.Extract(w-1, 0, a)
	}
	if a.op == OConst {
		return tt.Const(w, uint64(sext(a.k, a.w)))
	}
	if nonneg(a) {
		return tt.ZExt(a, w)
	}
	if a.op == OSExt {
		return tt.SExt(a.a, w)
	}
	return tt.mk(OSExt, w, a, nil, nil, 0, "")
}

func (tt *TermTab) Select(arr string, idx *Term) *Term {
	return tt.mk(OSelect, 8, idx, nil, nil, 0, arr)
}

// ---- model evaluation

type Model struct {
	Vars map[string]uint64            `json:"vars"`
	Arrs map[string]map[uint64]uint64 `json:"arrs"`
}

func (tt *TermTab) Eval(t *Term, m *Model) uint64 {
	tt.mgen++
	return tt.eval(t, m)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tt *TermTab) eval(t *Term, m *Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.mgen == tt.mgen {
		return t.mval
	}
	var v uint64
	switch t.op {
	case OVar:
		v = m.Vars[t.name] & mask1(t.w)
	case OSelect:
		v = m.Arrs[t.name][tt.eval(t.a, m)] & 255
	case ONot:
		v = 1 - tt.eval(t.a, m)
	case OAnd:
		v = tt.eval(t.a, m)
		if v != 0 {
			v = tt.eval(t.b, m)
		}
	case OOr:
		v = tt.eval(t.a, m) | tt.eval(t.b, m)
	case OEq:
		v = b2u(tt.eval(t.a, m) == tt.eval(t.b, m))
	case OUlt:
		v = b2u(tt.eval(t.a, m) < tt.eval(t.b, m))
	case OUle:
		v = b2u(tt.eval(t.a, m) <= tt.eval(t.b, m))
	case OSlt:
		v = b2u(sext(tt.eval(t.a, m), t.a.w) < sext(tt.eval(t.b, m), t.b.w))
	case OSle:
		v = b2u(sext(tt.eval(t.a, m), t.a.w) <= sext(tt.eval(t.b, m), t.b.w))
	case OIte:
		if tt.eval(t.a, m) != 0 {
			v = tt.eval(t.b, m)
		} else {
			v = tt.eval(t.c, m)
		}
	case OBNot:
		v = ^tt.eval(t.a, m) & mask(t.w)
	case OConcat:
		v = tt.eval(t.a, m)<<uint(t.b.w) | tt.eval(t.b, m)
	case OExtract:
		v = tt.eval(t.a, m) >> uint(t.k&255) & mask(t.w)
	case OZExt:
		v = tt.eval(t.a, m)
	case OSExt:
		v = uint64(sext(tt.eval(t.a, m), t.a.w)) & mask(t.w)
	default:
		x, y := tt.eval(t.a, m), tt.eval(t.b, m)
		r, ok := binConst(t.op, t.w, x, y)
		if !ok { // smt-lib semantics of division by zero
			if t.op == OSDiv {
				if sext(x, t.w) < 0 {
					r = 1
				} else {
					r = mask(t.w)
				}
			} else {
				r = x
			}
		}
		v = r & mask(t.w)
	}
	t.mgen = tt.mgen
	t.mval = v
	return v
}

func mask1(w int) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func smtName(n string) string { return "|" + strings.ReplaceAll(n, "|", "_") + "|" }

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return strconv.FormatBool(t.k != 0)
		}
		return fmt.Sprintf("%d:%d", t.k, t.w)
	case OVar:
		return t.name
	case OSelect:
		return t.name + "[" + t.a.String() + "]"
	case OExtract:
		return fmt.Sprintf("%s[%d:%d]", t.a, t.k>>8, t.k&255)
	case OZExt, OSExt:
		return fmt.Sprintf("ext%d(%s)", t.w, t.a)
	}
	s := "(" + opNames[t.op]
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}
