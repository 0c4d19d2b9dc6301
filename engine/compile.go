package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type iop uint8

const (
	iNop iop = iota
	iAlloc
	iBin
	iNot
	iNeg
	iXor
	iLoad
	iRecv
	iCallFn      // static function
	iCallClo     // dynamic func value
	iCallInvoke  // interface method
	iCallBuiltin // builtin
	iGo
	iDefer
	iMove
	iConvert
	iExtract
	iField
	iFieldAddr
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iSliceToArray
	iStore
	iTypeAssert
)

type cinstr struct {
	op      iop
	dst     int32
	a, b, c int32
	n, m    int
	bi      basicInfo
	tok     token.Token
	t, t2   types.Type
	x       any
	args    []int32
	src     ssa.Instruction
	commaOk bool
	cell    bool // element/field is not an aggregate
}

type phiMove struct {
	dst int32
	src int32
}

type cblock struct {
	idx   int
	ins   []cinstr
	phis  map[int][]phiMove // pred block index -> moves
	succ0 *cblock
	succ1 *cblock
}

type funcInfo struct {
	fn      *ssa.Function
	name    string
	origin  string
	blocks  []*cblock
	nregs   int
	consts  []Value
	np      int
	repo    bool // code of the module under test (or its harness)
	harness bool
	native  nativeFn
	subst   *ssa.Function
	comp    bool
	nres    int
	resT    types.Type
	recov   *cblock
	used    bool
	nins    int
	vis     bool // a call from the code under test is a scheduling point
}

type callInfo struct {
	fi      *funcInfo
	fn      *ssa.Function
	builtin string
	method  *types.Func
	iface   types.Type
	cache   map[types.Type]*funcInfo
	argT    []types.Type
	resT    types.Type
	common  *ssa.CallCommon
}

func (in *Interp) fnInfo(fn *ssa.Function) *funcInfo {
	if fi, ok := in.fns[fn]; ok {
		return fi
	}
	fi := &funcInfo{fn: fn}
	in.fns[fn] = fi
	fi.name = fn.String()
	fi.origin = fi.name
	if o := fn.Origin(); o != nil {
		fi.origin = o.String()
	}
	pk := fnPkgPath(fn)
	fi.repo = isRepoPath(pk)
	fi.harness = pk == harnessPkg
	fi.vis = visibleCall(fi.origin)
	fi.np = len(fn.Params)
	fi.nres = fn.Signature.Results().Len()
	switch fi.nres {
	case 0:
	case 1:
		fi.resT = fn.Signature.Results().At(0).Type()
	default:
		fi.resT = fn.Signature.Results()
	}
	if fn.Synthetic == "package initializer" && fn.Pkg != nil {
		// Other packages are initialised when one of their globals is first used.
		pkg := fn.Pkg
		fi.native = func(in *Interp, g *G, args []Value, ca *callInfo) (Value, int) {
			if fi.repo {
				in.initPkg(pkg)
			}
			return Value{}, actDone
		}
	} else if s, ok := substs[fi.origin]; ok {
		m := in.p.harness.Func(s)
		if m == nil {
			fatal("substitution %s -> %s missing", fi.origin, s)
		}
		fi.subst = m
	} else if n, ok := natives[fi.origin]; ok {
		fi.native = n
	} else if fi.harness && fn.Signature.Recv() == nil && strings.HasPrefix(fn.Name(), "v") {
		if n, ok := rtNatives[fn.Name()]; ok {
			fi.native = n
		}
	}
	return fi
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		return ob.Pkg().Path()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

type compiler struct {
	in   *Interp
	fi   *funcInfo
	regs map[ssa.Value]int32
	cidx map[ssa.Value]int32
}

func (in *Interp) compile(fi *funcInfo) {
	if fi.comp {
		return
	}
	fi.comp = true
	fn := fi.fn
	if len(fn.Blocks) == 0 {
		in.unsupported("function without body: %s", fi.name)
	}
	c := &compiler{in: in, fi: fi, regs: map[ssa.Value]int32{}, cidx: map[ssa.Value]int32{}}
	n := int32(0)
	for _, p := range fn.Params {
		c.regs[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		c.regs[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.regs[v] = n
				n++
			}
		}
	}
	fi.nregs = int(n)
	fi.blocks = make([]*cblock, len(fn.Blocks))
	for i := range fn.Blocks {
		fi.blocks[i] = &cblock{idx: i}
	}
	for i, b := range fn.Blocks {
		cb := fi.blocks[i]
		if len(b.Succs) > 0 {
			cb.succ0 = fi.blocks[b.Succs[0].Index]
		}
		if len(b.Succs) > 1 {
			cb.succ1 = fi.blocks[b.Succs[1].Index]
		}
		for _, ins := range b.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok {
				if cb.phis == nil {
					cb.phis = map[int][]phiMove{}
				}
				for k, e := range phi.Edges {
					p := b.Preds[k].Index
					cb.phis[p] = append(cb.phis[p], phiMove{c.regs[phi], c.op(e)})
				}
				continue
			}
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			cb.ins = append(cb.ins, c.instr(ins))
		}
		fi.nins += len(cb.ins)
	}
	if fn.Recover != nil {
		fi.recov = fi.blocks[fn.Recover.Index]
	}
}

func (c *compiler) op(v ssa.Value) int32 {
	if v == nil {
		return -1 << 30
	}
	if r, ok := c.regs[v]; ok {
		return r
	}
	if k, ok := c.cidx[v]; ok {
		return k
	}
	val := c.constVal(v)
	k := ^int32(len(c.fi.consts))
	c.fi.consts = append(c.fi.consts, val)
	c.cidx[v] = k
	return k
}

func (c *compiler) constVal(v ssa.Value) Value {
	in := c.in
	switch x := v.(type) {
	case *ssa.Const:
		return in.constant(x)
	case *ssa.Function:
		return Value{r: &Closure{fn: in.fnInfo(x)}}
	case *ssa.Global:
		return Value{r: in.global(x)}
	case *ssa.Builtin:
		return Value{}
	}
	panic(fmt.Sprintf("constVal %T", v))
}

func (in *Interp) constant(x *ssa.Const) Value {
	if x.Value == nil {
		return in.zero(x.Type())
	}
	bi := basicOf(x.Type())
	switch bi.kind {
	case 1:
		if x.Value.Kind() == constant.Float {
			f, _ := constant.Float64Val(x.Value)
			return Value{n: uint64(int64(f)) & mask(bi.w)}
		}
		if bi.signed {
			i, ok := constant.Int64Val(constant.ToInt(x.Value))
			if !ok {
				u, _ := constant.Uint64Val(constant.ToInt(x.Value))
				i = int64(u)
			}
			return Value{n: uint64(i) & mask(bi.w)}
		}
		u, ok := constant.Uint64Val(constant.ToInt(x.Value))
		if !ok {
			i, _ := constant.Int64Val(constant.ToInt(x.Value))
			u = uint64(i)
		}
		return Value{n: u & mask(bi.w)}
	case 2:
		return mkBool(constant.BoolVal(x.Value))
	case 3:
		if x.Value.Kind() == constant.String {
			return mkStrC(constant.StringVal(x.Value))
		}
		i, _ := constant.Int64Val(x.Value)
		return mkStrC(string(rune(i)))
	case 4:
		f, _ := constant.Float64Val(x.Value)
		return Value{n: math.Float64bits(f)}
	case 6:
		u, _ := constant.Uint64Val(constant.ToInt(x.Value))
		return Value{n: u}
	}
	return Value{}
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return Value{r: make(Agg, sizeOf(t))}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = in.zero(u.At(i).Type())
		}
		return Value{r: tp}
	}
	return Value{}
}

func (c *compiler) ops(vs []ssa.Value) []int32 {
	o := make([]int32, len(vs))
	for i, v := range vs {
		o[i] = c.op(v)
	}
	return o
}

func deref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func (c *compiler) instr(ins ssa.Instruction) cinstr {
	in := c.in
	ci := cinstr{src: ins, dst: -1}
	if v, ok := ins.(ssa.Value); ok {
		ci.dst = c.regs[v]
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		ci.op = iAlloc
		ci.t = deref(x.Type())
		ci.n = sizeOf(ci.t)
	case *ssa.BinOp:
		ci.op = iBin
		ci.a, ci.b = c.op(x.X), c.op(x.Y)
		ci.tok = x.Op
		ci.t = x.X.Type()
		ci.bi = basicOf(x.X.Type())
		if x.Op == token.SHL || x.Op == token.SHR {
			b2 := basicOf(x.Y.Type())
			ci.n = b2.w
			if b2.signed {
				ci.m = 1
			}
		}
	case *ssa.UnOp:
		ci.a = c.op(x.X)
		switch x.Op {
		case token.MUL:
			ci.op = iLoad
			ci.t = x.Type()
			ci.n = sizeOf(x.Type())
			ci.cell = !isAgg(x.Type())
		case token.NOT:
			ci.op = iNot
		case token.SUB:
			ci.op = iNeg
			ci.bi = basicOf(x.Type())
		case token.XOR:
			ci.op = iXor
			ci.bi = basicOf(x.Type())
		case token.ARROW:
			ci.op = iRecv
			ci.commaOk = x.CommaOk
			ci.t = x.X.Type().Underlying().(*types.Chan).Elem()
		}
	case *ssa.Call:
		c.call(&ci, &x.Call)
	case *ssa.Go:
		c.call(&ci, &x.Call)
		ci.m = int(ci.op)
		ci.op = iGo
		ci.dst = -1
	case *ssa.Defer:
		c.call(&ci, &x.Call)
		ci.m = int(ci.op)
		ci.op = iDefer
		ci.dst = -1
	case *ssa.ChangeInterface:
		ci.op = iMove
		ci.a = c.op(x.X)
	case *ssa.ChangeType:
		ci.op = iMove
		ci.a = c.op(x.X)
	case *ssa.MultiConvert:
		ci.op = iConvert
		ci.a = c.op(x.X)
		ci.t, ci.t2 = x.X.Type(), x.Type()
	case *ssa.Convert:
		ci.op = iConvert
		ci.a = c.op(x.X)
		ci.t, ci.t2 = x.X.Type(), x.Type()
	case *ssa.Extract:
		ci.op = iExtract
		ci.a = c.op(x.Tuple)
		ci.n = x.Index
	case *ssa.Field:
		ci.op = iField
		ci.a = c.op(x.X)
		ci.n = fieldOff(x.X.Type(), x.Field)
		ci.m = sizeOf(x.Type())
		ci.cell = !isAgg(x.Type())
	case *ssa.FieldAddr:
		ci.op = iFieldAddr
		ci.a = c.op(x.X)
		ci.n = fieldOff(deref(x.X.Type()), x.Field)
	case *ssa.If:
		ci.op = iIf
		ci.a = c.op(x.Cond)
	case *ssa.Jump:
		ci.op = iJump
	case *ssa.Index:
		ci.op = iIndex
		ci.a, ci.b = c.op(x.X), c.op(x.Index)
		ci.t = x.X.Type()
		ci.m = sizeOf(x.Type())
		ci.cell = !isAgg(x.Type())
		ci.bi = basicOf(x.Index.Type())
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			ci.n = int(at.Len())
		}
		ci.t2 = x.Type()
	case *ssa.IndexAddr:
		ci.op = iIndexAddr
		ci.a, ci.b = c.op(x.X), c.op(x.Index)
		ci.t = x.X.Type()
		ci.m = sizeOf(deref(x.Type()))
		ci.bi = basicOf(x.Index.Type())
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			ci.n = int(pt.Elem().Underlying().(*types.Array).Len())
		} else {
			ci.n = -1
		}
		ci.cell = isScalarInt(deref(x.Type()))
	case *ssa.Lookup:
		ci.a, ci.b = c.op(x.X), c.op(x.Index)
		ci.commaOk = x.CommaOk
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			ci.op = iLookup
			ci.t = mt.Key()
			ci.t2 = mt.Elem()
		} else {
			ci.op = iIndex
			ci.t = x.X.Type()
			ci.t2 = x.Type()
			ci.bi = basicOf(x.Index.Type())
			ci.cell = true
			ci.m = 1
		}
	case *ssa.MakeChan:
		ci.op = iMakeChan
		ci.a = c.op(x.Size)
		ci.t = x.Type().Underlying().(*types.Chan).Elem()
	case *ssa.MakeClosure:
		ci.op = iMakeClosure
		ci.x = in.fnInfo(x.Fn.(*ssa.Function))
		ci.args = c.ops(x.Bindings)
	case *ssa.MakeInterface:
		ci.op = iMakeInterface
		ci.a = c.op(x.X)
		ci.t = in.p.canon(x.X.Type())
	case *ssa.MakeMap:
		ci.op = iMakeMap
		ci.t = x.Type().Underlying().(*types.Map).Key()
		ci.n = sizeOf(x.Type().Underlying().(*types.Map).Elem())
	case *ssa.MakeSlice:
		ci.op = iMakeSlice
		ci.a, ci.b = c.op(x.Len), c.op(x.Cap)
		ci.t = x.Type().Underlying().(*types.Slice).Elem()
		ci.n = sizeOf(ci.t)
		ci.bi = basicOf(x.Len.Type())
	case *ssa.MapUpdate:
		ci.op = iMapUpdate
		ci.a, ci.b, ci.c = c.op(x.Map), c.op(x.Key), c.op(x.Value)
		ci.t = x.Map.Type().Underlying().(*types.Map).Key()
	case *ssa.Next:
		ci.op = iNext
		ci.a = c.op(x.Iter)
		ci.t = x.Type()
		if x.IsString {
			ci.m = 1
		}
	case *ssa.Panic:
		ci.op = iPanic
		ci.a = c.op(x.X)
	case *ssa.Range:
		ci.op = iRange
		ci.a = c.op(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			ci.m = 1
		}
	case *ssa.Return:
		ci.op = iReturn
		ci.args = c.ops(x.Results)
	case *ssa.RunDefers:
		ci.op = iRunDefers
	case *ssa.Select:
		ci.op = iSelect
		sel := &selInfo{blocking: x.Blocking}
		for _, s := range x.States {
			sc := selCase{ch: c.op(s.Chan), send: s.Dir == types.SendOnly}
			if sc.send {
				sc.val = c.op(s.Send)
			} else {
				sc.et = s.Chan.Type().Underlying().(*types.Chan).Elem()
				sc.out = sel.nrecv
				sel.nrecv++
			}
			sel.cases = append(sel.cases, sc)
		}
		ci.x = sel
		ci.t = x.Type()
	case *ssa.Send:
		ci.op = iSend
		ci.a, ci.b = c.op(x.Chan), c.op(x.X)
	case *ssa.Slice:
		ci.op = iSlice
		ci.a = c.op(x.X)
		ci.args = []int32{c.op(x.Low), c.op(x.High), c.op(x.Max)}
		ci.t = x.X.Type()
	case *ssa.SliceToArrayPointer:
		ci.op = iSliceToArray
		ci.a = c.op(x.X)
		ci.n = int(deref(x.Type()).Underlying().(*types.Array).Len())
		ci.m = sizeOf(deref(x.Type()).Underlying().(*types.Array).Elem())
	case *ssa.Store:
		ci.op = iStore
		ci.a, ci.b = c.op(x.Addr), c.op(x.Val)
		ci.n = sizeOf(x.Val.Type())
		ci.cell = !isAgg(x.Val.Type())
	case *ssa.TypeAssert:
		ci.op = iTypeAssert
		ci.a = c.op(x.X)
		ci.commaOk = x.CommaOk
		ci.t = in.p.canon(x.AssertedType)
		ci.t2 = x.X.Type()
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			ci.x = it
		}
	default:
		panic(fmt.Sprintf("instr %T", ins))
	}
	return ci
}

type selCase struct {
	ch, val int32
	send    bool
	et      types.Type
	out     int
}

type selInfo struct {
	blocking bool
	cases    []selCase
	nrecv    int
}

func (c *compiler) call(ci *cinstr, cc *ssa.CallCommon) {
	in := c.in
	ca := &callInfo{common: cc}
	ci.x = ca
	for _, a := range cc.Args {
		ca.argT = append(ca.argT, a.Type())
	}
	sig := cc.Signature()
	if sig != nil {
		switch sig.Results().Len() {
		case 0:
		case 1:
			ca.resT = sig.Results().At(0).Type()
		default:
			ca.resT = sig.Results()
		}
	}
	if cc.IsInvoke() {
		ci.op = iCallInvoke
		ci.a = c.op(cc.Value)
		ci.args = c.ops(cc.Args)
		ca.method = cc.Method
		ca.iface = cc.Value.Type()
		ca.cache = map[types.Type]*funcInfo{}
		return
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		ci.op = iCallBuiltin
		ca.builtin = f.Name()
		ci.args = c.ops(cc.Args)
	case *ssa.Function:
		ci.op = iCallFn
		ca.fi = in.fnInfo(f)
		ci.args = c.ops(cc.Args)
	default:
		ci.op = iCallClo
		ci.a = c.op(cc.Value)
		ci.args = c.ops(cc.Args)
	}
}
