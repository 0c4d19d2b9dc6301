package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var natives = map[string]nativeFn{}
var rtNatives = map[string]nativeFn{}
var visible = map[string]bool{}
var substs = map[string]string{
	"errors.Is":                    "sErrorsIs",
	"errors.As":                    "sErrorsAs",
	"(*sync.Cond).Wait":            "sCondWait",
	"(*sync.Pool).Get":             "sPoolGet",
	"(*sync.Map).Load":             "sMapLoad",
	"(*sync.Map).Store":            "sMapStore",
	"(*sync.Map).LoadOrStore":      "sMapLoadOrStore",
	"(*sync.Map).LoadAndDelete":    "sMapLoadAndDelete",
	"(*sync.Map).Delete":           "sMapDelete",
	"(*sync.Map).Swap":             "sMapSwap",
	"(*sync.Map).CompareAndSwap":   "sMapCompareAndSwap",
	"(*sync.Map).CompareAndDelete": "sMapCompareAndDelete",
	"(*sync.Map).Clear":            "sMapClear",
	"(*sync.Map).Range":            "sMapRange",
	"sort.Slice":                   "sSortSlice",
	"sort.SliceStable":             "sSortSlice",
	"net.Listen":                   "sNetListen",
	"os.Remove":                    "sOsRemove",
	"(*net.Dialer).DialContext":    "sNetDialContext",
	"(*net.ListenConfig).Listen":   "sNetListenConfig",
	"net.Dial":                     "sNetDial",
	"net.DialTimeout":              "sNetDialTimeout",
	"net.ResolveTCPAddr":           "sNetResolveTCPAddr",
}

func done(v Value) (Value, int) { return v, actDone }

func vis(name string, f nativeFn) {
	natives[name] = f
	visible[name] = true
}

func nop(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
	if ca != nil && ca.resT != nil {
		return in.zero(ca.resT), actDone
	}
	return Value{}, actDone
}

// cellOf gives the object and offset behind a pointer.
func (in *Interp) cellOf(p Value) (*Obj, uint64) {
	if p.r == nil {
		in.nilDeref()
	}
	o, ok := p.r.(*Obj)
	if !ok {
		in.unsupported("synchronisation object behind %T", p.r)
	}
	return o, p.n
}

func (in *Interp) park(k lockKey, g *G) {
	in.waitq[k] = append(in.waitq[k], g)
}

func (in *Interp) wakeAll(k lockKey) {
	q := in.waitq[k]
	delete(in.waitq, k)
	for _, g := range q {
		in.ready(g)
	}
}

func (in *Interp) setCell(o *Obj, n uint64, v Value) {
	in.touch(o)
	o.cells[n] = v
}

func (in *Interp) fatalV(label, msg string) {
	in.violate("panic", label, msg+" @ "+in.where(), in.model)
	panic(abort{abDone, "after violation"})
}

func init() {
	// ---- sync
	lock := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		if o.cells[n].n == 0 {
			in.setCell(o, n, mkInt(1))
			in.acq(g, o, n)
			return done(Value{})
		}
		in.park(lockKey{o, n}, g)
		return Value{}, actBlock
	}
	unlock := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		if o.cells[n].n == 0 {
			in.fatalV("unlock-of-unlocked-mutex", "fatal error: sync: unlock of unlocked mutex")
		}
		in.setCell(o, n, Value{})
		in.rel(g, o, n)
		in.wakeAll(lockKey{o, n})
		return done(Value{})
	}
	trylock := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		if o.cells[n].n == 0 {
			in.setCell(o, n, mkInt(1))
			in.acq(g, o, n)
			return done(mkBool(true))
		}
		return done(mkBool(false))
	}
	vis("(*sync.Mutex).Lock", lock)
	vis("(*sync.Mutex).Unlock", unlock)
	vis("(*sync.Mutex).TryLock", trylock)
	vis("(*internal/sync.Mutex).Lock", lock)
	vis("(*internal/sync.Mutex).Unlock", unlock)
	// RWMutex: cell n = writer held, n+1 = readers, n+2 = waiting writers
	vis("(*sync.RWMutex).Lock", func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		if o.cells[n].n == 0 && o.cells[n+1].n == 0 {
			if g.token != nil {
				g.token = nil
				in.setCell(o, n+2, mkInt(o.cells[n+2].n-1))
			}
			in.acq(g, o, n)
			in.acq(g, o, n+1)
			in.setCell(o, n, mkInt(1))
			return done(Value{})
		}
		if g.token == nil {
			g.token = "w"
			in.setCell(o, n+2, mkInt(o.cells[n+2].n+1))
		}
		in.park(lockKey{o, n}, g)
		return Value{}, actBlock
	})
	vis("(*sync.RWMutex).Unlock", func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		if o.cells[n].n == 0 {
			in.fatalV("unlock-of-unlocked-rwmutex", "fatal error: sync: Unlock of unlocked RWMutex")
		}
		in.rel(g, o, n)
		in.setCell(o, n, Value{})
		in.wakeAll(lockKey{o, n})
		return done(Value{})
	})
	vis("(*sync.RWMutex).RLock", func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		if o.cells[n].n == 0 && (o.cells[n+2].n == 0 || g.token != nil) {
			g.token = nil
			in.acq(g, o, n)
			in.setCell(o, n+1, mkInt(o.cells[n+1].n+1))
			return done(Value{})
		}
		if o.cells[n].n != 0 {
			g.token = "r" // admitted once the current writer leaves
		}
		in.park(lockKey{o, n}, g)
		return Value{}, actBlock
	})
	vis("(*sync.RWMutex).RUnlock", func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		if o.cells[n+1].n == 0 {
			in.fatalV("runlock-of-unlocked-rwmutex", "fatal error: sync: RUnlock of unlocked RWMutex")
		}
		in.rel(g, o, n+1)
		in.setCell(o, n+1, mkInt(o.cells[n+1].n-1))
		if o.cells[n+1].n == 0 {
			in.wakeAll(lockKey{o, n})
		}
		return done(Value{})
	})
	vis("(*sync.WaitGroup).Add", func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		c := int64(o.cells[n].n) + int64(a[1].n)
		if c < 0 {
			in.goPanicStr("sync: negative WaitGroup counter")
		}
		in.setCell(o, n, mkInt(uint64(c)))
		in.rel(g, o, n)
		if c == 0 {
			in.wakeAll(lockKey{o, n})
		}
		return done(Value{})
	})
	vis("(*sync.WaitGroup).Done", func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return natives["(*sync.WaitGroup).Add"](in, g, []Value{a[0], mkInt(^uint64(0))}, ca)
	})
	vis("(*sync.WaitGroup).Wait", func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		if o.cells[n].n == 0 {
			in.acq(g, o, n)
			return done(Value{})
		}
		in.park(lockKey{o, n}, g)
		return Value{}, actBlock
	})
	natives["(*sync.Pool).Put"] = nop
	natives["(*sync.Cond).Signal"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		in.condWake(lockKey{o, n}, false)
		return done(Value{})
	}
	natives["(*sync.Cond).Broadcast"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		in.condWake(lockKey{o, n}, true)
		return done(Value{})
	}
	visible["(*sync.Cond).Signal"] = true
	visible["(*sync.Cond).Broadcast"] = true
	rtNatives["vCondAdd"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		k := lockKey{o, n}
		t := &condTicket{g: g}
		in.conds[k] = append(in.conds[k], t)
		g.ticket = t
		return done(Value{})
	}
	rtNatives["vCondPark"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		if g.ticket == nil || g.ticket.notified {
			g.ticket = nil
			return done(Value{})
		}
		g.ticket.g = g
		g.parked = true
		return Value{}, actBlock
	}

	// ---- sync/atomic
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		w := 64
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		addw := w
		load := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
			o, n := in.cellOf(a[0])
			in.acq(g, o, n)
			return done(o.cells[n])
		}
		store := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
			o, n := in.cellOf(a[0])
			in.acqrel(g, o, n)
			in.setCell(o, n, a[1])
			return done(Value{})
		}
		add := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
			o, n := in.cellOf(a[0])
			in.acqrel(g, o, n)
			var v Value
			if o.cells[n].r == nil && a[1].r == nil {
				v = mkInt((o.cells[n].n + a[1].n) & mask(addw))
			} else {
				v = fromTerm(in.tt.Bin(OAdd, in.term(o.cells[n], addw), in.term(a[1], addw)))
			}
			in.setCell(o, n, v)
			return done(v)
		}
		swap := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
			o, n := in.cellOf(a[0])
			in.acqrel(g, o, n)
			old := o.cells[n]
			in.setCell(o, n, a[1])
			return done(old)
		}
		cas := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
			o, n := in.cellOf(a[0])
			in.acqrel(g, o, n)
			if in.decide(fromTerm(in.tt.Eq(in.term(o.cells[n], addw), in.term(a[1], addw)))) {
				in.setCell(o, n, a[2])
				return done(mkBool(true))
			}
			return done(mkBool(false))
		}
		vis("sync/atomic.Load"+ty, load)
		vis("sync/atomic.Store"+ty, store)
		vis("sync/atomic.Add"+ty, add)
		vis("sync/atomic.Swap"+ty, swap)
		vis("sync/atomic.CompareAndSwap"+ty, cas)
		vis("(*sync/atomic."+ty+").Load", load)
		vis("(*sync/atomic."+ty+").Store", store)
		vis("(*sync/atomic."+ty+").Add", add)
		vis("(*sync/atomic."+ty+").Swap", swap)
		vis("(*sync/atomic."+ty+").CompareAndSwap", cas)
	}
	ld := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		in.acq(g, o, n)
		return done(o.cells[n])
	}
	st := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		in.acqrel(g, o, n)
		in.setCell(o, n, a[1])
		return done(Value{})
	}
	sw := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		in.acqrel(g, o, n)
		old := o.cells[n]
		in.setCell(o, n, a[1])
		return done(old)
	}
	pcas := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		in.acqrel(g, o, n)
		if in.eqPtr(o.cells[n], a[1]) {
			in.setCell(o, n, a[2])
			return done(mkBool(true))
		}
		return done(mkBool(false))
	}
	bcas := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		in.acqrel(g, o, n)
		if o.cells[n].n == a[1].n {
			in.setCell(o, n, a[2])
			return done(mkBool(true))
		}
		return done(mkBool(false))
	}
	vis("(*sync/atomic.Bool).Load", ld)
	vis("(*sync/atomic.Bool).Store", st)
	vis("(*sync/atomic.Bool).Swap", sw)
	vis("(*sync/atomic.Bool).CompareAndSwap", bcas)
	vis("sync/atomic.LoadPointer", ld)
	vis("sync/atomic.StorePointer", st)
	vis("sync/atomic.SwapPointer", sw)
	vis("sync/atomic.CompareAndSwapPointer", pcas)
	vis("(*sync/atomic.Pointer[T]).Load", ld)
	vis("(*sync/atomic.Pointer[T]).Store", st)
	vis("(*sync/atomic.Pointer[T]).Swap", sw)
	vis("(*sync/atomic.Pointer[T]).CompareAndSwap", pcas)
	vis("(*sync/atomic.Value).Load", ld)
	vis("(*sync/atomic.Value).Store", func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		if a[1].r == nil {
			in.goPanicStr("sync/atomic: store of nil value into Value")
		}
		return st(in, g, a, ca)
	})
	vis("(*sync/atomic.Value).Swap", sw)

	// ---- time
	natives["time.Now"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) { return done(in.timeNow()) }
	nano := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) { return done(in.now) }
	natives["(time.Time).Add"] = timeAdd
	natives["(time.Time).UnixNano"] = timeUnixNano
	natives["time.subMono"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) { return done(in.tSub(a[0], a[1])) }
	natives["time.runtimeIsBubbled"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) { return done(mkBool(true)) }
	natives["time.runtimeNano"] = nano
	natives["time.runtimeNow"] = nano
	natives["time.Sleep"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		if g.sleeping {
			g.sleeping = false
			return done(Value{})
		}
		if !in.tBefore(Value{}, a[0]) {
			return done(Value{})
		}
		g.sleeping = true
		in.addTimer(&vtimer{when: in.tAdd(in.now, a[0]), wake: g})
		return Value{}, actBlock
	}
	visible["time.Sleep"] = true
	mkTimer := func(in *Interp, typ types.Type, d Value, t *vtimer) Value {
		o := in.newObj(sizeOf(typ), "timer")
		if t.ch != nil {
			o.cells[0] = Value{r: t.ch}
		}
		o.cells[1] = mkBool(true)
		t.when = in.inFuture(d)
		o.vt = t
		in.addTimer(t)
		return Value{r: o}
	}
	timeT := func(in *Interp, name string) types.Type {
		return in.p.pkgs["time"].Pkg.Scope().Lookup(name).Type()
	}
	newCh := func(in *Interp) *Chan {
		in.nobj++
		return &Chan{id: in.nobj, cap: 1, epoch: in.epoch, et: timeT(in, "Time")}
	}
	natives["time.NewTimer"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(mkTimer(in, timeT(in, "Timer"), a[0], &vtimer{ch: newCh(in)}))
	}
	natives["time.After"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		c := newCh(in)
		mkTimer(in, timeT(in, "Timer"), a[0], &vtimer{ch: c})
		return done(Value{r: c})
	}
	natives["time.AfterFunc"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(mkTimer(in, timeT(in, "Timer"), a[0], &vtimer{fn: a[1]}))
	}
	ticker := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		d := a[0]
		if !in.tBefore(Value{}, d) {
			in.goPanicStr("non-positive interval for NewTicker")
		}
		return done(mkTimer(in, timeT(in, "Ticker"), d, &vtimer{ch: newCh(in), period: d}))
	}
	natives["time.NewTicker"] = ticker
	natives["time.Tick"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		v, _ := ticker(in, g, a, ca)
		return done(v.r.(*Obj).cells[0])
	}
	stop := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, _ := in.cellOf(a[0])
		t := o.vt
		if t == nil {
			in.goPanicStr("time: Stop called on uninitialized Timer")
		}
		act := t.active
		t.active = false
		in.dropTimer(t)
		if t.ch != nil && len(t.ch.buf) > 0 {
			in.touchChan(t.ch)
			t.ch.buf = nil
			act = true
		}
		return done(mkBool(act))
	}
	natives["(*time.Timer).Stop"] = stop
	natives["(*time.Ticker).Stop"] = stop
	natives["(*time.Timer).Reset"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		v, _ := stop(in, g, a, ca)
		o, _ := in.cellOf(a[0])
		o.vt.when = in.inFuture(a[1])
		in.addTimer(o.vt)
		return done(v)
	}
	natives["(*time.Ticker).Reset"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		stop(in, g, a, ca)
		o, _ := in.cellOf(a[0])
		o.vt.when, o.vt.period = in.tAdd(in.now, a[1]), a[1]
		in.addTimer(o.vt)
		return done(Value{})
	}

	// ---- fmt, log, os
	natives["fmt.Sprintf"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(in.sprintf(a[0], in.anyArgs(a[1])))
	}
	natives["fmt.Sprint"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(mkOpaque("<text>"))
	}
	natives["fmt.Sprintln"] = natives["fmt.Sprint"]
	natives["fmt.Errorf"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(in.errorf(a[0], in.anyArgs(a[1])))
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint",
		"(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).Print", "log.Printf", "log.Println", "log.Print", "(*log.Logger).Output",
		"log.SetFlags", "log.SetPrefix", "log.SetOutput", "(*log.Logger).SetOutput", "runtime.Gosched", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable", "internal/race.ReleaseMerge", "internal/race.Read", "internal/race.Write",
		"internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors", "os.Getenv", "internal/synctest.IsInBubble", "internal/synctest.Associate",
		"internal/godebug.New", "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Name", "internal/godebugs.Lookup"} {
		natives[n] = nop
	}
	natives["log.New"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(Value{r: in.newObj(sizeOf(deref(ca.resT)), "logger")})
	}
	natives["log.Default"] = natives["log.New"]
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "os.Exit",
		"log.Panic", "log.Panicf", "(*log.Logger).Panicf"} {
		name := n
		natives[n] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
			in.violate("panic", "abort:"+name, name+" @ "+in.where(), in.model)
			panic(abort{abDone, "after violation"})
		}
	}
	natives["os.IsTimeout"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		in.unsupported("os.IsTimeout")
		return Value{}, actDone
	}

	// ---- strings and bytes primitives
	byteArgs := func(in *Interp, v Value, t types.Type) []Value {
		if basicOf(t).kind == 3 {
			in.inspect(v)
			return in.strBytes(v)
		}
		return in.sliceBytes(v)
	}
	indexByte := func(in *Interp, b []Value, c Value, last bool) Value {
		if last {
			for i := len(b) - 1; i >= 0; i-- {
				if in.decide(fromTerm(in.tt.Eq(in.term(b[i], 8), in.term(c, 8)))) {
					return ciN(i)
				}
			}
		} else {
			for i := range b {
				if in.decide(fromTerm(in.tt.Eq(in.term(b[i], 8), in.term(c, 8)))) {
					return ciN(i)
				}
			}
		}
		return mkInt(^uint64(0))
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte"} {
		natives[n] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
			return done(indexByte(in, byteArgs(in, a[0], ca.argT[0]), a[1], false))
		}
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		natives[n] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
			return done(indexByte(in, byteArgs(in, a[0], ca.argT[0]), a[1], true))
		}
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		natives[n] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
			k := 0
			for _, x := range byteArgs(in, a[0], ca.argT[0]) {
				if in.decide(fromTerm(in.tt.Eq(in.term(x, 8), in.term(a[1], 8)))) {
					k++
				}
			}
			return done(ciN(k))
		}
	}
	eqBytes := func(in *Interp, x, y []Value) *Term {
		if len(x) != len(y) {
			return in.tt.False
		}
		r := in.tt.True
		for i := range x {
			r = in.tt.And(r, in.tt.Eq(in.term(x[i], 8), in.term(y[i], 8)))
		}
		return r
	}
	index := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		h, nd := byteArgs(in, a[0], ca.argT[0]), byteArgs(in, a[1], ca.argT[1])
		for i := 0; i+len(nd) <= len(h); i++ {
			if in.decide(fromTerm(eqBytes(in, h[i:i+len(nd)], nd))) {
				return done(ciN(i))
			}
		}
		return done(mkInt(^uint64(0)))
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		natives[n] = index
	}
	natives["internal/stringslite.IndexByte"] = natives["strings.IndexByte"]
	natives["internal/bytealg.Cutover"] = nop
	natives["internal/bytealg.MakeNoZero"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		n := int(in.concretize(a[0], 64))
		o := in.newObj(n, "make")
		o.bytes = true
		return done(Value{r: &SliceV{obj: o, esz: 1, len: ciN(n), cap: ciN(n)}})
	}
	natives["internal/bytealg.Equal"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(fromTerm(eqBytes(in, in.sliceBytes(a[0]), in.sliceBytes(a[1]))))
	}
	natives["bytes.Equal"] = natives["internal/bytealg.Equal"]
	natives["bytes.HasPrefix"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		x, y := byteArgs(in, a[0], ca.argT[0]), byteArgs(in, a[1], ca.argT[1])
		if len(x) < len(y) {
			return done(Value{})
		}
		return done(fromTerm(eqBytes(in, x[:len(y)], y)))
	}
	natives["strings.HasPrefix"] = natives["bytes.HasPrefix"]
	natives["bytes.HasSuffix"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		x, y := byteArgs(in, a[0], ca.argT[0]), byteArgs(in, a[1], ca.argT[1])
		if len(x) < len(y) {
			return done(Value{})
		}
		return done(fromTerm(eqBytes(in, x[len(x)-len(y):], y)))
	}
	natives["strings.HasSuffix"] = natives["bytes.HasSuffix"]
	cmp := func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		x, y := mkStrB(byteArgs(in, a[0], ca.argT[0])), mkStrB(byteArgs(in, a[1], ca.argT[1]))
		if in.decide(in.ltStr(x, y)) {
			return done(mkInt(^uint64(0)))
		}
		if in.decide(in.ltStr(y, x)) {
			return done(mkInt(1))
		}
		return done(Value{})
	}
	natives["internal/bytealg.Compare"] = cmp
	natives["internal/bytealg.CompareString"] = cmp
	natives["bytes.Compare"] = cmp
	natives["strings.Compare"] = cmp
	natives["cmp.Compare[string]"] = cmp
	natives["runtime.cmpstring"] = cmp
	natives["strings.ToLower"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(in.caseMap(a[0], 'A', 'Z', 32))
	}
	natives["strings.ToUpper"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(in.caseMap(a[0], 'a', 'z', ^uint64(31)&255))
	}
	natives["bytes.ToLower"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(in.mkByteSlice(in.strBytes(in.caseMap(mkStrB(in.sliceBytes(a[0])), 'A', 'Z', 32))))
	}
	natives["strings.EqualFold"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(in.eqStr(in.caseMap(a[0], 'A', 'Z', 32), in.caseMap(a[1], 'A', 'Z', 32)))
	}
	// golang.org/x/text title-casing
	natives["golang.org/x/text/cases.Title"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		z := in.zero(ca.resT)
		z.r.(Agg)[0] = mkBool(len(in.anyRaw(a[1])) > 0)
		return done(z)
	}
	natives["(golang.org/x/text/cases.Caser).String"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(in.titleCase(a[1], a[0].r.(Agg)[0].n != 0))
	}
	natives["(*golang.org/x/text/cases.Caser).String"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		o, n := in.cellOf(a[0])
		return done(in.titleCase(a[1], o.cells[n].n != 0))
	}
	natives["internal/abi.NoEscape"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) { return done(a[0]) }
	natives["strings.noescape"] = natives["internal/abi.NoEscape"]
	natives["(*strings.Builder).copyCheck"] = nop

	// ---- crypto/rand
	rnd := func(in *Interp, g *G, sl Value) (Value, int) {
		s := in.sl(sl)
		n := int(in.concretize(s.len, 64))
		in.randCtr++
		for i := 0; i < n; i++ {
			x := (in.randCtr*0x9E3779B97F4A7C15 + uint64(i)*0xBF58476D1CE4E5B9) ^ in.randCtr
			if i < 4 {
				x = in.randCtr >> (8 * uint(3-i)) // unique
			} else {
				x >>= 17
			}
			in.store(in.elemPtr(s, ciN(i), 8, true), mkInt(x&255), 1, true)
		}
		return done(Value{r: Tuple{ciN(n), Value{}}})
	}
	natives["crypto/rand.Read"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) { return rnd(in, g, a[0]) }
	natives["(crypto/internal/rand.reader).Read"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) { return rnd(in, g, a[1]) }
	natives["(*crypto/internal/rand.reader).Read"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) { return rnd(in, g, a[1]) }
	natives["(*crypto/rand.reader).Read"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) { return rnd(in, g, a[1]) }

	// ---- encoding/json (token model)
	natives["encoding/json.Marshal"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) { return done(in.jsonMarshal(a[0])) }
	natives["encoding/json.Unmarshal"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		return done(in.jsonUnmarshal(a[0], a[1]))
	}
	natives["encoding/json.Valid"] = func(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
		s, ok := strConc(mkStrB(in.sliceBytes(a[0])))
		if !ok {
			in.unsupported("json.Valid of symbolic bytes")
		}
		return done(mkBool(json.Valid([]byte(s))))
	}
}

func (in *Interp) condWake(k lockKey, all bool) {
	q := in.conds[k]
	for len(q) > 0 {
		t := q[0]
		q = q[1:]
		t.notified = true
		t.g.vc.join(in.cur.vc)
		if t.g.parked {
			t.g.parked = false
			in.ready(t.g)
		}
		if !all {
			break
		}
	}
	in.conds[k] = q
}

const timeBase = 63900000000 // seconds since year 1

// timeNow gives a time.Time with a monotonic reading; its wall clock stands still.
func (in *Interp) timeNow() Value {
	return Value{r: Agg{mkInt(timeMono | uint64(timeBase-timeMinWall)<<30), in.tAdd(in.now, mkInt(1)), Value{}}}
}

const (
	timeMono    = 1 << 63
	timeMinWall = 1884*365*86400 + (1884/4-1884/100+1884/400)*86400
)

func timeAdd(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
	t := append(Agg(nil), a[0].r.(Agg)...)
	d := a[1]
	if t[0].n&timeMono != 0 {
		t[1] = in.tAdd(t[1], d)
		return done(Value{r: t})
	}
	dn := int64(in.concretize(d, 64))
	sec, ns := int64(t[1].n)+dn/1e9, int64(t[0].n)+dn%1e9
	if ns >= 1e9 {
		sec, ns = sec+1, ns-1e9
	} else if ns < 0 {
		sec, ns = sec-1, ns+1e9
	}
	t[0], t[1] = mkInt(uint64(ns)), mkInt(uint64(sec))
	return done(Value{r: t})
}

func timeUnixNano(in *Interp, g *G, a []Value, ca *callInfo) (Value, int) {
	t := a[0].r.(Agg)
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	if t[0].n&timeMono != 0 {
		return done(in.tAdd(mkInt(uint64(timeBase-unixToInternal)*1e9-1), t[1]))
	}
	return done(mkInt((t[1].n-unixToInternal)*1e9 + t[0].n))
}

func (in *Interp) caseMap(s Value, lo, hi uint64, delta uint64) Value {
	in.inspect(s)
	if c, ok := strConc(s); ok {
		if lo == 'A' {
			return mkStrC(strings.ToLower(c))
		}
		return mkStrC(strings.ToUpper(c))
	}
	b := in.strBytes(s)
	in.needASCII(b)
	out := make([]Value, len(b))
	for i, x := range b {
		out[i] = in.caseByte(x, lo, hi, delta)
	}
	return mkStrB(out)
}

func (in *Interp) needASCII(b []Value) {
	ascii := in.tt.True
	for _, x := range b {
		ascii = in.tt.And(ascii, in.tt.Ult(in.term(x, 8), in.tt.Const(8, 128)))
	}
	if !in.decide(fromTerm(ascii)) {
		panic(abort{abAssume, "non-ASCII name"})
	}
}

func (in *Interp) caseByte(x Value, lo, hi, delta uint64) Value {
	t := in.term(x, 8)
	is := in.tt.And(in.tt.Ule(in.tt.Const(8, lo), t), in.tt.Ule(t, in.tt.Const(8, hi)))
	return fromTerm(in.tt.Ite(is, in.tt.Bin(OAdd, t, in.tt.Const(8, delta)), t))
}

func (in *Interp) titleCase(s Value, noLower bool) Value {
	in.inspect(s)
	b := in.strBytes(s)
	in.needASCII(b)
	out := make([]Value, len(b))
	tt := in.tt
	mid := tt.False // inside a word: a cased letter has been seen with no break since
	for i, x := range b {
		t := in.term(x, 8)
		rng := func(lo, hi uint64) *Term {
			return tt.And(tt.Ule(tt.Const(8, lo), t), tt.Ule(t, tt.Const(8, hi)))
		}
		up, low := rng('A', 'Z'), rng('a', 'z')
		letter := tt.Or(up, low)
		upper := tt.Ite(low, tt.Bin(OSub, t, tt.Const(8, 32)), t)
		lower := t
		if !noLower {
			lower = tt.Ite(up, tt.Bin(OAdd, t, tt.Const(8, 32)), t)
		}
		out[i] = fromTerm(tt.Ite(mid, lower, upper))
		// word characters keep the word going (letters, digits, underscore; a single ' . :), as in golang.org/x/text/cases
		word := tt.Or(tt.Or(letter, rng('0', '9')), tt.Eq(t, tt.Const(8, '_')))
		joiner := tt.Or(tt.Or(tt.Eq(t, tt.Const(8, '\'')), tt.Eq(t, tt.Const(8, '.'))), tt.Eq(t, tt.Const(8, ':')))
		if i > 0 {
			u := in.term(b[i-1], 8)
			joiner = tt.And(joiner, tt.Not(tt.Or(tt.Or(tt.Eq(u, tt.Const(8, '\'')), tt.Eq(u, tt.Const(8, '.'))), tt.Eq(u, tt.Const(8, ':')))))
		}
		mid = tt.Or(letter, tt.And(mid, tt.Or(word, joiner)))
	}
	return mkStrB(out)
}

// ---- formatting

func (in *Interp) anyRaw(v Value) []Value {
	if v.r == nil {
		return nil
	}
	s := v.r.(*SliceV)
	n := int(in.concretize(s.len, 64))
	out := make([]Value, n)
	for i := range out {
		out[i] = in.load(in.elemPtr(s, ciN(i), 8, false), 1, true)
	}
	return out
}

func (in *Interp) anyArgs(v Value) []*Iface {
	var out []*Iface
	for _, x := range in.anyRaw(v) {
		if x.r == nil {
			out = append(out, nil)
		} else {
			out = append(out, x.r.(*Iface))
		}
	}
	return out
}

// hostVal converts a formatted argument to a host value; ok=false when it is symbolic or structured.
func (in *Interp) hostVal(a *Iface) (any, bool) {
	if a == nil {
		return nil, true
	}
	if in.methodOf(a.t, "Error") != nil || in.methodOf(a.t, "String") != nil {
		return nil, false
	}
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		bi := basicOf(u)
		switch bi.kind {
		case 3:
			if a.v.r != nil && a.v.r.(*StrV).opaque {
				return nil, false
			}
			s, ok := strConc(a.v)
			return s, ok
		case 1:
			if a.v.r != nil {
				return nil, false
			}
			if bi.signed {
				return sext(a.v.n, bi.w), true
			}
			return a.v.n, true
		case 2:
			if a.v.r != nil {
				return nil, false
			}
			return a.v.n != 0, true
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			if a.v.r == nil {
				return []byte(nil), true
			}
			s := a.v.r.(*SliceV)
			if s.len.r != nil {
				return nil, false
			}
			b := make([]byte, s.len.n)
			for i := range b {
				x := in.sliceByte(s, i)
				if x.r != nil {
					return nil, false
				}
				b[i] = byte(x.n)
			}
			return b, true
		}
	}
	return nil, false
}

func (in *Interp) methodOf(t types.Type, name string) *ssa.Function {
	ms := in.p.methodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return in.p.prog.MethodValue(sel)
}

func (in *Interp) sprintf(f Value, args []*Iface) Value {
	fs, ok := strConc(f)
	if !ok {
		return mkOpaque("<text>")
	}
	// %s/%v of symbolic strings inside literal text is kept exactly
	var parts []Value
	lit := ""
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit += string(fs[i])
			continue
		}
		j := i + 1
		for j < len(fs) && strings.ContainsRune("+-# 0123456789.", rune(fs[j])) {
			j++
		}
		if j >= len(fs) {
			return mkOpaque(fs)
		}
		verb := fs[i : j+1]
		i = j
		if verb == "%%" {
			lit += "%"
			continue
		}
		if ai >= len(args) {
			return mkOpaque(fs)
		}
		a := args[ai]
		ai++
		hv, ok := in.hostVal(a)
		if ok {
			lit += fmt.Sprintf(verb, hv)
			continue
		}
		if a != nil && (verb == "%s" || verb == "%v") && basicOf(a.t).kind == 3 && in.methodOf(a.t, "String") == nil && in.methodOf(a.t, "Error") == nil {
			parts = append(parts, mkStrC(lit), a.v)
			lit = ""
			continue
		}
		return mkOpaque(fs)
	}
	out := Value{}
	for _, p := range parts {
		out = in.strConcat(out, p)
	}
	return in.strConcat(out, mkStrC(lit))
}

func (in *Interp) errorf(f Value, args []*Iface) Value {
	fs, _ := strConc(f)
	txt := in.sprintfErr(fs, args)
	var wrapped []Value
	ai := 0
	errT := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(fs) && strings.ContainsRune("+-# 0123456789.", rune(fs[j])) {
			j++
		}
		if j >= len(fs) {
			break
		}
		i = j
		if fs[j] == '%' {
			continue
		}
		if fs[j] == 'w' && ai < len(args) && args[ai] != nil && in.p.implements(args[ai].t, errT, errT) {
			wrapped = append(wrapped, Value{r: args[ai]})
		}
		ai++
	}
	mk := func(pkg, name string, cells ...Value) Value {
		t := in.p.pkgs[pkg].Pkg.Scope().Lookup(name).Type()
		o := in.newObj(len(cells), "error")
		copy(o.cells, cells)
		return Value{r: &Iface{t: in.p.canon(types.NewPointer(t)), v: Value{r: o}}}
	}
	switch len(wrapped) {
	case 0:
		return mk("errors", "errorString", txt)
	case 1:
		return mk("fmt", "wrapError", txt, wrapped[0])
	default:
		o := in.newObj(len(wrapped), "errs")
		copy(o.cells, wrapped)
		return mk("fmt", "wrapErrors", txt, Value{r: &SliceV{obj: o, esz: 1, len: ciN(len(wrapped)), cap: ciN(len(wrapped))}})
	}
}

func (in *Interp) sprintfErr(fs string, args []*Iface) Value {
	v := in.sprintf(mkStrC(strings.ReplaceAll(fs, "%w", "%v")), args)
	if v.r == nil {
		return mkOpaque(fs)
	}
	return v
}

// ---- json token model

type jsonEnt struct {
	t     types.Type
	cells []Value
}

func (in *Interp) jsonCopy(v Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return v
	case *types.Slice:
		if isByte(u.Elem()) {
			if v.r == nil {
				return v
			}
			return in.mkByteSlice(in.sliceBytes(v))
		}
	}
	in.unsupported("json of %s", t)
	return Value{}
}

func (in *Interp) errNew(msg string) Value {
	t := in.p.pkgs["errors"].Pkg.Scope().Lookup("errorString").Type()
	o := in.newObj(1, "error")
	o.cells[0] = mkStrC(msg)
	return Value{r: &Iface{t: in.p.canon(types.NewPointer(t)), v: Value{r: o}}}
}

func (in *Interp) jsonMarshal(v Value) Value {
	if v.r == nil {
		return Value{r: Tuple{in.mkByteSlice(in.strBytes(mkStrC("null"))), Value{}}}
	}
	i := v.r.(*Iface)
	t := i.t
	var cells []Value
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if i.v.r == nil {
			return Value{r: Tuple{in.mkByteSlice(in.strBytes(mkStrC("null"))), Value{}}}
		}
		t = pt.Elem()
		o, n := in.cellOf(i.v)
		cells = append(cells, o.cells[n:int(n)+sizeOf(t)]...)
	} else if a, ok := i.v.r.(Agg); ok {
		cells = append(cells, a...)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		in.unsupported("json.Marshal of %s", t)
	}
	for k := 0; k < st.NumFields(); k++ {
		off := fieldOff(t, k)
		ft := st.Field(k).Type()
		cells[off] = in.jsonCopy(cells[off], ft)
		if strings.HasSuffix(ft.String(), "json.RawMessage") && cells[off].r != nil {
			b := in.sliceBytes(cells[off])
			s, conc := strConc(mkStrB(b))
			if !conc {
				in.unsupported("json.RawMessage with symbolic content")
			}
			if len(b) > 0 && !json.Valid([]byte(s)) {
				return Value{r: Tuple{Value{}, in.errNew("json: invalid RawMessage")}}
			}
		}
	}
	in.jsonTab = append(in.jsonTab, jsonEnt{t, cells})
	tok := fmt.Sprintf(`{"zzverif-token":%d}`, len(in.jsonTab)-1)
	return Value{r: Tuple{in.mkByteSlice(in.strBytes(mkStrC(tok))), Value{}}}
}

func (in *Interp) jsonUnmarshal(data, dst Value) Value {
	b := in.sliceBytes(data)
	s, ok := strConc(mkStrB(b))
	if !ok {
		in.unsupported("json.Unmarshal of symbolic bytes")
	}
	if dst.r == nil {
		return in.errNew("json: Unmarshal(nil)")
	}
	di := dst.r.(*Iface)
	pt, ok := di.t.Underlying().(*types.Pointer)
	if !ok || di.v.r == nil {
		return in.errNew("json: Unmarshal(non-pointer)")
	}
	o, n := in.cellOf(di.v)
	dt := pt.Elem()
	st, ok := dt.Underlying().(*types.Struct)
	if !ok {
		in.unsupported("json.Unmarshal into %s", dt)
	}
	name := func(s *types.Struct, k int) string {
		tag := s.Tag(k)
		if i := strings.Index(tag, `json:"`); i >= 0 {
			t := tag[i+6:]
			t = t[:strings.IndexAny(t, `,"`)]
			if t != "" {
				return t
			}
		}
		return s.Field(k).Name()
	}
	if strings.HasPrefix(s, `{"zzverif-token":`) && strings.HasSuffix(s, "}") {
		id, err := strconv.Atoi(s[len(`{"zzverif-token":`) : len(s)-1])
		if err == nil && id < len(in.jsonTab) {
			e := in.jsonTab[id]
			es := e.t.Underlying().(*types.Struct)
			in.touch(o)
			for k := 0; k < es.NumFields(); k++ {
				for j := 0; j < st.NumFields(); j++ {
					if !strings.EqualFold(name(es, k), name(st, j)) {
						continue
					}
					src := e.cells[fieldOff(e.t, k)]
					ft := es.Field(k).Type()
					if _, isS := ft.Underlying().(*types.Slice); isS && strings.Contains(es.Tag(k), "omitempty") && len(in.sliceBytes(src)) == 0 {
						continue
					}
					o.cells[int(n)+fieldOff(dt, j)] = in.jsonCopy(src, ft)
				}
			}
			return Value{}
		}
	}
	var m map[string]json.RawMessage
	if err := json.Unmarshal([]byte(s), &m); err != nil {
		return in.errNew("json: " + err.Error())
	}
	in.touch(o)
	for k, raw := range m {
		for j := 0; j < st.NumFields(); j++ {
			if !strings.EqualFold(k, name(st, j)) {
				continue
			}
			c := &o.cells[int(n)+fieldOff(dt, j)]
			ft := st.Field(j).Type()
			bi := basicOf(ft)
			switch {
			case bi.kind == 3:
				var x *string
				if err := json.Unmarshal(raw, &x); err != nil {
					return in.errNew(err.Error())
				}
				if x != nil {
					*c = mkStrC(*x)
				}
			case bi.kind == 1:
				x, set, err := jsonInt(raw, ft.Underlying().(*types.Basic).Kind())
				if err != nil {
					return in.errNew(err.Error())
				}
				if set {
					*c = mkInt(x)
				}
			default:
				if strings.HasSuffix(ft.String(), "json.RawMessage") {
					*c = in.mkByteSlice(in.strBytes(mkStrC(string(raw))))
					break
				}
				if sl, ok := ft.Underlying().(*types.Slice); !ok || !isByte(sl.Elem()) {
					in.unsupported("json.Unmarshal into %s", ft)
				}
				var x *[]byte
				if err := json.Unmarshal(raw, &x); err != nil {
					return in.errNew(err.Error())
				}
				if x != nil {
					*c = in.mkByteSlice(in.strBytes(mkStrC(string(*x))))
				}
			}
		}
	}
	return Value{}
}

// jsonInt parses raw as a Go integer of the given kind; set is false for null.
func jsonInt(raw []byte, k types.BasicKind) (v uint64, set bool, err error) {
	as := func(dst any, get func() uint64) (uint64, bool, error) {
		if string(raw) == "null" {
			return 0, false, nil
		}
		if err := json.Unmarshal(raw, dst); err != nil {
			return 0, false, err
		}
		return get(), true, nil
	}
	switch k {
	case types.Uint8:
		var x uint8
		return as(&x, func() uint64 { return uint64(x) })
	case types.Uint16:
		var x uint16
		return as(&x, func() uint64 { return uint64(x) })
	case types.Uint32:
		var x uint32
		return as(&x, func() uint64 { return uint64(x) })
	case types.Uint, types.Uint64, types.Uintptr:
		var x uint64
		return as(&x, func() uint64 { return x })
	case types.Int8:
		var x int8
		return as(&x, func() uint64 { return uint64(uint8(x)) })
	case types.Int16:
		var x int16
		return as(&x, func() uint64 { return uint64(uint16(x)) })
	case types.Int32:
		var x int32
		return as(&x, func() uint64 { return uint64(uint32(x)) })
	default:
		var x int64
		return as(&x, func() uint64 { return uint64(x) })
	}
}

// presetGlobal gives a meaning to a few globals of packages that are not initialised.
func (in *Interp) presetGlobal(g *ssa.Global, o *Obj) bool {
	ptrErr := func(pkg, name string, n int) bool {
		p := in.p.pkgs[pkg]
		if p == nil {
			return false
		}
		ob := p.Pkg.Scope().Lookup(name)
		if ob == nil {
			return false
		}
		e := in.newObj(n, "error")
		e.epoch = 0
		o.cells[0] = Value{r: &Iface{t: in.p.canon(types.NewPointer(ob.Type())), v: Value{r: e}}}
		return true
	}
	switch g.String() {
	case "os.Stderr", "os.Stdout", "os.Stdin", "time.Local", "time.UTC":
		return true
	case "os.ErrDeadlineExceeded", "internal/poll.ErrDeadlineExceeded":
		if g.Pkg.Pkg.Path() == "os" {
			if pg, ok := in.p.pkgs["internal/poll"].Members["ErrDeadlineExceeded"].(*ssa.Global); ok {
				*o = Obj{cells: append([]Value(nil), in.global(pg).cells...), id: o.id, what: o.what}
				return true
			}
		}
		return ptrErr("internal/poll", "DeadlineExceededError", 0)
	case "net.ErrClosed":
		if ptrErr("internal/poll", "errNetClosing", 0) {
			i := o.cells[0].r.(*Iface)
			t := in.p.pkgs["internal/poll"].Pkg.Scope().Lookup("errNetClosing").Type()
			o.cells[0] = Value{r: &Iface{t: in.p.canon(t), v: in.zero(t)}}
			_ = i
			return true
		}
	case "crypto/rand.Reader":
		var p types.Object
		for _, pk := range []string{"crypto/rand", "crypto/internal/rand"} {
			if x := in.p.pkgs[pk]; x != nil && p == nil {
				p = x.Pkg.Scope().Lookup("reader")
			}
		}
		if p != nil {
			e := in.newObj(sizeOf(p.Type()), "rand.reader")
			e.epoch = 0
			o.cells[0] = Value{r: &Iface{t: in.p.canon(types.NewPointer(p.Type())), v: Value{r: e}}}
			return true
		}
	case "golang.org/x/text/language.Und", "golang.org/x/text/cases.NoLower":
		return true
	case "io/fs.ErrNotExist", "io/fs.ErrExist", "io/fs.ErrInvalid", "io/fs.ErrPermission", "io/fs.ErrClosed",
		"os.ErrNotExist", "os.ErrExist", "os.ErrInvalid", "os.ErrPermission", "os.ErrClosed", "net.errTimeout", "net.errCanceled":
		v := in.errNew(g.Name())
		v.r.(*Iface).v.r.(*Obj).epoch = 0
		o.cells[0] = v
		return true
	}
	if strings.HasSuffix(g.Name(), "init$guard") {
		return true
	}
	return false
}

var _ = hex.EncodeToString
