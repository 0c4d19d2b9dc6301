package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- decisions

const (
	dFree0 = iota
	dFree1
	dForced0
	dForced1
	dConc
	dChoice
)

type dec struct {
	K uint8  `json:"k"`
	V uint64 `json:"v,omitempty"`
}

type workItem struct {
	prefix []dec
	model  *Model
}

type InputVal struct {
	Name  string `json:"name"`
	Kind  string `json:"kind"`
	N     uint64 `json:"n"`
	Bytes []int  `json:"bytes,omitempty"`
}

type inputRec struct {
	name string
	kind string
	v    Value
	w    int
	arr  string
	ln   Value
}

type Obs struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

type obsRec struct {
	label string
	t     types.Type
	v     Value
}

type Violation struct {
	Harness string     `json:"harness"`
	Tier    string     `json:"tier"`
	Kind    string     `json:"kind"` // assert, panic, deadlock, divergence
	Label   string     `json:"label"`
	Msg     string     `json:"msg"`
	Inputs  []InputVal `json:"inputs"`
	Trail   []dec      `json:"trail"`
	Sched   []string   `json:"sched,omitempty"`
	Log     []string   `json:"log,omitempty"`
	Native  string     `json:"native,omitempty"`
	racy    map[ssa.Instruction]bool
	Conc    bool `json:"concurrent,omitempty"` // other goroutines were started: the outcome may depend on the schedule
}

type PathSample struct {
	Inputs []InputVal `json:"inputs"`
	Obs    []Obs      `json:"obs"`
	Sched  int        `json:"sched"`
}

type Interp struct {
	p         *Program
	tt        *TermTab
	sol       *Solver
	fns       map[*ssa.Function]*funcInfo
	globals   map[*ssa.Global]*Obj
	initSt    map[*ssa.Package]bool
	compiling int
	pendInit  []*ssa.Package
	epoch     int
	epochs    int
	undo      []func()
	rterr     types.Type
	tier      string
	seed      int

	// per path
	prefix    []dec
	pos       int
	trail     []dec
	pc        []*Term
	known     map[*Term]bool
	conc      map[*Term]uint64
	model     *Model
	owned     bool
	steps     int
	maxSteps  int
	nobj      int
	slab      []Value
	cur       *G
	runq      []*G
	gs        []*G
	stalled   []*G
	timers    []*vtimer
	now       Value
	tseq      int
	explore   bool
	delays    int
	mapNondet bool
	selNondet bool
	allocs    []Value
	waitq     map[lockKey][]*G
	conds     map[lockKey][]*condTicket
	inputs    []*inputRec
	incount   map[string]int
	obs       []obsRec
	reached   map[string]bool
	sched     []string
	logs      []string
	jsonTab   []jsonEnt
	randCtr   uint64
	nasserts  int
	forks     int
	incon     string
	symCtr    int
	deadLabel string
	syncVC    map[lockKey]*vclock
	raceCheck bool
	racy      map[ssa.Instruction]bool // accesses found to race; fixed during an exploration

	w       *Worker
	natives map[string]int
}

// Run is a shared exploration state for one harness.
type Run struct {
	p       *Program
	harness string
	fn      *ssa.Function
	tier    string
	seed    int

	mu       sync.Mutex
	cond     *sync.Cond
	workers  []*Worker
	busy     int
	stop     bool
	deadline time.Time

	paths, done, assumeCut, unsup, limited int
	steps, asserts, assertQ                int
	decisions                              int
	schedPaths                             int
	viol                                   map[string]*Violation
	violN                                  map[string]int
	reached                                map[string]int
	unsupMsgs                              map[string]int
	samples                                []PathSample
	left                                   int
	timeUp                                 bool
	inconQ                                 int
	maxViol                                int
	racy, newRacy                          map[ssa.Instruction]bool
	restart, noRestart                     bool
	known                                  map[string]bool // labels of recorded findings
}

type Worker struct {
	id    int
	in    *Interp
	stack []workItem
	run   *Run
}

func newInterp(p *Program, solverBin string, qtimeout int, tier string, seed int) *Interp {
	in := &Interp{p: p, tt: NewTermTab(), fns: map[*ssa.Function]*funcInfo{}, globals: map[*ssa.Global]*Obj{}, initSt: map[*ssa.Package]bool{}, maxSteps: 3000000, tier: tier, seed: seed}
	in.sol = NewSolver(in.tt, solverBin, qtimeout)
	in.resetPath()
	in.epoch = 0
	// initialise the packages under test eagerly
	var paths []string
	for path := range p.pkgs {
		if isRepoPath(path) {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	for _, path := range paths {
		in.initPkg(p.pkgs[path])
	}
	return in
}

func (in *Interp) resetPath() {
	in.prefix, in.pos, in.trail, in.pc = nil, 0, nil, nil
	in.known = map[*Term]bool{}
	in.conc = map[*Term]uint64{}
	in.model = &Model{Vars: map[string]uint64{}, Arrs: map[string]map[uint64]uint64{}}
	in.owned = true
	in.steps = 0
	in.slab = nil
	in.cur, in.runq, in.gs, in.stalled, in.timers = nil, nil, nil, nil, nil
	in.now, in.tseq = Value{}, 0
	in.explore, in.delays, in.mapNondet, in.selNondet = false, 0, false, false
	in.allocs = nil
	in.waitq = map[lockKey][]*G{}
	in.conds = map[lockKey][]*condTicket{}
	in.inputs, in.incount = nil, map[string]int{}
	in.obs = nil
	in.reached = map[string]bool{}
	in.sched, in.logs = nil, nil
	in.jsonTab = nil
	in.randCtr = 0
	in.nasserts = 0
	in.forks = 0
	in.incon = ""
	in.symCtr = 0
	in.deadLabel = ""
	in.syncVC = map[lockKey]*vclock{}
	in.raceCheck = false
}

// ---- package initialisation

var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/poll": true, "log": true,
	"unicode": true, "encoding/json": true, "internal/godebug": true, "net": true, "testing": true, "internal/reflectlite": true, "crypto/rand": true, "math/rand": true, "math/rand/v2": true,
	"io/fs": true, "internal/testlog": true, "os/exec": true, "internal/syscall/unix": true, "internal/oserror": false, "internal/bisect": true, "internal/cpu": true, "internal/bytealg": true}

func isNoInit(path string) bool {
	if v, ok := noInit[path]; ok {
		return v
	}
	return strings.HasPrefix(path, "golang.org/x/text") || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime/") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "golang.org/x/net") || strings.HasPrefix(path, "internal/syscall/")
}

func (in *Interp) global(g *ssa.Global) *Obj {
	if o, ok := in.globals[g]; ok {
		return o
	}
	n := sizeOf(deref(g.Type()))
	in.nobj++
	o := &Obj{cells: make([]Value, n), id: in.nobj, what: g.String()}
	if at, ok := deref(g.Type()).Underlying().(*types.Array); ok && isByte(at.Elem()) {
		o.bytes = true
	}
	in.globals[g] = o
	if g.Pkg != nil {
		if isNoInit(g.Pkg.Pkg.Path()) {
			if !in.presetGlobal(g, o) {
				o.noinit = true
			}
		} else if in.compiling > 0 {
			if !in.initSt[g.Pkg] {
				in.pendInit = append(in.pendInit, g.Pkg)
			}
		} else {
			in.initPkg(g.Pkg)
		}
	}
	return o
}

// initPkg runs a package's initialiser outside of any path.
func (in *Interp) initPkg(p *ssa.Package) {
	if in.initSt[p] || isNoInit(p.Pkg.Path()) {
		return
	}
	in.initSt[p] = true
	fn := p.Func("init")
	if fn == nil {
		return
	}
	scomp := in.compiling
	in.compiling = 0
	defer func() { in.compiling = scomp }()
	sv := struct {
		epoch, steps, maxSteps int
		cur                    *G
		runq, gs, stalled      []*G
		explore                bool
		slab                   []Value
		timers                 []*vtimer
	}{in.epoch, in.steps, in.maxSteps, in.cur, in.runq, in.gs, in.stalled, in.explore, in.slab, in.timers}
	in.epoch = 0
	in.explore = false
	in.runq, in.gs, in.stalled, in.cur = nil, nil, nil, nil
	in.slab = nil
	in.steps = 0
	in.maxSteps = 50000000
	g := in.newG("init " + p.Pkg.Path())
	fi := in.fnInfo(fn)
	nn := fi.native
	fi.native = nil
	in.pushFrame(g, fi, nil, nil, -1, false)
	in.cur = g
	r := in.runG(g)
	fi.native = nn
	if r == rBlocked {
		in.unsupported("package initialiser of %s blocks", p.Pkg.Path())
	}
	in.epoch, in.steps, in.maxSteps, in.cur, in.runq, in.gs, in.stalled, in.explore, in.slab, in.timers = sv.epoch, sv.steps, sv.maxSteps, sv.cur, sv.runq, sv.gs, sv.stalled, sv.explore, sv.slab, sv.timers
}

// callSync runs a function to completion on a temporary goroutine.
func (in *Interp) callSync(fi *funcInfo, args []Value, env []Value) Value {
	if fi.subst != nil {
		fi = in.fnInfo(fi.subst)
	}
	sc, sx := in.cur, in.explore
	in.explore = false
	g := &G{id: -1, name: "sync"}
	w := &funcInfo{name: "callSync", comp: true, nregs: 1, repo: true, harness: true}
	w.blocks = []*cblock{{ins: []cinstr{{op: iReturn, dst: -1, args: []int32{0}}}}}
	in.pushFrame(g, w, nil, nil, -1, false)
	top := g.frames[0]
	in.pushFrame(g, fi, args, env, 0, false)
	in.cur = g
	if in.runG(g) == rBlocked {
		in.unsupported("synchronous call of %s blocks", fi.name)
	}
	in.cur, in.explore = sc, sx
	return top.regs[0]
}

// ---- decisions

func (in *Interp) push(d dec) { in.trail = append(in.trail, d) }

func (in *Interp) replaying() bool { return in.pos < len(in.prefix) }

func (in *Interp) nextDec() dec {
	d := in.prefix[in.pos]
	in.pos++
	in.push(d)
	return d
}

func (in *Interp) learn(t *Term, v bool) {
	for t.op == ONot {
		t, v = t.a, !v
	}
	in.known[t] = v
	if v && t.op == OAnd {
		in.learn(t.a, true)
		in.learn(t.b, true)
	}
}

func (in *Interp) isKnown(t *Term) (bool, bool) {
	neg := false
	for t.op == ONot {
		t, neg = t.a, !neg
	}
	v, ok := in.known[t]
	if !ok && t.op == OAnd {
		a, ok1 := in.isKnown(t.a)
		if ok1 && !a {
			return neg, true
		}
		b, ok2 := in.isKnown(t.b)
		if ok2 && !b {
			return neg, true
		}
		if ok1 && ok2 {
			return !neg, true
		}
		return false, false
	}
	return v != neg, ok
}

func (in *Interp) assume(t *Term, v bool) {
	c := t
	if !v {
		c = in.tt.Not(t)
	}
	if c == in.tt.True {
		return
	}
	in.pc = append(in.pc, c)
	in.learn(t, v)
}

// decide resolves a boolean, forking the path when both sides are feasible.
func (in *Interp) decide(v Value) bool {
	if v.r == nil {
		return v.n != 0
	}
	t := v.r.(*Term)
	if k, ok := in.isKnown(t); ok {
		return k
	}
	if in.epoch == 0 {
		in.unsupported("symbolic decision during initialisation")
	}
	if in.replaying() {
		d := in.nextDec()
		switch d.K {
		case dFree0, dFree1:
			b := d.K == dFree1
			in.assume(t, b)
			return b
		case dForced0, dForced1:
			b := d.K == dForced1
			in.learn(t, b)
			return b
		}
		panic(fmt.Sprintf("replay mismatch: decision kind %d at %s", d.K, in.where()))
	}
	m := in.tt.Eval(t, in.model) != 0
	other := t
	if m {
		other = in.tt.Not(t)
	}
	res, om := in.sol.Check(in.pc, other, true)
	switch res {
	case "sat":
		in.forks++
		k := dFree0
		if !m {
			k = dFree1
		}
		in.fork(dec{K: uint8(k)}, om)
		in.assume(t, m)
		if m {
			in.push(dec{K: dFree1})
		} else {
			in.push(dec{K: dFree0})
		}
	case "unsat":
		in.learn(t, m)
		if m {
			in.push(dec{K: dForced1})
		} else {
			in.push(dec{K: dForced0})
		}
	default:
		in.incon = "solver gave no answer for a branch at " + in.where()
		in.assume(t, m)
		if m {
			in.push(dec{K: dFree1})
		} else {
			in.push(dec{K: dFree0})
		}
	}
	return m
}

func (in *Interp) fork(d dec, m *Model) {
	if in.w == nil {
		return
	}
	p := make([]dec, len(in.trail)+1)
	copy(p, in.trail)
	p[len(in.trail)] = d
	in.w.pushWork(workItem{p, m})
}

// concretize fixes v to one feasible value on this path (the others are explored on forks).
func (in *Interp) concretize(v Value, w int) uint64 {
	if v.r == nil {
		return v.n
	}
	t := in.term(v, w)
	if k, ok := in.conc[t]; ok {
		return k
	}
	for i := 0; ; i++ {
		if i > 600 {
			panic(abort{abLimit, "too many values for one quantity @ " + in.where()})
		}
		var x uint64
		if in.replaying() {
			d := in.nextDec()
			if d.K != dConc {
				panic("replay mismatch: concretize at " + in.where())
			}
			x = d.V
		} else {
			x = in.tt.Eval(t, in.model)
			in.push(dec{K: dConc, V: x})
		}
		if in.decide(fromTerm(in.tt.Eq(t, in.tt.Const(w, x)))) {
			in.conc[t] = x
			return x
		}
	}
}

// choose picks one of n alternatives; all are explored. The choice is a fresh symbolic variable.
func (in *Interp) choose(n int, name string) int {
	if n <= 1 {
		return 0
	}
	in.symCtr++
	v := in.tt.Var(fmt.Sprintf("choice%d_%s", in.symCtr, name), 16)
	var x uint64
	if in.replaying() {
		d := in.nextDec()
		if d.K != dChoice {
			panic("replay mismatch: choice at " + in.where())
		}
		x = d.V
	} else {
		for k := n - 1; k >= 1; k-- {
			in.fork(dec{K: dChoice, V: uint64(k)}, in.model)
		}
		in.push(dec{K: dChoice, V: 0})
	}
	in.assume(in.tt.Eq(v, in.tt.Const(16, x)), true)
	in.owned = false
	in.setModel(v.name, x)
	return int(x)
}

// setModel extends the current model with a value for a fresh variable.
func (in *Interp) setModel(name string, x uint64) {
	if !in.owned {
		nm := *in.model
		nm.Vars = make(map[string]uint64, len(in.model.Vars)+8)
		for k, y := range in.model.Vars {
			nm.Vars[k] = y
		}
		in.model = &nm
		in.owned = true
	}
	in.model.Vars[name] = x
}

// assumeV restricts the path to v.
func (in *Interp) assumeV(v Value) {
	if v.r == nil {
		if v.n == 0 {
			panic(abort{abAssume, ""})
		}
		return
	}
	t := v.r.(*Term)
	if k, ok := in.isKnown(t); ok {
		if !k {
			panic(abort{abAssume, ""})
		}
		return
	}
	if in.replaying() || in.tt.Eval(t, in.model) != 0 {
		in.assume(t, true)
		return
	}
	res, m := in.sol.Check(in.pc, t, true)
	switch res {
	case "sat":
		in.model = m
		in.assume(t, true)
	case "unsat":
		panic(abort{abAssume, ""})
	default:
		in.incon = "solver gave no answer for an assumption at " + in.where()
		panic(abort{abInconclusive, "assume"})
	}
}

// assert checks v on the current path.
func (in *Interp) assertV(v Value, label, msg string) {
	in.nasserts++
	if v.r == nil {
		if v.n == 0 {
			in.violate("assert", label, msg, in.model)
			panic(abort{abDone, "after violation"})
		}
		return
	}
	t := v.r.(*Term)
	if k, ok := in.isKnown(t); ok && k {
		return
	}
	if in.replaying() {
		// asserted on the path this one was forked from
		in.assume(t, true)
		return
	}
	res, m := in.sol.Check(in.pc, in.tt.Not(t), true)
	if in.w != nil {
		in.w.run.mu.Lock()
		in.w.run.assertQ++
		in.w.run.mu.Unlock()
	}
	switch res {
	case "sat":
		in.violate("assert", label, msg, m)
		in.assumeV(v)
	case "unsat":
		in.learn(t, true)
	default:
		in.incon = "solver gave no answer for assertion " + label
		in.assumeV(v)
	}
}

func (in *Interp) evalBytes(r *inputRec, m *Model) []int {
	n := len(r.v.r.([]Value))
	out := make([]int, n)
	for i, x := range r.v.r.([]Value) {
		out[i] = int(in.evalV(x, 8, m))
	}
	return out
}

func (in *Interp) evalV(v Value, w int, m *Model) uint64 {
	if v.r == nil {
		return v.n
	}
	return in.tt.Eval(v.r.(*Term), m)
}

func (in *Interp) inputVals(m *Model) []InputVal {
	var out []InputVal
	for _, r := range in.inputs {
		iv := InputVal{Name: r.name, Kind: r.kind}
		switch r.kind {
		case "bytes":
			iv.Bytes = in.evalBytes(r, m)
			if iv.Bytes == nil {
				iv.Bytes = []int{}
			}
		case "blob":
			n := in.evalV(r.ln, 64, m)
			iv.N = n
			k := n
			if k > 1<<20 {
				k = 1 << 20
			}
			iv.Bytes = make([]int, k)
			for i := range iv.Bytes {
				if a := m.Arrs[r.arr]; a != nil {
					iv.Bytes[i] = int(a[uint64(i)])
				}
			}
		default:
			iv.N = in.evalV(r.v, r.w, m)
		}
		out = append(out, iv)
	}
	return out
}

func (in *Interp) violate(kind, label, msg string, m *Model) {
	v := &Violation{Kind: kind, Conc: len(in.gs) > 1, Label: label, Msg: msg, Tier: in.tier, Inputs: in.inputVals(m), Sched: append([]string(nil), in.sched...), Log: append([]string(nil), in.logs...)}
	v.Trail = append([]dec(nil), in.trail...)
	v.racy = in.racy
	if in.w != nil {
		r := in.w.run
		v.Harness = r.harness
		r.mu.Lock()
		r.violN[label]++
		if _, ok := r.viol[label]; !ok {
			r.viol[label] = v
		} else if len(v.Sched) < len(r.viol[label].Sched) {
			r.viol[label] = v
		}
		if mutantMode || !r.known[label] && r.violN[label] > 200 || len(r.viol) > r.maxViol+len(r.known) {
			r.stop = true
			r.cond.Broadcast()
		}
		r.mu.Unlock()
	}
}

// ---- one path

func (in *Interp) runPath(fn *ssa.Function, it workItem) (st abortKind, msg string) {
	in.resetPath()
	in.epochs++
	in.epoch = in.epochs
	in.prefix = it.prefix
	if it.model != nil {
		in.model = it.model
		in.owned = false
	}
	defer func() {
		for i := len(in.undo) - 1; i >= 0; i-- {
			in.undo[i]()
		}
		in.undo = in.undo[:0]
		in.epoch = 0
	}()
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				st, msg = a.kind, a.msg
				if a.kind == abViolation && !strings.HasPrefix(msg, "deadlock: ") {
					in.violate("panic", in.panicLabel(msg), msg, in.model)
				}
				if a.kind == abLimit && strings.HasPrefix(a.msg, "step limit") {
					in.violate("divergence", "divergence", msg, in.model)
					st = abViolation
				}
				return
			}
			st, msg = abUnsupported, fmt.Sprintf("internal: %v at %s", r, in.where())
			if os.Getenv("VERIF_DEBUG") != "" {
				msg += "\n" + string(debug.Stack())
			}
		}
	}()
	g := in.newG("main")
	in.pushFrame(g, in.fnInfo(fn), nil, nil, -1, false)
	in.ready(g)
	in.schedule(g)
	return abDone, ""
}

// panicLabel gives a stable name to a panic: the innermost repository function.
func (in *Interp) panicLabel(msg string) string {
	where := msg
	if i := strings.LastIndex(msg, " @ "); i >= 0 {
		where = msg[i+3:]
	}
	for _, s := range strings.Split(where, " < ") {
		if strings.HasPrefix(s, "zmq4/zzverif") || strings.Contains(s, "zmq4/zzverif.") {
			continue
		}
		if strings.Contains(s, "zmq4") {
			if i := strings.Index(s, "("); i > 0 {
				return "panic:" + strings.TrimSpace(cutLine(s))
			}
		}
	}
	return "panic:" + cutLine(strings.Split(where, " < ")[0])
}

func cutLine(s string) string {
	// "(*zmq4.T).m(file:line)" -> "(*zmq4.T).m"
	if i := strings.LastIndex(s, "("); i > 0 {
		return s[:i]
	}
	return s
}

// ---- workers

func (w *Worker) pushWork(it workItem) {
	r := w.run
	r.mu.Lock()
	w.stack = append(w.stack, it)
	r.decisions++
	r.cond.Signal()
	r.mu.Unlock()
}

func (r *Run) next(w *Worker) (workItem, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return workItem{}, false
		}
		if time.Now().After(r.deadline) {
			r.stop, r.timeUp = true, true
			r.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(w.stack); n > 0 {
			it := w.stack[n-1]
			w.stack = w.stack[:n-1]
			r.busy++
			return it, true
		}
		best := -1
		for i, o := range r.workers {
			if len(o.stack) > 0 && (best < 0 || len(o.stack) > len(r.workers[best].stack)) {
				best = i
			}
		}
		if best >= 0 {
			o := r.workers[best]
			it := o.stack[0]
			o.stack = append([]workItem(nil), o.stack[1:]...)
			r.busy++
			return it, true
		}
		if r.busy == 0 {
			r.cond.Broadcast()
			return workItem{}, false
		}
		r.cond.Wait()
	}
}

func (w *Worker) loop() {
	r := w.run
	in := w.in
	in.w = w
	for {
		it, ok := r.next(w)
		if !ok {
			return
		}
		st, msg := in.runPath(r.fn, it)
		var smp *PathSample
		if st == abDone && msg == "" {
			smp = &PathSample{Sched: len(in.sched)}
			smp.Inputs = in.inputVals(in.model)
			for _, o := range in.obs {
				smp.Obs = append(smp.Obs, Obs{o.label, in.obsText(o.v, o.t)})
			}
		}
		r.mu.Lock()
		r.paths++
		r.steps += in.steps
		r.asserts += in.nasserts
		if len(in.sched) > 0 {
			r.schedPaths++
		}
		if in.incon != "" {
			r.inconQ++
			r.unsupMsgs[in.incon]++
		}
		switch st {
		case abDone:
			r.done++
			for k := range in.reached {
				r.reached[k]++
			}
		case abAssume:
			r.assumeCut++
		case abUnsupported:
			r.unsup++
			r.unsupMsgs[msg]++
		case abLimit, abInconclusive:
			r.limited++
			r.unsupMsgs[msg]++
		}
		if smp != nil {
			if len(r.samples) < 400 {
				r.samples = append(r.samples, *smp)
			} else {
				h := uint64(r.paths)*0x9E3779B97F4A7C15 + uint64(r.seed)*1315423911
				h ^= h >> 29
				if h%uint64(r.paths) < 400 {
					r.samples[h%400] = *smp
				}
			}
		}
		r.busy--
		r.cond.Broadcast()
		r.mu.Unlock()
	}
}

func (in *Interp) obsText(v Value, t types.Type) string {
	m := in.model
	switch u := t.Underlying().(type) {
	case *types.Basic:
		bi := basicOf(u)
		switch bi.kind {
		case 3:
			bs := in.strBytes(v)
			b := make([]byte, len(bs))
			for i, x := range bs {
				b[i] = byte(in.evalV(x, 8, m))
			}
			return fmt.Sprintf("%x", b)
		case 2:
			return fmt.Sprint(in.evalV(v, 0, m) != 0)
		default:
			n := in.evalV(v, bi.w, m)
			if bi.signed {
				return fmt.Sprint(sext(n, bi.w))
			}
			return fmt.Sprint(n)
		}
	case *types.Slice:
		if v.r == nil {
			return ""
		}
		s := v.r.(*SliceV)
		n := in.evalV(s.len, 64, m)
		if n > 4096 {
			n = 4096
		}
		b := make([]byte, n)
		for i := range b {
			var x Value
			if s.obj.blob != nil {
				x = in.arrSelect(s.obj.blob.arr, in.add(s.off, ci(i)))
			} else {
				off := in.evalV(s.off, 64, m)
				x = s.obj.cells[s.base+int(off)+i]
			}
			b[i] = byte(in.evalV(x, 8, m))
		}
		return fmt.Sprintf("%x", b)
	}
	return "?"
}
