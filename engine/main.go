package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness describes one H_* function of the harness package.
type Harness struct {
	Name     string
	Props    []string
	Reach    []string
	Bounds   string
	QuickS   int
	ThorS    int
	Native   string // bubble (default), plain, off
	Sched    bool
	Thorough bool // thorough tier only
	Stubs    []string
	Doc      string
}

func parseHarnesses(hdir string) ([]*Harness, error) {
	fset := token.NewFileSet()
	ents, err := os.ReadDir(hdir)
	if err != nil {
		return nil, err
	}
	var out []*Harness
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(hdir, e.Name()), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_") {
				continue
			}
			h := &Harness{Name: fd.Name.Name, QuickS: 30, ThorS: 120, Native: "bubble"}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if !strings.HasPrefix(c.Text, "//verif:") {
						h.Doc += strings.TrimSpace(strings.TrimPrefix(c.Text, "//")) + " "
						continue
					}
					kv := strings.SplitN(strings.TrimPrefix(c.Text, "//verif:"), " ", 2)
					arg := ""
					if len(kv) > 1 {
						arg = strings.TrimSpace(kv[1])
					}
					switch kv[0] {
					case "prop":
						h.Props = strings.Fields(arg)
					case "reach":
						h.Reach = strings.Fields(arg)
					case "bounds":
						h.Bounds += arg + " "
					case "budget":
						fs := strings.Fields(arg)
						h.QuickS, _ = strconv.Atoi(fs[0])
						h.ThorS, _ = strconv.Atoi(fs[1])
					case "native":
						h.Native = arg
					case "sched":
						h.Sched = true
					case "thorough":
						h.Thorough = true
					case "stub":
						h.Stubs = append(h.Stubs, arg)
					default:
						return nil, fmt.Errorf("%s: unknown directive %s", h.Name, kv[0])
					}
				}
			}
			out = append(out, h)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out, nil
}

// mutantMode only tells whether there is a violation: it is for measuring the
// harnesses against many changes, and no check uses it.
var mutantMode = os.Getenv("VERIF_MUTANT") != ""

type engine struct {
	verif, repo, work string
	tier              string
	seed              int
	workers           int
	p                 *Program
	ws                []*Worker
	hs                []*Harness
	natBin            string
	natErr            error
	natOnce           sync.Once
	verbose           bool
}

func (e *engine) load() error {
	e.work = filepath.Join(os.TempDir(), fmt.Sprintf("zzverif-%d", os.Getpid()))
	if err := os.MkdirAll(e.work, 0o755); err != nil {
		return err
	}
	// module file copies so that /repo's stay as they are
	mod, err := os.ReadFile(filepath.Join(e.repo, "go.mod"))
	if err != nil {
		return err
	}
	sum, _ := os.ReadFile(filepath.Join(e.repo, "go.sum"))
	extra, _ := os.ReadFile(filepath.Join(e.verif, "engine", "extra.sum"))
	lines := map[string]bool{}
	for _, l := range strings.Split(string(sum)+"\n"+string(extra), "\n") {
		if strings.TrimSpace(l) != "" {
			lines[strings.TrimSpace(l)] = true
		}
	}
	var ls []string
	for l := range lines {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	os.WriteFile(e.modfile(), mod, 0o644)
	os.WriteFile(strings.TrimSuffix(e.modfile(), ".mod")+".sum", []byte(strings.Join(ls, "\n")+"\n"), 0o644)
	e.hs, err = parseHarnesses(filepath.Join(e.verif, "harness"))
	if err != nil {
		return err
	}
	e.p, err = loadProgram(e.repo, filepath.Join(e.verif, "harness"), e.modfile())
	return err
}

func (e *engine) modfile() string { return filepath.Join(e.work, "zmq.mod") }

func (e *engine) startWorkers() error {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	e.ws = make([]*Worker, e.workers)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var ferr error
	for i := range e.ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					ferr = fmt.Errorf("initialisation: %v", r)
					if os.Getenv("VERIF_DEBUG") != "" {
						ferr = fmt.Errorf("%v\n%s", ferr, debug.Stack())
					}
					mu.Unlock()
				}
			}()
			qt := 20000
			if e.tier == "thorough" {
				qt = 60000
			}
			e.ws[i] = &Worker{id: i, in: newInterp(e.p, bin, qt, e.tier, e.seed)}
		}()
	}
	wg.Wait()
	return ferr
}

func (e *engine) explore(h *Harness, budget time.Duration) *Run {
	var racy map[ssa.Instruction]bool
	t0 := time.Now()
	for i := 0; ; i++ {
		r := e.explore1(h, budget-time.Since(t0), racy, i >= 4)
		r.racy = racy
		if !r.restart || len(r.viol) > 0 || time.Since(t0) > budget*3/4 {
			return r
		}
		n := map[ssa.Instruction]bool{}
		for k := range racy {
			n[k] = true
		}
		for k := range r.newRacy {
			n[k] = true
		}
		racy = n
	}
}

func (e *engine) explore1(h *Harness, budget time.Duration, racy map[ssa.Instruction]bool, last bool) *Run {
	r := &Run{p: e.p, harness: h.Name, fn: e.p.harness.Func(h.Name), tier: e.tier, seed: e.seed, viol: map[string]*Violation{}, violN: map[string]int{},
		reached: map[string]int{}, unsupMsgs: map[string]int{}, deadline: time.Now().Add(budget), maxViol: 12}
	r.known = map[string]bool{}
	for _, f := range e.known() {
		if strings.HasPrefix(f.key, h.Name+":") {
			r.known[strings.ReplaceAll(strings.TrimPrefix(f.key, h.Name+":"), "_", " ")] = true
		}
	}
	r.cond = sync.NewCond(&r.mu)
	r.workers = e.ws
	r.noRestart = last
	for _, w := range e.ws {
		w.run = r
		w.stack = nil
		w.in.racy = racy
	}
	e.ws[0].stack = []workItem{{}}
	tm := time.AfterFunc(budget, func() {
		r.mu.Lock()
		r.stop, r.timeUp = true, true
		r.mu.Unlock()
		r.cond.Broadcast()
	})
	defer tm.Stop()
	var wg sync.WaitGroup
	for _, w := range e.ws {
		wg.Add(1)
		go func() { defer wg.Done(); w.loop() }()
	}
	wg.Wait()
	for _, w := range e.ws {
		r.left += len(w.stack)
	}
	if r.left == 0 && !(r.stop && !r.timeUp) {
		r.timeUp = false
	}
	return r
}

// ---- native replay

func (e *engine) buildNative() (string, error) {
	e.natOnce.Do(func() {
		ov := map[string]string{}
		fs, err := overlayFiles(e.repo, filepath.Join(e.verif, "harness"))
		if err != nil {
			e.natErr = err
			return
		}
		for k, v := range fs {
			ov[k] = v
		}
		var sb strings.Builder
		sb.WriteString("//go:build !verifengine\n\npackage zzverif\n\nvar harnesses = map[string]func(){\n")
		for _, h := range e.hs {
			fmt.Fprintf(&sb, "\t%q: %s,\n", h.Name, h.Name)
		}
		sb.WriteString("}\n")
		tab := filepath.Join(e.work, "zz_table.go")
		os.WriteFile(tab, []byte(sb.String()), 0o644)
		ov[filepath.Join(e.repo, "zzverif", "zz_table.go")] = tab
		b, _ := json.Marshal(map[string]any{"Replace": ov})
		ovf := filepath.Join(e.work, "overlay.json")
		os.WriteFile(ovf, b, 0o644)
		bin := filepath.Join(e.work, "replay.test")
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-o", bin, "-overlay", ovf, "-modfile", e.modfile(), "./zzverif")
		cmd.Dir = e.repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOPROXY=off", "GOSUMDB=off")
		o, err := cmd.CombinedOutput()
		if err != nil {
			e.natErr = fmt.Errorf("native build: %v\n%s", err, o)
			return
		}
		e.natBin = bin
	})
	return e.natBin, e.natErr
}

type natRes struct {
	Outcome string `json:"outcome"`
	Label   string `json:"label"`
	Text    string `json:"text"`
	Obs     []Obs  `json:"obs"`
}

var natCtr struct {
	sync.Mutex
	n int
}

func (e *engine) replay(h *Harness, tier string, ins []InputVal) natRes {
	bin, err := e.buildNative()
	if err != nil {
		return natRes{Outcome: "error", Text: err.Error()}
	}
	natCtr.Lock()
	natCtr.n++
	id := natCtr.n
	natCtr.Unlock()
	rq := filepath.Join(e.work, fmt.Sprintf("req%d.json", id))
	rs := filepath.Join(e.work, fmt.Sprintf("res%d.json", id))
	b, _ := json.Marshal(map[string]any{"harness": h.Name, "tier": tier, "bubble": h.Native == "bubble", "inputs": ins})
	os.WriteFile(rq, b, 0o644)
	defer os.Remove(rq)
	defer os.Remove(rs)
	cmd := exec.Command("timeout", "-s", "KILL", "40", bin, "-test.run", "^TestReplay$", "-test.timeout", "30s")
	cmd.Env = append(os.Environ(), "ZZVERIF_REQ="+rq, "ZZVERIF_RES="+rs)
	cmd.Dir = e.work
	o, err := cmd.CombinedOutput()
	var res natRes
	rb, rerr := os.ReadFile(rs)
	if rerr == nil && len(rb) > 0 && json.Unmarshal(rb, &res) == nil && res.Outcome != "" {
		return res
	}
	txt := string(o)
	if len(txt) > 6000 {
		txt = txt[:6000]
	}
	switch {
	case strings.Contains(txt, "panic: test timed out"):
		return natRes{Outcome: "hang", Text: txt}
	case strings.Contains(txt, "deadlock: "), strings.Contains(txt, "all goroutines are asleep"):
		return natRes{Outcome: "deadlock", Text: txt}
	case strings.Contains(txt, "panic: "), strings.Contains(txt, "fatal error: "):
		return natRes{Outcome: "panic", Text: txt}
	}
	if err != nil && strings.Contains(err.Error(), "killed") {
		return natRes{Outcome: "hang", Text: txt}
	}
	return natRes{Outcome: "error", Text: fmt.Sprint(err) + " " + txt}
}

func sameObs(a, b []Obs) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type validation struct {
	ran, ok  int
	mismatch []string
}

func (e *engine) validate(h *Harness, r *Run, max int) validation {
	var v validation
	if h.Native == "off" || len(r.samples) == 0 {
		return v
	}
	var pick []PathSample
	for _, s := range r.samples {
		if s.Sched == 0 {
			pick = append(pick, s)
		}
	}
	if len(pick) > max {
		step := len(pick) / max
		off := e.seed % (step + 1)
		var q []PathSample
		for i := off; i < len(pick) && len(q) < max; i += step {
			q = append(q, pick[i])
		}
		pick = q
	}
	if _, err := e.buildNative(); err != nil {
		v.mismatch = append(v.mismatch, err.Error())
		return v
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, s := range pick {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			var res natRes
			ok := false
			for try := 0; try < 2 && !ok; try++ {
				res = e.replay(h, e.tier, s.Inputs)
				ok = res.Outcome == "ok" && sameObs(res.Obs, s.Obs)
			}
			mu.Lock()
			defer mu.Unlock()
			v.ran++
			if ok {
				v.ok++
			} else if len(v.mismatch) < 3 {
				a, _ := json.Marshal(s)
				b, _ := json.Marshal(res)
				v.mismatch = append(v.mismatch, fmt.Sprintf("engine %s native %s", a, b))
			}
		}()
	}
	wg.Wait()
	return v
}

// ---- known findings

type finding struct {
	prop, key, text string
	re              *regexp.Regexp
}

func (e *engine) known() []finding {
	b, err := os.ReadFile(filepath.Join(e.verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := finding{}
		rest := strings.TrimPrefix(l, "known: ")
		for strings.HasPrefix(rest, "property=") || strings.HasPrefix(rest, "key=") {
			i := strings.IndexByte(rest, ' ')
			if i < 0 {
				i = len(rest)
			}
			kv := rest[:i]
			rest = strings.TrimSpace(rest[i:])
			if strings.HasPrefix(kv, "property=") {
				f.prop = kv[9:]
			} else {
				f.key = kv[4:]
			}
		}
		f.text = rest
		out = append(out, f)
	}
	return out
}

func vkey(v *Violation) string { return v.Harness + ":" + strings.ReplaceAll(v.Label, " ", "_") }

// ---- check

type harnessReport struct {
	Name        string         `json:"harness"`
	What        string         `json:"what,omitempty"`
	Bounds      string         `json:"bounds,omitempty"`
	Paths       int            `json:"paths"`
	Completed   int            `json:"completed_paths"`
	Infeasible  int            `json:"paths_cut_by_assumption"`
	Unsupported int            `json:"paths_outside_the_encoding"`
	Limited     int            `json:"paths_over_a_bound"`
	SchedPaths  int            `json:"paths_with_forced_schedule"`
	Decisions   int            `json:"symbolic_decisions"`
	Asserts     int            `json:"assertions_evaluated"`
	AssertQ     int            `json:"assertions_decided_by_solver"`
	Steps       int            `json:"instructions"`
	Exhausted   bool           `json:"exhausted_within_bounds"`
	Left        int            `json:"frontier_left"`
	Reached     map[string]int `json:"reached"`
	Notes       map[string]int `json:"notes,omitempty"`
	Seconds     float64        `json:"seconds"`
	Validated   int            `json:"paths_replayed_natively"`
	ValidOK     int            `json:"native_replays_agreeing"`
	Mismatch    []string       `json:"native_mismatches,omitempty"`
	Missing     []string       `json:"reach_tags_missing,omitempty"`
}

func (e *engine) check(prop string, only string) int {
	t0 := time.Now()
	if err := e.load(); err != nil {
		fmt.Fprintf(os.Stderr, "ENGINE-ERROR: %v\n", err)
		return 2
	}
	defer os.RemoveAll(e.work)
	var hs []*Harness
	for _, h := range e.hs {
		if only != "" {
			if h.Name == only {
				hs = append(hs, h)
			}
			continue
		}
		if h.Thorough && e.tier == "quick" {
			continue
		}
		for _, p := range h.Props {
			if p == prop {
				hs = append(hs, h)
			}
		}
	}
	if len(hs) == 0 {
		fmt.Fprintf(os.Stderr, "no harness for %s\n", prop)
		return 2
	}
	if err := e.startWorkers(); err != nil {
		fmt.Fprintf(os.Stderr, "ENGINE-ERROR: %v\n", err)
		return 2
	}
	loadT := time.Since(t0)
	// build the native replayer while the engine explores
	if !mutantMode {
		go e.buildNative()
	}
	var reps []harnessReport
	var viols []*Violation
	var samples []any
	fail := 0
	states, trans, traces := 0, 0, 0
	for _, h := range hs {
		t1 := time.Now()
		b := h.QuickS
		if e.tier == "thorough" {
			b = h.ThorS
		}
		if s, err := strconv.Atoi(os.Getenv("VERIF_MUTANT")); err == nil && s < b {
			b = s
		}
		r := e.explore(h, time.Duration(b)*time.Second)
		rep := harnessReport{Name: h.Name, What: strings.TrimSpace(h.Doc), Bounds: strings.TrimSpace(h.Bounds), Paths: r.paths, Completed: r.done, Infeasible: r.assumeCut, Unsupported: r.unsup,
			Limited: r.limited, SchedPaths: r.schedPaths, Decisions: r.decisions, Asserts: r.asserts, AssertQ: r.assertQ, Steps: r.steps, Left: r.left, Reached: r.reached, Notes: r.unsupMsgs,
			Exhausted: r.left == 0 && !r.timeUp && r.unsup == 0 && r.limited == 0 && r.inconQ == 0 && !(r.stop && r.left > 0)}
		for _, k := range sortedKeys(r.viol) {
			if mutantMode {
				fmt.Printf("KILLED %s: %s\n", h.Name, k)
				return 1
			}
			viols = append(viols, r.viol[k])
		}
		if mutantMode {
			continue
		}
		if len(r.viol) == 0 {
			for _, tag := range h.Reach {
				if r.reached[tag] == 0 {
					rep.Missing = append(rep.Missing, tag)
				}
			}
			nv := 12
			if e.tier == "thorough" {
				nv = 60
			}
			v := e.validate(h, r, nv)
			rep.Validated, rep.ValidOK, rep.Mismatch = v.ran, v.ok, v.mismatch
			traces += v.ok
		}
		rep.Seconds = time.Since(t1).Seconds()
		reps = append(reps, rep)
		states += r.decisions + r.paths
		trans += r.steps
		for i, s := range r.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": h.Name, "inputs": s.Inputs, "observations": s.Obs, "forced_schedule_choices": s.Sched})
			}
		}
		fmt.Printf("%-28s paths=%d done=%d cut=%d unsup=%d lim=%d sched=%d asserts=%d(solver %d) viol=%d exhausted=%v left=%d native=%d/%d %.1fs\n", h.Name, r.paths, r.done, r.assumeCut, r.unsup, r.limited, r.schedPaths, r.asserts, r.assertQ, len(r.viol), rep.Exhausted, r.left, rep.ValidOK, rep.Validated, rep.Seconds)
		for _, k := range sortedKeys(r.unsupMsgs) {
			fmt.Printf("   note x%d: %s\n", r.unsupMsgs[k], k)
		}
		if len(rep.Missing) > 0 {
			fmt.Printf("   not reached: %v\n", rep.Missing)
		}
		for _, m := range rep.Mismatch {
			fmt.Printf("   NATIVE MISMATCH: %s\n", m)
		}
		if r.done == 0 && len(r.viol) == 0 {
			fail = 2
			fmt.Printf("   no path completed\n")
		}
	}
	if mutantMode {
		return fail
	}
	// violations
	known := e.known()
	var reported []map[string]any
	newV := 0
	seen := map[string]bool{}
	for _, v := range viols {
		h := harnessByName(e.hs, v.Harness)
		key := vkey(v)
		isKnown := false
		for _, f := range known {
			if f.prop == prop && f.key == key {
				isKnown = true
				if !seen[key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
				}
				seen[key] = true
			}
		}
		res := natRes{Outcome: "off"}
		confirmed := false
		if h.Native != "off" {
			tries := 1
			if len(v.Sched) > 0 || h.Sched || v.Conc {
				tries = 3
			}
			for i := 0; i < tries && !confirmed; i++ {
				res = e.replay(h, v.Tier, v.Inputs)
				switch v.Kind {
				case "assert":
					confirmed = res.Outcome == "fail" && res.Label == v.Label || res.Outcome == "fail" || res.Outcome == "panic" || res.Outcome == "hang" || res.Outcome == "deadlock"
				default:
					confirmed = res.Outcome != "ok" && res.Outcome != "error" && res.Outcome != "assume"
				}
			}
		}
		v.Native = res.Outcome
		interp := false
		if !confirmed {
			interp = e.reinterpret(v)
		}
		status := "confirmed natively"
		sequential := len(v.Sched) == 0 && !h.Sched && !v.Conc && v.Label != "alloc"
		switch {
		case confirmed:
		case h.Native != "off" && sequential && res.Outcome != "error":
			status = "not reproduced natively"
		case interp:
			status = "confirmed by re-executing the recorded schedule in the SSA interpreter"
		default:
			status = "not reproduced"
		}
		ok := strings.HasPrefix(status, "confirmed")
		rec := map[string]any{"harness": v.Harness, "label": v.Label, "kind": v.Kind, "message": v.Msg, "status": status, "known": isKnown, "inputs": v.Inputs, "schedule": v.Sched}
		reported = append(reported, rec)
		fmt.Printf("   counterexample %s: %s [%s]\n", key, firstLine(v.Msg), status)
		if e.verbose {
			for _, s := range v.Sched {
				fmt.Printf("      sched: %s\n", s)
			}
			for _, s := range v.Log {
				fmt.Printf("      log: %s\n", s)
			}
			b, _ := json.Marshal(v.Inputs)
			fmt.Printf("      inputs: %s\n      native: %s %s %s\n", b, res.Outcome, res.Label, firstLine(res.Text))
		}
		if isKnown || !ok {
			continue
		}
		newV++
		dir := filepath.Join(e.verif, "evidence", "replays")
		os.MkdirAll(dir, 0o755)
		rp := filepath.Join(dir, fmt.Sprintf("%s-%s.json", prop, sanitize(key)))
		rb, _ := json.MarshalIndent(map[string]any{"property": prop, "violation": v, "status": status, "native": res}, "", " ")
		os.WriteFile(rp, rb, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	}
	// evidence
	fns, nins := e.encoded()
	q, sat, unsat, unk, st, mx := 0, 0, 0, 0, time.Duration(0), time.Duration(0)
	for _, w := range e.ws {
		s := w.in.sol
		q += s.Queries
		sat += s.Sat
		unsat += s.Unsat
		unk += s.Unknown
		st += s.Time
		if s.MaxTime > mx {
			mx = s.MaxTime
		}
		s.Close()
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"note": "no observation recorded"})
	}
	var assumptions []string
	assumptions = append(assumptions, "sequential consistency; goroutines switch at synchronisation operations and at accesses found not to be ordered by synchronisation", "library models listed in DESIGN.md section Models")
	if traces == 0 && newV == 0 {
		traces = 0
	}
	exhausted := true
	for _, r := range reps {
		exhausted = exhausted && r.Exhausted
	}
	cov := map[string]any{
		"states": max(states, 1), "transitions": max(trans, 1), "traces_validated_against_impl": traces, "samples": samples,
		"harnesses": reps, "exhausted_within_bounds": exhausted,
		"functions_encoded": fns, "functions_encoded_count": len(fns), "ssa_instructions_encoded": nins,
		"solver":          map[string]any{"queries": q, "sat": sat, "unsat": unsat, "unknown": unk, "solver_seconds": st.Seconds(), "max_query_seconds": mx.Seconds(), "binary": "z3-new"},
		"counterexamples": reported, "load_seconds": loadT.Seconds(),
		"assumptions": assumptions,
	}
	ev := map[string]any{"property": prop, "tier": e.tier, "seed": e.seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(t0).Seconds()}
	if only == "" {
		os.MkdirAll(filepath.Join(e.verif, "evidence"), 0o755)
		eb, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(e.verif, "evidence", prop+".json"), eb, 0o644)
	}
	fmt.Printf("%s %s: load %.1fs total %.1fs queries=%d solver=%.1fs functions=%d\n", prop, e.tier, loadT.Seconds(), time.Since(t0).Seconds(), q, st.Seconds(), len(fns))
	if newV > 0 {
		return 1
	}
	return fail
}

// reinterpret re-executes a violation's decisions in a fresh interpreter state.
func (e *engine) reinterpret(v *Violation) bool {
	r := &Run{p: e.p, harness: v.Harness, fn: e.p.harness.Func(v.Harness), tier: v.Tier, viol: map[string]*Violation{}, violN: map[string]int{}, reached: map[string]int{}, unsupMsgs: map[string]int{}, maxViol: 100, deadline: time.Now().Add(time.Minute)}
	r.cond = sync.NewCond(&r.mu)
	w := e.ws[0]
	w.run = r
	w.stack = nil
	m := &Model{Vars: map[string]uint64{}, Arrs: map[string]map[uint64]uint64{}}
	for _, i := range v.Inputs {
		switch i.Kind {
		case "bytes":
			for k, b := range i.Bytes {
				m.Vars[fmt.Sprintf("in_%s.%d", i.Name, k)] = uint64(b)
			}
		case "blob":
			m.Vars["in_"+i.Name+".len"] = i.N
			a := map[uint64]uint64{}
			for k, b := range i.Bytes {
				a[uint64(k)] = uint64(b)
			}
			m.Arrs["arr_"+i.Name] = a
		default:
			m.Vars["in_"+i.Name] = i.N
		}
	}
	r.noRestart = true
	w.in.racy = v.racy
	w.in.runPath(r.fn, workItem{prefix: v.Trail, model: m})
	_, ok := r.viol[v.Label]
	return ok
}

func harnessByName(hs []*Harness, n string) *Harness {
	for _, h := range hs {
		if h.Name == n {
			return h
		}
	}
	return nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 700 {
		s = s[:700]
	}
	return s
}

func sanitize(s string) string {
	return regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(s, "_")
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// encoded lists the functions of the module under test that were executed symbolically.
func (e *engine) encoded() ([]string, int) {
	m := map[string]int{}
	for _, w := range e.ws {
		if w == nil {
			continue
		}
		for _, fi := range w.in.fns {
			if fi.used && fi.repo && !fi.harness && fi.native == nil {
				m[shortName(fi.name)] = fi.nins
			}
		}
	}
	n := 0
	for _, x := range m {
		n += x
	}
	return sortedKeys(m), n
}

func main() {
	verif := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	prop := flag.String("prop", "", "property")
	only := flag.String("harness", "", "single harness (debugging)")
	tier := flag.String("tier", "", "quick or thorough")
	workers := flag.Int("j", 8, "workers")
	replayF := flag.String("replay", "", "replay a recorded counterexample natively")
	list := flag.Bool("list", false, "")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *workers > 2*runtime.NumCPU() {
		*workers = 2 * runtime.NumCPU()
	}
	e := &engine{verif: *verif, repo: *repo, tier: *tier, seed: seed, workers: *workers, verbose: *verbose}
	switch {
	case *list:
		hs, err := parseHarnesses(filepath.Join(*verif, "harness"))
		if err != nil {
			fatal("%v", err)
		}
		b, _ := json.MarshalIndent(hs, "", " ")
		fmt.Println(string(b))
	case *replayF != "":
		if err := e.load(); err != nil {
			fatal("%v", err)
		}
		var rec struct {
			Violation *Violation `json:"violation"`
		}
		b, err := os.ReadFile(*replayF)
		if err != nil {
			fatal("%v", err)
		}
		json.Unmarshal(b, &rec)
		h := harnessByName(e.hs, rec.Violation.Harness)
		res := e.replay(h, rec.Violation.Tier, rec.Violation.Inputs)
		ob, _ := json.MarshalIndent(res, "", " ")
		fmt.Println(string(ob))
		os.RemoveAll(e.work)
	default:
		rc := e.check(*prop, *only)
		os.RemoveAll(e.work)
		os.Exit(rc)
	}
}
