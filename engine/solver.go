package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver: one z3 process, incremental; every path-condition conjunct has its own
// push level so that the stack can be cut back to the common prefix with the next path.
type Solver struct {
	tt    *TermTab
	cmd   *exec.Cmd
	in    *bufio.Writer
	out   *bufio.Reader
	gen   int
	decl  map[string]bool
	stack []*Term
	vars  []*Term // declared vars / selects
	// stats
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	MaxTime                      time.Duration
	bin                          string
	timeoutMS                    int // per incremental query
	fullMS                       int // per one-shot query
	single                       bool
	Restarts                     int
	ndefs                        int
	log                          io.Writer
}

var solverGen = 0

func NewSolver(tt *TermTab, bin string, timeoutMS int) *Solver {
	s := &Solver{tt: tt, bin: bin, timeoutMS: min(timeoutMS, 1000), fullMS: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	cmd := exec.Command(s.bin, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		fatal("cannot start solver %s: %v", s.bin, err)
	}
	s.cmd = cmd
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReader(out)
	s.gen++
	s.decl = map[string]bool{}
	s.stack = nil
	s.vars = nil
	s.ndefs = 0
	if s.single {
		s.w(fmt.Sprintf("(set-option :timeout %d)\n(set-option :produce-models true)\n(set-logic QF_AUFBV)\n", s.timeoutMS))
		return
	}
	s.w("(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n")
	s.w(fmt.Sprintf("(set-option :timeout %d)\n", s.timeoutMS))
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) w(str string) {
	if s.log != nil {
		io.WriteString(s.log, str)
	}
	s.in.WriteString(str)
}

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.k, 10) + " " + strconv.Itoa(t.w) + ")"
	case OVar:
		n := smtName(t.name)
		if t.sgen != s.gen {
			t.sgen = s.gen
			s.w("(declare-const " + n + " " + sortOf(t.w) + ")\n")
			s.vars = append(s.vars, t)
		}
		return n
	}
	n := "t" + strconv.Itoa(t.id)
	if t.sgen == s.gen {
		return n
	}
	var body string
	switch t.op {
	case OSelect:
		an := smtName(t.name)
		if !s.decl[t.name] {
			s.decl[t.name] = true
			s.w("(declare-const " + an + " (Array (_ BitVec 64) (_ BitVec 8)))\n")
		}
		body = "(select " + an + " " + s.ref(t.a) + ")"
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&255, s.ref(t.a))
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	default:
		var sb strings.Builder
		sb.WriteString("(" + opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				sb.WriteString(s.ref(x))
			}
		}
		sb.WriteByte(')')
		body = sb.String()
	}
	t.sgen = s.gen
	s.ndefs++
	s.w("(define-fun " + n + " () " + sortOf(t.w) + " " + body + ")\n")
	if t.op == OSelect {
		s.vars = append(s.vars, t)
	}
	return n
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.w("(pop " + strconv.Itoa(d) + ")\n")
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		r := s.ref(pc[n])
		s.w("(push 1)\n(assert " + r + ")\n")
		s.stack = append(s.stack, pc[n])
	}
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			fatal("solver died: %v", err)
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			fatal("solver error: %s", l)
		}
		return l
	}
}

// Check decides pc ∧ extra. Returns "sat"/"unsat"/"unknown"; model when sat.
func (s *Solver) Check(pc []*Term, extra *Term, want bool) (string, *Model) {
	if s.ndefs > 400000 {
		s.Close()
		s.start()
	}
	t0 := time.Now()
	s.sync(pc)
	if extra != nil {
		r := s.ref(extra)
		s.w("(push 1)\n(assert " + r + ")\n")
	}
	s.w("(check-sat)\n")
	s.in.Flush()
	res := s.readLine()
	s.Queries++
	var m *Model
	switch res {
	case "sat":
		s.Sat++
		if want {
			m = s.model(pc, extra)
		}
	case "unsat":
		s.Unsat++
	}
	if extra != nil {
		s.w("(pop 1)\n")
	}
	if res != "sat" && res != "unsat" {
		s.Restarts++
		res, m = s.oneShot(pc, extra, want)
		switch res {
		case "sat":
			s.Sat++
		case "unsat":
			s.Unsat++
		default:
			s.Unknown++
			res = "unknown"
		}
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	return res, m
}

// oneShot decides the query in a fresh process without incremental solving, where
// the solver preprocesses the whole formula first.
func (s *Solver) oneShot(pc []*Term, extra *Term, want bool) (string, *Model) {
	alt := &Solver{tt: s.tt, bin: s.bin, timeoutMS: s.fullMS, single: true}
	alt.start()
	alt.gen = 1 << 40
	defer alt.Close()
	saved := map[*Term]int{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if x == nil {
			return
		}
		if _, ok := saved[x]; ok {
			return
		}
		saved[x] = x.sgen
		x.sgen = 0
		walk(x.a)
		walk(x.b)
		walk(x.c)
	}
	for _, x := range pc {
		walk(x)
	}
	walk(extra)
	defer func() {
		for x, g := range saved {
			x.sgen = g
		}
	}()
	for _, x := range append(append([]*Term(nil), pc...), extra) {
		if x == nil {
			continue
		}
		r := alt.ref(x)
		alt.w("(assert " + r + ")\n")
	}
	alt.w("(check-sat)\n")
	alt.in.Flush()
	res := alt.readLine()
	var m *Model
	if res == "sat" && want {
		m = alt.model(pc, extra)
	}
	return res, m
}

func (s *Solver) collect(pc []*Term, extra *Term) []*Term {
	s.tt.mgen++
	g := s.tt.mgen
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.op == OConst || t.mgen == g {
			return
		}
		t.mgen = g
		walk(t.a)
		walk(t.b)
		walk(t.c)
		if t.op == OVar || t.op == OSelect {
			out = append(out, t)
		}
	}
	for _, t := range pc {
		walk(t)
	}
	walk(extra)
	return out
}

func (s *Solver) model(pc []*Term, extra *Term) *Model {
	m := &Model{Vars: map[string]uint64{}, Arrs: map[string]map[uint64]uint64{}}
	vs := s.collect(pc, extra)
	if len(vs) == 0 {
		return m
	}
	vals := s.getValues(vs)
	var sels []*Term
	for i, v := range vs {
		if v.op == OVar {
			m.Vars[v.name] = vals[i]
		} else {
			sels = append(sels, v)
		}
	}
	if len(sels) > 0 {
		var idxs []*Term
		for _, x := range sels {
			idxs = append(idxs, x.a)
		}
		iv := s.getValues(idxs)
		sv := s.getValues(sels)
		for i, x := range sels {
			if m.Arrs[x.name] == nil {
				m.Arrs[x.name] = map[uint64]uint64{}
			}
			m.Arrs[x.name][iv[i]] = sv[i]
		}
	}
	return m
}

func (s *Solver) getValues(ts []*Term) []uint64 {
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, t := range ts {
		sb.WriteString(s.ref(t))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.w(sb.String())
	s.in.Flush()
	// read balanced parens
	depth := 0
	started := false
	inq := false
	var buf strings.Builder
	for !started || depth > 0 {
		c, err := s.out.ReadByte()
		if err != nil {
			fatal("solver died: %v", err)
		}
		if c == '|' {
			inq = !inq
		}
		if !inq {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		if started {
			buf.WriteByte(c)
		}
	}
	txt := buf.String()
	if strings.HasPrefix(txt, "(error") {
		fatal("solver error: %s", txt)
	}
	return parseValues(txt, len(ts))
}

// parseValues parses ((expr val) (expr val) ...) returning the vals.
func parseValues(txt string, n int) []uint64 {
	toks := tokenize(txt)
	pos := 0
	var skip func()
	skip = func() { // skip one s-expression
		if toks[pos] == "(" {
			pos++
			for toks[pos] != ")" {
				skip()
			}
			pos++
			return
		}
		pos++
	}
	var out []uint64
	pos++ // (
	for toks[pos] != ")" {
		pos++ // (
		skip()
		// value
		tk := toks[pos]
		var v uint64
		switch {
		case tk == "true":
			v = 1
			pos++
		case tk == "false":
			pos++
		case strings.HasPrefix(tk, "#x"):
			v, _ = strconv.ParseUint(tk[2:], 16, 64)
			pos++
		case strings.HasPrefix(tk, "#b"):
			v, _ = strconv.ParseUint(tk[2:], 2, 64)
			pos++
		case tk == "(":
			// (_ bvN w)
			v, _ = strconv.ParseUint(strings.TrimPrefix(toks[pos+2], "bv"), 10, 64)
			skip()
		default:
			fatal("cannot parse solver value %q", tk)
		}
		pos++ // )
		out = append(out, v)
	}
	if len(out) != n {
		fatal("solver returned %d values, want %d", len(out), n)
	}
	return out
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := i + 1
			for s[j] != '|' {
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "ENGINE-ERROR: "+f+"\n", a...)
	os.Exit(3)
}
