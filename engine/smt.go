package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Verdict int

const (
	Unsat Verdict = iota
	Sat
	Unknown
)

func (v Verdict) String() string { return [...]string{"unsat", "sat", "unknown"}[v] }

// Solver drives one z3 process (incremental) and, for queries it cannot
// settle in time, fresh one-shot processes (z3 old/new, cvc5).
type Solver struct {
	tb      *TB
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	decl    map[string]bool
	timeout int // ms, incremental

	Queries, CacheHits, OneShots, Unknowns int
	BySat, ByUnsat                         int
	Time                                   time.Duration
	models                                 []*Model
	stack                                  []*Term // asserted, one scope each
	dump                                   io.Writer
	oneShotMs                              int
	curTimeout                             int
	err                                    error
}

func newSolver(tb *TB, timeout, oneShot int) *Solver {
	s := &Solver{tb: tb, timeout: timeout, oneShotMs: oneShot}
	s.start()
	return s
}

func (s *Solver) start() {
	s.defined = map[int]bool{}
	s.decl = map[string]bool{}
	s.stack = nil
	c := exec.Command("z3-new", "-in", "-memory:3000")
	in, e1 := c.StdinPipe()
	out, e2 := c.StdoutPipe()
	if e1 != nil || e2 != nil {
		s.err = fmt.Errorf("pipe: %v %v", e1, e2)
		return
	}
	if e := c.Start(); e != nil {
		s.err = e
		return
	}
	s.curTimeout = s.timeout
	s.cmd, s.inPipe, s.in, s.out = c, in, bufio.NewWriterSize(s.tee(in), 1<<16), bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// define emits definitions for t's cone.
func (s *Solver) define(w io.Writer, t *Term, defined map[int]bool, decl map[string]bool, sel map[int]*Term, vars map[int]*Term) {
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.Op == OpConst || defined[t.ID] {
			return
		}
		defined[t.ID] = true
		for _, a := range t.Args {
			rec(a)
		}
		switch t.Op {
		case OpVar:
			fmt.Fprintf(w, "(declare-const %s %s)\n", t.ref(), sort1(t.W))
			return
		case OpSelect:
			if k := t.Name; !decl[k] {
				decl[k] = true
				fmt.Fprintf(w, "(declare-fun |%s| ((_ BitVec 64)) %s)\n", k, sort1(t.W))
			}
		}
		fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", t.ID, sort1(t.W), t.body())
	}
	rec(t)
}

func cone(ts []*Term) (vars, sels []*Term) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.ID] || t.Op == OpConst {
			return
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			rec(a)
		}
		switch t.Op {
		case OpVar:
			vars = append(vars, t)
		case OpSelect:
			sels = append(sels, t)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return
}

func parseVal(s string) (uint64, bool) {
	s = strings.TrimSpace(s)
	switch {
	case s == "true":
		return 1, true
	case s == "false":
		return 0, true
	case strings.HasPrefix(s, "#x"):
		v, e := strconv.ParseUint(s[2:], 16, 64)
		return v, e == nil
	case strings.HasPrefix(s, "#b"):
		v, e := strconv.ParseUint(s[2:], 2, 64)
		return v, e == nil
	}
	return 0, false
}

// readSexp reads one balanced s-expression (or atom line).
func readSexp(r *bufio.Reader) (string, error) {
	var b strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		c, e := r.ReadByte()
		if e != nil {
			return b.String(), e
		}
		if !started && (c == ' ' || c == '\n' || c == '\r' || c == '\t') {
			continue
		}
		started = true
		b.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		switch c {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return b.String(), nil
			}
		case '\n':
			if depth == 0 {
				return strings.TrimSpace(b.String()), nil
			}
		}
	}
}

// splitPairs parses ((ref val)(ref val)...) into the list of values.
func splitPairs(s string) ([]string, bool) {
	var vals []string
	s = strings.TrimSpace(s)
	if len(s) < 2 || s[0] != '(' {
		return nil, false
	}
	s = s[1 : len(s)-1]
	i := 0
	for i < len(s) {
		if s[i] != '(' {
			i++
			continue
		}
		depth := 0
		inBar := false
		j := i
		for ; j < len(s); j++ {
			if s[j] == '|' {
				inBar = !inBar
			}
			if inBar {
				continue
			}
			if s[j] == '(' {
				depth++
			}
			if s[j] == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		p := s[i+1 : j]
		k := strings.LastIndexByte(p, ' ')
		if k < 0 {
			return nil, false
		}
		vals = append(vals, strings.TrimSpace(p[k+1:]))
		i = j + 1
	}
	return vals, true
}

func buildModel(vars, sels []*Term, vals []string) (*Model, bool) {
	if len(vals) != len(vars)+2*len(sels) {
		return nil, false
	}
	m := newModel()
	for i, v := range vars {
		x, ok := parseVal(vals[i])
		if !ok {
			return nil, false
		}
		m.Vars[v.Name] = x
	}
	for i, t := range sels {
		ix, ok1 := parseVal(vals[len(vars)+2*i])
		x, ok2 := parseVal(vals[len(vars)+2*i+1])
		if !ok1 || !ok2 {
			return nil, false
		}
		if m.Arrs[t.Name] == nil {
			m.Arrs[t.Name] = map[uint64]uint64{}
		}
		m.Arrs[t.Name][ix] = x
	}
	return m, true
}

func getValueCmd(vars, sels []*Term) string {
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, v := range vars {
		b.WriteString(v.ref() + " ")
	}
	for _, t := range sels {
		b.WriteString(t.Args[0].ref() + " " + t.ref() + " ")
	}
	b.WriteString("))\n")
	return b.String()
}

func modelOK(m *Model, ts []*Term) bool {
	for _, t := range ts {
		if m.Eval(t) != 1 {
			return false
		}
	}
	return true
}

// satPC: the model satisfies every condition of p.
func (m *Model) satPC(p *PC) bool {
	if p == nil {
		return true
	}
	if v, ok := m.pcs[p]; ok {
		return v
	}
	v := m.satPC(p.prev) && (p.derived || m.Eval(p.c) == 1)
	m.pcs[p] = v
	return v
}

// cached: a known model satisfies the path condition and c.
func (s *Solver) cached(p *PC, c *Term) bool {
	for i := len(s.models) - 1; i >= 0; i-- {
		m := s.models[i]
		if m.satPC(p) && m.Eval(c) == 1 {
			s.CacheHits++
			copy(s.models[i:], s.models[i+1:])
			s.models[len(s.models)-1] = m
			return true
		}
	}
	return false
}

// Check decides the conjunction.  hard=true allows the one-shot fallback.
func (s *Solver) Check(conds []*Term, hard bool) (Verdict, *Model) {
	var cs []*Term
	for _, c := range conds {
		if c == s.tb.False {
			return Unsat, nil
		}
		if c != s.tb.True {
			cs = append(cs, c)
		}
	}
	for i := len(s.models) - 1; i >= 0; i-- {
		if modelOK(s.models[i], cs) {
			s.CacheHits++
			m := s.models[i]
			if i != len(s.models)-1 {
				copy(s.models[i:], s.models[i+1:])
				s.models[len(s.models)-1] = m
			}
			return Sat, m
		}
	}
	s.Queries++
	t0 := time.Now()
	s.setTimeout(hard)
	v, m := s.incremental(cs)
	if v == Unknown && hard {
		s.OneShots++
		v, m = s.oneShot(cs)
	}
	s.Time += time.Since(t0)
	if traceOn {
		fmt.Printf("S %v hard=%v %.2fs conds=%d last=%.300s\n", v, hard, time.Since(t0).Seconds(), len(cs), showTerm(cs[len(cs)-1], 5))
		if time.Since(t0) > time.Second {
			for _, c := range cs[:len(cs)-1] {
				fmt.Printf("    %.200s\n", showTerm(c, 8))
			}
		}
	}
	switch v {
	case Sat:
		s.BySat++
		if m != nil {
			s.models = append(s.models, m)
			if len(s.models) > 160 {
				s.models = s.models[1:]
			}
		}
	case Unsat:
		s.ByUnsat++
	default:
		s.Unknowns++
	}
	return v, m
}

func (s *Solver) setTimeout(hard bool) {
	t := s.timeout
	if hard && t > 1500 {
		t = 1500
	}
	if s.cmd != nil && t != s.curTimeout {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", t)
		s.curTimeout = t
	}
}

func hasFP(ts []*Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		switch t.Op {
		case OpF32to64, OpF64to32, OpIToF, OpUToF:
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if rec(t) {
			return true
		}
	}
	return false
}

func (s *Solver) incremental(cs []*Term) (Verdict, *Model) {
	if s.cmd == nil {
		s.start()
		if s.err != nil {
			return Unknown, nil
		}
	}
	k := 0
	for k < len(s.stack) && k < len(cs) && s.stack[k] == cs[k] {
		k++
	}
	if d := len(s.stack) - k; d > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", d)
		s.stack = s.stack[:k]
	}
	for _, c := range cs[k:] {
		s.define(s.in, c, s.defined, s.decl, nil, nil)
		fmt.Fprintf(s.in, "(push)\n(assert %s)\n", c.ref())
		s.stack = append(s.stack, c)
	}
	fmt.Fprint(s.in, "(check-sat)\n")
	if s.in.Flush() != nil {
		s.close()
		return Unknown, nil
	}
	line, e := s.readLine()
	if e != nil {
		s.close()
		return Unknown, nil
	}
	var m *Model
	v := Unknown
	switch line {
	case "sat":
		v = Sat
		vars, sels := cone(cs)
		if len(vars)+len(sels) > 0 {
			fmt.Fprint(s.in, getValueCmd(vars, sels))
			s.in.Flush()
			sx, e := readSexp(s.out)
			if e != nil {
				s.close()
				return Unknown, nil
			}
			vals, ok := splitPairs(sx)
			if ok {
				m, ok = buildModel(vars, sels, vals)
			}
			if !ok || !modelOK(m, cs) {
				// solver and evaluator disagree: never trust it
				s.err = fmt.Errorf("model does not satisfy the query (solver/evaluator mismatch): %.200s", sx)
				v, m = Unknown, nil
			}
		} else {
			m = newModel()
		}
	case "unsat":
		v = Unsat
	case "unknown", "timeout":
	default:
		s.err = fmt.Errorf("solver said: %s", line)
		s.close()
		return Unknown, nil
	}
	return v, m
}

func (s *Solver) readLine() (string, error) {
	type res struct {
		l string
		e error
	}
	ch := make(chan res, 1)
	out := s.out
	go func() {
		l, e := readSexp(out)
		ch <- res{l, e}
	}()
	select {
	case r := <-ch:
		return strings.TrimSpace(r.l), r.e
	case <-time.After(time.Duration(s.timeout)*time.Millisecond*3 + 5*time.Second):
		s.cmd.Process.Kill()
		<-ch
		return "", fmt.Errorf("solver hung")
	}
}

// oneShot tries fresh solver processes in parallel on the standalone query.
func (s *Solver) oneShot(cs []*Term) (Verdict, *Model) {
	var b strings.Builder
	def, dec := map[int]bool{}, map[string]bool{}
	for _, c := range cs {
		s.define(&b, c, def, dec, nil, nil)
	}
	for _, c := range cs {
		fmt.Fprintf(&b, "(assert %s)\n", c.ref())
	}
	vars, sels := cone(cs)
	q := b.String()
	gv := ""
	if len(vars)+len(sels) > 0 {
		gv = getValueCmd(vars, sels)
	}
	type res struct {
		v Verdict
		m *Model
	}
	sec := s.oneShotMs / 1000
	if sec < 1 {
		sec = 1
	}
	cmds := [][]string{
		{"z3-new", "-in", "-memory:3000", fmt.Sprintf("-T:%d", sec)},
		{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", s.oneShotMs), "-"},
	}
	ch := make(chan res, len(cmds))
	var procs []*exec.Cmd
	fp := hasFP(cs)
	for i, c := range cmds {
		logic := "(set-logic QF_UFBV)\n"
		if fp {
			logic = "(set-logic QF_UFBVFP)\n"
			if i == 0 {
				logic = ""
			}
		}
		p := exec.Command(c[0], c[1:]...)
		p.Stdin = strings.NewReader(logic + q + "(check-sat)\n" + gv + "(exit)\n")
		procs = append(procs, p)
		go func() {
			out, _ := p.Output()
			r := bufio.NewReader(strings.NewReader(string(out)))
			l, _ := readSexp(r)
			switch strings.TrimSpace(l) {
			case "unsat":
				ch <- res{Unsat, nil}
				return
			case "sat":
				if gv == "" {
					ch <- res{Sat, newModel()}
					return
				}
				sx, _ := readSexp(r)
				if vals, ok := splitPairs(sx); ok {
					if m, ok := buildModel(vars, sels, vals); ok && modelOK(m, cs) {
						ch <- res{Sat, m}
						return
					}
				}
			}
			ch <- res{Unknown, nil}
		}()
	}
	out := res{Unknown, nil}
	for range cmds {
		r := <-ch
		if r.v != Unknown {
			out = r
			break
		}
	}
	for _, p := range procs {
		if p.Process != nil {
			p.Process.Kill()
		}
	}
	return out.v, out.m
}

func (s *Solver) tee(w io.Writer) io.Writer {
	if d := os.Getenv("SMTDUMP"); d != "" {
		f, err := os.Create(d)
		if err == nil {
			return io.MultiWriter(w, f)
		}
	}
	return w
}

var traceOn = os.Getenv("SYMTRACE") != ""

// showTerm prints a term to the given depth (debugging).
func showTerm(t *Term, d int) string {
	if len(t.Args) == 0 || d == 0 {
		return t.ref()
	}
	s := t.body()
	for _, a := range t.Args {
		if len(a.Args) > 0 {
			s = strings.Replace(s, a.ref(), showTerm(a, d-1), 1)
		}
	}
	return s
}
