package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) unsupported { return unsupported{fmt.Sprintf(f, a...)} }

type Violation struct {
	Harness string           `json:"harness"`
	Label   string           `json:"label"`
	Kind    string           `json:"kind"`
	Choices map[string]int64 `json:"choices"`
	Model   *Model           `json:"-"`
	Pos     string           `json:"pos"`
	Known   string           `json:"known,omitempty"`
	Sched   string           `json:"sched,omitempty"`
}

type Trace struct {
	Choices map[string]int64
	Model   *Model
	Obs     []ObsVal
}
type ObsVal struct {
	Name string
	Val  uint64
}

type Engine struct {
	tb    *TB
	sv    *Solver
	prog  *ssa.Program
	sizes types.Sizes
	fset  *token.FileSet

	seq      int
	fns      map[*ssa.Function]*fnInfo
	globals  map[*ssa.Global]int
	initH    map[int]interface{}
	rmemo    map[readKey]*Term
	lia      map[*PC]*liaCtx
	noLIA    bool
	noLazy   bool
	thorough bool
	trace    bool
	liaHits  int
	au       *Solver
	auditOff bool
	liaAudit Audit
	rwAudit  Audit
	inited   map[*ssa.Package]bool

	unroll   int
	maxPaths int
	harness  string
	model    *ssa.Package

	// statistics
	encoded     map[string]int
	instrs      int
	paths       int
	merges      int
	mergeFails  int
	concMax     int // points at which the first of two operations can be interrupted
	oblig       int
	discharged  int
	byRewriting int
	infeasible  int
	maxIter     int
	incomplete  map[string]int
	violations  []*Violation
	violSeen    map[string]bool
	covers      map[string]bool
	coverSites  map[string]bool
	traces      []Trace
	maxTraces   int
	expectFail  bool
	depth       int
	oneShotN    int

	// the run in progress: the alternatives taken, and those still to do
	chosen  map[string]uint64
	pending []map[string]uint64
	runs    int
	onViol  func(*Violation)
}

// halt makes the engine give up at the next opportunity.
func (e *Engine) halt(why string) { e.tb.stop.CompareAndSwap(nil, &why) }

func newEngine(prog *ssa.Program, unroll int) *Engine {
	tb := newTB()
	e := &Engine{tb: tb, sv: newSolver(tb, 3000, 60000), prog: prog, sizes: types.SizesFor("gc", "amd64"), fset: prog.Fset,
		fns: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]int{}, initH: map[int]interface{}{}, rmemo: map[readKey]*Term{}, lia: map[*PC]*liaCtx{},
		inited: map[*ssa.Package]bool{}, unroll: unroll, maxPaths: 2000000,
		encoded: map[string]int{}, incomplete: map[string]int{}, violSeen: map[string]bool{}, covers: map[string]bool{}, coverSites: map[string]bool{}, maxTraces: 2}
	e.trace = os.Getenv("SYMTRACE") != ""
	return e
}

func (e *Engine) inc(f string, a ...interface{}) { e.incomplete[fmt.Sprintf(f, a...)]++ }

/* function info: registers, liveness, weak topological order */

type fnInfo struct {
	reg    map[ssa.Value]int
	nreg   int
	pos    []int    // block index -> position
	heads  [][]int  // block index -> enclosing component heads, outermost first
	liveIn [][]bool // block index -> live registers (phis of the block included)
	ishead []bool
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.fns[fn]; ok {
		return i
	}
	in := &fnInfo{reg: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		if _, ok := in.reg[v]; !ok {
			in.reg[v] = in.nreg
			in.nreg++
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	n := len(fn.Blocks)
	// WTO
	in.pos = make([]int, n)
	in.heads = make([][]int, n)
	in.ishead = make([]bool, n)
	next := 0
	var wto func(nodes map[int]bool, entry int, heads []int)
	wto = func(nodes map[int]bool, entry int, heads []int) {
		// Tarjan SCC restricted to nodes
		index := map[int]int{}
		low := map[int]int{}
		on := map[int]bool{}
		var st []int
		var sccs [][]int
		c := 0
		var strong func(v int)
		strong = func(v int) {
			c++
			index[v], low[v] = c, c
			st = append(st, v)
			on[v] = true
			for _, s := range fn.Blocks[v].Succs {
				w := s.Index
				if !nodes[w] {
					continue
				}
				if index[w] == 0 {
					strong(w)
					if low[w] < low[v] {
						low[v] = low[w]
					}
				} else if on[w] && index[w] < low[v] {
					low[v] = index[w]
				}
			}
			if low[v] == index[v] {
				var comp []int
				for {
					w := st[len(st)-1]
					st = st[:len(st)-1]
					on[w] = false
					comp = append(comp, w)
					if w == v {
						break
					}
				}
				sccs = append(sccs, comp)
			}
		}
		if nodes[entry] {
			strong(entry)
		}
		var rest []int
		for v := range nodes {
			rest = append(rest, v)
		}
		sort.Ints(rest)
		for _, v := range rest {
			if index[v] == 0 {
				strong(v)
			}
		}
		for i := len(sccs) - 1; i >= 0; i-- {
			comp := sccs[i]
			self := false
			for _, s := range fn.Blocks[comp[0]].Succs {
				if s.Index == comp[0] {
					self = true
				}
			}
			if len(comp) == 1 && !self {
				in.pos[comp[0]] = next
				next++
				in.heads[comp[0]] = heads
				continue
			}
			// head: the entry of the component
			inC := map[int]bool{}
			for _, v := range comp {
				inC[v] = true
			}
			head := -1
			sort.Ints(comp)
			for _, v := range comp {
				for _, p := range fn.Blocks[v].Preds {
					if !inC[p.Index] && nodes[p.Index] && head < 0 {
						head = v
					}
				}
				if v == entry {
					head = v
				}
			}
			if head < 0 {
				for _, v := range comp {
					for _, p := range fn.Blocks[v].Preds {
						if !inC[p.Index] && head < 0 {
							head = v
						}
					}
				}
			}
			if head < 0 {
				head = comp[0]
			}
			in.ishead[head] = true
			hs := append(append([]int(nil), heads...), head)
			in.pos[head] = next
			next++
			in.heads[head] = hs
			delete(inC, head)
			if len(inC) > 0 {
				// entry for the rest: first successor of head inside
				en := -1
				for _, s := range fn.Blocks[head].Succs {
					if inC[s.Index] {
						en = s.Index
						break
					}
				}
				wto(inC, en, hs)
			}
		}
	}
	all := map[int]bool{}
	for i := range fn.Blocks {
		all[i] = true
	}
	wto(all, 0, nil)
	// liveness
	use := make([][]bool, n)
	def := make([][]bool, n)
	in.liveIn = make([][]bool, n)
	liveOut := make([][]bool, n)
	for i, b := range fn.Blocks {
		use[i] = make([]bool, in.nreg)
		def[i] = make([]bool, in.nreg)
		in.liveIn[i] = make([]bool, in.nreg)
		liveOut[i] = make([]bool, in.nreg)
		var ops []*ssa.Value
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); !ok {
				ops = ins.Operands(ops[:0])
				for _, o := range ops {
					if *o == nil {
						continue
					}
					if r, ok := in.reg[*o]; ok && !def[i][r] {
						use[i][r] = true
					}
				}
				if v, ok := ins.(ssa.Value); ok {
					def[i][in.reg[v]] = true
				}
			}
			// phis count as live-in of their own block (assigned on the edge)
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			for _, s := range b.Succs {
				for r, l := range in.liveIn[s.Index] {
					if l {
						isPhi := false
						for _, ins := range s.Instrs {
							p, ok := ins.(*ssa.Phi)
							if !ok {
								break
							}
							if in.reg[p] == r {
								isPhi = true
							}
						}
						if !isPhi && !liveOut[i][r] {
							liveOut[i][r] = true
							ch = true
						}
					}
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if r, ok := in.reg[ph.Edges[pi]]; ok && !liveOut[i][r] {
							liveOut[i][r] = true
							ch = true
						}
					}
				}
			}
			for r := 0; r < in.nreg; r++ {
				l := use[i][r] || (liveOut[i][r] && !def[i][r])
				if l && !in.liveIn[i][r] {
					in.liveIn[i][r] = true
					ch = true
				}
			}
		}
		_ = ch
	}
	// the recover block needs every alloc of named results: keep what it uses
	if fn.Recover != nil {
		for r, l := range in.liveIn[fn.Recover.Index] {
			if l {
				for i := range in.liveIn {
					in.liveIn[i][r] = true
				}
			}
		}
	}
	e.fns[fn] = in
	return in
}

/* execution */

type exitKind int

const (
	exReturn exitKind = iota
	exPanic
	exFatal
)

type Exit struct {
	kind exitKind
	st   *State
	vals []Value // results
	pv   Value   // panic value
	msg  string  // fatal
	pos  string
}

type work struct {
	blk    *ssa.BasicBlock
	idx    int
	st     *State
	env    []Value
	defers *DeferNode
	iters  map[int]int
	key    []int
	skip   bool // preemption already offered at idx
}

type frame struct {
	fn       *ssa.Function
	in       *fnInfo
	q        []*work
	exits    []Exit
	panicIdx int
}

func keyLess(a, b []int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] - b[i]
		}
	}
	return len(a) - len(b)
}

func (e *Engine) tick() {
	e.instrs++
	if r := e.tb.stop.Load(); r != nil {
		panic(unsup("%s", *r))
	}
}

func (e *Engine) execFunc(fn *ssa.Function, args, free []Value, st *State, panicIdx int) []Exit {
	if fn.Blocks == nil {
		panic(unsup("no body for %s", fn))
	}
	e.depth++
	if e.depth > 200 {
		panic(unsup("recursion too deep in %s", fn))
	}
	defer func() { e.depth-- }()
	e.encoded[fnName(fn)]++
	in := e.info(fn)
	fr := &frame{fn: fn, in: in, panicIdx: panicIdx}
	env := make([]Value, in.nreg)
	for i, p := range fn.Params {
		env[in.reg[p]] = args[i]
	}
	for i, f := range fn.FreeVars {
		env[in.reg[f]] = free[i]
	}
	w := &work{blk: fn.Blocks[0], st: st, env: env, iters: map[int]int{}}
	w.key = fr.mkKey(w)
	fr.q = append(fr.q, w)
	e.drain(fr)
	return e.mergeExits(fr.exits)
}

func (e *Engine) drain(fr *frame) {
	for len(fr.q) > 0 {
		// minimal key
		m := 0
		for i := range fr.q {
			if keyLess(fr.q[i].key, fr.q[m].key) < 0 {
				m = i
			}
		}
		k := fr.q[m].key
		var sel []*work
		var rest []*work
		for _, w := range fr.q {
			if keyLess(w.key, k) == 0 {
				sel = append(sel, w)
			} else {
				rest = append(rest, w)
			}
		}
		fr.q = rest
		if len(sel) > 1 {
			sel = e.mergeWork(fr, sel)
		}
		if len(sel) > 1 {
			e.paths += len(sel) - 1
			if e.paths > e.maxPaths {
				panic(unsup("path limit reached in %s", fr.fn))
			}
		}
		for _, w := range sel {
			e.exec(fr, w)
		}
	}
}

func (e *Engine) mergeWork(fr *frame, ws []*work) []*work {
	live := fr.in.liveIn[ws[0].blk.Index]
	for _, w := range ws {
		for r := range w.env {
			if !live[r] && !isPhiReg(fr, w.blk, r) {
				w.env[r] = nil
			}
		}
	}
	var out []*work
	cur := ws[len(ws)-1]
	for i := len(ws) - 2; i >= 0; i-- {
		o := ws[i]
		merged := false
		if cur.defers == o.defers {
			st, vs := e.mergeStates(cur.st, o.st, cur.env, o.env)
			if st != nil {
				cur = &work{blk: cur.blk, idx: cur.idx, st: st, env: vs, defers: cur.defers, iters: cur.iters, key: cur.key}
				merged = true
			}
		}
		if !merged {
			// try the ones already set aside
			for j := range out {
				if out[j].defers != o.defers {
					continue
				}
				st, vs := e.mergeStates(out[j].st, o.st, out[j].env, o.env)
				if st != nil {
					out[j] = &work{blk: o.blk, idx: o.idx, st: st, env: vs, defers: o.defers, iters: o.iters, key: o.key}
					merged = true
					break
				}
			}
		}
		if !merged {
			out = append(out, cur)
			cur = o
		}
	}
	return append(out, cur)
}

func isPhiReg(fr *frame, b *ssa.BasicBlock, r int) bool {
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			return false
		}
		if fr.in.reg[p] == r {
			return true
		}
	}
	return false
}

func (e *Engine) mergeExits(xs []Exit) []Exit {
	if len(xs) < 2 {
		return xs
	}
	var out []Exit
	for i := len(xs) - 1; i >= 0; i-- {
		x := xs[i]
		done := false
		for j := range out {
			y := out[j]
			if x.kind != y.kind || x.kind == exFatal {
				continue
			}
			va, vb := y.vals, x.vals
			if x.kind == exPanic {
				va, vb = []Value{y.pv}, []Value{x.pv}
			}
			st, vs := e.mergeStates(y.st, x.st, va, vb)
			if st == nil {
				continue
			}
			y.st = st
			if x.kind == exPanic {
				y.pv = vs[0]
			} else {
				y.vals = vs
			}
			out[j] = y
			done = true
			break
		}
		if !done {
			out = append(out, x)
		}
	}
	return out
}

func (fr *frame) mkKey(w *work) []int {
	var k []int
	for _, h := range fr.in.heads[w.blk.Index] {
		k = append(k, fr.in.pos[h], w.iters[h])
	}
	return append(k, fr.in.pos[w.blk.Index])
}

// edge moves w along from -> to (state st).
func (e *Engine) edge(fr *frame, w *work, to *ssa.BasicBlock, st *State, env []Value) {
	from := w.blk
	n := &work{blk: to, st: st, env: env, defers: w.defers}
	n.iters = map[int]int{}
	fromHeads := fr.in.heads[from.Index]
	for _, h := range fr.in.heads[to.Index] {
		inside := false
		for _, g := range fromHeads {
			if g == h {
				inside = true
			}
		}
		if inside {
			n.iters[h] = w.iters[h]
		}
		if h == to.Index {
			if inside {
				n.iters[h]++
				if n.iters[h] > e.maxIter {
					e.maxIter = n.iters[h]
				}
				if n.iters[h] > e.unroll {
					if v, _ := e.sv.Check(st.pc.list(), false); v == Unsat {
						return
					}
					e.inc("unwinding bound %d exceeded in %s", e.unroll, fnName(fr.fn))
					return
				}
			}
		}
	}
	// phis
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var vals []Value
	var regs []int
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(fr, w.env, st, p.Edges[pi]))
		regs = append(regs, fr.in.reg[p])
	}
	for i, r := range regs {
		n.env[r] = vals[i]
	}
	n.key = fr.mkKey(n)
	fr.q = append(fr.q, n)
}

func (e *Engine) feasible(st *State, c *Term) bool {
	if c == e.tb.True {
		return true
	}
	if c == e.tb.False {
		return false
	}
	for p, k := st.pc, 0; p != nil && k < 400; p, k = p.prev, k+1 {
		if p.c == c {
			return true // pc itself is feasible
		}
		if e.tb.compl(p.c, c) {
			return false
		}
	}
	if e.sv.cached(st.pc, c) {
		return true
	}
	if !e.noLIA && e.refuted(st.pc, c) {
		e.liaHits++
		e.infeasible++
		e.derive(st, e.tb.BNot(c))
		return false
	}
	cs := append(st.pc.list(), c)
	v, _ := e.sv.Check(cs, false)
	if v == Unsat {
		e.infeasible++
		e.derive(st, e.tb.BNot(c))
	}
	if e.trace {
		fmt.Printf("Q %s %s\n", v, showTerm(c, 6))
	}
	return v != Unsat
}

// notTrivial: c is not syntactically excluded by the path condition.
func (e *Engine) notTrivial(st *State, c *Term) bool {
	for p, k := st.pc, 0; p != nil && k < 400; p, k = p.prev, k+1 {
		if e.tb.compl(p.c, c) {
			return false
		}
	}
	return true
}

// guards: the branch at the end of b leaves a loop or leads to a panic.
func guards(fr *frame, b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if len(fr.in.heads[s.Index]) < len(fr.in.heads[b.Index]) || len(s.Succs) == 0 {
			return true
		}
	}
	return false
}

func (e *Engine) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (e *Engine) rtPanic(msg string) Value { return IfaceV{T: rtErrType, V: StrV{S: "runtime error"}} }

var rtErrType types.Type = types.NewNamed(types.NewTypeName(0, types.NewPackage("runtime", "runtime"), "symRuntimeError", nil), types.Typ[types.String], nil)

// require: cond must hold or the program panics with a runtime error.
// Returns false if the current state cannot continue.
func (e *Engine) require(fr *frame, w *work, cond *Term, msg string) bool {
	if cond == e.tb.True {
		return true
	}
	neg := e.tb.BNot(cond)
	if e.feasible(w.st, neg) {
		bad := w.st.fork()
		e.assume(bad, neg)
		pw := *w
		pw.st = bad
		pw.env = append([]Value(nil), w.env...)
		e.doPanic(fr, &pw, bad, e.rtPanic(msg), w.defers)
		if !e.feasible(w.st, cond) {
			return false
		}
		e.assume(w.st, cond)
	}
	return true
}

// doPanic unwinds within frame fr.
func (e *Engine) doPanic(fr *frame, w *work, st *State, pv Value, defers *DeferNode) {
	if defers == nil {
		fr.exits = append(fr.exits, Exit{kind: exPanic, st: st, pv: pv})
		return
	}
	idx := len(st.panics)
	st.panics = append(append([]PanicRec(nil), st.panics...), PanicRec{val: pv})
	exits := e.callValue(defers.fn, defers.method, defers.args, st, idx)
	for _, x := range exits {
		switch x.kind {
		case exReturn:
			rec := x.st.panics[idx].recovered
			x.st.panics = x.st.panics[:idx]
			if rec {
				e.finishRecovered(fr, w, x.st, defers.prev)
			} else {
				e.doPanic(fr, w, x.st, pv, defers.prev)
			}
		case exPanic:
			x.st.panics = x.st.panics[:idx]
			e.doPanic(fr, w, x.st, x.pv, defers.prev)
		default:
			fr.exits = append(fr.exits, x)
		}
	}
}

func (e *Engine) finishRecovered(fr *frame, w *work, st *State, defers *DeferNode) {
	if defers != nil {
		for _, x := range e.callValue(defers.fn, defers.method, defers.args, st, -1) {
			switch x.kind {
			case exReturn:
				e.finishRecovered(fr, w, x.st, defers.prev)
			case exPanic:
				e.doPanic(fr, w, x.st, x.pv, defers.prev)
			default:
				fr.exits = append(fr.exits, x)
			}
		}
		return
	}
	if fr.fn.Recover != nil {
		n := &work{blk: fr.fn.Recover, st: st, env: append([]Value(nil), w.env...), iters: map[int]int{}}
		n.key = fr.mkKey(n)
		fr.q = append(fr.q, n)
		return
	}
	var res []Value
	rt := fr.fn.Signature.Results()
	for i := 0; i < rt.Len(); i++ {
		res = append(res, e.zero(rt.At(i).Type()))
	}
	fr.exits = append(fr.exits, Exit{kind: exReturn, st: st, vals: res})
}

// exec runs w from w.idx to the end of its block.
func (e *Engine) exec(fr *frame, w *work) {
	instrs := w.blk.Instrs
	for ; w.idx < len(instrs); w.idx++ {
		ins := instrs[w.idx]
		e.tick()
		if w.st.conc != nil && !w.skip && e.preemptible(fr, w, ins) {
			if !e.preempt(fr, w) {
				return
			}
		}
		w.skip = false
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			e.edge(fr, w, w.blk.Succs[0], w.st, w.env)
			return
		case *ssa.If:
			c := e.val(fr, w.env, w.st, i.Cond).(*Term)
			var t, f bool
			if c.data && !isC(c) && !e.noLazy && !guards(fr, w.blk) {
				// both arms rejoin: exploring an infeasible one is sound,
				// so the solver is not asked
				t, f = e.notTrivial(w.st, c), e.notTrivial(w.st, e.tb.BNot(c))
			} else {
				t, f = e.feasible(w.st, c), e.feasible(w.st, e.tb.BNot(c))
			}
			switch {
			case t && f:
				if e.trace {
					fmt.Printf("FORK %s %v\n", fr.fn, e.fset.Position(i.Cond.Pos()))
				}
				st2 := w.st.fork()
				env2 := append([]Value(nil), w.env...)
				e.assume(w.st, c)
				e.assume(st2, e.tb.BNot(c))
				e.edge(fr, w, w.blk.Succs[0], w.st, w.env)
				w2 := *w
				w2.env = env2
				e.edge(fr, &w2, w.blk.Succs[1], st2, env2)
			case t:
				e.edge(fr, w, w.blk.Succs[0], w.st, w.env)
			case f:
				e.edge(fr, w, w.blk.Succs[1], w.st, w.env)
			}
			return
		case *ssa.Return:
			var vs []Value
			for _, r := range i.Results {
				vs = append(vs, e.val(fr, w.env, w.st, r))
			}
			fr.exits = append(fr.exits, Exit{kind: exReturn, st: w.st, vals: vs})
			return
		case *ssa.Panic:
			pv := e.val(fr, w.env, w.st, i.X)
			e.doPanic(fr, w, w.st, pv, w.defers)
			return
		case *ssa.RunDefers:
			if w.defers == nil {
				continue
			}
			d := w.defers
			xs := e.callValue(d.fn, d.method, d.args, w.st, -1)
			e.continueWith(fr, w, xs, func(nw *work, x Exit) { nw.defers = d.prev }, w.idx, d.prev)
			return
		case *ssa.Defer:
			fnv, m, args := e.callArgs(fr, w, &i.Call)
			w.defers = &DeferNode{prev: w.defers, fn: fnv, args: args, method: m}
		case *ssa.Call:
			// builtins without forks are handled inline
			if b, ok := i.Call.Value.(*ssa.Builtin); ok {
				xs, ok2 := e.builtin(fr, w, b, i)
				if !ok2 {
					return
				}
				if xs == nil {
					continue
				}
				if len(xs) == 1 && xs[0].kind == exReturn {
					w.st = xs[0].st
					w.env[fr.in.reg[i]] = one(xs[0].vals)
					continue
				}
				e.continueWith(fr, w, xs, func(nw *work, x Exit) { nw.env[fr.in.reg[i]] = one(x.vals) }, w.idx+1, w.defers)
				return
			}
			fnv, m, args := e.callArgs(fr, w, &i.Call)
			if m != nil {
				if iv, ok := fnv.(IfaceV); ok && iv.T == nil {
					e.doPanic(fr, w, w.st, e.rtPanic("nil interface call"), w.defers)
					return
				}
			} else if fv, ok := fnv.(FuncV); ok && fv.Fn == nil && fv.Builtin == nil {
				e.doPanic(fr, w, w.st, e.rtPanic("nil func call"), w.defers)
				return
			}
			xs := e.callValueP(fnv, m, args, w.st, -1, fr.panicIdx, e.posOf(i.Pos()))
			if len(xs) == 1 && xs[0].kind == exReturn {
				w.st = xs[0].st
				w.env[fr.in.reg[i]] = one(xs[0].vals)
				continue
			}
			e.continueWith(fr, w, xs, func(nw *work, x Exit) { nw.env[fr.in.reg[i]] = one(x.vals) }, w.idx+1, w.defers)
			return
		case *ssa.Store:
			p := e.val(fr, w.env, w.st, i.Addr).(PtrV)
			v := e.val(fr, w.env, w.st, i.Val)
			if p.Obj == 0 {
				e.doPanic(fr, w, w.st, e.rtPanic("nil pointer"), w.defers)
				return
			}
			e.store(w.st, p, v, i.Val.Type())
		case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
			panic(unsup("%T in %s", ins, fr.fn))
		case *ssa.MapUpdate:
			e.mapUpdate(fr, w, i)
		default:
			v, ok := ins.(ssa.Value)
			if !ok {
				panic(unsup("%T in %s", ins, fr.fn))
			}
			r, cont := e.instr(fr, w, v)
			if !cont {
				return
			}
			w.env[fr.in.reg[v]] = r
		}
	}
}

func one(vs []Value) Value {
	switch len(vs) {
	case 0:
		return nil
	case 1:
		return vs[0]
	}
	return &TupleV{vs}
}

// continueWith resumes w at index idx in every normal exit; panics unwind.
func (e *Engine) continueWith(fr *frame, w *work, xs []Exit, set func(*work, Exit), idx int, defers *DeferNode) {
	n := 0
	for _, x := range xs {
		if x.kind == exReturn {
			n++
		}
	}
	if n > 1 {
		e.paths += n - 1
		if e.paths > e.maxPaths {
			panic(unsup("path limit reached in %s", fr.fn))
		}
	}
	for _, x := range xs {
		switch x.kind {
		case exReturn:
			nw := &work{blk: w.blk, idx: idx, st: x.st, defers: defers, iters: w.iters, key: w.key}
			nw.env = append([]Value(nil), w.env...)
			set(nw, x)
			e.exec(fr, nw)
		case exPanic:
			pw := *w
			pw.env = append([]Value(nil), w.env...)
			e.doPanic(fr, &pw, x.st, x.pv, defers)
		default:
			fr.exits = append(fr.exits, x)
		}
	}
}

func (e *Engine) callArgs(fr *frame, w *work, c *ssa.CallCommon) (Value, *types.Func, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, e.val(fr, w.env, w.st, a))
	}
	if c.IsInvoke() {
		return e.val(fr, w.env, w.st, c.Value), c.Method, args
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return FuncV{Builtin: b}, nil, args
	}
	return e.val(fr, w.env, w.st, c.Value), nil, args
}

func (e *Engine) callValue(fnv Value, m *types.Func, args []Value, st *State, panicIdx int) []Exit {
	return e.callValueP(fnv, m, args, st, panicIdx, -1, "")
}

// panicIdx: the callee is a deferred call run because of panic panicIdx.
func (e *Engine) callValueP(fnv Value, m *types.Func, args []Value, st *State, panicIdx, _ int, pos string) []Exit {
	if m != nil {
		iv, ok := fnv.(IfaceV)
		if !ok {
			panic(unsup("invoke on %T", fnv))
		}
		if iv.T == rtErrType {
			return []Exit{{kind: exReturn, st: st, vals: []Value{StrV{S: "runtime error", Opaque: true}}}}
		}
		fn := e.prog.LookupMethod(iv.T, m.Pkg(), m.Name())
		if fn == nil {
			panic(unsup("no method %s on %s", m.Name(), iv.T))
		}
		return e.call(fn, append([]Value{iv.V}, args...), nil, st, panicIdx, pos)
	}
	f, ok := fnv.(FuncV)
	if !ok {
		panic(unsup("call of %T", fnv))
	}
	if f.Builtin != nil {
		return e.builtinDeferred(f.Builtin, args, st, panicIdx)
	}
	if f.Fn == nil {
		return []Exit{{kind: exPanic, st: st, pv: e.rtPanic("nil func")}}
	}
	return e.call(f.Fn, args, f.Free, st, panicIdx, pos)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) call(fn *ssa.Function, args, free []Value, st *State, panicIdx int, pos string) []Exit {
	if xs, ok := e.intrinsic(fn, args, st, pos); ok {
		return xs
	}
	return e.execFunc(fn, args, free, st, panicIdx)
}

/* operands */

func (e *Engine) val(fr *frame, env []Value, st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.globalPtr(st, x)
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Builtin:
		return FuncV{Builtin: x}
	}
	r := env[fr.in.reg[v]]
	if r == nil {
		panic(unsup("undefined register %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (e *Engine) globalPtr(st *State, g *ssa.Global) Value {
	id, ok := e.globals[g]
	if !ok {
		e.seq++
		id = e.seq
		e.globals[g] = id
	}
	if _, ok := st.heap.get(id); !ok {
		if o, ok := e.initH[id]; ok {
			st.heap.set(id, o)
		} else {
			et := g.Type().(*types.Pointer).Elem()
			if !e.inited[g.Pkg] && !isZeroSize(et) {
				if e.model != nil {
					if m := e.model.Var("verif_" + strings.ReplaceAll(g.Pkg.Pkg.Path(), "/", "_") + "_" + g.Name()); m != nil {
						return e.globalPtr(st, m)
					}
				}
				panic(unsup("uninitialised global %s", g))
			}
			st.heap.set(id, e.newObj(et))
		}
	}
	return PtrV{Obj: id}
}

func isZeroSize(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	for k := 0; ok && k < s.NumFields(); k++ {
		ok = isZeroSize(s.Field(k).Type())
	}
	return ok
}

func width(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	case types.Float32:
		return 32, false, true
	case types.Float64, types.UntypedFloat:
		return 64, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// arrayElemWidth: scalar non-bool element width, or 0
func elemWidth(t types.Type) int {
	w, _, ok := width(t)
	if !ok || w == 0 {
		return 0
	}
	return w
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if w, _, ok := width(t); ok {
		if w == 0 {
			return e.tb.Bool(constant.BoolVal(c.Value))
		}
		if isFloat(t) {
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			if w == 32 {
				f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
				return e.tb.Const(32, f32bits(f32))
			}
			return e.tb.Const(64, f64bits(f))
		}
		v := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return e.tb.Const(w, u)
		}
		if s, ok := constant.Int64Val(v); ok {
			return e.tb.Const(w, uint64(s))
		}
	}
	if isString(t) {
		return StrV{S: constant.StringVal(c.Value)}
	}
	panic(unsup("constant %s of type %s", c, t))
}

func (e *Engine) nilSlice() SliceV {
	z := e.tb.Const(64, 0)
	return SliceV{0, z, z, z}
}

func (e *Engine) zero(t types.Type) Value {
	if w, _, ok := width(t); ok {
		if w == 0 {
			return e.tb.False
		}
		return e.tb.Const(w, 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return StrV{}
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return PtrV{}
		}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return e.nilSlice()
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() > 1<<16 {
			panic(unsup("big array type %s", t))
		}
		a := &ArrayV{}
		z := e.zero(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, z)
		}
		return a
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return PtrV{}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.E = append(tv.E, e.zero(u.At(i).Type()))
		}
		return tv
	}
	panic(unsup("zero of %s", t))
}

/* memory */

func (e *Engine) newObj(t types.Type) interface{} {
	if a, ok := t.Underlying().(*types.Array); ok {
		if w := elemWidth(a.Elem()); w > 0 {
			return &ArrObj{EW: w}
		}
	}
	return &CellObj{e.zero(t)}
}

func (e *Engine) alloc(st *State, o interface{}) int {
	e.seq++
	st.heap.set(e.seq, o)
	return e.seq
}

func (e *Engine) load(st *State, p PtrV, t types.Type) Value {
	o, ok := st.heap.get(p.Obj)
	if !ok {
		panic(unsup("dangling object %d", p.Obj))
	}
	switch x := o.(type) {
	case *ArrObj:
		if len(p.Path) == 0 {
			if w := elemWidth(t); w > 0 { // reinterpretation of the array's start
				p = PtrV{p.Obj, []PE{{Idx: e.tb.Const(64, 0)}}}
			} else {
				a, ok := t.Underlying().(*types.Array)
				if !ok {
					panic(unsup("load %s from array", t))
				}
				if elemWidth(a.Elem()) != x.EW {
					panic(unsup("load %s from array of width %d", t, x.EW))
				}
				av := &ArrayV{}
				for i := int64(0); i < a.Len(); i++ {
					av.E = append(av.E, e.arrRead(x, e.tb.Const(64, uint64(i))))
				}
				return av
			}
		}
		if a, ok := t.Underlying().(*types.Array); ok && len(p.Path) == 1 {
			if elemWidth(a.Elem()) == x.EW {
				av := &ArrayV{}
				for i := int64(0); i < a.Len(); i++ {
					av.E = append(av.E, e.arrRead(x, e.tb.Add(p.Path[0].Idx, e.tb.Const(64, uint64(i)))))
				}
				return av
			}
		}
		w := elemWidth(t)
		if w == 0 || len(p.Path) != 1 {
			panic(unsup("load %s from scalar array", t))
		}
		idx := p.Path[0].Idx
		if w == x.EW {
			return e.arrRead(x, idx)
		}
		if w > x.EW && w%x.EW == 0 { // wider view, little-endian
			r := e.tb.Const(w, 0)
			for i := 0; i < w/x.EW; i++ {
				v := e.tb.Zext(e.arrRead(x, e.tb.Add(idx, e.tb.Const(64, uint64(i)))), w)
				r = e.tb.Or(r, e.tb.ShlC(v, i*x.EW))
			}
			return r
		}
		return e.tb.Extract(w-1, 0, e.arrRead(x, idx))
	case *CellObj:
		v := e.follow(x.V, p.Path)
		return e.reinterp(v, t)
	}
	panic(unsup("load from %T", o))
}

// reinterp: scalar content viewed as type t
func (e *Engine) reinterp(v Value, t types.Type) Value {
	switch x := v.(type) {
	case *Term:
		w, _, ok := width(t)
		if ok && w == x.W {
			return x
		}
		if ok && w > 0 && w < x.W {
			return e.tb.Extract(w-1, 0, x)
		}
		if a, isA := t.Underlying().(*types.Array); isA {
			if ew := elemWidth(a.Elem()); ew > 0 && x.W > 0 && int64(x.W) >= a.Len()*int64(ew) {
				av := &ArrayV{}
				for i := 0; i < int(a.Len()); i++ {
					av.E = append(av.E, e.tb.Extract((i+1)*ew-1, i*ew, x))
				}
				return av
			}
		}
		panic(unsup("view of %d-bit cell as %s", x.W, t))
	case *StructV:
		if _, ok := t.Underlying().(*types.Struct); ok {
			return v
		}
		panic(unsup("view of struct as %s", t))
	case *ArrayV:
		if _, ok := t.Underlying().(*types.Array); ok {
			return v
		}
		panic(unsup("view of array as %s", t))
	case StrV:
		if isString(t) {
			return v
		}
	case SliceV:
		if _, ok := t.Underlying().(*types.Slice); ok {
			return v
		}
	case PtrV:
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Basic, *types.Chan:
			return v
		}
	case IfaceV:
		if _, ok := t.Underlying().(*types.Interface); ok {
			return v
		}
	case FuncV:
		if _, ok := t.Underlying().(*types.Signature); ok {
			return v
		}
	case MapV:
		if _, ok := t.Underlying().(*types.Map); ok {
			return v
		}
	}
	panic(unsup("view of %T as %s", v, t))
}

func (e *Engine) follow(v Value, path []PE) Value {
	for _, p := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.F[p.Field]
		case *ArrayV:
			if p.Idx == nil {
				panic(unsup("field of array"))
			}
			if isC(p.Idx) {
				if p.Idx.C >= uint64(len(x.E)) {
					panic(unsup("array path out of range"))
				}
				v = x.E[p.Idx.C]
			} else {
				if len(x.E) == 0 || len(x.E) > 512 {
					panic(unsup("symbolic index into array of %d", len(x.E)))
				}
				r := x.E[len(x.E)-1]
				for i := len(x.E) - 2; i >= 0; i-- {
					r = e.mergeValU(e.tb.Eq(p.Idx, e.tb.Const(64, uint64(i))), x.E[i], r)
				}
				v = r
			}
		default:
			panic(unsup("path into %T", v))
		}
	}
	return v
}

func (e *Engine) mergeValU(g *Term, a, b Value) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			if nm, ok := r.(noMerge); ok {
				panic(unsup("symbolic choice between values: %s", nm.why))
			}
			panic(r)
		}
	}()
	return e.mergeVal(g, a, b)
}

func (e *Engine) update(v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case *StructV:
		f := append([]Value(nil), x.F...)
		f[p.Field] = e.update(f[p.Field], path[1:], nv)
		return &StructV{f}
	case *ArrayV:
		f := append([]Value(nil), x.E...)
		if isC(p.Idx) {
			f[p.Idx.C] = e.update(f[p.Idx.C], path[1:], nv)
		} else {
			if len(f) > 512 {
				panic(unsup("symbolic store into array of %d", len(f)))
			}
			for i := range f {
				f[i] = e.mergeValU(e.tb.Eq(p.Idx, e.tb.Const(64, uint64(i))), e.update(f[i], path[1:], nv), f[i])
			}
		}
		return &ArrayV{f}
	}
	panic(unsup("store path into %T", v))
}

func (e *Engine) store(st *State, p PtrV, v Value, t types.Type) {
	o, ok := st.heap.get(p.Obj)
	if !ok {
		panic(unsup("dangling object %d", p.Obj))
	}
	switch x := o.(type) {
	case *ArrObj:
		if av, ok := v.(*ArrayV); ok {
			base := e.tb.Const(64, 0)
			if len(p.Path) == 1 {
				base = p.Path[0].Idx
			}
			for i, y := range av.E {
				x = e.arrStore(x, e.tb.Add(base, e.tb.Const(64, uint64(i))), y.(*Term))
			}
			st.heap.set(p.Obj, x)
			return
		}
		tv, ok := v.(*Term)
		if !ok || tv.W == 0 {
			panic(unsup("store %T into scalar array", v))
		}
		idx := e.tb.Const(64, 0)
		if len(p.Path) == 1 {
			idx = p.Path[0].Idx
		} else if len(p.Path) > 1 {
			panic(unsup("store path"))
		}
		if tv.W > x.EW && tv.W%x.EW == 0 {
			for i := 0; i < tv.W/x.EW; i++ {
				x = e.arrStore(x, e.tb.Add(idx, e.tb.Const(64, uint64(i))), e.tb.Extract((i+1)*x.EW-1, i*x.EW, tv))
			}
			st.heap.set(p.Obj, x)
			return
		}
		if tv.W < x.EW { // narrow store into the low part
			old := e.arrRead(x, idx)
			tv = e.tb.Or(e.tb.ShlC(e.tb.Zext(e.tb.Extract(x.EW-1, tv.W, old), x.EW), tv.W), e.tb.Zext(tv, x.EW))
		}
		st.heap.set(p.Obj, e.arrStore(x, idx, tv))
	case *CellObj:
		old := e.follow(x.V, p.Path)
		if ot, ok := old.(*Term); ok {
			nt, ok := v.(*Term)
			if !ok || nt.W != ot.W {
				panic(unsup("store of different shape"))
			}
		}
		st.heap.set(p.Obj, &CellObj{e.update(x.V, p.Path, v)})
	default:
		panic(unsup("store to %T", o))
	}
}

func (e *Engine) sliceElemPtr(s SliceV, i *Term) PtrV {
	return PtrV{s.Obj, []PE{{Idx: e.tb.Add(s.Off, i)}}}
}

func (e *Engine) ext64(v *Term, t types.Type) *Term {
	_, sg, _ := width(t)
	if v.W == 64 {
		return v
	}
	if sg {
		return e.tb.Sext(v, 64)
	}
	return e.tb.Zext(v, 64)
}

func (e *Engine) describe(v Value) string { return strings.TrimSpace(fmt.Sprintf("%v", v)) }
