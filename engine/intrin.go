package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fmtInt(n int) string { return fmt.Sprint(n) }

const symPkg = "verif/harness/sym"

const maxLen = 1 << 20 // symbolic slices: length and capacity up to this

type Conc struct {
	b      Value // pending second operation; nil once run
	maxObj int   // objects with a smaller or equal id are shared
	at     string
	n      int // preemption points passed
	atN    int
}

func (e *Engine) concCompatible(a, b *Conc) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.at == b.at && a.atN == b.atN && (a.b == nil) == (b.b == nil) && a.n == b.n
}

func strArg(v Value) string {
	s, ok := v.(StrV)
	if !ok || s.Opaque {
		panic(unsup("harness label is not a constant string"))
	}
	return s.S
}

func (e *Engine) uniq(st *State, name string) string {
	n := map[string]int{}
	for k, v := range st.names {
		n[k] = v
	}
	n[name]++
	st.names = n
	if n[name] > 1 {
		return fmt.Sprintf("%s#%d", name, n[name])
	}
	return name
}

func ret(st *State, vs ...Value) []Exit { return []Exit{{kind: exReturn, st: st, vals: vs}} }

func (e *Engine) intrinsic(fn *ssa.Function, args []Value, st *State, pos string) ([]Exit, bool) {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if o.Pkg == nil && o.Object() == nil {
		return nil, false
	}
	pkg := ""
	if o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	} else if o.Object().Pkg() != nil {
		pkg = o.Object().Pkg().Path()
	}
	name := o.Name()
	recv := ""
	if r := o.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	tb := e.tb
	if name == "init" && o.Synthetic != "" && o.Pkg != nil {
		if !e.wantInit(o.Pkg) {
			return ret(st), true
		}
		return nil, false
	}
	if pkg == "sync" || pkg == "sync/atomic" || pkg == "fmt" || pkg == "errors" || pkg == "internal/bytealg" {
		n := "verif_" + strings.ReplaceAll(pkg, "/", "_") + "_"
		if recv != "" {
			n += recv + "_"
		}
		if sp := e.prog.ImportedPackage(symPkg); sp != nil {
			if m := sp.Func(n + name); m != nil {
				return e.execFunc(m, args, nil, st, -1), true
			}
		}
	}
	if e.model != nil {
		if xs, ok := e.genIntrinsic(o, pkg, recv, name, args, st, pos); ok {
			return xs, true
		}
	}
	switch pkg {
	case symPkg:
		return e.symCall(fn, name, args, st, pos)
	case "sync":
		if recv == "Mutex" || recv == "RWMutex" {
			return e.mutex(recv, name, args, st, pos)
		}
		panic(unsup("sync.%s.%s", recv, name))
	case "fmt":
		switch name {
		case "Sprintf", "Sprint", "Sprintln":
			return ret(st, e.sprint(name, args, st)), true
		case "Printf", "Println", "Print":
			return ret(st, tb.Const(64, 0), IfaceV{}), true
		}
		panic(unsup("fmt.%s", name))
	case "math":
		switch name {
		case "Float32bits", "Float32frombits", "Float64bits", "Float64frombits":
			return ret(st, args[0]), true
		}
	case "runtime":
		switch name {
		case "KeepAlive", "Gosched", "GC":
			return ret(st), true
		}
		panic(unsup("runtime.%s", name))
	}
	return nil, false
}

// wantInit: packages whose initialisers are executed.
func (e *Engine) wantInit(p *ssa.Package) bool {
	path := p.Pkg.Path()
	if strings.HasPrefix(path, "verif/") || strings.HasPrefix(path, "github.com/superwhiskers/crunch") {
		e.inited[p] = true
		return true
	}
	switch path {
	case "math/bits", "unicode/utf8":
		e.inited[p] = true
		return true
	case "io", "bufio", "bytes":
		if e.model != nil {
			e.inited[p] = true
			return true
		}
	}
	return false
}

func (e *Engine) mutex(recv, name string, args []Value, st *State, pos string) ([]Exit, bool) {
	tb := e.tb
	p := args[0].(PtrV)
	if p.Obj == 0 {
		return []Exit{{kind: exPanic, st: st, pv: e.rtPanic("nil mutex")}}, true
	}
	k := ptrKey(p)
	cur, ok := st.locks[k]
	if !ok {
		cur = tb.Const(8, 0)
	}
	zero, one := tb.Const(8, 0), tb.Const(8, 1)
	var out []Exit
	// step: ok-condition -> new lock value; otherwise fatal
	step := func(okc, nv *Term, msg string) {
		bad := tb.BNot(okc)
		if e.feasible(st, bad) {
			s2 := st.fork()
			e.assume(s2, bad)
			out = append(out, Exit{kind: exFatal, st: s2, msg: msg, pos: pos})
			if !e.feasible(st, okc) {
				return
			}
			e.assume(st, okc)
		}
		st.locks[k] = nv
		out = append(out, Exit{kind: exReturn, st: st})
	}
	st.locks = copyLocks(st.locks)
	switch name {
	case "Lock":
		step(tb.Eq(cur, zero), one, "deadlock: lock acquired while held")
	case "Unlock":
		step(tb.Eq(cur, one), zero, "unlock of unlocked mutex")
	case "RLock":
		step(tb.BNot(tb.Eq(cur, one)), tb.Ite(tb.Eq(cur, zero), tb.Const(8, 2), tb.Add(cur, one)), "deadlock: read lock acquired while write-locked")
	case "RUnlock":
		step(tb.Ult(one, cur), tb.Ite(tb.Eq(cur, tb.Const(8, 2)), zero, tb.Sub(cur, one)), "RUnlock of unlocked mutex")
	case "TryLock":
		free := tb.Eq(cur, zero)
		st.locks[k] = tb.Ite(free, one, cur)
		out = append(out, Exit{kind: exReturn, st: st, vals: []Value{free}})
	default:
		panic(unsup("sync.%s.%s", recv, name))
	}
	return out, true
}

func copyLocks(m map[string]*Term) map[string]*Term {
	n := make(map[string]*Term, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (e *Engine) symCall(fn *ssa.Function, name string, args []Value, st *State, pos string) ([]Exit, bool) {
	tb := e.tb
	mkvar := func(w int) *Term {
		return tb.Var(e.uniq(st, strArg(args[0])), w)
	}
	mkdata := func(w int) *Term {
		return tb.DataVar(e.uniq(st, strArg(args[0])), w)
	}
	mkslice := func(ew int) []Exit {
		n := e.uniq(st, strArg(args[0]))
		l, c := args[1].(*Term), args[2].(*Term)
		id := e.alloc(st, &ArrObj{EW: ew, Base: fmt.Sprintf("%s:%d", n, ew)})
		return ret(st, SliceV{id, tb.Const(64, 0), l, c})
	}
	switch name {
	case "Int64", "Int":
		return ret(st, mkvar(64)), true
	case "Uint64":
		return ret(st, mkdata(64)), true
	case "Uint32":
		return ret(st, mkdata(32)), true
	case "Uint16":
		return ret(st, mkdata(16)), true
	case "Uint8":
		return ret(st, mkdata(8)), true
	case "UintN":
		k := args[1].(*Term)
		if !isC(k) || k.C < 1 || k.C > 64 {
			panic(unsup("UintN width"))
		}
		return ret(st, tb.Zext(mkvar(int(k.C)), 64)), true
	case "Bool":
		return ret(st, tb.Eq(mkvar(8), tb.Const(8, 1))), true
	case "raw8":
		return mkslice(8), true
	case "raw16", "rawI16":
		return mkslice(16), true
	case "raw32", "rawI32", "rawF32":
		return mkslice(32), true
	case "raw64", "rawI64", "rawF64":
		return mkslice(64), true
	case "Choose":
		n := args[1].(*Term)
		if !isC(n) {
			panic(unsup("Choose with symbolic count"))
		}
		nm := e.uniq(st, strArg(args[0]))
		k, ok := e.chosen[nm]
		if !ok {
			for a := n.C - 1; a > 0 && a < n.C; a-- {
				m := map[string]uint64{nm: a}
				for x, y := range e.chosen {
					m[x] = y
				}
				e.pending = append(e.pending, m)
			}
			e.chosen[nm] = 0
		}
		if k >= n.C {
			return nil, true // another path has fewer alternatives
		}
		st.choices += fmt.Sprintf("%s=%d;", nm, k)
		return []Exit{{kind: exReturn, st: st, vals: []Value{tb.Const(64, k)}}}, true
	case "Assume":
		c := args[0].(*Term)
		if !e.feasible(st, c) {
			return nil, true
		}
		e.assumeIf(st, c)
		return ret(st), true
	case "Assert":
		return e.assert(st, args[0].(*Term), strArg(args[1]), pos), true
	case "Cover":
		l := strArg(args[0])
		if !e.covers[l] {
			if v, _ := e.sv.Check(st.pc.list(), true); v == Sat {
				e.covers[l] = true
			}
		}
		return ret(st), true
	case "Observe":
		v := args[1].(*Term)
		st.obs = &ObsNode{prev: st.obs, n: 1, name: strArg(args[0]), v: v}
		return ret(st), true
	case "Try":
		xs := e.callValue(args[0], nil, nil, st, -1)
		var out []Exit
		for _, x := range xs {
			switch x.kind {
			case exReturn:
				out = append(out, Exit{kind: exReturn, st: x.st, vals: []Value{IfaceV{}, tb.False}})
			case exPanic:
				out = append(out, Exit{kind: exReturn, st: x.st, vals: []Value{x.pv, tb.True}})
			default:
				out = append(out, x)
			}
		}
		return e.mergeExits(out), true
	case "Locked":
		p := args[0].(PtrV)
		cur, ok := st.locks[ptrKey(p)]
		if !ok {
			cur = tb.Const(8, 0)
		}
		return ret(st, tb.BNot(tb.Eq(cur, tb.Const(8, 0)))), true
	case "SameBacking":
		a, b := args[0].(SliceV), args[1].(SliceV)
		return ret(st, tb.BAnd(tb.Bool(a.Obj == b.Obj), tb.Eq(a.Off, b.Off))), true
	case "Tier":
		if e.thorough {
			return ret(st, tb.Const(64, 1)), true
		}
		return ret(st, tb.Const(64, 0)), true
	case "Unroll":
		e.unroll = int(args[0].(*Term).C)
		return ret(st), true
	case "Snapshot", "SnapU16", "SnapU32", "SnapU64", "SnapI16", "SnapI32", "SnapI64", "SnapF32", "SnapF64":
		s := args[0].(SliceV)
		if s.Obj == 0 {
			return ret(st, s), true
		}
		o, ok := st.heap.at(s.Obj).(*ArrObj)
		if !ok {
			panic(unsup("Snapshot of %T", st.heap.at(s.Obj)))
		}
		return ret(st, SliceV{e.alloc(st, o), s.Off, s.Len, s.Cap}), true
	case "Concurrent":
		if st.conc != nil {
			panic(unsup("nested Concurrent"))
		}
		s := st.fork()
		s.conc = &Conc{b: args[1], maxObj: e.seq}
		xs := e.callValue(args[0], nil, nil, s, -1)
		var out []Exit
		for _, x := range xs {
			if x.kind != exReturn {
				out = append(out, x)
				continue
			}
			c := x.st.conc
			if c.b == nil {
				x.st.conc = nil
				out = append(out, x)
				continue
			}
			b := c.b
			if c.n > e.concMax {
				e.concMax = c.n
			}
			x.st.conc = nil
			x.st.choices += "sched=end;"
			out = append(out, e.callValue(b, nil, nil, x.st, -1)...)
		}
		return out, true
	}
	// plain Go helpers in package sym are executed
	return nil, false
}

// preemptible: may another goroutine's operation run before this instruction?
func (e *Engine) preemptible(fr *frame, w *work, ins ssa.Instruction) bool {
	c := w.st.conc
	if c == nil || c.b == nil {
		return false
	}
	for _, l := range w.st.locks {
		if !isC(l) || l.C != 0 {
			return false
		}
	}
	shared := func(v ssa.Value) bool {
		if _, ok := v.(*ssa.Global); ok {
			return false
		}
		p, ok := e.val(fr, w.env, w.st, v).(PtrV)
		return ok && p.Obj != 0 && p.Obj <= c.maxObj
	}
	switch i := ins.(type) {
	case *ssa.UnOp:
		return i.Op.String() == "*" && inTarget(fr.fn) && shared(i.X)
	case *ssa.Store:
		return inTarget(fr.fn) && shared(i.Addr)
	case *ssa.Call:
		if f := i.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" && strings.HasSuffix(f.Name(), "Lock") && f.Name() != "Unlock" {
			return true
		}
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && (b.Name() == "copy" || b.Name() == "append") && inTarget(fr.fn) {
			return true
		}
	}
	return false
}

func inTarget(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return false
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/superwhiskers/crunch")
}

// preempt forks a schedule in which the pending operation runs here.
func (e *Engine) preempt(fr *frame, w *work) bool {
	s2 := w.st.fork()
	b := s2.conc.b
	s2.conc.b = nil
	ins := w.blk.Instrs[w.idx]
	at := e.posOf(ins.Pos())
	s2.conc.at = at
	s2.conc.atN = w.st.conc.n
	s2.choices += fmt.Sprintf("sched=%d@%s;", w.st.conc.n, at)
	w.st.conc.n++
	c := s2.conc
	s2.conc = nil
	for _, x := range e.callValue(b, nil, nil, s2, -1) {
		switch x.kind {
		case exReturn:
			x.st.conc = &Conc{at: c.at, atN: c.atN, n: c.n}
			nw := &work{blk: w.blk, idx: w.idx, st: x.st, defers: w.defers, iters: w.iters, key: w.key, skip: true}
			nw.env = append([]Value(nil), w.env...)
			e.exec(fr, nw)
		case exPanic:
			x.st.conc = &Conc{}
			fr.exits = append(fr.exits, Exit{kind: exFatal, st: x.st, msg: "uncaught panic in second operation"})
		default:
			fr.exits = append(fr.exits, x)
		}
	}
	return true
}

func parseChoices(s string) map[string]int64 {
	m := map[string]int64{}
	for _, p := range strings.Split(s, ";") {
		var v int64
		if i := strings.LastIndexByte(p, '='); i > 0 {
			if _, err := fmt.Sscan(p[i+1:], &v); err == nil {
				m[p[:i]] = v
			}
		}
	}
	return m
}

func schedOf(s string) string {
	for _, p := range strings.Split(s, ";") {
		if strings.HasPrefix(p, "sched=") {
			return p[6:]
		}
	}
	return ""
}

func (e *Engine) addViolation(st *State, label, kind, pos string, m *Model) {
	k := label + "|" + schedOf(st.choices)
	if e.violSeen[k] && len(e.violations) > 40 {
		return
	}
	if e.violSeen[label] && kind != "sched" && schedOf(st.choices) == "" {
		n := 0
		for _, v := range e.violations {
			if v.Label == label {
				n++
			}
		}
		if n >= 3 {
			return
		}
	}
	e.violSeen[k], e.violSeen[label] = true, true
	v := &Violation{Harness: e.harness, Label: label, Kind: kind, Choices: parseChoices(st.choices), Model: m, Pos: pos, Sched: schedOf(st.choices)}
	e.violations = append(e.violations, v)
	if e.onViol != nil {
		e.onViol(v)
	}
}

func (e *Engine) assert(st *State, c *Term, label, pos string) []Exit {
	e.oblig++
	if c == e.tb.True {
		e.discharged++
		e.byRewriting++
		return ret(st)
	}
	verdict := Unsat
	var model *Model
	rewritten := true
	for _, p := range e.cases(st.pc) {
		if p == nil {
			continue
		}
		q := e.simplifyUnder(p, c)
		if q == e.tb.True {
			continue
		}
		rewritten = false
		var v Verdict
		var m *Model
		if parts := e.tb.bitwise(q); parts != nil {
			for _, t := range parts {
				if v, m = e.sv.Check(append(p.list(), e.tb.BNot(t)), true); v != Unsat {
					break
				}
			}
			if v == Unsat {
				continue
			}
		}
		if v != Sat {
			v, m = e.sv.Check(append(p.list(), e.tb.BNot(q)), true)
		}
		if v == Sat {
			verdict, model = Sat, m
			break
		}
		if v == Unknown {
			verdict = Unknown
		}
	}
	switch verdict {
	case Unsat:
		e.discharged++
		if rewritten {
			e.byRewriting++
			e.audit(&e.rwAudit, st.pc, e.tb.BNot(c))
		}
		return ret(st)
	case Sat:
		e.addViolation(st, label, "assert", pos, model)
	default:
		e.inc("solver gave no answer for %s", label)
	}
	if !e.feasible(st, c) {
		return nil
	}
	e.assume(st, c)
	return ret(st)
}

// finishPath handles the end of a harness path.
func (e *Engine) finish(xs []Exit) {
	for _, x := range xs {
		v, m := e.sv.Check(x.st.pc.list(), true)
		if v == Unsat {
			continue
		}
		switch x.kind {
		case exFatal:
			if v == Unknown {
				e.inc("solver gave no answer for a fatal path")
				continue
			}
			e.oblig++
			e.addViolation(x.st, "fatal: "+x.msg, "fatal", x.pos, m)
		case exPanic:
			if v == Unknown {
				e.inc("solver gave no answer for a panicking path")
				continue
			}
			e.oblig++
			e.addViolation(x.st, "uncaught panic: "+e.panicText(x.pv), "panic", x.pos, m)
		default:
			if v == Unknown {
				e.inc("solver gave no answer for the end of a path")
				continue
			}
			e.covers["end"] = true
			if (len(e.traces) < e.maxTraces || e.runs&(e.runs-1) == 0 && len(e.traces) < 4*e.maxTraces) && m != nil {
				t := Trace{Choices: parseChoices(x.st.choices), Model: m}
				if schedOf(x.st.choices) == "" {
					for o := x.st.obs; o != nil; o = o.prev {
						t.Obs = append([]ObsVal{{o.name, m.Eval(o.v)}}, t.Obs...)
					}
				}
				e.traces = append(e.traces, t)
			}
		}
	}
}

func (e *Engine) panicText(v Value) string {
	if iv, ok := v.(IfaceV); ok {
		if iv.T == rtErrType {
			return "runtime error"
		}
		if s, ok := iv.V.(*StructV); ok && len(s.F) == 2 {
			if t, ok := s.F[1].(StrV); ok {
				return t.S
			}
		}
		if s, ok := iv.V.(StrV); ok {
			return s.S
		}
		if iv.T != nil {
			return iv.T.String()
		}
	}
	return "?"
}

// sprint formats if everything is concrete.
func (e *Engine) sprint(name string, args []Value, st *State) StrV {
	var in []interface{}
	l, ok := args[len(args)-1].(SliceV)
	if !ok || !isC(l.Len) || !isC(l.Off) {
		return StrV{Opaque: true}
	}
	if l.Obj != 0 && l.Len.C > 0 {
		c, ok := st.heap.at(l.Obj).(*CellObj)
		if !ok {
			return StrV{Opaque: true}
		}
		arr := c.V.(*ArrayV)
		for k := uint64(0); k < l.Len.C; k++ {
			iv, ok := arr.E[l.Off.C+k].(IfaceV)
			if !ok {
				return StrV{Opaque: true}
			}
			b, ok := iv.T.(*types.Basic)
			if !ok {
				return StrV{Opaque: true}
			}
			switch x := iv.V.(type) {
			case StrV:
				if name == "Sprint" && x.Sym != nil && l.Len.C == 1 {
					return x
				}
				if x.Opaque {
					return StrV{Opaque: true}
				}
				in = append(in, x.S)
			case *Term:
				if !isC(x) {
					return StrV{Opaque: true}
				}
				switch b.Kind() {
				case types.Int, types.Int64:
					in = append(in, int(x.C))
				case types.Bool:
					in = append(in, x == e.tb.True)
				case types.Uint8:
					in = append(in, uint8(x.C))
				default:
					return StrV{Opaque: true}
				}
			default:
				return StrV{Opaque: true}
			}
		}
	}
	switch name {
	case "Sprint":
		return StrV{S: fmt.Sprint(in...)}
	case "Sprintln":
		return StrV{S: fmt.Sprintln(in...)}
	}
	f, ok := args[0].(StrV)
	if !ok || f.Opaque {
		return StrV{Opaque: true}
	}
	return StrV{S: fmt.Sprintf(f.S, in...)}
}
