package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

/* values */

type Value interface{}

type StrV struct {
	S      string
	Opaque bool // contents not tracked (formatting output)
	// the bytes of a string made from a symbolic slice (Opaque is set)
	Sym *SliceV
}

type PE struct {
	Field int
	Idx   *Term // nil: Field
}
type PtrV struct {
	Obj  int // 0: nil
	Path []PE
}
type SliceV struct {
	Obj           int // 0: nil slice
	Off, Len, Cap *Term
}
type StructV struct{ F []Value }
type ArrayV struct{ E []Value }
type TupleV struct{ E []Value }
type IfaceV struct {
	T types.Type // nil: nil interface
	V Value
}
type FuncV struct {
	Fn      *ssa.Function
	Builtin *ssa.Builtin
	Free    []Value
}
type MapV struct{ Obj int }

/* objects */

type CellObj struct{ V Value }

type LogNode struct {
	prev  *LogNode
	depth int
	guard *Term
	// store
	idx, val *Term
	// range copy: [start, start+n) from src at srcStart
	n        *Term
	src      *ArrObj
	srcStart *Term
	// run of stores at constant indices within [lo, hi] ending here
	run    bool
	lo, hi uint64
	below  *LogNode
}

// store makes a node for a store and keeps track of the run it is in.
func storeNode(prev *LogNode, guard, idx, val *Term) *LogNode {
	n := &LogNode{prev: prev, depth: depth(prev) + 1, guard: guard, idx: idx, val: val}
	if isC(idx) {
		n.run, n.lo, n.hi, n.below = true, idx.C, idx.C, prev
		if prev != nil && prev.run {
			n.lo, n.hi, n.below = min(n.lo, prev.lo), max(n.hi, prev.hi), prev.below
		}
	}
	return n
}

// ArrObj: array of scalars with arbitrary (symbolic) length.
type ArrObj struct {
	EW   int    // element width in bits
	Base string // uninterpreted initial contents; "" = zero
	Log  *LogNode
}

// MapObj: concrete-keyed map.
type MapObj struct {
	Keys []string
	M    map[string][2]Value
}

func depth(l *LogNode) int {
	if l == nil {
		return 0
	}
	return l.depth
}

type readKey struct {
	base string
	log  *LogNode
	idx  *Term
}

func (e *Engine) arrRead(o *ArrObj, idx *Term) *Term {
	return e.readLog(o.Base, o.EW, o.Log, idx)
}

func (e *Engine) readLog(base string, ew int, l *LogNode, idx *Term) *Term {
	tb := e.tb
	type pend struct {
		c, v *Term
		l    *LogNode
	}
	var stack []pend
	var res *Term
	cur := l
	for {
		if cur == nil {
			if base == "" {
				res = tb.Const(ew, 0)
			} else {
				res = tb.Select(base, ew, idx)
			}
			break
		}
		if v, ok := e.rmemo[readKey{base, cur, idx}]; ok {
			res = v
			break
		}
		if cur.run && isC(idx) && (idx.C < cur.lo || idx.C > cur.hi) {
			cur = cur.below
			continue
		}
		if cur.src == nil {
			c := tb.BAnd(cur.guard, tb.Eq(idx, cur.idx))
			if c == tb.True {
				res = cur.val
				break
			}
			if c != tb.False {
				stack = append(stack, pend{c, cur.val, cur})
			}
		} else {
			d := tb.Sub(idx, cur.idx)
			c := tb.BAnd(cur.guard, tb.Ult(d, cur.n))
			if c != tb.False {
				v := e.arrRead(cur.src, tb.Add(cur.srcStart, d))
				if c == tb.True {
					res = v
					break
				}
				stack = append(stack, pend{c, v, cur})
			}
		}
		cur = cur.prev
	}
	for i := len(stack) - 1; i >= 0; i-- {
		res = tb.Ite(stack[i].c, stack[i].v, res)
		e.rmemo[readKey{base, stack[i].l, idx}] = res
	}
	return res
}

func (e *Engine) arrStore(o *ArrObj, idx, val *Term) *ArrObj {
	if val.W != o.EW {
		panic(unsup("store width %d into %d", val.W, o.EW))
	}
	l := o.Log
	if l != nil && l.src == nil && l.guard == e.tb.True && l.idx == idx {
		l = l.prev
	}
	return &ArrObj{EW: o.EW, Base: o.Base, Log: storeNode(l, e.tb.True, idx, val)}
}

func (e *Engine) arrCopy(o *ArrObj, start, n *Term, src *ArrObj, srcStart *Term) *ArrObj {
	if isC(n) && n.C == 0 {
		return o
	}
	if isC(n) && n.C <= 16 {
		vals := make([]*Term, n.C)
		for i := range vals {
			vals[i] = e.arrRead(src, e.tb.Add(srcStart, e.tb.Const(64, uint64(i))))
		}
		for i := range vals {
			o = e.arrStore(o, e.tb.Add(start, e.tb.Const(64, uint64(i))), vals[i])
		}
		return o
	}
	return &ArrObj{EW: o.EW, Base: o.Base, Log: &LogNode{prev: o.Log, depth: depth(o.Log) + 1, guard: e.tb.True, idx: start, n: n, src: src, srcStart: srcStart}}
}

/* path conditions */

type PC struct {
	prev  *PC
	depth int
	c     *Term
	// implied by the conditions before it: known to the engine, not
	// repeated to the solver
	derived bool
}

func pcDepth(p *PC) int {
	if p == nil {
		return 0
	}
	return p.depth
}
func (p *PC) list() []*Term {
	out := make([]*Term, 0, pcDepth(p))
	for ; p != nil; p = p.prev {
		if !p.derived {
			out = append(out, p.c)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

/* states */

type ObsNode struct {
	prev *ObsNode
	n    int
	name string
	v    *Term
}
type PanicRec struct {
	val       Value
	recovered bool
}
type DeferNode struct {
	prev *DeferNode
	fn   Value
	args []Value
	// invoke mode
	method *types.Func
}

type State struct {
	pc      *PC
	heap    Heap
	locks   map[string]*Term
	names   map[string]int
	choices string
	obs     *ObsNode
	panics  []PanicRec
	shared  bool // maps shared with another state: copy before write
	conc    *Conc
}

// Heap maps object ids to objects.  base is shared by all states of a
// run and never written.
type Heap struct{ base, top map[int]interface{} }

func (h *Heap) get(id int) (interface{}, bool) {
	if o, ok := h.top[id]; ok {
		return o, true
	}
	o, ok := h.base[id]
	return o, ok
}
func (h *Heap) at(id int) interface{} { o, _ := h.get(id); return o }
func (h *Heap) set(id int, o interface{}) {
	if h.top == nil {
		h.top = map[int]interface{}{}
	}
	h.top[id] = o
}
func (h *Heap) clone() Heap {
	t := make(map[int]interface{}, len(h.top)+2)
	for k, v := range h.top {
		t[k] = v
	}
	return Heap{h.base, t}
}

// freeze makes everything so far the base.
func (h *Heap) freeze() {
	b := make(map[int]interface{}, len(h.base)+len(h.top))
	for k, v := range h.base {
		b[k] = v
	}
	for k, v := range h.top {
		b[k] = v
	}
	h.base, h.top = b, map[int]interface{}{}
}

func (s *State) fork() *State {
	n := *s
	n.heap = s.heap.clone()
	n.locks = make(map[string]*Term, len(s.locks))
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.names = make(map[string]int, len(s.names))
	for k, v := range s.names {
		n.names[k] = v
	}
	n.panics = append([]PanicRec(nil), s.panics...)
	if s.conc != nil {
		c := *s.conc
		n.conc = &c
	}
	return &n
}

func (e *Engine) assume(s *State, c *Term) {
	if c == e.tb.True {
		return
	}
	for p, k := s.pc, 0; p != nil && k < 64; p, k = p.prev, k+1 {
		if p.c == c && !p.derived {
			return
		}
	}
	// split conjunctions: helps later simplification
	if c.Op == OpBAnd {
		e.assume(s, c.Args[0])
		e.assume(s, c.Args[1])
		return
	}
	s.pc = &PC{prev: s.pc, depth: pcDepth(s.pc) + 1, c: c}
}

// derive records a fact implied by the path condition.
func (e *Engine) derive(s *State, c *Term) {
	s.pc = &PC{prev: s.pc, depth: pcDepth(s.pc) + 1, c: c, derived: true}
}

/* merging */

type noMerge struct{ why string }

func (e *Engine) mergeVal(g *Term, a, b Value) Value {
	if a == nil || b == nil {
		if a == nil && b == nil {
			return nil
		}
		panic(noMerge{"nil value"})
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || y.W != x.W {
			panic(noMerge{"kind"})
		}
		return e.tb.Ite(g, x, y)
	case StrV:
		y, ok := b.(StrV)
		if !ok || x != y {
			panic(noMerge{"string"})
		}
		return x
	case PtrV:
		y, ok := b.(PtrV)
		if !ok || x.Obj != y.Obj || len(x.Path) != len(y.Path) {
			panic(noMerge{"pointer"})
		}
		same := true
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				same = false
			}
		}
		if same {
			return x
		}
		p := make([]PE, len(x.Path))
		for i := range p {
			u, v := x.Path[i], y.Path[i]
			if (u.Idx == nil) != (v.Idx == nil) || (u.Idx == nil && u.Field != v.Field) {
				panic(noMerge{"pointer path"})
			}
			p[i] = u
			if u.Idx != nil {
				p[i].Idx = e.tb.Ite(g, u.Idx, v.Idx)
			}
		}
		return PtrV{x.Obj, p}
	case SliceV:
		y, ok := b.(SliceV)
		if !ok || x.Obj != y.Obj {
			panic(noMerge{"slice object"})
		}
		return SliceV{x.Obj, e.tb.Ite(g, x.Off, y.Off), e.tb.Ite(g, x.Len, y.Len), e.tb.Ite(g, x.Cap, y.Cap)}
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			panic(noMerge{"struct"})
		}
		if x == y {
			return x
		}
		return &StructV{e.mergeVals(g, x.F, y.F)}
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || len(x.E) != len(y.E) {
			panic(noMerge{"array"})
		}
		if x == y {
			return x
		}
		return &ArrayV{e.mergeVals(g, x.E, y.E)}
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.E) != len(y.E) {
			panic(noMerge{"tuple"})
		}
		if x == y {
			return x
		}
		return &TupleV{e.mergeVals(g, x.E, y.E)}
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok || (x.T == nil) != (y.T == nil) {
			panic(noMerge{"iface"})
		}
		if x.T == nil {
			return x
		}
		if !types.Identical(x.T, y.T) {
			panic(noMerge{"iface type"})
		}
		return IfaceV{x.T, e.mergeVal(g, x.V, y.V)}
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.Fn != y.Fn || x.Builtin != y.Builtin || len(x.Free) != len(y.Free) {
			panic(noMerge{"func"})
		}
		return FuncV{x.Fn, x.Builtin, e.mergeVals(g, x.Free, y.Free)}
	case MapV:
		if y, ok := b.(MapV); ok && x == y {
			return x
		}
		panic(noMerge{"map"})
	case *Iter:
		if a == b {
			return a
		}
		panic(noMerge{"iter"})
	}
	panic(noMerge{fmt.Sprintf("%T", a)})
}

func (e *Engine) mergeVals(g *Term, a, b []Value) []Value {
	out := make([]Value, len(a))
	for i := range a {
		if a[i] == nil || b[i] == nil {
			continue
		}
		out[i] = e.mergeVal(g, a[i], b[i])
	}
	return out
}

func logLCA(a, b *LogNode) *LogNode {
	for a != b {
		if depth(a) >= depth(b) {
			a = a.prev
		} else {
			b = b.prev
		}
	}
	return a
}

func suffix(l, stop *LogNode) []*LogNode {
	out := make([]*LogNode, 0, depth(l)-depth(stop))
	for l != stop {
		out = append(out, l)
		l = l.prev
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (e *Engine) mergeArr(g *Term, a, b *ArrObj) *ArrObj {
	if a == b {
		return a
	}
	if a.Base != b.Base || a.EW != b.EW {
		panic(noMerge{"array base"})
	}
	l := logLCA(a.Log, b.Log)
	sa, sb := suffix(a.Log, l), suffix(b.Log, l)
	ng := e.tb.BNot(g)
	out := l
	push := func(n LogNode) {
		if n.guard == e.tb.False {
			return
		}
		n.prev = out
		n.depth = depth(out) + 1
		out = &n
	}
	pairwise := len(sa) == len(sb)
	if pairwise {
		for i := range sa {
			x, y := sa[i], sb[i]
			if x.src != nil || y.src != nil || x.idx != y.idx || x.guard != y.guard {
				pairwise = false
			}
		}
	}
	if pairwise {
		for i := range sa {
			n := *sa[i]
			n.val = e.tb.Ite(g, sa[i].val, sb[i].val)
			push(n)
		}
	} else {
		for _, x := range sa {
			n := *x
			n.guard = e.tb.BAnd(g, n.guard)
			push(n)
		}
		for _, x := range sb {
			n := *x
			n.guard = e.tb.BAnd(ng, n.guard)
			push(n)
		}
	}
	return &ArrObj{EW: a.EW, Base: a.Base, Log: out}
}

// mergeStates merges two states plus value vectors; nil if not mergeable.
func (e *Engine) mergeStates(a, b *State, va, vb []Value) (st *State, vs []Value) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(noMerge); ok {
				e.mergeFails++
				if e.trace {
					fmt.Printf("NOMERGE %v\n", r)
				}
				st, vs = nil, nil
				return
			}
			panic(r)
		}
	}()
	if a.choices != b.choices || len(a.panics) != len(b.panics) {
		return nil, nil
	}
	if !e.concCompatible(a.conc, b.conc) {
		return nil, nil
	}
	for k, v := range a.names {
		if b.names[k] != v {
			return nil, nil
		}
	}
	for k, v := range b.names {
		if a.names[k] != v {
			return nil, nil
		}
	}
	for i := range a.panics {
		if a.panics[i].recovered != b.panics[i].recovered {
			return nil, nil
		}
	}
	// path conditions
	p, q := a.pc, b.pc
	for p != q {
		if pcDepth(p) >= pcDepth(q) {
			p = p.prev
		} else {
			q = q.prev
		}
	}
	ga, gb := e.tb.True, e.tb.True
	for x := a.pc; x != p; x = x.prev {
		if x.derived {
			continue
		}
		ga = e.tb.BAnd(x.c, ga)
	}
	for x := b.pc; x != p; x = x.prev {
		if x.derived {
			continue
		}
		gb = e.tb.BAnd(x.c, gb)
	}
	// selector: any condition that is true on a's part and false on b's
	g := ga
	if gb != e.tb.True && termSize(gb, 40) < termSize(ga, 40) {
		g = e.tb.BNot(gb)
	}
	vs = e.mergeVals(g, va, vb)
	n := &State{pc: p, choices: a.choices, names: a.names, conc: a.conc}
	or := e.tb.BOr(ga, gb)
	// (both have the same base)
	n.heap = Heap{a.heap.base, make(map[int]interface{}, len(a.heap.top))}
	two := func(k int, x, y interface{}) {
		if x == y {
			n.heap.set(k, x)
			return
		}
		switch xo := x.(type) {
		case *CellObj:
			yo, ok := y.(*CellObj)
			if !ok {
				panic(noMerge{"obj kind"})
			}
			n.heap.set(k, &CellObj{e.mergeVal(g, xo.V, yo.V)})
		case *ArrObj:
			yo, ok := y.(*ArrObj)
			if !ok {
				panic(noMerge{"obj kind"})
			}
			n.heap.set(k, e.mergeArr(g, xo, yo))
		default:
			panic(noMerge{"obj kind"})
		}
	}
	for k, x := range a.heap.top {
		y, ok := b.heap.get(k)
		if !ok {
			y = x
		}
		two(k, x, y)
	}
	for k, y := range b.heap.top {
		if _, ok := a.heap.top[k]; !ok {
			x, ok := a.heap.get(k)
			if !ok {
				x = y
			}
			two(k, x, y)
		}
	}
	n.locks = make(map[string]*Term, len(a.locks))
	lk := func(m map[string]*Term, k string) *Term {
		if t, ok := m[k]; ok {
			return t
		}
		return e.tb.Const(8, 0)
	}
	for k := range a.locks {
		n.locks[k] = e.tb.Ite(g, lk(a.locks, k), lk(b.locks, k))
	}
	for k := range b.locks {
		n.locks[k] = e.tb.Ite(g, lk(a.locks, k), lk(b.locks, k))
	}
	// observations
	if a.obs != b.obs {
		var xs, ys []*ObsNode
		for x := a.obs; x != nil; x = x.prev {
			xs = append(xs, x)
		}
		for x := b.obs; x != nil; x = x.prev {
			ys = append(ys, x)
		}
		if len(xs) != len(ys) {
			return nil, nil
		}
		var o *ObsNode
		for i := len(xs) - 1; i >= 0; i-- {
			if xs[i].name != ys[i].name || xs[i].v.W != ys[i].v.W {
				return nil, nil
			}
			o = &ObsNode{prev: o, n: len(xs) - i, name: xs[i].name, v: e.tb.Ite(g, xs[i].v, ys[i].v)}
		}
		n.obs = o
	} else {
		n.obs = a.obs
	}
	for i := range a.panics {
		n.panics = append(n.panics, PanicRec{e.mergeVal(g, a.panics[i].val, b.panics[i].val), a.panics[i].recovered})
	}
	if or != e.tb.True {
		e.assume(n, or)
	}
	// facts implied on both sides stay implied
	known := map[*Term]bool{}
	for x := a.pc; x != p; x = x.prev {
		known[x.c] = true
	}
	for x := b.pc; x != p; x = x.prev {
		if known[x.c] {
			known[x.c] = false
			e.derive(n, x.c)
		}
	}
	n.names = map[string]int{}
	for k, v := range a.names {
		n.names[k] = v
	}
	e.merges++
	return n, vs
}

func termSize(t *Term, lim int) int {
	n := 0
	var rec func(t *Term)
	rec = func(t *Term) {
		n++
		if n > lim {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return n
}

func ptrKey(p PtrV) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", p.Obj)
	for _, x := range p.Path {
		if x.Idx != nil {
			fmt.Fprintf(&b, "[%d]", x.Idx.ID)
		} else {
			fmt.Fprintf(&b, ".%d", x.Field)
		}
	}
	return b.String()
}
