package main

import (
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func f32bits(f float32) uint64 { return uint64(math.Float32bits(f)) }
func f64bits(f float64) uint64 { return math.Float64bits(f) }

type Iter struct {
	obj  int // the map
	keys []string
	m    *MapObj
	s    string
	pos  int
}

// instr evaluates a value-producing instruction.  The second result is
// false when the current state does not continue.
func (e *Engine) instr(fr *frame, w *work, v ssa.Value) (Value, bool) {
	tb := e.tb
	get := func(x ssa.Value) Value { return e.val(fr, w.env, w.st, x) }
	switch i := v.(type) {
	case *ssa.Alloc:
		id := e.alloc(w.st, e.newObj(i.Type().Underlying().(*types.Pointer).Elem()))
		return PtrV{Obj: id}, true
	case *ssa.BinOp:
		return e.binop(fr, w, i)
	case *ssa.UnOp:
		x := get(i.X)
		switch i.Op {
		case token.MUL:
			p, ok := x.(PtrV)
			if !ok {
				panic(unsup("deref of %T", x))
			}
			if p.Obj == 0 {
				e.doPanic(fr, w, w.st, e.rtPanic("nil pointer"), w.defers)
				return nil, false
			}
			return e.load(w.st, p, i.Type()), true
		case token.NOT:
			return tb.BNot(x.(*Term)), true
		case token.SUB:
			t := x.(*Term)
			if isFloat(i.Type()) {
				return tb.Xor(t, tb.Const(t.W, 1<<uint(t.W-1))), true
			}
			return tb.Neg(t), true
		case token.XOR:
			return tb.Not(x.(*Term)), true
		}
		panic(unsup("unary %s", i.Op))
	case *ssa.ChangeType:
		return get(i.X), true
	case *ssa.ChangeInterface:
		return get(i.X), true
	case *ssa.Convert:
		return e.convert(fr, w, get(i.X), i.X.Type(), i.Type()), true
	case *ssa.MultiConvert:
		return e.convert(fr, w, get(i.X), i.X.Type(), i.Type()), true
	case *ssa.MakeInterface:
		return IfaceV{T: i.X.Type(), V: get(i.X)}, true
	case *ssa.MakeClosure:
		var fv []Value
		for _, b := range i.Bindings {
			fv = append(fv, get(b))
		}
		return FuncV{Fn: i.Fn.(*ssa.Function), Free: fv}, true
	case *ssa.Extract:
		t, ok := get(i.Tuple).(*TupleV)
		if !ok {
			panic(unsup("extract from %T", get(i.Tuple)))
		}
		return t.E[i.Index], true
	case *ssa.FieldAddr:
		p := get(i.X).(PtrV)
		if p.Obj == 0 {
			e.doPanic(fr, w, w.st, e.rtPanic("nil pointer"), w.defers)
			return nil, false
		}
		return PtrV{p.Obj, append(append([]PE(nil), p.Path...), PE{Field: i.Field})}, true
	case *ssa.Field:
		return get(i.X).(*StructV).F[i.Field], true
	case *ssa.IndexAddr:
		idx := e.ext64(get(i.Index).(*Term), i.Index.Type())
		switch x := get(i.X).(type) {
		case SliceV:
			if !e.require(fr, w, tb.Ult(idx, x.Len), "index out of range") {
				return nil, false
			}
			return e.sliceElemPtr(x, idx), true
		case PtrV:
			if x.Obj == 0 {
				e.doPanic(fr, w, w.st, e.rtPanic("nil pointer"), w.defers)
				return nil, false
			}
			n := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			if !e.require(fr, w, tb.Ult(idx, tb.Const(64, uint64(n))), "index out of range") {
				return nil, false
			}
			if len(x.Path) == 1 && x.Path[0].Idx != nil {
				if _, ok := w.st.heap.at(x.Obj).(*ArrObj); ok {
					return PtrV{x.Obj, []PE{{Idx: tb.Add(x.Path[0].Idx, idx)}}}, true
				}
			}
			return PtrV{x.Obj, append(append([]PE(nil), x.Path...), PE{Idx: idx})}, true
		}
		panic(unsup("IndexAddr"))
	case *ssa.Index:
		idx := e.ext64(get(i.Index).(*Term), i.Index.Type())
		switch x := get(i.X).(type) {
		case *ArrayV:
			if !e.require(fr, w, tb.Ult(idx, tb.Const(64, uint64(len(x.E)))), "index out of range") {
				return nil, false
			}
			return e.follow(x, []PE{{Idx: idx}}), true
		case StrV:
			if x.Sym != nil {
				if !e.require(fr, w, tb.Ult(idx, x.Sym.Len), "index out of range") {
					return nil, false
				}
				return e.arrRead(w.st.heap.at(x.Sym.Obj).(*ArrObj), tb.Add(x.Sym.Off, idx)), true
			}
			if x.Opaque {
				panic(unsup("index into formatted string"))
			}
			if !e.require(fr, w, tb.Ult(idx, tb.Const(64, uint64(len(x.S)))), "index out of range") {
				return nil, false
			}
			if isC(idx) {
				return tb.Const(8, uint64(x.S[idx.C])), true
			}
			r := tb.Const(8, 0)
			for k := len(x.S) - 1; k >= 0; k-- {
				r = tb.Ite(tb.Eq(idx, tb.Const(64, uint64(k))), tb.Const(8, uint64(x.S[k])), r)
			}
			return r, true
		}
		panic(unsup("Index"))
	case *ssa.Slice:
		return e.slice(fr, w, i)
	case *ssa.MakeSlice:
		n := e.ext64(get(i.Len).(*Term), i.Len.Type())
		c := e.ext64(get(i.Cap).(*Term), i.Cap.Type())
		et := i.Type().Underlying().(*types.Slice).Elem()
		esz := e.sizes.Sizeof(et)
		if esz < 1 {
			esz = 1
		}
		max := tb.Const(64, uint64((int64(1)<<47)/esz))
		if !e.require(fr, w, tb.BAnd(tb.Ule(n, max), tb.BAnd(tb.Ule(c, max), tb.Ule(n, c))), "makeslice: len or cap out of range") {
			return nil, false
		}
		// an allocation beyond 2^34 bytes would exhaust memory
		huge := tb.Ult(tb.Const(64, uint64((int64(1)<<34)/esz)), c)
		if e.feasible(w.st, huge) {
			bad := w.st.fork()
			e.assume(bad, huge)
			fr.exits = append(fr.exits, Exit{kind: exFatal, st: bad, msg: "allocation larger than 16 GiB", pos: e.posOf(i.Pos())})
			if !e.feasible(w.st, tb.BNot(huge)) {
				return nil, false
			}
			e.assume(w.st, tb.BNot(huge))
		}
		if ew := elemWidth(et); ew > 0 {
			id := e.alloc(w.st, &ArrObj{EW: ew})
			return SliceV{id, tb.Const(64, 0), n, c}, true
		}
		if !isC(c) || c.C > 4096 {
			panic(unsup("make of %s with symbolic size", i.Type()))
		}
		a := &ArrayV{}
		for k := uint64(0); k < c.C; k++ {
			a.E = append(a.E, e.zero(et))
		}
		id := e.alloc(w.st, &CellObj{a})
		return SliceV{id, tb.Const(64, 0), n, c}, true
	case *ssa.TypeAssert:
		return e.typeAssert(fr, w, i, get(i.X))
	case *ssa.MakeMap:
		id := e.alloc(w.st, &MapObj{M: map[string][2]Value{}})
		return MapV{id}, true
	case *ssa.Lookup:
		return e.lookup(fr, w, i, get(i.X), get(i.Index)), true
	case *ssa.Range:
		switch x := get(i.X).(type) {
		case StrV:
			if x.Opaque {
				panic(unsup("range over formatted string"))
			}
			return &Iter{s: x.S}, true
		case MapV:
			it := &Iter{m: &MapObj{}}
			if x.Obj != 0 {
				it.m = w.st.heap.at(x.Obj).(*MapObj)
				it.keys = it.m.Keys
				it.obj = x.Obj
			}
			return it, true
		}
		panic(unsup("range"))
	case *ssa.Next:
		it := get(i.Iter).(*Iter)
		// iterators are updated functionally
		if i.IsString {
			if it.pos >= len(it.s) {
				return &TupleV{[]Value{tb.False, tb.Const(64, 0), tb.Const(32, 0)}}, true
			}
			for k, r := range it.s[it.pos:] {
				_ = k
				p := it.pos
				n := len(string(r))
				w.env[fr.in.reg[i.Iter]] = &Iter{s: it.s, pos: it.pos + n}
				return &TupleV{[]Value{tb.True, tb.Const(64, uint64(p)), tb.Const(32, uint64(r))}}, true
			}
		}
		cur := it.m
		if it.obj != 0 {
			cur = w.st.heap.at(it.obj).(*MapObj)
			if len(cur.Keys) > len(it.keys) {
				panic(unsup("range over a map that grows"))
			}
		}
		for it.pos < len(it.keys) {
			if _, ok := cur.M[it.keys[it.pos]]; ok {
				break
			}
			it = &Iter{obj: it.obj, keys: it.keys, m: it.m, pos: it.pos + 1}
		}
		if it.pos >= len(it.keys) {
			mt := i.Type().(*types.Tuple)
			z := func(k int) Value {
				t := mt.At(k).Type()
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
					return tb.False
				}
				return e.zero(t)
			}
			return &TupleV{[]Value{tb.False, z(1), z(2)}}, true
		}
		kv := cur.M[it.keys[it.pos]]
		w.env[fr.in.reg[i.Iter]] = &Iter{obj: it.obj, keys: it.keys, m: it.m, pos: it.pos + 1}
		return &TupleV{[]Value{tb.True, kv[0], kv[1]}}, true
	case *ssa.SliceToArrayPointer:
		s := get(i.X).(SliceV)
		n := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !e.require(fr, w, tb.Ule(tb.Const(64, uint64(n)), s.Len), "slice to array pointer") {
			return nil, false
		}
		if s.Obj == 0 {
			return PtrV{}, true
		}
		if _, ok := w.st.heap.at(s.Obj).(*ArrObj); !ok {
			panic(unsup("slice to array pointer"))
		}
		return PtrV{s.Obj, []PE{{Idx: s.Off}}}, true
	}
	panic(unsup("%T in %s", v, fr.fn))
}

func keyString(v Value) string {
	switch x := v.(type) {
	case StrV:
		if x.Opaque {
			panic(unsup("formatted string as map key"))
		}
		return "s" + x.S
	case *Term:
		if isC(x) {
			return x.ref()
		}
	}
	panic(unsup("symbolic map key"))
}

func (e *Engine) lookup(fr *frame, w *work, i *ssa.Lookup, x, k Value) Value {
	switch m := x.(type) {
	case StrV:
		panic(unsup("string lookup"))
	case MapV:
		var v Value
		found := e.tb.False
		if m.Obj != 0 {
			if kv, ok := w.st.heap.at(m.Obj).(*MapObj).M[keyString(k)]; ok {
				v, found = kv[1], e.tb.True
			}
		}
		if v == nil {
			v = e.zero(i.X.Type().Underlying().(*types.Map).Elem())
		}
		if i.CommaOk {
			return &TupleV{[]Value{v, found}}
		}
		return v
	}
	panic(unsup("lookup in %T", x))
}

func (e *Engine) mapUpdate(fr *frame, w *work, i *ssa.MapUpdate) {
	m, ok := e.val(fr, w.env, w.st, i.Map).(MapV)
	if !ok || m.Obj == 0 {
		panic(unsup("map update"))
	}
	k := e.val(fr, w.env, w.st, i.Key)
	v := e.val(fr, w.env, w.st, i.Value)
	o := w.st.heap.at(m.Obj).(*MapObj)
	n := &MapObj{Keys: append([]string(nil), o.Keys...), M: map[string][2]Value{}}
	for a, b := range o.M {
		n.M[a] = b
	}
	ks := keyString(k)
	if _, ok := n.M[ks]; !ok {
		n.Keys = append(n.Keys, ks)
	}
	n.M[ks] = [2]Value{k, v}
	w.st.heap.set(m.Obj, n)
}

func (e *Engine) nonneg(w *work, x *Term) bool {
	sb := uint64(1) << uint(x.W-1)
	if x.ones&sb == 0 {
		return true
	}
	if x.data {
		return false // only a simplification: not worth a query
	}
	return !e.feasible(w.st, e.tb.Slt(x, e.tb.Const(x.W, 0)))
}

func (e *Engine) binop(fr *frame, w *work, i *ssa.BinOp) (Value, bool) {
	tb := e.tb
	a, b := e.val(fr, w.env, w.st, i.X), e.val(fr, w.env, w.st, i.Y)
	switch i.Op {
	case token.EQL:
		return e.eq(a, b, i.X.Type(), i.Y.Type()), true
	case token.NEQ:
		return tb.BNot(e.eq(a, b, i.X.Type(), i.Y.Type())), true
	}
	if s, ok := a.(StrV); ok {
		t := b.(StrV)
		if i.Op == token.ADD {
			if s.Sym != nil && t == (StrV{}) {
				return s, true
			}
			if t.Sym != nil && s == (StrV{}) {
				return t, true
			}
			return StrV{S: s.S + t.S, Opaque: s.Opaque || t.Opaque}, true
		}
		if s.Opaque || t.Opaque {
			panic(unsup("comparison of formatted strings"))
		}
		switch i.Op {
		case token.LSS:
			return tb.Bool(s.S < t.S), true
		case token.LEQ:
			return tb.Bool(s.S <= t.S), true
		case token.GTR:
			return tb.Bool(s.S > t.S), true
		case token.GEQ:
			return tb.Bool(s.S >= t.S), true
		}
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsup("binary %s on %T", i.Op, a))
	}
	_, sg, _ := width(i.X.Type())
	if isFloat(i.X.Type()) {
		switch i.Op {
		case token.LSS:
			return e.flt(x, y), true
		case token.GTR:
			return e.flt(y, x), true
		case token.LEQ:
			return tb.BOr(e.flt(x, y), e.feq(x, y)), true
		case token.GEQ:
			return tb.BOr(e.flt(y, x), e.feq(x, y)), true
		}
		panic(unsup("floating-point %s", i.Op))
	}
	switch i.Op {
	case token.ADD:
		return tb.Add(x, y), true
	case token.SUB:
		return tb.Sub(x, y), true
	case token.MUL:
		return tb.Mul(x, y), true
	case token.QUO, token.REM:
		if !e.require(fr, w, tb.BNot(tb.Eq(y, tb.Const(y.W, 0))), "integer divide by zero") {
			return nil, false
		}
		op := OpUDiv
		if i.Op == token.REM {
			op = OpURem
		}
		if sg && !(e.nonneg(w, x) && e.nonneg(w, y)) {
			op = OpSDiv
			if i.Op == token.REM {
				op = OpSRem
			}
		}
		return tb.div(op, x, y), true
	case token.AND:
		if x.W == 0 {
			return tb.BAnd(x, y), true
		}
		return tb.And(x, y), true
	case token.OR:
		if x.W == 0 {
			return tb.BOr(x, y), true
		}
		return tb.Or(x, y), true
	case token.XOR:
		return tb.Xor(x, y), true
	case token.AND_NOT:
		return tb.And(x, tb.Not(y)), true
	case token.SHL, token.SHR:
		_, ysg, _ := width(i.Y.Type())
		if ysg && !isC(y) {
			if !e.require(fr, w, tb.BNot(tb.Slt(y, tb.Const(y.W, 0))), "negative shift amount") {
				return nil, false
			}
		}
		var k *Term
		if y.W > x.W {
			lim := tb.Const(y.W, uint64(x.W))
			k = tb.Ite(tb.Ult(y, lim), tb.Extract(x.W-1, 0, y), tb.Const(x.W, uint64(x.W)))
		} else {
			k = tb.Zext(y, x.W)
		}
		if i.Op == token.SHL {
			return tb.Shl(x, k), true
		}
		if sg && !e.nonneg(w, x) {
			return tb.AShr(x, k), true
		}
		return tb.LShr(x, k), true
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if i.Op == token.GTR || i.Op == token.GEQ {
			// a > b  ==  b < a ; a >= b == !(a < b)
		}
		lt := tb.Ult
		if sg {
			lt = tb.Slt
		}
		switch i.Op {
		case token.LSS:
			return lt(x, y), true
		case token.GTR:
			return lt(y, x), true
		case token.LEQ:
			return tb.BNot(lt(y, x)), true
		default:
			return tb.BNot(lt(x, y)), true
		}
	}
	panic(unsup("binary %s", i.Op))
}

func fparts(w int) (exp, man uint) {
	if w == 32 {
		return 8, 23
	}
	return 11, 52
}

func (e *Engine) isNaN(x *Term) *Term {
	ex, man := fparts(x.W)
	tb := e.tb
	return tb.BAnd(tb.Eq(tb.Extract(int(ex+man)-1, int(man), x), tb.Const(int(ex), mask(int(ex)))),
		tb.BNot(tb.Eq(tb.Extract(int(man)-1, 0, x), tb.Const(int(man), 0))))
}
func (e *Engine) feq(x, y *Term) *Term {
	tb := e.tb
	mag := func(t *Term) *Term { return tb.Extract(t.W-2, 0, t) }
	z := tb.Const(x.W-1, 0)
	bothz := tb.BAnd(tb.Eq(mag(x), z), tb.Eq(mag(y), z))
	return tb.BAnd(tb.BNot(tb.BOr(e.isNaN(x), e.isNaN(y))), tb.BOr(tb.Eq(x, y), bothz))
}
func (e *Engine) flt(x, y *Term) *Term {
	tb := e.tb
	mag := func(t *Term) *Term { return tb.Extract(t.W-2, 0, t) }
	neg := func(t *Term) *Term { return tb.Eq(tb.Extract(t.W-1, t.W-1, t), tb.Const(1, 1)) }
	lt := tb.Ite(neg(x), tb.Ite(neg(y), tb.Ult(mag(y), mag(x)), tb.True), tb.Ite(neg(y), tb.False, tb.Ult(mag(x), mag(y))))
	return tb.BAnd(tb.BNot(tb.BOr(e.isNaN(x), e.isNaN(y))), tb.BAnd(tb.BNot(e.feq(x, y)), lt))
}

func (e *Engine) eq(a, b Value, ta, tb_ types.Type) *Term {
	tb := e.tb
	switch x := a.(type) {
	case *Term:
		if iv, ok := b.(IfaceV); ok {
			return e.eq(IfaceV{ta, a}, iv, nil, nil)
		}
		if ta != nil && isFloat(ta) {
			return e.feq(x, b.(*Term))
		}
		return tb.Eq(x, b.(*Term))
	case StrV:
		y, ok := b.(StrV)
		if !ok {
			panic(unsup("string comparison"))
		}
		if x.Opaque || y.Opaque {
			panic(unsup("comparison of formatted strings"))
		}
		return tb.Bool(x.S == y.S)
	case PtrV:
		y := b.(PtrV)
		if x.Obj != y.Obj || len(x.Path) != len(y.Path) {
			return tb.False
		}
		r := tb.True
		for i := range x.Path {
			u, v := x.Path[i], y.Path[i]
			if u.Idx != nil && v.Idx != nil {
				r = tb.BAnd(r, tb.Eq(u.Idx, v.Idx))
			} else if u != v {
				return tb.False
			}
		}
		return r
	case SliceV:
		y := b.(SliceV)
		if x.Obj != 0 && y.Obj != 0 {
			panic(unsup("slice comparison"))
		}
		return tb.Bool(x.Obj == y.Obj)
	case FuncV:
		y := b.(FuncV)
		xn, yn := x.Fn == nil && x.Builtin == nil, y.Fn == nil && y.Builtin == nil
		return tb.Bool(xn == yn && (xn || x.Fn == y.Fn))
	case MapV:
		return tb.Bool(x.Obj == b.(MapV).Obj)
	case *StructV:
		if iv, ok := b.(IfaceV); ok {
			return e.eq(IfaceV{ta, a}, iv, nil, nil)
		}
		y := b.(*StructV)
		r := tb.True
		for i := range x.F {
			var ft types.Type
			if ta != nil {
				ft = ta.Underlying().(*types.Struct).Field(i).Type()
			}
			r = tb.BAnd(r, e.eq(x.F[i], y.F[i], ft, ft))
		}
		return r
	case *ArrayV:
		y := b.(*ArrayV)
		r := tb.True
		var et types.Type
		if ta != nil {
			et = ta.Underlying().(*types.Array).Elem()
		}
		for i := range x.E {
			r = tb.BAnd(r, e.eq(x.E[i], y.E[i], et, et))
		}
		return r
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			y = IfaceV{tb_, b}
		}
		if x.T == nil || y.T == nil {
			return tb.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return tb.False
		}
		return e.eq(x.V, y.V, x.T, y.T)
	}
	panic(unsup("== on %T", a))
}

func (e *Engine) convert(fr *frame, w *work, v Value, from, to types.Type) Value {
	tb := e.tb
	fu, tu := from.Underlying(), to.Underlying()
	fw, fs, fok := width(from)
	tw, _, tok := width(to)
	if t, ok := v.(*Term); ok && fok && tok && fw > 0 && tw > 0 {
		ff, tf := isFloat(from), isFloat(to)
		switch {
		case !ff && !tf:
			switch {
			case tw == t.W:
				return t
			case tw < t.W:
				return tb.Extract(tw-1, 0, t)
			case fs:
				return tb.Sext(t, tw)
			default:
				return tb.Zext(t, tw)
			}
		case ff && tf:
			if fw == tw {
				return t
			}
			op := OpF32to64
			if fw == 64 {
				op = OpF64to32
			}
			r := &Term{Op: op, W: tw, Args: []*Term{t}}
			if isC(t) {
				return tb.Const(tw, newModel().Eval(r))
			}
			return tb.mk(r)
		case !ff && tf:
			op := OpUToF
			if fs {
				op = OpIToF
			}
			r := &Term{Op: op, W: tw, Args: []*Term{t}}
			if isC(t) {
				return tb.Const(tw, newModel().Eval(r))
			}
			return tb.mk(r)
		}
		panic(unsup("float to integer conversion"))
	}
	if p, ok := v.(PtrV); ok {
		_, fp := fu.(*types.Pointer)
		_, tp := tu.(*types.Pointer)
		if (fp || isUnsafePtr(from)) && (tp || isUnsafePtr(to)) {
			return p
		}
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.Uintptr && isUnsafePtr(from) {
			return e.address(w.st, p)
		}
	}
	if t, ok := v.(*Term); ok && isUnsafePtr(to) {
		return e.pointer(w.st, t)
	}
	if s, ok := v.(StrV); ok {
		if isString(to) {
			return s
		}
		if sl, ok := tu.(*types.Slice); ok && elemWidth(sl.Elem()) == 8 && s.Sym != nil {
			a := w.st.heap.at(s.Sym.Obj).(*ArrObj)
			return SliceV{e.alloc(w.st, a), s.Sym.Off, s.Sym.Len, s.Sym.Len}
		} else if ok && elemWidth(sl.Elem()) == 8 && !s.Opaque {
			o := &ArrObj{EW: 8}
			for k := 0; k < len(s.S); k++ {
				o = e.arrStore(o, tb.Const(64, uint64(k)), tb.Const(8, uint64(s.S[k])))
			}
			id := e.alloc(w.st, o)
			n := tb.Const(64, uint64(len(s.S)))
			return SliceV{id, tb.Const(64, 0), n, n}
		}
	}
	if s, ok := v.(SliceV); ok && isString(to) {
		if isC(s.Len) && s.Len.C < 4096 {
			var b []byte
			conc := true
			if s.Obj != 0 {
				for k := uint64(0); k < s.Len.C; k++ {
					t := e.arrRead(w.st.heap.at(s.Obj).(*ArrObj), tb.Add(s.Off, tb.Const(64, k)))
					if !isC(t) {
						conc = false
						break
					}
					b = append(b, byte(t.C))
				}
			}
			if conc {
				return StrV{S: string(b)}
			}
		}
		if s.Obj != 0 {
			if a, ok := w.st.heap.at(s.Obj).(*ArrObj); ok && a.EW == 8 {
				return StrV{Opaque: true, Sym: &SliceV{e.alloc(w.st, a), s.Off, s.Len, s.Len}}
			}
		}
		return StrV{Opaque: true}
	}
	panic(unsup("conversion %s -> %s", from, to))
}

func (e *Engine) slice(fr *frame, w *work, i *ssa.Slice) (Value, bool) {
	tb := e.tb
	get := func(x ssa.Value) *Term {
		if x == nil {
			return nil
		}
		return e.ext64(e.val(fr, w.env, w.st, x).(*Term), x.Type())
	}
	lo, hi, mx := get(i.Low), get(i.High), get(i.Max)
	zero := tb.Const(64, 0)
	x := e.val(fr, w.env, w.st, i.X)
	if s, ok := x.(StrV); ok && s.Sym != nil {
		if lo == nil {
			lo = zero
		}
		if hi == nil {
			hi = s.Sym.Len
		}
		if !e.require(fr, w, tb.BAnd(tb.Ule(hi, s.Sym.Len), tb.Ule(lo, hi)), "slice bounds out of range") {
			return nil, false
		}
		n := tb.Sub(hi, lo)
		return StrV{Opaque: true, Sym: &SliceV{s.Sym.Obj, tb.Add(s.Sym.Off, lo), n, n}}, true
	} else if ok {
		if s.Opaque {
			panic(unsup("slicing formatted string"))
		}
		if lo == nil {
			lo = zero
		}
		if hi == nil {
			hi = tb.Const(64, uint64(len(s.S)))
		}
		if !isC(lo) || !isC(hi) {
			panic(unsup("symbolic string slice"))
		}
		if !e.require(fr, w, tb.Bool(hi.C <= uint64(len(s.S)) && lo.C <= hi.C), "slice bounds out of range") {
			return nil, false
		}
		return StrV{S: s.S[lo.C:hi.C]}, true
	}
	var s SliceV
	switch v := x.(type) {
	case SliceV:
		s = v
	case PtrV:
		if v.Obj == 0 {
			e.doPanic(fr, w, w.st, e.rtPanic("nil pointer"), w.defers)
			return nil, false
		}
		n := tb.Const(64, uint64(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		off := zero
		if len(v.Path) == 1 && v.Path[0].Idx != nil {
			if _, ok := w.st.heap.at(v.Obj).(*ArrObj); ok {
				off = v.Path[0].Idx
			} else {
				panic(unsup("slice of nested array"))
			}
		} else if len(v.Path) > 0 {
			panic(unsup("slice of nested array"))
		}
		s = SliceV{v.Obj, off, n, n}
	default:
		panic(unsup("slice of %T", x))
	}
	if lo == nil {
		lo = zero
	}
	if hi == nil {
		hi = s.Len
	}
	cp := s.Cap
	if mx != nil {
		if !e.require(fr, w, tb.Ule(mx, s.Cap), "slice bounds out of range") {
			return nil, false
		}
		cp = mx
	}
	if !(i.High == nil && mx == nil) {
		if !e.require(fr, w, tb.Ule(hi, cp), "slice bounds out of range") {
			return nil, false
		}
	}
	if i.Low != nil || i.High != nil {
		if !e.require(fr, w, tb.Ule(lo, hi), "slice bounds out of range") {
			return nil, false
		}
	}
	return SliceV{s.Obj, tb.Add(s.Off, lo), tb.Sub(hi, lo), tb.Sub(cp, lo)}, true
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	if t == rtErrType {
		return it.NumMethods() <= 1 // error, any
	}
	return types.Implements(t, it)
}

func (e *Engine) typeAssert(fr *frame, w *work, i *ssa.TypeAssert, v Value) (Value, bool) {
	iv, ok := v.(IfaceV)
	if !ok {
		panic(unsup("type assertion on %T", v))
	}
	match := false
	var res Value
	if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		match = iv.T != nil && e.implements(iv.T, it)
		res = iv
	} else {
		match = iv.T != nil && types.Identical(iv.T, i.AssertedType)
		res = iv.V
	}
	if i.CommaOk {
		if !match {
			res = e.zero(i.AssertedType)
		}
		return &TupleV{[]Value{res, e.tb.Bool(match)}}, true
	}
	if !match {
		e.doPanic(fr, w, w.st, e.rtPanic("interface conversion"), w.defers)
		return nil, false
	}
	return res, true
}

/* builtins */

func (e *Engine) builtin(fr *frame, w *work, b *ssa.Builtin, c *ssa.Call) ([]Exit, bool) {
	tb := e.tb
	var args []Value
	for _, a := range c.Call.Args {
		args = append(args, e.val(fr, w.env, w.st, a))
	}
	set := func(v Value) ([]Exit, bool) {
		w.env[fr.in.reg[c]] = v
		return nil, true
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			return set(x.Len)
		case StrV:
			if x.Sym != nil {
				return set(x.Sym.Len)
			}
			if x.Opaque {
				panic(unsup("len of formatted string"))
			}
			return set(tb.Const(64, uint64(len(x.S))))
		case *ArrayV:
			return set(tb.Const(64, uint64(len(x.E))))
		case PtrV:
			n := c.Call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			return set(tb.Const(64, uint64(n)))
		case MapV:
			n := 0
			if x.Obj != 0 {
				n = len(w.st.heap.at(x.Obj).(*MapObj).Keys)
			}
			return set(tb.Const(64, uint64(n)))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return set(x.Cap)
		case PtrV:
			n := c.Call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			return set(tb.Const(64, uint64(n)))
		}
	case "copy":
		return set(e.copySlice(w.st, args[0], args[1]))
	case "append":
		return e.appendSlice(fr, w, c, args)
	case "recover":
		if fr.panicIdx >= 0 && fr.panicIdx < len(w.st.panics) && !w.st.panics[fr.panicIdx].recovered {
			ps := append([]PanicRec(nil), w.st.panics...)
			v := ps[fr.panicIdx].val
			ps[fr.panicIdx].recovered = true
			w.st.panics = ps
			return set(v)
		}
		return set(IfaceV{})
	case "print", "println":
		return set(nil)
	case "min", "max":
		t := c.Type()
		if isFloat(t) || isString(t) {
			panic(unsup("min/max on %s", t))
		}
		_, sg, _ := width(t)
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			lt := tb.Ult(y, r)
			if sg {
				lt = tb.Slt(y, r)
			}
			if b.Name() == "max" {
				lt = tb.Ult(r, y)
				if sg {
					lt = tb.Slt(r, y)
				}
			}
			r = tb.Ite(lt, y, r)
		}
		return set(r)
	case "clear":
		if s, ok := args[0].(SliceV); ok {
			if s.Obj != 0 {
				o, ok := w.st.heap.at(s.Obj).(*ArrObj)
				if !ok {
					panic(unsup("clear"))
				}
				w.st.heap.set(s.Obj, e.arrCopy(o, s.Off, s.Len, &ArrObj{EW: o.EW}, tb.Const(64, 0)))
			}
			return set(nil)
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok && p.Obj == 0 {
			e.doPanic(fr, w, w.st, e.rtPanic("nil pointer"), w.defers)
			return nil, false
		}
		return set(args[0])
	case "Slice": // unsafe.Slice
		p := args[0].(PtrV)
		n := e.ext64(args[1].(*Term), c.Call.Args[1].Type())
		et := c.Type().Underlying().(*types.Slice).Elem()
		if p.Obj == 0 {
			return set(e.nilSlice())
		}
		o, ok := w.st.heap.at(p.Obj).(*ArrObj)
		if !ok || elemWidth(et) != o.EW {
			panic(unsup("unsafe.Slice with another element width"))
		}
		off := tb.Const(64, 0)
		if len(p.Path) == 1 {
			off = p.Path[0].Idx
		}
		return set(SliceV{p.Obj, off, n, n})
	case "SliceData":
		s := args[0].(SliceV)
		if s.Obj == 0 {
			return set(PtrV{})
		}
		return set(e.sliceElemPtr(s, tb.Const(64, 0)))
	case "Add": // unsafe.Add: bytes
		p := args[0].(PtrV)
		n := e.ext64(args[1].(*Term), c.Call.Args[1].Type())
		o, ok := w.st.heap.at(p.Obj).(*ArrObj)
		if !ok || o.EW != 8 {
			panic(unsup("unsafe.Add"))
		}
		off := tb.Const(64, 0)
		if len(p.Path) == 1 {
			off = p.Path[0].Idx
		}
		return set(PtrV{p.Obj, []PE{{Idx: tb.Add(off, n)}}})
	}
	panic(unsup("builtin %s", b.Name()))
}

func (e *Engine) builtinDeferred(b *ssa.Builtin, args []Value, st *State, panicIdx int) []Exit {
	switch b.Name() {
	case "recover":
		if panicIdx >= 0 && panicIdx < len(st.panics) {
			ps := append([]PanicRec(nil), st.panics...)
			ps[panicIdx].recovered = true
			st.panics = ps
		}
		return []Exit{{kind: exReturn, st: st}}
	case "copy":
		e.copySlice(st, args[0], args[1])
		return []Exit{{kind: exReturn, st: st}}
	case "panic":
		return []Exit{{kind: exPanic, st: st, pv: args[0]}}
	case "print", "println":
		return []Exit{{kind: exReturn, st: st}}
	}
	panic(unsup("deferred builtin %s", b.Name()))
}

func (e *Engine) copySlice(st *State, dv, sv Value) Value {
	tb := e.tb
	d := dv.(SliceV)
	var s SliceV
	switch x := sv.(type) {
	case SliceV:
		s = x
	case StrV:
		s = e.convert(nil, &work{st: st}, x, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(SliceV)
	}
	n := tb.Ite(tb.Ult(s.Len, d.Len), s.Len, d.Len)
	// a syntactic or path-implied choice keeps terms small
	if n.Op == OpIte {
		c := tb.Ult(s.Len, d.Len)
		if !e.feasible(st, c) {
			n = d.Len
			if !e.feasible(st, tb.BNot(tb.Eq(s.Len, d.Len))) {
				n = s.Len
			}
		} else if !e.feasible(st, tb.BNot(tb.Ule(s.Len, d.Len))) {
			n = s.Len
		}
	}
	if (isC(n) && n.C == 0) || d.Obj == 0 || s.Obj == 0 {
		return n
	}
	switch do := st.heap.at(d.Obj).(type) {
	case *ArrObj:
		so, ok := st.heap.at(s.Obj).(*ArrObj)
		if !ok || so.EW != do.EW {
			panic(unsup("copy between different element types"))
		}
		st.heap.set(d.Obj, e.arrCopy(do, d.Off, n, so, s.Off))
	case *CellObj:
		so := st.heap.at(s.Obj).(*CellObj)
		if !isC(n) || !isC(d.Off) || !isC(s.Off) {
			panic(unsup("copy of references with symbolic bounds"))
		}
		da, sa := do.V.(*ArrayV), so.V.(*ArrayV)
		a := append([]Value(nil), da.E...)
		for k := uint64(0); k < n.C; k++ {
			a[d.Off.C+k] = sa.E[s.Off.C+k]
		}
		st.heap.set(d.Obj, &CellObj{&ArrayV{a}})
	}
	return n
}

func (e *Engine) appendSlice(fr *frame, w *work, c *ssa.Call, args []Value) ([]Exit, bool) {
	tb := e.tb
	s := args[0].(SliceV)
	set := func(v Value) ([]Exit, bool) {
		w.env[fr.in.reg[c]] = v
		return nil, true
	}
	if len(args) == 1 {
		return set(s)
	}
	var a SliceV
	switch x := args[1].(type) {
	case SliceV:
		a = x
	case StrV:
		a = e.convert(fr, w, x, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(SliceV)
	}
	et := c.Type().Underlying().(*types.Slice).Elem()
	if isC(a.Len) && a.Len.C == 0 {
		return set(s)
	}
	nl := tb.Add(s.Len, a.Len)
	fits := tb.BNot(tb.Ult(tb.Sub(s.Cap, s.Len), a.Len)) // a.Len <= cap-len
	if ew := elemWidth(et); ew > 0 {
		var out []Exit
		if s.Obj != 0 && e.feasible(w.st, fits) {
			st := w.st.fork()
			e.assumeIf(st, fits)
			if a.Obj != 0 {
				o := st.heap.at(s.Obj).(*ArrObj)
				st.heap.set(s.Obj, e.arrCopy(o, tb.Add(s.Off, s.Len), a.Len, st.heap.at(a.Obj).(*ArrObj), a.Off))
			}
			out = append(out, Exit{kind: exReturn, st: st, vals: []Value{SliceV{s.Obj, s.Off, nl, s.Cap}}})
		} else if s.Obj == 0 {
			// nil slice + empty appendix stays nil
			z := tb.Eq(a.Len, tb.Const(64, 0))
			if e.feasible(w.st, z) {
				st := w.st.fork()
				e.assumeIf(st, z)
				out = append(out, Exit{kind: exReturn, st: st, vals: []Value{s}})
			}
			fits = z
		}
		if e.feasible(w.st, tb.BNot(fits)) {
			st := w.st
			if len(out) > 0 {
				st = w.st.fork()
			}
			e.assumeIf(st, tb.BNot(fits))
			o := &ArrObj{EW: ew}
			if s.Obj != 0 {
				o = e.arrCopy(o, tb.Const(64, 0), s.Len, st.heap.at(s.Obj).(*ArrObj), s.Off)
			}
			if a.Obj != 0 {
				o = e.arrCopy(o, s.Len, a.Len, st.heap.at(a.Obj).(*ArrObj), a.Off)
			}
			id := e.alloc(st, o)
			e.seq++
			cv := tb.Var("growcap#"+itoa(e.seq), 64)
			e.assume(st, tb.Ule(nl, cv))
			e.assume(st, tb.Ule(cv, tb.Const(64, 1<<40)))
			out = append(out, Exit{kind: exReturn, st: st, vals: []Value{SliceV{id, tb.Const(64, 0), nl, cv}}})
		}
		return out, true
	}
	// slices of references: concrete sizes only
	if !isC(nl) || !isC(s.Cap) || !isC(a.Off) || !isC(a.Len) || !isC(s.Off) {
		panic(unsup("append of references with symbolic sizes"))
	}
	var src []Value
	if a.Obj != 0 {
		src = w.st.heap.at(a.Obj).(*CellObj).V.(*ArrayV).E[a.Off.C : a.Off.C+a.Len.C]
	}
	if nl.C <= s.Cap.C && s.Obj != 0 {
		arr := append([]Value(nil), w.st.heap.at(s.Obj).(*CellObj).V.(*ArrayV).E...)
		copy(arr[s.Off.C+s.Len.C:], src)
		w.st.heap.set(s.Obj, &CellObj{&ArrayV{arr}})
		return set(SliceV{s.Obj, s.Off, nl, s.Cap})
	}
	var arr []Value
	if s.Obj != 0 {
		arr = append(arr, w.st.heap.at(s.Obj).(*CellObj).V.(*ArrayV).E[s.Off.C:s.Off.C+s.Len.C]...)
	}
	arr = append(arr, src...)
	ncap := nl.C
	if s.Cap.C*2 > ncap {
		ncap = s.Cap.C * 2
	}
	for uint64(len(arr)) < ncap {
		arr = append(arr, e.zero(et))
	}
	id := e.alloc(w.st, &CellObj{&ArrayV{arr}})
	return set(SliceV{id, tb.Const(64, 0), nl, tb.Const(64, ncap)})
}

// assumeIf adds c only if it is not already implied.
func (e *Engine) assumeIf(st *State, c *Term) {
	if c == e.tb.True {
		return
	}
	if !e.feasible(st, e.tb.BNot(c)) {
		return
	}
	e.assume(st, c)
}

func itoa(n int) string { return strings.TrimSpace(fmtInt(n)) }

// Addresses: every object has a range of its own, and begins aligned, as
// allocations do.
const addrShift = 37

func (e *Engine) address(st *State, p PtrV) *Term {
	if p.Obj == 0 {
		return e.tb.Const(64, 0)
	}
	base := e.tb.Const(64, uint64(p.Obj+1)<<addrShift)
	if len(p.Path) == 0 {
		return base
	}
	if a, ok := st.heap.at(p.Obj).(*ArrObj); ok && len(p.Path) == 1 && p.Path[0].Idx != nil {
		return e.tb.Add(base, e.tb.Mul(p.Path[0].Idx, e.tb.Const(64, uint64(a.EW/8))))
	}
	panic(unsup("address of a part of an object"))
}

func (e *Engine) pointer(st *State, t *Term) PtrV {
	if isC(t) && t.C == 0 {
		return PtrV{}
	}
	if !isC(t) && t.Op != OpLin {
		panic(unsup("pointer from a number"))
	}
	id := int((t.C+1<<(addrShift-1))>>addrShift) - 1
	if id < 1 {
		panic(unsup("pointer from a number"))
	}
	o, ok := st.heap.get(id)
	if !ok {
		panic(unsup("pointer from a number"))
	}
	off := e.tb.Sub(t, e.tb.Const(64, uint64(id+1)<<addrShift))
	if a, ok := o.(*ArrObj); ok {
		if a.EW == 8 {
			return PtrV{Obj: id, Path: []PE{{Idx: off}}}
		}
		if isC(off) && off.C%uint64(a.EW/8) == 0 {
			return PtrV{Obj: id, Path: []PE{{Idx: e.tb.Const(64, off.C/uint64(a.EW/8))}}}
		}
	} else if isC(off) && off.C == 0 {
		return PtrV{Obj: id}
	}
	panic(unsup("pointer into an object"))
}
