package h

import "verif/harness/sym"

func init() {
	for _, v := range vers {
		v := v
		for _, op := range v.Ops {
			op := op
			add("C21/"+v.Name+"/again/"+op.Name, func() { again(v, op) })
			if op.Write {
				add("C21/"+v.Name+"/around/"+op.Name, func() { around(v, op) })
			}
		}
		if v.Mini {
			continue
		}
		for a := range acts(v) {
			a := a
			nm := acts(v)[a].name
			add("C21/"+v.Name+"/model/"+nm, func() { modelSeq(v, a) })
			add("C21/"+v.Name+"/hidden/"+nm, func() { hiddenState(v, a) })
		}
		for what, nm := range []string{"ClearAllBits", "SetAllBits", "FlipAllBits"} {
			what := what
			add("C21/"+v.Name+"/model/"+nm, func() { modelAllBits(v, what) })
		}
	}
}

// Out is what a call delivered.
type Out struct {
	p   bool
	pv  interface{}
	val uint64
}

// Model is what a Buffer is supposed to be.
type Model struct {
	b         []byte
	off, boff int64
}

// act is one operation with its arguments left open.
type act struct {
	name string
	// args draws the arguments and gives the real and the model call
	args func(tag string) (func(o any) uint64, func(m *Model) mOut)
}

// mOut is what the model says a call delivers.
type mOut struct {
	under, over bool // refused
	write       bool
	count       bool // refused with the invalid-count error
	any         bool // refused somehow
	val         uint64
}

func (m *Model) check(off, n, w, units int64, write bool) mOut {
	u, o := outside(off, n, w, units)
	return mOut{under: u, over: o, write: write}
}

func (o mOut) refused() bool { return o.under || o.over || o.count || o.any }

// opBy finds an operation by what it does rather than by its name.
func (v *Ver) opBy(bits int, be, write bool) *Op {
	for _, op := range v.Ops {
		if op.Kind == KInt && op.Bits == bits && op.BE == be && op.Write == write {
			return op
		}
	}
	return nil
}

func acts(v *Ver) []act {
	access := func(name string, op *Op, next bool, n int64) act {
		return act{name, func(tag string) (func(any) uint64, func(*Model) mOut) {
			off := int64(0)
			if !next {
				off = sym.Int64("off" + tag)
			}
			s := op.src("s"+tag, int(n))
			src := op.clone(s)
			real := func(o any) (x uint64) {
				r := op.run(next, o, off, n, op.clone(s))
				for k := int64(0); k < r.N; k++ {
					x = x<<uint(8*op.W) | r.At(k)
				}
				return
			}
			model := func(m *Model) mOut {
				p := off
				if next {
					p = m.off
					if op.bits() {
						p = m.boff
					}
				}
				units := int64(len(m.b))
				if op.bits() {
					units *= 8
				}
				out := m.check(p, n, op.W, units, op.Write)
				if out.refused() {
					return out
				}
				switch {
				case op.bits():
					for k := int64(0); k < n; k++ {
						q, mask := (p+k)/8, byte(0x80)>>uint((p+k)%8)
						bit := m.b[q]&mask != 0
						set := bit
						switch {
						case op.Kind == KField && op.Write:
							set = s.D>>uint(n-1-k)&1 != 0
						case op.Eff == BitSet:
							set = true
						case op.Eff == BitClear:
							set = false
						case op.Eff == BitFlip:
							set = !bit
						}
						if op.Write {
							if set {
								m.b[q] |= mask
							} else {
								m.b[q] &^= mask
							}
						} else {
							out.val *= 2
							if bit {
								out.val++
							}
						}
					}
				case op.Write:
					for k := int64(0); k < n; k++ {
						x := op.elem(src, k)
						for r := int64(0); r < op.W; r++ {
							m.b[p+k*op.W+r] = op.byteOf(x, r)
						}
					}
				default:
					for k := int64(0); k < n; k++ {
						out.val = out.val<<uint(8*op.W) | op.decode(m.b, p+k*op.W)
					}
				}
				if next && op.bits() {
					m.boff += n
				} else if next {
					m.off += n * op.W
				}
				return out
			}
			return real, model
		}}
	}
	as := []act{
		access("WriteByte", v.op("WriteByte"), false, 1),
		access("WriteBytesNext", v.op("WriteBytes"), true, 2),
		access("ReadByteNext", v.op("ReadByte"), true, 1),
		access("ReadBytes", v.op("ReadBytes"), false, 3),
		access("Write16LE", v.opBy(16, false, true), false, 1),
		access("Read32BENext", v.opBy(32, true, false), true, 1),
		access("Read16LE", v.opBy(16, false, false), false, 2),
		access("FlipBitNext", v.op("FlipBit"), true, 1),
		access("ReadBit", v.op("ReadBit"), false, 1),
		access("ReadBitsNext", v.op("ReadBits"), true, 3),
		access("SetBits", v.op("SetBits"), false, 2),
	}
	as = append(as,
		act{"Seek", func(tag string) (func(any) uint64, func(*Model) mOut) {
			x, rel := sym.Int64("x"+tag), sym.Bool("rel"+tag)
			return func(o any) uint64 { v.Seek(o, x, rel); return uint64(v.After0(o)) },
				func(m *Model) mOut {
					if rel {
						m.off += x
					} else {
						m.off = x
					}
					return mOut{val: uint64(int64(len(m.b)) - m.off - 1)}
				}
		}},
		act{"SeekBitAlignByte", func(tag string) (func(any) uint64, func(*Model) mOut) {
			x, rel := sym.Int64("x"+tag), sym.Bool("rel"+tag)
			return func(o any) uint64 { v.SeekBit(o, x, rel); v.AlignByte(o); return uint64(v.AfterBit0(o)) },
				func(m *Model) mOut {
					if rel {
						m.boff += x
					} else {
						m.boff = x
					}
					m.off = m.boff / 8
					return mOut{val: uint64(8*int64(len(m.b)) - m.boff - 1)}
				}
		}},
		act{"AlignBit", func(tag string) (func(any) uint64, func(*Model) mOut) {
			return func(o any) uint64 { v.AlignBit(o); return 0 },
				func(m *Model) mOut { m.boff = m.off * 8; return mOut{} }
		}},
		act{"Grow", func(tag string) (func(any) uint64, func(*Model) mOut) {
			neg := sym.Choose("neg"+tag, 2) == 1
			n := int64(0)
			if neg {
				n = sym.Int64("g" + tag)
				sym.Assume(n < 0)
			} else {
				n = int64(sym.UintN("gn"+tag, 18))
			}
			return func(o any) uint64 { v.Grow(o, n); return 0 },
				func(m *Model) mOut {
					if neg {
						return mOut{any: true, count: v.V == 3}
					}
					b := make([]byte, int64(len(m.b))+n)
					copy(b, m.b)
					m.b = b
					return mOut{}
				}
		}},
	)
	if v.Reset != nil {
		as = append(as, act{"Reset", func(tag string) (func(any) uint64, func(*Model) mOut) {
			return func(o any) uint64 { v.Reset(o); return 0 },
				func(m *Model) mOut { m.b, m.off, m.boff = m.b[:0], 0, 0; return mOut{} }
		}})
	}
	if v.TruncL != nil {
		tr := func(name string, side int) act {
			return act{name, func(tag string) (func(any) uint64, func(*Model) mOut) {
				n := sym.Int64("t" + tag)
				return func(o any) uint64 { v.trunc(o, n, side); return 0 },
					func(m *Model) mOut {
						k := int64(len(m.b))
						if n < 0 {
							return mOut{any: true, count: true}
						}
						if n > k {
							return mOut{any: true}
						}
						if side == 0 {
							m.b = m.b[n:]
						} else {
							m.b = m.b[:k-n]
						}
						return mOut{}
					}
			}}
		}
		as = append(as, tr("TruncateLeft", 0), tr("TruncateRight", 1))
	}
	return as
}

func call(o any, f func(any) uint64) (r Out) {
	r.pv, r.p = sym.Try(func() { r.val = f(o) })
	return
}

// agrees: the call delivered what the model says.
func (v *Ver) agrees(r Out, m mOut, tag string) {
	sym.Assert(r.p == m.refused(), tag+": accepted or refused wrongly")
	if !m.refused() {
		sym.Assert(r.val == m.val, tag+": wrong result")
		sym.Observe("val", r.val)
		return
	}
	switch {
	case m.count:
		sym.Assert(r.pv == v.ErrCount(), tag+": wrong panic value")
	case m.any:
	case m.write:
		sym.Assert(m.under && r.pv == v.ErrUW() || m.over && r.pv == v.ErrOW(), tag+": wrong panic value")
	default:
		sym.Assert(m.under && r.pv == v.ErrUR() || m.over && r.pv == v.ErrOR(), tag+": wrong panic value")
	}
}

// is: the buffer looks like the model.
func (st *State) is(m *Model, tag string) {
	v, o := st.v, st.o
	b := v.Bytes(o)
	n := int64(len(m.b))
	sym.Assert(int64(len(b)) == n, tag+": wrong length")
	sym.Assert(v.Cap(o) == n && v.BitCap(o) == 8*n, tag+": wrong capacity")
	sym.Assert(v.Off(o) == m.off, tag+": wrong byte cursor")
	sym.Assert(v.BitOff(o) == m.boff, tag+": wrong bit cursor")
	j := int(sym.UintN("j", 23))
	if j < len(b) && int64(j) < n {
		sym.Assert(b[j] == m.b[j], tag+": wrong contents")
		sym.Observe("byte", uint64(b[j]))
	}
}

// modelSeq: every sequence of two (thorough: three) operations starting
// with a given one.
func modelSeq(v *Ver, first int) {
	st := state(v)
	as := acts(v)
	m := &Model{b: sym.Snapshot(v.Bytes(st.o)), off: v.Off(st.o), boff: v.BitOff(st.o)}
	steps := 2
	if sym.Tier() == 1 {
		steps = 3
	}
	k := first
	for i := 0; i < steps; i++ {
		tag := []string{"1", "2", "3"}[i]
		if i > 0 {
			k = sym.Choose("act"+tag, len(as))
		}
		real, model := as[k].args(tag)
		r := call(st.o, real)
		v.agrees(r, model(m), "C21: step "+tag)
	}
	st.is(m, "C21")
	sym.Cover("end")
}

// hiddenState: after any operation the buffer is indistinguishable, by
// any further operation, from a fresh buffer with the same contents and
// cursors.
func hiddenState(v *Ver, first int) {
	st := state(v)
	as := acts(v)
	real, _ := as[first].args("1")
	call(st.o, real)
	b := v.Bytes(st.o)
	fresh := make([]byte, len(b))
	copy(fresh, b)
	tw := &State{v: v, o: v.New(fresh), n: int64(len(b)), raw: fresh}
	v.Seek(tw.o, v.Off(st.o), false)
	v.SeekBit(tw.o, v.BitOff(st.o), false)
	k := sym.Choose("act2", len(as))
	real, _ = as[k].args("2")
	r1, r2 := call(st.o, real), call(tw.o, real)
	sym.Assert(r1.p == r2.p, "C21: outcome depends on hidden state")
	if !r1.p {
		sym.Assert(r1.val == r2.val, "C21: result depends on hidden state")
		sym.Observe("val", r1.val)
	}
	alike(st, tw, "C21: hidden state")
	sym.Cover("end")
}

// modelAllBits: whole-buffer operations between others.
func modelAllBits(v *Ver, what int) {
	n := count(4, 10)
	st := stateN(v, n)
	as := acts(v)
	m := &Model{b: sym.Snapshot(v.Bytes(st.o)), off: v.Off(st.o), boff: v.BitOff(st.o)}
	for i := 0; i < 2; i++ {
		tag := []string{"1", "2"}[i]
		real, model := as[sym.Choose("act"+tag, 9)].args(tag)
		r := call(st.o, real)
		v.agrees(r, model(m), "C21: step "+tag)
		if i == 1 {
			break
		}
		switch what {
		case 0:
			v.ClearAll(st.o)
		case 1:
			v.SetAll(st.o)
		default:
			v.FlipAll(st.o)
		}
		for j := range m.b {
			switch what {
			case 0:
				m.b[j] = 0
			case 1:
				m.b[j] = 0xFF
			default:
				m.b[j] = ^m.b[j]
			}
		}
	}
	st.is(m, "C21")
	sym.Cover("end")
}

// again: an operation gives what the contents then say, also when the
// same operation at the same place came before with something else in
// between.
func again(v *Ver, op *Op) {
	st := state(v)
	n := int64(1)
	switch {
	case op.One:
	case op.Kind == KField:
		n = []int64{8, 57, 64}[sym.Choose("n", 3)]
	case sym.Tier() == 1:
		n = int64(sym.Choose("n", 5))
	default:
		n = 2
	}
	off := sym.Int64("off")
	sym.Assume(off >= 0 && off <= st.units(op)-n*op.W)
	if op.Kind == KField {
		q, sub := int64(sym.Len("q")), int64(3)
		if sym.Tier() == 1 {
			sub = int64(sym.Choose("sub", 8))
		}
		sym.Assume(off == 8*q+sub)
		off = 8*q + sub
	}
	next := sym.Choose("next", 2) == 1
	s := op.src("1", int(n))
	if next {
		st.setCur(op, off)
	}
	op.run(next, st.o, off, n, op.clone(s))
	var ws []*Op
	if sym.Tier() == 1 || v.typical(op) {
		for _, w := range v.Ops {
			if w.Write {
				ws = append(ws, w)
			}
		}
	}
	switch k := sym.Choose("between", 7+len(ws)); k {
	case 0:
		// through the caller's own slice
		j, x := sym.Len("at"), sym.Uint8("x")
		sym.Assume(int64(j) < st.n)
		st.raw[j] = x
	case 1:
		woff := sym.Int64("woff")
		sym.Assume(woff >= 0 && woff <= st.n-3)
		v.op("WriteBytes").Do(st.o, woff, 3, &Src{U8: sym.Bytes("wdata", 3, 3)})
	case 2:
		q := int64(sym.Len("wq"))
		sym.Assume(8*q+10 <= 8*st.n)
		v.op("SetBits").Do(st.o, 8*q+5, 5, &Src{D: sym.Uint64("wbits")})
	case 3:
		q := int64(sym.Len("wq"))
		sym.Assume(q < st.n)
		v.op("FlipBit").Do(st.o, 8*q+int64(sym.Choose("wsub", 2))*4, 1, &Src{})
	case 4:
		if w := v.opBy(64, false, true); w != nil {
			t := w.src("w", 1)
			woff := sym.Int64("woff")
			sym.Assume(woff >= 0 && woff <= st.n-8)
			w.Do(st.o, woff, 1, t)
		}
	case 5:
		v.Grow(st.o, int64(sym.UintN("g", 4)))
	default:
		if k > 6 {
			w := ws[k-7]
			wn := int64(1)
			if w.Kind == KField {
				wn = 9
			}
			w.run(false, st.o, st.inside(w, wn, "w"+w.Name), wn, w.src("w"+w.Name, int(wn)))
			break
		}
		if v.TruncL == nil {
			return
		}
		t := int64(sym.UintN("t", 4))
		sym.Assume(t <= st.n)
		v.TruncL(st.o, t)
	}
	b := v.Bytes(st.o)
	unit := int64(1)
	if op.bits() {
		unit = 8
	}
	sym.Assume(off <= int64(len(b))*unit-n*op.W)
	fresh := make([]byte, len(b))
	copy(fresh, b)
	tw := &State{v: v, o: v.New(fresh), n: int64(len(b)), raw: fresh}
	if next {
		st.setCur(op, off)
	}
	v.Seek(tw.o, v.Off(st.o), false)
	v.SeekBit(tw.o, v.BitOff(st.o), false)
	s1, s2 := op.clone(s), op.clone(s)
	s1.tag, s2.tag = "2", "3"
	r1, _, p1 := op.try(next, st.o, off, n, s1)
	r2, _, p2 := op.try(next, tw.o, off, n, s2)
	sym.Assert(!p1 && !p2, "C21: repeated operation refused")
	sameRes(r1, r2, "C21: repeated operation")
	alike(st, tw, "C21: repeated operation")
	sym.Cover("end")
}

// typical operations stand for the others where pairs are too many.
func (v *Ver) typical(op *Op) bool {
	if op.Name == "WriteBytes" || op.Name == "ReadBit" || op.Kind == KField && op.Eff == 0 {
		return true
	}
	return op == v.opBy(16, false, false) || op == v.opBy(32, true, false) || op == v.opBy(64, false, false) ||
		op == v.opBy(32, false, true)
}

// around: whole-buffer operations before and after a write.
func around(v *Ver, op *Op) {
	st := stateN(v, 11+5*sym.Tier())
	all := func(what int) {
		switch what {
		case 0:
			v.ClearAll(st.o)
		case 1:
			v.SetAll(st.o)
		default:
			v.FlipAll(st.o)
		}
	}
	all(sym.Choose("first", 3))
	m := op.tiny("w")
	if op.Kind == KField {
		m = 9
	} else if m*op.W > 11 {
		m = 1
	}
	next := sym.Choose("next", 2) == 1
	off := st.inside(op, m, "w")
	s := op.src("w", int(m))
	if next {
		st.setCur(op, off)
	}
	op.run(next, st.o, off, m, s)
	if sym.Choose("poke", 2) == 1 {
		j := sym.Len("at")
		sym.Assume(int64(j) < st.n)
		st.raw[j] = sym.Uint8("x")
	}
	old := st.snap()
	what := sym.Choose("second", 3)
	all(what)
	b := v.Bytes(st.o)
	sym.Assert(int64(len(b)) == st.n, "C21: whole-buffer operation changed the size")
	for j := range b {
		x := old.b[j]
		switch what {
		case 0:
			x = 0
		case 1:
			x = 0xFF
		default:
			x = ^x
		}
		sym.Assert(b[j] == x, "C21: whole-buffer operation after a write")
	}
	sym.Cover("end")
}
