package h

import "verif/harness/sym"

func init() {
	for k := range vers {
		v, sib := vers[k], vers[k^1]
		for _, op := range v.Ops {
			op := op
			add("C25/"+v.Name+"/two/"+op.Name, func() { twoBuffers(v, v, op) })
			if sib.op(op.Name) != nil {
				add("C25/"+v.Name+"/mixed/"+op.Name, func() { twoBuffers(v, sib, op) })
			}
			if !op.Write {
				add("C25/"+v.Name+"/kept/"+op.Name, func() { kept(v, op) })
			} else if !op.bits() && !op.One {
				add("C25/"+v.Name+"/given/"+op.Name, func() { lent(v, op) })
			}
		}
		add("C25/"+v.Name+"/new", func() { newApart(v, v) })
		add("C25/"+v.Name+"/newmixed", func() { newApart(v, sib) })
		for what, n := range []string{"TruncateLeft", "TruncateRight", "Reset", "Grow", "Seek", "Align", "After", "Refresh"} {
			what := what
			if v.Reset == nil && n == "Reset" || v.TruncL == nil && what < 2 {
				continue
			}
			add("C25/"+v.Name+"/memory/"+n, func() { still(v, what) })
		}
	}
}

// tiny is a small number of elements.
func (op *Op) tiny(tag string) int64 {
	switch {
	case op.One:
		return 1
	case sym.Tier() == 0 && op.Kind == KField:
		return []int64{9, 64}[sym.Choose("n"+tag, 2)]
	case sym.Tier() == 0:
		return 2
	case op.Kind == KField:
		return []int64{1, 9, 64}[sym.Choose("n"+tag, 3)]
	}
	return int64(1 + sym.Choose("n"+tag, 3))
}

// inside is a position at which n elements fit.
func (st *State) inside(op *Op, n int64, tag string) int64 {
	lim := st.units(op)
	off := sym.Int64("off" + tag)
	sym.Assume(off >= 0)
	sym.Assume(off <= lim-n*op.W)
	if op.Kind == KField {
		q, sub := int64(sym.Len("q"+tag)), int64(5)
		if sym.Tier() == 1 {
			sub = int64(sym.Choose("sub"+tag, 8))
		}
		sym.Assume(off == 8*q+sub)
		off = 8*q + sub
	}
	return off
}

// named is an arbitrary state whose parts have names of their own.
func named(v *Ver, tag string) *State {
	n, c := sym.Len("len"+tag), sym.Len("cap"+tag)
	sym.Assume(c >= n)
	b := sym.Bytes("buf"+tag, n, c)
	st := &State{v: v, o: v.New(b), n: int64(n), raw: b}
	v.Seek(st.o, sym.Int64("cur"+tag), false)
	v.SeekBit(st.o, sym.Int64("bcur"+tag), false)
	return st
}

// record is the result as it is now.
func (r Res) record() (x []uint64) {
	n := r.N
	if n > 8 {
		n = 8
	} else if n < 0 {
		n = 0
	}
	x = make([]uint64, n)
	for k := range x {
		x[k] = r.At(int64(k))
	}
	return
}

func (r Res) still(x []uint64, tag string) {
	for k := range x {
		sym.Assert(r.At(int64(k)) == x[k], tag)
		sym.Observe("kept", r.At(int64(k)))
	}
}

func equal(x, y []uint64, tag string) {
	sym.Assert(len(x) == len(y), tag)
	for k := range x {
		if k < len(y) {
			sym.Assert(x[k] == y[k], tag)
		}
	}
}

// job is something done to a buffer.
type job struct {
	op   *Op // or
	what int
	next bool
	off  int64
	n    int64
	s    *Src
}

// opJob picks arguments for op on st (and seeks for a Next form).
func (st *State) opJob(op *Op, tag string) (j job) {
	j.op = op
	if sym.Tier() == 1 || tag == "x" {
		j.next = sym.Choose("next"+tag, 2) == 1
	}
	j.n = op.tiny(tag)
	j.off = st.inside(op, j.n, tag)
	j.s = op.src(tag, int(j.n))
	if j.next {
		st.setCur(op, j.off)
	}
	return
}

// do performs the job, on operands of its own.
func (st *State) do(j job, tag string) (r Res) {
	r = none
	v, o := st.v, st.o
	if j.op != nil {
		s := j.op.clone(j.s)
		s.tag = tag
		return v.op(j.op.Name).run(j.next, o, j.off, j.n, s)
	}
	switch j.what {
	case 0:
		v.Grow(o, j.n)
	case 1:
		v.ClearAll(o)
	case 2:
		v.Reset(o)
	case 3:
		v.TruncL(o, j.n)
	}
	return
}

// other picks something to be done to the second buffer.
func (st *State) otherJob(op *Op, tag string, same bool) job {
	v := st.v
	cands := []*Op{v.op(op.Name)}
	if same && sym.Tier() == 0 {
		return st.opJob(cands[0], tag)
	}
	for _, n := range []string{"WriteBytes", "ReadBytes", "ReadBits", "SetBits"} {
		if n != op.Name {
			cands = append(cands, v.op(n))
		}
	}
	if !op.bits() {
		// another width, in both directions
		for _, w := range []bool{false, true} {
			if x := v.opBy(32, true, w); x != nil && x.Name != op.Name {
				cands = append(cands, x)
			}
		}
	}
	misc := 1
	if v.Reset != nil {
		misc = 3
	}
	if v.TruncL != nil {
		misc = 4
	}
	k := sym.Choose("other"+tag, len(cands)+misc)
	if k < len(cands) {
		return st.opJob(cands[k], tag)
	}
	j := job{what: k - len(cands)}
	if j.what != 1 {
		j.n = int64(sym.UintN("g"+tag, 3))
		if j.what == 3 {
			sym.Assume(j.n <= st.n)
		}
	} else {
		sym.Assume(st.n <= 3)
	}
	return j
}

// twoBuffers: operations on two buffers over disjoint memory, as if each
// were alone.
func twoBuffers(v, w *Ver, op *Op) {
	x, y := named(v, "x"), named(w, "y")
	jx, jy := x.opJob(op, "x"), y.otherJob(op, "y", v != w)
	x0, y0 := x.twin(v), y.twin(w)
	rx0 := x0.do(jx, "x0")
	vx := rx0.record()
	vy := y0.do(jy, "y0").record()
	// now together
	rx := x.do(jx, "x1")
	equal(rx.record(), vx, "C25: result depends on what was done to another buffer")
	bx := x.snap()
	ry := y.do(jy, "y1")
	equal(ry.record(), vy, "C25: result depends on what was done to another buffer")
	rx.still(vx, "C25: an earlier result changed")
	rx0.still(vx, "C25: an earlier result changed")
	x.same(bx, "C25: operation on another buffer")
	alike(x, x0, "C25: two buffers")
	alike(y, y0, "C25: two buffers")
	sym.Cover("end")
}

// kept: a result (of a read that is no view) does not change under later
// operations on the same buffer.
func kept(v *Ver, op *Op) {
	x := named(v, "x")
	jx := x.opJob(op, "x")
	r := x.do(jx, "x1")
	vx := r.record()
	k := sym.Choose("then", 4)
	switch {
	case k == 0:
		x.do(x.opJob(op, "z"), "z")
	case op.Bits == 8 && !op.One:
		// a view: no write
		if v.Mini {
			return
		}
		switch k {
		case 1:
			v.Grow(x.o, int64(sym.UintN("g", 3)))
		case 2:
			x.do(x.opJob(v.op("ReadBits"), "z"), "z")
		default:
			if v.TruncL != nil {
				t := int64(sym.UintN("g", 3))
				sym.Assume(t <= x.n)
				v.TruncL(x.o, t)
			}
		}
	case k == 1:
		x.do(x.opJob(v.op("WriteBytes"), "z"), "z")
	case k == 2:
		if w := v.opBy(op.Bits, op.BE, true); w != nil {
			x.do(x.opJob(w, "z"), "z")
		} else {
			x.do(x.opJob(v.op("SetBits"), "z"), "z")
		}
	default:
		v.Grow(x.o, int64(sym.UintN("g", 3)))
	}
	r.still(vx, "C25: an earlier result changed")
	sym.Cover("end")
}

// newApart: buffers made one after the other from any number of slices.
func newApart(v, w *Ver) {
	mk := func(v *Ver, tag string) (st *State) {
		ways := 3
		if v.Reset != nil {
			ways = 4
		}
		k := sym.Choose("slices"+tag, ways)
		if k == 3 {
			n := sym.Len("n" + tag)
			st = &State{v: v, o: v.New(sym.Bytes("s"+tag, n, n))}
			v.Reset(st.o)
			v.Grow(st.o, 4)
			st.n = int64(len(v.Bytes(st.o)))
			return
		}
		var ss [][]byte
		for i := 0; i < k; i++ {
			n := sym.Len("n" + tag + []string{"0", "1"}[i])
			ss = append(ss, sym.Bytes("s"+tag+[]string{"0", "1"}[i], n, n))
		}
		st = &State{v: v, o: v.New(ss...)}
		if k != 1 {
			v.Grow(st.o, 4)
		}
		st.n = int64(len(v.Bytes(st.o)))
		return
	}
	x := mk(v, "x")
	bx := x.snap()
	y := mk(w, "y")
	x.same(bx, "C25: making another buffer")
	by := y.snap()
	if sym.Choose("which", 2) == 1 {
		x, y, bx, by = y, x, by, bx
	}
	x.do(x.opJob(x.v.op("WriteBytes"), "z"), "z")
	y.same(by, "C25: writing to another buffer")
	sym.Cover("end")
}

// still: calls that change sizes and cursors change no byte of memory.
func still(v *Ver, what int) {
	st := state(v)
	x, rel := sym.Int64("x"), sym.Bool("rel")
	c := cap(st.raw)
	full := sym.Snapshot(st.raw)
	view := v.Bytes(st.o)
	sym.Try(func() {
		switch what {
		case 0, 1:
			v.trunc(st.o, x, what)
		case 2:
			v.Reset(st.o)
		case 3:
			// may use the spare bytes
			c = int(st.n)
			v.Grow(st.o, growCount())
		case 4:
			v.Seek(st.o, x, rel)
			v.SeekBit(st.o, x, rel)
		case 5:
			v.AlignBit(st.o)
			v.AlignByte(st.o)
		case 6:
			v.After0(st.o)
			v.After1(st.o, x)
			v.AfterBit0(st.o)
			v.AfterBit1(st.o, x)
		default:
			v.Refresh(st.o)
		}
	})
	j := sym.Len("j")
	if j < c {
		sym.Assert(st.raw[:c][j] == full[:c][j], "C25: memory changed")
		sym.Observe("byte", uint64(st.raw[:c][j]))
	}
	if j < len(view) {
		sym.Assert(view[j] == full[j], "C25: an earlier view changed")
	}
	sym.Cover("end")
}

// operand is the slice a write is given.
func (op *Op) operand(s *Src) Res {
	switch {
	case op.Bits == 8:
		return res8(s.U8)
	case op.Bits == 16 && op.Sort == 'I':
		return resI16(s.I16)
	case op.Bits == 16:
		return res16(s.U16)
	case op.Bits == 32 && op.Sort == 'I':
		return resI32(s.I32)
	case op.Bits == 32 && op.Sort == 'F':
		return resF32(s.F32)
	case op.Bits == 32:
		return res32(s.U32)
	case op.Sort == 'I':
		return resI64(s.I64)
	case op.Sort == 'F':
		return resF64(s.F64)
	}
	return res64(s.U64)
}

// lent: a slice given to a write is read, once.
func lent(v *Ver, op *Op) {
	next := sym.Choose("next", 2) == 1
	st := state(v)
	n := int64(2)
	if op.Bits == 8 {
		n = int64(byteCount(op))
	} else if sym.Tier() == 1 {
		n = op.tiny("")
	}
	off := st.place(op, n, next)
	s := op.src("", int(n))
	d := op.operand(s)
	i, j, k := int64(sym.Len("i")), sym.Len("j"), sym.Len("k")
	sym.Assume(i < n)
	sym.Assume(int64(j) < st.n)
	sym.Assume(int64(k) < st.n)
	was := d.At(i)
	op.run(next, st.o, off, n, s)
	sym.Assert(d.At(i) == was, "C25: write changed the slice it was given")
	b := v.Bytes(st.o)
	x := b[j]
	d.Poke(i)
	sym.Assert(v.Bytes(st.o)[j] == x, "C25: buffer follows the slice it was given")
	was = d.At(i)
	one := &Src{n: 1, U8: []byte{sym.Uint8("x")}}
	v.op("WriteBytes").run(false, st.o, int64(k), 1, one)
	sym.Assert(d.At(i) == was, "C25: a slice given to a write follows the buffer")
	sym.Observe("operand", d.At(i))
	sym.Cover("end")
}
