package h

import "verif/harness/sym"

func init() {
	for _, v := range vers {
		for _, op := range v.Ops {
			v, op := v, op
			if op.Kind != KInt && op.Kind != KFloat {
				continue
			}
			c := "C01"
			if !op.Write {
				c = "C02"
			}
			if op.Kind == KFloat {
				c = "C03"
			}
			if op.Write {
				add(c+"/"+v.Name+"/"+op.Name, func() { writeSpec(v, op, c) })
			} else {
				add(c+"/"+v.Name+"/"+op.Name, func() { readSpec(v, op, c) })
			}
			if op.Kind == KFloat && op.Write {
				rd := v.op("Read" + op.Name[len("Write"):])
				add(c+"/"+v.Name+"/roundtrip"+op.Name[len("Write"):], func() { roundtrip(v, op, rd, c) })
			}
		}
	}
}

func (v *Ver) op(name string) *Op {
	for _, op := range v.Ops {
		if op.Name == name {
			return op
		}
	}
	return nil
}

// bigCounts leave all kinds of rests when divided into batches.
var bigCounts = []int{15, 22, 29, 33, 44, 64, 130, 257}

// place picks an in-range position for m elements: the argument, or the
// cursor for the Next form.
func (st *State) place(op *Op, m int64, next bool) int64 {
	lim := st.n
	if op.bits() {
		lim *= 8
	}
	off := sym.Int64("off")
	sym.Assume(off >= 0)
	sym.Assume(off <= lim-m*op.W)
	if next {
		st.setCur(op, off)
	}
	return off
}

func (st *State) setCur(op *Op, off int64) {
	if op.bits() {
		st.v.SeekBit(st.o, off, false)
	} else {
		st.v.Seek(st.o, off, false)
	}
}

// advance is the cursor movement the Next form makes.
func (s *Snap) advance(op *Op, n int64) {
	if op.bits() {
		s.boff += n * op.W
	} else {
		s.off += n * op.W
	}
}

// writeSpec: the bytes of every element, in order, at the right place,
// and nothing else.
func writeSpec(v *Ver, op *Op, tag string) {
	next := sym.Choose("next", 2) == 1
	st := state(v)
	mi := count(8, 20, bigCounts...)
	m := int64(mi)
	off := st.place(op, m, next)
	s := op.src("", mi)
	src := op.clone(s)
	old := st.snap()
	_, _, p := op.try(next, st.o, off, m, s)
	sym.Assert(!p, tag+": panic on an in-range write")
	if next {
		old.advance(op, m)
	}
	st.shape(old, tag)
	b := v.Bytes(st.o)
	chk := func(k int64) {
		x := op.elem(src, k)
		for r := int64(0); r < op.W; r++ {
			sym.Assert(b[off+k*op.W+r] == op.byteOf(x, r), tag+": wrong byte stored")
		}
		sym.Assert(op.elem(s, k) == x, tag+": source slice changed")
	}
	for k := int64(0); k < m; k++ {
		chk(k)
	}
	j := int64(sym.Len("j"))
	if j < st.n && (j < off || j >= off+m*op.W) {
		sym.Assert(b[j] == old.b[j], tag+": byte outside the range changed")
		sym.Observe("outside", uint64(b[j]))
	}
	if m > 0 {
		sym.Observe("first", uint64(b[off]))
		sym.Observe("last", uint64(b[off+m*op.W-1]))
	}
	sym.Observe("off", uint64(v.Off(st.o)))
	sym.Cover("end")
}

// readSpec: every element decoded from its bytes, nothing changed, the
// result independent of the buffer.
func readSpec(v *Ver, op *Op, tag string) {
	next := sym.Choose("next", 2) == 1
	st := state(v)
	mi := count(8, 20, bigCounts...)
	m := int64(mi)
	off := st.place(op, m, next)
	s := op.src("", mi)
	fill := v.Mini && v.V > 1
	if fill {
		s.extra = int(sym.UintN("extra", 3))
	}
	old := st.snap()
	r, _, p := op.try(next, st.o, off, m, s)
	sym.Assert(!p, tag+": panic on an in-range read")
	if next {
		old.advance(op, m)
	}
	sym.Assert(r.N == m+int64(s.extra), tag+": wrong number of elements")
	st.same(old, tag)
	chk := func(k int64) {
		sym.Assert(r.At(k) == op.decode(old.b, off+k*op.W), tag+": wrong value read")
	}
	for k := int64(0); k < m; k++ {
		chk(k)
	}
	if fill {
		// the out slice itself was filled, and nothing beyond n elements
		e := int64(sym.UintN("e", 7))
		if e < r.N {
			sym.Assert(op.outElem(s, e) == r.At(e), tag+": out slice replaced")
			if e >= m {
				sym.Assert(r.At(e) == s.orig(e), tag+": element beyond n changed")
			}
		}
	}
	if m > 0 {
		sym.Observe("first", r.At(0))
		sym.Observe("last", r.At(m-1))
		if op.Bits > 8 {
			k := int64(sym.UintN("poke", 6))
			if k < m {
				r.Poke(k)
				j := sym.Len("j2")
				if j < len(old.b) {
					sym.Assert(v.Bytes(st.o)[j] == old.b[j], tag+": result shares memory with the buffer")
				}
			}
		}
	}
	sym.Cover("end")
}

// roundtrip: what was written is read back bit for bit.
func roundtrip(v *Ver, wr, rd *Op, tag string) {
	st := state(v)
	mi := count(6, 12)
	m := int64(mi)
	off := st.place(wr, m, false)
	s := wr.src("", mi)
	src := wr.clone(s)
	_, _, p := wr.try(false, st.o, off, m, s)
	sym.Assert(!p, tag+": panic on an in-range write")
	mid := st.snap()
	t := rd.src("r", mi)
	r, _, p := rd.try(false, st.o, off, m, t)
	sym.Assert(!p, tag+": panic on an in-range read")
	for k := int64(0); k < m; k++ {
		sym.Assert(r.At(k) == wr.elem(src, k), tag+": value not read back bit for bit")
		sym.Observe("v", r.At(k))
	}
	st.same(mid, tag)
	sym.Cover("end")
}
