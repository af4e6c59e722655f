package h

import "verif/harness/sym"

func init() {
	for _, v := range vers {
		v := v
		for _, op := range v.Ops {
			op := op
			if op.Kind != KByte {
				continue
			}
			switch {
			case op.Write:
				add("C04/"+v.Name+"/"+op.Name, func() { byteWrite(v, op) })
			default:
				add("C04/"+v.Name+"/"+op.Name, func() { byteRead(v, op) })
			}
			if op.Write && !op.One {
				add("C04/"+v.Name+"/overlapping"+op.Name, func() { byteOverlap(v, op) })
			}
		}
		add("C04/"+v.Name+"/Bytes", func() { bytesView(v) })
	}
}

// byteCount: one, a few (loops are unrolled), or any number of bytes.
func byteCount(op *Op) int {
	if op.One {
		return 1
	}
	switch sym.Choose("size", 3) {
	case 0:
		m := int(sym.UintN("m", 4))
		sym.Assume(m <= 12)
		return m
	case 1:
		return 70
	}
	return sym.Len("mlong")
}

func byteWrite(v *Ver, op *Op) {
	next := sym.Choose("next", 2) == 1
	mi := byteCount(op)
	m := int64(mi)
	st := state(v)
	off := st.place(op, m, next)
	s := op.src("", mi)
	src := op.clone(s)
	old := st.snap()
	view := v.Bytes(st.o)
	_, _, p := op.try(next, st.o, off, m, s)
	sym.Assert(!p, "C04: panic on an in-range write")
	if next {
		old.advance(op, m)
	}
	st.shape(old, "C04")
	b := v.Bytes(st.o)
	j := int64(sym.Len("j"))
	if j < st.n {
		sym.Assert(view[j] == b[j], "C04: write not visible in the slice taken before")
		sym.Observe("byte", uint64(b[j]))
		if j >= off && j < off+m {
			sym.Assert(b[j] == src.U8[j-off], "C04: wrong byte stored")
			sym.Assert(s.U8[j-off] == src.U8[j-off], "C04: source slice changed")
		} else {
			sym.Assert(b[j] == old.b[j], "C04: byte outside the range changed")
		}
	}
	sym.Cover("end")
}

func byteOverlap(v *Ver, op *Op) {
	next := sym.Choose("next", 2) == 1
	mi := byteCount(op)
	m := int64(mi)
	st := state(v)
	off := st.place(op, m, next)
	pos := sym.Int64("pos")
	sym.Assume(pos >= 0)
	sym.Assume(pos <= st.n-m)
	s := &Src{n: mi, U8: st.raw[pos : pos+m]}
	old := st.snap()
	_, _, p := op.try(next, st.o, off, m, s)
	sym.Assert(!p, "C04: panic on an in-range write")
	if next {
		old.advance(op, m)
	}
	st.shape(old, "C04")
	b := v.Bytes(st.o)
	j := int64(sym.Len("j"))
	if j < st.n {
		sym.Observe("byte", uint64(b[j]))
		if j >= off && j < off+m {
			sym.Assert(b[j] == old.b[j-off+pos], "C04: overlapping source: wrong byte stored")
		} else {
			sym.Assert(b[j] == old.b[j], "C04: overlapping source: byte outside the range changed")
		}
	}
	sym.Cover("end")
}

func byteRead(v *Ver, op *Op) {
	next := sym.Choose("next", 2) == 1
	mi := byteCount(op)
	m := int64(mi)
	st := state(v)
	off := st.place(op, m, next)
	s := op.src("", mi)
	old := st.snap()
	r, _, p := op.try(next, st.o, off, m, s)
	sym.Assert(!p, "C04: panic on an in-range read")
	if next {
		old.advance(op, m)
	}
	st.same(old, "C04")
	sym.Assert(r.N == m, "C04: wrong number of bytes")
	i := int64(sym.Len("i"))
	if i < m {
		sym.Assert(r.At(i) == uint64(old.b[off+i]), "C04: wrong byte read")
		sym.Observe("read", r.At(i))
	}
	if !op.One {
		// a live view, both ways
		w := v.op("WriteBytes")
		if i < m {
			r.Poke(i)
			b := v.Bytes(st.o)
			sym.Assert(b[off+i] == old.b[off+i]^1, "C04: change of the returned slice not visible in the buffer")
			d := &Src{n: 1, U8: []byte{sym.Uint8("x")}}
			_, _, p := w.try(false, st.o, off+i, 1, d)
			sym.Assert(!p, "C04: panic on an in-range write")
			sym.Assert(r.At(i) == uint64(d.U8[0]), "C04: write not visible in the slice read before")
			k := int64(sym.Len("k"))
			if k < m && k != i {
				sym.Assert(r.At(k) == uint64(old.b[off+k]), "C04: other byte of the view changed")
			}
		}
	}
	sym.Cover("end")
}

// bytesView: Bytes is the contents themselves.
func bytesView(v *Ver) {
	st := state(v)
	old := st.snap()
	b := v.Bytes(st.o)
	sym.Assert(int64(len(b)) == st.n, "C04: Bytes has the wrong length")
	st.same(old, "C04")
	i := int64(sym.Len("i"))
	if i < st.n {
		sym.Assert(b[i] == st.raw[i], "C04: Bytes differs from the contents")
		b[i] ^= 1
		s := &Src{n: 1, gbytes: garbageBytes}
		r, _, p := v.op("ReadBytes").try(false, st.o, i, 1, s)
		sym.Assert(!p, "C04: panic on an in-range read")
		sym.Assert(r.At(0) == uint64(old.b[i]^1), "C04: change of Bytes not visible in a read")
		d := &Src{n: 1, U8: []byte{sym.Uint8("x")}}
		_, _, p = v.op("WriteBytes").try(false, st.o, i, 1, d)
		sym.Assert(!p, "C04: panic on an in-range write")
		sym.Assert(b[i] == d.U8[0], "C04: write not visible in the slice Bytes returned")
		sym.Observe("x", uint64(b[i]))
	}
	sym.Cover("end")
}
