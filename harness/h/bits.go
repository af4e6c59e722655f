package h

import "verif/harness/sym"

func init() {
	for _, v := range vers {
		v := v
		for _, op := range v.Ops {
			op := op
			switch op.Kind {
			case KBit:
				add("C05/"+v.Name+"/"+op.Name, func() { bitSpec(v, op) })
			case KField:
				for k := 0; k < 4; k++ {
					k := k
					nm := "C06/" + v.Name + "/" + op.Name + "/" + fieldParts[k]
					if op.Write {
						add(nm, func() { fieldWrite(v, op, k) })
					} else {
						add(nm, func() { fieldRead(v, op, k) })
					}
				}
			}
		}
		for k, n := range []string{"ClearAllBits", "SetAllBits", "FlipAllBits"} {
			k := k
			add("C07/"+v.Name+"/"+n, func() { allBits(v, k) })
		}
	}
}

var fieldParts = []string{"0-16", "17-33", "34-50", "51-64"}

func bitSpec(v *Ver, op *Op) {
	next := sym.Choose("next", 2) == 1
	st := state(v)
	off := st.place(op, 1, next)
	s := op.src("", 1)
	old := st.snap()
	r, _, p := op.try(next, st.o, off, 1, s)
	sym.Assert(!p, "C05: panic on an in-range bit")
	if next {
		old.advance(op, 1)
	}
	st.shape(old, "C05")
	q := off / 8
	mask := byte(0x80) >> uint(off%8)
	o := old.b[q]
	b := v.Bytes(st.o)
	if !op.Write {
		sym.Assert((r.At(0) == 1) == (o&mask != 0), "C05: wrong bit read")
		sym.Assert(r.At(0) <= 1, "C05: bit value out of range")
		sym.Observe("bit", r.At(0))
	}
	switch op.Eff {
	case BitSet:
		o |= mask
	case BitClear:
		o &^= mask
	case BitFlip:
		o ^= mask
	}
	sym.Assert(b[q] == o, "C05: wrong bit in the addressed byte")
	j := int64(sym.Len("j"))
	if j < st.n {
		sym.Observe("byte", uint64(b[j]))
		if j != q {
			sym.Assert(b[j] == old.b[j], "C05: another byte changed")
		}
	}
	sym.Cover("end")
}

// field position: bit sub of byte q, m bits.
func (st *State) field(op *Op, next bool, part int) (q, sub, m, off int64) {
	m = width(part)
	sub = int64(sym.Choose("sub", 8))
	q = int64(sym.Len("q"))
	sym.Assume(q <= st.n)
	off = 8*q + sub
	sym.Assume(off+m <= 8*st.n)
	if next {
		st.setCur(op, off)
	}
	return
}

func fieldWrite(v *Ver, op *Op, part int) {
	next := false
	if sym.Tier() == 1 {
		next = sym.Choose("next", 2) == 1
	}
	st := state(v)
	q, sub, m, off := st.field(op, next, part)
	s := op.src("", 1)
	old := st.snap()
	_, _, p := op.try(next, st.o, off, m, s)
	sym.Assert(!p, "C06: panic on an in-range field")
	if next {
		old.advance(op, m)
	}
	st.shape(old, "C06")
	b := v.Bytes(st.o)
	nb := (sub + m + 7) / 8
	if m == 0 {
		nb = 0
	}
	for t := int64(0); t < nb; t++ {
		e := old.b[q+t]
		for bit := int64(0); bit < 8; bit++ {
			g := 8*t + bit - sub
			if g < 0 || g >= m {
				continue
			}
			pos := uint(7 - bit)
			e = e&^(1<<pos) | byte(s.D>>uint(m-1-g)&1)<<pos
		}
		sym.Assert(b[q+t] == e, "C06: wrong bits stored")
	}
	j := int64(sym.Len("j"))
	if j < st.n {
		sym.Observe("byte", uint64(b[j]))
		if j < q || j >= q+nb {
			sym.Assert(b[j] == old.b[j], "C06: byte outside the field changed")
		}
	}
	// read back
	mid := st.snap()
	r, _, p := v.op("ReadBits").try(false, st.o, off, m, &Src{n: 1})
	sym.Assert(!p, "C06: panic on an in-range field")
	x := s.D
	if m < 64 {
		x &= 1<<uint(m) - 1
	}
	sym.Assert(r.At(0) == x, "C06: field not read back")
	sym.Observe("back", r.At(0))
	st.shape(mid, "C06")
	sym.Cover("end")
}

func fieldRead(v *Ver, op *Op, part int) {
	next := false
	if sym.Tier() == 1 {
		next = sym.Choose("next", 2) == 1
	}
	st := state(v)
	q, sub, m, off := st.field(op, next, part)
	s := op.src("", 1)
	old := st.snap()
	r, _, p := op.try(next, st.o, off, m, s)
	sym.Assert(!p, "C06: panic on an in-range field")
	if next {
		old.advance(op, m)
	}
	var x uint64
	for g := sub; g < sub+m; g++ {
		x = x<<1 | uint64(old.b[q+g/8]>>uint(7-g%8)&1)
	}
	sym.Assert(r.At(0) == x, "C06: wrong field read")
	sym.Observe("x", r.At(0))
	st.same(old, "C06")
	sym.Cover("end")
}

func allBits(v *Ver, what int) {
	n := count(16, 40, 31, 61, 65, 92, 130)
	st := stateN(v, n)
	c := cap(st.raw)
	full := sym.Snapshot(st.raw)[:c]
	old := st.snap()
	_, p := sym.Try(func() {
		switch what {
		case 0:
			v.ClearAll(st.o)
		case 1:
			v.SetAll(st.o)
		default:
			v.FlipAll(st.o)
		}
	})
	sym.Assert(!p, "C07: panic")
	st.shape(old, "C07")
	b := v.Bytes(st.o)
	for i := 0; i < n; i++ {
		switch what {
		case 0:
			sym.Assert(b[i] == 0, "C07: byte not cleared")
		case 1:
			sym.Assert(b[i] == 0xFF, "C07: byte not set")
		default:
			sym.Assert(b[i] == ^old.b[i], "C07: byte not complemented")
		}
	}
	if n > 0 {
		sym.Observe("last", uint64(b[n-1]))
	}
	j := sym.Len("j")
	if j >= n && j < c {
		sym.Assert(st.raw[:c][j] == full[j], "C07: memory beyond the contents changed")
	}
	sym.Cover("end")
}
