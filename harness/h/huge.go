package h

import "verif/harness/sym"

func init() {
	for k, v := range vers {
		k, v := k, v
		for _, op := range v.Ops {
			op := op
			c := "C04"
			switch {
			case op.Kind == KInt && op.Write:
				c = "C01"
			case op.Kind == KInt:
				c = "C02"
			case op.Kind == KFloat:
				c = "C03"
			case op.Kind == KBit:
				c = "C05"
			case op.Kind == KField:
				c = "C06"
			}
			add(c+"/"+v.Name+"/huge/"+op.Name, func() { huge(v, op, c, false) })
			add("C10/"+v.Name+"/huge/"+op.Name, func() { huge(v, op, "C10", true) })
			if !op.bits() && !op.One {
				add(c+"/"+v.Name+"/long/"+op.Name, func() { long(v, op, c) })
				add("C10/"+v.Name+"/long/"+op.Name, func() { long(v, op, "C10") })
				if !v.Mini {
					add("C09/"+v.Name+"/long/"+op.Name, func() { long(v, op, "C09") })
				} else {
					b := vers[k-1]
					add("C16/"+v.Name[:2]+"/long/"+op.Name, func() { longPair(b, v, b.op(op.Name), op) })
				}
				if op.Kind == KByte && !op.Write {
					add("C04/"+v.Name+"/vast/"+op.Name, func() { vast(v, op, "C04") })
					add("C10/"+v.Name+"/vast/"+op.Name, func() { vast(v, op, "C10") })
				}
			}
			if !v.Mini {
				add("C08/"+v.Name+"/huge/"+op.Name, func() { hugeRefuse(v, op) })
			}
		}
		add("C11/"+v.Name+"/huge", func() { hugeCursor(v) })
		for what, n := range []string{"ClearAllBits", "SetAllBits", "FlipAllBits"} {
			what := what
			add("C07/"+v.Name+"/long/"+n, func() { longBits(v, what) })
		}
		add("C12/"+v.Name+"/huge", func() { hugeSize(v) })
	}
}

// giant is a buffer of more than four gigabytes.
func giant(v *Ver) *State {
	n := 1<<32 + int(sym.UintN("len", 7))
	b := sym.Huge("buf", n)
	st := &State{v: v, o: v.New(b), n: int64(n), raw: b}
	return st
}

// far is a position beyond the reach of 31, 32 bits.
func (st *State) far(op *Op, n int64) int64 {
	if op.bits() {
		base := []int64{1<<31 - 40, 1<<32 - 40, 1<<34 - 40, 1<<35 - 80}[sym.Choose("base", 4)]
		return base + int64(sym.UintN("rel", 3))*8 + int64(sym.Choose("sub", 2))*5
	}
	return []int64{1<<31 - 40, 1<<32 - 40}[sym.Choose("base", 2)] + int64(sym.UintN("rel", 6))
}

func (op *Op) little() int64 {
	switch {
	case op.One:
		return 1
	case op.Kind == KField:
		return []int64{9, 64}[sym.Choose("n", 2)]
	}
	return 2
}

// bitAt is bit p of b.
func bitAt(b []byte, p int64) uint64 { return uint64(b[p/8]>>uint(7-p%8)) & 1 }

// huge: accesses at positions that do not fit 32 bits.
func huge(v *Ver, op *Op, tag string, next bool) {
	st := giant(v)
	n := op.little()
	off := st.far(op, n)
	sym.Assume(off <= st.units(op)-n*op.W)
	if next {
		st.setCur(op, off)
	}
	s := op.src("", int(n))
	src := op.clone(s)
	b := st.raw
	// what is there now
	was := make([]uint64, n)
	if op.bits() {
		for k := int64(0); k < n; k++ {
			was[k] = bitAt(b, off+k)
		}
	} else {
		for k := int64(0); k < n; k++ {
			was[k] = op.decode(b, off+k*op.W)
		}
	}
	j := int64(sym.UintN("j", 33))
	sym.Assume(j < st.n)
	old := b[j]
	r, _, p := op.try(next, st.o, off, n, s)
	sym.Assert(!p, tag+": panic on an in-range access to a huge buffer")
	mask := byte(0) // bits of byte j that may change
	switch {
	case !op.Write:
	case op.bits():
		for k := int64(0); k < n; k++ {
			if (off+k)/8 == j {
				mask |= 0x80 >> uint((off+k)%8)
			}
		}
	case j >= off && j < off+n*op.W:
		mask = 0xFF
	}
	sym.Assert((b[j]^old)&^mask == 0, tag+": other bytes of a huge buffer changed")
	switch {
	case op.Kind == KBit || op.Kind == KField && op.Write:
		for k := int64(0); k < n; k++ {
			want := was[k]
			switch {
			case op.Kind == KField:
				want = s.D >> uint(n-1-k) & 1
			case !op.Write:
				sym.Assert(r.At(0)&1 == want && r.At(0) <= 1, tag+": wrong bit of a huge buffer read")
			case op.Eff == BitSet:
				want = 1
			case op.Eff == BitClear:
				want = 0
			case op.Eff == BitFlip:
				want ^= 1
			}
			sym.Assert(bitAt(b, off+k) == want, tag+": wrong bit in a huge buffer")
		}
	case op.Kind == KField:
		x := uint64(0)
		for k := range was {
			x = x<<1 | was[k]
		}
		sym.Assert(r.At(0) == x, tag+": wrong bits of a huge buffer read")
	case op.Write:
		for k := int64(0); k < n; k++ {
			sym.Assert(op.decode(b, off+k*op.W) == op.elem(src, k), tag+": wrong bytes stored in a huge buffer")
		}
	default:
		for k := int64(0); k < n; k++ {
			sym.Assert(r.At(k) == was[k], tag+": wrong value read from a huge buffer")
		}
	}
	st.moved(op, next, off, n, tag)
	sym.Observe("byte", uint64(b[j]))
	sym.Cover("end")
}

// moved: the cursors after an access.
func (st *State) moved(op *Op, next bool, off, n int64, tag string) {
	c, bc := int64(0), int64(0)
	if next && op.bits() {
		bc = off + n
	} else if next {
		c = off + n*op.W
	}
	sym.Assert(st.v.Off(st.o) == c, tag+": byte cursor wrong in a huge buffer")
	sym.Assert(st.v.BitOff(st.o) == bc, tag+": bit cursor wrong in a huge buffer")
}

// hugeRefuse: accesses around the end of a huge buffer.
func hugeRefuse(v *Ver, op *Op) {
	st := giant(v)
	n := op.little()
	off := sym.Int64("off")
	sym.Assume(off+n*op.W > st.units(op) && off < 1<<40)
	next := sym.Choose("next", 2) == 1
	if next {
		st.setCur(op, off)
	}
	s := op.src("", int(n))
	j := int64(sym.UintN("j", 33))
	sym.Assume(j < st.n)
	old := st.raw[j]
	_, pv, p := op.try(next, st.o, off, n, s)
	sym.Assert(p, "C08: access beyond the end of a huge buffer accepted")
	if op.Write {
		sym.Assert(pv == v.ErrOW(), "C08: wrong error")
	} else {
		sym.Assert(pv == v.ErrOR(), "C08: wrong error")
	}
	sym.Assert(st.raw[j] == old, "C08: refused access changed a huge buffer")
	st.moved(op, next, off, 0, "C08")
	sym.Cover("end")
}

func hugeCursor(v *Ver) {
	st := giant(v)
	o := st.o
	x, y := sym.Int64("x"), sym.Int64("y")
	v.Seek(o, x, false)
	v.SeekBit(o, y, false)
	switch sym.Choose("what", 3) {
	case 0:
		sym.Assert(v.After0(o) == st.n-x-1, "C11: bytes after the cursor of a huge buffer")
		sym.Assert(v.After1(o, y) == st.n-y-1, "C11: bytes after a position of a huge buffer")
		sym.Assert(v.AfterBit0(o) == 8*st.n-y-1, "C11: bits after the cursor of a huge buffer")
		sym.Assert(v.AfterBit1(o, x) == 8*st.n-x-1, "C11: bits after a position of a huge buffer")
	case 1:
		sym.Assume(x >= 0 && x < 1<<40)
		v.AlignBit(o)
		sym.Assert(v.BitOff(o) == 8*x && v.Off(o) == x, "C11: aligning the bit cursor of a huge buffer")
	default:
		sym.Assume(y >= 0)
		v.AlignByte(o)
		sym.Assert(v.Off(o) == y/8 && v.BitOff(o) == y, "C11: aligning the byte cursor of a huge buffer")
	}
	sym.Observe("off", uint64(v.Off(o)))
	sym.Cover("end")
}

func hugeSize(v *Ver) {
	st := giant(v)
	o, n := st.o, st.n
	ok := func() {
		b := v.Bytes(o)
		sym.Assert(int64(len(b)) == n, "C12: wrong length of a huge buffer")
		sym.Assert(v.Cap(o) == n && v.BitCap(o) == 8*n, "C12: wrong capacity of a huge buffer")
		sym.Observe("cap", uint64(v.BitCap(o)))
	}
	ok()
	v.Refresh(o)
	ok()
	if v.TruncL != nil {
		t := int64(sym.UintN("t", 33))
		sym.Assume(t <= n)
		side := sym.Choose("side", 2)
		j := int64(sym.UintN("j", 33))
		sym.Assume(j < n-t)
		at := j
		if side == 0 {
			at += t
		}
		want := st.raw[at]
		v.trunc(o, t, side)
		n -= t
		ok()
		sym.Assert(v.Bytes(o)[j] == want, "C12: wrong end of a huge buffer cut off")
	}
	sym.Cover("end")
}

// long: accesses of so many elements that the byte count, or the
// element count, does not fit 16 bits.
func long(v *Ver, op *Op, tag string) {
	sym.Unroll(1 << 20)
	ns := []int64{65536/op.W + 3, 65539, 1<<18 + 3}
	if tag == "C09" || tag == "C10" {
		ns = []int64{ns[0], ns[1]}[:1+sym.Tier()]
	} else {
		ns = ns[:2+sym.Tier()]
	}
	n := ns[sym.Choose("n", len(ns))]
	pre := int64(5)
	size := int(n*op.W + pre + 3)
	b := sym.Bytes("buf", size, size)
	st := &State{v: v, o: v.New(b), n: int64(size), raw: b}
	v.Seek(st.o, pre, false)
	v.SeekBit(st.o, 9, false)
	s := op.src("", int(n))
	src := op.clone(s)
	at := []int64{0, 1, 254, 255, 256, 257, n / 2, n - 256, n - 2, n - 1}
	was := make([]uint64, len(at))
	for k, e := range at {
		was[k] = op.decode(b, pre+e*op.W)
	}
	ends := []int64{0, pre - 1, int64(size) - 3, int64(size) - 1}
	old := make([]byte, len(ends))
	for k, e := range ends {
		old[k] = b[e]
	}
	r, _, p := op.try(true, st.o, 0, n, s)
	sym.Assert(!p, tag+": panic on a long in-range access")
	if !op.Write {
		sym.Assert(r.N == n, tag+": wrong number of elements in a long read")
	}
	for k, e := range at {
		if op.Write {
			sym.Assert(op.decode(b, pre+e*op.W) == op.elem(src, e), tag+": wrong bytes stored by a long write")
			continue
		}
		sym.Assert(r.At(e) == was[k], tag+": wrong value in a long read")
		sym.Assert(op.decode(b, pre+e*op.W) == was[k], tag+": long read changed the buffer")
	}
	for k, e := range ends {
		sym.Assert(b[e] == old[k], tag+": long access changed other bytes")
	}
	sym.Assert(v.Off(st.o) == pre+n*op.W && v.BitOff(st.o) == 9, tag+": cursor wrong after a long access")
	sym.Cover("end")
}

// longBits: whole-buffer operations on a long buffer.
func longBits(v *Ver, what int) {
	sym.Unroll(1 << 20)
	n := []int{300, 65539, 1<<18 + 3}[sym.Choose("n", 2+sym.Tier())]
	b := sym.Bytes("buf", n, n+5)
	o := v.New(b)
	v.Seek(o, 3, false)
	v.SeekBit(o, 9, false)
	at := []int{0, 1, 127, 128, 254, 255, 256, n / 2, n - 256, n - 8, n - 7, n - 2, n - 1}
	was := make([]byte, len(at))
	for k, e := range at {
		was[k] = b[e]
	}
	slack := b[:n+5][n]
	switch what {
	case 0:
		v.ClearAll(o)
	case 1:
		v.SetAll(o)
	default:
		v.FlipAll(o)
	}
	for k, e := range at {
		want := byte(0)
		switch what {
		case 1:
			want = 0xFF
		case 2:
			want = ^was[k]
		}
		sym.Assert(b[e] == want, "C07: wrong byte in a long buffer")
	}
	sym.Assert(b[:n+5][n] == slack, "C07: byte beyond a long buffer changed")
	sym.Assert(v.Off(o) == 3 && v.BitOff(o) == 9 && v.Cap(o) == int64(n), "C07: cursor or size of a long buffer changed")
	sym.Cover("end")
}

// longPair: MiniBuffer and Buffer agree on long accesses.
func longPair(b, m *Ver, bop, mop *Op) {
	sym.Unroll(1 << 20)
	next := sym.Choose("next", 2) == 1
	n := 65536/bop.W + 3
	size := int(n*bop.W + 8)
	sb := &State{v: b, n: int64(size), raw: sym.Bytes("buf", size, size)}
	sb.o = b.New(sb.raw)
	b.Seek(sb.o, 5, false)
	b.SeekBit(sb.o, 9, false)
	sm := sb.asOther(m)
	s := bop.src("", int(n))
	s1, s2 := bop.clone(s), bop.clone(s)
	s2.tag = "m"
	r1, _, p1 := bop.try(next, sb.o, 5, n, s1)
	if p1 {
		return
	}
	r2, _, p2 := mop.try(next, sm.o, 5, n, s2)
	sym.Assert(!p2, "C16: MiniBuffer panics where Buffer does not")
	sym.Assert(r1.N == r2.N, "C16: different number of results")
	sym.Assert(b.Off(sb.o) == m.Off(sm.o) && b.BitOff(sb.o) == m.BitOff(sm.o), "C16: different cursors")
	x, y := b.Bytes(sb.o), m.Bytes(sm.o)
	sym.Assert(len(x) == len(y), "C16: different lengths")
	for _, e := range []int64{0, 1, 255, 256, 257, n / 2, n - 257, n - 256, n - 2, n - 1} {
		if r1.N > e {
			sym.Assert(r1.At(e) == r2.At(e), "C16: different results")
		}
		for r := int64(0); r < bop.W; r++ {
			sym.Assert(x[5+e*bop.W+r] == y[5+e*bop.W+r], "C16: different contents")
		}
	}
	sym.Cover("end")
}

// vast: reading gigabytes at once.
func vast(v *Ver, op *Op, tag string) {
	next := sym.Choose("next", 2) == 1
	st := giant(v)
	off := int64(sym.UintN("off", 5))
	n := []int64{1<<31 - 8, 1<<32 - 64}[sym.Choose("base", 2)] + int64(sym.UintN("n", 5))
	sym.Assume(off+n <= st.n)
	if next {
		st.setCur(op, off)
	}
	j := int64(sym.UintN("j", 33))
	sym.Assume(j < n)
	want := st.raw[off+j]
	r, _, p := op.try(next, st.o, off, n, op.src("", 0))
	sym.Assert(!p, tag+": panic on reading a huge range")
	sym.Assert(r.N == n, tag+": wrong length of a huge range")
	sym.Assert(r.At(j) == uint64(want), tag+": wrong byte in a huge range")
	st.moved(op, next, off, n, tag)
	sym.Cover("end")
}
