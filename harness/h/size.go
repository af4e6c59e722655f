package h

import "verif/harness/sym"

func init() {
	for _, v := range vers {
		v := v
		for _, op := range v.Ops {
			op := op
			add("C12/"+v.Name+"/"+op.Name, func() { capAfterOp(v, op) })
		}
		for k, n := range []string{"Seek", "SeekBit", "AlignBit", "AlignByte", "Refresh", "ClearAllBits", "SetAllBits", "FlipAllBits", "After"} {
			k := k
			add("C12/"+v.Name+"/"+n, func() { capAfterMisc(v, k) })
		}
		add("C12/"+v.Name+"/Grow", func() { capAfterGrow(v) })
		add("C13/"+v.Name+"/Grow", func() { growSpec(v) })
		add("C13/"+v.Name+"/GrowNegative", func() { growNegative(v) })
		add("C13/"+v.Name+"/GrowTwice", func() { growTwice(v) })
		if v.V == 3 {
			for k, n := range []string{"TruncateLeft", "TruncateRight"} {
				k := k
				add("C12/"+v.Name+"/"+n, func() { capAfterTrunc(v, k) })
				add("C14/"+v.Name+"/"+n, func() { truncSpec(v, k) })
				if !v.Mini {
					add("C14/"+v.Name+"/"+n+"Refused", func() { truncRefused(v, k) })
				}
				add("C13/"+v.Name+"/GrowAfter"+n, func() { growAfterTrunc(v, k) })
			}
		}
		add("C15/"+v.Name+"/New", func() { newSpec(v) })
		add("C15/"+v.Name+"/NewAliases", func() { newAliases(v) })
		if v.Reset != nil {
			add("C12/"+v.Name+"/Reset", func() { capAfterReset(v) })
			add("C13/"+v.Name+"/GrowAfterReset", func() { growAfterReset(v) })
			add("C15/"+v.Name+"/Reset", func() { resetSpec(v) })
			add("C15/"+v.Name+"/ResetThenUse", func() { resetUse(v) })
		}
	}
}

// consistent: the reported capacities match the contents.
func (st *State) consistent(tag string) {
	v, o := st.v, st.o
	n := int64(len(v.Bytes(o)))
	sym.Assert(v.Cap(o) == n, tag+": capacity differs from the contents")
	sym.Assert(v.BitCap(o) == 8*n, tag+": bit capacity differs from the contents")
	sym.Observe("len", uint64(n))
}

// loose: any arguments an operation may be given, valid or not.
func (op *Op) loose() (n int64, s *Src) {
	switch {
	case op.One:
		n = 1
	case op.Kind == KField:
		w := []int64{-1, 0, 1, 9, 64, 65}
		n = w[sym.Choose("n", len(w))]
	case op.Kind == KByte:
		if op.Write {
			n = int64(byteCount(op))
		} else if sym.Choose("any", 2) == 1 {
			n = sym.Int64("n")
		} else {
			n = int64(byteCount(op))
		}
	default:
		n = int64(count(3, 8, 20))
	}
	m := 0
	if op.Write && op.Kind != KField && op.Kind != KBit {
		m = int(n)
	} else if n > 0 && n < 100 {
		m = int(n)
	}
	return n, op.src("", m)
}

func capAfterOp(v *Ver, op *Op) {
	next := sym.Choose("next", 2) == 1
	st := state(v)
	off := sym.Int64("off")
	if next {
		st.setCur(op, off)
	}
	n, s := op.loose()
	st.consistent("C12: before")
	_, _, p := op.try(next, st.o, off, n, s)
	st.consistent("C12")
	sym.Assert(int64(len(v.Bytes(st.o))) == st.n, "C12: length changed")
	if p {
		sym.Cover("refused")
	}
	sym.Cover("end")
}

func capAfterMisc(v *Ver, what int) {
	n := 0
	if what >= 5 && what <= 7 {
		n = count(5, 12, 33)
	} else {
		n = sym.Len("len")
	}
	st := stateN(v, n)
	x := sym.Int64("x")
	rel := sym.Bool("rel")
	o := st.o
	sym.Try(func() {
		switch what {
		case 0:
			v.Seek(o, x, rel)
		case 1:
			v.SeekBit(o, x, rel)
		case 2:
			v.AlignBit(o)
		case 3:
			v.AlignByte(o)
		case 4:
			v.Refresh(o)
		case 5:
			v.ClearAll(o)
		case 6:
			v.SetAll(o)
		case 7:
			v.FlipAll(o)
		default:
			v.After0(o)
			v.After1(o, x)
			v.AfterBit0(o)
			v.AfterBit1(o, x)
		}
	})
	st.consistent("C12")
	sym.Assert(int64(len(v.Bytes(o))) == st.n, "C12: length changed")
	sym.Cover("end")
}

// growCount is any sensible number of bytes, or any negative one.
func growCount() int64 {
	if sym.Choose("negative", 2) == 1 {
		n := sym.Int64("n")
		sym.Assume(n < 0)
		return n
	}
	return int64(sym.Len("n"))
}

func capAfterGrow(v *Ver) {
	st := state(v)
	n := growCount()
	_, p := sym.Try(func() { v.Grow(st.o, n) })
	st.consistent("C12")
	if !p && n >= 0 {
		sym.Assert(v.Cap(st.o) == st.n+n, "C12: wrong capacity after Grow")
	}
	// and the buffer goes on working that way
	_, p = sym.Try(func() { v.Grow(st.o, 3) })
	st.consistent("C12: growing again")
	sym.Cover("end")
}

func capAfterTrunc(v *Ver, side int) {
	st := state(v)
	n := sym.Int64("n")
	_, p := sym.Try(func() { v.trunc(st.o, n, side) })
	st.consistent("C12")
	sym.Assert(p || int64(len(v.Bytes(st.o))) == st.n-n, "C12: wrong length after truncation")
	sym.Cover("end")
}

func capAfterReset(v *Ver) {
	st := state(v)
	v.Reset(st.o)
	st.consistent("C12")
	sym.Try(func() { v.Grow(st.o, int64(sym.Len("n"))) })
	st.consistent("C12: Grow after Reset")
	sym.Cover("end")
}

func (v *Ver) trunc(o any, n int64, side int) {
	if side == 0 {
		v.TruncL(o, n)
	} else {
		v.TruncR(o, n)
	}
}

// grown: the buffer is old with n zero bytes behind it.
func (st *State) grown(old Snap, n int64, tag string) {
	v := st.v
	b := v.Bytes(st.o)
	k := int64(len(old.b))
	sym.Assert(int64(len(b)) == k+n, tag+": wrong length")
	sym.Assert(v.Cap(st.o) == k+n, tag+": wrong capacity")
	sym.Assert(v.BitCap(st.o) == 8*(k+n), tag+": wrong bit capacity")
	sym.Assert(v.Off(st.o) == old.off, tag+": byte cursor moved")
	sym.Assert(v.BitOff(st.o) == old.boff, tag+": bit cursor moved")
	j := int64(sym.UintN("j", 23))
	if j < int64(len(b)) && j < k+n {
		sym.Observe("byte", uint64(b[j]))
		if j < k {
			sym.Assert(b[j] == old.b[j], tag+": contents changed")
		} else {
			sym.Assert(b[j] == 0, tag+": added byte not zero")
		}
	}
}

func growSpec(v *Ver) {
	st := state(v)
	n := int64(sym.Len("n"))
	old := st.snap()
	_, p := sym.Try(func() { v.Grow(st.o, n) })
	sym.Assert(!p, "C13: Grow panics")
	st.grown(old, n, "C13")
	// the added part is usable
	if n > 0 {
		x := sym.Uint8("x")
		w := v.op("WriteBytes")
		_, _, p := w.try(false, st.o, st.n+n-1, 1, &Src{n: 1, U8: []byte{x}})
		sym.Assert(!p, "C13: added byte not writable")
		sym.Assert(v.Bytes(st.o)[st.n+n-1] == x, "C13: added byte not written")
	}
	sym.Cover("end")
}

func growNegative(v *Ver) {
	st := state(v)
	n := sym.Int64("n")
	sym.Assume(n < 0)
	old := st.snap()
	pv, p := sym.Try(func() { v.Grow(st.o, n) })
	if v.V == 3 && !v.Mini {
		sym.Assert(p, "C13: negative count accepted")
		sym.Assert(pv == v.ErrCount(), "C13: wrong panic value")
	}
	if !v.Mini {
		st.same(old, "C13: negative count")
		// and still usable
		_, p = sym.Try(func() { v.Grow(st.o, 2) })
		sym.Assert(!p, "C13: unusable after a refused count")
		st.grown(old, 2, "C13")
	}
	sym.Cover("end")
}

func growTwice(v *Ver) {
	st := state(v)
	n := int64(sym.Len("n"))
	m := int64(sym.Len("m"))
	old := st.snap()
	_, p := sym.Try(func() {
		v.Grow(st.o, n)
		v.Grow(st.o, m)
	})
	sym.Assert(!p, "C13: Grow panics")
	st.grown(old, n+m, "C13: twice")
	sym.Cover("end")
}

func growAfterTrunc(v *Ver, side int) {
	st := state(v)
	k := int64(sym.Len("k"))
	sym.Assume(k <= st.n)
	v.trunc(st.o, k, side)
	n := int64(sym.Len("n"))
	old := st.snap()
	_, p := sym.Try(func() { v.Grow(st.o, n) })
	sym.Assert(!p, "C13: Grow panics")
	st.grown(old, n, "C13: after truncation")
	sym.Cover("end")
}

func growAfterReset(v *Ver) {
	st := state(v)
	v.Reset(st.o)
	n := int64(sym.Len("n"))
	old := st.snap()
	_, p := sym.Try(func() { v.Grow(st.o, n) })
	sym.Assert(!p, "C13: Grow panics")
	st.grown(old, n, "C13: after Reset")
	sym.Cover("end")
}

func truncSpec(v *Ver, side int) {
	st := state(v)
	n := int64(sym.Len("n"))
	sym.Assume(n <= st.n)
	old := st.snap()
	_, p := sym.Try(func() { v.trunc(st.o, n, side) })
	sym.Assert(!p, "C14: valid count refused")
	b := v.Bytes(st.o)
	sym.Assert(int64(len(b)) == st.n-n, "C14: wrong length")
	st.consistent("C14")
	sym.Assert(v.Off(st.o) == old.off, "C14: byte cursor moved")
	sym.Assert(v.BitOff(st.o) == old.boff, "C14: bit cursor moved")
	j := int64(sym.Len("j"))
	if j < int64(len(b)) {
		from := j
		if side == 0 {
			from += n
		}
		sym.Assert(b[j] == old.b[from], "C14: wrong bytes kept")
		sym.Observe("byte", uint64(b[j]))
		// reads see the same
		r, _, p := v.op("ReadBytes").try(false, st.o, j, 1, &Src{n: 1})
		sym.Assert(!p, "C14: kept byte not readable")
		sym.Assert(r.At(0) == uint64(old.b[from]), "C14: read differs from the kept bytes")
	}
	sym.Cover("end")
}

func truncRefused(v *Ver, side int) {
	st := state(v)
	n := sym.Int64("n")
	sym.Assume(n < 0 || n > st.n)
	old := st.snap()
	pv, p := sym.Try(func() { v.trunc(st.o, n, side) })
	sym.Assert(p, "C14: invalid count accepted")
	if n < 0 {
		sym.Assert(pv == v.ErrCount(), "C14: wrong panic value")
	}
	st.same(old, "C14: refused count")
	sym.Cover("end")
}

// given makes k slices of arbitrary length with arbitrary spare capacity;
// of the larger numbers of slices all but one have concrete lengths;
// codes above 6 have a nil slice among them.
func given(k int) [][]byte {
	none := -1 // a nil slice among them
	switch {
	case k == 7:
		k, none = 3, 1
	case k == 8:
		k, none = 2, 0
	case k == 9:
		k, none = 2, 1
	case k == 10:
		k, none = 1, 0
	case k > 4:
		k = []int{5, 9}[k-5]
	}
	ss := make([][]byte, k)
	for i := range ss {
		if i == none {
			continue
		}
		name := "s" + string([]byte{byte('0' + i/10), byte('0' + i%10)})
		if k > 4 && i != k/2 {
			ss[i] = sym.Bytes(name, i%3, i%3+i%2)
			continue
		}
		n := sym.Len(name + "n")
		c := sym.Len(name + "c")
		sym.Assume(c >= n)
		ss[i] = sym.Bytes(name, n, c)
	}
	return ss
}

func newSpec(v *Ver) {
	ss := given(sym.Choose("slices", 11))
	k := len(ss)
	var olds [][]byte
	total := int64(0)
	for _, s := range ss {
		olds = append(olds, sym.Snapshot(s))
		total += int64(len(s))
	}
	var o any
	_, p := sym.Try(func() { o = v.New(ss...) })
	sym.Assert(!p, "C15: construction panics")
	st := &State{v: v, o: o, n: total}
	b := v.Bytes(o)
	sym.Assert(int64(len(b)) == total, "C15: wrong length")
	st.consistent("C15")
	sym.Assert(v.Off(o) == 0 && v.BitOff(o) == 0, "C15: cursor not zero")
	if k == 1 {
		sym.Assert(len(ss[0]) == 0 || sym.SameBacking(b, ss[0]), "C15: single slice not wrapped")
	}
	pos := int64(0)
	i := int64(sym.Len("i"))
	for q, s := range olds {
		n := int64(len(s))
		if k > 4 && q != k/2 {
			for j := range s {
				sym.Assert(b[pos+int64(j)] == s[j], "C15: wrong contents")
			}
			pos += n
			continue
		}
		if i < n {
			sym.Assert(b[pos+i] == s[i], "C15: wrong contents")
			sym.Assert(ss[q][i] == s[i], "C15: given slice changed")
			sym.Observe("byte", uint64(b[pos+i]))
		}
		if i >= n && i < int64(cap(s)) {
			sym.Assert(ss[q][:cap(s)][i] == s[:cap(s)][i], "C15: memory behind a given slice changed")
		}
		pos += n
	}
	sym.Cover("end")
}

// newAliases: who shares memory with whom after construction.
func newAliases(v *Ver) {
	ss := given(sym.Choose("slices", 5+sym.Tier()) + 1)
	k := len(ss)
	var olds [][]byte
	for _, s := range ss {
		olds = append(olds, sym.Snapshot(s))
	}
	o := v.New(ss...)
	b := v.Bytes(o)
	j := sym.Len("j")
	sym.Assume(j < len(b))
	x := sym.Uint8("x")
	_, _, p := v.op("WriteBytes").try(false, o, int64(j), 1, &Src{n: 1, U8: []byte{x}})
	sym.Assert(!p, "C15: fresh buffer not writable")
	if k == 1 {
		sym.Assert(ss[0][j] == x, "C15: single slice not wrapped")
		i := sym.Len("i")
		if i < len(b) {
			ss[0][i] ^= 5
			sym.Assert(v.Bytes(o)[i] == ss[0][i], "C15: single slice not wrapped")
		}
	} else {
		i := sym.Len("i")
		for q, s := range olds {
			if i < cap(s) {
				sym.Assert(ss[q][:cap(s)][i] == s[:cap(s)][i], "C15: writing the buffer changes a given slice")
			}
		}
		// nor through growth
		old := (&State{v: v, o: o}).snap()
		v.Grow(o, int64(sym.Len("n")))
		for q, s := range olds {
			if i < cap(s) {
				sym.Assert(ss[q][:cap(s)][i] == s[:cap(s)][i], "C15: growing the buffer changes a given slice")
			}
			// and the other way round
			if i < len(s) {
				ss[q][i] ^= 3
			}
		}
		sym.Assert(v.Bytes(o)[j] == old.b[j], "C15: buffer follows a given slice")
	}
	sym.Cover("end")
}

func resetSpec(v *Ver) {
	st := state(v)
	_, p := sym.Try(func() { v.Reset(st.o) })
	sym.Assert(!p, "C15: Reset panics")
	o := st.o
	sym.Assert(len(v.Bytes(o)) == 0, "C15: contents left after Reset")
	sym.Assert(v.Cap(o) == 0 && v.BitCap(o) == 0, "C15: capacity not zero after Reset")
	sym.Assert(v.Off(o) == 0 && v.BitOff(o) == 0, "C15: cursor not zero after Reset")
	// again
	v.Reset(o)
	sym.Assert(len(v.Bytes(o)) == 0 && v.Cap(o) == 0, "C15: second Reset")
	sym.Observe("cap", uint64(v.Cap(o)))
	sym.Cover("end")
}

func resetUse(v *Ver) {
	st := state(v)
	o := st.o
	v.Reset(o)
	if !v.Mini {
		// empty: everything is refused
		_, pv, p := v.op("ReadBytes").try(false, o, 0, 1, &Src{n: 1})
		sym.Assert(p && pv == v.ErrOR(), "C15: read from a reset buffer not refused")
	}
	n := int64(sym.Len("n"))
	sym.Assume(n > 0)
	_, p := sym.Try(func() { v.Grow(o, n) })
	sym.Assert(!p, "C15: Grow after Reset panics")
	s := &Src{n: 2, U8: []byte{sym.Uint8("x"), sym.Uint8("y")}}
	j := int64(sym.Len("j"))
	sym.Assume(j <= n-2)
	v.Seek(o, j, false)
	_, _, p = v.op("WriteBytes").try(true, o, 0, 2, s)
	sym.Assert(!p, "C15: write after Reset refused")
	sym.Assert(v.Off(o) == j+2, "C15: cursor wrong after Reset")
	r, _, p := v.op("ReadBytes").try(false, o, j, 2, &Src{n: 2})
	sym.Assert(!p, "C15: read after Reset refused")
	sym.Assert(r.N == 2 && r.At(0) == uint64(s.U8[0]) && r.At(1) == uint64(s.U8[1]), "C15: bytes written after Reset not read back")
	i := int64(sym.Len("i"))
	if i < n && i != j && i != j+1 {
		sym.Assert(v.Bytes(o)[i] == 0, "C15: byte not zero after Reset and Grow")
	}
	sym.Cover("end")
}
