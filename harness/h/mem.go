package h

import "verif/harness/sym"

func init() {
	for _, v := range vers {
		v := v
		for _, op := range v.Ops {
			op := op
			add("C20/"+v.Name+"/"+op.Name, func() { slackOp(v, op) })
		}
		for k, n := range []string{"Seek", "Align", "After", "Getters", "Refresh", "AllBits"} {
			k := k
			add("C20/"+v.Name+"/"+n, func() { slackMisc(v, k) })
		}
	}
}

// beside is a second buffer with the same contents and cursors but other
// bytes behind them.
func (st *State) beside(v *Ver) *State {
	c := sym.Len("cap2")
	sym.Assume(int64(c) >= st.n)
	b := sym.Bytes("buf2", int(st.n), c)
	copy(b, st.v.Bytes(st.o))
	t := &State{v: v, o: v.New(b), n: st.n, raw: b}
	v.Seek(t.o, st.v.Off(st.o), false)
	v.SeekBit(t.o, st.v.BitOff(st.o), false)
	return t
}

// slackSame: memory behind the contents is as it was.
func (st *State) slackSame(full []byte, tag string) {
	c := cap(st.raw)
	j := sym.Len("js")
	if int64(j) >= st.n && j < c {
		sym.Assert(st.raw[:c][j] == full[:c][j], tag+": memory beyond the contents changed")
		sym.Observe("slack", uint64(st.raw[:c][j]))
	}
}

func slackOp(v *Ver, op *Op) {
	next := sym.Choose("next", 2) == 1
	st := state(v)
	off := sym.Int64("off")
	var n int64
	var s *Src
	refused := !v.Mini && sym.Choose("refused", 2) == 1
	if op.Kind == KField {
		w := []int64{0, 1, 3, 9, 17, 32, 57, 64}
		n = w[sym.Choose("n", len(w))]
	} else if op.Kind == KInt || op.Kind == KFloat {
		n = int64(count(3, 8))
	} else {
		n, _ = op.loose()
	}
	s = op.src("", smallN(op, n))
	if refused {
		under, over := outside(off, n, op.W, st.units(op))
		sym.Assume(n < 0 || under || over)
	} else {
		// (nothing is promised of a MiniBuffer outside its contents)
		sym.Assume(n >= 0 && off >= 0 && n*op.W <= st.units(op) && off <= st.units(op)-n*op.W)
		if op.Kind == KField {
			q, sub := int64(sym.Len("q")), int64(sym.Choose("sub", 8))
			sym.Assume(off == 8*q+sub)
			off = 8*q + sub
		}
	}
	if next {
		st.setCur(op, off)
	}
	s1, s2 := op.clone(s), op.clone(s)
	s2.tag = "2"
	tw := st.beside(v)
	full := sym.Snapshot(st.raw)
	r1, pv1, p1 := op.try(next, st.o, off, n, s1)
	r2, pv2, p2 := op.try(next, tw.o, off, n, s2)
	st.slackSame(full, "C20")
	sym.Assert(p1 == p2, "C20: outcome depends on memory beyond the contents")
	if p1 {
		if !v.Mini && n >= 0 {
			sym.Assert(pv1 == pv2, "C20: error depends on memory beyond the contents")
		}
		sym.Cover("refused")
	} else {
		if !v.Mini && n >= 0 {
			under, over := outside(off, n, op.W, st.units(op))
			sym.Assert(!under && !over, "C20: access beyond the contents accepted")
		}
		if r1.N <= 64 || r1.Raw != nil {
			sameRes(r1, r2, "C20")
		}
	}
	a, b := v.Bytes(st.o), v.Bytes(tw.o)
	sym.Assert(len(a) == len(b), "C20: length depends on memory beyond the contents")
	sym.Assert(v.Off(st.o) == v.Off(tw.o) && v.BitOff(st.o) == v.BitOff(tw.o), "C20: cursor depends on memory beyond the contents")
	j := sym.Len("j")
	if j < len(a) && j < len(b) {
		sym.Assert(a[j] == b[j], "C20: contents depend on memory beyond them")
	}
	if op.Write && !op.bits() && n > 0 {
		k := int64(sym.Len("k"))
		if k < n {
			sym.Assert(op.elem(s1, k) == op.elem(s, k), "C20: source slice changed")
		}
	}
	sym.Cover("end")
}

func smallN(op *Op, n int64) int {
	if op.Write && !op.bits() || n >= 0 && n < 100 {
		return int(n)
	}
	return 0
}

func slackMisc(v *Ver, what int) {
	n := 0
	if what == 5 {
		n = count(6, 16, 31, 40)
	} else {
		n = sym.Len("len")
	}
	st := stateN(v, n)
	tw := st.beside(v)
	full := sym.Snapshot(st.raw)
	x := sym.Int64("x")
	rel := sym.Bool("rel")
	do := func(o any) (y int64) {
		switch what {
		case 0:
			v.Seek(o, x, rel)
			v.SeekBit(o, x, rel)
		case 1:
			v.AlignBit(o)
			v.AlignByte(o)
		case 2:
			return v.After0(o) + 3*v.After1(o, x) + 5*v.AfterBit0(o) + 7*v.AfterBit1(o, x)
		case 3:
			return v.Cap(o) + 3*v.BitCap(o) + 5*v.Off(o) + 7*v.BitOff(o) + 11*int64(len(v.Bytes(o)))
		case 4:
			v.Refresh(o)
		default:
			v.FlipAll(o)
			v.SetAll(o)
			v.FlipAll(o)
			v.ClearAll(o)
			v.FlipAll(o)
		}
		return
	}
	y1, y2 := do(st.o), do(tw.o)
	sym.Assert(y1 == y2, "C20: result depends on memory beyond the contents")
	st.slackSame(full, "C20")
	a, b := v.Bytes(st.o), v.Bytes(tw.o)
	sym.Assert(len(a) == len(b) && v.Cap(st.o) == v.Cap(tw.o) && v.BitCap(st.o) == v.BitCap(tw.o), "C20: size depends on memory beyond the contents")
	sym.Assert(v.Off(st.o) == v.Off(tw.o) && v.BitOff(st.o) == v.BitOff(tw.o), "C20: cursor depends on memory beyond the contents")
	j := sym.Len("j")
	if j < len(a) {
		sym.Assert(a[j] == b[j], "C20: contents depend on memory beyond them")
		sym.Observe("byte", uint64(a[j]))
	}
	sym.Cover("end")
}
