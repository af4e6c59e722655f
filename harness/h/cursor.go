package h

import "verif/harness/sym"

func init() {
	for _, v := range vers {
		v := v
		for _, op := range v.Ops {
			op := op
			add("C10/"+v.Name+"/"+op.Name, func() { nextIsDo(v, op, -1) })
			if op.Kind == KField {
				for k, part := range fieldParts {
					k := k
					add("C10/"+v.Name+"/"+op.Name+"/"+part, func() { nextIsDo(v, op, k) })
				}
			}
		}
		for k, n := range []string{"Seek", "SeekBit", "AlignBit", "AlignByte", "After", "AfterBit"} {
			k := k
			add("C11/"+v.Name+"/"+n, func() { seeks(v, k) })
		}
	}
}

// few is a small number of elements for op.
func (op *Op) few() int64 {
	switch {
	case op.One:
		return 1
	case op.Kind == KField:
		w := []int64{0, 1, 3, 8, 13, 32, 64}
		return w[sym.Choose("n", len(w))]
	case op.Kind == KByte:
		return int64(byteCount(op))
	}
	return int64(count(4, 12, bigger()...))
}

// sameRes: both calls delivered the same.
func sameRes(a, b Res, tag string) {
	sym.Assert(a.N == b.N, tag+": different number of results")
	if a.N <= 0 {
		return
	}
	i := int64(sym.Len("i"))
	if a.Raw != nil || a.N > 64 {
		if i < a.N {
			sym.Assert(a.At(i) == b.At(i), tag+": different results")
		}
		return
	}
	for k := int64(0); k < a.N; k++ {
		sym.Assert(a.At(k) == b.At(k), tag+": different results")
	}
}

// width is any field width of a part.
func width(part int) int64 {
	return int64([]int{0, 17, 34, 51}[part] + sym.Choose("m", []int{17, 17, 17, 14}[part]))
}

func nextIsDo(v *Ver, op *Op, part int) {
	st := state(v)
	n := int64(0)
	if part >= 0 {
		n = width(part)
	} else {
		n = op.few()
	}
	c := sym.Int64("off")
	if v.Mini || part >= 0 {
		// nothing is promised outside the buffer
		sym.Assume(c >= 0 && c <= st.units(op)-n*op.W)
	}
	st.setCur(op, c)
	tw := st.twin(v)
	s := op.src("", int(n))
	s1, s2 := op.clone(s), op.clone(s)
	s2.tag = "2"
	// what the out variables held before is not part of the input
	s2.gbyte, s2.gword, s2.gbytes = 0x11, 0x1111, []byte{9}
	old := st.snap()
	told := tw.snap()
	r1, _, p1 := op.try(true, st.o, c, n, s1)
	if p1 {
		sym.Assert(!v.Mini, "C10: panic on an in-range access")
		sym.Cover("refused")
		return
	}
	r2, _, p2 := op.try(false, tw.o, c, n, s2)
	sym.Assert(!p2, "C10: Next form accepts what the offset form refuses")
	sameRes(r1, r2, "C10")
	old.advance(op, n)
	st.shape(old, "C10: Next form")
	tw.shape(told, "C10: offset form")
	a, b := v.Bytes(st.o), v.Bytes(tw.o)
	j := sym.Len("j")
	if j < len(a) && j < len(b) {
		sym.Assert(a[j] == b[j], "C10: different contents")
		sym.Observe("byte", uint64(a[j]))
	}
	sym.Observe("off", uint64(v.Off(st.o)))
	sym.Observe("boff", uint64(v.BitOff(st.o)))
	sym.Cover("end")
}

func seeks(v *Ver, what int) {
	st := state(v)
	old := st.snap()
	o := st.o
	x := sym.Int64("x")
	rel := sym.Bool("rel")
	want := old
	var got, exp int64
	_, p := sym.Try(func() {
		switch what {
		case 0:
			v.Seek(o, x, rel)
			want.off = x
			if rel {
				want.off = old.off + x
			}
		case 1:
			v.SeekBit(o, x, rel)
			want.boff = x
			if rel {
				want.boff = old.boff + x
			}
		case 2:
			v.AlignBit(o)
			want.boff = old.off * 8
		case 3:
			v.AlignByte(o)
			want.off = old.boff / 8
		case 4:
			if rel {
				got, exp = v.After0(o), st.n-old.off-1
			} else {
				got, exp = v.After1(o, x), st.n-x-1
			}
		default:
			if rel {
				got, exp = v.AfterBit0(o), 8*st.n-old.boff-1
			} else {
				got, exp = v.AfterBit1(o, x), 8*st.n-x-1
			}
		}
	})
	sym.Assert(!p, "C11: panic")
	sym.Assert(got == exp, "C11: wrong remaining length")
	sym.Observe("got", uint64(got))
	st.same(want, "C11")
	sym.Cover("end")
}

func bigger() []int {
	if sym.Tier() == 1 {
		return []int{23, 33, 44, 130, 257}
	}
	return []int{23, 33}
}
