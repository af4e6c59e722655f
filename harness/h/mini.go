package h

import "verif/harness/sym"

func init() {
	for k := 0; k < len(vers); k += 2 {
		b, m := vers[k], vers[k+1]
		for _, op := range b.Ops {
			bop, mop := op, m.op(op.Name)
			if mop != nil {
				nm := "C16/" + b.Name[:2] + "/" + op.Name
				if op.Kind == KField {
					for part := 0; part < 4; part++ {
						part := part
						add(nm+"/"+fieldParts[part], func() { miniField(b, m, bop, mop, part) })
						add(nm+"/next/"+fieldParts[part], func() { miniOp(b, m, bop, mop, part) })
					}
				}
				add(nm, func() { miniOp(b, m, bop, mop, -1) })
			}
		}
		for k, n := range []string{"Seek", "SeekBit", "AlignBit", "AlignByte", "After", "AfterBit", "Grow", "TruncateLeft", "TruncateRight", "Reset", "ClearAllBits", "SetAllBits", "FlipAllBits", "Refresh", "New"} {
			k := k
			if b.Reset == nil && n == "Reset" || b.TruncL == nil && (k == 7 || k == 8) {
				continue
			}
			add("C16/"+b.Name[:2]+"/"+n, func() { miniMisc(b, m, k) })
		}
	}
}

// pair is a Buffer and a MiniBuffer in the same arbitrary state.
func pair(b, m *Ver, n int) (sb, sm *State) {
	sb = stateN(b, n)
	return sb, sb.asOther(m)
}

func (st *State) asOther(m *Ver) *State {
	x := sym.Snapshot(st.v.Bytes(st.o))
	t := &State{v: m, o: m.New(x), n: st.n, raw: x}
	m.Seek(t.o, st.v.Off(st.o), false)
	m.SeekBit(t.o, st.v.BitOff(st.o), false)
	return t
}

// alike: both look the same from outside.
func alike(sb, sm *State, tag string) {
	b, m := sb.v, sm.v
	x, y := b.Bytes(sb.o), m.Bytes(sm.o)
	sym.Assert(len(x) == len(y), tag+": different lengths")
	sym.Assert(b.Cap(sb.o) == m.Cap(sm.o), tag+": different capacities")
	sym.Assert(b.BitCap(sb.o) == m.BitCap(sm.o), tag+": different bit capacities")
	sym.Assert(b.Off(sb.o) == m.Off(sm.o), tag+": different byte cursors")
	sym.Assert(b.BitOff(sb.o) == m.BitOff(sm.o), tag+": different bit cursors")
	j := int(sym.UintN("j", 23))
	if j < len(x) && j < len(y) {
		sym.Assert(x[j] == y[j], tag+": different contents")
		sym.Observe("byte", uint64(y[j]))
	}
}

// garbage fills the out variables with arbitrary values.
func (s *Src) garbage(op *Op) {
	s.gbyte, s.gword = sym.Uint8("gbyte"), sym.Uint64("gword")
	n := int(sym.UintN("gn", 4))
	s.gbytes = sym.Bytes("gbytes", n, n)
	if op.Kind == KInt {
		switch sym.Choose("giface", 3) {
		case 0:
			s.giface = nil
		case 1:
			s.giface = sym.U32("gi", 2, 2)
		}
	}
}

func miniOp(b, m *Ver, bop, mop *Op, part int) {
	next := part >= 0 || sym.Choose("next", 2) == 1
	sb := state(b)
	off := sym.Int64("off")
	n := int64(0)
	if part >= 0 {
		_, _, n, off = sb.field(bop, false, part)
	} else {
		n = bop.few()
		if bop.Kind == KField {
			// the others are looked at by their position within the byte
			sym.Assume(n == 0 || off < 0 || off > sb.units(bop)-n)
		}
	}
	if next {
		sb.setCur(bop, off)
	}
	sm := sb.asOther(m)
	s := bop.src("", int(n))
	s1, s2 := bop.clone(s), bop.clone(s)
	if !bop.Write {
		s2.tag = "m"
		s2.garbage(bop)
	}
	r1, _, p1 := bop.try(next, sb.o, off, n, s1)
	if p1 {
		sym.Cover("refused")
		return
	}
	r2, _, p2 := mop.try(next, sm.o, off, n, s2)
	sym.Assert(!p2, "C16: MiniBuffer panics where Buffer does not")
	sameRes(r1, r2, "C16")
	alike(sb, sm, "C16")
	if mop.Write && mop.Kind != KField && mop.Kind != KBit && n > 0 && n < 100 {
		k := int64(sym.UintN("k", 7))
		if k < n {
			sym.Assert(mop.elem(s2, k) == mop.elem(s, k), "C16: source slice changed")
		}
	}
	sym.Observe("off", uint64(m.Off(sm.o)))
	sym.Cover("end")
}

// miniField: every field width, at a fixed position within the byte.
func miniField(b, m *Ver, bop, mop *Op, part int) {
	sb := state(b)
	_, _, w, off := sb.field(bop, false, part)
	sm := sb.asOther(m)
	s := bop.src("", 1)
	s2 := bop.clone(s)
	s2.gword = sym.Uint64("gword")
	r1, _, p1 := bop.try(false, sb.o, off, w, s)
	if p1 {
		return
	}
	r2, _, p2 := mop.try(false, sm.o, off, w, s2)
	sym.Assert(!p2, "C16: MiniBuffer panics where Buffer does not")
	sameRes(r1, r2, "C16")
	alike(sb, sm, "C16")
	sym.Cover("end")
}

func miniMisc(b, m *Ver, what int) {
	if what == 14 {
		k := sym.Choose("slices", 3)
		var ss, ts [][]byte
		for i := 0; i < k; i++ {
			n := sym.Len([]string{"n0", "n1"}[i])
			s := sym.Bytes([]string{"s0", "s1"}[i], n, n)
			ss = append(ss, s)
			ts = append(ts, sym.Snapshot(s))
		}
		sb := &State{v: b, o: b.New(ss...)}
		sm := &State{v: m, o: m.New(ts...)}
		alike(sb, sm, "C16")
		sym.Cover("end")
		return
	}
	n := 0
	if what >= 10 && what <= 12 {
		n = count(10, 24, 31, 40)
	} else {
		n = sym.Len("len")
	}
	sb, sm := pair(b, m, n)
	x := sym.Int64("x")
	rel := sym.Bool("rel")
	grow := int64(0)
	if what == 6 {
		grow = growCount()
	}
	do := func(s *State) (y int64, p bool) {
		v, o := s.v, s.o
		_, p = sym.Try(func() {
			switch what {
			case 0:
				v.Seek(o, x, rel)
			case 1:
				v.SeekBit(o, x, rel)
			case 2:
				v.AlignBit(o)
			case 3:
				v.AlignByte(o)
			case 4:
				if rel {
					y = v.After0(o)
				} else {
					y = v.After1(o, x)
				}
			case 5:
				if rel {
					y = v.AfterBit0(o)
				} else {
					y = v.AfterBit1(o, x)
				}
			case 6:
				v.Grow(o, grow)
			case 7, 8:
				v.trunc(o, x, what-7)
			case 9:
				v.Reset(o)
			case 10:
				v.ClearAll(o)
			case 11:
				v.SetAll(o)
			case 12:
				v.FlipAll(o)
			case 13:
				v.Refresh(o)
			}
		})
		return
	}
	y1, p1 := do(sb)
	if p1 {
		sym.Cover("refused")
		return
	}
	y2, p2 := do(sm)
	sym.Assert(!p2, "C16: MiniBuffer panics where Buffer does not")
	sym.Assert(y1 == y2, "C16: different results")
	sym.Observe("y", uint64(y2))
	alike(sb, sm, "C16")
	sym.Cover("end")
}
