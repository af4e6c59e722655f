package h

import (
	v1 "github.com/superwhiskers/crunch/v1"
	v2 "github.com/superwhiskers/crunch/v2"
	"verif/harness/sym"
)

func init() {
	for _, v := range vers {
		v := v
		if v.V == 3 || v.Mini {
			continue
		}
		as := cacts(v)
		for k := range as {
			k := k
			add("C18/"+v.Name+"/"+as[k].name, func() { atomicPair(v, as, k, false) })
			if as[k].many {
				add("C18/"+v.Name+"/"+as[k].name+"/many", func() { atomicPair(v, as, k, true) })
			}
		}
	}
}

// cact is one operation of a goroutine.
type cact struct {
	name string
	all  bool // loops over the whole buffer
	many bool // moves a number of elements
	// args draws the arguments and gives the call
	args func(tag string) func(o any) Res
}

// moved tells how many elements a call moves; many: any number of bytes,
// many integers or bits.
func moved(op *Op, tag string) int64 {
	many := tag == "A*"
	switch {
	case op.One || op.Kind == KBit:
		return 1
	case op.Kind == KByte && many:
		return int64(sym.UintN("n"+tag, 14))
	case op.Kind == KField && many:
		return 64
	case many:
		return 9
	case op.Bits == 64:
		return 1
	}
	return 2
}

func value(x int64) Res { return one(uint64(x)) }

func cacts(v *Ver) (as []cact) {
	access := func(op *Op, next bool) {
		nm := op.Name
		if next {
			nm += "Next"
		}
		as = append(as, cact{nm, false, !op.One && op.Kind != KBit, func(tag string) func(any) Res {
			off := int64(0)
			if !next {
				off = sym.Int64("off" + tag)
			}
			n := moved(op, tag)
			s := op.src("s"+tag, int(n))
			return func(o any) Res { return op.run(next, o, off, n, op.clone(s)) }
		}})
	}
	for _, op := range v.Ops {
		access(op, false)
		access(op, true)
	}
	plain := func(nm string, f func(o any)) {
		as = append(as, cact{nm, false, false, func(string) func(any) Res {
			return func(o any) Res { f(o); return none }
		}})
	}
	query := func(nm string, f func(o any) int64) {
		as = append(as, cact{nm, false, false, func(string) func(any) Res {
			return func(o any) Res { return value(f(o)) }
		}})
	}
	seek := func(nm string, f func(o any, x int64, rel bool), rel bool) {
		as = append(as, cact{nm, false, false, func(tag string) func(any) Res {
			x := sym.Int64("x" + tag)
			return func(o any) Res { f(o, x, rel); return none }
		}})
	}
	seek("SeekTo", v.Seek, false)
	seek("SeekBy", v.Seek, true)
	seek("SeekBitTo", v.SeekBit, false)
	seek("SeekBitBy", v.SeekBit, true)
	plain("AlignBit", v.AlignBit)
	plain("AlignByte", v.AlignByte)
	plain("Refresh", v.Refresh)
	if v.Reset != nil {
		plain("Reset", v.Reset)
	}
	as = append(as, cact{"Grow", false, true, func(tag string) func(any) Res {
		w := 4
		if tag == "A*" {
			w = 16
		}
		g := int64(sym.UintN("g"+tag, w))
		return func(o any) Res { v.Grow(o, g); return none }
	}})
	query("After", v.After0)
	query("AfterBit", v.AfterBit0)
	query("AfterPosition", func(o any) int64 { return v.After1(o, 3) })
	query("AfterBitPosition", func(o any) int64 { return v.AfterBit1(o, 3) })
	query("Capacity", v.Cap)
	query("BitCapacity", v.BitCap)
	query("Offset", v.Off)
	query("BitOffset", v.BitOff)
	as = append(as, cact{"Bytes", false, false, func(string) func(any) Res {
		return func(o any) Res { return res8(v.Bytes(o)) }
	}})
	for _, x := range []struct {
		nm string
		f  func(any)
	}{{"ClearAllBits", v.ClearAll}, {"SetAllBits", v.SetAll}, {"FlipAllBits", v.FlipAll}} {
		plain(x.nm, x.f)
		as[len(as)-1].all = true
	}
	return
}

// got is what one call delivered.
type got struct {
	r  Res
	pv any
	p  bool
}

func perform(o any, f func(any) Res) (g got) {
	g.pv, g.p = sym.Try(func() { g.r = f(o) })
	return
}

// eq: the same outcome, looking at element k of what was returned
func (g got) eq(h got, k int64) bool {
	if g.p != h.p {
		return false
	}
	if g.p {
		return g.pv == h.pv
	}
	if g.r.N != h.r.N {
		return false
	}
	return k >= g.r.N || g.r.At(k) == h.r.At(k)
}

// looks: the same state, looking at byte j
func (s *State) looks(t *State, j int) bool {
	v := s.v
	x, y := v.Bytes(s.o), v.Bytes(t.o)
	if len(x) != len(y) || v.Cap(s.o) != v.Cap(t.o) || v.BitCap(s.o) != v.BitCap(t.o) || v.Off(s.o) != v.Off(t.o) || v.BitOff(s.o) != v.BitOff(t.o) {
		return false
	}
	return j >= len(x) || x[j] == y[j]
}

// partners: what runs in the other goroutine; together they change and
// look at every component of a buffer
var partners = []string{"WriteByte", "WriteBytesNext", "ReadByteNext", "FlipBit", "SetBitsNext", "ReadBits", "SeekTo", "SeekBy", "SeekBitBy", "SeekBitTo", "AlignBit", "AlignByte", "Grow", "Reset", "FlipAllBits"}

// the ones a long operation is paired with
var fewPartners = []string{"WriteByte", "WriteBytesNext", "Grow"}

// partnersOf lists the partners' indices, a reader of two integers and,
// last, the operation itself.
func partnersOf(v *Ver, as []cact, a int, partners []string) []int {
	bs := make([]int, 0, len(partners)+2)
	rd := v.opBy(32, true, false).Name
	self := true
	for i := range as {
		if has(partners, as[i].name) || as[i].name == rd {
			bs = append(bs, i)
			self = self && i != a
		}
	}
	if self {
		bs = append(bs, a)
	}
	return bs
}

// atomicPair: operation a of one goroutine, interrupted anywhere by
// another operation of a second goroutine.
func atomicPair(v *Ver, as []cact, a int, many bool) {
	tag, bs := "A", []int(nil)
	if many {
		tag, bs = "A*", partnersOf(v, as, a, fewPartners)
	} else {
		bs = partnersOf(v, as, a, partners)
	}
	b := bs[sym.Choose("other", len(bs))]
	var st *State
	if as[a].all || as[b].all {
		st = stateN(v, sym.Choose("length", 3))
	} else {
		st = state(v)
	}
	f, g := as[a].args(tag), as[b].args("B")
	ab, ba := st.twin(v), st.twin(v)
	abA := perform(ab.o, f)
	abB := perform(ab.o, g)
	baB := perform(ba.o, g)
	baA := perform(ba.o, f)
	var cA, cB got
	sym.Concurrent(func() { cA = perform(st.o, f) }, func() { cB = perform(st.o, g) }, func() bool {
		switch x := st.o.(type) {
		case *v1.Buffer:
			if x.TryLock() {
				x.Unlock()
				return true
			}
		case *v2.Buffer:
			if x.TryLock() {
				x.Unlock()
				return true
			}
		}
		return false
	})
	j1, j2 := int(sym.UintN("j1", 22)), int(sym.UintN("j2", 22))
	k1, k2 := int64(sym.UintN("k1", 14)), int64(sym.UintN("k2", 14))
	first := cA.eq(abA, k1) && cB.eq(abB, k1) && st.looks(ab, j1)
	second := cA.eq(baA, k2) && cB.eq(baB, k2) && st.looks(ba, j2)
	sym.Assert(first || second, "C18: "+as[a].name+" interrupted by "+as[b].name+": neither order explains what happened")
	sym.Cover("end")
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
