package h

import (
	"encoding/binary"

	v1 "github.com/superwhiskers/crunch/v1"
	"verif/harness/sym"
)

func init() {
	for _, v := range vers {
		v := v
		for _, op := range v.Ops {
			op := op
			if !v.Mini {
				add("C08/"+v.Name+"/"+op.Name, func() { refused(v, op) })
				add("C09/"+v.Name+"/"+op.Name, func() { accepted(v, op) })
			}
		}
		if v.V < 3 {
			add("C22/"+v.Name+"/SetBit", func() { invalidBit(v) })
		}
		if v.V == 1 {
			add("C22/"+v.Name+"/ReadComplex", func() { invalidSize(v, false) })
			add("C22/"+v.Name+"/WriteComplex", func() { invalidSize(v, true) })
		}
	}
}

// range of an access, decided without overflow: units is the number of
// position units in the buffer, abs(off)+units fits 64 bits unsigned
func outside(off, n, w, units int64) (under, over bool) {
	under = off < 0
	if under {
		over = uint64(n) > (uint64(units)+uint64(-off))/uint64(w)
	} else {
		over = off > units || n > (units-off)/w
	}
	return
}

// anyCount is any number of elements an access can be asked for.
func (op *Op) anyCount() int64 {
	switch {
	case op.One:
		return 1
	case op.Write && op.Kind != KField:
		if op.Kind != KByte {
			// the data may be converted before the range is looked at
			if sym.Choose("size", 2) == 0 {
				return int64(count(8, 24, 100))
			}
			if op.Sort == 0 {
				sym.Assume(op.Bits == 8)
			}
		}
		return int64(sym.Len("n"))
	}
	n := sym.Int64("n")
	sym.Assume(n >= 0)
	return n
}

func (st *State) units(op *Op) int64 {
	if op.bits() {
		return 8 * st.n
	}
	return st.n
}

func refused(v *Ver, op *Op) {
	next := sym.Choose("next", 2) == 1
	st := state(v)
	n := op.anyCount()
	off := sym.Int64("off")
	under, over := outside(off, n, op.W, st.units(op))
	sym.Assume(under || over)
	if next {
		st.setCur(op, off)
	}
	mi := 0
	if op.Write && op.Kind != KField {
		mi = int(n)
	}
	s := op.src("", mi)
	old := st.snap()
	_, pv, p := op.try(next, st.o, off, n, s)
	sym.Assert(p, "C08: out-of-range access accepted")
	eu, eo := v.ErrUR(), v.ErrOR()
	if op.Write {
		eu, eo = v.ErrUW(), v.ErrOW()
	}
	sym.Assert(pv == eu && under || pv == eo && over, "C08: wrong panic value")
	st.same(old, "C08")
	if pv == eu {
		sym.Observe("under", 1)
	}
	sym.Cover("end")
}

// accepted: no in-range access panics.
func accepted(v *Ver, op *Op) {
	next := sym.Choose("next", 2) == 1
	st := state(v)
	var n int64
	switch {
	case op.One:
		n = 1
	case op.Kind == KField:
		n = []int64{0, 1, 2, 7, 8, 9, 16, 33, 63, 64}[sym.Choose("n", 10)]
	case op.Kind == KByte:
		n = int64(byteCount(op))
	default:
		n = int64(count(6, 20, 40))
	}
	edge := sym.Choose("edge", 3)
	units := st.units(op)
	sym.Assume(n*op.W <= units)
	off := int64(0)
	switch edge {
	case 0:
		off = sym.Int64("off")
		sym.Assume(off >= 0 && off <= units-n*op.W)
	case 1:
		off = units - n*op.W
	}
	if next {
		st.setCur(op, off)
	}
	s := op.src("", int(n))
	_, _, p := op.try(next, st.o, off, n, s)
	sym.Assert(!p, "C09: in-range access refused")
	sym.Observe("off", uint64(v.Off(st.o)))
	sym.Observe("boff", uint64(v.BitOff(st.o)))
	// and the same again at the very end of an empty range
	sym.Cover("end")
}

func invalidBit(v *Ver) {
	next := sym.Choose("next", 2) == 1
	st := state(v)
	off := sym.Int64("off")
	sym.Assume(off >= 0 && off < 8*st.n)
	if next {
		st.v.SeekBit(st.o, off, false)
	}
	x := sym.Uint8("x")
	sym.Assume(x > 1)
	old := st.snap()
	pv, p := sym.Try(func() { setBitVal(v, next, st.o, off, x) })
	sym.Assert(p, "C22: invalid bit accepted")
	sym.Assert(pv == v.ErrBit(), "C22: wrong panic value")
	st.same(old, "C22")
	sym.Cover("end")
}

// a valid request in every other respect
func invalidSize(v *Ver, write bool) {
	next := sym.Choose("next", 2) == 1
	st := state(v)
	off := sym.Int64("off")
	n := int64(sym.UintN("n", 3))
	// the elements would fit whatever their size
	sym.Assume(off >= 0 && off <= st.n-8*n)
	if next {
		st.v.Seek(st.o, off, false)
	}
	size := sym.Int64("size")
	sym.Assume(size != 1 && size != 2 && size != 4 && size != 8)
	var e binary.ByteOrder = binary.LittleEndian
	if sym.Choose("order", 2) == 1 {
		e = binary.BigEndian
	}
	old := st.snap()
	var pv interface{}
	var p bool
	if write {
		var d interface{}
		m := int(n)
		switch sym.Choose("data", 4) {
		case 0:
			d = sym.Bytes("data", m, m)
		case 1:
			d = sym.U16("data", m, m)
		case 2:
			d = sym.U32("data", m, m)
		default:
			d = sym.U64("data", m, m)
		}
		pv, p = sym.Try(func() { v1Write(v.Mini, next, st.o, off, d, v1.IntegerSize(size), e) })
	} else {
		pv, p = sym.Try(func() { v1Read(v.Mini, next, st.o, off, n, v1.IntegerSize(size), e) })
	}
	sym.Assert(p, "C22: invalid integer size accepted")
	sym.Assert(pv == v.ErrSize(), "C22: wrong panic value")
	st.same(old, "C22")
	sym.Cover("end")
}
