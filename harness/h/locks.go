package h

import (
	"encoding/binary"

	v1 "github.com/superwhiskers/crunch/v1"
	"verif/harness/sym"
)

func init() {
	for _, v := range vers {
		v := v
		if v.V == 3 || v.Mini {
			continue
		}
		for _, op := range v.Ops {
			op := op
			add("C17/"+v.Name+"/"+op.Name, func() { lockAfterOp(v, op) })
		}
		for k, n := range []string{"Seek", "SeekBit", "AlignBit", "AlignByte", "Refresh", "After", "Bytes", "Grow", "Reset", "SetBitAnyValue", "AllBits", "New"} {
			k := k
			if n == "Reset" && v.Reset == nil {
				continue
			}
			add("C17/"+v.Name+"/"+n, func() { lockAfterMisc(v, k) })
		}
		if v.V == 1 {
			add("C17/"+v.Name+"/ReadComplexAnySize", func() { lockAfterComplex(v, false) })
			add("C17/"+v.Name+"/WriteComplexAnySize", func() { lockAfterComplex(v, true) })
		}
	}
}

// usable: the mutex is free and an ordinary operation goes through.
// (Taking a held mutex is a deadlock, which the engine and the replay
// both report.)
func (st *State) usable() {
	v, o := st.v, st.o
	v.Lock(o)
	v.Unlock(o)
	v.Seek(o, 0, false)
	if len(v.Bytes(o)) > 0 {
		_, _, p := v.op("ReadByte").try(false, o, 0, 1, &Src{n: 1})
		sym.Assert(!p, "C17: buffer unusable afterwards")
	}
	sym.Try(func() { v.Grow(o, 1) })
	v.Lock(o)
	v.Unlock(o)
	sym.Observe("cap", uint64(v.Cap(o)))
}

func lockAfterOp(v *Ver, op *Op) {
	next := sym.Choose("next", 2) == 1
	st := state(v)
	off := sym.Int64("off")
	if next {
		st.setCur(op, off)
	}
	var n int64
	var s *Src
	if op.Kind == KInt && !op.Write && sym.Choose("any", 2) == 1 {
		// any count at all, as long as the access is refused
		n = sym.Int64("n")
		sym.Assume(n < 0 || off < 0 || off > st.n || n > st.n-off)
		s = op.src("", 0)
	} else {
		n, s = op.loose()
	}
	_, _, p := op.try(next, st.o, off, n, s)
	if p {
		sym.Cover("refused")
	}
	st.usable()
	sym.Cover("end")
}

func lockAfterMisc(v *Ver, what int) {
	n := 0
	if what == 10 {
		n = count(6, 16, 33)
	} else {
		n = sym.Len("len")
	}
	st := stateN(v, n)
	o := st.o
	x := sym.Int64("x")
	rel := sym.Bool("rel")
	next := sym.Choose("next", 2) == 1
	bit := sym.Uint8("bit")
	grow := int64(0)
	if what == 7 {
		grow = growCount()
	}
	if next {
		v.SeekBit(o, x, false)
	}
	sym.Try(func() {
		switch what {
		case 0:
			v.Seek(o, x, rel)
		case 1:
			v.SeekBit(o, x, rel)
		case 2:
			v.AlignBit(o)
		case 3:
			v.AlignByte(o)
		case 4:
			v.Refresh(o)
		case 5:
			v.After0(o)
			v.After1(o, x)
			v.AfterBit0(o)
			v.AfterBit1(o, x)
		case 6:
			v.Bytes(o)
			v.Cap(o)
			v.BitCap(o)
			v.Off(o)
			v.BitOff(o)
		case 7:
			v.Grow(o, grow)
		case 8:
			v.Reset(o)
		case 9:
			setBitVal(v, next, o, x, bit)
		case 10:
			v.ClearAll(o)
			v.Lock(o)
			v.Unlock(o)
			v.SetAll(o)
			v.Lock(o)
			v.Unlock(o)
			v.FlipAll(o)
		default:
			st.o = v.New(v.Bytes(o), []byte{1})
		}
	})
	st.usable()
	sym.Cover("end")
}

// any size, any byte order, data of any supported type whatever the size
// says, including empty and nil data
func lockAfterComplex(v *Ver, write bool) {
	next := sym.Choose("next", 2) == 1
	st := state(v)
	off := sym.Int64("off")
	if next {
		st.v.Seek(st.o, off, false)
	}
	size := sym.Int64("size")
	if sym.Choose("valid", 2) == 1 {
		size = []int64{1, 2, 4, 8}[sym.Choose("sz", 4)]
	} else {
		sym.Assume(size != 1 && size != 2 && size != 4 && size != 8)
	}
	var e binary.ByteOrder = binary.LittleEndian
	if sym.Choose("order", 2) == 1 {
		e = binary.BigEndian
	}
	if write {
		var d interface{}
		m := int(sym.UintN("n", 3))
		sym.Assume(m < 4)
		switch sym.Choose("data", 5) {
		case 0:
			d = sym.Bytes("data", m, m)
		case 1:
			d = sym.U16("data", m, m)
		case 2:
			d = sym.U32("data", m, m)
		case 3:
			d = sym.U64("data", m, m)
		}
		sym.Try(func() { v1Write(v.Mini, next, st.o, off, d, v1.IntegerSize(size), e) })
	} else {
		n := int64(sym.UintN("n", 3))
		sym.Assume(n < 4)
		if sym.Choose("negative", 2) == 1 {
			n = -1 - n
		}
		sym.Try(func() { v1Read(v.Mini, next, st.o, off, n, v1.IntegerSize(size), e) })
	}
	st.usable()
	sym.Cover("end")
}
