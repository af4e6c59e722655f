package h

import (
	"encoding/binary"

	v1 "github.com/superwhiskers/crunch/v1"

	"verif/harness/sym"
)

// v1's integer operations take any binary.ByteOrder: these harnesses give
// them orders other than the two usual ones.

// mixed is a byte order of its own: 16-bit words most significant first,
// the bytes within a word least significant first.
type mixed struct{}

func (mixed) String() string         { return "mixed" }
func (mixed) Uint16(b []byte) uint16 { return uint16(b[0]) | uint16(b[1])<<8 }
func (mixed) Uint32(b []byte) uint32 {
	return uint32(b[2]) | uint32(b[3])<<8 | uint32(b[0])<<16 | uint32(b[1])<<24
}
func (m mixed) Uint64(b []byte) uint64 {
	return uint64(m.Uint32(b))<<32 | uint64(m.Uint32(b[4:]))
}
func (mixed) PutUint16(b []byte, x uint16) { b[0], b[1] = byte(x), byte(x>>8) }
func (m mixed) PutUint32(b []byte, x uint32) {
	m.PutUint16(b, uint16(x>>16))
	m.PutUint16(b[2:], uint16(x))
}
func (m mixed) PutUint64(b []byte, x uint64) {
	m.PutUint32(b, uint32(x>>32))
	m.PutUint32(b[4:], uint32(x))
}

func init() {
	for _, v := range vers {
		if v.V != 1 {
			continue
		}
		for _, size := range []int{2, 4, 8} {
			for _, e := range []binary.ByteOrder{mixed{}, binary.NativeEndian} {
				v, size, e := v, size, e
				nm := v.Name + "/" + string([]byte{'0' + byte(size)}) + "-byte order " + e.String()
				add("C01/"+nm, func() { orderWrite(v, size, e) })
				add("C02/"+nm, func() { orderRead(v, size, e) })
			}
		}
	}
}

func put(e binary.ByteOrder, size int, x uint64) (t [8]byte) {
	switch size {
	case 2:
		e.PutUint16(t[:], uint16(x))
	case 4:
		e.PutUint32(t[:], uint32(x))
	default:
		e.PutUint64(t[:], x)
	}
	return
}

func orderWrite(v *Ver, size int, e binary.ByteOrder) {
	n := sym.Choose("n", 4)
	next := sym.Choose("next", 2) == 1
	st := state(v)
	off := sym.Int64("off")
	sym.Assume(off >= 0)
	sym.Assume(off <= st.n-int64(n*size))
	xs := make([]uint64, n)
	var data interface{}
	switch size {
	case 2:
		d := sym.U16("d", n, n)
		for k := range xs {
			xs[k] = uint64(d[k])
		}
		data = d
	case 4:
		d := sym.U32("d", n, n)
		for k := range xs {
			xs[k] = uint64(d[k])
		}
		data = d
	default:
		d := sym.U64("d", n, n)
		copy(xs, d)
		data = d
	}
	if next {
		v.Seek(st.o, off, false)
	}
	old := st.snap()
	_, p := sym.Try(func() {
		z := v1.IntegerSize(size)
		switch b := st.o.(type) {
		case *v1.Buffer:
			if next {
				b.WriteComplexNext(data, z, e)
			} else {
				b.WriteComplex(off, data, z, e)
			}
		case *v1.MiniBuffer:
			if next {
				b.WriteComplexNext(data, z, e)
			} else {
				b.WriteComplex(off, data, z, e)
			}
		}
	})
	sym.Assert(!p, "C01: panic on an in-range write in another byte order")
	if next {
		old.off += int64(n * size)
	}
	st.shape(old, "C01")
	b := v.Bytes(st.o)
	for k, x := range xs {
		t := put(e, size, x)
		for r := 0; r < size; r++ {
			sym.Assert(b[off+int64(k*size+r)] == t[r], "C01: wrong byte stored in another byte order")
		}
	}
	j := int64(sym.Len("j"))
	if j < st.n && (j < off || j >= off+int64(n*size)) {
		sym.Assert(b[j] == old.b[j], "C01: another byte changed")
	}
	sym.Cover("end")
}

func orderRead(v *Ver, size int, e binary.ByteOrder) {
	n := sym.Choose("n", 4)
	next := sym.Choose("next", 2) == 1
	st := state(v)
	off := sym.Int64("off")
	sym.Assume(off >= 0)
	sym.Assume(off <= st.n-int64(n*size))
	if next {
		v.Seek(st.o, off, false)
	}
	old := st.snap()
	var out interface{}
	_, p := sym.Try(func() {
		z := v1.IntegerSize(size)
		switch b := st.o.(type) {
		case *v1.Buffer:
			if next {
				out = b.ReadComplexNext(int64(n), z, e)
			} else {
				out = b.ReadComplex(off, int64(n), z, e)
			}
		case *v1.MiniBuffer:
			if next {
				b.ReadComplexNext(&out, int64(n), z, e)
			} else {
				b.ReadComplex(&out, off, int64(n), z, e)
			}
		}
	})
	sym.Assert(!p, "C02: panic on an in-range read in another byte order")
	if next {
		old.off += int64(n * size)
	}
	st.shape(old, "C02")
	got := make([]uint64, n)
	switch size {
	case 2:
		d, ok := out.([]uint16)
		sym.Assert(ok && len(d) == n, "C02: wrong result in another byte order")
		for k := range got {
			got[k] = uint64(d[k])
		}
	case 4:
		d, ok := out.([]uint32)
		sym.Assert(ok && len(d) == n, "C02: wrong result in another byte order")
		for k := range got {
			got[k] = uint64(d[k])
		}
	default:
		d, ok := out.([]uint64)
		sym.Assert(ok && len(d) == n, "C02: wrong result in another byte order")
		copy(got, d)
	}
	for k, x := range got {
		t := put(e, size, x)
		for r := 0; r < size; r++ {
			sym.Assert(old.b[off+int64(k*size+r)] == t[r], "C02: wrong value read in another byte order")
		}
	}
	j := int64(sym.Len("j"))
	if j < st.n {
		sym.Assert(v.Bytes(st.o)[j] == old.b[j], "C02: reading changed the contents")
	}
	sym.Cover("end")
}
