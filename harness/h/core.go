// Package h holds the harnesses.  Every harness is ordinary Go over the
// public API of crunch; the symbolic engine executes it with the sym
// primitives as solver variables, the replay command executes the very
// same code with the values of a solver model.
package h

import (
	"verif/harness/sym"
)

// All lists every harness.
var All []sym.H

func add(name string, f func()) { All = append(All, sym.H{Name: name, F: f}) }

type Kind int

const (
	KByte Kind = iota
	KInt
	KFloat
	KBit
	KField
)

type Effect int

const (
	NoEffect Effect = iota
	BitSet
	BitClear
	BitFlip
)

// Ver is one buffer type of one version.
type Ver struct {
	Name                                                    string
	V                                                       int
	Mini                                                    bool
	New                                                     func(...[]byte) any
	Bytes                                                   func(any) []byte
	Cap, BitCap, Off, BitOff, After0, AfterBit0             func(any) int64
	After1, AfterBit1                                       func(any, int64) int64
	Seek, SeekBit                                           func(any, int64, bool)
	AlignBit, AlignByte, Refresh, ClearAll, SetAll, FlipAll func(any)
	Reset                                                   func(any)
	Grow, TruncL, TruncR                                    func(any, int64)
	Lock, Unlock                                            func(any)
	ErrOR, ErrUR, ErrOW, ErrUW, ErrCount, ErrBit, ErrSize   func() any
	Ops                                                     []*Op
}

// Op is one read or write operation with its ...Next form.
type Op struct {
	Name  string
	Kind  Kind
	W     int64 // position units (bytes; bits for bit operations) per element
	Bits  int   // width of an element
	BE    bool
	Sort  byte // U, I or F; 0 in v1
	One   bool // always exactly one element
	Write bool
	Eff   Effect
	Do    func(o any, off, n int64, s *Src) Res
	Next  func(o any, n int64, s *Src) Res
}

func (op *Op) bits() bool { return op.Kind == KBit || op.Kind == KField }

// Res is what an operation returned.
type Res struct {
	N  int64 // elements; -1: nothing
	At func(k int64) uint64
	// Poke changes element k of the result in place
	Poke func(k int64)
	Raw  []byte
}

var none = Res{N: -1}

func one(x uint64) Res {
	return Res{N: 1, At: func(int64) uint64 { return x }, Poke: func(int64) {}}
}
func res8(b []byte) Res {
	return Res{N: int64(len(b)), At: func(k int64) uint64 { return uint64(b[k]) }, Poke: func(k int64) { b[k] ^= 1 }, Raw: b}
}
func res16(b []uint16) Res {
	return Res{N: int64(len(b)), At: func(k int64) uint64 { return uint64(b[k]) }, Poke: func(k int64) { b[k] = ^b[k] }}
}
func res32(b []uint32) Res {
	return Res{N: int64(len(b)), At: func(k int64) uint64 { return uint64(b[k]) }, Poke: func(k int64) { b[k] = ^b[k] }}
}
func res64(b []uint64) Res {
	return Res{N: int64(len(b)), At: func(k int64) uint64 { return b[k] }, Poke: func(k int64) { b[k] = ^b[k] }}
}
func resI16(b []int16) Res {
	return Res{N: int64(len(b)), At: func(k int64) uint64 { return uint64(uint16(b[k])) }, Poke: func(k int64) { b[k] = ^b[k] }}
}
func resI32(b []int32) Res {
	return Res{N: int64(len(b)), At: func(k int64) uint64 { return uint64(uint32(b[k])) }, Poke: func(k int64) { b[k] = ^b[k] }}
}
func resI64(b []int64) Res {
	return Res{N: int64(len(b)), At: func(k int64) uint64 { return uint64(b[k]) }, Poke: func(k int64) { b[k] = ^b[k] }}
}
func resF32(b []float32) Res {
	return Res{N: int64(len(b)), At: func(k int64) uint64 { return uint64(sym.B32(b[k])) }, Poke: func(k int64) { b[k] = 1.5 }}
}
func resF64(b []float64) Res {
	return Res{N: int64(len(b)), At: func(k int64) uint64 { return sym.B64(b[k]) }, Poke: func(k int64) { b[k] = 1.5 }}
}

// what out variables hold before a MiniBuffer call unless a harness says
// otherwise
var (
	garbageBytes = []byte{0xA7, 1, 2}
	garbageInt   = int64(-0x123456789)
)

// Src carries the operands of one call: source slices of writes and the
// out variables of MiniBuffer reads.
type Src struct {
	n, extra int
	tag      string
	U8       []byte
	U16      []uint16
	U32      []uint32
	U64      []uint64
	I16      []int16
	I32      []int32
	I64      []int64
	F32      []float32
	F64      []float64
	D        uint64
	oU16     []uint16
	oU32     []uint32
	oU64     []uint64
	oI16     []int16
	oI32     []int32
	oI64     []int64
	oF32     []float32
	oF64     []float64
	gbyte    byte
	gword    uint64
	giface   interface{}
	gbytes   []byte
	// what the out slice of a MiniBuffer read held before
	orig func(k int64) uint64
}

func (s *Src) gb() byte        { return s.gbyte }
func (s *Src) gu() uint64      { return s.gword }
func (s *Src) gi() interface{} { return s.giface }
func (s *Src) g8() []byte      { return s.gbytes }
func (s *Src) outU16() []uint16 {
	s.oU16 = sym.U16("out"+s.tag, s.n+s.extra, s.n+s.extra)
	c := sym.SnapU16(s.oU16)
	s.orig = func(k int64) uint64 { return uint64(c[k]) }
	return s.oU16
}
func (s *Src) outU32() []uint32 {
	s.oU32 = sym.U32("out"+s.tag, s.n+s.extra, s.n+s.extra)
	c := sym.SnapU32(s.oU32)
	s.orig = func(k int64) uint64 { return uint64(c[k]) }
	return s.oU32
}
func (s *Src) outU64() []uint64 {
	s.oU64 = sym.U64("out"+s.tag, s.n+s.extra, s.n+s.extra)
	c := sym.SnapU64(s.oU64)
	s.orig = func(k int64) uint64 { return c[k] }
	return s.oU64
}
func (s *Src) outI16() []int16 {
	s.oI16 = sym.I16("out"+s.tag, s.n+s.extra, s.n+s.extra)
	c := sym.SnapI16(s.oI16)
	s.orig = func(k int64) uint64 { return uint64(uint16(c[k])) }
	return s.oI16
}
func (s *Src) outI32() []int32 {
	s.oI32 = sym.I32("out"+s.tag, s.n+s.extra, s.n+s.extra)
	c := sym.SnapI32(s.oI32)
	s.orig = func(k int64) uint64 { return uint64(uint32(c[k])) }
	return s.oI32
}
func (s *Src) outI64() []int64 {
	s.oI64 = sym.I64("out"+s.tag, s.n+s.extra, s.n+s.extra)
	c := sym.SnapI64(s.oI64)
	s.orig = func(k int64) uint64 { return uint64(c[k]) }
	return s.oI64
}
func (s *Src) outF32() []float32 {
	s.oF32 = sym.F32("out"+s.tag, s.n+s.extra, s.n+s.extra)
	c := sym.SnapF32(s.oF32)
	s.orig = func(k int64) uint64 { return uint64(sym.B32(c[k])) }
	return s.oF32
}
func (s *Src) outF64() []float64 {
	s.oF64 = sym.F64("out"+s.tag, s.n+s.extra, s.n+s.extra)
	c := sym.SnapF64(s.oF64)
	s.orig = func(k int64) uint64 { return sym.B64(c[k]) }
	return s.oF64
}

// src makes the operands of op for n elements (contents symbolic).
func (op *Op) src(tag string, n int) *Src {
	s := &Src{n: n, tag: tag, gbyte: 0xA7, gword: 0xA5A5A5A55A5A5A5B, giface: []uint16{7}, gbytes: garbageBytes}
	if op.Kind == KField {
		if op.Write {
			s.D = sym.Uint64("data" + tag)
		}
		return s
	}
	if !op.Write || op.Kind == KBit {
		return s
	}
	d := "data" + tag
	switch op.Bits {
	case 8:
		s.U8 = sym.Bytes(d, n, n)
	case 16:
		if op.Sort == 'I' {
			s.I16 = sym.I16(d, n, n)
		} else {
			s.U16 = sym.U16(d, n, n)
		}
	case 32:
		switch op.Sort {
		case 'I':
			s.I32 = sym.I32(d, n, n)
		case 'F':
			s.F32 = sym.F32(d, n, n)
		default:
			s.U32 = sym.U32(d, n, n)
		}
	case 64:
		switch op.Sort {
		case 'I':
			s.I64 = sym.I64(d, n, n)
		case 'F':
			s.F64 = sym.F64(d, n, n)
		default:
			s.U64 = sym.U64(d, n, n)
		}
	}
	return s
}

// again is the same operands with out variables of their own.
func (s *Src) again(tag string) *Src {
	t := *s
	t.tag = tag
	return &t
}

// clone copies the source slices.
func (op *Op) clone(s *Src) *Src {
	t := *s
	switch {
	case !op.Write || op.bits():
	case op.Bits == 8:
		t.U8 = sym.Snapshot(s.U8)
	case op.Bits == 16 && op.Sort == 'I':
		t.I16 = sym.SnapI16(s.I16)
	case op.Bits == 16:
		t.U16 = sym.SnapU16(s.U16)
	case op.Bits == 32 && op.Sort == 'I':
		t.I32 = sym.SnapI32(s.I32)
	case op.Bits == 32 && op.Sort == 'F':
		t.F32 = sym.SnapF32(s.F32)
	case op.Bits == 32:
		t.U32 = sym.SnapU32(s.U32)
	case op.Bits == 64 && op.Sort == 'I':
		t.I64 = sym.SnapI64(s.I64)
	case op.Bits == 64 && op.Sort == 'F':
		t.F64 = sym.SnapF64(s.F64)
	case op.Bits == 64:
		t.U64 = sym.SnapU64(s.U64)
	}
	return &t
}

// elem is the bit pattern of source element k.
func (op *Op) elem(s *Src, k int64) uint64 {
	switch op.Bits {
	case 8:
		return uint64(s.U8[k])
	case 16:
		if op.Sort == 'I' {
			return uint64(uint16(s.I16[k]))
		}
		return uint64(s.U16[k])
	case 32:
		switch op.Sort {
		case 'I':
			return uint64(uint32(s.I32[k]))
		case 'F':
			return uint64(sym.B32(s.F32[k]))
		}
		return uint64(s.U32[k])
	}
	switch op.Sort {
	case 'I':
		return uint64(s.I64[k])
	case 'F':
		return sym.B64(s.F64[k])
	}
	return s.U64[k]
}

// outElem is element k of the caller's out slice (v2, v3 MiniBuffer).
func (op *Op) outElem(s *Src, k int64) uint64 {
	switch op.Bits {
	case 16:
		if op.Sort == 'I' {
			return uint64(uint16(s.oI16[k]))
		}
		return uint64(s.oU16[k])
	case 32:
		switch op.Sort {
		case 'I':
			return uint64(uint32(s.oI32[k]))
		case 'F':
			return uint64(sym.B32(s.oF32[k]))
		}
		return uint64(s.oU32[k])
	}
	switch op.Sort {
	case 'I':
		return uint64(s.oI64[k])
	case 'F':
		return sym.B64(s.oF64[k])
	}
	return s.oU64[k]
}

// run performs op at off, or at the cursor.
func (op *Op) run(next bool, o any, off, n int64, s *Src) Res {
	if next {
		return op.Next(o, n, s)
	}
	return op.Do(o, off, n, s)
}

// try is run with panics caught.
func (op *Op) try(next bool, o any, off, n int64, s *Src) (r Res, pv any, panicked bool) {
	pv, panicked = sym.Try(func() { r = op.run(next, o, off, n, s) })
	return
}

// State is a buffer in an arbitrary state: any contents, any length, any
// spare capacity behind it, any cursors.
type State struct {
	v   *Ver
	o   any
	n   int64 // length
	raw []byte
}

func state(v *Ver) *State { return stateN(v, sym.Len("len")) }

func stateN(v *Ver, n int) *State {
	c := sym.Len("cap")
	sym.Assume(c >= n)
	b := sym.Bytes("buf", n, c)
	st := &State{v: v, o: v.New(b), n: int64(n), raw: b}
	v.Seek(st.o, sym.Int64("cur"), false)
	v.SeekBit(st.o, sym.Int64("bcur"), false)
	return st
}

// twin is a second buffer in the same state with memory of its own.
func (st *State) twin(v *Ver) *State {
	b := sym.Snapshot(st.v.Bytes(st.o))
	t := &State{v: v, o: v.New(b), n: st.n, raw: b}
	v.Seek(t.o, st.v.Off(st.o), false)
	v.SeekBit(t.o, st.v.BitOff(st.o), false)
	return t
}

// Snap is everything observable about a buffer.
type Snap struct {
	b                    []byte
	cap, bcap, off, boff int64
}

func (st *State) snap() Snap {
	v, o := st.v, st.o
	return Snap{sym.Snapshot(v.Bytes(o)), v.Cap(o), v.BitCap(o), v.Off(o), v.BitOff(o)}
}

// shape: lengths, capacities and cursors are as in s
func (st *State) shape(s Snap, tag string) {
	v, o := st.v, st.o
	sym.Assert(len(v.Bytes(o)) == len(s.b), tag+": length changed")
	sym.Assert(v.Cap(o) == s.cap, tag+": capacity changed")
	sym.Assert(v.BitCap(o) == s.bcap, tag+": bit capacity changed")
	sym.Assert(v.Off(o) == s.off, tag+": byte cursor wrong")
	sym.Assert(v.BitOff(o) == s.boff, tag+": bit cursor wrong")
}

// same: shape and every byte are as in s
func (st *State) same(s Snap, tag string) {
	st.shape(s, tag)
	b := st.v.Bytes(st.o)
	j := sym.Len("j")
	if j < len(s.b) && j < len(b) {
		sym.Assert(b[j] == s.b[j], tag+": contents changed")
		sym.Observe("byte", uint64(b[j]))
	}
	sym.Observe("cap", uint64(st.v.Cap(st.o)))
	sym.Observe("off", uint64(st.v.Off(st.o)))
	sym.Observe("boff", uint64(st.v.BitOff(st.o)))
}

// count is an arbitrary number of elements up to the tier's bound, or
// one of a few larger ones.
func count(quick, thorough int, large ...int) (n int) {
	b := quick
	if sym.Tier() == 1 {
		b = thorough
	}
	k := sym.Choose("count", 4+len(large)+1)
	switch {
	case k < 4:
		return k
	case k > 4:
		return large[k-5]
	}
	n = int(sym.UintN("m", 6))
	sym.Assume(n > 3 && n <= b)
	return n
}

// byteOf is byte r of a w-byte element x in the op's byte order.
func (op *Op) byteOf(x uint64, r int64) byte {
	w := int64(op.Bits) / 8
	if op.BE {
		return byte(x >> uint(8*(w-1-r)))
	}
	return byte(x >> uint(8*r))
}

// decode assembles the element stored at b[p:] in the op's byte order.
func (op *Op) decode(b []byte, p int64) (x uint64) {
	w := int64(op.Bits) / 8
	for r := int64(0); r < w; r++ {
		y := uint64(b[p+r])
		if op.BE {
			x |= y << uint(8*(w-1-r))
		} else {
			x |= y << uint(8*r)
		}
	}
	return
}
