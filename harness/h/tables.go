// Code generated by tools/mktables.py. DO NOT EDIT.

package h

import (
	"encoding/binary"

	v1 "github.com/superwhiskers/crunch/v1"
	v2 "github.com/superwhiskers/crunch/v2"
	v3 "github.com/superwhiskers/crunch/v3"
)

var v1Buf = &Ver{
	Name: "v1/Buffer", V: 1, Mini: false,
	New:       func(s ...[]byte) any { return v1.NewBuffer(s...) },
	Bytes:     func(o any) []byte { return o.(*v1.Buffer).Bytes() },
	Cap:       func(o any) int64 { return o.(*v1.Buffer).Capacity() },
	BitCap:    func(o any) int64 { return o.(*v1.Buffer).BitCapacity() },
	Off:       func(o any) int64 { return o.(*v1.Buffer).Offset() },
	BitOff:    func(o any) int64 { return o.(*v1.Buffer).BitOffset() },
	After0:    func(o any) int64 { return o.(*v1.Buffer).After() },
	AfterBit0: func(o any) int64 { return o.(*v1.Buffer).AfterBit() },
	After1:    func(o any, x int64) int64 { return o.(*v1.Buffer).After(x) },
	AfterBit1: func(o any, x int64) int64 { return o.(*v1.Buffer).AfterBit(x) },
	Seek:      func(o any, x int64, r bool) { o.(*v1.Buffer).Seek(x, r) },
	SeekBit:   func(o any, x int64, r bool) { o.(*v1.Buffer).SeekBit(x, r) },
	AlignBit:  func(o any) { o.(*v1.Buffer).AlignBit() },
	AlignByte: func(o any) { o.(*v1.Buffer).AlignByte() },
	Refresh:   func(o any) { o.(*v1.Buffer).Refresh() },
	ClearAll:  func(o any) { o.(*v1.Buffer).ClearAllBits() },
	SetAll:    func(o any) { o.(*v1.Buffer).SetAllBits() },
	FlipAll:   func(o any) { o.(*v1.Buffer).FlipAllBits() },
	Grow:      func(o any, n int64) { o.(*v1.Buffer).Grow(n) },
	Lock:      func(o any) { o.(*v1.Buffer).Lock() },
	Unlock:    func(o any) { o.(*v1.Buffer).Unlock() },
	ErrOR:     func() any { return v1.BufferOverreadError },
	ErrUR:     func() any { return v1.BufferUnderreadError },
	ErrOW:     func() any { return v1.BufferOverwriteError },
	ErrUW:     func() any { return v1.BufferUnderwriteError },
	ErrBit:    func() any { return v1.BufferInvalidBitError },
	ErrSize:   func() any { return v1.BufferInvalidIntegerSizeError },
	Ops: []*Op{
		{Name: "ReadByte", Kind: KByte, W: 1, Bits: 8, One: true,
			Do:   func(o any, off, n int64, s *Src) Res { return one(uint64(o.(*v1.Buffer).ReadByte(off))) },
			Next: func(o any, n int64, s *Src) Res { return one(uint64(o.(*v1.Buffer).ReadByteNext())) }},
		{Name: "WriteByte", Kind: KByte, W: 1, Bits: 8, One: true, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v1.Buffer).WriteByte(off, s.U8[0]); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v1.Buffer).WriteByteNext(s.U8[0]); return none }},
		{Name: "ReadBytes", Kind: KByte, W: 1, Bits: 8,
			Do:   func(o any, off, n int64, s *Src) Res { return res8(o.(*v1.Buffer).ReadBytes(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res8(o.(*v1.Buffer).ReadBytesNext(n)) }},
		{Name: "WriteBytes", Kind: KByte, W: 1, Bits: 8, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v1.Buffer).WriteBytes(off, s.U8); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v1.Buffer).WriteBytesNext(s.U8); return none }},
		{Name: "ReadComplex8LE", Kind: KInt, W: 1, Bits: 8,
			Do: func(o any, off, n int64, s *Src) Res {
				return res8(o.(*v1.Buffer).ReadComplex(off, n, v1.Unsigned8, binary.LittleEndian).([]byte))
			},
			Next: func(o any, n int64, s *Src) Res {
				return res8(o.(*v1.Buffer).ReadComplexNext(n, v1.Unsigned8, binary.LittleEndian).([]byte))
			}},
		{Name: "WriteComplex8LE", Kind: KInt, W: 1, Bits: 8, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplex(off, s.U8, v1.Unsigned8, binary.LittleEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplexNext(s.U8, v1.Unsigned8, binary.LittleEndian)
				return none
			}},
		{Name: "ReadComplex8BE", Kind: KInt, W: 1, Bits: 8, BE: true,
			Do: func(o any, off, n int64, s *Src) Res {
				return res8(o.(*v1.Buffer).ReadComplex(off, n, v1.Unsigned8, binary.BigEndian).([]byte))
			},
			Next: func(o any, n int64, s *Src) Res {
				return res8(o.(*v1.Buffer).ReadComplexNext(n, v1.Unsigned8, binary.BigEndian).([]byte))
			}},
		{Name: "WriteComplex8BE", Kind: KInt, W: 1, Bits: 8, BE: true, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplex(off, s.U8, v1.Unsigned8, binary.BigEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplexNext(s.U8, v1.Unsigned8, binary.BigEndian)
				return none
			}},
		{Name: "ReadComplex16LE", Kind: KInt, W: 2, Bits: 16,
			Do: func(o any, off, n int64, s *Src) Res {
				return res16(o.(*v1.Buffer).ReadComplex(off, n, v1.Unsigned16, binary.LittleEndian).([]uint16))
			},
			Next: func(o any, n int64, s *Src) Res {
				return res16(o.(*v1.Buffer).ReadComplexNext(n, v1.Unsigned16, binary.LittleEndian).([]uint16))
			}},
		{Name: "WriteComplex16LE", Kind: KInt, W: 2, Bits: 16, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplex(off, s.U16, v1.Unsigned16, binary.LittleEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplexNext(s.U16, v1.Unsigned16, binary.LittleEndian)
				return none
			}},
		{Name: "ReadComplex16BE", Kind: KInt, W: 2, Bits: 16, BE: true,
			Do: func(o any, off, n int64, s *Src) Res {
				return res16(o.(*v1.Buffer).ReadComplex(off, n, v1.Unsigned16, binary.BigEndian).([]uint16))
			},
			Next: func(o any, n int64, s *Src) Res {
				return res16(o.(*v1.Buffer).ReadComplexNext(n, v1.Unsigned16, binary.BigEndian).([]uint16))
			}},
		{Name: "WriteComplex16BE", Kind: KInt, W: 2, Bits: 16, BE: true, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplex(off, s.U16, v1.Unsigned16, binary.BigEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplexNext(s.U16, v1.Unsigned16, binary.BigEndian)
				return none
			}},
		{Name: "ReadComplex32LE", Kind: KInt, W: 4, Bits: 32,
			Do: func(o any, off, n int64, s *Src) Res {
				return res32(o.(*v1.Buffer).ReadComplex(off, n, v1.Unsigned32, binary.LittleEndian).([]uint32))
			},
			Next: func(o any, n int64, s *Src) Res {
				return res32(o.(*v1.Buffer).ReadComplexNext(n, v1.Unsigned32, binary.LittleEndian).([]uint32))
			}},
		{Name: "WriteComplex32LE", Kind: KInt, W: 4, Bits: 32, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplex(off, s.U32, v1.Unsigned32, binary.LittleEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplexNext(s.U32, v1.Unsigned32, binary.LittleEndian)
				return none
			}},
		{Name: "ReadComplex32BE", Kind: KInt, W: 4, Bits: 32, BE: true,
			Do: func(o any, off, n int64, s *Src) Res {
				return res32(o.(*v1.Buffer).ReadComplex(off, n, v1.Unsigned32, binary.BigEndian).([]uint32))
			},
			Next: func(o any, n int64, s *Src) Res {
				return res32(o.(*v1.Buffer).ReadComplexNext(n, v1.Unsigned32, binary.BigEndian).([]uint32))
			}},
		{Name: "WriteComplex32BE", Kind: KInt, W: 4, Bits: 32, BE: true, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplex(off, s.U32, v1.Unsigned32, binary.BigEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplexNext(s.U32, v1.Unsigned32, binary.BigEndian)
				return none
			}},
		{Name: "ReadComplex64LE", Kind: KInt, W: 8, Bits: 64,
			Do: func(o any, off, n int64, s *Src) Res {
				return res64(o.(*v1.Buffer).ReadComplex(off, n, v1.Unsigned64, binary.LittleEndian).([]uint64))
			},
			Next: func(o any, n int64, s *Src) Res {
				return res64(o.(*v1.Buffer).ReadComplexNext(n, v1.Unsigned64, binary.LittleEndian).([]uint64))
			}},
		{Name: "WriteComplex64LE", Kind: KInt, W: 8, Bits: 64, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplex(off, s.U64, v1.Unsigned64, binary.LittleEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplexNext(s.U64, v1.Unsigned64, binary.LittleEndian)
				return none
			}},
		{Name: "ReadComplex64BE", Kind: KInt, W: 8, Bits: 64, BE: true,
			Do: func(o any, off, n int64, s *Src) Res {
				return res64(o.(*v1.Buffer).ReadComplex(off, n, v1.Unsigned64, binary.BigEndian).([]uint64))
			},
			Next: func(o any, n int64, s *Src) Res {
				return res64(o.(*v1.Buffer).ReadComplexNext(n, v1.Unsigned64, binary.BigEndian).([]uint64))
			}},
		{Name: "WriteComplex64BE", Kind: KInt, W: 8, Bits: 64, BE: true, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplex(off, s.U64, v1.Unsigned64, binary.BigEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.Buffer).WriteComplexNext(s.U64, v1.Unsigned64, binary.BigEndian)
				return none
			}},
		{Name: "ReadBit", Kind: KBit, W: 1, Bits: 1, One: true,
			Do:   func(o any, off, n int64, s *Src) Res { return one(uint64(o.(*v1.Buffer).ReadBit(off))) },
			Next: func(o any, n int64, s *Src) Res { return one(uint64(o.(*v1.Buffer).ReadBitNext())) }},
		{Name: "ReadBits", Kind: KField, W: 1, Bits: 64,
			Do:   func(o any, off, n int64, s *Src) Res { return one(o.(*v1.Buffer).ReadBits(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return one(o.(*v1.Buffer).ReadBitsNext(n)) }},
		{Name: "SetBits", Kind: KField, W: 1, Bits: 64, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v1.Buffer).SetBits(off, s.D, n); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v1.Buffer).SetBitsNext(s.D, n); return none }},
		{Name: "SetBit1", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitSet,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v1.Buffer).SetBit(off, 1); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v1.Buffer).SetBitNext(1); return none }},
		{Name: "SetBit0", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitClear,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v1.Buffer).SetBit(off, 0); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v1.Buffer).SetBitNext(0); return none }},
		{Name: "FlipBit", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitFlip,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v1.Buffer).FlipBit(off); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v1.Buffer).FlipBitNext(); return none }},
	},
}

var v1Mini = &Ver{
	Name: "v1/MiniBuffer", V: 1, Mini: true,
	New:       func(s ...[]byte) any { var b *v1.MiniBuffer; v1.NewMiniBuffer(&b, s...); return b },
	Bytes:     func(o any) []byte { out := garbageBytes; o.(*v1.MiniBuffer).Bytes(&out); return out },
	Cap:       func(o any) int64 { out := garbageInt; o.(*v1.MiniBuffer).Capacity(&out); return out },
	BitCap:    func(o any) int64 { out := garbageInt; o.(*v1.MiniBuffer).BitCapacity(&out); return out },
	Off:       func(o any) int64 { out := garbageInt; o.(*v1.MiniBuffer).Offset(&out); return out },
	BitOff:    func(o any) int64 { out := garbageInt; o.(*v1.MiniBuffer).BitOffset(&out); return out },
	After0:    func(o any) int64 { out := garbageInt; o.(*v1.MiniBuffer).After(&out); return out },
	AfterBit0: func(o any) int64 { out := garbageInt; o.(*v1.MiniBuffer).AfterBit(&out); return out },
	After1:    func(o any, x int64) int64 { out := garbageInt; o.(*v1.MiniBuffer).After(&out, x); return out },
	AfterBit1: func(o any, x int64) int64 { out := garbageInt; o.(*v1.MiniBuffer).AfterBit(&out, x); return out },
	Seek:      func(o any, x int64, r bool) { o.(*v1.MiniBuffer).Seek(x, r) },
	SeekBit:   func(o any, x int64, r bool) { o.(*v1.MiniBuffer).SeekBit(x, r) },
	AlignBit:  func(o any) { o.(*v1.MiniBuffer).AlignBit() },
	AlignByte: func(o any) { o.(*v1.MiniBuffer).AlignByte() },
	Refresh:   func(o any) { o.(*v1.MiniBuffer).Refresh() },
	ClearAll:  func(o any) { o.(*v1.MiniBuffer).ClearAllBits() },
	SetAll:    func(o any) { o.(*v1.MiniBuffer).SetAllBits() },
	FlipAll:   func(o any) { o.(*v1.MiniBuffer).FlipAllBits() },
	Grow:      func(o any, n int64) { o.(*v1.MiniBuffer).Grow(n) },
	Lock:      func(o any) { o.(*v1.MiniBuffer).Lock() },
	Unlock:    func(o any) { o.(*v1.MiniBuffer).Unlock() },
	ErrOR:     func() any { return v1.BufferOverreadError },
	ErrUR:     func() any { return v1.BufferUnderreadError },
	ErrOW:     func() any { return v1.BufferOverwriteError },
	ErrUW:     func() any { return v1.BufferUnderwriteError },
	ErrBit:    func() any { return v1.BufferInvalidBitError },
	ErrSize:   func() any { return v1.BufferInvalidIntegerSizeError },
	Ops: []*Op{
		{Name: "ReadBytes", Kind: KByte, W: 1, Bits: 8,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.g8()
				o.(*v1.MiniBuffer).ReadBytes(&out, off, n)
				return res8(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.g8()
				o.(*v1.MiniBuffer).ReadBytesNext(&out, n)
				return res8(out)
			}},
		{Name: "WriteBytes", Kind: KByte, W: 1, Bits: 8, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v1.MiniBuffer).WriteBytes(off, s.U8); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v1.MiniBuffer).WriteBytesNext(s.U8); return none }},
		{Name: "ReadComplex8LE", Kind: KInt, W: 1, Bits: 8,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplex(&out, off, n, v1.Unsigned8, binary.LittleEndian)
				return res8(out.([]byte))
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplexNext(&out, n, v1.Unsigned8, binary.LittleEndian)
				return res8(out.([]byte))
			}},
		{Name: "WriteComplex8LE", Kind: KInt, W: 1, Bits: 8, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplex(off, s.U8, v1.Unsigned8, binary.LittleEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplexNext(s.U8, v1.Unsigned8, binary.LittleEndian)
				return none
			}},
		{Name: "ReadComplex8BE", Kind: KInt, W: 1, Bits: 8, BE: true,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplex(&out, off, n, v1.Unsigned8, binary.BigEndian)
				return res8(out.([]byte))
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplexNext(&out, n, v1.Unsigned8, binary.BigEndian)
				return res8(out.([]byte))
			}},
		{Name: "WriteComplex8BE", Kind: KInt, W: 1, Bits: 8, BE: true, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplex(off, s.U8, v1.Unsigned8, binary.BigEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplexNext(s.U8, v1.Unsigned8, binary.BigEndian)
				return none
			}},
		{Name: "ReadComplex16LE", Kind: KInt, W: 2, Bits: 16,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplex(&out, off, n, v1.Unsigned16, binary.LittleEndian)
				return res16(out.([]uint16))
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplexNext(&out, n, v1.Unsigned16, binary.LittleEndian)
				return res16(out.([]uint16))
			}},
		{Name: "WriteComplex16LE", Kind: KInt, W: 2, Bits: 16, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplex(off, s.U16, v1.Unsigned16, binary.LittleEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplexNext(s.U16, v1.Unsigned16, binary.LittleEndian)
				return none
			}},
		{Name: "ReadComplex16BE", Kind: KInt, W: 2, Bits: 16, BE: true,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplex(&out, off, n, v1.Unsigned16, binary.BigEndian)
				return res16(out.([]uint16))
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplexNext(&out, n, v1.Unsigned16, binary.BigEndian)
				return res16(out.([]uint16))
			}},
		{Name: "WriteComplex16BE", Kind: KInt, W: 2, Bits: 16, BE: true, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplex(off, s.U16, v1.Unsigned16, binary.BigEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplexNext(s.U16, v1.Unsigned16, binary.BigEndian)
				return none
			}},
		{Name: "ReadComplex32LE", Kind: KInt, W: 4, Bits: 32,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplex(&out, off, n, v1.Unsigned32, binary.LittleEndian)
				return res32(out.([]uint32))
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplexNext(&out, n, v1.Unsigned32, binary.LittleEndian)
				return res32(out.([]uint32))
			}},
		{Name: "WriteComplex32LE", Kind: KInt, W: 4, Bits: 32, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplex(off, s.U32, v1.Unsigned32, binary.LittleEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplexNext(s.U32, v1.Unsigned32, binary.LittleEndian)
				return none
			}},
		{Name: "ReadComplex32BE", Kind: KInt, W: 4, Bits: 32, BE: true,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplex(&out, off, n, v1.Unsigned32, binary.BigEndian)
				return res32(out.([]uint32))
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplexNext(&out, n, v1.Unsigned32, binary.BigEndian)
				return res32(out.([]uint32))
			}},
		{Name: "WriteComplex32BE", Kind: KInt, W: 4, Bits: 32, BE: true, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplex(off, s.U32, v1.Unsigned32, binary.BigEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplexNext(s.U32, v1.Unsigned32, binary.BigEndian)
				return none
			}},
		{Name: "ReadComplex64LE", Kind: KInt, W: 8, Bits: 64,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplex(&out, off, n, v1.Unsigned64, binary.LittleEndian)
				return res64(out.([]uint64))
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplexNext(&out, n, v1.Unsigned64, binary.LittleEndian)
				return res64(out.([]uint64))
			}},
		{Name: "WriteComplex64LE", Kind: KInt, W: 8, Bits: 64, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplex(off, s.U64, v1.Unsigned64, binary.LittleEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplexNext(s.U64, v1.Unsigned64, binary.LittleEndian)
				return none
			}},
		{Name: "ReadComplex64BE", Kind: KInt, W: 8, Bits: 64, BE: true,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplex(&out, off, n, v1.Unsigned64, binary.BigEndian)
				return res64(out.([]uint64))
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.gi()
				o.(*v1.MiniBuffer).ReadComplexNext(&out, n, v1.Unsigned64, binary.BigEndian)
				return res64(out.([]uint64))
			}},
		{Name: "WriteComplex64BE", Kind: KInt, W: 8, Bits: 64, BE: true, Write: true,
			Do: func(o any, off, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplex(off, s.U64, v1.Unsigned64, binary.BigEndian)
				return none
			},
			Next: func(o any, n int64, s *Src) Res {
				o.(*v1.MiniBuffer).WriteComplexNext(s.U64, v1.Unsigned64, binary.BigEndian)
				return none
			}},
		{Name: "ReadBit", Kind: KBit, W: 1, Bits: 1, One: true,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.gb()
				o.(*v1.MiniBuffer).ReadBit(&out, off)
				return one(uint64(out))
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.gb()
				o.(*v1.MiniBuffer).ReadBitNext(&out)
				return one(uint64(out))
			}},
		{Name: "ReadBits", Kind: KField, W: 1, Bits: 64,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.gu()
				o.(*v1.MiniBuffer).ReadBits(&out, off, n)
				return one(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.gu()
				o.(*v1.MiniBuffer).ReadBitsNext(&out, n)
				return one(out)
			}},
		{Name: "SetBits", Kind: KField, W: 1, Bits: 64, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v1.MiniBuffer).SetBits(off, s.D, n); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v1.MiniBuffer).SetBitsNext(s.D, n); return none }},
		{Name: "SetBit1", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitSet,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v1.MiniBuffer).SetBit(off, 1); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v1.MiniBuffer).SetBitNext(1); return none }},
		{Name: "SetBit0", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitClear,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v1.MiniBuffer).SetBit(off, 0); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v1.MiniBuffer).SetBitNext(0); return none }},
		{Name: "FlipBit", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitFlip,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v1.MiniBuffer).FlipBit(off); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v1.MiniBuffer).FlipBitNext(); return none }},
	},
}

var v2Buf = &Ver{
	Name: "v2/Buffer", V: 2, Mini: false,
	New:       func(s ...[]byte) any { return v2.NewBuffer(s...) },
	Bytes:     func(o any) []byte { return o.(*v2.Buffer).Bytes() },
	Cap:       func(o any) int64 { return o.(*v2.Buffer).Capacity() },
	BitCap:    func(o any) int64 { return o.(*v2.Buffer).BitCapacity() },
	Off:       func(o any) int64 { return o.(*v2.Buffer).Offset() },
	BitOff:    func(o any) int64 { return o.(*v2.Buffer).BitOffset() },
	After0:    func(o any) int64 { return o.(*v2.Buffer).After() },
	AfterBit0: func(o any) int64 { return o.(*v2.Buffer).AfterBit() },
	After1:    func(o any, x int64) int64 { return o.(*v2.Buffer).After(x) },
	AfterBit1: func(o any, x int64) int64 { return o.(*v2.Buffer).AfterBit(x) },
	Seek:      func(o any, x int64, r bool) { o.(*v2.Buffer).Seek(x, r) },
	SeekBit:   func(o any, x int64, r bool) { o.(*v2.Buffer).SeekBit(x, r) },
	AlignBit:  func(o any) { o.(*v2.Buffer).AlignBit() },
	AlignByte: func(o any) { o.(*v2.Buffer).AlignByte() },
	Refresh:   func(o any) { o.(*v2.Buffer).Refresh() },
	ClearAll:  func(o any) { o.(*v2.Buffer).ClearAllBits() },
	SetAll:    func(o any) { o.(*v2.Buffer).SetAllBits() },
	FlipAll:   func(o any) { o.(*v2.Buffer).FlipAllBits() },
	Reset:     func(o any) { o.(*v2.Buffer).Reset() },
	Grow:      func(o any, n int64) { o.(*v2.Buffer).Grow(n) },
	Lock:      func(o any) { o.(*v2.Buffer).Lock() },
	Unlock:    func(o any) { o.(*v2.Buffer).Unlock() },
	ErrOR:     func() any { return v2.BufferOverreadError },
	ErrUR:     func() any { return v2.BufferUnderreadError },
	ErrOW:     func() any { return v2.BufferOverwriteError },
	ErrUW:     func() any { return v2.BufferUnderwriteError },
	ErrBit:    func() any { return v2.BufferInvalidBitError },
	Ops: []*Op{
		{Name: "ReadByte", Kind: KByte, W: 1, Bits: 8, One: true,
			Do:   func(o any, off, n int64, s *Src) Res { return one(uint64(o.(*v2.Buffer).ReadByte(off))) },
			Next: func(o any, n int64, s *Src) Res { return one(uint64(o.(*v2.Buffer).ReadByteNext())) }},
		{Name: "WriteByte", Kind: KByte, W: 1, Bits: 8, One: true, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.Buffer).WriteByte(off, s.U8[0]); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.Buffer).WriteByteNext(s.U8[0]); return none }},
		{Name: "ReadBytes", Kind: KByte, W: 1, Bits: 8,
			Do:   func(o any, off, n int64, s *Src) Res { return res8(o.(*v2.Buffer).ReadBytes(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res8(o.(*v2.Buffer).ReadBytesNext(n)) }},
		{Name: "WriteBytes", Kind: KByte, W: 1, Bits: 8, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.Buffer).WriteBytes(off, s.U8); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.Buffer).WriteBytesNext(s.U8); return none }},
		{Name: "ReadU16LE", Kind: KInt, W: 2, Bits: 16, Sort: 'U',
			Do:   func(o any, off, n int64, s *Src) Res { return res16(o.(*v2.Buffer).ReadU16LE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res16(o.(*v2.Buffer).ReadU16LENext(n)) }},
		{Name: "WriteU16LE", Kind: KInt, W: 2, Bits: 16, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.Buffer).WriteU16LE(off, s.U16); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.Buffer).WriteU16LENext(s.U16); return none }},
		{Name: "ReadU16BE", Kind: KInt, W: 2, Bits: 16, BE: true, Sort: 'U',
			Do:   func(o any, off, n int64, s *Src) Res { return res16(o.(*v2.Buffer).ReadU16BE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res16(o.(*v2.Buffer).ReadU16BENext(n)) }},
		{Name: "WriteU16BE", Kind: KInt, W: 2, Bits: 16, BE: true, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.Buffer).WriteU16BE(off, s.U16); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.Buffer).WriteU16BENext(s.U16); return none }},
		{Name: "ReadU32LE", Kind: KInt, W: 4, Bits: 32, Sort: 'U',
			Do:   func(o any, off, n int64, s *Src) Res { return res32(o.(*v2.Buffer).ReadU32LE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res32(o.(*v2.Buffer).ReadU32LENext(n)) }},
		{Name: "WriteU32LE", Kind: KInt, W: 4, Bits: 32, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.Buffer).WriteU32LE(off, s.U32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.Buffer).WriteU32LENext(s.U32); return none }},
		{Name: "ReadU32BE", Kind: KInt, W: 4, Bits: 32, BE: true, Sort: 'U',
			Do:   func(o any, off, n int64, s *Src) Res { return res32(o.(*v2.Buffer).ReadU32BE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res32(o.(*v2.Buffer).ReadU32BENext(n)) }},
		{Name: "WriteU32BE", Kind: KInt, W: 4, Bits: 32, BE: true, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.Buffer).WriteU32BE(off, s.U32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.Buffer).WriteU32BENext(s.U32); return none }},
		{Name: "ReadU64LE", Kind: KInt, W: 8, Bits: 64, Sort: 'U',
			Do:   func(o any, off, n int64, s *Src) Res { return res64(o.(*v2.Buffer).ReadU64LE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res64(o.(*v2.Buffer).ReadU64LENext(n)) }},
		{Name: "WriteU64LE", Kind: KInt, W: 8, Bits: 64, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.Buffer).WriteU64LE(off, s.U64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.Buffer).WriteU64LENext(s.U64); return none }},
		{Name: "ReadU64BE", Kind: KInt, W: 8, Bits: 64, BE: true, Sort: 'U',
			Do:   func(o any, off, n int64, s *Src) Res { return res64(o.(*v2.Buffer).ReadU64BE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res64(o.(*v2.Buffer).ReadU64BENext(n)) }},
		{Name: "WriteU64BE", Kind: KInt, W: 8, Bits: 64, BE: true, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.Buffer).WriteU64BE(off, s.U64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.Buffer).WriteU64BENext(s.U64); return none }},
		{Name: "ReadBit", Kind: KBit, W: 1, Bits: 1, One: true,
			Do:   func(o any, off, n int64, s *Src) Res { return one(uint64(o.(*v2.Buffer).ReadBit(off))) },
			Next: func(o any, n int64, s *Src) Res { return one(uint64(o.(*v2.Buffer).ReadBitNext())) }},
		{Name: "ReadBits", Kind: KField, W: 1, Bits: 64,
			Do:   func(o any, off, n int64, s *Src) Res { return one(o.(*v2.Buffer).ReadBits(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return one(o.(*v2.Buffer).ReadBitsNext(n)) }},
		{Name: "SetBits", Kind: KField, W: 1, Bits: 64, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.Buffer).SetBits(off, s.D, n); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.Buffer).SetBitsNext(s.D, n); return none }},
		{Name: "SetBit1", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitSet,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.Buffer).SetBit(off, 1); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.Buffer).SetBitNext(1); return none }},
		{Name: "SetBit0", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitClear,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.Buffer).SetBit(off, 0); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.Buffer).SetBitNext(0); return none }},
		{Name: "FlipBit", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitFlip,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.Buffer).FlipBit(off); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.Buffer).FlipBitNext(); return none }},
	},
}

var v2Mini = &Ver{
	Name: "v2/MiniBuffer", V: 2, Mini: true,
	New:       func(s ...[]byte) any { var b *v2.MiniBuffer; v2.NewMiniBuffer(&b, s...); return b },
	Bytes:     func(o any) []byte { out := garbageBytes; o.(*v2.MiniBuffer).Bytes(&out); return out },
	Cap:       func(o any) int64 { out := garbageInt; o.(*v2.MiniBuffer).Capacity(&out); return out },
	BitCap:    func(o any) int64 { out := garbageInt; o.(*v2.MiniBuffer).BitCapacity(&out); return out },
	Off:       func(o any) int64 { out := garbageInt; o.(*v2.MiniBuffer).Offset(&out); return out },
	BitOff:    func(o any) int64 { out := garbageInt; o.(*v2.MiniBuffer).BitOffset(&out); return out },
	After0:    func(o any) int64 { out := garbageInt; o.(*v2.MiniBuffer).After(&out); return out },
	AfterBit0: func(o any) int64 { out := garbageInt; o.(*v2.MiniBuffer).AfterBit(&out); return out },
	After1:    func(o any, x int64) int64 { out := garbageInt; o.(*v2.MiniBuffer).After(&out, x); return out },
	AfterBit1: func(o any, x int64) int64 { out := garbageInt; o.(*v2.MiniBuffer).AfterBit(&out, x); return out },
	Seek:      func(o any, x int64, r bool) { o.(*v2.MiniBuffer).Seek(x, r) },
	SeekBit:   func(o any, x int64, r bool) { o.(*v2.MiniBuffer).SeekBit(x, r) },
	AlignBit:  func(o any) { o.(*v2.MiniBuffer).AlignBit() },
	AlignByte: func(o any) { o.(*v2.MiniBuffer).AlignByte() },
	Refresh:   func(o any) { o.(*v2.MiniBuffer).Refresh() },
	ClearAll:  func(o any) { o.(*v2.MiniBuffer).ClearAllBits() },
	SetAll:    func(o any) { o.(*v2.MiniBuffer).SetAllBits() },
	FlipAll:   func(o any) { o.(*v2.MiniBuffer).FlipAllBits() },
	Reset:     func(o any) { o.(*v2.MiniBuffer).Reset() },
	Grow:      func(o any, n int64) { o.(*v2.MiniBuffer).Grow(n) },
	Lock:      func(o any) { o.(*v2.MiniBuffer).Lock() },
	Unlock:    func(o any) { o.(*v2.MiniBuffer).Unlock() },
	ErrOR:     func() any { return v2.BufferOverreadError },
	ErrUR:     func() any { return v2.BufferUnderreadError },
	ErrOW:     func() any { return v2.BufferOverwriteError },
	ErrUW:     func() any { return v2.BufferUnderwriteError },
	ErrBit:    func() any { return v2.BufferInvalidBitError },
	Ops: []*Op{
		{Name: "ReadBytes", Kind: KByte, W: 1, Bits: 8,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.g8()
				o.(*v2.MiniBuffer).ReadBytes(&out, off, n)
				return res8(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.g8()
				o.(*v2.MiniBuffer).ReadBytesNext(&out, n)
				return res8(out)
			}},
		{Name: "WriteBytes", Kind: KByte, W: 1, Bits: 8, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.MiniBuffer).WriteBytes(off, s.U8); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.MiniBuffer).WriteBytesNext(s.U8); return none }},
		{Name: "ReadU16LE", Kind: KInt, W: 2, Bits: 16, Sort: 'U',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outU16()
				o.(*v2.MiniBuffer).ReadU16LE(&out, off, n)
				return res16(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outU16()
				o.(*v2.MiniBuffer).ReadU16LENext(&out, n)
				return res16(out)
			}},
		{Name: "WriteU16LE", Kind: KInt, W: 2, Bits: 16, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.MiniBuffer).WriteU16LE(off, s.U16); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.MiniBuffer).WriteU16LENext(s.U16); return none }},
		{Name: "ReadU16BE", Kind: KInt, W: 2, Bits: 16, BE: true, Sort: 'U',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outU16()
				o.(*v2.MiniBuffer).ReadU16BE(&out, off, n)
				return res16(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outU16()
				o.(*v2.MiniBuffer).ReadU16BENext(&out, n)
				return res16(out)
			}},
		{Name: "WriteU16BE", Kind: KInt, W: 2, Bits: 16, BE: true, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.MiniBuffer).WriteU16BE(off, s.U16); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.MiniBuffer).WriteU16BENext(s.U16); return none }},
		{Name: "ReadU32LE", Kind: KInt, W: 4, Bits: 32, Sort: 'U',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outU32()
				o.(*v2.MiniBuffer).ReadU32LE(&out, off, n)
				return res32(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outU32()
				o.(*v2.MiniBuffer).ReadU32LENext(&out, n)
				return res32(out)
			}},
		{Name: "WriteU32LE", Kind: KInt, W: 4, Bits: 32, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.MiniBuffer).WriteU32LE(off, s.U32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.MiniBuffer).WriteU32LENext(s.U32); return none }},
		{Name: "ReadU32BE", Kind: KInt, W: 4, Bits: 32, BE: true, Sort: 'U',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outU32()
				o.(*v2.MiniBuffer).ReadU32BE(&out, off, n)
				return res32(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outU32()
				o.(*v2.MiniBuffer).ReadU32BENext(&out, n)
				return res32(out)
			}},
		{Name: "WriteU32BE", Kind: KInt, W: 4, Bits: 32, BE: true, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.MiniBuffer).WriteU32BE(off, s.U32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.MiniBuffer).WriteU32BENext(s.U32); return none }},
		{Name: "ReadU64LE", Kind: KInt, W: 8, Bits: 64, Sort: 'U',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outU64()
				o.(*v2.MiniBuffer).ReadU64LE(&out, off, n)
				return res64(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outU64()
				o.(*v2.MiniBuffer).ReadU64LENext(&out, n)
				return res64(out)
			}},
		{Name: "WriteU64LE", Kind: KInt, W: 8, Bits: 64, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.MiniBuffer).WriteU64LE(off, s.U64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.MiniBuffer).WriteU64LENext(s.U64); return none }},
		{Name: "ReadU64BE", Kind: KInt, W: 8, Bits: 64, BE: true, Sort: 'U',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outU64()
				o.(*v2.MiniBuffer).ReadU64BE(&out, off, n)
				return res64(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outU64()
				o.(*v2.MiniBuffer).ReadU64BENext(&out, n)
				return res64(out)
			}},
		{Name: "WriteU64BE", Kind: KInt, W: 8, Bits: 64, BE: true, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.MiniBuffer).WriteU64BE(off, s.U64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.MiniBuffer).WriteU64BENext(s.U64); return none }},
		{Name: "ReadBit", Kind: KBit, W: 1, Bits: 1, One: true,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.gb()
				o.(*v2.MiniBuffer).ReadBit(&out, off)
				return one(uint64(out))
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.gb()
				o.(*v2.MiniBuffer).ReadBitNext(&out)
				return one(uint64(out))
			}},
		{Name: "ReadBits", Kind: KField, W: 1, Bits: 64,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.gu()
				o.(*v2.MiniBuffer).ReadBits(&out, off, n)
				return one(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.gu()
				o.(*v2.MiniBuffer).ReadBitsNext(&out, n)
				return one(out)
			}},
		{Name: "SetBits", Kind: KField, W: 1, Bits: 64, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.MiniBuffer).SetBits(off, s.D, n); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.MiniBuffer).SetBitsNext(s.D, n); return none }},
		{Name: "SetBit1", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitSet,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.MiniBuffer).SetBit(off, 1); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.MiniBuffer).SetBitNext(1); return none }},
		{Name: "SetBit0", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitClear,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.MiniBuffer).SetBit(off, 0); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.MiniBuffer).SetBitNext(0); return none }},
		{Name: "FlipBit", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitFlip,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v2.MiniBuffer).FlipBit(off); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v2.MiniBuffer).FlipBitNext(); return none }},
	},
}

var v3Buf = &Ver{
	Name: "v3/Buffer", V: 3, Mini: false,
	New:       func(s ...[]byte) any { return v3.NewBuffer(s...) },
	Bytes:     func(o any) []byte { return o.(*v3.Buffer).Bytes() },
	Cap:       func(o any) int64 { return o.(*v3.Buffer).ByteCapacity() },
	BitCap:    func(o any) int64 { return o.(*v3.Buffer).BitCapacity() },
	Off:       func(o any) int64 { return o.(*v3.Buffer).ByteOffset() },
	BitOff:    func(o any) int64 { return o.(*v3.Buffer).BitOffset() },
	After0:    func(o any) int64 { return o.(*v3.Buffer).AfterByte() },
	AfterBit0: func(o any) int64 { return o.(*v3.Buffer).AfterBit() },
	After1:    func(o any, x int64) int64 { return o.(*v3.Buffer).AfterByte(x) },
	AfterBit1: func(o any, x int64) int64 { return o.(*v3.Buffer).AfterBit(x) },
	Seek:      func(o any, x int64, r bool) { o.(*v3.Buffer).SeekByte(x, r) },
	SeekBit:   func(o any, x int64, r bool) { o.(*v3.Buffer).SeekBit(x, r) },
	AlignBit:  func(o any) { o.(*v3.Buffer).AlignBit() },
	AlignByte: func(o any) { o.(*v3.Buffer).AlignByte() },
	Refresh:   func(o any) { o.(*v3.Buffer).Refresh() },
	ClearAll:  func(o any) { o.(*v3.Buffer).ClearAllBits() },
	SetAll:    func(o any) { o.(*v3.Buffer).SetAllBits() },
	FlipAll:   func(o any) { o.(*v3.Buffer).FlipAllBits() },
	Reset:     func(o any) { o.(*v3.Buffer).Reset() },
	Grow:      func(o any, n int64) { o.(*v3.Buffer).Grow(n) },
	TruncL:    func(o any, n int64) { o.(*v3.Buffer).TruncateLeft(n) },
	TruncR:    func(o any, n int64) { o.(*v3.Buffer).TruncateRight(n) },
	ErrOR:     func() any { return v3.BufferOverreadError },
	ErrUR:     func() any { return v3.BufferUnderreadError },
	ErrOW:     func() any { return v3.BufferOverwriteError },
	ErrUW:     func() any { return v3.BufferUnderwriteError },
	ErrCount:  func() any { return v3.BufferInvalidByteCountError },
	Ops: []*Op{
		{Name: "ReadByte", Kind: KByte, W: 1, Bits: 8, One: true,
			Do:   func(o any, off, n int64, s *Src) Res { return one(uint64(o.(*v3.Buffer).ReadByte(off))) },
			Next: func(o any, n int64, s *Src) Res { return one(uint64(o.(*v3.Buffer).ReadByteNext())) }},
		{Name: "WriteByte", Kind: KByte, W: 1, Bits: 8, One: true, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteByte(off, s.U8[0]); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteByteNext(s.U8[0]); return none }},
		{Name: "ReadBytes", Kind: KByte, W: 1, Bits: 8,
			Do:   func(o any, off, n int64, s *Src) Res { return res8(o.(*v3.Buffer).ReadBytes(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res8(o.(*v3.Buffer).ReadBytesNext(n)) }},
		{Name: "WriteBytes", Kind: KByte, W: 1, Bits: 8, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteBytes(off, s.U8); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteBytesNext(s.U8); return none }},
		{Name: "ReadU16LE", Kind: KInt, W: 2, Bits: 16, Sort: 'U',
			Do:   func(o any, off, n int64, s *Src) Res { return res16(o.(*v3.Buffer).ReadU16LE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res16(o.(*v3.Buffer).ReadU16LENext(n)) }},
		{Name: "WriteU16LE", Kind: KInt, W: 2, Bits: 16, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteU16LE(off, s.U16); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteU16LENext(s.U16); return none }},
		{Name: "ReadU16BE", Kind: KInt, W: 2, Bits: 16, BE: true, Sort: 'U',
			Do:   func(o any, off, n int64, s *Src) Res { return res16(o.(*v3.Buffer).ReadU16BE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res16(o.(*v3.Buffer).ReadU16BENext(n)) }},
		{Name: "WriteU16BE", Kind: KInt, W: 2, Bits: 16, BE: true, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteU16BE(off, s.U16); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteU16BENext(s.U16); return none }},
		{Name: "ReadU32LE", Kind: KInt, W: 4, Bits: 32, Sort: 'U',
			Do:   func(o any, off, n int64, s *Src) Res { return res32(o.(*v3.Buffer).ReadU32LE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res32(o.(*v3.Buffer).ReadU32LENext(n)) }},
		{Name: "WriteU32LE", Kind: KInt, W: 4, Bits: 32, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteU32LE(off, s.U32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteU32LENext(s.U32); return none }},
		{Name: "ReadU32BE", Kind: KInt, W: 4, Bits: 32, BE: true, Sort: 'U',
			Do:   func(o any, off, n int64, s *Src) Res { return res32(o.(*v3.Buffer).ReadU32BE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res32(o.(*v3.Buffer).ReadU32BENext(n)) }},
		{Name: "WriteU32BE", Kind: KInt, W: 4, Bits: 32, BE: true, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteU32BE(off, s.U32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteU32BENext(s.U32); return none }},
		{Name: "ReadU64LE", Kind: KInt, W: 8, Bits: 64, Sort: 'U',
			Do:   func(o any, off, n int64, s *Src) Res { return res64(o.(*v3.Buffer).ReadU64LE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res64(o.(*v3.Buffer).ReadU64LENext(n)) }},
		{Name: "WriteU64LE", Kind: KInt, W: 8, Bits: 64, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteU64LE(off, s.U64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteU64LENext(s.U64); return none }},
		{Name: "ReadU64BE", Kind: KInt, W: 8, Bits: 64, BE: true, Sort: 'U',
			Do:   func(o any, off, n int64, s *Src) Res { return res64(o.(*v3.Buffer).ReadU64BE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return res64(o.(*v3.Buffer).ReadU64BENext(n)) }},
		{Name: "WriteU64BE", Kind: KInt, W: 8, Bits: 64, BE: true, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteU64BE(off, s.U64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteU64BENext(s.U64); return none }},
		{Name: "ReadI16LE", Kind: KInt, W: 2, Bits: 16, Sort: 'I',
			Do:   func(o any, off, n int64, s *Src) Res { return resI16(o.(*v3.Buffer).ReadI16LE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return resI16(o.(*v3.Buffer).ReadI16LENext(n)) }},
		{Name: "WriteI16LE", Kind: KInt, W: 2, Bits: 16, Sort: 'I', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteI16LE(off, s.I16); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteI16LENext(s.I16); return none }},
		{Name: "ReadI16BE", Kind: KInt, W: 2, Bits: 16, BE: true, Sort: 'I',
			Do:   func(o any, off, n int64, s *Src) Res { return resI16(o.(*v3.Buffer).ReadI16BE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return resI16(o.(*v3.Buffer).ReadI16BENext(n)) }},
		{Name: "WriteI16BE", Kind: KInt, W: 2, Bits: 16, BE: true, Sort: 'I', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteI16BE(off, s.I16); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteI16BENext(s.I16); return none }},
		{Name: "ReadI32LE", Kind: KInt, W: 4, Bits: 32, Sort: 'I',
			Do:   func(o any, off, n int64, s *Src) Res { return resI32(o.(*v3.Buffer).ReadI32LE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return resI32(o.(*v3.Buffer).ReadI32LENext(n)) }},
		{Name: "WriteI32LE", Kind: KInt, W: 4, Bits: 32, Sort: 'I', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteI32LE(off, s.I32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteI32LENext(s.I32); return none }},
		{Name: "ReadI32BE", Kind: KInt, W: 4, Bits: 32, BE: true, Sort: 'I',
			Do:   func(o any, off, n int64, s *Src) Res { return resI32(o.(*v3.Buffer).ReadI32BE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return resI32(o.(*v3.Buffer).ReadI32BENext(n)) }},
		{Name: "WriteI32BE", Kind: KInt, W: 4, Bits: 32, BE: true, Sort: 'I', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteI32BE(off, s.I32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteI32BENext(s.I32); return none }},
		{Name: "ReadI64LE", Kind: KInt, W: 8, Bits: 64, Sort: 'I',
			Do:   func(o any, off, n int64, s *Src) Res { return resI64(o.(*v3.Buffer).ReadI64LE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return resI64(o.(*v3.Buffer).ReadI64LENext(n)) }},
		{Name: "WriteI64LE", Kind: KInt, W: 8, Bits: 64, Sort: 'I', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteI64LE(off, s.I64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteI64LENext(s.I64); return none }},
		{Name: "ReadI64BE", Kind: KInt, W: 8, Bits: 64, BE: true, Sort: 'I',
			Do:   func(o any, off, n int64, s *Src) Res { return resI64(o.(*v3.Buffer).ReadI64BE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return resI64(o.(*v3.Buffer).ReadI64BENext(n)) }},
		{Name: "WriteI64BE", Kind: KInt, W: 8, Bits: 64, BE: true, Sort: 'I', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteI64BE(off, s.I64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteI64BENext(s.I64); return none }},
		{Name: "ReadF32LE", Kind: KFloat, W: 4, Bits: 32, Sort: 'F',
			Do:   func(o any, off, n int64, s *Src) Res { return resF32(o.(*v3.Buffer).ReadF32LE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return resF32(o.(*v3.Buffer).ReadF32LENext(n)) }},
		{Name: "WriteF32LE", Kind: KFloat, W: 4, Bits: 32, Sort: 'F', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteF32LE(off, s.F32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteF32LENext(s.F32); return none }},
		{Name: "ReadF32BE", Kind: KFloat, W: 4, Bits: 32, BE: true, Sort: 'F',
			Do:   func(o any, off, n int64, s *Src) Res { return resF32(o.(*v3.Buffer).ReadF32BE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return resF32(o.(*v3.Buffer).ReadF32BENext(n)) }},
		{Name: "WriteF32BE", Kind: KFloat, W: 4, Bits: 32, BE: true, Sort: 'F', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteF32BE(off, s.F32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteF32BENext(s.F32); return none }},
		{Name: "ReadF64LE", Kind: KFloat, W: 8, Bits: 64, Sort: 'F',
			Do:   func(o any, off, n int64, s *Src) Res { return resF64(o.(*v3.Buffer).ReadF64LE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return resF64(o.(*v3.Buffer).ReadF64LENext(n)) }},
		{Name: "WriteF64LE", Kind: KFloat, W: 8, Bits: 64, Sort: 'F', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteF64LE(off, s.F64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteF64LENext(s.F64); return none }},
		{Name: "ReadF64BE", Kind: KFloat, W: 8, Bits: 64, BE: true, Sort: 'F',
			Do:   func(o any, off, n int64, s *Src) Res { return resF64(o.(*v3.Buffer).ReadF64BE(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return resF64(o.(*v3.Buffer).ReadF64BENext(n)) }},
		{Name: "WriteF64BE", Kind: KFloat, W: 8, Bits: 64, BE: true, Sort: 'F', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).WriteF64BE(off, s.F64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).WriteF64BENext(s.F64); return none }},
		{Name: "ReadBit", Kind: KBit, W: 1, Bits: 1, One: true,
			Do:   func(o any, off, n int64, s *Src) Res { return one(uint64(o.(*v3.Buffer).ReadBit(off))) },
			Next: func(o any, n int64, s *Src) Res { return one(uint64(o.(*v3.Buffer).ReadBitNext())) }},
		{Name: "ReadBits", Kind: KField, W: 1, Bits: 64,
			Do:   func(o any, off, n int64, s *Src) Res { return one(o.(*v3.Buffer).ReadBits(off, n)) },
			Next: func(o any, n int64, s *Src) Res { return one(o.(*v3.Buffer).ReadBitsNext(n)) }},
		{Name: "SetBits", Kind: KField, W: 1, Bits: 64, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).SetBits(off, s.D, n); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).SetBitsNext(s.D, n); return none }},
		{Name: "SetBit", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitSet,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).SetBit(off); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).SetBitNext(); return none }},
		{Name: "ClearBit", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitClear,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).ClearBit(off); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).ClearBitNext(); return none }},
		{Name: "FlipBit", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitFlip,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.Buffer).FlipBit(off); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.Buffer).FlipBitNext(); return none }},
	},
}

var v3Mini = &Ver{
	Name: "v3/MiniBuffer", V: 3, Mini: true,
	New:       func(s ...[]byte) any { var b *v3.MiniBuffer; v3.NewMiniBuffer(&b, s...); return b },
	Bytes:     func(o any) []byte { out := garbageBytes; o.(*v3.MiniBuffer).Bytes(&out); return out },
	Cap:       func(o any) int64 { out := garbageInt; o.(*v3.MiniBuffer).ByteCapacity(&out); return out },
	BitCap:    func(o any) int64 { out := garbageInt; o.(*v3.MiniBuffer).BitCapacity(&out); return out },
	Off:       func(o any) int64 { out := garbageInt; o.(*v3.MiniBuffer).ByteOffset(&out); return out },
	BitOff:    func(o any) int64 { out := garbageInt; o.(*v3.MiniBuffer).BitOffset(&out); return out },
	After0:    func(o any) int64 { out := garbageInt; o.(*v3.MiniBuffer).AfterByte(&out); return out },
	AfterBit0: func(o any) int64 { out := garbageInt; o.(*v3.MiniBuffer).AfterBit(&out); return out },
	After1:    func(o any, x int64) int64 { out := garbageInt; o.(*v3.MiniBuffer).AfterByte(&out, x); return out },
	AfterBit1: func(o any, x int64) int64 { out := garbageInt; o.(*v3.MiniBuffer).AfterBit(&out, x); return out },
	Seek:      func(o any, x int64, r bool) { o.(*v3.MiniBuffer).SeekByte(x, r) },
	SeekBit:   func(o any, x int64, r bool) { o.(*v3.MiniBuffer).SeekBit(x, r) },
	AlignBit:  func(o any) { o.(*v3.MiniBuffer).AlignBit() },
	AlignByte: func(o any) { o.(*v3.MiniBuffer).AlignByte() },
	Refresh:   func(o any) { o.(*v3.MiniBuffer).Refresh() },
	ClearAll:  func(o any) { o.(*v3.MiniBuffer).ClearAllBits() },
	SetAll:    func(o any) { o.(*v3.MiniBuffer).SetAllBits() },
	FlipAll:   func(o any) { o.(*v3.MiniBuffer).FlipAllBits() },
	Reset:     func(o any) { o.(*v3.MiniBuffer).Reset() },
	Grow:      func(o any, n int64) { o.(*v3.MiniBuffer).Grow(n) },
	TruncL:    func(o any, n int64) { o.(*v3.MiniBuffer).TruncateLeft(n) },
	TruncR:    func(o any, n int64) { o.(*v3.MiniBuffer).TruncateRight(n) },
	ErrOR:     func() any { return v3.BufferOverreadError },
	ErrUR:     func() any { return v3.BufferUnderreadError },
	ErrOW:     func() any { return v3.BufferOverwriteError },
	ErrUW:     func() any { return v3.BufferUnderwriteError },
	ErrCount:  func() any { return v3.BufferInvalidByteCountError },
	Ops: []*Op{
		{Name: "ReadBytes", Kind: KByte, W: 1, Bits: 8,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.g8()
				o.(*v3.MiniBuffer).ReadBytes(&out, off, n)
				return res8(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.g8()
				o.(*v3.MiniBuffer).ReadBytesNext(&out, n)
				return res8(out)
			}},
		{Name: "WriteBytes", Kind: KByte, W: 1, Bits: 8, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteBytes(off, s.U8); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteBytesNext(s.U8); return none }},
		{Name: "ReadU16LE", Kind: KInt, W: 2, Bits: 16, Sort: 'U',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outU16()
				o.(*v3.MiniBuffer).ReadU16LE(&out, off, n)
				return res16(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outU16()
				o.(*v3.MiniBuffer).ReadU16LENext(&out, n)
				return res16(out)
			}},
		{Name: "WriteU16LE", Kind: KInt, W: 2, Bits: 16, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteU16LE(off, s.U16); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteU16LENext(s.U16); return none }},
		{Name: "ReadU16BE", Kind: KInt, W: 2, Bits: 16, BE: true, Sort: 'U',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outU16()
				o.(*v3.MiniBuffer).ReadU16BE(&out, off, n)
				return res16(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outU16()
				o.(*v3.MiniBuffer).ReadU16BENext(&out, n)
				return res16(out)
			}},
		{Name: "WriteU16BE", Kind: KInt, W: 2, Bits: 16, BE: true, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteU16BE(off, s.U16); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteU16BENext(s.U16); return none }},
		{Name: "ReadU32LE", Kind: KInt, W: 4, Bits: 32, Sort: 'U',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outU32()
				o.(*v3.MiniBuffer).ReadU32LE(&out, off, n)
				return res32(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outU32()
				o.(*v3.MiniBuffer).ReadU32LENext(&out, n)
				return res32(out)
			}},
		{Name: "WriteU32LE", Kind: KInt, W: 4, Bits: 32, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteU32LE(off, s.U32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteU32LENext(s.U32); return none }},
		{Name: "ReadU32BE", Kind: KInt, W: 4, Bits: 32, BE: true, Sort: 'U',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outU32()
				o.(*v3.MiniBuffer).ReadU32BE(&out, off, n)
				return res32(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outU32()
				o.(*v3.MiniBuffer).ReadU32BENext(&out, n)
				return res32(out)
			}},
		{Name: "WriteU32BE", Kind: KInt, W: 4, Bits: 32, BE: true, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteU32BE(off, s.U32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteU32BENext(s.U32); return none }},
		{Name: "ReadU64LE", Kind: KInt, W: 8, Bits: 64, Sort: 'U',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outU64()
				o.(*v3.MiniBuffer).ReadU64LE(&out, off, n)
				return res64(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outU64()
				o.(*v3.MiniBuffer).ReadU64LENext(&out, n)
				return res64(out)
			}},
		{Name: "WriteU64LE", Kind: KInt, W: 8, Bits: 64, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteU64LE(off, s.U64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteU64LENext(s.U64); return none }},
		{Name: "ReadU64BE", Kind: KInt, W: 8, Bits: 64, BE: true, Sort: 'U',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outU64()
				o.(*v3.MiniBuffer).ReadU64BE(&out, off, n)
				return res64(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outU64()
				o.(*v3.MiniBuffer).ReadU64BENext(&out, n)
				return res64(out)
			}},
		{Name: "WriteU64BE", Kind: KInt, W: 8, Bits: 64, BE: true, Sort: 'U', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteU64BE(off, s.U64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteU64BENext(s.U64); return none }},
		{Name: "ReadI16LE", Kind: KInt, W: 2, Bits: 16, Sort: 'I',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outI16()
				o.(*v3.MiniBuffer).ReadI16LE(&out, off, n)
				return resI16(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outI16()
				o.(*v3.MiniBuffer).ReadI16LENext(&out, n)
				return resI16(out)
			}},
		{Name: "WriteI16LE", Kind: KInt, W: 2, Bits: 16, Sort: 'I', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteI16LE(off, s.I16); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteI16LENext(s.I16); return none }},
		{Name: "ReadI16BE", Kind: KInt, W: 2, Bits: 16, BE: true, Sort: 'I',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outI16()
				o.(*v3.MiniBuffer).ReadI16BE(&out, off, n)
				return resI16(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outI16()
				o.(*v3.MiniBuffer).ReadI16BENext(&out, n)
				return resI16(out)
			}},
		{Name: "WriteI16BE", Kind: KInt, W: 2, Bits: 16, BE: true, Sort: 'I', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteI16BE(off, s.I16); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteI16BENext(s.I16); return none }},
		{Name: "ReadI32LE", Kind: KInt, W: 4, Bits: 32, Sort: 'I',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outI32()
				o.(*v3.MiniBuffer).ReadI32LE(&out, off, n)
				return resI32(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outI32()
				o.(*v3.MiniBuffer).ReadI32LENext(&out, n)
				return resI32(out)
			}},
		{Name: "WriteI32LE", Kind: KInt, W: 4, Bits: 32, Sort: 'I', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteI32LE(off, s.I32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteI32LENext(s.I32); return none }},
		{Name: "ReadI32BE", Kind: KInt, W: 4, Bits: 32, BE: true, Sort: 'I',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outI32()
				o.(*v3.MiniBuffer).ReadI32BE(&out, off, n)
				return resI32(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outI32()
				o.(*v3.MiniBuffer).ReadI32BENext(&out, n)
				return resI32(out)
			}},
		{Name: "WriteI32BE", Kind: KInt, W: 4, Bits: 32, BE: true, Sort: 'I', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteI32BE(off, s.I32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteI32BENext(s.I32); return none }},
		{Name: "ReadI64LE", Kind: KInt, W: 8, Bits: 64, Sort: 'I',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outI64()
				o.(*v3.MiniBuffer).ReadI64LE(&out, off, n)
				return resI64(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outI64()
				o.(*v3.MiniBuffer).ReadI64LENext(&out, n)
				return resI64(out)
			}},
		{Name: "WriteI64LE", Kind: KInt, W: 8, Bits: 64, Sort: 'I', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteI64LE(off, s.I64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteI64LENext(s.I64); return none }},
		{Name: "ReadI64BE", Kind: KInt, W: 8, Bits: 64, BE: true, Sort: 'I',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outI64()
				o.(*v3.MiniBuffer).ReadI64BE(&out, off, n)
				return resI64(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outI64()
				o.(*v3.MiniBuffer).ReadI64BENext(&out, n)
				return resI64(out)
			}},
		{Name: "WriteI64BE", Kind: KInt, W: 8, Bits: 64, BE: true, Sort: 'I', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteI64BE(off, s.I64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteI64BENext(s.I64); return none }},
		{Name: "ReadF32LE", Kind: KFloat, W: 4, Bits: 32, Sort: 'F',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outF32()
				o.(*v3.MiniBuffer).ReadF32LE(&out, off, n)
				return resF32(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outF32()
				o.(*v3.MiniBuffer).ReadF32LENext(&out, n)
				return resF32(out)
			}},
		{Name: "WriteF32LE", Kind: KFloat, W: 4, Bits: 32, Sort: 'F', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteF32LE(off, s.F32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteF32LENext(s.F32); return none }},
		{Name: "ReadF32BE", Kind: KFloat, W: 4, Bits: 32, BE: true, Sort: 'F',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outF32()
				o.(*v3.MiniBuffer).ReadF32BE(&out, off, n)
				return resF32(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outF32()
				o.(*v3.MiniBuffer).ReadF32BENext(&out, n)
				return resF32(out)
			}},
		{Name: "WriteF32BE", Kind: KFloat, W: 4, Bits: 32, BE: true, Sort: 'F', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteF32BE(off, s.F32); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteF32BENext(s.F32); return none }},
		{Name: "ReadF64LE", Kind: KFloat, W: 8, Bits: 64, Sort: 'F',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outF64()
				o.(*v3.MiniBuffer).ReadF64LE(&out, off, n)
				return resF64(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outF64()
				o.(*v3.MiniBuffer).ReadF64LENext(&out, n)
				return resF64(out)
			}},
		{Name: "WriteF64LE", Kind: KFloat, W: 8, Bits: 64, Sort: 'F', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteF64LE(off, s.F64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteF64LENext(s.F64); return none }},
		{Name: "ReadF64BE", Kind: KFloat, W: 8, Bits: 64, BE: true, Sort: 'F',
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.outF64()
				o.(*v3.MiniBuffer).ReadF64BE(&out, off, n)
				return resF64(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.outF64()
				o.(*v3.MiniBuffer).ReadF64BENext(&out, n)
				return resF64(out)
			}},
		{Name: "WriteF64BE", Kind: KFloat, W: 8, Bits: 64, BE: true, Sort: 'F', Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteF64BE(off, s.F64); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).WriteF64BENext(s.F64); return none }},
		{Name: "ReadBit", Kind: KBit, W: 1, Bits: 1, One: true,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.gb()
				o.(*v3.MiniBuffer).ReadBit(&out, off)
				return one(uint64(out))
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.gb()
				o.(*v3.MiniBuffer).ReadBitNext(&out)
				return one(uint64(out))
			}},
		{Name: "ReadBits", Kind: KField, W: 1, Bits: 64,
			Do: func(o any, off, n int64, s *Src) Res {
				out := s.gu()
				o.(*v3.MiniBuffer).ReadBits(&out, off, n)
				return one(out)
			},
			Next: func(o any, n int64, s *Src) Res {
				out := s.gu()
				o.(*v3.MiniBuffer).ReadBitsNext(&out, n)
				return one(out)
			}},
		{Name: "SetBits", Kind: KField, W: 1, Bits: 64, Write: true,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).SetBits(off, s.D, n); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).SetBitsNext(s.D, n); return none }},
		{Name: "SetBit", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitSet,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).SetBit(off); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).SetBitNext(); return none }},
		{Name: "ClearBit", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitClear,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).ClearBit(off); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).ClearBitNext(); return none }},
		{Name: "FlipBit", Kind: KBit, W: 1, Bits: 1, One: true, Write: true, Eff: BitFlip,
			Do:   func(o any, off, n int64, s *Src) Res { o.(*v3.MiniBuffer).FlipBit(off); return none },
			Next: func(o any, n int64, s *Src) Res { o.(*v3.MiniBuffer).FlipBitNext(); return none }},
	},
}

// v1 with arbitrary sizes and bit values
func v1Read(mini bool, next bool, o any, off, n int64, size v1.IntegerSize, e binary.ByteOrder) {
	switch {
	case mini && next:
		var x interface{}
		o.(*v1.MiniBuffer).ReadComplexNext(&x, n, size, e)
	case mini:
		var x interface{}
		o.(*v1.MiniBuffer).ReadComplex(&x, off, n, size, e)
	case next:
		o.(*v1.Buffer).ReadComplexNext(n, size, e)
	default:
		o.(*v1.Buffer).ReadComplex(off, n, size, e)
	}
}

func v1Write(mini bool, next bool, o any, off int64, d interface{}, size v1.IntegerSize, e binary.ByteOrder) {
	switch {
	case mini && next:
		o.(*v1.MiniBuffer).WriteComplexNext(d, size, e)
	case mini:
		o.(*v1.MiniBuffer).WriteComplex(off, d, size, e)
	case next:
		o.(*v1.Buffer).WriteComplexNext(d, size, e)
	default:
		o.(*v1.Buffer).WriteComplex(off, d, size, e)
	}
}

func setBitVal(v *Ver, next bool, o any, off int64, x byte) {
	switch b := o.(type) {
	case *v1.Buffer:
		if next {
			b.SetBitNext(x)
		} else {
			b.SetBit(off, x)
		}
	case *v1.MiniBuffer:
		if next {
			b.SetBitNext(x)
		} else {
			b.SetBit(off, x)
		}
	case *v2.Buffer:
		if next {
			b.SetBitNext(x)
		} else {
			b.SetBit(off, x)
		}
	case *v2.MiniBuffer:
		if next {
			b.SetBitNext(x)
		} else {
			b.SetBit(off, x)
		}
	}
}

var vers = []*Ver{v1Buf, v1Mini, v2Buf, v2Mini, v3Buf, v3Mini}
