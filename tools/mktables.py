#!/usr/bin/env python3
"""Writes harness/h/tables.go: for every version and buffer type, the
public operations behind one uniform signature."""
out=[]
P=out.append
P('''// Code generated by tools/mktables.py. DO NOT EDIT.

package h

import (
	"encoding/binary"

	v1 "github.com/superwhiskers/crunch/v1"
	v2 "github.com/superwhiskers/crunch/v2"
	v3 "github.com/superwhiskers/crunch/v3"
)
''')
LET={'U':'uint','I':'int','F':'float'}
for V in (1,2,3):
  for K in ('Buffer','MiniBuffer'):
    mini=K=='MiniBuffer'
    T=f'*v{V}.{K}'; C=f'o.({T})'
    var=f'v{V}{"Mini" if mini else "Buf"}'
    cap,off,seek,after=(('ByteCapacity','ByteOffset','SeekByte','AfterByte') if V==3 else ('Capacity','Offset','Seek','After'))
    P(f'var {var} = &Ver{{')
    P(f'\tName: "v{V}/{K}", V: {V}, Mini: {str(mini).lower()},')
    if mini:
        P(f'\tNew: func(s ...[]byte) any {{ var b {T}; v{V}.NewMiniBuffer(&b, s...); return b }},')
        P(f'\tBytes: func(o any) []byte {{ out := garbageBytes; {C}.Bytes(&out); return out }},')
    else:
        P(f'\tNew: func(s ...[]byte) any {{ return v{V}.NewBuffer(s...) }},')
        P(f'\tBytes: func(o any) []byte {{ return {C}.Bytes() }},')
    for f,m in (('Cap',cap),('BitCap','BitCapacity'),('Off',off),('BitOff','BitOffset'),('After0',after),('AfterBit0','AfterBit')):
        if mini: P(f'\t{f}: func(o any) int64 {{ out := garbageInt; {C}.{m}(&out); return out }},')
        else: P(f'\t{f}: func(o any) int64 {{ return {C}.{m}() }},')
    for f,m in (('After1',after),('AfterBit1','AfterBit')):
        if mini: P(f'\t{f}: func(o any, x int64) int64 {{ out := garbageInt; {C}.{m}(&out, x); return out }},')
        else: P(f'\t{f}: func(o any, x int64) int64 {{ return {C}.{m}(x) }},')
    for f,m in (('Seek',seek),('SeekBit','SeekBit')):
        P(f'\t{f}: func(o any, x int64, r bool) {{ {C}.{m}(x, r) }},')
    for m in ('AlignBit','AlignByte','Refresh','ClearAll','SetAll','FlipAll')+(('Reset',) if V>1 else ()):
        mm=m+'Bits' if m.endswith('All') else m
        P(f'\t{m}: func(o any) {{ {C}.{mm}() }},')
    P(f'\tGrow: func(o any, n int64) {{ {C}.Grow(n) }},')
    if V==3:
        P(f'\tTruncL: func(o any, n int64) {{ {C}.TruncateLeft(n) }},')
        P(f'\tTruncR: func(o any, n int64) {{ {C}.TruncateRight(n) }},')
    else:
        P(f'\tLock: func(o any) {{ {C}.Lock() }},')
        P(f'\tUnlock: func(o any) {{ {C}.Unlock() }},')
    es={'ErrOR':'BufferOverreadError','ErrUR':'BufferUnderreadError','ErrOW':'BufferOverwriteError','ErrUW':'BufferUnderwriteError'}
    if V==3: es['ErrCount']='BufferInvalidByteCountError'
    else: es['ErrBit']='BufferInvalidBitError'
    if V==1: es['ErrSize']='BufferInvalidIntegerSizeError'
    for f,m in es.items(): P(f'\t{f}: func() any {{ return v{V}.{m} }},')
    P('\tOps: []*Op{')
    def op(name,kind,w,flags,do,nxt,el=0):
        P(f'\t\t{{Name: "{name}", Kind: {kind}, W: {w}, Bits: {el}{flags},')
        P(f'\t\t\tDo: func(o any, off, n int64, s *Src) Res {{ {do} }},')
        P(f'\t\t\tNext: func(o any, n int64, s *Src) Res {{ {nxt} }}}},')
    if not mini:
        op('ReadByte','KByte',1,', One: true',f'return one(uint64({C}.ReadByte(off)))',f'return one(uint64({C}.ReadByteNext()))',8)
        op('WriteByte','KByte',1,', One: true, Write: true',f'{C}.WriteByte(off, s.U8[0]); return none',f'{C}.WriteByteNext(s.U8[0]); return none',8)
        op('ReadBytes','KByte',1,'',f'return res8({C}.ReadBytes(off, n))',f'return res8({C}.ReadBytesNext(n))',8)
    else:
        op('ReadBytes','KByte',1,'',f'out := s.g8(); {C}.ReadBytes(&out, off, n); return res8(out)',f'out := s.g8(); {C}.ReadBytesNext(&out, n); return res8(out)',8)
    op('WriteBytes','KByte',1,', Write: true',f'{C}.WriteBytes(off, s.U8); return none',f'{C}.WriteBytesNext(s.U8); return none',8)
    if V==1:
        for size,ty,w in (('Unsigned8','[]byte',1),('Unsigned16','[]uint16',2),('Unsigned32','[]uint32',4),('Unsigned64','[]uint64',8)):
            for en,be in (('LittleEndian','LE'),('BigEndian','BE')):
                b=w*8; fl=', BE: true' if be=='BE' else ''
                a=f'v1.{size}, binary.{en}'
                if mini: r=lambda m,oo: f'out := s.gi(); {C}.{m}(&out, {oo}n, {a}); return res{b}(out.({ty}))'
                else: r=lambda m,oo: f'return res{b}({C}.{m}({oo}n, {a}).({ty}))'
                op(f'ReadComplex{b}{be}','KInt',w,fl,r('ReadComplex','off, '),r('ReadComplexNext',''),b)
                op(f'WriteComplex{b}{be}','KInt',w,fl+', Write: true',f'{C}.WriteComplex(off, s.U{b}, {a}); return none',f'{C}.WriteComplexNext(s.U{b}, {a}); return none',b)
    else:
        for s in ('U','I','F') if V==3 else ('U',):
            for b in (16,32,64):
                if s=='F' and b==16: continue
                for be in ('LE','BE'):
                    w=b//8; fl=(', BE: true' if be=='BE' else '')+(f", Sort: '{s}'")
                    kind='KFloat' if s=='F' else 'KInt'
                    nm=f'{s}{b}{be}'
                    rs=f'res{b}' if s=='U' else f'res{s}{b}'
                    if mini:
                        rd=f'out := s.out{s}{b}(); {C}.Read{nm}(&out, off, n); return {rs}(out)'
                        rn=f'out := s.out{s}{b}(); {C}.Read{nm}Next(&out, n); return {rs}(out)'
                    else:
                        rd=f'return {rs}({C}.Read{nm}(off, n))'
                        rn=f'return {rs}({C}.Read{nm}Next(n))'
                    op(f'Read{nm}',kind,w,fl,rd,rn,b)
                    op(f'Write{nm}',kind,w,fl+', Write: true',f'{C}.Write{nm}(off, s.{s}{b}); return none',f'{C}.Write{nm}Next(s.{s}{b}); return none',b)
    # bits
    if mini:
        op('ReadBit','KBit',1,', One: true',f'out := s.gb(); {C}.ReadBit(&out, off); return one(uint64(out))',f'out := s.gb(); {C}.ReadBitNext(&out); return one(uint64(out))',1)
        op('ReadBits','KField',1,'',f'out := s.gu(); {C}.ReadBits(&out, off, n); return one(out)',f'out := s.gu(); {C}.ReadBitsNext(&out, n); return one(out)',64)
    else:
        op('ReadBit','KBit',1,', One: true',f'return one(uint64({C}.ReadBit(off)))',f'return one(uint64({C}.ReadBitNext()))',1)
        op('ReadBits','KField',1,'',f'return one({C}.ReadBits(off, n))',f'return one({C}.ReadBitsNext(n))',64)
    op('SetBits','KField',1,', Write: true',f'{C}.SetBits(off, s.D, n); return none',f'{C}.SetBitsNext(s.D, n); return none',64)
    if V==3:
        for m,e in (('SetBit','BitSet'),('ClearBit','BitClear')):
            op(m,'KBit',1,f', One: true, Write: true, Eff: {e}',f'{C}.{m}(off); return none',f'{C}.{m}Next(); return none',1)
    else:
        for m,e,a in (('SetBit1','BitSet',1),('SetBit0','BitClear',0)):
            op(m,'KBit',1,f', One: true, Write: true, Eff: {e}',f'{C}.SetBit(off, {a}); return none',f'{C}.SetBitNext({a}); return none',1)
    op('FlipBit','KBit',1,', One: true, Write: true, Eff: BitFlip',f'{C}.FlipBit(off); return none',f'{C}.FlipBitNext(); return none',1)
    P('\t},')
    P('}\n')
P('''// v1 with arbitrary sizes and bit values
func v1Read(mini bool, next bool, o any, off, n int64, size v1.IntegerSize, e binary.ByteOrder) {
	switch {
	case mini && next:
		var x interface{}
		o.(*v1.MiniBuffer).ReadComplexNext(&x, n, size, e)
	case mini:
		var x interface{}
		o.(*v1.MiniBuffer).ReadComplex(&x, off, n, size, e)
	case next:
		o.(*v1.Buffer).ReadComplexNext(n, size, e)
	default:
		o.(*v1.Buffer).ReadComplex(off, n, size, e)
	}
}

func v1Write(mini bool, next bool, o any, off int64, d interface{}, size v1.IntegerSize, e binary.ByteOrder) {
	switch {
	case mini && next:
		o.(*v1.MiniBuffer).WriteComplexNext(d, size, e)
	case mini:
		o.(*v1.MiniBuffer).WriteComplex(off, d, size, e)
	case next:
		o.(*v1.Buffer).WriteComplexNext(d, size, e)
	default:
		o.(*v1.Buffer).WriteComplex(off, d, size, e)
	}
}

func setBitVal(v *Ver, next bool, o any, off int64, x byte) {
	switch b := o.(type) {
	case *v1.Buffer:
		if next {
			b.SetBitNext(x)
		} else {
			b.SetBit(off, x)
		}
	case *v1.MiniBuffer:
		if next {
			b.SetBitNext(x)
		} else {
			b.SetBit(off, x)
		}
	case *v2.Buffer:
		if next {
			b.SetBitNext(x)
		} else {
			b.SetBit(off, x)
		}
	case *v2.MiniBuffer:
		if next {
			b.SetBitNext(x)
		} else {
			b.SetBit(off, x)
		}
	}
}

var vers = []*Ver{v1Buf, v1Mini, v2Buf, v2Mini, v3Buf, v3Mini}
''')
open('/verif/harness/h/tables.go','w').write('\n'.join(out))
