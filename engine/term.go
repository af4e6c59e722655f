package main

// Terms: hash-consed bit-vector / boolean expressions with light
// simplification.  Width 0 = Bool.  64-bit sums are kept in a linear
// normal form (OpLin) so that offset arithmetic like (off+3)-(off+1)
// folds syntactically.

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"sync/atomic"
)

type Op uint8

const (
	OpConst  Op = iota // BV constant (C) or Bool constant (C = 0/1)
	OpVar              // named variable
	OpSelect           // Name[Args0]
	OpLin              // sum Coef[i]*Args[i] + C
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot // bvnot
	OpShl
	OpLShr
	OpAShr
	OpExtract // hi=C>>8, lo=C&255
	OpConcat  // Args0 high, Args1 low
	OpZext
	OpSext
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBAnd
	OpBOr
	OpBNot
	OpF32to64 // float conversions on bit patterns (amd64: NaNs become quiet)
	OpF64to32
	OpIToF // signed integer to float of width W
	OpUToF
)

type Term struct {
	Op   Op
	W    int
	C    uint64
	Name string
	Args []*Term
	Coef []uint64
	ID   int
	ones uint64 // mask of bits that may be one (BV)
	data bool   // depends on buffer contents or element values
}

type TB struct {
	tab   map[string]*Term
	ext   map[extKey]*Term
	n     int
	True  *Term
	False *Term
	vars  []*Term
	stop  atomic.Pointer[string] // why to give up
	size  atomic.Int64
}

type extKey struct {
	t      *Term
	hi, lo int
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func newTB() *TB {
	b := &TB{tab: map[string]*Term{}, ext: map[extKey]*Term{}}
	b.True = b.mk(&Term{Op: OpConst, W: 0, C: 1})
	b.False = b.mk(&Term{Op: OpConst, W: 0, C: 0})
	return b
}

func (b *TB) mk(t *Term) *Term {
	buf := make([]byte, 0, 24+len(t.Args)*12+len(t.Name))
	buf = append(buf, byte(t.Op), byte(t.W))
	buf = binary.AppendUvarint(buf, t.C)
	for _, a := range t.Args {
		buf = binary.AppendUvarint(buf, uint64(a.ID))
	}
	for _, c := range t.Coef {
		buf = binary.AppendUvarint(buf, c)
	}
	buf = append(buf, t.Name...)
	k := string(buf)
	if r := b.stop.Load(); r != nil {
		panic(unsup("%s", *r))
	}
	if x, ok := b.tab[k]; ok {
		return x
	}
	t.ID = b.n
	b.n++
	if b.n&4095 == 0 {
		b.size.Store(int64(b.n))
	}
	t.data = t.data || t.Op == OpSelect
	for _, a := range t.Args {
		t.data = t.data || a.data
	}
	if t.W > 0 {
		t.ones = b.onesOf(t) & mask(t.W)
	}
	b.tab[k] = t
	return t
}

func (b *TB) onesOf(t *Term) uint64 {
	switch t.Op {
	case OpConst:
		return t.C
	case OpZext:
		return t.Args[0].ones
	case OpExtract:
		return t.Args[0].ones >> (t.C & 255)
	case OpConcat:
		return t.Args[0].ones<<uint(t.Args[1].W) | t.Args[1].ones
	case OpAnd:
		return t.Args[0].ones & t.Args[1].ones
	case OpOr, OpXor:
		return t.Args[0].ones | t.Args[1].ones
	case OpIte:
		return t.Args[1].ones | t.Args[2].ones
	case OpLin:
		if m, ok := linDisjoint(t); ok {
			return m
		}
		// upper bound by the sum of the maxima
		var sum uint64
		over := false
		add := func(x uint64) {
			s, c := bits.Add64(sum, x, 0)
			if c != 0 {
				over = true
			}
			sum = s
		}
		for i, a := range t.Args {
			hi, lo := bits.Mul64(a.ones, t.Coef[i])
			if hi != 0 {
				over = true
			}
			add(lo)
		}
		add(t.C)
		if over || sum > mask(t.W) {
			return mask(t.W)
		}
		return mask(bits.Len64(sum))
	case OpUDiv:
		if d := t.Args[1]; d.Op == OpConst && d.C != 0 {
			return mask(bits.Len64(t.Args[0].ones / d.C))
		}
	case OpURem:
		if d := t.Args[1]; d.Op == OpConst && d.C != 0 {
			return mask(bits.Len64(d.C - 1))
		}
	case OpLShr:
		return mask(bits.Len64(t.Args[0].ones))
	}
	return mask(t.W)
}

// linDisjoint: all summands have disjoint possible bits (so + is |).
func linDisjoint(t *Term) (uint64, bool) {
	m := t.C
	w := mask(t.W)
	for i, a := range t.Args {
		c := t.Coef[i]
		if bits.OnesCount64(c) != 1 {
			return 0, false
		}
		s := (a.ones << uint(bits.TrailingZeros64(c))) & w
		if s&m != 0 {
			return 0, false
		}
		m |= s
	}
	return m, true
}

func (b *TB) Const(w int, v uint64) *Term { return b.mk(&Term{Op: OpConst, W: w, C: v & mask(w)}) }
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}
func (b *TB) Var(name string, w int) *Term {
	n := b.n
	name = name + ":" + strconv.Itoa(w)
	t := b.mk(&Term{Op: OpVar, W: w, Name: name})
	if t.ID == n {
		b.vars = append(b.vars, t)
	}
	return t
}

// DataVar is a variable that holds element contents (never a position).
func (b *TB) DataVar(name string, w int) *Term {
	n := b.n
	name = name + ":" + strconv.Itoa(w)
	t := b.mk(&Term{Op: OpVar, W: w, Name: name, data: true})
	if t.ID == n {
		b.vars = append(b.vars, t)
	}
	return t
}
func (b *TB) Select(arr string, w int, idx *Term) *Term {
	return b.mk(&Term{Op: OpSelect, W: w, Name: arr, Args: []*Term{idx}})
}

func isC(t *Term) bool { return t.Op == OpConst }
func sgn(v uint64, w int) int64 {
	s := uint(64 - w)
	return int64(v<<s) >> s
}

/* linear forms */

type lin struct {
	m map[*Term]uint64
	c uint64
}

func toLin(t *Term, k uint64, l *lin) {
	switch t.Op {
	case OpConst:
		l.c += k * t.C
	case OpLin:
		for i, a := range t.Args {
			l.m[a] += k * t.Coef[i]
		}
		l.c += k * t.C
	default:
		l.m[t] += k
	}
}

func (b *TB) fromLin(w int, l *lin) *Term {
	mk := mask(w)
	var as []*Term
	for a, k := range l.m {
		if k&mk != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return b.Const(w, l.c)
	}
	if len(as) > 1 {
		if b.joinParts(w, l, as) {
			return b.fromLin(w, l)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	co := make([]uint64, len(as))
	for i, a := range as {
		co[i] = l.m[a] & mk
	}
	c := l.c & mk
	if len(as) == 1 && co[0] == 1 && c == 0 {
		return as[0]
	}
	return b.mk(&Term{Op: OpLin, W: w, Args: as, Coef: co, C: c})
}

// part: the bit range of a base term an atom stands for.
func part(a *Term) (base *Term, hi, lo int, ok bool) {
	x := a
	if x.Op == OpZext {
		x = x.Args[0]
	}
	if x.Op == OpExtract {
		return x.Args[0], int(x.C >> 8), int(x.C & 255), true
	}
	if x != a {
		return x, x.W - 1, 0, true
	}
	return nil, 0, 0, false
}

// joinParts joins summands that are adjacent bit ranges of one term at
// adjacent positions, e.g. x[15:8]*2^8 + x[7:0].
func (b *TB) joinParts(w int, l *lin, as []*Term) bool {
	type key struct {
		base    *Term
		lo, pos int
	}
	starts := map[key]*Term{}
	for _, a := range as {
		base, _, lo, ok := part(a)
		k := l.m[a] & mask(w)
		if ok && bits.OnesCount64(k) == 1 {
			starts[key{base, lo, bits.TrailingZeros64(k)}] = a
		}
	}
	if len(starts) < 2 {
		return false
	}
	for _, a := range as {
		base, hi, lo, ok := part(a)
		k := l.m[a] & mask(w)
		if !ok || bits.OnesCount64(k) != 1 {
			continue
		}
		pos := bits.TrailingZeros64(k)
		n := hi - lo + 1
		o := starts[key{base, hi + 1, pos + n}]
		if o == nil || o == a || pos+n >= w {
			continue
		}
		_, hi2, _, _ := part(o)
		if hi2-lo+1 > w-pos {
			continue
		}
		delete(l.m, a)
		delete(l.m, o)
		toLin(b.Zext(b.Extract(hi2, lo, base), w), uint64(1)<<uint(pos), l)
		return true
	}
	return false
}

func (b *TB) comb(w int, x *Term, kx uint64, y *Term, ky uint64) *Term {
	l := &lin{m: map[*Term]uint64{}}
	toLin(x, kx, l)
	if y != nil {
		toLin(y, ky, l)
	}
	return b.fromLin(w, l)
}

func (b *TB) Add(x, y *Term) *Term {
	if isC(x) && isC(y) {
		return b.Const(x.W, x.C+y.C)
	}
	return b.comb(x.W, x, 1, y, 1)
}
func (b *TB) Sub(x, y *Term) *Term {
	if isC(x) && isC(y) {
		return b.Const(x.W, x.C-y.C)
	}
	return b.comb(x.W, x, 1, y, ^uint64(0))
}
func (b *TB) Neg(x *Term) *Term { return b.comb(x.W, x, ^uint64(0), nil, 0) }
func (b *TB) Mul(x, y *Term) *Term {
	if isC(x) {
		x, y = y, x
	}
	if isC(y) {
		return b.comb(x.W, x, y.C, nil, 0)
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(&Term{Op: OpMul, W: x.W, Args: []*Term{x, y}})
}

func (b *TB) Not(x *Term) *Term {
	if isC(x) {
		return b.Const(x.W, ^x.C)
	}
	if x.Op == OpNot {
		return x.Args[0]
	}
	return b.mk(&Term{Op: OpNot, W: x.W, Args: []*Term{x}})
}

func (b *TB) And(x, y *Term) *Term {
	if isC(x) {
		x, y = y, x
	}
	if isC(y) {
		if isC(x) {
			return b.Const(x.W, x.C&y.C)
		}
		if x.ones&y.C == 0 {
			return b.Const(x.W, 0)
		}
		if x.ones&^y.C == 0 {
			return x
		}
		// contiguous run of ones: extract and shift back
		tz := bits.TrailingZeros64(y.C)
		run := y.C >> uint(tz)
		if run&(run+1) == 0 {
			n := bits.Len64(run)
			e := b.Zext(b.Extract(tz+n-1, tz, x), x.W)
			return b.ShlC(e, tz)
		}
	}
	if x == y {
		return x
	}
	if x.ones&y.ones == 0 {
		return b.Const(x.W, 0)
	}
	if !isC(y) && x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(&Term{Op: OpAnd, W: x.W, Args: []*Term{x, y}})
}

func (b *TB) Or(x, y *Term) *Term {
	if isC(x) {
		x, y = y, x
	}
	if isC(y) {
		if isC(x) {
			return b.Const(x.W, x.C|y.C)
		}
		if y.C == mask(x.W) {
			return y
		}
	}
	if x == y {
		return x
	}
	if x.ones&y.ones == 0 {
		return b.Add(x, y)
	}
	if !isC(y) && x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(&Term{Op: OpOr, W: x.W, Args: []*Term{x, y}})
}

func (b *TB) Xor(x, y *Term) *Term {
	if isC(x) {
		x, y = y, x
	}
	if isC(y) {
		if isC(x) {
			return b.Const(x.W, x.C^y.C)
		}
		if y.C == mask(x.W) {
			return b.Not(x)
		}
	}
	if x == y {
		return b.Const(x.W, 0)
	}
	if x.ones&y.ones == 0 {
		return b.Add(x, y)
	}
	if !isC(y) && x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(&Term{Op: OpXor, W: x.W, Args: []*Term{x, y}})
}

func (b *TB) ShlC(x *Term, k int) *Term {
	if k >= x.W {
		return b.Const(x.W, 0)
	}
	return b.comb(x.W, x, uint64(1)<<uint(k), nil, 0)
}
func (b *TB) LShrC(x *Term, k int) *Term {
	if k == 0 {
		return x
	}
	if k >= x.W {
		return b.Const(x.W, 0)
	}
	return b.Zext(b.Extract(x.W-1, k, x), x.W)
}
func (b *TB) AShrC(x *Term, k int) *Term {
	if k == 0 {
		return x
	}
	if k >= x.W {
		k = x.W - 1
	}
	return b.Sext(b.Extract(x.W-1, k, x), x.W)
}

// shifts by a term of the same width, SMT semantics (count >= W gives 0/sign)
func (b *TB) Shl(x, k *Term) *Term {
	if isC(k) {
		if k.C >= uint64(x.W) {
			return b.Const(x.W, 0)
		}
		return b.ShlC(x, int(k.C))
	}
	return b.mk(&Term{Op: OpShl, W: x.W, Args: []*Term{x, k}})
}
func (b *TB) LShr(x, k *Term) *Term {
	if isC(k) {
		if k.C >= uint64(x.W) {
			return b.Const(x.W, 0)
		}
		return b.LShrC(x, int(k.C))
	}
	return b.mk(&Term{Op: OpLShr, W: x.W, Args: []*Term{x, k}})
}
func (b *TB) AShr(x, k *Term) *Term {
	if isC(k) {
		c := k.C
		if c >= uint64(x.W) {
			c = uint64(x.W - 1)
		}
		return b.AShrC(x, int(c))
	}
	return b.mk(&Term{Op: OpAShr, W: x.W, Args: []*Term{x, k}})
}

func (b *TB) div(op Op, x, y *Term) *Term {
	if isC(x) && isC(y) && y.C != 0 {
		switch op {
		case OpUDiv:
			return b.Const(x.W, x.C/y.C)
		case OpURem:
			return b.Const(x.W, x.C%y.C)
		case OpSDiv:
			p, q := sgn(x.C, x.W), sgn(y.C, y.W)
			if q == -1 {
				return b.Const(x.W, uint64(-p))
			}
			return b.Const(x.W, uint64(p/q))
		case OpSRem:
			p, q := sgn(x.C, x.W), sgn(y.C, y.W)
			if q == -1 {
				return b.Const(x.W, 0)
			}
			return b.Const(x.W, uint64(p%q))
		}
	}
	if isC(y) && bits.OnesCount64(y.C) == 1 && sgn(y.C, y.W) > 0 {
		k := bits.TrailingZeros64(y.C)
		switch op {
		case OpUDiv:
			return b.LShrC(x, k)
		case OpURem:
			if k == 0 {
				return b.Const(x.W, 0)
			}
			return b.Zext(b.Extract(k-1, 0, x), x.W)
		case OpSDiv, OpSRem:
			if k == 0 {
				if op == OpSDiv {
					return x
				}
				return b.Const(x.W, 0)
			}
			// (x + (sign ? 2^k-1 : 0)) >>a k
			sg := b.AShrC(x, x.W-1)
			q := b.AShrC(b.Add(x, b.LShrC(sg, x.W-k)), k)
			if op == OpSDiv {
				return q
			}
			return b.Sub(x, b.ShlC(q, k))
		}
	}
	return b.mk(&Term{Op: op, W: x.W, Args: []*Term{x, y}})
}

func (b *TB) Extract(hi, lo int, x *Term) *Term {
	w := hi - lo + 1
	if w == x.W {
		return x
	}
	if isC(x) {
		return b.Const(w, x.C>>uint(lo))
	}
	if (x.ones>>uint(lo))&mask(w) == 0 {
		return b.Const(w, 0)
	}
	switch x.Op {
	case OpExtract:
		l := int(x.C & 255)
		return b.Extract(hi+l, lo+l, x.Args[0])
	case OpZext:
		a := x.Args[0]
		if lo >= a.W {
			return b.Const(w, 0)
		}
		if hi < a.W {
			return b.Extract(hi, lo, a)
		}
		return b.Zext(b.Extract(a.W-1, lo, a), w)
	case OpSext:
		a := x.Args[0]
		if hi < a.W {
			return b.Extract(hi, lo, a)
		}
		if lo < a.W {
			return b.Sext(b.Extract(a.W-1, lo, a), w)
		}
	case OpConcat:
		l := x.Args[1].W
		if hi < l {
			return b.Extract(hi, lo, x.Args[1])
		}
		if lo >= l {
			return b.Extract(hi-l, lo-l, x.Args[0])
		}
	case OpAnd:
		return b.And(b.Extract(hi, lo, x.Args[0]), b.Extract(hi, lo, x.Args[1]))
	case OpOr:
		return b.Or(b.Extract(hi, lo, x.Args[0]), b.Extract(hi, lo, x.Args[1]))
	case OpXor:
		return b.Xor(b.Extract(hi, lo, x.Args[0]), b.Extract(hi, lo, x.Args[1]))
	case OpNot:
		return b.Not(b.Extract(hi, lo, x.Args[0]))
	case OpIte:
		k := extKey{x, hi, lo}
		if r, ok := b.ext[k]; ok {
			return r
		}
		r := b.Ite(x.Args[0], b.Extract(hi, lo, x.Args[1]), b.Extract(hi, lo, x.Args[2]))
		b.ext[k] = r
		return r
	case OpLin:
		if _, ok := linDisjoint(x); ok {
			// bitwise: take each summand's part
			acc := b.Const(w, x.C>>uint(lo))
			for i, a := range x.Args {
				sh := bits.TrailingZeros64(x.Coef[i])
				// summand = a << sh (mod 2^W); bits [lo,hi] of it
				s := (a.ones << uint(sh)) & mask(x.W)
				if (s>>uint(lo))&mask(w) == 0 {
					continue
				}
				// a's bits from lo-sh .. hi-sh
				al, ah := lo-sh, hi-sh
				pad := 0
				if al < 0 {
					pad = -al
					al = 0
				}
				if ah >= a.W {
					ah = a.W - 1
				}
				p := b.Zext(b.Extract(ah, al, a), w)
				acc = b.Add(acc, b.ShlC(p, pad))
			}
			return acc
		}
		if lo == 0 {
			l := &lin{m: map[*Term]uint64{}, c: x.C}
			for i, a := range x.Args {
				if x.Coef[i]&mask(w) == 0 {
					continue
				}
				toLin(b.Extract(hi, 0, a), x.Coef[i], l)
			}
			return b.fromLin(w, l)
		}
		ok := true
		for _, c := range x.Coef {
			if c&mask(lo) != 0 {
				ok = false
			}
		}
		if ok {
			l := &lin{m: map[*Term]uint64{}, c: x.C >> uint(lo)}
			for i, a := range x.Args {
				k := x.Coef[i] >> uint(lo)
				if k&mask(w) == 0 {
					continue
				}
				toLin(b.Extract(w-1, 0, a), k, l)
			}
			return b.fromLin(w, l)
		}
	}
	return b.mk(&Term{Op: OpExtract, W: w, C: uint64(hi)<<8 | uint64(lo), Args: []*Term{x}})
}

func (b *TB) Concat(h, l *Term) *Term {
	w := h.W + l.W
	if isC(h) && h.C == 0 {
		return b.Zext(l, w)
	}
	// as disjoint sum
	return b.Add(b.ShlC(b.Zext(h, w), l.W), b.Zext(l, w))
}

func (b *TB) Zext(x *Term, w int) *Term {
	if w == x.W {
		return x
	}
	if isC(x) {
		return b.Const(w, x.C)
	}
	if x.Op == OpZext {
		return b.Zext(x.Args[0], w)
	}
	if x.Op == OpLin {
		// a sum that cannot wrap at the old width widens summand-wise
		var sum uint64
		safe := true
		add := func(v uint64) {
			s, c := bits.Add64(sum, v, 0)
			sum = s
			if c != 0 || s > mask(x.W) {
				safe = false
			}
		}
		for i, a := range x.Args {
			hi, lo := bits.Mul64(a.ones, x.Coef[i])
			if hi != 0 {
				safe = false
			}
			add(lo)
		}
		add(x.C)
		if safe {
			l := &lin{m: map[*Term]uint64{}, c: x.C}
			for i, a := range x.Args {
				toLin(b.Zext(a, w), x.Coef[i], l)
			}
			return b.fromLin(w, l)
		}
	}
	return b.mk(&Term{Op: OpZext, W: w, Args: []*Term{x}})
}
func (b *TB) Sext(x *Term, w int) *Term {
	if w == x.W {
		return x
	}
	if isC(x) {
		return b.Const(w, uint64(sgn(x.C, x.W)))
	}
	if x.ones>>uint(x.W-1) == 0 {
		return b.Zext(x, w)
	}
	if x.Op == OpSext {
		return b.Sext(x.Args[0], w)
	}
	return b.mk(&Term{Op: OpSext, W: w, Args: []*Term{x}})
}

func (b *TB) Ite(c, x, y *Term) *Term {
	if x.W > 0 && isC(x) && isC(y) && x.C^y.C == 1 && x.C < 2 {
		// a bit
		v := c
		if c.Op == OpBNot {
			v = c.Args[0]
		}
		if v.Op == OpEq && v.Args[0].W == 1 {
			if o, k := v.Args[0], v.Args[1]; isC(k) {
				if (k.C == 1) == (c == v) == (x.C == 1) {
					return b.Zext(o, x.W)
				}
				return b.Zext(b.Not(o), x.W)
			}
		}
	}
	if c == b.True {
		return x
	}
	if c == b.False {
		return y
	}
	if x == y {
		return x
	}
	if c.Op == OpBNot {
		return b.Ite(c.Args[0], y, x)
	}
	if x.W == 1 && isC(x) && isC(y) && c.Op == OpEq && c.Args[0].W == 1 && isC(c.Args[1]) {
		if (c.Args[1].C == 1) == (x.C == 1) {
			return c.Args[0]
		}
		return b.Not(c.Args[0])
	}
	if x.W == 0 {
		// boolean ite
		if x == b.True {
			return b.BOr(c, y)
		}
		if x == b.False {
			return b.BAnd(b.BNot(c), y)
		}
		if y == b.True {
			return b.BOr(b.BNot(c), x)
		}
		if y == b.False {
			return b.BAnd(c, x)
		}
	}
	if x.Op == OpIte && x.Args[0] == c {
		x = x.Args[1]
	}
	if y.Op == OpIte && y.Args[0] == c {
		y = y.Args[2]
	}
	if y.Op == OpIte && y.Args[1] == x {
		return b.Ite(b.BOr(c, y.Args[0]), x, y.Args[2])
	}
	if x == y {
		return x
	}
	if t := b.bitIte(c, x, y); t != nil {
		return t
	}
	return b.mk(&Term{Op: OpIte, W: x.W, Args: []*Term{c, x, y}})
}

// bitIte: a choice by one bit between terms that differ in one bit.
func (b *TB) bitIte(c, x, y *Term) *Term {
	if x.W <= 1 || c.Op != OpEq || c.Args[0].W != 1 {
		return nil
	}
	l := &lin{m: map[*Term]uint64{}}
	toLin(x, 1, l)
	cx := l.c & mask(x.W)
	m := &lin{m: map[*Term]uint64{}}
	toLin(y, 1, m)
	cy := m.c & mask(x.W)
	d := cx ^ cy
	if bits.OnesCount64(d) != 1 || len(l.m) != len(m.m) {
		return nil
	}
	for a, k := range l.m {
		if m.m[a] != k {
			return nil
		}
	}
	l.c = 0
	rest := b.fromLin(x.W, l)
	if rest.ones&(cx|cy) != 0 {
		return nil
	}
	one, zero := b.Const(x.W, 1), b.Const(x.W, 0)
	if cx&d == 0 {
		one, zero = zero, one
	}
	bit := b.ShlC(b.Ite(c, one, zero), bits.TrailingZeros64(d))
	return b.Add(b.Add(rest, b.Const(x.W, cx&cy)), bit)
}

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.W == 0 {
		if isC(x) {
			x, y = y, x
		}
		if y == b.True {
			return x
		}
		if y == b.False {
			return b.BNot(x)
		}
		if b.BNot(x) == y {
			return b.False
		}
		if x.ID > y.ID {
			x, y = y, x
		}
		return b.mk(&Term{Op: OpEq, W: 0, Args: []*Term{x, y}})
	}
	if isC(x) && isC(y) {
		return b.Bool(x.C == y.C)
	}
	if isC(x) {
		x, y = y, x
	}
	if isC(y) {
		if y.C&^x.ones != 0 {
			return b.False
		}
		if x.W == 1 && y.C == 0 {
			return b.BNot(b.Eq(x, b.Const(1, 1)))
		}
		switch x.Op {
		case OpZext:
			return b.Eq(x.Args[0], b.Const(x.Args[0].W, y.C))
		case OpIte:
			if isC(x.Args[1]) || isC(x.Args[2]) {
				return b.Ite(x.Args[0], b.Eq(x.Args[1], y), b.Eq(x.Args[2], y))
			}
		}
	}
	if x.Op == OpZext && y.Op == OpZext && x.Args[0].W == y.Args[0].W {
		return b.Eq(x.Args[0], y.Args[0])
	}
	if x.Op == OpSext && y.Op == OpSext && x.Args[0].W == y.Args[0].W {
		return b.Eq(x.Args[0], y.Args[0])
	}
	if x.Op == OpLin || y.Op == OpLin {
		d := b.Sub(x, y)
		if isC(d) {
			return b.Bool(d.C == 0)
		}
		if d.Op == OpLin {
			// parity
			g := 64
			for _, c := range d.Coef {
				if t := bits.TrailingZeros64(c); t < g {
					g = t
				}
			}
			if g > 0 && d.C&mask(g) != 0 {
				return b.False
			}
			if len(d.Args) == 1 {
				if d.Coef[0] == 1 {
					return b.Eq(d.Args[0], b.Const(d.W, -d.C))
				}
				if d.Coef[0] == mask(d.W) {
					return b.Eq(d.Args[0], b.Const(d.W, d.C))
				}
				// odd*2^tz*a + C = 0 where 2^tz*a does not wrap
				tz := bits.TrailingZeros64(d.Coef[0])
				odd := d.Coef[0] >> uint(tz)
				a := d.Args[0]
				if s := a.ones << uint(tz); s>>uint(tz) == a.ones && s&^mask(d.W) == 0 {
					inv := odd
					for k := 0; k < 6; k++ {
						inv *= 2 - odd*inv
					}
					return b.Eq(a, b.Const(d.W, ((-d.C*inv)&mask(d.W))>>uint(tz)))
				}
			}
			// canonical orientation: positive coefficient on the first atom
			if d.Coef[0] > mask(d.W)>>1 {
				d = b.Neg(d)
			}
			l := &lin{m: map[*Term]uint64{}}
			toLin(d, 1, l)
			c := l.c
			l.c = 0
			// a single -1 atom moves to the right-hand side
			var rhs *Term = b.Const(d.W, -c)
			for i, a := range d.Args {
				if i > 0 && d.Coef[i] == mask(d.W) {
					delete(l.m, a)
					rhs = b.Add(rhs, a)
					break
				}
			}
			x, y = b.fromLin(d.W, l), rhs
		} else {
			x, y = d, b.Const(d.W, 0)
			return b.Eq(x, y)
		}
	}
	if !isC(y) && x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(&Term{Op: OpEq, W: 0, Args: []*Term{x, y}})
}

func (b *TB) Ult(x, y *Term) *Term {
	if isC(x) && isC(y) {
		return b.Bool(x.C < y.C)
	}
	if x == y {
		return b.False
	}
	if isC(y) {
		if y.C == 0 {
			return b.False
		}
		if x.ones < y.C {
			return b.True
		}
		if y.C == 1 {
			return b.Eq(x, b.Const(x.W, 0))
		}
	}
	if isC(x) {
		if x.C >= y.ones {
			return b.False
		}
	}
	if x.Op == OpZext && y.Op == OpZext && x.Args[0].W == y.Args[0].W {
		return b.Ult(x.Args[0], y.Args[0])
	}
	// comparisons with a right shift become linear
	if v, k, ok := shifted(x); ok && y.ones < uint64(1)<<uint(x.W-k) {
		return b.Ult(v, b.ShlC(y, k))
	}
	if v, k, ok := shifted(y); ok && x.ones < uint64(1)<<uint(x.W-k)-1 {
		return b.BNot(b.Ult(v, b.ShlC(b.Add(x, b.Const(x.W, 1)), k)))
	}
	return b.mk(&Term{Op: OpUlt, W: 0, Args: []*Term{x, y}})
}

// shifted: t is v >> k (0 < k).
func shifted(t *Term) (v *Term, k int, ok bool) {
	if t.Op != OpZext || t.Args[0].Op != OpExtract {
		return nil, 0, false
	}
	x := t.Args[0]
	v = x.Args[0]
	k = int(x.C & 255)
	if v.W != t.W || k == 0 || x.W != t.W-k {
		return nil, 0, false
	}
	return v, k, true
}
func (b *TB) Ule(x, y *Term) *Term { return b.BNot(b.Ult(y, x)) }
func (b *TB) Slt(x, y *Term) *Term {
	if isC(x) && isC(y) {
		return b.Bool(sgn(x.C, x.W) < sgn(y.C, y.W))
	}
	if x == y {
		return b.False
	}
	sb := uint64(1) << uint(x.W-1)
	xp, yp := x.ones&sb == 0, y.ones&sb == 0
	if xp && yp {
		return b.Ult(x, y)
	}
	if xp && isC(y) && y.C&sb != 0 {
		return b.False
	}
	if yp && isC(x) && x.C&sb != 0 {
		return b.True
	}
	if isC(y) && y.C == sb {
		return b.False
	}
	if x.Op == OpSext && y.Op == OpSext && x.Args[0].W == y.Args[0].W {
		return b.Slt(x.Args[0], y.Args[0])
	}
	return b.mk(&Term{Op: OpSlt, W: 0, Args: []*Term{x, y}})
}
func (b *TB) Sle(x, y *Term) *Term { return b.BNot(b.Slt(y, x)) }

func (b *TB) BNot(x *Term) *Term {
	if x == b.True {
		return b.False
	}
	if x == b.False {
		return b.True
	}
	if x.Op == OpBNot {
		return x.Args[0]
	}
	return b.mk(&Term{Op: OpBNot, W: 0, Args: []*Term{x}})
}
func (b *TB) BAnd(x, y *Term) *Term {
	if x == b.False || y == b.False {
		return b.False
	}
	if x == b.True {
		return y
	}
	if y == b.True {
		return x
	}
	if x == y {
		return x
	}
	if b.compl(x, y) {
		return b.False
	}
	for i := 0; i < 2; i++ {
		// x & (x & z) = y ; x & (!x | z) = x & z
		if y.Op == OpBAnd {
			if y.Args[0] == x || y.Args[1] == x {
				return y
			}
			if b.compl(y.Args[0], x) || b.compl(y.Args[1], x) {
				return b.False
			}
		}
		if y.Op == OpBOr {
			if y.Args[0] == x || y.Args[1] == x {
				return x
			}
			if b.compl(y.Args[0], x) {
				return b.BAnd(x, y.Args[1])
			}
			if b.compl(y.Args[1], x) {
				return b.BAnd(x, y.Args[0])
			}
		}
		x, y = y, x
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(&Term{Op: OpBAnd, W: 0, Args: []*Term{x, y}})
}
func (b *TB) compl(x, y *Term) bool {
	return (x.Op == OpBNot && x.Args[0] == y) || (y.Op == OpBNot && y.Args[0] == x)
}
func (b *TB) BOr(x, y *Term) *Term {
	if x == b.True || y == b.True {
		return b.True
	}
	if x == b.False {
		return y
	}
	if y == b.False {
		return x
	}
	if x == y {
		return x
	}
	if b.compl(x, y) {
		return b.True
	}
	for i := 0; i < 2; i++ {
		if y.Op == OpBOr {
			if y.Args[0] == x || y.Args[1] == x {
				return y
			}
			if b.compl(y.Args[0], x) || b.compl(y.Args[1], x) {
				return b.True
			}
		}
		if y.Op == OpBAnd {
			if y.Args[0] == x || y.Args[1] == x {
				return x
			}
			if b.compl(y.Args[0], x) {
				return b.BOr(x, y.Args[1])
			}
			if b.compl(y.Args[1], x) {
				return b.BOr(x, y.Args[0])
			}
		}
		x, y = y, x
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(&Term{Op: OpBOr, W: 0, Args: []*Term{x, y}})
}

/* printing for SMT-LIB */

func (t *Term) ref() string {
	switch t.Op {
	case OpConst:
		if t.W == 0 {
			if t.C == 1 {
				return "true"
			}
			return "false"
		}
		if t.W%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.W/4, t.C)
		}
		return fmt.Sprintf("#b%0*b", t.W, t.C)
	case OpVar:
		return "|" + t.Name + "|"
	}
	return fmt.Sprintf("t%d", t.ID)
}

func sort1(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

var opNames = map[Op]string{OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpNot: "bvnot", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpConcat: "concat", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpBAnd: "and", OpBOr: "or", OpBNot: "not"}

func fpOf(x string, w int) string {
	if w == 32 {
		return "((_ to_fp 8 24) " + x + ")"
	}
	return "((_ to_fp 11 53) " + x + ")"
}

func (t *Term) body() string {
	switch t.Op {
	case OpF32to64:
		x := t.Args[0].ref()
		fp := fpOf(x, 32)
		nan := fmt.Sprintf("(concat ((_ extract 31 31) %s) #b11111111111 #b1 ((_ extract 21 0) %s) #b00000000000000000000000000000)", x, x)
		return fmt.Sprintf("(ite (fp.isNaN %s) %s (fp.to_ieee_bv ((_ to_fp 11 53) RNE %s)))", fp, nan, fp)
	case OpF64to32:
		x := t.Args[0].ref()
		fp := fpOf(x, 64)
		nan := fmt.Sprintf("(concat ((_ extract 63 63) %s) #b11111111 #b1 ((_ extract 50 29) %s))", x, x)
		return fmt.Sprintf("(ite (fp.isNaN %s) %s (fp.to_ieee_bv ((_ to_fp 8 24) RNE %s)))", fp, nan, fp)
	case OpIToF, OpUToF:
		f := "to_fp"
		if t.Op == OpUToF {
			f = "to_fp_unsigned"
		}
		d := "8 24"
		if t.W == 64 {
			d = "11 53"
		}
		return fmt.Sprintf("(fp.to_ieee_bv ((_ %s %s) RNE %s))", f, d, t.Args[0].ref())
	case OpSelect:
		return fmt.Sprintf("(|%s| %s)", t.Name, t.Args[0].ref())
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.C>>8, t.C&255, t.Args[0].ref())
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.Args[0].W, t.Args[0].ref())
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.Args[0].W, t.Args[0].ref())
	case OpLin:
		_, disj := linDisjoint(t)
		op := "bvadd"
		if disj {
			op = "bvor"
		}
		var parts []string
		for i, a := range t.Args {
			k := t.Coef[i]
			switch {
			case k == 1:
				parts = append(parts, a.ref())
			case bits.OnesCount64(k) == 1:
				s := bits.TrailingZeros64(k)
				z := (&Term{Op: OpConst, W: s}).ref()
				parts = append(parts, fmt.Sprintf("(concat ((_ extract %d 0) %s) %s)", t.W-s-1, a.ref(), z))
			case k == mask(t.W):
				parts = append(parts, fmt.Sprintf("(bvneg %s)", a.ref()))
			default:
				parts = append(parts, fmt.Sprintf("(bvmul %s %s)", a.ref(), (&Term{Op: OpConst, W: t.W, C: k}).ref()))
			}
		}
		if t.C != 0 {
			parts = append(parts, (&Term{Op: OpConst, W: t.W, C: t.C}).ref())
		}
		if len(parts) == 1 {
			return parts[0]
		}
		s := "(" + op
		for _, p := range parts {
			s += " " + p
		}
		return s + ")"
	}
	s := "(" + opNames[t.Op]
	for _, a := range t.Args {
		s += " " + a.ref()
	}
	return s + ")"
}

// bitwise splits the equality of two bit fields put together from many
// parts into the equalities of their bits.
func (b *TB) bitwise(q *Term) (parts []*Term) {
	if q.Op != OpEq || q.Args[0].W < 8 {
		return nil
	}
	many := false
	for _, x := range q.Args {
		if x.Op == OpLin {
			if _, ok := linDisjoint(x); !ok {
				return nil
			}
			many = many || len(x.Args) >= 4
		}
	}
	if !many {
		return nil
	}
	for i := 0; i < q.Args[0].W; i++ {
		t := b.Eq(b.Extract(i, i, q.Args[0]), b.Extract(i, i, q.Args[1]))
		if t != b.True {
			parts = append(parts, t)
		}
	}
	return
}
