package main

import (
	"math"
	"math/bits"
)

// Model: a concrete assignment of the symbolic inputs.  Unlisted
// variables and array cells are zero.
type Model struct {
	Vars map[string]uint64
	Arrs map[string]map[uint64]uint64
	memo map[int]uint64
	pcs  map[*PC]bool
}

func newModel() *Model {
	return &Model{Vars: map[string]uint64{}, Arrs: map[string]map[uint64]uint64{}, memo: map[int]uint64{}, pcs: map[*PC]bool{}}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) Eval(t *Term) uint64 {
	if t.Op == OpConst {
		return t.C
	}
	if v, ok := m.memo[t.ID]; ok {
		return v
	}
	v := m.eval1(t)
	if t.W > 0 {
		v &= mask(t.W)
	}
	m.memo[t.ID] = v
	return v
}

func (m *Model) eval1(t *Term) uint64 {
	a := func(i int) uint64 { return m.Eval(t.Args[i]) }
	switch t.Op {
	case OpVar:
		return m.Vars[t.Name]
	case OpSelect:
		return m.Arrs[t.Name][a(0)]
	case OpLin:
		s := t.C
		for i := range t.Args {
			s += t.Coef[i] * a(i)
		}
		return s
	case OpMul:
		return a(0) * a(1)
	case OpUDiv:
		x, y := a(0), a(1)
		if y == 0 {
			return ^uint64(0)
		}
		return x / y
	case OpURem:
		x, y := a(0), a(1)
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		x, y := sgn(a(0), t.W), sgn(a(1), t.W)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return ^uint64(0)
		}
		if y == -1 {
			return uint64(-x)
		}
		return uint64(x / y)
	case OpSRem:
		x, y := sgn(a(0), t.W), sgn(a(1), t.W)
		if y == 0 {
			return uint64(x)
		}
		if y == -1 {
			return 0
		}
		return uint64(x % y)
	case OpAnd:
		return a(0) & a(1)
	case OpOr:
		return a(0) | a(1)
	case OpXor:
		return a(0) ^ a(1)
	case OpNot:
		return ^a(0)
	case OpShl:
		x, k := a(0), a(1)
		if k >= uint64(t.W) {
			return 0
		}
		return x << k
	case OpLShr:
		x, k := a(0), a(1)
		if k >= uint64(t.W) {
			return 0
		}
		return x >> k
	case OpAShr:
		x, k := sgn(a(0), t.W), a(1)
		if k >= uint64(t.W) {
			k = uint64(t.W - 1)
		}
		return uint64(x >> k)
	case OpExtract:
		return a(0) >> (t.C & 255)
	case OpConcat:
		return a(0)<<uint(t.Args[1].W) | a(1)
	case OpZext:
		return a(0)
	case OpSext:
		return uint64(sgn(a(0), t.Args[0].W))
	case OpIte:
		if a(0) == 1 {
			return a(1)
		}
		return a(2)
	case OpEq:
		return b2u(a(0) == a(1))
	case OpUlt:
		return b2u(a(0) < a(1))
	case OpUle:
		return b2u(a(0) <= a(1))
	case OpSlt:
		return b2u(sgn(a(0), t.Args[0].W) < sgn(a(1), t.Args[0].W))
	case OpSle:
		return b2u(sgn(a(0), t.Args[0].W) <= sgn(a(1), t.Args[0].W))
	case OpBAnd:
		return a(0) & a(1)
	case OpBOr:
		return a(0) | a(1)
	case OpBNot:
		return 1 - a(0)
	case OpF32to64:
		return math.Float64bits(float64(math.Float32frombits(uint32(a(0)))))
	case OpF64to32:
		return uint64(math.Float32bits(float32(math.Float64frombits(a(0)))))
	case OpIToF:
		x := sgn(a(0), t.Args[0].W)
		if t.W == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	case OpUToF:
		x := a(0)
		if t.W == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	}
	panic("eval: op")
}

var _ = bits.Len64
