// Package sym holds the primitives harnesses are written with.  Under
// the symbolic engine (build tag symexec) the lower-case ones and the
// ones in engine.go are intercepted; natively they take their values
// from a solver model, so that every counterexample can be replayed
// against the real code.
package sym

import "math"

// MaxLen bounds every symbolic slice (elements, length and capacity).
const MaxLen = 1 << 20

// H is one harness.
type H struct {
	Name string
	F    func()
}

func bound(n, c int) {
	Assume(n >= 0)
	Assume(n <= c)
	Assume(c <= MaxLen)
}

// Bytes is an arbitrary byte slice of length n and capacity c; the bytes
// between length and capacity are arbitrary as well.
func Bytes(name string, n, c int) []byte { bound(n, c); return raw8(name, n, c) }

// Huge is Bytes for a length of gigabytes.
func Huge(name string, n int) []byte {
	Assume(n >= 0 && n <= 1<<33)
	return raw8(name, n, n)
}

func U16(name string, n, c int) []uint16  { bound(n, c); return raw16(name, n, c) }
func U32(name string, n, c int) []uint32  { bound(n, c); return raw32(name, n, c) }
func U64(name string, n, c int) []uint64  { bound(n, c); return raw64(name, n, c) }
func I16(name string, n, c int) []int16   { bound(n, c); return rawI16(name, n, c) }
func I32(name string, n, c int) []int32   { bound(n, c); return rawI32(name, n, c) }
func I64(name string, n, c int) []int64   { bound(n, c); return rawI64(name, n, c) }
func F32(name string, n, c int) []float32 { bound(n, c); return rawF32(name, n, c) }
func F64(name string, n, c int) []float64 { bound(n, c); return rawF64(name, n, c) }

// B32 and B64 give the bit pattern of a float.
func B32(f float32) uint32 { return math.Float32bits(f) }
func B64(f float64) uint64 { return math.Float64bits(f) }

// Len is an arbitrary length in [0, 2^20).
func Len(name string) int { return int(UintN(name, 20)) }
