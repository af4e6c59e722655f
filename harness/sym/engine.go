//go:build symexec

package sym

import (
	"fmt"
	"sync"
)

// bodies are replaced by the engine

func Int64(name string) int64                  { panic(0) }
func Int(name string) int                      { panic(0) }
func Uint64(name string) uint64                { panic(0) }
func Uint32(name string) uint32                { panic(0) }
func Uint16(name string) uint16                { panic(0) }
func Uint8(name string) uint8                  { panic(0) }
func Bool(name string) bool                    { panic(0) }
func Choose(name string, n int) int            { panic(0) }
func Assume(c bool)                            { panic(0) }
func Assert(c bool, label string)              { panic(0) }
func Cover(label string)                       { panic(0) }
func Observe(name string, v uint64)            { panic(0) }
func Try(f func()) (v interface{}, p bool)     { panic(0) }
func Concurrent(a, b func(), free func() bool) { panic(0) }
func SameBacking(a, b []byte) bool             { panic(0) }
func raw8(name string, n, c int) []byte        { panic(0) }
func raw16(name string, n, c int) []uint16     { panic(0) }
func raw32(name string, n, c int) []uint32     { panic(0) }
func raw64(name string, n, c int) []uint64     { panic(0) }
func rawI16(name string, n, c int) []int16     { panic(0) }
func rawI32(name string, n, c int) []int32     { panic(0) }
func rawI64(name string, n, c int) []int64     { panic(0) }
func rawF32(name string, n, c int) []float32   { panic(0) }
func rawF64(name string, n, c int) []float64   { panic(0) }
func UintN(name string, bits int) uint64       { panic(0) }
func Snapshot(b []byte) []byte                 { panic(0) }
func Tier() int                                { panic(0) }
func SnapU16(b []uint16) []uint16              { panic(0) }
func SnapU32(b []uint32) []uint32              { panic(0) }
func SnapU64(b []uint64) []uint64              { panic(0) }
func SnapI16(b []int16) []int16                { panic(0) }
func SnapI32(b []int32) []int32                { panic(0) }
func SnapI64(b []int64) []int64                { panic(0) }
func SnapF32(b []float32) []float32            { panic(0) }
func SnapF64(b []float64) []float64            { panic(0) }

// Unroll raises the number of loop iterations explored.
func Unroll(n int) { panic(0) }

/* models of library functions, executed in their place */

var pools []*pool

type pool struct {
	p *sync.Pool
	v []interface{}
}

func poolOf(p *sync.Pool) *pool {
	for _, q := range pools {
		if q.p == p {
			return q
		}
	}
	q := &pool{p: p}
	pools = append(pools, q)
	return q
}

// verif_sync_Pool_Get: a single goroutine gets back what it put last.
func verif_sync_Pool_Get(p *sync.Pool) interface{} {
	q := poolOf(p)
	if n := len(q.v); n > 0 {
		x := q.v[n-1]
		q.v = q.v[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func verif_sync_Pool_Put(p *sync.Pool, x interface{}) {
	if x != nil {
		q := poolOf(p)
		q.v = append(q.v, x)
	}
}

var onces []*sync.Once

func verif_sync_Once_Do(o *sync.Once, f func()) {
	for _, p := range onces {
		if p == o {
			return
		}
	}
	onces = append(onces, o)
	f()
}

func verif_sync_atomic_LoadInt32(p *int32) int32             { return *p }
func verif_sync_atomic_LoadInt64(p *int64) int64             { return *p }
func verif_sync_atomic_LoadUint32(p *uint32) uint32          { return *p }
func verif_sync_atomic_LoadUint64(p *uint64) uint64          { return *p }
func verif_sync_atomic_StoreInt32(p *int32, x int32)         { *p = x }
func verif_sync_atomic_StoreInt64(p *int64, x int64)         { *p = x }
func verif_sync_atomic_StoreUint32(p *uint32, x uint32)      { *p = x }
func verif_sync_atomic_StoreUint64(p *uint64, x uint64)      { *p = x }
func verif_sync_atomic_AddInt32(p *int32, x int32) int32     { *p += x; return *p }
func verif_sync_atomic_AddInt64(p *int64, x int64) int64     { *p += x; return *p }
func verif_sync_atomic_AddUint32(p *uint32, x uint32) uint32 { *p += x; return *p }
func verif_sync_atomic_AddUint64(p *uint64, x uint64) uint64 { *p += x; return *p }
func verif_sync_atomic_CompareAndSwapInt32(p *int32, a, b int32) bool {
	if *p == a {
		*p = b
		return true
	}
	return false
}
func verif_sync_atomic_CompareAndSwapInt64(p *int64, a, b int64) bool {
	if *p == a {
		*p = b
		return true
	}
	return false
}
func verif_sync_atomic_CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	if *p == a {
		*p = b
		return true
	}
	return false
}

type formatted struct{ s string }

func (f *formatted) Error() string { return f.s }

func verif_fmt_Errorf(format string, a ...interface{}) error {
	return &formatted{fmt.Sprintf(format, a...)}
}

func verif_internal_bytealg_MakeNoZero(n int) []byte { return make([]byte, n) }
