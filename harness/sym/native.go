//go:build !symexec

package sym

import (
	"fmt"
	"math"
	"runtime"
	"syscall"
	"time"
	"unsafe"
)

// Case is one assignment of all inputs.
type Case struct {
	Harness string                       `json:"harness"`
	Choices map[string]int64             `json:"choices"`
	Vars    map[string]uint64            `json:"vars"`
	Arrs    map[string]map[string]uint64 `json:"arrs"`
	Sched   string                       `json:"sched,omitempty"`
	Label   string                       `json:"label,omitempty"`
	Kind    string                       `json:"kind,omitempty"`
	Tier    int                          `json:"tier,omitempty"`
}

// Run is the outcome of one native execution.
type Run struct {
	Outcome string   `json:"outcome"` // ok, assume, assert, panic, hang
	Label   string   `json:"label"`
	Obs     []uint64 `json:"obs"`
	ObsName []string `json:"obs_name"`
	used    map[string]int
	c       *Case
	done    bool
}

var cur *Run

// Start prepares the execution of c.
func Start(c *Case) *Run {
	cur = &Run{c: c, used: map[string]int{}}
	other.on = false
	for _, m := range mapped {
		syscall.Munmap(m)
	}
	mapped = nil
	return cur
}

func uniq(n string) string {
	cur.used[n]++
	if k := cur.used[n]; k > 1 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

// val is the value of variable name of w bits
func val(name string, w int) uint64 { return cur.c.Vars[fmt.Sprintf("%s:%d", uniq(name), w)] }

func Int64(name string) int64            { return int64(val(name, 64)) }
func Int(name string) int                { return int(val(name, 64)) }
func Uint64(name string) uint64          { return val(name, 64) }
func UintN(name string, bits int) uint64 { return val(name, bits) }
func Uint32(name string) uint32          { return uint32(val(name, 32)) }
func Uint16(name string) uint16          { return uint16(val(name, 16)) }
func Uint8(name string) uint8            { return uint8(val(name, 8)) }
func Bool(name string) bool              { return val(name, 8) == 1 }
func Choose(name string, n int) int {
	return int(cur.c.Choices[uniq(name)])
}
func stop(o, l string) {
	if cur.Outcome == "" {
		cur.Outcome, cur.Label = o, l
	}
	runtime.Goexit()
}
func Assume(c bool) {
	if !c {
		stop("assume", "")
	}
}
func Assert(c bool, label string) {
	if !c {
		stop("assert", label)
	}
}
func Cover(label string) {}
func Observe(name string, v uint64) {
	cur.Obs = append(cur.Obs, v)
	cur.ObsName = append(cur.ObsName, name)
}
func Try(f func()) (v interface{}, p bool) {
	defer func() {
		if r := recover(); r != nil {
			v, p = r, true
		}
	}()
	f()
	return nil, false
}

// At is the point of the first operation at which Concurrent runs the
// second one; below zero it comes afterwards.  Points counts the points
// of the first operation.
var At, Points = -1, 0

var other struct {
	b    func()
	free func() bool
	on   bool // the first operation is running
}

// Point is called by the instrumented copy of the code under test before
// every statement and every load and store.
func Point() {
	if !other.on {
		return
	}
	b := other.b
	if Points++; b == nil || Points-1 != At || !other.free() {
		return
	}
	other.on = false
	defer func() { other.on = true }()
	other.b = nil
	done := make(chan bool)
	go func() {
		defer close(done)
		b()
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		// it waits for something the first operation holds
		stop("assume", "")
	}
}

// Concurrent runs a and, at point At of it, b as a whole; free says
// whether b could get the lock.
func Concurrent(a, b func(), free func() bool) {
	Points = 0
	other.b, other.free, other.on = b, free, true
	a()
	other.on = false
	if other.b != nil {
		other.b = nil
		b()
	}
}
func SameBacking(a, b []byte) bool {
	return cap(a) > 0 && cap(b) > 0 && unsafe.SliceData(a) == unsafe.SliceData(b)
}

func fill(name string, w, c int, set func(i int, v uint64)) {
	for k, v := range cur.c.Arrs[fmt.Sprintf("%s:%d", uniq(name), w)] {
		var i uint64
		fmt.Sscan(k, &i)
		if i < uint64(c) {
			set(int(i), v)
		}
	}
}

// mapped is memory obtained for huge slices
var mapped [][]byte

func raw8(name string, n, c int) []byte {
	var s []byte
	if c > 1<<24 {
		m, err := syscall.Mmap(-1, 0, c, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			stop("assume", "no memory")
		}
		mapped = append(mapped, m)
		s = m
	} else {
		s = make([]byte, c)
	}
	fill(name, 8, c, func(i int, v uint64) { s[i] = byte(v) })
	return s[:n]
}
func raw16(name string, n, c int) []uint16 {
	s := make([]uint16, c)
	fill(name, 16, c, func(i int, v uint64) { s[i] = uint16(v) })
	return s[:n]
}
func raw32(name string, n, c int) []uint32 {
	s := make([]uint32, c)
	fill(name, 32, c, func(i int, v uint64) { s[i] = uint32(v) })
	return s[:n]
}
func raw64(name string, n, c int) []uint64 {
	s := make([]uint64, c)
	fill(name, 64, c, func(i int, v uint64) { s[i] = v })
	return s[:n]
}
func rawI16(name string, n, c int) []int16 {
	s := make([]int16, c)
	fill(name, 16, c, func(i int, v uint64) { s[i] = int16(v) })
	return s[:n]
}
func rawI32(name string, n, c int) []int32 {
	s := make([]int32, c)
	fill(name, 32, c, func(i int, v uint64) { s[i] = int32(v) })
	return s[:n]
}
func rawI64(name string, n, c int) []int64 {
	s := make([]int64, c)
	fill(name, 64, c, func(i int, v uint64) { s[i] = int64(v) })
	return s[:n]
}
func rawF32(name string, n, c int) []float32 {
	s := make([]float32, c)
	fill(name, 32, c, func(i int, v uint64) {
		*(*uint32)(unsafe.Pointer(&s[i])) = uint32(v)
	})
	return s[:n]
}
func rawF64(name string, n, c int) []float64 {
	s := make([]float64, c)
	fill(name, 64, c, func(i int, v uint64) {
		*(*uint64)(unsafe.Pointer(&s[i])) = v
	})
	return s[:n]
}

var _ = math.Pi

// Tier is 0 for the quick bounds, 1 for the thorough ones.
func Tier() int { return cur.c.Tier }

func snap[T any](b []T) []T {
	s := make([]T, cap(b))
	copy(s, b[:cap(b)])
	return s[:len(b)]
}

// Snapshot copies b with everything up to its capacity.
func Snapshot(b []byte) []byte      { return snap(b) }
func SnapU16(b []uint16) []uint16   { return snap(b) }
func SnapU32(b []uint32) []uint32   { return snap(b) }
func SnapU64(b []uint64) []uint64   { return snap(b) }
func SnapI16(b []int16) []int16     { return snap(b) }
func SnapI32(b []int32) []int32     { return snap(b) }
func SnapI64(b []int64) []int64     { return snap(b) }
func SnapF32(b []float32) []float32 { return snap(b) }
func SnapF64(b []float64) []float64 { return snap(b) }

func Unroll(n int) {}
