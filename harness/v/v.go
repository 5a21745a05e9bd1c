// Package v is the interface between harnesses and the engine. Under the symbolic engine
// the functions marked (engine) are intercepted; natively they read a solver model.
package v

import (
	"hash/maphash"
	"unsafe"
)

// AssumeFailed and AssertFailed end a native run.
type AssumeFailed struct{}
type AssertFailed struct{ Msg string }

// Obs is one recorded observation.
type Obs struct {
	Name string
	Val  uint64
}

// native state, set by the replay driver
var (
	Params   map[string]int64
	Inputs   map[string]uint64
	counts   map[string]int
	Observed []Obs
	Failure  string
)

func Reset(params map[string]int64, inputs map[string]uint64) {
	Params, Inputs, counts, Observed, Failure = params, inputs, map[string]int{}, nil, ""
}

// (engine) Param returns a concrete parameter of the job (0 if absent).
func Param(name string) int { return int(Params[name]) }

// (engine) U64 is an arbitrary 64-bit value.
func U64(name string) uint64 {
	n := counts[name]
	counts[name] = n + 1
	return Inputs[name+"#"+itoa(n)]
}

// (engine) Choose is an arbitrary value in 0..n-1, concrete on each path.
func Choose(name string, n int) int {
	x := U64(name)
	if x >= uint64(n) {
		panic(AssumeFailed{})
	}
	return int(x)
}

// (engine) Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(AssumeFailed{})
	}
}

// (engine) Assert states the property.
func Assert(b bool, msg string) {
	if !b && Params["quiet"] == 0 {
		if Failure == "" {
			Failure = msg
		}
		panic(AssertFailed{msg})
	}
}

// (engine) Reach marks a point that has to be reached on some path (vacuity guard).
func Reach(name string) {}

// (engine) non-forking connectives
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// (engine) Observe records a value for the comparison of symbolic and native runs.
func Observe(name string, x uint64) { Observed = append(Observed, Obs{name, x}) }

// (engine) Symbolic is true under the engine.
func Symbolic() bool { return false }

// (engine) Unsupported gives up on the path: the harness cannot judge it.
func Unsupported(msg string) { panic(AssumeFailed{}) }

// hooks into the stand-in hash/maphash (native build only)
var (
	PinHook   func()
	LastHook  func() maphash.Seed
	QuietHook func(bool)
)

// (engine) PinSeed makes all seeds created from here on equal.
func PinSeed() { PinHook() }

// (engine) lastSeed returns the number of the seed last made or hashed with.
func lastSeed() uint64 {
	s := LastHook()
	return *(*uint64)(unsafe.Pointer(&s))
}

// LastSeed returns the seed last made or hashed with.
func LastSeed() (s maphash.Seed) {
	*(*uint64)(unsafe.Pointer(&s)) = lastSeed()
	return
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case AssertFailed, AssumeFailed:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// (engine) phase starts recording the memory accesses of the n-th party.
func phase(n int) {}

// (engine) conflict reports a violation if the recorded parties conflict.
func conflict(msg string) {}

// Parallel states that f and g may run at the same time: neither writes memory the other
// reads or writes. Natively they do run at the same time.
func Parallel(f, g func(), msg string) {
	if Symbolic() {
		phase(1)
		f()
		phase(2)
		g()
		phase(0)
		conflict(msg)
		return
	}
	parallel(f, g)
}

func parallel(f, g func()) {
	type res struct{ p any }
	run := func(f func(), c chan res) {
		defer func() { c <- res{recover()} }()
		f()
	}
	QuietHook(true)
	defer QuietHook(false)
	c := make(chan res, 2)
	start := make(chan bool)
	go func() { <-start; run(f, c) }()
	go func() { <-start; run(g, c) }()
	close(start)
	for i := 0; i < 2; i++ {
		if r := <-c; r.p != nil {
			panic(r.p)
		}
	}
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}
