package v

import (
	"runtime"
	"unsafe"
	"weak"
)

// Token identifies a tracked allocation without keeping it alive.
type Token uint64

var weaks []weak.Pointer[byte]

// (engine) track
func track(p unsafe.Pointer) uint64 {
	weaks = append(weaks, weak.Make((*byte)(p)))
	return uint64(len(weaks) - 1)
}

// Track remembers the allocation p points into.
func Track(p unsafe.Pointer) Token { return Token(track(p)) }

// (engine) held
func held(root any, t uint64) bool {
	for i := 0; i < 3; i++ {
		clearStack(64)
		runtime.GC()
	}
	r := weaks[t].Value() != nil
	runtime.KeepAlive(root)
	return r
}

// Held reports whether the allocation is reachable from root, or from package variables of
// the code under test, the way the garbage collector traces memory. Natively it is alive at
// all, so the caller must hold no other reference.
func Held(root any, t Token) bool { return held(root, uint64(t)) }

//go:noinline
func clearStack(n int) byte {
	var b [512]byte
	if n > 0 {
		b[n] = clearStack(n - 1)
	}
	return b[n/2]
}
