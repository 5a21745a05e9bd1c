package main

import (
	"math"
	"unsafe"

	"amtverif/v"

	amt "github.com/wdamron/amt"
)

// ---- keys of every length (C18) ----

var lengths = [16]int{0, 1, 2, 3, 4, 5, 7, 8, 16, 17, 31, 32, 33, 64, 65, 300}

// rawKey is the i-th key of a RawKeys scenario; lens has a hexadecimal digit per key.
func (w *world) rawKey(i int) ent {
	n := w.keyLen(i)
	switch w.kind {
	case kStringMap, kBytesMap, kStringSet, kBytesSet, kMapString, kMapBytes, kSetString, kSetBytes:
		n = lengths[v.Param("lens")>>uint(4*i)&15]
	}
	x := v.U64("key")
	if n < 8 {
		x &= 1<<uint(8*n) - 1
	}
	e := ent{k: Key{x, n}}
	e.h = w.hashes(e.k)
	if i > 0 {
		v.Assume(prefixEq(e.h, w.all[0].h, w.L))
	}
	w.parting(e)
	w.all = append(w.all, e)
	return e
}

// RawKeys: keys of all lengths and contents; the caller's slices are not written to.
func RawKeys() {
	guard = true
	w := newWorld(v.Param("kind"), v.Param("L"), v.Param("D"))
	ops := v.Param("ops")
	for i := 0; i < v.Param("n"); i++ {
		w.apply(ops&7, w.rawKey(i))
		ops >>= 3
		checkPassed()
	}
	v.Reach("end")
	w.check(v.Param("chk"))
	// what All reports are the keys themselves
	var ks []Key
	w.c.All(func(k Key, p *uint64) bool {
		ks = append(ks, k)
		return len(ks) <= len(w.ref)
	})
	for _, k := range ks {
		v.Assert(w.find(k) >= 0, "All reports the keys exactly as inserted")
		if w.c.IsMap() {
			_, ok := w.c.Get(k)
			v.Assert(ok, "a key reported by All is found")
		} else {
			v.Assert(w.c.Has(k), "a key reported by All is found")
		}
		v.Observe("len", uint64(k.n))
		v.Observe("key", k.x)
	}
	for i := range w.ref {
		w.c.Del(w.ref[i].k)
	}
	v.Assert(w.c.Len() == 0, "every key can be deleted")
	checkPassed()
}

// ---- values of every type (C19) ----

// vmap is a map from abstract keys to values of any type.
type vmap[V any] interface {
	Set(k Key, x V)
	Mod(k Key, f func(*V, bool))
	Del(k Key)
	Get(k Key) (V, bool)
	Val(k Key) V
	Ptr(k Key) *V
	All(f func(Key, *V) bool)
	Len() uint
}

type vInt[V any] struct{ m amt.IntMap[V] }

func (c vInt[V]) Set(k Key, x V)              { c.m.Set(int64(k.x), x) }
func (c vInt[V]) Mod(k Key, f func(*V, bool)) { c.m.Mod(int64(k.x), f) }
func (c vInt[V]) Del(k Key)                   { c.m.Del(int64(k.x)) }
func (c vInt[V]) Get(k Key) (V, bool)         { return c.m.Get(int64(k.x)) }
func (c vInt[V]) Val(k Key) V                 { return c.m.Val(int64(k.x)) }
func (c vInt[V]) Ptr(k Key) *V                { return c.m.Ptr(int64(k.x)) }
func (c vInt[V]) Len() uint                   { return c.m.Len() }
func (c vInt[V]) All(f func(Key, *V) bool) {
	c.m.All(func(k int64, p *V) bool { return f(Key{uint64(k), 8}, p) })
}

type vStr[V any] struct{ m amt.StringMap[V] }

func (c vStr[V]) Set(k Key, x V)              { c.m.Set(strOf(k), x) }
func (c vStr[V]) Mod(k Key, f func(*V, bool)) { c.m.Mod(strOf(k), f) }
func (c vStr[V]) Del(k Key)                   { c.m.Del(strOf(k)) }
func (c vStr[V]) Get(k Key) (V, bool)         { return c.m.Get(strOf(k)) }
func (c vStr[V]) Val(k Key) V                 { return c.m.Val(strOf(k)) }
func (c vStr[V]) Ptr(k Key) *V                { return c.m.Ptr(strOf(k)) }
func (c vStr[V]) Len() uint                   { return c.m.Len() }
func (c vStr[V]) All(f func(Key, *V) bool) {
	c.m.All(func(k string, p *V) bool { return f(keyOf(k), p) })
}

type vBytes[V any] struct{ m amt.BytesMap[V] }

func (c vBytes[V]) Set(k Key, x V)              { c.m.Set(bytesOf(k), x) }
func (c vBytes[V]) Mod(k Key, f func(*V, bool)) { c.m.Mod(bytesOf(k), f) }
func (c vBytes[V]) Del(k Key)                   { c.m.Del(bytesOf(k)) }
func (c vBytes[V]) Get(k Key) (V, bool)         { return c.m.Get(bytesOf(k)) }
func (c vBytes[V]) Val(k Key) V                 { return c.m.Val(bytesOf(k)) }
func (c vBytes[V]) Ptr(k Key) *V                { return c.m.Ptr(bytesOf(k)) }
func (c vBytes[V]) Len() uint                   { return c.m.Len() }
func (c vBytes[V]) All(f func(Key, *V) bool) {
	c.m.All(func(k []byte, p *V) bool { return f(keyOfBytes(k), p) })
}

type vArr[V any] struct{ m amt.ArrMap[AK, V] }

func (c vArr[V]) Set(k Key, x V)              { c.m.Set(arrOf(k), x) }
func (c vArr[V]) Mod(k Key, f func(*V, bool)) { c.m.Mod(arrOf(k), f) }
func (c vArr[V]) Del(k Key)                   { c.m.Del(arrOf(k)) }
func (c vArr[V]) Get(k Key) (V, bool)         { return c.m.Get(arrOf(k)) }
func (c vArr[V]) Val(k Key) V                 { return c.m.Val(arrOf(k)) }
func (c vArr[V]) Ptr(k Key) *V                { return c.m.Ptr(arrOf(k)) }
func (c vArr[V]) Len() uint                   { return c.m.Len() }
func (c vArr[V]) All(f func(Key, *V) bool) {
	c.m.All(func(k AK, p *V) bool { return f(keyOfArr(k), p) })
}

type vGen[V any] struct{ m amt.Map[GK, V] }

func (c vGen[V]) Set(k Key, x V)              { c.m.Set(toGK(k), x) }
func (c vGen[V]) Mod(k Key, f func(*V, bool)) { c.m.Mod(toGK(k), f) }
func (c vGen[V]) Del(k Key)                   { c.m.Del(toGK(k)) }
func (c vGen[V]) Get(k Key) (V, bool)         { return c.m.Get(toGK(k)) }
func (c vGen[V]) Val(k Key) V                 { return c.m.Val(toGK(k)) }
func (c vGen[V]) Ptr(k Key) *V                { return c.m.Ptr(toGK(k)) }
func (c vGen[V]) Len() uint                   { return c.m.Len() }
func (c vGen[V]) All(f func(Key, *V) bool) {
	c.m.All(func(k GK, p *V) bool { return f(fromGK(k), p) })
}

func newV[V any](kind int) vmap[V] {
	switch kind {
	case kIntMap:
		return vInt[V]{amt.NewIntMap[V]()}
	case kStringMap:
		return vStr[V]{amt.NewStringMap[V]()}
	case kBytesMap:
		return vBytes[V]{amt.NewBytesMap[V]()}
	case kArrMap:
		return vArr[V]{amt.NewArrMap[AK, V]()}
	case kMap:
		return vGen[V]{amt.NewMap[GK, V]()}
	}
	panic("kind")
}

// vcase is a value type: fresh makes an arbitrary value, same compares without forking.
type vcase[V any] struct {
	fresh func() V
	same  func(a, b V) bool
}

func runValues[V any](t vcase[V]) {
	kind := v.Param("kind")
	m := newV[V](kind)
	w := &world{c: zeroCont(kind), kind: kind, L: v.Param("L"), D: v.Param("D"), seed: v.LastSeed()}
	var vals []V  // of w.ref
	var ptrs []*V // likewise, if the parameter ptrs asks for it
	track := v.Param("ptrs") != 0 && unsafe.Sizeof(*new(V)) != 0
	ops := v.Param("ops")
	for i := 0; i < v.Param("n"); i++ {
		e := w.next()
		op := ops & 7
		ops >>= 3
		if op == opAny {
			op = v.Choose("op", 3)
		}
		j := w.find(e.k)
		switch op {
		case opPut, opMod:
			x := t.fresh()
			if op == opPut {
				m.Set(e.k, x)
			} else {
				calls := 0
				m.Mod(e.k, func(p *V, ok bool) {
					calls++
					v.Assert(ok == (j >= 0), "Mod knows whether the key is present")
					var now V
					if j >= 0 {
						now = vals[j]
					}
					v.Assert(t.same(*p, now), "Mod passes the value unchanged")
					if track && j >= 0 {
						v.Assert(p == ptrs[j], "a value pointer stays the key's value slot")
					}
					*p = x
				})
				v.Assert(calls == 1, "Mod calls its callback exactly once")
			}
			if j >= 0 {
				vals[j] = x
			} else {
				w.ref = append(w.ref, e)
				vals = append(vals, x)
				if track {
					ptrs = append(ptrs, m.Ptr(e.k))
				}
			}
		case opDel:
			m.Del(e.k)
			w.refDel(e)
			if j >= 0 {
				n := make([]V, 0, len(vals))
				n = append(n, vals[:j]...)
				vals = append(n, vals[j+1:]...)
				if track {
					n := make([]*V, 0, len(ptrs))
					n = append(n, ptrs[:j]...)
					ptrs = append(n, ptrs[j+1:]...)
				}
			}
		}
		if v.LastSeed() != w.seed {
			v.Unsupported("the container hashes with a seed the harness does not know")
		}
		for i, p := range ptrs {
			v.Assert(p != nil, "Ptr finds a key that was stored")
			v.Assert(p == m.Ptr(w.ref[i].k), "a value pointer stays the key's value slot")
			v.Assert(t.same(*p, vals[i]), "a value pointer shows the current value")
			if i == 0 {
				*p = t.fresh()
				vals[i] = *p
			}
		}
	}
	v.Reach("end")
	var zero V
	for i := range w.all {
		k := w.all[i].k
		got, ok := m.Get(k)
		j := w.find(k)
		want := zero
		if j >= 0 {
			want = vals[j]
		}
		v.Assert(ok == (j >= 0), "Get knows whether the key is present")
		v.Assert(t.same(got, want), "Get returns the value unchanged, or the zero value")
		v.Assert(t.same(m.Val(k), want), "Val returns the value unchanged, or the zero value")
		p := m.Ptr(k)
		v.Assert((p != nil) == (j >= 0), "Ptr knows whether the key is present")
		if p != nil {
			v.Assert(t.same(*p, want), "Ptr points to the value unchanged")
		}
	}
	v.Assert(m.Len() == uint(len(vals)), "Len is the number of keys held")
	calls := 0
	m.All(func(k Key, p *V) bool {
		calls++
		j := w.find(k)
		v.Assert(j >= 0, "All reports only keys that are held")
		v.Assert(p != nil, "All passes a pointer to the value")
		if j < 0 || p == nil {
			return true
		}
		v.Assert(t.same(*p, vals[j]), "All reports the value unchanged")
		if track {
			v.Assert(p == ptrs[j], "a value pointer stays the key's value slot")
		}
		return calls <= len(vals)
	})
	v.Assert(calls == len(vals), "All makes one call per key")
}

type mixed struct {
	a uint8
	s string
	p *uint64
	b bool
	x [2]uint16
	f float64
}

// Values: maps with values of type number t.
func Values() {
	word := func() uint64 { return v.U64("x") }
	bit := func() byte { return byte(v.U64("x")) }
	switch v.Param("t") {
	case 0:
		runValues(vcase[struct{}]{func() struct{} { return struct{}{} }, func(a, b struct{}) bool { return true }})
	case 1:
		runValues(vcase[[3]uint64]{func() [3]uint64 { return [3]uint64{word(), word(), word()} },
			func(a, b [3]uint64) bool { return v.And(a[0] == b[0], v.And(a[1] == b[1], a[2] == b[2])) }})
	case 2:
		n := 0
		runValues(vcase[string]{func() string {
			n++
			return string([]byte{bit(), bit(), bit()}[:n%4])
		}, func(a, b string) bool { return sameBytes([]byte(a), []byte(b)) }})
	case 3:
		runValues(vcase[*uint64]{func() *uint64 {
			p := new(uint64)
			*p = word()
			return p
		}, func(a, b *uint64) bool { return a == b }})
	case 4:
		runValues(vcase[amt.StringMap[uint64]]{func() amt.StringMap[uint64] {
			m := amt.NewStringMap[uint64]()
			return m
		}, func(a, b amt.StringMap[uint64]) bool { return a == b }})
	case 5:
		n := 0
		runValues(vcase[any]{func() any {
			n++
			switch n % 3 {
			case 0:
				return nil
			case 1:
				return word()
			}
			p := new(uint64)
			return p
		}, func(a, b any) bool {
			switch a := a.(type) {
			case nil:
				return b == nil
			case uint64:
				c, ok := b.(uint64)
				return v.And(ok, a == c)
			case *uint64:
				c, ok := b.(*uint64)
				return ok && a == c
			}
			return false
		}})
	case 6:
		runValues(vcase[mixed]{func() mixed {
			p := new(uint64)
			return mixed{a: bit(), s: string([]byte{bit(), bit()}), p: p, b: bit()&1 == 1, x: [2]uint16{uint16(word()), uint16(word())}, f: 1.5}
		}, func(a, b mixed) bool {
			if a.p != b.p || len(a.s) != len(b.s) {
				return false
			}
			r := v.And(a.a == b.a, a.b == b.b)
			r = v.And(r, v.And(a.x[0] == b.x[0], a.x[1] == b.x[1]))
			r = v.And(r, sameBytes([]byte(a.s), []byte(b.s)))
			return v.And(r, a.f == b.f)
		}})
	case 7:
		runValues(vcase[uint8]{bit, func(a, b uint8) bool { return a == b }})
	case 8:
		runValues(vcase[[]uint64]{func() []uint64 { return []uint64{word(), word()}[:1] }, func(a, b []uint64) bool {
			if len(a) != len(b) || cap(a) != cap(b) {
				return false
			}
			return len(a) == 0 || &a[0] == &b[0]
		}})
	case 9:
		runValues(vcase[[40]uint64]{func() (a [40]uint64) {
			a[0], a[20], a[39] = word(), word(), word()
			return
		}, func(a, b [40]uint64) bool {
			r := true
			for i := range a {
				r = v.And(r, a[i] == b[i])
			}
			return r
		}})
	case 10:
		runValues(vcase[func() uint64]{func() func() uint64 {
			x := word()
			return func() uint64 { return x }
		}, func(a, b func() uint64) bool {
			if a == nil || b == nil {
				return a == nil && b == nil
			}
			return a() == b()
		}})
	case 11:
		// bit patterns: signed zeros, not-a-numbers and infinities are kept apart
		fs := []uint64{0, 1 << 63, 0x7ff8000000000001, 0xfff0000000000000, 0x3ff8000000000000}
		n := v.Choose("first", len(fs))
		runValues(vcase[float64]{func() float64 {
			n++
			return math.Float64frombits(fs[n%len(fs)])
		}, func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }})
	case 12:
		// a method set, with dynamic types of one word, of more and of none
		n := 0
		runValues(vcase[shape]{func() shape {
			n++
			switch n % 4 {
			case 0:
				return nil
			case 1:
				return square(word())
			case 2:
				return &rect{word(), word()}
			}
			return rect{word(), word()}
		}, func(a, b shape) bool {
			switch a := a.(type) {
			case nil:
				return b == nil
			case square:
				c, ok := b.(square)
				return v.And(ok, a == c)
			case *rect:
				c, ok := b.(*rect)
				return ok && a == c
			case rect:
				c, ok := b.(rect)
				return v.And(ok, v.And(a.x == c.x, a.y == c.y))
			}
			return false
		}})
	case 13:
		// padding, a zero-size tail and pointers at odd places
		runValues(vcase[padded]{func() padded {
			return padded{a: bit(), p: [2]*uint64{nil, new(uint64)}, b: uint16(word()), c: word(), d: bit()&1 == 1}
		}, func(a, b padded) bool {
			r := v.And(a.a == b.a, v.And(a.b == b.b, v.And(a.c == b.c, a.d == b.d)))
			return v.And(r, v.And(a.p[0] == b.p[0], a.p[1] == b.p[1]))
		}})
	case 14:
		runValues(vcase[[5]uint8]{func() [5]uint8 { return [5]uint8{bit(), bit(), bit(), bit(), bit()} }, func(a, b [5]uint8) bool {
			r := true
			for i := range a {
				r = v.And(r, a[i] == b[i])
			}
			return r
		}})
	case 15:
		runValues(vcase[unsafe.Pointer]{func() unsafe.Pointer { return unsafe.Pointer(new([3]uint64)) }, func(a, b unsafe.Pointer) bool { return a == b }})
	case 16:
		// values of the kinds the containers use inside
		runValues(vcase[amt.Set[GK]]{func() amt.Set[GK] {
			s := amt.NewSet[GK]()
			return s
		}, func(a, b amt.Set[GK]) bool { return a == b }})
	case 17:
		runValues(vcase[uint32]{func() uint32 { return uint32(word()) }, func(a, b uint32) bool { return a == b }})
	case 18:
		runValues(vcase[[0]*uint64]{func() (a [0]*uint64) { return }, func(a, b [0]*uint64) bool { return true }})
	case 19:
		runValues(vcase[bool]{func() bool { return bit()&1 == 1 }, func(a, b bool) bool { return a == b }})
	}
}

type shape interface{ area() uint64 }

type square uint64

func (s square) area() uint64 { return uint64(s) * uint64(s) }

type rect struct{ x, y uint64 }

func (b rect) area() uint64 { return b.x * b.y }

type padded struct {
	a uint8
	p [2]*uint64
	b uint16
	c uint64
	d bool
	e struct{}
}

// ---- every operation, without judging the results (C10) ----

// exercise performs every read-only operation and follows every pointer.
func (w *world) exercise() {
	use := func(p *uint64) {
		if p != nil {
			*p = *p + 1
		}
	}
	for i := range w.all {
		k := w.all[i].k
		w.c.Has(k)
		if w.c.IsMap() {
			w.c.Get(k)
			w.c.Val(k)
			use(w.c.Ptr(k))
		}
	}
	w.c.Len()
	w.c.Dep()
	w.c.Nil()
	w.c.All(func(k Key, p *uint64) bool {
		use(p)
		return true
	})
	w.c.All(func(k Key, p *uint64) bool { return false })
}

// Safe: arbitrary operations; nothing is asserted but that they are safe and end.
func Safe() {
	w := prepare()
	ops := v.Param("ops")
	for i := 0; i < v.Param("m"); i++ {
		e := w.next()
		op := ops & 7
		ops >>= 3
		if op == opAny {
			op = w.pick()
		}
		if op == opMod && w.c.IsMap() {
			w.c.Mod(e.k, func(p *uint64, ok bool) { *p = *p + 1 })
		} else if op == opDel {
			w.c.Del(e.k)
		} else {
			w.c.Put(e.k, v.U64("val"))
		}
		w.exercise()
	}
	v.Reach("end")
	// empty the container
	for i := range w.all {
		w.c.Del(w.all[i].k)
	}
	w.exercise()
	w.c.Put(w.all[0].k, 1)
	w.exercise()
}
