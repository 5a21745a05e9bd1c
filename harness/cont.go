package main

import (
	"hash/maphash"
	"unsafe"

	"amtverif/v"

	amt "github.com/wdamron/amt"
)

// Key is an abstract key: the low n bytes of x (n = 8 unless a scenario says otherwise).
type Key struct {
	x uint64
	n int
}

// Cont is the common face of all container kinds; sets ignore values.
type Cont interface {
	IsMap() bool
	Put(k Key, val uint64)
	Mod(k Key, f func(*uint64, bool)) // sets: nil-pointer free no-op
	Del(k Key)
	Has(k Key) bool
	Get(k Key) (uint64, bool)
	Val(k Key) uint64
	Ptr(k Key) *uint64
	Len() uint
	Dep() float64
	Nil() bool
	All(f func(Key, *uint64) bool)
	// Hash of the key, written iter+1 times, under the given seed.
	Hash(k Key, s maphash.Seed, iter int) uint64
	Root() any
}

const (
	kIntMap = iota
	kStringMap
	kBytesMap
	kArrMap
	kMap
	kIntSet
	kStringSet
	kBytesSet
	kArrSet
	kSet
	nKinds
	kMapString = 10 // generic containers over the package's own key types
	kMapBytes  = 11
	kMapInt    = 12
	kSetString = 13
	kSetBytes  = 14
	kSetInt    = 15
	kMapTag    = 16 // equal keys in different representations
	kSetTag    = 17
	kMapLog    = 18 // keys that record their Hash calls
	kSetLog    = 19
	kArrMapL   = 20 // 64-byte array keys
	kArrSetL   = 21
	kArrMapS   = 22 // struct keys: equal keys differ in their memory
	kArrSetS   = 23
	kTracked   = 30 // + kind: values are pointers, keys and values are fresh tracked allocations
)

func newCont(kind int) Cont {
	switch kind {
	case kIntMap:
		return intMap{m: amt.NewIntMap[uint64]()}
	case kStringMap:
		return stringMap{m: amt.NewStringMap[uint64]()}
	case kBytesMap:
		return bytesMap{m: amt.NewBytesMap[uint64]()}
	case kArrMap:
		return arrMap[AK]{m: amt.NewArrMap[AK, uint64](), to: arrOf, from: keyOfArr}
	case kMap:
		return genMap[GK]{m: amt.NewMap[GK, uint64](), to: toGK, from: fromGK}
	case kIntSet:
		return intSet{s: amt.NewIntSet()}
	case kStringSet:
		return stringSet{s: amt.NewStringSet()}
	case kBytesSet:
		return bytesSet{s: amt.NewBytesSet()}
	case kArrSet:
		return arrSet[AK]{s: amt.NewArrSet[AK](), to: arrOf, from: keyOfArr}
	case kSet:
		return genSet[GK]{s: amt.NewSet[GK](), to: toGK, from: fromGK}
	case kMapString:
		return genMap[amt.String]{m: amt.NewMap[amt.String, uint64](), to: toAS, from: fromAS}
	case kMapBytes:
		return genMap[amt.Bytes]{m: amt.NewMap[amt.Bytes, uint64](), to: toAB, from: fromAB}
	case kSetString:
		return genSet[amt.String]{s: amt.NewSet[amt.String](), to: toAS, from: fromAS}
	case kSetBytes:
		return genSet[amt.Bytes]{s: amt.NewSet[amt.Bytes](), to: toAB, from: fromAB}
	case kMapInt:
		return newMapInt()
	case kSetInt:
		return newSetInt()
	case kMapTag:
		return genMap[GK]{m: amt.NewMap[GK, uint64](), to: toTag, from: fromGK}
	case kSetTag:
		return genSet[GK]{s: amt.NewSet[GK](), to: toTag, from: fromGK}
	case kArrMapL:
		return arrMap[AL]{m: amt.NewArrMap[AL, uint64](), to: longOf, from: keyOfLong}
	case kArrSetL:
		return arrSet[AL]{s: amt.NewArrSet[AL](), to: longOf, from: keyOfLong}
	case kArrMapS:
		return arrMap[AS]{m: amt.NewArrMap[AS, uint64](), to: structOf, from: keyOfStruct}
	case kArrSetS:
		return arrSet[AS]{s: amt.NewArrSet[AS](), to: structOf, from: keyOfStruct}
	case kMapLog:
		return genMap[LK]{m: amt.NewMap[LK, uint64](), to: toLK, from: fromLK}
	case kSetLog:
		return genSet[LK]{s: amt.NewSet[LK](), to: toLK, from: fromLK}
	}
	if kind >= kTracked {
		return newTracked(kind - kTracked)
	}
	panic("kind")
}

// zeroCont is a container that was never initialised.
func zeroCont(kind int) Cont {
	switch kind {
	case kIntMap:
		return intMap{}
	case kStringMap:
		return stringMap{}
	case kBytesMap:
		return bytesMap{}
	case kArrMap:
		return arrMap[AK]{to: arrOf, from: keyOfArr}
	case kMap:
		return genMap[GK]{to: toGK, from: fromGK}
	case kIntSet:
		return intSet{}
	case kStringSet:
		return stringSet{}
	case kBytesSet:
		return bytesSet{}
	case kArrSet:
		return arrSet[AK]{to: arrOf, from: keyOfArr}
	case kSet:
		return genSet[GK]{to: toGK, from: fromGK}
	case kMapString:
		return genMap[amt.String]{to: toAS, from: fromAS}
	case kMapBytes:
		return genMap[amt.Bytes]{to: toAB, from: fromAB}
	case kMapInt:
		return zeroMapInt()
	case kSetString:
		return genSet[amt.String]{to: toAS, from: fromAS}
	case kSetBytes:
		return genSet[amt.Bytes]{to: toAB, from: fromAB}
	case kSetInt:
		return zeroSetInt()
	}
	panic("kind")
}

// copyOf copies the handle itself.
func copyOf(c Cont) Cont {
	switch c := c.(type) {
	case intMap:
		m := c.m
		return intMap{m}
	case stringMap:
		m := c.m
		return stringMap{m}
	case bytesMap:
		m := c.m
		return bytesMap{m}
	case arrMap[AK]:
		m := c.m
		return arrMap[AK]{m, c.to, c.from}
	case genMap[GK]:
		m := c.m
		return genMap[GK]{m, c.to, c.from}
	case intSet:
		s := c.s
		return intSet{s}
	case stringSet:
		s := c.s
		return stringSet{s}
	case bytesSet:
		s := c.s
		return bytesSet{s}
	case arrSet[AK]:
		s := c.s
		return arrSet[AK]{s, c.to, c.from}
	case genSet[GK]:
		s := c.s
		return genSet[GK]{s, c.to, c.from}
	}
	return c
}

// ---- keys ----

// AK is a key for ArrMap and ArrSet.
type AK [8]byte

func (k AK) KeyBytes() (b [64]byte) {
	copy(b[:], k[:])
	return
}

// GK is a key for Map and Set: only id matters, tag tells representations apart.
type GK struct {
	id  uint64
	tag uint64
}

func (k GK) Equal(o GK) bool { return k.id == o.id }

func (k GK) Hash(seed maphash.Seed, iter uint) uint64 {
	b := bytes8(k.id)
	var h maphash.Hash
	h.SetSeed(seed)
	for i := uint(0); i <= iter; i++ {
		h.Write(b[:])
	}
	return h.Sum64()
}

func bytes8(x uint64) [8]byte {
	return [8]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24), byte(x >> 32), byte(x >> 40), byte(x >> 48), byte(x >> 56)}
}

func toGK(k Key) GK         { return GK{k.x, 0} }
func toTag(k Key) GK        { return GK{k.x, v.U64("tag")} }
func fromGK(k GK) Key       { return Key{k.id, 8} }
func toAS(k Key) amt.String { return amt.String(strOf(k)) }
func fromAS(k amt.String) Key {
	return keyOf(string(k))
}
func toAB(k Key) amt.Bytes   { return amt.Bytes(argBytes(k)) }
func fromAB(k amt.Bytes) Key { return keyOfBytes([]byte(k)) }
func strOf(k Key) string     { return string(bytesOf(k)) }
func keyOf(s string) Key     { return keyOfBytes([]byte(s)) }
func arrOf(k Key) AK         { return AK(bytes8(k.x)) }
func keyOfArr(a AK) Key      { return keyOfBytes(a[:]) }

// AL is a key of 64 bytes for ArrMap and ArrSet.
type AL [64]byte

func (k AL) KeyBytes() [64]byte { return k }

func longOf(k Key) (a AL) {
	fillKey(a[:], k.x)
	return
}
func keyOfLong(a AL) Key { return keyOfBytes(a[:]) }

// AS is a key for ArrMap and ArrSet: equality is that of the string, not of the memory.
type AS struct {
	b byte
	s string
}

func (k AS) KeyBytes() (b [64]byte) {
	b[0] = k.b
	copy(b[1:], k.s)
	return
}

func structOf(k Key) AS {
	b := bytes8(k.x)
	return AS{b[0], string(b[1:])}
}

func keyOfStruct(a AS) Key {
	return keyOfBytes(append([]byte{a.b}, a.s...))
}

// spot: where the i-th variable byte of a long key of n bytes is.
func spot(i, n int) int {
	switch i {
	case 0, 1:
		return i
	case 2:
		return 5
	case 3:
		return n/2 - 1
	case 4:
		return n / 2
	case 5:
		return n - 5
	case 6:
		return n - 2
	}
	return n - 1
}

// bytesOf: the bytes of a key; keys of more than 16 bytes are constant but for 8 spots.
func bytesOf(k Key) []byte {
	b := make([]byte, k.n)
	fillKey(b, k.x)
	return b
}

func fillKey(b []byte, x uint64) {
	n := len(b)
	if n <= 8 {
		for i := range b {
			b[i] = byte(x >> (8 * uint(i)))
		}
		return
	}
	for i := range b {
		b[i] = 'p'
	}
	for i := 0; i < 8; i++ {
		b[spot(i, n)] = byte(x >> (8 * uint(i)))
	}
}

func keyOfBytes(b []byte) Key {
	n := len(b)
	k := Key{0, n}
	if n <= 8 {
		for i := n - 1; i >= 0; i-- {
			k.x = k.x<<8 | uint64(b[i])
		}
		return k
	}
	same := true
	for i := 0; i < n; i++ {
		fixed := true
		for j := 0; j < 8; j++ {
			if spot(j, n) == i {
				fixed = false
			}
		}
		if fixed {
			same = v.And(same, b[i] == 'p')
		}
	}
	for i := 7; i >= 0; i-- {
		k.x = k.x<<8 | uint64(b[spot(i, n)])
	}
	if !same {
		k.n = -1
	}
	return k
}

// Slices passed to the code under test as keys, with what they and the spare capacity
// behind them held at the time.
type passedSlice struct {
	full []byte
	was  []byte
}

var guard bool
var passed []passedSlice
var nilTurn int

// argBytes is bytesOf for a slice that is passed to the code under test.
func argBytes(k Key) []byte {
	if !guard {
		return bytesOf(k)
	}
	if k.n == 0 {
		// nil and empty slices take turns; which comes first is arbitrary
		if nilTurn == 0 {
			nilTurn = 1 + v.Choose("nil", 2)
		} else {
			nilTurn = 3 - nilTurn
		}
		if nilTurn == 1 {
			return nil
		}
	}
	full := make([]byte, k.n+9)
	for i := k.n; i < len(full); i++ {
		full[i] = 's'
	}
	fillKey(full[:k.n], k.x)
	passed = append(passed, passedSlice{full, append([]byte(nil), full...)})
	return full[:k.n]
}

func checkPassed() {
	for _, p := range passed {
		v.Assert(sameBytes(p.full, p.was), "a key slice passed by the caller is never written to")
	}
}

func hashRep(b []byte, s maphash.Seed, iter int) uint64 {
	var h maphash.Hash
	h.SetSeed(s)
	for i := 0; i <= iter; i++ {
		h.Write(b)
	}
	return h.Sum64()
}

func sameKey(a, b Key) bool { return v.And(a.n == b.n, a.x == b.x) }

// ---- maps ----

type intMap struct{ m amt.IntMap[uint64] }

func (c intMap) IsMap() bool                      { return true }
func (c intMap) Put(k Key, val uint64)            { c.m.Set(int64(k.x), val) }
func (c intMap) Mod(k Key, f func(*uint64, bool)) { c.m.Mod(int64(k.x), f) }
func (c intMap) Del(k Key)                        { c.m.Del(int64(k.x)) }
func (c intMap) Has(k Key) bool                   { return c.m.Ptr(int64(k.x)) != nil }
func (c intMap) Get(k Key) (uint64, bool)         { return c.m.Get(int64(k.x)) }
func (c intMap) Val(k Key) uint64                 { return c.m.Val(int64(k.x)) }
func (c intMap) Ptr(k Key) *uint64                { return c.m.Ptr(int64(k.x)) }
func (c intMap) Len() uint                        { return c.m.Len() }
func (c intMap) Dep() float64                     { return c.m.Dep() }
func (c intMap) Nil() bool                        { return c.m.Nil() }
func (c intMap) All(f func(Key, *uint64) bool) {
	c.m.All(func(k int64, p *uint64) bool { return f(Key{uint64(k), 8}, p) })
}
func (c intMap) Hash(k Key, s maphash.Seed, iter int) uint64 {
	b := bytes8(k.x)
	return hashRep(b[:], s, iter)
}
func (c intMap) Root() any { return c.m }

type stringMap struct{ m amt.StringMap[uint64] }

func (c stringMap) IsMap() bool                      { return true }
func (c stringMap) Put(k Key, val uint64)            { c.m.Set(strOf(k), val) }
func (c stringMap) Mod(k Key, f func(*uint64, bool)) { c.m.Mod(strOf(k), f) }
func (c stringMap) Del(k Key)                        { c.m.Del(strOf(k)) }
func (c stringMap) Has(k Key) bool                   { return c.m.Ptr(strOf(k)) != nil }
func (c stringMap) Get(k Key) (uint64, bool)         { return c.m.Get(strOf(k)) }
func (c stringMap) Val(k Key) uint64                 { return c.m.Val(strOf(k)) }
func (c stringMap) Ptr(k Key) *uint64                { return c.m.Ptr(strOf(k)) }
func (c stringMap) Len() uint                        { return c.m.Len() }
func (c stringMap) Dep() float64                     { return c.m.Dep() }
func (c stringMap) Nil() bool                        { return c.m.Nil() }
func (c stringMap) All(f func(Key, *uint64) bool) {
	c.m.All(func(k string, p *uint64) bool { return f(keyOf(k), p) })
}
func (c stringMap) Hash(k Key, s maphash.Seed, iter int) uint64 { return hashRep(bytesOf(k), s, iter) }
func (c stringMap) Root() any                                   { return c.m }

type bytesMap struct{ m amt.BytesMap[uint64] }

func (c bytesMap) IsMap() bool                      { return true }
func (c bytesMap) Put(k Key, val uint64)            { c.m.Set(argBytes(k), val) }
func (c bytesMap) Mod(k Key, f func(*uint64, bool)) { c.m.Mod(argBytes(k), f) }
func (c bytesMap) Del(k Key)                        { c.m.Del(argBytes(k)) }
func (c bytesMap) Has(k Key) bool                   { return c.m.Ptr(argBytes(k)) != nil }
func (c bytesMap) Get(k Key) (uint64, bool)         { return c.m.Get(argBytes(k)) }
func (c bytesMap) Val(k Key) uint64                 { return c.m.Val(argBytes(k)) }
func (c bytesMap) Ptr(k Key) *uint64                { return c.m.Ptr(argBytes(k)) }
func (c bytesMap) Len() uint                        { return c.m.Len() }
func (c bytesMap) Dep() float64                     { return c.m.Dep() }
func (c bytesMap) Nil() bool                        { return c.m.Nil() }
func (c bytesMap) All(f func(Key, *uint64) bool) {
	c.m.All(func(k []byte, p *uint64) bool { return f(keyOfBytes(k), p) })
}
func (c bytesMap) Hash(k Key, s maphash.Seed, iter int) uint64 { return hashRep(bytesOf(k), s, iter) }
func (c bytesMap) Root() any                                   { return c.m }

type arrMap[K amt.ArrKey] struct {
	m    amt.ArrMap[K, uint64]
	to   func(Key) K
	from func(K) Key
}

func (c arrMap[K]) IsMap() bool                      { return true }
func (c arrMap[K]) Put(k Key, val uint64)            { c.m.Set(c.to(k), val) }
func (c arrMap[K]) Mod(k Key, f func(*uint64, bool)) { c.m.Mod(c.to(k), f) }
func (c arrMap[K]) Del(k Key)                        { c.m.Del(c.to(k)) }
func (c arrMap[K]) Has(k Key) bool                   { return c.m.Ptr(c.to(k)) != nil }
func (c arrMap[K]) Get(k Key) (uint64, bool)         { return c.m.Get(c.to(k)) }
func (c arrMap[K]) Val(k Key) uint64                 { return c.m.Val(c.to(k)) }
func (c arrMap[K]) Ptr(k Key) *uint64                { return c.m.Ptr(c.to(k)) }
func (c arrMap[K]) Len() uint                        { return c.m.Len() }
func (c arrMap[K]) Dep() float64                     { return c.m.Dep() }
func (c arrMap[K]) Nil() bool                        { return c.m.Nil() }
func (c arrMap[K]) All(f func(Key, *uint64) bool) {
	c.m.All(func(k K, p *uint64) bool { return f(c.from(k), p) })
}
func (c arrMap[K]) Hash(k Key, s maphash.Seed, iter int) uint64 {
	b := c.to(k).KeyBytes()
	return hashRep(b[:], s, iter)
}
func (c arrMap[K]) Root() any { return c.m }

type genMap[K amt.Key[K]] struct {
	m    amt.Map[K, uint64]
	to   func(Key) K
	from func(K) Key
}

func (c genMap[K]) IsMap() bool                      { return true }
func (c genMap[K]) Put(k Key, val uint64)            { c.m.Set(c.to(k), val) }
func (c genMap[K]) Mod(k Key, f func(*uint64, bool)) { c.m.Mod(c.to(k), f) }
func (c genMap[K]) Del(k Key)                        { c.m.Del(c.to(k)) }
func (c genMap[K]) Has(k Key) bool                   { return c.m.Ptr(c.to(k)) != nil }
func (c genMap[K]) Get(k Key) (uint64, bool)         { return c.m.Get(c.to(k)) }
func (c genMap[K]) Val(k Key) uint64                 { return c.m.Val(c.to(k)) }
func (c genMap[K]) Ptr(k Key) *uint64                { return c.m.Ptr(c.to(k)) }
func (c genMap[K]) Len() uint                        { return c.m.Len() }
func (c genMap[K]) Dep() float64                     { return c.m.Dep() }
func (c genMap[K]) Nil() bool                        { return c.m.Nil() }
func (c genMap[K]) All(f func(Key, *uint64) bool) {
	c.m.All(func(k K, p *uint64) bool { return f(c.from(k), p) })
}
func (c genMap[K]) Hash(k Key, s maphash.Seed, iter int) uint64 { return c.to(k).Hash(s, uint(iter)) }
func (c genMap[K]) Root() any                                   { return c.m }

// ---- sets ----

func noMap() { panic("not a map") }

type intSet struct{ s amt.IntSet }

func (c intSet) IsMap() bool                      { return false }
func (c intSet) Put(k Key, val uint64)            { c.s.Add(int64(k.x)) }
func (c intSet) Mod(k Key, f func(*uint64, bool)) { noMap() }
func (c intSet) Del(k Key)                        { c.s.Del(int64(k.x)) }
func (c intSet) Has(k Key) bool                   { return c.s.Has(int64(k.x)) }
func (c intSet) Get(k Key) (uint64, bool)         { noMap(); return 0, false }
func (c intSet) Val(k Key) uint64                 { noMap(); return 0 }
func (c intSet) Ptr(k Key) *uint64                { noMap(); return nil }
func (c intSet) Len() uint                        { return c.s.Len() }
func (c intSet) Dep() float64                     { return c.s.Dep() }
func (c intSet) Nil() bool                        { return c.s.Nil() }
func (c intSet) All(f func(Key, *uint64) bool) {
	c.s.All(func(k int64) bool { return f(Key{uint64(k), 8}, nil) })
}
func (c intSet) Hash(k Key, s maphash.Seed, iter int) uint64 {
	b := bytes8(k.x)
	return hashRep(b[:], s, iter)
}
func (c intSet) Root() any { return c.s }

type stringSet struct{ s amt.StringSet }

func (c stringSet) IsMap() bool                      { return false }
func (c stringSet) Put(k Key, val uint64)            { c.s.Add(strOf(k)) }
func (c stringSet) Mod(k Key, f func(*uint64, bool)) { noMap() }
func (c stringSet) Del(k Key)                        { c.s.Del(strOf(k)) }
func (c stringSet) Has(k Key) bool                   { return c.s.Has(strOf(k)) }
func (c stringSet) Get(k Key) (uint64, bool)         { noMap(); return 0, false }
func (c stringSet) Val(k Key) uint64                 { noMap(); return 0 }
func (c stringSet) Ptr(k Key) *uint64                { noMap(); return nil }
func (c stringSet) Len() uint                        { return c.s.Len() }
func (c stringSet) Dep() float64                     { return c.s.Dep() }
func (c stringSet) Nil() bool                        { return c.s.Nil() }
func (c stringSet) All(f func(Key, *uint64) bool) {
	c.s.All(func(k string) bool { return f(keyOf(k), nil) })
}
func (c stringSet) Hash(k Key, s maphash.Seed, iter int) uint64 { return hashRep(bytesOf(k), s, iter) }
func (c stringSet) Root() any                                   { return c.s }

type bytesSet struct{ s amt.BytesSet }

func (c bytesSet) IsMap() bool                      { return false }
func (c bytesSet) Put(k Key, val uint64)            { c.s.Add(argBytes(k)) }
func (c bytesSet) Mod(k Key, f func(*uint64, bool)) { noMap() }
func (c bytesSet) Del(k Key)                        { c.s.Del(argBytes(k)) }
func (c bytesSet) Has(k Key) bool                   { return c.s.Has(argBytes(k)) }
func (c bytesSet) Get(k Key) (uint64, bool)         { noMap(); return 0, false }
func (c bytesSet) Val(k Key) uint64                 { noMap(); return 0 }
func (c bytesSet) Ptr(k Key) *uint64                { noMap(); return nil }
func (c bytesSet) Len() uint                        { return c.s.Len() }
func (c bytesSet) Dep() float64                     { return c.s.Dep() }
func (c bytesSet) Nil() bool                        { return c.s.Nil() }
func (c bytesSet) All(f func(Key, *uint64) bool) {
	c.s.All(func(k []byte) bool { return f(keyOfBytes(k), nil) })
}
func (c bytesSet) Hash(k Key, s maphash.Seed, iter int) uint64 { return hashRep(bytesOf(k), s, iter) }
func (c bytesSet) Root() any                                   { return c.s }

type arrSet[K amt.ArrKey] struct {
	s    amt.ArrSet[K]
	to   func(Key) K
	from func(K) Key
}

func (c arrSet[K]) IsMap() bool                      { return false }
func (c arrSet[K]) Put(k Key, val uint64)            { c.s.Add(c.to(k)) }
func (c arrSet[K]) Mod(k Key, f func(*uint64, bool)) { noMap() }
func (c arrSet[K]) Del(k Key)                        { c.s.Del(c.to(k)) }
func (c arrSet[K]) Has(k Key) bool                   { return c.s.Has(c.to(k)) }
func (c arrSet[K]) Get(k Key) (uint64, bool)         { noMap(); return 0, false }
func (c arrSet[K]) Val(k Key) uint64                 { noMap(); return 0 }
func (c arrSet[K]) Ptr(k Key) *uint64                { noMap(); return nil }
func (c arrSet[K]) Len() uint                        { return c.s.Len() }
func (c arrSet[K]) Dep() float64                     { return c.s.Dep() }
func (c arrSet[K]) Nil() bool                        { return c.s.Nil() }
func (c arrSet[K]) All(f func(Key, *uint64) bool) {
	c.s.All(func(k K) bool { return f(c.from(k), nil) })
}
func (c arrSet[K]) Hash(k Key, s maphash.Seed, iter int) uint64 {
	b := c.to(k).KeyBytes()
	return hashRep(b[:], s, iter)
}
func (c arrSet[K]) Root() any { return c.s }

type genSet[K amt.Key[K]] struct {
	s    amt.Set[K]
	to   func(Key) K
	from func(K) Key
}

func (c genSet[K]) IsMap() bool                      { return false }
func (c genSet[K]) Put(k Key, val uint64)            { c.s.Add(c.to(k)) }
func (c genSet[K]) Mod(k Key, f func(*uint64, bool)) { noMap() }
func (c genSet[K]) Del(k Key)                        { c.s.Del(c.to(k)) }
func (c genSet[K]) Has(k Key) bool                   { return c.s.Has(c.to(k)) }
func (c genSet[K]) Get(k Key) (uint64, bool)         { noMap(); return 0, false }
func (c genSet[K]) Val(k Key) uint64                 { noMap(); return 0 }
func (c genSet[K]) Ptr(k Key) *uint64                { noMap(); return nil }
func (c genSet[K]) Len() uint                        { return c.s.Len() }
func (c genSet[K]) Dep() float64                     { return c.s.Dep() }
func (c genSet[K]) Nil() bool                        { return c.s.Nil() }
func (c genSet[K]) All(f func(Key, *uint64) bool) {
	c.s.All(func(k K) bool { return f(c.from(k), nil) })
}
func (c genSet[K]) Hash(k Key, s maphash.Seed, iter int) uint64 { return c.to(k).Hash(s, uint(iter)) }
func (c genSet[K]) Root() any                                   { return c.s }

var _ = unsafe.Pointer(nil)
var _ = v.Param
