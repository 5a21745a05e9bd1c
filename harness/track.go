package main

import (
	"hash/maphash"
	"unsafe"

	"amtverif/v"

	amt "github.com/wdamron/amt"
)

// Containers whose keys and values are fresh heap allocations that are watched without being
// kept alive. Values are pointers to boxes; keys of strings, slices, and generic or array key
// types refer to allocations of their own.

type box [4]uint64

// trackLen is the length of string and slice keys.
const trackLen = 32

var (
	putKey  []v.Token // of the last Put or Mod: the key's allocation, if it has one
	putVal  []v.Token // the value's allocation
	delKey  []v.Token
	tracing = true
)

func newBox(val uint64) *box {
	b := new(box)
	b[0] = val
	putVal = []v.Token{v.Track(unsafe.Pointer(b))}
	return b
}

func freshBytes(k Key) []byte {
	b := make([]byte, trackLen)
	fillKey(b, k.x)
	putKey = []v.Token{v.Track(unsafe.Pointer(&b[0]))}
	return b
}

func freshString(k Key) string {
	b := freshBytes(k)
	return unsafeString(b)
}

// unsafeString: b is not used otherwise.
func unsafeString(b []byte) string { return *(*string)(unsafe.Pointer(&b)) }

// TA is a key for ArrMap and ArrSet that refers to an allocation.
type TA struct{ s string }

func (k TA) KeyBytes() (b [64]byte) {
	copy(b[:], k.s)
	return
}

// TG is a key for Map and Set that refers to an allocation.
type TG struct {
	id uint64
	p  *box
}

func (k TG) Equal(o TG) bool                          { return k.id == o.id }
func (k TG) Hash(seed maphash.Seed, iter uint) uint64 { return GK{k.id, 0}.Hash(seed, iter) }
func freshTA(k Key) TA                                { return TA{freshString(k)} }
func fromTA(k TA) Key                                 { return fromLong(k.s) }
func fromLong(s string) Key                           { k := keyOfBytes([]byte(s)); return Key{k.x, 8 + k.n - trackLen} }
func longStr(k Key) string                            { return string(bytesOf(Key{k.x, trackLen})) }
func (w *world) trackedKeys() bool                    { return w.kind%kTracked != kIntMap && w.kind%kTracked != kIntSet }
func fromTG(k TG) Key                                 { return Key{k.id, 8} }
func freshTG(k Key) TG {
	p := new(box)
	putKey = []v.Token{v.Track(unsafe.Pointer(p))}
	return TG{k.x, p}
}

// tmap is a map under test, by functions.
type tmap struct {
	kind int
	im   amt.IntMap[*box]
	sm   amt.StringMap[*box]
	bm   amt.BytesMap[*box]
	am   amt.ArrMap[TA, *box]
	gm   amt.Map[TG, *box]
}

type tset struct {
	kind int
	is   amt.IntSet
	ss   amt.StringSet
	bs   amt.BytesSet
	as   amt.ArrSet[TA]
	gs   amt.Set[TG]
}

func newTracked(kind int) Cont {
	switch kind {
	case kIntMap:
		return &tmap{kind: kind, im: amt.NewIntMap[*box]()}
	case kStringMap:
		return &tmap{kind: kind, sm: amt.NewStringMap[*box]()}
	case kBytesMap:
		return &tmap{kind: kind, bm: amt.NewBytesMap[*box]()}
	case kArrMap:
		return &tmap{kind: kind, am: amt.NewArrMap[TA, *box]()}
	case kMap:
		return &tmap{kind: kind, gm: amt.NewMap[TG, *box]()}
	case kIntSet:
		return &tset{kind: kind, is: amt.NewIntSet()}
	case kStringSet:
		return &tset{kind: kind, ss: amt.NewStringSet()}
	case kBytesSet:
		return &tset{kind: kind, bs: amt.NewBytesSet()}
	case kArrSet:
		return &tset{kind: kind, as: amt.NewArrSet[TA]()}
	case kSet:
		return &tset{kind: kind, gs: amt.NewSet[TG]()}
	}
	panic("kind")
}

func hashLong(kind int, k Key, s maphash.Seed, iter int) uint64 {
	switch kind {
	case kIntMap, kIntSet:
		b := bytes8(k.x)
		return hashRep(b[:], s, iter)
	case kMap, kSet:
		return GK{k.x, 0}.Hash(s, uint(iter))
	case kArrMap, kArrSet:
		b := TA{longStr(k)}.KeyBytes()
		return hashRep(b[:], s, iter)
	}
	return hashRep(bytesOf(Key{k.x, trackLen}), s, iter)
}

func (c *tmap) Hash(k Key, s maphash.Seed, iter int) uint64 { return hashLong(c.kind, k, s, iter) }
func (c *tset) Hash(k Key, s maphash.Seed, iter int) uint64 { return hashLong(c.kind, k, s, iter) }
func (c *tmap) IsMap() bool                                 { return true }
func (c *tset) IsMap() bool                                 { return false }

//go:noinline
func (c *tmap) Put(k Key, val uint64) {
	putKey, putVal = nil, nil
	switch c.kind {
	case kIntMap:
		c.im.Set(int64(k.x), newBox(val))
	case kStringMap:
		c.sm.Set(freshString(k), newBox(val))
	case kBytesMap:
		c.bm.Set(freshBytes(k), newBox(val))
	case kArrMap:
		c.am.Set(freshTA(k), newBox(val))
	case kMap:
		c.gm.Set(freshTG(k), newBox(val))
	}
}

// modBox adapts a callback; a nil f of a missing key leaves the slot alone.
func modBox(f func(*uint64, bool)) func(**box, bool) {
	return func(p **box, ok bool) {
		var x uint64
		if ok {
			x = (*p)[0]
		} else {
			v.Assert(*p == nil, "Mod passes a zero value for a missing key")
		}
		f(&x, ok)
		*p = newBox(x)
	}
}

//go:noinline
func (c *tmap) Mod(k Key, f func(*uint64, bool)) {
	putKey, putVal = nil, nil
	switch c.kind {
	case kIntMap:
		c.im.Mod(int64(k.x), modBox(f))
	case kStringMap:
		c.sm.Mod(freshString(k), modBox(f))
	case kBytesMap:
		c.bm.Mod(freshBytes(k), modBox(f))
	case kArrMap:
		c.am.Mod(freshTA(k), modBox(f))
	case kMap:
		c.gm.Mod(freshTG(k), modBox(f))
	}
}

//go:noinline
func (c *tmap) Del(k Key) {
	putKey, putVal = nil, nil
	switch c.kind {
	case kIntMap:
		c.im.Del(int64(k.x))
	case kStringMap:
		c.sm.Del(freshString(k))
	case kBytesMap:
		c.bm.Del(freshBytes(k))
	case kArrMap:
		c.am.Del(freshTA(k))
	case kMap:
		c.gm.Del(freshTG(k))
	}
	delKey = putKey
}

//go:noinline
func (c *tmap) ptr(k Key) **box {
	switch c.kind {
	case kIntMap:
		return c.im.Ptr(int64(k.x))
	case kStringMap:
		return c.sm.Ptr(longStr(k))
	case kBytesMap:
		return c.bm.Ptr([]byte(longStr(k)))
	case kArrMap:
		return c.am.Ptr(TA{longStr(k)})
	}
	return c.gm.Ptr(TG{k.x, nil})
}

//go:noinline
func (c *tmap) val(k Key) *box {
	switch c.kind {
	case kIntMap:
		return c.im.Val(int64(k.x))
	case kStringMap:
		return c.sm.Val(longStr(k))
	case kBytesMap:
		return c.bm.Val([]byte(longStr(k)))
	case kArrMap:
		return c.am.Val(TA{longStr(k)})
	}
	return c.gm.Val(TG{k.x, nil})
}

//go:noinline
func (c *tmap) get(k Key) (*box, bool) {
	switch c.kind {
	case kIntMap:
		return c.im.Get(int64(k.x))
	case kStringMap:
		return c.sm.Get(longStr(k))
	case kBytesMap:
		return c.bm.Get([]byte(longStr(k)))
	case kArrMap:
		return c.am.Get(TA{longStr(k)})
	}
	return c.gm.Get(TG{k.x, nil})
}

func unbox(b *box) uint64 {
	if b == nil {
		return 0
	}
	return b[0]
}

func (c *tmap) Has(k Key) bool   { return c.ptr(k) != nil }
func (c *tmap) Val(k Key) uint64 { return unbox(c.val(k)) }
func (c *tmap) Get(k Key) (uint64, bool) {
	b, ok := c.get(k)
	return unbox(b), ok
}
func (c *tmap) Ptr(k Key) *uint64 {
	p := c.ptr(k)
	if p == nil {
		return nil
	}
	return &(*p)[0]
}

func (c *tmap) Len() uint {
	switch c.kind {
	case kIntMap:
		return c.im.Len()
	case kStringMap:
		return c.sm.Len()
	case kBytesMap:
		return c.bm.Len()
	case kArrMap:
		return c.am.Len()
	}
	return c.gm.Len()
}

func (c *tmap) Dep() float64 {
	switch c.kind {
	case kIntMap:
		return c.im.Dep()
	case kStringMap:
		return c.sm.Dep()
	case kBytesMap:
		return c.bm.Dep()
	case kArrMap:
		return c.am.Dep()
	}
	return c.gm.Dep()
}

func (c *tmap) Nil() bool { return false }

//go:noinline
func (c *tmap) All(f func(Key, *uint64) bool) {
	switch c.kind {
	case kIntMap:
		c.im.All(func(k int64, p **box) bool { return f(Key{uint64(k), 8}, &(*p)[0]) })
	case kStringMap:
		c.sm.All(func(k string, p **box) bool { return f(fromLong(k), &(*p)[0]) })
	case kBytesMap:
		c.bm.All(func(k []byte, p **box) bool { return f(fromLong(string(k)), &(*p)[0]) })
	case kArrMap:
		c.am.All(func(k TA, p **box) bool { return f(fromTA(k), &(*p)[0]) })
	case kMap:
		c.gm.All(func(k TG, p **box) bool { return f(fromTG(k), &(*p)[0]) })
	}
}

func (c *tmap) Root() any {
	switch c.kind {
	case kIntMap:
		return c.im
	case kStringMap:
		return c.sm
	case kBytesMap:
		return c.bm
	case kArrMap:
		return c.am
	}
	return c.gm
}

//go:noinline
func (c *tset) Put(k Key, val uint64) {
	putKey, putVal = nil, nil
	switch c.kind {
	case kIntSet:
		c.is.Add(int64(k.x))
	case kStringSet:
		c.ss.Add(freshString(k))
	case kBytesSet:
		c.bs.Add(freshBytes(k))
	case kArrSet:
		c.as.Add(freshTA(k))
	case kSet:
		c.gs.Add(freshTG(k))
	}
}

//go:noinline
func (c *tset) Del(k Key) {
	putKey, putVal = nil, nil
	switch c.kind {
	case kIntSet:
		c.is.Del(int64(k.x))
	case kStringSet:
		c.ss.Del(freshString(k))
	case kBytesSet:
		c.bs.Del(freshBytes(k))
	case kArrSet:
		c.as.Del(freshTA(k))
	case kSet:
		c.gs.Del(freshTG(k))
	}
	delKey = putKey
}

//go:noinline
func (c *tset) Has(k Key) bool {
	switch c.kind {
	case kIntSet:
		return c.is.Has(int64(k.x))
	case kStringSet:
		return c.ss.Has(longStr(k))
	case kBytesSet:
		return c.bs.Has([]byte(longStr(k)))
	case kArrSet:
		return c.as.Has(TA{longStr(k)})
	}
	return c.gs.Has(TG{k.x, nil})
}

func (c *tset) Len() uint {
	switch c.kind {
	case kIntSet:
		return c.is.Len()
	case kStringSet:
		return c.ss.Len()
	case kBytesSet:
		return c.bs.Len()
	case kArrSet:
		return c.as.Len()
	}
	return c.gs.Len()
}

func (c *tset) Dep() float64 {
	switch c.kind {
	case kIntSet:
		return c.is.Dep()
	case kStringSet:
		return c.ss.Dep()
	case kBytesSet:
		return c.bs.Dep()
	case kArrSet:
		return c.as.Dep()
	}
	return c.gs.Dep()
}

//go:noinline
func (c *tset) All(f func(Key, *uint64) bool) {
	switch c.kind {
	case kIntSet:
		c.is.All(func(k int64) bool { return f(Key{uint64(k), 8}, nil) })
	case kStringSet:
		c.ss.All(func(k string) bool { return f(fromLong(k), nil) })
	case kBytesSet:
		c.bs.All(func(k []byte) bool { return f(fromLong(string(k)), nil) })
	case kArrSet:
		c.as.All(func(k TA) bool { return f(fromTA(k), nil) })
	case kSet:
		c.gs.All(func(k TG) bool { return f(fromTG(k), nil) })
	}
}

func (c *tset) Root() any {
	switch c.kind {
	case kIntSet:
		return c.is
	case kStringSet:
		return c.ss
	case kBytesSet:
		return c.bs
	case kArrSet:
		return c.as
	}
	return c.gs
}

func (c *tset) Nil() bool                        { return false }
func (c *tset) Mod(k Key, f func(*uint64, bool)) { noMap() }
func (c *tset) Get(k Key) (uint64, bool)         { noMap(); return 0, false }
func (c *tset) Val(k Key) uint64                 { noMap(); return 0 }
func (c *tset) Ptr(k Key) *uint64                { noMap(); return nil }

// ---- scenario ----

// toks are the allocations belonging to one live key.
type toks struct {
	k    Key
	keys []v.Token // of the representations of the key stored so far
	vals []v.Token // of the current value
}

// tworld watches the allocations of a world with a tracked container.
type tworld struct {
	*world
	live []toks
	dead []v.Token
}

func (t *tworld) index(k Key) int {
	for i := range t.live {
		if sameKey(t.live[i].k, k) {
			return i
		}
	}
	return -1
}

// do performs an operation and brings the books up to date.
func (t *tworld) do(op int, e ent) {
	if op == opAny {
		op = t.pick()
	} else if op == opPutDel {
		op = v.Choose("op", 2)
	}
	i := t.index(e.k)
	t.apply(op, e)
	if op == opDel {
		if i >= 0 {
			t.dead = append(t.dead, t.live[i].keys...)
			t.dead = append(t.dead, t.live[i].vals...)
			n := make([]toks, 0, len(t.live))
			n = append(n, t.live[:i]...)
			t.live = append(n, t.live[i+1:]...)
		}
		return
	}
	if i >= 0 {
		l := &t.live[i]
		if t.c.IsMap() {
			t.dead = append(t.dead, l.vals...)
		}
		l.keys = append(append([]v.Token(nil), l.keys...), putKey...)
		l.vals = putVal
	} else {
		t.live = append(t.live, toks{e.k, putKey, putVal})
	}
}

const (
	holdDead = 1 // C11
	holdLive = 2 // C20
)

func (t *tworld) books(what int) {
	root := t.c.Root()
	if what&holdDead != 0 {
		for _, d := range t.dead {
			v.Assert(!v.Held(root, d), "deleted keys and values and overwritten values are released")
		}
	}
	if what&holdLive != 0 {
		for i := range t.live {
			l := &t.live[i]
			for _, x := range l.vals {
				v.Assert(v.Held(root, x), "the values of the keys held are reachable for the garbage collector")
			}
			any := len(l.keys) == 0
			for _, x := range l.keys {
				any = v.Or(any, v.Held(root, x))
			}
			v.Assert(any, "the keys held are reachable for the garbage collector")
		}
	}
}

// Hold: a container with n keys (or c occupied slots), then m operations; the allocations of
// what has been deleted are released, those of what is held are reachable.
func Hold() {
	w := newWorld(v.Param("kind")+kTracked, v.Param("L"), v.Param("D"))
	t := &tworld{world: w}
	what := v.Param("hold")
	if c := v.Param("c"); c > 0 {
		keys := w.build(c, v.Param("sub"), v.Param("ord"))
		for _, e := range keys {
			t.do(opPut, e)
		}
		if s := v.Param("sib"); s > 0 {
			e := w.under("sib", keys[0], s-1)
			v.Assume(digit(e.h, s-1) != digit(keys[0].h, s-1))
			t.do(opPut, e)
		}
		for d := v.Param("dels"); d != 0; d >>= 4 {
			t.do(opDel, keys[d&15-1])
		}
	} else {
		for i := 0; i < v.Param("n"); i++ {
			t.do(opPut, w.next())
		}
	}
	ops := v.Param("ops")
	for i := 0; i < v.Param("m"); i++ {
		if v.Param("inside") != 0 {
			t.inside(what, ops&7, w.next())
		} else {
			t.do(ops&7, w.next())
		}
		ops >>= 3
	}
	v.Reach("end")
	t.books(what)
	if v.Param("empty") != 0 {
		for len(t.live) > 0 {
			i := 0
			if v.Param("empty") == 2 {
				i = len(t.live) - 1
			}
			t.do(opDel, ent{k: t.live[i].k})
		}
		t.books(what)
	}
	w.check(v.Param("chk"))
	if v.Param("inside") != 0 && what&holdLive != 0 {
		w.c.All(func(k Key, p *uint64) bool {
			t.books(holdLive)
			return true
		})
	}
}

// inside: a Mod whose callback looks at the books, before and after its write.
func (t *tworld) inside(what, op int, e ent) {
	if !t.c.IsMap() {
		t.do(op, e)
		return
	}
	i := t.index(e.k)
	val := v.U64("val")
	t.c.Mod(e.k, func(p *uint64, ok bool) {
		t.books(what)
		*p = val
	})
	t.refPut(e, val)
	if i >= 0 {
		l := &t.live[i]
		t.dead = append(t.dead, l.vals...)
		l.keys = append(append([]v.Token(nil), l.keys...), putKey...)
		l.vals = putVal
	} else {
		t.live = append(t.live, toks{e.k, putKey, putVal})
	}
}
