package main

import (
	"hash/maphash"

	"amtverif/v"

	amt "github.com/wdamron/amt"
)

// prepare makes a world with either n arbitrary keys below a spine of L digits (c = 0), or a
// node with c occupied slots.
func prepare() *world {
	w := newWorld(v.Param("kind"), v.Param("L"), v.Param("D"))
	w.fill()
	return w
}

func (w *world) fill() { w.fillWith(v.Param("c")) }

func (w *world) fillWith(c int) {
	if c > 0 {
		keys := w.build(c, v.Param("sub"), v.Param("ord"))
		if s := v.Param("sib"); s > 0 {
			w.sibling(keys[0], s-1)
		}
		for _, e := range keys {
			w.put(e)
		}
		w.dels(keys)
		return
	}
	n := v.Param("n")
	for i := 0; i < n; i++ {
		e := w.next()
		val := v.U64("val")
		w.c.Put(e.k, val)
		w.refPut(e, val)
		if i == 0 {
			if s := v.Param("sib"); s > 0 {
				w.sibling(e, s-1)
			}
		}
	}
}

// next is another arbitrary key below the spine.
func (w *world) next() ent {
	if len(w.all) == 0 {
		return w.arb("key")
	}
	return w.under("key", w.all[0], w.L)
}

// ModIn: what a Mod callback sees, and what one that panics leaves behind.
func ModIn() {
	w := prepare()
	chk := v.Param("chk")
	e := w.next()
	i := w.find(e.k)
	val := v.U64("new")
	doPanic := v.Choose("panic", 2) == 1
	calls := 0
	panicked := v.Panics(func() {
		w.c.Mod(e.k, func(p *uint64, ok bool) {
			calls++
			w.check(chk)
			*p = val
			if i >= 0 {
				w.ref[i].val = val
			}
			w.check(chk)
			if doPanic {
				panic("callback")
			}
		})
	})
	v.Assert(calls == 1, "Mod calls its callback exactly once")
	v.Assert(panicked == doPanic, "Mod panics exactly if its callback does")
	if !doPanic {
		w.refPut(e, val)
	}
	v.Reach("end")
	w.check(chk)
	// the map goes on working
	ops := v.Param("ops")
	for k := 0; k < v.Param("m"); k++ {
		f := e
		if v.Choose("again", 2) == 0 {
			f = w.next()
		}
		w.apply(ops&7, f)
		ops >>= 3
		w.check(chk)
	}
}

// ModPure: callbacks that leave, change or only read the value.
func ModPure() {
	w := prepare()
	chk := v.Param("chk")
	for k := 0; k < v.Param("m"); k++ {
		e := w.next()
		i := w.find(e.k)
		val := v.U64("new")
		mode := v.Choose("mode", 3)
		calls := 0
		var ptr *uint64
		w.c.Mod(e.k, func(p *uint64, ok bool) {
			calls++
			ptr = p
			v.Assert(p != nil, "Mod passes a pointer")
			if i >= 0 {
				v.Assert(ok, "Mod reports a present key as existing")
				v.Assert(*p == w.ref[i].val, "Mod passes the current value")
			} else {
				v.Assert(!ok, "Mod reports a missing key as new")
				v.Assert(*p == 0, "Mod passes a zero value for a missing key")
			}
			switch mode {
			case 1:
				*p = val
			case 2:
				*p = *p + val
			}
		})
		v.Assert(calls == 1, "Mod calls its callback exactly once")
		var now uint64
		if i >= 0 {
			now = w.ref[i].val
		}
		switch mode {
		case 1:
			now = val
		case 2:
			now = now + val
		}
		w.refPut(e, now)
		v.Assert(w.c.Ptr(e.k) == ptr, "the pointer passed to Mod's callback is the key's value slot")
		w.check(chk)
	}
	v.Reach("end")
	w.check(chk)
}

type held struct {
	k Key
	p *uint64
}

// Pointers: pointers taken before a history stay the storage of their keys' values.
func Pointers() {
	w := prepare()
	var hs []held
	switch v.Param("how") {
	case 0:
		for _, e := range w.ref {
			hs = append(hs, held{e.k, w.c.Ptr(e.k)})
		}
	case 1:
		for _, e := range w.ref {
			w.c.Mod(e.k, func(p *uint64, ok bool) { hs = append(hs, held{e.k, p}) })
		}
	case 2:
		w.c.All(func(k Key, p *uint64) bool {
			hs = append(hs, held{k, p})
			return true
		})
	}
	ops := v.Param("ops")
	for i := 0; i < v.Param("m"); i++ {
		e := w.next()
		if v.Param("take") != 0 && w.find(e.k) < 0 {
			// a new key: keep the pointer the callback gets
			val := v.U64("val")
			w.c.Mod(e.k, func(p *uint64, ok bool) {
				hs = append(hs, held{e.k, p})
				*p = val
			})
			w.refPut(e, val)
		} else {
			w.apply(ops&7, e)
		}
		ops >>= 3
		live := make([]held, 0, len(hs))
		for _, h := range hs {
			if w.find(h.k) >= 0 {
				live = append(live, h)
			}
		}
		hs = live
	}
	v.Reach("end")
	for _, h := range hs {
		j := w.find(h.k)
		v.Assert(w.c.Ptr(h.k) == h.p, "a value pointer stays the key's value slot")
		v.Assert(*h.p == w.ref[j].val, "a value pointer shows the current value")
		val := v.U64("write")
		*h.p = val
		w.ref[j].val = val
	}
	w.checkLookups()
	w.checkAll()
	for _, h := range hs {
		val := v.U64("set")
		w.c.Put(h.k, val)
		w.refPut(ent{k: h.k}, val)
		v.Assert(*h.p == val, "a Set of the key is seen through a pointer taken earlier")
	}
	w.checkLookups()
}

// order lists the keys in iteration order.
func (w *world) order() []Key {
	var ks []Key
	max := len(w.ref) + 1
	w.c.All(func(k Key, p *uint64) bool {
		ks = append(ks, k)
		return len(ks) < max
	})
	return ks
}

func compare(a, b *world) {
	ka, kb := a.order(), b.order()
	v.Assert(len(ka) == len(kb), "equal contents: All makes the same number of calls")
	for i := range ka {
		v.Assert(sameKey(ka[i], kb[i]), "equal contents: same iteration order")
	}
	v.Assert(a.c.Dep() == b.c.Dep(), "equal contents: same Dep")
}

func (w *world) program(prog int, keys []ent) {
	for ; prog != 0; prog >>= 4 {
		i := prog & 15
		e := keys[(i-1)&7%len(keys)]
		if i <= 7 {
			val := v.U64("val")
			w.c.Put(e.k, val)
			w.refPut(e, val)
		} else {
			w.c.Del(e.k)
			w.refDel(e)
		}
	}
}

// History: two histories with the same contents in the end. The programs pa and pb are
// lists of hexadecimal digits, least significant first: 1..7 puts key 0..6, 9..15 deletes it.
func History() {
	v.PinSeed()
	a := newWorld(v.Param("kind"), v.Param("L"), v.Param("D"))
	b := newWorld(v.Param("kind"), v.Param("L"), v.Param("D"))
	if a.seed != b.seed {
		v.Unsupported("seeds cannot be pinned")
	}
	var keys []ent
	for i := 0; i < v.Param("n"); i++ {
		e := a.next()
		for _, o := range keys {
			v.Assume(differ(o.k, e.k))
		}
		keys = append(keys, e)
	}
	a.program(v.Param("pa"), keys)
	b.program(v.Param("pb"), keys)
	a.checkSeed()
	b.checkSeed()
	if len(a.ref) != len(b.ref) {
		panic("the programs do not have the same result")
	}
	v.Reach("end")
	compare(a, b)
}

// HistoryWide: a node with many entries built in two orders, with an extra key inserted and
// deleted again in one of them.
func HistoryWide() {
	v.PinSeed()
	a := newWorld(v.Param("kind"), v.Param("L"), v.Param("D"))
	b := newWorld(v.Param("kind"), v.Param("L"), v.Param("D"))
	if a.seed != b.seed {
		v.Unsupported("seeds cannot be pinned")
	}
	keys := a.build(v.Param("c"), v.Param("sub"), v.Param("ord"))
	if s := v.Param("sib"); s > 0 {
		e := a.under("sib", keys[0], s-1)
		v.Assume(digit(e.h, s-1) != digit(keys[0].h, s-1))
		keys = append(keys, e)
	}
	for _, e := range keys {
		a.put(e)
	}
	var x ent
	at := v.Param("at")
	for i := range keys {
		j := i
		if v.Param("rev") != 0 {
			j = len(keys) - 1 - i
		}
		if i == at {
			x = a.arb("extra")
			for _, o := range keys {
				v.Assume(differ(o.k, x.k))
			}
			b.put(x)
		}
		b.put(keys[j])
	}
	if at >= len(keys) {
		x = a.arb("extra")
		for _, o := range keys {
			v.Assume(differ(o.k, x.k))
		}
		b.put(x)
	}
	b.c.Del(x.k)
	b.refDel(x)
	v.Reach("end")
	compare(a, b)
}

// reads performs every read-only operation.
func (w *world) reads(k Key) {
	w.c.Has(k)
	if w.c.IsMap() {
		w.c.Get(k)
		w.c.Val(k)
		w.c.Ptr(k)
	}
	w.c.Len()
	w.c.Dep()
	w.c.Nil()
	w.c.All(func(Key, *uint64) bool { return true })
	w.c.All(func(Key, *uint64) bool { return false })
}

// Readers: two readers of one container.
func Readers() {
	w := prepare()
	for i, ops := 0, v.Param("ops"); i < v.Param("m"); i++ {
		w.apply(ops&7, w.next())
		ops >>= 3
	}
	e, f := w.next(), w.next()
	v.Parallel(func() { w.reads(e.k) }, func() { w.reads(f.k) }, "two readers of one container")
	v.Reach("end")
	w.check(v.Param("chk"))
}

// Indep: operations on two containers that may have the same keys.
func Indep() {
	a := newWorld(v.Param("kind"), v.Param("L"), v.Param("D"))
	b := newWorld(v.Param("kind2"), v.Param("L"), v.Param("D"))
	a.fill()
	b.fillWith(v.Param("c2"))
	e, f := a.next(), b.next()
	oa, ob := v.Param("ops")&7, v.Param("ops")>>3&7
	oa, ob = a.pickOf(oa), b.pickOf(ob)
	va, vb := v.U64("va"), v.U64("vb")
	v.Parallel(func() {
		a.reads(e.k)
		a.do(oa, e, va)
		a.reads(e.k)
	}, func() {
		b.reads(f.k)
		b.do(ob, f, vb)
		b.reads(f.k)
	}, "operations on different containers")
	a.after(oa, e, va)
	b.after(ob, f, vb)
	v.Reach("end")
	a.check(v.Param("chk"))
	b.check(v.Param("chk"))
}

// Fresh: containers that are made, and every operation used for the first time, by two
// goroutines at once.
func Fresh() {
	use := func(kind int, k Key, val uint64) {
		c := newCont(kind)
		v.Assert(!c.Nil() && c.Len() == 0 && c.Dep() == 0, "a new container is empty")
		v.Assert(!c.Has(k), "a new container holds no key")
		c.Put(k, val)
		n := 0
		c.All(func(x Key, p *uint64) bool {
			v.Assert(sameKey(x, k), "All reports the key inserted")
			n++
			return true
		})
		v.Assert(n == 1 && c.Len() == 1 && c.Dep() == 0 && c.Has(k), "a container with one key")
		if c.IsMap() {
			c.Mod(k, func(p *uint64, ok bool) {
				v.Assert(ok && *p == val, "Mod sees the value stored")
			})
			x, ok := c.Get(k)
			v.Assert(ok && x == val && c.Val(k) == val && *c.Ptr(k) == val, "the value stored")
		}
		c.Del(k)
		v.Assert(c.Len() == 0 && !c.Has(k), "the key is deleted")
		if c.IsMap() {
			c.Mod(k, func(p *uint64, ok bool) {
				v.Assert(!ok, "Mod sees the key missing")
			})
			v.Assert(c.Has(k), "Mod stores the key")
		}
	}
	kind, kind2 := v.Param("kind"), v.Param("kind2")
	k := Key{v.U64("k"), (&world{kind: kind}).keyLen(0)}
	k2 := Key{v.U64("k2"), (&world{kind: kind2}).keyLen(0)}
	x, x2 := v.U64("v"), v.U64("v2")
	v.Parallel(func() { use(kind, k, x) }, func() { use(kind2, k2, x2) }, "containers made by different goroutines")
	v.Reach("end")
}

func (w *world) pickOf(op int) int {
	switch op {
	case opAny:
		return w.pick()
	case opPutDel:
		return v.Choose("op", 2)
	case opMod:
		if !w.c.IsMap() {
			return opPut
		}
	}
	return op
}

func (w *world) pick() int {
	n := 2
	if w.c.IsMap() {
		n = 3
	}
	return v.Choose("op", n)
}

// do performs an operation without touching the reference; after brings that up to date.
func (w *world) do(op int, e ent, val uint64) {
	switch op {
	case opPut:
		w.c.Put(e.k, val)
	case opDel:
		w.c.Del(e.k)
	case opMod:
		w.c.Mod(e.k, func(p *uint64, ok bool) { *p = val })
	}
}

func (w *world) after(op int, e ent, val uint64) {
	if op == opDel {
		w.refDel(e)
	} else {
		w.refPut(e, val)
	}
}

// Alias: a copy of the handle denotes the same container.
func Alias() {
	w := prepare()
	orig, cp := w.c, copyOf(w.c)
	ops := v.Param("ops")
	for i := 0; i < v.Param("m"); i++ {
		e := w.next()
		w.c = orig
		if v.Choose("via", 2) == 1 {
			w.c = cp
		}
		w.apply(ops&7, e)
		ops >>= 3
	}
	v.Reach("end")
	w.c = orig
	w.check(v.Param("chk"))
	w.c = cp
	w.check(v.Param("chk"))
	cp2 := copyOf(cp)
	w.c = cp2
	w.check(v.Param("chk"))
}

// Zero: operation op on a handle that was never initialised, and on a fresh one.
func Zero() {
	kind, op := v.Param("kind"), v.Param("op")
	z := zeroCont(kind)
	k := Key{v.U64("key"), 8}
	called := false
	p := v.Panics(func() {
		switch op {
		case 0:
			v.Assert(z.Nil(), "Nil is true for a zero value")
			v.Assert(z.Len() == 0, "Len is 0 for a zero value")
			v.Assert(z.Dep() == 0, "Dep is 0 for a zero value")
			if z.IsMap() {
				v.Assert(z.Val(k) == 0, "Val is zero for a zero-value map")
			}
		case 1:
			z.Has(k)
		case 2:
			z.Put(k, 1)
		case 3:
			z.Del(k)
		case 4:
			z.All(func(Key, *uint64) bool { called = true; return true })
		case 5:
			z.Get(k)
		case 6:
			z.Mod(k, func(*uint64, bool) { called = true })
		case 7:
			z.Ptr(k)
		}
	})
	v.Assert(p == (op != 0), "exactly the operations that need an initialised handle panic")
	v.Assert(!called, "no callback runs on an uninitialised handle")
	v.Assert(z.Nil(), "a zero value stays uninitialised")
	v.Assert(z.Len() == 0, "a zero value stays empty")
	c := newCont(kind)
	v.Assert(!c.Nil(), "Nil is false after construction")
	v.Assert(c.Len() == 0, "Len is 0 after construction")
	v.Assert(c.Dep() == 0, "Dep is 0 after construction")
	v.Assert(!c.Has(k), "a new container holds no key")
	if c.IsMap() {
		v.Assert(c.Val(k) == 0, "Val is zero in a new map")
	}
	c.All(func(Key, *uint64) bool { called = true; return true })
	v.Assert(!called, "All makes no call on a new container")
	c.Del(k)
	v.Assert(c.Len() == 0, "Len stays 0 after deleting a missing key")
	v.Reach("end")
}

// Hashing: Hash and Equal of the key types of the package. iter is the repeat count.
func Hashing() {
	iter := v.Param("iter")
	seed := maphash.MakeSeed()
	seed2 := maphash.MakeSeed()
	n := v.Param("n")
	a, b := make([]byte, n), make([]byte, v.Param("n2"))
	for i := range a {
		a[i] = byte(v.U64("a"))
	}
	for i := range b {
		b[i] = byte(v.U64("b"))
	}
	sa, sb := append([]byte(nil), a...), append([]byte(nil), b...)
	eq := sameBytes(a, b)
	want, want2 := hashRep(a, seed, iter), hashRep(b, seed, iter)
	switch v.Param("what") {
	case 0:
		v.Assert(amt.HashBytes(a, seed, uint(iter)) == want, "HashBytes hashes the bytes once plus once per repeat")
		v.Assert(amt.HashBytes(b, seed, uint(iter)) == want2, "HashBytes hashes the bytes once plus once per repeat")
		v.Assert(amt.HashBytes(a, seed2, uint(iter)) == hashRep(a, seed2, iter), "HashBytes uses the seed")
	case 1:
		ka, kb := amt.String(a), amt.String(b)
		v.Assert(ka.Hash(seed, uint(iter)) == want, "String.Hash hashes the bytes once plus once per repeat")
		v.Assert(kb.Hash(seed, uint(iter)) == want2, "String.Hash hashes the bytes once plus once per repeat")
		v.Assert(ka.Hash(seed2, uint(iter)) == hashRep(a, seed2, iter), "String.Hash uses the seed")
		v.Assert(ka.Equal(kb) == eq, "String.Equal is equality of the strings")
		v.Assert(kb.Equal(ka) == eq, "String.Equal is equality of the strings")
		v.Assert(ka.Equal(amt.String(sa)), "String.Equal is equality of the strings")
	case 2:
		ka, kb := amt.Bytes(a), amt.Bytes(b)
		v.Assert(ka.Hash(seed, uint(iter)) == want, "Bytes.Hash hashes the bytes once plus once per repeat")
		v.Assert(kb.Hash(seed, uint(iter)) == want2, "Bytes.Hash hashes the bytes once plus once per repeat")
		v.Assert(ka.Hash(seed2, uint(iter)) == hashRep(a, seed2, iter), "Bytes.Hash uses the seed")
		v.Assert(ka.Equal(kb) == eq, "Bytes.Equal is equality of the contents")
		v.Assert(kb.Equal(ka) == eq, "Bytes.Equal is equality of the contents")
		v.Assert(ka.Equal(amt.Bytes(sa)), "Bytes.Equal is equality of the contents")
	case 3:
		x, y := v.U64("x"), v.U64("y")
		ka, kb := amt.Int(x), amt.Int(y)
		bx := bytes8(x)
		be := [8]byte{bx[7], bx[6], bx[5], bx[4], bx[3], bx[2], bx[1], bx[0]}
		h := ka.Hash(seed, uint(iter))
		v.Assert(v.Or(h == hashRep(bx[:], seed, iter), h == hashRep(be[:], seed, iter)), "Int.Hash hashes the eight bytes once plus once per repeat")
		h2 := ka.Hash(seed2, uint(iter))
		v.Assert(v.Or(h2 == hashRep(bx[:], seed2, iter), h2 == hashRep(be[:], seed2, iter)), "Int.Hash uses the seed")
		var i any = ka
		e, ok := i.(interface{ Equal(amt.Int) bool })
		v.Assert(ok, "Int is usable as a generic key")
		v.Assert(e.Equal(kb) == (x == y), "Int.Equal is equality of the integers")
		v.Assert(e.Equal(ka), "Int.Equal is equality of the integers")
	}
	v.Assert(sameBytes(a, sa), "hashing does not change the key")
	v.Assert(sameBytes(b, sb), "hashing does not change the key")
	v.Reach("end")
}

func sameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	var d byte
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

// LK is a generic key that records how it is hashed.
type LK struct{ id uint64 }

type hashCall struct {
	seed maphash.Seed
	iter uint
}

var hashLog []hashCall

func (k LK) Equal(o LK) bool { return k.id == o.id }
func (k LK) Hash(seed maphash.Seed, iter uint) uint64 {
	hashLog = append(hashLog, hashCall{seed, iter})
	return GK{k.id, 0}.Hash(seed, iter)
}

func toLK(k Key) LK   { return LK{k.x} }
func fromLK(k LK) Key { return Key{k.id, 8} }

// HashUse: the arguments of every call of a generic key's Hash.
func HashUse() {
	kind := kMapLog
	if v.Param("set") != 0 {
		kind = kSetLog
	}
	w := newWorld(kind, v.Param("L"), v.Param("D"))
	limit := uint(w.L+w.D) / 16
	ops := v.Param("ops")
	for i := 0; i < v.Param("n"); i++ {
		e := w.next()
		hashLog = nil
		w.apply(ops&7, e)
		ops >>= 3
		w.hashUse(limit)
		w.checkLookups()
		w.hashUse(limit)
	}
	v.Reach("end")
	w.check(chkLookup | chkLen | chkAll)
}

func (w *world) hashUse(limit uint) {
	for _, h := range hashLog {
		v.Assert(h.seed == w.seed, "Hash is called with the container's own seed")
		v.Assert(h.iter <= limit, "Hash is called with the number of 64-bit hashes used up")
	}
	hashLog = nil
}
