package main

import (
	"hash/maphash"

	"amtverif/v"
)

// ent is a key with its hashes and, in the reference model, its value.
type ent struct {
	k   Key
	h   []uint64 // hash after 1, 2, ... writes of the key
	val uint64
}

// world is a container together with the reference model of its contents.
type world struct {
	c     Cont
	kind  int
	seed  maphash.Seed
	L     int // shared digits of the scenario
	D     int // distinct keys differ within the first L+D+1 digits
	all   []ent
	ref   []ent // live entries
	inOps int
}

func newWorld(kind, L, D int) *world {
	w := &world{c: newCont(kind), kind: kind, L: L, D: D}
	w.seed = v.LastSeed()
	return w
}

func digit(h []uint64, i int) uint64 { return h[i/16] >> (4 * uint(i%16)) & 15 }

// prefixEq: the first n digits agree (no forking).
func prefixEq(a, b []uint64, n int) bool {
	r := true
	i := 0
	for ; n >= 16; n -= 16 {
		r = v.And(r, a[i] == b[i])
		i++
	}
	if n > 0 {
		s := uint(64 - 4*n)
		r = v.And(r, a[i]<<s == b[i]<<s)
	}
	return r
}

func (w *world) hashes(k Key) []uint64 {
	n := (w.L+w.D)/16 + 1
	h := make([]uint64, n)
	for i := range h {
		h[i] = w.c.Hash(k, w.seed, i)
	}
	return h
}

// keyLen is the length of the i-th key of a scenario: 8 bytes, unless the parameter klens
// lists others (hexadecimal digits counting from 1 and indexing lengths, least significant
// first, repeated).
func (w *world) keyLen(i int) int {
	switch w.kind {
	case kStringMap, kBytesMap, kStringSet, kBytesSet, kMapString, kMapBytes, kSetString, kSetBytes:
		p := v.Param("klens")
		n := 0
		for q := p; q != 0; q >>= 4 {
			n++
		}
		if n > 0 {
			return lengths[p>>uint(4*(i%n))&15-1]
		}
	case kArrMapL, kArrSetL:
		return 64
	}
	return 8
}

// newKey is an arbitrary key, the i-th of the scenario.
func (w *world) newKey(name string, i int) ent {
	x, n := v.U64(name), w.keyLen(i)
	if n < 8 {
		x &= 1<<uint(8*n) - 1
	}
	e := ent{k: Key{x, n}}
	e.h = w.hashes(e.k)
	return e
}

// differ: the keys are not equal.
func differ(a, b Key) bool {
	if a.n != b.n {
		return true
	}
	return a.x != b.x
}

// parting: distinct keys share at most L+D digits.
func (w *world) parting(e ent) {
	for _, o := range w.all {
		if o.k.n != e.k.n {
			v.Assume(v.Not(prefixEq(e.h, o.h, w.L+w.D+1)))
		} else {
			v.Assume(v.Or(e.k.x == o.k.x, v.Not(prefixEq(e.h, o.h, w.L+w.D+1))))
		}
	}
}

// arb is an arbitrary key, possibly equal to earlier ones.
func (w *world) arb(name string) ent {
	e := w.newKey(name, len(w.all))
	w.parting(e)
	w.all = append(w.all, e)
	return e
}

// under is an arbitrary key that shares the first n digits with o.
func (w *world) under(name string, o ent, n int) ent {
	e := w.newKey(name, len(w.all))
	v.Assume(prefixEq(e.h, o.h, n))
	w.parting(e)
	w.all = append(w.all, e)
	return e
}

func (w *world) find(k Key) int {
	for i := range w.ref {
		if sameKey(w.ref[i].k, k) {
			return i
		}
	}
	return -1
}

const (
	opPut = iota
	opDel
	opMod
	opAny // any of the above
	opPutDel
	opHas
)

// checkSeed: the scenarios steer the hashes of the seed made by the constructor.
func (w *world) checkSeed() {
	if v.LastSeed() != w.seed {
		v.Unsupported("the container hashes with a seed the harness does not know")
	}
}

// apply performs one operation on container and reference.
func (w *world) apply(op int, e ent) {
	if op == opAny {
		n := 2
		if w.c.IsMap() {
			n = 3
		}
		op = v.Choose("op", n)
	} else if op == opPutDel {
		op = v.Choose("op", 2)
	}
	if op == opMod && !w.c.IsMap() {
		op = opPut
	}
	w.inOps++
	defer w.checkSeed()
	switch op {
	case opPut:
		val := v.U64("val")
		w.c.Put(e.k, val)
		w.refPut(e, val)
	case opDel:
		w.c.Del(e.k)
		w.refDel(e)
	case opMod:
		val := v.U64("val")
		calls := 0
		var existed bool
		var before uint64
		w.c.Mod(e.k, func(p *uint64, ok bool) {
			calls++
			existed = ok
			before = *p
			*p = val
		})
		i := w.find(e.k)
		v.Assert(calls == 1, "Mod calls its callback exactly once")
		if i >= 0 {
			v.Assert(existed, "Mod reports a present key as existing")
			v.Assert(before == w.ref[i].val, "Mod passes the current value")
		} else {
			v.Assert(!existed, "Mod reports a missing key as new")
			v.Assert(before == 0, "Mod passes a zero value for a missing key")
		}
		w.refPut(e, val)
	case opHas:
		w.c.Has(e.k)
	}
}

func (w *world) refPut(e ent, val uint64) {
	e.val = val
	if i := w.find(e.k); i >= 0 {
		w.ref[i].val = val
	} else {
		w.ref = append(w.ref, e)
	}
}

func (w *world) refDel(e ent) {
	if i := w.find(e.k); i >= 0 {
		n := make([]ent, 0, len(w.ref))
		n = append(n, w.ref[:i]...)
		w.ref = append(n, w.ref[i+1:]...)
	}
}

// ---- checks ----

const (
	chkLookup = 1
	chkLen    = 2
	chkAll    = 4
	chkDep    = 8
	chkStop   = 16 // All stops when told to
	chkOrder  = 32 // iteration order is stable and follows the hash digits only
	chkAbsent = 64 // any other key is missing
)

func (w *world) check(what int) {
	if what&chkLookup != 0 {
		w.checkLookups()
	}
	if what&chkAbsent != 0 {
		w.checkAbsent()
	}
	if what&chkLen != 0 {
		v.Assert(w.c.Len() == uint(len(w.ref)), "Len is the number of keys held")
	}
	if what&chkAll != 0 {
		w.checkAll()
	}
	if what&chkStop != 0 {
		w.checkStop()
	}
	if what&chkDep != 0 {
		w.checkDep()
	}
}

func (w *world) checkLookups() {
	for i := range w.ref {
		e := &w.ref[i]
		if !w.c.IsMap() {
			v.Assert(w.c.Has(e.k), "Has is true for a key that was added")
			continue
		}
		got, ok := w.c.Get(e.k)
		v.Assert(ok, "Get finds a key that was stored")
		v.Assert(got == e.val, "Get returns the last value stored")
		v.Assert(w.c.Val(e.k) == e.val, "Val returns the last value stored")
		p := w.c.Ptr(e.k)
		v.Assert(p != nil, "Ptr finds a key that was stored")
		v.Assert(*p == e.val, "Ptr points to the last value stored")
		v.Observe("val", got)
	}
	// keys used so far that are not held any more
	for i := range w.all {
		if w.find(w.all[i].k) < 0 {
			w.absent(w.all[i].k)
		}
	}
}

func (w *world) absent(k Key) {
	if !w.c.IsMap() {
		v.Assert(!w.c.Has(k), "Has is false for a key that is not in the set")
		return
	}
	got, ok := w.c.Get(k)
	v.Assert(!ok, "Get reports a missing key as missing")
	v.Assert(got == 0, "Get returns the zero value for a missing key")
	v.Assert(w.c.Val(k) == 0, "Val returns the zero value for a missing key")
	v.Assert(w.c.Ptr(k) == nil, "Ptr returns nil for a missing key")
}

// checkAbsent: an arbitrary key that was never used is missing.
func (w *world) checkAbsent() {
	e := w.newKey("other", len(w.all))
	for _, o := range w.all {
		v.Assume(differ(e.k, o.k))
	}
	for _, o := range w.all {
		v.Assume(v.Not(prefixEq(e.h, o.h, w.L+w.D+1)))
	}
	w.absent(e.k)
}

func (w *world) checkAll() {
	n := len(w.ref)
	seen := make([]int, n)
	calls := 0
	w.c.All(func(k Key, p *uint64) bool {
		calls++
		i := w.find(k)
		v.Assert(i >= 0, "All reports only keys that are held")
		seen[i]++
		if p != nil {
			v.Assert(*p == w.ref[i].val, "All reports the current value of the key")
		} else {
			v.Assert(!w.c.IsMap(), "All passes a value pointer")
		}
		return calls <= n
	})
	for i := range seen {
		v.Assert(seen[i] == 1, "All reports every key exactly once")
	}
	v.Assert(calls == n, "All makes one call per key")
}

// checkStop: the callback returns false at an arbitrary call; the calls made are a prefix of
// the full iteration.
func (w *world) checkStop() {
	n := len(w.ref)
	var order []Key
	var ptrs []*uint64
	w.c.All(func(k Key, p *uint64) bool {
		order = append(order, k)
		ptrs = append(ptrs, p)
		return len(order) <= n
	})
	v.Assert(len(order) == n, "All makes one call per key")
	for stop := 1; stop <= n; stop++ {
		calls := 0
		w.c.All(func(k Key, p *uint64) bool {
			v.Assert(calls < stop, "All makes no call after the callback returned false")
			v.Assert(v.And(order[calls].x == k.x, order[calls].n == k.n), "the order of iteration is stable")
			v.Assert(ptrs[calls] == p, "All passes the same pointer for a key every time")
			calls++
			return calls != stop
		})
		v.Assert(calls == stop, "All goes on until the callback returns false")
	}
}

// depth: the largest number of leading digits shared with another held key.
func (w *world) depth(i int) int {
	d := 0
	for j := range w.ref {
		if j == i {
			continue
		}
		for d <= w.L+w.D && prefixEq(w.ref[i].h, w.ref[j].h, d+1) {
			d++
		}
	}
	return d
}

func (w *world) checkDep() {
	n := len(w.ref)
	if n == 0 {
		v.Assert(w.c.Dep() == 0, "Dep is 0 for an empty container")
		return
	}
	sum := 0
	for i := range w.ref {
		sum += w.depth(i)
	}
	v.Assert(w.c.Dep() == float64(sum)/float64(n), "Dep is the mean depth of the keys held")
	v.Observe("dep", uint64(sum))
}

// ---- scenarios ----

// spine builds keys outside the region of interest: a key leaving the spine of base after
// exactly lvl shared digits.
func (w *world) sibling(base ent, lvl int) {
	e := w.under("sib", base, lvl)
	v.Assume(digit(e.h, lvl) != digit(base.h, lvl))
	w.put(e)
}

func (w *world) put(e ent) {
	val := v.U64("val")
	w.c.Put(e.k, val)
	e.val = val
	w.ref = append(w.ref, e)
}

// Free: n arbitrary operations on n arbitrary keys that share L digits.
// Parameters: kind, L, D, n, ops (base 8 digits, least significant first), sib (level+1 of one
// sibling of the spine, 0 for none), chk, each (check after every operation).
func Free() {
	w := newWorld(v.Param("kind"), v.Param("L"), v.Param("D"))
	n, ops, chk := v.Param("n"), v.Param("ops"), v.Param("chk")
	var base ent
	for i := 0; i < n; i++ {
		var e ent
		if i == 0 {
			e = w.arb("key")
			base = e
			if s := v.Param("sib"); s > 0 {
				w.sibling(base, s-1)
			}
		} else {
			e = w.under("key", base, w.L)
		}
		w.apply(ops&7, e)
		ops >>= 3
		if v.Param("each") != 0 {
			w.check(chk &^ chkAbsent)
		}
	}
	v.Reach("end")
	w.check(chk)
}

// build makes a node with c occupied slots below a spine of L shared digits: slot i holds
// one key, or a branch with two keys if bit i of sub is set. The slots' digits are arbitrary
// but increasing with i. Keys are inserted in the order given by ord.
func (w *world) build(c, sub, ord int) []ent {
	var keys []ent
	var lead []ent
	for i := 0; i < c; i++ {
		var e ent
		if i == 0 {
			e = w.arb("key")
		} else {
			e = w.under("key", lead[0], w.L)
			for j := range lead {
				v.Assume(digit(lead[j].h, w.L) < digit(e.h, w.L))
			}
		}
		lead = append(lead, e)
		keys = append(keys, e)
		if sub>>uint(i)&1 != 0 {
			f := w.under("key", e, w.L+1)
			v.Assume(digit(e.h, w.L+1) < digit(f.h, w.L+1))
			keys = append(keys, f)
		}
	}
	n := len(keys)
	out := make([]ent, 0, n)
	for i := 0; i < n; i++ {
		j := i
		switch ord {
		case 1:
			j = n - 1 - i
		case 2: // outside in
			j = i / 2
			if i%2 == 1 {
				j = n - 1 - i/2
			}
		case 3: // inside out
			k := n - 1 - i
			j = k / 2
			if k%2 == 1 {
				j = n - 1 - k/2
			}
		}
		out = append(out, keys[j])
	}
	return out
}

// dels deletes the keys at the positions listed in the parameter dels (hexadecimal digits
// counting from 1, least significant first).
func (w *world) dels(keys []ent) {
	for d := v.Param("dels"); d != 0; d >>= 4 {
		w.apply(opDel, keys[d&15-1])
	}
}

// Wide: a node with many entries, then n arbitrary operations on arbitrary keys.
func Wide() {
	w := newWorld(v.Param("kind"), v.Param("L"), v.Param("D"))
	keys := w.build(v.Param("c"), v.Param("sub"), v.Param("ord"))
	if s := v.Param("sib"); s > 0 {
		w.sibling(keys[0], s-1)
	}
	for _, e := range keys {
		w.put(e)
	}
	w.dels(keys)
	n, ops, chk := v.Param("n"), v.Param("ops"), v.Param("chk")
	for i := 0; i < n; i++ {
		e := w.arb("arb")
		w.apply(ops&7, e)
		ops >>= 3
	}
	v.Reach("end")
	w.check(chk)
}
