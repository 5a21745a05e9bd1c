package main

import "amtverif/v"

// ---- callers that break the rule about key slices ----

// Modified: the caller changes a key slice that a BytesMap or BytesSet retains. What the
// container holds for that entry is then undefined, but an operation with another key still
// ends, runs a Mod callback once and stores its own entry.
// Parameters: kind, L, D, n (keys put first), op, sib.
func Modified() {
	w := newWorld(v.Param("kind"), v.Param("L"), v.Param("D"))
	var slices [][]byte
	var base ent
	for i := 0; i < v.Param("n"); i++ {
		var e ent
		if i == 0 {
			e = w.arb("key")
			base = e
			if s := v.Param("sib"); s > 0 {
				w.sibling(base, s-1)
			}
		} else {
			e = w.under("key", base, w.L)
		}
		b := bytesOf(e.k)
		slices = append(slices, b)
		if w.c.IsMap() {
			w.c.(bytesMap).m.Set(b, v.U64("val"))
		} else {
			w.c.(bytesSet).s.Add(b)
		}
	}
	now := w.arb("now")
	copy(slices[0], bytesOf(now.k))
	e := w.under("new", base, w.L)
	// the changed key may sit below digits that are not its own; keep the digits where it
	// parts from another key within the bounds all the same
	last := w.L + w.D + 1
	for _, o := range w.all {
		v.Assume(v.Or(o.k.x == now.k.x, digit(o.h, last) != digit(now.h, last)))
	}
	val := v.U64("val")
	op := v.Param("op")
	if !w.c.IsMap() {
		w.c.Put(e.k, 0)
		v.Assert(w.c.Has(e.k), "Add of a key stores it, whatever became of other keys' slices")
	} else {
		if op == opMod {
			calls := 0
			w.c.Mod(e.k, func(p *uint64, ok bool) {
				calls++
				*p = val
			})
			v.Assert(calls == 1, "Mod calls its callback exactly once, whatever became of other keys' slices")
		} else {
			w.c.Put(e.k, val)
		}
		got, ok := w.c.Get(e.k)
		v.Assert(v.And(ok, got == val), "a key just stored is found, whatever became of other keys' slices")
	}
	v.Reach("end")
	n := 0
	w.c.All(func(Key, *uint64) bool { n++; return n < 20 })
	w.c.Del(e.k)
	w.c.Has(base.k)
	w.c.Len()
}

// InAll: what an All callback sees, and what one that panics leaves behind. The callback
// iterates again, looks keys up and writes through the value pointers.
func InAll() {
	w := prepare()
	n := len(w.ref)
	order := w.order()
	v.Assert(len(order) == n, "All makes one call per key")
	calls := 0
	stop := v.Choose("panic", n+1) // the call that panics; n: none
	panicked := v.Panics(func() {
		w.c.All(func(k Key, p *uint64) bool {
			v.Assert(calls < n, "All makes one call per key")
			v.Assert(sameKey(order[calls], k), "the order of iteration is stable under reads from the callback")
			i := w.find(k)
			v.Assert(i >= 0, "All reports only keys that are held")
			if p != nil {
				v.Assert(*p == w.ref[i].val, "All reports the current value of the key")
				x := v.U64("new")
				*p = x
				w.ref[i].val = x
			}
			w.check(v.Param("chk"))
			inner := 0
			w.c.All(func(k2 Key, q *uint64) bool {
				v.Assert(inner < n, "All makes one call per key")
				v.Assert(sameKey(order[inner], k2), "the order of iteration is stable")
				if inner == calls {
					v.Assert(p == q, "All passes the same pointer for a key every time")
				}
				inner++
				return inner <= calls
			})
			v.Assert(inner == calls+1, "an iteration inside another ends when it is told to")
			calls++
			if calls == stop+1 {
				panic("callback")
			}
			return true
		})
	})
	v.Assert(panicked == (stop < n), "All panics exactly if its callback does")
	if !panicked {
		v.Assert(calls == n, "All makes one call per key")
	}
	v.Reach("end")
	w.check(v.Param("chk"))
	ops := v.Param("ops")
	for i := 0; i < v.Param("m"); i++ {
		w.apply(ops&7, w.next())
		ops >>= 3
		w.check(v.Param("chk"))
	}
}
