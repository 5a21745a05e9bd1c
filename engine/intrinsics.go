package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, s *State, fn *ssa.Function, args []Val) Val

var intrinsicCache sync.Map // *ssa.Function -> intrinsic (nil entry: none)

const vpkg = "amtverif/v."

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	if c, ok := intrinsicCache.Load(fn); ok {
		return c.(intrinsic)
	}
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	name := f.String()
	h := intrinsics[name]
	if h == nil {
		for _, p := range intrinsicPrefixes {
			if strings.HasPrefix(name, p.prefix) {
				h = p.h
			}
		}
	}
	intrinsicCache.Store(fn, h)
	return h
}

var intrinsicPrefixes = []struct {
	prefix string
	h      intrinsic
}{
	{"fmt.Sprint", func(x *Exec, s *State, fn *ssa.Function, a []Val) Val { return x.strConst(s, "fmt") }},
	{"fmt.Print", func(x *Exec, s *State, fn *ssa.Function, a []Val) Val { return Agg{x.c.Const(64, 0), Iface{}} }},
	{"fmt.Errorf", func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		return Iface{types.Typ[types.String], x.strConst(s, "error")}
	}},
}

func nop(x *Exec, s *State, fn *ssa.Function, a []Val) Val { return Agg{} }

// HBuf is the state of a maphash.Hash: the bytes written so far.
type HBuf struct{ bs []*Term }

var intrinsics map[string]intrinsic

func init() {
	m := map[string]intrinsic{}
	intrinsics = m
	for _, w := range []uint8{0, 8, 16, 32, 64} {
		w := w
		sfx := ""
		if w != 0 {
			sfx = fmt.Sprint(w)
		}
		m["math/bits.OnesCount"+sfx] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val { return x.onesCount(s, a[0].(*Term)) }
		m["math/bits.TrailingZeros"+sfx] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
			return x.trailingZeros(s, a[0].(*Term))
		}
		m["math/bits.Len"+sfx] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val { return x.bitLen(s, a[0].(*Term)) }
		m["math/bits.LeadingZeros"+sfx] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
			t := a[0].(*Term)
			return x.c.Sub(x.c.Const(64, uint64(t.w)), x.bitLen(s, t))
		}
	}
	// hash/maphash
	m["hash/maphash.MakeSeed"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val { return Agg{x.makeSeed(s)} }
	m["(*hash/maphash.Hash).SetSeed"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		seed := a[1].(Agg)[0].(*Term)
		if x.decide(s, x.c.Eq(seed, x.c.Const(64, 0))) {
			panic(goPanic{"maphash: use of uninitialized Seed"})
		}
		x.hset(s, x.toPtr(a[0]), seed, nil)
		return Agg{}
	}
	m["(*hash/maphash.Hash).Seed"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		p := x.toPtr(a[0])
		seed, bs := x.hget(s, p)
		if seed.isConst() && seed.val == 0 {
			seed = x.makeSeed(s)
			x.hset(s, p, seed, bs)
		}
		return Agg{seed}
	}
	m["(*hash/maphash.Hash).Reset"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		p := x.toPtr(a[0])
		seed, _ := x.hget(s, p)
		x.hset(s, p, seed, nil)
		return Agg{}
	}
	hwrite := func(x *Exec, s *State, p Ptr, add []*Term) {
		seed, bs := x.hget(s, p)
		x.hset(s, p, seed, append(append(make([]*Term, 0, len(bs)+len(add)), bs...), add...))
	}
	m["(*hash/maphash.Hash).Write"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		sl := a[1].(Slice)
		n := int64(x.concretize(s, sl.len))
		hwrite(x, s, x.toPtr(a[0]), x.bytesAt(s, sl.p, n))
		return Agg{x.c.Const(64, uint64(n)), Iface{}}
	}
	m["(*hash/maphash.Hash).WriteString"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		b := x.strBytes(s, a[1].(Str))
		hwrite(x, s, x.toPtr(a[0]), b)
		return Agg{x.c.Const(64, uint64(len(b))), Iface{}}
	}
	m["(*hash/maphash.Hash).WriteByte"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		hwrite(x, s, x.toPtr(a[0]), []*Term{a[1].(*Term)})
		return Iface{}
	}
	m["(*hash/maphash.Hash).Sum64"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		p := x.toPtr(a[0])
		seed, bs := x.hget(s, p)
		if seed.isConst() && seed.val == 0 {
			seed = x.makeSeed(s)
			x.hset(s, p, seed, bs)
		}
		return x.hash(s, seed, bs)
	}
	m["hash/maphash.Bytes"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		sl := a[1].(Slice)
		n := int64(x.concretize(s, sl.len))
		return x.hash(s, x.goodSeed(s, a[0]), x.bytesAt(s, sl.p, n))
	}
	m["hash/maphash.String"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		return x.hash(s, x.goodSeed(s, a[0]), x.strBytes(s, a[1].(Str)))
	}
	// assembly-backed helpers of the standard library
	m["bytes.Equal"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		p, q := a[0].(Slice), a[1].(Slice)
		n, k := x.concretize(s, p.len), x.concretize(s, q.len)
		if n != k {
			return x.c.F
		}
		return x.eqList(s, x.bytesAt(s, p.p, int64(n)), x.bytesAt(s, q.p, int64(n)))
	}
	m["internal/bytealg.Equal"] = m["bytes.Equal"]
	cmp := func(x *Exec, a, b []*Term) Val {
		return x.c.Ite(x.cmpLess(a, b), x.c.Const(64, ^uint64(0)), x.c.Ite(x.cmpLess(b, a), x.c.Const(64, 1), x.c.Const(64, 0)))
	}
	m["bytes.Compare"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		p, q := a[0].(Slice), a[1].(Slice)
		n, k := x.concretize(s, p.len), x.concretize(s, q.len)
		return cmp(x, x.bytesAt(s, p.p, int64(n)), x.bytesAt(s, q.p, int64(k)))
	}
	m["strings.Compare"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		return cmp(x, x.strBytes(s, a[0].(Str)), x.strBytes(s, a[1].(Str)))
	}
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.Gosched"} {
		m[n] = nop
	}
	lockKey := func(x *Exec, s *State, v Val) int64 {
		p := x.toPtr(v)
		if p.obj == 0 {
			panic(goPanic{"invalid memory address or nil pointer dereference"})
		}
		return int64(p.obj)<<24 | p.off
	}
	lock := func(shared bool) intrinsic {
		return func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
			k := lockKey(x, s, a[0])
			if hasLock(s.locks, k) || !shared && hasLock(s.locks, k|sharedLock) {
				panic(event{"hang", "waits for a lock it holds itself"})
			}
			if shared {
				k |= sharedLock
			}
			s.locks = withLock(s.locks, k)
			return Agg{}
		}
	}
	unlock := func(shared bool) intrinsic {
		return func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
			k := lockKey(x, s, a[0])
			if shared {
				k |= sharedLock
			}
			if !hasLock(s.locks, k) {
				panic(goPanic{"sync: unlock of unlocked mutex"})
			}
			s.locks = withoutLock(s.locks, k)
			return Agg{}
		}
	}
	m["(*sync.Mutex).Lock"], m["(*sync.Mutex).Unlock"] = lock(false), unlock(false)
	m["(*sync.RWMutex).Lock"], m["(*sync.RWMutex).Unlock"] = lock(false), unlock(false)
	m["(*sync.RWMutex).RLock"], m["(*sync.RWMutex).RUnlock"] = lock(true), unlock(true)
	m["runtime.SetFinalizer"] = nop
	// atomic accesses exclude each other
	for _, ty := range []struct {
		n string
		t types.Type
	}{{"Int32", types.Typ[types.Int32]}, {"Uint32", types.Typ[types.Uint32]}, {"Int64", types.Typ[types.Int64]},
		{"Uint64", types.Typ[types.Uint64]}, {"Uintptr", types.Typ[types.Uintptr]}, {"Pointer", types.Typ[types.UnsafePointer]}} {
		t := ty.t
		m["sync/atomic.Load"+ty.n] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val { return x.load(s, t, x.toPtr(a[0])) }
		m["sync/atomic.Store"+ty.n] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
			x.store(s, t, x.toPtr(a[0]), a[1])
			return Agg{}
		}
		m["sync/atomic.Swap"+ty.n] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
			o := x.load(s, t, x.toPtr(a[0]))
			x.store(s, t, x.toPtr(a[0]), a[1])
			return o
		}
		m["sync/atomic.CompareAndSwap"+ty.n] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
			o := x.load(s, t, x.toPtr(a[0]))
			if x.decide(s, x.equal(s, t, t, o, a[1])) {
				x.store(s, t, x.toPtr(a[0]), a[2])
				return x.c.T
			}
			return x.c.F
		}
		if ty.n != "Pointer" {
			m["sync/atomic.Add"+ty.n] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
				r := x.c.Add(x.load(s, t, x.toPtr(a[0])).(*Term), a[1].(*Term))
				x.store(s, t, x.toPtr(a[0]), r)
				return r
			}
		}
	}
	for n, h := range m {
		if h := h; strings.HasPrefix(n, "sync/atomic.") {
			m[n] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
				l := s.locks
				s.locks = withLock(l, atomicLock)
				defer func() { s.locks = l }()
				return h(x, s, fn, a)
			}
		}
	}
	initHarnessIntrinsics(m)
}

func (x *Exec) goodSeed(s *State, v Val) *Term {
	seed := v.(Agg)[0].(*Term)
	if x.decide(s, x.c.Eq(seed, x.c.Const(64, 0))) {
		panic(goPanic{"maphash: use of uninitialized Seed"})
	}
	return seed
}

func (x *Exec) makeSeed(s *State) *Term {
	if s.pin && s.pinned != 0 {
		s.lastSeed = s.pinned
		return x.c.Const(64, s.pinned)
	}
	s.seeds++
	s.lastSeed = s.seeds
	if s.pin {
		s.pinned = s.seeds
	}
	return x.c.Const(64, s.seeds)
}

// A maphash.Hash keeps its seed in its first word and an HBuf in the second.
func (x *Exec) hget(s *State, p Ptr) (*Term, []*Term) {
	x.checkAccess(s, p, 16, false)
	o := s.heap[p.obj]
	seed, ok := x.loadInt(s, o, p.off, 64).(*Term)
	if !ok {
		panic(unsupported("hash seed"))
	}
	c, ok := o.cells[p.off+8]
	if !ok {
		return seed, nil
	}
	if b, ok := c.v.(HBuf); ok {
		return seed, b.bs
	}
	return seed, nil
}

func (x *Exec) hset(s *State, p Ptr, seed *Term, bs []*Term) {
	x.checkAccess(s, p, 16, true)
	o := s.wobj(p.obj)
	x.put(s, o, p.off, 8, seed)
	o.cells[p.off+8] = cell{8, HBuf{bs}}
}

func (x *Exec) hash(s *State, seed *Term, bs []*Term) *Term {
	k := x.concretize(s, seed)
	s.lastSeed = k
	return x.uf(s, 'h', fmt.Sprintf("m%d.%d", k, len(bs)), k, 0, bs)
}

// ---- bit counting ----

// members views t (width w) as a set of bit positions: one-hot bits 1<<e under conditions.
type member struct {
	e    *Term // position
	cond *Term
}

func (x *Exec) members(t *Term) ([]member, bool) {
	w := t.w
	// strip constant zero high part
	for t.op == OConcat && t.a.isConst() && t.a.val == 0 {
		t = t.b
	}
	if t.op == OShl && !t.a.isConst() || t.op == OLshr {
		return x.shifted(t, w)
	}
	es, ok := x.positions(t, nil)
	if !ok {
		return nil, false
	}
	var out []member
	for _, e := range es {
		bt := x.c.bitTest(t, x.fitw(e, t.w))
		if bt == nil {
			return nil, false
		}
		out = append(out, member{x.fitw(e, w), bt})
	}
	return out, true
}

// shifted views y<<n and y>>n through the members of y.
func (x *Exec) shifted(t *Term, w uint8) ([]member, bool) {
	ms, ok := x.members(t.a)
	if !ok {
		return nil, false
	}
	k := x.c.Const(t.w, uint64(t.w))
	for i, m := range ms {
		e := x.fitw(m.e, t.w)
		if e.w != t.w || leadingZeroBits(e) == 0 {
			return nil, false
		}
		var in *Term
		switch {
		case t.op == OLshr:
			ms[i].e = x.c.Sub(e, t.b)
			in = x.c.BNot(x.c.Ult(e, t.b))
		case t.b.op == OSub && t.b.a == k && leadingZeroBits(t.b.b) > 0: // y << (w-r)
			ms[i].e = x.c.Add(e, t.b)
			in = x.c.BAnd(x.c.Ult(e, t.b.b), x.c.BNot(x.c.Ult(k, t.b.b)))
		default:
			if leadingZeroBits(t.b) == 0 {
				return nil, false
			}
			ms[i].e = x.c.Add(e, t.b)
			in = x.c.Ult(ms[i].e, k)
		}
		ms[i].cond = x.c.BAnd(m.cond, in)
		ms[i].e = x.fitw(ms[i].e, w)
	}
	return ms, true
}

// positions collects terms among which every set bit of t is found.
func (x *Exec) positions(t *Term, out []*Term) ([]*Term, bool) {
	switch {
	case t.isConst():
		for j := uint8(0); j < t.w; j++ {
			if t.val>>j&1 == 1 {
				out = append(out, x.c.Const(t.w, uint64(j)))
			}
		}
		return out, true
	case t.op == OShl && t.a.isConst() && t.a.val == 1:
		return append(out, t.b), true
	case t.op == OConcat && t.a.isConst() && t.a.val == 0:
		return x.positions(t.b, out)
	case t.op == OOr || t.op == OXor || t.op == OIte:
		a, b := t.a, t.b
		if t.op == OIte {
			a, b = t.b, t.c
		}
		o, ok := x.positions(a, out)
		if !ok {
			return nil, false
		}
		return x.positions(b, o)
	case t.op == OAnd:
		var best []*Term
		found := false
		for _, y := range []*Term{t.a, t.b} {
			if o, ok := x.positions(y, nil); ok && (!found || len(o) < len(best)) {
				best, found = o, true
			}
		}
		return append(out, best...), found
	}
	return nil, false
}

// lowestBit splits t into 1<<(position of its lowest set bit) and the rest, deciding as needed.
func (x *Exec) lowestBit(s *State, t *Term) (low, rest *Term, ok bool) {
	p, ok := x.present(s, t)
	if !ok {
		return nil, nil, false
	}
	if len(p) == 0 {
		z := x.c.Const(t.w, 0)
		return z, z, true
	}
	e := x.fitw(x.least(s, p), t.w)
	if e.w != t.w {
		return nil, nil, false
	}
	low = x.c.Shl(x.c.Const(t.w, 1), e)
	return low, x.c.And(t, x.c.Not(low)), true
}

func (x *Exec) least(s *State, p []*Term) *Term {
	b := p[0]
	for _, e := range p[1:] {
		if x.decide(s, x.c.Ult(x.fitw(e, 64), x.fitw(b, 64))) {
			b = e
		}
	}
	return b
}

// fitw brings a bit position to another width; positions are < 64 wherever cond holds.
func (x *Exec) fitw(e *Term, w uint8) *Term {
	if e.w < w {
		return x.c.ZExt(e, w)
	}
	if e.w > w && leadingZeroBits(e) >= e.w-w {
		return x.c.Extract(e, w-1, 0)
	}
	return e
}

// present returns the positions certainly set on this path, without duplicates (forking).
func (x *Exec) present(s *State, t *Term) ([]*Term, bool) {
	ms, ok := x.members(x.simp(s, t))
	if !ok {
		return nil, false
	}
	var out []*Term
next:
	for _, m := range ms {
		if !x.decide(s, m.cond) {
			continue
		}
		for _, e := range out {
			if x.decide(s, x.c.Eq(x.fitw(e, 64), x.fitw(m.e, 64))) {
				continue next
			}
		}
		out = append(out, m.e)
	}
	return out, true
}

func (x *Exec) onesCount(s *State, t *Term) Val {
	t = x.simp(s, t)
	if t.isConst() {
		n := uint64(0)
		for v := t.val; v != 0; v &= v - 1 {
			n++
		}
		return x.c.Const(64, n)
	}
	if p, ok := x.present(s, t); ok {
		return x.c.Const(64, uint64(len(p)))
	}
	sum := x.c.Const(8, 0)
	for i := uint8(0); i < t.w; i++ {
		sum = x.c.Add(sum, x.c.ZExt(x.c.Extract(t, i, i), 8))
	}
	return x.c.Const(64, x.concretize(s, sum))
}

func (x *Exec) trailingZeros(s *State, t *Term) Val {
	t = x.simp(s, t)
	if p, ok := x.present(s, t); ok {
		if len(p) == 0 {
			return x.c.Const(64, uint64(t.w))
		}
		return x.fitw(x.least(s, p), 64)
	}
	r := x.c.Const(64, uint64(t.w))
	for i := int(t.w) - 1; i >= 0; i-- {
		r = x.c.Ite(x.c.Eq(x.c.Extract(t, uint8(i), uint8(i)), x.c.Const(1, 1)), x.c.Const(64, uint64(i)), r)
	}
	return r
}

func (x *Exec) bitLen(s *State, t *Term) *Term {
	t = x.simp(s, t)
	if p, ok := x.present(s, t); ok {
		if len(p) == 0 {
			return x.c.Const(64, 0)
		}
		b := p[0]
		for _, e := range p[1:] {
			if x.decide(s, x.c.Ult(x.fitw(b, 64), x.fitw(e, 64))) {
				b = e
			}
		}
		return x.c.Add(x.fitw(b, 64), x.c.Const(64, 1))
	}
	r := x.c.Const(64, 0)
	for i := uint8(0); i < t.w; i++ {
		r = x.c.Ite(x.c.Eq(x.c.Extract(t, i, i), x.c.Const(1, 1)), x.c.Const(64, uint64(i)+1), r)
	}
	return r
}
