package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	fn    Val // *Closure or *ssa.Builtin
	args  []Val
	types []types.Type
}

type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	regs   []Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	visits []int32
	defers []deferRec
	retTo  int       // register in the caller (-1: discard)
	isDfr  bool      // frame of a deferred call
	pan    *panicRec // panic in progress in this frame (immutable, replaced on change)
}

type ufApp struct {
	name string
	key  string
	args []*Term
	res  *Term
	seed uint64 // for hash applications
	iter uint64
	kind byte // 'h' maphash, 'g' generic key hash
	// foreign: only ever hashed by the code under test on its own account, so that the harness
	// made no assumption about the result
	foreign *bool
}

type panicRec struct {
	val       Iface
	msg       string
	recovered bool
}

type obsRec struct {
	name string
	t    *Term
}

type State struct {
	epoch    uint64
	heap     []*Obj // index = id
	frames   []*Frame
	pc       *conNode
	facts    map[*Term]bool
	subst    map[*Term]*Term
	memo     map[*Term]*Term
	model    Model
	emem     map[*Term]uint64
	avars    []*Term
	aseen    map[*Term]bool
	ufs      []ufApp
	impl     []implRec // equal keys have equal hashes
	inputs   []inputRec
	names    map[string]int
	obs      []obsRec
	steps    int
	seeds    uint64
	pin      bool
	pinned   uint64
	lastSeed uint64
	strs     map[string]Ptr // string constants
	globs    map[*ssa.Global]Ptr
	// footprint recording
	fpOn   int                  // 0 off, 1 first, 2 second
	fpR    [3]map[int64][]int64 // obj<<24 | byte offset: locks held at every access
	fpW    [3]map[int64][]int64
	locks  []int64 // locks held: obj<<24 | offset, sharedLock added for readers
	forks  int
	depth  int
	choice []string
}

type implRec struct{ cond, then *Term }

type inputRec struct {
	name string
	t    *Term
}

func (x *Exec) newState() *State {
	x.epochs++
	return &State{epoch: x.epochs, heap: []*Obj{nil}, facts: map[*Term]bool{}, subst: map[*Term]*Term{},
		memo: map[*Term]*Term{}, model: Model{}, emem: map[*Term]uint64{}, aseen: map[*Term]bool{},
		names: map[string]int{}, globs: map[*ssa.Global]Ptr{}, strs: map[string]Ptr{}}
}

func copyMapTB(m map[*Term]bool) map[*Term]bool {
	o := make(map[*Term]bool, len(m)+8)
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (x *Exec) clone(s *State) *State {
	n := *s
	x.epochs += 2
	s.epoch = x.epochs - 1
	n.epoch = x.epochs
	n.heap = append(make([]*Obj, 0, len(s.heap)+16), s.heap...)
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.regs = append([]Val(nil), f.regs...)
		g.visits = append([]int32(nil), f.visits...)
		g.defers = append([]deferRec(nil), f.defers...)
		n.frames[i] = &g
	}
	n.facts = copyMapTB(s.facts)
	n.subst = make(map[*Term]*Term, len(s.subst)+4)
	for k, v := range s.subst {
		n.subst[k] = v
	}
	n.memo = map[*Term]*Term{}
	n.model = make(Model, len(s.model)+8)
	for k, v := range s.model {
		n.model[k] = v
	}
	n.emem = map[*Term]uint64{}
	n.avars = append([]*Term(nil), s.avars...)
	n.aseen = copyMapTB(s.aseen)
	n.ufs = s.ufs[:len(s.ufs):len(s.ufs)]
	n.inputs = s.inputs[:len(s.inputs):len(s.inputs)]
	n.names = make(map[string]int, len(s.names))
	for k, v := range s.names {
		n.names[k] = v
	}
	n.obs = s.obs[:len(s.obs):len(s.obs)]
	n.choice = s.choice[:len(s.choice):len(s.choice)]
	n.globs = make(map[*ssa.Global]Ptr, len(s.globs))
	for k, v := range s.globs {
		n.globs[k] = v
	}
	n.strs = make(map[string]Ptr, len(s.strs))
	for k, v := range s.strs {
		n.strs[k] = v
	}
	cp := func(m map[int64][]int64) map[int64][]int64 {
		if m == nil {
			return nil
		}
		o := make(map[int64][]int64, len(m))
		for k, l := range m {
			o[k] = l
		}
		return o
	}
	for i := range n.fpR {
		n.fpR[i], n.fpW[i] = cp(s.fpR[i]), cp(s.fpW[i])
	}
	s.forks++
	n.forks = s.forks
	return &n
}

// ---- memory ----

func (s *State) alloc(size int64, elem types.Type, kind uint8, note string) Ptr {
	o := &Obj{id: int32(len(s.heap)), epoch: s.epoch, size: size, cells: map[int64]cell{}, elem: elem, kind: kind, note: note}
	s.heap = append(s.heap, o)
	return Ptr{o.id, 0}
}

func (s *State) wobj(id int32) *Obj {
	o := s.heap[id]
	if o.epoch != s.epoch {
		n := *o
		n.epoch = s.epoch
		n.cells = make(map[int64]cell, len(o.cells)+4)
		for k, v := range o.cells {
			n.cells[k] = v
		}
		s.heap[id] = &n
		o = &n
	}
	return o
}

// event ends a path.
type event struct {
	kind string // assert, panic, oob, hang, watch, unsupported, infeasible
	msg  string
}

func (x *Exec) checkAccess(s *State, p Ptr, size int64, write bool) {
	if p.obj == 0 {
		panic(goPanic{"invalid memory address or nil pointer dereference"})
	}
	o := s.heap[p.obj]
	if p.off < 0 || p.off+size > o.size {
		what := "read"
		if write {
			what = "write"
		}
		panic(event{"oob", fmt.Sprintf("%s of %d bytes at offset %d of a %d-byte object (%s)", what, size, p.off, o.size, o.note)})
	}
	if o.kind == kUninitGlobal {
		panic(unsupported("access to global of uninitialised package: " + o.note))
	}
	if write && o.kind == kConst {
		panic(event{"oob", "write to read-only memory " + o.note})
	}
	if s.fpOn != 0 && o.kind != kConst {
		m := s.fpR[s.fpOn]
		if write {
			m = s.fpW[s.fpOn]
		}
		for i := int64(0); i < size; i++ {
			k := int64(p.obj)<<24 | (p.off + i)
			if l, ok := m[k]; ok {
				if len(l) > 0 {
					m[k] = commonLocks(l, s.locks)
				}
			} else {
				m[k] = s.locks
			}
		}
	}
}

// goPanic is a run-time panic of the program under test.
type goPanic struct{ msg string }

func (x *Exec) load(s *State, t types.Type, p Ptr) Val {
	x.checkAccess(s, p, sizeof(t), false)
	return x.loadRaw(s, t, p)
}

func (x *Exec) store(s *State, t types.Type, p Ptr, v Val) {
	x.checkAccess(s, p, sizeof(t), true)
	x.storeRaw(s, t, s.wobj(p.obj), p.off, v)
}

func (x *Exec) loadRaw(s *State, t types.Type, p Ptr) Val {
	o := s.heap[p.obj]
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			return x.loadInt(s, o, p.off, w)
		}
		switch u.Kind() {
		case types.Bool:
			c, ok := o.cells[p.off]
			if !ok {
				if x.overlaps(o, p.off, 1) {
					t := x.loadInt(s, o, p.off, 8).(*Term)
					return x.c.BNot(x.c.Eq(t, x.c.Const(8, 0)))
				}
				return x.c.F
			}
			if b, ok := c.v.(*Term); ok && b.isBool() {
				return b
			}
			t := x.loadInt(s, o, p.off, 8).(*Term)
			return x.c.BNot(x.c.Eq(t, x.c.Const(8, 0)))
		case types.String:
			pv := x.loadWord(s, o, p.off)
			lv := x.loadInt(s, o, p.off+8, 64)
			return Str{x.asPtr(pv), x.asTerm(lv)}
		case types.Float64, types.Float32:
			c, ok := o.cells[p.off]
			if !ok {
				return Flt(0)
			}
			if f, ok := c.v.(Flt); ok {
				return f
			}
			n := uint8(32)
			if u.Kind() == types.Float64 {
				n = 64
			}
			t, ok := x.loadInt(s, o, p.off, n).(*Term)
			if !ok || !t.isConst() {
				panic(unsupported("float load of symbolic integer"))
			}
			if n == 32 {
				return Flt(math.Float32frombits(uint32(t.val)))
			}
			return Flt(math.Float64frombits(t.val))
		case types.UnsafePointer:
			return x.loadPtr(s, o, p.off)
		}
	case *types.Pointer:
		return x.loadPtr(s, o, p.off)
	case *types.Map, *types.Chan:
		return x.loadWord(s, o, p.off)
	case *types.Signature:
		c, ok := o.cells[p.off]
		if !ok {
			return (*Closure)(nil)
		}
		if f, ok := c.v.(*Closure); ok {
			return f
		}
		panic(event{"oob", "function value loaded from non-function memory"})
	case *types.Slice:
		return Slice{x.asPtr(x.loadWord(s, o, p.off)), x.asTerm(x.loadInt(s, o, p.off+8, 64)), x.asTerm(x.loadInt(s, o, p.off+16, 64))}
	case *types.Interface:
		c, ok := o.cells[p.off]
		if !ok {
			return Iface{}
		}
		tw, ok := c.v.(TypeWord)
		if !ok {
			if t, isT := c.v.(*Term); isT && t.isConst() && t.val == 0 {
				return Iface{}
			}
			panic(event{"oob", "interface loaded from non-interface memory"})
		}
		if tw.t == nil {
			return Iface{}
		}
		d := o.cells[p.off+8].v.(DataWord)
		return Iface{tw.t, d.v}
	case *types.Struct:
		l := layout(u)
		a := make(Agg, len(l.typs))
		for i, ft := range l.typs {
			a[i] = x.loadRaw(s, ft, Ptr{p.obj, p.off + l.offs[i]})
		}
		return a
	case *types.Array:
		n := u.Len()
		es := sizeof(u.Elem())
		a := make(Agg, n)
		for i := int64(0); i < n; i++ {
			a[i] = x.loadRaw(s, u.Elem(), Ptr{p.obj, p.off + i*es})
		}
		return a
	}
	panic(unsupported("load of " + t.String()))
}

func (x *Exec) overlaps(o *Obj, off, n int64) bool {
	for k := off - 7; k < off+n; k++ {
		if c, ok := o.cells[k]; ok && k+int64(c.size) > off {
			return true
		}
	}
	return false
}

func (x *Exec) asPtr(v Val) Ptr {
	switch v := v.(type) {
	case Ptr:
		return v
	case *Term:
		if v.isConst() && v.val == 0 {
			return Ptr{}
		}
		if p, ok := x.unaddr(v); ok {
			return p
		}
	case PInt:
		if v.off.isConst() {
			return Ptr{v.obj, int64(v.off.val)}
		}
	}
	panic(event{"oob", "integer data used as a pointer"})
}

func (x *Exec) asTerm(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case Ptr:
		if v.obj == 0 {
			return x.c.Const(64, uint64(v.off))
		}
		return x.c.Add(x.addr(v.obj), x.c.Const(64, uint64(v.off)))
	case PInt:
		return x.c.Add(x.addr(v.obj), v.off)
	case BadPtr:
		if v.t != nil {
			return v.t
		}
	}
	panic(unsupported(fmt.Sprintf("integer expected, have %T", v)))
}

// addr is the address of an object, used where the bits of a pointer matter: an arbitrary
// multiple of 8 in the heap's range. Different objects are not known to be apart.
func (x *Exec) addr(obj int32) *Term {
	if t := x.addrs[obj]; t != nil {
		return t
	}
	if x.addrs == nil {
		x.addrs = map[int32]*Term{}
	}
	r := x.c.Var(35, fmt.Sprintf("addr#%d", obj))
	t := x.c.Concat(x.c.Const(26, 3), x.c.Concat(r, x.c.Const(3, 0)))
	x.addrs[obj] = t
	return t
}

// unaddr finds the pointer an integer is the address of.
func (x *Exec) unaddr(t *Term) (Ptr, bool) {
	for o, a := range x.addrs {
		if d := x.c.Sub(t, a); d.isConst() && d.val < 1<<32 {
			return Ptr{o, int64(d.val)}, true
		}
	}
	return Ptr{}, false
}

func (x *Exec) loadPtr(s *State, o *Obj, off int64) Val {
	v := x.loadWord(s, o, off)
	switch v := v.(type) {
	case Ptr:
		return v
	case *Closure:
		return v
	case *Term:
		if v.isConst() && v.val == 0 {
			return Ptr{}
		}
		if p, ok := x.unaddr(v); ok {
			return p
		}
		return BadPtr{v}
	case PInt:
		if v.off.isConst() {
			return Ptr{v.obj, int64(v.off.val)}
		}
	}
	return BadPtr{nil}
}

// BadPtr is integer data loaded as a pointer: harmless until dereferenced.
type BadPtr struct{ t *Term }

func (x *Exec) loadWord(s *State, o *Obj, off int64) Val {
	if c, ok := o.cells[off]; ok && c.size == 8 {
		return c.v
	}
	return x.loadInt(s, o, off, 64)
}

func (x *Exec) loadInt(s *State, o *Obj, off int64, w uint8) Val {
	n := int64(w / 8)
	if c, ok := o.cells[off]; ok && int64(c.size) == n {
		if t, ok := c.v.(*Term); ok && t.isBool() {
			return x.c.Ite(t, x.c.Const(8, 1), x.c.Const(8, 0))
		}
		if p, ok := c.v.(Ptr); ok {
			if p.obj == 0 {
				return x.c.Const(w, uint64(p.off))
			}
			return PInt{p.obj, x.c.Const(64, uint64(p.off))}
		}
		if f, ok := c.v.(Flt); ok {
			return x.c.Const(w, fbits(f, c.size))
		}
		return c.v
	}
	// assemble from bytes
	var out *Term
	for i := int64(0); i < n; i++ {
		b := x.loadByte(o, off+i)
		if out == nil {
			out = b
		} else {
			out = x.c.Concat(b, out)
		}
	}
	return out
}

// fbits are the bits of a float cell of the given size.
func fbits[S ~uint8 | ~int8 | ~int | ~int64](f Flt, size S) uint64 {
	if size == 4 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(float64(f))
}

func (x *Exec) loadByte(o *Obj, off int64) *Term {
	for k := off; k > off-8; k-- {
		c, ok := o.cells[k]
		if !ok {
			continue
		}
		if k+int64(c.size) <= off {
			break
		}
		t, ok := c.v.(*Term)
		if !ok {
			if p, ok := c.v.(Ptr); ok && p.obj == 0 {
				return x.c.Const(8, uint64(p.off)>>(8*uint(off-k)))
			}
			switch c.v.(type) {
			case Ptr, PInt:
				lo := uint8(off-k) * 8
				return x.c.Extract(x.asTerm(c.v), lo+7, lo)
			}
			if f, ok := c.v.(Flt); ok {
				return x.c.Const(8, fbits(f, c.size)>>(8*uint(off-k))&255)
			}
			panic(unsupported("byte access to pointer data"))
		}
		if t.isBool() {
			t = x.c.Ite(t, x.c.Const(8, 1), x.c.Const(8, 0))
		}
		lo := uint8(off-k) * 8
		return x.c.Extract(t, lo+7, lo)
	}
	return x.c.Const(8, 0)
}

// clear removes [off, off+n), keeping the parts of cells outside.
func (x *Exec) clearCells(o *Obj, off, n int64) {
	for k := off - 7; k < off+n; k++ {
		c, ok := o.cells[k]
		if !ok || k+int64(c.size) <= off {
			continue
		}
		end := k + int64(c.size)
		if k < off || end > off+n {
			// split into bytes first
			bs := make([]*Term, c.size)
			for i := range bs {
				bs[i] = x.loadByte(o, k+int64(i))
			}
			delete(o.cells, k)
			for i, b := range bs {
				p := k + int64(i)
				if p < off || p >= off+n {
					o.cells[p] = cell{1, b}
				}
			}
			continue
		}
		delete(o.cells, k)
	}
}

func (x *Exec) put(s *State, o *Obj, off int64, size int8, v Val) {
	if c, ok := o.cells[off]; !ok || c.size != size {
		x.clearCells(o, off, int64(size))
	}
	if t, ok := v.(*Term); ok && !t.isConst() && t.op != OVar {
		v = x.simp(s, t)
	}
	o.cells[off] = cell{size, v}
}

func (x *Exec) storeRaw(s *State, t types.Type, o *Obj, off int64, v Val) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			x.put(s, o, off, int8(w/8), v)
			return
		}
		switch u.Kind() {
		case types.Bool:
			x.put(s, o, off, 1, v)
		case types.String:
			sv := v.(Str)
			x.put(s, o, off, 8, sv.p)
			x.put(s, o, off+8, 8, sv.len)
		case types.Float64:
			x.put(s, o, off, 8, v)
		case types.Float32:
			x.put(s, o, off, 4, v)
		case types.UnsafePointer:
			x.put(s, o, off, 8, v)
		default:
			panic(unsupported("store of " + t.String()))
		}
		return
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		x.put(s, o, off, 8, v)
		return
	case *types.Slice:
		sv := v.(Slice)
		x.put(s, o, off, 8, sv.p)
		x.put(s, o, off+8, 8, sv.len)
		x.put(s, o, off+16, 8, sv.cap)
		return
	case *types.Interface:
		iv := v.(Iface)
		x.put(s, o, off, 8, TypeWord{iv.t})
		x.put(s, o, off+8, 8, DataWord{iv.v})
		return
	case *types.Struct:
		l := layout(u)
		a := v.(Agg)
		for i, ft := range l.typs {
			x.storeRaw(s, ft, o, off+l.offs[i], a[i])
		}
		return
	case *types.Array:
		a := v.(Agg)
		es := sizeof(u.Elem())
		for i := range a {
			x.storeRaw(s, u.Elem(), o, off+int64(i)*es, a[i])
		}
		return
	}
	panic(unsupported("store of " + t.String()))
}

// ---- facts, simplification under facts, models ----

func (x *Exec) defVal(v *Term) uint64 {
	h := fnv.New64a()
	h.Write([]byte(x.c.vnames[v.val]))
	r := h.Sum64()
	r ^= r >> 29
	r *= 0xbf58476d1ce4e5b9
	r ^= r >> 32
	return r
}

func (x *Exec) eval(s *State, t *Term) uint64 {
	e := evaler{s.model, x.defVal, s.emem}
	return e.eval(t)
}

func (x *Exec) simp(s *State, t *Term) *Term {
	switch t.op {
	case OConst, OTrue, OFalse:
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	var r *Term
	if t.op == OVar {
		if u, ok := s.subst[t]; ok {
			r = x.simp(s, u)
		} else {
			r = t
			if t.w == 0 {
				if v, ok := s.facts[t]; ok {
					r = x.c.Bool(v)
				}
			}
		}
		s.memo[t] = r
		return r
	}
	if t.isBool() {
		if v, ok := s.facts[t]; ok {
			r = x.c.Bool(v)
			s.memo[t] = r
			return r
		}
	}
	var a, b, d *Term
	if t.a != nil {
		a = x.simp(s, t.a)
	}
	if t.b != nil {
		// short cuts
		if t.op == OBAnd && a == x.c.F || t.op == OBOr && a == x.c.T {
			s.memo[t] = a
			return a
		}
		if t.op == OIte && a == x.c.F {
			b = t.b
		} else {
			b = x.simp(s, t.b)
		}
	}
	if t.c != nil {
		if t.op == OIte && a == x.c.T {
			d = t.c
		} else {
			d = x.simp(s, t.c)
		}
	}
	if a == t.a && b == t.b && d == t.c {
		r = t
	} else {
		r = x.c.rebuild(t, a, b, d)
	}
	if r.op == OAnd {
		r = x.dropOneHot(s, r)
	}
	if r.isBool() && r != t {
		if r.op == OBAnd || r.op == OBOr || r.op == OBNot {
			// leaves of a rebuilt connective may be known
			if v, ok := s.facts[r]; ok {
				r = x.c.Bool(v)
			} else if r.op == OBNot {
				if v, ok := s.facts[r.a]; ok {
					r = x.c.Bool(!v)
				}
			} else {
				r2 := x.simpLeaves(s, r)
				r = r2
			}
		} else if v, ok := s.facts[r]; ok {
			r = x.c.Bool(v)
		}
	} else if r.isBool() {
		if v, ok := s.facts[r]; ok {
			r = x.c.Bool(v)
		}
	}
	s.memo[t] = r
	return r
}

func (x *Exec) simpLeaves(s *State, t *Term) *Term {
	var buf [40]*Term
	l := leaves(t.op, t, buf[:0])
	changed := false
	for i, y := range l {
		v, ok := s.facts[y]
		if !ok && y.op == OBNot {
			if w, ok2 := s.facts[y.a]; ok2 {
				v, ok = !w, true
			}
		}
		if ok {
			l[i] = x.c.Bool(v)
			changed = true
		}
	}
	if !changed {
		return t
	}
	out := l[0]
	for _, y := range l[1:] {
		if t.op == OBAnd {
			out = x.c.BAnd(out, y)
		} else {
			out = x.c.BOr(out, y)
		}
	}
	return out
}

// dropOneHot simplifies (1<<e1 | ... | 1<<en) & ^(1<<d) when every ei is known equal or
// known different to d.
func (x *Exec) dropOneHot(s *State, t *Term) *Term {
	a, n := t.a, t.b
	if a.op == ONot {
		a, n = n, a
	}
	if n.op != ONot || n.a.op != OShl || !n.a.a.isConst() || n.a.a.val != 1 {
		return t
	}
	d := n.a.b
	var buf [40]*Term
	l := leaves(OOr, a, buf[:0])
	out := x.c.Const(t.w, 0)
	for _, e := range l {
		if e.op != OShl || !e.a.isConst() || e.a.val != 1 {
			return t
		}
		q := x.simp(s, x.c.Eq(e.b, d))
		if q == x.c.T {
			continue
		}
		if q != x.c.F {
			return t
		}
		out = x.c.Or(out, e)
	}
	return out
}

func (x *Exec) addFact(s *State, t *Term, v bool) {
	switch t.op {
	case OTrue, OFalse:
		return
	case OBNot:
		x.addFact(s, t.a, !v)
		return
	case OBAnd:
		if v {
			x.addFact(s, t.a, true)
			x.addFact(s, t.b, true)
			return
		}
	case OBOr:
		if !v {
			x.addFact(s, t.a, false)
			x.addFact(s, t.b, false)
			return
		}
	case OEq:
		if v && t.a.w > 0 {
			a, b := t.a, t.b
			// orient: replace a variable by a constant or an older variable
			if b.op == OVar && a.op == OVar {
				if a.id > b.id {
					a, b = b, a
				}
				if _, ok := s.subst[b]; !ok {
					s.subst[b] = a
				}
			} else if a.op == OVar && b.isConst() {
				s.subst[a] = b
			} else if b.op == OVar && a.isConst() {
				s.subst[b] = a
			}
		}
	case OUlt:
		if v {
			s.facts[x.c.Eq(t.a, t.b)] = false
			s.facts[x.c.Ult(t.b, t.a)] = false
		}
	}
	s.facts[t] = v
	if len(s.memo) > 0 {
		s.memo = map[*Term]*Term{}
	}
}

func (x *Exec) collectVars(s *State, t *Term) {
	for _, v := range x.varsOf(t) {
		if !s.aseen[v] {
			s.aseen[v] = true
			s.avars = append(s.avars, v)
		}
	}
}

func (x *Exec) varsOf(t *Term) []*Term {
	if vs, ok := x.vcache[t]; ok {
		return vs
	}
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] || t.op == OConst {
			return
		}
		seen[t] = true
		if t.op == OVar {
			out = append(out, t)
			return
		}
		rec(t.a)
		rec(t.b)
		rec(t.c)
	}
	rec(t)
	x.vcache[t] = out
	return out
}

func (x *Exec) push(s *State, t *Term) {
	n := 0
	if s.pc != nil {
		n = s.pc.n
	}
	s.pc = &conNode{t, s.pc, n + 1}
	x.collectVars(s, t)
	x.addFact(s, t, true)
}

// assume adds t to the path condition; false: the path became infeasible.
func (x *Exec) assume(s *State, t *Term) bool {
	t = x.simp(s, t)
	if t == x.c.T {
		return true
	}
	if t == x.c.F {
		return false
	}
	holds := x.eval(s, t) != 0
	x.push(s, t)
	if holds {
		return true
	}
	v, m := x.check(s, nil)
	switch v {
	case Sat:
		x.setModel(s, m)
		return true
	case Unsat:
		return false
	}
	panic(unsupported("solver gave up on an assumption"))
}

func (x *Exec) check(s *State, extra *Term) (Verdict, Model) {
	vars := s.avars
	if extra != nil {
		for _, v := range x.varsOf(extra) {
			if !s.aseen[v] {
				vars = append(vars[:len(vars):len(vars)], v)
			}
		}
	}
	return x.solver.Check(s.pc, extra, vars)
}

func (x *Exec) setModel(s *State, m Model) {
	for k, v := range m {
		s.model[k] = v
	}
	s.emem = map[*Term]uint64{}
}

// decide returns the truth of cond on the current path. If both sides are feasible the
// state is forked: the clone takes the other side and re-executes the instruction.
func (x *Exec) decide(s *State, cond *Term) bool {
	cond = x.simp(s, cond)
	if cond == x.c.T {
		return true
	}
	if cond == x.c.F {
		return false
	}
	side := x.eval(s, cond) != 0
	mine, other := cond, x.c.BNot(cond)
	if !side {
		mine, other = other, mine
	}
	if x.refuted(s, other) {
		x.propagated++
		x.addFact(s, mine, true)
		return side
	}
	v, m := x.check(s, other)
	switch v {
	case Sat:
		n := x.clone(s)
		x.push(n, other)
		x.setModel(n, m)
		x.work = append(x.work, n)
		x.nforks++
		x.push(s, mine)
	case Unsat:
		x.addFact(s, mine, true) // implied
	case Unknown:
		x.note("solver gave up on a branch side")
		x.push(s, mine)
	}
	return side
}

// refuted: t is the equality of two hashed keys whose hashes are known to differ (one step
// of unit propagation, which saves a solver query).
func (x *Exec) refuted(s *State, t *Term) bool {
	if t.op != OEq {
		return false
	}
	for _, r := range s.impl {
		if x.simp(s, r.cond) == t && x.simp(s, r.then) == x.c.F {
			return true
		}
	}
	return false
}

// concretize returns the value of t on this path, forking over all feasible values.
func (x *Exec) concretize(s *State, t *Term) uint64 {
	for i := 0; ; i++ {
		t = x.simp(s, t)
		if t.isConst() {
			return t.val
		}
		if t.isBool() {
			if x.decide(s, t) {
				return 1
			}
			return 0
		}
		if c := findIte(t, 0); c != nil {
			x.decide(s, c)
			continue
		}
		v := x.eval(s, t)
		if x.decide(s, x.c.Eq(t, x.c.Const(t.w, v))) {
			return v
		}
		if i > 300 {
			panic(unsupported("value cannot be made concrete"))
		}
	}
}

func findIte(t *Term, d int) *Term {
	if t == nil || d > 40 {
		return nil
	}
	if t.op == OIte {
		return t.a
	}
	if t.op == OVar || t.op == OConst || t.isBool() {
		return nil
	}
	if r := findIte(t.a, d+1); r != nil {
		return r
	}
	if r := findIte(t.b, d+1); r != nil {
		return r
	}
	return findIte(t.c, d+1)
}

// uf returns the value of an uninterpreted function at args; functional consistency is
// enforced by constraints against all earlier applications (Ackermann).
// hashedByRepo: the hash being computed was not asked for by the harness.
func (x *Exec) hashedByRepo(s *State) bool {
	repo := false
	for _, f := range s.frames {
		fn := f.fn
		switch fn.Name() {
		case "hashes", "hashRep", "Hashing":
			if fn.Pkg == x.p.harness {
				return false
			}
		}
		if o := fn.Origin(); o != nil {
			fn = o
		}
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == x.p.repoPath {
			repo = true
		}
	}
	return repo
}

func (x *Exec) uf(s *State, kind byte, name string, seed, iter uint64, args []*Term) *Term {
	sargs := make([]*Term, len(args))
	var kb strings.Builder
	kb.WriteString(name)
	for i, a := range args {
		sargs[i] = x.simp(s, a)
		fmt.Fprintf(&kb, ",%d", sargs[i].id)
	}
	key := kb.String()
	foreign := x.hashedByRepo(s)
	seen := func(u *ufApp) *Term {
		if !foreign {
			*u.foreign = false
		}
		return u.res
	}
	for i := range s.ufs {
		if s.ufs[i].key == key {
			return seen(&s.ufs[i])
		}
	}
	// semantically equal arguments?
	type rel struct {
		i    int
		cond *Term
	}
	var rels []rel
	for i := range s.ufs {
		u := &s.ufs[i]
		if u.name != name {
			continue
		}
		cond := x.simp(s, x.eqList(s, u.args, sargs))
		if cond == x.c.T {
			return seen(u)
		}
		if cond == x.c.F {
			continue
		}
		rels = append(rels, rel{i, cond})
	}
	// fresh 64-bit result, as 16 four-bit digits
	n := len(s.ufs)
	vk := fmt.Sprintf("%s#%d", key, 0)
	res, ok := x.ufres[vk]
	if !ok {
		for d := 0; d < 16; d++ {
			v := x.c.Var(4, fmt.Sprintf("h%d_%s.%d", n, key, d))
			if res == nil {
				res = v
			} else {
				res = x.c.Concat(v, res)
			}
		}
		x.ufres[vk] = res
	}
	app := ufApp{name: name, key: key, args: sargs, res: res, seed: seed, iter: iter, kind: kind, foreign: &foreign}
	s.ufs = append(s.ufs, app)
	for _, r := range rels {
		if x.eval(s, r.cond) != 0 {
			// extend the model consistently
			old := x.eval(s, s.ufs[r.i].res)
			for d := uint8(0); d < 16; d++ {
				v := x.c.Extract(res, d*4+3, d*4)
				if v.op == OVar {
					s.model[v] = old >> (d * 4) & 15
				}
			}
			s.emem = map[*Term]uint64{}
			break
		}
	}
	for _, r := range rels {
		s.impl = append(s.impl[:len(s.impl):len(s.impl)], implRec{r.cond, x.c.Eq(res, s.ufs[r.i].res)})
		if !x.assume(s, x.c.Implies(r.cond, x.c.Eq(res, s.ufs[r.i].res))) {
			panic(event{"infeasible", ""})
		}
	}
	return res
}

// eqList: pointwise equality of two byte lists; runs of bytes are compared as words.
func (x *Exec) eqList(s *State, a, b []*Term) *Term {
	if len(a) != len(b) {
		return x.c.F
	}
	out := x.c.T
	i := 0
	for i < len(a) {
		n := 8
		if n > len(a)-i {
			n = len(a) - i
		}
		if a[i].w != 8 {
			n = 1
		}
		wa, wb := a[i], b[i]
		for k := 1; k < n; k++ {
			wa, wb = x.c.Concat(a[i+k], wa), x.c.Concat(b[i+k], wb)
		}
		if n > 1 && (wa.op == OConcat || wb.op == OConcat) {
			// not single words: compare bytes
			for k := 0; k < n; k++ {
				out = x.c.BAnd(out, x.c.Eq(a[i+k], b[i+k]))
			}
		} else {
			out = x.c.BAnd(out, x.c.Eq(wa, wb))
		}
		i += n
	}
	return out
}

const (
	sharedLock = 1 << 62
	atomicLock = 1<<62 - 1 // held by atomic accesses
)

// Lock sets are never changed in place.
func withLock(l []int64, k int64) []int64 { return append(append([]int64(nil), l...), k) }

func withoutLock(l []int64, k int64) []int64 {
	for i, x := range l {
		if x == k {
			return append(append([]int64(nil), l[:i]...), l[i+1:]...)
		}
	}
	return l
}

func hasLock(l []int64, k int64) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

func commonLocks(a, b []int64) (r []int64) {
	for _, x := range a {
		if hasLock(b, x) {
			r = append(r, x)
		}
	}
	return
}

// excluded reports whether accesses under a and b cannot overlap.
func excluded(a, b []int64) bool {
	for _, x := range a {
		if x&sharedLock == 0 && (hasLock(b, x) || hasLock(b, x|sharedLock)) || x&sharedLock != 0 && hasLock(b, x&^sharedLock) {
			return true
		}
	}
	return false
}
