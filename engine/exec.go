package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// fnInfo numbers the registers of a function.
type fnInfo struct {
	idx     map[ssa.Value]int
	n       int
	repo    bool // belongs to the code under test
	harness bool // belongs to the harness
	name    string
}

// Program is shared by all jobs (read only after loading, apart from the info cache).
type Program struct {
	prog     *ssa.Program
	harness  *ssa.Package
	initPkgs map[*types.Package]bool
	redirect map[*ssa.Function]*ssa.Function // stand-ins from the harness
	mu       sync.RWMutex
	infos    map[*ssa.Function]*fnInfo
	repoPath string
	harnPath string
}

func (p *Program) info(f *ssa.Function) *fnInfo {
	p.mu.RLock()
	i := p.infos[f]
	p.mu.RUnlock()
	if i != nil {
		return i
	}
	i = &fnInfo{idx: map[ssa.Value]int{}, name: f.String()}
	add := func(v ssa.Value) {
		i.idx[v] = i.n
		i.n++
	}
	for _, v := range f.Params {
		add(v)
	}
	for _, v := range f.FreeVars {
		add(v)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	if f.Recover != nil {
		found := false
		for _, b := range f.Blocks {
			if b == f.Recover {
				found = true
			}
		}
		if !found {
			for _, in := range f.Recover.Instrs {
				if v, ok := in.(ssa.Value); ok {
					add(v)
				}
			}
		}
	}
	pp := pkgPathOf(f)
	i.repo = pp == p.repoPath
	i.harness = pp == p.harnPath || strings.HasPrefix(pp, p.harnPath+"/")
	p.mu.Lock()
	p.infos[f] = i
	p.mu.Unlock()
	return i
}

func pkgPathOf(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg.Path()
		}
		if o := g.Origin(); o != nil && o != g {
			return pkgPathOf(o)
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			return g.Object().Pkg().Path()
		}
	}
	return ""
}

// Violation is a candidate counterexample.
type Violation struct {
	Kind   string // assert, panic, oob, hang, watch, race
	Msg    string
	Model  *Replay
	Where  string
	Job    string
	Native string // outcome of the native replay
	Tried  bool   // the native replay has been done
	OK     bool   // and confirmed the violation
}

// late: time to give up.
func (x *Exec) late() bool {
	now := time.Now()
	if !x.deadline.IsZero() && now.After(x.deadline) {
		return true
	}
	if x.stopAt != nil {
		if t := x.stopAt.Load(); t != 0 && now.UnixNano() > t {
			return true
		}
	}
	return false
}

// Exec runs one job.
type Exec struct {
	p          *Program
	c          *Ctx
	solver     *Solver
	work       []*State
	epochs     uint64
	nforks     int
	vcache     map[*Term][]*Term
	ufres      map[string]*Term
	addrs      map[int32]*Term // addresses of objects, where their bits matter
	notes      map[string]int
	viol       []*Violation
	params     map[string]int64
	job        string
	fns        map[*ssa.Function]bool
	paths      int // completed
	infeas     int
	incompl    int // inconclusive paths
	asserts    int // assertions discharged
	trivial    int // of which by simplification under the path condition
	steps      int64
	reached    map[string]bool
	samples    []*Replay
	nsample    int
	deadline   time.Time
	stopAt     *atomic.Int64
	maxViol    int
	dupViol    int
	propagated int
	entry      string
	pused      map[string]bool
	timedOut   bool
	loopMax    int32
	stepMax    int
}

func (x *Exec) note(s string) { x.notes[s]++ }

// ---- values of operands ----

func (x *Exec) get(s *State, f *Frame, v ssa.Value) Val {
	if i, ok := f.info.idx[v]; ok {
		r := f.regs[i]
		if r == nil {
			panic(engineError(fmt.Sprintf("use of unset register %s in %s", v.Name(), f.fn)))
		}
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(s, v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Global:
		return x.global(s, v)
	case *ssa.Builtin:
		return v
	}
	panic(engineError(fmt.Sprintf("operand %T %s", v, v)))
}

func (x *Exec) term(s *State, f *Frame, v ssa.Value) *Term {
	r := x.get(s, f, v)
	if t, ok := r.(*Term); ok {
		return t
	}
	panic(unsupported(fmt.Sprintf("integer operand is %T in %s", r, f.fn)))
}

func (x *Exec) global(s *State, g *ssa.Global) Ptr {
	if p, ok := s.globs[g]; ok {
		return p
	}
	et := g.Type().(*types.Pointer).Elem()
	kind := kUninitGlobal
	if x.p.initPkgs[g.Pkg.Pkg] || sizeof(et) == 0 {
		kind = kGlobal
	}
	p := s.alloc(sizeof(et), et, kind, "global "+g.String())
	s.globs[g] = p
	return p
}

func (x *Exec) strConst(s *State, c string) Str {
	if c == "" {
		return Str{Ptr{}, x.c.Const(64, 0)}
	}
	if p, ok := s.strs[c]; ok {
		return Str{p, x.c.Const(64, uint64(len(c)))}
	}
	p := s.alloc(int64(len(c)), types.Typ[types.Uint8], kConst, "string constant")
	o := s.wobj(p.obj)
	for i := 0; i < len(c); i++ {
		o.cells[int64(i)] = cell{1, x.c.Const(8, uint64(c[i]))}
	}
	s.strs[c] = p
	return Str{p, x.c.Const(64, uint64(len(c)))}
}

func (x *Exec) constVal(s *State, k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return zero(x.c, t)
	}
	if w, signed, ok := intWidth(t); ok {
		if signed {
			return x.c.Const(w, uint64(k.Int64()))
		}
		return x.c.Const(w, k.Uint64())
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return x.c.Bool(constant.BoolVal(k.Value))
		case b.Info()&types.IsString != 0:
			return x.strConst(s, constant.StringVal(k.Value))
		case b.Info()&types.IsFloat != 0:
			return Flt(k.Float64())
		case b.Kind() == types.UnsafePointer:
			return Ptr{0, k.Int64()}
		}
	}
	panic(unsupported("constant of type " + t.String()))
}

func (f *Frame) set(v ssa.Value, r Val) { f.regs[f.info.idx[v]] = r }

// ---- calls ----

func (x *Exec) newFrame(fn *ssa.Function) *Frame {
	info := x.p.info(fn)
	x.fns[fn] = true
	return &Frame{fn: fn, info: info, regs: make([]Val, info.n), block: fn.Blocks[0], visits: make([]int32, len(fn.Blocks)), retTo: -1}
}

// call starts a call; the result goes to register ret of the calling frame (-1: discarded).
// The caller's ip must already point past the call (or at the instruction to resume).
func (x *Exec) call(s *State, fv Val, args []Val, ret int, resT types.Type) *Frame {
	cl, ok := fv.(*Closure)
	if !ok || cl == nil {
		panic(goPanic{"call of nil function"})
	}
	fn := cl.fn
	if r := x.p.redirect[fn]; r != nil {
		fn, cl = r, &Closure{fn: r}
	}
	if h := lookupIntrinsic(fn); h != nil {
		// intrinsics run to completion
		r := h(x, s, fn, args)
		if ret >= 0 {
			top := s.frames[len(s.frames)-1]
			if r == nil {
				r = Agg{}
			}
			top.regs[ret] = r
		}
		return nil
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn.Synthetic != "" && !x.p.initPkgs[fn.Pkg.Pkg] {
		if ret >= 0 {
			s.frames[len(s.frames)-1].regs[ret] = Agg{}
		}
		return nil
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("call of external function " + fn.String()))
	}
	if len(s.frames) > 600 {
		panic(event{"hang", "call depth over 600 in " + fn.String()})
	}
	f := x.newFrame(fn)
	f.retTo = ret
	n := copy(f.regs, args)
	for i, b := range cl.binds {
		f.regs[n+i] = b
	}
	s.frames = append(s.frames, f)
	return f
}

// prepare evaluates the callee and arguments of a call.
func (x *Exec) prepare(s *State, f *Frame, c *ssa.CallCommon) (Val, []Val) {
	v := x.get(s, f, c.Value)
	var args []Val
	var fv Val
	if c.IsInvoke() {
		iv := v.(Iface)
		if iv.t == nil {
			panic(goPanic{"invalid memory address or nil pointer dereference (nil interface call)"})
		}
		m := x.p.prog.LookupMethod(iv.t, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			panic(engineError("no method " + c.Method.Name() + " on " + iv.t.String()))
		}
		fv = &Closure{fn: m}
		args = append(args, iv.v)
	} else {
		fv = v
	}
	for _, a := range c.Args {
		args = append(args, x.get(s, f, a))
	}
	return fv, args
}

func (x *Exec) ret(s *State, results []Val) {
	f := s.frames[len(s.frames)-1]
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		return
	}
	caller := s.frames[len(s.frames)-1]
	if f.isDfr {
		if caller.pan != nil {
			x.unwind(s)
		}
		return
	}
	if f.retTo >= 0 {
		switch len(results) {
		case 0:
			caller.regs[f.retTo] = Agg{}
		case 1:
			caller.regs[f.retTo] = results[0]
		default:
			caller.regs[f.retTo] = Agg(results)
		}
	}
}

// raise starts a Go panic in the top frame.
func (x *Exec) raise(s *State, val Iface, msg string) {
	f := s.frames[len(s.frames)-1]
	f.pan = &panicRec{val: val, msg: msg}
	x.unwind(s)
}

// unwind continues the panic of the top frame.
func (x *Exec) unwind(s *State) {
	for {
		f := s.frames[len(s.frames)-1]
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			x.startDeferred(s, d)
			if s.frames[len(s.frames)-1] != f {
				return
			}
			continue
		}
		if f.pan.recovered {
			f.pan = nil
			if f.fn.Recover == nil {
				res := f.fn.Signature.Results()
				rs := make([]Val, res.Len())
				for i := range rs {
					rs[i] = zero(x.c, res.At(i).Type())
				}
				x.ret(s, rs)
				return
			}
			f.prev, f.block, f.ip = f.block, f.fn.Recover, 0
			return
		}
		rec := f.pan
		wasDfr := f.isDfr
		s.frames = s.frames[:len(s.frames)-1]
		if len(s.frames) == 0 {
			panic(event{"panic", "panic escaped the harness: " + rec.msg})
		}
		_ = wasDfr
		p := *rec
		s.frames[len(s.frames)-1].pan = &p
	}
}

func (x *Exec) startDeferred(s *State, d deferRec) {
	if b, ok := d.fn.(*ssa.Builtin); ok {
		x.builtin(s, nil, b, d.args, nil, d.types)
		return
	}
	if g := x.call(s, d.fn, d.args, -1, nil); g != nil {
		g.isDfr = true
	}
}

// ---- main loop ----

// run executes s until it ends. ended describes why.
func (x *Exec) run(s *State) (ev event) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case event:
				ev = r
			case unsupported:
				ev = event{"unsupported", string(r)}
			case goPanic:
				ev = event{"unsupported", "panic outside an instruction: " + r.msg}
			default:
				panic(r)
			}
		}
	}()
	for len(s.frames) > 0 {
		x.stepProtected(s)
		if s.steps&0x3ff == 0 && x.late() {
			x.timedOut = true
			return event{"unsupported", "job time limit"}
		}
		if s.steps > x.stepMax {
			return event{"hang", fmt.Sprintf("more than %d steps", x.stepMax)}
		}
	}
	return event{"done", ""}
}

func (x *Exec) stepProtected(s *State) {
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(goPanic); ok {
				x.raise(s, Iface{types.Typ[types.String], x.strConst(s, g.msg)}, g.msg+" in "+x.where(s))
				return
			}
			panic(r)
		}
	}()
	for len(s.frames) > 0 {
		s.steps++
		x.steps++
		if s.steps&0x3ff == 0 {
			return
		}
		x.step(s)
	}
}

func (x *Exec) where(s *State) string {
	for i := len(s.frames) - 1; i >= 0; i-- {
		if f := s.frames[i]; f.info.repo || f.info.harness {
			pos := ""
			if f.ip < len(f.block.Instrs) {
				if p := f.block.Instrs[f.ip].Pos(); p.IsValid() {
					q := x.p.prog.Fset.Position(p)
					pos = fmt.Sprintf(" (%s:%d)", base(q.Filename), q.Line)
				}
			}
			return f.fn.String() + pos
		}
	}
	return "?"
}

func base(p string) string {
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		return p[i+1:]
	}
	return p
}

func (x *Exec) jump(s *State, f *Frame, b *ssa.BasicBlock) {
	f.prev = f.block
	f.block = b
	f.ip = 0
	if b.Index < len(f.visits) {
		f.visits[b.Index]++
		if f.visits[b.Index] > x.loopMax && !f.info.harness {
			panic(event{"hang", fmt.Sprintf("a loop in %s ran more than %d times", f.fn, x.loopMax)})
		}
	}
	// phis, in parallel
	n := 0
	for n < len(b.Instrs) {
		if _, ok := b.Instrs[n].(*ssa.Phi); !ok {
			break
		}
		n++
	}
	if n > 0 {
		var buf [16]Val
		vals := buf[:0]
		pi := -1
		for i, p := range b.Preds {
			if p == f.prev {
				pi = i
				break
			}
		}
		for i := 0; i < n; i++ {
			vals = append(vals, x.get(s, f, b.Instrs[i].(*ssa.Phi).Edges[pi]))
		}
		for i := 0; i < n; i++ {
			f.set(b.Instrs[i].(*ssa.Phi), vals[i])
		}
		f.ip = n
	}
}

func (x *Exec) step(s *State) {
	f := s.frames[len(s.frames)-1]
	instr := f.block.Instrs[f.ip]
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		f.set(in, x.unop(s, f, in))
	case *ssa.BinOp:
		f.set(in, x.binop(s, in.Op, in.X.Type(), in.Y.Type(), x.get(s, f, in.X), x.get(s, f, in.Y)))
	case *ssa.Call:
		fv, args := x.prepare(s, f, &in.Call)
		if b, ok := fv.(*ssa.Builtin); ok {
			ts := make([]types.Type, len(in.Call.Args))
			for i, a := range in.Call.Args {
				ts[i] = a.Type()
			}
			r := x.builtin(s, f, b, args, in.Type(), ts)
			if r == nil {
				r = Agg{}
			}
			f.set(in, r)
			break
		}
		// the instruction is re-executed by forked states, so ip moves only now
		g := x.call(s, fv, args, f.info.idx[in], in.Type())
		f.ip++
		_ = g
		return
	case *ssa.ChangeInterface:
		f.set(in, x.get(s, f, in.X))
	case *ssa.ChangeType:
		f.set(in, x.get(s, f, in.X))
	case *ssa.Convert:
		f.set(in, x.convert(s, x.get(s, f, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		f.set(in, x.convert(s, x.get(s, f, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		f.set(in, Iface{in.X.Type(), x.get(s, f, in.X)})
	case *ssa.Extract:
		f.set(in, x.get(s, f, in.Tuple).(Agg)[in.Index])
	case *ssa.Slice:
		f.set(in, x.slice(s, f, in))
	case *ssa.Return:
		rs := make([]Val, len(in.Results))
		for i, r := range in.Results {
			rs[i] = x.get(s, f, r)
		}
		x.ret(s, rs)
		return
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			x.startDeferred(s, d)
			return
		}
	case *ssa.Panic:
		v := x.get(s, f, in.X).(Iface)
		x.raise(s, v, "panic in "+x.where(s))
		return
	case *ssa.Send, *ssa.Go, *ssa.MakeChan, *ssa.Select:
		panic(unsupported(fmt.Sprintf("%T in %s", in, f.fn)))
	case *ssa.Store:
		p := x.ptr(s, f, in.Addr)
		x.store(s, in.Val.Type(), p, x.get(s, f, in.Val))
	case *ssa.If:
		succ := 1
		if x.decide(s, x.term(s, f, in.Cond)) {
			succ = 0
		}
		x.jump(s, f, f.block.Succs[succ])
		return
	case *ssa.Jump:
		x.jump(s, f, f.block.Succs[0])
		return
	case *ssa.Defer:
		fv, args := x.prepare(s, f, &in.Call)
		d := deferRec{fn: fv, args: args}
		for _, a := range in.Call.Args {
			d.types = append(d.types, a.Type())
		}
		f.defers = append(f.defers, d)
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, x.get(s, f, b))
		}
		f.set(in, c)
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		kind := kStack
		if in.Heap {
			kind = kHeap
		}
		f.set(in, s.alloc(sizeof(et), et, kind, et.String()))
	case *ssa.MakeSlice:
		n := int64(x.concretize(s, x.sextLen(x.term(s, f, in.Len), in.Len.Type())))
		c := int64(x.concretize(s, x.sextLen(x.term(s, f, in.Cap), in.Cap.Type())))
		et := in.Type().Underlying().(*types.Slice).Elem()
		if n < 0 || c < n || c > 1<<24 {
			panic(goPanic{"makeslice: len out of range"})
		}
		p := s.alloc(c*sizeof(et), et, kHeap, "make([]"+et.String()+")")
		f.set(in, Slice{p, x.c.Const(64, uint64(n)), x.c.Const(64, uint64(c))})
	case *ssa.MakeMap:
		p := s.alloc(8, in.Type(), kHeap, "map")
		s.wobj(p.obj).isMap = true
		f.set(in, p)
	case *ssa.MapUpdate:
		x.mapUpdate(s, x.get(s, f, in.Map), in.Map.Type(), x.get(s, f, in.Key), x.get(s, f, in.Value))
	case *ssa.Lookup:
		f.set(in, x.lookup(s, f, in))
	case *ssa.Range:
		f.set(in, x.rangeStart(s, f, in))
	case *ssa.Next:
		f.set(in, x.rangeNext(s, f, in))
	case *ssa.FieldAddr:
		p := x.ptr(s, f, in.X)
		if p.obj == 0 {
			panic(goPanic{"invalid memory address or nil pointer dereference"})
		}
		st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f.set(in, Ptr{p.obj, p.off + layout(st).offs[in.Field]})
	case *ssa.Field:
		f.set(in, x.get(s, f, in.X).(Agg)[in.Field])
	case *ssa.IndexAddr:
		f.set(in, x.indexAddr(s, f, in))
	case *ssa.Index:
		f.set(in, x.index(s, f, in))
	case *ssa.TypeAssert:
		f.set(in, x.typeAssert(s, f, in))
	case *ssa.SliceToArrayPointer:
		sl := x.get(s, f, in.X).(Slice)
		at := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if n := int64(x.concretize(s, sl.len)); n < at.Len() {
			panic(goPanic{"slice too short for conversion to array"})
		}
		f.set(in, sl.p)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T in %s", in, f.fn)))
	}
	f.ip++
}

func (x *Exec) sextLen(t *Term, typ types.Type) *Term {
	_, signed, _ := intWidth(typ)
	if signed {
		return x.c.SExt(t, 64)
	}
	return x.c.ZExt(t, 64)
}

func (x *Exec) toPtr(v Val) Ptr {
	switch v := v.(type) {
	case Ptr:
		if v.obj == 0 && v.off != 0 {
			panic(event{"oob", fmt.Sprintf("dereference of the integer %#x as a pointer", v.off)})
		}
		return v
	case BadPtr:
		panic(event{"oob", "dereference of integer data as a pointer"})
	}
	panic(unsupported(fmt.Sprintf("pointer operand is %T", v)))
}

func (x *Exec) ptr(s *State, f *Frame, v ssa.Value) Ptr {
	r := x.get(s, f, v)
	if p, ok := r.(Ptr); ok && p.obj != 0 {
		return p
	}
	if p, ok := r.(Ptr); ok && p.off == 0 {
		return p
	}
	return x.toPtr(r)
}

func (x *Exec) unop(s *State, f *Frame, in *ssa.UnOp) Val {
	switch in.Op {
	case token.MUL:
		p := x.ptr(s, f, in.X)
		return x.load(s, in.Type(), p)
	case token.NOT:
		return x.c.BNot(x.term(s, f, in.X))
	case token.SUB:
		v := x.get(s, f, in.X)
		if fl, ok := v.(Flt); ok {
			return -fl
		}
		t := v.(*Term)
		return x.c.Sub(x.c.Const(t.w, 0), t)
	case token.XOR:
		return x.c.Not(x.term(s, f, in.X))
	}
	panic(unsupported("unary " + in.Op.String()))
}

func (x *Exec) indexAddr(s *State, f *Frame, in *ssa.IndexAddr) Val {
	it := x.sextLen(x.term(s, f, in.Index), in.Index.Type())
	var p Ptr
	var es int64
	var n *Term
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		sl := x.get(s, f, in.X).(Slice)
		p, n, es = sl.p, sl.len, sizeof(u.Elem())
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p = x.ptr(s, f, in.X)
		if p.obj == 0 {
			panic(goPanic{"invalid memory address or nil pointer dereference"})
		}
		n, es = x.c.Const(64, uint64(at.Len())), sizeof(at.Elem())
	default:
		panic(unsupported("IndexAddr on " + in.X.Type().String()))
	}
	if !x.decide(s, x.c.Ult(it, n)) {
		panic(goPanic{"index out of range"})
	}
	i := int64(x.concretize(s, it))
	return Ptr{p.obj, p.off + i*es}
}

func (x *Exec) index(s *State, f *Frame, in *ssa.Index) Val {
	it := x.sextLen(x.term(s, f, in.Index), in.Index.Type())
	switch v := x.get(s, f, in.X).(type) {
	case Agg:
		if !x.decide(s, x.c.Ult(it, x.c.Const(64, uint64(len(v))))) {
			panic(goPanic{"index out of range"})
		}
		return v[x.concretize(s, it)]
	case Str:
		return x.strIndex(s, v, it)
	default:
		panic(unsupported(fmt.Sprintf("index of %T", v)))
	}
}

func (x *Exec) strIndex(s *State, v Str, it *Term) Val {
	if !x.decide(s, x.c.Ult(it, v.len)) {
		panic(goPanic{"index out of range"})
	}
	i := int64(x.concretize(s, it))
	return x.load(s, types.Typ[types.Uint8], Ptr{v.p.obj, v.p.off + i})
}

func (x *Exec) slice(s *State, f *Frame, in *ssa.Slice) Val {
	opt := func(v ssa.Value) (int64, bool) {
		if v == nil {
			return 0, false
		}
		return int64(x.concretize(s, x.sextLen(x.term(s, f, v), v.Type()))), true
	}
	lo, _ := opt(in.Low)
	hi, hasHi := opt(in.High)
	mx, hasMax := opt(in.Max)
	bad := func() { panic(goPanic{"slice bounds out of range"}) }
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		v := x.get(s, f, in.X).(Str)
		n := int64(x.concretize(s, v.len))
		if !hasHi {
			hi = n
		}
		if lo < 0 || hi < lo || hi > n {
			bad()
		}
		return Str{Ptr{v.p.obj, v.p.off + lo}, x.c.Const(64, uint64(hi-lo))}
	case *types.Slice:
		v := x.get(s, f, in.X).(Slice)
		c := int64(x.concretize(s, v.cap))
		if !hasHi {
			hi = int64(x.concretize(s, v.len))
		}
		if !hasMax {
			mx = c
		}
		if lo < 0 || hi < lo || mx < hi || mx > c {
			bad()
		}
		p := Ptr{v.p.obj, v.p.off + lo*sizeof(u.Elem())}
		if mx-lo == 0 && v.p.obj != 0 {
			p = v.p
		}
		return Slice{p, x.c.Const(64, uint64(hi-lo)), x.c.Const(64, uint64(mx-lo))}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := x.ptr(s, f, in.X)
		if p.obj == 0 {
			panic(goPanic{"invalid memory address or nil pointer dereference"})
		}
		c := at.Len()
		if !hasHi {
			hi = c
		}
		if !hasMax {
			mx = c
		}
		if lo < 0 || hi < lo || mx < hi || mx > c {
			bad()
		}
		return Slice{Ptr{p.obj, p.off + lo*sizeof(at.Elem())}, x.c.Const(64, uint64(hi-lo)), x.c.Const(64, uint64(mx-lo))}
	}
	panic(unsupported("slice of " + in.X.Type().String()))
}

func (x *Exec) typeAssert(s *State, f *Frame, in *ssa.TypeAssert) Val {
	iv := x.get(s, f, in.X).(Iface)
	ok := false
	var v Val
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if iv.t != nil && types.Implements(iv.t, it) {
			ok, v = true, iv
		}
	} else if iv.t != nil && types.Identical(iv.t, in.AssertedType) {
		ok, v = true, iv.v
	}
	if !in.CommaOk {
		if !ok {
			panic(goPanic{"interface conversion failed"})
		}
		return v
	}
	if !ok {
		v = zero(x.c, in.AssertedType)
	}
	return Agg{v, x.c.Bool(ok)}
}

// ---- operators ----

func (x *Exec) binop(s *State, op token.Token, t, ty types.Type, a, b Val) Val {
	switch op {
	case token.EQL:
		return x.equal(s, t, ty, a, b)
	case token.NEQ:
		return x.c.BNot(x.equal(s, t, ty, a, b))
	}
	if fa, ok := a.(Flt); ok {
		fb := b.(Flt)
		switch op {
		case token.ADD:
			return fa + fb
		case token.SUB:
			return fa - fb
		case token.MUL:
			return fa * fb
		case token.QUO:
			return fa / fb
		case token.LSS:
			return x.c.Bool(fa < fb)
		case token.LEQ:
			return x.c.Bool(fa <= fb)
		case token.GTR:
			return x.c.Bool(fa > fb)
		case token.GEQ:
			return x.c.Bool(fa >= fb)
		}
		panic(unsupported("float operator " + op.String()))
	}
	if sa, ok := a.(Str); ok {
		return x.strOp(s, op, sa, b.(Str))
	}
	pa, aIs := a.(PInt)
	pb, bIs := b.(PInt)
	if aIs || bIs {
		if r := x.pintOp(op, pa, pb, aIs, bIs, a, b); r != nil {
			return r
		}
		a, b = x.asTerm(a), x.asTerm(b)
	}
	ta, okA := a.(*Term)
	tb, okB := b.(*Term)
	if !okA || !okB {
		panic(unsupported(fmt.Sprintf("operator %s on %T and %T", op, a, b)))
	}
	if ta.isBool() {
		switch op {
		case token.AND:
			return x.c.BAnd(ta, tb)
		case token.OR:
			return x.c.BOr(ta, tb)
		}
		panic(unsupported("Boolean operator " + op.String()))
	}
	_, signed, _ := intWidth(t)
	switch op {
	case token.ADD:
		return x.c.Add(ta, tb)
	case token.SUB:
		return x.c.Sub(ta, tb)
	case token.MUL:
		return x.c.Mul(ta, tb)
	case token.QUO, token.REM:
		if x.decide(s, x.c.Eq(tb, x.c.Const(tb.w, 0))) {
			panic(goPanic{"integer divide by zero"})
		}
		o := map[bool]map[token.Token]Op{true: {token.QUO: OSDiv, token.REM: OSRem}, false: {token.QUO: OUDiv, token.REM: OURem}}[signed][op]
		if signed && ta.op == OConcat && leadingZeroBits(ta) > 0 && tb.isConst() && tb.val>>(tb.w-1) == 0 {
			if o == OSDiv {
				o = OUDiv
			} else {
				o = OURem
			}
		}
		return x.c.Div(o, ta, tb)
	case token.AND:
		// y & -y and y & (y-1)
		for i, p := range [][2]*Term{{ta, tb}, {tb, ta}} {
			y, z := p[0], p[1]
			if y.isConst() || i == 1 && ta == tb {
				continue
			}
			if z.op == OSub && z.b == y && z.a.isConst() && z.a.val == 0 || z == x.c.Add(x.c.Not(y), x.c.Const(y.w, 1)) {
				if low, _, ok := x.lowestBit(s, y); ok {
					return low
				}
			} else if z == x.c.Add(y, x.c.Const(y.w, ^uint64(0))) {
				if _, rest, ok := x.lowestBit(s, y); ok {
					return x.simpAnd(s, rest)
				}
			}
		}
		return x.simpAnd(s, x.c.And(ta, tb))
	case token.AND_NOT:
		return x.simpAnd(s, x.c.And(ta, x.c.Not(tb)))
	case token.OR:
		return x.c.Or(ta, tb)
	case token.XOR:
		return x.c.Xor(ta, tb)
	case token.SHL, token.SHR:
		_, ysigned, _ := intWidth(ty)
		if ysigned && x.decide(s, x.c.Slt(tb, x.c.Const(tb.w, 0))) {
			panic(goPanic{"negative shift amount"})
		}
		w := ta.w
		var n *Term
		big := x.c.F
		if tb.w > w {
			big = x.c.BNot(x.c.Ult(tb, x.c.Const(tb.w, uint64(w))))
			n = x.c.Extract(tb, w-1, 0)
		} else {
			n = x.c.ZExt(tb, w)
		}
		if op == token.SHL {
			return x.c.Ite(big, x.c.Const(w, 0), x.c.Shl(ta, n))
		}
		if signed {
			return x.c.Ite(big, x.c.Ashr(ta, x.c.Const(w, uint64(w-1))), x.c.Ashr(ta, n))
		}
		return x.c.Ite(big, x.c.Const(w, 0), x.c.Lshr(ta, n))
	case token.LSS:
		return x.less(ta, tb, signed)
	case token.GTR:
		return x.less(tb, ta, signed)
	case token.LEQ:
		return x.c.BNot(x.less(tb, ta, signed))
	case token.GEQ:
		return x.c.BNot(x.less(ta, tb, signed))
	}
	panic(unsupported("operator " + op.String()))
}

func (x *Exec) simpAnd(s *State, t *Term) *Term {
	u := t
	if u.op == OConcat {
		u = u.b
	}
	if u.op == OAnd {
		return x.simp(s, t)
	}
	return t
}

func (x *Exec) less(a, b *Term, signed bool) *Term {
	if signed {
		return x.c.Slt(a, b)
	}
	return x.c.Ult(a, b)
}

func (x *Exec) pintOp(op token.Token, pa, pb PInt, aIs, bIs bool, a, b Val) Val {
	switch op {
	case token.ADD:
		if aIs && !bIs {
			return PInt{pa.obj, x.c.Add(pa.off, b.(*Term))}
		}
		if bIs && !aIs {
			return PInt{pb.obj, x.c.Add(pb.off, a.(*Term))}
		}
	case token.SUB:
		if aIs && !bIs {
			return PInt{pa.obj, x.c.Sub(pa.off, b.(*Term))}
		}
		if aIs && bIs && pa.obj == pb.obj {
			return x.c.Sub(pa.off, pb.off)
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if aIs && bIs {
			if pa.obj == pb.obj {
				switch op {
				case token.LSS:
					return x.c.Ult(pa.off, pb.off)
				case token.GTR:
					return x.c.Ult(pb.off, pa.off)
				case token.LEQ:
					return x.c.BNot(x.c.Ult(pb.off, pa.off))
				case token.GEQ:
					return x.c.BNot(x.c.Ult(pa.off, pb.off))
				}
			}
			lt := pa.obj < pb.obj
			return x.c.Bool(lt == (op == token.LSS || op == token.LEQ))
		}
	case token.AND, token.REM:
		// alignment tests: objects are 64-byte aligned in this model only up to 8 bytes
		if m, ok := b.(*Term); ok && aIs && m.isConst() {
			if op == token.AND && m.val < 8 {
				return x.c.And(pa.off, m)
			}
			if op == token.REM && (m.val == 8 || m.val == 4 || m.val == 2) {
				return x.c.And(pa.off, x.c.Const(64, m.val-1))
			}
		}
	}
	return nil
}

func (x *Exec) strBytes(s *State, v Str) []*Term {
	n := int64(x.concretize(s, v.len))
	return x.bytesAt(s, v.p, n)
}

func (x *Exec) bytesAt(s *State, p Ptr, n int64) []*Term {
	if n == 0 {
		return nil
	}
	x.checkAccess(s, p, n, false)
	o := s.heap[p.obj]
	out := make([]*Term, n)
	for i := range out {
		out[i] = x.loadByte(o, p.off+int64(i))
	}
	return out
}

func (x *Exec) newBytes(s *State, bs []*Term, note string) Ptr {
	if len(bs) == 0 {
		return Ptr{}
	}
	p := s.alloc(int64(len(bs)), types.Typ[types.Uint8], kHeap, note)
	o := s.wobj(p.obj)
	for i, b := range bs {
		o.cells[int64(i)] = cell{1, b}
	}
	return p
}

func (x *Exec) strOp(s *State, op token.Token, a, b Str) Val {
	switch op {
	case token.ADD:
		ba, bb := x.strBytes(s, a), x.strBytes(s, b)
		if len(ba) == 0 {
			return b
		}
		if len(bb) == 0 {
			return a
		}
		all := append(append([]*Term(nil), ba...), bb...)
		return Str{x.newBytes(s, all, "string"), x.c.Const(64, uint64(len(all)))}
	case token.LSS:
		return x.cmpLess(x.strBytes(s, a), x.strBytes(s, b))
	case token.GTR:
		return x.cmpLess(x.strBytes(s, b), x.strBytes(s, a))
	case token.LEQ:
		return x.c.BNot(x.cmpLess(x.strBytes(s, b), x.strBytes(s, a)))
	case token.GEQ:
		return x.c.BNot(x.cmpLess(x.strBytes(s, a), x.strBytes(s, b)))
	}
	panic(unsupported("string operator " + op.String()))
}

// cmpLess: lexicographic a < b.
func (x *Exec) cmpLess(a, b []*Term) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	out := x.c.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		out = x.c.BOr(x.c.Ult(a[i], b[i]), x.c.BAnd(x.c.Eq(a[i], b[i]), out))
	}
	return out
}

func (x *Exec) equal(s *State, t, ty types.Type, a, b Val) *Term {
	switch va := a.(type) {
	case *Term:
		switch vb := b.(type) {
		case *Term:
			return x.c.Eq(va, vb)
		case PInt:
			if va.isConst() && va.val < 4096 {
				return x.c.F
			}
			if n := len(s.frames); n > 0 && s.frames[n-1].info.harness {
				return x.c.F // memory layouts in which they differ exist
			}
			return x.c.Eq(va, x.asTerm(vb))
		}
	case PInt:
		switch vb := b.(type) {
		case PInt:
			if va.obj == vb.obj {
				return x.c.Eq(va.off, vb.off)
			}
			return x.c.F
		case *Term:
			return x.equal(s, t, ty, b, a)
		}
	case Flt:
		return x.c.Bool(va == b.(Flt))
	case Str:
		vb := b.(Str)
		if va.len != vb.len && va.len.isConst() && vb.len.isConst() {
			return x.c.F
		}
		if va.p == vb.p && va.len == vb.len {
			return x.c.T
		}
		return x.eqList(s, x.strBytes(s, va), x.strBytes(s, vb))
	case Ptr:
		switch vb := b.(type) {
		case Ptr:
			return x.c.Bool(va == vb)
		case BadPtr, *Closure:
			if va == (Ptr{}) {
				if bp, ok := vb.(BadPtr); ok && bp.t != nil {
					return x.c.Eq(bp.t, x.c.Const(64, 0))
				}
				return x.c.F
			}
			return x.c.F
		case Iface:
			return x.ifaceEq(s, Iface{t, a}, vb)
		}
	case BadPtr:
		switch vb := b.(type) {
		case Ptr:
			return x.equal(s, ty, t, b, a)
		case BadPtr:
			if va.t != nil && vb.t != nil {
				return x.c.Eq(va.t, vb.t)
			}
		}
	case *Closure:
		vb, ok := b.(*Closure)
		if ok && (va == nil || vb == nil) {
			return x.c.Bool(va == nil && vb == nil)
		}
	case Slice: // only against nil
		if vb, ok := b.(Slice); ok {
			if vb.p.obj == 0 && vb.p.off == 0 {
				return x.c.Bool(va.p.obj == 0)
			}
			return x.c.Bool(vb.p.obj == 0 && va.p.obj == 0)
		}
	case Iface:
		if vb, ok := b.(Iface); ok {
			return x.ifaceEq(s, va, vb)
		}
		return x.ifaceEq(s, va, Iface{ty, b})
	case Agg:
		vb, ok := b.(Agg)
		if !ok {
			break
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			out := x.c.T
			for i := range va {
				if u.Field(i).Name() == "_" {
					continue
				}
				ft := u.Field(i).Type()
				out = x.c.BAnd(out, x.equal(s, ft, ft, va[i], vb[i]))
			}
			return out
		case *types.Array:
			if w, _, ok := intWidth(u.Elem()); ok && w == 8 {
				la, lb := make([]*Term, len(va)), make([]*Term, len(vb))
				for i := range va {
					la[i], lb[i] = va[i].(*Term), vb[i].(*Term)
				}
				return x.eqList(s, la, lb)
			}
			out := x.c.T
			for i := range va {
				out = x.c.BAnd(out, x.equal(s, u.Elem(), u.Elem(), va[i], vb[i]))
			}
			return out
		}
	}
	panic(unsupported(fmt.Sprintf("comparison of %T and %T", a, b)))
}

func (x *Exec) ifaceEq(s *State, a, b Iface) *Term {
	if a.t == nil || b.t == nil {
		return x.c.Bool(a.t == nil && b.t == nil)
	}
	if !types.Identical(a.t, b.t) {
		return x.c.F
	}
	if !types.Comparable(a.t) {
		panic(goPanic{"comparing uncomparable type"})
	}
	return x.equal(s, a.t, a.t, a.v, b.v)
}

func (x *Exec) convert(s *State, v Val, from, to types.Type) Val {
	fw, fsigned, fint := intWidth(from)
	tw, _, tint := intWidth(to)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fint && tint:
		switch v := v.(type) {
		case PInt:
			if tw == 64 {
				return v
			}
			return x.c.ZExt(x.asTerm(v), tw)
		case *Term:
			_ = fw
			if fsigned {
				return x.c.SExt(v, tw)
			}
			return x.c.ZExt(v, tw)
		}
	case tb != nil && tb.Kind() == types.UnsafePointer:
		switch v := v.(type) {
		case Ptr, *Closure, BadPtr:
			return v
		case PInt:
			off := int64(x.concretize(s, v.off))
			return Ptr{v.obj, off}
		case *Term:
			if v.isConst() {
				return Ptr{0, int64(v.val)}
			}
			if x.decide(s, x.c.Eq(v, x.c.Const(64, 0))) {
				return Ptr{}
			}
			if p, ok := x.unaddr(v); ok {
				return p
			}
			return BadPtr{v}
		}
	case fb != nil && fb.Kind() == types.UnsafePointer:
		if tint {
			switch v := v.(type) {
			case Ptr:
				if v.obj == 0 {
					return x.c.Const(tw, uint64(v.off))
				}
				return PInt{v.obj, x.c.Const(64, uint64(v.off))}
			case BadPtr:
				if v.t != nil {
					return v.t
				}
			}
			break
		}
		return v // to a typed pointer
	case fint && tb != nil && tb.Info()&types.IsFloat != 0:
		n := x.concretize(s, v.(*Term))
		if fsigned {
			r := float64(sext(n, fw))
			if tb.Kind() == types.Float32 {
				r = float64(float32(r))
			}
			return Flt(r)
		}
		if tb.Kind() == types.Float32 {
			return Flt(float64(float32(n)))
		}
		return Flt(float64(n))
	case tint && fb != nil && fb.Info()&types.IsFloat != 0:
		fl := float64(v.(Flt))
		if math.IsNaN(fl) || math.Abs(fl) > 1<<62 {
			panic(unsupported("float to integer conversion out of range"))
		}
		return x.c.Const(tw, uint64(int64(fl)))
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if tb.Kind() == types.Float32 {
			return Flt(float64(float32(v.(Flt))))
		}
		return v
	case tb != nil && tb.Info()&types.IsString != 0:
		if sl, ok := v.(Slice); ok {
			n := int64(x.concretize(s, sl.len))
			et := from.Underlying().(*types.Slice).Elem()
			if sizeof(et) != 1 {
				panic(unsupported("string from runes"))
			}
			return Str{x.newBytes(s, x.bytesAt(s, sl.p, n), "string"), x.c.Const(64, uint64(n))}
		}
		if fint {
			n := x.concretize(s, v.(*Term))
			return x.strConst(s, string(rune(n)))
		}
		if sv, ok := v.(Str); ok {
			return sv
		}
	case fb != nil && fb.Info()&types.IsString != 0:
		if st, ok := to.Underlying().(*types.Slice); ok && sizeof(st.Elem()) == 1 {
			bs := x.strBytes(s, v.(Str))
			n := x.c.Const(64, uint64(len(bs)))
			p := x.newBytes(s, bs, "[]byte")
			if len(bs) == 0 {
				p = s.alloc(0, types.Typ[types.Uint8], kHeap, "[]byte")
			}
			return Slice{p, n, n}
		}
	default:
		switch v.(type) {
		case Ptr, BadPtr:
			return v
		}
		if sl, ok := v.(Slice); ok {
			return sl
		}
	}
	panic(unsupported(fmt.Sprintf("conversion from %s to %s", from, to)))
}

// ---- builtins ----

func (x *Exec) builtin(s *State, f *Frame, b *ssa.Builtin, args []Val, res types.Type, ts []types.Type) Val {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case Slice:
			return v.len
		case Str:
			return v.len
		case Agg:
			return x.c.Const(64, uint64(len(v)))
		case Ptr:
			if _, ok := ts[0].Underlying().(*types.Map); ok {
				if v.obj == 0 {
					return x.c.Const(64, 0)
				}
				x.touch(s, v, false)
				return x.c.Const(64, uint64(len(s.heap[v.obj].ents)))
			}
			if pt, ok := ts[0].Underlying().(*types.Pointer); ok {
				return x.c.Const(64, uint64(pt.Elem().Underlying().(*types.Array).Len()))
			}
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return v.cap
		case Agg:
			return x.c.Const(64, uint64(len(v)))
		case Ptr:
			if pt, ok := ts[0].Underlying().(*types.Pointer); ok {
				return x.c.Const(64, uint64(pt.Elem().Underlying().(*types.Array).Len()))
			}
		}
	case "append":
		return x.doAppend(s, args, ts)
	case "copy":
		dst := args[0].(Slice)
		var sp Ptr
		var sn *Term
		switch v := args[1].(type) {
		case Slice:
			sp, sn = v.p, v.len
		case Str:
			sp, sn = v.p, v.len
		}
		n := int64(x.concretize(s, dst.len))
		if m := int64(x.concretize(s, sn)); m < n {
			n = m
		}
		x.copyElems(s, ts[0].Underlying().(*types.Slice).Elem(), dst.p, sp, n)
		return x.c.Const(64, uint64(n))
	case "clear":
		switch u := ts[0].Underlying().(type) {
		case *types.Slice:
			v := args[0].(Slice)
			n := int64(x.concretize(s, v.len))
			if n > 0 {
				es := sizeof(u.Elem())
				x.checkAccess(s, v.p, n*es, true)
				x.clearCells(s.wobj(v.p.obj), v.p.off, n*es)
			}
			return Agg{}
		case *types.Map:
			if p := args[0].(Ptr); p.obj != 0 {
				x.touch(s, p, true)
				s.wobj(p.obj).ents = nil
			}
			return Agg{}
		}
	case "min", "max":
		_, signed, ok := intWidth(ts[0])
		if !ok {
			break
		}
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			lt := x.less(t, r, signed)
			if b.Name() == "max" {
				lt = x.less(r, t, signed)
			}
			r = x.c.Ite(lt, t, r)
		}
		return r
	case "delete":
		x.mapDelete(s, args[0], ts[0], args[1])
		return Agg{}
	case "print", "println":
		return Agg{}
	case "recover":
		top := s.frames[len(s.frames)-1]
		if top.isDfr && len(s.frames) >= 2 {
			if p := s.frames[len(s.frames)-2].pan; p != nil && !p.recovered {
				q := *p
				q.recovered = true
				s.frames[len(s.frames)-2].pan = &q
				return p.val
			}
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			panic(goPanic{"value method called using nil pointer"})
		}
		return args[0]
	case "Add":
		p := args[0]
		n := x.sextLen(args[1].(*Term), ts[1])
		switch p := p.(type) {
		case Ptr:
			return Ptr{p.obj, p.off + int64(x.concretize(s, n))}
		}
	case "Slice":
		et := ts[0].Underlying().(*types.Pointer).Elem()
		n := x.sextLen(args[1].(*Term), ts[1])
		p := x.toPtr(args[0])
		k := int64(x.concretize(s, n))
		if k < 0 || p.obj == 0 && k > 0 {
			panic(goPanic{"unsafe.Slice: len out of range"})
		}
		_ = et
		return Slice{p, x.c.Const(64, uint64(k)), x.c.Const(64, uint64(k))}
	case "Sizeof":
		return x.c.Const(64, uint64(sizeof(ts[0])))
	case "Alignof":
		return x.c.Const(64, uint64(sizes.Alignof(ts[0])))
	case "SliceData":
		return args[0].(Slice).p
	case "String":
		n := x.sextLen(args[1].(*Term), ts[1])
		return Str{x.toPtr(args[0]), x.c.Const(64, x.concretize(s, n))}
	case "StringData":
		return args[0].(Str).p
	}
	panic(unsupported("builtin " + b.Name()))
}

func (x *Exec) copyElems(s *State, et types.Type, dst, src Ptr, n int64) {
	if n <= 0 {
		return
	}
	es := sizeof(et)
	if es == 0 {
		return
	}
	x.checkAccess(s, src, n*es, false)
	x.checkAccess(s, dst, n*es, true)
	vals := make([]Val, n)
	for i := range vals {
		vals[i] = x.loadRaw(s, et, Ptr{src.obj, src.off + int64(i)*es})
	}
	o := s.wobj(dst.obj)
	for i, v := range vals {
		x.storeRaw(s, et, o, dst.off+int64(i)*es, v)
	}
}

func (x *Exec) doAppend(s *State, args []Val, ts []types.Type) Val {
	a := args[0].(Slice)
	et := ts[0].Underlying().(*types.Slice).Elem()
	var sp Ptr
	var sn *Term
	switch v := args[1].(type) {
	case Slice:
		sp, sn = v.p, v.len
	case Str:
		sp, sn = v.p, v.len
	}
	n := int64(x.concretize(s, a.len))
	c := int64(x.concretize(s, a.cap))
	m := int64(x.concretize(s, sn))
	if m == 0 {
		return a
	}
	es := sizeof(et)
	if n+m > c {
		nc := 2 * c
		if nc < n+m {
			nc = n + m
		}
		if c >= 256 {
			nc = c + c/4 + m
		}
		// the runtime rounds up to size classes; capacity 8 bytes at least
		if es > 0 && nc*es < 8 {
			nc = 8 / es
		}
		p := s.alloc(nc*es, et, kHeap, "append([]"+et.String()+")")
		x.copyElems(s, et, p, a.p, n)
		a.p, a.cap = p, x.c.Const(64, uint64(nc))
	}
	x.copyElems(s, et, Ptr{a.p.obj, a.p.off + n*es}, sp, m)
	a.len = x.c.Const(64, uint64(n+m))
	return a
}

// ---- Go maps: association lists in insertion order ----

type mapEnt struct{ k, v Val }

func (x *Exec) touch(s *State, p Ptr, write bool) { x.checkAccess(s, p, 8, write) }

func (x *Exec) mapFind(s *State, p Ptr, kt types.Type, k Val) int {
	for i, e := range s.heap[p.obj].ents {
		if x.decide(s, x.equal(s, kt, kt, e.k, k)) {
			return i
		}
	}
	return -1
}

func (x *Exec) mapUpdate(s *State, m Val, t types.Type, k, v Val) {
	p := m.(Ptr)
	if p.obj == 0 {
		panic(goPanic{"assignment to entry in nil map"})
	}
	mt := t.Underlying().(*types.Map)
	i := x.mapFind(s, p, mt.Key(), k)
	x.touch(s, p, true)
	o := s.wobj(p.obj)
	ents := append([]mapEnt(nil), o.ents...)
	if i >= 0 {
		ents[i].v = v
	} else {
		ents = append(ents, mapEnt{k, v})
	}
	o.ents = ents
}

func (x *Exec) mapDelete(s *State, m Val, t types.Type, k Val) {
	p := m.(Ptr)
	if p.obj == 0 {
		return
	}
	mt := t.Underlying().(*types.Map)
	i := x.mapFind(s, p, mt.Key(), k)
	x.touch(s, p, true)
	if i >= 0 {
		o := s.wobj(p.obj)
		ents := append([]mapEnt(nil), o.ents[:i]...)
		o.ents = append(ents, o.ents[i+1:]...)
	}
}

func (x *Exec) lookup(s *State, f *Frame, in *ssa.Lookup) Val {
	v := x.get(s, f, in.X)
	if sv, ok := v.(Str); ok {
		return x.strIndex(s, sv, x.sextLen(x.term(s, f, in.Index), in.Index.Type()))
	}
	mt := in.X.Type().Underlying().(*types.Map)
	p := v.(Ptr)
	i := -1
	if p.obj != 0 {
		x.touch(s, p, false)
		i = x.mapFind(s, p, mt.Key(), x.get(s, f, in.Index))
	}
	var r Val
	if i >= 0 {
		r = s.heap[p.obj].ents[i].v
	} else {
		r = zero(x.c, mt.Elem())
	}
	if in.CommaOk {
		return Agg{r, x.c.Bool(i >= 0)}
	}
	return r
}

type rangeIter struct {
	ents []mapEnt
	str  []*Term
	i    int
}

func (x *Exec) rangeStart(s *State, f *Frame, in *ssa.Range) Val {
	switch v := x.get(s, f, in.X).(type) {
	case Ptr:
		if v.obj == 0 {
			return &rangeIter{}
		}
		x.touch(s, v, false)
		return &rangeIter{ents: s.heap[v.obj].ents}
	}
	panic(unsupported("range over a string"))
}

func (x *Exec) rangeNext(s *State, f *Frame, in *ssa.Next) Val {
	it := x.get(s, f, in.Iter).(*rangeIter)
	if it.i >= len(it.ents) {
		tt := in.Type().(*types.Tuple)
		z := func(i int) Val {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return Agg{}
			}
			return zero(x.c, tt.At(i).Type())
		}
		return Agg{x.c.F, z(1), z(2)}
	}
	e := it.ents[it.i]
	f.set(in.Iter, &rangeIter{ents: it.ents, i: it.i + 1})
	return Agg{x.c.T, e.k, e.v}
}
