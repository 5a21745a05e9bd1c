package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) str(s *State, v Val) string {
	bs := x.strBytes(s, v.(Str))
	out := make([]byte, len(bs))
	for i, b := range bs {
		if !b.isConst() {
			panic(engineError("symbolic name"))
		}
		out[i] = byte(b.val)
	}
	return string(out)
}

func (x *Exec) input(s *State, name string, w uint8) *Term {
	k := s.names[name]
	s.names[name] = k + 1
	full := fmt.Sprintf("%s#%d", name, k)
	vn := fmt.Sprintf("%s/%d", full, w)
	t := x.ufres["in:"+vn]
	if t == nil {
		t = x.c.Var(w, full)
		x.ufres["in:"+vn] = t
	}
	s.inputs = append(s.inputs, inputRec{full, t})
	return t
}

func initHarnessIntrinsics(m map[string]intrinsic) {
	m[vpkg+"Param"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		n := x.str(s, a[0])
		v, ok := x.params[n]
		if !ok {
			v = 0
		}
		x.pused[n] = true
		return x.c.Const(64, uint64(v))
	}
	m[vpkg+"U64"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		return x.input(s, x.str(s, a[0]), 64)
	}
	m[vpkg+"Choose"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		name := x.str(s, a[0])
		n := a[1].(*Term)
		if !n.isConst() || n.val == 0 || n.val > 200 {
			panic(engineError("Choose bound"))
		}
		// re-executed after a fork: the variable and its constraint must not be added twice
		full := fmt.Sprintf("%s#%d", name, s.names[name])
		t := x.ufres["in:"+full+"/8"]
		if t == nil {
			t = x.c.Var(8, full)
			x.ufres["in:"+full+"/8"] = t
		}
		if !x.assume(s, x.c.Ult(t, x.c.Const(8, n.val))) {
			panic(event{"infeasible", ""})
		}
		r := x.concretize(s, t)
		s.names[name]++
		s.inputs = append(s.inputs, inputRec{full, t})
		return x.c.Const(64, r)
	}
	m[vpkg+"Assume"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		if !x.assume(s, a[0].(*Term)) {
			panic(event{"infeasible", ""})
		}
		return Agg{}
	}
	m[vpkg+"Assert"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		if x.params["quiet"] == 0 {
			x.assert(s, a[0].(*Term), x.str(s, a[1]))
		}
		return Agg{}
	}
	m[vpkg+"Reach"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		x.reached[x.str(s, a[0])] = true
		return Agg{}
	}
	m[vpkg+"And"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val { return x.c.BAnd(a[0].(*Term), a[1].(*Term)) }
	m[vpkg+"Or"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val { return x.c.BOr(a[0].(*Term), a[1].(*Term)) }
	m[vpkg+"Not"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val { return x.c.BNot(a[0].(*Term)) }
	m[vpkg+"IteU64"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		return x.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	}
	m[vpkg+"Observe"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		t, ok := a[1].(*Term)
		if !ok {
			panic(unsupported("observation of an address"))
		}
		s.obs = append(s.obs, obsRec{x.str(s, a[0]), t})
		return Agg{}
	}
	m[vpkg+"PinSeed"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		s.pin, s.pinned = true, 0
		return Agg{}
	}
	m[vpkg+"Unsupported"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		panic(unsupported("harness: " + x.str(s, a[0])))
	}
	m[vpkg+"lastSeed"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val { return x.c.Const(64, s.lastSeed) }
	m[vpkg+"Symbolic"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val { return x.c.T }
	m[vpkg+"recording"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val { return x.c.Bool(s.fpOn != 0) }
	m[vpkg+"phase"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		n := int(a[0].(*Term).val)
		if n == 1 {
			for i := range s.fpR {
				s.fpR[i], s.fpW[i] = map[int64][]int64{}, map[int64][]int64{}
			}
		}
		s.fpOn = n
		return Agg{}
	}
	m[vpkg+"conflict"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		first := int64(-1)
		what := ""
		for i := 1; i <= 2; i++ {
			j := 3 - i
			for k, l := range s.fpW[i] {
				if lw, ok := s.fpW[j][k]; ok && !excluded(l, lw) {
					if first < 0 || k <= first {
						first, what = k, "written by both"
					}
				} else if lr, ok := s.fpR[j][k]; ok && !excluded(l, lr) {
					if first < 0 || k < first {
						first, what = k, "written by one and read by the other"
					}
				}
			}
		}
		if first >= 0 {
			o := s.heap[first>>24]
			x.violation(s, "race", fmt.Sprintf("%s: byte %d of a %d-byte object (%s) is %s", x.str(s, a[0]), first&0xffffff, o.size, o.note, what))
		} else {
			x.asserts++
			x.trivial++
		}
		return Agg{}
	}
	// liveness
	m[vpkg+"track"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		p := x.toPtr(a[0])
		return x.c.Const(64, uint64(p.obj))
	}
	m[vpkg+"held"] = func(x *Exec, s *State, fn *ssa.Function, a []Val) Val {
		t := a[1].(*Term)
		return x.c.Bool(x.reach(s, a[0])[int32(t.val)])
	}
}

// reach returns the objects a garbage collector would keep alive through v and the
// package-level variables of the code under test.
func (x *Exec) reach(s *State, v Val) map[int32]bool {
	seen := map[int32]bool{}
	var work []int32
	var val func(v Val)
	add := func(id int32) {
		if id != 0 && !seen[id] {
			seen[id] = true
			work = append(work, id)
		}
	}
	val = func(v Val) {
		switch v := v.(type) {
		case Ptr:
			add(v.obj)
		case Slice:
			add(v.p.obj)
		case Str:
			add(v.p.obj)
		case Iface:
			val(v.v)
		case *Closure:
			if v != nil {
				for _, b := range v.binds {
					val(b)
				}
			}
		case Agg:
			for _, e := range v {
				val(e)
			}
		case DataWord:
			val(v.v)
		}
	}
	val(v)
	for g, p := range s.globs {
		if g.Pkg != nil && g.Pkg.Pkg.Path() == x.p.repoPath {
			add(p.obj)
		}
	}
	for len(work) > 0 {
		o := s.heap[work[len(work)-1]]
		work = work[:len(work)-1]
		es := int64(0)
		if o.elem != nil {
			es = sizeof(o.elem)
		}
		for off, c := range o.cells {
			switch c.v.(type) {
			case *Term:
				continue
			}
			if es > 0 && !ptrAt(o.elem, off%es) {
				continue
			}
			val(c.v)
		}
		for _, e := range o.ents {
			val(e.k)
			val(e.v)
		}
	}
	return seen
}

func (x *Exec) assert(s *State, t *Term, msg string) {
	t = x.simp(s, t)
	if t == x.c.T {
		x.asserts++
		x.trivial++
		return
	}
	if t == x.c.F {
		x.violation(s, "assert", msg)
		panic(event{"stop", ""})
	}
	v, m := x.check(s, x.c.BNot(t))
	switch v {
	case Unsat:
		x.asserts++
		x.addFact(s, t, true)
	case Sat:
		sv := s.model
		nm := make(Model, len(sv)+len(m))
		for k, v := range sv {
			nm[k] = v
		}
		for k, v := range m {
			nm[k] = v
		}
		s.model = nm
		s.emem = map[*Term]uint64{}
		x.violation(s, "assert", msg)
		s.model = sv
		s.emem = map[*Term]uint64{}
		if !x.assume(s, t) {
			panic(event{"infeasible", ""})
		}
	default:
		x.note("solver gave up on an assertion")
		x.incompl++
		x.push(s, t)
	}
}

func (x *Exec) violation(s *State, kind, msg string) {
	for _, v := range x.viol {
		if v.Kind == kind && v.Msg == msg {
			x.dupViol++
			if x.dupViol > 2 {
				return
			}
		}
	}
	v := &Violation{Kind: kind, Msg: msg, Job: x.job, Where: ""}
	if len(s.frames) > 0 {
		v.Where = x.where(s)
	}
	v.Model = x.replay(s)
	v.Model.Expect = kind
	v.Model.Msg = msg
	x.viol = append(x.viol, v)
}
