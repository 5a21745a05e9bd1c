package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Run-time values of the symbolic machine. Scalars are *Term (Booleans have width 0).

type Val interface{}

type Ptr struct {
	obj int32 // 0: nil
	off int64
}

// PInt is an integer obtained from a pointer: address of obj plus off.
type PInt struct {
	obj int32
	off *Term
}

type Slice struct {
	p        Ptr
	len, cap *Term
}

type Str struct {
	p   Ptr
	len *Term
}

type Iface struct {
	t types.Type // nil: nil interface
	v Val
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
}

type Agg []Val // struct fields or array elements

type Flt float64

type TypeWord struct{ t types.Type }
type DataWord struct{ v Val }

var sizes = types.SizesFor("gc", "amd64")

func sizeof(t types.Type) int64 { return sizes.Sizeof(t) }

type structLayout struct {
	offs []int64
	typs []types.Type
}

var layoutCache sync.Map // *types.Struct -> *structLayout

func layout(s *types.Struct) *structLayout {
	if l, ok := layoutCache.Load(s); ok {
		return l.(*structLayout)
	}
	n := s.NumFields()
	vars := make([]*types.Var, n)
	l := &structLayout{typs: make([]types.Type, n)}
	for i := range vars {
		vars[i] = s.Field(i)
		l.typs[i] = vars[i].Type()
	}
	l.offs = sizes.Offsetsof(vars)
	layoutCache.Store(s, l)
	return l
}

// intWidth returns the width and signedness of an integer type.
func intWidth(t types.Type) (uint8, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

// ptrAt reports whether the word at off within a value of type t is a pointer as the
// garbage collector sees it.
func ptrAt(t types.Type, off int64) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.UnsafePointer:
			return off == 0
		case types.String:
			return off == 0
		}
		return false
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return off == 0
	case *types.Slice:
		return off == 0
	case *types.Interface:
		return off == 0 || off == 8
	case *types.Array:
		es := sizeof(u.Elem())
		if es == 0 || off >= es*u.Len() {
			return false
		}
		return ptrAt(u.Elem(), off%es)
	case *types.Struct:
		l := layout(u)
		for i := len(l.offs) - 1; i >= 0; i-- {
			if off >= l.offs[i] {
				if s := sizeof(l.typs[i]); off < l.offs[i]+s {
					return ptrAt(l.typs[i], off-l.offs[i])
				} else if s > 0 {
					return false
				}
			}
		}
		return false
	}
	return false
}

type cell struct {
	size int8
	v    Val
}

// Obj is one allocation.
type Obj struct {
	id    int32
	epoch uint64 // owning state epoch (copy on write)
	size  int64
	cells map[int64]cell
	elem  types.Type // allocated element type (repeats up to size)
	note  string
	kind  uint8 // see below
	isMap bool
	ents  []mapEnt // Go map contents (replaced, never changed in place)
}

const (
	kHeap uint8 = iota
	kStack
	kGlobal
	kUninitGlobal
	kConst // read-only data (string literals)
)

func zero(c *Ctx, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			return c.Const(w, 0)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return c.F
		case types.String, types.UntypedString:
			return Str{Ptr{}, c.Const(64, 0)}
		case types.Float32, types.Float64, types.UntypedFloat:
			return Flt(0)
		case types.UnsafePointer, types.UntypedNil:
			return Ptr{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{Ptr{}, c.Const(64, 0), c.Const(64, 0)}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Map, *types.Chan:
		return Ptr{}
	case *types.Struct:
		l := layout(u)
		a := make(Agg, len(l.typs))
		for i, ft := range l.typs {
			a[i] = zero(c, ft)
		}
		return a
	case *types.Array:
		a := make(Agg, u.Len())
		for i := range a {
			a[i] = zero(c, u.Elem())
		}
		return a
	case *types.Tuple:
		a := make(Agg, u.Len())
		for i := range a {
			a[i] = zero(c, u.At(i).Type())
		}
		return a
	}
	panic(unsupported(fmt.Sprintf("zero value of %s", t)))
}

type unsupported string
