package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Symbolic values

type Val interface{}

// Window is a set of element addresses lo <= a < hi without holes
type Window struct {
	cls    string
	lo, hi *Term
	holes  []*Term
}

func (w Window) in(b *B, a *Term) *Term {
	c := []*Term{b.Le(w.lo, a), b.Lt(a, w.hi)}
	for _, h := range w.holes {
		c = append(c, b.Ne(a, h))
	}
	return b.And(c...)
}

type SliceV struct {
	cls           string
	elem          types.Type
	ptr, len, cap *Term
}

type PElem struct { // pointer to an element
	cls  string
	elem types.Type
	addr *Term
}

type PArr struct { // pointer to local array
	cls  string
	elem types.Type
	base *Term
	n    int64
}

type Cell struct { // local variable in memory
	id   int
	typ  types.Type
	name string
}

type PCell struct {
	cell *Cell
	path []int      // field path
	as   types.Type // type it is viewed as, after unsafe conversion
}

type PSync struct { // *syncVar parameter, possibly nil
	null *Term
	typ  types.Type
	path []int
}

type PGlobal struct {
	g   *ssa.Global
	idx *Term // element of table
}

type PNil struct{}

type ChanV struct{ name string }

type FuncV struct {
	fn   *ssa.Function
	bind []Val
	lsw  string // name of opaque Lesswap parameter
	pred bool   // opaque pure predicate func(int) bool
}

type StructV struct{ f []Val }
type TupleV struct{ v []Val }
type IfaceV struct {
	name string // symbolic interface parameter
	null *Term
}
type ReflectV struct { // reflect.Type / reflect.Value derived from an interface parameter
	what string
	of   *IfaceV
	lvl  int
	null *Term // data pointer is nil in this case instead (or nil: never)
}
type UPtr struct { // unsafe.Pointer made from something
	v Val
}
type StrV struct{ s string }
type PoisonV struct{ why string }
type ElemT struct { // element of class slc/str/f64.. as a value is just a *Term
}

type Unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

// class of slice element type
func (p *Program) class(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int:
			return fmt.Sprintf("i%d", p.bits)
		case types.Uint, types.Uintptr:
			return fmt.Sprintf("u%d", p.bits)
		case types.Int32:
			return "i32"
		case types.Int64:
			return "i64"
		case types.Uint32:
			return "u32"
		case types.Uint64:
			return "u64"
		case types.Float32:
			return "f32"
		case types.Float64:
			return "f64"
		case types.String:
			return "str"
		case types.UnsafePointer:
			return "ptr"
		}
	case *types.Pointer:
		return "ptr"
	case *types.Slice:
		return "slc"
	}
	return ""
}

func elemSort(cls string) Sort {
	switch cls {
	case "f32", "f64":
		return "F"
	case "str":
		return "S"
	case "slc":
		return "L"
	}
	return SInt
}

func sameVal(x, y Val) bool {
	switch a := x.(type) {
	case bool:
		b, ok := y.(bool)
		return ok && a == b
	case *Term:
		b, ok := y.(*Term)
		return ok && a == b
	case *SliceV:
		b, ok := y.(*SliceV)
		return ok && a.cls == b.cls && a.ptr == b.ptr && a.len == b.len && a.cap == b.cap
	case *PElem:
		b, ok := y.(*PElem)
		return ok && a.cls == b.cls && a.addr == b.addr
	case *PArr:
		b, ok := y.(*PArr)
		return ok && a.cls == b.cls && a.base == b.base
	case *PCell:
		b, ok := y.(*PCell)
		return ok && a.cell == b.cell && fmt.Sprint(a.path) == fmt.Sprint(b.path) && a.as == b.as
	case *PSync:
		b, ok := y.(*PSync)
		return ok && a.null == b.null && fmt.Sprint(a.path) == fmt.Sprint(b.path)
	case *PGlobal:
		b, ok := y.(*PGlobal)
		return ok && a.g == b.g && a.idx == b.idx
	case *ChanV:
		b, ok := y.(*ChanV)
		return ok && a.name == b.name
	case *FuncV:
		b, ok := y.(*FuncV)
		if !ok || a.fn != b.fn || a.lsw != b.lsw || a.pred != b.pred || len(a.bind) != len(b.bind) {
			return false
		}
		for i := range a.bind {
			if !sameVal(a.bind[i], b.bind[i]) {
				return false
			}
		}
		return true
	case *StructV:
		b, ok := y.(*StructV)
		if !ok || len(a.f) != len(b.f) {
			return false
		}
		for i := range a.f {
			if !sameVal(a.f[i], b.f[i]) {
				return false
			}
		}
		return true
	case *TupleV:
		b, ok := y.(*TupleV)
		if !ok || len(a.v) != len(b.v) {
			return false
		}
		for i := range a.v {
			if !sameVal(a.v[i], b.v[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		b, ok := y.(*IfaceV)
		return ok && a.name == b.name
	case *ReflectV:
		b, ok := y.(*ReflectV)
		return ok && *a == *b
	case *UPtr:
		b, ok := y.(*UPtr)
		return ok && sameVal(a.v, b.v)
	case PNil:
		_, ok := y.(PNil)
		return ok
	case *StrV:
		b, ok := y.(*StrV)
		return ok && a.s == b.s
	case nil:
		return y == nil
	}
	return false
}
