package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value:
//
//	*Term        integers and booleans (and opaque scalars such as time.Time)
//	*Rope        strings
//	Slice        slices
//	Ptr          pointers
//	Struct       struct values (immutable)
//	Iface        interface values with known dynamic type
//	SymIface     interface values with symbolic dynamic type
//	Func         function values
//	MapV         maps
//	Tuple        multiple results
type Value interface{}

type Struct struct{ f []Value }

func (s Struct) with(i int, v Value) Struct {
	n := append([]Value(nil), s.f...)
	n[i] = v
	return Struct{n}
}

type Tuple []Value

type Slice struct {
	obj      int // 0 = nil slice
	off, len *Term
	cap      *Term
}

type pathElem struct {
	field int
	idx   *Term // nil for field
}

type Ptr struct {
	obj  int // 0 = nil
	path []pathElem
	ref  *Term // abstract object (obj == 0)
	typ  types.Type
}

func (p Ptr) isNil() bool { return p.obj == 0 && p.ref == nil }

func (p Ptr) ext(e pathElem) Ptr {
	n := make([]pathElem, len(p.path)+1)
	copy(n, p.path)
	n[len(p.path)] = e
	return Ptr{obj: p.obj, path: n, ref: p.ref, typ: p.typ}
}

type Iface struct {
	typ types.Type // nil = nil interface
	v   Value
}

type SymIface struct {
	t *Term // sort SIface
}

type Func struct {
	fn    *ssa.Function
	binds []Value
	bi    *ssa.Builtin
}

type MapV struct{ obj int } // 0 = nil map

// Regexp is the value of a compiled regular expression.
type Regexp struct{ pat string }

// MapIter is the state of a range over a map or a string.
type MapIter struct{ id int }

type objKind uint8

const (
	kCell objKind = iota
	kSeq          // bytes: elements are byte terms
	kMap
	kIter
)

// Obj is an immutable heap object version.
type Obj struct {
	kind objKind
	val  Value // kCell
	rope *Rope // kSeq
	m    *MapObj
	it   *IterObj
	ro   bool
	typ  types.Type // element type (kSeq), value type (kCell)
	name string
}

// MapObj is an immutable map version: a base (empty if nil) plus updates.
type MapObj struct {
	base *Term // SRef or nil
	spec *Term // every entry of base satisfies spec_MapOK(spec, ...)
	ups  []mapUp
	key  types.Type
	elem types.Type
}

type mapUp struct {
	k       Value
	present bool
	v       Value
	presT   *Term // conditional presence (nil: present)
}

type IterObj struct {
	m      MapV
	keys   []Value // concrete enumeration
	vals   []Value
	pos    int
	str    *Rope
	strPos int
	// abstract iteration (maprange.go)
	base *Term
	more *Term // number of entries to come
	left *Term // sum of the sizes of the entries to come, nil if unknown
	seen *Term // the ghost key was visited
}

// Heap: base (shared, from package initialisation) plus overlay.
type Heap struct {
	base map[int]*Obj
	top  map[int]*Obj
}

func (h *Heap) get(id int) *Obj {
	if o, ok := h.top[id]; ok {
		return o
	}
	return h.base[id]
}

func (h *Heap) clone() *Heap {
	n := make(map[int]*Obj, len(h.top)+4)
	for k, v := range h.top {
		n[k] = v
	}
	return &Heap{h.base, n}
}

// ---- type helpers ----

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

type intInfo struct {
	bits   int
	signed bool
}

func intType(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	}
	return intInfo{}, false
}

func (i intInfo) rng() (*big.Int, *big.Int) {
	if i.signed {
		return new(big.Int).Neg(pow2(i.bits - 1)), new(big.Int).Sub(pow2(i.bits-1), bigOne)
	}
	return new(big.Int), new(big.Int).Sub(pow2(i.bits), bigOne)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Name() == name && n.Obj().Pkg().Path() == pkg
}

func isTime(t types.Type) bool { return isNamed(t, "time", "Time") }

func showValue(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		return x.String()
	case *Rope:
		return x.String()
	case Slice:
		return fmt.Sprintf("slice(obj%d,%v,%v)", x.obj, x.off, x.len)
	case Ptr:
		if x.ref != nil {
			return fmt.Sprintf("ptr(%v,%v)", x.ref, x.path)
		}
		return fmt.Sprintf("ptr(obj%d,%v)", x.obj, x.path)
	case Struct:
		var p []string
		for _, f := range x.f {
			p = append(p, showValue(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case Tuple:
		var p []string
		for _, f := range x {
			p = append(p, showValue(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case Iface:
		if x.typ == nil {
			return "nil-iface"
		}
		return fmt.Sprintf("iface(%s, %s)", x.typ, showValue(x.v))
	case SymIface:
		return "symiface(" + x.t.String() + ")"
	case Func:
		if x.fn == nil {
			return "func(nil)"
		}
		return "func(" + x.fn.String() + ")"
	}
	return fmt.Sprintf("%T%v", v, v)
}
