package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Ptr, PtrU, Slice, Iface, Str, *Closure, Agg, Tup, MapV, Opaque.
type Value interface{}

type Ptr struct{ Obj, Off int } // Obj 0: nil

type PtrAlt struct {
	g *Term
	p Ptr
}
type PtrU []PtrAlt // guards are exhaustive and disjoint on the current path

type Slice struct{ Obj, Off, Len, Cap int } // Obj 0: nil; offsets in cells, Len/Cap in elements

type Iface struct {
	T types.Type
	V Value
}
type Str struct {
	S      string
	Opaque bool
}
type Closure struct {
	Fn    *ssa.Function
	Binds []Value
	Bi    *ssa.Builtin
}
type Agg []Value // flattened struct or array value
type Tup []Value
type MapV struct{ Obj int }
type Opaque struct{ What string }
type IterV struct{ Obj int }
type ChanV struct{ Obj int }

// map object: cells = [entries]
type mapEntry struct {
	k, v Value
}
type mapData struct{ es []mapEntry }

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---------- heap ----------

type Obj struct {
	v []Value
}

type Heap struct {
	parent *Heap
	m      map[int]*Obj
	depth  int
}

func (h *Heap) get(id int) *Obj {
	for x := h; x != nil; x = x.parent {
		if o, ok := x.m[id]; ok {
			return o
		}
	}
	panic(fmt.Sprintf("no object %d", id))
}

func (h *Heap) lookup(id int) (*Obj, bool) {
	for x := h; x != nil; x = x.parent {
		if o, ok := x.m[id]; ok {
			return o, true
		}
	}
	return nil, false
}

func (h *Heap) own(id int) *Obj {
	if o, ok := h.m[id]; ok {
		return o
	}
	o := h.get(id)
	n := &Obj{v: append([]Value(nil), o.v...)}
	h.m[id] = n
	return n
}

func (h *Heap) child() *Heap { return &Heap{parent: h, m: map[int]*Obj{}, depth: h.depth + 1} }

// ---------- types ----------

func under(t types.Type) types.Type { return t.Underlying() }

func (e *Exec) sizeOf(t types.Type) int {
	switch u := under(t).(type) {
	case *types.Struct:
		if n, ok := e.sizeC[t]; ok {
			return n
		}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += e.sizeOf(u.Field(i).Type())
		}
		e.sizeC[t] = n
		return n
	case *types.Array:
		return int(u.Len()) * e.sizeOf(u.Elem())
	}
	return 1
}

func (e *Exec) fieldOff(st *types.Struct, i int) int {
	n := 0
	for k := 0; k < i; k++ {
		n += e.sizeOf(st.Field(k).Type())
	}
	return n
}

func isAgg(t types.Type) bool {
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (e *Exec) zeroCells(t types.Type, out []Value) []Value {
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = e.zeroCells(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			out = e.zeroCells(u.Elem(), out)
		}
		return out
	}
	return append(out, e.zero1(t))
}

func (e *Exec) zero(t types.Type) Value {
	if isAgg(t) {
		return Agg(e.zeroCells(t, nil))
	}
	if tp, ok := t.(*types.Tuple); ok {
		var r Tup
		for i := 0; i < tp.Len(); i++ {
			r = append(r, e.zero(tp.At(i).Type()))
		}
		return r
	}
	return e.zero1(t)
}

func (e *Exec) zero1(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		s, ok := e.sortOf(t)
		if !ok {
			return Opaque{"zero " + t.String()}
		}
		switch s.K {
		case KBool:
			return e.tc.False
		case KBV:
			return e.tc.BVc(s.W, 0)
		case KReal:
			return e.tc.RealI(0)
		default:
			return e.tc.FloatConst(s.W, 0)
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.TypeParam:
		unsup("type parameter %s", t)
	}
	unsup("zero of %s", t)
	return nil
}

// sortOf gives the term sort of a basic type.
func (e *Exec) sortOf(t types.Type) (Sort, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return Sort{}, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return BV(64), true
	case types.Int32, types.Uint32, types.UntypedRune:
		return BV(32), true
	case types.Int16, types.Uint16:
		return BV(16), true
	case types.Int8, types.Uint8:
		return BV(8), true
	case types.Float32:
		if e.tc.RealMode {
			return SReal, true
		}
		return SF32, true
	case types.Float64, types.UntypedFloat:
		if e.tc.RealMode {
			return SReal, true
		}
		return SF64, true
	}
	return Sort{}, false
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func floatW(t types.Type) int {
	if under(t).(*types.Basic).Kind() == types.Float32 {
		return 32
	}
	return 64
}

// ---------- merging ----------

func (e *Exec) mergeVal(g *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.s != y.s {
			return nil, false
		}
		if x == y {
			return x, true
		}
		return e.tc.Ite(g, x, y), true
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			if x == y {
				return x, true
			}
			return PtrU{{g, x}, {e.tc.Not(g), y}}, true
		case PtrU:
			return e.mergeU(g, PtrU{{e.tc.True, x}}, y)
		}
		return nil, false
	case PtrU:
		switch y := b.(type) {
		case Ptr:
			return e.mergeU(g, x, PtrU{{e.tc.True, y}})
		case PtrU:
			same := len(x) == len(y)
			if same {
				for i := range x {
					if x[i] != y[i] {
						same = false
					}
				}
			}
			if same {
				return x, true
			}
			return e.mergeU(g, x, y)
		}
		return nil, false
	case Slice:
		y, ok := b.(Slice)
		return x, ok && x == y
	case Str:
		y, ok := b.(Str)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		return nil, false
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.T == nil && y.T == nil {
			return x, true
		}
		if x.T == nil || y.T == nil || !types.Identical(x.T, y.T) {
			return nil, false
		}
		v, ok := e.mergeVal(g, x.V, y.V)
		return Iface{x.T, v}, ok
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x == nil || y == nil || x.Fn != y.Fn || x.Bi != y.Bi || len(x.Binds) != len(y.Binds) {
			return nil, false
		}
		bs := make([]Value, len(x.Binds))
		for i := range bs {
			v, ok := e.mergeVal(g, x.Binds[i], y.Binds[i])
			if !ok {
				return nil, false
			}
			bs[i] = v
		}
		return &Closure{x.Fn, bs, x.Bi}, true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Agg, len(x))
		for i := range x {
			v, ok := e.mergeVal(g, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Tup:
		y, ok := b.(Tup)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tup, len(x))
		for i := range x {
			v, ok := e.mergeVal(g, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case MapV:
		y, ok := b.(MapV)
		return x, ok && x == y
	case IterV:
		y, ok := b.(IterV)
		return x, ok && x == y
	case ChanV:
		y, ok := b.(ChanV)
		return x, ok && x == y
	case Opaque:
		y, ok := b.(Opaque)
		return x, ok && x == y
	case *mapData:
		y, ok := b.(*mapData)
		if !ok || len(x.es) != len(y.es) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		r := &mapData{}
		for i := range x.es {
			if !sameKey(x.es[i].k, y.es[i].k) {
				return nil, false
			}
			v, ok := e.mergeVal(g, x.es[i].v, y.es[i].v)
			if !ok {
				return nil, false
			}
			r.es = append(r.es, mapEntry{x.es[i].k, v})
		}
		return r, true
	case nil:
		return nil, b == nil
	}
	return nil, false
}

func sameKey(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Str:
		y, ok := b.(Str)
		return ok && x == y && !x.Opaque
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		return types.Identical(x.T, y.T) && sameKey(x.V, y.V)
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameKey(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (e *Exec) mergeU(g *Term, x, y PtrU) (Value, bool) {
	if len(x) > len(y) {
		g, x, y = e.tc.Not(g), y, x
	}
	var out PtrU
	add := func(c *Term, p Ptr) {
		if c == e.tc.False {
			return
		}
		for i := range out {
			if out[i].p == p {
				out[i].g = e.tc.Or(out[i].g, c)
				return
			}
		}
		out = append(out, PtrAlt{c, p})
	}
	for _, a := range x {
		add(e.tc.And(g, a.g), a.p)
	}
	for _, a := range y {
		add(e.tc.And(e.tc.Not(g), a.g), a.p)
	}
	if len(out) > 128 {
		return nil, false
	}
	if len(out) == 1 {
		return out[0].p, true
	}
	return out, true
}
