package main

// Symbolic values, heap objects and their merging.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool/integer), FloatV, *StrV, PtrV, SliceV, *StructV, *ArrV, TupleV,
// IfaceV, *FuncV, MapV, *UnionV, *IterV, nil (dead register).
type Value any

// FloatV is a concrete float.
type FloatV float64

// FSym is a symbolic float: an operation tree over integer terms. It supports arithmetic and vnd.FloatEq, which compares
// the trees (a sufficient condition of equality).
type FSym struct {
	op   string
	a, b Value // FloatV or *FSym
	t    *Term // of op "u"/"s": converted integer
}

func (ts *TS) floatEq(a, b Value) *Term {
	x, ok1 := a.(*FSym)
	y, ok2 := b.(*FSym)
	if !ok1 || !ok2 {
		fa, ok3 := a.(FloatV)
		fb, ok4 := b.(FloatV)
		return ts.B(ok3 && ok4 && fa == fb)
	}
	if x == y {
		return ts.True
	}
	if x.op != y.op {
		return ts.False
	}
	if x.t != nil {
		if x.op == "u" {
			return ts.Eq(ts.ZExt(x.t, 64), ts.ZExt(y.t, 64))
		}
		return ts.Eq(ts.SExt(x.t, 64), ts.SExt(y.t, 64))
	}
	return ts.And(ts.floatEq(x.a, y.a), ts.floatEq(x.b, y.b))
}

// StrV is an immutable string: concrete, opaque (unknown text), or symbolic bytes.
type StrV struct {
	s      string
	opaque bool
	sym    bool
	arr    []*Term
	ln     *Term // 64-bit
}

// PElem is one step of a pointer path: a field (idx == nil) or an array element.
type PElem struct {
	field int
	idx   *Term // 64-bit; nil for field steps
}

// PtrV is a pointer to (part of) a heap object; obj 0 is nil.
type PtrV struct {
	obj  int32
	path []PElem
}

// SliceV is a slice over an array stored at obj/path.
type SliceV struct {
	obj           int32
	path          []PElem
	off, len, cap *Term
}

type owner struct{ _ byte }

// StructV is a struct value (copy on write, see owner).
type StructV struct {
	f   []Value
	own *owner
}

// ArrV is an array value. nil elements stand for zero.
type ArrV struct {
	e    []Value
	zero Value
	own  *owner
}

// TupleV is a multi-value.
type TupleV []Value

// IfaceV is an interface value; typ nil is the nil interface.
type IfaceV struct {
	typ types.Type
	v   Value
}

// FuncV is a function value; fn nil is nil.
type FuncV struct {
	fn   *ssa.Function
	bind []Value
	blt  *ssa.Builtin
}

// MapV refers to a map object; obj 0 is nil.
type MapV struct{ obj int32 }

// Alt is a guarded alternative.
type Alt struct {
	g *Term
	v Value
}

// UnionV is a guarded choice of values of different shapes.
type UnionV struct{ alts []Alt }

// IterV is a map/string iterator.
type IterV struct {
	ents []mapEnt
	pos  int
	str  string
	isS  bool
	cell int32
}

type mapEnt struct {
	k, v    Value
	present *Term
}

// mapObj is map contents, stored as an object value. Immutable.
type mapObj struct {
	ents []mapEnt
}

// Obj is a heap cell.
type Obj struct {
	val Value
	typ types.Type
}

func samePath(a, b []PElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i].idx == nil) != (b[i].idx == nil) || a[i].field != b[i].field || a[i].idx != b[i].idx {
			return false
		}
	}
	return true
}

func shapePath(a, b []PElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i].idx == nil) != (b[i].idx == nil) || a[i].field != b[i].field {
			return false
		}
	}
	return true
}

func mergePath(ts *TS, c *Term, a, b []PElem) []PElem {
	if samePath(a, b) {
		return a
	}
	out := make([]PElem, len(a))
	for i := range a {
		out[i] = a[i]
		if a[i].idx != nil {
			out[i].idx = ts.Ite(c, a[i].idx, b[i].idx)
		}
	}
	return out
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case FloatV:
		y, ok := b.(FloatV)
		return ok && x == y
	case *FSym:
		y, ok := b.(*FSym)
		return ok && x == y
	case *StrV:
		y, ok := b.(*StrV)
		return ok && (x == y || (!x.opaque && !y.opaque && !x.sym && !y.sym && x.s == y.s) || (x.opaque && y.opaque))
	case PtrV:
		y, ok := b.(PtrV)
		return ok && x.obj == y.obj && samePath(x.path, y.path)
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.obj == y.obj && samePath(x.path, y.path) && x.off == y.off && x.len == y.len && x.cap == y.cap
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !sameVal(x.at(i), y.at(i)) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return false
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ) && sameVal(x.v, y.v)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.fn != y.fn || x.blt != y.blt || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !sameVal(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case TypeV:
		y, ok := b.(TypeV)
		return ok && types.Identical(x.t, y.t)
	case *UnionV:
		y, ok := b.(*UnionV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || !sameVal(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	case *mapObj:
		y, ok := b.(*mapObj)
		return ok && x == y
	case *IterV:
		y, ok := b.(*IterV)
		return ok && x == y
	}
	panic(fmt.Sprintf("sameVal %T", a))
}

func (a *ArrV) at(i int) Value {
	if v := a.e[i]; v != nil {
		return v
	}
	return a.zero
}

// canMerge tells whether two values merge without a union.
func canMerge(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x.w == y.w
	case FloatV, *IterV, MapV, *FSym, TypeV:
		return sameVal(a, b)
	case *StrV:
		return true
	case PtrV:
		y, ok := b.(PtrV)
		return ok && x.obj == y.obj && shapePath(x.path, y.path)
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.obj == y.obj && shapePath(x.path, y.path)
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok || (x.typ == nil) != (y.typ == nil) {
			return false
		}
		return x.typ == nil || (types.Identical(x.typ, y.typ) && canMerge(x.v, y.v))
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || x.blt != y.blt || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !canMerge(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case *UnionV:
		return true
	case *mapObj, *StructV, *ArrV, TupleV:
		return true
	}
	return false
}

// mergeVal computes ite(c, a, b).
func mergeVal(ts *TS, c *Term, a, b Value) Value {
	if c.isC() {
		if c.v != 0 {
			return a
		}
		return b
	}
	if a == nil || b == nil { // dead in one of them
		if a == nil {
			return b
		}
		return a
	}
	_, ua := a.(*UnionV)
	_, ub := b.(*UnionV)
	if ua || ub {
		if sameVal(a, b) {
			return a
		}
		return mergeUnion(ts, c, a, b)
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			if x == y {
				return x
			}
			return ts.Ite(c, x, y)
		}
	case *StrV:
		y := b.(*StrV)
		if sameVal(x, y) {
			return x
		}
		if x.opaque || y.opaque {
			return &StrV{opaque: true}
		}
		xa, xl := strSym(ts, x)
		ya, yl := strSym(ts, y)
		n := max(len(xa), len(ya))
		arr := make([]*Term, n)
		for i := range arr {
			p, q := ts.C(0, 8), ts.C(0, 8)
			if i < len(xa) {
				p = xa[i]
			}
			if i < len(ya) {
				q = ya[i]
			}
			arr[i] = ts.Ite(c, p, q)
		}
		return &StrV{sym: true, arr: arr, ln: ts.Ite(c, xl, yl)}
	case PtrV:
		y := b.(PtrV)
		if x.obj == y.obj && shapePath(x.path, y.path) {
			return PtrV{x.obj, mergePath(ts, c, x.path, y.path)}
		}
	case SliceV:
		y := b.(SliceV)
		if x.obj == y.obj && shapePath(x.path, y.path) {
			return SliceV{x.obj, mergePath(ts, c, x.path, y.path), ts.Ite(c, x.off, y.off), ts.Ite(c, x.len, y.len), ts.Ite(c, x.cap, y.cap)}
		}
	case *StructV:
		y := b.(*StructV)
		if x == y {
			return x
		}
		out := &StructV{f: make([]Value, len(x.f))}
		for i := range x.f {
			out.f[i] = mergeVal(ts, c, x.f[i], y.f[i])
		}
		return out
	case *ArrV:
		y := b.(*ArrV)
		if x == y {
			return x
		}
		n := max(len(x.e), len(y.e))
		out := &ArrV{e: make([]Value, n), zero: x.zero}
		for i := range out.e {
			switch {
			case i >= len(x.e):
				out.e[i] = y.e[i]
			case i >= len(y.e):
				out.e[i] = x.e[i]
			case x.e[i] == nil && y.e[i] == nil:
			default:
				out.e[i] = mergeVal(ts, c, x.at(i), y.at(i))
			}
		}
		return out
	case TupleV:
		y := b.(TupleV)
		out := make(TupleV, len(x))
		for i := range x {
			out[i] = mergeVal(ts, c, x[i], y[i])
		}
		return out
	case IfaceV:
		y := b.(IfaceV)
		if x.typ == nil && y.typ == nil {
			return x
		}
		if x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			return IfaceV{x.typ, mergeVal(ts, c, x.v, y.v)}
		}
	case *FuncV:
		y := b.(*FuncV)
		if canMerge(x, y) {
			out := &FuncV{fn: x.fn, blt: x.blt, bind: make([]Value, len(x.bind))}
			for i := range x.bind {
				out.bind[i] = mergeVal(ts, c, x.bind[i], y.bind[i])
			}
			return out
		}
	case *mapObj:
		y := b.(*mapObj)
		if x == y {
			return x
		}
		return mergeMaps(ts, c, x, y)
	case FloatV, MapV, *IterV, *FSym, TypeV:
		if sameVal(a, b) {
			return a
		}
	}
	return mergeUnion(ts, c, a, b)
}

func mergeMaps(ts *TS, c *Term, x, y *mapObj) Value {
	out := &mapObj{}
	i := 0
	for ; i < len(x.ents) && i < len(y.ents) && sameVal(x.ents[i].k, y.ents[i].k); i++ {
		out.ents = append(out.ents, mapEnt{
			x.ents[i].k, mergeVal(ts, c, x.ents[i].v, y.ents[i].v),
			ts.Ite(c, x.ents[i].present, y.ents[i].present),
		})
	}
	for j := i; j < len(x.ents); j++ {
		out.ents = append(out.ents, mapEnt{x.ents[j].k, x.ents[j].v, ts.And(c, x.ents[j].present)})
	}
	for j := i; j < len(y.ents); j++ {
		out.ents = append(out.ents, mapEnt{y.ents[j].k, y.ents[j].v, ts.And(ts.Not(c), y.ents[j].present)})
	}
	return out
}

func altsOf(ts *TS, v Value) []Alt {
	if u, ok := v.(*UnionV); ok {
		return u.alts
	}
	return []Alt{{ts.True, v}}
}

func mergeUnion(ts *TS, c *Term, a, b Value) Value {
	var out []Alt
	for _, x := range altsOf(ts, a) {
		if g := ts.And(c, x.g); g != ts.False {
			out = append(out, Alt{g, x.v})
		}
	}
	nc := ts.Not(c)
	for _, y := range altsOf(ts, b) {
		g := ts.And(nc, y.g)
		if g == ts.False {
			continue
		}
		done := false
		for i := range out {
			if canMerge(out[i].v, y.v) {
				out[i].v = mergeVal(ts, out[i].g, out[i].v, y.v)
				out[i].g = ts.Or(out[i].g, g)
				done = true
				break
			}
		}
		if !done {
			out = append(out, Alt{g, y.v})
		}
	}
	if len(out) == 1 {
		return out[0].v
	}
	return &UnionV{out}
}

func strSym(ts *TS, s *StrV) ([]*Term, *Term) {
	if s.sym {
		return s.arr, s.ln
	}
	arr := make([]*Term, len(s.s))
	for i := range arr {
		arr[i] = ts.C(uint64(s.s[i]), 8)
	}
	return arr, ts.C(uint64(len(s.s)), 64)
}
