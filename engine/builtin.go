package main

// Builtin functions, package initialisation and modelled library functions.

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const opaqueErrObj int32 = -1

// ---------- package initialisation

func initAllowed(path string) bool {
	if strings.HasPrefix(path, modPath) {
		return true
	}
	switch path {
	case "io", "errors", "bytes", "bufio", "encoding/binary", "math/bits", "strings", "context", "unicode/utf8",
		"github.com/abema/go-mp4", "github.com/abema/go-mp4/internal/bitio", "github.com/asticode/go-astits", "github.com/asticode/go-astikit",
		"github.com/abema/go-mp4/internal/util":
		return true
	}
	return false
}

func skipInitCall(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	if !initAllowed(p) {
		return true
	}
	return false
}

func (j *Job) ensureInit(pkg *ssa.Package) {
	if pkg == nil || j.inits[pkg] {
		return
	}
	j.inits[pkg] = true
	if !initAllowed(pkg.Pkg.Path()) {
		return
	}
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	save := j.inInit
	lim := j.allocLim
	j.allocLim = 0
	j.inInit = true
	st := &State{heap: map[int32]*Obj{}, own: new(owner), model: newModel()}
	outs := j.runFunction(fn, nil, nil, st, j.ctx(-7, nil, pkg.Pkg.Path(), 0), 1)
	j.inInit = save
	j.allocLim = lim
	if len(outs) != 1 {
		j.incomplete("package initialiser of " + pkg.Pkg.Path() + " not fully evaluated")
		return
	}
	for k, o := range outs[0].st.heap {
		j.base[k] = o
	}
}

// ---------- builtins

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352,
	384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456,
	4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072,
	20480, 21760, 24576, 27264, 28672, 32768}

// growCap follows runtime.growslice.
func growCap(newLen, oldCap, esz int) int {
	nc := oldCap
	dbl := nc + nc
	switch {
	case newLen > dbl:
		nc = newLen
	case oldCap < 256:
		nc = dbl
	default:
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return newLen
	}
	b := nc * esz
	if b <= 32768 {
		for _, s := range sizeClasses {
			if s >= b {
				b = s
				break
			}
		}
	} else {
		b = (b + 8191) / 8192 * 8192
	}
	return b / esz
}

func (j *Job) lenOf(st *State, v Value, t types.Type) *Term {
	ts := j.ts
	switch x := v.(type) {
	case *UnionV:
		var r *Term
		for _, a := range x.alts {
			l := j.lenOf(st, a.v, t)
			if r == nil {
				r = l
			} else {
				r = ts.Ite(a.g, l, r)
			}
		}
		return r
	case SliceV:
		return x.len
	case *StrV:
		if x.opaque {
			j.unsupported("len of opaque string")
		}
		if x.sym {
			return x.ln
		}
		return j.c64(len(x.s))
	case *ArrV:
		return j.c64(len(x.e))
	case PtrV:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return ts.C(uint64(p.Elem().Underlying().(*types.Array).Len()), 64)
		}
	case MapV:
		if x.obj == 0 {
			return j.c64(0)
		}
		n := j.c64(0)
		for _, e := range st.get(j, x.obj).val.(*mapObj).ents {
			n = ts.Add(n, ts.Ite(e.present, j.c64(1), j.c64(0)))
		}
		return n
	}
	j.unsupported("len of %T", v)
	return nil
}

func (j *Job) strSlice(st *State, v Value, id int32) SliceV {
	s, ok := v.(*StrV)
	if !ok {
		return v.(SliceV)
	}
	if s.opaque {
		j.unsupported("bytes of opaque string")
	}
	arr, ln := strSym(j.ts, s)
	av := &ArrV{e: make([]Value, len(arr)), zero: j.ts.C(0, 8), own: st.own}
	for i := range arr {
		av.e[i] = arr[i]
	}
	j.newObj(st, id, av, types.NewArray(types.Typ[types.Uint8], int64(len(arr))))
	return SliceV{id, nil, j.c64(0), ln, j.c64(len(arr))}
}

func (j *Job) builtin(fr *frame, f *fst, in ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []Value, iter string) []outcome {
	ts := j.ts
	st := f.st
	switch b.Name() {
	case "len":
		return one(st, j.lenOf(st, args[0], c.Args[0].Type()))
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return one(st, x.cap)
		default:
			return one(st, j.lenOf(st, x, c.Args[0].Type()))
		}
	case "append":
		return j.appendB(fr, st, in, c, args, iter)
	case "copy":
		dst := args[0].(SliceV)
		src := j.strSlice(st, args[1], j.ctx(fr.ctx, in, iter, 5))
		n := ts.Ite(ts.Ult(src.len, dst.len), src.len, dst.len)
		if dst.obj == 0 || src.obj == 0 {
			return one(st, j.c64(0))
		}
		j.copyElems(st, dst, dst.off, j.arrOf(st, src), src.off, n)
		return one(st, n)
	case "min", "max":
		r := args[0]
		sg := isSigned(c.Args[0].Type())
		for _, a := range args[1:] {
			p, ok := r.(*Term)
			if !ok {
				j.unsupported("min/max of non-integers")
			}
			q := a.(*Term)
			var lt *Term
			if sg {
				lt = ts.Slt(p, q)
			} else {
				lt = ts.Ult(p, q)
			}
			if b.Name() == "min" {
				r = ts.Ite(lt, p, q)
			} else {
				r = ts.Ite(lt, q, p)
			}
		}
		return one(st, r)
	case "delete":
		m := args[0].(MapV)
		if m.obj != 0 {
			o := st.get(j, m.obj)
			ents := append([]mapEnt(nil), o.val.(*mapObj).ents...)
			for i, e := range ents {
				ents[i].present = ts.And(e.present, ts.Not(j.eqVal(st, e.k, args[1])))
			}
			st.heap[m.obj] = &Obj{val: &mapObj{ents}, typ: o.typ}
		}
		return []outcome{{st, nil}}
	case "clear":
		switch x := args[0].(type) {
		case MapV:
			if x.obj != 0 {
				st.heap[x.obj] = &Obj{val: &mapObj{}, typ: st.get(j, x.obj).typ}
			}
		case SliceV:
			if x.obj != 0 {
				src := j.arrOf(st, x)
				j.copyElems(st, x, x.off, &ArrV{e: make([]Value, len(src.e)), zero: src.zero}, x.off, x.len)
			}
		}
		return []outcome{{st, nil}}
	case "print", "println":
		return []outcome{{st, nil}}
	case "recover":
		return one(st, IfaceV{})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok && p.obj == 0 {
			j.require(st, ts.False, "panic", "nil pointer dereference (value method on nil pointer)")
		}
		return one(st, args[0])
	}
	if b.Name() == "Sizeof" {
		return one(st, j.c64(int(j.P.sizes.Sizeof(c.Args[0].Type()))))
	}
	j.unsupported("builtin %s", b.Name())
	return nil
}

func (j *Job) appendB(fr *frame, st *State, in ssa.Instruction, c *ssa.CallCommon, args []Value, iter string) []outcome {
	base := args[0].(SliceV)
	src := j.strSlice(st, args[1], j.ctx(fr.ctx, in, iter, 5))
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	return j.appendTo(st, base, src, et, j.ctx(fr.ctx, in, iter, 0))
}

func (j *Job) appendTo(st *State, base, src SliceV, et types.Type, id int32) []outcome {
	ts := j.ts
	if src.len.isC() && src.len.v == 0 {
		return one(st, base)
	}
	nl := ts.Add(base.len, src.len)
	srcArr := j.arrOf(st, src)
	fits, grow := j.branch(st, ts.Ule(nl, base.cap))
	var outs []outcome
	if fits != nil {
		if base.obj == 0 { // only when nothing is appended
			outs = append(outs, one(fits, base)...)
		} else {
			if grow == nil || !src.len.isC() || src.len.v != 0 {
				j.copyElems(fits, base, ts.Add(base.off, base.len), srcArr, src.off, src.len)
			}
			outs = append(outs, one(fits, SliceV{base.obj, base.path, base.off, nl, base.cap})...)
		}
	}
	if grow != nil {
		if j.allocLim > 0 {
			esz := max(uint64(j.P.sizes.Sizeof(et)), 1)
			j.require(grow, ts.Ule(nl, ts.C(uint64(j.allocLim)/esz, 64)), "alloc", fmt.Sprintf("allocations may exceed %d bytes", j.allocLim))
		}
		u, ok := j.upper(grow, nl, uint64(j.Cfg.MaxAlloc))
		if !ok {
			if nl.isC() {
				u = nl.v
			} else {
				j.incomplete("append beyond the allocation bound not explored")
				r, m := j.sat(grow, ts.Ule(nl, j.c64(j.Cfg.MaxAlloc)))
				if r == Unsat {
					return outs
				}
				grow.model = m
				j.addPC(grow, ts.Ule(nl, j.c64(j.Cfg.MaxAlloc)))
				u = uint64(j.Cfg.MaxAlloc)
			}
		}
		oc := int(u)
		if base.cap.isC() {
			oc = int(base.cap.v)
		}
		nc := growCap(int(u), oc, int(j.P.sizes.Sizeof(et)))
		j.newArr(grow, id, nc, j.zero(et), et)
		ns := SliceV{id, nil, j.c64(0), nl, j.c64(nc)}
		if base.obj != 0 {
			j.copyElems(grow, ns, j.c64(0), j.arrOf(grow, base), base.off, base.len)
		}
		j.copyElems(grow, ns, base.len, srcArr, src.off, src.len)
		outs = append(outs, one(grow, ns)...)
	}
	return outs
}

// ---------- modelled functions

type ictx struct {
	j    *Job
	fr   *frame
	st   *State
	in   ssa.Instruction
	ctx  int32
	fn   *ssa.Function
	args []Value
}

func (c *ictx) none() []outcome          { return []outcome{{c.st, nil}} }
func (c *ictx) one(v ...Value) []outcome { return []outcome{{c.st, v}} }
func (c *ictx) id(n int) int32           { return c.j.ctx(c.ctx, c.in, "i", n) }
func (c *ictx) term(i int) *Term         { return c.args[i].(*Term) }

func (c *ictx) str(i int) string {
	s, ok := c.args[i].(*StrV)
	if !ok || s.opaque || s.sym {
		c.j.unsupported("symbolic string argument of %s", c.fn)
	}
	return s.s
}

// vname builds the variable name from (name, idx...).
func (c *ictx) vname(i int) string {
	n := c.st.pfx + c.str(0)
	if i < len(c.args) {
		s := c.args[i].(SliceV)
		if !s.len.isC() {
			c.j.unsupported("symbolic variable index")
		}
		for k := 0; k < int(s.len.v); k++ {
			t := c.j.sliceAt(c.st, s, c.j.c64(k)).(*Term)
			if !t.isC() {
				c.j.unsupported("symbolic variable index")
			}
			n += fmt.Sprintf("[%d]", int64(t.v))
		}
	}
	return n
}

func (c *ictx) v(name string, w uint8) *Term {
	c.j.DeclVars[name] = true
	return c.j.ts.Var(name, w)
}

var intrinsics map[string]func(*ictx) []outcome

func (j *Job) opaqueErr() Value {
	ep := j.P.byPath["errors"]
	t := types.NewPointer(ep.Type("errorString").Type())
	return IfaceV{t, PtrV{obj: opaqueErrObj}}
}

func (j *Job) opaqueMethod(iv IfaceV, name string) (Value, bool) {
	if name == "Error" || name == "String" || name == "GoString" {
		if p, ok := iv.v.(PtrV); ok && p.obj == opaqueErrObj {
			return &StrV{opaque: true}, true
		}
		if iv.typ.String() == "*fmt.wrapError" {
			return &StrV{opaque: true}, true
		}
	}
	return nil, false
}

// errIs computes errors.Is.
func (j *Job) errIs(st *State, e, target Value) *Term {
	ts := j.ts
	if u, ok := e.(*UnionV); ok {
		r := ts.False
		for _, a := range u.alts {
			r = ts.Or(r, ts.And(a.g, j.errIs(st, a.v, target)))
		}
		return r
	}
	iv := e.(IfaceV)
	if iv.typ == nil {
		return ts.B(target.(IfaceV).typ == nil)
	}
	if u, ok := iv.v.(*UnionV); ok {
		r := ts.False
		for _, a := range u.alts {
			r = ts.Or(r, ts.And(a.g, j.errIs(st, IfaceV{iv.typ, a.v}, target)))
		}
		return r
	}
	r := ts.False
	if p, ok := iv.v.(PtrV); !ok || p.obj != opaqueErrObj {
		r = j.eqVal(st, e, target)
	}
	if iv.typ.String() == "*fmt.wrapError" {
		s := j.load(st, iv.v.(PtrV), "").(*StructV)
		r = ts.Or(r, j.errIs(st, s.f[1], target))
	}
	return r
}

// errAs walks the chain of an error; the alternatives whose value is nil do not contain the type.
func (j *Job) errAs(st *State, e Value, t types.Type) []Alt {
	ts := j.ts
	if u, ok := e.(*UnionV); ok {
		var out []Alt
		for _, a := range u.alts {
			for _, b := range j.errAs(st, a.v, t) {
				if g := ts.And(a.g, b.g); g != ts.False {
					out = append(out, Alt{g, b.v})
				}
			}
		}
		return out
	}
	iv := e.(IfaceV)
	if iv.typ == nil {
		return []Alt{{ts.True, nil}}
	}
	if u, ok := iv.v.(*UnionV); ok {
		w := &UnionV{}
		for _, a := range u.alts {
			w.alts = append(w.alts, Alt{a.g, IfaceV{iv.typ, a.v}})
		}
		return j.errAs(st, w, t)
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if types.Implements(iv.typ, it) {
			return []Alt{{ts.True, iv}}
		}
	} else if types.Identical(iv.typ, t) {
		return []Alt{{ts.True, iv.v}}
	}
	if iv.typ.String() == "*fmt.wrapError" {
		return j.errAs(st, j.load(st, iv.v.(PtrV), "").(*StructV).f[1], t)
	}
	return []Alt{{ts.True, nil}}
}

func (j *Job) callFn(c *ictx, fv Value, args []Value, extra int) []outcome {
	fn, ok := fv.(*FuncV)
	if !ok || fn.fn == nil {
		j.unsupported("call of %T", fv)
	}
	return j.invokeFn(c.fr, c.st, c.in, fn.fn, args, fn.bind, j.ctx(c.ctx, c.in, "cb", extra), "")
}

func (c *ictx) bytesEq(a, b Value) *Term {
	j := c.j
	sa := j.strSlice(c.st, a, c.id(11))
	sb := j.strSlice(c.st, b, c.id(12))
	return j.sliceEq(c.st, sa, sb, func(x, y Value) *Term { return j.eqVal(c.st, x, y) })
}

func (j *Job) sliceEq(st *State, a, b SliceV, eq func(x, y Value) *Term) *Term {
	ts := j.ts
	r := ts.Eq(a.len, b.len)
	if r == ts.False {
		return r
	}
	aa, ba := j.arrOf(st, a), j.arrOf(st, b)
	n := min(a.len.hi, b.len.hi)
	if m := uint64(len(aa.e)); m < n {
		n = m
	}
	if m := uint64(len(ba.e)); m < n {
		n = m
	}
	for i := uint64(0); i < n && r != ts.False; i++ {
		k := ts.C(i, 64)
		in := ts.Ult(k, a.len)
		if in == ts.False {
			break
		}
		ai, bi := ts.Add(a.off, k), ts.Add(b.off, k)
		if ai.lo >= uint64(len(aa.e)) || bi.lo >= uint64(len(ba.e)) {
			break
		}
		r = ts.And(r, ts.Implies(in, eq(shared(j.selectArr(aa, ai)), shared(j.selectArr(ba, bi)))))
	}
	return r
}

// deepEq is structural equality (nil and empty slices are equal).
func (j *Job) deepEq(st *State, a, b Value, depth int) *Term {
	ts := j.ts
	if depth > 40 {
		j.unsupported("deepEq depth")
	}
	if u, ok := a.(*UnionV); ok {
		r := ts.False
		for _, x := range u.alts {
			r = ts.Or(r, ts.And(x.g, j.deepEq(st, x.v, b, depth)))
		}
		return r
	}
	if u, ok := b.(*UnionV); ok {
		r := ts.False
		for _, x := range u.alts {
			r = ts.Or(r, ts.And(x.g, j.deepEq(st, a, x.v, depth)))
		}
		return r
	}
	switch x := a.(type) {
	case PtrV:
		y, ok := b.(PtrV)
		if !ok {
			return ts.False
		}
		if x.obj == 0 || y.obj == 0 {
			return ts.B(x.obj == y.obj)
		}
		if x.obj == y.obj && samePath(x.path, y.path) {
			return ts.True
		}
		return j.deepEq(st, j.load(st, x, ""), j.load(st, y, ""), depth+1)
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			return ts.False
		}
		return j.sliceEq(st, x, y, func(p, q Value) *Term { return j.deepEq(st, p, q, depth+1) })
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return ts.False
		}
		r := ts.True
		for i := range x.f {
			if r == ts.False {
				break
			}
			r = ts.And(r, j.deepEq(st, x.f[i], y.f[i], depth+1))
		}
		return r
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.e) != len(y.e) {
			return ts.False
		}
		r := ts.True
		for i := range x.e {
			r = ts.And(r, j.deepEq(st, x.at(i), y.at(i), depth+1))
		}
		return r
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return ts.False
		}
		if x.typ == nil || y.typ == nil {
			return ts.B(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return ts.False
		}
		return j.deepEq(st, x.v, y.v, depth+1)
	case MapV:
		y, ok := b.(MapV)
		if !ok {
			return ts.False
		}
		if x.obj == y.obj {
			return ts.True
		}
		j.unsupported("deepEq of maps")
	}
	return j.eqVal(st, a, b)
}

const vndP = modPath + "/internal/vnd."

func init() {
	mk := func(w uint8, out uint8) func(c *ictx) []outcome {
		return func(c *ictx) []outcome { return c.one(c.j.ts.ZExt(c.v(c.vname(1), w), out)) }
	}
	I := map[string]func(*ictx) []outcome{
		vndP + "Byte":  mk(8, 8),
		vndP + "U16":   mk(16, 16),
		vndP + "U32":   mk(32, 32),
		vndP + "U64":   mk(64, 64),
		vndP + "Int64": mk(64, 64),
		vndP + "Bool": func(c *ictx) []outcome {
			return c.one(c.j.ts.Eq(c.v(c.vname(1), 1), c.j.ts.C(1, 1)))
		},
		vndP + "Bits": func(c *ictx) []outcome { // (name, w, idx...)
			w := c.term(1)
			if !w.isC() {
				c.j.unsupported("symbolic width")
			}
			if w.v == 0 {
				return c.one(c.j.ts.C(0, 64))
			}
			return c.one(c.j.ts.ZExt(c.v(c.vname(2), uint8(w.v)), 64))
		},
		vndP + "Int": func(c *ictx) []outcome { // (name, lo, hi, idx...)
			lo, hi := c.term(1), c.term(2)
			if !lo.isC() || !hi.isC() {
				c.j.unsupported("symbolic Int bounds")
			}
			d := hi.v - lo.v
			w := uint8(1)
			for w < 64 && d>>w != 0 {
				w++
			}
			x := c.v(c.vname(3), w)
			lim := c.j.ts.Ule(x, c.j.ts.C(d, w))
			c.assume(lim)
			return c.one(c.j.ts.Add(lo, c.j.ts.ZExt(x, 64)))
		},
		vndP + "Bytes": func(c *ictx) []outcome { // (name, n)
			n := c.term(1)
			if !n.isC() {
				c.j.unsupported("symbolic Bytes size")
			}
			av := &ArrV{e: make([]Value, n.v), zero: c.j.ts.C(0, 8), own: c.st.own}
			nm := c.st.pfx + c.str(0)
			for i := range av.e {
				av.e[i] = c.v(fmt.Sprintf("%s[%d]", nm, i), 8)
			}
			id := c.id(0)
			c.j.newObj(c.st, id, av, types.NewArray(types.Typ[types.Uint8], int64(n.v)))
			return c.one(SliceV{id, nil, c.j.c64(0), n, n})
		},
		vndP + "Fill": func(c *ictx) []outcome { // (byte, n)
			n := c.term(1)
			av := &ArrV{e: make([]Value, n.v), zero: c.term(0), own: c.st.own}
			id := c.id(0)
			c.j.newObj(c.st, id, av, types.NewArray(types.Typ[types.Uint8], int64(n.v)))
			return c.one(SliceV{id, nil, c.j.c64(0), n, n})
		},
		vndP + "Case": func(c *ictx) []outcome {
			v, ok := c.j.Cases[c.str(0)]
			if !ok {
				c.j.unsupported("unknown case %s", c.str(0))
			}
			return c.one(c.j.c64(v))
		},
		vndP + "Concrete": func(c *ictx) []outcome {
			var out []outcome
			for _, x := range c.j.concretize(c.st, c.term(0), 4096) {
				out = append(out, outcome{x.st, []Value{c.j.ts.C(x.v, 64)}})
			}
			return out
		},
		vndP + "Assume": func(c *ictx) []outcome {
			c.assume(c.term(0))
			return c.none()
		},
		vndP + "Assert": func(c *ictx) []outcome {
			c.j.Asserts++
			c.j.asserted[c.str(1)] = true
			c.j.require(c.st, c.term(0), "assert", c.str(1))
			return c.none()
		},
		vndP + "Reach": func(c *ictx) []outcome {
			l := c.str(0)
			if !c.j.Reached[l] {
				if r, m := c.j.sat(c.st, c.j.ts.True); r == Sat {
					c.st.model = m
					c.j.Reached[l] = true
				}
			}
			return c.none()
		},
		vndP + "Observe": func(c *ictx) []outcome {
			n := 0
			if c.st.obs != nil {
				n = c.st.obs.n
			}
			c.st.obs = &ObsN{c.st.obs, c.str(0), c.term(1), n + 1}
			return c.none()
		},
		vndP + "AllocLimit": func(c *ictx) []outcome {
			c.j.allocLim = int64(c.term(0).v)
			return c.none()
		},
		vndP + "Eq":        func(c *ictx) []outcome { return c.one(c.bytesEq(c.args[0], c.args[1])) },
		vndP + "DeepEqual": func(c *ictx) []outcome { return c.one(c.j.deepEq(c.st, c.args[0], c.args[1], 0)) },
		vndP + "Prefix": func(c *ictx) []outcome {
			c.st.pfx = c.str(0)
			return c.none()
		},
		vndP + "DeepCopy": func(c *ictx) []outcome {
			n := 100
			return c.one(c.deepCopy(c.args[0], map[int32]int32{}, &n))
		},
		vndP + "Dirty": func(c *ictx) []outcome {
			iv := c.args[0].(IfaceV)
			n := 100
			v := c.dirty(iv.typ.Underlying().(*types.Pointer).Elem(), &n, 0)
			c.j.store(c.st, iv.v.(PtrV), v)
			return c.none()
		},
		vndP + "And":     func(c *ictx) []outcome { return c.one(c.j.ts.And(c.term(0), c.term(1))) },
		vndP + "Or":      func(c *ictx) []outcome { return c.one(c.j.ts.Or(c.term(0), c.term(1))) },
		vndP + "Implies": func(c *ictx) []outcome { return c.one(c.j.ts.Implies(c.term(0), c.term(1))) },
		vndP + "Ite":     func(c *ictx) []outcome { return c.one(c.j.ts.Ite(c.term(0), c.term(1), c.term(2))) },

		vndP + "FloatEq": func(c *ictx) []outcome { return c.one(c.j.ts.floatEq(c.args[0], c.args[1])) },
		"errors.New": func(c *ictx) []outcome {
			if c.j.inInit {
				ep := c.j.P.byPath["errors"]
				t := ep.Type("errorString").Type()
				id := c.id(0)
				c.j.newObj(c.st, id, &StructV{f: []Value{c.args[0]}}, t)
				return c.one(IfaceV{types.NewPointer(t), PtrV{obj: id}})
			}
			return c.one(c.j.opaqueErr())
		},
		"fmt.Errorf": func(c *ictx) []outcome {
			j := c.j
			if j.inInit {
				// sentinel errors have an identity
				t := j.P.byPath["errors"].Type("errorString").Type()
				id := c.id(0)
				j.newObj(c.st, id, &StructV{f: []Value{c.args[0]}}, t)
				return c.one(IfaceV{types.NewPointer(t), PtrV{obj: id}})
			}
			f, ok := c.args[0].(*StrV)
			if !ok || f.opaque || f.sym {
				return c.one(j.opaqueErr())
			}
			if os.Getenv("VDBG") != "" {
				fmt.Fprintln(os.Stderr, "Errorf", f.s)
			}
			wi, n := -1, 0
			for i := 0; i+1 < len(f.s); i++ {
				if f.s[i] != '%' {
					continue
				}
				i++
				for i < len(f.s) && strings.IndexByte("0123456789+-# .", f.s[i]) >= 0 {
					i++
				}
				if i < len(f.s) && f.s[i] == '%' {
					continue
				}
				if i < len(f.s) && f.s[i] == 'w' {
					wi = n
				}
				n++
			}
			if wi < 0 {
				return c.one(j.opaqueErr())
			}
			sl := c.args[1].(SliceV)
			e := j.sliceAt(c.st, sl, j.c64(wi))
			t := j.P.byPath["fmt"].Type("wrapError").Type()
			id := c.id(0)
			if j.inInit {
				id = c.id(1)
			}
			j.newObj(c.st, id, &StructV{f: []Value{&StrV{opaque: true}, e}}, t)
			return c.one(IfaceV{types.NewPointer(t), PtrV{obj: id}})
		},
		"fmt.Sprintf": func(c *ictx) []outcome { return c.one(&StrV{opaque: true}) },
		"fmt.Sprint":  func(c *ictx) []outcome { return c.one(&StrV{opaque: true}) },
		"errors.Is": func(c *ictx) []outcome {
			return c.one(c.j.errIs(c.st, c.args[0], c.args[1]))
		},
		"errors.As": func(c *ictx) []outcome {
			j := c.j
			tg := c.args[1].(IfaceV)
			p := tg.v.(PtrV)
			found := j.ts.False
			for _, a := range j.errAs(c.st, c.args[0], tg.typ.Underlying().(*types.Pointer).Elem()) {
				if a.v == nil {
					continue
				}
				v := a.v
				if a.g != j.ts.True {
					v = mergeVal(j.ts, a.g, v, j.load(c.st, p, ""))
				}
				j.store(c.st, p, v)
				found = j.ts.Or(found, a.g)
			}
			return c.one(found)
		},
		"bytes.Equal":                func(c *ictx) []outcome { return c.one(c.bytesEq(c.args[0], c.args[1])) },
		"internal/bytealg.Equal":     func(c *ictx) []outcome { return c.one(c.bytesEq(c.args[0], c.args[1])) },
		"internal/bytealg.IndexByte": indexByte,
		"bytes.IndexByte":            indexByte,
		"bytes.Index":                bytesIndex,
		"internal/bytealg.MakeNoZero": func(c *ictx) []outcome {
			j := c.j
			n := c.term(0)
			u := j.allocCheck(c.st, n, types.Typ[types.Uint8])
			id := c.id(0)
			j.newArr(c.st, id, u, j.ts.C(0, 8), types.Typ[types.Uint8])
			return c.one(SliceV{id, nil, j.c64(0), n, n})
		},
		"time.Date": func(c *ictx) []outcome {
			return c.one(c.j.zero(c.j.P.byPath["time"].Type("Time").Type()))
		},
		"math.Log2":               func(c *ictx) []outcome { return c.one(FloatV(math.Log2(float64(c.args[0].(FloatV))))) },
		"math.Ceil":               func(c *ictx) []outcome { return c.one(FloatV(math.Ceil(float64(c.args[0].(FloatV))))) },
		"math.Floor":              func(c *ictx) []outcome { return c.one(FloatV(math.Floor(float64(c.args[0].(FloatV))))) },
		"math.Round":              func(c *ictx) []outcome { return c.one(FloatV(math.Round(float64(c.args[0].(FloatV))))) },
		"(*sync.Mutex).Lock":      func(c *ictx) []outcome { return c.none() },
		"(*sync.Mutex).Unlock":    func(c *ictx) []outcome { return c.none() },
		"(*sync.RWMutex).Lock":    func(c *ictx) []outcome { return c.none() },
		"(*sync.RWMutex).Unlock":  func(c *ictx) []outcome { return c.none() },
		"(*sync.RWMutex).RLock":   func(c *ictx) []outcome { return c.none() },
		"(*sync.RWMutex).RUnlock": func(c *ictx) []outcome { return c.none() },
		"(*sync.Pool).Put":        func(c *ictx) []outcome { return c.none() },
		"(*sync.Pool).Get": func(c *ictx) []outcome {
			j := c.j
			p := c.args[0].(PtrV)
			st := j.P.byPath["sync"].Type("Pool").Type().Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "New" {
					return j.callFn(c, j.load(c.st, p.plus(PElem{field: i}), ""), nil, 0)
				}
			}
			return c.one(IfaceV{})
		},
	}
	intrinsics = I
}

// dirty builds a value of type t without zero parts (unexported fields excepted).
func (c *ictx) dirty(t types.Type, n *int, depth int) Value {
	j := c.j
	if depth > 12 {
		return j.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return j.ts.True
		case u.Info()&types.IsInteger != 0:
			return j.ts.C(0x55, uint8(j.P.sizes.Sizeof(u)*8))
		case u.Info()&types.IsString != 0:
			return &StrV{s: "dirty"}
		case u.Info()&types.IsFloat != 0:
			return FloatV(5.5)
		}
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields()), own: c.st.own}
		for i := range s.f {
			if u.Field(i).Exported() {
				s.f[i] = c.dirty(u.Field(i).Type(), n, depth+1)
			} else {
				s.f[i] = j.zero(u.Field(i).Type())
			}
		}
		return s
	case *types.Array:
		a := &ArrV{e: make([]Value, u.Len()), zero: j.zero(u.Elem()), own: c.st.own}
		for i := range a.e {
			a.e[i] = c.dirty(u.Elem(), n, depth+1)
		}
		return a
	case *types.Slice:
		a := &ArrV{e: make([]Value, 2), zero: j.zero(u.Elem()), own: c.st.own}
		for i := range a.e {
			a.e[i] = c.dirty(u.Elem(), n, depth+1)
		}
		*n++
		id := c.id(*n)
		j.newObj(c.st, id, a, types.NewArray(u.Elem(), 2))
		return SliceV{id, nil, j.c64(0), j.c64(2), j.c64(2)}
	case *types.Pointer:
		v := c.dirty(u.Elem(), n, depth+1)
		*n++
		id := c.id(*n)
		j.newObj(c.st, id, v, u.Elem())
		return PtrV{obj: id}
	}
	return j.zero(t)
}

// deepCopy copies the part of the heap that is reachable from a value.
func (c *ictx) deepCopy(v Value, seen map[int32]int32, n *int) Value {
	obj := func(id int32) int32 {
		if id == 0 || id == opaqueErrObj {
			return id
		}
		if r, ok := seen[id]; ok {
			return r
		}
		*n++
		r := c.id(*n)
		seen[id] = r
		o := c.st.get(c.j, id)
		c.j.newObj(c.st, r, nil, o.typ)
		nv := c.deepCopy(shared(o.val), seen, n)
		c.j.newObj(c.st, r, nv, o.typ)
		return r
	}
	switch x := v.(type) {
	case PtrV:
		return PtrV{obj(x.obj), x.path}
	case SliceV:
		x.obj = obj(x.obj)
		return x
	case *StructV:
		s := &StructV{f: make([]Value, len(x.f)), own: c.st.own}
		for i := range x.f {
			s.f[i] = c.deepCopy(x.f[i], seen, n)
		}
		return s
	case *ArrV:
		a := &ArrV{e: make([]Value, len(x.e)), zero: x.zero, own: c.st.own}
		for i, e := range x.e {
			if e != nil {
				a.e[i] = c.deepCopy(e, seen, n)
			}
		}
		return a
	case IfaceV:
		if x.typ == nil {
			return x
		}
		return IfaceV{x.typ, c.deepCopy(x.v, seen, n)}
	case *UnionV:
		u := &UnionV{}
		for _, a := range x.alts {
			u.alts = append(u.alts, Alt{a.g, c.deepCopy(a.v, seen, n)})
		}
		return u
	case MapV:
		if x.obj != 0 {
			c.j.unsupported("deepCopy of a map")
		}
	}
	return v
}

func (c *ictx) assume(t *Term) {
	j := c.j
	t = j.simpUnder(c.st, t)
	if t == j.ts.True {
		return
	}
	r, m := j.sat(c.st, t)
	if r == Unsat {
		panic(abortPath{"assume"})
	}
	if r == Sat {
		c.st.model = m
	} else {
		j.incomplete("assumption feasibility unknown")
	}
	j.addPC(c.st, t)
}

func indexByte(c *ictx) []outcome {
	j, ts := c.j, c.j.ts
	s := j.strSlice(c.st, c.args[0], c.id(11))
	b := c.term(1)
	r := ts.C(^uint64(0), 64)
	if s.obj == 0 {
		return c.one(r)
	}
	arr := j.arrOf(c.st, s)
	n := min(s.len.hi, uint64(len(arr.e)))
	for i := int(n) - 1; i >= 0; i-- {
		k := j.c64(i)
		idx := ts.Add(s.off, k)
		if idx.lo >= uint64(len(arr.e)) {
			continue
		}
		hit := ts.And(ts.Ult(k, s.len), ts.Eq(j.selectArr(arr, idx).(*Term), b))
		r = ts.Ite(hit, k, r)
	}
	return c.one(r)
}

// bytesIndex is bytes.Index with a pattern of concrete length.
func bytesIndex(c *ictx) []outcome {
	j, ts := c.j, c.j.ts
	s := j.strSlice(c.st, c.args[0], c.id(11))
	pat := j.strSlice(c.st, c.args[1], c.id(12))
	if !pat.len.isC() {
		j.unsupported("bytes.Index with symbolic pattern length")
	}
	pn := int(pat.len.v)
	if pn == 0 {
		return c.one(ts.C(0, 64))
	}
	r := ts.C(^uint64(0), 64)
	if s.obj == 0 {
		return c.one(r)
	}
	arr, parr := j.arrOf(c.st, s), j.arrOf(c.st, pat)
	n := min(s.len.hi, uint64(len(arr.e)))
	p0, _ := j.selectArr(parr, pat.off).(*Term)
	z, _ := arr.zero.(*Term)
	skip := s.off.isC() && p0 != nil && z != nil && p0.isC() && z.isC() && p0.v != z.v
	for i := int(n) - pn; i >= 0; i-- {
		if x := int(s.off.v) + i; skip && x < len(arr.e) && arr.e[x] == nil {
			continue
		}
		hit := ts.Ule(j.c64(i+pn), s.len)
		for k := 0; k < pn && hit != ts.False; k++ {
			idx := ts.Add(s.off, j.c64(i+k))
			if idx.lo >= uint64(len(arr.e)) {
				hit = ts.False
				break
			}
			hit = ts.And(hit, ts.Eq(j.selectArr(arr, idx).(*Term), j.selectArr(parr, ts.Add(pat.off, j.c64(k))).(*Term)))
		}
		r = ts.Ite(hit, j.c64(i), r)
	}
	if j.Cfg.Merge != "full" && !r.isC() {
		var out []outcome
		for _, x := range j.concretize(c.st, r, 4096) {
			out = append(out, outcome{x.st, []Value{ts.C(x.v, 64)}})
		}
		return out
	}
	return c.one(r)
}
