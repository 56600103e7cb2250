package main

// Library functions without a Go body, or whose body uses unsafe conversions.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	I := intrinsics
	I["internal/bytealg.IndexByteString"] = indexByte
	I["internal/bytealg.Index"] = bytesIndex
	I["internal/bytealg.IndexString"] = bytesIndex
	I["strings.Index"] = bytesIndex
	I["internal/bytealg.Count"] = byteCount
	I["internal/bytealg.CountString"] = byteCount
	I["internal/bytealg.Compare"] = byteCompare
	I["internal/bytealg.CompareString"] = byteCompare
	I["bytes.Compare"] = byteCompare
	I["(*strings.Builder).copyCheck"] = func(c *ictx) []outcome { return c.none() }
	I["(*strings.Builder).String"] = func(c *ictx) []outcome {
		j := c.j
		st := j.P.byPath["strings"].Type("Builder").Type().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "buf" {
				b := j.load(c.st, c.args[0].(PtrV).plus(PElem{field: i}), "")
				return j.convert(c.st, b, st.Field(i).Type(), types.Typ[types.String], func(n int) int32 { return c.id(n) })
			}
		}
		j.unsupported("strings.Builder")
		return nil
	}
	// there is a single thread
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		I["sync/atomic.Load"+t] = func(c *ictx) []outcome {
			return c.one(c.j.load(c.st, c.args[0].(PtrV), ""))
		}
		I["sync/atomic.Store"+t] = func(c *ictx) []outcome {
			c.j.store(c.st, c.args[0].(PtrV), c.args[1])
			return c.none()
		}
		I["sync/atomic.Swap"+t] = func(c *ictx) []outcome {
			v := c.j.load(c.st, c.args[0].(PtrV), "")
			c.j.store(c.st, c.args[0].(PtrV), c.args[1])
			return c.one(v)
		}
		if t == "Pointer" {
			continue
		}
		I["sync/atomic.Add"+t] = func(c *ictx) []outcome {
			v := c.j.ts.Add(c.j.load(c.st, c.args[0].(PtrV), "").(*Term), c.term(1))
			c.j.store(c.st, c.args[0].(PtrV), v)
			return c.one(v)
		}
		I["sync/atomic.CompareAndSwap"+t] = func(c *ictx) []outcome {
			ts := c.j.ts
			v := c.j.load(c.st, c.args[0].(PtrV), "").(*Term)
			eq := ts.Eq(v, c.term(1))
			c.j.store(c.st, c.args[0].(PtrV), ts.Ite(eq, c.term(2), v))
			return c.one(eq)
		}
	}
	I["slices.overlaps"] = func(c *ictx) []outcome {
		ts := c.j.ts
		a, b := c.args[0].(SliceV), c.args[1].(SliceV)
		if a.obj == 0 || b.obj == 0 || a.obj != b.obj {
			return c.one(ts.False)
		}
		if len(a.path) > 0 || len(b.path) > 0 {
			c.j.unsupported("slices.overlaps")
		}
		z := c.j.c64(0)
		ne := ts.And(ts.Ult(z, a.len), ts.Ult(z, b.len))
		return c.one(ts.And(ne, ts.And(ts.Ult(a.off, ts.Add(b.off, b.len)), ts.Ult(b.off, ts.Add(a.off, a.len)))))
	}
}

// bytesOf returns the elements of a byte slice or string, and its length.
func (c *ictx) bytesOf(i int) (func(k int) *Term, int, *Term) {
	j, ts := c.j, c.j.ts
	s := j.strSlice(c.st, c.args[i], c.id(11+i))
	if s.obj == 0 {
		return nil, 0, j.c64(0)
	}
	arr := j.arrOf(c.st, s)
	n := int(min(s.len.hi, uint64(len(arr.e))))
	return func(k int) *Term {
		idx := ts.Add(s.off, j.c64(k))
		if idx.lo >= uint64(len(arr.e)) {
			return ts.C(0, 8)
		}
		return j.selectArr(arr, idx).(*Term)
	}, n, s.len
}

func byteCount(c *ictx) []outcome {
	j, ts := c.j, c.j.ts
	at, n, ln := c.bytesOf(0)
	r := j.c64(0)
	for k := 0; k < n; k++ {
		r = ts.Add(r, ts.Ite(ts.And(ts.Ult(j.c64(k), ln), ts.Eq(at(k), c.term(1))), j.c64(1), j.c64(0)))
	}
	return c.one(r)
}

func byteCompare(c *ictx) []outcome {
	j, ts := c.j, c.j.ts
	a, na, la := c.bytesOf(0)
	b, nb, lb := c.bytesOf(1)
	m1, z, p1 := ts.C(^uint64(0), 64), j.c64(0), j.c64(1)
	r := ts.Ite(ts.Ult(la, lb), m1, ts.Ite(ts.Ult(lb, la), p1, z))
	for k := min(na, nb) - 1; k >= 0; k-- {
		x, y := a(k), b(k)
		d := ts.Ite(ts.Ult(x, y), m1, ts.Ite(ts.Ult(y, x), p1, r))
		r = ts.Ite(ts.And(ts.Ult(j.c64(k), la), ts.Ult(j.c64(k), lb)), d, r)
	}
	return c.one(r)
}

// arrCopy is a slice to array (pointer) conversion whose result is only read.
func (j *Job) arrCopy(st *State, x *ssa.SliceToArrayPointer, s SliceV, n int64, id int32) (Value, bool) {
	for _, r := range *x.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.X != x {
			return nil, false
		}
	}
	et := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if n == 0 && s.obj == 0 {
		return nil, false
	}
	arr := j.arrOf(st, s)
	av := &ArrV{e: make([]Value, n), zero: arr.zero, own: st.own}
	for k := range av.e {
		av.e[k] = j.selectArr(arr, j.ts.Add(s.off, j.c64(k)))
	}
	j.newObj(st, id, av, et)
	return PtrV{obj: id}, true
}
