package main

// Model of package reflect, as far as go-mp4 uses it. A reflect.Type is an interface value holding a TypeV; a reflect.Value is
// its three-field structure holding the type, a pointer to the value (indirect, flag 1) or the value itself (flag 0).

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TypeV is a run-time type descriptor.
type TypeV struct{ t types.Type }

func (j *Job) typeIface(t types.Type) Value {
	return IfaceV{types.NewPointer(j.P.byPath["reflect"].Type("rtype").Type()), TypeV{t}}
}

func kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (j *Job) typeMethod(st *State, t types.Type, name string, args []Value) []outcome {
	switch name {
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return one(st, j.typeIface(u.Elem()))
		case *types.Slice:
			return one(st, j.typeIface(u.Elem()))
		case *types.Array:
			return one(st, j.typeIface(u.Elem()))
		}
	case "Kind":
		return one(st, j.ts.C(kindOf(t), 64))
	case "Size":
		return one(st, j.c64(int(j.P.sizes.Sizeof(t))))
	case "Name", "String":
		return one(st, &StrV{s: types.TypeString(t, func(p *types.Package) string { return p.Name() })})
	}
	j.unsupported("reflect.Type.%s", name)
	return nil
}

func (c *ictx) rv(t types.Type, v Value, ind bool) *StructV {
	return &StructV{f: []Value{TypeV{t}, v, c.j.ts.B2(ind, 64)}}
}

func (ts *TS) B2(b bool, w uint8) *Term {
	if b {
		return ts.C(1, w)
	}
	return ts.C(0, w)
}

func (c *ictx) getRV(i int) (t types.Type, v Value, ind bool) {
	s, ok := c.args[i].(*StructV)
	if !ok {
		c.j.unsupported("reflect.Value %T", c.args[i])
	}
	tv, ok := s.f[0].(TypeV)
	if !ok {
		c.j.require(c.st, c.j.ts.False, "panic", "reflect: call on zero Value")
	}
	return tv.t, s.f[1], s.f[2].(*Term).v == 1
}

// cur is the current value of the reflect.Value in argument i.
func (c *ictx) cur(i int) (types.Type, Value) {
	t, v, ind := c.getRV(i)
	if ind {
		v = c.j.load(c.st, v.(PtrV), "")
	}
	return t, v
}

func (c *ictx) rset(v Value) []outcome {
	_, p, ind := c.getRV(0)
	if !ind {
		c.j.require(c.st, c.j.ts.False, "panic", "reflect: value is not addressable")
	}
	c.j.store(c.st, p.(PtrV), v)
	return c.none()
}

func init() {
	I := intrinsics
	V := "(reflect.Value)."
	I["reflect.TypeOf"] = func(c *ictx) []outcome {
		iv := c.args[0].(IfaceV)
		if iv.typ == nil {
			return c.one(IfaceV{})
		}
		return c.one(c.j.typeIface(iv.typ))
	}
	I["reflect.ValueOf"] = func(c *ictx) []outcome {
		iv := c.args[0].(IfaceV)
		if iv.typ == nil {
			c.j.unsupported("reflect.ValueOf(nil)")
		}
		return c.one(c.rv(iv.typ, iv.v, false))
	}
	typArg := func(c *ictx) types.Type {
		tv, ok := c.args[0].(IfaceV).v.(TypeV)
		if !ok {
			c.j.unsupported("reflect with a symbolic type")
		}
		return tv.t
	}
	I["reflect.New"] = func(c *ictx) []outcome {
		t := typArg(c)
		id := c.id(0)
		c.j.newObj(c.st, id, c.j.zero(t), t)
		return c.one(c.rv(types.NewPointer(t), PtrV{obj: id}, false))
	}
	I["reflect.Zero"] = func(c *ictx) []outcome {
		t := typArg(c)
		return c.one(c.rv(t, c.j.zero(t), false))
	}
	I["reflect.MakeSlice"] = func(c *ictx) []outcome {
		t := typArg(c)
		et := t.Underlying().(*types.Slice).Elem()
		n, m := c.term(1), c.term(2)
		if !m.isC() {
			c.j.unsupported("reflect.MakeSlice with symbolic capacity")
		}
		id := c.id(0)
		c.j.newArr(c.st, id, int(m.v), c.j.zero(et), et)
		return c.one(c.rv(t, SliceV{id, nil, c.j.c64(0), n, m}, false))
	}
	I["reflect.Append"] = func(c *ictx) []outcome {
		t, s := c.cur(0)
		et := t.Underlying().(*types.Slice).Elem()
		more := c.args[1].(SliceV)
		if !more.len.isC() || more.len.v != 1 {
			c.j.unsupported("reflect.Append of several values")
		}
		x := c.j.sliceAt(c.st, more, c.j.c64(0)).(*StructV)
		v := x.f[1]
		if x.f[2].(*Term).v == 1 {
			v = c.j.load(c.st, v.(PtrV), "")
		}
		tmp := c.id(1)
		c.j.newObj(c.st, tmp, &ArrV{e: []Value{shared(v)}, zero: c.j.zero(et)}, types.NewArray(et, 1))
		o := c.j.c64(1)
		var outs []outcome
		for _, r := range c.j.appendTo(c.st, s.(SliceV), SliceV{tmp, nil, c.j.c64(0), o, o}, et, c.id(0)) {
			delete(r.st.heap, tmp)
			outs = append(outs, outcome{r.st, []Value{c.rv(t, r.ret[0], false)}})
		}
		return outs
	}
	I[V+"Type"] = func(c *ictx) []outcome {
		t, _, _ := c.getRV(0)
		return c.one(c.j.typeIface(t))
	}
	I[V+"Kind"] = func(c *ictx) []outcome {
		t, _, _ := c.getRV(0)
		return c.one(c.j.ts.C(kindOf(t), 64))
	}
	I[V+"Elem"] = func(c *ictx) []outcome {
		t, v := c.cur(0)
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			c.j.unsupported("reflect.Value.Elem on %s", t)
		}
		if v.(PtrV).obj == 0 {
			return c.one(c.j.zero(c.fn.Signature.Results().At(0).Type()))
		}
		return c.one(c.rv(p.Elem(), v, true))
	}
	I[V+"Addr"] = func(c *ictx) []outcome {
		t, v, ind := c.getRV(0)
		if !ind {
			c.j.require(c.st, c.j.ts.False, "panic", "reflect.Value.Addr of unaddressable value")
		}
		return c.one(c.rv(types.NewPointer(t), v, false))
	}
	I[V+"Interface"] = func(c *ictx) []outcome {
		t, v := c.cur(0)
		return c.one(IfaceV{t, shared(v)})
	}
	I[V+"FieldByName"] = func(c *ictx) []outcome {
		t, v, ind := c.getRV(0)
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			c.j.unsupported("FieldByName on %s", t)
		}
		n := c.str(1)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				if ind {
					return c.one(c.rv(s.Field(i).Type(), v.(PtrV).plus(PElem{field: i}), true))
				}
				return c.one(c.rv(s.Field(i).Type(), v.(*StructV).f[i], false))
			}
		}
		c.j.unsupported("FieldByName %s not found", n)
		return nil
	}
	I[V+"Index"] = func(c *ictx) []outcome {
		t, v, ind := c.getRV(0)
		i := c.term(1)
		switch u := t.Underlying().(type) {
		case *types.Array:
			c.j.require(c.st, c.j.ts.Ult(i, c.j.c64(int(u.Len()))), "panic", "reflect: array index out of range")
			if ind {
				return c.one(c.rv(u.Elem(), v.(PtrV).plus(PElem{idx: i}), true))
			}
			return c.one(c.rv(u.Elem(), shared(c.j.selectArr(v.(*ArrV), i)), false))
		case *types.Slice:
			if ind {
				v = c.j.load(c.st, v.(PtrV), "")
			}
			s := v.(SliceV)
			c.j.require(c.st, c.j.ts.Ult(i, s.len), "panic", "reflect: slice index out of range")
			return c.one(c.rv(u.Elem(), c.j.sliceElem(s, i), true))
		}
		c.j.unsupported("reflect.Value.Index on %s", t)
		return nil
	}
	I[V+"Len"] = func(c *ictx) []outcome {
		t, v := c.cur(0)
		return c.one(c.j.lenOf(c.st, v, t))
	}
	I[V+"Bytes"] = func(c *ictx) []outcome {
		_, v := c.cur(0)
		if _, ok := v.(SliceV); !ok {
			c.j.unsupported("reflect.Value.Bytes of %T", v)
		}
		return c.one(v)
	}
	I[V+"Int"] = func(c *ictx) []outcome {
		_, v := c.cur(0)
		return c.one(c.j.ts.SExt(v.(*Term), 64))
	}
	I[V+"Uint"] = func(c *ictx) []outcome {
		_, v := c.cur(0)
		return c.one(c.j.ts.ZExt(v.(*Term), 64))
	}
	I[V+"Bool"] = func(c *ictx) []outcome {
		_, v := c.cur(0)
		return c.one(v)
	}
	I[V+"String"] = I[V+"Bool"]
	setInt := func(c *ictx) []outcome {
		t, _, _ := c.getRV(0)
		return c.rset(c.j.ts.Extract(c.term(1), 0, uint8(c.j.P.sizes.Sizeof(t)*8)))
	}
	I[V+"SetInt"] = setInt
	I[V+"SetUint"] = setInt
	I[V+"SetBool"] = func(c *ictx) []outcome { return c.rset(c.args[1]) }
	I[V+"SetString"] = I[V+"SetBool"]
	I[V+"SetBytes"] = I[V+"SetBool"]
	I[V+"Set"] = func(c *ictx) []outcome {
		_, v := c.cur(1)
		return c.rset(shared(v))
	}
	// Names of box types: exact for concrete types; the name of a symbolic type is only good for comparison with the 4-character
	// constants that appear in the code (a name with non-printable characters is longer).
	I["(github.com/abema/go-mp4.BoxType).String"] = func(c *ictx) []outcome {
		ts := c.j.ts
		a := c.args[0].(*ArrV)
		s := &StrV{sym: true, arr: make([]*Term, 10)}
		conc, ascii := true, ts.True
		b := make([]byte, 4)
		for i := range s.arr {
			s.arr[i] = ts.C(0, 8)
			if i < 4 {
				t := a.at(i).(*Term)
				s.arr[i] = t
				conc = conc && t.isC()
				b[i] = byte(t.v)
				ascii = ts.And(ascii, ts.And(ts.Ule(ts.C(0x20, 8), t), ts.Ule(t, ts.C(0x7e, 8))))
			}
		}
		if conc {
			if ascii == ts.True {
				return c.one(&StrV{s: string(b)})
			}
			pr := true
			for _, x := range b {
				pr = pr && (x >= 0x20 && x <= 0x7e || x == 0xa9)
			}
			if pr {
				return c.one(&StrV{s: strings.ReplaceAll(string(b), "\xa9", "(c)")})
			}
			return c.one(&StrV{s: fmt.Sprintf("0x%02x%02x%02x%02x", b[0], b[1], b[2], b[3])})
		}
		s.ln = ts.Ite(ascii, c.j.c64(4), c.j.c64(10))
		return c.one(s)
	}
	I["github.com/abema/go-mp4.buildFields"] = func(c *ictx) []outcome {
		iv := c.args[0].(IfaceV)
		n := 0
		return c.one(c.buildFields(iv.typ.Underlying().(*types.Pointer).Elem(), &n))
	}
}

// buildFields is go-mp4's buildFields: the field descriptors of a box structure, from its struct tags.
func (c *ictx) buildFields(t types.Type, n *int) Value {
	j := c.j
	for {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Array:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		}
		break
	}
	ft := j.P.byPath["github.com/abema/go-mp4"].Type("field").Type()
	pt := types.NewPointer(ft)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return j.zero(types.NewSlice(pt))
	}
	fst := ft.Underlying().(*types.Struct)
	at := func(name string) int {
		for i := 0; i < fst.NumFields(); i++ {
			if fst.Field(i).Name() == name {
				return i
			}
		}
		j.unsupported("go-mp4 field layout")
		return 0
	}
	konst := func(name string) uint64 {
		k, ok := j.P.byPath["github.com/abema/go-mp4"].Members[name].(*ssa.NamedConst)
		if !ok {
			j.unsupported("go-mp4 constant %s", name)
		}
		v, _ := constant.Uint64Val(k.Value.Value)
		return v
	}
	type ent struct {
		order int
		p     Value
	}
	var ents []ent
	for i := 0; i < st.NumFields(); i++ {
		tag, ok := reflect.StructTag(st.Tag(i)).Lookup("mp4")
		if !ok {
			continue
		}
		m := map[string]string{}
		order := 0
		for _, e := range strings.Split(tag, ",") {
			k, v, _ := strings.Cut(e, "=")
			k, v = strings.Trim(k, " "), strings.Trim(v, " ")
			m[k] = v
			if v == "" {
				if o, err := strconv.Atoi(k); err == nil {
					order = o
				}
			}
		}
		f := j.zero(ft).(*StructV)
		set := func(name string, v uint64) {
			k := at(name)
			f.f[k] = j.ts.C(v, f.f[k].(*Term).w)
		}
		f.f[at("children")] = c.buildFields(st.Field(i).Type(), n)
		f.f[at("name")] = &StrV{s: st.Field(i).Name()}
		if v, ok := m["const"]; ok {
			f.f[at("cnst")] = &StrV{s: v}
		}
		set("order", uint64(order))
		var flags uint64
		for k, fl := range map[string]string{
			"string": "fieldString", "boxstring": "fieldBoxString", "varint": "fieldVarint", "extend": "fieldExtend", "dec": "fieldDec",
			"hex": "fieldHex", "iso639-2": "fieldISO639_2", "uuid": "fieldUUID", "hidden": "fieldHidden",
		} {
			if _, ok := m[k]; ok {
				flags |= konst(fl)
			}
		}
		if m["string"] == "c_p" {
			set("strType", konst("stringType_C_P"))
		}
		num := func(key, name, dynFlag string, def uint64, bits int) {
			v, ok := m[key]
			switch {
			case !ok:
				set(name, def)
			case v == "dynamic" && dynFlag != "":
				flags |= konst(dynFlag)
				set(name, def)
			default:
				base := 10
				if h, ok := strings.CutPrefix(v, "0x"); ok && (key == "opt" || key == "nopt") {
					v, base = h, 16
				}
				x, err := strconv.ParseUint(v, base, bits)
				if err != nil {
					j.unsupported("go-mp4 tag %s", tag)
				}
				set(name, x)
			}
		}
		num("opt", "optFlag", "fieldOptDynamic", 0, 32)
		num("nopt", "nOptFlag", "", 0, 32)
		num("ver", "version", "", 255, 8)
		num("nver", "nVersion", "", 255, 8)
		num("size", "size", "fieldSizeDynamic", 0, 32)
		num("len", "length", "fieldLengthDynamic", 0xffffffff, 32)
		set("flags", flags)
		*n++
		id := c.id(*n)
		j.newObj(c.st, id, f, ft)
		ents = append(ents, ent{order, PtrV{obj: id}})
	}
	// stable by order
	for a := 1; a < len(ents); a++ {
		for b := a; b > 0 && ents[b].order < ents[b-1].order; b-- {
			ents[b], ents[b-1] = ents[b-1], ents[b]
		}
	}
	av := &ArrV{e: make([]Value, len(ents)), zero: PtrV{}, own: c.st.own}
	for i := range ents {
		av.e[i] = ents[i].p
	}
	*n++
	id := c.id(*n)
	j.newObj(c.st, id, av, types.NewArray(pt, int64(len(ents))))
	l := j.c64(len(ents))
	return SliceV{id, nil, j.c64(0), l, l}
}
