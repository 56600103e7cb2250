package main

// Hash-consed bit-vector / boolean terms with eager simplification.
// A term of width 0 is a boolean; widths 1..64 are bit-vectors.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OSExt
	OExtract // v = lo, w = width
	OConcat  // a = high, b = low
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "ite",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg",
	"bvshl", "bvlshr", "bvashr", "sext", "extract", "concat"}

// Term is an immutable, hash-consed expression node.
type Term struct {
	op      Op
	w       uint8
	id      int32
	v       uint64
	a, b, c *Term
	name    string
	k0, k1  uint64 // known zero / known one bits
	lo, hi  uint64 // unsigned range
	vs      []uint64
	hard    bool // contains mul/div/rem of non-constants
}

type tkey struct {
	op      Op
	w       uint8
	v       uint64
	a, b, c int32
}

// TS is a term store. Not safe for concurrent use.
type TS struct {
	tab   map[tkey]*Term
	all   []*Term
	vars  []*Term
	byNam map[string]*Term
	True  *Term
	False *Term
}

// NewTS allocates a TS.
func NewTS() *TS {
	ts := &TS{tab: map[tkey]*Term{}, byNam: map[string]*Term{}}
	ts.False = ts.mk(tkey{op: OConst, w: 0, v: 0, a: -1, b: -1, c: -1}, nil, nil, nil)
	ts.True = ts.mk(tkey{op: OConst, w: 0, v: 1, a: -1, b: -1, c: -1}, nil, nil, nil)
	return ts
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func vsUnion(a, b []uint64) []uint64 {
	if len(a) < len(b) {
		a, b = b, a
	}
	sub := true
	for i, x := range b {
		if x&^a[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	if len(a) == len(b) {
		sub = true
		for i, x := range a {
			if x&^b[i] != 0 {
				sub = false
				break
			}
		}
		if sub {
			return b
		}
	}
	out := make([]uint64, len(a))
	copy(out, a)
	for i, x := range b {
		out[i] |= x
	}
	return out
}

func vsOverlap(a, b []uint64) bool {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

func (ts *TS) mk(k tkey, a, b, c *Term) *Term {
	if t, ok := ts.tab[k]; ok {
		return t
	}
	t := &Term{op: k.op, w: k.w, v: k.v, a: a, b: b, c: c, id: int32(len(ts.all))}
	if a != nil {
		t.vs = a.vs
		t.hard = a.hard
		if b != nil {
			t.vs = vsUnion(t.vs, b.vs)
			t.hard = t.hard || b.hard
			if c != nil {
				t.vs = vsUnion(t.vs, c.vs)
				t.hard = t.hard || c.hard
			}
		}
	}
	ts.analyse(t)
	ts.tab[k] = t
	ts.all = append(ts.all, t)
	return t
}

func (ts *TS) n1(op Op, w uint8, v uint64, a *Term) *Term {
	return ts.mk(tkey{op, w, v, a.id, -1, -1}, a, nil, nil)
}

func (ts *TS) n2(op Op, w uint8, a, b *Term) *Term {
	return ts.mk(tkey{op, w, 0, a.id, b.id, -1}, a, b, nil)
}

func (ts *TS) n3(op Op, w uint8, a, b, c *Term) *Term {
	return ts.mk(tkey{op, w, 0, a.id, b.id, c.id}, a, b, c)
}

func fillDown(x uint64) uint64 { // all bits at or below the top set bit
	if x == 0 {
		return 0
	}
	return mask(uint8(bits.Len64(x)))
}

func (ts *TS) analyse(t *Term) {
	m := mask(t.w)
	if t.w == 0 {
		return
	}
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.k1 = t.v
		t.k0 = ^t.v & m
		t.lo, t.hi = t.v, t.v
	case OIte:
		t.k0 = t.b.k0 & t.c.k0
		t.k1 = t.b.k1 & t.c.k1
		t.lo = min(t.b.lo, t.c.lo)
		t.hi = max(t.b.hi, t.c.hi)
	case OBAnd:
		t.k0 = t.a.k0 | t.b.k0
		t.k1 = t.a.k1 & t.b.k1
		t.hi = min(t.a.hi, t.b.hi)
	case OBOr:
		t.k0 = t.a.k0 & t.b.k0
		t.k1 = t.a.k1 | t.b.k1
		t.lo = max(t.a.lo, t.b.lo)
		t.hi = fillDown(t.a.hi | t.b.hi)
	case OBXor:
		t.k0 = (t.a.k0 & t.b.k0) | (t.a.k1 & t.b.k1)
		t.k1 = (t.a.k0 & t.b.k1) | (t.a.k1 & t.b.k0)
		t.hi = fillDown(t.a.hi | t.b.hi)
	case OBNot:
		t.k0 = t.a.k1
		t.k1 = t.a.k0
		t.lo = ^t.a.hi & m
		t.hi = ^t.a.lo & m
	case OAdd:
		s, c := bits.Add64(t.a.hi, t.b.hi, 0)
		if c == 0 && s <= m {
			t.lo = t.a.lo + t.b.lo
			t.hi = s
		}
		tz := min(bits.TrailingZeros64(^t.a.k0), bits.TrailingZeros64(^t.b.k0))
		t.k0 |= mask(uint8(min(tz, 64))) & m
	case OSub:
		if t.a.lo >= t.b.hi {
			t.lo = t.a.lo - t.b.hi
			t.hi = t.a.hi - t.b.lo
		}
		tz := min(bits.TrailingZeros64(^t.a.k0), bits.TrailingZeros64(^t.b.k0))
		t.k0 |= mask(uint8(min(tz, 64))) & m
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			t.lo = t.a.lo * t.b.lo
			t.hi = l
		}
		tz := bits.TrailingZeros64(^t.a.k0) + bits.TrailingZeros64(^t.b.k0)
		t.k0 |= mask(uint8(min(tz, 64))) & m
	case OUdiv:
		if t.b.lo > 0 {
			t.lo = t.a.lo / t.b.hi
			t.hi = t.a.hi / t.b.lo
		}
	case OUrem:
		if t.b.lo > 0 {
			t.hi = min(t.a.hi, t.b.hi-1)
		}
	case OLshr:
		if t.b.op == OConst && t.b.v < 64 {
			t.lo = t.a.lo >> t.b.v
			t.hi = t.a.hi >> t.b.v
		} else {
			t.hi = t.a.hi
		}
	case OShl:
		if t.b.lo < 64 {
			t.k0 = mask(uint8(t.b.lo)) & m
		}
		if t.b.hi < 64 && t.a.hi<<t.b.hi>>t.b.hi == t.a.hi && t.a.hi<<t.b.hi <= m {
			t.lo = t.a.lo << t.b.lo
			t.hi = t.a.hi << t.b.hi
		}
	case OExtract:
		t.k0 = (t.a.k0 >> t.v) & m
		t.k1 = (t.a.k1 >> t.v) & m
		if t.v == 0 && t.a.hi <= m {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
		if t.v+uint64(t.w) == uint64(t.a.w) {
			t.lo, t.hi = t.a.lo>>t.v, t.a.hi>>t.v
		}
	case OConcat:
		t.k0 = t.a.k0<<t.b.w | t.b.k0
		t.k1 = t.a.k1<<t.b.w | t.b.k1
		t.lo = t.a.lo<<t.b.w | t.b.lo
		t.hi = t.a.hi<<t.b.w | t.b.hi
		if t.a.lo != t.a.hi {
			t.lo = t.a.lo << t.b.w
			t.hi = t.a.hi<<t.b.w | mask(t.b.w)
		}
	case OSExt:
		sb := uint64(1) << (t.a.w - 1)
		if t.a.k0&sb != 0 {
			t.k0 = t.a.k0 | (m &^ mask(t.a.w))
			t.k1 = t.a.k1
			t.lo, t.hi = t.a.lo, t.a.hi
		} else {
			t.k0 = t.a.k0 &^ sb
			t.k1 = t.a.k1
			if t.a.k1&sb != 0 {
				t.k1 |= m &^ mask(t.a.w)
			}
		}
	case OVar, ONeg, OAshr, OSdiv, OSrem:
	}
	// reconcile
	t.hi = min(t.hi, m&^t.k0)
	t.lo = max(t.lo, t.k1)
	if t.hi < m {
		t.k0 |= m &^ fillDown(t.hi)
	}
	if t.lo == t.hi { // constant (caller may fold)
		t.k1 = t.lo
		t.k0 = ^t.lo & m
	}
}

// C makes a constant.
func (ts *TS) C(v uint64, w uint8) *Term {
	if w == 0 {
		if v != 0 {
			return ts.True
		}
		return ts.False
	}
	return ts.mk(tkey{op: OConst, w: w, v: v & mask(w), a: -1, b: -1, c: -1}, nil, nil, nil)
}

// B makes a boolean constant.
func (ts *TS) B(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}

// Var returns the (unique) variable of a given name.
func (ts *TS) Var(name string, w uint8) *Term {
	if t, ok := ts.byNam[name]; ok {
		if t.w != w {
			panic(fmt.Sprintf("variable %s redeclared with a different width", name))
		}
		return t
	}
	n := len(ts.vars)
	t := &Term{op: OVar, w: w, id: int32(len(ts.all)), v: uint64(n), name: name}
	t.vs = make([]uint64, n/64+1)
	t.vs[n/64] |= 1 << (n % 64)
	ts.analyse(t)
	ts.all = append(ts.all, t)
	ts.vars = append(ts.vars, t)
	ts.byNam[name] = t
	return t
}

func (t *Term) isC() bool { return t.op == OConst }

func (ts *TS) fold(t *Term) *Term {
	if t.w != 0 && t.op != OConst && t.lo == t.hi {
		return ts.C(t.lo, t.w)
	}
	return t
}

// ---------- booleans

// Not negates.
func (ts *TS) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return ts.B(a.v == 0)
	case ONot:
		return a.a
	case OUlt:
		return ts.Ule(a.b, a.a)
	case OUle:
		return ts.Ult(a.b, a.a)
	case OSlt:
		return ts.Sle(a.b, a.a)
	case OSle:
		return ts.Slt(a.b, a.a)
	}
	return ts.n1(ONot, 0, 0, a)
}

func (ts *TS) isNeg(a, b *Term) bool {
	return (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) ||
		(a.op == OUlt && b.op == OUle && a.a == b.b && a.b == b.a) ||
		(b.op == OUlt && a.op == OUle && a.a == b.b && a.b == b.a) ||
		(a.op == OSlt && b.op == OSle && a.a == b.b && a.b == b.a) ||
		(b.op == OSlt && a.op == OSle && a.a == b.b && a.b == b.a)
}

// And conjoins.
func (ts *TS) And(a, b *Term) *Term {
	if a == b || b == ts.True {
		return a
	}
	if a == ts.True {
		return b
	}
	if a == ts.False || b == ts.False || ts.isNeg(a, b) {
		return ts.False
	}
	for i := 0; i < 2; i++ {
		if a.op == OAnd {
			if a.a == b || a.b == b {
				return a
			}
			if ts.isNeg(a.a, b) || ts.isNeg(a.b, b) {
				return ts.False
			}
		}
		if a.op == OOr {
			if a.a == b || a.b == b {
				return b
			}
			if ts.isNeg(a.a, b) {
				return ts.And(a.b, b)
			}
			if ts.isNeg(a.b, b) {
				return ts.And(a.a, b)
			}
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.n2(OAnd, 0, a, b)
}

// Or disjoins.
func (ts *TS) Or(a, b *Term) *Term {
	if a == b || b == ts.False {
		return a
	}
	if a == ts.False {
		return b
	}
	if a == ts.True || b == ts.True || ts.isNeg(a, b) {
		return ts.True
	}
	if a.op == OAnd && b.op == OAnd { // (x&y)|(x&!y) = x
		for _, p := range [][4]*Term{{a.a, a.b, b.a, b.b}, {a.a, a.b, b.b, b.a}, {a.b, a.a, b.a, b.b}, {a.b, a.a, b.b, b.a}} {
			if p[0] == p[2] {
				return ts.And(p[0], ts.Or(p[1], p[3]))
			}
		}
	}
	for i := 0; i < 2; i++ {
		if a.op == OOr {
			if a.a == b || a.b == b {
				return a
			}
			if ts.isNeg(a.a, b) || ts.isNeg(a.b, b) {
				return ts.True
			}
		}
		if a.op == OAnd {
			if a.a == b || a.b == b {
				return b
			}
			if ts.isNeg(a.a, b) {
				return ts.Or(a.b, b)
			}
			if ts.isNeg(a.b, b) {
				return ts.Or(a.a, b)
			}
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.n2(OOr, 0, a, b)
}

// Implies is a => b.
func (ts *TS) Implies(a, b *Term) *Term { return ts.Or(ts.Not(a), b) }

// ---------- pieces (concat normal form)

func pieces(t *Term, out []*Term) []*Term {
	for t.op == OConcat {
		out = pieces(t.a, out)
		t = t.b
	}
	return append(out, t)
}

// cat builds a normalised concatenation; first element is the most significant.
func (ts *TS) cat(ps []*Term) *Term {
	out := make([]*Term, 0, len(ps))
	for _, p := range ps {
		if len(out) > 0 {
			q := out[len(out)-1]
			if q.op == OConst && p.op == OConst && int(q.w)+int(p.w) <= 64 {
				out[len(out)-1] = ts.C(q.v<<p.w|p.v, q.w+p.w)
				continue
			}
			// adjacent slices of the same term
			qb, ql := q, uint64(0)
			if q.op == OExtract {
				qb, ql = q.a, q.v
			}
			pb, pl := p, uint64(0)
			if p.op == OExtract {
				pb, pl = p.a, p.v
			}
			if qb == pb && ql == pl+uint64(p.w) && qb.op != OConst {
				out[len(out)-1] = ts.Extract(pb, pl, p.w+q.w)
				continue
			}
			// low part of an arithmetic term, which was computed separately
			if q.op == OExtract && q.v == uint64(p.w) {
				switch q.a.op {
				case OAdd, OSub, OMul, ONeg:
					if ts.Extract(q.a, 0, p.w) == p {
						out[len(out)-1] = ts.Extract(q.a, 0, p.w+q.w)
						continue
					}
				}
			}
		}
		out = append(out, p)
	}
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = ts.n2(OConcat, out[i].w+r.w, out[i], r)
	}
	return r
}

// Concat concatenates (hi, lo).
func (ts *TS) Concat(hi, lo *Term) *Term {
	return ts.cat(pieces(lo, pieces(hi, nil)))
}

// ZExt zero-extends to w.
func (ts *TS) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext")
	}
	if a.isC() {
		return ts.C(a.v, w)
	}
	return ts.Concat(ts.C(0, w-a.w), a)
}

// SExt sign-extends to w.
func (ts *TS) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return ts.C(uint64(int64(a.v<<(64-a.w))>>(64-a.w)), w)
	}
	if a.k0>>(a.w-1)&1 != 0 {
		return ts.ZExt(a, w)
	}
	if a.op == OSExt {
		return ts.SExt(a.a, w)
	}
	return ts.n1(OSExt, w, 0, a)
}

// Extract takes w bits starting at lo.
func (ts *TS) Extract(a *Term, lo uint64, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if lo+uint64(w) > uint64(a.w) {
		panic("extract out of range")
	}
	if a.isC() {
		return ts.C(a.v>>lo, w)
	}
	km := mask(w) << lo
	if (a.k0|a.k1)&km == km {
		return ts.C(a.k1>>lo, w)
	}
	switch a.op {
	case OExtract:
		return ts.Extract(a.a, a.v+lo, w)
	case OConcat:
		ps := pieces(a, nil)
		var out []*Term
		pos := uint64(a.w)
		for _, p := range ps { // msb first
			top := pos
			bot := pos - uint64(p.w)
			pos = bot
			l, h := max(bot, lo), min(top, lo+uint64(w))
			if l < h {
				out = append(out, ts.Extract(p, l-bot, uint8(h-l)))
			}
		}
		return ts.cat(out)
	case OBAnd:
		return ts.BAnd(ts.Extract(a.a, lo, w), ts.Extract(a.b, lo, w))
	case OBOr:
		return ts.BOr(ts.Extract(a.a, lo, w), ts.Extract(a.b, lo, w))
	case OBXor:
		return ts.BXor(ts.Extract(a.a, lo, w), ts.Extract(a.b, lo, w))
	case OBNot:
		return ts.BNot(ts.Extract(a.a, lo, w))
	case OIte:
		if (a.b.isC() || a.c.isC()) || (a.b.op == OConcat && a.c.op == OConcat) {
			return ts.Ite(a.a, ts.Extract(a.b, lo, w), ts.Extract(a.c, lo, w))
		}
	case OAdd:
		if lo == 0 {
			return ts.Add(ts.Extract(a.a, 0, w), ts.Extract(a.b, 0, w))
		}
	case OSub:
		if lo == 0 {
			return ts.Sub(ts.Extract(a.a, 0, w), ts.Extract(a.b, 0, w))
		}
	case OMul:
		if lo == 0 {
			return ts.Mul(ts.Extract(a.a, 0, w), ts.Extract(a.b, 0, w))
		}
	case ONeg:
		if lo == 0 {
			return ts.Neg(ts.Extract(a.a, 0, w))
		}
	case OSExt:
		if lo+uint64(w) <= uint64(a.a.w) {
			return ts.Extract(a.a, lo, w)
		}
		if lo < uint64(a.a.w) {
			return ts.SExt(ts.Extract(a.a, lo, uint8(uint64(a.a.w)-lo)), w)
		}
	}
	return ts.n1(OExtract, w, lo, a)
}

func (ts *TS) lz(a *Term) uint8 { // known leading zero count
	return uint8(bits.LeadingZeros64(^a.k0<<(64-a.w)) & 0x7f)
}

func leadZ(a *Term) uint8 {
	x := (^a.k0) & mask(a.w)
	if x == 0 {
		return a.w
	}
	return a.w - uint8(bits.Len64(x))
}

// ---------- comparisons

// Eq is equality.
func (ts *TS) Eq(a, b *Term) *Term { return ts.eq(a, b, 12) }

func (ts *TS) eq(a, b *Term, depth int) *Term {
	if a == b {
		return ts.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq: widths %d %d", a.w, b.w))
	}
	if a.isC() && b.isC() {
		return ts.B(a.v == b.v)
	}
	if a.w == 0 {
		if b.isC() {
			a, b = b, a
		}
		if a.isC() {
			if a.v != 0 {
				return b
			}
			return ts.Not(b)
		}
		if ts.isNeg(a, b) {
			return ts.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return ts.n2(OEq, 0, a, b)
	}
	if a.k0&b.k1 != 0 || a.k1&b.k0 != 0 || a.lo > b.hi || b.lo > a.hi {
		return ts.False
	}
	if a.isC() {
		a, b = b, a
	}
	// b possibly const
	if a.op == OConcat || b.op == OConcat {
		// split on boundaries
		pa, pb := pieces(a, nil), pieces(b, nil)
		if (b.isC() || b.op == OConcat || len(pa) > 1) && (a.op == OConcat || b.op == OConcat) {
			bd := map[uint64]bool{}
			add := func(ps []*Term, w uint8) {
				p := uint64(w)
				for _, x := range ps {
					p -= uint64(x.w)
					bd[p] = true
				}
			}
			add(pa, a.w)
			add(pb, b.w)
			if len(bd) > 1 && (b.isC() || a.isC() || (a.op == OConcat && b.op == OConcat) || ts.cheapSplit(a) && ts.cheapSplit(b)) {
				bs := make([]uint64, 0, len(bd))
				for k := range bd {
					bs = append(bs, k)
				}
				sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
				r := ts.True
				for i, l := range bs {
					h := uint64(a.w)
					if i+1 < len(bs) {
						h = bs[i+1]
					}
					r = ts.And(r, ts.eq(ts.Extract(a, l, uint8(h-l)), ts.Extract(b, l, uint8(h-l)), depth))
					if r == ts.False {
						return r
					}
				}
				return r
			}
		}
	}
	if b.isC() {
		switch a.op {
		case OIte:
			if depth > 0 {
				x := ts.eq(a.b, b, depth-1)
				y := ts.eq(a.c, b, depth-1)
				if x.isC() || y.isC() {
					return ts.Ite(a.a, x, y)
				}
			}
		case OAdd:
			if a.b.isC() {
				return ts.eq(a.a, ts.C(b.v-a.b.v, a.w), depth)
			}
		case OBXor:
			if a.b.isC() {
				return ts.eq(a.a, ts.C(b.v^a.b.v, a.w), depth)
			}
		case OBNot:
			return ts.eq(a.a, ts.C(^b.v, a.w), depth)
		case OSExt:
			t := ts.Extract(b, 0, a.a.w)
			if ts.SExt(t, a.w) != b {
				return ts.False
			}
			return ts.eq(a.a, t, depth)
		}
	} else {
		if d, ok := apart(a, b, true); ok {
			return ts.B(d == 0)
		}
		if lz := min(leadZ(a), leadZ(b)); lz > 0 && lz < a.w {
			return ts.eq(ts.Extract(a, 0, a.w-lz), ts.Extract(b, 0, a.w-lz), depth)
		}
		if a.op == OAdd && b.op == OAdd && a.b.isC() && b.b.isC() {
			return ts.eq(a.a, ts.Add(b.a, ts.C(b.b.v-a.b.v, a.w)), depth)
		}
		if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
			return ts.eq(a.a, b.a, depth)
		}
		if a.op == OIte && depth > 0 && (a.b == b || a.c == b) {
			if a.b == b {
				return ts.Or(a.a, ts.eq(a.c, b, depth-1))
			}
			return ts.Or(ts.Not(a.a), ts.eq(a.b, b, depth-1))
		}
		if b.op == OIte && depth > 0 && (b.b == a || b.c == a) {
			return ts.eq(b, a, depth)
		}
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return ts.n2(OEq, 0, a, b)
}

func (ts *TS) cheapSplit(a *Term) bool {
	return a.op == OConcat || a.op == OConst || a.op == OVar || a.op == OExtract
}

// Ult is unsigned less-than.
func (ts *TS) Ult(a, b *Term) *Term { return ts.ult(a, b, 10) }

func (ts *TS) ult(a, b *Term, depth int) *Term {
	if a == b {
		return ts.False
	}
	if a.hi < b.lo {
		return ts.True
	}
	if a.lo >= b.hi {
		return ts.False
	}
	if d, ok := apart(a, b, false); ok {
		return ts.B(d < 0)
	}
	if lz := min(leadZ(a), leadZ(b)); lz > 0 && lz < a.w {
		return ts.ult(ts.Extract(a, 0, a.w-lz), ts.Extract(b, 0, a.w-lz), depth)
	}
	if b.isC() && b.v == 1 {
		return ts.Eq(a, ts.C(0, a.w))
	}
	if a.isC() && a.v == 0 {
		return ts.Not(ts.Eq(b, a))
	}
	if b.isC() && b.v == mask(b.w) {
		return ts.Not(ts.Eq(a, b))
	}
	if a.isC() && a.v == mask(b.w)-1 {
		return ts.Eq(b, ts.C(mask(b.w), b.w))
	}
	if depth > 0 {
		if a.op == OIte && b.isC() {
			x, y := ts.ult(a.b, b, depth-1), ts.ult(a.c, b, depth-1)
			if x.isC() || y.isC() {
				return ts.Ite(a.a, x, y)
			}
		}
		if b.op == OIte && a.isC() {
			x, y := ts.ult(a, b.b, depth-1), ts.ult(a, b.c, depth-1)
			if x.isC() || y.isC() {
				return ts.Ite(b.a, x, y)
			}
		}
	}
	return ts.n2(OUlt, 0, a, b)
}

// Ule is unsigned less-or-equal.
func (ts *TS) Ule(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if a.hi <= b.lo {
		return ts.True
	}
	if a.lo > b.hi {
		return ts.False
	}
	if d, ok := apart(a, b, false); ok {
		return ts.B(d <= 0)
	}
	if b.isC() { // a <= c  ==  a < c+1
		if b.v == mask(b.w) {
			return ts.True
		}
		return ts.Ult(a, ts.C(b.v+1, b.w))
	}
	if a.isC() { // c <= b  == !(b < c)
		if a.v == 0 {
			return ts.True
		}
		return ts.Ult(ts.C(a.v-1, a.w), b)
	}
	if lz := min(leadZ(a), leadZ(b)); lz > 0 && lz < a.w {
		return ts.Ule(ts.Extract(a, 0, a.w-lz), ts.Extract(b, 0, a.w-lz))
	}
	return ts.n2(OUle, 0, a, b)
}

func signKnown(a *Term) int { // 0 nonneg, 1 neg, -1 unknown
	sb := uint64(1) << (a.w - 1)
	if a.k0&sb != 0 {
		return 0
	}
	if a.k1&sb != 0 {
		return 1
	}
	return -1
}

func srange(a *Term) (int64, int64) {
	w := a.w
	switch signKnown(a) {
	case 0:
		return int64(a.lo), int64(a.hi)
	case 1:
		return int64(a.lo<<(64-w)) >> (64 - w), int64(a.hi<<(64-w)) >> (64 - w)
	}
	switch a.op {
	case OSExt:
		return srange(a.a)
	case OIte:
		l1, h1 := srange(a.b)
		l2, h2 := srange(a.c)
		return min(l1, l2), max(h1, h2)
	case OMul:
		if a.b.isC() && a.b.v <= 1<<20 {
			l1, h1 := srange1(a.a)
			c := int64(a.b.v)
			if l1 > -(1<<40) && h1 < 1<<40 && fitsS(l1*c, w) && fitsS(h1*c, w) {
				return l1 * c, h1 * c
			}
		}
	case OSub:
		l1, h1 := srange1(a.a)
		l2, h2 := srange1(a.b)
		l, h := l1-h2, h1-l2
		if l1 > -(1<<61) && h1 < 1<<61 && l2 > -(1<<61) && h2 < 1<<61 && fitsS(l, w) && fitsS(h, w) {
			return l, h
		}
	case OAdd:
		l1, h1 := srange1(a.a)
		l2, h2 := srange1(a.b)
		l, h := l1+l2, h1+h2
		if l1 > -(1<<61) && h1 < 1<<61 && l2 > -(1<<61) && h2 < 1<<61 && fitsS(l, w) && fitsS(h, w) {
			return l, h
		}
	}
	return -1 << (w - 1), int64(mask(w - 1))
}

func srange1(a *Term) (int64, int64) { // shallow
	switch signKnown(a) {
	case 0:
		return int64(a.lo), int64(a.hi)
	case 1:
		return int64(a.lo<<(64-a.w)) >> (64 - a.w), int64(a.hi<<(64-a.w)) >> (64 - a.w)
	}
	if a.op == OSExt {
		return -1 << (a.a.w - 1), int64(mask(a.a.w - 1))
	}
	if a.op == OAdd && signKnown(a.a) == 0 && a.b.op == OSExt && a.a.hi < 1<<61 && a.b.a.w < 60 {
		l, h := int64(a.a.lo)+(-1<<(a.b.a.w-1)), int64(a.a.hi)+int64(mask(a.b.a.w-1))
		if fitsS(l, a.w) && fitsS(h, a.w) {
			return l, h
		}
	}
	if a.op == OSub && signKnown(a.a) == 0 && signKnown(a.b) == 0 {
		l, h := int64(a.a.lo)-int64(a.b.hi), int64(a.a.hi)-int64(a.b.lo)
		if fitsS(l, a.w) && fitsS(h, a.w) && a.a.hi < 1<<61 && a.b.hi < 1<<61 {
			return l, h
		}
	}
	return -1 << (a.w - 1), int64(mask(a.w - 1))
}

func fitsS(v int64, w uint8) bool {
	if w >= 64 {
		return true
	}
	return v >= -1<<(w-1) && v < 1<<(w-1)
}

// base decomposes a into an atom plus a constant, as integers: the value of a (signed or unsigned) is exactly that of the
// atom (unsigned, unless the returned flag is true) plus the constant.
func base(a *Term, signed bool) (*Term, bool, int64) {
	var k int64
	for n := 0; n < 40; n++ {
		if signed && signKnown(a) == 0 {
			signed = false
		}
		switch {
		case a.op == OAdd && a.b.isC() && !signed && a.a.hi <= mask(a.w)-a.b.v && a.b.v < 1<<60:
			k += int64(a.b.v)
			a = a.a
		case a.op == OAdd && a.b.isC() && signed:
			c := sx(a.b.v, a.w)
			l, h := srange1(a.a)
			if c < -(1<<60) || c > 1<<60 || l < -(1<<61) || h > 1<<61 || !fitsS(l+c, a.w) || !fitsS(h+c, a.w) {
				return a, signed, k
			}
			k += c
			a = a.a
		case a.op == OConcat && !signed && a.a.isC() && a.a.v == 0:
			a = a.b
		case a.op == OSExt && signed:
			a = a.a
		default:
			return a, signed, k
		}
		if k > 1<<61 || k < -(1<<61) {
			return a, signed, k
		}
	}
	return a, signed, k
}

// apart returns the difference between a and b, as integers, when it is constant.
func apart(a, b *Term, signed bool) (int64, bool) {
	if a.op != OAdd && b.op != OAdd && a.op != OConcat && b.op != OConcat {
		return 0, false
	}
	x, sx1, k1 := base(a, signed)
	y, sy1, k2 := base(b, signed)
	if x != y || sx1 != sy1 || x.isC() {
		return 0, false
	}
	return k1 - k2, true
}

// Slt is signed less-than.
func (ts *TS) Slt(a, b *Term) *Term {
	if a == b {
		return ts.False
	}
	if d, ok := apart(a, b, true); ok {
		return ts.B(d < 0)
	}
	sa, sb := signKnown(a), signKnown(b)
	if sa >= 0 && sb >= 0 {
		if sa == sb {
			return ts.Ult(a, b)
		}
		return ts.B(sa == 1)
	}
	al, ah := srange(a)
	bl, bh := srange(b)
	if ah < bl {
		return ts.True
	}
	if al >= bh {
		return ts.False
	}
	if a.op == OIte && b.isC() {
		x, y := ts.Slt(a.b, b), ts.Slt(a.c, b)
		if x.isC() || y.isC() {
			return ts.Ite(a.a, x, y)
		}
	}
	if b.op == OIte && a.isC() {
		x, y := ts.Slt(a, b.b), ts.Slt(a, b.c)
		if x.isC() || y.isC() {
			return ts.Ite(b.a, x, y)
		}
	}
	// narrow: a - b < 0 with nonneg a,b  =>  a < b
	if b.isC() && b.v == 0 && a.op == OSub && signKnown(a.a) == 0 && signKnown(a.b) == 0 {
		return ts.Ult(a.a, a.b)
	}
	return ts.n2(OSlt, 0, a, b)
}

// Sle is signed less-or-equal.
func (ts *TS) Sle(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if d, ok := apart(a, b, true); ok {
		return ts.B(d <= 0)
	}
	sa, sb := signKnown(a), signKnown(b)
	if sa >= 0 && sb >= 0 {
		if sa == sb {
			return ts.Ule(a, b)
		}
		return ts.B(sa == 1)
	}
	al, ah := srange(a)
	bl, bh := srange(b)
	if ah <= bl {
		return ts.True
	}
	if al > bh {
		return ts.False
	}
	if a.isC() && a.v == 0 && b.op == OSub && signKnown(b.a) == 0 && signKnown(b.b) == 0 {
		return ts.Ule(b.b, b.a)
	}
	return ts.n2(OSle, 0, a, b)
}

// ---------- ite

// Ite is if-then-else.
func (ts *TS) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.v != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite: widths %d %d", a.w, b.w))
	}
	if c.op == ONot {
		return ts.Ite(c.a, b, a)
	}
	if a.op == OIte && a.a == c {
		return ts.Ite(c, a.b, b)
	}
	if b.op == OIte && b.a == c {
		return ts.Ite(c, a, b.c)
	}
	if a.w == 0 {
		if a == ts.True {
			return ts.Or(c, b)
		}
		if a == ts.False {
			return ts.And(ts.Not(c), b)
		}
		if b == ts.True {
			return ts.Or(ts.Not(c), a)
		}
		if b == ts.False {
			return ts.And(c, a)
		}
		if a == c {
			return ts.Or(c, b)
		}
		if b == c {
			return ts.And(c, a)
		}
		return ts.n3(OIte, 0, c, a, b)
	}
	// nested ites sharing a leaf
	if b.op == OIte && b.b == a { // ite(c, a, ite(d, a, e)) = ite(c|d, a, e)
		return ts.Ite(ts.Or(c, b.a), a, b.c)
	}
	if b.op == OIte && b.c == a {
		return ts.Ite(ts.And(ts.Not(c), b.a), b.b, a)
	}
	if a.op == OIte && a.c == b {
		return ts.Ite(ts.And(c, a.a), a.b, b)
	}
	if a.op == OIte && a.b == b {
		return ts.Ite(ts.And(c, ts.Not(a.a)), a.c, b)
	}
	if lz := min(leadZ(a), leadZ(b)); lz > 0 && lz < a.w {
		return ts.Concat(ts.C(0, lz), ts.Ite(c, ts.Extract(a, 0, a.w-lz), ts.Extract(b, 0, a.w-lz)))
	}
	if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w && (a.a == b.a || a.b == b.b) {
		return ts.Concat(ts.Ite(c, a.a, b.a), ts.Ite(c, a.b, b.b))
	}
	return ts.n3(OIte, a.w, c, a, b)
}

// ---------- arithmetic

func (ts *TS) narrowW(hi uint64, w uint8) uint8 {
	n := uint8(bits.Len64(hi))
	if n == 0 {
		n = 1
	}
	return n
}

// Add adds.
func (ts *TS) Add(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	w := a.w
	if b.isC() {
		if a.isC() {
			return ts.C(a.v+b.v, w)
		}
		if b.v == 0 {
			return a
		}
		if a.op == OAdd && a.b.isC() {
			return ts.Add(a.a, ts.C(a.b.v+b.v, w))
		}
		if a.op == OSub && a.a.isC() { // (c1 - x) + c2
			return ts.Sub(ts.C(a.a.v+b.v, w), a.b)
		}
		if a.op == OIte && a.b.isC() && a.c.isC() {
			return ts.Ite(a.a, ts.C(a.b.v+b.v, w), ts.C(a.c.v+b.v, w))
		}
	}
	if a.op == OAdd && a.b.isC() && !b.isC() {
		return ts.Add(ts.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.isC() {
		return ts.Add(ts.Add(a, b.a), b.b)
	}
	if b.op == OSub && b.b == a { // a + (x - a)
		return b.a
	}
	if a.op == OSub && a.b == b {
		return a.a
	}
	if (a.k0|b.k0)&mask(w) == mask(w) {
		return ts.BOr(a, b)
	}
	// narrowing
	s, c := bits.Add64(a.hi, b.hi, 0)
	if c == 0 && s <= mask(w) {
		nw := ts.narrowW(s, w)
		if nw < w {
			return ts.Concat(ts.C(0, w-nw), ts.Add(ts.Extract(a, 0, nw), ts.Extract(b, 0, nw)))
		}
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return ts.fold(ts.n2(OAdd, w, a, b))
}

// Sub subtracts.
func (ts *TS) Sub(a, b *Term) *Term {
	w := a.w
	if a == b {
		return ts.C(0, w)
	}
	if b.isC() {
		return ts.Add(a, ts.C(-b.v, w))
	}
	if d, ok := apart(a, b, true); ok {
		return ts.C(uint64(d), w)
	}
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		if a.b.isC() {
			return ts.Add(ts.Sub(a.a, b), a.b)
		}
	}
	if b.op == OAdd {
		if b.a == a {
			return ts.Neg(b.b)
		}
		if b.b == a {
			return ts.Neg(b.a)
		}
		if b.b.isC() {
			return ts.Add(ts.Sub(a, b.a), ts.C(-b.b.v, w))
		}
	}
	if a.lo >= b.hi {
		nw := ts.narrowW(a.hi, w)
		if nw < w {
			return ts.Concat(ts.C(0, w-nw), ts.Sub(ts.Extract(a, 0, nw), ts.Extract(b, 0, nw)))
		}
	}
	return ts.fold(ts.n2(OSub, w, a, b))
}

// Neg negates.
func (ts *TS) Neg(a *Term) *Term {
	if a.isC() {
		return ts.C(-a.v, a.w)
	}
	if a.op == ONeg {
		return a.a
	}
	if a.op == OSub {
		return ts.Sub(a.b, a.a)
	}
	return ts.n1(ONeg, a.w, 0, a)
}

// Mul multiplies.
func (ts *TS) Mul(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	w := a.w
	if b.isC() {
		if a.isC() {
			return ts.C(a.v*b.v, w)
		}
		if b.v == 0 {
			return b
		}
		if b.v == 1 {
			return a
		}
		if b.v&(b.v-1) == 0 {
			return ts.Shl(a, ts.C(uint64(bits.TrailingZeros64(b.v)), w))
		}
		if a.op == OMul && a.b.isC() {
			return ts.Mul(a.a, ts.C(a.b.v*b.v, w))
		}
		if a.op == OIte && a.b.isC() && a.c.isC() {
			return ts.Ite(a.a, ts.C(a.b.v*b.v, w), ts.C(a.c.v*b.v, w))
		}
	}
	h, l := bits.Mul64(a.hi, b.hi)
	if h == 0 && l <= mask(w) {
		nw := ts.narrowW(l, w)
		if nw < w {
			return ts.Concat(ts.C(0, w-nw), ts.Mul(ts.Extract(a, 0, nw), ts.Extract(b, 0, nw)))
		}
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	t := ts.n2(OMul, w, a, b)
	t.hard = true
	return ts.fold(t)
}

// Udiv divides unsigned.
func (ts *TS) Udiv(a, b *Term) *Term {
	w := a.w
	if b.isC() && b.v != 0 {
		if a.isC() {
			return ts.C(a.v/b.v, w)
		}
		if b.v&(b.v-1) == 0 {
			return ts.Lshr(a, ts.C(uint64(bits.TrailingZeros64(b.v)), w))
		}
		if a.op == OMul && a.b.isC() && a.b.v > 1 {
			if h, l := bits.Mul64(a.a.hi, a.b.v); h == 0 && l <= mask(w) {
				if g := gcd(a.b.v, b.v); g > 1 {
					return ts.Udiv(ts.Mul(a.a, ts.C(a.b.v/g, w)), ts.C(b.v/g, w))
				}
			}
		}
	}
	if b.isC() && b.v == 1 {
		return a
	}
	if b.lo > 0 {
		nw := max(ts.narrowW(a.hi, w), ts.narrowW(b.hi, w))
		if nw < w {
			return ts.Concat(ts.C(0, w-nw), ts.Udiv(ts.Extract(a, 0, nw), ts.Extract(b, 0, nw)))
		}
	}
	t := ts.n2(OUdiv, w, a, b)
	t.hard = true
	return ts.fold(t)
}

// Urem is unsigned remainder.
func (ts *TS) Urem(a, b *Term) *Term {
	w := a.w
	if b.isC() && b.v != 0 {
		if a.isC() {
			return ts.C(a.v%b.v, w)
		}
		if b.v&(b.v-1) == 0 {
			return ts.BAnd(a, ts.C(b.v-1, w))
		}
	}
	if a.hi < b.lo {
		return a
	}
	if b.lo > 0 {
		nw := max(ts.narrowW(a.hi, w), ts.narrowW(b.hi, w))
		if nw < w {
			return ts.Concat(ts.C(0, w-nw), ts.Urem(ts.Extract(a, 0, nw), ts.Extract(b, 0, nw)))
		}
	}
	t := ts.n2(OUrem, w, a, b)
	t.hard = true
	return ts.fold(t)
}

func sx(v uint64, w uint8) int64 { return int64(v<<(64-w)) >> (64 - w) }

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// uncover clears the bits of a that are zero because a is not greater than hi.
func (ts *TS) uncover(a *Term, hi uint64) *Term {
	if nw := ts.narrowW(hi, a.w); nw < a.w {
		return ts.Concat(ts.C(0, a.w-nw), ts.Extract(a, 0, nw))
	}
	return a
}

// Sdiv divides signed (Go semantics, divisor assumed nonzero).
func (ts *TS) Sdiv(a, b *Term) *Term {
	if signKnown(a) == 0 && signKnown(b) == 0 {
		return ts.Udiv(a, b)
	}
	if a.isC() && b.isC() && b.v != 0 {
		x, y := sx(a.v, a.w), sx(b.v, b.w)
		if y == -1 {
			return ts.C(uint64(-x), a.w)
		}
		return ts.C(uint64(x/y), a.w)
	}
	if b.isC() && b.v < 1<<40 && signKnown(b) == 0 && b.v > 0 {
		if b.v == 1 {
			return a
		}
		if a.op == OMul && a.b.isC() && a.b.v > 1 && a.b.v <= 1<<20 {
			c := int64(a.b.v)
			if l1, h1 := srange1(a.a); l1 > -(1<<40) && h1 < 1<<40 && fitsS(l1*c, a.w) && fitsS(h1*c, a.w) {
				if g := gcd(a.b.v, b.v); g > 1 {
					return ts.Sdiv(ts.Mul(a.a, ts.C(a.b.v/g, a.w)), ts.C(b.v/g, a.w))
				}
			}
		}
		l, h := srange(a)
		if l >= 0 {
			return ts.Udiv(ts.uncover(a, uint64(h)), b)
		}
		if l > -(1<<62) && h < 1<<62 {
			nw := uint8(bits.Len64(uint64(max(-l, h, int64(b.v))))) + 1
			if nw < a.w {
				return ts.SExt(ts.Sdiv(ts.Extract(a, 0, nw), ts.Extract(b, 0, nw)), a.w)
			}
		}
	}
	t := ts.n2(OSdiv, a.w, a, b)
	t.hard = true
	return t
}

// Srem is signed remainder.
func (ts *TS) Srem(a, b *Term) *Term {
	if signKnown(a) == 0 && signKnown(b) == 0 {
		return ts.Urem(a, b)
	}
	if a.isC() && b.isC() && b.v != 0 {
		x, y := sx(a.v, a.w), sx(b.v, b.w)
		if y == -1 {
			return ts.C(0, a.w)
		}
		return ts.C(uint64(x%y), a.w)
	}
	t := ts.n2(OSrem, a.w, a, b)
	t.hard = true
	return t
}

// ---------- bitwise

func runsOf(m uint64, w uint8) [][2]uint8 { // [lo,width] runs of ones, low first
	var out [][2]uint8
	i := uint8(0)
	for i < w {
		if m>>i&1 == 0 {
			i++
			continue
		}
		j := i
		for j < w && m>>j&1 == 1 {
			j++
		}
		out = append(out, [2]uint8{i, j - i})
		i = j
	}
	return out
}

// BAnd is bitwise and.
func (ts *TS) BAnd(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	w := a.w
	if a == b {
		return a
	}
	if b.isC() {
		if a.isC() {
			return ts.C(a.v&b.v, w)
		}
		m := b.v &^ a.k0 // bits that can matter
		if m == 0 {
			return ts.C(0, w)
		}
		if (^b.v&mask(w))&^a.k0 == 0 {
			return a
		}
		rs := runsOf(b.v, w)
		if len(rs) <= 4 {
			var ps []*Term
			pos := w
			for i := len(rs) - 1; i >= 0; i-- {
				l, n := rs[i][0], rs[i][1]
				if pos > l+n {
					ps = append(ps, ts.C(0, pos-l-n))
				}
				ps = append(ps, pieces(ts.Extract(a, uint64(l), n), nil)...)
				pos = l
			}
			if pos > 0 {
				ps = append(ps, ts.C(0, pos))
			}
			return ts.cat(ps)
		}
	}
	if (a.k0|b.k0)&mask(w) == mask(w) {
		return ts.C(0, w)
	}
	if lz := max(leadZ(a), leadZ(b)); lz > 0 && lz < w {
		return ts.Concat(ts.C(0, lz), ts.BAnd(ts.Extract(a, 0, w-lz), ts.Extract(b, 0, w-lz)))
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return ts.fold(ts.n2(OBAnd, w, a, b))
}

// BOr is bitwise or.
func (ts *TS) BOr(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	w := a.w
	if a == b {
		return a
	}
	if b.isC() {
		if a.isC() {
			return ts.C(a.v|b.v, w)
		}
		if b.v == 0 {
			return a
		}
		if b.v&^a.k1 == 0 {
			return a
		}
		// split by constant runs
		rs := runsOf(b.v, w)
		if len(rs) <= 4 {
			var ps []*Term
			pos := w
			for i := len(rs) - 1; i >= 0; i-- {
				l, n := rs[i][0], rs[i][1]
				if pos > l+n {
					ps = append(ps, pieces(ts.Extract(a, uint64(l+n), pos-l-n), nil)...)
				}
				ps = append(ps, ts.C(mask(n), n))
				pos = l
			}
			if pos > 0 {
				ps = append(ps, pieces(ts.Extract(a, 0, pos), nil)...)
			}
			return ts.cat(ps)
		}
	}
	if a.op == OConcat || b.op == OConcat {
		// segment-wise: each segment where one side is constant is resolved
		bd := []uint64{}
		for _, t := range []*Term{a, b} {
			p := uint64(w)
			for _, x := range pieces(t, nil) {
				p -= uint64(x.w)
				bd = append(bd, p)
			}
		}
		sort.Slice(bd, func(i, j int) bool { return bd[i] > bd[j] })
		var ps []*Term
		pos := uint64(w)
		ok := true
		for _, l := range bd {
			if l == pos {
				continue
			}
			n := uint8(pos - l)
			x, y := ts.Extract(a, l, n), ts.Extract(b, l, n)
			pos = l
			switch {
			case x == y:
				ps = append(ps, pieces(x, nil)...)
			case x.isC() && x.v == 0:
				ps = append(ps, pieces(y, nil)...)
			case y.isC() && y.v == 0:
				ps = append(ps, pieces(x, nil)...)
			case x.isC() && x.v == mask(n), y.isC() && y.v == mask(n):
				ps = append(ps, ts.C(mask(n), n))
			case x.op == OConcat || y.op == OConcat || n == w:
				ok = false
			default:
				if x.id > y.id {
					x, y = y, x
				}
				ps = append(ps, ts.n2(OBOr, n, x, y))
			}
			if !ok {
				break
			}
		}
		if ok {
			return ts.cat(ps)
		}
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return ts.fold(ts.n2(OBOr, w, a, b))
}

// BXor is bitwise xor.
func (ts *TS) BXor(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	w := a.w
	if a == b {
		return ts.C(0, w)
	}
	if b.isC() {
		if a.isC() {
			return ts.C(a.v^b.v, w)
		}
		if b.v == 0 {
			return a
		}
		if b.v == mask(w) {
			return ts.BNot(a)
		}
		if a.op == OBXor && a.b.isC() {
			return ts.BXor(a.a, ts.C(a.b.v^b.v, w))
		}
	}
	if (a.k0|b.k0)&mask(w) == mask(w) {
		return ts.BOr(a, b)
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return ts.fold(ts.n2(OBXor, w, a, b))
}

// BNot is bitwise not.
func (ts *TS) BNot(a *Term) *Term {
	if a.isC() {
		return ts.C(^a.v, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	if a.op == OConcat {
		var ps []*Term
		for _, p := range pieces(a, nil) {
			ps = append(ps, ts.BNot(p))
		}
		return ts.cat(ps)
	}
	return ts.n1(OBNot, a.w, 0, a)
}

// Shl shifts left; amount has the same width; >= width gives 0.
func (ts *TS) Shl(a, b *Term) *Term {
	w := a.w
	if b.isC() {
		if b.v >= uint64(w) {
			return ts.C(0, w)
		}
		if b.v == 0 {
			return a
		}
		return ts.Concat(ts.Extract(a, 0, w-uint8(b.v)), ts.C(0, uint8(b.v)))
	}
	if a.isC() && a.v == 0 {
		return a
	}
	if b.lo >= uint64(w) {
		return ts.C(0, w)
	}
	if t := ts.shiftIte(a, b, ts.Shl); t != nil {
		return t
	}
	return ts.fold(ts.n2(OShl, w, a, b))
}

func constLeaves(t *Term, n int) int {
	if t.isC() {
		return 1
	}
	if t.op == OIte && n > 1 {
		l := constLeaves(t.b, n-1)
		if l == 0 {
			return 0
		}
		r := constLeaves(t.c, n-l)
		if r == 0 || l+r > n {
			return 0
		}
		return l + r
	}
	return 0
}

func (ts *TS) shiftIte(a, b *Term, f func(a, b *Term) *Term) *Term {
	core := b
	pad := uint8(0)
	if b.op == OConcat && b.a.isC() && b.a.v == 0 {
		core = b.b
		pad = b.a.w
	}
	if core.op == OIte && constLeaves(core, 8) > 0 {
		x, y := core.b, core.c
		if pad > 0 {
			x, y = ts.ZExt(x, b.w), ts.ZExt(y, b.w)
		}
		return ts.Ite(core.a, f(a, x), f(a, y))
	}
	return nil
}

// Lshr shifts right logically.
func (ts *TS) Lshr(a, b *Term) *Term {
	w := a.w
	if b.isC() {
		if b.v >= uint64(w) {
			return ts.C(0, w)
		}
		if b.v == 0 {
			return a
		}
		return ts.Concat(ts.C(0, uint8(b.v)), ts.Extract(a, b.v, w-uint8(b.v)))
	}
	if a.isC() && a.v == 0 {
		return a
	}
	if t := ts.shiftIte(a, b, ts.Lshr); t != nil {
		return t
	}
	return ts.fold(ts.n2(OLshr, w, a, b))
}

// Ashr shifts right arithmetically.
func (ts *TS) Ashr(a, b *Term) *Term {
	w := a.w
	if signKnown(a) == 0 {
		return ts.Lshr(a, b)
	}
	if b.isC() {
		n := b.v
		if n >= uint64(w) {
			n = uint64(w) - 1
		}
		if n == 0 {
			return a
		}
		return ts.SExt(ts.Extract(a, n, w-uint8(n)), w)
	}
	if t := ts.shiftIte(a, b, ts.Ashr); t != nil {
		return t
	}
	return ts.fold(ts.n2(OAshr, w, a, b))
}

// ---------- evaluation

// Model is an assignment to variables, with a memo of evaluated terms.
type Model struct {
	vals map[int]uint64 // var index -> value (default 0)
	memo map[int32]uint64
	// terms that share no variable with chg evaluate as under up
	up    *Model
	chg   []uint64
	depth int
}

func newModel() *Model { return &Model{vals: map[int]uint64{}, memo: map[int32]uint64{}} }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Eval evaluates a term.
func (m *Model) Eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.v
	case OVar:
		return m.vals[int(t.v)] & maskB(t.w)
	}
	if v, ok := m.memo[t.id]; ok {
		return v
	}
	if m.up != nil && !vsOverlap(t.vs, m.chg) {
		return m.up.Eval(t)
	}
	var r uint64
	w := t.w
	switch t.op {
	case ONot:
		r = 1 - m.Eval(t.a)
	case OAnd:
		r = m.Eval(t.a)
		if r != 0 {
			r = m.Eval(t.b)
		}
	case OOr:
		r = m.Eval(t.a)
		if r == 0 {
			r = m.Eval(t.b)
		}
	case OIte:
		if m.Eval(t.a) != 0 {
			r = m.Eval(t.b)
		} else {
			r = m.Eval(t.c)
		}
	case OExtract:
		r = m.Eval(t.a) >> t.v
	case OConcat:
		r = m.Eval(t.a)<<t.b.w | m.Eval(t.b)
	case OSExt:
		r = uint64(sx(m.Eval(t.a), t.a.w))
	case OBNot:
		r = ^m.Eval(t.a)
	case ONeg:
		r = -m.Eval(t.a)
	default:
		x, y := m.Eval(t.a), m.Eval(t.b)
		switch t.op {
		case OEq:
			r = b2u(x == y)
		case OUlt:
			r = b2u(x < y)
		case OUle:
			r = b2u(x <= y)
		case OSlt:
			r = b2u(sx(x, t.a.w) < sx(y, t.a.w))
		case OSle:
			r = b2u(sx(x, t.a.w) <= sx(y, t.a.w))
		case OAdd:
			r = x + y
		case OSub:
			r = x - y
		case OMul:
			r = x * y
		case OUdiv:
			if y == 0 {
				r = ^uint64(0)
			} else {
				r = x / y
			}
		case OUrem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OSdiv:
			sxx, sy := sx(x, w), sx(y, w)
			switch {
			case sy == 0:
				if sxx < 0 {
					r = 1
				} else {
					r = ^uint64(0)
				}
			case sy == -1:
				r = uint64(-sxx)
			default:
				r = uint64(sxx / sy)
			}
		case OSrem:
			sxx, sy := sx(x, w), sx(y, w)
			switch {
			case sy == 0:
				r = x
			case sy == -1:
				r = 0
			default:
				r = uint64(sxx % sy)
			}
		case OBAnd:
			r = x & y
		case OBOr:
			r = x | y
		case OBXor:
			r = x ^ y
		case OShl:
			if y < uint64(w) {
				r = x << y
			}
		case OLshr:
			if y < uint64(w) {
				r = x >> y
			}
		case OAshr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			r = uint64(sx(x, w) >> y)
		default:
			panic("eval " + opNames[t.op])
		}
	}
	r &= maskB(w)
	m.memo[t.id] = r
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// String prints a term (debugging).
func (t *Term) String() string {
	return t.str(6)
}

func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.v != 0)
		}
		return fmt.Sprintf("%d:%d", t.v, t.w)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	if t.op == OExtract {
		fmt.Fprintf(&sb, "[%d+%d]", t.v, t.w)
	}
	if t.op == OSExt {
		fmt.Fprintf(&sb, "[%d]", t.w)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" " + x.str(d-1))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
