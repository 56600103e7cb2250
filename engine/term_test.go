package main

import (
	"math/rand"
	"testing"
)

// TestTerms compares the simplifications of term constructors with plain evaluation, on random expressions.
func TestTerms(t *testing.T) {
	const K = 24
	for round := 0; round < 4000; round++ {
		rnd := rand.New(rand.NewSource(int64(round)))
		ts := NewTS()
		type ent struct {
			t *Term
			v [K]uint64
		}
		var models [K]*Model
		for k := range models {
			models[k] = newModel()
		}
		pool := map[uint8][]ent{}
		ws := []uint8{0, 1, 8, 13, 16, 32, 64}
		add := func(e ent) {
			for k := range e.v {
				w := e.t.w
				e.v[k] &= maskB(w)
				if g := models[k].Eval(e.t) & maskB(w); g != e.v[k] {
					t.Fatalf("round %d: op %v width %d: %d instead of %d", round, e.t.op, w, g, e.v[k])
				}
				if w > 0 {
					v := e.v[k]
					if v&e.t.k0 != 0 || ^v&e.t.k1 != 0 || v < e.t.lo || v > e.t.hi {
						t.Fatalf("round %d: op %v: known bits or range are wrong", round, e.t.op)
					}
					if l, h := srange(e.t); sx(v, w) < l || sx(v, w) > h {
						t.Fatalf("round %d: op %v: signed range is wrong", round, e.t.op)
					}
				}
			}
			pool[e.t.w] = append(pool[e.t.w], e)
		}
		for _, w := range ws[1:] {
			for i := 0; i < 2; i++ {
				e := ent{t: ts.Var(string(rune('a'+i))+string(rune('A'+w)), w)}
				for k := range e.v {
					v := rnd.Uint64()
					switch rnd.Intn(4) {
					case 0:
						v = uint64(rnd.Intn(5)) - 2
					case 1:
						v = 1<<(w-1) + uint64(rnd.Intn(3)) - 1
					}
					e.v[k] = v & mask(w)
					models[k].vals[int(e.t.v)] = e.v[k]
				}
				add(e)
			}
			cs := []uint64{0, 1, 2, 3, 1000, 48000, mask(w), 1 << (w - 1), rnd.Uint64()}
			for i := 0; i < 3; i++ {
				c := cs[rnd.Intn(len(cs))] & mask(w)
				e := ent{t: ts.C(c, w)}
				for k := range e.v {
					e.v[k] = c
				}
				add(e)
			}
		}
		pick := func(w uint8) ent {
			p := pool[w]
			if len(p) == 0 {
				return ent{t: ts.True, v: [K]uint64{1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}}
			}
			if rnd.Intn(2) == 0 {
				return p[len(p)-1-rnd.Intn(min(3, len(p)))]
			}
			return p[rnd.Intn(len(p))]
		}
		for step := 0; step < 60; step++ {
			w := ws[1+rnd.Intn(len(ws)-1)]
			a, b := pick(w), pick(w)
			var e ent
			set := func(f func(x, y uint64) uint64) {
				for k := range e.v {
					e.v[k] = f(a.v[k], b.v[k])
				}
			}
			sgn := func(x uint64) int64 { return sx(x, w) }
			switch rnd.Intn(24) {
			case 0:
				e.t = ts.Add(a.t, b.t)
				set(func(x, y uint64) uint64 { return x + y })
			case 1:
				e.t = ts.Sub(a.t, b.t)
				set(func(x, y uint64) uint64 { return x - y })
			case 2:
				e.t = ts.Mul(a.t, b.t)
				set(func(x, y uint64) uint64 { return x * y })
			case 3, 4:
				y := uint64(1 + rnd.Intn(100000))
				y &= mask(w)
				if y == 0 {
					continue
				}
				b = ent{t: ts.C(y, w)}
				for k := range b.v {
					b.v[k] = y
				}
				if rnd.Intn(2) == 0 {
					c := uint64(rnd.Intn(2000)) & mask(w)
					a.t = ts.Mul(a.t, ts.C(c, w))
					for k := range a.v {
						a.v[k] = a.v[k] * c & mask(w)
					}
				}
				switch rnd.Intn(4) {
				case 0:
					e.t = ts.Udiv(a.t, b.t)
					set(func(x, y uint64) uint64 { return x / y })
				case 1:
					e.t = ts.Urem(a.t, b.t)
					set(func(x, y uint64) uint64 { return x % y })
				case 2:
					e.t = ts.Sdiv(a.t, b.t)
					set(func(x, y uint64) uint64 {
						if sgn(y) == -1 {
							return -x
						}
						return uint64(sgn(x) / sgn(y))
					})
				default:
					e.t = ts.Srem(a.t, b.t)
					set(func(x, y uint64) uint64 {
						if sgn(y) == -1 {
							return 0
						}
						return uint64(sgn(x) % sgn(y))
					})
				}
			case 5:
				e.t = ts.BAnd(a.t, b.t)
				set(func(x, y uint64) uint64 { return x & y })
			case 6:
				e.t = ts.BOr(a.t, b.t)
				set(func(x, y uint64) uint64 { return x | y })
			case 7:
				e.t = ts.BXor(a.t, b.t)
				set(func(x, y uint64) uint64 { return x ^ y })
			case 8:
				e.t = ts.BNot(a.t)
				set(func(x, y uint64) uint64 { return ^x })
			case 9:
				e.t = ts.Neg(a.t)
				set(func(x, y uint64) uint64 { return -x })
			case 10, 11, 12:
				if rnd.Intn(2) == 0 {
					s := uint64(rnd.Intn(int(w) + 1))
					if s > mask(w) {
						continue
					}
					b = ent{t: ts.C(s, w)}
					for k := range b.v {
						b.v[k] = s
					}
				}
				switch rnd.Intn(3) {
				case 0:
					e.t = ts.Shl(a.t, b.t)
					set(func(x, y uint64) uint64 {
						if y >= uint64(w) {
							return 0
						}
						return x << y
					})
				case 1:
					e.t = ts.Lshr(a.t, b.t)
					set(func(x, y uint64) uint64 {
						if y >= uint64(w) {
							return 0
						}
						return x >> y
					})
				default:
					e.t = ts.Ashr(a.t, b.t)
					set(func(x, y uint64) uint64 {
						return uint64(sgn(x) >> min(y, 63))
					})
				}
			case 13:
				lo := uint64(rnd.Intn(int(w)))
				n := uint8(1 + rnd.Intn(int(w)-int(lo)))
				e.t = ts.Extract(a.t, lo, n)
				set(func(x, y uint64) uint64 { return x >> lo & mask(n) })
			case 14:
				b = pick(ws[1+rnd.Intn(len(ws)-1)])
				if w+b.t.w > 64 {
					continue
				}
				e.t = ts.Concat(a.t, b.t)
				set(func(x, y uint64) uint64 { return x<<b.t.w | y })
			case 15:
				n := w + uint8(rnd.Intn(65-int(w)))
				e.t = ts.SExt(a.t, n)
				set(func(x, y uint64) uint64 { return uint64(sgn(x)) & mask(n) })
			case 16:
				n := w + uint8(rnd.Intn(65-int(w)))
				e.t = ts.ZExt(a.t, n)
				set(func(x, y uint64) uint64 { return x })
			case 17, 18:
				c := pick(0)
				e.t = ts.Ite(c.t, a.t, b.t)
				for k := range e.v {
					e.v[k] = b.v[k]
					if c.v[k] != 0 {
						e.v[k] = a.v[k]
					}
				}
			case 19:
				e.t = ts.Eq(a.t, b.t)
				set(func(x, y uint64) uint64 { return b2u(x == y) })
			case 20:
				e.t = ts.Ult(a.t, b.t)
				set(func(x, y uint64) uint64 { return b2u(x < y) })
				if rnd.Intn(2) == 0 {
					e.t = ts.Ule(a.t, b.t)
					set(func(x, y uint64) uint64 { return b2u(x <= y) })
				}
			case 21:
				e.t = ts.Slt(a.t, b.t)
				set(func(x, y uint64) uint64 { return b2u(sgn(x) < sgn(y)) })
				if rnd.Intn(2) == 0 {
					e.t = ts.Sle(a.t, b.t)
					set(func(x, y uint64) uint64 { return b2u(sgn(x) <= sgn(y)) })
				}
			default:
				a, b = pick(0), pick(0)
				switch rnd.Intn(3) {
				case 0:
					e.t = ts.And(a.t, b.t)
					set(func(x, y uint64) uint64 { return x & y })
				case 1:
					e.t = ts.Or(a.t, b.t)
					set(func(x, y uint64) uint64 { return x | y })
				default:
					e.t = ts.Not(a.t)
					set(func(x, y uint64) uint64 { return 1 - x })
				}
			}
			add(e)
		}
	}
}
