package main

// Cheap search for a satisfying assignment near a known model, tried before the solver.
// A guess is only ever used as a witness (it is evaluated against the whole path condition); "unsat" always comes from the solver.

type guesser struct {
	base  *Model
	ch    map[int]uint64
	pick  uint
	picks uint
	steps int
}

func (g *guesser) cur(t *Term) uint64 { return g.base.Eval(t) }

func (g *guesser) choose() bool { // next choice bit
	b := g.pick>>g.picks&1 != 0
	g.picks++
	return b
}

func (g *guesser) setBits(v *Term, mask, val uint64) bool {
	cur, ok := g.ch[int(v.v)]
	if !ok {
		cur = g.base.vals[int(v.v)]
	}
	g.ch[int(v.v)] = (cur&^mask | val&mask) & maskB(v.w)
	return true
}

func (g *guesser) want(t *Term, b bool) bool {
	g.steps++
	if g.steps > 200 {
		return false
	}
	if t.isC() {
		return (t.v != 0) == b
	}
	if len(g.ch) == 0 && (g.cur(t) != 0) == b {
		return true
	}
	switch t.op {
	case ONot:
		return g.want(t.a, !b)
	case OAnd, OOr:
		if (t.op == OAnd) == b {
			return g.want(t.a, b) && g.want(t.b, b)
		}
		if g.choose() {
			return g.want(t.b, b)
		}
		return g.want(t.a, b)
	case OIte:
		c := g.cur(t.a) != 0
		if g.choose() {
			c = !c
			if !g.want(t.a, c) {
				return false
			}
		}
		if c {
			return g.want(t.b, b)
		}
		return g.want(t.c, b)
	case OEq:
		if t.a.w == 0 {
			return g.want(t.a, (g.cur(t.b) != 0) == b)
		}
		x, y := t.a, t.b
		if x.isC() || (!y.isC() && g.choose()) {
			x, y = y, x
		}
		v := g.cur(y)
		if !b {
			v ^= 1
		}
		return g.set(x, v)
	case OUlt, OUle, OSlt, OSle:
		x, y := t.a, t.b // x < y
		strict := t.op == OUlt || t.op == OSlt
		if !b { // y <= x or y < x
			x, y = y, x
			strict = !strict
		}
		d := uint64(0)
		if strict {
			d = 1
		}
		if !x.isC() && (y.isC() || !g.choose()) {
			lo := g.choose()
			v := g.cur(y) - d
			if lo && (t.op == OUlt || t.op == OUle) {
				v = 0
			}
			return g.set(x, v&maskB(x.w))
		}
		return g.set(y, (g.cur(x)+d)&maskB(y.w))
	}
	return false
}

func (g *guesser) set(t *Term, v uint64) bool {
	g.steps++
	if g.steps > 200 {
		return false
	}
	v &= maskB(t.w)
	if t.isC() {
		return t.v == v
	}
	if t.w == 0 {
		return g.want(t, v != 0)
	}
	if v&t.k0 != 0 || ^v&t.k1 != 0 {
		return false
	}
	switch t.op {
	case OVar:
		return g.setBits(t, maskB(t.w), v)
	case OConcat:
		return g.set(t.a, v>>t.b.w) && g.set(t.b, v&maskB(t.b.w))
	case OExtract:
		if t.a.op == OVar {
			return g.setBits(t.a, maskB(t.w)<<t.v, v<<t.v)
		}
		c := g.cur(t.a)
		return g.set(t.a, c&^(maskB(t.w)<<t.v)|v<<t.v)
	case OSExt:
		return uint64(sx(v, t.a.w))&maskB(t.w) == v && g.set(t.a, v&maskB(t.a.w))
	case OAdd:
		if t.b.isC() || (!t.a.isC() && !g.choose()) {
			return g.set(t.a, v-g.cur(t.b))
		}
		return g.set(t.b, v-g.cur(t.a))
	case OSub:
		if t.b.isC() || (!t.a.isC() && !g.choose()) {
			return g.set(t.a, v+g.cur(t.b))
		}
		return g.set(t.b, g.cur(t.a)-v)
	case OBXor:
		if t.b.isC() {
			return g.set(t.a, v^t.b.v)
		}
		return g.set(t.a, v^g.cur(t.b))
	case OBNot:
		return g.set(t.a, ^v)
	case ONeg:
		return g.set(t.a, -v)
	case OBAnd:
		if t.b.isC() {
			return v&^t.b.v == 0 && g.set(t.a, g.cur(t.a)&^t.b.v|v)
		}
		return g.set(t.a, v) && g.set(t.b, ^uint64(0))
	case OBOr:
		if t.b.isC() {
			return ^v&t.b.v == 0 && g.set(t.a, v&^t.b.v)
		}
		return g.set(t.a, v) && g.set(t.b, v)
	case OShl:
		if t.b.isC() && t.b.v < 64 {
			return g.set(t.a, v>>t.b.v)
		}
	case OLshr:
		if t.b.isC() && t.b.v < 64 {
			return g.set(t.a, v<<t.b.v)
		}
	case OMul:
		x, y := t.a, t.b
		if x.isC() {
			x, y = y, x
		}
		d := g.cur(y)
		if d != 0 {
			return g.set(x, v/d)
		}
		return v == 0
	case OUdiv:
		if t.b.isC() {
			return g.set(t.a, v*t.b.v)
		}
	case OUrem:
		if t.b.isC() && t.b.v != 0 {
			c := g.cur(t.a)
			return g.set(t.a, c-c%t.b.v+v)
		}
	case OIte:
		c := g.cur(t.a) != 0
		if g.choose() {
			c = !c
			if !g.want(t.a, c) {
				return false
			}
		}
		if c {
			return g.set(t.b, v)
		}
		return g.set(t.c, v)
	}
	return false
}

// guess looks for a model of pc && c near st.model.
func (j *Job) guess(st *State, c *Term) *Model {
	base := st.model
	if base == nil {
		return nil
	}
	tried := map[uint]bool{}
	for pick := uint(0); pick < 8; pick++ {
		g := &guesser{base: base, ch: map[int]uint64{}, pick: pick}
		if !g.want(c, true) {
			if g.picks == 0 || pick >= 1<<g.picks {
				break
			}
			continue
		}
		eff := pick
		if g.picks < 8 {
			eff = pick & (1<<g.picks - 1)
		}
		if tried[eff] {
			if pick >= 1<<g.picks {
				break
			}
			continue
		}
		tried[eff] = true
		if m := j.accept(st, base, g.ch, c); m != nil {
			return m
		}
	}
	return nil
}

func (j *Job) accept(st *State, base *Model, ch map[int]uint64, c *Term) *Model {
	var vs []uint64
	n := 0
	for i, v := range ch {
		if base.vals[i] == v {
			continue
		}
		n++
		w := i / 64
		for len(vs) <= w {
			vs = append(vs, 0)
		}
		vs[w] |= 1 << (i % 64)
	}
	if n == 0 {
		return nil
	}
	m := &Model{vals: make(map[int]uint64, len(base.vals)+n), memo: map[int32]uint64{}, up: base, chg: vs}
	for k, v := range base.vals {
		m.vals[k] = v
	}
	for k, v := range ch {
		m.vals[k] = v
	}
	if m.Eval(c) == 0 {
		return nil
	}
	for p := st.pc; p != nil; p = p.up {
		if vsOverlap(p.t.vs, vs) && m.Eval(p.t) == 0 {
			return nil
		}
	}
	m.depth = base.depth + 1
	if m.depth > 12 { // flatten
		m.up, m.chg, m.depth = nil, nil, 0
	}
	return m
}
