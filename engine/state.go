package main

// Path state: path condition, heap, cached model.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// PC is a persistent list of path-condition conjuncts.
type PC struct {
	up    *PC
	t     *Term
	depth int
}

// ObsN is a persistent list of observations.
type ObsN struct {
	up   *ObsN
	name string
	t    *Term
	n    int
}

// State is one symbolic path.
type State struct {
	pc    *PC
	heap  map[int32]*Obj
	own   *owner
	model *Model
	obs   *ObsN
	dead  bool
	steps int
	pfx   string // prefix of the names of variables
}

// Violation is a candidate counterexample.
type Violation struct {
	Kind  string // assert | panic | alloc | unwind
	Msg   string
	Pos   string
	Vars  map[string]uint64
	Site  string
	Trace []string
}

// Job executes one harness instance.
type Job struct {
	nHavoc   int
	P        *Prog
	ts       *TS
	sol      *Solver
	Harness  *ssa.Function
	Cases    map[string]int
	Cfg      HCfg
	base     map[int32]*Obj
	ids      map[string]int32
	ctxs     map[ctxKey]int32
	globals  map[*ssa.Global]int32
	inInit   bool
	cache    map[string]Res
	Viol     []Violation
	vseen    map[string]bool
	Incompl  map[string]int
	Reached  map[string]bool
	Funcs    map[string]int
	Blocks   int
	Branches int
	Merges   int
	Paths    int
	Checks   int // safety and assertion checks issued
	Trivial  int // of which discharged by the term simplifier
	Asserts  int
	deadline time.Time
	Finals   []finalModel
	allocLim int64
	asserted map[string]bool
	stackIns []string
	curPos   []ssa.Instruction
	timedOut bool
	stop     *atomic.Bool // set when the whole run ends
	ticks    int
	DeclVars map[string]bool
	reflectC map[string]any
	inits    map[*ssa.Package]bool
	loopMax  int
	fnMax    int
}

type finalModel struct {
	Vars map[string]uint64
	Obs  []obsVal
}

type obsVal struct {
	Name string
	Val  uint64
}

type ctxKey struct {
	parent int32
	instr  ssa.Instruction
	iter   string
	extra  int
}

// abort ends the whole current path.
type abortPath struct{ why string }

// fatalUnsupported panics out of a path.
func (j *Job) unsupported(format string, a ...any) {
	panic(abortPath{"unsupported: " + fmt.Sprintf(format, a...)})
}

func (j *Job) incomplete(why string) {
	j.Incompl[why]++
}

func (j *Job) ctx(parent int32, in ssa.Instruction, iter string, extra int) int32 {
	k := ctxKey{parent, in, iter, extra}
	if id, ok := j.ctxs[k]; ok {
		return id
	}
	id := int32(len(j.ctxs) + 1000)
	j.ctxs[k] = id
	return id
}

// newObj creates an object under a canonical name derived from the allocation context.
func (j *Job) newObj(st *State, id int32, val Value, typ types.Type) {
	st.heap[id] = &Obj{val: val, typ: typ}
}

func (st *State) get(j *Job, id int32) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	if o, ok := j.base[id]; ok {
		return o
	}
	panic(abortPath{fmt.Sprintf("unsupported: dangling object %d", id)})
}

func (st *State) fork() *State {
	n := &State{pc: st.pc, model: st.model, obs: st.obs, own: new(owner), steps: st.steps, pfx: st.pfx}
	n.heap = make(map[int32]*Obj, len(st.heap)+8)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	st.own = new(owner)
	return n
}

func (j *Job) addPC(st *State, t *Term) {
	if t == j.ts.True {
		return
	}
	if t.op == OAnd {
		j.addPC(st, t.a)
		j.addPC(st, t.b)
		return
	}
	for p, n := st.pc, 0; p != nil && n < 64; p, n = p.up, n+1 {
		if p.t == t {
			return
		}
	}
	d := 0
	if st.pc != nil {
		d = st.pc.depth
	}
	st.pc = &PC{st.pc, t, d + 1}
	if st.model != nil && st.model.Eval(t) == 0 {
		st.model = nil
	}
}

func pcList(p *PC) []*Term {
	var out []*Term
	for ; p != nil; p = p.up {
		out = append(out, p.t)
	}
	return out
}

// simpUnder simplifies a condition using syntactic facts of the path condition.
func (j *Job) simpUnder(st *State, c *Term) *Term {
	if c.isC() {
		return c
	}
	for p, n := st.pc, 0; p != nil && n < 400; p, n = p.up, n+1 {
		if p.t == c {
			return j.ts.True
		}
		if j.ts.isNeg(p.t, c) {
			return j.ts.False
		}
	}
	switch c.op {
	case OAnd:
		return j.ts.And(j.simpUnder(st, c.a), j.simpUnder(st, c.b))
	case OOr:
		return j.ts.Or(j.simpUnder(st, c.a), j.simpUnder(st, c.b))
	}
	return c
}

// slice selects the conjuncts of the path condition that share variables (transitively) with c.
func (j *Job) slice(st *State, c *Term) []*Term {
	all := pcList(st.pc)
	vs := c.vs
	used := make([]bool, len(all))
	out := []*Term{}
	for changed := true; changed; {
		changed = false
		for i, t := range all {
			if used[i] || !vsOverlap(t.vs, vs) {
				continue
			}
			used[i] = true
			changed = true
			vs = vsUnion(vs, t.vs)
			out = append(out, t)
		}
	}
	return out
}

func (j *Job) checkDeadline() {
	if (!j.deadline.IsZero() && time.Now().After(j.deadline)) || (j.stop != nil && j.stop.Load()) {
		j.timedOut = true
		panic(abortPath{"deadline"})
	}
}

// sat decides pc && c; on sat the model satisfies the whole pc && c.
func (j *Job) sat(st *State, c *Term) (Res, *Model) {
	if c == j.ts.False {
		return Unsat, nil
	}
	if st.model != nil && st.model.Eval(c) != 0 {
		return Sat, st.model
	}
	if m := j.guess(st, c); m != nil {
		j.sol.Stats.Guessed++
		return Sat, m
	}
	j.checkDeadline()
	var conj []*Term
	if st.model == nil {
		conj = pcList(st.pc)
	} else {
		conj = j.slice(st, c)
	}
	conj = append(conj, c)
	ids := make([]int, len(conj))
	for i, t := range conj {
		ids[i] = int(t.id)
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		sb.WriteString(strconv.Itoa(i))
		sb.WriteByte(',')
	}
	key := sb.String()
	if r, ok := j.cache[key]; ok && r == Unsat {
		j.sol.Stats.CacheHits++
		return Unsat, nil
	}
	r, vals := j.sol.Check(conj, true)
	if r == Unsat {
		j.cache[key] = r
	}
	if r != Sat {
		return r, nil
	}
	m := newModel()
	if st.model != nil {
		for k, v := range st.model.vals {
			m.vals[k] = v
		}
	}
	for k, v := range vals {
		m.vals[k] = v
	}
	// defensive: the model must satisfy what was asked
	for _, t := range conj {
		if m.Eval(t) == 0 {
			j.incomplete("solver model does not evaluate")
			return Unknown, nil
		}
	}
	if st.model != nil {
		for _, t := range pcList(st.pc) {
			if m.Eval(t) == 0 { // slicing bug guard
				j.incomplete("sliced model does not satisfy path condition")
				return Unknown, nil
			}
		}
	}
	return r, m
}

// branch splits st on c: returns the states for c and !c (nil when infeasible).
func (j *Job) branch(st *State, c *Term) (*State, *State) {
	c = j.simpUnder(st, c)
	if c.isC() {
		if c.v != 0 {
			return st, nil
		}
		return nil, st
	}
	j.Branches++
	nc := j.ts.Not(c)
	var rt, rf Res
	var mt, mf *Model
	rt, mt = j.sat(st, c)
	if rt == Unsat {
		j.addPC(st, nc) // implied; kept as a fact
		return nil, st
	}
	rf, mf = j.sat(st, nc)
	if rf == Unsat {
		j.addPC(st, c)
		return st, nil
	}
	if rt == Unknown || rf == Unknown {
		j.incomplete("feasibility unknown (both sides explored)")
	}
	f := st.fork()
	st.model = mt
	j.addPC(st, c)
	f.model = mf
	j.addPC(f, nc)
	return st, f
}

// require checks a safety condition: a violation is recorded when it can fail; execution continues under it.
func (j *Job) require(st *State, c *Term, kind, msg string) {
	j.Checks++
	c = j.simpUnder(st, c)
	if c == j.ts.True {
		j.Trivial++
		return
	}
	r, m := j.sat(st, j.ts.Not(c))
	switch r {
	case Sat:
		j.violation(st, m, kind, msg)
	case Unknown:
		j.incomplete("check unknown: " + kind)
	}
	if c == j.ts.False {
		panic(abortPath{"violated"})
	}
	if r != Unsat {
		r2, m2 := j.sat(st, c)
		if r2 == Unsat {
			panic(abortPath{"violated"})
		}
		if r2 == Sat {
			st.model = m2
		}
	}
	j.addPC(st, c)
}

func (j *Job) posStr() string {
	for i := len(j.curPos) - 1; i >= 0; i-- {
		if p := j.curPos[i].Pos(); p.IsValid() {
			return shortPos(j.P.ssa.Fset.Position(p).String())
		}
	}
	return "?"
}

func shortPos(s string) string {
	s = strings.TrimPrefix(s, "/repo/")
	return s
}

func (j *Job) violation(st *State, m *Model, kind, msg string) {
	pos := j.posStr()
	key := kind + "|" + msg + "|" + pos
	if j.vseen[key] {
		return
	}
	j.vseen[key] = true
	v := Violation{Kind: kind, Msg: msg, Pos: pos, Vars: j.modelVars(m)}
	for i := len(j.curPos) - 1; i >= 0 && len(v.Trace) < 12; i-- {
		if p := j.curPos[i].Pos(); p.IsValid() {
			v.Trace = append(v.Trace, shortPos(j.P.ssa.Fset.Position(p).String()))
		}
	}
	j.Viol = append(j.Viol, v)
}

func (j *Job) modelVars(m *Model) map[string]uint64 {
	out := map[string]uint64{}
	for _, v := range j.ts.vars {
		out[v.name] = m.vals[int(v.v)] & maskB(v.w)
	}
	return out
}

// merge joins b into a (a keeps identity). Both derive from a common ancestor and are exclusive.
func (j *Job) mergeState(a, b *State) (*State, *Term) {
	ca, cb := j.ts.True, j.ts.True
	pa, pb := a.pc, b.pc
	for pa != pb {
		switch {
		case pb == nil || (pa != nil && pa.depth > pb.depth):
			ca = j.ts.And(ca, pa.t)
			pa = pa.up
		case pa == nil || pb.depth > pa.depth:
			cb = j.ts.And(cb, pb.t)
			pb = pb.up
		default:
			ca = j.ts.And(ca, pa.t)
			pa = pa.up
			cb = j.ts.And(cb, pb.t)
			pb = pb.up
		}
	}
	// pick a small discriminating condition if one conjunct of a is the negation of one of b
	disc := ca
	if d := j.discriminator(a.pc, b.pc, pa); d != nil {
		disc = d
	}
	n := &State{pc: pa, own: new(owner), steps: max(a.steps, b.steps), pfx: a.pfx}
	j.Merges++
	if a.model != nil {
		n.model = a.model
	} else {
		n.model = b.model
	}
	or := j.ts.Or(ca, cb)
	save := n.model
	j.addPC(n, or)
	n.model = save
	n.heap = make(map[int32]*Obj, len(a.heap)+8)
	for k, oa := range a.heap {
		ob, ok := b.heap[k]
		if !ok {
			if bo, ok2 := j.base[k]; ok2 {
				ob, ok = bo, true
			}
		}
		if !ok || oa == ob {
			n.heap[k] = oa
			continue
		}
		n.heap[k] = &Obj{val: mergeVal(j.ts, disc, oa.val, ob.val), typ: oa.typ}
	}
	for k, ob := range b.heap {
		if _, ok := a.heap[k]; ok {
			continue
		}
		if bo, ok := j.base[k]; ok && bo != ob {
			n.heap[k] = &Obj{val: mergeVal(j.ts, disc, bo.val, ob.val), typ: ob.typ}
			continue
		}
		n.heap[k] = ob
	}
	// observations: align by position from the root
	n.obs = j.mergeObs(disc, a.obs, b.obs)
	return n, disc
}

func (j *Job) discriminator(pa, pb, anc *PC) *Term {
	// the first conjuncts after the ancestor are the oldest: typically c and !c
	var fa, fb *Term
	for p := pa; p != anc; p = p.up {
		fa = p.t
	}
	for p := pb; p != anc; p = p.up {
		fb = p.t
	}
	if fa != nil && fb != nil && j.ts.isNeg(fa, fb) {
		return fa
	}
	return nil
}

func (j *Job) mergeObs(c *Term, a, b *ObsN) *ObsN {
	if a == b {
		return a
	}
	if a == nil || b == nil {
		if a == nil {
			return nil
		}
		return nil
	}
	if a.n > b.n {
		return j.mergeObs(c, a.up, b)
	}
	if b.n > a.n {
		return j.mergeObs(c, a, b.up)
	}
	up := j.mergeObs(c, a.up, b.up)
	if a.name == b.name && a.t.w == b.t.w {
		n := 0
		if up != nil {
			n = up.n
		}
		return &ObsN{up, a.name, j.ts.Ite(c, a.t, b.t), n + 1}
	}
	return up
}
