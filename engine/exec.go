package main

// The symbolic interpreter over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- per-function static information

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
	depth  int
	pos    int
}

type fnInfo struct {
	fn    *ssa.Function
	reg   map[ssa.Value]int
	nreg  int
	live  [][]int // live-in registers per block (excluding phis of the block)
	loop  []*loopInfo
	pos   []int
	loops map[*ssa.BasicBlock]*loopInfo
}

func buildInfo(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, reg: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	add := func(v ssa.Value) { fi.reg[v] = fi.nreg; fi.nreg++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	n := len(fn.Blocks)
	// liveness
	use := make([]map[int]bool, n)
	def := make([]map[int]bool, n)
	for i, b := range fn.Blocks {
		use[i], def[i] = map[int]bool{}, map[int]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if r, ok := fi.reg[*op]; ok && !def[i][r] {
						use[i][r] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				if _, isPhi := in.(*ssa.Phi); isPhi {
					def[i][fi.reg[v]] = true
				} else {
					def[i][fi.reg[v]] = true
				}
			}
		}
	}
	livein := make([]map[int]bool, n)
	for i := range livein {
		livein[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := map[int]bool{}
			for _, s := range b.Succs {
				for r := range livein[s.Index] {
					out[r] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b || k == pi {
							if r, ok := fi.reg[ph.Edges[k]]; ok {
								out[r] = true
							}
						}
					}
				}
			}
			for r := range out {
				if !def[i][r] {
					use[i][r] = true
				}
			}
			for r := range use[i] {
				if !livein[i][r] {
					livein[i][r] = true
					changed = true
				}
			}
		}
	}
	fi.live = make([][]int, n)
	for i, b := range fn.Blocks {
		m := livein[i]
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			m[fi.reg[ph]] = true // phi values are assigned on the edge
		}
		for r := range m {
			fi.live[i] = append(fi.live[i], r)
		}
		sort.Ints(fi.live[i])
	}
	// natural loops
	fi.loop = make([]*loopInfo, n)
	fi.pos = make([]int, n)
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	var ls []*loopInfo
	for _, l := range fi.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, k int) bool {
		if len(ls[i].blocks) != len(ls[k].blocks) {
			return len(ls[i].blocks) < len(ls[k].blocks)
		}
		return ls[i].header.Index < ls[k].header.Index
	})
	for i, l := range ls {
		for _, m := range ls[i+1:] {
			if m.blocks[l.header] && m != l {
				l.parent = m
				break
			}
		}
		for b := range l.blocks {
			if fi.loop[b.Index] == nil {
				fi.loop[b.Index] = l
			}
		}
	}
	for _, l := range ls {
		for p := l.parent; p != nil; p = p.parent {
			l.depth++
		}
	}
	// positions: topological order at each nesting level with inner loops collapsed
	var order func(blocks []*ssa.BasicBlock, lvl *loopInfo)
	order = func(blocks []*ssa.BasicBlock, lvl *loopInfo) {
		rep := func(b *ssa.BasicBlock) *ssa.BasicBlock { // collapse to the header of the child loop
			l := fi.loop[b.Index]
			if l == lvl {
				return b
			}
			for l != nil && l.parent != lvl {
				l = l.parent
			}
			if l == nil {
				return nil
			}
			return l.header
		}
		in := map[*ssa.BasicBlock]bool{}
		for _, b := range blocks {
			in[b] = true
		}
		seen := map[*ssa.BasicBlock]bool{}
		var post []*ssa.BasicBlock
		members := map[*ssa.BasicBlock][]*ssa.BasicBlock{}
		for _, b := range blocks {
			members[rep(b)] = append(members[rep(b)], b)
		}
		var dfs func(r *ssa.BasicBlock)
		dfs = func(r *ssa.BasicBlock) {
			if seen[r] {
				return
			}
			seen[r] = true
			for _, b := range members[r] {
				for _, s := range b.Succs {
					if !in[s] || (lvl != nil && s == lvl.header) {
						continue
					}
					if q := rep(s); q != r {
						dfs(q)
					}
				}
			}
			post = append(post, r)
		}
		dfs(rep(blocks[0]))
		for _, b := range blocks {
			dfs(rep(b))
		}
		for i, r := range post {
			p := len(post) - i
			l := fi.loop[r.Index]
			if l != lvl && l != nil && l.header == r {
				l.pos = p
			} else {
				fi.pos[r.Index] = p
			}
		}
		for _, l := range ls {
			if l.parent == lvl {
				bl := []*ssa.BasicBlock{l.header}
				for _, b := range fn.Blocks {
					if l.blocks[b] && b != l.header {
						bl = append(bl, b)
					}
				}
				order(bl, l)
			}
		}
	}
	if n > 0 {
		order(fn.Blocks, nil)
	}
	return fi
}

// ---------- frames

type frame struct {
	fn    *ssa.Function
	fi    *fnInfo
	ctx   int32
	depth int
	merge string
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	in   ssa.Instruction
	iter string
}

// fst is a state inside a frame.
type fst struct {
	st     *State
	regs   []Value
	blk    *ssa.BasicBlock
	iters  []int // iteration counters, outermost loop first
	key    []int
	iterS  string
	defers []deferred
	mcount int
}

type outcome struct {
	st  *State
	ret []Value
}

func (fr *frame) loopChain(b *ssa.BasicBlock) []*loopInfo {
	var out []*loopInfo
	for l := fr.fi.loop[b.Index]; l != nil; l = l.parent {
		out = append([]*loopInfo{l}, out...)
	}
	return out
}

func (fr *frame) enter(f *fst, from, to *ssa.BasicBlock) {
	chain := fr.loopChain(to)
	var old []*loopInfo
	if from != nil {
		old = fr.loopChain(from)
	}
	iters := make([]int, len(chain))
	for i, l := range chain {
		if i < len(old) && old[i] == l {
			iters[i] = f.iters[i]
			if l.header == to {
				iters[i]++
			}
		}
	}
	f.iters = iters
	f.blk = to
	key := make([]int, 0, 2*len(chain)+1)
	for i, l := range chain {
		key = append(key, l.pos, iters[i])
	}
	key = append(key, fr.fi.pos[to.Index])
	f.key = key
	var sb strings.Builder
	for _, k := range iters {
		sb.WriteString(strconv.Itoa(k))
		sb.WriteByte('.')
	}
	f.iterS = sb.String()
}

func keyLess(a, b []int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

func (f *fst) fork() *fst {
	n := *f
	n.st = f.st.fork()
	n.regs = append([]Value(nil), f.regs...)
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

// compat tells whether two values may be merged under the policy.
func compatVal(a, b Value, typ types.Type, conc bool) bool {
	if a == nil || b == nil {
		return true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			return false
		}
		if conc && x.isC() && y.isC() && x != y && x.w >= 32 {
			return false
		}
		return true
	case IfaceV:
		if y, ok := b.(IfaceV); ok {
			if isErrType(typ) {
				return (x.typ == nil) == (y.typ == nil)
			}
			return canMerge(x, y)
		}
		if y, ok := b.(*UnionV); ok && isErrType(typ) {
			return allNonNil(y) && x.typ != nil
		}
		return false
	case *UnionV:
		if isErrType(typ) {
			if y, ok := b.(IfaceV); ok {
				return allNonNil(x) && y.typ != nil
			}
			if y, ok := b.(*UnionV); ok {
				return allNonNil(x) && allNonNil(y)
			}
			return false
		}
		return true
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			return false
		}
		if !canMerge(a, b) {
			return false
		}
		if conc && x.len.isC() && y.len.isC() && x.len != y.len {
			return false
		}
		if conc && x.off.isC() && y.off.isC() && x.off != y.off {
			return false
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		tt, _ := typ.(*types.Tuple)
		for i := range x {
			var t types.Type
			if tt != nil && i < tt.Len() {
				t = tt.At(i).Type()
			}
			if !compatVal(x[i], y[i], t, conc) {
				return false
			}
		}
		return true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.f {
			if !compatVal(x.f[i], y.f[i], nil, conc) {
				return false
			}
		}
		return true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok {
			return false
		}
		if !conc || x == y {
			return true
		}
		for i := 0; i < len(x.e) && i < len(y.e); i++ {
			if x.e[i] != nil && y.e[i] != nil && !compatVal(x.e[i], y.e[i], nil, conc) {
				return false
			}
		}
		return true
	case *StrV:
		y, ok := b.(*StrV)
		return ok && (!conc || sameVal(x, y) || x.opaque || y.opaque)
	}
	return canMerge(a, b)
}

var errType = types.Universe.Lookup("error").Type()

func isErrType(t types.Type) bool { return t != nil && types.Identical(t, errType) }

func allNonNil(u *UnionV) bool {
	for _, a := range u.alts {
		if x, ok := a.v.(IfaceV); !ok || x.typ == nil {
			return false
		}
	}
	return true
}

func (j *Job) heapCompat(a, b *State) bool {
	for k, oa := range a.heap {
		ob, ok := b.heap[k]
		if !ok || oa == ob {
			continue
		}
		if !compatVal(oa.val, ob.val, oa.typ, true) {
			return false
		}
	}
	return true
}

func (j *Job) tryMerge(fr *frame, a, b *fst) *fst {
	if fr.merge == "none" {
		return nil
	}
	conc := fr.merge == "conc"
	if len(a.defers) != len(b.defers) {
		return nil
	}
	for i := range a.defers {
		if a.defers[i].in != b.defers[i].in {
			return nil
		}
	}
	live := fr.fi.live[a.blk.Index]
	for _, r := range live {
		if !compatVal(a.regs[r], b.regs[r], j.regType(fr, r), conc) {
			return nil
		}
	}
	if conc && !j.heapCompat(a.st, b.st) {
		return nil
	}
	st, c := j.mergeState(a.st, b.st)
	n := &fst{st: st, blk: a.blk, iters: a.iters, key: a.key, iterS: a.iterS, mcount: a.mcount + b.mcount + 1}
	n.regs = make([]Value, len(a.regs))
	for _, r := range live {
		n.regs[r] = mergeVal(j.ts, c, a.regs[r], b.regs[r])
	}
	n.defers = append([]deferred(nil), a.defers...)
	for i := range n.defers {
		d := &n.defers[i]
		d.args = append([]Value(nil), d.args...)
		for k := range d.args {
			d.args[k] = mergeVal(j.ts, c, d.args[k], b.defers[i].args[k])
		}
		if d.fn != nil {
			d.fn = mergeVal(j.ts, c, d.fn, b.defers[i].fn)
		}
	}
	return n
}

func (j *Job) regType(fr *frame, r int) types.Type {
	ts := j.P.regTypes(fr.fi)
	return ts[r]
}

// runFunction executes fn to completion and returns its (merged) outcomes.
func (j *Job) runFunction(fn *ssa.Function, args []Value, bind []Value, st *State, ctx int32, depth int) []outcome {
	if depth > 200 {
		j.unsupported("call depth")
	}
	if len(fn.Blocks) == 0 {
		j.unsupported("no body: %s", fn.String())
	}
	fi := j.P.info(fn)
	j.Funcs[fn.String()]++
	fr := &frame{fn: fn, fi: fi, ctx: ctx, depth: depth, merge: j.mergePolicy(fn)}
	f0 := &fst{st: st, regs: make([]Value, fi.nreg)}
	for i, p := range fn.Params {
		f0.regs[fi.reg[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f0.regs[fi.reg[p]] = bind[i]
	}
	fr.enter(f0, nil, fn.Blocks[0])
	pend := []*fst{f0}
	var outs []outcome
	for len(pend) > 0 {
		best := 0
		for i := 1; i < len(pend); i++ {
			c := keyLess(pend[i].key, pend[best].key)
			if c < 0 || (c == 0 && i > best && false) {
				best = i
			}
		}
		f := pend[best]
		pend = append(pend[:best], pend[best+1:]...)
		j.Blocks++
		if lim := j.Cfg.Unwind; len(f.iters) > 0 && f.iters[len(f.iters)-1] > lim {
			j.unwind(f.st)
			continue
		}
		if len(f.iters) > 0 && f.iters[len(f.iters)-1] > j.loopMax {
			j.loopMax = f.iters[len(f.iters)-1]
		}
		succ, rets := j.runBlock(fr, f)
		outs = append(outs, rets...)
		for _, s := range succ {
			merged := false
			if fr.merge != "none" {
				for i, p := range pend {
					if p.blk == s.blk && keyLess(p.key, s.key) == 0 {
						if m := j.tryMerge(fr, p, s); m != nil {
							pend[i] = m
							merged = true
							break
						}
					}
				}
			}
			if !merged {
				pend = append(pend, s)
			}
		}
		if len(pend)+len(outs) > j.Cfg.MaxStates {
			j.unsupported("too many pending states in %s", fn.Name())
		}
	}
	return j.mergeOutcomes(fr, fn, outs)
}

func (j *Job) mergeOutcomes(fr *frame, fn *ssa.Function, outs []outcome) []outcome {
	if fr.merge == "none" || len(outs) < 2 {
		return outs
	}
	res := fn.Signature.Results()
	conc := fr.merge == "conc"
	var groups []outcome
	for _, o := range outs {
		done := false
	next:
		for i, g := range groups {
			for k := range o.ret {
				if !compatVal(g.ret[k], o.ret[k], res.At(k).Type(), conc) {
					continue next
				}
			}
			if conc && !j.heapCompat(g.st, o.st) {
				continue
			}
			st, c := j.mergeState(g.st, o.st)
			ret := make([]Value, len(o.ret))
			for k := range ret {
				ret[k] = mergeVal(j.ts, c, g.ret[k], o.ret[k])
			}
			groups[i] = outcome{st, ret}
			done = true
			break
		}
		if !done {
			groups = append(groups, o)
		}
	}
	return groups
}

func (j *Job) mergePolicy(fn *ssa.Function) string {
	if j.inInit {
		return "none"
	}
	if len(j.Cfg.MergeFn) > 0 {
		for pat, pol := range j.Cfg.MergeFn {
			if strings.Contains(fn.String(), pat) {
				return pol
			}
		}
	}
	return j.Cfg.Merge
}

func (j *Job) unwind(st *State) {
	j.incomplete("unwinding bound reached at " + j.posStr())
	r, m := j.sat(st, j.ts.True)
	if r == Sat && m != nil {
		j.violation(st, m, "unwind", "loop does not terminate within the bound")
	}
}

// guard runs f and turns an abortPath panic into a dropped path.
func (j *Job) guard(f func()) {
	n := len(j.curPos)
	defer func() {
		if r := recover(); r != nil {
			a, ok := r.(abortPath)
			if !ok {
				panic(r)
			}
			if a.why == "deadline" {
				panic(r)
			}
			if a.why != "violated" && a.why != "assume" && a.why != "done" {
				j.incomplete(a.why + " at " + j.posStr())
			}
			j.curPos = j.curPos[:n]
		}
	}()
	f()
}

type work struct {
	f *fst
	i int
}

// runBlock executes the block of f; returns successor states and function outcomes.
func (j *Job) runBlock(fr *frame, f0 *fst) (succ []*fst, outs []outcome) {
	stack := []work{{f0, 0}}
	for len(stack) > 0 {
		w := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		j.guard(func() {
			f := w.f
			instrs := f.blk.Instrs
			for i := w.i; i < len(instrs); i++ {
				in := instrs[i]
				f.st.steps++
				if j.ticks++; j.ticks&63 == 0 {
					j.checkDeadline()
				}
				if f.st.steps > j.Cfg.MaxSteps {
					j.unwind(f.st)
					return
				}
				j.curPos = append(j.curPos, in)
				// union operands
				if alts := j.splitUnion(fr, f, in); alts != nil {
					for k := len(alts) - 1; k >= 0; k-- {
						stack = append(stack, work{alts[k], i})
					}
					j.curPos = j.curPos[:len(j.curPos)-1]
					return
				}
				switch x := in.(type) {
				case *ssa.Phi:
					// done on the edge
				case *ssa.If:
					c := j.operand(fr, f, x.Cond).(*Term)
					f2 := *f
					st, sf := j.branch(f.st, c)
					if st != nil && sf != nil {
						f2.regs = append([]Value(nil), f.regs...)
						f2.defers = append([]deferred(nil), f.defers...)
					}
					if sf != nil {
						f2.st = sf
						j.goTo(fr, &f2, f.blk.Succs[1], 1)
						succ = append(succ, &f2)
					}
					if st != nil {
						f.st = st
						j.goTo(fr, f, f.blk.Succs[0], 0)
						succ = append(succ, f)
					}
					j.curPos = j.curPos[:len(j.curPos)-1]
					return
				case *ssa.Jump:
					j.goTo(fr, f, f.blk.Succs[0], 0)
					succ = append(succ, f)
					j.curPos = j.curPos[:len(j.curPos)-1]
					return
				case *ssa.Return:
					ret := make([]Value, len(x.Results))
					for k, r := range x.Results {
						ret[k] = j.operand(fr, f, r)
					}
					outs = append(outs, outcome{f.st, ret})
					j.curPos = j.curPos[:len(j.curPos)-1]
					return
				case *ssa.Panic:
					msg := "panic"
					if iv, ok := j.operand(fr, f, x.X).(IfaceV); ok {
						if s, ok := iv.v.(*StrV); ok && !s.opaque && !s.sym {
							msg = "panic: " + s.s
						}
					}
					j.require(f.st, j.ts.False, "panic", msg)
					return
				case *ssa.RunDefers:
					fs := []*fst{f}
					for len(f.defers) > 0 {
						var nfs []*fst
						for _, g := range fs {
							d := g.defers[len(g.defers)-1]
							g.defers = g.defers[:len(g.defers)-1]
							for _, o := range j.callValue(fr, g, d.in, d.call, d.fn, d.args, d.iter) {
								h := *g
								h.st = o.st
								h.regs = append([]Value(nil), g.regs...)
								h.defers = append([]deferred(nil), g.defers...)
								nfs = append(nfs, &h)
							}
						}
						fs = nfs
						if len(fs) == 0 {
							j.curPos = j.curPos[:len(j.curPos)-1]
							return
						}
						f = fs[0]
					}
					for _, g := range fs[1:] {
						stack = append(stack, work{g, i + 1})
					}
				case *ssa.Call:
					res := j.call(fr, f, x, &x.Call, f.iterS)
					if len(res) == 0 {
						j.curPos = j.curPos[:len(j.curPos)-1]
						return
					}
					var val = func(o outcome) Value {
						if len(o.ret) == 1 {
							return o.ret[0]
						}
						return TupleV(o.ret)
					}
					for k := len(res) - 1; k >= 1; k-- {
						g := *f
						g.st = res[k].st
						g.regs = append([]Value(nil), f.regs...)
						g.regs[fr.fi.reg[x]] = val(res[k])
						g.defers = append([]deferred(nil), f.defers...)
						stack = append(stack, work{&g, i + 1})
					}
					f.st = res[0].st
					f.regs[fr.fi.reg[x]] = val(res[0])
				case *ssa.Defer:
					d := deferred{call: &x.Call, in: x, iter: f.iterS}
					if !x.Call.IsInvoke() {
						if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
							d.fn = j.operand(fr, f, x.Call.Value)
						}
					} else {
						d.fn = j.operand(fr, f, x.Call.Value)
					}
					for _, a := range x.Call.Args {
						d.args = append(d.args, j.operand(fr, f, a))
					}
					f.defers = append(f.defers, d)
				case *ssa.UnOp, *ssa.BinOp, *ssa.Convert, *ssa.Slice, *ssa.TypeAssert, *ssa.MakeSlice, *ssa.Lookup, *ssa.Next, *ssa.IndexAddr, *ssa.Index, *ssa.SliceToArrayPointer:
					// may fork
					rs := j.instrFork(fr, f, in)
					if len(rs) == 0 {
						j.curPos = j.curPos[:len(j.curPos)-1]
						return
					}
					r := fr.fi.reg[in.(ssa.Value)]
					for k := len(rs) - 1; k >= 1; k-- {
						g := *f
						g.st = rs[k].st
						g.regs = append([]Value(nil), f.regs...)
						g.regs[r] = rs[k].ret[0]
						g.defers = append([]deferred(nil), f.defers...)
						stack = append(stack, work{&g, i + 1})
					}
					f.st = rs[0].st
					f.regs[r] = rs[0].ret[0]
				default:
					j.instr(fr, f, in)
				}
				j.curPos = j.curPos[:len(j.curPos)-1]
			}
		})
	}
	return succ, outs
}

// goTo moves f along an edge, assigning phis.
func (j *Job) goTo(fr *frame, f *fst, to *ssa.BasicBlock, succIdx int) {
	from := f.blk
	// which predecessor edge: handle duplicate edges
	pi := -1
	cnt := 0
	for k := 0; k < succIdx; k++ {
		if from.Succs[k] == to {
			cnt++
		}
	}
	for k, p := range to.Preds {
		if p == from {
			if cnt == 0 {
				pi = k
				break
			}
			cnt--
		}
	}
	var vals []Value
	var regs []int
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, j.operand(fr, f, ph.Edges[pi]))
		regs = append(regs, fr.fi.reg[ph])
	}
	for k, r := range regs {
		f.regs[r] = vals[k]
	}
	fr.enter(f, from, to)
}

func (j *Job) splitUnion(fr *frame, f *fst, in ssa.Instruction) []*fst {
	switch in.(type) {
	case *ssa.Phi, *ssa.Return, *ssa.Jump, *ssa.MakeClosure, *ssa.Extract, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Defer, *ssa.RunDefers, *ssa.DebugRef:
		return nil
	}
	for k, op := range in.Operands(nil) {
		if *op == nil {
			continue
		}
		r, ok := fr.fi.reg[*op]
		if !ok {
			continue
		}
		u, ok := f.regs[r].(*UnionV)
		if !ok {
			continue
		}
		switch x := in.(type) {
		case *ssa.Store:
			if *op == x.Val && *op != x.Addr {
				continue
			}
		case *ssa.MapUpdate:
			if *op == x.Value && *op != x.Map && *op != x.Key {
				continue
			}
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				continue
			}
		case *ssa.Call:
			if k > 0 && !j.needsConcreteArgs(&x.Call) {
				continue
			}
		}
		var out []*fst
		for _, a := range u.alts {
			g := j.simpUnder(f.st, a.g)
			if g == j.ts.False {
				continue
			}
			res, m := j.sat(f.st, g)
			if res == Unsat {
				continue
			}
			n := f.fork()
			n.st.model = m
			j.addPC(n.st, g)
			n.regs[r] = a.v
			out = append(out, n)
		}
		if len(out) == 0 {
			panic(abortPath{"violated"})
		}
		return out
	}
	return nil
}

func (j *Job) needsConcreteArgs(c *ssa.CallCommon) bool {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return true
	}
	if fn := c.StaticCallee(); fn != nil {
		if _, ok := intrinsics[fn.String()]; ok {
			return fn.String() != "fmt.Errorf"
		}
		if o := fn.Origin(); o != nil {
			if _, ok := intrinsics[o.String()]; ok {
				return true
			}
		}
		return false
	}
	return false
}

func (j *Job) constVal(c *ssa.Const) Value {
	t := c.Type().Underlying()
	if c.Value == nil {
		return j.zero(c.Type())
	}
	switch b := t.(type) {
	case *types.Basic:
		info := b.Info()
		switch {
		case info&types.IsBoolean != 0:
			return j.ts.B(constant.BoolVal(c.Value))
		case info&types.IsInteger != 0:
			w := j.width(b)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return j.ts.C(uint64(i), w)
			}
			u, _ := constant.Uint64Val(v)
			return j.ts.C(u, w)
		case info&types.IsFloat != 0:
			fl, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return FloatV(fl)
		case info&types.IsString != 0:
			return &StrV{s: constant.StringVal(c.Value)}
		}
	case *types.TypeParam:
	}
	j.unsupported("constant of type %s", c.Type())
	return nil
}

func (j *Job) width(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Uintptr, types.Int64, types.Uint64, types.UntypedInt:
		return 64
	case types.Bool, types.UntypedBool:
		return 0
	}
	j.unsupported("width of %s", b)
	return 0
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (j *Job) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return PtrV{}
		case u.Info()&types.IsString != 0:
			return &StrV{}
		case u.Info()&types.IsFloat != 0:
			return FloatV(0)
		case u.Info()&(types.IsInteger|types.IsBoolean) != 0:
			return j.ts.C(0, j.width(u))
		case u.Kind() == types.UntypedNil:
			return PtrV{}
		case u.Info()&types.IsComplex != 0:
			return FloatV(0)
		}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		z := j.ts.C(0, 64)
		return SliceV{0, nil, z, z, z}
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = j.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 1<<24 {
			j.unsupported("huge array")
		}
		return &ArrV{e: make([]Value, u.Len()), zero: j.zero(u.Elem())}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return &FuncV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return PtrV{}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = j.zero(u.At(i).Type())
		}
		return tv
	}
	j.unsupported("zero of %s", t)
	return nil
}

func (j *Job) operand(fr *frame, f *fst, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return j.constVal(x)
	case *ssa.Global:
		return PtrV{obj: j.global(f.st, x)}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{blt: x}
	}
	r, ok := fr.fi.reg[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v, fr.fn))
	}
	val := f.regs[r]
	if val == nil {
		panic(abortPath{fmt.Sprintf("unsupported: dead register %s in %s", v.Name(), fr.fn)})
	}
	return val
}

// ---------- memory

func (j *Job) global(st *State, g *ssa.Global) int32 {
	id, ok := j.globals[g]
	if !ok {
		id = int32(len(j.globals) + 1)
		j.globals[g] = id
		j.ensureInit(g.Pkg)
		if _, have := j.base[id]; !have {
			et := g.Type().Underlying().(*types.Pointer).Elem()
			o := &Obj{val: j.zero(et), typ: et}
			if j.inInit {
				st.heap[id] = o
			} else {
				j.base[id] = o
			}
		}
	}
	if j.inInit {
		if _, ok := st.heap[id]; !ok {
			if _, ok := j.base[id]; !ok {
				et := g.Type().Underlying().(*types.Pointer).Elem()
				st.heap[id] = &Obj{val: j.zero(et), typ: et}
			}
		}
	}
	return id
}

func (j *Job) load(st *State, p PtrV, what string) Value {
	if p.obj == 0 {
		j.require(st, j.ts.False, "panic", "nil pointer dereference")
	}
	if p.obj == opaqueErrObj {
		j.unsupported("load from opaque error")
	}
	o := st.get(j, p.obj)
	return shared(j.walk(o.val, p.path))
}

// shared marks an aggregate as no longer exclusively owned by the heap cell.
func shared(v Value) Value {
	switch x := v.(type) {
	case *ArrV:
		x.own = nil
	case *StructV:
		x.own = nil
	}
	return v
}

func (j *Job) walk(v Value, path []PElem) Value {
	for _, e := range path {
		if e.idx == nil {
			v = v.(*StructV).f[e.field]
		} else {
			v = j.selectArr(v.(*ArrV), e.idx)
		}
	}
	return v
}

// selectArr reads a[idx] (idx in range).
func (j *Job) selectArr(a *ArrV, idx *Term) Value {
	if idx.isC() {
		if idx.v >= uint64(len(a.e)) {
			panic(abortPath{"unsupported: internal: array index beyond object"})
		}
		return a.at(int(idx.v))
	}
	hi := min(idx.hi, uint64(len(a.e)-1))
	lo := min(idx.lo, hi)
	return j.mux(a, idx, lo, hi)
}

// mux selects a[idx] for lo <= idx <= hi by binary search on the index bits.
func (j *Job) mux(a *ArrV, idx *Term, lo, hi uint64) Value {
	if lo == hi {
		return a.at(int(lo))
	}
	// highest differing bit
	b := 63
	for (lo^hi)>>b&1 == 0 {
		b--
	}
	mid := (hi >> b) << b
	c := j.ts.Eq(j.ts.Extract(idx, uint64(b), 1), j.ts.C(1, 1))
	if c.isC() {
		if c.v != 0 {
			return j.mux(a, idx, mid, hi)
		}
		return j.mux(a, idx, lo, mid-1)
	}
	l := j.mux(a, idx, lo, mid-1)
	h := j.mux(a, idx, mid, hi)
	return mergeVal(j.ts, c, h, l)
}

func (j *Job) store(st *State, p PtrV, v Value) {
	if p.obj == 0 {
		j.require(st, j.ts.False, "panic", "nil pointer dereference")
	}
	o := st.get(j, p.obj)
	nv := j.update(st, o.val, p.path, v)
	if _, ok := st.heap[p.obj]; ok {
		switch x := nv.(type) {
		case *ArrV:
			if y, ok := o.val.(*ArrV); ok && x == y {
				return
			}
		case *StructV:
			if y, ok := o.val.(*StructV); ok && x == y {
				return
			}
		}
	}
	st.heap[p.obj] = &Obj{val: nv, typ: o.typ}
}

func (j *Job) ownArr(st *State, a *ArrV) *ArrV {
	if a.own == st.own {
		return a
	}
	n := &ArrV{e: append([]Value(nil), a.e...), zero: a.zero, own: st.own}
	for _, v := range n.e {
		if v == nil {
			continue
		}
		if _, ok := v.(*Term); ok {
			break
		}
		shared(v)
	}
	return n
}

func (j *Job) ownStruct(st *State, s *StructV) *StructV {
	if s.own == st.own {
		return s
	}
	for _, v := range s.f {
		shared(v)
	}
	return &StructV{f: append([]Value(nil), s.f...), own: st.own}
}

func (j *Job) update(st *State, old Value, path []PElem, v Value) Value {
	if len(path) == 0 {
		return shared(v)
	}
	e := path[0]
	if e.idx == nil {
		s := j.ownStruct(st, old.(*StructV))
		s.f[e.field] = j.update(st, s.f[e.field], path[1:], v)
		return s
	}
	a := j.ownArr(st, old.(*ArrV))
	if e.idx.isC() {
		i := int(e.idx.v)
		if i >= len(a.e) {
			panic(abortPath{"unsupported: internal: array store beyond object"})
		}
		a.e[i] = j.update(st, a.at(i), path[1:], v)
		return a
	}
	hi := min(e.idx.hi, uint64(len(a.e)-1))
	for i := e.idx.lo; i <= hi; i++ {
		c := j.ts.Eq(e.idx, j.ts.C(i, 64))
		if c == j.ts.False {
			continue
		}
		cur := a.at(int(i))
		shared(cur)
		nv := j.update(st, cur, path[1:], v)
		a.e[i] = mergeVal(j.ts, c, nv, cur)
	}
	return a
}

func (p PtrV) plus(e PElem) PtrV {
	np := make([]PElem, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = e
	return PtrV{p.obj, np}
}

func (j *Job) c64(v int) *Term { return j.ts.C(uint64(v), 64) }

// sliceElem returns the address of s[i] (i relative, in bounds).
func (j *Job) sliceElem(s SliceV, i *Term) PtrV {
	return PtrV{s.obj, s.path}.plus(PElem{idx: j.ts.Add(s.off, i)})
}

func (j *Job) arrOf(st *State, s SliceV) *ArrV {
	if s.obj == 0 {
		return &ArrV{}
	}
	return j.walk(st.get(j, s.obj).val, s.path).(*ArrV)
}

// sliceAt reads s[i] without a bounds check.
func (j *Job) sliceAt(st *State, s SliceV, i *Term) Value {
	return shared(j.selectArr(j.arrOf(st, s), j.ts.Add(s.off, i)))
}

// newArr allocates an array object and returns a slice over it.
func (j *Job) newArr(st *State, id int32, n int, zero Value, et types.Type) {
	if n > 1<<24 {
		j.unsupported("allocation of %d elements", n)
	}
	j.newObj(st, id, &ArrV{e: make([]Value, n), zero: zero, own: st.own}, types.NewArray(et, int64(n)))
}

// copyElems copies cnt elements from src (value snapshot) at srcOff to dst at dstOff.
func (j *Job) copyElems(st *State, dst SliceV, dstOff *Term, src *ArrV, srcOff, cnt *Term) {
	if cnt.isC() && cnt.v == 0 {
		return
	}
	ts := j.ts
	p := PtrV{dst.obj, dst.path}
	o := st.get(j, p.obj)
	old := j.walk(o.val, p.path).(*ArrV)
	na := &ArrV{e: append([]Value(nil), old.e...), zero: old.zero, own: st.own}
	if cnt.isC() && dstOff.isC() && srcOff.isC() {
		for i := uint64(0); i < cnt.v; i++ {
			na.e[dstOff.v+i] = shared(src.at(int(srcOff.v + i)))
		}
	} else {
		lo := dstOff.lo
		hi := dstOff.hi + cnt.hi
		if hi < cnt.hi || hi > uint64(len(na.e)) {
			hi = uint64(len(na.e))
		}
		for i := lo; i < hi; i++ {
			it := ts.C(i, 64)
			rel := ts.Sub(it, dstOff)
			c := ts.And(ts.Ule(dstOff, it), ts.Ult(rel, cnt))
			if c == ts.False {
				continue
			}
			si := ts.Add(rel, srcOff)
			if si.lo >= uint64(len(src.e)) {
				continue
			}
			var sv Value
			if si.isC() {
				sv = src.at(int(si.v))
			} else {
				sv = j.mux(src, si, min(si.lo, uint64(len(src.e)-1)), min(si.hi, uint64(len(src.e)-1)))
			}
			na.e[i] = mergeVal(ts, c, shared(sv), na.at(int(i)))
		}
	}
	nv := Value(na)
	if len(p.path) > 0 {
		nv = j.update(st, o.val, p.path, na)
	}
	st.heap[p.obj] = &Obj{val: nv, typ: o.typ}
}

// upper returns an upper bound for t under the path condition, at most lim; ok is false if t can exceed lim.
func (j *Job) upper(st *State, t *Term, lim uint64) (uint64, bool) {
	if t.hi <= lim {
		// try to tighten
		lo, hi := t.lo, t.hi
		if hi-lo > 64 {
			for k := 0; k < 8 && hi-lo > 4; k++ {
				mid := lo + (hi-lo)/2
				r, m := j.sat(st, j.ts.Ult(j.ts.C(mid, t.w), t))
				if r == Unsat {
					hi = mid
				} else {
					if m == nil {
						break
					}
					lo = max(mid+1, m.Eval(t))
				}
			}
		}
		return hi, true
	}
	r, _ := j.sat(st, j.ts.Ult(j.ts.C(lim, t.w), t))
	if r != Unsat {
		return lim, false
	}
	lo, hi := min(t.lo, lim), lim
	for k := 0; k < 10 && hi-lo > 4; k++ {
		mid := lo + (hi-lo)/2
		r, m := j.sat(st, j.ts.Ult(j.ts.C(mid, t.w), t))
		if r == Unsat {
			hi = mid
		} else {
			if m == nil {
				break
			}
			lo = max(mid+1, m.Eval(t))
		}
	}
	return hi, true
}

// concretize enumerates the feasible values of t (at most lim of them).
func (j *Job) concretize(st *State, t *Term, lim int) []struct {
	st *State
	v  uint64
} {
	type sv = struct {
		st *State
		v  uint64
	}
	if t.isC() {
		return []sv{{st, t.v}}
	}
	var out []sv
	cur := st
	for n := 0; ; n++ {
		r, m := j.sat(cur, j.ts.True)
		if r != Sat || m == nil {
			if cur.model == nil && r == Unknown {
				j.incomplete("concretize: unknown")
			}
			return out
		}
		if n >= lim {
			j.incomplete("concretize: too many values")
			return out
		}
		cur.model = m
		v := m.Eval(t)
		eq := j.ts.Eq(t, j.ts.C(v, t.w))
		rest := cur.fork()
		j.addPC(cur, eq)
		out = append(out, sv{cur, v})
		r2, m2 := j.sat(rest, j.ts.Not(eq))
		if r2 == Unsat {
			return out
		}
		rest.model = m2
		j.addPC(rest, j.ts.Not(eq))
		cur = rest
	}
}

// ---------- instructions that may fork

func one(st *State, v Value) []outcome { return []outcome{{st, []Value{v}}} }

func (j *Job) instrFork(fr *frame, f *fst, in ssa.Instruction) []outcome {
	ts := j.ts
	st := f.st
	switch x := in.(type) {
	case *ssa.UnOp:
		v := j.operand(fr, f, x.X)
		switch x.Op {
		case token.MUL:
			return one(st, j.load(st, v.(PtrV), x.X.Name()))
		case token.NOT:
			return one(st, ts.Not(v.(*Term)))
		case token.SUB:
			if fv, ok := v.(FloatV); ok {
				return one(st, -fv)
			}
			return one(st, ts.Neg(v.(*Term)))
		case token.XOR:
			return one(st, ts.BNot(v.(*Term)))
		}
		j.unsupported("unop %s", x.Op)
	case *ssa.BinOp:
		return j.binop(fr, f, x)
	case *ssa.Convert:
		return j.convert(f.st, j.operand(fr, f, x.X), x.X.Type(), x.Type(), func(e int) int32 { return j.ctx(fr.ctx, x, f.iterS, e) })
	case *ssa.Index:
		i := j.idx64(j.operand(fr, f, x.Index), x.Index.Type())
		switch a := j.operand(fr, f, x.X).(type) {
		case *ArrV:
			j.require(st, ts.Ult(i, j.c64(len(a.e))), "panic", "index out of range")
			return one(st, shared(j.selectArr(a, i)))
		case *StrV:
			if a.opaque {
				j.unsupported("index of opaque string")
			}
			arr, ln := strSym(ts, a)
			j.require(st, ts.Ult(i, ln), "panic", "index out of range")
			av := &ArrV{e: make([]Value, len(arr))}
			for k := range arr {
				av.e[k] = arr[k]
			}
			return one(st, j.selectArr(av, i))
		}
		j.unsupported("index")
	case *ssa.IndexAddr:
		i := j.idx64(j.operand(fr, f, x.Index), x.Index.Type())
		switch b := j.operand(fr, f, x.X).(type) {
		case SliceV:
			j.require(st, ts.Ult(i, b.len), "panic", "index out of range")
			return one(st, j.sliceElem(b, i))
		case PtrV:
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if b.obj == 0 {
				j.require(st, ts.False, "panic", "nil pointer dereference")
			}
			j.require(st, ts.Ult(i, ts.C(uint64(at.Len()), 64)), "panic", "index out of range")
			return one(st, b.plus(PElem{idx: i}))
		}
		j.unsupported("indexaddr")
	case *ssa.Slice:
		return one(st, j.sliceOp(fr, f, x))
	case *ssa.SliceToArrayPointer:
		s := j.operand(fr, f, x.X).(SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		j.require(st, ts.Ule(ts.C(uint64(n), 64), s.len), "panic", "slice to array conversion")
		if s.off.isC() && s.off.v == 0 {
			if arr := j.arrOf(st, s); int64(len(arr.e)) == n {
				return one(st, PtrV{s.obj, s.path})
			}
		}
		if v, ok := j.arrCopy(st, x, s, n, j.ctx(fr.ctx, x, f.iterS, 3)); ok {
			return one(st, v)
		}
		j.unsupported("slice to array pointer")
	case *ssa.MakeSlice:
		return one(st, j.makeSlice(fr, f, x))
	case *ssa.TypeAssert:
		return j.typeAssert(st, j.operand(fr, f, x.X), x.AssertedType, x.CommaOk)
	case *ssa.Lookup:
		return one(st, j.lookup(fr, f, x))
	case *ssa.Next:
		return j.next(fr, f, x)
	}
	panic("instrFork")
}

// idx64 widens an index to 64 bits; negative values become huge.
func (j *Job) idx64(v Value, t types.Type) *Term {
	x := v.(*Term)
	if x.w == 64 {
		return x
	}
	if isSigned(t) {
		return j.ts.SExt(x, 64)
	}
	return j.ts.ZExt(x, 64)
}

func (j *Job) sliceOp(fr *frame, f *fst, x *ssa.Slice) Value {
	ts := j.ts
	st := f.st
	bound := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return j.idx64(j.operand(fr, f, v), v.Type())
	}
	lo, hi, mx := bound(x.Low), bound(x.High), bound(x.Max)
	z := ts.C(0, 64)
	if lo == nil {
		lo = z
	}
	switch b := j.operand(fr, f, x.X).(type) {
	case *StrV:
		if b.opaque {
			j.unsupported("slice of opaque string")
		}
		arr, ln := strSym(ts, b)
		if hi == nil {
			hi = ln
		}
		j.require(st, ts.And(ts.Ule(hi, ln), ts.Ule(lo, hi)), "panic", "slice bounds out of range")
		if !lo.isC() {
			j.unsupported("string slice with symbolic start")
		}
		if !b.sym && hi.isC() {
			return &StrV{s: b.s[lo.v:hi.v]}
		}
		return &StrV{sym: true, arr: arr[lo.v:], ln: ts.Sub(hi, lo)}
	case SliceV:
		if hi == nil {
			hi = b.len
		}
		capT := b.cap
		if mx != nil {
			j.require(st, ts.Ule(mx, b.cap), "panic", "slice bounds out of range")
			capT = mx
		}
		j.require(st, ts.And(ts.Ule(hi, capT), ts.Ule(lo, hi)), "panic", "slice bounds out of range")
		if b.obj == 0 {
			return b
		}
		return SliceV{b.obj, b.path, ts.Add(b.off, lo), ts.Sub(hi, lo), ts.Sub(capT, lo)}
	case PtrV:
		if b.obj == 0 {
			j.require(st, ts.False, "panic", "nil pointer dereference")
		}
		n := ts.C(uint64(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), 64)
		if hi == nil {
			hi = n
		}
		capT := n
		if mx != nil {
			j.require(st, ts.Ule(mx, n), "panic", "slice bounds out of range")
			capT = mx
		}
		j.require(st, ts.And(ts.Ule(hi, capT), ts.Ule(lo, hi)), "panic", "slice bounds out of range")
		return SliceV{b.obj, b.path, lo, ts.Sub(hi, lo), ts.Sub(capT, lo)}
	}
	j.unsupported("slice operand")
	return nil
}

func (j *Job) allocCheck(st *State, n *Term, et types.Type) int {
	ts := j.ts
	esz := uint64(j.P.sizes.Sizeof(et))
	lim := uint64(j.Cfg.MaxAlloc)
	if j.allocLim > 0 {
		if esz == 0 {
			esz = 1
		}
		l := uint64(j.allocLim) / esz
		j.require(st, ts.Ule(n, ts.C(l, 64)), "alloc", fmt.Sprintf("allocation may exceed %d bytes", j.allocLim))
	}
	if n.isC() {
		return int(n.v)
	}
	// makeslice panics on negative or absurd sizes
	j.require(st, ts.Ult(n, ts.C(1<<47, 64)), "panic", "makeslice: len out of range")
	u, ok := j.upper(st, n, lim)
	if !ok {
		j.incomplete(fmt.Sprintf("allocation larger than %d elements not explored", lim))
		r, m := j.sat(st, ts.Ule(n, ts.C(lim, 64)))
		if r == Unsat {
			panic(abortPath{"done"})
		}
		st.model = m
		j.addPC(st, ts.Ule(n, ts.C(lim, 64)))
	}
	return int(u)
}

func (j *Job) makeSlice(fr *frame, f *fst, x *ssa.MakeSlice) Value {
	st := f.st
	et := x.Type().Underlying().(*types.Slice).Elem()
	ln := j.idx64(j.operand(fr, f, x.Len), x.Len.Type())
	cp := j.idx64(j.operand(fr, f, x.Cap), x.Cap.Type())
	if ln != cp {
		j.require(st, j.ts.Ule(ln, cp), "panic", "makeslice: cap out of range")
	}
	n := j.allocCheck(st, cp, et)
	id := j.ctx(fr.ctx, x, f.iterS, 0)
	j.newArr(st, id, n, j.zero(et), et)
	return SliceV{id, nil, j.ts.C(0, 64), ln, cp}
}

func (j *Job) typeAssert(st *State, v Value, at types.Type, commaOk bool) []outcome {
	iv, ok := v.(IfaceV)
	if !ok {
		j.unsupported("typeassert on %T", v)
	}
	match := false
	var res Value
	if iv.typ != nil {
		if it, ok := at.Underlying().(*types.Interface); ok {
			match = types.Implements(iv.typ, it) || types.AssertableTo(it, iv.typ) && types.Implements(iv.typ, it)
			res = iv
		} else {
			match = types.Identical(iv.typ, at)
			res = iv.v
		}
	}
	if commaOk {
		if !match {
			res = j.zero(at)
		}
		return one(st, TupleV{res, j.ts.B(match)})
	}
	if !match {
		j.require(st, j.ts.False, "panic", "interface conversion")
	}
	return one(st, res)
}

// ---------- instructions that do not fork

func (j *Job) instr(fr *frame, f *fst, in ssa.Instruction) {
	ts := j.ts
	st := f.st
	set := func(v ssa.Value, val Value) { f.regs[fr.fi.reg[v]] = val }
	switch x := in.(type) {
	case *ssa.Alloc:
		id := j.ctx(fr.ctx, x, f.iterS, 0)
		et := x.Type().Underlying().(*types.Pointer).Elem()
		j.newObj(st, id, j.zero(et), et)
		set(x, PtrV{obj: id})
	case *ssa.Store:
		j.store(st, j.operand(fr, f, x.Addr).(PtrV), j.operand(fr, f, x.Val))
	case *ssa.FieldAddr:
		p := j.operand(fr, f, x.X).(PtrV)
		if p.obj == 0 {
			j.require(st, ts.False, "panic", "nil pointer dereference")
		}
		set(x, p.plus(PElem{field: x.Field}))
	case *ssa.Field:
		set(x, shared(j.operand(fr, f, x.X).(*StructV).f[x.Field]))
	case *ssa.Extract:
		set(x, j.operand(fr, f, x.Tuple).(TupleV)[x.Index])
	case *ssa.MakeInterface:
		set(x, IfaceV{x.X.Type(), j.operand(fr, f, x.X)})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		ops := in.Operands(nil)
		set(in.(ssa.Value), j.operand(fr, f, *ops[0]))
	case *ssa.MakeClosure:
		b := make([]Value, len(x.Bindings))
		for i, v := range x.Bindings {
			b[i] = j.operand(fr, f, v)
		}
		set(x, &FuncV{fn: x.Fn.(*ssa.Function), bind: b})
	case *ssa.MakeMap:
		id := j.ctx(fr.ctx, x, f.iterS, 0)
		j.newObj(st, id, &mapObj{}, x.Type())
		set(x, MapV{id})
	case *ssa.MapUpdate:
		m := j.operand(fr, f, x.Map).(MapV)
		j.mapSet(st, m, j.operand(fr, f, x.Key), j.operand(fr, f, x.Value))
	case *ssa.Range:
		switch v := j.operand(fr, f, x.X).(type) {
		case MapV:
			it := &IterV{}
			if v.obj != 0 {
				it.ents = st.get(j, v.obj).val.(*mapObj).ents
			}
			id := j.ctx(fr.ctx, x, f.iterS, 1)
			j.newObj(st, id, ts.C(0, 64), types.Typ[types.Int])
			it.cell = id
			set(x, it)
		case *StrV:
			if v.opaque || v.sym {
				j.unsupported("range over symbolic string")
			}
			id := j.ctx(fr.ctx, x, f.iterS, 1)
			j.newObj(st, id, ts.C(0, 64), types.Typ[types.Int])
			set(x, &IterV{isS: true, str: v.s, cell: id})
		default:
			j.unsupported("range over %T", v)
		}
	case *ssa.DebugRef:
	case *ssa.Go:
		j.unsupported("go statement")
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		j.unsupported("channel operation")
	default:
		j.unsupported("instruction %T", in)
	}
}

func (j *Job) next(fr *frame, f *fst, x *ssa.Next) []outcome {
	ts := j.ts
	st := f.st
	it := j.operand(fr, f, x.Iter).(*IterV)
	cell := st.get(j, it.cell).val.(*Term)
	if !cell.isC() {
		j.unsupported("symbolic iterator")
	}
	pos := int(cell.v)
	if it.isS {
		if pos >= len(it.str) {
			return one(st, TupleV{ts.False, ts.C(0, 64), ts.C(0, 32)})
		}
		var r rune
		n := 0
		for i, c := range it.str[pos:] {
			if i > 0 {
				n = i
				break
			}
			r = c
		}
		if n == 0 {
			n = len(it.str) - pos
		}
		st.heap[it.cell] = &Obj{val: ts.C(uint64(pos+n), 64), typ: types.Typ[types.Int]}
		return one(st, TupleV{ts.True, ts.C(uint64(pos), 64), ts.C(uint64(r), 32)})
	}
	tt := x.Type().(*types.Tuple)
	var outs []outcome
	cur := st
	for pos < len(it.ents) {
		e := it.ents[pos]
		pos++
		a, b := j.branch(cur, e.present)
		if a != nil {
			a.heap[it.cell] = &Obj{val: ts.C(uint64(pos), 64), typ: types.Typ[types.Int]}
			k, v := e.k, e.v
			if types.Identical(tt.At(1).Type(), types.Typ[types.Invalid]) {
				k = ts.C(0, 64)
			}
			if types.Identical(tt.At(2).Type(), types.Typ[types.Invalid]) {
				v = ts.C(0, 64)
			}
			outs = append(outs, outcome{a, []Value{TupleV{ts.True, k, v}}})
		}
		if b == nil {
			return outs
		}
		cur = b
	}
	cur.heap[it.cell] = &Obj{val: ts.C(uint64(pos), 64), typ: types.Typ[types.Int]}
	var zk, zv Value = ts.C(0, 64), ts.C(0, 64)
	if !types.Identical(tt.At(1).Type(), types.Typ[types.Invalid]) {
		zk = j.zero(tt.At(1).Type())
	}
	if !types.Identical(tt.At(2).Type(), types.Typ[types.Invalid]) {
		zv = j.zero(tt.At(2).Type())
	}
	return append(outs, outcome{cur, []Value{TupleV{ts.False, zk, zv}}})
}

func (j *Job) lookup(fr *frame, f *fst, x *ssa.Lookup) Value {
	ts := j.ts
	st := f.st
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		s := j.operand(fr, f, x.X).(*StrV)
		i := j.idx64(j.operand(fr, f, x.Index), x.Index.Type())
		if s.opaque {
			j.unsupported("index of opaque string")
		}
		arr, ln := strSym(ts, s)
		j.require(st, ts.Ult(i, ln), "panic", "index out of range")
		av := &ArrV{e: make([]Value, len(arr))}
		for k := range arr {
			av.e[k] = arr[k]
		}
		return j.selectArr(av, i)
	}
	m := j.operand(fr, f, x.X).(MapV)
	v, found := j.mapGet(st, m, j.operand(fr, f, x.Index), mt.Elem())
	if x.CommaOk {
		return TupleV{v, found}
	}
	return v
}

func (j *Job) mapGet(st *State, m MapV, k Value, et types.Type) (Value, *Term) {
	ts := j.ts
	var v Value = j.zero(et)
	found := ts.False
	if m.obj == 0 {
		return v, found
	}
	ents := st.get(j, m.obj).val.(*mapObj).ents
	for i := len(ents) - 1; i >= 0; i-- {
		e := ents[i]
		c := ts.And(e.present, j.eqVal(st, e.k, k))
		if c == ts.False {
			continue
		}
		v = mergeVal(ts, c, e.v, v)
		found = ts.Or(found, c)
	}
	return v, found
}

func (j *Job) mapSet(st *State, m MapV, k, v Value) {
	ts := j.ts
	if m.obj == 0 {
		j.require(st, ts.False, "panic", "assignment to entry in nil map")
	}
	o := st.get(j, m.obj)
	ents := append([]mapEnt(nil), o.val.(*mapObj).ents...)
	found := ts.False
	for i, e := range ents {
		c := j.eqVal(st, e.k, k)
		if c == ts.False {
			continue
		}
		ents[i].v = mergeVal(ts, c, v, e.v)
		ents[i].present = ts.Or(e.present, c)
		found = ts.Or(found, c)
	}
	if found != ts.True {
		ents = append(ents, mapEnt{k, v, ts.Not(found)})
	}
	st.heap[m.obj] = &Obj{val: &mapObj{ents}, typ: o.typ}
}

// eqVal computes a == b.
func (j *Job) eqVal(st *State, a, b Value) *Term {
	ts := j.ts
	if u, ok := a.(*UnionV); ok {
		r := ts.False
		for _, x := range u.alts {
			r = ts.Or(r, ts.And(x.g, j.eqVal(st, x.v, b)))
		}
		return r
	}
	if _, ok := b.(*UnionV); ok {
		return j.eqVal(st, b, a)
	}
	switch x := a.(type) {
	case *Term:
		return ts.Eq(x, b.(*Term))
	case FloatV:
		if y, ok := b.(FloatV); ok {
			return ts.B(x == y)
		}
		j.unsupported("comparison of symbolic floats")
	case *FSym:
		j.unsupported("comparison of symbolic floats")
	case *StrV:
		y := b.(*StrV)
		if x.opaque || y.opaque {
			if x == y {
				return ts.True
			}
			j.unsupported("comparison of opaque strings")
		}
		if !x.sym && !y.sym {
			return ts.B(x.s == y.s)
		}
		xa, xl := strSym(ts, x)
		ya, yl := strSym(ts, y)
		r := ts.Eq(xl, yl)
		for i := 0; i < max(len(xa), len(ya)); i++ {
			if i >= len(xa) || i >= len(ya) {
				r = ts.And(r, ts.Ule(xl, j.c64(i)))
				break
			}
			r = ts.And(r, ts.Or(ts.Ule(xl, j.c64(i)), ts.Eq(xa[i], ya[i])))
		}
		return r
	case PtrV:
		y, ok := b.(PtrV)
		if !ok {
			return ts.False
		}
		if x.obj != y.obj {
			return ts.False
		}
		if x.obj == 0 {
			return ts.True
		}
		if x.obj == opaqueErrObj {
			j.unsupported("identity of opaque errors")
		}
		if len(x.path) != len(y.path) {
			return ts.False
		}
		r := ts.True
		for i := range x.path {
			if x.path[i].idx == nil {
				if x.path[i].field != y.path[i].field {
					return ts.False
				}
			} else {
				r = ts.And(r, ts.Eq(x.path[i].idx, y.path[i].idx))
			}
		}
		return r
	case SliceV: // only against nil
		y := b.(SliceV)
		if x.obj == 0 {
			return ts.B(y.obj == 0)
		}
		return ts.B(x.obj == 0 && y.obj == 0)
	case MapV:
		return ts.B(x.obj == b.(MapV).obj)
	case TypeV:
		return ts.B(sameVal(x, b))
	case *FuncV:
		y := b.(*FuncV)
		return ts.B(x.fn == nil && x.blt == nil && y.fn == nil && y.blt == nil)
	case *StructV:
		y := b.(*StructV)
		r := ts.True
		for i := range x.f {
			r = ts.And(r, j.eqVal(st, x.f[i], y.f[i]))
		}
		return r
	case *ArrV:
		y := b.(*ArrV)
		r := ts.True
		for i := range x.e {
			r = ts.And(r, j.eqVal(st, x.at(i), y.at(i)))
		}
		return r
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return ts.False
		}
		if x.typ == nil || y.typ == nil {
			return ts.B(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return ts.False
		}
		return j.eqVal(st, x.v, y.v)
	}
	j.unsupported("equality of %T", a)
	return nil
}

func (j *Job) binop(fr *frame, f *fst, x *ssa.BinOp) []outcome {
	ts := j.ts
	st := f.st
	a := j.operand(fr, f, x.X)
	b := j.operand(fr, f, x.Y)
	switch x.Op {
	case token.EQL:
		return one(st, j.eqMixed(st, a, b, x))
	case token.NEQ:
		return one(st, ts.Not(j.eqMixed(st, a, b, x)))
	}
	_, sx1 := a.(*FSym)
	_, sx2 := b.(*FSym)
	if sx1 || sx2 {
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return one(st, &FSym{op: x.Op.String(), a: a, b: b})
		}
		j.unsupported("comparison of symbolic floats")
	}
	if fa, ok := a.(FloatV); ok {
		fb := b.(FloatV)
		switch x.Op {
		case token.ADD:
			return one(st, fa+fb)
		case token.SUB:
			return one(st, fa-fb)
		case token.MUL:
			return one(st, fa*fb)
		case token.QUO:
			return one(st, fa/fb)
		case token.LSS:
			return one(st, ts.B(fa < fb))
		case token.LEQ:
			return one(st, ts.B(fa <= fb))
		case token.GTR:
			return one(st, ts.B(fa > fb))
		case token.GEQ:
			return one(st, ts.B(fa >= fb))
		}
		j.unsupported("float op")
	}
	if sa, ok := a.(*StrV); ok {
		sb := b.(*StrV)
		if x.Op == token.ADD {
			if sa.opaque || sb.opaque {
				return one(st, &StrV{opaque: true})
			}
			if !sa.sym && !sb.sym {
				return one(st, &StrV{s: sa.s + sb.s})
			}
			xa, xl := strSym(ts, sa)
			ya, yl := strSym(ts, sb)
			if xl.isC() {
				arr := append(append([]*Term(nil), xa[:xl.v]...), ya...)
				return one(st, &StrV{sym: true, arr: arr, ln: ts.Add(xl, yl)})
			}
			return one(st, &StrV{opaque: true})
		}
		if !sa.sym && !sb.sym && !sa.opaque && !sb.opaque {
			switch x.Op {
			case token.LSS:
				return one(st, ts.B(sa.s < sb.s))
			case token.LEQ:
				return one(st, ts.B(sa.s <= sb.s))
			case token.GTR:
				return one(st, ts.B(sa.s > sb.s))
			case token.GEQ:
				return one(st, ts.B(sa.s >= sb.s))
			}
		}
		j.unsupported("string op")
	}
	p, ok := a.(*Term)
	if !ok {
		j.unsupported("binop on %T", a)
	}
	q := b.(*Term)
	sg := isSigned(x.X.Type())
	switch x.Op {
	case token.ADD:
		return one(st, ts.Add(p, q))
	case token.SUB:
		return one(st, ts.Sub(p, q))
	case token.MUL:
		return one(st, ts.Mul(p, q))
	case token.QUO, token.REM:
		j.require(st, ts.Not(ts.Eq(q, ts.C(0, q.w))), "panic", "integer divide by zero")
		switch {
		case sg && x.Op == token.QUO:
			return one(st, ts.Sdiv(p, q))
		case sg:
			return one(st, ts.Srem(p, q))
		case x.Op == token.QUO:
			return one(st, ts.Udiv(p, q))
		default:
			return one(st, ts.Urem(p, q))
		}
	case token.AND:
		if p.w == 0 {
			return one(st, ts.And(p, q))
		}
		return one(st, ts.BAnd(p, q))
	case token.OR:
		if p.w == 0 {
			return one(st, ts.Or(p, q))
		}
		return one(st, ts.BOr(p, q))
	case token.XOR:
		return one(st, ts.BXor(p, q))
	case token.AND_NOT:
		return one(st, ts.BAnd(p, ts.BNot(q)))
	case token.SHL, token.SHR:
		if isSigned(x.Y.Type()) {
			j.require(st, ts.Sle(ts.C(0, q.w), q), "panic", "negative shift amount")
		}
		var over *Term = ts.False
		amt := q
		if q.w > p.w {
			over = ts.Ule(ts.C(uint64(p.w), q.w), q)
			amt = ts.Extract(q, 0, p.w)
		} else if q.w < p.w {
			amt = ts.ZExt(q, p.w)
		}
		var r, sat *Term
		switch {
		case x.Op == token.SHL:
			r, sat = ts.Shl(p, amt), ts.C(0, p.w)
		case sg:
			r, sat = ts.Ashr(p, amt), ts.Ashr(p, ts.C(uint64(p.w)-1, p.w))
		default:
			r, sat = ts.Lshr(p, amt), ts.C(0, p.w)
		}
		return one(st, ts.Ite(over, sat, r))
	case token.LSS:
		if sg {
			return one(st, ts.Slt(p, q))
		}
		return one(st, ts.Ult(p, q))
	case token.LEQ:
		if sg {
			return one(st, ts.Sle(p, q))
		}
		return one(st, ts.Ule(p, q))
	case token.GTR:
		if sg {
			return one(st, ts.Slt(q, p))
		}
		return one(st, ts.Ult(q, p))
	case token.GEQ:
		if sg {
			return one(st, ts.Sle(q, p))
		}
		return one(st, ts.Ule(q, p))
	}
	j.unsupported("binop %s", x.Op)
	return nil
}

// eqMixed handles comparisons between an interface and a concrete value.
func (j *Job) eqMixed(st *State, a, b Value, x *ssa.BinOp) *Term {
	_, ia := x.X.Type().Underlying().(*types.Interface)
	_, ib := x.Y.Type().Underlying().(*types.Interface)
	if ia && !ib {
		if _, ok := b.(IfaceV); !ok {
			b = IfaceV{x.Y.Type(), b}
		}
	}
	if ib && !ia {
		if _, ok := a.(IfaceV); !ok {
			a = IfaceV{x.X.Type(), a}
		}
	}
	return j.eqVal(st, a, b)
}

func (j *Job) convert(st *State, v Value, from, to types.Type, mkID func(int) int32) []outcome {
	ts := j.ts
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if fb, ok := fu.(*types.Basic); ok {
			fi, ti := fb.Info(), tb.Info()
			switch {
			case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
				x := v.(*Term)
				w := j.width(tb)
				if w <= x.w {
					return one(st, ts.Extract(x, 0, w))
				}
				if isSigned(from) {
					return one(st, ts.SExt(x, w))
				}
				return one(st, ts.ZExt(x, w))
			case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
				var out []outcome
				if t := v.(*Term); !t.isC() && t.hi > 4096 {
					op := "u"
					if isSigned(from) {
						op = "s"
					}
					return one(st, &FSym{op: op, t: t})
				}
				for _, c := range j.concretize(st, v.(*Term), 300) {
					x := ts.C(c.v, v.(*Term).w)
					if isSigned(from) {
						out = append(out, outcome{c.st, []Value{FloatV(float64(sx(x.v, x.w)))}})
					} else {
						out = append(out, outcome{c.st, []Value{FloatV(float64(x.v))}})
					}
				}
				return out
			case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
				if _, ok := v.(*FSym); ok {
					// over-approximation: any value
					j.nHavoc++
					return one(st, ts.Var(fmt.Sprintf("havoc#%d", j.nHavoc), j.width(tb)))
				}
				fl := float64(v.(FloatV))
				if math.IsNaN(fl) || math.IsInf(fl, 0) {
					return one(st, ts.C(1<<63, j.width(tb)))
				}
				if fl < 0 {
					return one(st, ts.C(uint64(int64(fl)), j.width(tb)))
				}
				return one(st, ts.C(uint64(fl), j.width(tb)))
			case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
				if tb.Kind() == types.Float32 {
					return one(st, FloatV(float32(v.(FloatV))))
				}
				return one(st, v)
			case fi&types.IsString != 0 && ti&types.IsString != 0:
				return one(st, v)
			case fi&types.IsInteger != 0 && ti&types.IsString != 0:
				x := v.(*Term)
				if x.isC() {
					return one(st, &StrV{s: string(rune(x.v))})
				}
			case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
				j.unsupported("unsafe conversion")
			}
		}
		if tb.Info()&types.IsString != 0 {
			if s, ok := v.(SliceV); ok { // []byte -> string
				if s.obj == 0 {
					return one(st, &StrV{})
				}
				n, ok := j.upper(st, s.len, uint64(j.Cfg.MaxAlloc))
				if !ok {
					j.unsupported("string of unbounded length")
				}
				arr := make([]*Term, n)
				conc := s.len.isC()
				src := j.arrOf(st, s)
				for i := range arr {
					idx := ts.Add(s.off, j.c64(i))
					if idx.lo >= uint64(len(src.e)) {
						arr = arr[:i]
						break
					}
					arr[i] = j.selectArr(src, idx).(*Term)
					if !arr[i].isC() {
						conc = false
					}
				}
				if conc {
					bs := make([]byte, len(arr))
					for i := range bs {
						bs[i] = byte(arr[i].v)
					}
					return one(st, &StrV{s: string(bs)})
				}
				return one(st, &StrV{sym: true, arr: arr, ln: s.len})
			}
		}
	}
	if ts2, ok := tu.(*types.Slice); ok {
		if s, ok := v.(*StrV); ok { // string -> []byte
			if s.opaque {
				j.unsupported("bytes of opaque string")
			}
			if eb, ok := ts2.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				arr, ln := strSym(ts, s)
				id := mkID(7)
				av := &ArrV{e: make([]Value, len(arr)), zero: ts.C(0, 8), own: st.own}
				for i := range arr {
					av.e[i] = arr[i]
				}
				j.newObj(st, id, av, types.NewArray(ts2.Elem(), int64(len(arr))))
				return one(st, SliceV{id, nil, ts.C(0, 64), ln, j.c64(len(arr))})
			}
		}
	}
	if _, ok := v.(PtrV); ok {
		if _, ok := tu.(*types.Pointer); ok {
			return one(st, v)
		}
	}
	j.unsupported("conversion %s -> %s", from, to)
	return nil
}

// ---------- calls

func (j *Job) call(fr *frame, f *fst, in ssa.Instruction, c *ssa.CallCommon, iter string) []outcome {
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = j.operand(fr, f, a)
	}
	var fv Value
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = j.operand(fr, f, c.Value)
	}
	return j.callValue(fr, f, in, c, fv, args, iter)
}

func (j *Job) callValue(fr *frame, f *fst, in ssa.Instruction, c *ssa.CallCommon, fv Value, args []Value, iter string) []outcome {
	st := f.st
	ctx := j.ctx(fr.ctx, in, iter, 0)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return j.builtin(fr, f, in, b, c, args, iter)
	}
	if c.IsInvoke() {
		iv, ok := fv.(IfaceV)
		if !ok {
			j.unsupported("invoke on %T", fv)
		}
		if iv.typ == nil {
			j.require(st, j.ts.False, "panic", "nil pointer dereference (method call on nil interface)")
		}
		if r, ok := j.opaqueMethod(iv, c.Method.Name()); ok {
			return one(st, r)
		}
		if tv, ok := iv.v.(TypeV); ok {
			return j.typeMethod(st, tv.t, c.Method.Name(), args)
		}
		fn := j.P.ssa.LookupMethod(iv.typ, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			j.unsupported("method %s on %s", c.Method.Name(), iv.typ)
		}
		args = append([]Value{iv.v}, args...)
		return j.invokeFn(fr, st, in, fn, args, nil, ctx, iter)
	}
	fn, ok := fv.(*FuncV)
	if !ok {
		j.unsupported("call of %T", fv)
	}
	if fn.fn == nil {
		if fn.blt != nil {
			return j.builtin(fr, f, in, fn.blt, c, args, iter)
		}
		j.require(st, j.ts.False, "panic", "call of nil function")
	}
	return j.invokeFn(fr, st, in, fn.fn, args, fn.bind, ctx, iter)
}

func (j *Job) invokeFn(fr *frame, st *State, in ssa.Instruction, fn *ssa.Function, args, bind []Value, ctx int32, iter string) []outcome {
	name := fn.String()
	if h, ok := intrinsics[name]; ok {
		return h(&ictx{j: j, fr: fr, st: st, in: in, ctx: ctx, fn: fn, args: args})
	}
	if o := fn.Origin(); o != nil {
		if h, ok := intrinsics[o.String()]; ok {
			return h(&ictx{j: j, fr: fr, st: st, in: in, ctx: ctx, fn: fn, args: args})
		}
	}
	if len(fn.Blocks) == 0 && fn.Synthetic == "" {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Synthetic != "" && fn.Signature.Recv() == nil {
		return []outcome{{st, nil}} // package initialisers are run by ensureInit
	}
	if j.inInit && skipInitCall(fn) {
		res := fn.Signature.Results()
		ret := make([]Value, res.Len())
		for i := range ret {
			ret[i] = j.zero(res.At(i).Type())
		}
		return []outcome{{st, ret}}
	}
	return j.runFunction(fn, args, bind, st, ctx, fr.depth+1)
}
