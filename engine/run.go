package main

// Scheduling of harness instances, native replay, reporting.

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Kind     string `json:"kind"`
	Msg      string `json:"msg"`
	Site     string `json:"site"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

type jobRes struct {
	h     *Harness
	cases map[string]int
	job   *Job
	wall  time.Duration
	err   string
	fin   bool
}

type replayCase struct {
	Harness string            `json:"harness"`
	Cases   map[string]int    `json:"cases"`
	Vars    map[string]uint64 `json:"vars"`
	Kind    string            `json:"kind,omitempty"`
	Msg     string            `json:"msg,omitempty"`
	Pos     string            `json:"pos,omitempty"`
	Trace   []string          `json:"trace,omitempty"`
	Native  string            `json:"native,omitempty"`
	How     string            `json:"how,omitempty"`
}

type runner struct {
	P       *Prog
	verif   string
	repo    string
	prop    string
	tier    string
	scratch string
	binOnce sync.Once
	binPath string
	binErr  error
	ctx     context.Context
	cancel  context.CancelFunc
	mu      sync.Mutex
	known   []knownFinding
	hits    map[int]int
	viol    []string
	notes   map[string]int
	replays int
	replayN int
	mism    []string
	valid   int
	seen    map[string]int
	verbose bool
	keep    bool
	budget  time.Duration
	start   time.Time
	stop    atomic.Bool
	over    bool
}

func newJob(p *Prog, h *Harness, cases map[string]int, deadline time.Time) *Job {
	ts := NewTS()
	j := &Job{P: p, ts: ts, Harness: h.Fn, Cases: cases, Cfg: h.Cfg}
	j.sol = NewSolver(ts, h.Cfg.Soft, h.Cfg.Hard)
	j.base = map[int32]*Obj{}
	j.ctxs = map[ctxKey]int32{}
	j.globals = map[*ssaGlobal]int32{}
	j.cache = map[string]Res{}
	j.vseen = map[string]bool{}
	j.Incompl = map[string]int{}
	j.Reached = map[string]bool{}
	j.Funcs = map[string]int{}
	j.asserted = map[string]bool{}
	j.DeclVars = map[string]bool{}
	j.inits = map[*ssaPackage]bool{}
	j.deadline = deadline
	j.sol.deadline = deadline
	return j
}

func (j *Job) run() {
	defer j.sol.Close()
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abortPath); ok {
				j.incomplete(a.why)
				return
			}
			j.incomplete(fmt.Sprintf("internal error: %v", r))
			if os.Getenv("SYM_TRACE") != "" {
				fmt.Fprintln(os.Stderr, r, string(debug.Stack()))
			}
		}
	}()
	j.ensureInit(j.Harness.Pkg)
	st := &State{heap: map[int32]*Obj{}, own: new(owner), model: newModel()}
	var outs []outcome
	j.guard(func() { outs = j.runFunction(j.Harness, nil, nil, st, 1, 0) })
	for _, o := range outs {
		j.Paths++
		if len(j.Finals) >= 2 && j.Paths%7 != 0 || len(j.Finals) >= 4 {
			continue
		}
		m := o.st.model
		if m == nil {
			var r Res
			r, m = j.sat(o.st, j.ts.True)
			if r != Sat {
				continue
			}
		}
		fm := finalModel{Vars: j.modelVars(m)}
		for p := o.st.obs; p != nil; p = p.up {
			fm.Obs = append([]obsVal{{p.name, m.Eval(p.t)}}, fm.Obs...)
		}
		j.Finals = append(j.Finals, fm)
	}
}

// ---------- native replay

func (r *runner) native() (string, error) {
	r.binOnce.Do(func() {
		ov := map[string]string{}
		for k, v := range r.P.overlay {
			ov[k] = v
		}
		var sb strings.Builder
		sb.WriteString("package main\n\nimport (\n\t\"" + modPath + "/internal/vnd\"\n")
		pk := map[string]string{}
		for _, h := range r.P.harn {
			if _, ok := pk[h.Pkg]; !ok {
				pk[h.Pkg] = fmt.Sprintf("p%d", len(pk))
				fmt.Fprintf(&sb, "\t%s %q\n", pk[h.Pkg], h.Pkg)
			}
		}
		sb.WriteString(")\n\nfunc main() {\n\tvnd.Main(map[string]func(){\n")
		for _, h := range r.P.harn {
			fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", h.Name, pk[h.Pkg], h.Func)
		}
		sb.WriteString("\t})\n}\n")
		mf := filepath.Join(r.scratch, "main.go")
		if r.binErr = os.WriteFile(mf, []byte(sb.String()), 0o644); r.binErr != nil {
			return
		}
		ov[filepath.Join(r.repo, "internal", "vhmain", "main.go")] = mf
		b, _ := json.Marshal(map[string]any{"Replace": ov})
		of := filepath.Join(r.scratch, "overlay.json")
		if r.binErr = os.WriteFile(of, b, 0o644); r.binErr != nil {
			return
		}
		r.binPath = filepath.Join(r.scratch, "replay.bin")
		c := exec.Command("go", "build", "-overlay", of, "-o", r.binPath, "./internal/vhmain")
		c.Dir = r.repo
		c.Env = goEnv()
		if o, err := c.CombinedOutput(); err != nil {
			r.binErr = fmt.Errorf("replay build: %v: %s", err, o)
		}
	})
	return r.binPath, r.binErr
}

type natRes struct {
	status string // OK, ASSERT, PANIC, HANG, ALLOC, ASSUME, ERR
	msg    string
	obs    []obsVal
}

func (r *runner) replay(rc *replayCase) (natRes, error) {
	bin, err := r.native()
	if err != nil {
		return natRes{}, err
	}
	f, err := os.CreateTemp(r.scratch, "in*.json")
	if err != nil {
		return natRes{}, err
	}
	b, _ := json.Marshal(rc)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, f.Name())
	c.Dir = r.scratch
	c.Env = []string{"GOMEMLIMIT=3GiB", "GOTRACEBACK=single", "HOME=/nonexistent"}
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	err = c.Run()
	if ctx.Err() != nil {
		return natRes{status: "HANG", msg: "no result within 20 s"}, nil
	}
	res := natRes{status: "ERR", msg: out.String()}
	for _, l := range strings.Split(out.String(), "\n") {
		switch {
		case l == "VH-OK":
			res.status, res.msg = "OK", ""
		case strings.HasPrefix(l, "VH-ASSERT "):
			res.status, res.msg = "ASSERT", l[10:]
		case strings.HasPrefix(l, "VH-PANIC "):
			res.status, res.msg = "PANIC", l[9:]
		case strings.HasPrefix(l, "VH-ALLOC "):
			res.status, res.msg = "ALLOC", l[9:]
		case strings.HasPrefix(l, "VH-ASSUME"):
			res.status, res.msg = "ASSUME", l
		case strings.HasPrefix(l, "VH-OBS "):
			var o obsVal
			fmt.Sscanf(l[7:], "%s %d", &o.Name, &o.Val)
			res.obs = append(res.obs, o)
		}
	}
	if res.status == "ERR" && strings.Contains(res.msg, "out of memory") {
		res.status = "ALLOC"
	}
	if len(res.msg) > 2000 {
		res.msg = res.msg[:2000]
	}
	return res, nil
}

// handle replays the candidate violations of a finished job and validates sample paths.
func (r *runner) handle(jr *jobRes) {
	j := jr.job
	for i := range j.Viol {
		v := &j.Viol[i]
		r.mu.Lock()
		key := jr.h.Name + "|" + v.Kind + "|" + v.Msg + "|" + v.Pos
		n := r.seen[key]
		r.seen[key]++
		r.mu.Unlock()
		if n >= 3 { // enough attempts at the same site
			continue
		}
		rc := &replayCase{Harness: jr.h.Name, Cases: jr.cases, Vars: v.Vars, Kind: v.Kind, Msg: v.Msg, Pos: v.Pos, Trace: v.Trace}
		nr, err := r.replay(rc)
		r.mu.Lock()
		r.replays++
		r.mu.Unlock()
		if err != nil {
			r.note("replay failed: " + err.Error())
			continue
		}
		rc.Native = nr.status + " " + nr.msg
		if nr.status == "OK" || nr.status == "ASSUME" || nr.status == "ERR" {
			if v.Kind == "unwind" {
				r.note(fmt.Sprintf("%s: bound reached at %s (terminates natively)", jr.h.Name, v.Pos))
			} else {
				r.note(fmt.Sprintf("%s: candidate not reproduced natively: %s %s at %s (native: %s)", jr.h.Name, v.Kind, v.Msg, v.Pos, nr.status))
				if r.verbose {
					b, _ := json.Marshal(rc)
					fmt.Fprintln(os.Stderr, "NOT REPRODUCED", string(b))
				}
			}
			continue
		}
		r.confirmed(rc, nr)
	}
	max := 1
	if r.tier == "thorough" {
		max = 3
	}
	for i, fm := range j.Finals {
		if i >= max {
			break
		}
		r.mu.Lock()
		k := r.seen["val|"+jr.h.Name]
		r.seen["val|"+jr.h.Name]++
		r.mu.Unlock()
		if k >= 6*max {
			break
		}
		rc := &replayCase{Harness: jr.h.Name, Cases: jr.cases, Vars: fm.Vars}
		nr, err := r.replay(rc)
		if err != nil {
			r.note("replay failed: " + err.Error())
			break
		}
		bad := ""
		if nr.status != "OK" {
			bad = "native run: " + nr.status + " " + nr.msg
		} else {
			m := map[string][]uint64{}
			for _, o := range nr.obs {
				m[o.Name] = append(m[o.Name], o.Val)
			}
			idx := map[string]int{}
			for _, o := range fm.Obs {
				k := idx[o.Name]
				idx[o.Name]++
				if k < len(m[o.Name]) && m[o.Name][k] != o.Val {
					bad = fmt.Sprintf("observation %s: symbolic %d native %d", o.Name, o.Val, m[o.Name][k])
				}
			}
		}
		r.mu.Lock()
		if r.over {
			// too late for the report
		} else if bad == "" {
			r.valid++
		} else {
			r.mism = append(r.mism, jr.h.Name+": "+bad)
		}
		r.mu.Unlock()
		if bad != "" && (nr.status == "PANIC" || nr.status == "ASSERT" || nr.status == "HANG") {
			// the real code violates on a concrete input of an explored path
			rc.Kind, rc.Msg = strings.ToLower(nr.status), nr.msg
			rc.Native = nr.status + " " + nr.msg
			r.confirmed(rc, nr)
		}
	}
}

func (r *runner) note(s string) {
	r.mu.Lock()
	if !r.over {
		r.notes[s]++
	}
	r.mu.Unlock()
}

func (r *runner) confirmed(rc *replayCase, nr natRes) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.over {
		return
	}
	for i, k := range r.known {
		if k.Status == "fixed" || (k.Property != "" && k.Property != r.prop) || k.Harness != rc.Harness {
			continue
		}
		if k.Kind != "" && !strings.EqualFold(k.Kind, nr.status) {
			continue
		}
		if k.Msg != "" && !strings.Contains(nr.msg, k.Msg) {
			continue
		}
		if k.Site != "" && !strings.Contains(nr.msg, k.Site) {
			continue
		}
		r.hits[i]++
		return
	}
	if len(r.viol) >= 20 {
		return
	}
	rc.How = "bash /verif/check.sh replay <this file>"
	b, _ := json.MarshalIndent(rc, "", "  ")
	dir := filepath.Join(r.verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", r.prop, r.tier, len(r.viol)))
	os.WriteFile(p, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, p)
	fmt.Printf("  harness %s cases %v: %s %s (%s)\n", rc.Harness, rc.Cases, nr.status, nr.msg, rc.Pos)
	r.viol = append(r.viol, p)
	if len(r.viol) >= 3 {
		r.cancel()
	} else if len(r.viol) == 1 {
		time.AfterFunc(60*time.Second, r.cancel)
	}
}

func (r *runner) runAll(only string) (int, error) {
	r.start = time.Now()
	var jobs []*jobRes
	hs := 0
	for _, h := range r.P.harn {
		ok := false
		for _, p := range h.Props {
			if p == r.prop {
				ok = true
			}
		}
		if !ok || (only != "" && !strings.Contains(h.Name, only)) {
			continue
		}
		hs++
		for _, c := range h.instances(r.tier) {
			jobs = append(jobs, &jobRes{h: h, cases: c})
		}
	}
	if hs == 0 {
		return 0, errors.New("no harness for property " + r.prop + " (dropped: " + strings.Join(r.P.dropped, "; ") + ")")
	}
	end := r.start.Add(r.budget)
	// larger cases first would starve the small ones on a timeout: keep order, small to large
	sort.SliceStable(jobs, func(a, b int) bool { return sum(jobs[a].cases) < sum(jobs[b].cases) })
	ch := make(chan *jobRes)
	var wg sync.WaitGroup
	done := 0
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for jr := range ch {
				if r.ctx.Err() != nil || r.stop.Load() {
					r.mu.Lock()
					if jr.err == "" {
						jr.err = "cancelled"
					}
					r.mu.Unlock()
					continue
				}
				t0 := time.Now()
				dl := end
				if jr.h.Cfg.JobSecs > 0 {
					sec := time.Duration(jr.h.Cfg.JobSecs) * time.Second
					if r.tier == "thorough" {
						sec *= 5
					}
					if d := t0.Add(sec); d.Before(dl) {
						dl = d
					}
				}
				if t0.After(end) {
					r.mu.Lock()
					jr.err = "not run: time budget exhausted"
					r.mu.Unlock()
					continue
				}
				jb := newJob(r.P, jr.h, jr.cases, dl)
				jb.stop = &r.stop
				jb.run()
				wall := time.Since(t0)
				r.mu.Lock()
				if r.over {
					r.mu.Unlock()
					return
				}
				jr.job, jr.wall = jb, wall
				r.mu.Unlock()
				r.handle(jr)
				r.mu.Lock()
				if r.over {
					r.mu.Unlock()
					return
				}
				jr.fin = true
				done++
				if r.verbose {
					fmt.Fprintf(os.Stderr, "[%d/%d] %s %v: %.1fs blocks=%d branches=%d merges=%d paths=%d checks=%d(%d trivial) asserts=%d guess=%d q=%d(sat %d unsat %d unk %d) solver=%.1fs max=%.1fs viol=%d incompl=%v\n",
						done, len(jobs), jr.h.Name, jr.cases, jr.wall.Seconds(), jr.job.Blocks, jr.job.Branches, jr.job.Merges, jr.job.Paths,
						jr.job.Checks, jr.job.Trivial, jr.job.Asserts, jr.job.sol.Stats.Guessed, jr.job.sol.Stats.Queries, jr.job.sol.Stats.SatN, jr.job.sol.Stats.UnsatN, jr.job.sol.Stats.UnknownN,
						jr.job.sol.Stats.Time.Seconds(), jr.job.sol.Stats.Max.Seconds(), len(jr.job.Viol), jr.job.Incompl)
				}
				r.mu.Unlock()
				// free memory
				jr.job.ts = nil
				jr.job.base, jr.job.ctxs, jr.job.cache = nil, nil, nil
				jr.job.sol.ts = nil
			}
		}()
	}
	all := make(chan struct{})
	go func() {
		for _, jr := range jobs {
			ch <- jr
		}
		close(ch)
		wg.Wait()
		close(all)
	}()
	wait := time.NewTimer(time.Until(end) + 45*time.Second)
	select {
	case <-all:
	case <-r.ctx.Done():
		r.stop.Store(true)
		select {
		case <-all:
		case <-time.After(20 * time.Second):
		}
	case <-wait.C:
		r.stop.Store(true)
		select {
		case <-all:
		case <-time.After(15 * time.Second):
		}
	}
	r.mu.Lock()
	r.over = true
	for _, jr := range jobs {
		if !jr.fin {
			jr.job = nil
			if jr.err == "" {
				jr.err = "not finished within the time budget"
			}
		}
	}
	r.mu.Unlock()
	for i, n := range r.hits {
		if n > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, r.known[i].What)
		}
	}
	if err := r.evidence(jobs); err != nil {
		return 0, err
	}
	if len(r.viol) > 0 {
		return 1, nil
	}
	return 0, nil
}

func sum(m map[string]int) int {
	s := 0
	for _, v := range m {
		s += v
	}
	return s
}

func isRepoFn(s string) bool {
	return strings.Contains(s, modPath+"/pkg") || (strings.Contains(s, modPath+"/internal/") && !strings.Contains(s, "/internal/vh") && !strings.Contains(s, "/internal/vnd"))
}

func (r *runner) evidence(jobs []*jobRes) error {
	type hsum struct {
		Instances, Complete, Blocks, Branches, Merges, Paths, Checks, Asserts, Queries, Unknown int
		Bounds                                                                                  map[string]string `json:"bounds"`
		Doc                                                                                     string
		WallS                                                                                   float64
		Incomplete                                                                              map[string]int `json:"incomplete,omitempty"`
		Reached                                                                                 []string
		NotReached                                                                              []string `json:"not_reached,omitempty"`
		MaxLoop                                                                                 int
	}
	var vacuous []string
	hm := map[string]*hsum{}
	reach := map[string]map[string]bool{}
	funcs := map[string]int{}
	var q, sat, unsat, unk, fb, cacheHits, blocks, branches, checks, trivial, asserts, complete int
	var st, mx time.Duration
	var samples []any
	for _, jr := range jobs {
		h := hm[jr.h.Name]
		if h == nil {
			h = &hsum{Bounds: map[string]string{}, Incomplete: map[string]int{}, Doc: strings.TrimSpace(jr.h.Doc)}
			hm[jr.h.Name] = h
			reach[jr.h.Name] = map[string]bool{}
			for _, n := range jr.h.Order {
				h.Bounds[n] = fmt.Sprint(jr.h.Cases[r.tier][n])
			}
			h.Bounds["loop_unwinding"] = fmt.Sprint(jr.h.Cfg.Unwind)
			h.Bounds["max_symbolic_allocation"] = fmt.Sprint(jr.h.Cfg.MaxAlloc)
		}
		h.Instances++
		j := jr.job
		if j == nil || jr.err != "" {
			h.Incomplete["instance "+jr.err]++
			continue
		}
		if len(j.Incompl) == 0 {
			complete++
			h.Complete++
		}
		for k, n := range j.Incompl {
			h.Incomplete[k] += n
		}
		for k := range j.Reached {
			reach[jr.h.Name][k] = true
		}
		h.Blocks += j.Blocks
		h.Branches += j.Branches
		h.Merges += j.Merges
		h.Paths += j.Paths
		if j.Paths == 0 {
			vacuous = append(vacuous, fmt.Sprintf("%s %v", jr.h.Name, jr.cases))
		}
		h.Checks += j.Checks
		h.Asserts += j.Asserts
		h.Queries += j.sol.Stats.Queries
		h.Unknown += j.sol.Stats.UnknownN
		h.WallS += jr.wall.Seconds()
		h.MaxLoop = max(h.MaxLoop, j.loopMax)
		q += j.sol.Stats.Queries
		sat += j.sol.Stats.SatN
		unsat += j.sol.Stats.UnsatN
		unk += j.sol.Stats.UnknownN
		fb += j.sol.Stats.Fallbacks
		cacheHits += j.sol.Stats.CacheHits
		st += j.sol.Stats.Time
		mx = max(mx, j.sol.Stats.Max)
		blocks += j.Blocks
		branches += j.Branches
		checks += j.Checks
		trivial += j.Trivial
		asserts += j.Asserts
		for f := range j.Funcs {
			if isRepoFn(f) {
				funcs[strings.ReplaceAll(f, modPath+"/", "")]++
			}
		}
		if len(samples) < 8 && len(j.Finals) > 0 && len(jobs) > 0 {
			fm := j.Finals[len(j.Finals)-1]
			vars := map[string]uint64{}
			var ns []string
			for k := range fm.Vars {
				ns = append(ns, k)
			}
			sort.Strings(ns)
			for i, k := range ns {
				if i >= 24 {
					break
				}
				vars[k] = fm.Vars[k]
			}
			samples = append(samples, map[string]any{"harness": jr.h.Name, "cases": jr.cases, "model": vars, "paths": j.Paths})
		}
	}
	vac := []string{}
	for n, h := range hm {
		for k := range reach[n] {
			h.Reached = append(h.Reached, k)
		}
		sort.Strings(h.Reached)
		for _, hh := range r.P.harn {
			if hh.Name != n {
				continue
			}
			for _, l := range hh.Reach {
				if !reach[n][l] {
					h.NotReached = append(h.NotReached, l)
					vac = append(vac, n+":"+l)
				}
			}
		}
	}
	if samples == nil {
		samples = []any{}
	}
	fl := []string{}
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	notes := []string{}
	for k, n := range r.notes {
		notes = append(notes, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(notes)
	kf := []string{}
	for i, n := range r.hits {
		if n > 0 {
			kf = append(kf, r.known[i].What)
		}
	}
	viol := []any{}
	for _, v := range r.viol {
		viol = append(viol, map[string]any{"replay": v})
	}
	ev := map[string]any{
		"property": r.prop, "tier": r.tier, "seed": 1, "level": "model_checking",
		"wall_s": time.Since(r.start).Seconds(),
		"coverage": map[string]any{
			"states":                        blocks,
			"transitions":                   branches,
			"traces_validated_against_impl": r.valid,
			"samples":                       samples,
			"explanation":                   "symbolic execution of the go/ssa form of the current tree; states = symbolic basic-block executions, transitions = solver-decided branches; every assertion and run-time panic condition is decided by SMT for all values within the bounds",
			"functions_encoded":             fl,
			"instances":                     len(jobs), "instances_complete": complete,
			"safety_and_assertion_checks": checks, "discharged_by_term_simplifier": trivial, "assertion_sites_executed": asserts,
			"solver":               map[string]any{"queries": q, "sat": sat, "unsat": unsat, "unknown": unk, "fallbacks": fb, "cache_hits": cacheHits, "time_s": st.Seconds(), "max_query_s": mx.Seconds()},
			"harnesses":            hm,
			"unreached_witnesses":  vac,
			"vacuous_instances":    vacuous,
			"candidates_replayed":  r.replays,
			"translation_mismatch": r.mism,
			"dropped_harnesses":    r.P.dropped,
			"notes":                notes,
			"known_findings":       kf,
		},
		"assumptions": []string{
			"inputs outside the listed bounds (sizes, loop unwinding) are not covered",
			"slice growth follows runtime.growslice of go1.27 amd64; library functions modelled: fmt.Errorf, errors.*, bytes.Equal/IndexByte, sync.*, math.Log2/Ceil on concrete values",
		},
		"violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.verif, "evidence"), 0o755)
	unkS := ""
	if unk > 0 {
		unkS = fmt.Sprintf(" unknown=%d", unk)
	}
	if len(vacuous) > 0 {
		fmt.Printf("  %d vacuous instances, e.g. %s\n", len(vacuous), vacuous[0])
	}
	fmt.Printf("%s %s: %d/%d instances complete, %d checks (%d by simplifier), %d queries%s, solver %.1fs, %d traces validated, wall %.1fs, %d violations\n",
		r.prop, r.tier, complete, len(jobs), checks, trivial, q, unkS, st.Seconds(), r.valid, time.Since(r.start).Seconds(), len(r.viol))
	for n, h := range hm {
		if len(h.Incomplete) > 0 {
			fmt.Printf("  incomplete %s: %v\n", n, h.Incomplete)
		}
		if len(h.NotReached) > 0 {
			fmt.Printf("  not reached %s: %v\n", n, h.NotReached)
		}
	}
	for _, n := range notes {
		fmt.Println("  note:", n)
	}
	for _, m := range r.mism {
		fmt.Println("  translation mismatch:", m)
	}
	for _, d := range r.P.dropped {
		fmt.Println("  dropped harness:", d)
	}
	return os.WriteFile(filepath.Join(r.verif, "evidence", r.prop+".json"), b, 0o644)
}

// ---------- commands

func loadKnown(verif string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &out); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		}
	}
	return out
}
