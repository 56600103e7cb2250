package main

// SMT back ends: one long-lived incremental z3 process per job, with a
// one-shot portfolio (z3 old, z3 new, cvc5) for the queries it does not decide in time.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Res is a solver verdict.
type Res int

// verdicts
const (
	Unknown Res = iota
	Sat
	Unsat
)

func (r Res) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// SolverStats counts solver work.
type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Fallbacks, CacheHits, Errors, Guessed int
	Time                                                                   time.Duration
	Max                                                                    time.Duration
}

// Solver drives an incremental process.
type Solver struct {
	ts       *TS
	bin      string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inC      io.WriteCloser
	out      *bufio.Reader
	defd     []bool
	ndefs    int
	Stats    SolverStats
	softMS   int
	hardMS   int
	curT     int
	deadline time.Time
	lines    chan string
}

// NewSolver allocates a Solver.
func NewSolver(ts *TS, softMS, hardMS int) *Solver {
	return &Solver{ts: ts, bin: "z3-new", softMS: softMS, hardMS: hardMS}
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.v != 0 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.v, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OVar:
		return "v" + strconv.Itoa(int(t.v))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func bodyOf(t *Term) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.v)+int(t.w)-1, t.v, ref(t.a))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	}
	s := "(" + opNames[t.op] + " " + ref(t.a)
	if t.b != nil {
		s += " " + ref(t.b)
	}
	if t.c != nil {
		s += " " + ref(t.c)
	}
	return s + ")"
}

func emit(t *Term, defd []bool, w io.Writer, n *int) []bool {
	// iterative post-order
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if int(x.id) >= len(defd) {
			nd := make([]bool, max(int(x.id)+1, 2*len(defd)))
			copy(nd, defd)
			defd = nd
		}
		if defd[x.id] || x.op == OConst {
			stack = stack[:len(stack)-1]
			continue
		}
		if x.op == OVar {
			defd[x.id] = true
			fmt.Fprintf(w, "(declare-const %s %s)\n", ref(x), sortName(x.w))
			*n++
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, y := range [3]*Term{x.a, x.b, x.c} {
			if y != nil && y.op != OConst && (int(y.id) >= len(defd) || !defd[y.id]) {
				stack = append(stack, y)
				ready = false
			}
		}
		if !ready {
			continue
		}
		defd[x.id] = true
		*n++
		fmt.Fprintf(w, "(define-fun %s () %s %s)\n", ref(x), sortName(x.w), bodyOf(x))
		stack = stack[:len(stack)-1]
	}
	return defd
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defd = nil
	s.ndefs = 0
	s.curT = -1
	lines := make(chan string, 64)
	s.lines = lines
	rd := s.out
	go func() {
		for {
			l, err := rd.ReadString('\n')
			if err != nil {
				close(lines)
				return
			}
			lines <- strings.TrimRight(l, "\r\n")
		}
	}()
	fmt.Fprint(s.in, "(set-logic QF_BV)\n(set-option :print-success false)\n(set-option :produce-models true)\n")
	return nil
}

// Close ends the process.
func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) readLine(d time.Duration) (string, bool) {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case l, ok := <-s.lines:
		return l, ok
	case <-t.C:
		return "", false
	}
}

// Check decides the conjunction. On sat, a model over the involved variables is returned.
func (s *Solver) Check(conj []*Term, wantModel bool) (Res, map[int]uint64) {
	t0 := time.Now()
	r, m := s.check(conj, wantModel)
	d := time.Since(t0)
	s.Stats.Queries++
	s.Stats.Time += d
	if d > s.Stats.Max {
		s.Stats.Max = d
	}
	if d > slowQ && os.Getenv("SYM_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "slow query %v %v\n", r, d)
		if dir := os.Getenv("SYM_DUMP"); dir != "" {
			txt, _ := s.script(conj)
			os.WriteFile(fmt.Sprintf("%s/q%d_%v.smt2", dir, s.Stats.Queries, r), []byte(txt+"(check-sat)\n"), 0o644)
		}
	}
	switch r {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
	return r, m
}

func (s *Solver) vars(conj []*Term) []*Term {
	var vs []uint64
	for _, c := range conj {
		vs = vsUnion(vs, c.vs)
	}
	var out []*Term
	for i, x := range vs {
		for b := 0; b < 64; b++ {
			if x>>b&1 != 0 {
				out = append(out, s.ts.vars[i*64+b])
			}
		}
	}
	return out
}

func (s *Solver) check(conj []*Term, wantModel bool) (Res, map[int]uint64) {
	if !s.deadline.IsZero() && time.Now().After(s.deadline) {
		return Unknown, nil
	}
	if s.cmd != nil && s.ndefs > 400000 {
		s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	if s.curT != s.softMS {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.softMS)
		s.curT = s.softMS
	}
	for _, c := range conj {
		s.defd = emit(c, s.defd, s.in, &s.ndefs)
	}
	fmt.Fprint(s.in, "(push 1)\n")
	for _, c := range conj {
		fmt.Fprintf(s.in, "(assert %s)\n", ref(c))
	}
	fmt.Fprint(s.in, "(check-sat)\n")
	if s.in.Flush() != nil {
		s.Close()
		return s.fallback(conj, wantModel)
	}
	l, ok := s.readLine(time.Duration(s.softMS)*time.Millisecond*2 + 2*time.Second)
	if !ok {
		s.Close()
		return s.fallback(conj, wantModel)
	}
	var res Res
	switch l {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		s.Stats.Errors++
		if os.Getenv("SYM_TRACE") != "" {
			fmt.Fprintln(os.Stderr, "solver said:", l)
		}
		s.Close()
		return Unknown, nil
	}
	var m map[int]uint64
	if res == Sat && wantModel {
		vs := s.vars(conj)
		m = map[int]uint64{}
		if len(vs) > 0 {
			fmt.Fprint(s.in, "(get-value (")
			for _, v := range vs {
				fmt.Fprint(s.in, ref(v), " ")
			}
			fmt.Fprint(s.in, "))\n")
			s.in.Flush()
			depth := 0
			var sb strings.Builder
			for {
				l, ok := s.readLine(10 * time.Second)
				if !ok || strings.HasPrefix(l, "(error") {
					s.Stats.Errors++
					s.Close()
					return Unknown, nil
				}
				sb.WriteString(l)
				sb.WriteByte(' ')
				depth += strings.Count(l, "(") - strings.Count(l, ")")
				if depth == 0 {
					break
				}
			}
			parseVals(sb.String(), m)
		}
	}
	if s.cmd != nil {
		fmt.Fprint(s.in, "(pop 1)\n")
	}
	if res == Unknown {
		return s.fallback(conj, wantModel)
	}
	return res, m
}

func parseVals(txt string, m map[int]uint64) {
	txt = strings.NewReplacer("(", " ", ")", " ").Replace(txt)
	f := strings.Fields(txt)
	for i := 0; i+1 < len(f); i++ {
		if f[i][0] != 'v' {
			continue
		}
		n, err := strconv.Atoi(f[i][1:])
		if err != nil {
			continue
		}
		x := f[i+1]
		var v uint64
		switch {
		case x == "true":
			v = 1
		case x == "false":
			v = 0
		case strings.HasPrefix(x, "#x"):
			v, _ = strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			v, _ = strconv.ParseUint(x[2:], 2, 64)
		case x == "_":
			if i+2 < len(f) && strings.HasPrefix(f[i+2], "bv") {
				v, _ = strconv.ParseUint(f[i+2][2:], 10, 64)
			}
		}
		m[n] = v
	}
}

func (s *Solver) script(conj []*Term) (string, []*Term) {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n(set-option :produce-models true)\n")
	var n int
	var defd []bool
	for _, c := range conj {
		defd = emit(c, defd, &sb, &n)
	}
	for _, c := range conj {
		fmt.Fprintf(&sb, "(assert %s)\n", ref(c))
	}
	return sb.String(), s.vars(conj)
}

func (s *Solver) fallback(conj []*Term, wantModel bool) (Res, map[int]uint64) {
	s.Stats.Fallbacks++
	if s.hardMS <= 0 {
		return Unknown, nil
	}
	txt, vs := s.script(conj)
	gv := ""
	if wantModel && len(vs) > 0 {
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vs {
			sb.WriteString(ref(v) + " ")
		}
		sb.WriteString("))\n")
		gv = sb.String()
	}
	lim := time.Duration(s.hardMS) * time.Millisecond
	if !s.deadline.IsZero() {
		lim = min(lim, time.Until(s.deadline))
	}
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	type ans struct {
		r Res
		m map[int]uint64
	}
	backs := [][]string{
		{"z3", "-in"},
		{"z3-new", "-in"},
		{"cvc5", "--lang=smt2", "--bv-solver=bitblast", "--bv-sat-solver=cadical", "-"},
	}
	ch := make(chan ans, len(backs))
	for _, b := range backs {
		go func(b []string) {
			c := exec.CommandContext(ctx, b[0], b[1:]...)
			c.Stdin = strings.NewReader(txt + "(check-sat)\n" + gv)
			o, _ := c.Output()
			str := string(o)
			a := ans{}
			first, rest, _ := strings.Cut(str, "\n")
			switch strings.TrimSpace(first) {
			case "sat":
				if gv != "" && strings.Contains(rest, "(error") {
					break
				}
				a.r = Sat
				a.m = map[int]uint64{}
				parseVals(rest, a.m)
			case "unsat":
				a.r = Unsat
			}
			ch <- a
		}(b)
	}
	for range backs {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}

// slowQ is the duration from which traced queries are dumped.
var slowQ = func() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("SYM_SLOW")); err == nil {
		return d
	}
	return 5 * time.Second
}()
