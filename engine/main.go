// Command symgo decides properties of the current /repo tree by symbolic execution of its SSA form.
package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"

	"golang.org/x/tools/go/ssa"
)

type (
	ssaGlobal  = ssa.Global
	ssaPackage = ssa.Package
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: symgo run|list|replay")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("symgo", flag.ExitOnError)
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	only := fs.String("harness", "", "")
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	budget := fs.Int("budget", 0, "seconds")
	v := fs.Bool("v", false, "")
	prof := fs.String("cpuprofile", "", "")
	fs.StringVar(&caseFilter, "cases", "", "run only the instances with these case values (k=v,k=v)")
	fs.Parse(os.Args[2:])
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	t0 := time.Now()
	p, err := loadProg(*verif, *repo)
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
	if *v {
		fmt.Fprintln(os.Stderr, "loaded in", time.Since(t0), "dropped", p.dropped)
	}
	scratch, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
	ctx, cancel := context.WithCancel(context.Background())
	r := &runner{P: p, verif: *verif, repo: *repo, prop: *prop, tier: *tier, scratch: scratch, ctx: ctx, cancel: cancel,
		known: loadKnown(*verif), hits: map[int]int{}, notes: map[string]int{}, seen: map[string]int{}, verbose: *v}
	r.budget = 600 * time.Second
	if *tier == "thorough" {
		r.budget = 3600 * time.Second
	}
	if *budget > 0 {
		r.budget = time.Duration(*budget) * time.Second
	}
	code := 0
	switch os.Args[1] {
	case "list":
		for _, h := range p.harn {
			fmt.Println(h.Name, h.Props, len(h.instances("quick")), len(h.instances("thorough")))
		}
	case "run":
		code, err = r.runAll(*only)
		if err != nil {
			fmt.Println("error:", err)
			code = 2
		}
	case "replay":
		b, err := os.ReadFile(fs.Arg(0))
		if err != nil {
			fmt.Println(err)
			code = 2
			break
		}
		var rc replayCase
		if err := json.Unmarshal(b, &rc); err != nil {
			fmt.Println(err)
			code = 2
			break
		}
		nr, err := r.replay(&rc)
		fmt.Println(nr.status, nr.msg, nr.obs, err)
		if nr.status != "OK" {
			code = 1
		}
	}
	os.RemoveAll(scratch)
	pprof.StopCPUProfile()
	os.Exit(code)
}
