package main

// Loading of /repo (current working tree) plus the overlaid harness packages, as SSA.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bluenviron/mediacommon/v2"

// Prog is the loaded program.
type Prog struct {
	ssa     *ssa.Program
	sizes   types.Sizes
	repo    string
	overlay map[string]string // repo path -> real file
	dropped []string          // harness files that no longer type-check
	harn    []*Harness
	byPath  map[string]*ssa.Package

	mu    sync.Mutex
	infos map[*ssa.Function]*fnInfo
	rts   map[*fnInfo][]types.Type
}

// HCfg is the configuration of one harness execution.
type HCfg struct {
	Unwind    int
	MaxStates int
	MaxSteps  int
	MaxAlloc  int
	Merge     string
	MergeFn   map[string]string
	Soft      int // ms
	Hard      int // ms
	JobSecs   int
	Optional  bool
}

// Harness is one entry point.
type Harness struct {
	Name  string // package-qualified
	Fn    *ssa.Function
	Pkg   string
	Func  string
	Props []string
	Cases map[string]map[string][]int // tier -> case name -> values
	Order []string
	Cfg   HCfg
	Doc   string
	Reach []string
}

func (p *Prog) info(fn *ssa.Function) *fnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if fi, ok := p.infos[fn]; ok {
		return fi
	}
	fi := buildInfo(fn)
	p.infos[fn] = fi
	ts := make([]types.Type, fi.nreg)
	for v, r := range fi.reg {
		ts[r] = v.Type()
	}
	p.rts[fi] = ts
	return fi
}

func (p *Prog) regTypes(fi *fnInfo) []types.Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.rts[fi]
}

// overlayFiles maps paths inside the repository to harness files of /verif.
//
//	verif/harness/vnd/*.go          -> repo/internal/vnd/
//	verif/harness/vh/<name>/*.go    -> repo/internal/vh/<name>/
//	verif/harness/in/<path>/*.go    -> repo/<path>/zz_vh_*.go
func overlayFiles(verif, repo string) map[string]string {
	out := map[string]string{}
	add := func(root, dst, pre string) {
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(root, p)
			d, b := filepath.Split(rel)
			out[filepath.Join(dst, d, pre+b)] = p
			return nil
		})
	}
	add(filepath.Join(verif, "harness", "vnd"), filepath.Join(repo, "internal", "vnd"), "")
	add(filepath.Join(verif, "harness", "vh"), filepath.Join(repo, "internal", "vh"), "")
	add(filepath.Join(verif, "harness", "in"), repo, "zz_vh_")
	return out
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

func loadProg(verif, repo string) (*Prog, error) {
	p := &Prog{repo: repo, infos: map[*ssa.Function]*fnInfo{}, rts: map[*fnInfo][]types.Type{}, byPath: map[string]*ssa.Package{}}
	ov := overlayFiles(verif, repo)
	var pkgs []*packages.Package
	for try := 0; ; try++ {
		bytes := map[string][]byte{}
		dirs := map[string]bool{}
		for dst, src := range ov {
			b, err := os.ReadFile(src)
			if err != nil {
				return nil, err
			}
			bytes[dst] = b
			if rel, err := filepath.Rel(repo, filepath.Dir(dst)); err == nil {
				dirs["./"+rel] = true
			}
		}
		pats := []string{"./pkg/..."}
		for d := range dirs {
			if !strings.HasPrefix(d, "./pkg/") {
				pats = append(pats, d)
			}
		}
		sort.Strings(pats)
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: bytes, Env: goEnv()}
		mod := modelFiles(repo)
		cfg.ParseFile = func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
			if b, ok := mod[name]; ok {
				src = b
			}
			return parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments)
		}
		var err error
		pkgs, err = packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := map[string]bool{}
		var fatal []string
		badPkg := map[string]bool{}
		packages.Visit(pkgs, nil, func(pk *packages.Package) {
			for _, e := range pk.Errors {
				file := e.Pos
				if i := strings.Index(file, ".go:"); i >= 0 {
					file = file[:i+3]
				}
				if _, ok := ov[file]; ok {
					bad[file] = true
					p.dropped = append(p.dropped, fmt.Sprintf("%s: %s", strings.TrimPrefix(ov[file], verif+"/"), e.Msg))
					if strings.Contains(file, "/internal/vh/") {
						badPkg[filepath.Dir(file)] = true
					}
				} else {
					fatal = append(fatal, e.Error())
				}
			}
		})
		if len(bad) == 0 && len(fatal) > 0 {
			return nil, fmt.Errorf("load: %s", strings.Join(fatal, "; "))
		}
		if len(bad) == 0 {
			break
		}
		if try > 5 {
			return nil, fmt.Errorf("load: %v", p.dropped)
		}
		for f := range ov {
			if bad[f] {
				delete(ov, f)
			}
		}
	}
	p.overlay = ov
	p.ssa, _ = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.ssa.Build()
	for _, k := range p.ssa.AllPackages() {
		p.byPath[k.Pkg.Path()] = k
	}
	p.sizes = types.SizesFor("gc", "amd64")
	for _, pk := range pkgs {
		sp := p.byPath[pk.PkgPath]
		if sp == nil {
			continue
		}
		for _, f := range pk.Syntax {
			fname := p.ssa.Fset.Position(f.Package).Filename
			if _, ok := ov[fname]; !ok {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "VH_") || fd.Doc == nil {
					continue
				}
				h, err := parseHarness(fd)
				if err != nil {
					return nil, err
				}
				h.Fn = sp.Func(fd.Name.Name)
				h.Pkg = pk.PkgPath
				h.Name = pk.Name + "." + fd.Name.Name
				p.harn = append(p.harn, h)
			}
		}
	}
	sort.Slice(p.harn, func(i, k int) bool { return p.harn[i].Name < p.harn[k].Name })
	return p, nil
}

func parseHarness(fd *ast.FuncDecl) (*Harness, error) {
	h := &Harness{Func: fd.Name.Name, Cases: map[string]map[string][]int{"quick": {}, "thorough": {}}}
	h.Cfg = HCfg{Unwind: 400, MaxStates: 3000, MaxSteps: 3000000, MaxAlloc: 4096, Merge: "full", Soft: 10000, Hard: 60000, JobSecs: 0}
	seen := map[string]bool{}
	thor := map[string]bool{}
	for _, c := range fd.Doc.List {
		txt, ok := strings.CutPrefix(c.Text, "//vh:")
		if !ok {
			h.Doc += strings.TrimSpace(strings.TrimPrefix(c.Text, "//")) + " "
			continue
		}
		for _, f := range strings.Fields(txt) {
			k, v, ok := strings.Cut(f, "=")
			if !ok {
				return nil, fmt.Errorf("%s: bad directive %q", fd.Name.Name, f)
			}
			if a, b, ok := strings.Cut(k, ":"); ok {
				k, v = a, b+":"+v
			}
			num := func() int { n, _ := strconv.Atoi(v); return n }
			switch k {
			case "prop":
				h.Props = strings.Split(v, ",")
			case "merge":
				h.Cfg.Merge = v
			case "mergefn": // name:policy
				a, b, _ := strings.Cut(v, ":")
				if h.Cfg.MergeFn == nil {
					h.Cfg.MergeFn = map[string]string{}
				}
				h.Cfg.MergeFn[a] = b
			case "unwind":
				h.Cfg.Unwind = num()
			case "states":
				h.Cfg.MaxStates = num()
			case "steps":
				h.Cfg.MaxSteps = num()
			case "alloc":
				h.Cfg.MaxAlloc = num()
			case "soft":
				h.Cfg.Soft = num()
			case "hard":
				h.Cfg.Hard = num()
			case "secs":
				h.Cfg.JobSecs = num()
			case "reach":
				h.Reach = strings.Split(v, ",")
			case "case", "quick", "thorough":
				n, r, ok := strings.Cut(v, ":")
				if !ok {
					return nil, fmt.Errorf("%s: bad case %q", fd.Name.Name, f)
				}
				var vals []int
				for _, part := range strings.Split(r, ",") {
					a, b, isR := strings.Cut(part, "..")
					x, err := strconv.Atoi(a)
					if err != nil {
						return nil, fmt.Errorf("%s: bad case %q", fd.Name.Name, f)
					}
					y := x
					if isR {
						if y, err = strconv.Atoi(b); err != nil {
							return nil, fmt.Errorf("%s: bad case %q", fd.Name.Name, f)
						}
					}
					for ; x <= y; x++ {
						vals = append(vals, x)
					}
				}
				if !seen[n] {
					seen[n] = true
					h.Order = append(h.Order, n)
				}
				if k != "thorough" {
					h.Cases["quick"][n] = vals
					if !thor[n] {
						h.Cases["thorough"][n] = vals
					}
				}
				if k == "thorough" {
					thor[n] = true
					h.Cases["thorough"][n] = vals
				}
			default:
				return nil, fmt.Errorf("%s: unknown directive %q", fd.Name.Name, k)
			}
		}
	}
	if len(h.Props) == 0 {
		return nil, fmt.Errorf("%s: no prop", fd.Name.Name)
	}
	return h, nil
}

// instances enumerates the case combinations of a tier.
func (h *Harness) instances(tier string) []map[string]int {
	out := []map[string]int{{}}
	for _, n := range h.Order {
		vals := h.Cases[tier][n]
		var nx []map[string]int
		for _, m := range out {
			for _, v := range vals {
				c := map[string]int{n: v}
				for k, x := range m {
					c[k] = x
				}
				nx = append(nx, c)
			}
		}
		out = nx
	}
	if caseFilter != "" {
		var sel []map[string]int
	next:
		for _, m := range out {
			for _, kv := range strings.Split(caseFilter, ",") {
				k, v, _ := strings.Cut(kv, "=")
				if n, err := strconv.Atoi(v); err != nil || m[k] != n {
					continue next
				}
			}
			sel = append(sel, m)
		}
		out = sel
	}
	return out
}

var caseFilter string

// modelFiles returns dependency files whose text is replaced for the symbolic execution: the bit loops of go-mp4's bitio package
// are rewritten without per-bit branches (same results). Native replays use the original files.
func modelFiles(repo string) map[string][]byte {
	out := map[string][]byte{}
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/abema/go-mp4")
	cmd.Dir = repo
	cmd.Env = goEnv()
	b, err := cmd.Output()
	if err != nil {
		return out
	}
	dir := filepath.Join(strings.TrimSpace(string(b)), "internal", "bitio")
	sub := func(name, old, new string) {
		f := filepath.Join(dir, name)
		src, err := os.ReadFile(f)
		if err != nil || strings.Count(string(src), old) != 1 {
			return
		}
		out[f] = []byte(strings.Replace(string(src), old, new, 1))
	}
	sub("read.go", "	for i := uint(0); i < size; i++ {\n		bit, err := r.ReadBit()\n		if err != nil {\n			return nil, err\n		}\n", `	if r.width == 0 && size%8 == 0 {
		for i := range data {
			buf := make([]byte, 1)
			if n, err := r.reader.Read(buf); err != nil {
				return nil, err
			} else if n != 1 {
				return nil, ErrDiscouragedReader
			}
			r.octet = buf[0]
			data[i] = buf[0]
		}
		return data, nil
	}
	for i := uint(0); i < size; i++ {
		if r.width == 0 {
			buf := make([]byte, 1)
			if n, err := r.reader.Read(buf); err != nil {
				return nil, err
			} else if n != 1 {
				return nil, ErrDiscouragedReader
			}
			r.octet = buf[0]
			r.width = 8
		}
		r.width--
		data[(offset+i)/8] |= ((r.octet >> r.width) & 1) << (7 - (offset+i)%8)
	}
	return data, nil
	for i := uint(0); i < size; i++ {
		bit, err := r.ReadBit()
		if err != nil {
			return nil, err
		}
`)
	sub("write.go", "	for i := offset; i < length; i++ {\n", `	if w.width == 0 && width%8 == 0 {
		for i := offset / 8; i < length/8; i++ {
			if _, err := w.writer.Write([]byte{data[i]}); err != nil {
				return err
			}
		}
		w.octet = 0
		return nil
	}
	for i := offset; i < length; i++ {
		w.octet |= ((data[i/8] >> (7 - i%8)) & 1) << (7 - w.width)
		w.width++
		if w.width == 8 {
			if _, err := w.writer.Write([]byte{w.octet}); err != nil {
				return err
			}
			w.octet = 0x00
			w.width = 0
		}
	}
	return nil
	for i := offset; i < length; i++ {
`)
	return out
}
