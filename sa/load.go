package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/markusmobius/go-dateparser"

// Prog is the type-checked, SSA-built program of the repository's current tree.
type Prog struct {
	RepoDir string
	Fset    *token.FileSet
	Pkgs    map[string]*packages.Package // by import path, repository packages only
	All     map[string]*packages.Package
	SSA     *ssa.Program
	SSAPkgs map[string]*ssa.Package // all packages
	Funcs   map[*ssa.Function]bool  // all functions
	cg      *callgraph.Graph
	reach   map[*ssa.Function]*callgraph.Edge
	fnSrc   []*ssa.Function
	gstores map[*ssa.Global][]*ssa.Store
	pts     *pointsTo
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

var tmpDir string

func mkTmp() string {
	if tmpDir == "" {
		d, err := os.MkdirTemp("", "verif-sa-")
		if err != nil {
			fatal("cannot create scratch directory: %v", err)
		}
		tmpDir = d
	}
	return tmpDir
}

func goEnv(repo string) []string {
	tmp := mkTmp()
	mod := filepath.Join(tmp, "repo.mod")
	for _, s := range []string{"mod", "sum"} {
		b, err := os.ReadFile(filepath.Join(repo, "go."+s))
		if err != nil {
			fatal("cannot read go.%s of the repository: %v", s, err)
		}
		if err := os.WriteFile(filepath.Join(tmp, "repo."+s), b, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.Index(e+"=", "=")]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOROOT", "CGO_ENABLED", "PATH", "GOSUMDB", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	gobin := "/opt/veriftools/go1.24.13/bin"
	// the go command itself is looked up in this process's own path
	os.Setenv("PATH", gobin+":"+os.Getenv("PATH"))
	env = append(env,
		"PATH="+gobin+":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOFLAGS=-mod=mod -modfile="+mod, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off",
		"GOSUMDB=off", "CGO_ENABLED=1", "GOTELEMETRY=off")
	return env
}

const loadMode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
	packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule

// loadPkgs loads the library packages (not scripts/) with the given build tags.
func loadPkgs(tags string, patterns ...string) ([]*packages.Package, *token.FileSet) {
	repo := repoDir()
	cfg := &packages.Config{Mode: loadMode, Dir: repo, Fset: token.NewFileSet(), Env: goEnv(repo), Tests: false}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	if len(patterns) == 0 {
		patterns = []string{".", "./date/...", "./internal/..."}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		fatal("loading %v: %v", patterns, err)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 10 {
			errs = errs[:10]
		}
		fatal("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	return pkgs, cfg.Fset
}

var progCache = map[string]*Prog{}

func loadProg(tags string) *Prog {
	if p := progCache[tags]; p != nil {
		return p
	}
	pkgs, fset := loadPkgs(tags)
	p := &Prog{RepoDir: repoDir(), Fset: fset, Pkgs: map[string]*packages.Package{}, All: map[string]*packages.Package{}, SSAPkgs: map[string]*ssa.Package{}}
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		p.All[q.PkgPath] = q
		if isRepoPath(q.PkgPath) {
			p.Pkgs[q.PkgPath] = q
		}
	})
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for _, q := range prog.AllPackages() {
		p.SSAPkgs[q.Pkg.Path()] = q
	}
	p.Funcs = ssautil.AllFunctions(prog)
	for f := range p.Funcs {
		if p.inRepo(f) && len(f.Blocks) > 0 {
			p.fnSrc = append(p.fnSrc, f)
		}
	}
	sort.Slice(p.fnSrc, func(i, j int) bool { return fnKey(p.fnSrc[i]) < fnKey(p.fnSrc[j]) })
	progCache[tags] = p
	return p
}

func isRepoPath(s string) bool { return s == modPath || strings.HasPrefix(s, modPath+"/") }

// pkgOf returns the package path a function belongs to (origin package for instantiations).
func pkgOf(f *ssa.Function) string {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o != f {
			f = o
			continue
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
		f = f.Parent()
	}
	return ""
}

func (p *Prog) inRepo(f *ssa.Function) bool { return isRepoPath(pkgOf(f)) }

// fnKey is a stable, readable key of a function.
func fnKey(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "dateparser")
	return s
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.RepoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// instrPos finds a position for an instruction, falling back to neighbours.
func (p *Prog) instrPos(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.pos(i.Pos())
	}
	if v, ok := i.(ssa.Value); ok && v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if r.Pos().IsValid() {
				return p.pos(r.Pos())
			}
		}
	}
	for _, o := range i.Operands(nil) {
		if *o != nil && (*o).Pos().IsValid() {
			return p.pos((*o).Pos())
		}
	}
	return p.pos(i.Parent().Pos())
}

// lookup finds a package-level function or method: "pkg.Func", "(*pkg.T).M" with
// package paths relative to the module ("" is the root package).
func (p *Prog) member(pkg, name string) ssa.Member {
	full := modPath
	if pkg != "" {
		full += "/" + pkg
	}
	sp := p.SSAPkgs[full]
	if sp == nil {
		return nil
	}
	return sp.Members[name]
}

func (p *Prog) fn(pkg, name string) *ssa.Function {
	f, _ := p.member(pkg, name).(*ssa.Function)
	return f
}

func (p *Prog) global(pkg, name string) *ssa.Global {
	g, _ := p.member(pkg, name).(*ssa.Global)
	return g
}

func (p *Prog) named(pkg, name string) *types.Named {
	m, _ := p.member(pkg, name).(*ssa.Type)
	if m == nil {
		return nil
	}
	n, _ := m.Type().(*types.Named)
	return n
}

// entryPoints are the exported functions and exported methods of exported types of the root package,
// plus exported methods of package date.
func (p *Prog) entryPoints() []*ssa.Function {
	var out []*ssa.Function
	for _, path := range []string{modPath, modPath + "/date"} {
		sp := p.SSAPkgs[path]
		if sp == nil {
			fatal("package %s not found", path)
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Object() != nil && m.Object().Exported() {
					out = append(out, m)
				}
			case *ssa.Type:
				if !m.Object().Exported() {
					continue
				}
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if n.Method(i).Exported() {
							if f := p.SSA.FuncValue(n.Method(i)); f != nil {
								out = append(out, f)
							}
						}
					}
				}
			case *ssa.Global:
				// exported function-valued variables (e.g. date orders): the closures they hold
				if m.Object() != nil && m.Object().Exported() {
					out = append(out, funcsStoredIn(sp, m)...)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnKey(out[i]) < fnKey(out[j]) })
	return out
}

func funcsStoredIn(sp *ssa.Package, g *ssa.Global) []*ssa.Function {
	var out []*ssa.Function
	init := sp.Func("init")
	if init == nil {
		return nil
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				switch v := s.Val.(type) {
				case *ssa.Function:
					out = append(out, v)
				case *ssa.MakeClosure:
					out = append(out, v.Fn.(*ssa.Function))
				}
			}
		}
	}
	return out
}

// callGraph is a VTA call graph refined from CHA.
func (p *Prog) callGraph() *callgraph.Graph {
	if p.cg == nil {
		p.cg = vta.CallGraph(p.Funcs, cha.CallGraph(p.SSA))
	}
	return p.cg
}

// reachable maps each function reachable from the entry points to the edge it was first reached by.
func (p *Prog) reachable() map[*ssa.Function]*callgraph.Edge {
	if p.reach != nil {
		return p.reach
	}
	p.reach = p.reachFrom(p.entryPoints())
	return p.reach
}

func (p *Prog) reachFrom(roots []*ssa.Function) map[*ssa.Function]*callgraph.Edge {
	cg := p.callGraph()
	reach := map[*ssa.Function]*callgraph.Edge{}
	var q []*callgraph.Node
	for _, r := range roots {
		if n := cg.Nodes[r]; n != nil {
			if _, ok := reach[r]; !ok {
				reach[r] = nil
				q = append(q, n)
			}
		} else {
			reach[r] = nil
		}
	}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		for _, e := range n.Out {
			if _, ok := reach[e.Callee.Func]; !ok {
				reach[e.Callee.Func] = e
				q = append(q, e.Callee)
			}
		}
	}
	return reach
}

func pathTo(reach map[*ssa.Function]*callgraph.Edge, f *ssa.Function) string {
	var parts []string
	for i := 0; f != nil && i < 30; i++ {
		parts = append([]string{fnKey(f)}, parts...)
		e := reach[f]
		if e == nil {
			break
		}
		f = e.Caller.Func
	}
	return strings.Join(parts, " -> ")
}

// callees of a call site inside the call graph.
func (p *Prog) callees(site ssa.CallInstruction) []*ssa.Function {
	if f := site.Common().StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	n := p.callGraph().Nodes[site.Parent()]
	if n == nil {
		return nil
	}
	var out []*ssa.Function
	for _, e := range n.Out {
		if e.Site == site {
			out = append(out, e.Callee.Func)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnKey(out[i]) < fnKey(out[j]) })
	return out
}

func (p *Prog) fileAST(pkg string) []*ast.File {
	full := modPath
	if pkg != "" {
		full += "/" + pkg
	}
	if q := p.Pkgs[full]; q != nil {
		return q.Syntax
	}
	return nil
}
