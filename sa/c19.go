package main

import (
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() { checks["C19"] = checkC19 }

const regexpPkg = modPath + "/internal/regexp"

// loadRegexpVariant builds the SSA of internal/regexp with the given tags.
func loadRegexpVariant(tags string) (*Prog, *ssa.Package) {
	pkgs, fset := loadPkgs(tags, "./internal/regexp")
	p := &Prog{RepoDir: repoDir(), Fset: fset, Pkgs: map[string]*packages.Package{}, All: map[string]*packages.Package{}, SSAPkgs: map[string]*ssa.Package{}}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	if len(sp) != 1 || sp[0] == nil {
		fatal("internal/regexp could not be built with tags %q", tags)
	}
	return p, sp[0]
}

func renameEngine(path string) string {
	switch {
	case path == "regexp", path == "github.com/wasilibs/go-re2", strings.HasPrefix(path, "github.com/wasilibs/go-re2/"):
		return "ENGINE"
	}
	return shortPkg(path)
}

func exportedFuncs(sp *ssa.Package) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, m := range sp.Members {
		switch m := m.(type) {
		case *ssa.Function:
			if m.Object() != nil && m.Object().Exported() {
				out[m.Name()] = m
			}
		case *ssa.Type:
			n, ok := m.Type().(*types.Named)
			if !ok || !m.Object().Exported() {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				if n.Method(i).Exported() {
					out[m.Name()+"."+n.Method(i).Name()] = sp.Prog.FuncValue(n.Method(i))
				}
			}
		}
	}
	return out
}

func sigString(f *ssa.Function) string {
	q := func(p *types.Package) string { return renameEngine(p.Path()) }
	// parameter names do not matter
	strip := func(t *types.Tuple) string {
		var s []string
		for i := 0; i < t.Len(); i++ {
			s = append(s, types.TypeString(t.At(i).Type(), q))
		}
		return strings.Join(s, ",")
	}
	return "(" + strip(f.Signature.Params()) + ")(" + strip(f.Signature.Results()) + ")"
}

// wrapperProblem decides whether f is exactly the engine operation of the same name.
func wrapperProblem(p *Prog, name string, f *ssa.Function) (string, []pathSummary) {
	ss, ok := p.summarise(f, nil, renameEngine, 0)
	if !ok {
		return "cannot be reduced to a pass-through (loop, effect or too many paths)", nil
	}
	op := name
	isMethod := false
	if i := strings.IndexByte(name, '.'); i >= 0 {
		op, isMethod = name[i+1:], true
	}
	np := len(f.Params)
	var want string
	if isMethod {
		args := []string{"p0.rx"}
		for i := 1; i < np; i++ {
			args = append(args, fmt.Sprintf("p%d", i))
		}
		want = "ENGINE:method " + op + "(" + strings.Join(args, ",") + ")"
	} else {
		var args []string
		for i := 0; i < np; i++ {
			args = append(args, fmt.Sprintf("p%d", i))
		}
		want = "ENGINE:" + op + "(" + strings.Join(args, ",") + ")"
	}
	for _, s := range ss {
		if s.Panics {
			return "panics on one of its paths", ss
		}
		if len(s.Calls) != 1 || normField(s.Calls[0]) != want {
			return fmt.Sprintf("performs %v where the engine operation %s is expected", s.Calls, want), ss
		}
		nres := f.Signature.Results().Len()
		for k, ret := range s.Returns {
			ret = normField(ret)
			elem := want
			if nres > 1 {
				elem = fmt.Sprintf("%s#%d", want, k)
			}
			rt := f.Signature.Results().At(k).Type()
			if typeIs(rt, regexpPkg, "Regexp") {
				wrapped := "&internal/regexp.Regexp{rx:" + elem + "}"
				if nres == 1 {
					if ret != wrapped {
						return "returns " + ret + " instead of the wrapped engine value", ss
					}
					continue
				}
				errNil := guardHolds(s.Guards, fmt.Sprintf("(%s#%d == zero)=true", want, nres-1))
				errNonNil := guardHolds(s.Guards, fmt.Sprintf("(%s#%d == zero)=false", want, nres-1))
				switch {
				case ret == wrapped && errNil, ret == "zero" && errNonNil:
				default:
					return "returns " + ret + " without agreeing with the engine's error", ss
				}
				continue
			}
			if ret == elem {
				continue
			}
			if ret == "zero" && nres > 1 && guardHolds(s.Guards, fmt.Sprintf("(%s == zero)=true", elem)) {
				continue
			}
			return "returns " + ret + " instead of the engine's result", ss
		}
	}
	return "", ss
}

func guardHolds(gs []string, g string) bool {
	for _, x := range gs {
		if normField(x) == g {
			return true
		}
	}
	return false
}

var engineField = "rx"

// normField names the wrapper's single engine field "rx" whatever it is called.
func normField(s string) string {
	if engineField == "rx" {
		return s
	}
	return strings.ReplaceAll(strings.ReplaceAll(s, "p0."+engineField, "p0.rx"), "Regexp{"+engineField+":", "Regexp{rx:")
}

// setEngineField finds the field of the wrapper that holds the engine's compiled pattern.
func setEngineField(sp *ssa.Package) {
	engineField = "rx"
	m, _ := sp.Members["Regexp"].(*ssa.Type)
	if m == nil {
		return
	}
	st, ok := m.Type().Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if strings.HasPrefix(types.TypeString(st.Field(i).Type(), func(q *types.Package) string { return renameEngine(q.Path()) }), "*ENGINE.") {
			engineField = st.Field(i).Name()
		}
	}
}

func checkC19(p *Prog, r *Result) {
	r.Rule = "Both build variants of internal/regexp export the same operations with the same signatures; every operation reduces, on every path, to exactly one call of the engine operation of the same name with its own arguments unchanged and in order, and returns that call's results; for every combination of build tags exactly one file of the package is active; every constant pattern of the repository is accepted by the common syntax of both engines."
	r.Explanation = "Path summaries of the wrapper functions over the SSA form of both variants; build constraints evaluated over all tag combinations; constant patterns parsed with regexp/syntax."
	r.Assumptions = append(r.Assumptions, "RE2 and Go's regexp implement the operations of the same name alike (documented by go-re2)", "class names are limited to one and two letter categories and script names, which both engines know")

	// build constraints
	dir := filepath.Join(repoDir(), "internal", "regexp")
	ents, err := os.ReadDir(dir)
	if err != nil {
		fatal("%v", err)
	}
	type fileC struct {
		name string
		expr constraint.Expr
		decl map[string]bool
		re2  bool
	}
	var files []fileC
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		fc := fileC{name: e.Name(), decl: map[string]bool{}}
		for _, cg := range f.Comments {
			if cg.Pos() > f.Package {
				break
			}
			for _, c := range cg.List {
				if constraint.IsGoBuild(c.Text) {
					fc.expr, err = constraint.Parse(c.Text)
					if err != nil {
						fatal("%v", err)
					}
				}
			}
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if ts, ok := s.(*ast.TypeSpec); ok {
						fc.decl["type "+ts.Name.Name] = true
					}
				}
			}
		}
		for _, im := range f.Imports {
			if strings.Contains(im.Path.Value, "go-re2") {
				fc.re2 = true
			}
		}
		files = append(files, fc)
	}
	tags := []string{"re2_wasm", "re2_cgo", "cgo"}
	for m := 0; m < 8; m++ {
		set := map[string]bool{}
		var on []string
		for i, t := range tags {
			if m>>i&1 == 1 {
				set[t] = true
				on = append(on, t)
			}
		}
		n, re2 := 0, false
		for _, f := range files {
			if f.expr == nil || f.expr.Eval(func(t string) bool { return set[t] }) {
				if f.decl["type Regexp"] {
					n++
					re2 = re2 || f.re2
				}
			}
		}
		key := "tags{" + strings.Join(on, ",") + "}"
		r.add(n == 1, "one-variant", key, "internal/regexp", fmt.Sprintf("%d active definitions of the engine wrapper", n))
		if !set["re2_wasm"] && !set["re2_cgo"] {
			r.add(!re2, "tag-selects-engine", key, "internal/regexp", "the standard engine is active without the re2 tags")
		} else if set["cgo"] {
			r.add(re2, "tag-selects-engine", key, "internal/regexp", "the re2 engine is active with a re2 tag and cgo")
		}
	}
	r.floor("one-variant", 1)

	// operations
	stdP, stdPkg := loadRegexpVariant("")
	reP, rePkg := loadRegexpVariant("re2_wasm")
	a, b := exportedFuncs(stdPkg), exportedFuncs(rePkg)
	names := map[string]bool{}
	for n := range a {
		names[n] = true
	}
	for n := range b {
		names[n] = true
	}
	for _, n := range sortedKeys(names) {
		fa, fb := a[n], b[n]
		if fa == nil || fb == nil {
			have := "standard"
			if fa == nil {
				have = "re2"
			}
			r.bad("same-operations", n, "internal/regexp", "exists only in the "+have+" variant")
			continue
		}
		r.add(sigString(fa) == sigString(fb), "same-operations", n, stdP.pos(fa.Pos()), sigString(fa)+" / "+sigString(fb))
		for _, v := range []struct {
			tag string
			p   *Prog
			f   *ssa.Function
		}{{"standard", stdP, fa}, {"re2", reP, fb}} {
			setEngineField(v.f.Pkg)
			prob, _ := wrapperProblem(v.p, n, v.f)
			r.add(prob == "", "pass-through", v.tag+": "+n, v.p.pos(v.f.Pos()), okOr(prob, "is the engine's "+n))
		}
	}
	r.floor("pass-through", 20)
	r.Analysed["operations"] = len(names)

	// patterns
	np := 0
	for _, path := range sortedKeys(p.Pkgs) {
		pkg := p.Pkgs[path]
		for _, file := range pkg.Syntax {
			ast.Inspect(file, func(n ast.Node) bool {
				call, ok := n.(*ast.CallExpr)
				if !ok || len(call.Args) != 1 {
					return true
				}
				fn := calledFunc(pkg.TypesInfo, call)
				if fn == nil || fn.Pkg() == nil {
					return true
				}
				if fn.Name() != "MustCompile" && fn.Name() != "Compile" {
					return true
				}
				if fn.Pkg().Path() != regexpPkg && fn.Pkg().Path() != "regexp" {
					return true
				}
				tv := pkg.TypesInfo.Types[call.Args[0]]
				if tv.Value == nil || tv.Value.Kind() != constant.String {
					return true
				}
				np++
				pat := constant.StringVal(tv.Value)
				if prob := patternProblem(pat); prob != "" {
					r.bad("common-syntax", shortPkg(path)+": "+clip(pat, 60), p.pos(call.Pos()), prob)
				}
				return true
			})
		}
	}
	r.Analysed["constant patterns"] = np
	r.add(np >= 400, "common-syntax", "all constant patterns", "-", fmt.Sprintf("%d constant patterns parsed", np))
	r.add(patternProblem(`(?P<x`) != "" && patternProblem(`a{2000}`) != "" && patternProblem(`\p{Greek}`) == "", "self-test", "pattern check", "-", "rejects malformed patterns")
}

func okOr(prob, ok string) string {
	if prob == "" {
		return ok
	}
	return prob
}

func clip(s string, n int) string {
	rs := []rune(s)
	if len(rs) <= n {
		return s
	}
	return string(rs[:n]) + "…"
}

func calledFunc(info *types.Info, call *ast.CallExpr) *types.Func {
	var id *ast.Ident
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	default:
		return nil
	}
	fn, _ := info.Uses[id].(*types.Func)
	return fn
}

// patternProblem checks that a pattern belongs to the syntax shared by RE2 and Go's regexp.
func patternProblem(pat string) string {
	if _, err := syntax.Parse(pat, syntax.Perl); err != nil {
		return "the pattern does not compile: " + err.Error()
	}
	for i := 0; i+2 < len(pat); i++ {
		if pat[i] != '\\' {
			continue
		}
		if pat[i+1] == 'p' || pat[i+1] == 'P' {
			if pat[i+2] == '{' {
				j := strings.IndexByte(pat[i:], '}')
				if j < 0 {
					return "unterminated class name"
				}
				name := strings.TrimPrefix(pat[i+3:i+j], "^")
				if len(name) > 2 && (name[0] < 'A' || name[0] > 'Z' || name == "Letter" || name == "Number" || name == "Punctuation") {
					return "class name " + name + " is not known to both engines"
				}
			}
		}
		i++
	}
	return ""
}
