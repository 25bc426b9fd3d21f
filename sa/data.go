package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Static reading of the built-in tables: composite literals and constant expressions are folded
// from the type-checked syntax tree; nothing of the program is executed.

type repl struct {
	Pattern, Repl string
	Pos           token.Pos
}

type localeInfo struct {
	Var                        *types.Var
	Name, DateOrder            string
	NoSpace                    bool
	Group                      int
	Charset                    []rune
	Abbrev                     []string
	Simpl, RelRx               []repl
	Trans                      map[string][]string
	TransPos                   map[string]token.Pos
	Rel                        map[string]string
	RelPos                     map[string]token.Pos
	RxCombined, RxExact        *string
	Known                      []string
	Pos, RxCPos, RxEPos, KwPos token.Pos
	Parent                     *localeInfo // the data it is built upon
	ParentVar                  *types.Var
	Own                        *localeInfo // before merging
	Seq                        int
	Fields                     map[string]bool // fields given explicitly
}

type dataModel struct {
	p        *Prog
	pkg      *packages.Package
	locales  map[*types.Var]*localeInfo
	problems []Obligation // constructs of the tables that could not be folded
	mergeFn  *types.Func
	depth    int
}

func (m *dataModel) problem(rule string, n ast.Node, what string) {
	m.problems = append(m.problems, Obligation{Rule: rule, Key: what, Pos: m.p.pos(n.Pos()), OK: false, Why: "the table is not a foldable literal here: " + what})
}

// foldEnv folds constant expressions of one package.
type foldEnv struct {
	p    *Prog
	pkg  *packages.Package
	bind map[types.Object]ast.Expr // parameters of an inlined helper
	deep int
}

func (e *foldEnv) info() *types.Info { return e.pkg.TypesInfo }

func (e *foldEnv) str(x ast.Expr) (string, bool) {
	if tv := e.info().Types[x]; tv.Value != nil && tv.Value.Kind() == constant.String {
		return constant.StringVal(tv.Value), true
	}
	switch v := x.(type) {
	case *ast.ParenExpr:
		return e.str(v.X)
	case *ast.BinaryExpr:
		if v.Op == token.ADD {
			a, ok1 := e.str(v.X)
			b, ok2 := e.str(v.Y)
			return a + b, ok1 && ok2
		}
	case *ast.Ident:
		if y := e.resolve(v); y != nil {
			return e.str(y)
		}
	case *ast.CallExpr:
		// string(x), strings.Join of a literal list
		if tv := e.info().Types[v.Fun]; tv.IsType() && len(v.Args) == 1 {
			return e.str(v.Args[0])
		}
		if f := calledFunc(e.info(), v); f != nil && f.FullName() == "strings.Join" {
			l, ok := e.strList(v.Args[0])
			sep, ok2 := e.str(v.Args[1])
			return strings.Join(l, sep), ok && ok2
		}
	}
	return "", false
}

func (e *foldEnv) int(x ast.Expr) (int64, bool) {
	if tv := e.info().Types[x]; tv.Value != nil {
		if i, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok {
			return i, true
		}
	}
	switch v := x.(type) {
	case *ast.ParenExpr:
		return e.int(v.X)
	case *ast.Ident:
		if y := e.resolve(v); y != nil {
			return e.int(y)
		}
	case *ast.UnaryExpr:
		if i, ok := e.int(v.X); ok && v.Op == token.SUB {
			return -i, true
		}
	case *ast.BinaryExpr:
		a, ok1 := e.int(v.X)
		b, ok2 := e.int(v.Y)
		if ok1 && ok2 {
			switch v.Op {
			case token.ADD:
				return a + b, true
			case token.SUB:
				return a - b, true
			case token.MUL:
				return a * b, true
			}
		}
	}
	return 0, false
}

func (e *foldEnv) boolean(x ast.Expr) (bool, bool) {
	if tv := e.info().Types[x]; tv.Value != nil && tv.Value.Kind() == constant.Bool {
		return constant.BoolVal(tv.Value), true
	}
	return false, false
}

// resolve returns the initialiser of a package-level variable that is never assigned again, or a bound parameter.
func (e *foldEnv) resolve(id *ast.Ident) ast.Expr {
	o := e.info().Uses[id]
	if o == nil {
		return nil
	}
	if b := e.bind[o]; b != nil {
		return b
	}
	if v, ok := o.(*types.Var); ok && v.Parent() == e.pkg.Types.Scope() {
		return varInit(e.pkg, v)
	}
	return nil
}

// varInit is the initialiser of a package-level variable.
func varInit(pkg *packages.Package, v *types.Var) ast.Expr {
	for _, f := range pkg.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if pkg.TypesInfo.Defs[n] == v && len(vs.Values) == len(vs.Names) {
						return vs.Values[i]
					}
				}
			}
		}
	}
	return nil
}

func (e *foldEnv) lit(x ast.Expr) *ast.CompositeLit {
	for i := 0; i < 6; i++ {
		switch v := x.(type) {
		case *ast.ParenExpr:
			x = v.X
		case *ast.UnaryExpr:
			if v.Op != token.AND {
				return nil
			}
			x = v.X
		case *ast.CompositeLit:
			return v
		case *ast.Ident:
			y := e.resolve(v)
			if y == nil {
				return nil
			}
			x = y
		case *ast.CallExpr:
			if tv := e.info().Types[v.Fun]; tv.IsType() && len(v.Args) == 1 {
				x = v.Args[0]
				continue
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

func isNilExpr(info *types.Info, x ast.Expr) bool { return info.Types[x].IsNil() }

func (e *foldEnv) strList(x ast.Expr) ([]string, bool) {
	if isNilExpr(e.info(), x) {
		return nil, true
	}
	l := e.lit(x)
	if l == nil {
		if c, ok := x.(*ast.CallExpr); ok {
			if f := calledFunc(e.info(), c); f != nil && f.FullName() == "strings.Fields" {
				if s, ok := e.str(c.Args[0]); ok {
					return strings.Fields(s), true
				}
			}
		}
		return nil, false
	}
	var out []string
	for _, el := range l.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			el = kv.Value
		}
		s, ok := e.str(el)
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

// pattern folds a compiled regular expression: MustCompile of a constant.
func (e *foldEnv) pattern(x ast.Expr) (pat string, isNil, ok bool) {
	if isNilExpr(e.info(), x) {
		return "", true, true
	}
	switch v := x.(type) {
	case *ast.ParenExpr:
		return e.pattern(v.X)
	case *ast.Ident:
		if y := e.resolve(v); y != nil {
			return e.pattern(y)
		}
	case *ast.CallExpr:
		f := calledFunc(e.info(), v)
		if f == nil {
			return "", false, false
		}
		if f.Name() == "MustCompile" && len(v.Args) == 1 && (f.Pkg().Path() == "regexp" || strings.HasPrefix(f.Pkg().Path(), modPath+"/internal/regexp")) {
			s, ok := e.str(v.Args[0])
			return s, false, ok
		}
		// a local helper whose body is one return of such an expression
		if body, sub := e.inline(f, v); body != nil {
			return sub.pattern(body)
		}
	}
	return "", false, false
}

// inline returns the single returned expression of a helper of the same package with its parameters bound.
func (e *foldEnv) inline(f *types.Func, c *ast.CallExpr) (ast.Expr, *foldEnv) {
	if e.deep > 3 || f.Pkg() != e.pkg.Types || c.Ellipsis.IsValid() {
		return nil, nil
	}
	fd := declOf(e.pkg, f)
	if fd == nil || fd.Body == nil || fd.Recv != nil {
		return nil, nil
	}
	var ret *ast.ReturnStmt
	for _, s := range fd.Body.List {
		if r, ok := s.(*ast.ReturnStmt); ok {
			ret = r
			continue
		}
		if !harmlessStmt(s) {
			return nil, nil
		}
	}
	if ret == nil || len(ret.Results) != 1 {
		return nil, nil
	}
	sub := &foldEnv{p: e.p, pkg: e.pkg, bind: map[types.Object]ast.Expr{}, deep: e.deep + 1}
	k := 0
	for _, fl := range fd.Type.Params.List {
		if _, ok := fl.Type.(*ast.Ellipsis); ok {
			return nil, nil
		}
		for _, n := range fl.Names {
			if k >= len(c.Args) {
				return nil, nil
			}
			a := c.Args[k]
			if id, ok := a.(*ast.Ident); ok {
				if y := e.bind[e.info().Uses[id]]; y != nil {
					a = y
				}
			}
			sub.bind[e.info().Defs[n]] = a
			k++
		}
	}
	return ret.Results[0], sub
}

func declOf(pkg *packages.Package, f *types.Func) *ast.FuncDecl {
	for _, file := range pkg.Syntax {
		for _, d := range file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && pkg.TypesInfo.Defs[fd.Name] == f {
				return fd
			}
		}
	}
	return nil
}

// harmlessStmt recognises statements that change nothing.
func harmlessStmt(s ast.Stmt) bool {
	switch v := s.(type) {
	case *ast.EmptyStmt:
		return true
	case *ast.AssignStmt:
		for _, l := range v.Lhs {
			if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
				return false
			}
		}
		return true
	case *ast.DeclStmt:
		return true
	case *ast.IfStmt:
		return v.Else == nil && len(v.Body.List) == 0
	}
	return false
}

func (e *foldEnv) repls(x ast.Expr) ([]repl, bool) {
	if isNilExpr(e.info(), x) {
		return nil, true
	}
	l := e.lit(x)
	if l == nil {
		return nil, false
	}
	var out []repl
	for _, el := range l.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			el = kv.Value
		}
		il := e.lit(el)
		var a, b ast.Expr
		if il != nil {
			a, b = pairFields(il, "Rx", "Replacement")
		} else if c, ok := el.(*ast.CallExpr); ok {
			if f := calledFunc(e.info(), c); f != nil {
				if body, sub := e.inline(f, c); body != nil {
					if l2 := sub.lit(body); l2 != nil {
						a, b = pairFields(l2, "Rx", "Replacement")
						if a != nil && b != nil {
							pat, _, ok1 := sub.pattern(a)
							s, ok2 := sub.str(b)
							if !ok1 || !ok2 {
								return nil, false
							}
							out = append(out, repl{pat, s, el.Pos()})
							continue
						}
					}
				}
			}
		}
		if a == nil || b == nil {
			return nil, false
		}
		pat, isNil, ok := e.pattern(a)
		s, ok2 := e.str(b)
		if !ok || !ok2 || isNil {
			return nil, false
		}
		out = append(out, repl{pat, s, el.Pos()})
	}
	return out, true
}

func pairFields(l *ast.CompositeLit, n1, n2 string) (a, b ast.Expr) {
	for i, el := range l.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			if id, ok := kv.Key.(*ast.Ident); ok {
				switch id.Name {
				case n1:
					a = kv.Value
				case n2:
					b = kv.Value
				}
			}
			continue
		}
		switch i {
		case 0:
			a = el
		case 1:
			b = el
		}
	}
	return
}

func (e *foldEnv) mapLit(x ast.Expr) ([]*ast.KeyValueExpr, bool) {
	if isNilExpr(e.info(), x) {
		return nil, true
	}
	l := e.lit(x)
	if l == nil {
		return nil, false
	}
	var out []*ast.KeyValueExpr
	for _, el := range l.Elts {
		kv, ok := el.(*ast.KeyValueExpr)
		if !ok {
			return nil, false
		}
		out = append(out, kv)
	}
	return out, true
}

func (e *foldEnv) strIntMap(x ast.Expr) (map[string]int64, map[string]token.Pos, bool) {
	kvs, ok := e.mapLit(x)
	if !ok {
		return nil, nil, false
	}
	m, ps := map[string]int64{}, map[string]token.Pos{}
	for _, kv := range kvs {
		k, ok1 := e.str(kv.Key)
		v, ok2 := e.int(kv.Value)
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		m[k], ps[k] = v, kv.Pos()
	}
	return m, ps, true
}

func (e *foldEnv) strListMap(x ast.Expr) (map[string][]string, map[string]token.Pos, bool) {
	kvs, ok := e.mapLit(x)
	if !ok {
		return nil, nil, false
	}
	m, ps := map[string][]string{}, map[string]token.Pos{}
	for _, kv := range kvs {
		k, ok1 := e.str(kv.Key)
		v, ok2 := e.strList(kv.Value)
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		m[k], ps[k] = v, kv.Pos()
	}
	return m, ps, true
}

var dataModels = map[*Prog]*dataModel{}

// localeData folds every locale table of internal/data.
func (p *Prog) localeData() *dataModel {
	if m := dataModels[p]; m != nil {
		return m
	}
	pkg := p.Pkgs[modPath+"/internal/data"]
	if pkg == nil {
		fatal("package internal/data not found")
	}
	m := &dataModel{p: p, pkg: pkg, locales: map[*types.Var]*localeInfo{}}
	dataModels[p] = m
	isLD := func(t types.Type) bool { return typeIs(t, modPath+"/internal/data", "LocaleData") }
	// the function that builds child data on top of its parent's
	for _, n := range pkg.Types.Scope().Names() {
		f, ok := pkg.Types.Scope().Lookup(n).(*types.Func)
		if !ok {
			continue
		}
		s := f.Type().(*types.Signature)
		if s.Params().Len() == 2 && s.Results().Len() == 1 && isLD(s.Results().At(0).Type()) && isLD(s.Params().At(0).Type()) && isLD(s.Params().At(1).Type()) {
			m.mergeFn = f
		}
	}
	seq := 0
	assign := func(id *ast.Ident, val ast.Expr, at ast.Node) {
		o := pkg.TypesInfo.Uses[id]
		if o == nil {
			o = pkg.TypesInfo.Defs[id]
		}
		v, _ := o.(*types.Var)
		if v == nil || v.Parent() != pkg.Types.Scope() || !isLD(v.Type()) {
			return
		}
		seq++
		if m.locales[v] != nil {
			m.problem("assigned-once", at, v.Name())
		}
		li := m.foldLocale(val, at)
		if li == nil {
			m.problem("foldable", at, v.Name())
			return
		}
		li.Var, li.Pos, li.Seq = v, at.Pos(), seq
		m.locales[v] = li
	}
	// package-level initialisers first (their order follows their dependencies), then init functions in file order
	for _, f := range pkg.Syntax {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) == len(vs.Names) {
						for i, n := range vs.Names {
							if v, ok := pkg.TypesInfo.Defs[n].(*types.Var); ok && isLD(v.Type()) {
								assign(n, vs.Values[i], vs)
							}
						}
					}
				}
			}
		}
	}
	// package-level initialisers may refer to each other in any order
	for _, li := range m.locales {
		li.Seq = 0
	}
	var stmts func(list []ast.Stmt, depth int)
	stmts = func(list []ast.Stmt, depth int) {
		for _, s := range list {
			switch v := s.(type) {
			case *ast.AssignStmt:
				for i, l := range v.Lhs {
					if id, ok := l.(*ast.Ident); ok && len(v.Lhs) == len(v.Rhs) {
						if o, ok := pkg.TypesInfo.Uses[id].(*types.Var); ok && isLD(o.Type()) {
							assign(id, v.Rhs[i], s)
							continue
						}
					}
					if touchesLocale(pkg.TypesInfo, l, isLD) {
						m.problem("foldable", s, "update of locale data in place")
					}
				}
			case *ast.BlockStmt:
				stmts(v.List, depth)
			case *ast.ExprStmt:
				// a helper of the package that fills tables
				if c, ok := v.X.(*ast.CallExpr); ok && depth < 4 {
					if f := calledFunc(pkg.TypesInfo, c); f != nil && f.Pkg() == pkg.Types && len(c.Args) == 0 {
						if fd := declOf(pkg, f); fd != nil && fd.Body != nil {
							stmts(fd.Body.List, depth+1)
						}
					}
				}
			default:
				if harmlessStmt(s) {
					continue
				}
				ast.Inspect(s, func(n ast.Node) bool {
					if a, ok := n.(*ast.AssignStmt); ok {
						for _, l := range a.Lhs {
							if touchesLocale(pkg.TypesInfo, l, isLD) {
								m.problem("foldable", a, "update of locale data under a condition or in a loop")
							}
						}
					}
					return true
				})
			}
		}
	}
	for _, f := range pkg.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
				stmts(fd.Body.List, 0)
			}
		}
	}
	m.mergeAll()
	return m
}

func touchesLocale(info *types.Info, x ast.Expr, isLD func(types.Type) bool) bool {
	for {
		if tv, ok := info.Types[x]; ok && isLD(tv.Type) {
			return true
		}
		switch v := x.(type) {
		case *ast.SelectorExpr:
			x = v.X
		case *ast.IndexExpr:
			x = v.X
		case *ast.ParenExpr:
			x = v.X
		case *ast.StarExpr:
			x = v.X
		default:
			return false
		}
	}
}

// foldLocale folds the right-hand side of a locale variable.
func (m *dataModel) foldLocale(x ast.Expr, at ast.Node) *localeInfo {
	e := &foldEnv{p: m.p, pkg: m.pkg}
	switch v := x.(type) {
	case *ast.ParenExpr:
		return m.foldLocale(v.X, at)
	case *ast.CallExpr:
		f := calledFunc(m.pkg.TypesInfo, v)
		if f == nil || f != m.mergeFn || len(v.Args) != 2 {
			return nil
		}
		child := m.foldLit(e, v.Args[1])
		if child == nil {
			return nil
		}
		if isNilExpr(m.pkg.TypesInfo, v.Args[0]) {
			return child
		}
		u, ok := v.Args[0].(*ast.UnaryExpr)
		if !ok || u.Op != token.AND {
			return nil
		}
		id, ok := u.X.(*ast.Ident)
		if !ok {
			return nil
		}
		pv, _ := m.pkg.TypesInfo.Uses[id].(*types.Var)
		child.ParentVar = pv
		return child
	case *ast.CompositeLit:
		return m.foldLit(e, v)
	}
	return nil
}

func (m *dataModel) foldLit(e *foldEnv, x ast.Expr) *localeInfo {
	l := e.lit(x)
	if l == nil {
		return nil
	}
	li := &localeInfo{Trans: map[string][]string{}, TransPos: map[string]token.Pos{}, Rel: map[string]string{}, RelPos: map[string]token.Pos{}, Fields: map[string]bool{}, Pos: l.Pos(), RxCPos: l.Pos(), RxEPos: l.Pos(), KwPos: l.Pos()}
	st, _ := m.pkg.TypesInfo.TypeOf(l).Underlying().(*types.Struct)
	good := true
	for i, el := range l.Elts {
		name, val := "", el
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			if id, ok := kv.Key.(*ast.Ident); ok {
				name = id.Name
			}
			val = kv.Value
		} else if st != nil && i < st.NumFields() {
			name = st.Field(i).Name()
		}
		li.Fields[name] = true
		ok := true
		switch name {
		case "Name":
			li.Name, ok = e.str(val)
		case "DateOrder":
			li.DateOrder, ok = e.str(val)
		case "NoWordSpacing":
			li.NoSpace, ok = e.boolean(val)
		case "SentenceSplitterGroup":
			var n int64
			n, ok = e.int(val)
			li.Group = int(n)
		case "Charset":
			var s string
			if s, ok = e.str(val); ok {
				li.Charset = []rune(s)
			} else if cl := e.lit(val); cl != nil {
				ok = true
				for _, ce := range cl.Elts {
					n, o := e.int(ce)
					ok = ok && o
					li.Charset = append(li.Charset, rune(n))
				}
			}
		case "Abbreviations":
			li.Abbrev, ok = e.strList(val)
		case "Simplifications":
			li.Simpl, ok = e.repls(val)
		case "RelativeTypeRegexes":
			li.RelRx, ok = e.repls(val)
		case "Translations":
			var mm map[string][]string
			mm, li.TransPos, ok = e.strListMap(val)
			if ok {
				li.Trans = mm
			}
		case "RelativeType":
			var kvs []*ast.KeyValueExpr
			kvs, ok = e.mapLit(val)
			for _, kv := range kvs {
				k, o1 := e.str(kv.Key)
				v, o2 := e.str(kv.Value)
				ok = ok && o1 && o2
				li.Rel[k] = v
				li.RelPos[k] = kv.Pos()
			}
		case "RxCombined", "RxExactCombined":
			pat, isNil, o := e.pattern(val)
			ok = o
			if o && !isNil {
				if name == "RxCombined" {
					li.RxCombined, li.RxCPos = &pat, val.Pos()
				} else {
					li.RxExact, li.RxEPos = &pat, val.Pos()
				}
			}
		case "KnownWords":
			li.Known, ok = e.strList(val)
			li.KwPos = val.Pos()
		default:
			ok = false
		}
		if !ok {
			m.problem("foldable", el, "field "+name+" of "+li.Name)
			good = false
		}
	}
	if !good {
		return li
	}
	return li
}

// mergeAll builds each locale's final data the way the merge function is specified to
// (the merge-inherits rule checks that the code does so).
func (m *dataModel) mergeAll() {
	done := map[*localeInfo]bool{}
	var do func(li *localeInfo, depth int)
	do = func(li *localeInfo, depth int) {
		if done[li] || depth > 5 {
			return
		}
		done[li] = true
		own := *li
		own.Trans, own.Rel = li.Trans, li.Rel
		li.Own = &own
		if li.ParentVar == nil {
			return
		}
		par := m.locales[li.ParentVar]
		if par == nil {
			return
		}
		do(par, depth+1)
		li.Parent = par
		li.Charset = append(append([]rune{}, li.Charset...), par.Charset...)
		li.Abbrev = append(append([]string{}, li.Abbrev...), par.Abbrev...)
		li.Simpl = append(append([]repl{}, li.Simpl...), par.Simpl...)
		li.RelRx = append(append([]repl{}, li.RelRx...), par.RelRx...)
		if li.Group == 0 {
			li.Group = par.Group
		}
		tr := map[string][]string{}
		for k, v := range li.Trans {
			tr[k] = v
		}
		for k, v := range par.Trans {
			tr[k] = append(append([]string{}, tr[k]...), v...)
		}
		li.Trans = tr
		rl := map[string]string{}
		for k, v := range li.Rel {
			rl[k] = v
		}
		for k, v := range par.Rel {
			rl[k] = v
		}
		li.Rel = rl
		if li.RxCombined == nil {
			li.RxCombined = par.RxCombined
		}
		if li.RxExact == nil {
			li.RxExact = par.RxExact
		}
		if li.DateOrder == "" {
			li.DateOrder = par.DateOrder
		}
		if len(li.Known) == 0 {
			li.Known = par.Known
		}
		li.NoSpace = li.NoSpace || par.NoSpace
	}
	for _, li := range m.locales {
		do(li, 0)
	}
}

// sorted lists the locales by variable name.
func (m *dataModel) sorted() []*localeInfo {
	var out []*localeInfo
	for _, l := range m.locales {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Var.Name() < out[j].Var.Name() })
	return out
}

// label names a locale in reports.
func (l *localeInfo) label() string {
	if l.Name != "" {
		return l.Name
	}
	return l.Var.Name()
}

// table folds a package-level table of internal/data.
func (m *dataModel) table(name string) ast.Expr {
	v, _ := m.pkg.Types.Scope().Lookup(name).(*types.Var)
	if v == nil {
		return nil
	}
	return varInit(m.pkg, v)
}
