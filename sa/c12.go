package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C12"] = checkC12 }

// Where locales come from: each locale that is used is followed back to the list that it was chosen from,
// in each case of what the caller named.
func checkC12(p *Prog, r *Result) {
	r.Rule = "Whatever the caller named, the locale that translates a text comes from the caller's lists; unknown codes of these lists end in an error before a locale is used."
	r.Explanation = "Per case (locales named, languages named, default languages named) branches on the caller's lists are folded. Every locale handed to the translation is followed back through lists, helper functions, the remembered locales (which count as members of the list they are compared with) and the locale registry to the code it was loaded for, and that code to the caller's field. Paths are then explored with the lookup of a named code failing: none may reach a use of a locale or a return without an error."
	parse, search, searchWith := p.method("", "Parser", "Parse"), p.method("", "Parser", "Search"), p.method("", "Parser", "SearchWithLanguage")
	for _, m := range []struct {
		n string
		f *ssa.Function
	}{{"Parse", parse}, {"Search", search}, {"SearchWithLanguage", searchWith}} {
		if m.f == nil {
			r.bad("source", m.n, "", "entry point not found")
			return
		}
	}
	for _, named := range []string{"Locales", "Languages"} {
		c := newLocaleCase(p, named)
		c.locales(r, parse)
		c = newLocaleCase(p, named)
		c.detected(r, search, searchWith)
	}
	for _, named := range []string{"Locales", "Languages", "DefaultLanguages"} {
		c := newLocaleCase(p, named)
		c.unknown(r, parse)
	}
	for _, named := range []string{"Locales", "Languages"} {
		c := newLocaleCase(p, named)
		c.unknown(r, search)
	}
	searchConfig(p, r, parse, searchWith)
	r.floor("source", 3)
	r.floor("unknown", 5)
	r.floor("search", 2)
	r.Assumptions = append(r.Assumptions, "locale data belongs to the code it is registered for (C13)", "lists of the caller are not changed while they are read (C06)")
}

// localeCase: one case of what the caller named.
type localeCase struct {
	p     *Prog
	z     *caseEval
	named string

	seen    map[seenAt]bool
	refined map[zkey]bool
	what    map[*ssa.Function]int
	outs    map[zkey][]pathOut
	errs    map[*ssa.Global]int
}

type seenAt struct {
	x  cval
	at *ssa.BasicBlock
}

func newLocaleCase(p *Prog, named string) *localeCase {
	c := &localeCase{p: p, named: named, seen: map[seenAt]bool{}, refined: map[zkey]bool{}, what: map[*ssa.Function]int{}, outs: map[zkey][]pathOut{}}
	c.z = newCaseEval(p, func(z *caseEval, x cval) (constant.Value, bool) {
		v, ok := c.assume(x)
		return v, ok
	}, func(*caseEval, cval) (bool, bool) { return false, true })
	c.z.both = true
	return c
}

const (
	stEmpty = 1 // empty, nil, false
	stFull  = 2 // has elements, not nil, true
	stFresh = 3 // an error made here
)

// sizeTest: the comparison tells whether a list is empty; val: the outcome when it has elements.
func sizeTest(bo *ssa.BinOp) (list ssa.Value, val bool, ok bool) {
	x, y, op := bo.X, bo.Y, bo.Op
	if _, isC := x.(*ssa.Const); isC {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if isNilConst(y) {
		switch op {
		case token.EQL:
			return x, false, true
		case token.NEQ:
			return x, true, true
		}
		return nil, false, false
	}
	cl, isCall := x.(*ssa.Call)
	n, isC := constInt(y)
	if !isCall || !isC || calleeName(&cl.Call) != "builtin len" {
		return nil, false, false
	}
	l := cl.Call.Args[0]
	switch {
	case n == 0 && (op == token.EQL || op == token.LEQ), n == 1 && op == token.LSS:
		return l, false, true
	case n == 0 && (op == token.NEQ || op == token.GTR), n == 1 && op == token.GEQ:
		return l, true, true
	}
	return nil, false, false
}

func (c *localeCase) assume(x cval) (constant.Value, bool) {
	bo, ok := x.v.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	l, val, ok := sizeTest(bo)
	if !ok || !isList(l.Type()) {
		return nil, false
	}
	switch c.size(cval{l, x.c}, 0) {
	case stEmpty:
		return constant.MakeBool(!val), true
	case stFull:
		return constant.MakeBool(val), true
	}
	return nil, true
}

func isList(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// cfgList: the caller's list that is loaded.
func cfgList(v ssa.Value) string {
	n, f := loadedField(v)
	if n == nil || n.Obj().Name() != "Configuration" {
		return ""
	}
	switch f {
	case "Locales", "Languages", "DefaultLanguages":
		return f
	}
	return ""
}

// size: is the list empty in this case.
func (c *localeCase) size(x cval, depth int) int {
	if depth > 12 {
		return 0
	}
	for n := 0; n < 20; n++ {
		pr, ok := x.v.(*ssa.Parameter)
		if !ok || x.c == nil || x.c.site == nil || x.c.fn != pr.Parent() {
			break
		}
		a := argFor(x.c.site, pr)
		if a == nil {
			break
		}
		// what is known where the call is made
		for _, f := range facts(x.c.site.Block()) {
			bo, ok := f.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			l, full, ok := sizeTest(bo)
			if ok && (l == a || cfgList(a) != "" && cfgList(l) == cfgList(a)) {
				if full == f.Val {
					return stFull
				}
				return stEmpty
			}
		}
		x = cval{a, x.c.up}
	}
	x = x.res()
	if f := cfgList(x.v); f != "" {
		switch {
		case f == c.named:
			return stFull
		case c.named == "Languages" && f == "Locales":
			return stEmpty
		}
		return 0
	}
	if isNilConst(x.v) {
		return stEmpty
	}
	switch y := x.v.(type) {
	case *ssa.Phi:
		out := -1
		for k, e := range y.Edges {
			if !inLoopPhi(y) && !c.z.liveEdge(y.Block(), k, x.c) {
				continue
			}
			if cval := e; cval == ssa.Value(y) {
				continue
			}
			if inLoopPhi(y) && y.Block().Dominates(y.Block().Preds[k]) {
				// grows only
				if cl, ok := e.(*ssa.Call); ok && calleeName(&cl.Call) == "builtin append" && cl.Call.Args[0] == ssa.Value(y) {
					if out == stEmpty || out == -1 {
						out = 0
					}
					continue
				}
			}
			s := c.size(cval{e, x.c}, depth+1)
			if out >= 0 && out != s {
				return 0
			}
			out = s
		}
		return max(out, 0)
	case *ssa.Slice:
		if al, ok := y.X.(*ssa.Alloc); ok && y.Low == nil && y.High == nil {
			if ar := arrayOf(al.Type()); ar != nil && ar.Len() > 0 {
				return stFull
			}
		}
	case *ssa.Call, *ssa.Extract:
		cl, idx := callResult(x.v)
		if cl == nil {
			return 0
		}
		switch n := calleeName(&cl.Call); genericName(n) {
		case "builtin append":
			a, b := c.size(cval{cl.Call.Args[0], x.c}, depth+1), c.size(cval{cl.Call.Args[1], x.c}, depth+1)
			switch {
			case a == stFull || b == stFull:
				return stFull
			case a == stEmpty && b == stEmpty:
				return stEmpty
			}
			return 0
		case "slices.Clone", "slices.Clip", "slices.Grow":
			return c.size(cval{cl.Call.Args[0], x.c}, depth+1)
		case "slices.Concat":
			all := stEmpty
			for _, a := range variadic(cl.Call.Args[0]) {
				switch c.size(cval{a, x.c}, depth+1) {
				case stFull:
					return stFull
				case 0:
					all = 0
				}
			}
			return all
		}
		g := cl.Call.StaticCallee()
		if g == nil || !c.p.inRepo(g) {
			return 0
		}
		gc := c.z.enter(cl, g, x.c)
		if gc == nil {
			return 0
		}
		return c.ending(g, gc, idx)
	case *ssa.MakeSlice:
		if n, ok := constInt(y.Len); ok {
			if n == 0 {
				return stEmpty
			}
			return stFull
		}
		if cl, ok := y.Len.(*ssa.Call); ok && calleeName(&cl.Call) == "builtin len" && isList(cl.Call.Args[0].Type()) {
			return c.size(cval{cl.Call.Args[0], x.c}, depth+1)
		}
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok {
			// a variable of its own: any of its values
			sts, ok := cellStores(al)
			if !ok || len(sts) == 0 {
				return 0
			}
			out := -1
			for _, st := range sts {
				if st.Parent() != y.Parent() {
					return 0
				}
				k := c.size(cval{st.Val, x.c}, depth+1)
				if out >= 0 && k != out || !dominates(sts[0], y) {
					return 0
				}
				out = k
			}
			return max(out, 0)
		}
		if ss := c.z.sources(x, 0); len(ss) > 0 {
			out := -1
			for _, s := range ss {
				k := c.size(s, depth+1)
				if out >= 0 && k != out {
					return 0
				}
				out = k
			}
			return max(out, 0)
		}
	}
	return 0
}

// again enters a function that is being followed already, once.
func (c *localeCase) again(cl *ssa.Call, g *ssa.Function, up *cctx) *cctx {
	n := 0
	for u := up; u != nil; u = u.up {
		if u.fn == g {
			n++
		}
	}
	if n != 1 || up.n > 14 {
		return nil
	}
	k := ckey{cl, g, up}
	if c.z.ctxs[k] == nil {
		c.z.ctxs[k] = &cctx{cl, g, up, up.n + 1}
	}
	return c.z.ctxs[k]
}

// ending: is the list that g returns empty in this case.
func (c *localeCase) ending(g *ssa.Function, gc *cctx, idx int) int {
	k := zkey{g, gc, 9}
	outs, ok := c.outs[k]
	if !ok {
		c.outs[k] = nil
		r := &pathRun{c: c, f: g, cc: gc, edges: c.z.edges(g, gc)}
		r.start(&pathState{vals: map[ssa.Value]int{}, added: map[ssa.Value]bool{}})
		if !r.over {
			for _, o := range r.outs {
				outs = append(outs, o)
			}
		}
		c.outs[k] = outs
	}
	out := -1
	for _, o := range outs {
		if idx >= len(o.res) || out >= 0 && o.res[idx] != out {
			return 0
		}
		out = o.res[idx]
	}
	return max(out, 0)
}

// genericName drops the type arguments of an instantiated function.
func genericName(n string) string {
	if k := strings.IndexByte(n, '['); k > 0 {
		return n[:k]
	}
	return n
}

// labels are the origins of a locale, a code, or a list of them.
type labels map[string]token.Pos

func (l labels) add(s string, pos token.Pos) {
	if _, ok := l[s]; !ok {
		l[s] = pos
	}
}

func (c *localeCase) origins(x cval, at *ssa.BasicBlock) labels {
	out := labels{}
	c.seen = map[seenAt]bool{}
	c.walk(x, at, out, 0)
	return out
}

// walk follows x, used in block at, back to its origins.
func (c *localeCase) walk(x cval, at *ssa.BasicBlock, out labels, depth int) {
	if depth > 60 {
		out.add("?", x.v.Pos())
		return
	}
	for n := 0; n < 40; n++ {
		y := x
		switch z := x.v.(type) {
		case *ssa.Convert:
			x.v = z.X
		case *ssa.ChangeType:
			x.v = z.X
		case *ssa.Parameter:
			if x.c != nil && x.c.site != nil && x.c.fn == z.Parent() {
				if a := argFor(x.c.site, z); a != nil {
					x, at = cval{a, x.c.up}, x.c.site.Block()
				}
			}
		}
		if x == y {
			break
		}
	}
	if k := (seenAt{x, at}); c.seen[k] {
		return
	} else {
		c.seen[k] = true
	}
	if x.c != nil && len(x.c.fn.Blocks) > 0 {
		c.refine(x.c.fn, x.c)
	}
	// a member of a list that is known to be allowed
	if ms := c.memberOf(x, at); len(ms) > 0 {
		for _, m := range ms {
			c.walk(m, at, out, depth+1)
		}
		return
	}
	next := func(v ssa.Value, b *ssa.BasicBlock) { c.walk(cval{v, x.c}, b, out, depth+1) }
	if f := cfgList(x.v); f != "" {
		out.add(f, x.v.Pos())
		return
	}
	switch y := x.v.(type) {
	case *ssa.Const:
		if y.Value != nil && y.Value.Kind() == constant.String && constant.StringVal(y.Value) != "" {
			out.add("the constant "+y.Value.String(), y.Pos())
		}
	case *ssa.Phi:
		for k, e := range y.Edges {
			if c.z.liveEdge(y.Block(), k, x.c) {
				next(e, y.Block().Preds[k])
			}
		}
	case *ssa.UnOp:
		if y.Op != token.MUL {
			out.add("?", y.Pos())
			return
		}
		switch a := y.X.(type) {
		case *ssa.IndexAddr:
			next(a.X, y.Block())
		case *ssa.FieldAddr:
			n, f := fieldName(a)
			switch {
			case n != nil && n.Obj().Name() == "Parser" && f == "usedLocales":
				out.add("the locales used before", y.Pos())
			case n != nil && n.Obj().Name() == "LocaleData":
				next(a.X, y.Block())
			case n != nil && n.Obj().Name() == "Configuration" && f == "Region":
			default:
				if ss := c.z.sources(x, 0); len(ss) > 0 {
					for _, s := range ss {
						c.walk(s, y.Block(), out, depth+1)
					}
					return
				}
				// a field of a local structure, stored anywhere
				found := false
				c.fieldVals(a, x.c, func(v ssa.Value, b *ssa.BasicBlock) {
					found = true
					next(v, b)
				})
				if !found {
					out.add("?", y.Pos())
				}
			}
		case *ssa.Alloc, *ssa.FreeVar:
			if fv, ok := a.(*ssa.FreeVar); ok {
				if v := capturedValue(fv); v != nil {
					next(v, v.Parent().Blocks[0])
					return
				}
			}
			if al := pairCell(a); al != nil {
				if sts, ok := cellStores(al); ok {
					for _, st := range sts {
						if x.c == nil || st.Parent() != x.c.fn || c.z.liveBlock(st.Block(), x.c) {
							next(st.Val, st.Block())
						}
					}
					return
				}
			}
			out.add("?", y.Pos())
		case *ssa.Global:
			if isList(y.Type()) {
				out.add("a list of the library", y.Pos())
			} else {
				out.add("?", y.Pos())
			}
		default:
			out.add("?", y.Pos())
		}
	case *ssa.FreeVar:
		if v := capturedValue(y); v != nil {
			next(v, at)
			return
		}
		out.add("?", y.Pos())
	case *ssa.Field:
		if n, f := fieldName(y); n != nil && n.Obj().Name() == "Configuration" && f == "Region" {
			return
		}
		if ss := c.z.sources(x, 0); len(ss) > 0 {
			for _, s := range ss {
				c.walk(s, y.Block(), out, depth+1)
			}
			return
		}
		out.add("?", y.Pos())
	case *ssa.Slice:
		if al, ok := y.X.(*ssa.Alloc); ok {
			for _, st := range elemStores(al) {
				next(st.Val, st.Block())
			}
			for _, st := range elemStores(y) {
				next(st.Val, st.Block())
			}
			return
		}
		next(y.X, y.Block())
	case *ssa.MakeSlice:
		c.filled(y, x.c, out, depth)
	case *ssa.BinOp:
		if y.Op == token.ADD {
			// a language and its region
			sub := labels{}
			c.walk(cval{y.X, x.c}, y.Block(), sub, depth+1)
			c.suffixed(sub, out)
			return
		}
		out.add("?", y.Pos())
	case *ssa.Lookup:
		c.mapValue(y, x.c, at, out, depth)
	case *ssa.Extract:
		switch t := y.Tuple.(type) {
		case *ssa.Call:
			c.callWalk(t, y.Index, x, out, depth)
		case *ssa.Lookup:
			c.mapValue(t, x.c, at, out, depth)
		case *ssa.Next:
			rg, ok := t.Iter.(*ssa.Range)
			if !ok {
				out.add("?", y.Pos())
				return
			}
			if y.Index == 1 {
				c.keys(cval{rg.X, x.c}, t.Block(), out, depth+1)
			} else {
				c.mapVals(cval{rg.X, x.c}, out, depth+1, y.Pos())
			}
		default:
			out.add("?", y.Pos())
		}
	case *ssa.Call:
		c.callWalk(y, 0, x, out, depth)
	case *ssa.Parameter:
		out.add("the parameter "+y.Name(), y.Pos())
	case *ssa.Alloc:
		out.add("?", y.Pos())
	default:
		out.add("?", x.v.Pos())
	}
}

// suffixed: codes with something appended.
func (c *localeCase) suffixed(sub, out labels) {
	for l, pos := range sub {
		if !strings.HasSuffix(l, "+") && l != "?" {
			l += "+"
		}
		out.add(l, pos)
	}
}

// filled: what is put into a list that was made with a size.
func (c *localeCase) filled(ms *ssa.MakeSlice, cc *cctx, out labels, depth int) {
	for _, st := range elemStores(ms) {
		if c.z.liveBlock(st.Block(), cc) {
			c.walk(cval{st.Val, cc}, st.Block(), out, depth+1)
		}
	}
	for _, u := range refs(ms) {
		if cl, ok := u.(*ssa.Call); ok && calleeName(&cl.Call) == "builtin copy" && cl.Call.Args[0] == ssa.Value(ms) {
			c.walk(cval{cl.Call.Args[1], cc}, cl.Block(), out, depth+1)
		}
	}
}

func (c *localeCase) fieldVals(a *ssa.FieldAddr, cc *cctx, each func(ssa.Value, *ssa.BasicBlock)) {
	al, ok := a.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, u := range refs(al) {
		fa, ok := u.(*ssa.FieldAddr)
		if !ok || fa.Field != a.Field {
			continue
		}
		for _, w := range refs(fa) {
			if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				each(st.Val, st.Block())
			}
		}
	}
}

// localeData: the function or table that gives the data of a locale for its code.
func registryLookup(cl *ssa.CallCommon) bool {
	g := cl.StaticCallee()
	if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != repoPkg("internal/data") || len(g.Params) != 1 || !isString(g.Params[0].Type()) {
		return false
	}
	return g.Signature.Results().Len() > 0 && isLocale(g.Signature.Results().At(0).Type())
}

func isLocale(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && typeIs(pt.Elem(), repoPkg("internal/data"), "LocaleData")
}

func (c *localeCase) callWalk(cl *ssa.Call, idx int, x cval, out labels, depth int) {
	next := func(v ssa.Value) { c.walk(cval{v, x.c}, cl.Block(), out, depth+1) }
	if registryLookup(&cl.Call) {
		next(cl.Call.Args[0])
		return
	}
	n := genericName(calleeName(&cl.Call))
	switch n {
	case "builtin append":
		next(cl.Call.Args[0])
		next(cl.Call.Args[1])
		return
	case "slices.Clone", "slices.Clip", "slices.Grow", "slices.Compact", "slices.CompactFunc", "slices.Sorted", "slices.Collect", "slices.Values",
		"strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Trim", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ReplaceAll", "strings.Replace", "strings.Clone", "strings.Cut", "strings.Split", "strings.SplitN":
		next(cl.Call.Args[0])
		return
	case "slices.Concat":
		for _, a := range variadic(cl.Call.Args[0]) {
			next(a)
		}
		return
	case "slices.Insert":
		next(cl.Call.Args[0])
		next(cl.Call.Args[2])
		return
	case "maps.Keys":
		c.keys(cval{cl.Call.Args[0], x.c}, cl.Block(), out, depth+1)
		return
	case "fmt.Sprintf", "strings.Join":
		arg := cl.Call.Args[len(cl.Call.Args)-1]
		if n == "strings.Join" {
			arg = cl.Call.Args[0]
		}
		if vs := variadic(arg); len(vs) > 0 {
			sub := labels{}
			v := vs[0]
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			c.walk(cval{v, x.c}, cl.Block(), sub, depth+1)
			c.suffixed(sub, out)
			return
		}
	}
	g := cl.Call.StaticCallee()
	if g == nil {
		if _, f := loadedField(cl.Call.Value); f == "DetectLanguagesFunction" {
			out.add("the language detector", cl.Pos())
			return
		}
		out.add("?", cl.Pos())
		return
	}
	if !c.p.inRepo(g) || len(g.Blocks) == 0 {
		out.add("?", cl.Pos())
		return
	}
	if isDictMethod(g, "Items") {
		c.keys(cval{cl.Call.Args[0], x.c}, cl.Block(), out, depth+1)
		return
	}
	gc := c.z.enter(cl, g, x.c)
	if gc == nil {
		gc = c.again(cl, g, x.c)
	}
	if gc == nil {
		out.add("?", cl.Pos())
		return
	}
	c.refine(g, gc)
	for _, ret := range c.z.liveReturns(g, gc) {
		if vs := retValues(ret); idx < len(vs) {
			c.walk(cval{vs[idx], gc}, ret.Block(), out, depth+1)
		}
	}
}

// mapValue: what a table holds.
func (c *localeCase) mapValue(lk *ssa.Lookup, cc *cctx, at *ssa.BasicBlock, out labels, depth int) {
	if _, ok := lk.X.Type().Underlying().(*types.Map); !ok {
		out.add("?", lk.Pos())
		return
	}
	if g := rootGlobal(lk.X); g != nil {
		// the registry
		c.walk(cval{lk.Index, cc}, lk.Block(), out, depth+1)
		return
	}
	c.mapVals(cval{lk.X, cc}, out, depth+1, lk.Pos())
}

func (c *localeCase) mapVals(x cval, out labels, depth int, pos token.Pos) {
	x = x.res()
	mk, ok := x.v.(*ssa.MakeMap)
	if !ok {
		out.add("?", pos)
		return
	}
	for _, u := range refs(mk) {
		if mu, ok := u.(*ssa.MapUpdate); ok {
			c.walk(cval{mu.Value, x.c}, mu.Block(), out, depth+1)
		}
	}
}

// keys: the keys of a table.
func (c *localeCase) keys(x cval, at *ssa.BasicBlock, out labels, depth int) {
	x = x.res()
	if g := rootGlobal(x.v); g != nil {
		out.add("all known languages", x.v.Pos())
		return
	}
	if _, f := loadedField(x.v); f == "usedLocalesTracker" {
		out.add("what earlier calls left in "+f, x.v.Pos())
		return
	}
	switch y := x.v.(type) {
	case *ssa.MakeMap:
		c.mapKeys(y, x.c, out, depth)
	case *ssa.Phi:
		for k, e := range y.Edges {
			if c.z.liveEdge(y.Block(), k, x.c) && depth < 60 {
				c.keys(cval{e, x.c}, at, out, depth+5)
			}
		}
	case *ssa.Call:
		g := y.Call.StaticCallee()
		if g == nil || !c.p.inRepo(g) {
			out.add("?", y.Pos())
			return
		}
		c.mapKeys(y, x.c, out, depth)
		if g.Name() == "NewDict" {
			for _, a := range y.Call.Args {
				c.walk(cval{a, x.c}, y.Block(), out, depth+1)
			}
			return
		}
		gc := c.z.enter(y, g, x.c)
		if gc == nil || depth > 60 {
			out.add("?", y.Pos())
			return
		}
		c.refine(g, gc)
		for _, ret := range c.z.liveReturns(g, gc) {
			if vs := retValues(ret); len(vs) > 0 {
				c.keys(cval{vs[0], gc}, ret.Block(), out, depth+5)
			}
		}
	default:
		out.add("?", x.v.Pos())
	}
}

func (c *localeCase) mapKeys(m ssa.Value, cc *cctx, out labels, depth int) {
	for _, u := range refs(m) {
		switch y := u.(type) {
		case *ssa.MapUpdate:
			c.walk(cval{y.Key, cc}, y.Block(), out, depth+1)
		case *ssa.Call:
			if isDictMethod(y.Call.StaticCallee(), "Add") && y.Call.Args[0] == m {
				c.walk(cval{y.Call.Args[1], cc}, y.Block(), out, depth+1)
			}
		}
	}
}

// memberOf: what is known at the block puts x into one of these lists.
func (c *localeCase) memberOf(x cval, at *ssa.BasicBlock) []cval {
	if at == nil || x.v == nil || !isLocale(x.v.Type()) && !isString(x.v.Type()) {
		return nil
	}
	if in, ok := x.v.(ssa.Instruction); ok && in.Parent() != at.Parent() {
		return nil
	}
	for _, f := range facts(at) {
		if ms := c.memberFact(f, x, x.c, 0); len(ms) > 0 {
			return ms
		}
	}
	return nil
}

func (c *localeCase) same(a, b cval) bool {
	a, b = a.res(), b.res()
	if a == b {
		return true
	}
	// the name stands for the locale
	name := func(x cval) (cval, bool) {
		if ld, ok := x.v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok {
				if n, f := fieldName(fa); n != nil && n.Obj().Name() == "LocaleData" && f == "Name" {
					return cval{fa.X, x.c}.res(), true
				}
			}
		}
		return x, false
	}
	a2, ok1 := name(a)
	b2, ok2 := name(b)
	if !ok1 && !ok2 {
		return false
	}
	if a2 == b2 {
		return true
	}
	// loads of the same element
	return false
}

// memberFact: the outcome of a condition tells that x is in one of these lists (or is one of these).
func (c *localeCase) memberFact(f Fact, x cval, cc *cctx, depth int) []cval {
	if depth > 4 {
		return nil
	}
	switch y := f.Cond.(type) {
	case *ssa.BinOp:
		if y.Op == token.EQL && f.Val || y.Op == token.NEQ && !f.Val {
			for _, pr := range [][2]ssa.Value{{y.X, y.Y}, {y.Y, y.X}} {
				if c.same(cval{pr[0], cc}, x) && !isConstVal(pr[1]) {
					return []cval{{pr[1], cc}}
				}
			}
		}
		// slices.Index(list, x) >= 0
		if cl, ok := y.X.(*ssa.Call); ok && strings.HasPrefix(genericName(calleeName(&cl.Call)), "slices.Index") {
			n, isC := constInt(y.Y)
			in := isC && (n == 0 && (y.Op == token.GEQ && f.Val || y.Op == token.LSS && !f.Val) ||
				n == -1 && (y.Op == token.NEQ && f.Val || y.Op == token.EQL && !f.Val || y.Op == token.GTR && f.Val || y.Op == token.LEQ && !f.Val))
			if in {
				return c.contains(cl, x, cc)
			}
		}
	case *ssa.Extract:
		if lk, ok := y.Tuple.(*ssa.Lookup); ok && y.Index == 1 && f.Val && c.same(cval{lk.Index, cc}, x) && rootGlobal(lk.X) == nil {
			return c.keyList(cval{lk.X, cc})
		}
	case *ssa.Lookup:
		if f.Val && isBool(y.Type()) && !y.CommaOk && c.same(cval{y.Index, cc}, x) {
			return c.keyList(cval{y.X, cc})
		}
	case *ssa.Call:
		if !f.Val {
			return nil
		}
		switch genericName(calleeName(&y.Call)) {
		case "slices.Contains", "slices.ContainsFunc":
			return c.contains(y, x, cc)
		}
		g := y.Call.StaticCallee()
		if g == nil || !c.p.inRepo(g) {
			return nil
		}
		if isDictMethod(g, "Contain") {
			if c.same(cval{y.Call.Args[1], cc}, x) {
				return c.keyList(cval{y.Call.Args[0], cc})
			}
			return nil
		}
		var prm bool
		for _, a := range y.Call.Args {
			if c.same(cval{a, cc}, x) {
				prm = true
			}
		}
		if !prm {
			return nil
		}
		gc := c.z.enter(y, g, cc)
		if gc == nil {
			return nil
		}
		var out []cval
		for _, ret := range c.z.liveReturns(g, gc) {
			vs := retValues(ret)
			if len(vs) != 1 {
				return nil
			}
			if b, ok := constBool(vs[0]); ok && !b {
				continue
			}
			var ms []cval
			fs := facts(ret.Block())
			if _, ok := constBool(vs[0]); !ok {
				fs = append(fs, expandFacts([]Fact{{vs[0], true}})...)
			}
			for _, f2 := range fs {
				if ms = c.memberFact(f2, x, gc, depth+1); len(ms) > 0 {
					break
				}
			}
			if len(ms) == 0 {
				return nil
			}
			out = append(out, ms...)
		}
		return out
	}
	return nil
}

func isConstVal(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

func (c *localeCase) contains(cl *ssa.Call, x cval, cc *cctx) []cval {
	if len(cl.Call.Args) != 2 {
		return nil
	}
	list := cval{cl.Call.Args[0], cc}
	if c.same(cval{cl.Call.Args[1], cc}, x) {
		return []cval{list}
	}
	// a predicate that compares with x
	if mc, ok := cl.Call.Args[1].(*ssa.MakeClosure); ok {
		for k, b := range mc.Bindings {
			fv := mc.Fn.(*ssa.Function).FreeVars[k]
			v := b
			if al, ok := b.(*ssa.Alloc); ok {
				if st := soleStore(al); st != nil {
					v = st.Val
				}
			}
			if (c.same(cval{v, cc}, x) || fv.Name() == x.v.Name()) && c.p.comparesWith(mc.Fn.(*ssa.Function), fv) {
				return []cval{list}
			}
		}
	}
	return nil
}

// keyList: the values that are put into a set, as lists.
func (c *localeCase) keyList(m cval) []cval {
	m = m.res()
	var out []cval
	for _, u := range refs(m.v) {
		switch y := u.(type) {
		case *ssa.MapUpdate:
			if y.Map == m.v {
				out = append(out, cval{y.Key, m.c})
			}
		case *ssa.Call:
			if isDictMethod(y.Call.StaticCallee(), "Add") && y.Call.Args[0] == m.v {
				out = append(out, cval{y.Call.Args[1], m.c})
			}
		}
	}
	if cl, ok := m.v.(*ssa.Call); ok {
		for _, a := range cl.Call.Args {
			if isList(a.Type()) && !isNilConst(a) {
				out = append(out, cval{a, m.c})
			}
		}
	}
	return out
}

// uses calls each for every locale that is handed to another package for more than a question, from f on.
func (c *localeCase) uses(f *ssa.Function, cc *cctx, each func(site *ssa.Call, arg ssa.Value, cc *cctx)) {
	c.refine(f, cc)
	for _, b := range f.Blocks {
		if !c.z.liveBlock(b, cc) {
			continue
		}
		for _, i := range b.Instrs {
			cl, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			g := cl.Call.StaticCallee()
			if g == nil || !c.p.inRepo(g) {
				continue
			}
			if g.Pkg == f.Pkg {
				if gc := c.z.enter(cl, g, cc); gc != nil {
					c.uses(g, gc, each)
				}
				continue
			}
			if a := localeUse(cl); a != nil {
				each(cl, a, cc)
			}
		}
	}
}

// localeUse: the locale that is handed to another package for more than a question.
func localeUse(cl *ssa.Call) ssa.Value {
	g := cl.Call.StaticCallee()
	if g == nil || g.Pkg == nil || cl.Parent().Pkg == nil || g.Pkg == cl.Parent().Pkg || g.Pkg.Pkg.Path() != repoPkg("internal/language") {
		return nil
	}
	rs := g.Signature.Results()
	if rs.Len() == 0 || isBool(rs.At(0).Type()) || isLocale(rs.At(0).Type()) || isInt(rs.At(0).Type()) {
		return nil
	}
	for _, a := range cl.Call.Args {
		if isLocale(a.Type()) {
			return a
		}
	}
	return nil
}

func (c *localeCase) root(f *ssa.Function) *cctx { return &cctx{nil, f, nil, 1} }

// report: no origin is one that the caller did not allow.
func (c *localeCase) report(r *Result, key string, pos string, ls labels) {
	var bad, good []string
	for l := range ls {
		switch strings.TrimSuffix(l, "+") {
		case "Locales", "Languages", "DefaultLanguages":
			good = append(good, l)
		case "?":
		default:
			bad = append(bad, l)
		}
	}
	sort.Strings(bad)
	sort.Strings(good)
	if len(bad) > 0 {
		r.bad("source", key, c.p.pos(ls[bad[0]]), "when "+c.named+" are named, a locale may come from "+strings.Join(bad, ", "))
		return
	}
	if len(good) == 0 && len(ls) == 0 {
		return
	}
	r.ok("source", key, pos, "from "+strings.Join(good, ", "))
}

func (c *localeCase) locales(r *Result, parse *ssa.Function) {
	n := 0
	c.uses(parse, c.root(parse), func(site *ssa.Call, arg ssa.Value, cc *cctx) {
		n++
		r.Analysed["locale uses"]++
		ls := c.origins(cval{arg, cc}, site.Block())
		c.report(r, fmt.Sprintf("%s %s %s", c.named, siteKey(site, calleeName(site.Common())), "locale"), c.p.instrPos(site), ls)
	})
	r.Analysed["contexts"] += len(c.z.ctxs)
}

// detected: the language of a search.
func (c *localeCase) detected(r *Result, search, searchWith *ssa.Function) {
	root := c.root(search)
	var visit func(f *ssa.Function, cc *cctx)
	visit = func(f *ssa.Function, cc *cctx) {
		c.refine(f, cc)
		for _, b := range f.Blocks {
			if !c.z.liveBlock(b, cc) {
				continue
			}
			for _, i := range b.Instrs {
				cl, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				g := cl.Call.StaticCallee()
				if g == nil || !c.p.inRepo(g) || g.Pkg != search.Pkg {
					continue
				}
				if g != searchWith {
					if gc := c.z.enter(cl, g, cc); gc != nil {
						visit(g, gc)
					}
					continue
				}
				for k, a := range cl.Call.Args {
					if isString(a.Type()) && k < len(g.Params) && codeParam(g.Params[k]) {
						r.Analysed["locale uses"]++
						ls := c.origins(cval{a, cc}, b)
						c.report(r, fmt.Sprintf("%s %s %s", c.named, siteKey(cl, calleeName(cl.Common())), "language"), c.p.instrPos(cl), ls)
					}
				}
			}
		}
	}
	visit(search, root)
}

// codeParam: the parameter is looked up as the code of a locale.
func codeParam(pr *ssa.Parameter) bool {
	for _, u := range refs(pr) {
		if cl, ok := u.(*ssa.Call); ok {
			if registryLookup(&cl.Call) {
				return true
			}
			if g := cl.Call.StaticCallee(); g != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && g != pr.Parent() {
				for k, a := range cl.Call.Args {
					if a == ssa.Value(pr) && k < len(g.Params) && codeParam(g.Params[k]) {
						return true
					}
				}
			}
		}
	}
	return false
}

// comparesWith: the predicate holds only for elements that are the captured value (or bear its name).
func (p *Prog) comparesWith(g *ssa.Function, fv *ssa.FreeVar) bool {
	if len(g.Params) == 0 || !isBool(g.Signature.Results().At(0).Type()) {
		return false
	}
	// of: v is the value itself, or its name
	var of func(v ssa.Value, root ssa.Value, depth int) bool
	of = func(v ssa.Value, root ssa.Value, depth int) bool {
		if v == root {
			return true
		}
		if depth > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			return x.Op == token.MUL && of(x.X, root, depth+1)
		case *ssa.FieldAddr:
			_, n := fieldName(x)
			return n == "Name" && of(x.X, root, depth+1)
		case *ssa.Field:
			_, n := fieldName(x)
			return n == "Name" && of(x.X, root, depth+1)
		case *ssa.Alloc:
			st := soleStore(x)
			return st != nil && of(st.Val, root, depth+1)
		}
		return false
	}
	e := p.implies(func(f Fact) bool {
		bo, ok := f.Cond.(*ssa.BinOp)
		if !ok || (bo.Op == token.EQL) != f.Val || bo.Op != token.EQL && bo.Op != token.NEQ {
			return false
		}
		el := g.Params[0]
		return of(bo.X, el, 0) && of(bo.Y, fv, 0) || of(bo.Y, el, 0) && of(bo.X, fv, 0)
	})
	return e.outcome(g, 0, true)
}
