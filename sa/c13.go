package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = checkC13 }

// strState is the set of strings a parameter may hold: exactly in (neg=false) or anything but in.
type strState struct {
	neg bool
	set map[string]bool
}

func joinStr(a, b *strState) *strState {
	if a == nil {
		return b
	}
	out := &strState{set: map[string]bool{}}
	switch {
	case !a.neg && !b.neg:
		for k := range a.set {
			out.set[k] = true
		}
		for k := range b.set {
			out.set[k] = true
		}
	case a.neg && b.neg:
		out.neg = true
		for k := range a.set {
			if b.set[k] {
				out.set[k] = true
			}
		}
	default:
		if !a.neg {
			a, b = b, a
		}
		out.neg = true
		for k := range a.set {
			if !b.set[k] {
				out.set[k] = true
			}
		}
	}
	return out
}

func (s *strState) eq(k string, val bool) *strState {
	if val {
		if s.neg == s.set[k] { // excluded or not contained
			return nil
		}
		return &strState{set: map[string]bool{k: true}}
	}
	if s.neg {
		out := &strState{neg: true, set: map[string]bool{k: true}}
		for x := range s.set {
			out.set[x] = true
		}
		return out
	}
	out := &strState{set: map[string]bool{}}
	for x := range s.set {
		if x != k {
			out.set[x] = true
		}
	}
	if len(out.set) == 0 {
		return nil
	}
	return out
}

// stringFlow computes for every edge of f which strings the parameter may hold there.
func stringFlow(f *ssa.Function, prm ssa.Value) (in map[*ssa.BasicBlock]*strState, edge func(b *ssa.BasicBlock, k int) *strState) {
	in = map[*ssa.BasicBlock]*strState{f.Blocks[0]: {neg: true, set: map[string]bool{}}}
	edge = func(b *ssa.BasicBlock, k int) *strState {
		s := in[b]
		if s == nil {
			return nil
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return s
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			return s
		}
		x, y := bo.X, bo.Y
		if y == prm {
			x, y = y, x
		}
		c, ok := constString(y)
		if x != prm || !ok {
			return s
		}
		return s.eq(c, (bo.Op == token.EQL) == (k == 0))
	}
	// the flow graph of a lookup function is acyclic: visit in reverse post order
	order := rpo(f)
	for _, b := range order {
		if b == f.Blocks[0] {
			continue
		}
		var s *strState
		seen := map[*ssa.BasicBlock]bool{}
		for _, pr := range b.Preds {
			if seen[pr] {
				continue
			}
			seen[pr] = true
			for k, su := range pr.Succs {
				if su == b {
					if e := edge(pr, k); e != nil {
						s = joinStr(s, e)
					}
				}
			}
		}
		if s != nil {
			in[b] = s
		}
	}
	return in, edge
}

func rpo(f *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(f.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type regEntry struct {
	codes map[string]bool
	other bool // any code not named elsewhere
	glob  *ssa.Global
	found string // "true", "false", "?"
	pos   string
}

// registry reads which data each locale code yields from the lookup function.
// forwardsTo: every return of f returns the results of one call that receives the parameter unchanged.
func forwardsTo(f *ssa.Function, prm *ssa.Parameter) (*ssa.Function, int) {
	var call *ssa.Call
	ok := true
	eachInstr(f, func(i ssa.Instruction) {
		ret, isRet := i.(*ssa.Return)
		if !isRet {
			return
		}
		for k, v := range ret.Results {
			c, isCall := v.(*ssa.Call)
			if ex, isEx := v.(*ssa.Extract); isEx && ex.Index == k {
				c, isCall = ex.Tuple.(*ssa.Call)
			}
			if !isCall || call != nil && call != c {
				ok = false
				return
			}
			call = c
		}
	})
	if !ok || call == nil {
		return nil, 0
	}
	g := call.Call.StaticCallee()
	if g == nil || len(g.Blocks) == 0 {
		return nil, 0
	}
	for k, a := range call.Call.Args {
		if a == ssa.Value(prm) {
			return g, k
		}
	}
	return nil, 0
}

func (p *Prog) registry(r *Result) (map[string]*ssa.Global, *ssa.Function) {
	f := p.fn("internal/data", "GetLocaleData")
	if f == nil {
		fatal("locale lookup function GetLocaleData not found")
	}
	reg := map[string]*ssa.Global{}
	prm := f.Params[0]
	// the lookup may hand the code on to a helper that does the work
	for n := 0; n < 4; n++ {
		g, pi := forwardsTo(f, prm)
		if g == nil {
			break
		}
		f, prm = g, g.Params[pi]
	}
	in, edge := stringFlow(f, prm)
	type outcome struct {
		s        *strState
		val, okv ssa.Value
		pos      string
	}
	var outs []outcome
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 2 || in[b] == nil {
			continue
		}
		v0, v1 := ret.Results[0], ret.Results[1]
		ph0, isPhi0 := v0.(*ssa.Phi)
		ph1, isPhi1 := v1.(*ssa.Phi)
		if isPhi0 && ph0.Block() == b || isPhi1 && ph1.Block() == b {
			for i, pr := range b.Preds {
				k := 0
				for j, su := range pr.Succs {
					if su == b {
						k = j
					}
				}
				e := edge(pr, k)
				if e == nil {
					continue
				}
				a, o := v0, v1
				if isPhi0 && ph0.Block() == b {
					a = ph0.Edges[i]
				}
				if isPhi1 && ph1.Block() == b {
					o = ph1.Edges[i]
				}
				outs = append(outs, outcome{e, a, o, p.instrPos(ret)})
			}
			continue
		}
		outs = append(outs, outcome{in[b], v0, v1, p.instrPos(ret)})
	}
	for _, o := range outs {
		// table lookup: the entries of a literal map
		if ex, ok := o.val.(*ssa.Extract); ok {
			if lk, ok := ex.Tuple.(*ssa.Lookup); ok && lk.Index == prm {
				if ents := p.mapEntries(lk.X); ents != nil {
					same := false
					if e1, ok := o.okv.(*ssa.Extract); ok && e1.Tuple == ex.Tuple && e1.Index == 1 {
						same = true
					}
					r.add(same, "registry-total", "lookup table", o.pos, okOr(map[bool]string{false: "the second result is not the table's own presence flag"}[same], "presence flag and data come from the same lookup"))
					for k, v := range ents {
						if g, ok := v.(*ssa.Global); ok {
							reg[k] = g
						}
					}
					continue
				}
			}
		}
		if phi, ok := constBool(o.okv); ok && !phi {
			if !o.s.neg {
				for c := range o.s.set {
					r.bad("registry-total", c, o.pos, "the code is recognised but reported as unknown")
				}
			} else {
				r.add(isNilConst(o.val), "registry-total", "unknown codes", o.pos, "codes without data yield no data and are reported as unknown")
			}
			continue
		}
		if t, ok := constBool(o.okv); ok && t {
			g, _ := o.val.(*ssa.Global)
			if o.s.neg {
				r.bad("registry-total", "unknown codes", o.pos, "codes that are not registered are reported as known")
				continue
			}
			for c := range o.s.set {
				if g == nil {
					r.bad("registry-code", c, o.pos, "the data returned is not one of the locale tables")
					continue
				}
				reg[c] = g
			}
			continue
		}
		r.bad("registry-total", "lookup outcome", o.pos, "cannot relate the returned data to the requested code")
	}
	return reg, f
}

// mapEntries lists the constant string keys and values of a map literal held by a global.
func (p *Prog) mapEntries(v ssa.Value) map[string]ssa.Value {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	g, ok := ld.X.(*ssa.Global)
	if !ok {
		return nil
	}
	mk, ok := p.initValue(g).(*ssa.MakeMap)
	if !ok || mk.Referrers() == nil {
		return nil
	}
	out := map[string]ssa.Value{}
	for _, u := range *mk.Referrers() {
		switch x := u.(type) {
		case *ssa.MapUpdate:
			k, ok := constString(x.Key)
			if !ok {
				return nil
			}
			out[k] = strip(x.Value)
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return out
}

func checkC13(p *Prog, r *Result) {
	r.Rule = "The lookup function is read by a string-set dataflow (which data each code yields); every table of locale codes is folded from its literal and compared with the registry, and the inheritance of every locale's data is checked against its code and the order of initialisation."
	r.Explanation = "Obligations: registry-code (a code yields the data carrying exactly that name), registry-total (unknown codes are unknown), known (every code of every table is registered and every registered code is ranked), rank (ranks are a permutation 0..n-1), language (each code's language part is a ranked language), parent (regional data is built on its own language's data), parent-first (…after that data is complete), data-written-once (no other code writes locale data or the tables)."
	m := p.localeData()
	for _, o := range m.problems {
		r.Obs = append(r.Obs, o)
	}
	byGlobal := map[string]*localeInfo{}
	for v, l := range m.locales {
		byGlobal[v.Name()] = l
	}
	reg, f := p.registry(r)
	r.Analysed["registered codes"] = len(reg)
	for _, c := range sortedKeys(reg) {
		l := byGlobal[reg[c].Name()]
		switch {
		case l == nil:
			r.bad("registry-code", c, p.pos(f.Pos()), "the code yields "+reg[c].Name()+", which is never filled in")
		case l.Name != c:
			r.bad("registry-code", c, p.pos(l.Pos), "the code yields the data of "+l.Name)
		default:
			r.ok("registry-code", c, p.pos(l.Pos), "yields "+reg[c].Name()+" which carries this name")
		}
	}
	used := map[string]string{}
	for c, g := range reg {
		if o, dup := used[g.Name()]; dup {
			r.bad("registry-code", c, p.pos(f.Pos()), "yields the same data as "+o)
		}
		used[g.Name()] = c
	}
	for _, l := range m.sorted() {
		if used[l.Var.Name()] == "" {
			r.bad("registry-code", l.label(), p.pos(l.Pos), "this locale's data can not be reached by any code")
		}
	}
	// folded tables
	e := &foldEnv{p: p, pkg: m.pkg}
	fold := func(name string) (map[string]int64, map[string]token.Pos) {
		x := m.table(name)
		if x == nil {
			r.bad("known", name, "-", "table not found")
			return nil, nil
		}
		t, ps, ok := e.strIntMap(x)
		if !ok {
			r.bad("known", name, p.pos(x.Pos()), "table is not a literal")
		}
		return t, ps
	}
	langOrder, lop := fold("LanguageOrder")
	locOrder, cop := fold("LocaleOrder")
	for _, c := range sortedKeys(langOrder) {
		r.add(reg[c] != nil, "known", "LanguageOrder["+c+"]", p.pos(lop[c]), "language has registered data")
	}
	for _, c := range sortedKeys(locOrder) {
		r.add(reg[c] != nil, "known", "LocaleOrder["+c+"]", p.pos(cop[c]), "locale has registered data")
	}
	for _, c := range sortedKeys(reg) {
		_, ok := locOrder[c]
		r.add(ok, "known", "rank of "+c, p.pos(f.Pos()), okOr(map[bool]string{false: "the registered locale has no rank in LocaleOrder"}[ok], "registered locale is ranked"))
	}
	// ranks: a permutation
	byRank := map[int64]string{}
	for _, c := range sortedKeys(langOrder) {
		v := langOrder[c]
		prob := ""
		if v < 0 || v >= int64(len(langOrder)) {
			prob = "rank outside 0.." + itoa(len(langOrder)-1) + ": the language list built from the ranks has a gap"
		} else if o := byRank[v]; o != "" {
			prob = "has the same rank as " + o
		}
		byRank[v] = c
		r.add(prob == "", "rank", c, p.pos(lop[c]), okOr(prob, "rank is distinct and within the number of languages"))
	}
	langOf := func(c string) string {
		i := strings.LastIndex(c, "-")
		if i < 0 {
			return c
		}
		if s := c[i+1:]; s != "" && s == strings.ToUpper(s) {
			return c[:i]
		}
		return c
	}
	isLang := func(c string) bool { _, ok := langOrder[c]; return ok }
	for _, c := range sortedKeys(reg) {
		l := langOf(c)
		ok := isLang(l)
		r.add(ok, "language", c, p.pos(f.Pos()), okOr(map[bool]string{false: "its language part " + l + " is not a ranked language"}[ok], "language part "+l+" is ranked"))
		if lr, ok1 := langOrder[l]; ok1 {
			if cr, ok2 := locOrder[c]; ok2 && cr != lr {
				r.bad("rank", "LocaleOrder["+c+"]", p.pos(cop[c]), "locale rank differs from the rank of its language "+l)
			}
		}
		// inheritance
		li := byGlobal[reg[c].Name()]
		if li == nil || l == c || !ok {
			continue
		}
		want := reg[l]
		switch {
		case want == nil:
		case li.ParentVar == nil:
			r.bad("parent", c, p.pos(li.Pos), "regional data is not built on the data of its language "+l)
		case li.ParentVar.Name() != want.Name():
			r.bad("parent", c, p.pos(li.Pos), "regional data is built on "+li.ParentVar.Name()+" instead of the data of "+l)
		default:
			r.ok("parent", c, p.pos(li.Pos), "built on the data of "+l)
		}
	}
	for _, l := range m.sorted() {
		if l.ParentVar == nil {
			continue
		}
		par := m.locales[l.ParentVar]
		prob := ""
		if par == nil {
			prob = "is built on data that is never filled in"
		} else if !(par.Seq < l.Seq || par.Seq == 0 && l.Seq == 0) {
			prob = "is built on the data of " + par.label() + " before that data is filled in"
		}
		r.add(prob == "", "parent-first", l.label(), p.pos(l.Pos), okOr(prob, "the data it is built on is complete at that point"))
	}
	// language -> locales offered for detection
	for _, name := range []string{"LanguageLocalesMap", "LanguageMap"} {
		x := m.table(name)
		if x == nil {
			continue
		}
		t, ps, ok := e.strListMap(x)
		if !ok {
			r.bad("known", name, p.pos(x.Pos()), "table is not a literal")
			continue
		}
		listed := map[string]bool{}
		for _, k := range sortedKeys(t) {
			if name == "LanguageLocalesMap" {
				r.add(isLang(k), "known", name+"["+k+"]", p.pos(ps[k]), "key is a ranked language")
			}
			for _, c := range t[k] {
				prob := ""
				if reg[c] == nil {
					prob = "offers a locale without registered data"
				} else if name == "LanguageLocalesMap" && langOf(c) != k {
					prob = "offers a locale of another language"
				} else if name == "LanguageMap" && (!isLang(c) || c != k && !strings.HasPrefix(c, k+"-")) {
					prob = "offers a code that is not a variant of this language"
				} else if listed[c] {
					prob = "offers a locale twice"
				}
				listed[c] = true
				r.add(prob == "", "known", name+"["+k+"] "+c, p.pos(ps[k]), okOr(prob, "offered locale is registered and belongs to the language"))
			}
		}
		for _, c := range sortedKeys(reg) {
			if name == "LanguageLocalesMap" && langOf(c) != c && isLang(langOf(c)) && !listed[c] {
				r.bad("known", name+" lists "+c, p.pos(x.Pos()), "registered regional locale is not offered under its language")
			}
			if name == "LanguageMap" && isLang(c) && !listed[c] {
				r.bad("known", name+" lists "+c, p.pos(x.Pos()), "ranked language is not offered")
			}
		}
	}
	p.dataWrites(r)
	r.floor("registry-code", 480)
	r.floor("known", 1200)
	r.floor("rank", 190)
	r.floor("parent", 250)
	r.floor("parent-first", 250)
	r.floor("data-written-once", 5)
}

// dataWrites checks that nothing outside package initialisation writes the built-in tables.
func (p *Prog) dataWrites(r *Result) {
	isData := func(g *ssa.Global) bool {
		return g.Pkg != nil && g.Pkg.Pkg.Path() == modPath+"/internal/data" && !strings.HasPrefix(g.Name(), "init$")
	}
	writes := map[string][]string{}
	tables := map[string]bool{}
	n := 0
	for _, f := range p.fnSrc {
		_, live := p.reachable()[f]
		initFn := isInitFn(f) || !live // helpers of the initialisation are not reachable from the entry points
		eachInstr(f, func(i ssa.Instruction) {
			st, ok := i.(*ssa.Store)
			if !ok {
				if mu, ok := i.(*ssa.MapUpdate); ok {
					if g := rootGlobal(mu.Map); g != nil && isData(g) && !initFn {
						writes[g.Name()] = append(writes[g.Name()], p.instrPos(i))
					}
				}
				return
			}
			n++
			if g := rootGlobal(st.Addr); g != nil && isData(g) && !initFn {
				writes[g.Name()] = append(writes[g.Name()], p.instrPos(i))
			}
		})
	}
	sp := p.SSAPkgs[modPath+"/internal/data"]
	for _, mb := range sp.Members {
		if g, ok := mb.(*ssa.Global); ok && isData(g) {
			if w := writes[g.Name()]; len(w) > 0 {
				r.bad("data-written-once", g.Name(), w[0], "built-in table is written outside initialisation")
			} else {
				tables[g.Name()] = true
			}
		}
	}
	for _, t := range sortedKeys(tables) {
		r.ok("data-written-once", t, "-", "only written during initialisation")
	}
	r.Analysed["stores inspected"] = n
}

func isInitFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// rootGlobal follows field, element and load chains back to a global variable.
func rootGlobal(v ssa.Value) *ssa.Global {
	for i := 0; i < 12; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Lookup:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}
