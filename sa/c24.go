package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C24"] = checkC24 }

// enumConsts lists the constants of a named integer type, by name.
func (p *Prog) enumConsts(pkg, typ string) map[string]int64 {
	out := map[string]int64{}
	q := p.Pkgs[repoPkg(pkg)]
	if q == nil {
		return out
	}
	sc := q.Types.Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && typeIs(c.Type(), repoPkg(pkg), typ) {
			if v, ok := constant.Int64Val(c.Val()); ok {
				out[n] = v
			}
		}
	}
	return out
}

type kindSet uint64

// enumFlow computes, for an enum-typed value v, the set of constants it may have on entry to each block.
func enumFlow(f *ssa.Function, v ssa.Value, same func(ssa.Value) bool, n int) map[*ssa.BasicBlock]kindSet {
	full := kindSet(1)<<uint(n+1) - 1 // bit n: any other value
	start := f.Blocks[0]
	if i, ok := v.(ssa.Instruction); ok {
		start = i.Block()
	}
	in := map[*ssa.BasicBlock]kindSet{start: full}
	work := []*ssa.BasicBlock{start}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := in[b]
		if b == start {
			s = full
		}
		var iff *ssa.If
		if len(b.Instrs) > 0 {
			iff, _ = b.Instrs[len(b.Instrs)-1].(*ssa.If)
		}
		for k, su := range b.Succs {
			o := s
			if iff != nil && b.Succs[0] != b.Succs[1] {
				o = refineEnum(s, iff.Cond, k == 0, same, n)
			}
			if o == 0 {
				continue
			}
			if in[su]|o != in[su] && su != start {
				in[su] |= o
				work = append(work, su)
			}
		}
	}
	return in
}

func refineEnum(s kindSet, c ssa.Value, val bool, same func(ssa.Value) bool, n int) kindSet {
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return refineEnum(s, x.X, !val, same, n)
		}
	case *ssa.BinOp:
		var k int64
		op := x.Op
		if cst, ok := constInt(x.Y); ok && same(x.X) {
			k = cst
		} else if cst, ok := constInt(x.X); ok && same(x.Y) {
			k = cst
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		} else {
			return s
		}
		var out kindSet
		for i := 0; i <= n; i++ {
			if s>>uint(i)&1 == 0 {
				continue
			}
			if i == n { // some other value, larger than all
				switch op {
				case token.EQL, token.LSS, token.LEQ:
					if k < int64(n) && val {
						continue
					}
				case token.NEQ, token.GTR, token.GEQ:
					if k < int64(n) && !val {
						continue
					}
				}
				out |= 1 << uint(i)
				continue
			}
			var r bool
			switch op {
			case token.EQL:
				r = int64(i) == k
			case token.NEQ:
				r = int64(i) != k
			case token.LSS:
				r = int64(i) < k
			case token.LEQ:
				r = int64(i) <= k
			case token.GTR:
				r = int64(i) > k
			case token.GEQ:
				r = int64(i) >= k
			default:
				r = val
			}
			if r == val {
				out |= 1 << uint(i)
			}
		}
		return out
	}
	return s
}

// parserOf names the parser kind(s) implemented by a function: package path suffix.
var parserPkgs = map[string]string{
	"internal/parser/timestamp": "timestamp", "internal/parser/relative": "relative", "internal/parser/formatted": "formatted",
	"internal/parser/absolute": "absolute", "internal/parser/nospace": "nospace",
}

func parserPkgOf(f *ssa.Function) string {
	if f == nil || f.Signature.Recv() != nil || f.Name() != "Parse" {
		return ""
	}
	return parserPkgs[shortPkg(pkgOf(f))]
}

type c24 struct {
	p       *Prog
	r       *Result
	kinds   map[string]int64
	names   []string
	n       int
	sites   map[string][]kindSite
	seen    map[string]bool
	reaches map[*ssa.Function]bool
	fns     map[*ssa.Function]bool
}

type kindSite struct {
	instr ssa.Instruction
	set   kindSet
	neg   *bool
	loop  bool
}

func checkC24(p *Prog, r *Result) {
	r.Rule = "Every call that runs one of the parser packages is reached, for the value of a parser kind taken in ascending order from the parser's list of kinds, exactly under the kind that package implements; the list is only defaulted when empty, to all kinds in their declared order; from a call that may yield a date no other parser call is reachable except over the branch on which that date was found to be zero."
	r.Explanation = "Value-set dataflow of the parser kind over the control flow graph, followed through helpers, function values and tables; reachability between parser calls cut at zero tests of their results."
	c := &c24{p: p, r: r, kinds: p.enumConsts("", "ParserType"), sites: map[string][]kindSite{}, seen: map[string]bool{}, fns: map[*ssa.Function]bool{}}
	c.n = len(c.kinds)
	c.names = make([]string, c.n)
	for k, v := range c.kinds {
		if v < 0 || int(v) >= c.n || c.names[v] != "" {
			r.bad("kinds-distinct", k, "parser.go", fmt.Sprintf("parser kind %s has value %d, which is not a distinct rank", k, v))
			continue
		}
		c.names[v] = k
	}
	r.ok("kinds-distinct", strings.Join(c.names, ","), "parser.go", "the parser kinds are distinct and contiguous")
	entry := p.method("", "Parser", "Parse")
	if entry == nil {
		fatal("(*Parser).Parse not found")
	}
	// functions of the root package from which a parser package is reachable
	c.reaches = map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.fnSrc {
			if c.reaches[f] || pkgOf(f) != modPath {
				continue
			}
			eachInstr(f, func(i ssa.Instruction) {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && (parserPkgOf(g) != "" || c.reaches[g]) && !c.reaches[f] {
						c.reaches[f] = true
						ch = true
					}
				}
			})
		}
	}
	full := kindSet(1)<<uint(c.n+1) - 1
	c.walk(entry, full, full, false)

	want := map[string][]string{"timestamp": {"Timestamp", "NegativeTimestamp"}, "relative": {"RelativeTime"}, "formatted": {"CustomFormat"}, "absolute": {"AbsoluteTime"}, "nospace": {"NoSpacesTime"}}
	for _, pk := range sortedKeys(want) {
		covered := kindSet(0)
		for _, s := range c.sites[pk] {
			key := fnKey(s.instr.Parent()) + ": " + pk + " parser"
			if s.set == full && !s.loop && pk == "formatted" {
				r.ok("explicit-formats-first", key, p.instrPos(s.instr), "the caller's formats are tried on the text itself before any locale")
				continue
			}
			var exp kindSet
			for _, w := range want[pk] {
				k := c.kinds[w]
				if s.neg != nil && pk == "timestamp" && (w == "NegativeTimestamp") != *s.neg {
					continue
				}
				exp |= 1 << uint(k)
			}
			covered |= s.set
			r.add(s.set != 0 && s.set&^exp == 0, "kind-runs-own-parser", key, p.instrPos(s.instr), "runs for kinds "+c.setNames(s.set)+", implements "+c.setNames(exp))
		}
		for _, w := range want[pk] {
			r.add(covered>>uint(c.kinds[w])&1 == 1, "kind-is-tried", w, "parser.go", "selecting "+w+" reaches the "+pk+" parser")
		}
	}
	r.floor("kind-runs-own-parser", 3)
	r.floor("kind-not-skipped", 3)
	c.order(entry)
	c.firstWins(entry)
	r.Analysed["functions on the dispatch path"] = len(c.fns)
}

func (c *c24) setNames(s kindSet) string {
	if s == kindSet(1)<<uint(c.n+1)-1 {
		return "{any}"
	}
	var out []string
	for i := 0; i < c.n; i++ {
		if s>>uint(i)&1 == 1 {
			out = append(out, c.names[i])
		}
	}
	if s>>uint(c.n)&1 == 1 {
		out = append(out, "other")
	}
	return "{" + strings.Join(out, ",") + "}"
}

func (c *c24) isKindType(t types.Type) bool { return typeIs(t, modPath, "ParserType") }

// walk visits f with the set of kinds under which it runs and the set its kind-typed parameter may have.
func (c *c24) walk(f *ssa.Function, ctx, prm kindSet, loop bool) {
	key := fmt.Sprintf("%p/%x/%x/%v", f, ctx, prm, loop)
	if c.seen[key] || len(f.Blocks) == 0 {
		return
	}
	c.seen[key] = true
	c.fns[f] = true
	// dispatch values of f, grouped: loads of the same element are the same value
	type dv struct {
		v    ssa.Value
		flow map[*ssa.BasicBlock]kindSet
		base kindSet
	}
	var dvs []dv
	add := func(v ssa.Value, base kindSet) {
		same := func(o ssa.Value) bool { return sameKindValue(v, o) }
		dvs = append(dvs, dv{v, enumFlow(f, v, same, c.n), base})
	}
	full := kindSet(1)<<uint(c.n+1) - 1
	for _, q := range f.Params {
		if c.isKindType(q.Type()) {
			add(q, prm)
		}
	}
	for _, q := range f.FreeVars {
		if c.isKindType(q.Type()) {
			add(q, full)
		}
	}
	eachInstr(f, func(i ssa.Instruction) {
		if v, ok := i.(ssa.Value); ok && c.isKindType(v.Type()) {
			if _, isCmp := v.(*ssa.BinOp); !isCmp {
				add(v, full)
			}
		}
	})
	setAt := func(b *ssa.BasicBlock) kindSet {
		s := ctx
		for _, d := range dvs {
			if di, ok := d.v.(ssa.Instruction); ok && !di.Block().Dominates(b) {
				continue
			}
			if fl, ok := d.flow[b]; ok {
				s &= fl & d.base
			}
		}
		return s
	}
	paramSet := func(b *ssa.BasicBlock, a ssa.Value) kindSet {
		if k, ok := constInt(a); ok && int(k) < c.n && k >= 0 {
			return 1 << uint(k)
		}
		return setAt(b)
	}
	// skipped: whether the call is reached in a round of its loop depends on an option or on the locale
	skipped := func(i ssa.Instruction, set kindSet) {
		b := i.Block()
		if !inLoop(b) && !loop {
			return
		}
		h := loopHeader(b)
		for _, x := range f.Blocks {
			iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
			if !ok || x.Succs[0] == x.Succs[1] {
				continue
			}
			opt := optionCond(iff.Cond, 0)
			if opt == "" {
				continue
			}
			for k := 0; k < c.n; k++ {
				if set>>uint(k)&1 == 0 {
					continue
				}
				one := kindSet(1) << uint(k)
				reach := func(from *ssa.BasicBlock) bool {
					seen := map[*ssa.BasicBlock]bool{x: true}
					if h != nil && inSameLoop(h, x) {
						seen[h] = true
					}
					st := []*ssa.BasicBlock{from}
					for len(st) > 0 {
						y := st[len(st)-1]
						st = st[:len(st)-1]
						if seen[y] {
							continue
						}
						seen[y] = true
						if y == b {
							return true
						}
						yi, _ := y.Instrs[len(y.Instrs)-1].(*ssa.If)
					succ:
						for j, su := range y.Succs {
							if yi != nil && y.Succs[0] != y.Succs[1] {
								for _, d := range dvs {
									same := func(o ssa.Value) bool { return sameKindValue(d.v, o) }
									if refineEnum(one, yi.Cond, j == 0, same, c.n) == 0 {
										continue succ
									}
								}
							}
							st = append(st, su)
						}
					}
					return false
				}
				if reach(x.Succs[0]) != reach(x.Succs[1]) {
					c.r.bad("kind-not-skipped", siteKey(i, c.names[k]), c.p.instrPos(i), "whether a selected "+c.names[k]+" parser runs depends on "+opt)
					return
				}
			}
		}
		c.r.ok("kind-not-skipped", siteKey(i, "parser call"), c.p.instrPos(i), "does not depend on an option or on the locale")
	}
	eachInstr(f, func(i ssa.Instruction) {
		b := i.Block()
		lp := loop || inLoop(b)
		if ci, ok := i.(ssa.CallInstruction); ok {
			if g := ci.Common().StaticCallee(); g != nil && (parserPkgOf(g) != "" || c.reaches[g]) {
				skipped(i, setAt(b))
			}
		}
		// function values created here run under the kinds of this point; a table keyed by kind runs its
		// entry under that kind
		handle := func(g *ssa.Function, cc *ssa.CallCommon) {
			set := setAt(b)
			if mu, ok := i.(*ssa.MapUpdate); ok && c.isKindType(mu.Key.Type()) {
				if k, ok := constInt(mu.Key); ok {
					set = 1 << uint(k)
				}
			}
			if pk := parserPkgOf(g); pk != "" {
				ks := kindSite{instr: i, set: set, loop: lp}
				if pk == "timestamp" && cc != nil {
					arg := cc.Args[len(cc.Args)-1]
					if nb, ok := constBool(arg); ok {
						ks.neg = &nb
					} else {
						// computed from the kind: decide per kind
						for k := 0; k < c.n; k++ {
							if set>>uint(k)&1 == 0 {
								continue
							}
							one := kindSet(1) << uint(k)
							for _, d := range dvs {
								same := func(o ssa.Value) bool { return sameKindValue(d.v, o) }
								t, fa := refineEnum(one, arg, true, same, c.n), refineEnum(one, arg, false, same, c.n)
								if (t == 0) != (fa == 0) {
									nb := t != 0
									c.sites[pk] = append(c.sites[pk], kindSite{instr: i, set: one, loop: lp, neg: &nb})
									set &^= one
									break
								}
							}
						}
						ks.set = set
						if set == 0 {
							return
						}
						if prmv, ok := arg.(*ssa.Parameter); ok {
							// resolved at the call sites of this helper
							c.paramTimestamp(f, prmv, i, lp)
							return
						}
						both := kindSite{instr: i, set: full, loop: lp}
						c.sites[pk] = append(c.sites[pk], both)
						return
					}
				}
				c.sites[pk] = append(c.sites[pk], ks)
				return
			}
			if c.reaches[g] {
				ps := full
				if cc != nil {
					for _, a := range cc.Args {
						if c.isKindType(a.Type()) {
							ps = paramSet(b, a)
						}
					}
				}
				c.walk(g, set, ps, lp)
			}
		}
		if ci, ok := i.(ssa.CallInstruction); ok {
			if g := ci.Common().StaticCallee(); g != nil {
				handle(g, ci.Common())
			}
			for _, a := range ci.Common().Args {
				if g := fnValue(a); g != nil {
					handle(g, nil)
				}
			}
			return
		}
		switch x := i.(type) {
		case *ssa.MakeClosure:
			if g := x.Fn.(*ssa.Function); c.reaches[g] {
				// used by the instructions that hold the closure; a call argument is handled there
				used := false
				for _, ref := range *x.Referrers() {
					if mu, ok := ref.(*ssa.MapUpdate); ok && mu.Value == x && c.isKindType(mu.Key.Type()) {
						if k, ok := constInt(mu.Key); ok {
							c.walk(g, 1<<uint(k), full, true)
							used = true
						}
					}
					if _, ok := ref.(*ssa.Call); ok {
						used = true
					}
				}
				if !used {
					handle(g, nil)
				}
			}
		case *ssa.MapUpdate:
			if g := fnValue(x.Value); g != nil {
				handle(g, nil)
			}
		case *ssa.Store:
			if g, ok := x.Val.(*ssa.Function); ok {
				handle(g, nil)
			}
		case *ssa.Phi:
			for k, e := range x.Edges {
				if g := fnValue(e); g != nil {
					// chosen on the incoming edge
					pb := b.Preds[k]
					set := setAt(pb)
					if iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If); ok && pb.Succs[0] != pb.Succs[1] {
						for _, d := range dvs {
							if di, ok := d.v.(ssa.Instruction); ok && !di.Block().Dominates(pb) {
								continue
							}
							same := func(o ssa.Value) bool { return sameKindValue(d.v, o) }
							set = refineEnum(set, iff.Cond, pb.Succs[0] == b, same, c.n)
						}
					}
					if pk := parserPkgOf(g); pk != "" {
						c.sites[pk] = append(c.sites[pk], kindSite{instr: i, set: set, loop: lp})
					} else if c.reaches[g] {
						c.walk(g, set, full, lp)
					}
				}
			}
		}
	})
}

// paramTimestamp resolves a helper's boolean parameter at its call sites.
func (c *c24) paramTimestamp(f *ssa.Function, prm *ssa.Parameter, i ssa.Instruction, lp bool) {
	idx := -1
	for k, q := range f.Params {
		if q == prm {
			idx = k
		}
	}
	for _, s := range c.p.callSites(f) {
		if idx >= len(s.Common().Args) {
			continue
		}
		nb, ok := constBool(s.Common().Args[idx])
		if !ok {
			c.sites["timestamp"] = append(c.sites["timestamp"], kindSite{instr: i, set: kindSet(1)<<uint(c.n+1) - 1, loop: lp})
			continue
		}
		set := kindSet(1)<<uint(c.n+1) - 1
		g := s.Parent()
		eachInstr(g, func(j ssa.Instruction) {
			v, isV := j.(ssa.Value)
			if isV && c.isKindType(v.Type()) && j.Block().Dominates(s.Block()) {
				fl := enumFlow(g, v, func(o ssa.Value) bool { return sameKindValue(v, o) }, c.n)
				if x, ok := fl[s.Block()]; ok {
					set &= x
				}
			}
		})
		c.sites["timestamp"] = append(c.sites["timestamp"], kindSite{instr: s, set: set, loop: lp, neg: &nb})
	}
}

func fnValue(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return fnValue(x.X)
	}
	return nil
}

func sameKindValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && la.Op == token.MUL && lb.Op == token.MUL {
		ia, ok1 := la.X.(*ssa.IndexAddr)
		ib, ok2 := lb.X.(*ssa.IndexAddr)
		if ok1 && ok2 {
			return ia.Index == ib.Index && ia.Index != nil
		}
	}
	return false
}

// ascending reports whether idx runs through 0,1,2,... (a range or counting loop).
func ascending(idx ssa.Value) bool {
	step := func(v ssa.Value, ph *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		if k, ok := constInt(b.Y); ok && k == 1 && b.X == ph {
			return true
		}
		if k, ok := constInt(b.X); ok && k == 1 && b.Y == ph {
			return true
		}
		return false
	}
	try := func(ph *ssa.Phi, start int64) bool {
		okStep, okInit := false, false
		for _, e := range ph.Edges {
			if k, ok := constInt(e); ok {
				if k != start {
					return false
				}
				okInit = true
			} else if step(e, ph) {
				okStep = true
			} else if e == ssa.Value(ph) {
			} else {
				return false
			}
		}
		return okStep && okInit
	}
	switch x := idx.(type) {
	case *ssa.Phi:
		return try(x, 0)
	case *ssa.BinOp:
		if ph, ok := x.X.(*ssa.Phi); ok && step(x, ph) {
			return try(ph, -1)
		}
	case *ssa.Extract:
		// for i := range over an integer or string is lowered to phis; Next() of a map is not ascending
	}
	return false
}

// order checks where the kinds come from and in which order they are taken.
func (c *c24) order(entry *ssa.Function) {
	p, r := c.p, c.r
	var wantDefault []int64
	for i := 0; i < c.n; i++ {
		wantDefault = append(wantDefault, int64(i))
	}
	fns := make([]*ssa.Function, 0)
	for f := range c.fns {
		fns = append(fns, f)
	}
	// helpers that only provide the list
	for _, f := range p.fnSrc {
		if pkgOf(f) == modPath && !c.fns[f] {
			touch := false
			eachInstr(f, func(i ssa.Instruction) {
				if v, ok := i.(*ssa.FieldAddr); ok {
					if n, fl := fieldName(v); fl == "ParserTypes" && n != nil && n.Obj().Name() == "Parser" {
						touch = true
					}
				}
			})
			if touch && f.Name() != "init" {
				fns = append(fns, f)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnKey(fns[i]) < fnKey(fns[j]) })
	nDispatch := 0
	for _, f := range fns {
		eachInstr(f, func(i ssa.Instruction) {
			ia, ok := i.(*ssa.IndexAddr)
			if !ok {
				return
			}
			sl, ok := ia.X.Type().Underlying().(*types.Slice)
			if !ok {
				return
			}
			if !c.isKindType(sl.Elem()) {
				if pt, ok := sl.Elem().Underlying().(*types.Pointer); ok && typeIs(pt, repoPkg("internal/data"), "LocaleData") && c.fns[f] && c.reaches[f] {
					r.add(ascending(ia.Index), "locales-in-order", fnKey(f)+": locales", p.instrPos(i), "candidate locales are taken in ascending order")
				}
				return
			}
			if _, isStore := storedTo(ia); isStore {
				return
			}
			nDispatch++
			r.add(ascending(ia.Index), "kinds-in-order", fnKey(f)+": parser kinds", p.instrPos(i), "parser kinds are taken in ascending order")
			for _, src := range c.sources(ia.X, map[ssa.Value]bool{}) {
				r.add(src == "field" || src == "default", "kinds-source", fnKey(f)+": "+src, p.instrPos(i), "the kinds come from the caller's list or the default list")
			}
		})
		eachInstr(f, func(i ssa.Instruction) {
			if cc := callOf(i); cc != nil && rearranges(calleeName(cc)) {
				for _, a := range cc.Args {
					a = strip(a)
					if sl, ok := a.Type().Underlying().(*types.Slice); ok && c.isKindType(sl.Elem()) {
						for _, src := range c.sources(a, map[ssa.Value]bool{}) {
							if src == "field" {
								r.bad("kinds-not-rearranged", siteKey(i, calleeName(cc)), p.instrPos(i), "the caller's list of kinds is put in another order or loses kinds before it is used")
							}
						}
					}
				}
			}
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
				if sl, ok := ia.X.Type().Underlying().(*types.Slice); ok && c.isKindType(sl.Elem()) {
					if _, made := ia.X.(*ssa.MakeSlice); !made {
						for _, src := range c.sources(ia.X, map[ssa.Value]bool{}) {
							if src == "field" {
								r.bad("kinds-not-rearranged", siteKey(i, "element assigned"), p.instrPos(i), "an element of the caller's list of kinds is replaced")
							}
						}
					}
				}
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			if n, fl := fieldName(fa); fl != "ParserTypes" || n == nil || n.Obj().Name() != "Parser" {
				return
			}
			guard := false
			for _, g := range facts(st.Block()) {
				if emptyLenFact(g, "ParserTypes") {
					guard = true
				}
			}
			for _, src := range c.sources(st.Val, map[ssa.Value]bool{}) {
				r.add(src == "field" || src == "default" && guard, "default-only-when-empty", fnKey(f)+": "+src, p.instrPos(i), "the list of kinds is only replaced, by the default list, when it is empty")
			}
		})
	}
	r.floor("kinds-in-order", 1)
	r.floor("locales-in-order", 1)
}

// emptyLenFact: the fact says that len(<field>) is zero.
func emptyLenFact(g Fact, field string) bool {
	b, ok := g.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := b.X, b.Y, b.Op
	if _, isC := constInt(x); isC {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	isLen := func(v ssa.Value) bool {
		cl, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := cl.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" {
			return false
		}
		return loadsField(cl.Call.Args[0], field)
	}
	if k, isC := constInt(y); isC && isLen(x) {
		switch {
		case op == token.EQL && k == 0, op == token.LSS && k == 1, op == token.LEQ && k == 0:
			return g.Val
		case op == token.NEQ && k == 0, op == token.GTR && k == 0, op == token.GEQ && k == 1:
			return !g.Val
		}
	}
	if isNilConst(y) && loadsField(x, field) {
		return op == token.EQL && g.Val || op == token.NEQ && !g.Val
	}
	return false
}

func loadsField(v ssa.Value, field string) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if _, n := fieldName(x.X); n == field {
				return true
			}
		}
	case *ssa.Field:
		_, n := fieldName(x)
		return n == field
	}
	return false
}

func storedTo(ia *ssa.IndexAddr) (ssa.Value, bool) {
	for _, ref := range *ia.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == ia {
			return s.Val, true
		}
	}
	return nil, false
}

// sources traces a list of kinds back: "field" (the parser's list), "default" (all kinds in order), or a
// emptyList: a list with no element yet.
func (c *c24) emptyList(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		n, ok := constInt(x.Len)
		return ok && n == 0
	case *ssa.Slice:
		if n, ok := constInt(x.High); x.High != nil && ok && n == 0 {
			return true
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			if arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return arr.Len() == 0
			}
		}
	}
	return false
}

// counted: the append adds, in each step of a loop that starts with an empty list, the loop's counter;
// the bounds of the counter are returned.
func (c *c24) counted(ap *ssa.Call) (lo, hi int64, ok bool) {
	list, isPhi := ap.Call.Args[0].(*ssa.Phi)
	if !isPhi || len(list.Edges) != 2 {
		return
	}
	for k, e := range list.Edges {
		if e == ssa.Value(ap) {
			if !c.emptyList(list.Edges[1-k]) || list.Block().Preds[k] != ap.Block() && !ap.Block().Dominates(list.Block().Preds[k]) {
				return
			}
			ok = true
		}
	}
	el, one := listOf1(ap.Call.Args[1])
	if !ok || !one {
		return 0, 0, false
	}
	for {
		if cv, isCv := el.(*ssa.Convert); isCv {
			el = cv.X
		} else if ct, isCt := el.(*ssa.ChangeType); isCt {
			el = ct.X
		} else {
			break
		}
	}
	off := int64(0)
	if b, isB := el.(*ssa.BinOp); isB && b.Op == token.ADD {
		if n, isC := constInt(b.Y); isC {
			el, off = b.X, n
		}
	}
	ctr, isPhi := el.(*ssa.Phi)
	if !isPhi || ctr.Block() != list.Block() || len(ctr.Edges) != 2 {
		return 0, 0, false
	}
	start, found, step := int64(0), false, false
	for _, e := range ctr.Edges {
		if n, isC := constInt(e); isC {
			start, found = n, true
		} else if b, isB := e.(*ssa.BinOp); isB && b.Op == token.ADD && b.X == ssa.Value(ctr) {
			n, isC := constInt(b.Y)
			step = isC && n == 1
		}
	}
	// every step appends: the append stands right behind the loop's own test
	iff, isIf := ctr.Block().Instrs[len(ctr.Block().Instrs)-1].(*ssa.If)
	if !found || !step || !isIf || ctr.Block().Succs[0] != ap.Block() {
		return 0, 0, false
	}
	b, isB := iff.Cond.(*ssa.BinOp)
	if !isB {
		return 0, 0, false
	}
	n, isC := constInt(b.Y)
	if !isC {
		return 0, 0, false
	}
	first := start
	switch x := b.X.(type) {
	case *ssa.Phi:
		if x != ctr {
			return 0, 0, false
		}
	case *ssa.BinOp:
		m, isM := constInt(x.Y)
		if x.X != ssa.Value(ctr) || x.Op != token.ADD || !isM {
			return 0, 0, false
		}
		n -= m
	default:
		return 0, 0, false
	}
	switch b.Op {
	case token.LSS, token.NEQ:
		n--
	case token.LEQ:
	default:
		return 0, 0, false
	}
	return first + off, n + off, true
}

// listOf1: the variadic list of a single element.
func listOf1(v ssa.Value) (ssa.Value, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || arr.Len() != 1 {
		return nil, false
	}
	for _, u := range refs(al) {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			if sv, ok := storedTo(ia); ok {
				return sv, true
			}
		}
	}
	return nil, false
}

// rearranges: library operations that change the order or the elements of the list they are given.
func rearranges(name string) bool {
	for _, pre := range []string{"sort.", "slices.Sort", "slices.Reverse", "slices.Delete", "slices.Compact", "slices.Insert", "slices.Replace", "math/rand.Shuffle", "math/rand/v2.Shuffle"} {
		if strings.HasPrefix(name, pre) {
			switch {
			case strings.HasPrefix(name, "slices.Sorted"), strings.HasPrefix(name, "sort.Search"), strings.HasPrefix(name, "sort.Is"), strings.HasSuffix(name, "AreSorted"):
				return false
			}
			return true
		}
	}
	return false
}

// description of anything else.
func (c *c24) sources(v ssa.Value, seen map[ssa.Value]bool) []string {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if n, fl := fieldName(x.X); fl == "ParserTypes" && n != nil && n.Obj().Name() == "Parser" {
				return []string{"field"}
			}
			if g, ok := x.X.(*ssa.Global); ok {
				var out []string
				if init := g.Pkg.Func("init"); init != nil {
					eachInstr(init, func(i ssa.Instruction) {
						if s, ok := i.(*ssa.Store); ok && s.Addr == g {
							out = append(out, c.sources(s.Val, seen)...)
						}
					})
				}
				return out
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				var out []string
				for _, ref := range *al.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
						out = append(out, c.sources(s.Val, seen)...)
					}
				}
				return out
			}
		}
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			out = append(out, c.sources(e, seen)...)
		}
		return out
	case *ssa.ChangeType:
		return c.sources(x.X, seen)
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Low == nil && x.High == nil {
			vals := map[int64]int64{}
			for _, ref := range *al.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					idx, ok1 := constInt(ia.Index)
					if sv, isSt := storedTo(ia); isSt && ok1 {
						if k, ok := constInt(sv); ok {
							vals[idx] = k
						} else {
							return []string{"a list with computed entries"}
						}
					}
				}
			}
			arr := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			var got []string
			okAll := arr.Len() == int64(c.n)
			for i := int64(0); i < arr.Len(); i++ {
				if vals[i] != i {
					okAll = false
				}
				if int(vals[i]) < c.n {
					got = append(got, c.names[vals[i]])
				}
			}
			if okAll {
				return []string{"default"}
			}
			return []string{"the list " + strings.Join(got, ",")}
		}
		if x.Low == nil && x.High == nil {
			return c.sources(x.X, seen)
		}
	case *ssa.Parameter:
		var out []string
		f := x.Parent()
		for k, q := range f.Params {
			if q == x {
				for _, s := range c.p.callSites(f) {
					if k < len(s.Common().Args) {
						out = append(out, c.sources(s.Common().Args[k], seen)...)
					}
				}
			}
		}
		return out
	case *ssa.Call:
		if n := calleeName(x.Common()); n == "slices.Clone" {
			return c.sources(x.Call.Args[0], seen)
		}
		if g := x.Common().StaticCallee(); g != nil && c.p.inRepo(g) {
			var out []string
			eachInstr(g, func(i ssa.Instruction) {
				if ret, ok := i.(*ssa.Return); ok && len(ret.Results) > 0 {
					out = append(out, c.sources(ret.Results[0], seen)...)
				}
			})
			return out
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			if c.emptyList(x.Call.Args[0]) {
				return c.sources(x.Call.Args[1], seen)
			}
			if lo, hi, ok := c.counted(x); ok {
				if lo == 0 && hi == int64(c.n)-1 {
					return []string{"default"}
				}
				return []string{fmt.Sprintf("the kinds %d to %d", lo, hi)}
			}
		}
	case *ssa.MakeSlice:
		// filled by copying another list
		var out []string
		for _, u := range refs(x) {
			cl, ok := u.(*ssa.Call)
			if !ok {
				continue
			}
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && cl.Call.Args[0] == ssa.Value(x) {
				out = append(out, c.sources(cl.Call.Args[1], seen)...)
			}
		}
		if len(out) > 0 {
			return out
		}
		if c.emptyList(x) {
			return nil
		}
	case *ssa.Const:
		return nil
	}
	return []string{"a computed list (" + strings.TrimPrefix(fmt.Sprintf("%T", v), "*ssa.") + ")"}
}

// firstWins: after a parser call yields a date, no other parser call is reachable.
func (c *c24) firstWins(entry *ssa.Function) {
	p, r := c.p, c.r
	var fns []*ssa.Function
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fnKey(fns[i]) < fnKey(fns[j]) })
	for _, f := range fns {
		var calls []*ssa.Call
		eachInstr(f, func(i ssa.Instruction) {
			cl, ok := i.(*ssa.Call)
			if !ok {
				return
			}
			g := cl.Call.StaticCallee()
			is := g != nil && (parserPkgOf(g) != "" || c.reaches[g])
			if g == nil && !cl.Call.IsInvoke() {
				for _, t := range p.callees(cl) {
					if parserPkgOf(t) != "" || c.reaches[t] {
						is = true
					}
				}
			}
			if is && carriesDate(cl.Type()) {
				calls = append(calls, cl)
			}
		})
		isCall := map[ssa.Instruction]bool{}
		for _, cl := range calls {
			isCall[cl] = true
		}
		for n, cl := range calls {
			name := "parser call"
			if g := cl.Call.StaticCallee(); g != nil {
				name = fnKey(g)
			}
			key := fmt.Sprintf("%s: %s", fnKey(f), name)
			if hit := nextParserCall(cl, isCall); hit != nil {
				r.bad("first-date-wins", key, p.instrPos(cl), "another parser call ("+p.instrPos(hit)+") is reachable although this one may have yielded a date")
			} else {
				r.ok("first-date-wins", key, p.instrPos(cl), "the next parser call is only reachable when no date was found")
			}
			_ = n
		}
	}
	r.floor("first-date-wins", 1)
}

func carriesDate(t types.Type) bool {
	if typeIs(t, modPath+"/date", "Date") {
		return true
	}
	if tp, ok := t.(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			if typeIs(tp.At(i).Type(), modPath+"/date", "Date") {
				return true
			}
		}
	}
	return false
}

// nextParserCall follows the paths on which the call's date is not known to be zero.
func nextParserCall(cl *ssa.Call, isCall map[ssa.Instruction]bool) ssa.Instruction {
	carriers := map[ssa.Value]bool{cl: true}
	// close over copies: extracts, phis, cells, and calls that transform a date
	for ch := true; ch; {
		ch = false
		eachInstr(cl.Parent(), func(i ssa.Instruction) {
			add := func(v ssa.Value) {
				if !carriers[v] {
					carriers[v] = true
					ch = true
				}
			}
			switch x := i.(type) {
			case *ssa.Extract:
				if carriers[x.Tuple] {
					add(x)
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					if carriers[e] {
						add(x)
					}
				}
			case *ssa.Store:
				if carriers[x.Val] {
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						add(al)
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && carriers[x.X] {
					add(x)
				}
			case *ssa.Call:
				if isCall[x] || !carriesDate(x.Type()) {
					return
				}
				for _, a := range x.Call.Args {
					if carriers[a] {
						add(x)
					}
				}
			}
		})
	}
	cond := func(v ssa.Value) (isZero, known bool) { return zeroTest(v, carriers) }
	type node struct {
		b *ssa.BasicBlock
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, from int) ssa.Instruction {
		for _, i := range b.Instrs[from:] {
			if isCall[i] {
				return i
			}
		}
		last := b.Instrs[len(b.Instrs)-1]
		if iff, ok := last.(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
			if z, known := cond(iff.Cond); known {
				// follow only the branch on which the date is not zero
				s := b.Succs[1]
				if !z {
					s = b.Succs[0]
				}
				if !seen[s] {
					seen[s] = true
					return walk(s, 0)
				}
				return nil
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if h := walk(s, 0); h != nil {
				return h
			}
		}
		return nil
	}
	return walk(cl.Block(), instrIndex(cl)+1)
}

// zeroTest: does the condition decide whether a carried date is zero? isZero: true branch means zero.
func zeroTest(v ssa.Value, carriers map[ssa.Value]bool) (isZero, known bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			z, k := zeroTest(x.X, carriers)
			return !z, k
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Name() == "IsZero" && len(x.Call.Args) == 1 && carriers[x.Call.Args[0]] {
			return true, true
		}
	case *ssa.BinOp:
		// err == nil / err != nil for a (date, error) result
		a, b := x.X, x.Y
		if isNilConst(a) {
			a, b = b, a
		}
		if isNilConst(b) {
			if ex, ok := a.(*ssa.Extract); ok && carriers[ex.Tuple] {
				return x.Op == token.NEQ, x.Op == token.NEQ || x.Op == token.EQL
			}
			if carriers[a] && (x.Op == token.EQL || x.Op == token.NEQ) {
				return x.Op == token.NEQ, true
			}
		}
	case *ssa.Extract:
		// (date, ok) result of a helper
		if carriers[x.Tuple] && isBool(x.Type()) {
			return false, true
		}
	}
	return false, false
}

// optionCond: the condition looks directly at an option (other than the date order) or at the locale's
// data.
func optionCond(v ssa.Value, depth int) string {
	if depth > 6 {
		return ""
	}
	if n := cfgField(v); n != "" {
		if n == "DateOrder" {
			return ""
		}
		return "option " + n
	}
	if ow, n := loadedField(v); ow != nil && ow.Obj().Name() == "LocaleData" {
		return "the locale's " + n
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if o := optionCond(x.X, depth+1); o != "" {
			return o
		}
		return optionCond(x.Y, depth+1)
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return optionCond(x.X, depth+1)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return optionCond(x.Call.Args[0], depth+1)
		}
		n := calleeName(x.Common())
		if strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "slices.") || strings.HasSuffix(n, ".IsZero") {
			for _, a := range x.Call.Args {
				if o := optionCond(a, depth+1); o != "" {
					return o
				}
			}
		}
	}
	return ""
}
