package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C09"] = checkC09 }

func isLocaleData(t types.Type) bool {
	return typeIs(t, repoPkg("internal/data"), "LocaleData")
}

// localeElem: a value that is one locale (not a list of them).
func localeElem(v ssa.Value) bool {
	_, isPtr := v.Type().Underlying().(*types.Pointer)
	return isPtr && isLocaleData(v.Type())
}

func localeSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isLocaleData(s.Elem())
}

// needsLocale: the call works for one particular locale.
func needsLocale(cl *ssa.Call) bool {
	for _, a := range cl.Call.Args {
		if dependsOn(a, localeElem, map[ssa.Value]bool{}) {
			return true
		}
	}
	hit := false
	eachInstr(cl.Parent(), func(i ssa.Instruction) {
		if ia, ok := i.(*ssa.IndexAddr); ok && localeSlice(ia.X.Type()) {
			if canReach(ia.Block(), cl.Block()) && canReach(cl.Block(), ia.Block()) {
				hit = true
			}
		}
	})
	return hit
}

func checkC09(p *Prog, r *Result) {
	r.Rule = "Path-sensitive typestate analysis of dates and errors through the call graph: every outcome of every parsing entry point is (real date, nil error) or (zero date, error); a date obtained for a locale has had that locale's name stored in it; every list of search results only ever receives real dates. The same pairing holds for every internal parser whose error some caller ignores."
	r.Explanation = "Each feasible combination of zero/non-zero results of each entry point is an obligation; branches on IsZero, on nil errors and on flags prune infeasible paths."
	r.Assumptions = append(r.Assumptions,
		"a time computed by package time from a successful parse or from calendar parts is not the zero time (1 January of year 1 UTC)",
		"a period read from a table is never None (None is only recognised as a constant)")
	d := p.newDateFlow()
	d.needs = needsLocale
	z := func(u uint8) string { return [...]string{"possibly zero", "zero", "real"}[u] }
	e := func(u uint8) string { return [...]string{"an unknown error", "no error", "an error"}[u] }
	entries := 0
	nOut := 0
	pair := func(rule string, f *ssa.Function, where string) {
		ei := errIndex(f.Signature)
		di := -1
		for k := 0; k < f.Signature.Results().Len(); k++ {
			if isDateT(f.Signature.Results().At(k).Type()) {
				di = k
			}
		}
		if ei < 0 || di < 0 {
			return
		}
		args := make([]dabs, len(f.Params))
		for k, pr := range f.Params {
			args[k] = top(pr.Type())
		}
		bad := false
		for _, o := range d.run(f, args, false) {
			nOut++
			if di >= len(o.res) || ei >= len(o.res) || o.ret == nil {
				r.bad(rule, fnKey(f)+": outcome", "-", "the outcome is not known")
				bad = true
				continue
			}
			dz, ez := o.res[di].zero(), o.res[ei].t
			ok := dz == zN && ez == zZ || dz == zZ && ez == zN
			if !ok {
				bad = true
				at := ""
				if o.res[di].org != nil {
					at = "; the date was built at " + p.instrPos(o.res[di].org)
				}
				r.bad(rule, fnKey(f)+": "+z(dz)+" date with "+e(ez), p.instrPos(o.ret), where+"returns a "+z(dz)+" date together with "+e(ez)+at)
			}
			if rule == "date-error-pairing" && dz == zN && o.res[di].need {
				nm := fnKey(f) + ": locale named"
				if !o.res[di].named {
					bad = true
					r.bad("locale-named", nm, p.instrPos(o.ret), "a date produced for a locale is returned without that locale's name")
				} else {
					r.ok("locale-named", nm, p.instrPos(o.ret), "the locale's name is stored before the date is returned")
				}
			}
		}
		if !bad {
			r.ok(rule, fnKey(f), p.pos(f.Pos()), "every outcome pairs a real date with no error or no date with an error")
		}
	}
	for _, f := range p.entryPoints() {
		if len(f.Blocks) == 0 || pkgOf(f) != modPath {
			continue
		}
		n := len(r.Obs)
		pair("date-error-pairing", f, "")
		if len(r.Obs) > n {
			entries++
		}
		// search results
		for k := 0; k < f.Signature.Results().Len(); k++ {
			if !listOfDates(f.Signature.Results().At(k).Type()) {
				continue
			}
			args := make([]dabs, len(f.Params))
			for j, pr := range f.Params {
				args[j] = top(pr.Type())
			}
			bad := false
			for _, o := range d.run(f, args, false) {
				nOut++
				if o.ret == nil || o.res[k].zero() != zN {
					bad = true
					pos := "-"
					if o.ret != nil {
						pos = p.instrPos(o.ret)
					}
					r.bad("results-carry-dates", fnKey(f), pos, "a result without a real date can be in the list that is returned")
				}
			}
			if !bad {
				r.ok("results-carry-dates", fnKey(f), p.pos(f.Pos()), "only real dates are ever put into the list that is returned")
			}
		}
	}
	r.floor("date-error-pairing", 1)
	r.floor("results-carry-dates", 1)
	r.floor("locale-named", 1)

	// internal parsers whose error is ignored
	for _, f := range p.reachableRepo() {
		if !isRepoPath(pkgOf(f)) || errIndex(f.Signature) < 0 || resultIndex(f.Signature, modPath+"/date", "Date") < 0 || p.isEntry(f) {
			continue
		}
		ignored := ""
		for _, s := range p.callSites(f) {
			v := s.Value()
			if v == nil {
				continue
			}
			used := false
			for _, u := range refs(v) {
				if ex, ok := u.(*ssa.Extract); ok && ex.Index == errIndex(f.Signature) && len(refs(ex)) > 0 {
					used = true
				}
			}
			if !used {
				ignored = p.instrPos(s)
			}
		}
		if ignored != "" {
			pair("ignored-error-has-no-date", f, "its error is ignored at "+ignored+" but it ")
		}
	}
	r.floor("ignored-error-has-no-date", 1)

	// the name stored is that of the locale the date was produced with
	stores := 0
	for _, f := range p.reachableRepo() {
		if pkgOf(f) != modPath {
			continue
		}
		eachInstr(f, func(i ssa.Instruction) {
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isDateT(fa.X.Type().Underlying().(*types.Pointer).Elem()) {
				return
			}
			if _, n := fieldName(fa); n != "Locale" {
				return
			}
			stores++
			prob := p.localeStore(f, st)
			r.add(prob == "", "right-locale-named", siteKey(i, "locale of a date"), p.instrPos(i), okOr(prob, "the name of the locale the text was translated with"))
		})
	}
	r.floor("right-locale-named", 1)
	if d.problem != "" {
		r.bad("analysis-complete", "paths", "-", d.problem)
	}
	r.Analysed["entry points"] = entries
	r.Analysed["outcomes"] = nOut
	r.Analysed["functions"] = len(d.fns)
	r.Analysed["path states"] = d.paths
	r.Analysed["locale name stores"] = stores
}

// localeStore decides whether the name stored belongs to the locale used.
func (p *Prog) localeStore(f *ssa.Function, st *ssa.Store) string {
	v := st.Val
	if fd, ok := v.(*ssa.Field); ok && isDateT(fd.X.Type()) {
		if _, n := fieldName(fd); n == "Locale" {
			return "" // the name another date already has
		}
	}
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL && isDateT(fa.X.Type().Underlying().(*types.Pointer).Elem()) {
			if _, n := fieldName(fa); n == "Locale" {
				return "" // the name another date already has
			}
		}
		if fa, ok := u.X.(*ssa.FieldAddr); ok && localeElem(fa.X) {
			if _, n := fieldName(fa); n != "Name" {
				return "stores the locale's " + n + " instead of its name"
			}
			// every locale the dates of this function were produced with is this one
			other := ""
			eachInstr(f, func(i ssa.Instruction) {
				cl, ok := i.(*ssa.Call)
				if !ok || !carriesDate(cl.Type()) {
					return
				}
				for _, a := range cl.Call.Args {
					if dependsOn(a, func(w ssa.Value) bool { return localeElem(w) && !sameLocale(w, fa.X) }, map[ssa.Value]bool{}) {
						other = "the date may come from another locale (call at " + p.instrPos(cl) + ")"
					}
				}
			})
			return other
		}
	}
	// the code the locale was looked up with
	root := func(w ssa.Value) ssa.Value { return strip(w) }
	found := false
	eachInstr(f, func(i ssa.Instruction) {
		c := callOf(i)
		if c == nil {
			return
		}
		if g := c.StaticCallee(); g != nil && strings.HasSuffix(pkgOf(g), "internal/data") {
			for _, a := range c.Args {
				if root(a) == root(v) {
					found = true
				}
			}
		}
	})
	if found {
		return ""
	}
	if pr, ok := v.(*ssa.Parameter); ok {
		for _, s := range p.callSites(pr.Parent()) {
			a := argFor(s, pr)
			if a == nil {
				return "the stored name is not that of a locale"
			}
			if u, ok := a.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && localeElem(fa.X) {
					if _, n := fieldName(fa); n == "Name" {
						continue
					}
				}
			}
			if _, isPrm := a.(*ssa.Parameter); isPrm {
				continue
			}
			return "the stored name is not that of a locale"
		}
		return ""
	}
	return "the stored name is not that of a locale"
}

// sameLocale: the two values are the same locale (the same value, or the same list element read twice).
func sameLocale(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 {
		return false
	}
	ia, ok1 := ua.X.(*ssa.IndexAddr)
	ib, ok2 := ub.X.(*ssa.IndexAddr)
	return ok1 && ok2 && ia.X == ib.X && ia.Index == ib.Index
}
