package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = checkC15 }

type tzGroup struct {
	patterns []string
	alts     []repl
	names    []string
	offsets  map[string]int64
	pos      map[string]token.Pos
}

type tzEntry struct {
	name    string
	offset  int64
	pattern string
	re      *regexp.Regexp
}

func (p *Prog) tzTable(r *Result) ([]tzGroup, *types.Var) {
	pkg := p.Pkgs[modPath+"/internal/timezone"]
	if pkg == nil {
		fatal("package internal/timezone not found")
	}
	e := &foldEnv{p: p, pkg: pkg}
	for _, n := range pkg.Types.Scope().Names() {
		v, ok := pkg.Types.Scope().Lookup(n).(*types.Var)
		if !ok {
			continue
		}
		sl, ok := v.Type().Underlying().(*types.Slice)
		if !ok || !typeIs(sl.Elem(), pkg.PkgPath, "Info") {
			continue
		}
		l := e.lit(varInit(pkg, v))
		if l == nil {
			r.bad("foldable", n, p.pos(v.Pos()), "the time zone table is not a literal")
			return nil, v
		}
		var out []tzGroup
		for _, el := range l.Elts {
			cl := e.lit(el)
			if cl == nil {
				r.bad("foldable", n, p.pos(el.Pos()), "entry is not a literal")
				continue
			}
			g := tzGroup{}
			st := pkg.TypesInfo.TypeOf(cl).Underlying().(*types.Struct)
			for i, fe := range cl.Elts {
				name, val := st.Field(min(i, st.NumFields()-1)).Name(), fe
				if kv, ok := fe.(*ast.KeyValueExpr); ok {
					name, val = kv.Key.(*ast.Ident).Name, kv.Value
				}
				ok := true
				switch name {
				case "RegexPatterns":
					g.patterns, ok = e.strList(val)
				case "AlternativePatterns":
					g.alts, ok = e.repls(val)
				case "Timezones":
					g.offsets, g.pos, ok = e.strIntMap(val)
					g.names = sortedKeys(g.offsets)
				default:
					ok = false
				}
				if !ok {
					r.bad("foldable", n+"."+name, p.pos(fe.Pos()), "field is not a literal the analysis can fold")
				}
			}
			out = append(out, g)
		}
		return out, v
	}
	fatal("the time zone table was not found")
	return nil, nil
}

var rxNumericZone = regexp.MustCompile(`^(?:UTC|GMT)?([+-])(\d{1,2}):?(\d{2})?$`)

func checkC15(p *Prog, r *Result) {
	r.Rule = "The time zone table is folded from its literal, expanded with its own patterns the way the builder is checked to do, and each entry is decided: offset against the spelled name, range, uniqueness, group structure, and which entry of the ordered list is the first to recognise the name."
	r.Explanation = "Obligations: spelled (offset equals the name), range (-12h..+14h, whole minutes), unique (no name has two offsets, upper and lower case being the same to the matcher), recognised (the first entry that matches the name in a text carries the name's offset, and the quick search sees it), forms (written variants UTC+n, GMT+n, +hhmm … of a numeric zone give its offset), group (the first group, which is kept, always takes part), builder (name, pattern and offset of an entry come from the same table key), order (the list never follows map iteration order)."
	groups, tv := p.tzTable(r)
	if groups == nil {
		return
	}
	seen := map[string]int64{}
	seenName := map[string]string{}
	total := 0
	for _, g := range groups {
		for _, n := range g.names {
			total++
			off, at := g.offsets[n], p.pos(g.pos[n])
			if m := rxNumericZone.FindStringSubmatch(n); m != nil {
				h, _ := strconv.Atoi(m[2])
				mi, _ := strconv.Atoi("0" + m[3])
				want := int64(h*3600 + mi*60)
				if m[1] == "-" {
					want = -want
				}
				r.add(want == off && mi < 60, "spelled", n, at, okOr(map[bool]string{false: fmt.Sprintf("the offset is %d seconds but the name says %d", off, want)}[want == off && mi < 60], "offset equals the name"))
			}
			prob := ""
			if off < -12*3600 || off > 14*3600 {
				prob = fmt.Sprintf("offset %d is outside -12h..+14h", off)
			} else if off%60 != 0 {
				prob = fmt.Sprintf("offset %d is not a whole number of minutes", off)
			}
			r.add(prob == "", "range", n, at, okOr(prob, "within range, whole minutes"))
			k := strings.ToUpper(n)
			if o, dup := seen[k]; dup && o != off {
				r.bad("unique", n, at, fmt.Sprintf("has offset %d here and %d as %s", off, o, seenName[k]))
			} else {
				r.ok("unique", n, at, "one offset")
			}
			seen[k], seenName[k] = off, n
		}
	}
	r.Analysed["zone names"] = total
	// expansion
	var list []tzEntry
	var search []string
	have := map[string]bool{}
	sset := map[string]bool{}
	for _, g := range groups {
		for _, pat := range g.patterns {
			gp := ""
			re, err := syntax.Parse(fmt.Sprintf(pat, "X"), syntax.Perl)
			if err != nil {
				gp = "the pattern does not compile: " + err.Error()
			} else if strings.Count(pat, "%s") != 1 || strings.Count(pat, "%") != 1 {
				gp = "the pattern does not take exactly one name"
			} else if re.MaxCap() < 1 || !startsWithGroup(re) {
				gp = "the pattern does not start with the group that is kept"
			}
			r.add(gp == "", "group", pat, p.pos(tv.Pos()), okOr(gp, "starts with the group of the text before the zone"))
			if gp != "" {
				return
			}
			expand := func(f func(string) string) {
				for _, n := range g.names {
					s := f(regexp.QuoteMeta(n))
					rp := fmt.Sprintf(pat, s)
					if have[rp] {
						continue
					}
					have[rp] = true
					if !sset[s] {
						sset[s] = true
						search = append(search, s)
					}
					re, err := regexp.Compile("(?i)" + rp)
					if err != nil {
						r.bad("recognised", n, p.pos(g.pos[n]), "pattern does not compile: "+err.Error())
						continue
					}
					list = append(list, tzEntry{n, g.offsets[n], rp, re})
				}
			}
			expand(func(s string) string { return s })
			for _, a := range g.alts {
				are, err := regexp.Compile(a.Pattern)
				if err != nil || replProblem(a) != "" {
					r.bad("group", a.Pattern, p.pos(a.Pos), "alternative form: "+replProblem(a))
					continue
				}
				expand(func(s string) string { return are.ReplaceAllString(s, a.Repl) })
			}
		}
	}
	sort.Strings(search)
	searchRe, err := regexp.Compile("(?i)" + strings.Join(search, "|"))
	if err != nil {
		r.bad("recognised", "quick search", "-", err.Error())
		return
	}
	r.Analysed["expanded patterns"] = len(list)
	first := func(text string) *tzEntry {
		if !searchRe.MatchString(text) {
			return nil
		}
		for i := range list {
			if list[i].re.MatchString(text) {
				return &list[i]
			}
		}
		return nil
	}
	for _, g := range groups {
		for _, n := range g.names {
			e := first("x " + n)
			prob := ""
			switch {
			case e == nil:
				prob = "no entry recognises the name in a text"
			case e.offset != g.offsets[n]:
				prob = fmt.Sprintf("the first entry to recognise it is %s with offset %d instead of %d", e.name, e.offset, g.offsets[n])
			}
			r.add(prob == "", "recognised", n, p.pos(g.pos[n]), okOr(prob, "recognised with its own offset"))
			m := rxNumericZone.FindStringSubmatch(n)
			if m == nil || m[3] == "" {
				continue
			}
			for _, form := range numericForms(m[1], m[2], m[3]) {
				e := first("1 " + form)
				prob := ""
				switch {
				case e == nil:
					prob = "the form " + form + " is not recognised"
				case e.offset != g.offsets[n]:
					prob = fmt.Sprintf("the form %s is recognised as %s with offset %d instead of %d", form, e.name, e.offset, g.offsets[n])
				}
				r.add(prob == "", "forms", form, p.pos(g.pos[n]), okOr(prob, "recognised with its own offset"))
			}
		}
	}
	p.tzBuilder(r)
	r.floor("spelled", 40)
	r.floor("range", 400)
	r.floor("unique", 400)
	r.floor("recognised", 400)
	r.floor("forms", 150)
	r.floor("group", 2)
	r.floor("builder", 1)
	r.floor("order", 1)
}

func numericForms(sign, h, m string) []string {
	hn := strings.TrimPrefix(h, "0")
	if hn == "" {
		hn = "0"
	}
	out := []string{"UTC" + sign + h + ":" + m, "GMT" + sign + h + ":" + m, sign + h + ":" + m, sign + h + m, "UTC" + sign + h + m, "GMT" + sign + h + m}
	if m == "00" {
		out = append(out, "UTC"+sign+hn, "GMT"+sign+hn)
	} else {
		out = append(out, "UTC"+sign+hn+":"+m)
	}
	return out
}

// startsWithGroup: the pattern is a concatenation whose first element is capture group 1.
func startsWithGroup(re *syntax.Regexp) bool {
	for re.Op == syntax.OpConcat && len(re.Sub) > 0 {
		re = re.Sub[0]
	}
	return re.Op == syntax.OpCapture && re.Cap == 1
}

// tzBuilder checks on SSA that each entry's name, pattern and offset come from the same key, and that no
// list of entries follows map iteration order.
func (p *Prog) tzBuilder(r *Result) {
	path := modPath + "/internal/timezone"
	for _, f := range p.fnSrc {
		if pkgOf(f) != path {
			continue
		}
		// group the stores by the OffsetData being filled
		parts := map[ssa.Value]map[string]ssa.Value{}
		posOf := map[ssa.Value]string{}
		eachInstr(f, func(i ssa.Instruction) {
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			o, n := fieldName(fa)
			if o == nil || o.Obj().Name() != "OffsetData" {
				return
			}
			if parts[fa.X] == nil {
				parts[fa.X] = map[string]ssa.Value{}
				posOf[fa.X] = p.instrPos(i)
			}
			parts[fa.X][n] = st.Val
		})
		// values assembled in one variable and copied into another
		copied := map[ssa.Value]bool{}
		for n := 0; n < 4; n++ {
			eachInstr(f, func(i ssa.Instruction) {
				st, ok := i.(*ssa.Store)
				if !ok {
					return
				}
				ld, ok := st.Val.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL || parts[ld.X] == nil {
					return
				}
				if parts[st.Addr] == nil {
					parts[st.Addr] = map[string]ssa.Value{}
					posOf[st.Addr] = p.instrPos(i)
				}
				for k, v := range parts[ld.X] {
					if parts[st.Addr][k] == nil {
						parts[st.Addr][k] = v
					}
				}
				copied[ld.X] = true
			})
		}
		gate := p.gateAdds(f)
		k := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || parts[v] == nil || copied[v] {
					continue
				}
				k++
				m := parts[v]
				prob := ""
				name, off, rx := m["Name"], m["Offset"], m["Regex"]
				if name == nil && off == nil && rx == nil {
					continue
				}
				lk, isLk := off.(*ssa.Lookup)
				switch {
				case name == nil || off == nil || rx == nil:
					prob = "an entry lacks its name, pattern or offset"
				case isLk && lk.Index != name && !sameLoad(lk.Index, name):
					prob = "the offset is looked up under another key than the name"
				case !isLk && !sameRange(off, name):
					prob = "the offset does not come from the table entry of that name"
				case !p.fromName(f, rx, name, 0):
					prob = "the pattern does not come from the entry's name"
				case p.unquoted(rx, name, map[ssa.Value]bool{}):
					prob = "the name becomes part of the pattern without its special characters being quoted"
				case gate != nil:
					seen := false
					for _, ga := range gate {
						text := func(x ssa.Value) bool { return x == ga.text }
						if dependsOn(rx, text, map[ssa.Value]bool{}) && (ga.at.Block() == b || ga.at.Block().Dominates(b)) {
							seen = true
						}
					}
					if !seen {
						prob = "the entry's text is not added to the quick search, which runs before the entries are tried"
					}
				}
				r.add(prob == "", "builder", fnKey(f)+"#"+itoa(k), posOf[v], okOr(prob, "name, pattern and offset come from the same table key"))
			}
		}
		for _, o := range p.mapRanges(f) {
			o.Rule = "order"
			r.Obs = append(r.Obs, o)
		}
	}
}

type gateAdd struct {
	text ssa.Value
	at   ssa.Instruction
}

// gateAdds: the places where a text is added to the collection the quick search pattern is joined from; nil
// when there is no such pattern.
func (p *Prog) gateAdds(f *ssa.Function) []gateAdd {
	var joined []ssa.Value
	eachInstr(f, func(i ssa.Instruction) {
		if c := callOf(i); c != nil && calleeName(c) == "strings.Join" {
			joined = append(joined, c.Args[0])
		}
	})
	if len(joined) == 0 {
		return nil
	}
	feeds := func(v ssa.Value) bool {
		for _, j := range joined {
			if dependsOn(j, func(x ssa.Value) bool { return x == v }, map[ssa.Value]bool{}) {
				return true
			}
		}
		return false
	}
	out := []gateAdd{}
	eachInstr(f, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.MapUpdate:
			if feeds(x.Map) {
				out = append(out, gateAdd{x.Key, i})
			}
		case *ssa.Store:
			// an element of the list that is joined
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				if al, ok := ia.X.(*ssa.Alloc); ok && isString(x.Val.Type()) && feeds(al) {
					out = append(out, gateAdd{x.Val, i})
				}
			}
		case *ssa.Call:
			if len(x.Call.Args) > 1 && strings.HasSuffix(calleeName(&x.Call), "Dict).Add") && feeds(x.Call.Args[0]) {
				if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
					for _, st := range storesInto(sl.X, 0) {
						out = append(out, gateAdd{st.Val, i})
					}
				}
			}
		}
	})
	return out
}

// sameLoad: two reads of the same element.
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || ua.Op != token.MUL || ub.Op != token.MUL {
		return false
	}
	if ua.X == ub.X {
		return true
	}
	ia, ok1 := ua.X.(*ssa.IndexAddr)
	ib, ok2 := ub.X.(*ssa.IndexAddr)
	return ok1 && ok2 && ia.X == ib.X && ia.Index == ib.Index
}

// sameRange: both values come out of the same step of a map range.
func sameRange(a, b ssa.Value) bool {
	ea, ok1 := a.(*ssa.Extract)
	eb, ok2 := b.(*ssa.Extract)
	return ok1 && ok2 && ea.Tuple == eb.Tuple
}

// fromName: the pattern is made from the name; where both are handed to the function, at every call site.
func (p *Prog) fromName(f *ssa.Function, rx, name ssa.Value, depth int) bool {
	if dependsOn(rx, func(x ssa.Value) bool { return x == name || sameLoad(x, name) }, map[ssa.Value]bool{}) {
		return true
	}
	np, ok := name.(*ssa.Parameter)
	if !ok || depth > 3 {
		return false
	}
	var given []*ssa.Parameter
	dependsOn(rx, func(x ssa.Value) bool {
		if pa, ok := x.(*ssa.Parameter); ok && pa.Parent() == f {
			given = append(given, pa)
		}
		return false
	}, map[ssa.Value]bool{})
	calls := p.callSites(f)
	for _, c := range calls {
		nv := argFor(c, np)
		hit := false
		for _, g := range given {
			if a := argFor(c, g); a != nil && nv != nil {
				hit = hit || p.fromName(c.Parent(), a, nv, depth+1)
			}
		}
		if !hit {
			return false
		}
	}
	return len(calls) > 0
}

// unquoted: the name itself reaches the pattern on a way that does not pass a call that quotes it.
func (p *Prog) unquoted(v, name ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if v == name || sameLoad(v, name) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if p.unquoted(e, name, seen) {
				return true
			}
		}
	case *ssa.BinOp:
		return x.Op == token.ADD && (p.unquoted(x.X, name, seen) || p.unquoted(x.Y, name, seen))
	case *ssa.MakeInterface:
		return p.unquoted(x.X, name, seen)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			sts, _ := cellStores(al)
			for _, st := range sts {
				if p.unquoted(st.Val, name, seen) {
					return true
				}
			}
		}
	case *ssa.Call:
		n := calleeName(x.Common())
		switch {
		case strings.HasPrefix(n, "fmt.Sprint"), strings.Contains(n, "egexp.MustCompile"), strings.Contains(n, "egexp.Compile"):
			for _, a := range x.Call.Args {
				if p.unquoted(a, name, seen) {
					return true
				}
				for _, e := range variadic(a) {
					if p.unquoted(e, name, seen) {
						return true
					}
				}
			}
		case strings.Contains(n, "ReplaceAllString"):
			return len(x.Call.Args) > 1 && p.unquoted(x.Call.Args[1], name, seen)
		}
	}
	return false
}
