package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C28"] = checkC28 }

var clockNames = []string{"hour", "minute", "second", "nanosecond"}

func checkC28(p *Prog, r *Result) {
	r.Explanation = "Obligations: clock-slot (a part of a time of day used to make a date is in the slot of that part, and no part is dropped where the others are kept), clock-entry (a part of a time of day entered under a name has that name, and the parts are entered together), layout-period (the period of a clock layout is its finest part, and a twelve-hour layout has AM or PM), layouts (every usual way of writing a time of day has a layout), timestamp-parts (the digits after the seconds of a timestamp count as milliseconds and microseconds, added to the seconds), timestamp-pattern (the patterns split the digits accordingly)."
	r.Rule = "Parts are recognised on SSA by the method of time.Time or the key they come from, through assignments, helpers and joins; timestamps are read as a linear form over the groups of the match; layouts and patterns are folded from constants."
	q := &clock{p: p, r: r}
	sites := 0
	for _, f := range p.reachableRepo() {
		n := map[string]int{}
		entries := map[ssa.Value]map[string]clockOrg{}
		var maps []ssa.Value
		eachInstr(f, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Call:
				if calleeName(x.Common()) != "time.Date" {
					return
				}
				sites++
				q.date(f, x, n)
			case *ssa.MapUpdate:
				k, ok := constText(x.Key)
				if !ok || clockIndex(k) < 0 || !isAmountMap(x.Map.Type()) {
					return
				}
				if entries[mapCell(x.Map)] == nil {
					entries[mapCell(x.Map)] = map[string]clockOrg{}
					maps = append(maps, mapCell(x.Map))
				}
				o := q.org(x.Value, 0)
				if o.part == "" {
					return
				}
				entries[mapCell(x.Map)][k] = o
				prob := ""
				if o.part != k {
					prob = "the " + o.part + " is entered as the " + k
				}
				r.add(prob == "", "clock-entry", fnKey(f)+": "+k, p.instrPos(i), okOr(prob, "the same part"))
			}
		})
		for _, m := range maps {
			es := entries[m]
			if len(es) == 0 {
				continue
			}
			missing := ""
			for _, k := range clockNames {
				if _, ok := es[k]; !ok {
					missing = k
				}
			}
			// another map update may write it in a way that is not understood
			eachInstr(f, func(i ssa.Instruction) {
				if mu, ok := i.(*ssa.MapUpdate); ok && isAmountMap(mu.Map.Type()) {
					if k, isC := constText(mu.Key); !isC || k == missing {
						missing = ""
					}
				}
			})
			r.add(missing == "", "clock-entry", fnKey(f)+": all parts", p.pos(f.Pos()), okOr(map[bool]string{true: "the " + missing + " of the time is not entered"}[missing != ""], "all parts are entered"))
		}
	}
	r.Analysed["dates constructed"] = sites
	q.layouts()
	q.timestamps()
	r.floor("clock-slot", 4)
}

type clock struct {
	p *Prog
	r *Result
}

// clockOrg is the part of a time a number comes from; zero: the constant zero.
type clockOrg struct {
	part string
	zero bool
}

func clockIndex(k string) int {
	for i, c := range clockNames {
		if c == k {
			return i
		}
	}
	return -1
}

// mapCell is the variable a map is kept in, or the map itself.
func mapCell(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return v
}

func (q *clock) org(v ssa.Value, depth int) clockOrg {
	if depth > 8 {
		return clockOrg{}
	}
	if k, ok := constInt(v); ok && k == 0 {
		return clockOrg{zero: true}
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return q.org(x.X, depth+1)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			if k, ok := constText(t.Index); ok && clockIndex(k) >= 0 && x.Index == 0 {
				return clockOrg{part: k}
			}
		case *ssa.Call:
			if calleeName(t.Common()) == "(time.Time).Clock" && x.Index < 3 {
				return clockOrg{part: clockNames[x.Index]}
			}
			return q.result(t, x.Index, depth)
		}
	case *ssa.Lookup:
		if k, ok := constText(x.Index); ok && clockIndex(k) >= 0 {
			return clockOrg{part: k}
		}
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "(time.Time).Hour":
			return clockOrg{part: "hour"}
		case "(time.Time).Minute":
			return clockOrg{part: "minute"}
		case "(time.Time).Second":
			return clockOrg{part: "second"}
		case "(time.Time).Nanosecond":
			return clockOrg{part: "nanosecond"}
		case "(time.Time).Day", "(time.Time).Year", "(time.Time).Month":
			return clockOrg{part: "part of the date"}
		}
		return q.result(x, 0, depth)
	case *ssa.Phi:
		return q.same(x.Edges, depth)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			if sts, all := cellStores(al); all {
				var vs []ssa.Value
				for _, st := range sts {
					vs = append(vs, st.Val)
				}
				return q.same(vs, depth)
			}
		}
	case *ssa.Parameter:
		var vs []ssa.Value
		for _, s := range q.p.callSites(x.Parent()) {
			a := argFor(s, x)
			if a == nil {
				return clockOrg{}
			}
			vs = append(vs, a)
		}
		return q.same(vs, depth)
	}
	return clockOrg{}
}

// same: all values come from the same part, or are zero.
func (q *clock) same(vs []ssa.Value, depth int) clockOrg {
	out := clockOrg{}
	zeros := 0
	for _, v := range vs {
		o := q.org(v, depth+1)
		switch {
		case o.zero:
			zeros++
		case o.part == "" || out.part != "" && out.part != o.part:
			return clockOrg{}
		default:
			out = o
		}
	}
	if len(vs) > 0 && zeros == len(vs) {
		return clockOrg{zero: true}
	}
	return out
}

func (q *clock) result(cl *ssa.Call, idx, depth int) clockOrg {
	g := cl.Call.StaticCallee()
	if g == nil || !q.p.inRepo(g) {
		return clockOrg{}
	}
	var vs []ssa.Value
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
			vs = append(vs, ret.Results[idx])
		}
	}
	return q.same(vs, depth)
}

// date decides the time of day of a date that is constructed.
func (q *clock) date(f *ssa.Function, cl *ssa.Call, n map[string]int) {
	var orgs [4]clockOrg
	any := false
	for k := range orgs {
		orgs[k] = q.org(cl.Call.Args[3+k], 0)
		any = any || orgs[k].part != ""
	}
	if !any {
		return
	}
	for k, o := range orgs {
		prob := ""
		switch {
		case o.part != "" && o.part != clockNames[k]:
			prob = "the " + o.part + " is used as the " + clockNames[k]
		case o.zero:
			prob = "the " + clockNames[k] + " is dropped although other parts of the time are kept"
		}
		n[clockNames[k]]++
		q.r.add(prob == "", "clock-slot", fnKey(f)+": "+clockNames[k]+" "+itoa(n[clockNames[k]]), q.p.instrPos(cl), okOr(prob, "the same part"))
	}
}

// layouts decides the tables of clock layouts and their periods: pairs of a layout and a period stored
// into the same entry of a table.
func (q *clock) layouts() {
	shapes := map[string]bool{}
	any := false
	for _, f := range q.p.repoFns() {
		if pkgOf(f) != modPath+"/internal/parser/common" {
			continue
		}
		layout := map[ssa.Value]string{}
		period := map[ssa.Value]*ssa.Const{}
		pos := map[ssa.Value]string{}
		var order []ssa.Value
		eachInstr(f, func(i ssa.Instruction) {
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			c, ok := st.Val.(*ssa.Const)
			if !ok {
				return
			}
			if s, ok := constText(c); ok && (strings.Contains(s, "15") || strings.Contains(s, "3")) {
				if _, seen := layout[fa.X]; !seen {
					order = append(order, fa.X)
				}
				layout[fa.X] = s
				pos[fa.X] = q.p.instrPos(i)
			}
			if typeIs(c.Type(), modPath+"/date", "Period") {
				period[fa.X] = c
			}
		})
		for _, e := range order {
			c := period[e]
			if c == nil {
				continue
			}
			any = true
			s := layout[e]
			finest := "Hour"
			switch {
			case strings.Contains(s, ":5") || strings.Contains(s, ":05"):
				finest = "Second"
			case strings.Contains(s, ":4") || strings.Contains(s, ":04"):
				finest = "Minute"
			}
			pm := strings.Contains(s, "PM") || strings.Contains(s, "pm")
			prob := ""
			k, isK := c.Type().(*types.Named).Obj().Pkg().Scope().Lookup(finest).(*types.Const)
			switch {
			case !pm && !strings.Contains(s, "15"):
				prob = "the layout '" + s + "' has twelve hours but neither AM nor PM"
			case isK && c.Value != nil && !constant.Compare(k.Val(), token.EQL, c.Value):
				prob = "the finest part of the layout '" + s + "' is the " + strings.ToLower(finest) + ", which is not its period"
			case finest == "Second" && !strings.Contains(s, ":4") && !strings.Contains(s, ":04"):
				prob = "the layout '" + s + "' has seconds but no minutes"
			}
			if pm && !strings.Contains(s, "15") {
				finest += " PM"
			} else if pm {
				finest += " 24 PM"
			}
			shapes[finest] = true
			q.r.add(prob == "", "layout-period", "layout "+s, pos[e], okOr(prob, "period "+finest))
		}
	}
	if !any {
		return
	}
	for _, w := range []string{"Second", "Minute", "Second PM", "Minute PM", "Hour PM"} {
		q.r.add(shapes[w], "layouts", w, "-", okOr(map[bool]string{false: "no layout reads a time of day down to the " + strings.ToLower(strings.TrimSuffix(w, " PM")) + map[bool]string{true: " with AM or PM"}[strings.HasSuffix(w, "PM")]}[shapes[w]], "a layout exists"))
	}
}

// repoFns are the functions of the repository that can be reached, with the initialisers.
func (p *Prog) repoFns() []*ssa.Function {
	out := append([]*ssa.Function{}, p.reachableRepo()...)
	seen := map[*ssa.Function]bool{}
	for _, f := range out {
		seen[f] = true
	}
	for _, sp := range p.SSAPkgs {
		if f := sp.Func("init"); f != nil && p.inRepo(f) && !seen[f] {
			out = append(out, f)
		}
	}
	return out
}

// linear is a linear form over the groups of a match, one for each way the number can be made.
type linear map[int64]int64

func (q *clock) linear(v ssa.Value, depth int) []linear {
	if depth > 10 {
		return nil
	}
	if k, ok := constInt(v); ok && k == 0 {
		return []linear{{}}
	}
	each := func(a, b []linear, fn func(x, y int64) int64) []linear {
		var out []linear
		for _, l := range a {
			for _, m := range b {
				w := linear{}
				for k, c := range l {
					w[k] += c
				}
				for k, c := range m {
					w[k] = fn(w[k], c)
				}
				out = append(out, w)
			}
		}
		return out
	}
	scale := func(a []linear, k int64) []linear {
		var out []linear
		for _, l := range a {
			w := linear{}
			for g, c := range l {
				w[g] = c * k
			}
			out = append(out, w)
		}
		return out
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return q.linear(x.X, depth+1)
	case *ssa.ChangeType:
		return q.linear(x.X, depth+1)
	case *ssa.Phi:
		var out []linear
		for _, e := range x.Edges {
			l := q.linear(e, depth+1)
			if l == nil {
				return nil
			}
			out = append(out, l...)
		}
		return out
	case *ssa.UnOp:
		if x.Op == token.SUB {
			return scale(q.linear(x.X, depth+1), -1)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			return each(q.linear(x.X, depth+1), q.linear(x.Y, depth+1), func(a, b int64) int64 { return a + b })
		case token.SUB:
			return each(q.linear(x.X, depth+1), q.linear(x.Y, depth+1), func(a, b int64) int64 { return a - b })
		case token.MUL:
			if k, ok := constInt(x.Y); ok {
				return scale(q.linear(x.X, depth+1), k)
			}
			if k, ok := constInt(x.X); ok {
				return scale(q.linear(x.Y, depth+1), k)
			}
			for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				// a sign chosen elsewhere
				if ph, ok := o[1].(*ssa.Phi); ok {
					var out []linear
					for _, e := range ph.Edges {
						k, ok := constInt(e)
						if !ok {
							return nil
						}
						out = append(out, scale(q.linear(o[0], depth+1), k)...)
					}
					return out
				}
			}
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 && strings.HasPrefix(calleeName(cl.Common()), "strconv.") {
			if _, k := groupOf(cl.Call.Args[0]); k > 0 {
				return []linear{{k: 1}}
			}
		}
	}
	return nil
}

// timestamps decides how the parts of a timestamp make a moment.
func (q *clock) timestamps() {
	path := modPath + "/internal/parser/timestamp"
	sp := q.p.SSAPkgs[path]
	if sp == nil {
		return
	}
	// the patterns
	ra := &relAnalysis{p: q.p}
	for _, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		c, ok := q.p.initValue(g).(*ssa.Call)
		if !ok || len(c.Call.Args) != 1 {
			continue
		}
		s, ok := ra.text(c.Call.Args[0], 0)
		if !ok {
			continue
		}
		rx, err := regexp.Compile(s)
		if err != nil || rx.NumSubexp() != 3 {
			continue
		}
		prob := ""
		hit := false
		for _, sign := range []string{"", "-"} {
			if !rx.MatchString(sign + "1570308760") {
				continue
			}
			hit = true
			for text, want := range map[string][3]string{
				"1570308760":       {"1570308760", "", ""},
				"1570308760263":    {"1570308760", "263", ""},
				"1570308760263111": {"1570308760", "263", "111"},
			} {
				got := rx.FindStringSubmatch(sign + text)
				if len(got) != 4 || got[1] != sign+want[0] || got[2] != want[1] || got[3] != want[2] {
					prob = "the digits of " + sign + text + " are not split into seconds, milliseconds and microseconds"
				}
			}
			for _, text := range []string{"157030876", "15703087601", "157030876026311", "x1570308760", "1570308760x"} {
				if rx.MatchString(sign + text) {
					prob = sign + text + " counts as a timestamp"
				}
			}
		}
		if hit {
			q.r.add(prob == "", "timestamp-pattern", g.Name(), q.p.pos(g.Pos()), okOr(prob, "ten digits, then three, then three"))
		}
	}
	for _, f := range q.p.reachableRepo() {
		if pkgOf(f) != path {
			continue
		}
		n := 0
		eachInstr(f, func(i ssa.Instruction) {
			cl, ok := i.(*ssa.Call)
			if !ok || calleeName(cl.Common()) != "time.Unix" {
				return
			}
			n++
			sec, ns := q.linear(cl.Call.Args[0], 0), q.linear(cl.Call.Args[1], 0)
			if sec == nil || ns == nil {
				return
			}
			prob := ""
			for _, l := range sec {
				if len(l) != 1 || l[1] != 1 {
					prob = "the seconds are not the first group of the match"
				}
			}
			forward, backward := false, false
			for _, l := range ns {
				pos := l[2] > 0 || l[3] > 0
				forward = forward || pos
				backward = backward || l[2] < 0 || l[3] < 0
				sg := int64(1)
				if !pos {
					sg = -1
				}
				if len(l) > 0 && (l[2] != sg*1_000_000 || l[3] != sg*1_000 || len(l) != 2) {
					prob = "the second and third group of the match are not counted as milliseconds and microseconds"
				}
			}
			switch {
			case prob != "":
			case !forward:
				prob = "the fraction of a timestamp is never added"
			case backward:
				prob = "the fraction of a timestamp is subtracted"
			}
			q.r.add(prob == "", "timestamp-parts", fnKey(f)+" "+itoa(n), q.p.instrPos(cl), okOr(prob, "seconds, milliseconds and microseconds"))
		})
	}
}
