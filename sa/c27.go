package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C27"] = checkC27 }

// relCtx is a chain of calls inside the package.
type relCtx struct {
	site ssa.CallInstruction
	up   *relCtx
}

type relKey struct {
	v ssa.Value
	c *relCtx
}

// relUnits are the units an amount is counted in; "?" stands for an amount that is not understood.
type relUnits map[string]bool

func (u relUnits) add(w relUnits) {
	for k := range w {
		u[k] = true
	}
}

func (u relUnits) String() string {
	var s []string
	for k := range u {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

var relNano = map[string]int64{"hour": 3600e9, "minute": 60e9, "second": 1e9}

// relFactor maps a unit and a factor to the unit the product is counted in.
var relFactor = map[string]map[float64]string{
	"decade": {10: "year", 120: "month"},
	"year":   {12: "month", 360: "day", 365: "day"},
	"month":  {30: "day", 720: "hour"},
	"week":   {7: "day", 168: "hour"},
	"day":    {24: "hour", 1440: "minute", 86400: "second"},
	"hour":   {60: "minute", 3600: "second"},
	"minute": {60: "second"},
	"second": {},
}

var relOrder = []string{"second", "minute", "hour", "day", "month", "year"}

type relAnalysis struct {
	p     *Prog
	r     *Result
	fns   []*ssa.Function
	in    map[*ssa.Function]bool
	probs map[ssa.Value]string // conversions that are wrong
	ago   *edgeImplies
	rx    map[*ssa.Global]*regexp.Regexp
	sink  *ssa.BasicBlock // where the amount is used
}

func checkC27(p *Prog, r *Result) {
	r.Explanation = "Obligations: unit-slot (an amount is added to the part of the date that has its unit, or as a duration of its unit), all-units (no unit is left out), direction (where the date is moved forwards the text does not say 'ago' and says 'in' or the future is preferred; where it is moved backwards it says 'ago', or neither says 'in' nor is the future preferred), conversion (an amount entered under a unit is counted in that unit: the factor fits), amount (an amount of the text is entered under the unit written next to it), carry (no part of an amount that is split is dropped or counted twice), every-way (no way of making the date leaves an amount out), period (the period is that of the finest unit)."
	r.Rule = "Amounts are followed on SSA from the map of units, through factors, fractions, helpers and signs, to the calls that move the date; the direction is decided by cutting the control flow at the branches that decide on 'ago', 'in' and the preferred source."
	path := modPath + "/internal/parser/relative"
	if p.SSAPkgs[path] == nil {
		fatal("package internal/parser/relative not found")
	}
	q := &relAnalysis{p: p, r: r, in: map[*ssa.Function]bool{}, probs: map[ssa.Value]string{}, rx: map[*ssa.Global]*regexp.Regexp{}}
	for _, f := range p.reachableRepo() {
		if pkgOf(f) == path {
			q.fns = append(q.fns, f)
			q.in[f] = true
		}
	}
	r.Analysed["functions"] = len(q.fns)
	q.moves()
	q.everyWay()
	q.conversions()
	q.carries()
	q.periods()
	r.floor("unit-slot", 1)
	r.floor("direction", 1)
}

// units of an amount.
func (q *relAnalysis) units(v ssa.Value, at *ssa.BasicBlock, c *relCtx, busy map[relKey]bool) relUnits {
	k := relKey{v, c}
	out := relUnits{}
	if busy[k] || len(busy) > 200 {
		return out
	}
	busy[k] = true
	defer delete(busy, k)
	again := func(w ssa.Value) relUnits { return q.units(w, at, c, busy) }
	lookup := func(l *ssa.Lookup) relUnits {
		if !isAmountMap(l.X.Type()) {
			return relUnits{"?": true}
		}
		if s := q.keyOf(l.Index, at, c); s != "" {
			return relUnits{s: true}
		}
		return relUnits{"?": true}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return out
	case *ssa.Lookup:
		return lookup(x)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			return lookup(t)
		case *ssa.Call:
			return q.callUnits(t, x.Index, at, c, busy)
		}
	case *ssa.Call:
		return q.callUnits(x, 0, at, c, busy)
	case *ssa.Convert:
		return again(x.X)
	case *ssa.ChangeType:
		return again(x.X)
	case *ssa.Phi:
		for i, e := range x.Edges {
			out.add(q.units(e, x.Block().Preds[i], c, busy))
		}
		return out
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB:
			return again(x.X)
		case token.MUL:
			al, ok := x.X.(*ssa.Alloc)
			if fv, isFree := x.X.(*ssa.FreeVar); isFree {
				if w, isAl := capturedValue(fv).(*ssa.Alloc); isAl {
					al, ok = w, true
				}
			}
			if ok {
				if sts, all := cellStores(al); all {
					for _, st := range sts {
						out.add(q.units(st.Val, st.Block(), c, busy))
					}
					return out
				}
			}
		}
	case *ssa.Parameter:
		if c != nil && c.site.Common().StaticCallee() == x.Parent() {
			if a := argFor(c.site, x); a != nil {
				return q.units(a, c.site.Block(), c.up, busy)
			}
		}
		calls := q.p.callSites(x.Parent())
		for _, s := range calls {
			a := argFor(s, x)
			if a == nil || !q.in[s.Parent()] {
				return relUnits{"?": true}
			}
			sink := q.sink
			if sink != nil {
				q.sink = s.Block()
			}
			out.add(q.units(a, s.Block(), nil, busy))
			q.sink = sink
		}
		if len(calls) > 0 {
			return out
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB:
			out.add(again(x.X))
			out.add(again(x.Y))
			return out
		case token.MUL:
			a, b := x.X, x.Y
			k, ok := q.number(b, c)
			if !ok {
				if k, ok = q.number(a, c); ok {
					a, b = b, a
				}
			}
			if !ok {
				ua, ub := again(a), again(b)
				if len(ua) > 0 && len(ub) > 0 {
					return relUnits{"?": true}
				}
				out.add(ua)
				out.add(ub)
				return out
			}
			if k < 0 {
				k = -k
			}
			in := again(a)
			if k == 1 {
				return in
			}
			for u := range in {
				if u == "?" {
					out["?"] = true
					continue
				}
				if typeIs(x.Type(), "time", "Duration") {
					if float64(relNano[u]) == k {
						out[u] = true
					} else {
						q.probs[x] = "an amount of " + u + "s becomes a duration by a factor that does not fit"
						out["?"] = true
					}
					continue
				}
				if to, ok := relFactor[u][k]; ok {
					out[to] = true
				} else if _, known := relFactor[u]; known {
					q.probs[x] = "an amount of " + u + "s is multiplied by " + trimFloat(k) + ", which is not the number of any smaller unit in it"
					out["?"] = true
				} else {
					out["?"] = true
				}
			}
			return out
		}
	}
	return relUnits{"?": true}
}

func trimFloat(k float64) string { return constant.MakeFloat64(k).String() }

// callUnits: units of a result of a call.
func (q *relAnalysis) callUnits(cl *ssa.Call, idx int, at *ssa.BasicBlock, c *relCtx, busy map[relKey]bool) relUnits {
	n := calleeName(cl.Common())
	if strings.HasPrefix(n, "(time.Time).") || n == "time.Date" || strings.HasPrefix(n, "(time.Month).") {
		return relUnits{}
	}
	if strings.HasPrefix(n, "math.") && len(cl.Call.Args) == 1 {
		return q.units(cl.Call.Args[0], at, c, busy)
	}
	if b, ok := cl.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
		out := relUnits{}
		for _, a := range cl.Call.Args {
			out.add(q.units(a, at, c, busy))
		}
		return out
	}
	g := cl.Call.StaticCallee()
	if g == nil || !q.in[g] {
		return relUnits{"?": true}
	}
	for u, n := c, 0; u != nil; u, n = u.up, n+1 {
		if u.site.Common().StaticCallee() == g || n > 6 {
			return relUnits{"?": true}
		}
	}
	out := relUnits{}
	nc := &relCtx{cl, c}
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
			out.add(q.units(ret.Results[idx], b, nc, map[relKey]bool{}))
		}
	}
	return out
}

func isAmountMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isString(m.Key()) {
		return false
	}
	b, ok := m.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsInteger) != 0
}

func constFloat(v ssa.Value) (float64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int && c.Value.Kind() != constant.Float {
		return 0, false
	}
	f, _ := constant.Float64Val(c.Value)
	return f, true
}

// number is a constant factor, also if it is handed to the function.
func (q *relAnalysis) number(v ssa.Value, c *relCtx) (float64, bool) {
	if pa, ok := v.(*ssa.Parameter); ok && c != nil && c.site.Common().StaticCallee() == pa.Parent() {
		if a := argFor(c.site, pa); a != nil {
			return q.number(a, c.up)
		}
	}
	if cv, ok := v.(*ssa.Convert); ok {
		return q.number(cv.X, c)
	}
	return constFloat(v)
}

// keyOf is the unit a key stands for: a constant, or the constant the key is known to be equal to.
func (q *relAnalysis) keyOf(k ssa.Value, at *ssa.BasicBlock, c *relCtx) string {
	if s, ok := constText(k); ok {
		return s
	}
	if pa, ok := k.(*ssa.Parameter); ok {
		if c != nil && c.site.Common().StaticCallee() == pa.Parent() {
			if a := argFor(c.site, pa); a != nil {
				return q.keyOf(a, c.site.Block(), c.up)
			}
		}
	}
	known := deepFacts(facts(at))
	if q.sink != nil && q.sink != at {
		known = append(known, deepFacts(facts(q.sink))...)
	}
	for _, f := range known {
		bo, ok := f.Cond.(*ssa.BinOp)
		if !ok || bo.Op == token.EQL && !f.Val || bo.Op == token.NEQ && f.Val || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		x, y := bo.X, bo.Y
		if _, isC := constText(x); isC {
			x, y = y, x
		}
		if s, isC := constText(y); isC && (x == k || sameLoad(x, k)) {
			return s
		}
	}
	return ""
}

func constText(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// sign of an amount: 1, -1, with the place at which it is decided.
type relSign struct {
	neg bool
	way relWay
}

// relWay is the way a value takes to where it is used, from the use back to where it is chosen:
// the blocks it is in, and the edges (to a join) it comes over.
type relWay []relStep

type relStep struct{ at, to *ssa.BasicBlock }

func (w relWay) over(at, to *ssa.BasicBlock) relWay {
	return append(append(relWay{}, w...), relStep{at, to})
}

func (q *relAnalysis) signs(v ssa.Value, at *ssa.BasicBlock, way relWay, neg bool, depth int) []relSign {
	if depth > 12 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return q.signs(x.X, at, way, neg, depth+1)
	case *ssa.ChangeType:
		return q.signs(x.X, at, way, neg, depth+1)
	case *ssa.UnOp:
		if x.Op == token.SUB {
			return q.signs(x.X, at, way, !neg, depth+1)
		}
	case *ssa.Lookup, *ssa.Extract:
		return []relSign{{neg, way}}
	case *ssa.Phi:
		var out []relSign
		for i, e := range x.Edges {
			s := q.signs(e, x.Block().Preds[i], way.over(x.Block().Preds[i], x.Block()), neg, depth+1)
			if s == nil {
				return nil
			}
			out = append(out, s...)
		}
		return out
	case *ssa.Parameter:
		var out []relSign
		for _, s := range q.p.callSites(x.Parent()) {
			a := argFor(s, x)
			if a == nil || !q.in[s.Parent()] {
				return nil
			}
			w := q.signs(a, s.Block(), way.over(s.Block(), nil), neg, depth+1)
			if w == nil {
				return nil
			}
			out = append(out, w...)
		}
		return out
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB:
			// the part with a unit decides
			ua := q.units(x.X, at, nil, map[relKey]bool{})
			ub := q.units(x.Y, at, nil, map[relKey]bool{})
			var out []relSign
			if len(ua) > 0 {
				s := q.signs(x.X, at, way, neg, depth+1)
				if s == nil {
					return nil
				}
				out = append(out, s...)
			}
			if len(ub) > 0 {
				s := q.signs(x.Y, at, way, neg != (x.Op == token.SUB), depth+1)
				if s == nil {
					return nil
				}
				out = append(out, s...)
			}
			return out
		case token.MUL:
			a, b := x.X, x.Y
			if k, ok := constFloat(b); ok {
				return q.signs(a, at, way, neg != (k < 0), depth+1)
			}
			if k, ok := constFloat(a); ok {
				return q.signs(b, at, way, neg != (k < 0), depth+1)
			}
			// a sign chosen elsewhere
			if len(q.units(a, at, nil, map[relKey]bool{})) == 0 {
				a, b = b, a
			}
			if len(q.units(b, at, nil, map[relKey]bool{})) > 0 {
				return nil
			}
			return q.factor(b, at, way, neg, depth+1)
		}
	}
	return nil
}

// factor: the places at which a factor is chosen to be negative or not.
func (q *relAnalysis) factor(v ssa.Value, at *ssa.BasicBlock, way relWay, neg bool, depth int) []relSign {
	if depth > 12 {
		return nil
	}
	if k, ok := constFloat(v); ok {
		return []relSign{{neg != (k < 0), way}}
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return q.factor(x.X, at, way, neg, depth+1)
	case *ssa.ChangeType:
		return q.factor(x.X, at, way, neg, depth+1)
	case *ssa.UnOp:
		if x.Op == token.SUB {
			return q.factor(x.X, at, way, !neg, depth+1)
		}
	case *ssa.Phi:
		var out []relSign
		for i, e := range x.Edges {
			s := q.factor(e, x.Block().Preds[i], way.over(x.Block().Preds[i], x.Block()), neg, depth+1)
			if s == nil {
				return nil
			}
			out = append(out, s...)
		}
		return out
	case *ssa.Parameter:
		var out []relSign
		for _, s := range q.p.callSites(x.Parent()) {
			a := argFor(s, x)
			if a == nil || !q.in[s.Parent()] {
				return nil
			}
			w := q.factor(a, s.Block(), way.over(s.Block(), nil), neg, depth+1)
			if w == nil {
				return nil
			}
			out = append(out, w...)
		}
		return out
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !q.in[g] {
			return nil
		}
		var out []relSign
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				w := q.factor(ret.Results[0], b, way.over(b, nil), neg, depth+1)
				if w == nil {
					return nil
				}
				out = append(out, w...)
			}
		}
		return out
	}
	return nil
}

// word is what a condition asks the text for: "ago", "in", or "".
func (q *relAnalysis) word(v ssa.Value) string {
	cl, ok := v.(*ssa.Call)
	if !ok {
		return ""
	}
	n := calleeName(cl.Common())
	switch {
	case strings.HasSuffix(n, "Regexp).MatchString"), strings.HasSuffix(n, "Regexp).Match"):
		u, ok := cl.Call.Args[0].(*ssa.UnOp)
		if !ok {
			return ""
		}
		g, ok := u.X.(*ssa.Global)
		if !ok {
			return ""
		}
		rx, seen := q.rx[g]
		if !seen {
			if c, ok := q.p.initValue(g).(*ssa.Call); ok && len(c.Call.Args) == 1 {
				if s, ok := q.text(c.Call.Args[0], 0); ok {
					rx, _ = regexp.Compile(s)
				}
			}
			q.rx[g] = rx
		}
		if rx == nil {
			return ""
		}
		ago, in := true, true
		for _, u := range []string{"1 day", "2 minute", "3 month", "1 second"} {
			ago = ago && rx.MatchString(u+" ago") && !rx.MatchString("in "+u) && !rx.MatchString(u)
			in = in && rx.MatchString("in "+u) && !rx.MatchString(u+" ago") && !rx.MatchString(u)
			ago = ago && rx.MatchString(u+" ago 10:30") && rx.MatchString("5 hour, "+u+" ago")
			in = in && rx.MatchString("10:30 in "+u)
		}
		switch {
		case ago:
			return "ago"
		case in:
			return "in"
		}
	case n == "strings.Contains", n == "strings.HasSuffix", n == "strings.HasPrefix", n == "slices.Contains":
		for _, a := range cl.Call.Args {
			if s, ok := constText(a); ok {
				switch strings.TrimSpace(s) {
				case "ago":
					return "ago"
				case "in":
					return "in"
				}
			}
		}
	}
	return ""
}

// text folds a text made of constants and package variables that are set once.
func (q *relAnalysis) text(v ssa.Value, depth int) (string, bool) {
	if s, ok := constText(v); ok {
		return s, true
	}
	if depth > 8 {
		return "", false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		a, ok1 := q.text(x.X, depth+1)
		b, ok2 := q.text(x.Y, depth+1)
		return a + b, ok1 && ok2 && x.Op == token.ADD
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			if w := q.p.initValue(g); w != nil {
				return q.text(w, depth+1)
			}
		}
	}
	return "", false
}

// future: the fact says whether the future is preferred.
func futureFact(f Fact) (future, known bool) {
	bo, ok := f.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return false, false
	}
	for _, v := range []ssa.Value{bo.X, bo.Y} {
		c, ok := v.(*ssa.Const)
		if !ok || !strings.HasSuffix(types.TypeString(v.Type(), nil), "PreferredDateSource") || c.Value == nil {
			continue
		}
		n := c.Type().(*types.Named)
		for _, name := range []string{"Future", "Past", "CurrentPeriod"} {
			if k, ok := n.Obj().Pkg().Scope().Lookup(name).(*types.Const); ok && constant.Compare(k.Val(), token.EQL, c.Value) {
				eq := (bo.Op == token.EQL) == f.Val
				switch {
				case name == "Future":
					return eq, true
				case eq:
					return false, true
				}
			}
		}
	}
	return false, false
}

// moves decides the calls that move the date.
func (q *relAnalysis) moves() {
	p, r := q.p, q.r
	words := map[string]bool{}
	for _, f := range q.fns {
		eachInstr(f, func(i ssa.Instruction) {
			if v, ok := i.(ssa.Value); ok {
				if w := q.word(v); w != "" {
					words[w] = true
				}
			}
		})
	}
	mk := func(ok func(word string, val bool, fut, futKnown bool) bool) *edgeImplies {
		return p.implies(func(f Fact) bool {
			fut, known := futureFact(f)
			return ok(q.word(f.Cond), f.Val, fut, known)
		})
	}
	notAgo := mk(func(w string, v, fut, k bool) bool { return w == "ago" && !v })
	inOrFuture := mk(func(w string, v, fut, k bool) bool { return w == "in" && v || k && fut })
	agoOrNotIn := mk(func(w string, v, fut, k bool) bool { return w == "ago" && v || w == "in" && !v })
	agoOrNotFuture := mk(func(w string, v, fut, k bool) bool { return w == "ago" && v || k && !fut })
	all := relUnits{}
	sites := 0
	for _, f := range q.fns {
		n := 0
		eachInstr(f, func(i ssa.Instruction) {
			cl, ok := i.(*ssa.Call)
			if !ok {
				return
			}
			var args []ssa.Value
			var slot []string
			what := calleeName(cl.Common())
			switch what {
			case "(time.Time).AddDate":
				args, slot = cl.Call.Args[1:4], []string{"year", "month", "day"}
			case "time.Date":
				args, slot = cl.Call.Args[0:3], []string{"year", "month", "day"}
			case "(time.Time).Add":
				args, slot = cl.Call.Args[1:2], []string{""}
			default:
				return
			}
			n++
			key := fnKey(f) + ": " + what + " " + itoa(n)
			for k, a := range args {
				u := q.units(a, i.Block(), nil, map[relKey]bool{})
				if len(u) == 0 {
					continue
				}
				sites++
				all.add(u)
				prob := ""
				for w := range u {
					switch {
					case w == "?":
					case slot[k] != "" && w != slot[k]:
						prob = "an amount of " + w + "s is added to the " + slot[k] + " of the date"
					case slot[k] == "" && relNano[w] == 0:
						prob = "an amount of " + w + "s is added as a duration"
					}
				}
				name := key
				if slot[k] != "" {
					name += " " + slot[k]
				}
				r.add(prob == "", "unit-slot", name, p.instrPos(i), okOr(prob, "counted in "+u.String()))
				q.direction(name, i, a, words, notAgo, inOrFuture, agoOrNotIn, agoOrNotFuture)
			}
		})
	}
	r.Analysed["amounts that move the date"] = sites
	if !all["?"] {
		missing := ""
		for _, u := range relOrder {
			if !all[u] {
				missing = u
			}
		}
		r.add(missing == "", "all-units", "units", "-", okOr(map[bool]string{true: "an amount of " + missing + "s does not move the date"}[missing != ""], "every unit moves the date"))
	}
	for v, prob := range q.probs {
		i := v.(ssa.Instruction)
		r.bad("conversion", fnKey(i.Parent())+": "+prob, p.instrPos(i), prob)
	}
	q.probs = map[ssa.Value]string{}
	for _, w := range []string{"ago", "in"} {
		r.add(words[w], "direction", "asks for "+w, "-", okOr(map[bool]string{false: "nothing asks the text for the word '" + w + "' itself"}[words[w]], "the word is looked for"))
	}
}

func (q *relAnalysis) direction(name string, i ssa.Instruction, a ssa.Value, words map[string]bool, notAgo, inOrFuture, agoOrNotIn, agoOrNotFuture *edgeImplies) {
	prob := ""
	n := 0
	for _, s := range q.signs(a, i.Block(), relWay{{i.Block(), nil}}, false, 0) {
		n++
		need := func(e *edgeImplies, word string, why string) {
			if (word == "" || words[word]) && prob == "" && !q.onWay(e, s.way) {
				prob = why
			}
		}
		if s.neg {
			need(agoOrNotIn, "in", "the date is moved backwards although the text can say 'in' and not 'ago'")
			need(agoOrNotFuture, "ago", "the date is moved backwards although the future is preferred and the text need not say 'ago'")
		} else {
			need(notAgo, "ago", "the date is moved forwards although the text can say 'ago'")
			need(inOrFuture, "in", "the date is moved forwards although the text need not say 'in' and the future need not be preferred")
		}
	}
	if n > 0 {
		q.r.add(prob == "", "direction", name, q.p.instrPos(i), okOr(prob, itoa(n)+" ways with a sign"))
	}
}

// onWay: the fact holds whenever the value takes this way.
func (q *relAnalysis) onWay(e *edgeImplies, way relWay) bool {
	for n, st := range way {
		if st.to != nil {
			for k, s := range st.at.Succs {
				if s == st.to && e.edge(st.at, k) {
					return true
				}
			}
		}
		if n+1 < len(way) && way[n+1].to != nil && way[n+1].to.Parent() == st.at.Parent() && cutPaths(way[n+1].to, st.at, e.edge) {
			return true
		}
		last := n+1 == len(way) || way[n+1].at.Parent() != st.at.Parent()
		if last && q.always(e, st.at, map[*ssa.Function]bool{}) {
			return true
		}
	}
	return false
}

// always: the fact holds wherever the block is reached.
func (q *relAnalysis) always(e *edgeImplies, b *ssa.BasicBlock, busy map[*ssa.Function]bool) bool {
	f := b.Parent()
	if cutPaths(f.Blocks[0], b, e.edge) {
		return true
	}
	// decided by a value handed to the function: not followed
	for _, g := range deepFacts(facts(b)) {
		if dependsOn(g.Cond, func(v ssa.Value) bool {
			pa, ok := v.(*ssa.Parameter)
			return ok && (isBool(pa.Type()) || isInt(pa.Type()))
		}, map[ssa.Value]bool{}) {
			return true
		}
	}
	if busy[f] {
		return true
	}
	busy[f] = true
	n := 0
	for _, s := range q.p.callSites(f) {
		if !q.in[s.Parent()] {
			return false
		}
		n++
		if !q.always(e, s.Block(), busy) {
			return false
		}
	}
	return n > 0
}

// conversions decides the entries of the map of amounts.
func (q *relAnalysis) conversions() {
	p, r := q.p, q.r
	n := map[string]int{}
	var decide func(mu *ssa.MapUpdate, c *relCtx, f *ssa.Function, pos string, depth int)
	decide = func(mu *ssa.MapUpdate, c *relCtx, f *ssa.Function, pos string, depth int) {
		key := q.keyOf(mu.Key, mu.Block(), c)
		if key == "" {
			pa, ok := mu.Key.(*ssa.Parameter)
			if !ok || c != nil || depth > 2 {
				return
			}
			for _, s := range p.callSites(pa.Parent()) {
				if q.in[s.Parent()] {
					decide(mu, &relCtx{s, nil}, s.Parent(), p.instrPos(s), depth+1)
				}
			}
			return
		}
		q.sink = mu.Block()
		if c != nil {
			q.sink = c.site.Block()
		}
		u := q.units(mu.Value, mu.Block(), c, map[relKey]bool{})
		q.sink = nil
		if len(u) == 0 {
			return
		}
		prob := ""
		for w := range u {
			if w != "?" && w != key {
				prob = "an amount counted in " + w + "s is entered as " + key + "s"
			}
		}
		if _, known := relFactor[key]; !known {
			return
		}
		for v, why := range q.probs {
			prob = why
			delete(q.probs, v)
		}
		if prob == "" && q.overwrites(mu, c) {
			prob = "a converted amount replaces the amount of " + key + "s written in the text"
		}
		k := fnKey(f) + " enters " + key
		n[k]++
		r.add(prob == "", "conversion", k+" "+itoa(n[k]), pos, okOr(prob, "counted in "+u.String()))
	}
	for _, f := range q.fns {
		eachInstr(f, func(i ssa.Instruction) {
			mu, ok := i.(*ssa.MapUpdate)
			if !ok || !isAmountMap(mu.Map.Type()) {
				return
			}
			decide(mu, nil, f, p.instrPos(i), 0)
			// amounts of the text
			ku, ki := groupOf(mu.Key)
			if ku == nil {
				return
			}
			prob := ""
			hit := false
			group := int64(0)
			dependsOn(mu.Value, func(v ssa.Value) bool {
				vu, vi := groupOf(v)
				if vu != nil {
					hit = true
					group = vi
					switch {
					case vu != ku && !sameLoad(vu, ku):
						prob = "the amount and the unit come from different matches"
					case vi == ki:
						prob = "the amount is the text of the unit"
					case vi == 0:
						prob = "the amount is the whole match"
					}
				}
				return false
			}, map[ssa.Value]bool{})
			if hit {
				r.add(prob == "", "amount", fnKey(f), p.instrPos(i), okOr(prob, "the amount of the same match"))
				q.amountPattern(f, mu, ku, ki, group)
			}
		})
	}
}

// overwrites: a product is entered under a key without what the key already holds.
func (q *relAnalysis) overwrites(mu *ssa.MapUpdate, c *relCtx) bool {
	if c != nil {
		return false
	}
	made, kept := false, false
	var walk func(v ssa.Value, depth int)
	seen := map[ssa.Value]bool{}
	walk = func(v ssa.Value, depth int) {
		if seen[v] || depth > 12 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.BinOp:
			if x.Op == token.MUL {
				k, ok := constFloat(x.Y)
				if !ok {
					k, ok = constFloat(x.X)
				}
				if ok && k > 1 {
					made = true
					return
				}
			}
			walk(x.X, depth+1)
			walk(x.Y, depth+1)
		case *ssa.UnOp:
			if x.Op == token.SUB {
				walk(x.X, depth+1)
			} else {
				kept = true // a variable: not followed
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, depth+1)
			}
		case *ssa.Convert:
			walk(x.X, depth+1)
		case *ssa.Lookup, *ssa.Parameter, *ssa.FreeVar:
			kept = true
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				for _, a := range cl.Call.Args {
					if isAmountMap(a.Type()) {
						kept = true
					}
					walk(a, depth+1)
				}
			} else {
				kept = true
			}
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if isAmountMap(a.Type()) {
					kept = true
				}
				walk(a, depth+1)
			}
		}
	}
	walk(mu.Value, 0)
	if !made || kept {
		return false
	}
	// only entered where the key is absent
	key, _ := constText(mu.Key)
	for _, f := range deepFacts(facts(mu.Block())) {
		if q.exists(f.Cond) == key && !f.Val {
			return false
		}
	}
	return true
}

// amountPattern decides the pattern amounts are found with, and that a decimal comma is understood.
func (q *relAnalysis) amountPattern(f *ssa.Function, mu *ssa.MapUpdate, ku ssa.Value, ki, vi int64) {
	var g *ssa.Global
	dependsOn(ku, func(v ssa.Value) bool {
		if cl, ok := v.(*ssa.Call); ok && strings.Contains(calleeName(cl.Common()), "Regexp).Find") {
			if u, ok := cl.Call.Args[0].(*ssa.UnOp); ok {
				if gl, ok := u.X.(*ssa.Global); ok {
					g = gl
				}
			}
		}
		return false
	}, map[ssa.Value]bool{})
	if g == nil {
		return
	}
	c, ok := q.p.initValue(g).(*ssa.Call)
	if !ok || len(c.Call.Args) != 1 {
		return
	}
	s, ok := q.text(c.Call.Args[0], 0)
	if !ok {
		return
	}
	rx, err := regexp.Compile(s)
	if err != nil {
		return
	}
	prob := ""
	for u := range relFactor {
		for _, n := range []string{"1", "25", "1.5", "10.25"} {
			for _, sp := range []string{"", " "} {
				m := rx.FindStringSubmatch("in " + n + sp + u)
				if prob == "" && (int64(len(m)) <= max(ki, vi) || m[ki] != u || m[vi] != n) {
					prob = "'" + n + sp + u + "' is not found as " + n + " and " + u
				}
			}
		}
	}
	m := rx.FindStringSubmatch("1,5 hour")
	if prob == "" && int64(len(m)) > max(ki, vi) && m[vi] == "1,5" {
		// the comma has to become a point
		changed := false
		dependsOn(mu.Value, func(v ssa.Value) bool {
			if cl, ok := v.(*ssa.Call); ok && cl.Call.StaticCallee() != nil && !strings.HasPrefix(calleeName(cl.Common()), "strconv.") && !strings.Contains(calleeName(cl.Common()), "Regexp).") {
				changed = true
			}
			return false
		}, map[ssa.Value]bool{})
		if !changed {
			prob = "an amount with a decimal comma is found but not understood"
		}
	}
	q.r.add(prob == "", "amount", fnKey(f)+": pattern", q.p.pos(g.Pos()), okOr(prob, "whole and fractional amounts of every unit are found"))
}

// groupOf recognises a text that is a group of a match, by constant index.
func groupOf(v ssa.Value) (ssa.Value, int64) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || !isString(u.Type()) {
		return nil, 0
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil, 0
	}
	k, ok := constInt(ia.Index)
	if !ok {
		return nil, 0
	}
	return ia.X, k
}

// exists is the unit whose presence a condition asks for.
func (q *relAnalysis) exists(v ssa.Value) string {
	if e, ok := v.(*ssa.Extract); ok && e.Index == 1 {
		if l, ok := e.Tuple.(*ssa.Lookup); ok && isAmountMap(l.X.Type()) {
			s, _ := constText(l.Index)
			return s
		}
	}
	cl, ok := v.(*ssa.Call)
	if !ok || !isBool(v.Type()) {
		return ""
	}
	key, m := "", false
	for _, a := range cl.Call.Args {
		if s, ok := constText(a); ok {
			key = s
		}
		m = m || isAmountMap(a.Type())
	}
	if !m {
		return ""
	}
	return key
}

type relLeaf struct {
	v   ssa.Value
	way relWay
}

// periods decides the period returned.
func (q *relAnalysis) periods() {
	for _, f := range q.fns {
		asks := false
		eachInstr(f, func(i ssa.Instruction) {
			if v, ok := i.(ssa.Value); ok && q.exists(v) != "" {
				asks = true
			}
		})
		if !asks {
			continue
		}
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for _, res := range ret.Results {
				if !typeIs(res.Type(), modPath+"/date", "Period") {
					continue
				}
				var leaves []relLeaf
				known := true
				var walk func(v ssa.Value, way relWay)
				walk = func(v ssa.Value, way relWay) {
					switch x := v.(type) {
					case *ssa.Phi:
						if len(way) > 12 || len(leaves) > 100 {
							known = false
							return
						}
						for i, e := range x.Edges {
							walk(e, way.over(x.Block().Preds[i], x.Block()))
						}
					case *ssa.Const:
						leaves = append(leaves, relLeaf{v, way})
					default:
						known = false
					}
				}
				walk(res, relWay{{b, nil}})
				if !known {
					continue
				}
				for _, l := range leaves {
					q.period(f, l, ret)
				}
			}
		}
	}
}

func (q *relAnalysis) period(f *ssa.Function, l relLeaf, ret *ssa.Return) {
	c := l.v.(*ssa.Const)
	n, ok := c.Type().(*types.Named)
	if !ok || c.Value == nil {
		return
	}
	unit := ""
	for _, u := range relOrder {
		name := strings.ToUpper(u[:1]) + u[1:]
		if k, ok := n.Obj().Pkg().Scope().Lookup(name).(*types.Const); ok && constant.Compare(k.Val(), token.EQL, c.Value) {
			unit = u
		}
	}
	if k, ok := constant.Int64Val(c.Value); unit == "" || ok && k == 0 {
		return
	}
	need := func(has string, not string) bool {
		e := q.p.implies(func(f Fact) bool {
			w := q.exists(f.Cond)
			return w != "" && (w == has && f.Val || w == not && !f.Val)
		})
		for n, st := range l.way {
			if st.to != nil {
				for k, s := range st.at.Succs {
					if s == st.to && e.edge(st.at, k) {
						return true
					}
				}
			}
			if n+1 < len(l.way) && cutPaths(l.way[n+1].to, st.at, e.edge) {
				return true
			}
			if n+1 == len(l.way) && cutPaths(f.Blocks[0], st.at, e.edge) {
				return true
			}
		}
		return false
	}
	prob := ""
	finer := true
	for _, u := range relOrder {
		if u == unit {
			finer = false
			continue
		}
		switch {
		case finer && !need("", u):
			prob = "the period is a " + unit + " although there can be " + u + "s"
		case !finer && !need(unit, u) && unit == "day":
			prob = "the period is a day although there can be " + u + "s and no days"
		}
	}
	if unit != "day" && !need(unit, "") {
		prob = "the period is a " + unit + " although there need not be any"
	}
	q.r.add(prob == "", "period", fnKey(f)+": "+unit, q.p.instrPos(ret), okOr(prob, "the finest unit"))
}

// everyWay: whichever way the date is made, the same amounts move it.
func (q *relAnalysis) everyWay() {
	for _, f := range q.fns {
		type leaf struct {
			u   relUnits
			pos string
		}
		var leaves []leaf
		all := relUnits{}
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for _, res := range ret.Results {
				if !typeIs(res.Type(), "time", "Time") {
					continue
				}
				for _, u := range q.ways(res, b, 0) {
					if len(u) > 0 {
						all.add(u)
						leaves = append(leaves, leaf{u, q.p.instrPos(ret)})
					}
				}
			}
		}
		if len(all) == 0 || all["?"] {
			continue
		}
		// an amount asked for by a condition may be left out
		asked := relUnits{}
		eachInstr(f, func(i ssa.Instruction) {
			if bo, ok := i.(*ssa.BinOp); ok && isBool(bo.Type()) {
				asked.add(q.units(bo.X, i.Block(), nil, map[relKey]bool{}))
				asked.add(q.units(bo.Y, i.Block(), nil, map[relKey]bool{}))
			}
			if v, ok := i.(ssa.Value); ok {
				if w := q.exists(v); w != "" && len(*v.Referrers()) > 0 {
					for _, use := range *v.Referrers() {
						if iff, ok := use.(*ssa.If); ok && movesUnder(iff) {
							asked[w] = true
						}
					}
				}
			}
		})
		for _, l := range leaves {
			prob := ""
			for u := range all {
				if !l.u[u] && !asked[u] {
					prob = "one of the ways the date is made leaves out the " + u + "s"
				}
			}
			q.r.add(prob == "", "every-way", fnKey(f), l.pos, okOr(prob, "moved by "+l.u.String()))
		}
	}
}

// movesUnder: a date is moved right after the branch.
func movesUnder(iff *ssa.If) bool {
	for _, b := range iff.Block().Succs {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok && typeIs(v.Type(), "time", "Time") {
				return true
			}
		}
	}
	return false
}

// ways: the units of the amounts that went into a date, for each way it can be made.
func (q *relAnalysis) ways(v ssa.Value, at *ssa.BasicBlock, depth int) []relUnits {
	if depth > 14 {
		return []relUnits{{"?": true}}
	}
	with := func(base []relUnits, args ...ssa.Value) []relUnits {
		u := relUnits{}
		for _, a := range args {
			u.add(q.units(a, at, nil, map[relKey]bool{}))
		}
		var out []relUnits
		for _, b := range base {
			w := relUnits{}
			w.add(b)
			w.add(u)
			out = append(out, w)
		}
		if len(out) > 60 {
			return []relUnits{{"?": true}}
		}
		return out
	}
	switch x := v.(type) {
	case *ssa.Phi:
		var out []relUnits
		for i, e := range x.Edges {
			if x.Block().Dominates(x.Block().Preds[i]) {
				return []relUnits{{"?": true}} // a loop
			}
			out = append(out, q.ways(e, x.Block().Preds[i], depth+1)...)
		}
		return out
	case *ssa.Parameter, *ssa.Const:
		return []relUnits{{}}
	case *ssa.UnOp, *ssa.Field, *ssa.FreeVar:
		return []relUnits{{}}
	case *ssa.Extract:
		return q.ways(x.Tuple, at, depth+1)
	case *ssa.Call:
		n := calleeName(x.Common())
		switch n {
		case "(time.Time).Add", "(time.Time).AddDate":
			return with(q.ways(x.Call.Args[0], at, depth+1), x.Call.Args[1:]...)
		case "time.Date":
			// the date its parts are taken from
			base := []relUnits{{}}
			seen := map[ssa.Value]bool{}
			for _, a := range x.Call.Args {
				dependsOn(a, func(w ssa.Value) bool {
					if cl, ok := w.(*ssa.Call); ok && strings.HasPrefix(calleeName(cl.Common()), "(time.Time).") && !seen[cl.Call.Args[0]] {
						seen[cl.Call.Args[0]] = true
						if typeIs(cl.Type(), "time", "Time") {
							return false
						}
						var out []relUnits
						for _, u := range q.ways(cl.Call.Args[0], cl.Block(), depth+1) {
							for _, b := range base {
								w := relUnits{}
								w.add(b)
								w.add(u)
								out = append(out, w)
							}
						}
						if base = out; len(out) > 60 {
							base = []relUnits{{"?": true}}
						}
					}
					return false
				}, map[ssa.Value]bool{})
			}
			return with(base, x.Call.Args[:3]...)
		}
		if strings.HasPrefix(n, "(time.Time).") {
			return q.ways(x.Call.Args[0], at, depth+1)
		}
		if g := x.Call.StaticCallee(); g != nil && q.in[g] {
			base := []relUnits{{}}
			var amounts []ssa.Value
			for _, a := range x.Call.Args {
				switch t := a.Type().Underlying().(type) {
				case *types.Basic:
					if t.Info()&types.IsNumeric != 0 {
						amounts = append(amounts, a)
					}
				case *types.Map:
					return []relUnits{{"?": true}}
				}
				if typeIs(a.Type(), "time", "Time") {
					base = q.ways(a, at, depth+1)
				}
			}
			return with(base, amounts...)
		}
		return []relUnits{{}}
	}
	return []relUnits{{"?": true}}
}

// carries decides what becomes of an amount that is split into whole and fraction: both parts are used, and
// a whole amount that is entered under its own unit is not also carried into smaller ones.
func (q *relAnalysis) carries() {
	for _, f := range q.fns {
		n := 0
		eachInstr(f, func(i ssa.Instruction) {
			e, ok := i.(*ssa.Extract)
			if !ok || e.Referrers() == nil || len(*e.Referrers()) == 0 {
				return
			}
			b, ok := e.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsFloat == 0 {
				return
			}
			cl, ok := e.Tuple.(*ssa.Call)
			if !ok {
				return
			}
			g := cl.Call.StaticCallee()
			if g == nil || !q.in[g] && calleeName(cl.Common()) != "math.Modf" {
				return
			}
			own, mul := false, false
			used := reaches(e, func(at ssa.Instruction, v ssa.Value) bool {
				switch x := at.(type) {
				case *ssa.BinOp:
					if x.Op == token.MUL {
						for u := range q.units(e, i.Block(), nil, map[relKey]bool{}) {
							for _, o := range []ssa.Value{x.X, x.Y} {
								if k, ok := constFloat(o); ok && (relFactor[u][k] != "" || u == "?" && k > 1) {
									mul = true
								}
							}
						}
						return true
					}
				case *ssa.MapUpdate:
					own = true
					return true
				case *ssa.Call:
					for _, a := range x.Call.Args {
						own = own || isAmountMap(a.Type())
					}
					return true
				case *ssa.Return, *ssa.Store, *ssa.MakeInterface:
					return true
				}
				return false
			}, map[ssa.Value]bool{})
			n++
			prob := ""
			switch {
			case !used:
				prob = "a part of an amount that was split is dropped"
			case own && mul:
				prob = "an amount is entered under its own unit and carried into a smaller one as well"
			}
			q.r.add(prob == "", "carry", fnKey(f)+" "+itoa(n), q.p.instrPos(cl), okOr(prob, "used once"))
		})
	}
}

// reaches follows the uses of a value through signs, sums and joins; end says which uses count. All uses are visited.
func reaches(v ssa.Value, end func(ssa.Instruction, ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	hit := false
	for _, u := range *v.Referrers() {
		if end(u, v) {
			hit = true
			continue
		}
		switch x := u.(type) {
		case *ssa.BinOp:
			if isBool(x.Type()) {
				continue
			}
			hit = reaches(x, end, seen) || hit
		case *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.Phi:
			hit = reaches(u.(ssa.Value), end, seen) || hit
		}
	}
	return hit
}
