package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkC11 }

// A value seen from inside a chain of calls: parameters stand for the arguments at the call site.
type cval struct {
	v ssa.Value
	c *cctx
}

type cctx struct {
	site ssa.CallInstruction
	fn   *ssa.Function
	up   *cctx
	n    int
}

// res looks through conversions, parameters and local copies.
func (x cval) res() cval {
	for k := 0; k < 40; k++ {
		switch y := x.v.(type) {
		case *ssa.Convert:
			x.v = y.X
			continue
		case *ssa.ChangeType:
			x.v = y.X
			continue
		case *ssa.Parameter:
			if x.c != nil && x.c.site != nil && x.c.fn == y.Parent() {
				if a := argFor(x.c.site, y); a != nil {
					x = cval{a, x.c.up}
					continue
				}
			}
		case *ssa.UnOp:
			if y.Op == token.MUL {
				if al, ok := y.X.(*ssa.Alloc); ok {
					st := storesInto(al, 0)
					if len(st) == 1 && st[0].Addr == ssa.Value(al) && dominates(st[0], y) {
						x.v = st[0].Val
						continue
					}
				}
			}
		}
		break
	}
	return x
}

// timePart: the value is the year (0), month (1) or day (2) of a time; recv is that time.
func timePart(x cval) (recv cval, part int, ok bool) {
	x = x.res()
	switch y := x.v.(type) {
	case *ssa.Call:
		if len(y.Call.Args) == 0 {
			return
		}
		switch calleeName(y.Common()) {
		case "(time.Time).Year":
			return cval{y.Call.Args[0], x.c}, 0, true
		case "(time.Time).Month":
			return cval{y.Call.Args[0], x.c}, 1, true
		case "(time.Time).Day":
			return cval{y.Call.Args[0], x.c}, 2, true
		}
	case *ssa.Extract:
		if cl, isC := y.Tuple.(*ssa.Call); isC && calleeName(cl.Common()) == "(time.Time).Date" {
			return cval{cl.Call.Args[0], x.c}, y.Index, true
		}
	}
	return
}

// sameVal: both values are equal whenever both are computed.
func sameVal(a, b cval) bool { return sameValDepth(a, b, 0) }

func sameValDepth(a, b cval, depth int) bool {
	if depth > 8 {
		return false
	}
	a, b = a.res(), b.res()
	if a.v == b.v && a.c == b.c {
		return true
	}
	if ka, ok := constInt(a.v); ok {
		kb, ok2 := constInt(b.v)
		return ok2 && ka == kb
	}
	if ra, pa, ok := timePart(a); ok {
		rb, pb, ok2 := timePart(b)
		return ok2 && pa == pb && sameValDepth(ra, rb, depth+1)
	}
	switch x := a.v.(type) {
	case *ssa.BinOp:
		y, ok := b.v.(*ssa.BinOp)
		if !ok || x.Op != y.Op {
			return false
		}
		if sameValDepth(cval{x.X, a.c}, cval{y.X, b.c}, depth+1) && sameValDepth(cval{x.Y, a.c}, cval{y.Y, b.c}, depth+1) {
			return true
		}
		return x.Op == token.ADD && sameValDepth(cval{x.X, a.c}, cval{y.Y, b.c}, depth+1) && sameValDepth(cval{x.Y, a.c}, cval{y.X, b.c}, depth+1)
	case *ssa.Lookup:
		y, ok := b.v.(*ssa.Lookup)
		if !ok || x.CommaOk != y.CommaOk || a.c != b.c {
			return false
		}
		return x.X == y.X && (x.Index == y.Index || sameConst(x.Index, y.Index))
	case *ssa.Extract:
		y, ok := b.v.(*ssa.Extract)
		return ok && x.Index == y.Index && a.c == b.c && x.Tuple == y.Tuple
	case *ssa.UnOp:
		y, ok := b.v.(*ssa.UnOp)
		if !ok || x.Op != y.Op {
			return false
		}
		if x.Op == token.MUL {
			return a.c == b.c && (sameLoad(x, y) || sameAddr(x.X, y.X))
		}
		return sameValDepth(cval{x.X, a.c}, cval{y.X, b.c}, depth+1)
	case *ssa.Field:
		y, ok := b.v.(*ssa.Field)
		return ok && x.Field == y.Field && sameValDepth(cval{x.X, a.c}, cval{y.X, b.c}, depth+1)
	}
	return false
}

// monthEnd decides whether days fit into months.
type monthEnd struct {
	p *Prog
	// functions computing the last day of a month: parameter indexes of year and month
	lastFn    map[*ssa.Function][2]int
	notFn     map[*ssa.Function]string
	leapFn    map[*ssa.Function]int
	gregorian bool
}

// linear time expressions: the c-th day of month m+k of year y.
type timeExpr struct {
	y, m cval
	base *cval // or: year and month of this time
	k, c int64
	ok   bool
}

func (e timeExpr) isYM(y, m cval) bool {
	if e.base != nil {
		ry, py, ok1 := timePart(y)
		rm, pm, ok2 := timePart(m)
		return ok1 && ok2 && py == 0 && pm == 1 && sameVal(ry, *e.base) && sameVal(rm, *e.base)
	}
	return sameVal(e.y, y) && sameVal(e.m, m)
}

func (q *monthEnd) timeExpr(x cval) timeExpr {
	x = x.res()
	cl, ok := x.v.(*ssa.Call)
	if !ok {
		return timeExpr{}
	}
	switch calleeName(cl.Common()) {
	case "time.Date":
		d, isC := constInt(cl.Call.Args[2])
		if !isC {
			return timeExpr{}
		}
		m := cval{cl.Call.Args[1], x.c}.res()
		k := int64(0)
		if bo, isB := m.v.(*ssa.BinOp); isB && (bo.Op == token.ADD || bo.Op == token.SUB) {
			if n, isN := constInt(bo.Y); isN {
				k = n
				if bo.Op == token.SUB {
					k = -n
				}
				m = cval{bo.X, m.c}
			} else if n, isN := constInt(bo.X); isN && bo.Op == token.ADD {
				k = n
				m = cval{bo.Y, m.c}
			}
		}
		return timeExpr{y: cval{cl.Call.Args[0], x.c}, m: m, k: k, c: d, ok: true}
	case "(time.Time).AddDate":
		yy, ok1 := constInt(cl.Call.Args[1])
		mm, ok2 := constInt(cl.Call.Args[2])
		if !ok1 || !ok2 || yy != 0 {
			return timeExpr{}
		}
		recv := cval{cl.Call.Args[0], x.c}
		// t.AddDate(0, k, -t.Day()): day 0 of month k
		if neg, isU := cl.Call.Args[3].(*ssa.UnOp); isU && neg.Op == token.SUB {
			if r, part, isP := timePart(cval{neg.X, x.c}); isP && part == 2 && sameVal(r, recv) {
				return timeExpr{base: &recv, k: mm, c: 0, ok: true}
			}
		}
		dd, ok3 := constInt(cl.Call.Args[3])
		e := q.timeExpr(recv)
		if ok3 && e.ok && e.c >= 1 && e.c <= 28 {
			e.k += mm
			e.c += dd
			return e
		}
		// t.AddDate(0, 0, 1-t.Day()) is the first of the month
		if bo, isB := cl.Call.Args[3].(*ssa.BinOp); isB && bo.Op == token.SUB {
			if n, isN := constInt(bo.X); isN {
				if r, part, isP := timePart(cval{bo.Y, x.c}); isP && part == 2 && sameVal(r, recv) {
					return timeExpr{base: &recv, k: mm, c: n, ok: true}
				}
			}
		}
	}
	return timeExpr{}
}

// lastDay: the value is the number of the last day of month m of year y.
func (q *monthEnd) lastDay(l, y, m cval) bool {
	l = l.res()
	if r, part, ok := timePart(l); ok && part == 2 {
		e := q.timeExpr(r)
		return e.ok && e.k == 1 && e.c == 0 && e.isYM(y, m)
	}
	cl, _ := callResult(l.v)
	if cl == nil {
		return false
	}
	g := cl.Call.StaticCallee()
	if g == nil {
		return false
	}
	if !q.p.inRepo(g) {
		// the calendar library's own month length
		return !q.gregorian && len(cl.Call.Args) == 2 && sameVal(cval{cl.Call.Args[0], l.c}, y) && sameVal(cval{cl.Call.Args[1], l.c}, m)
	}
	ix, ok := q.lastDayFn(g)
	return ok && sameVal(cval{cl.Call.Args[ix[0]], l.c}, y) && sameVal(cval{cl.Call.Args[ix[1]], l.c}, m)
}

// lastDayFn: the function returns the last day of the month given by two of its parameters.
func (q *monthEnd) lastDayFn(g *ssa.Function) ([2]int, bool) {
	if ix, ok := q.lastFn[g]; ok {
		return ix, true
	}
	if _, bad := q.notFn[g]; bad {
		return [2]int{}, false
	}
	q.notFn[g] = "being decided"
	if len(g.Blocks) == 0 || g.Signature.Results().Len() < 1 || !isInt(g.Signature.Results().At(0).Type()) || len(g.Params) < 2 {
		return [2]int{}, false
	}
	foreign := strings.Contains(pkgOf(g), "/hijri") || strings.Contains(pkgOf(g), "/jalali")
	for yi, yp := range g.Params {
		for mi, mp := range g.Params {
			if yi == mi || !isInt(yp.Type()) || !isInt(mp.Type()) {
				continue
			}
			all, n := true, 0
			for _, ret := range returnsOf(g) {
				n++
				if !q.lastDay(cval{v: retValues(ret)[0]}, cval{v: yp}, cval{v: mp}) {
					all = false
				}
			}
			if all && n > 0 {
				q.lastFn[g] = [2]int{yi, mi}
				delete(q.notFn, g)
				return q.lastFn[g], true
			}
		}
	}
	// a function that computes the length itself: its arithmetic is not decided here
	if foreign == !q.gregorian && len(g.Params) == 2 && isInt(g.Params[0].Type()) && isInt(g.Params[1].Type()) && q.ownLength(g, foreign) {
		q.lastFn[g] = [2]int{0, 1}
		delete(q.notFn, g)
		return q.lastFn[g], true
	}
	q.notFn[g] = "not the last day of a month"
	return [2]int{}, false
}

// ownLength: the function only returns month lengths (28 to 31), each result constant, table or call.
func (q *monthEnd) ownLength(g *ssa.Function, foreign bool) bool {
	some := false
	for _, ret := range returnsOf(g) {
		var walk func(v ssa.Value, d int) bool
		walk = func(v ssa.Value, d int) bool {
			if d > 6 {
				return false
			}
			if n, ok := constInt(v); ok {
				some = some || n >= 29
				return n >= 28 && n <= 31 || n == 0
			}
			switch x := v.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					if !walk(e, d+1) {
						return false
					}
				}
				return true
			case *ssa.UnOp:
				_, isIA := x.X.(*ssa.IndexAddr)
				some = some || isIA
				return isIA
			case *ssa.Lookup, *ssa.Index:
				some = true
				return true
			case *ssa.BinOp:
				return walk(x.X, d+1)
			case *ssa.Convert:
				return walk(x.X, d+1)
			case *ssa.Call, *ssa.Extract:
				return foreign
			}
			return false
		}
		if !walk(retValues(ret)[0], 0) {
			return false
		}
	}
	return some
}

// cfact is a fact seen from inside a chain of calls.
type cfact struct {
	Fact
	c *cctx
}

func inCtx(fs []Fact, c *cctx) (out []cfact) {
	for _, f := range fs {
		out = append(out, cfact{f, c})
	}
	return
}

// ways: what is known at the start of b, for each way of getting there.
func ways(b *ssa.BasicBlock, c *cctx, depth int) [][]cfact {
	base := inCtx(deepFacts(facts(b)), c)
	if depth > 3 || len(b.Preds) < 2 {
		return [][]cfact{base}
	}
	for _, pr := range b.Preds {
		if b.Dominates(pr) {
			return [][]cfact{base}
		}
	}
	var out [][]cfact
	for _, pr := range b.Preds {
		for j, s := range pr.Succs {
			if s != b {
				continue
			}
			for _, w := range ways(pr, c, depth+1) {
				out = append(out, append(append(append([]cfact{}, base...), inCtx(edgeFacts(pr, j), c)...), w...))
			}
		}
	}
	if len(out) > 40 {
		return [][]cfact{base}
	}
	return out
}

// means: whenever v is val, base holds.
func (q *monthEnd) means(f cfact, base func(cfact) bool, depth int) bool {
	if base(f) {
		return true
	}
	if depth > 6 {
		return false
	}
	if k, ok := constBool(f.Cond); ok {
		return k != f.Val
	}
	switch x := f.Cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return q.means(cfact{Fact{x.X, !f.Val}, f.c}, base, depth+1)
		}
	case *ssa.Parameter:
		r := cval{x, f.c}.res()
		if r.v != ssa.Value(x) {
			return q.means(cfact{Fact{r.v, f.Val}, r.c}, base, depth+1)
		}
	case *ssa.Phi:
		if inLoopPhi(x) {
			return false
		}
		for k, e := range x.Edges {
			if q.means(cfact{Fact{e, f.Val}, f.c}, base, depth+1) {
				continue
			}
			if !q.meansOne(edgeWays(x.Block(), k, f.c), base, depth+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	}
	cl, idx := callResult(f.Cond)
	if cl == nil || !isBool(f.Cond.Type()) || f.c != nil && f.c.n > 4 {
		return false
	}
	g := cl.Call.StaticCallee()
	if g == nil || !q.p.inRepo(g) || len(g.Blocks) == 0 {
		return false
	}
	n := 0
	if f.c != nil {
		n = f.c.n
	}
	cc := &cctx{cl, g, f.c, n + 1}
	for _, ret := range returnsOf(g) {
		vs := retValues(ret)
		if idx >= len(vs) {
			return false
		}
		if q.means(cfact{Fact{vs[idx], f.Val}, cc}, base, depth+1) {
			continue
		}
		if !q.meansOne(ways(ret.Block(), cc, 0), base, depth+1) {
			return false
		}
	}
	return true
}

// meansOne: each way includes a fact that means base.
func (q *monthEnd) meansOne(ws [][]cfact, base func(cfact) bool, depth int) bool {
	for _, w := range ws {
		some := false
		for _, f := range w {
			if q.means(f, base, depth) {
				some = true
				break
			}
		}
		if !some {
			return false
		}
	}
	return len(ws) > 0
}

// edgeWays: what is known when b is entered from its k-th predecessor.
func edgeWays(b *ssa.BasicBlock, k int, c *cctx) [][]cfact {
	pr := b.Preds[k]
	var out [][]cfact
	for j, s := range pr.Succs {
		if s != b {
			continue
		}
		for _, w := range ways(pr, c, 1) {
			out = append(out, append(inCtx(deepFacts(edgeFacts(pr, j)), c), w...))
		}
	}
	return out
}

// atMost: the fact says d <= L; returns L.
func atMost(f cfact, d cval) []cval {
	bo, ok := f.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	op := bo.Op
	if !f.Val {
		switch op {
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		default:
			return nil
		}
	}
	x, y := cval{bo.X, f.c}, cval{bo.Y, f.c}
	switch op {
	case token.LEQ, token.LSS, token.EQL:
		if sameVal(x, d) {
			return []cval{y}
		}
	}
	switch op {
	case token.GEQ, token.GTR, token.EQL:
		if sameVal(y, d) {
			return []cval{x}
		}
	}
	return nil
}

// fits: day d exists in month m of year y, given the facts.
func (q *monthEnd) fits(y, m, d cval, fs []cfact, depth int) bool {
	if depth > 10 {
		return false
	}
	y, m, d = y.res(), m.res(), d.res()
	if n, ok := constInt(d.v); ok {
		if n >= 1 && n <= 28 {
			return true
		}
		return false
	}
	// all three parts of the same date
	if ry, py, ok := timePart(y); ok && py == 0 {
		rm, pm, ok1 := timePart(m)
		rd, pd, ok2 := timePart(d)
		if ok1 && ok2 && pm == 1 && pd == 2 && sameVal(ry, rm) && sameVal(ry, rd) {
			return true
		}
	}
	// the three results of one conversion by a calendar library
	if cy, iy := callResult(y.v); cy != nil {
		cm, im := callResult(m.v)
		cd, id := callResult(d.v)
		if cy == cm && cm == cd && iy+1 == im && im+1 == id && cy.Call.StaticCallee() != nil && !q.p.inRepo(cy.Call.StaticCallee()) {
			return true
		}
	}
	if q.lastDay(d, y, m) {
		return true
	}
	for _, f := range fs {
		for _, l := range atMost(f, d) {
			if q.lastDay(l, y, m) {
				return true
			}
		}
		// the calendar library does not know the month: the conversion fails as well
		if v, isNil, known := nilFact(f.Fact); known && !isNil && !q.gregorian {
			if cl, _ := callResult(v); cl != nil && len(cl.Call.Args) == 2 && sameVal(cval{cl.Call.Args[0], f.c}, y) {
				return true
			}
		}
	}
	if q.leapSafe(y, m, d, fs, depth) {
		return true
	}
	// calls: min and helpers that limit the day
	if cl, ok := d.v.(*ssa.Call); ok {
		if b, isB := cl.Call.Value.(*ssa.Builtin); isB {
			if b.Name() == "min" {
				for _, a := range cl.Call.Args {
					if q.lastDay(cval{a, d.c}, y, m) {
						return true
					}
				}
				for _, a := range cl.Call.Args {
					if q.fits(y, m, cval{a, d.c}, fs, depth+1) {
						return true
					}
				}
			}
			if b.Name() == "max" {
				for _, a := range cl.Call.Args {
					if !q.fits(y, m, cval{a, d.c}, fs, depth+1) {
						return false
					}
				}
				return len(cl.Call.Args) > 0
			}
		}
	}
	for _, z := range []cval{d, y, m} {
		cl, _ := callResult(z.v)
		if cl == nil || z.c != nil && z.c.n >= 4 {
			continue
		}
		g := cl.Call.StaticCallee()
		if g == nil || !q.p.inRepo(g) || len(g.Blocks) == 0 {
			continue
		}
		n := 0
		if z.c != nil {
			n = z.c.n
		}
		cc := &cctx{cl, g, z.c, n + 1}
		all := true
		for _, ret := range returnsOf(g) {
			vs := retValues(ret)
			// what is compared in the helper is the same value, seen from inside
			sub := func(w cval) cval {
				if c2, i2 := callResult(w.v); c2 == cl && w.c == z.c && i2 < len(vs) {
					return cval{vs[i2], cc}
				}
				return w
			}
			for _, w := range ways(ret.Block(), cc, 0) {
				if !q.fits(sub(y), sub(m), sub(d), append(append([]cfact{}, w...), fs...), depth+1) {
					all = false
					break
				}
			}
			if !all {
				break
			}
		}
		if all {
			return true
		}
	}
	// merged values: every way they come about
	for _, z := range []cval{d, y, m} {
		ph, ok := z.v.(*ssa.Phi)
		if !ok || inLoopPhi(ph) {
			continue
		}
		all := true
		for k, e := range ph.Edges {
			yy, mm, dd := y, m, d
			sub := func(w *cval) {
				if w.c != z.c {
					return
				}
				if p2, ok := w.v.(*ssa.Phi); ok && p2.Block() == ph.Block() {
					w.v = p2.Edges[k]
				}
			}
			sub(&yy)
			sub(&mm)
			sub(&dd)
			_ = e
			// what holds when the values are merged stays true
			ok := true
			for _, w := range edgeWays(ph.Block(), k, z.c) {
				if !q.fits(yy, mm, dd, append(append([]cfact{}, w...), fs...), depth+1) {
					ok = false
					break
				}
			}
			if !ok {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

func inLoopPhi(ph *ssa.Phi) bool {
	for _, p := range ph.Block().Preds {
		if ph.Block().Dominates(p) {
			return true
		}
	}
	return false
}

// leapSafe: month and day come from one date; only 29 February can be a problem in another year, and it
// is excluded or the year is a leap year.
func (q *monthEnd) leapSafe(y, m, d cval, fs []cfact, depth int) bool {
	rm, pm, ok1 := timePart(m)
	rd, pd, ok2 := timePart(d)
	if !ok1 || !ok2 || pm != 1 || pd != 2 || !sameVal(rm, rd) {
		return false
	}
	base := func(f cfact) bool {
		if bo, ok := f.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL && !f.Val || bo.Op == token.NEQ && f.Val) {
			a, b := cval{bo.X, f.c}, cval{bo.Y, f.c}
			n, isC := constInt(b.v)
			if !isC {
				a, b = b, a
				n, isC = constInt(b.v)
			}
			if isC && (n == 29 && sameVal(a, d) || n == 2 && sameVal(a, m)) {
				return true
			}
		}
		if f.Val {
			if cl, ok := f.Cond.(*ssa.Call); ok {
				if g := cl.Call.StaticCallee(); g != nil && q.isLeapTest(g) && len(cl.Call.Args) == 1 && sameVal(cval{cl.Call.Args[0], f.c}, y) {
					return true
				}
			}
		}
		return false
	}
	for _, f := range fs {
		if q.means(f, base, 0) {
			return true
		}
	}
	if cl, idx := callResult(y.v); cl != nil {
		if g := cl.Call.StaticCallee(); g != nil && q.p.inRepo(g) && idx == 0 && q.leapYears(g) {
			return true
		}
	}
	return false
}

// isLeapTest: func(year) bool, the result for all years is that of the Gregorian rule.
func (q *monthEnd) isLeapTest(g *ssa.Function) bool {
	if !q.p.inRepo(g) || len(g.Params) != 1 || g.Signature.Results().Len() != 1 || !isBool(g.Signature.Results().At(0).Type()) {
		return false
	}
	return q.leapRule(g) == ""
}

// leapRule decides the function for every class of years that its divisibility tests can tell apart.
func (q *monthEnd) leapRule(g *ssa.Function) string {
	period := int64(400)
	eachInstr(g, func(i ssa.Instruction) {
		if b, ok := i.(*ssa.BinOp); ok && b.Op == token.REM {
			if n, isN := constInt(b.Y); isN && n > 0 && period < 20000 {
				x, y := period, n
				for y != 0 {
					x, y = y, x%y
				}
				period = period / x * n
			}
		}
	})
	if period > 20000 {
		return "unknown"
	}
	for year := int64(1); year <= period; year++ {
		want := year%4 == 0 && (year%100 != 0 || year%400 == 0)
		div := func(n int64) (bool, bool) {
			if n <= 0 {
				return false, false
			}
			return year%n == 0, true
		}
		env := map[ssa.Value]bool{}
		var eval func(v ssa.Value) (bool, bool)
		eval = func(v ssa.Value) (bool, bool) {
			if b, ok := constBool(v); ok {
				return b, true
			}
			switch x := v.(type) {
			case *ssa.BinOp:
				rem, ok := x.X.(*ssa.BinOp)
				z, isZ := constInt(x.Y)
				if !ok || rem.Op != token.REM || !isZ || z != 0 || rem.X != ssa.Value(g.Params[0]) {
					return false, false
				}
				n, isN := constInt(rem.Y)
				if !isN {
					return false, false
				}
				dv, known := div(n)
				switch x.Op {
				case token.EQL:
					return dv, known
				case token.NEQ:
					return !dv, known
				}
			case *ssa.UnOp:
				if x.Op == token.NOT {
					b, known := eval(x.X)
					return !b, known
				}
			case *ssa.Phi:
				b, known := env[x]
				return b, known
			}
			return false, false
		}
		var from *ssa.BasicBlock
		b := g.Blocks[0]
		res, known := false, false
		for steps := 0; steps < 100; steps++ {
			upd := map[ssa.Value]bool{}
			for _, i := range b.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for j, pr := range b.Preds {
					if pr == from && isBool(ph.Type()) {
						if v, ok := eval(ph.Edges[j]); ok {
							upd[ph] = v
						}
					}
				}
				delete(env, ph)
			}
			for k, v := range upd {
				env[k] = v
			}
			var next *ssa.BasicBlock
			switch x := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				res, known = eval(retValues(x)[0])
			case *ssa.If:
				if v, ok := eval(x.Cond); ok && v {
					next = b.Succs[0]
				} else if ok {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			}
			if next == nil {
				break
			}
			from, b = b, next
		}
		if !known {
			return "unknown"
		}
		if res != want {
			return fmt.Sprintf("the years like %d are not classified right", year)
		}
	}
	return ""
}

// leapYears: everything the function returns was tested to be a leap year.
func (q *monthEnd) leapYears(g *ssa.Function) bool {
	if s := q.leapFn[g]; s != 0 {
		return s == 2
	}
	q.leapFn[g] = 1
	for _, ret := range returnsOf(g) {
		v := retValues(ret)[0]
		if !q.leapValue(v, ret.Block(), 0) {
			return false
		}
	}
	q.leapFn[g] = 2
	return true
}

func (q *monthEnd) leapValue(v ssa.Value, at *ssa.BasicBlock, depth int) bool {
	if depth > 6 {
		return false
	}
	for _, f := range deepFacts(facts(at)) {
		if cl, ok := f.Cond.(*ssa.Call); ok && f.Val {
			if g := cl.Call.StaticCallee(); g != nil && q.isLeapTest(g) && cl.Call.Args[0] == v {
				return true
			}
		}
	}
	if cl, idx := callResult(v); cl != nil && idx == 0 {
		if g := cl.Call.StaticCallee(); g != nil && q.p.inRepo(g) && len(g.Blocks) > 0 && q.leapYears(g) {
			return true
		}
	}
	if ph, ok := v.(*ssa.Phi); ok {
		for k, e := range ph.Edges {
			if !q.leapValue(e, ph.Block().Preds[k], depth+1) {
				return false
			}
		}
		return len(ph.Edges) > 0
	}
	return false
}

// decide lifts an obligation to the callers as long as the parts are parameters.
func (q *monthEnd) decide(y, m, d cval, at ssa.Instruction, depth int) bool {
	all := true
	for _, w := range ways(at.Block(), nil, 0) {
		all = all && q.fits(y, m, d, w, 0)
	}
	if all {
		return true
	}
	if depth > 3 {
		return false
	}
	f := at.Parent()
	sites := q.p.callSites(f)
	if len(sites) == 0 || q.p.isEntry(f) {
		return false
	}
	dep := false
	for _, x := range []cval{y, m, d} {
		if dependsOn(x.v, func(v ssa.Value) bool { _, ok := v.(*ssa.Parameter); return ok }, map[ssa.Value]bool{}) {
			dep = true
		}
	}
	if !dep {
		return false
	}
	for _, s := range sites {
		if s.Common().StaticCallee() != f {
			return false
		}
		c := &cctx{s, f, nil, 0}
		in := func(x cval) cval { return cval{x.v, c} }
		all := true
		for _, w := range ways(at.Block(), c, 0) {
			all = all && q.fits(in(y), in(m), in(d), append(w, inCtx(deepFacts(facts(s.Block())), nil)...), 0)
		}
		if !all {
			// one level more
			if !q.liftOnce(in(y), in(m), in(d), s, depth+1) {
				return false
			}
		}
	}
	return true
}

func (q *monthEnd) liftOnce(y, m, d cval, site ssa.CallInstruction, depth int) bool {
	a, b, c := y.res(), m.res(), d.res()
	if a.c != nil || b.c != nil || c.c != nil {
		return false
	}
	return q.decide(a, b, c, site, depth)
}

// helperTime: the time is only made to look up a day number or is part of such an expression.
func helperTime(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	n := 0
	for _, u := range refs(v) {
		cl, ok := u.(*ssa.Call)
		if !ok {
			return false
		}
		n++
		switch calleeName(cl.Common()) {
		case "(time.Time).Day":
		case "(time.Time).AddDate":
			if !helperTime(cl, seen) {
				return false
			}
		default:
			return false
		}
	}
	return n > 0
}

func checkC11(p *Prog, r *Result) {
	r.Rule = "At every place where a calendar date is put together (time.Date, conversions of Hijri and Jalali dates) the day is a constant up to 28, or all parts come from one existing date, or the day is limited to the last day computed for exactly that year and month, or 29 February is excluded or the year is known to be a leap year. AddDate only moves by days, except where the caller does not ask to preserve the end of the month. Last-day and leap-year helpers are decided themselves."
	r.Explanation = "Value-equality and guard analysis on SSA of the year, month and day operands of every date construction reachable from the API, through helpers and merged values."
	r.Assumptions = append(r.Assumptions, "package time and the calendar libraries convert existing dates correctly", "parsing with a layout rejects days that the month does not have")
	q := &monthEnd{p: p, lastFn: map[*ssa.Function][2]int{}, notFn: map[*ssa.Function]string{}, leapFn: map[*ssa.Function]int{}}
	nDate, nAdd, nConv := 0, 0, 0
	for _, f := range p.reachableRepo() {
		if !isRepoPath(pkgOf(f)) || p.fromInit(f) {
			continue
		}
		eachInstr(f, func(i ssa.Instruction) {
			cl, ok := i.(*ssa.Call)
			if !ok {
				// a Hijri date built for conversion
				return
			}
			switch nm := calleeName(cl.Common()); {
			case nm == "time.Date":
				q.gregorian = true
				if helperTime(cl, map[ssa.Value]bool{}) {
					q.helper(r, cl)
					return
				}
				nDate++
				y, m, d := cval{v: cl.Call.Args[0]}, cval{v: cl.Call.Args[1]}, cval{v: cl.Call.Args[2]}
				ok := q.decide(y, m, d, cl, 0)
				r.add(ok, "day-fits-month", siteKey(i, "date construction"), p.instrPos(i), pick(ok, "the day exists in the month and year it is combined with", "the day "+describe(cl.Call.Args[2])+" is combined with a year and month in which it need not exist"))
			case nm == "(time.Time).AddDate":
				q.gregorian = true
				if helperTime(cl, map[ssa.Value]bool{}) {
					q.helper(r, cl)
					return
				}
				nAdd++
				why := q.addDate(cl)
				r.add(why == "", "months-not-rolled-over", siteKey(i, "AddDate"), p.instrPos(i), okOr(why, "moves by days only, or the caller does not preserve the end of the month"))
			case strings.HasSuffix(nm, ".ToGregorian"):
				q.gregorian = false
				y, m, d, ok := q.foreignParts(cl)
				if !ok {
					return
				}
				nConv++
				okk := q.decide(y, m, d, cl, 0) || q.probe(cl, d)
				r.add(okk, "day-fits-month", siteKey(i, "calendar conversion"), p.instrPos(i), pick(okk, "the day is limited to the length of its month before it is converted", "a day is converted without being limited to the length of its month"))
			}
		})
	}
	// the helpers themselves
	n := 0
	for _, f := range p.reachableRepo() {
		if !isRepoPath(pkgOf(f)) || len(f.Params) != 1 || !isInt(f.Params[0].Type()) {
			continue
		}
		if f.Signature.Results().Len() == 1 && isBool(f.Signature.Results().At(0).Type()) && strings.Contains(strings.ToLower(f.Name()), "leap") && !strings.Contains(pkgOf(f), "hijri") && !strings.Contains(pkgOf(f), "jalali") {
			n++
			w := q.leapRule(f)
			if w == "unknown" {
				w = ""
			}
			r.add(w == "", "leap-rule", fnKey(f), p.pos(f.Pos()), okOr(w, "leap years are those divisible by 4, but by 100 only if divisible by 400"))
		}
	}
	r.floor("day-fits-month", 4)
	r.floor("months-not-rolled-over", 1)
	r.Analysed["dates put together"] = nDate
	r.Analysed["shifts"] = nAdd
	r.Analysed["conversions"] = nConv
	r.Analysed["leap-year tests"] = n
}

// helper: a time made to look up the last day of a month.
func (q *monthEnd) helper(r *Result, cl *ssa.Call) {
	for _, u := range refs(cl) {
		c, ok := u.(*ssa.Call)
		if !ok || calleeName(c.Common()) != "(time.Time).Day" {
			continue
		}
		e := q.timeExpr(cval{v: cl})
		ok = !e.ok || e.k == 1 && e.c == 0
		r.add(ok, "last-day-helper", siteKey(cl, "last day of a month"), q.p.instrPos(cl), pick(ok, "the day before the first of the next month", fmt.Sprintf("computes day %d of month %+d instead of the last day of the month", e.c, e.k)))
	}
}

// addDate: years and months are only added where rolling over is what the caller asked for.
func (q *monthEnd) addDate(cl *ssa.Call) string {
	a := cl.Call.Args
	yy, ok1 := constInt(a[1])
	mm, ok2 := constInt(a[2])
	if ok1 && ok2 && yy == 0 && mm == 0 {
		return ""
	}
	if e := q.timeExpr(cval{v: a[0]}); e.ok && e.c >= 1 && e.c <= 28 {
		return ""
	}
	free := q.p.implies(func(f Fact) bool {
		if cfgField(f.Cond) == "PreserveEndOfMonth" && !f.Val {
			return true
		}
		v, isNil, known := nilFact(f)
		return known && isNil && isCfgPtr(v.Type())
	})
	if q.guarded(free, cl, 0) {
		return ""
	}
	return "years or months are added without limiting the day although the end of the month may have to be preserved"
}

func (q *monthEnd) guarded(e *edgeImplies, i ssa.Instruction, depth int) bool {
	f := i.Parent()
	if e.cut(f.Blocks[0], i.Block()) {
		return true
	}
	for _, x := range deepFacts(facts(i.Block())) {
		if pr, ok := x.Cond.(*ssa.Parameter); ok && !x.Val && q.p.paramIs(pr, func(v ssa.Value) bool { return cfgField(v) == "PreserveEndOfMonth" }) {
			return true
		}
	}
	sites := q.p.callSites(f)
	if depth > 3 || len(sites) == 0 || q.p.isEntry(f) {
		return false
	}
	for _, s := range sites {
		if !q.guarded(e, s, depth+1) {
			return false
		}
	}
	return true
}

// foreignParts: year, month and day given to a conversion into the Gregorian calendar.
func (q *monthEnd) foreignParts(cl *ssa.Call) (y, m, d cval, ok bool) {
	g := cl.Call.StaticCallee()
	if g == nil || q.p.inRepo(g) {
		return
	}
	if len(cl.Call.Args) == 3 {
		return cval{v: cl.Call.Args[0]}, cval{v: cl.Call.Args[1]}, cval{v: cl.Call.Args[2]}, true
	}
	if len(cl.Call.Args) != 1 {
		return
	}
	// a structure with fields Year, Month, Day
	st, isSt := cl.Call.Args[0].Type().Underlying().(*types.Struct)
	ld, isLd := cl.Call.Args[0].(*ssa.UnOp)
	if !isSt || !isLd {
		return
	}
	al, isAl := ld.X.(*ssa.Alloc)
	if !isAl {
		return
	}
	n := 0
	for _, s := range storesInto(al, 0) {
		fa, isFA := s.Addr.(*ssa.FieldAddr)
		if !isFA {
			continue
		}
		switch st.Field(fa.Field).Name() {
		case "Year":
			y = cval{v: s.Val}
			n++
		case "Month":
			m = cval{v: s.Val}
			n++
		case "Day":
			d = cval{v: s.Val}
			n++
		}
	}
	return y, m, d, n == 3
}

// probe: a constant day is converted only to see whether it exists: the result is converted back and compared.
func (q *monthEnd) probe(cl *ssa.Call, d cval) bool {
	if _, ok := constInt(d.v); !ok {
		return false
	}
	n := 0
	for _, u := range refs(cl) {
		c, ok := u.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || q.p.inRepo(c.Call.StaticCallee()) {
			return false
		}
		n++
	}
	return n > 0
}
