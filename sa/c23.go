package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C23"] = checkC23 }

// Search reports pieces of the caller's text (rule source), each next to the date of the same
// position (rules aligned and position). The lists that are walked side by side are found from the
// places where results are built.
func checkC23(p *Prog, r *Result) {
	r.Rule = "Each text of a search result consists of pieces of the text passed in; lists that are indexed together are extended together with elements of the same position."
	r.Explanation = "From each place where a search result is built, the text is followed back to the text parameter through operations that only cut, join or trim, and date and text are followed back together through the lists they come from. Each pair of lists met on the way must have been built in lockstep: appended to in the same place with elements of the same index, split at the same separator equally often, cut at the same positions, returned by the same call."
	c := &pairCheck{p: p, r: r, q: p.newProver(), assumed: map[pairKey]bool{}, fromList: map[ssa.Value]bool{}}
	type lit struct{ date, text *ssa.Store }
	for _, f := range p.fnSrc {
		if !p.inRepo(f) {
			continue
		}
		lits := map[ssa.Value]*lit{}
		var order []ssa.Value
		eachInstr(f, func(i ssa.Instruction) {
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !typeIs(fa.X.Type(), modPath, "SearchResult") {
				return
			}
			at := ssa.Value(fa.X)
			for _, o := range order {
				if c.q.sameAddr(o, at) {
					at = o
				}
			}
			l := lits[at]
			if l == nil {
				l = &lit{}
				lits[at] = l
				order = append(order, at)
			}
			switch fieldVar(fa).Name() {
			case "Date":
				l.date = st
			case "Text":
				l.text = st
			}
		})
		for n, k := range order {
			l := lits[k]
			key := fmt.Sprintf("%s result %d", fnKey(f), n+1)
			if l.text != nil {
				w := &pieceWalk{p: p, q: c.q, r: r, seen: map[pieceKey]bool{}}
				w.walk(l.text.Val, nil)
				r.Analysed["values the reported texts come from"] += len(w.seen)
				if !w.found {
					r.bad("source", key+" text", p.instrPos(l.text), "the text does not come from the caller's text")
				} else {
					r.ok("source", key+" text", p.instrPos(l.text), "comes from the caller's text")
				}
			}
			if l.date == nil || l.text == nil {
				if l.date != nil || l.text != nil {
					r.bad("position", key, p.pos(k.Pos()), "date and text are not set in the same place")
				}
				continue
			}
			r.Analysed["search results built"]++
			if !c.correspond(l.date.Val, l.text.Val, l.text.Block(), 0) {
				c.report(key, p.instrPos(l.text))
				continue
			}
			c.note("position", key, p.instrPos(l.text), "date and text have the same position")
		}
	}
	done := map[string]bool{}
	for _, o := range c.trail {
		if o.rule != "" && !done[o.rule+o.key] {
			done[o.rule+o.key] = true
			r.ok(o.rule, o.key, o.pos, o.why)
		}
	}
	r.Analysed["pairs of lists"] = len(c.assumed)
	for _, a := range sortedKeys(c.notes()) {
		r.Assumptions = append(r.Assumptions, a)
	}
	r.floor("position", 1)
	r.floor("source", 1)
	r.floor("aligned", 1)
}

type pairKey struct {
	a, b ssa.Value
	deep bool
}

type pairEvent struct {
	assumed        *pairKey
	rule, key, pos string
	why, assume    string
}

type pairFail struct {
	depth    int
	key, pos string
	why      string
}

type pairCheck struct {
	p        *Prog
	r        *Result
	q        *prover
	assumed  map[pairKey]bool
	trail    []pairEvent
	fails    []pairFail
	fromList map[ssa.Value]bool
	depth    int
}

func (c *pairCheck) note(rule, key, pos, why string) {
	c.trail = append(c.trail, pairEvent{rule: rule, key: key, pos: pos, why: why})
}

func (c *pairCheck) assume(s string) { c.trail = append(c.trail, pairEvent{assume: s}) }

func (c *pairCheck) notes() map[string]bool {
	out := map[string]bool{}
	for _, e := range c.trail {
		if e.assume != "" {
			out[e.assume] = true
		}
	}
	return out
}

func (c *pairCheck) fail(key, pos, why string) bool {
	c.fails = append(c.fails, pairFail{c.depth, key, pos, why})
	return false
}

// report names the failures that nothing else explains: those found deepest.
func (c *pairCheck) report(key, pos string) {
	best := pairFail{-1, key, pos, "date and text do not have the same position"}
	for _, f := range c.fails {
		if f.depth > best.depth {
			best = f
		}
	}
	c.r.bad("aligned", best.key, best.pos, best.why)
	c.fails = nil
}

// try undoes what was assumed and noted when the attempt fails.
func (c *pairCheck) try(f func() bool) bool {
	mark := len(c.trail)
	if f() {
		return true
	}
	for _, e := range c.trail[mark:] {
		if e.assumed != nil {
			delete(c.assumed, *e.assumed)
		}
	}
	c.trail = c.trail[:mark]
	return false
}

func emptyList(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Low == nil {
			if a, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && a.Len() == 0 {
				return true
			}
		}
		if x.High != nil {
			n, ok := constInt(x.High)
			return ok && n == 0
		}
	case *ssa.MakeSlice:
		n, ok := constInt(x.Len)
		return ok && n == 0
	}
	return false
}

// sameTimes: whenever one of the blocks runs, so does the other, once.
func sameTimes(a, b *ssa.BasicBlock) bool {
	if a == b {
		return true
	}
	if a.Parent() != b.Parent() {
		return false
	}
	if b.Dominates(a) {
		a, b = b, a
	}
	if !a.Dominates(b) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var out func(x *ssa.BasicBlock) bool
	out = func(x *ssa.BasicBlock) bool { // everything leads to b
		if x == b || seen[x] {
			return true
		}
		if x == a {
			return false
		}
		seen[x] = true
		if len(x.Succs) == 0 {
			_, panics := x.Instrs[len(x.Instrs)-1].(*ssa.Panic)
			return panics
		}
		for _, s := range x.Succs {
			if !out(s) {
				return false
			}
		}
		return true
	}
	for _, s := range a.Succs {
		if !out(s) {
			return false
		}
	}
	// b is not repeated on its own
	return !canReachAvoiding(b, b, a)
}

// aligned: the two lists have as many elements, and elements with the same index belong to the same
// position. With deep the elements are lists that are aligned themselves.
func (c *pairCheck) aligned(a, b ssa.Value, at *ssa.BasicBlock, deep bool) bool {
	return c.try(func() bool {
		c.depth++
		defer func() { c.depth-- }()
		return c.alignedNow(a, b, at, deep)
	})
}

func (c *pairCheck) listKey(a, b ssa.Value) string {
	f := a.Parent()
	if f == nil {
		f = b.Parent()
	}
	return fmt.Sprintf("%s: %s with %s", fnKey(f), c.listName(a), c.listName(b))
}

func (c *pairCheck) listName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Call:
		if calleeName(&x.Call) == "builtin append" {
			return c.listName(x.Call.Args[0])
		}
		return calleeName(&x.Call) + "()"
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			return fmt.Sprintf("result %d of %s", x.Index+1, calleeName(&cl.Call))
		}
	case *ssa.UnOp:
		switch y := x.X.(type) {
		case *ssa.FieldAddr:
			return "field " + fieldVar(y).Name()
		case *ssa.IndexAddr:
			return "element of " + c.listName(y.X)
		case *ssa.Alloc:
			return y.Comment
		case *ssa.FreeVar:
			return y.Name()
		}
	case *ssa.Slice:
		return "part of " + c.listName(x.X)
	case *memPhi:
		return x.al.Comment
	}
	return v.Name()
}

func (c *pairCheck) alignedNow(a, b ssa.Value, at *ssa.BasicBlock, deep bool) bool {
	a, b = c.q.rep(a), c.q.rep(b)
	if a == b {
		return true
	}
	if emptyList(a) && emptyList(b) {
		return true
	}
	k := pairKey{a, b, deep}
	if c.assumed[k] || c.assumed[pairKey{b, a, deep}] {
		return true
	}
	if len(c.trail) > 5000 || c.depth > 60 {
		return c.fail(c.listKey(a, b), c.p.pos(a.Pos()), "the two lists are too involved to follow")
	}
	c.assumed[k] = true
	c.trail = append(c.trail, pairEvent{assumed: &k})
	key, pos := c.listKey(a, b), c.p.pos(b.Pos())
	if a.Pos() != token.NoPos {
		pos = c.p.pos(a.Pos())
	}

	if at != nil && !deep && c.equalLens(a, b, at) {
		c.note("aligned", key, pos, "have the same length where they are used")
		return true
	}

	if c.reordered(a, b, key) || c.reordered(b, a, key) {
		return false
	}

	// merged from branches
	pa, pb := phiOf(a), phiOf(b)
	if pa != nil && c.try(func() bool { return c.mapped(a, pa, b, deep) }) || pb != nil && c.try(func() bool { return c.mapped(b, pb, a, deep) }) {
		c.note("aligned", key, pos, "one has an element for each of the other")
		return true
	}
	if pa != nil && pb != nil && pa.blk == pb.blk {
		for e := range pa.edges {
			if !c.aligned(pa.edges[e], pb.edges[e], pa.blk.Preds[e], deep) {
				return false
			}
		}
		c.note("aligned", key, pos, "extended together on every way")
		return true
	}
	if pa != nil && (pb == nil || pb.blk.Dominates(pa.blk)) {
		for e := range pa.edges {
			if !c.aligned(pa.edges[e], b, pa.blk.Preds[e], deep) {
				return false
			}
		}
		return true
	}
	if pb != nil {
		for e := range pb.edges {
			if !c.aligned(a, pb.edges[e], pb.blk.Preds[e], deep) {
				return false
			}
		}
		return true
	}

	// copies
	if x := copyOf(a); x != nil {
		return c.aligned(x, b, at, deep)
	}
	if x := copyOf(b); x != nil {
		return c.aligned(a, x, at, deep)
	}

	ca, ia := callResult(a)
	cb, ib := callResult(b)
	if ca != nil && cb != nil {
		na, nb := calleeName(&ca.Call), calleeName(&cb.Call)
		switch {
		case na == "builtin append" && nb == na:
			if !sameTimes(ca.Block(), cb.Block()) {
				return c.fail(key, c.p.instrPos(ca), "the two lists are not extended in the same place")
			}
			if !c.aligned(ca.Call.Args[0], cb.Call.Args[0], ca.Block(), deep) {
				return false
			}
			return c.appended(ca, cb, key, deep)
		case ca != cb && ia == ib && !deep && ca.Call.StaticCallee() != nil && ca.Call.StaticCallee() == cb.Call.StaticCallee() && c.p.inRepo(ca.Call.StaticCallee()) && byLength(ca.Call.StaticCallee()):
			for n := range ca.Call.Args {
				x, y := ca.Call.Args[n], cb.Call.Args[n]
				if c.q.rep(x) == c.q.rep(y) || isInt(x.Type()) && c.q.norm(x) == c.q.norm(y) {
					continue
				}
				if _, ok := x.Type().Underlying().(*types.Slice); ok && c.aligned(x, y, cb.Block(), false) {
					continue
				}
				return c.fail(key, c.p.instrPos(cb), "the two lists are made from arguments that do not belong together")
			}
			c.note("aligned", key, pos, "made by the same function from lists side by side")
			return true
		case ca == cb && ia != ib:
			return c.results(ca, key, func(rs []ssa.Value, blk *ssa.BasicBlock) bool {
				return ia < len(rs) && ib < len(rs) && c.aligned(rs[ia], rs[ib], blk, deep)
			})
		case (na == "strings.Split" || na == "strings.SplitAfter") && na == nb && !deep:
			if c.q.rep(ca.Call.Args[1]) != c.q.rep(cb.Call.Args[1]) && !sameText(c.q, ca.Call.Args[1], cb.Call.Args[1]) {
				return c.fail(key, c.p.instrPos(cb), "the two texts are split at different separators")
			}
			if c.sameCount(ca.Call.Args[0], cb.Call.Args[0], ca.Call.Args[1], cb.Block(), 0) {
				c.note("aligned", key, pos, "split at a separator that both texts have equally often")
				return true
			}
			return c.fail(key, c.p.instrPos(cb), "nothing says that both texts have the separator equally often")
		}
	}
	if xa, ok := a.(*ssa.Parameter); ok {
		if xb, ok := b.(*ssa.Parameter); ok && xa.Parent() == xb.Parent() {
			sites := c.p.callSites(xa.Parent())
			for _, s := range sites {
				va, vb := c.q.argFor(xa.Parent(), xa, s), c.q.argFor(xb.Parent(), xb, s)
				if va == nil || vb == nil {
					return c.fail(key, c.p.instrPos(s), "called in a way that cannot be followed")
				}
				if !c.aligned(va, vb, s.Block(), deep) {
					return false
				}
			}
			return true
		}
	}
	if xa, ok := a.(*ssa.Slice); ok {
		if xb, ok := b.(*ssa.Slice); ok && c.sameBound(xa.Low, xb.Low) && c.sameBound(xa.High, xb.High) {
			return c.aligned(xa.X, xb.X, xa.Block(), deep)
		}
	}
	if ok, known := c.loads(a, b, deep); known {
		return ok
	}
	// a result of a function that keeps the length of its argument
	for _, s := range []struct {
		cl    *ssa.Call
		idx   int
		other ssa.Value
	}{{ca, ia, b}, {cb, ib, a}} {
		if s.cl == nil {
			continue
		}
		g := s.cl.Call.StaticCallee()
		if g == nil || !c.p.inRepo(g) || len(g.Blocks) == 0 {
			continue
		}
		for n, pr := range g.Params {
			if _, ok := pr.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			keeps := func() bool {
				for _, ret := range returnsOf(g) {
					if !c.aligned(retValues(ret)[s.idx], pr, ret.Block(), deep) {
						return false
					}
				}
				return true
			}
			if c.try(keeps) && c.aligned(s.cl.Call.Args[n], s.other, at, deep) {
				return true
			}
		}
	}
	if ma, ok := a.(*ssa.MakeSlice); ok {
		if mb, ok := b.(*ssa.MakeSlice); ok && !deep && c.q.norm(ma.Len) == c.q.norm(mb.Len) {
			return c.filled(ma, mb, key)
		}
	}
	if ma, ok := a.(*ssa.MakeSlice); ok && c.try(func() bool { return c.made(ma, b, deep) }) {
		c.note("aligned", key, pos, "one is as long as the other")
		return true
	}
	if mb, ok := b.(*ssa.MakeSlice); ok && c.try(func() bool { return c.made(mb, a, deep) }) {
		c.note("aligned", key, pos, "one is as long as the other")
		return true
	}
	return c.fail(key, pos, "nothing keeps the two lists side by side")
}

func (c *pairCheck) sameBound(a, b ssa.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return c.q.norm(a) == c.q.norm(b)
}

func sameText(q *prover, a, b ssa.Value) bool {
	x, ok1 := q.constText(a, 0)
	y, ok2 := q.constText(b, 0)
	return ok1 && ok2 && x == y
}

// copyOf: the list v has the same elements as.
func copyOf(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.ChangeType:
		return x.X
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok && x.High == nil && x.Low == nil {
			return x.X
		}
	case *ssa.Call:
		n := calleeName(&x.Call)
		switch {
		case n == "slices.Clone" || n == "slices.Clip" || n == "slices.Grow":
			return x.Call.Args[0]
		case n == "slices.Concat" && len(x.Call.Args) == 1:
			if es, ok := listElems(x.Call.Args[0]); ok && len(es) == 1 {
				return es[0]
			}
		case n == "builtin append" && emptyList(x.Call.Args[0]):
			if _, ok := listElems(x.Call.Args[1]); !ok {
				return x.Call.Args[1]
			}
		}
	}
	return nil
}

// listElems: the elements of a list written out in place.
func listElems(v ssa.Value) ([]ssa.Value, bool) {
	if isNilConst(v) {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, arr.Len())
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		n, ok := constInt(ia.Index)
		if !ok || n < 0 || n >= int64(len(out)) {
			return nil, false
		}
		for _, w := range *ia.Referrers() {
			switch s := w.(type) {
			case *ssa.Store:
				if s.Addr == ssa.Value(ia) {
					out[n] = s.Val
				}
			case *ssa.FieldAddr:
				out[n] = ia // a struct built in place
			}
		}
	}
	for _, e := range out {
		if e == nil {
			return nil, false
		}
	}
	return out, true
}

func (c *pairCheck) appended(x, y *ssa.Call, key string, deep bool) bool {
	ex, ok1 := listElems(x.Call.Args[1])
	ey, ok2 := listElems(y.Call.Args[1])
	if ok1 != ok2 || len(ex) != len(ey) {
		return c.fail(key, c.p.instrPos(y), "the two lists are not extended by as many elements")
	}
	if !ok1 {
		if !c.aligned(x.Call.Args[1], y.Call.Args[1], y.Block(), deep) {
			return false
		}
	}
	for i := range ex {
		good := false
		if deep {
			good = c.aligned(ex[i], ey[i], y.Block(), false)
		} else {
			good = c.correspond(ex[i], ey[i], y.Block(), 0)
		}
		if !good {
			return c.fail(fmt.Sprintf("%s append at %s", key, c.blockKey(y)), c.p.instrPos(y), "elements appended to the two lists do not have the same position")
		}
	}
	c.note("aligned", fmt.Sprintf("%s append %s", key, c.blockKey(y)), c.p.instrPos(y), "both extended here, with elements of the same position")
	return true
}

// blockKey numbers the appends of a function.
func (c *pairCheck) blockKey(cl *ssa.Call) string {
	n, out := 0, 0
	eachInstr(cl.Parent(), func(i ssa.Instruction) {
		if x, ok := i.(*ssa.Call); ok && calleeName(&x.Call) == "builtin append" {
			n++
			if x == cl {
				out = n
			}
		}
	})
	return fmt.Sprint(out)
}

func (c *pairCheck) results(cl *ssa.Call, key string, ok func([]ssa.Value, *ssa.BasicBlock) bool) bool {
	gs := c.p.callees(cl)
	if len(gs) == 0 {
		return c.fail(key, c.p.instrPos(cl), "returned by an unknown function")
	}
	for _, g := range gs {
		if !c.p.inRepo(g) || len(g.Blocks) == 0 {
			return c.fail(key, c.p.instrPos(cl), "returned by "+g.Name())
		}
		for _, ret := range returnsOf(g) {
			if !ok(retValues(ret), ret.Block()) {
				return false
			}
		}
	}
	return true
}

// equalLens: where they are used, the lengths are known to be equal.
func (c *pairCheck) equalLens(a, b ssa.Value, at *ssa.BasicBlock) bool {
	is := func(f Fact) bool {
		bo, ok := f.Cond.(*ssa.BinOp)
		if !ok || !(bo.Op == token.EQL && f.Val || bo.Op == token.NEQ && !f.Val) {
			return false
		}
		x, y := c.q.norm(bo.X), c.q.norm(bo.Y)
		la, lb := c.q.lenOf(a), c.q.lenOf(b)
		return x == la && y == lb || x == lb && y == la
	}
	for _, f := range facts(at) {
		if is(f) {
			return true
		}
	}
	// loops that make the lengths equal lead here
	from := func(l ssa.Value) map[ssa.Value]bool {
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			v = c.q.rep(v)
			if seen[v] {
				return
			}
			seen[v] = true
			if ph := phiOf(v); ph != nil {
				for _, e := range ph.edges {
					walk(e)
				}
			}
			if cl, _ := callResult(v); cl != nil {
				for _, x := range cl.Call.Args {
					if types.Identical(x.Type(), v.Type()) {
						walk(x)
					}
				}
			}
		}
		walk(l)
		return seen
	}
	fa, fb := from(a), from(b)
	var aLonger, bLonger bool
	for _, blk := range at.Parent().Blocks {
		if len(blk.Succs) != 2 {
			continue
		}
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y := c.q.norm(bo.X), c.q.norm(bo.Y)
		if x.k != atomLen || y.k != atomLen || x.c != 0 || y.c != 0 || x.v == nil || y.v == nil {
			continue
		}
		// the branch that leaves the loop
		leaves := false
		for h := blk; h != nil && !leaves; h = h.Idom() {
			body := loopBody(h)
			leaves = body[blk] && h.Dominates(at) && body[blk.Succs[0]] != body[blk.Succs[1]]
		}
		if !leaves {
			continue
		}
		straight := fa[x.v] && fb[y.v]
		if !straight && !(fa[y.v] && fb[x.v]) {
			continue
		}
		switch bo.Op {
		case token.NEQ, token.EQL:
			aLonger, bLonger = true, true
		case token.GTR, token.LEQ:
			aLonger, bLonger = aLonger || straight, bLonger || !straight
		case token.LSS, token.GEQ:
			aLonger, bLonger = aLonger || !straight, bLonger || straight
		}
	}
	if aLonger && bLonger {
		c.assume("a loop that makes two lists equally long always succeeds in that")
		return true
	}
	return false
}

// sameCount: both texts have the separator equally often.
func (c *pairCheck) sameCount(a, b, sep ssa.Value, at *ssa.BasicBlock, depth int) bool {
	if depth > 4 {
		return false
	}
	isCount := func(v, text ssa.Value) bool {
		cl, ok := v.(*ssa.Call)
		return ok && calleeName(&cl.Call) == "strings.Count" && c.q.rep(cl.Call.Args[0]) == c.q.rep(text) && (c.q.rep(cl.Call.Args[1]) == c.q.rep(sep) || sameText(c.q, cl.Call.Args[1], sep))
	}
	for _, f := range facts(at) {
		bo, ok := f.Cond.(*ssa.BinOp)
		if !ok || !(bo.Op == token.EQL && f.Val || bo.Op == token.NEQ && !f.Val) {
			continue
		}
		x, y := c.q.rep(bo.X), c.q.rep(bo.Y)
		if isCount(x, a) && isCount(y, b) || isCount(x, b) && isCount(y, a) {
			return true
		}
	}
	fn := at.Parent()
	sites := c.p.callSites(fn)
	lift := func(v ssa.Value, s ssa.CallInstruction) ssa.Value {
		v = c.q.rep(v)
		if pr, ok := v.(*ssa.Parameter); ok && pr.Parent() == fn {
			return c.q.argFor(fn, pr, s)
		}
		if _, ok := v.(*ssa.Const); ok {
			return v
		}
		return nil
	}
	for _, s := range sites {
		la, lb, ls := lift(a, s), lift(b, s), lift(sep, s)
		if la == nil || lb == nil || ls == nil || !c.sameCount(la, lb, ls, s.Block(), depth+1) {
			return false
		}
	}
	return len(sites) > 0
}

// loads: elements of two lists, fields of a struct, or variables.
func (c *pairCheck) loads(a, b ssa.Value, deep bool) (ok, known bool) {
	key, pos := c.listKey(a, b), c.p.pos(a.Pos())
	if xa, ok := a.(*ssa.Field); ok {
		if xb, ok := b.(*ssa.Field); ok && c.q.rep(xa.X) == c.q.rep(xb.X) {
			st := xa.X.Type().Underlying().(*types.Struct)
			return c.fields(st.Field(xa.Field), st.Field(xb.Field), deep), true
		}
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || la.Op != token.MUL || lb.Op != token.MUL {
		return false, false
	}
	switch xa := la.X.(type) {
	case *ssa.IndexAddr:
		xb, ok := lb.X.(*ssa.IndexAddr)
		if !ok || deep {
			return false, false
		}
		if c.q.norm(xa.Index) != c.q.norm(xb.Index) {
			return c.fail(key, pos, "the two lists are taken from different positions"), true
		}
		return c.aligned(xa.X, xb.X, la.Block(), true), true
	case *ssa.FieldAddr:
		xb, ok := lb.X.(*ssa.FieldAddr)
		if !ok || !types.Identical(xa.X.Type(), xb.X.Type()) || !c.q.sameBase(xa.X, xb.X) {
			return false, false
		}
		return c.fields(fieldVar(xa), fieldVar(xb), deep), true
	}
	ga, gb := pairCell(la.X), pairCell(lb.X)
	if ga == nil || gb == nil {
		return false, false
	}
	if sa, sb := c.chunked(ga), c.chunked(gb); sa != nil && sb != nil && c.q.norm(sa.Call.Args[1]) == c.q.norm(sb.Call.Args[1]) {
		return c.aligned(sa.Call.Args[0], sb.Call.Args[0], la.Block(), false), true
	}
	sa, _ := cellStores(ga)
	sb, _ := cellStores(gb)
	return c.stores(sa, sb, key, deep), true
}

// chunked: the list gets one element for each chunk of another.
func (c *pairCheck) chunked(al *ssa.Alloc) *ssa.Call {
	sts, _ := cellStores(al)
	var out *ssa.Call
	for _, st := range sts {
		if emptyList(st.Val) {
			continue
		}
		cl, ok := c.q.rep(st.Val).(*ssa.Call)
		if !ok || out != nil || calleeName(&cl.Call) != "builtin append" {
			return nil
		}
		if es, ok := listElems(cl.Call.Args[1]); !ok || len(es) != 1 {
			return nil
		}
		f := st.Parent()
		mc := closureOf(f)
		if mc == nil || !sameTimes(f.Blocks[0], st.Block()) {
			return nil
		}
		for _, u := range *mc.Referrers() {
			if run, ok := u.(*ssa.Call); ok && run.Call.StaticCallee() == nil {
				if seq, ok := run.Call.Value.(*ssa.Call); ok && strings.HasPrefix(calleeName(&seq.Call), "slices.Chunk") {
					out = seq
				}
			}
		}
		if out == nil {
			return nil
		}
	}
	return out
}

// byLength: the function goes by the lengths of its arguments only, not by their contents.
func byLength(g *ssa.Function) bool {
	ok := true
	eachInstr(g, func(i ssa.Instruction) {
		iff, is := i.(*ssa.If)
		if !is {
			return
		}
		seen := map[ssa.Value]bool{}
		var plain func(v ssa.Value) bool
		plain = func(v ssa.Value) bool {
			if seen[v] {
				return true
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Const:
				return true
			case *ssa.Parameter:
				return !textual(x.Type()) || isInt(x.Type())
			case *ssa.BinOp:
				return plain(x.X) && plain(x.Y)
			case *ssa.UnOp:
				return x.Op == token.NOT && plain(x.X)
			case *ssa.Phi:
				for _, e := range x.Edges {
					if !plain(e) {
						return false
					}
				}
				return true
			case *ssa.Call:
				n := calleeName(&x.Call)
				if n == "builtin len" {
					_, list := x.Call.Args[0].Type().Underlying().(*types.Slice)
					_, par := x.Call.Args[0].(*ssa.Parameter)
					return list && par
				}
				if n == "builtin min" || n == "builtin max" {
					for _, a := range x.Call.Args {
						if !plain(a) {
							return false
						}
					}
					return true
				}
			}
			return false
		}
		ok = ok && plain(iff.Cond)
	})
	return ok
}

func pairCell(v ssa.Value) *ssa.Alloc {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x
	case *ssa.FreeVar:
		return bCell(x)
	}
	return nil
}

func (c *pairCheck) fields(fa, fb *types.Var, deep bool) bool {
	collect := func(fv *types.Var) []*ssa.Store {
		var out []*ssa.Store
		for _, f := range c.p.fnSrc {
			eachInstr(f, func(i ssa.Instruction) {
				if st, ok := i.(*ssa.Store); ok {
					if x, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(x) == fv {
						out = append(out, st)
					}
				}
			})
		}
		return out
	}
	return c.stores(collect(fa), collect(fb), fa.Name()+" with "+fb.Name(), deep)
}

// stores: the two variables or fields are always set together.
func (c *pairCheck) stores(sa, sb []*ssa.Store, key string, deep bool) bool {
	used := map[*ssa.Store]bool{}
	for _, x := range sa {
		var mate *ssa.Store
		for _, y := range sb {
			if !used[y] && sameTimes(x.Block(), y.Block()) && sameOwner(x, y) {
				mate = y
				break
			}
		}
		if mate == nil {
			if emptyList(x.Val) {
				continue // as it starts
			}
			return c.fail(key, c.p.instrPos(x), "only one of the two lists is set here")
		}
		used[mate] = true
		if !c.aligned(x.Val, mate.Val, mate.Block(), deep) {
			return false
		}
	}
	for _, y := range sb {
		if !used[y] && !emptyList(y.Val) {
			return c.fail(key, c.p.instrPos(y), "only one of the two lists is set here")
		}
	}
	c.note("aligned", key, "", fmt.Sprintf("set together in %d places", len(used)))
	return true
}

func sameOwner(x, y *ssa.Store) bool {
	a, ok1 := x.Addr.(*ssa.FieldAddr)
	b, ok2 := y.Addr.(*ssa.FieldAddr)
	if !ok1 || !ok2 {
		return true
	}
	return a.X == b.X || !x.Block().Dominates(y.Block()) && !y.Block().Dominates(x.Block()) || sameLoaded(a.X, b.X)
}

func sameLoaded(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 {
		return x.X == y.X
	}
	i, ok1 := a.(*ssa.IndexAddr)
	j, ok2 := b.(*ssa.IndexAddr)
	return ok1 && ok2 && i.X == j.X && i.Index == j.Index
}

// mapped: the list starts empty and gets one element for each element of the other.
func (c *pairCheck) mapped(v ssa.Value, ph *phiView, other ssa.Value, deep bool) bool {
	if deep {
		return false
	}
	body := loopBody(ph.blk)
	if len(body) == 0 {
		return false
	}
	// the loop is left at its header only
	for b := range body {
		for _, s := range b.Succs {
			if !body[s] && b != ph.blk {
				return false
			}
		}
	}
	idx, list := c.rangeOf(ph.blk)
	if list == nil {
		return false
	}
	for e, x := range ph.edges {
		if !body[ph.blk.Preds[e]] {
			if !emptyList(x) && !emptyList(c.q.rep(x)) {
				return false
			}
			continue
		}
		cl, ok := c.q.rep(x).(*ssa.Call)
		if !ok || calleeName(&cl.Call) != "builtin append" || c.q.rep(cl.Call.Args[0]) != v {
			return false
		}
		es, ok := listElems(cl.Call.Args[1])
		if !ok || len(es) != 1 {
			return false
		}
		bs := c.bases(es[0])
		if len(bs) == 0 {
			return false
		}
		for _, b := range bs {
			if b.whole || b.part || b.idx != idx || !(c.q.rep(b.list) == c.q.rep(list) || c.aligned(b.list, list, nil, false)) {
				return false
			}
		}
	}
	return c.aligned(list, other, nil, false)
}

// rangeOf: the loop runs over all indexes of a list.
func (c *pairCheck) rangeOf(h *ssa.BasicBlock) (lin, ssa.Value) {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return lin{}, nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return lin{}, nil
	}
	i, n := c.q.norm(bo.X), c.q.norm(bo.Y)
	if n.k != atomLen || n.c != 0 || n.v == nil {
		return lin{}, nil
	}
	ph := phiOf(i.v)
	if ph == nil || ph.blk != h {
		return lin{}, nil
	}
	body := loopBody(h)
	for e, x := range ph.edges {
		l := c.q.norm(x)
		if body[h.Preds[e]] {
			if l.atom != i.atom || l.c != 1 {
				return lin{}, nil
			}
		} else if l.v != nil || l.c+i.c != 0 {
			return lin{}, nil
		}
	}
	return i, n.v
}

// made: a list as long as another, whose elements are set from the element of the same index.
func (c *pairCheck) made(m *ssa.MakeSlice, other ssa.Value, deep bool) bool {
	n := c.q.norm(m.Len)
	if n.k != atomLen || n.c != 0 || n.v == nil || deep {
		return false
	}
	if c.q.rep(n.v) != c.q.rep(other) && !c.aligned(n.v, other, nil, false) {
		return false
	}
	some := false
	for _, u := range *m.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			st, ok := w.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(ia) {
				continue
			}
			some = true
			for _, b := range c.bases(st.Val) {
				if b.whole || b.part || b.idx != c.q.norm(ia.Index) || !(c.q.rep(b.list) == c.q.rep(other) || c.aligned(b.list, other, nil, false)) {
					return false
				}
			}
		}
	}
	return some
}

func elemStores(v ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	if v.Referrers() == nil {
		return nil
	}
	for _, u := range *v.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok && ia.X == v {
			for _, w := range *ia.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					out = append(out, st)
				}
			}
		}
	}
	return out
}

// filled: two lists of the same length get their elements in the same places.
func (c *pairCheck) filled(a, b *ssa.MakeSlice, key string) bool {
	sa, sb := elemStores(a), elemStores(b)
	used := map[*ssa.Store]bool{}
	for _, x := range sa {
		ok := false
		for _, y := range sb {
			if used[y] || !sameTimes(x.Block(), y.Block()) || c.q.norm(x.Addr.(*ssa.IndexAddr).Index) != c.q.norm(y.Addr.(*ssa.IndexAddr).Index) {
				continue
			}
			if !c.correspond(x.Val, y.Val, y.Block(), 0) {
				return c.fail(key, c.p.instrPos(y), "elements set in the two lists do not have the same position")
			}
			used[y], ok = true, true
			break
		}
		if !ok {
			return c.fail(key, c.p.instrPos(x), "the element is set in one of the two lists only")
		}
	}
	if len(used) != len(sb) {
		return c.fail(key, c.p.pos(b.Pos()), "elements are set in one of the two lists only")
	}
	c.note("aligned", key, c.p.pos(a.Pos()), "the same elements of both are set")
	return true
}

// reordered: elements of one of the lists are moved.
func (c *pairCheck) reordered(v, other ssa.Value, key string) bool {
	var refs []ssa.Instruction
	if v.Referrers() != nil {
		refs = append(refs, *v.Referrers()...)
	}
	var cell *ssa.Alloc
	if m, ok := v.(*memPhi); ok {
		cell = m.al
	} else if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		cell = pairCell(ld.X)
	}
	if cell != nil {
		for _, u := range *cell.Referrers() {
			if ld, ok := u.(*ssa.UnOp); ok {
				refs = append(refs, *ld.Referrers()...)
			}
		}
	}
	for _, u := range refs {
		if mi, ok := u.(*ssa.MakeInterface); ok {
			refs = append(refs, *mi.Referrers()...)
		}
	}
	for _, u := range refs {
		cl, ok := u.(*ssa.Call)
		if !ok {
			continue
		}
		n := calleeName(&cl.Call)
		if strings.HasPrefix(n, "sort.") && n != "sort.SearchStrings" && !strings.Contains(n, "AreSorted") && !strings.Contains(n, "IsSorted") ||
			strings.HasPrefix(n, "slices.Sort") && !strings.HasPrefix(n, "slices.Sorted") || strings.HasPrefix(n, "slices.Reverse") {
			c.fail(key, c.p.instrPos(cl), "only one of the two lists is sorted")
			return true
		}
	}
	if _, ok := v.(*ssa.MakeSlice); ok {
		return false
	}
	for _, st := range elemStores(v) {
		idx := c.q.norm(st.Addr.(*ssa.IndexAddr).Index)
		for _, b := range c.bases(st.Val) {
			if !b.whole && b.idx == idx {
				continue
			}
			// the other list gets the element of the same index
			mate := false
			for _, o := range elemStores(other) {
				if sameTimes(st.Block(), o.Block()) && c.q.norm(o.Addr.(*ssa.IndexAddr).Index) == idx && c.correspond(st.Val, o.Val, o.Block(), 0) {
					mate = true
				}
			}
			if !mate {
				c.fail(key, c.p.instrPos(st), "elements are moved in only one of the two lists")
				return true
			}
		}
	}
	return false
}

// base is an element of a list, or a whole list or text, that a value is made from.
type base struct {
	list  ssa.Value
	idx   lin // or the start of a part
	end   lin
	part  bool
	whole bool
}

// bases: what the value is made from.
func (c *pairCheck) bases(v ssa.Value) []base {
	w := &baseWalk{c: c, seen: map[ssa.Value]bool{}, out: map[base]bool{}}
	w.walk(v)
	out := make([]base, 0, len(w.out))
	for b := range w.out {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool { return baseText(out[i]) < baseText(out[j]) })
	return out
}

func baseText(b base) string { return fmt.Sprint(b.list.Name(), b.idx, b.end, b.part, b.whole) }

type baseWalk struct {
	c    *pairCheck
	seen map[ssa.Value]bool
	out  map[base]bool
}

func textual(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.Int32
	case *types.Slice:
		return textual(u.Elem())
	case *types.Interface:
		return true
	}
	return false
}

func (w *baseWalk) walk(v ssa.Value) {
	v = w.c.q.rep(v)
	if w.seen[v] {
		return
	}
	w.seen[v] = true
	if _, ok := v.Type().Underlying().(*types.Slice); ok {
		w.list(v)
		return
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		w.out[base{list: x, whole: true}] = true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			w.addr(x.X, nil)
		}
	case *ssa.Field:
		w.walk(x.X)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			w.walk(x.X)
			w.walk(x.Y)
		}
	case *ssa.Phi, *memPhi:
		for _, e := range phiOf(v).edges {
			w.walk(e)
		}
	case *ssa.Convert:
		w.walk(x.X)
	case *ssa.MakeInterface:
		w.walk(x.X)
	case *ssa.Slice:
		w.walk(x.X)
	case *ssa.Lookup:
		w.walk(x.Index)
		w.walk(x.X)
	case *ssa.Index:
		w.walk(x.X)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			w.args(t)
		case *ssa.Lookup:
			w.walk(t.Index)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				w.walk(r.X)
			}
		}
	case *ssa.Call:
		w.args(x)
	case *ssa.Alloc:
		w.addr(x, nil)
	case *ssa.IndexAddr:
		w.addr(x, nil)
	}
}

func (w *baseWalk) args(cl *ssa.Call) {
	for _, a := range cl.Call.Args {
		if textual(a.Type()) {
			w.walk(a)
		}
	}
}

// addr: what is stored at the address; path are the fields selected from it.
func (w *baseWalk) addr(a ssa.Value, path []int) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		w.addr(x.X, append([]int{x.Field}, path...))
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			l := w.c.q.rep(x.X)
			if w.derived(l) {
				w.walk(l)
				return
			}
			w.out[base{list: l, idx: w.c.q.norm(x.Index)}] = true
			return
		}
		// an array written out in place
		w.addr(x.X, nil)
	case *ssa.Alloc:
		w.stored(x, path)
	case *ssa.FreeVar:
		if al := bCell(x); al != nil {
			w.stored(al, path)
		}
	case *ssa.UnOp: // through a pointer
		w.walk(x)
	}
}

func (w *baseWalk) stored(a ssa.Value, path []int) {
	if a.Referrers() == nil {
		return
	}
	for _, u := range *a.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr == a {
				w.walk(x.Val)
			}
		case *ssa.FieldAddr:
			if len(path) == 0 {
				// parts of a copy that are changed afterwards do not move it
				if !copied(a) {
					w.shallow(x)
				}
			} else if x.Field == path[0] {
				w.stored(x, path[1:])
			}
		case *ssa.IndexAddr:
			w.stored(x, path)
		}
	}
}

// copied: the variable is set as a whole.
func copied(a ssa.Value) bool {
	for _, u := range *a.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == a {
			return true
		}
	}
	if fa, ok := a.(*ssa.FieldAddr); ok {
		return copied(fa.X)
	}
	return false
}

// shallow: values stored in the field itself.
func (w *baseWalk) shallow(fa *ssa.FieldAddr) {
	for _, u := range *fa.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
			w.walk(st.Val)
		}
	}
}

// derived: the list is computed from other lists or texts, its indexes mean nothing to others.
func (w *baseWalk) derived(l ssa.Value) bool {
	if copyOf(l) != nil {
		return false
	}
	switch x := l.(type) {
	case *ssa.Call:
		n := calleeName(&x.Call)
		return n != "builtin append" && n != "strings.Split" && n != "strings.SplitAfter"
	case *ssa.Slice:
		_, ok := x.X.Type().Underlying().(*types.Slice)
		return !ok
	}
	return false
}

func (w *baseWalk) list(v ssa.Value) {
	if x := copyOf(v); x != nil {
		w.walk(x)
		return
	}
	if isNilConst(v) {
		return
	}
	if es, ok := listElems(v); ok {
		for _, e := range es {
			w.walk(e)
		}
		return
	}
	switch x := v.(type) {
	case *ssa.Call:
		if w.derived(v) {
			w.args(x)
			return
		}
	case *ssa.Convert: // []rune(text)
		w.walk(x.X)
		return
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			l := w.c.q.rep(x.X)
			if w.derived(l) {
				w.walk(l)
				return
			}
			b := base{list: l, part: true}
			if x.Low != nil {
				b.idx = w.c.q.norm(x.Low)
			}
			if x.High != nil {
				b.end = w.c.q.norm(x.High)
			} else {
				b.end = lin{c: -1}
			}
			w.out[b] = true
			return
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			w.addr(ia, nil)
			return
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok && !w.c.pairSource(cl) {
			w.args(cl)
			return
		}
	}
	w.out[base{list: v, whole: true}] = true
}

// pairSource: the call returns more than one list.
func (c *pairCheck) pairSource(cl *ssa.Call) bool {
	n := 0
	rs := cl.Call.Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		if _, ok := rs.At(i).Type().Underlying().(*types.Slice); ok {
			n++
		}
	}
	return n > 1
}

func (c *pairCheck) baseName(b base) string {
	n := c.listName(b.list)
	if b.whole {
		return n
	}
	if b.part {
		return "part of " + n
	}
	if b.idx.v != nil {
		return fmt.Sprintf("%s[%s%+d]", n, c.listName(b.idx.v), b.idx.c)
	}
	return fmt.Sprintf("%s[%d]", n, b.idx.c)
}

// correspond: the two values are made from elements of the same position.
func (c *pairCheck) correspond(x, y ssa.Value, at *ssa.BasicBlock, depth int) bool {
	return c.try(func() bool {
		c.depth++
		defer func() { c.depth-- }()
		return c.matching(c.bases(x), c.bases(y), at, depth)
	})
}

func (c *pairCheck) matching(X, Y []base, at *ssa.BasicBlock, depth int) bool {
	key := fnKey(at.Parent()) + " elements"
	pos := c.p.pos(at.Instrs[0].Pos())
	for _, i := range at.Instrs {
		if i.Pos() != token.NoPos {
			pos = c.p.instrPos(i)
		}
	}
	if len(X) == 0 && len(Y) == 0 {
		return true
	}
	if c.try(func() bool { return c.covers(X, Y, at) && c.covers(Y, X, at) }) {
		return true
	}
	// what the callers pass
	fn := at.Parent()
	both := map[base]bool{}
	for _, a := range X {
		for _, b := range Y {
			if a == b {
				both[a] = true
			}
		}
	}
	X, Y = without(X, both), without(Y, both)
	has := false
	for _, b := range append(append([]base{}, X...), Y...) {
		if pr, ok := b.list.(*ssa.Parameter); ok && pr.Parent() == fn {
			has = true
		}
	}
	if has && depth < 5 {
		if sites := c.p.callSites(fn); len(sites) > 0 {
			for _, s := range sites {
				lx, ok1 := c.lift(X, fn, s)
				ly, ok2 := c.lift(Y, fn, s)
				if !ok1 || !ok2 || !c.matching(lx, ly, s.Block(), depth+1) {
					return c.fail(key, c.p.instrPos(s), "the arguments do not have the same position")
				}
			}
			return true
		}
	}
	names := func(bs []base) string {
		var out []string
		for _, b := range bs {
			out = append(out, c.baseName(b))
		}
		if len(out) == 0 {
			return "nothing"
		}
		return strings.Join(out, ", ")
	}
	return c.fail(key, pos, "made from "+names(X)+" and from "+names(Y))
}

func without(bs []base, drop map[base]bool) []base {
	var out []base
	for _, b := range bs {
		if !drop[b] {
			out = append(out, b)
		}
	}
	return out
}

func (c *pairCheck) covers(X, Y []base, at *ssa.BasicBlock) bool {
	for _, a := range X {
		ok := false
		for _, b := range Y {
			if a.whole != b.whole || a.part != b.part || a.idx != b.idx || a.end != b.end {
				continue
			}
			if a.list == b.list {
				ok = true
				break
			}
			_, l1 := a.list.Type().Underlying().(*types.Slice)
			_, l2 := b.list.Type().Underlying().(*types.Slice)
			if l1 && l2 && c.aligned(a.list, b.list, at, false) {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (c *pairCheck) lift(bs []base, fn *ssa.Function, s ssa.CallInstruction) ([]base, bool) {
	set := map[base]bool{}
	var out []base
	add := func(b base) {
		if !set[b] {
			set[b] = true
			out = append(out, b)
		}
	}
	for _, b := range bs {
		up := true
		raise := func(l lin) lin {
			pr, ok := l.v.(*ssa.Parameter)
			if !ok || pr.Parent() != fn || l.k == atomLen {
				return l
			}
			a := c.q.argFor(fn, pr, s)
			if a == nil {
				up = false
				return l
			}
			n := c.q.norm(a)
			n.c += l.c
			return n
		}
		idx, end := raise(b.idx), raise(b.end)
		if !up {
			return nil, false
		}
		pr, ok := b.list.(*ssa.Parameter)
		if !ok || pr.Parent() != fn {
			return nil, false
		}
		a := c.q.argFor(fn, pr, s)
		if a == nil {
			return nil, false
		}
		if b.whole {
			for _, x := range c.bases(a) {
				add(x)
			}
			continue
		}
		add(base{list: c.q.rep(a), idx: idx, end: end, part: b.part})
	}
	return out, true
}

// pieceWalk follows a text back to the text of the caller.
type pieceWalk struct {
	p     *Prog
	q     *prover
	r     *Result
	seen  map[pieceKey]bool
	found bool
}

type pieceFrame struct {
	fn     *ssa.Function
	site   ssa.CallInstruction
	parent *pieceFrame
}

type pieceKey struct {
	v  ssa.Value
	fr *pieceFrame
}

func (fr *pieceFrame) on(f *ssa.Function) *pieceFrame {
	for x := fr; x != nil; x = x.parent {
		if x.fn == f {
			return x
		}
	}
	return nil
}

func (w *pieceWalk) bad(at ssa.Instruction, v ssa.Value, why string) {
	f := v.Parent()
	pos := w.p.pos(v.Pos())
	if at != nil {
		f, pos = at.Parent(), w.p.instrPos(at)
	}
	k := "constant"
	if f != nil {
		k = fnKey(f)
	}
	if in, ok := v.(ssa.Instruction); ok {
		k += ": " + describeSite(in)
	}
	w.r.bad("source", k, pos, why)
}

func noWords(s string) bool {
	return !strings.ContainsFunc(s, func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) })
}

// cutters: functions whose result consists of pieces of the argument.
var cutters = map[string]int{
	"strings.TrimSpace": 0, "strings.Trim": 0, "strings.TrimLeft": 0, "strings.TrimRight": 0, "strings.TrimFunc": 0,
	"strings.TrimLeftFunc": 0, "strings.TrimRightFunc": 0, "strings.TrimPrefix": 0, "strings.TrimSuffix": 0,
	"strings.CutPrefix": 0, "strings.CutSuffix": 0, "strings.Cut": 0, "strings.Split": 0, "strings.SplitN": 0, "strings.SplitAfter": 0,
	"strings.SplitAfterN": 0, "strings.Fields": 0, "strings.FieldsFunc": 0, "strings.Clone": 0,
	"strings.SplitSeq": 0, "strings.SplitAfterSeq": 0, "strings.FieldsSeq": 0, "strings.FieldsFuncSeq": 0,
	"strings.ToValidUTF8": 0,
	"slices.Clone":        0, "slices.Clip": 0, "slices.Grow": 0, "slices.Delete": 0, "slices.DeleteFunc": 0, "slices.Compact": 0, "slices.Values": 0, "slices.All": 0, "slices.Chunk": 0, "slices.Collect": 0,
}

// joiners: functions whose result consists of pieces of all their arguments.
var joiners = map[string]bool{"strings.Join": true, "fmt.Sprint": true, "slices.Concat": true, "slices.Insert": true, "builtin append": true}

func (w *pieceWalk) walk(v ssa.Value, fr *pieceFrame) {
	k := pieceKey{v, fr}
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	w.writes(v, fr)
	if w.foundIn(v, fr) {
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		if s, ok := constString(x); ok && !noWords(s) {
			w.bad(nil, v, fmt.Sprintf("the text %q is not part of the caller's text", s))
		}
	case *ssa.Parameter:
		w.param(x, fr)
	case *ssa.Phi:
		for _, e := range x.Edges {
			w.walk(e, fr)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			w.addr(x.X, nil, x, fr)
		} else if x.Op == token.ARROW {
			w.bad(x, v, "received from a channel")
		}
	case *ssa.Field:
		w.field(x.X, x.Field, x, fr)
	case *ssa.ChangeType:
		w.walk(x.X, fr)
	case *ssa.Convert:
		w.walk(x.X, fr)
	case *ssa.MakeInterface:
		w.walk(x.X, fr)
	case *ssa.TypeAssert:
		w.walk(x.X, fr)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			w.walk(x.X, fr)
			w.walk(x.Y, fr)
		}
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			w.addr(al, nil, x, fr)
			return
		}
		w.walk(x.X, fr)
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			w.walk(x.X, fr)
			return
		}
		w.bad(x, v, "the text is looked up in a table")
	case *ssa.Index:
		w.walk(x.X, fr)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			w.call(t, x.Index, fr)
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				if _, ok := rg.X.Type().Underlying().(*types.Map); ok {
					w.bad(t, v, "the text comes from a table")
					return
				}
				w.walk(rg.X, fr)
			}
		case *ssa.Lookup:
			w.bad(t, v, "the text is looked up in a table")
		}
	case *ssa.Call:
		w.call(x, 0, fr)
	case *ssa.Global:
		w.global(x, fr)
	case *ssa.FreeVar:
		w.captured(x, nil, nil, fr)
	}
}

// foundIn: the text is searched for in another one, so it is a piece of that.
func (w *pieceWalk) foundIn(v ssa.Value, fr *pieceFrame) bool {
	switch v.(type) {
	case *ssa.UnOp, *ssa.Extract:
	default:
		return false
	}
	for _, u := range refs(v) {
		cl, ok := u.(*ssa.Call)
		if !ok || len(cl.Call.Args) < 2 || cl.Call.Args[1] != v {
			continue
		}
		switch calleeName(&cl.Call) {
		case "strings.Index", "strings.Cut", "strings.HasPrefix", "strings.HasSuffix", "strings.CutPrefix", "strings.CutSuffix", "strings.LastIndex":
			w.walk(cl.Call.Args[0], fr)
			return true
		}
	}
	return false
}

// writes: elements of a list that are replaced.
func (w *pieceWalk) writes(v ssa.Value, fr *pieceFrame) {
	if _, ok := v.Type().Underlying().(*types.Slice); !ok || v.Referrers() == nil {
		return
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.IndexAddr:
			if x.X == v {
				for _, s := range *x.Referrers() {
					switch st := s.(type) {
					case *ssa.Store:
						if st.Addr == ssa.Value(x) {
							w.walk(st.Val, fr)
						}
					case *ssa.UnOp: // a list in the list
						w.writes(st, fr)
					}
				}
			}
		case *ssa.Slice:
			if x.X == v {
				w.copies(x, fr)
			}
		}
	}
	w.copies(v, fr)
}

func (w *pieceWalk) copies(v ssa.Value, fr *pieceFrame) {
	if v.Referrers() == nil {
		return
	}
	for _, u := range *v.Referrers() {
		if cl, ok := u.(*ssa.Call); ok && calleeName(&cl.Call) == "builtin copy" && cl.Call.Args[0] == v {
			w.walk(cl.Call.Args[1], fr)
		}
	}
}

func (w *pieceWalk) global(g *ssa.Global, fr *pieceFrame) {
	if iv := w.p.initValue(g); iv != nil {
		ok := true
		if s, one := w.q.constText(iv, 0); one {
			ok = noWords(s)
		} else if es, list := listElems(iv); list {
			for _, e := range es {
				s, one := w.q.constText(e, 0)
				ok = ok && one && noWords(s)
			}
		} else {
			ok = false
		}
		if ok {
			return
		}
	}
	w.bad(nil, g, "the text comes from the package variable "+g.Name())
}

func (w *pieceWalk) addr(a ssa.Value, path []int, at ssa.Instruction, fr *pieceFrame) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		switch b := x.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			w.addr(b, append([]int{x.Field}, path...), at, fr)
		case *ssa.FieldAddr:
			w.addr(b, append([]int{x.Field}, path...), at, fr)
		default:
			w.anyField(fieldVar(x), at, fr)
		}
	case *ssa.IndexAddr:
		if al, ok := x.X.(*ssa.Alloc); ok {
			w.addr(al, path, at, fr)
			return
		}
		if len(path) > 0 {
			w.anyFieldOf(x.Type(), path, at, fr)
			return
		}
		w.walk(x.X, fr)
	case *ssa.Alloc:
		w.stored(x, path, at, fr)
	case *ssa.FreeVar:
		w.captured(x, path, at, fr)
	case *ssa.Global:
		w.global(x, fr)
	default:
		if len(path) > 0 {
			w.anyFieldOf(a.Type(), path, at, fr)
			return
		}
		w.bad(at, a, "the text comes from a place that cannot be followed")
	}
}

func (w *pieceWalk) anyFieldOf(t types.Type, path []int, at ssa.Instruction, fr *pieceFrame) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	var fv *types.Var
	for _, n := range path {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		fv = st.Field(n)
		t = fv.Type()
	}
	w.anyField(fv, at, fr)
}

func (w *pieceWalk) captured(x *ssa.FreeVar, path []int, at ssa.Instruction, fr *pieceFrame) {
	if al := bCell(x); al != nil {
		w.stored(al, path, at, fr)
		return
	}
	mc := closureOf(x.Parent())
	if mc == nil {
		return
	}
	for k, y := range x.Parent().FreeVars {
		if y == x {
			w.walk(mc.Bindings[k], fr)
		}
	}
}

// stored: values stored in a variable, also by the functions that capture it.
func (w *pieceWalk) stored(a ssa.Value, path []int, at ssa.Instruction, fr *pieceFrame) {
	if a.Referrers() == nil {
		return
	}
	for _, u := range *a.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr != a {
				continue
			}
			if len(path) > 0 {
				w.fieldPath(x.Val, path, at, fr)
				continue
			}
			w.walk(x.Val, fr)
		case *ssa.FieldAddr:
			if len(path) > 0 && x.Field == path[0] {
				w.stored(x, path[1:], at, fr)
			}
		case *ssa.IndexAddr:
			w.stored(x, path, at, fr)
		case *ssa.MakeClosure:
			for k, b := range x.Bindings {
				if b == a {
					w.stored(x.Fn.(*ssa.Function).FreeVars[k], path, at, fr)
				}
			}
		case *ssa.Call:
			// the bytes of a builder
			w.builder(x, a, fr)
		}
	}
}

func (w *pieceWalk) builder(cl *ssa.Call, a ssa.Value, fr *pieceFrame) {
	switch n := calleeName(&cl.Call); {
	case strings.HasSuffix(n, "Builder).WriteString") || strings.HasSuffix(n, "Builder).WriteRune") || strings.HasSuffix(n, "Builder).WriteByte") ||
		strings.HasSuffix(n, "Buffer).WriteString") || strings.HasSuffix(n, "Buffer).WriteRune"):
		if len(cl.Call.Args) == 2 && cl.Call.Args[0] == a {
			w.walk(cl.Call.Args[1], fr)
		}
	case n == "fmt.Fprintf" || n == "fmt.Fprint" || n == "io.WriteString":
		for _, x := range cl.Call.Args[1:] {
			w.walk(x, fr)
		}
	}
}

func (w *pieceWalk) fieldPath(v ssa.Value, path []int, at ssa.Instruction, fr *pieceFrame) {
	if len(path) == 0 {
		w.walk(v, fr)
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return // the zero value
	}
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		w.addr(ld.X, path, at, fr)
		return
	}
	w.anyFieldOf(v.Type(), path, at, fr)
}

func (w *pieceWalk) field(v ssa.Value, n int, at ssa.Instruction, fr *pieceFrame) {
	w.fieldPath(v, []int{n}, at, fr)
}

// anyField: whatever is stored in the field anywhere.
func (w *pieceWalk) anyField(fv *types.Var, at ssa.Instruction, fr *pieceFrame) {
	if fv == nil {
		return
	}
	n := 0
	for _, f := range w.p.fnSrc {
		if !w.p.inRepo(f) {
			continue
		}
		eachInstr(f, func(i ssa.Instruction) {
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa) == fv {
				n++
				w.walk(st.Val, fr.on(f))
			}
		})
	}
	if n == 0 {
		w.r.bad("source", "field "+fv.Name(), w.p.instrPos(at), "nothing is stored in the field the text comes from")
	}
}

func (w *pieceWalk) param(x *ssa.Parameter, fr *pieceFrame) {
	f := x.Parent()
	if here := fr.on(f); here != nil {
		if a := w.q.argFor(f, x, here.site); a != nil {
			w.walk(a, here.parent)
			return
		}
		w.iterated(x, here.parent)
		return
	}
	sites := w.p.callSites(f)
	exposed := w.p.exposed(f)
	if exposed && textParam(f) == x {
		w.found = true
	}
	n := 0
	for _, s := range sites {
		if a := w.q.argFor(f, x, s); a != nil {
			n++
			w.walk(a, nil)
		}
	}
	if n == 0 && w.iterated(x, fr) {
		return
	}
	if exposed && textParam(f) != x {
		w.bad(nil, x, "the text comes from the argument "+x.Name()+" of "+f.Name())
	}
}

// textParam: the text to search is the last text among the parameters.
func textParam(f *ssa.Function) *ssa.Parameter {
	var out *ssa.Parameter
	for _, pr := range f.Params {
		if isString(pr.Type()) {
			out = pr
		}
	}
	return out
}

// iterated: the function is the body of a loop over a sequence.
func (w *pieceWalk) iterated(x *ssa.Parameter, fr *pieceFrame) bool {
	mc := closureOf(x.Parent())
	if mc == nil {
		return false
	}
	ok := false
	for _, u := range *mc.Referrers() {
		cl, isCall := u.(*ssa.Call)
		if !isCall {
			continue
		}
		if seq, isSeq := cl.Call.Value.(*ssa.Call); isSeq && cl.Call.StaticCallee() == nil {
			ok = true
			w.walk(seq, fr.on(seq.Parent()))
		}
	}
	return ok
}

func (w *pieceWalk) call(cl *ssa.Call, idx int, fr *pieceFrame) {
	n := calleeName(&cl.Call)
	if i := strings.Index(n, "["); i > 0 {
		n = n[:i]
	}
	if k, ok := cutters[n]; ok {
		if isString(cl.Call.Args[k].Type()) || true {
			w.walk(cl.Call.Args[k], fr)
		}
		return
	}
	if n == "fmt.Sprintf" {
		format, ok := w.q.constText(cl.Call.Args[0], 0)
		if !ok || !noWords(rxVerb.ReplaceAllString(format, "")) {
			w.bad(cl, cl, "the text is formatted")
			return
		}
		w.walk(cl.Call.Args[1], fr)
		return
	}
	if joiners[n] {
		for _, a := range cl.Call.Args {
			if textual(a.Type()) {
				w.walk(a, fr)
			} else if _, ok := a.Type().Underlying().(*types.Slice); ok {
				w.walk(a, fr)
			}
		}
		return
	}
	switch {
	case n == "strings.ReplaceAll" || n == "strings.Replace":
		old, ok1 := w.q.constText(cl.Call.Args[1], 0)
		repl, ok2 := w.q.constText(cl.Call.Args[2], 0)
		if !ok1 || !ok2 || !noWords(old) || !noWords(repl) || strings.TrimSpace(old) != "" || strings.TrimSpace(repl) != "" {
			w.bad(cl, cl, "the text is changed by "+n)
			return
		}
		w.walk(cl.Call.Args[0], fr)
		return
	case strings.HasSuffix(n, "Builder).String") || strings.HasSuffix(n, "Buffer).String"):
		w.walkBuilder(cl.Call.Args[0], cl, fr)
		return
	}
	if m := methodName(n); strings.Contains(n, "egexp).") || strings.Contains(n, "regexp.") {
		switch m {
		case "ReplaceAllString", "ReplaceAllLiteralString":
			repl, ok := w.q.constText(cl.Call.Args[2], 0)
			rx := w.q.rxOf(cl.Call.Args[0])
			if !ok || strings.TrimSpace(repl) != "" || rx == nil || !blankOnly(rx) {
				w.bad(cl, cl, "the text is changed by a replacement")
				return
			}
			w.walk(cl.Call.Args[1], fr)
			return
		case "FindString", "FindStringSubmatch", "FindAllString", "FindAllStringSubmatch", "Split":
			w.walk(cl.Call.Args[1], fr)
			return
		}
	}
	gs := w.p.callees(cl)
	if len(gs) == 0 {
		w.bad(cl, cl, "the text is the result of an unknown function")
		return
	}
	for _, g := range gs {
		if !w.p.inRepo(g) || len(g.Blocks) == 0 {
			w.bad(cl, cl, "the text is changed by "+n)
			return
		}
		if fr.on(g) != nil {
			// recursion: its text arguments are pieces as well
			for _, a := range cl.Call.Args {
				if isString(a.Type()) || textual(a.Type()) {
					w.walk(a, fr)
				}
			}
			for _, ret := range returnsOf(g) {
				if idx < len(ret.Results) {
					w.walk(retValues(ret)[idx], fr.on(g))
				}
			}
			continue
		}
		sub := w.frame(g, cl, fr)
		for _, ret := range returnsOf(g) {
			if idx < len(ret.Results) {
				w.walk(retValues(ret)[idx], sub)
			}
		}
	}
}

var rxVerb = regexp.MustCompile("%[+-]?[0-9]*[svqc]")

var pieceFrames = map[pieceFrame]*pieceFrame{}

func (w *pieceWalk) frame(g *ssa.Function, cl ssa.CallInstruction, fr *pieceFrame) *pieceFrame {
	k := pieceFrame{g, cl, fr}
	if pieceFrames[k] == nil {
		pieceFrames[k] = &k
	}
	return pieceFrames[k]
}

func (w *pieceWalk) walkBuilder(a ssa.Value, at *ssa.Call, fr *pieceFrame) {
	switch x := a.(type) {
	case *ssa.Alloc:
		w.stored(x, nil, at, fr)
	case *ssa.FreeVar:
		if al := bCell(x); al != nil {
			w.stored(al, nil, at, fr)
		}
	default:
		w.bad(at, a, "the text is written by a builder that cannot be followed")
	}
}

func methodName(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

// blankOnly: the expressions match white space only.
func blankOnly(rx []*syntax.Regexp) bool {
	var blank func(r *syntax.Regexp) bool
	blank = func(r *syntax.Regexp) bool {
		switch r.Op {
		case syntax.OpLiteral:
			for _, c := range r.Rune {
				if !unicode.IsSpace(c) {
					return false
				}
			}
			return true
		case syntax.OpCharClass:
			for i := 0; i+1 < len(r.Rune); i += 2 {
				if r.Rune[i+1]-r.Rune[i] > 300 {
					return false
				}
				for c := r.Rune[i]; c <= r.Rune[i+1]; c++ {
					if !unicode.IsSpace(c) && !unicode.In(c, unicode.Cc, unicode.Cf) {
						return false
					}
				}
			}
			return true
		case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			return false
		}
		for _, s := range r.Sub {
			if !blank(s) {
				return false
			}
		}
		return true
	}
	for _, r := range rx {
		if !blank(r) {
			return false
		}
	}
	return true
}
