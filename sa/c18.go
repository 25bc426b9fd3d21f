package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = checkC18 }

// checkC18: every loop reachable from an entry point has a measure that gets smaller (or a counter that
// moves towards a fixed bound) on each round, every recursion passes on less than it got, and nothing
// waits for an event.
func checkC18(p *Prog, r *Result) {
	r.Rule = "each loop has a decreasing measure on all its back edges, each recursive call passes a shorter text or list, no operation waits for other goroutines"
	q := p.newProver()
	kinds := map[string]int{}
	nloops, nf := 0, 0
	for _, fn := range p.reachableRepo() {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		nf++
		n := 0
		for _, h := range fn.Blocks {
			c := &loopCheck{p: p, q: q, fn: fn, h: h}
			for k, b := range h.Preds {
				if h.Dominates(b) {
					c.latch = append(c.latch, k)
				}
			}
			if len(c.latch) == 0 {
				continue
			}
			nloops++
			n++
			c.body = loopBody(h)
			how := c.terminates()
			if how != "" {
				kinds[how]++
			}
			at := c.position()
			r.add(how != "", "loop", fmt.Sprintf("%s loop %d", fnKey(fn), n), at, pick(how != "", how, "nothing moves towards the end of the loop on every round"))
		}
		if cyc := irreducible(fn); cyc != nil {
			r.bad("loop", fnKey(fn)+": jumps", p.pos(fn.Pos()), "jumps form a loop that can be entered in several places")
		}
		eachInstr(fn, func(i ssa.Instruction) {
			what := ""
			switch x := i.(type) {
			case *ssa.Select:
				what = "select"
			case *ssa.Send:
				what = "a channel is sent to"
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					what = "a channel is received from"
				}
			case ssa.CallInstruction:
				switch n := calleeName(x.Common()); n {
				case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "time.Sleep", "runtime.Goexit", "(*os/exec.Cmd).Wait":
					what = n
				}
			}
			if what != "" {
				r.bad("waiting", fnKey(fn)+": "+what, p.instrPos(i), "the call waits for something that may never happen: "+what)
			}
		})
	}
	r.ok("waiting", "all functions", "", fmt.Sprintf("%d functions without channel operations, waits or sleeps", nf))
	checkRecursion(p, q, r)
	r.Analysed["functions"] = nf
	r.Analysed["loops"] = nloops
	for k, n := range kinds {
		r.Analysed["loops: "+k] = n
	}
	r.floor("loop", 20)
	r.Explanation = "Loops are found from the dominator tree of the SSA form. For each one the analysis looks for a range over a finite collection, a counter with a fixed bound, lengths that shrink (proved with the difference bounds of C17), a search in a cyclic table that contains the value, or a search for a leap year with a verified rule."
	r.Assumptions = append(r.Assumptions, "operations of the standard library and the dependencies return", "callbacks supplied by the caller return", "a loop that indexes a list with its counter ends at the latest at the end of the list (C17 shows that the index stays inside)", "jalaali.IsLeapYear fails for years outside the range it knows")
	for _, u := range sortedKeys(q.used) {
		r.Assumptions = append(r.Assumptions, u)
	}
}

type loopCheck struct {
	p     *Prog
	q     *prover
	fn    *ssa.Function
	h     *ssa.BasicBlock
	latch []int
	body  map[*ssa.BasicBlock]bool
}

func (c *loopCheck) position() string {
	for _, b := range append([]*ssa.BasicBlock{c.h}, c.fn.Blocks...) {
		if !c.body[b] {
			continue
		}
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return c.p.instrPos(i)
			}
		}
	}
	return c.p.pos(c.fn.Pos())
}

// everyLatch: the condition holds on each edge back to the header.
func (c *loopCheck) everyLatch(ok func(k int) bool) bool {
	for _, k := range c.latch {
		if !ok(k) {
			return false
		}
	}
	return len(c.latch) > 0
}

// latchLocs are the places of the k-th edge into the header.
func (c *loopCheck) latchLocs(k int) []loc {
	p := c.h.Preds[k]
	var out []loc
	for j, s := range p.Succs {
		if s == c.h {
			if len(p.Succs) > 1 {
				out = append(out, loc{p, j + 1})
			} else {
				out = append(out, startOf(p))
			}
		}
	}
	return out
}

func (c *loopCheck) invariant(v ssa.Value) bool {
	if v == nil {
		return true
	}
	if ph := phiOf(v); ph != nil && ph.blk == c.h {
		// carried along unchanged
		return c.everyLatch(func(k int) bool { return ph.edges[k] == v || c.q.rep(ph.edges[k]) == v })
	}
	d := defBlock(v)
	return d == nil || !c.body[d]
}

func (c *loopCheck) terminates() string {
	// the loop runs at most once
	if c.rangeLoop() {
		return "range over a finite collection"
	}
	ms := c.measures()
	for _, m := range ms {
		if how := c.counter(m); how != "" {
			return how
		}
	}
	if c.shrinks(ms) {
		return "texts or lists get shorter"
	}
	if c.yearSearch(ms) {
		return "search for a leap year"
	}
	if c.cyclicSearch() {
		return "search in a cyclic table"
	}
	if c.flagLoop() {
		return "a flag that is set once ends the loop"
	}
	return ""
}

// rangeLoop: each round takes the next element of a map or text that the loop does not extend.
func (c *loopCheck) rangeLoop() bool {
	for b := range c.body {
		for _, i := range b.Instrs {
			nx, ok := i.(*ssa.Next)
			if !ok || !c.everyLatch(func(k int) bool { return b.Dominates(c.h.Preds[k]) }) {
				continue
			}
			rg, ok := nx.Iter.(*ssa.Range)
			if !ok || c.body[rg.Block()] {
				continue
			}
			// the loop is left when there is none
			left := c.everyLatch(func(k int) bool {
				for _, l := range c.latchLocs(k) {
					for _, f := range l.facts() {
						if ex, ok := f.Cond.(*ssa.Extract); ok && ex.Tuple == ssa.Value(nx) && ex.Index == 0 && f.Val {
							return true
						}
					}
				}
				return false
			})
			if !left {
				continue
			}
			grows := false
			for d := range c.body {
				for _, j := range d.Instrs {
					if mu, ok := j.(*ssa.MapUpdate); ok && c.q.sameMap(mu.Map, rg.X) {
						// an entry that exists is only replaced
						if ex, ok := c.q.rep(mu.Key).(*ssa.Extract); !ok || ex.Tuple != ssa.Value(nx) {
							grows = true
						}
					}
				}
			}
			if !grows {
				return true
			}
		}
	}
	return false
}

// measures are the numbers and lengths that the loop carries from round to round.
func (c *loopCheck) measures() []lin {
	var out []lin
	seen := map[ssa.Value]bool{}
	add := func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		ph := phiOf(v)
		if ph == nil || ph.blk != c.h {
			return
		}
		switch t := v.Type().Underlying().(type) {
		case *types.Basic:
			if t.Info()&types.IsInteger != 0 {
				out = append(out, lin{atom{k: atomVal, v: v}, 0})
			}
			if t.Info()&types.IsString != 0 {
				out = append(out, lin{atom{k: atomLen, v: v}, 0})
			}
		case *types.Slice, *types.Map:
			out = append(out, lin{atom{k: atomLen, v: v}, 0})
		}
	}
	for _, i := range c.h.Instrs {
		if ph, ok := i.(*ssa.Phi); ok {
			add(ph)
		}
	}
	for _, b := range c.fn.Blocks {
		if !c.body[b] {
			continue
		}
		for _, i := range b.Instrs {
			if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL {
				add(c.q.rep(u))
			}
		}
	}
	return out
}

// next is the measure after the round that ends with the k-th edge.
func (c *loopCheck) next(m lin, k int) lin { return c.q.quantity(phiOf(m.v).edges[k], m.k) }

// up and down: how far the measure moves at least (1) or that it does not move the other way (0).
func (c *loopCheck) up(m lin, k int, n int64) bool {
	c.q.reset()
	return c.q.edgeDiff(m, c.next(m, k), -n, c.h, k)
}
func (c *loopCheck) down(m lin, k int, n int64) bool {
	c.q.reset()
	return c.q.edgeDiff(c.next(m, k), m, -n, c.h, k)
}

// counter: the number moves in one direction on each round and has a fixed bound there.
func (c *loopCheck) counter(m lin) string {
	if m.k != atomVal {
		if c.everyLatch(func(k int) bool { return c.down(m, k, 1) }) {
			return "a text or list gets shorter"
		}
		return ""
	}
	if c.everyLatch(func(k int) bool { return c.up(m, k, 1) }) && c.bounded(m, true) {
		return "a counter moves to a bound"
	}
	if c.everyLatch(func(k int) bool { return c.down(m, k, 1) }) && c.bounded(m, false) {
		return "a counter moves to a bound"
	}
	if c.stepped(m) && c.bounded(m, true) && c.bounded(m, false) {
		return "a counter moves to a bound"
	}
	return ""
}

// step: the fixed number, never zero, that is added to the counter on each round.
func (c *loopCheck) step(m lin) ssa.Value {
	var step ssa.Value
	for _, k := range c.latch {
		l := c.next(m, k)
		b, ok := l.v.(*ssa.BinOp)
		if !ok || l.k != atomVal || l.c != 0 || b.Op != token.ADD && b.Op != token.SUB {
			return nil
		}
		var s ssa.Value
		if c.q.rep(b.X) == m.v {
			s = b.Y
		} else if c.q.rep(b.Y) == m.v && b.Op == token.ADD {
			s = b.X
		}
		if s == nil || step != nil && s != step {
			return nil
		}
		step = s
	}
	if step == nil || !c.invariant(step) {
		return nil
	}
	if !c.neverZero(step, map[ssa.Value]bool{}) {
		return nil
	}
	return step
}

// stepped: the counter always moves in the same direction, decided by something fixed.
func (c *loopCheck) stepped(m lin) bool { return c.step(m) != nil || c.split(m) != nil }

// split: the steps of the ways through the loop if a fixed condition chooses the direction.
func (c *loopCheck) split(m lin) map[int64]bool {
	ws, ok := c.paths()
	if !ok {
		return nil
	}
	out := map[int64]bool{}
	type side struct{ up, down bool }
	by := map[Fact]side{}
	conds := map[ssa.Value]int{}
	for _, w := range ws {
		last := w.blocks[len(w.blocks)-1]
		for k, p := range c.h.Preds {
			if p != last {
				continue
			}
			l := c.q.norm(w.value(phiOf(m.v).edges[k], c.h))
			if l.atom != m.atom || l.c == 0 {
				return nil
			}
			out[l.c] = true
			seen := map[ssa.Value]bool{}
			for _, f := range w.facts {
				if seen[f.Cond] || !c.invariant(f.Cond) {
					continue
				}
				seen[f.Cond] = true
				conds[f.Cond]++
				s := by[f]
				if l.c > 0 {
					s.up = true
				} else {
					s.down = true
				}
				by[f] = s
			}
		}
	}
	for cond, n := range conds {
		t, f := by[Fact{cond, true}], by[Fact{cond, false}]
		if n == len(ws) && !(t.up && t.down) && !(f.up && f.down) {
			return out
		}
	}
	return nil
}

func (c *loopCheck) neverZero(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	v = c.q.rep(v)
	if n, ok := constInt(v); ok {
		return n != 0
	}
	if ph := phiOf(v); ph != nil {
		for _, e := range ph.edges {
			if !c.neverZero(e, seen) {
				return false
			}
		}
		return true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.SUB && c.neverZero(x.X, seen)
	case *ssa.Parameter:
		sites := c.q.sites(x.Parent())
		for _, s := range sites {
			a := c.q.argFor(x.Parent(), x, s)
			if a == nil || !c.neverZero(a, seen) {
				return false
			}
		}
		return len(sites) > 0
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !c.p.inRepo(g) || len(g.Blocks) == 0 {
			return false
		}
		for _, ret := range returnsOf(g) {
			if !c.neverZero(retValues(ret)[0], seen) {
				return false
			}
		}
		return true
	}
	return false
}

// bounded: on each edge back to the header the counter is known to be below (or above) something fixed.
func (c *loopCheck) bounded(m lin, upper bool) bool {
	q := c.q
	q.reset()
	fixed := func(a atom) bool {
		if a.v == nil || c.invariant(a.v) || c.reread(a) {
			return true
		}
		// another measure that does not run away
		if ph := phiOf(a.v); ph != nil && ph.blk == c.h {
			o := lin{a, 0}
			return c.everyLatch(func(k int) bool {
				if upper {
					return c.down(o, k, 0)
				}
				return c.up(o, k, 0)
			})
		}
		return false
	}
	byFacts := c.everyLatch(func(k int) bool {
		ls := c.latchLocs(k)
		for _, l := range ls {
			ok := false
			for _, i := range q.ineqs(l) {
				n := c.next(m, k).atom
				if upper && (i.x == m.atom || i.x == n) && fixed(i.y) || !upper && (i.y == m.atom || i.y == n) && fixed(i.x) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return len(ls) > 0
	})
	if byFacts {
		return true
	}
	// what the counter is compared with, and the lists it indexes
	for _, b := range c.fn.Blocks {
		if !c.body[b] {
			continue
		}
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				default:
					continue
				}
				if !isInt(x.X.Type()) {
					continue
				}
				a, o := q.norm(x.X), q.norm(x.Y)
				for t := 0; t < 2; t++ {
					if a.atom == m.atom && fixed(o.atom) {
						lim := o
						lim.c -= a.c
						if upper && q.le(m, lim, c.h) || !upper && q.le(lim, m, c.h) {
							return true
						}
					}
					a, o = o, a
				}
			case *ssa.IndexAddr:
				if c.indexed(m, x.X, x.Index, b) {
					return true
				}
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Basic); ok && c.indexed(m, x.X, x.Index, b) {
					return true
				}
			case *ssa.Slice:
				for _, o := range []ssa.Value{x.Low, x.High} {
					if o != nil && c.indexed(m, x.X, o, b) {
						return true
					}
				}
			}
		}
	}
	return !upper && q.ge(m, 0, c.h)
}

// reread: each round reads the length of a list in a field again, and nothing in the loop writes such a field.
func (c *loopCheck) reread(a atom) bool {
	if a.k != atomLen {
		return false
	}
	ld, ok := a.v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	if _, ok := ld.X.(*ssa.FieldAddr); !ok {
		return false
	}
	for b := range c.body {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				t := x.Val.Type()
				if _, ok := t.Underlying().(*types.Struct); ok || types.Identical(t, ld.Type()) {
					return false
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g == nil && !strings.HasPrefix(calleeName(&x.Call), "builtin ") || g != nil && c.p.inRepo(g) {
					return false
				}
			}
		}
	}
	return true
}

// indexed: each round accesses a fixed list at the counter.
func (c *loopCheck) indexed(m lin, list, idx ssa.Value, b *ssa.BasicBlock) bool {
	l := c.q.norm(idx)
	return l.atom == m.atom && c.invariant(c.q.rep(list)) && c.everyLatch(func(k int) bool { return b.Dominates(c.h.Preds[k]) })
}

// shrinks: none of the lengths grows, and on each way through the loop one of them gets smaller.
func (c *loopCheck) shrinks(ms []lin) bool {
	var set []lin
	for _, m := range ms {
		if m.k == atomLen {
			set = append(set, m)
		}
	}
	if len(set) == 0 {
		return false
	}
	paths, ok := c.paths()
	if !ok {
		return false
	}
	// a length that may grow somewhere does not count
	for {
		var keep []lin
		for _, m := range set {
			good := true
			for _, w := range paths {
				if c.change(m, w) == relNone {
					good = false
					break
				}
			}
			if good {
				keep = append(keep, m)
			}
		}
		if len(keep) == len(set) {
			break
		}
		set = keep
	}
	for _, w := range paths {
		strict := false
		for _, m := range set {
			if c.change(m, w) == relLess {
				strict = true
			}
		}
		if !strict {
			return false
		}
	}
	return len(paths) > 0 && len(set) > 0
}

// way is a path through the body from the header back to it.
type way struct {
	blocks []*ssa.BasicBlock
	facts  []Fact
}

// paths lists the ways through the body; inner loops are passed once at most.
func (c *loopCheck) paths() ([]way, bool) {
	var out []way
	var walk func(b *ssa.BasicBlock, blocks []*ssa.BasicBlock, fs []Fact) bool
	walk = func(b *ssa.BasicBlock, blocks []*ssa.BasicBlock, fs []Fact) bool {
		blocks = append(append([]*ssa.BasicBlock{}, blocks...), b)
		for k, s := range b.Succs {
			if !c.body[s] {
				continue
			}
			nf := append([]Fact{}, fs...)
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
				nf = append(nf, Fact{iff.Cond, k == 0})
			}
			if s == c.h {
				if len(out) > 200 {
					return false
				}
				out = append(out, way{blocks, nf})
				continue
			}
			again := false
			for _, x := range blocks {
				again = again || x == s
			}
			if again {
				continue
			}
			if !walk(s, blocks, nf) {
				return false
			}
		}
		return true
	}
	ok := walk(c.h, nil, nil)
	if !ok {
		return nil, false
	}
	// ways that contradict themselves
	var live []way
	for i := range out {
		if out[i].resolve() {
			live = append(live, out[i])
		}
	}
	return c.again(live), true
}

// again leaves out the ways after which a flag ends the loop.
func (c *loopCheck) again(ws []way) []way {
	type fl struct {
		ph  *ssa.Phi
		val bool
	}
	count := map[fl]int{}
	for _, w := range ws {
		seen := map[fl]bool{}
		for _, f := range w.facts {
			if ph, ok := f.Cond.(*ssa.Phi); ok && ph.Block() == c.h && !seen[fl{ph, f.Val}] {
				seen[fl{ph, f.Val}] = true
				count[fl{ph, f.Val}]++
			}
		}
	}
	var out []way
	for _, w := range ws {
		last := w.blocks[len(w.blocks)-1]
		more := true
		for f, n := range count {
			if n != len(ws) {
				continue
			}
			for k, p := range c.h.Preds {
				if p == last {
					w.facts = append(w.facts, Fact{f.ph.Edges[k], f.val})
				}
			}
		}
		if !w.resolve() {
			more = false
		}
		if more {
			out = append(out, w)
		}
	}
	return out
}

// value follows the merges along the way.
func (w *way) value(v ssa.Value, h *ssa.BasicBlock) ssa.Value {
	for n := 0; n < 20; n++ {
		ph, ok := v.(*ssa.Phi)
		if !ok || ph.Block() == h {
			return v
		}
		next := ssa.Value(nil)
		for i := 1; i < len(w.blocks); i++ {
			if w.blocks[i] != ph.Block() {
				continue
			}
			for k, p := range ph.Block().Preds {
				if p == w.blocks[i-1] {
					next = ph.Edges[k]
				}
			}
		}
		if next == nil {
			return v
		}
		v = next
	}
	return v
}

func (w *way) resolve() bool {
	h := w.blocks[0]
	var out []Fact
	for _, f := range w.facts {
		v, val := f.Cond, f.Val
		for n := 0; n < 10; n++ {
			v = w.value(v, h)
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
				v, val = u.X, !val
				continue
			}
			break
		}
		if b, ok := constBool(v); ok {
			if b != val {
				return false
			}
			continue
		}
		out = append(out, Fact{v, val})
	}
	seen := map[ssa.Value]bool{}
	for _, f := range out {
		if b, ok := seen[f.Cond]; ok && b != f.Val {
			return false
		}
		seen[f.Cond] = f.Val
	}
	w.facts = expandFacts(out)
	return true
}

// change of the length along the way.
func (c *loopCheck) change(m lin, w way) rel {
	q := c.q
	q.reset()
	last := w.blocks[len(w.blocks)-1]
	for k, p := range c.h.Preds {
		if p != last {
			continue
		}
		v := w.value(phiOf(m.v).edges[k], c.h)
		if q.rep(v) == m.v {
			return relLeq
		}
		if cl, idx := callResult(v); cl != nil {
			if r := c.result(cl, idx, m.v, w); r != relNone {
				return r
			}
		}
		if sl, ok := v.(*ssa.Call); ok && calleeName(&sl.Call) == "builtin append" {
			// append(a[:i], a[j:]...)
			return q.within(v, m.v, startOf(last), 0)
		}
		l := q.quantity(v, m.k)
		at := startOf(last)
		if d := defBlock(v); d != nil && c.body[d] && d != last {
			at = startOf(last)
		}
		if q.diff(l.atom, m.atom, -1-l.c, at) {
			return relLess
		}
		if q.diff(l.atom, m.atom, -l.c, at) {
			return relLeq
		}
		return q.within(v, m.v, at, 0)
	}
	return relNone
}

// result: the call gets the list and returns less of it, given what the way tells about its other results.
func (c *loopCheck) result(cl *ssa.Call, idx int, base ssa.Value, w way) rel {
	g := cl.Call.StaticCallee()
	if g == nil || !c.p.inRepo(g) || len(g.Blocks) == 0 {
		return relNone
	}
	var pr *ssa.Parameter
	off := 0
	for k, a := range cl.Call.Args {
		if c.q.rep(w.value(a, c.h)) == base && k-off < len(g.Params) {
			pr = g.Params[k-off]
		}
	}
	if pr == nil {
		return relNone
	}
	out := relLess
	for _, ret := range returnsOf(g) {
		vs := retValues(ret)
		possible := true
		for _, f := range w.facts {
			if c2, j := callResult(f.Cond); c2 == cl && j < len(vs) {
				if b, ok := constBool(vs[j]); ok && b != f.Val {
					possible = false
				}
			}
			if v, isNil, ok := nilFact(f); ok {
				if c2, j := callResult(v); c2 == cl && j < len(vs) && isNil && nonNilErr(vs[j]) {
					possible = false
				}
			}
		}
		if !possible {
			continue
		}
		c.q.reset()
		r := c.q.within(vs[idx], pr, startOf(ret.Block()), 0)
		if r != relLess {
			a, b := c.q.lenOf(vs[idx]), c.q.lenOf(pr)
			if c.q.diff(a.atom, b.atom, b.c-a.c-1, startOf(ret.Block())) {
				r = relLess
			} else if r == relNone && c.q.diff(a.atom, b.atom, b.c-a.c, startOf(ret.Block())) {
				r = relLeq
			}
		}
		if r < out {
			out = r
		}
	}
	return out
}

// yearSearch: the counter moves by a fixed step until a leap year is found; leap years come again and
// again, or the library reports that the year is outside of what it knows.
func (c *loopCheck) yearSearch(ms []lin) bool {
	for _, m := range ms {
		if m.k != atomVal {
			continue
		}
		if !c.stepped(m) && !c.everyLatch(func(k int) bool { return c.up(m, k, 1) }) && !c.everyLatch(func(k int) bool { return c.down(m, k, 1) }) {
			continue
		}
		steps, ok := c.steps(m)
		if !ok {
			continue
		}
		m := m
		of := func(cl *ssa.Call) bool {
			if len(cl.Call.Args) != 1 {
				return false
			}
			a := c.q.norm(cl.Call.Args[0])
			if a.atom == m.atom {
				return true
			}
			for _, k := range c.latch {
				if n := c.next(m, k); n.atom == a.atom {
					return true
				}
			}
			return false
		}
		found := c.everyLatch(func(k int) bool {
			for _, l := range c.latchLocs(k) {
				for _, f := range l.facts() {
					if cl, idx := callResult(f.Cond); cl != nil && !f.Val && idx == 0 && c.body[cl.Block()] && of(cl) {
						if g := cl.Call.StaticCallee(); g != nil && c.p.inRepo(g) && len(g.Params) == 1 && c.recurs(g, steps) {
							return true
						}
					}
					if v, isNil, ok := nilFact(f); ok && isNil {
						if cl, idx := callResult(v); cl != nil && idx == 1 && c.body[cl.Block()] && of(cl) && strings.HasSuffix(calleeName(&cl.Call), "jalaali.IsLeapYear") {
							return true
						}
					}
				}
			}
			return false
		})
		if found {
			return true
		}
	}
	return false
}

// steps are the constants that may be added to the counter.
func (c *loopCheck) steps(m lin) (map[int64]bool, bool) {
	if s := c.split(m); s != nil {
		return s, true
	}
	out := map[int64]bool{}
	ok := true
	var consts func(v ssa.Value, sign int64, seen map[ssa.Value]bool)
	consts = func(v ssa.Value, sign int64, seen map[ssa.Value]bool) {
		v = c.q.rep(v)
		if seen[v] {
			return
		}
		seen[v] = true
		if n, is := constInt(v); is {
			out[sign*n] = true
			return
		}
		if ph := phiOf(v); ph != nil {
			for _, e := range ph.edges {
				consts(e, sign, seen)
			}
			return
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.SUB {
				consts(x.X, -sign, seen)
				return
			}
		case *ssa.Parameter:
			for _, s := range c.q.sites(x.Parent()) {
				if a := c.q.argFor(x.Parent(), x, s); a != nil {
					consts(a, sign, seen)
				} else {
					ok = false
				}
			}
			if len(c.q.sites(x.Parent())) > 0 {
				return
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && c.p.inRepo(g) && len(g.Blocks) > 0 {
				for _, ret := range returnsOf(g) {
					consts(retValues(ret)[0], sign, seen)
				}
				return
			}
		}
		ok = false
	}
	for _, k := range c.latch {
		l := c.next(m, k)
		if l.atom == m.atom {
			out[l.c] = true
			continue
		}
		b, is := l.v.(*ssa.BinOp)
		if !is || l.c != 0 {
			return nil, false
		}
		switch {
		case b.Op == token.ADD && c.q.rep(b.X) == m.v:
			consts(b.Y, 1, map[ssa.Value]bool{})
		case b.Op == token.ADD && c.q.rep(b.Y) == m.v:
			consts(b.X, 1, map[ssa.Value]bool{})
		case b.Op == token.SUB && c.q.rep(b.X) == m.v:
			consts(b.Y, -1, map[ssa.Value]bool{})
		default:
			return nil, false
		}
	}
	return out, ok && len(out) > 0 && !out[0]
}

// recurs: with any of the steps, the question is answered with yes sooner or later from every year on.
func (c *loopCheck) recurs(g *ssa.Function, steps map[int64]bool) bool {
	w := &monthEnd{p: c.p}
	if w.leapRule(g) != "" {
		return false
	}
	leap := func(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
	for s := range steps {
		for y := int64(0); y < 400; y++ {
			hit := false
			for n := int64(1); n <= 400 && !hit; n++ {
				hit = leap((((y + n*s) % 400) + 400) % 400)
			}
			if !hit {
				return false
			}
		}
	}
	return true
}

// cyclicSearch: the index goes through all entries of a table that contains the text looked for.
func (c *loopCheck) cyclicSearch() bool {
	for _, i := range c.h.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if isInt(ph.Type()) && c.cyclesThrough(ph) {
			return true
		}
	}
	return false
}

// entryTest is a condition that compares an entry of a table with a text.
type entryTest struct {
	cond  ssa.Value // a comparison or a call that makes it
	eq    bool
	idx   ssa.Value
	text  ssa.Value
	names []string
}

func (c *loopCheck) entryTest() *entryTest {
	compare := func(x *ssa.BinOp) *entryTest {
		if x.Op != token.EQL && x.Op != token.NEQ || !isString(x.X.Type()) {
			return nil
		}
		for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if u, ok := o[0].(*ssa.UnOp); ok {
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					if t := c.p.tableTexts(ia.X); len(t) > 0 {
						return &entryTest{x, x.Op == token.EQL, ia.Index, o[1], t}
					}
				}
			}
		}
		return nil
	}
	for b := range c.body {
		if !c.everyLatch(func(k int) bool { return b.Dominates(c.h.Preds[k]) }) {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		switch x := iff.Cond.(type) {
		case *ssa.BinOp:
			if t := compare(x); t != nil && c.invariant(c.q.rep(t.text)) {
				return t
			}
		case *ssa.Call:
			// a function that only compares
			g := x.Call.StaticCallee()
			if mc, ok := c.q.rep(x.Call.Value).(*ssa.MakeClosure); ok {
				g, _ = mc.Fn.(*ssa.Function)
			}
			if g == nil || len(g.Blocks) != 1 {
				continue
			}
			rets := returnsOf(g)
			if len(rets) != 1 {
				continue
			}
			bo, ok := retValues(rets[0])[0].(*ssa.BinOp)
			if !ok {
				continue
			}
			t := compare(bo)
			if t == nil {
				continue
			}
			pr, ok := t.idx.(*ssa.Parameter)
			if !ok {
				continue
			}
			text := c.q.rep(t.text)
			for k, q := range g.Params {
				if k >= len(x.Call.Args) {
					break
				}
				if q == pr {
					t.idx = x.Call.Args[k]
				}
				if text == ssa.Value(q) {
					text = x.Call.Args[k]
				}
			}
			if u, ok := text.(*ssa.UnOp); ok {
				if fv, ok := u.X.(*ssa.FreeVar); ok {
					if v := capturedValue(fv); v != nil {
						text = v
					}
				}
			}
			t.cond, t.text = x, text
			return t
		}
	}
	return nil
}

func (c *loopCheck) cyclesThrough(ph *ssa.Phi) bool {
	q := c.q
	t := c.entryTest()
	if t == nil || !weekdayText(q, t.text, t.names) {
		return false
	}
	n := int64(len(t.names))
	// the index is the remainder of a sum with the counter, or the counter stays within the table
	sum := c.remainder(ph, t.idx, n)
	if !sum && (!q.ge(q.norm(ph), 0, c.h) || !q.le(q.norm(ph), konst(n-1), c.h)) {
		return false
	}
	limit := int64(1)
	free := c.freeInts(ph, t.idx)
	if len(free) > 1 {
		return false
	}
	if len(free) == 1 {
		limit = n
	}
	for start := int64(0); start < n; start++ {
		for other := int64(0); other < limit; other++ {
			env := map[ssa.Value]int64{}
			for _, v := range free {
				env[v] = other
			}
			seen := map[int64]bool{}
			at := start
			for round := int64(0); round <= n; round++ {
				i, next, ok := c.round(ph, at, t, env)
				if !ok {
					return false
				}
				seen[i] = true
				at = next
			}
			if int64(len(seen)) != n {
				return false
			}
		}
	}
	return true
}

// remainder: the index is (something + counter) % n, and the counter changes by a constant.
func (c *loopCheck) remainder(ph *ssa.Phi, idx ssa.Value, n int64) bool {
	b, ok := idx.(*ssa.BinOp)
	if !ok || b.Op != token.REM {
		return false
	}
	if k, ok := constInt(b.Y); !ok || k != n {
		return false
	}
	var linear func(v ssa.Value) bool
	linear = func(v ssa.Value) bool {
		if x, ok := v.(*ssa.BinOp); ok && v != ssa.Value(ph) {
			return (x.Op == token.ADD || x.Op == token.SUB) && linear(x.X) && linear(x.Y)
		}
		return true
	}
	if !linear(b.X) {
		return false
	}
	return c.everyLatch(func(k int) bool { return c.q.norm(ph.Edges[k]).v == ssa.Value(ph) })
}

// freeInts are the fixed numbers besides constants that the value is computed from.
func (c *loopCheck) freeInts(ph *ssa.Phi, v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v == ssa.Value(ph) {
			return
		}
		seen[v] = true
		if _, ok := constInt(v); ok {
			return
		}
		if b, ok := v.(*ssa.BinOp); ok && c.body[b.Block()] {
			walk(b.X)
			walk(b.Y)
			return
		}
		if c.invariant(v) {
			out = append(out, v)
		}
	}
	walk(v)
	return out
}

// round evaluates one round of the loop that does not find the text: the index that was compared and
// the next value of the counter.
func (c *loopCheck) round(ph *ssa.Phi, val int64, t *entryTest, free map[ssa.Value]int64) (int64, int64, bool) {
	env := map[ssa.Value]int64{ph: val}
	for v, n := range free {
		env[v] = n
	}
	var eval func(v ssa.Value) (int64, bool)
	eval = func(v ssa.Value) (int64, bool) {
		if n, ok := constInt(v); ok {
			return n, true
		}
		if n, ok := env[v]; ok {
			return n, true
		}
		switch x := v.(type) {
		case *ssa.Convert:
			return eval(x.X)
		case *ssa.ChangeType:
			return eval(x.X)
		case *ssa.BinOp:
			a, ok1 := eval(x.X)
			b, ok2 := eval(x.Y)
			if !ok1 || !ok2 {
				return 0, false
			}
			is := func(ok bool) (int64, bool) {
				if ok {
					return 1, true
				}
				return 0, true
			}
			switch x.Op {
			case token.ADD:
				return a + b, true
			case token.SUB:
				return a - b, true
			case token.MUL:
				return a * b, true
			case token.REM:
				if b != 0 {
					return a % b, true
				}
			case token.EQL:
				return is(a == b)
			case token.NEQ:
				return is(a != b)
			case token.LSS:
				return is(a < b)
			case token.LEQ:
				return is(a <= b)
			case token.GTR:
				return is(a > b)
			case token.GEQ:
				return is(a >= b)
			}
		}
		return 0, false
	}
	compared, have := int64(0), false
	b := c.h
	for steps := 0; steps < 50; steps++ {
		var next *ssa.BasicBlock
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Jump:
			next = b.Succs[0]
		case *ssa.If:
			if x.Cond == t.cond {
				i, ok := eval(t.idx)
				if !ok {
					return 0, 0, false
				}
				compared, have = i, true
				next = b.Succs[pick2(t.eq, 1, 0)]
			} else if n, ok := eval(x.Cond); ok {
				next = b.Succs[pick2(n != 0, 0, 1)]
			}
		}
		if next == nil || !c.body[next] {
			return 0, 0, false
		}
		upd := map[ssa.Value]int64{}
		for _, i := range next.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range next.Preds {
				if pr == b {
					if n, ok := eval(p.Edges[k]); ok {
						upd[p] = n
					}
				}
			}
			delete(env, p)
		}
		for v, n := range upd {
			env[v] = n
		}
		if next == c.h {
			n, ok := env[ph]
			return compared, n, ok && have
		}
		b = next
	}
	return 0, 0, false
}

func pick2(ok bool, a, b int) int {
	if ok {
		return a
	}
	return b
}

// tableTexts are the constant entries of a package variable (array or list).
func (p *Prog) tableTexts(v ssa.Value) []string {
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	g, ok := v.(*ssa.Global)
	if !ok {
		return nil
	}
	if sl := p.initValue(g); sl != nil {
		return sliceConsts(sl)
	}
	// an array is filled in place
	out := map[int64]string{}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	bad := false
	eachInstr(init, func(i ssa.Instruction) {
		st, ok := i.(*ssa.Store)
		if !ok {
			return
		}
		if ia, ok := st.Addr.(*ssa.IndexAddr); ok && ia.X == ssa.Value(g) {
			k, ok1 := constInt(ia.Index)
			s, ok2 := constString(st.Val)
			if !ok1 || !ok2 {
				bad = true
			}
			out[k] = s
		}
	})
	var list []string
	for k := int64(0); k < int64(len(out)); k++ {
		s, ok := out[k]
		if !ok {
			return nil
		}
		list = append(list, s)
	}
	if bad {
		return nil
	}
	return list
}

// weekdayText: the text is the beginning of the name of a weekday in lower case, and the table has the
// beginnings of all of them.
func weekdayText(q *prover, text ssa.Value, names []string) bool {
	lower, cut := false, int64(-1)
	v := q.rep(text)
	for n := 0; n < 6; n++ {
		switch x := v.(type) {
		case *ssa.Call:
			if calleeName(&x.Call) == "strings.ToLower" {
				lower = true
				v = q.rep(x.Call.Args[0])
				continue
			}
		case *ssa.Slice:
			if x.High != nil && (x.Low == nil || zeroDivisor(x.Low)) {
				if k, ok := constInt(x.High); ok {
					cut = k
				}
				v = q.rep(x.X)
				continue
			}
		}
		break
	}
	if !lower || cut < 0 {
		return false
	}
	have := map[string]bool{}
	for _, s := range names {
		have[s] = true
	}
	for d := time.Sunday; d <= time.Saturday; d++ {
		s := strings.ToLower(d.String())
		if cut > int64(len(s)) || !have[s[:cut]] {
			return false
		}
	}
	return true
}

// flagLoop: the header tests a flag that is set on the first round and stays set.
func (c *loopCheck) flagLoop() bool {
	for _, i := range c.h.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if !isBool(ph.Type()) {
			continue
		}
		iff, ok := c.h.Instrs[len(c.h.Instrs)-1].(*ssa.If)
		if !ok || iff.Cond != ssa.Value(ph) {
			continue
		}
		stay := c.body[c.h.Succs[0]]
		if c.everyLatch(func(k int) bool { b, ok := constBool(ph.Edges[k]); return ok && b != stay }) {
			return true
		}
	}
	return false
}

// irreducible: a cycle whose blocks are not dominated by one of them.
func irreducible(fn *ssa.Function) *ssa.BasicBlock {
	color := map[*ssa.BasicBlock]int{}
	var bad *ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		color[b] = 1
		for _, s := range b.Succs {
			if color[s] == 1 && !s.Dominates(b) {
				bad = s
			}
			if color[s] == 0 {
				walk(s)
			}
		}
		color[b] = 2
	}
	if len(fn.Blocks) > 0 {
		walk(fn.Blocks[0])
	}
	return bad
}

// checkRecursion: functions that call each other in a circle pass on less than they got.
func checkRecursion(p *Prog, q *prover, r *Result) {
	in := map[*ssa.Function]bool{}
	for _, f := range p.reachableRepo() {
		in[f] = true
	}
	type edge struct {
		from, to *ssa.Function
		site     ssa.CallInstruction
	}
	out := map[*ssa.Function][]edge{}
	g := p.callGraph()
	for f := range in {
		n := g.Nodes[f]
		if n == nil {
			continue
		}
		for _, e := range n.Out {
			if in[e.Callee.Func] {
				out[f] = append(out[f], edge{f, e.Callee.Func, e.Site})
			}
		}
	}
	reaches := func(a, b *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		work := []*ssa.Function{a}
		for len(work) > 0 {
			f := work[len(work)-1]
			work = work[:len(work)-1]
			if f == b {
				return true
			}
			if seen[f] {
				continue
			}
			seen[f] = true
			for _, e := range out[f] {
				work = append(work, e.to)
			}
		}
		return false
	}
	n := 0
	for _, f := range p.reachableRepo() {
		for _, e := range out[f] {
			if !reaches(e.to, f) || e.site == nil {
				continue
			}
			n++
			args := e.site.Common().Args
			ok := false
			if len(args) == len(e.to.Params) {
				for _, own := range f.Params {
					for k, a := range args {
						// the same parameter gets less, or the circle is direct
						if e.to == f && f.Params[k] != own {
							continue
						}
						if !types.Identical(a.Type(), own.Type()) {
							continue
						}
						at := startOf(e.site.Block())
						q.reset()
						if q.within(a, own, at, 0) == relLess {
							ok = true
						}
						if isInt(own.Type()) && q.le(lin{q.norm(a).atom, q.norm(a).c + 1}, q.norm(own), e.site.Block()) && q.ge(q.norm(own), 0, e.site.Block()) {
							ok = true
						}
					}
				}
			}
			r.add(ok, "recursion", fmt.Sprintf("%s calls %s", fnKey(f), fnKey(e.to)), p.instrPos(e.site), pick(ok, "passes on a shorter text or list", "the call may come back here with the same arguments: none of them is shorter than what the function got"))
		}
	}
	if n == 0 {
		r.ok("recursion", "all functions", "", "no function calls itself, directly or through others")
	}
	r.Analysed["recursive calls"] = n
}
