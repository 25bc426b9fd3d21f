package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Path queries: does every path from one point to another cross an edge on which something is known?

// edgeImplies lifts a predicate on a single branch fact to edges, looking through boolean helper
// functions of the repository (a helper implies the fact if each of its matching outcomes does).
type edgeImplies struct {
	p    *Prog
	base func(Fact) bool
	memo map[refEdge]int
	fn   map[fnOutcome]int
}

type fnOutcome struct {
	f   *ssa.Function
	idx int
	val bool
}

func (p *Prog) implies(base func(Fact) bool) *edgeImplies {
	return &edgeImplies{p: p, base: base, memo: map[refEdge]int{}, fn: map[fnOutcome]int{}}
}

// edge: the fact holds whenever the edge b -> b.Succs[k] is taken (from this branch alone).
func (e *edgeImplies) edge(b *ssa.BasicBlock, k int) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	key := refEdge{b, k}
	if m := e.memo[key]; m != 0 {
		return m == 2
	}
	e.memo[key] = 1
	if e.value(iff.Cond, k == 0) {
		e.memo[key] = 2
	}
	return e.memo[key] == 2
}

// value: whenever v has the given outcome the fact holds.
func (e *edgeImplies) value(v ssa.Value, val bool) bool {
	return e.valueDepth(v, val, 0)
}

func (e *edgeImplies) valueDepth(v ssa.Value, val bool, depth int) bool {
	if c, ok := constBool(v); ok {
		return c != val
	}
	if depth > 8 {
		return false
	}
	if ph, ok := v.(*ssa.Phi); ok {
		all := len(ph.Edges) > 0
		for k, x := range ph.Edges {
			if x == v {
				continue
			}
			if e.valueDepth(x, val, depth+1) {
				continue
			}
			// the branches on the way to this edge
			q := ph.Block().Preds[k]
			ok := false
			for j, s := range q.Succs {
				if s == ph.Block() && !ph.Block().Dominates(q) {
					for _, f := range edgeFacts(q, j) {
						if e.fact(f, depth+1) {
							ok = true
						}
					}
				}
			}
			if d := ph.Block().Idom(); !ok && d != nil && !ph.Block().Dominates(q) {
				ok = e.cut(d, q)
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true
		}
	}
	for _, f := range expandFacts([]Fact{{v, val}}) {
		if e.fact(f, depth+1) {
			return true
		}
	}
	return false
}

func (e *edgeImplies) fact(f Fact, depth int) bool {
	if e.base(f) {
		return true
	}
	cl, idx := callResult(f.Cond)
	if cl == nil || !isBool(f.Cond.Type()) || depth > 8 {
		return false
	}
	g := cl.Call.StaticCallee()
	if g == nil || !e.p.inRepo(g) || len(g.Blocks) == 0 {
		return false
	}
	return e.outcome(g, idx, f.Val)
}

// outcome: whenever g returns val as result idx the fact holds.
func (e *edgeImplies) outcome(g *ssa.Function, idx int, val bool) bool {
	key := fnOutcome{g, idx, val}
	if m := e.fn[key]; m != 0 {
		return m == 2
	}
	e.fn[key] = 1
	n := 0
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		vs := retValues(ret)
		if idx >= len(vs) {
			return false
		}
		n++
		if e.value(vs[idx], val) {
			continue
		}
		if !e.cut(g.Blocks[0], b) {
			return false
		}
	}
	if n == 0 {
		return false
	}
	e.fn[key] = 2
	return true
}

// cut: every path from block a to block b crosses an edge on which the fact holds.
func (e *edgeImplies) cut(a, b *ssa.BasicBlock) bool {
	return cutPaths(a, b, e.edge)
}

// cutPaths: b cannot be reached from a without crossing a good edge (a itself counts as reached).
func cutPaths(a, b *ssa.BasicBlock, good func(b *ssa.BasicBlock, k int) bool) bool {
	if a == b {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{a: true}
	st := []*ssa.BasicBlock{a}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		for k, s := range x.Succs {
			if good(x, k) || seen[s] {
				continue
			}
			if s == b {
				return false
			}
			seen[s] = true
			st = append(st, s)
		}
	}
	return true
}

// nilFact: the fact says whether v is nil; known is false if the fact is about something else.
func nilFact(f Fact) (v ssa.Value, isNil, known bool) {
	bo, ok := f.Cond.(*ssa.BinOp)
	if !ok {
		return nil, false, false
	}
	op := bo.Op.String()
	if op != "==" && op != "!=" {
		return nil, false, false
	}
	switch {
	case isNilConst(bo.Y):
		v = bo.X
	case isNilConst(bo.X):
		v = bo.Y
	default:
		return nil, false, false
	}
	return v, (op == "==") == f.Val, true
}

// returnsOf lists the return instructions of a function.
func returnsOf(f *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, r)
		}
	}
	return out
}

// errIndex is the index of the error result, or -1.
func errIndex(sig *types.Signature) int {
	for k := 0; k < sig.Results().Len(); k++ {
		if isErrType(sig.Results().At(k).Type()) {
			return k
		}
	}
	return -1
}

// resultIndex is the index of the first result with the given named type, or -1.
func resultIndex(sig *types.Signature, pkg, name string) int {
	for k := 0; k < sig.Results().Len(); k++ {
		if n, ok := types.Unalias(sig.Results().At(k).Type()).(*types.Named); ok && n.Obj().Pkg() != nil &&
			n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name {
			return k
		}
	}
	return -1
}
