package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// cacheProblem decides that every use of a cached parser field in f (a load whose value is returned,
// stored or passed on) happens after the field was assigned a value computed in this call, or after the
// cached keys were found to be exactly the requested ones: equal sizes and every requested key present.
func (p *Prog) cacheProblem(f *ssa.Function, field string) string {
	isField := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		_, n := fieldName(u.X)
		return n == field
	}
	// loads that only feed comparisons are harmless
	var uses []ssa.Instruction
	eachInstr(f, func(i ssa.Instruction) {
		v, ok := i.(*ssa.UnOp)
		if !ok || !isField(v) {
			return
		}
		for _, u := range refs(v) {
			if !p.onlyCompared(v, u) {
				uses = append(uses, u)
				return
			}
		}
	})
	if len(uses) == 0 {
		return ""
	}
	stores := map[*ssa.BasicBlock][]*ssa.Store{}
	eachInstr(f, func(i ssa.Instruction) {
		if st, ok := i.(*ssa.Store); ok {
			if _, n := fieldName(st.Addr); n == field {
				stores[st.Block()] = append(stores[st.Block()], st)
			}
		}
	})
	// the request: parameters the stored value is computed from
	req := map[*ssa.Parameter]bool{}
	for _, ss := range stores {
		for _, st := range ss {
			for _, pr := range f.Params {
				if pr == f.Params[0] && f.Signature.Recv() != nil {
					continue
				}
				pr := pr
				if dependsOn(st.Val, func(v ssa.Value) bool { return v == ssa.Value(pr) }, map[ssa.Value]bool{}) {
					req[pr] = true
				}
			}
		}
	}
	if len(req) != 1 {
		return "the value remembered in " + field + " from an earlier call is used without being computed for this request"
	}
	var rq *ssa.Parameter
	for k := range req {
		rq = k
	}
	e := &cachePaths{p: p, f: f, field: field, isField: isField, req: rq, stores: stores}
	for _, u := range uses {
		if prob := e.check(u); prob != "" {
			return prob
		}
	}
	return ""
}

// onlyCompared: the use of the cached value decides a condition (length or membership test) only.
func (p *Prog) onlyCompared(v ssa.Value, u ssa.Instruction) bool {
	return p.onlyComparedIn(v, u, 0)
}

func (p *Prog) onlyComparedIn(v ssa.Value, u ssa.Instruction, depth int) bool {
	switch x := u.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len"
		}
		// a predicate that only compares what it is handed
		g := x.Call.StaticCallee()
		if g == nil || !p.inRepo(g) || len(g.Blocks) == 0 || depth > 2 || !isBool(x.Type()) {
			return false
		}
		for k, a := range x.Call.Args {
			if a != v || k >= len(g.Params) {
				continue
			}
			for _, w := range refs(g.Params[k]) {
				if !p.onlyComparedIn(g.Params[k], w, depth+1) {
					return false
				}
			}
		}
		return true
	case *ssa.Lookup:
		if x.X != v || !x.CommaOk {
			return false
		}
		for _, r := range refs(x) {
			if e, ok := r.(*ssa.Extract); ok && e.Index == 0 && len(refs(e)) > 0 {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return true
	case *ssa.DebugRef:
		return true
	}
	return false
}

type cachePaths struct {
	p       *Prog
	f       *ssa.Function
	field   string
	isField func(ssa.Value) bool
	req     *ssa.Parameter
	stores  map[*ssa.BasicBlock][]*ssa.Store
	steps   int
	depth   int
	visit   func(i ssa.Instruction, s *cacheState) bool // true: the path ends here
}

type cacheState struct {
	truth  map[ssa.Value]bool
	phi    map[*ssa.Phi]ssa.Value
	size   bool
	member bool
	visits map[*ssa.BasicBlock]int
	exited map[*ssa.BasicBlock]bool // loops left through their header
}

func (s *cacheState) clone() *cacheState {
	n := &cacheState{truth: map[ssa.Value]bool{}, phi: map[*ssa.Phi]ssa.Value{}, size: s.size, member: s.member, visits: map[*ssa.BasicBlock]int{}, exited: map[*ssa.BasicBlock]bool{}}
	for k, v := range s.exited {
		n.exited[k] = v
	}
	for k, v := range s.truth {
		n.truth[k] = v
	}
	for k, v := range s.phi {
		n.phi[k] = v
	}
	for k, v := range s.visits {
		n.visits[k] = v
	}
	return n
}

// eval evaluates a condition under what the path has established.
func (s *cacheState) eval(v ssa.Value, depth int) (bool, bool) {
	if b, ok := constBool(v); ok {
		return b, true
	}
	if b, ok := s.truth[v]; ok {
		return b, true
	}
	if depth > 8 {
		return false, false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b, ok := s.eval(x.X, depth+1)
			return !b, ok
		}
	case *ssa.Phi:
		if e, ok := s.phi[x]; ok && e != v {
			return s.eval(e, depth+1)
		}
	}
	return false, false
}

func (s *cacheState) assume(v ssa.Value, val bool, depth int) {
	s.truth[v] = val
	if depth > 8 {
		return
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			s.assume(x.X, !val, depth+1)
		}
	case *ssa.Phi:
		if e, ok := s.phi[x]; ok {
			s.assume(e, val, depth+1)
		}
	}
}

func newCacheState() *cacheState {
	return &cacheState{truth: map[ssa.Value]bool{}, phi: map[*ssa.Phi]ssa.Value{}, visits: map[*ssa.BasicBlock]int{}, exited: map[*ssa.BasicBlock]bool{}}
}

func (e *cachePaths) check(use ssa.Instruction) string {
	prob := ""
	fresh := func(st *ssa.Store) bool {
		if !dependsOn(st.Val, func(v ssa.Value) bool { return v == ssa.Value(e.req) }, map[ssa.Value]bool{}) {
			if prob == "" {
				prob = "the value stored in " + e.field + " is not computed from the request"
			}
		}
		return true // computed for this request: the path needs no comparison
	}
	e.visit = func(i ssa.Instruction, s *cacheState) bool {
		if st, ok := i.(*ssa.Store); ok {
			if _, n := fieldName(st.Addr); n == e.field {
				return fresh(st)
			}
		}
		if i != use {
			return false
		}
		e.flags(s)
		if prob == "" {
			switch {
			case s.size && s.member:
			case !s.size && !s.member:
				prob = "a value cached in " + e.field + " by an earlier call is used without comparing it with the request"
			case !s.size:
				prob = "a value cached in " + e.field + " for a larger set of keys is used for this request (the sizes are not compared)"
			default:
				prob = "a value cached in " + e.field + " is used without checking that every requested key is present"
			}
		}
		return true
	}
	if !e.walk(e.f.Blocks[0], nil, newCacheState()) {
		return "the validity check of " + e.field + " is too complex to decide"
	}
	return prob
}

// outcome decides what a helper predicate has compared whenever it returns val.
func (e *cachePaths) outcome(call *ssa.Call, val bool) (size, member bool) {
	g := call.Call.StaticCallee()
	if g == nil || !e.p.inRepo(g) || len(g.Blocks) == 0 || e.depth > 2 || !isBool(call.Type()) {
		return false, false
	}
	sub := &cachePaths{p: e.p, f: g, field: e.field, isField: e.isField, depth: e.depth + 1}
	handed := map[ssa.Value]bool{}
	for k, a := range call.Call.Args {
		if k >= len(g.Params) {
			continue
		}
		if a == ssa.Value(e.req) {
			sub.req = g.Params[k]
		}
		if e.isField(a) {
			handed[g.Params[k]] = true
		}
	}
	sub.isField = func(v ssa.Value) bool { return handed[v] || e.isField(v) }
	if sub.req == nil {
		return false, false
	}
	size, member = true, true
	stored := false
	sub.visit = func(i ssa.Instruction, s *cacheState) bool {
		if st, ok := i.(*ssa.Store); ok {
			if _, n := fieldName(st.Addr); n == e.field {
				stored = true
			}
		}
		r, ok := i.(*ssa.Return)
		if !ok || len(r.Results) != 1 {
			return false
		}
		if known, ok := s.eval(r.Results[0], 0); ok && known != val {
			return true
		}
		n := s.clone()
		n.assume(r.Results[0], val, 0)
		if sub.sizeFact(r.Results[0], val) {
			n.size = true
		}
		sub.flags(n)
		size = size && n.size
		member = member && n.member
		return true
	}
	if !sub.walk(g.Blocks[0], nil, newCacheState()) || stored {
		return false, false
	}
	return size, member
}

// flags: a loop over the whole request has ended normally, and a flag it maintains says that every key
// was present.
func (e *cachePaths) flags(s *cacheState) {
	for h := range s.exited {
		if !e.overRequest(h) {
			continue
		}
		for _, i := range h.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok || !isBool(ph.Type()) {
				continue
			}
			val, known := s.eval(ph, 0)
			if !known {
				continue
			}
			good := true
			for k, q := range h.Preds {
				ed := ph.Edges[k]
				if !h.Dominates(q) {
					if c, ok := constBool(ed); !ok || c != val {
						good = false
					}
					continue
				}
				keeps, found := false, false
				for _, f := range expandFacts([]Fact{{ed, val}}) {
					if f.Cond == ssa.Value(ph) && f.Val == val {
						keeps = true
					}
					if e.memberFact(f) {
						found = true
					}
				}
				if !keeps || !found {
					good = false
				}
			}
			if good {
				s.member = true
			}
		}
	}
}

// walk follows every path; it reports false when there are too many.
func (e *cachePaths) walk(b, from *ssa.BasicBlock, s *cacheState) bool {
	e.steps++
	if e.steps > 50000 {
		return false
	}
	if s.visits[b] >= 2 {
		return true
	}
	s = s.clone()
	s.visits[b]++
	if from != nil {
		k := -1
		for j, q := range b.Preds {
			if q == from {
				k = j
			}
		}
		next := map[*ssa.Phi]ssa.Value{}
		for _, i := range b.Instrs {
			if ph, ok := i.(*ssa.Phi); ok && k >= 0 {
				v := ph.Edges[k]
				if o, ok := v.(*ssa.Phi); ok {
					if w, ok := s.phi[o]; ok {
						v = w
					}
				}
				next[ph] = v
			}
		}
		// remember what is known about the values handed over before this block's values are recomputed
		known := map[*ssa.Phi]bool{}
		val := map[*ssa.Phi]bool{}
		for ph, v := range next {
			if isBool(ph.Type()) {
				val[ph], known[ph] = s.eval(v, 0)
			}
		}
		for ph, v := range next {
			delete(s.truth, ph)
			s.phi[ph] = v
			if known[ph] {
				s.truth[ph] = val[ph]
			}
		}
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				if _, isPhi := i.(*ssa.Phi); !isPhi {
					delete(s.truth, v)
				}
			}
		}
	}
	for _, i := range b.Instrs {
		if e.visit(i, s) {
			return true
		}
	}
	last := b.Instrs[len(b.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		for _, su := range b.Succs {
			if !e.walk(su, b, s) {
				return false
			}
		}
		return true
	}
	for k, su := range b.Succs {
		val := k == 0
		if known, ok := s.eval(iff.Cond, 0); ok && known != val {
			continue
		}
		n := s.clone()
		n.assume(iff.Cond, val, 0)
		for _, f := range expandFacts([]Fact{{iff.Cond, val}}) {
			if c, ok := f.Cond.(*ssa.Call); ok {
				sz, mb := e.outcome(c, f.Val)
				n.size = n.size || sz
				n.member = n.member || mb
			}
		}
		if e.sizeFact(iff.Cond, val) {
			n.size = true
		}
		if inLoop(b) && !canReach(su, b) {
			n.exited[b] = true
		}
		if e.allMember(b, k) {
			n.member = true
		}
		if !e.walk(su, b, n) {
			return false
		}
	}
	return true
}

// sizeFact: the condition says that the cache has as many keys as the request has distinct keys.
func (e *cachePaths) sizeFact(cond ssa.Value, val bool) bool {
	for _, f := range expandFacts([]Fact{{cond, val}}) {
		bo, ok := f.Cond.(*ssa.BinOp)
		if !ok || !(bo.Op == token.EQL && f.Val || bo.Op == token.NEQ && !f.Val) {
			continue
		}
		for k, a := range []ssa.Value{bo.X, bo.Y} {
			o := bo.Y
			if k == 1 {
				o = bo.X
			}
			if x := lenArg(a); x != nil && e.isField(x) {
				if y := lenArg(o); y != nil && e.distinct(y) {
					return true
				}
			}
		}
	}
	return false
}

func lenArg(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return strip(c.Call.Args[0])
	}
	return nil
}

// distinct: a set (map) built from exactly the requested keys.
func (e *cachePaths) distinct(v ssa.Value) bool {
	if _, ok := v.Type().Underlying().(*types.Map); !ok {
		return false
	}
	return dependsOn(v, func(x ssa.Value) bool { return x == ssa.Value(e.req) }, map[ssa.Value]bool{})
}

// allMember: taking this edge means a loop over the whole request has ended normally, and the loop only
// goes on while the current key is present in the cache.
func (e *cachePaths) allMember(b *ssa.BasicBlock, k int) bool {
	// b is a loop header and the edge leaves the loop
	if !inLoop(b) || canReach(b.Succs[k], b) {
		return false
	}
	h := b
	if !e.overRequest(h) {
		return false
	}
	// every way back to the header has found the key
	for _, q := range h.Preds {
		if !h.Dominates(q) {
			continue
		}
		ok := false
		fs := append([]Fact{}, facts(q)...)
		for j, su := range q.Succs {
			if su == h {
				fs = append(fs, edgeFacts(q, j)...)
			}
		}
		for _, f := range fs {
			ok = ok || e.memberFact(f)
		}
		if !ok {
			return false
		}
	}
	return true
}

// overRequest: the loop visits every element of the request, first to last.
func (e *cachePaths) overRequest(h *ssa.BasicBlock) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	ln := lenArg(bo.Y)
	return ln != nil && ln == ssa.Value(e.req) && ascending(bo.X)
}

// memberFact: the current key of the request is present in the cache.
func (e *cachePaths) memberFact(f Fact) bool {
	ex, isEx := f.Cond.(*ssa.Extract)
	if !isEx || !f.Val || ex.Index != 1 {
		return false
	}
	lk, isLk := ex.Tuple.(*ssa.Lookup)
	return isLk && e.isField(lk.X) && dependsOn(lk.Index, func(x ssa.Value) bool { return x == ssa.Value(e.req) }, map[ssa.Value]bool{})
}
