package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C05"] = checkC05 }

// orderScan decides, for loops whose visiting order is not fixed, that the order has no effect.
type orderScan struct {
	p    *Prog
	obs  []Obligation
	seen map[string]bool

	// values whose elements are in no particular order, with the places they still have to be followed to
	tainted map[ssa.Value]bool
	work    []ssa.Value
	fields  map[*types.Var]bool
	globals map[*ssa.Global]bool
	effects map[*ssa.Function]int
	loops   map[loopKey]bool
}

type loopKey struct{ h *ssa.BasicBlock }

func newOrderScan(p *Prog) *orderScan {
	return &orderScan{p: p, seen: map[string]bool{}, tainted: map[ssa.Value]bool{}, fields: map[*types.Var]bool{},
		globals: map[*ssa.Global]bool{}, effects: map[*ssa.Function]int{}, loops: map[loopKey]bool{}}
}

func (s *orderScan) report(ok bool, key, pos, why string) {
	id := key + "|" + pos + "|" + why
	if s.seen[id] {
		return
	}
	s.seen[id] = true
	s.obs = append(s.obs, Obligation{"map-order", key, pos, ok, why, ""})
}

// mapRanges decides the map iterations of one function (and what becomes of the lists they build).
func (p *Prog) mapRanges(f *ssa.Function) []Obligation {
	s := newOrderScan(p)
	s.scan(f)
	s.follow()
	return s.obs
}

func (s *orderScan) scan(f *ssa.Function) int {
	n := 0
	eachInstr(f, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.Next:
			rg, ok := x.Iter.(*ssa.Range)
			if !ok {
				return
			}
			if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
				return
			}
			n++
			s.mapLoop(x, rg)
		case *ssa.Call:
			switch calleeName(&x.Call) {
			case "maps.Keys", "maps.Values", "maps.All", "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "(*sync.Map).Range":
				n++
				s.iterator(x)
			}
		}
	})
	return n
}

func (s *orderScan) iterator(c *ssa.Call) {
	key := fnKey(c.Parent()) + ": " + calleeName(&c.Call)
	pos := s.p.instrPos(c)
	if !strings.HasPrefix(calleeName(&c.Call), "maps.") {
		s.report(false, key, pos, "iterates a map in no fixed order")
		return
	}
	prob := ""
	for _, u := range refs(c) {
		cc := callOf(u)
		if cc == nil {
			if _, ok := u.(*ssa.DebugRef); !ok {
				prob = "the unordered sequence is used other than for sorting or collecting"
			}
			continue
		}
		switch n := calleeName(cc); n {
		case "slices.Sorted", "maps.Collect", "maps.Insert":
		case "slices.SortedFunc", "slices.SortedStableFunc":
			if !totalOrder(cc.Args[1]) {
				prob = "the sequence is sorted by a comparison that leaves ties in map order"
			}
		case "slices.Collect":
			s.taint(u.(*ssa.Call))
		case "slices.AppendSeq":
			s.taint(u.(*ssa.Call))
		default:
			if cc.Value == ssa.Value(c) && len(cc.Args) == 1 {
				if why := s.yieldBody(cc.Args[0]); why != "" {
					prob = why
				}
				continue
			}
			prob = "the unordered sequence is passed to " + n
		}
	}
	s.report(prob == "", key, pos, okOr(prob, "the sequence is sorted or collected into a set"))
}

// yieldBody judges a loop body turned into a function (range over an iterator).
func (s *orderScan) yieldBody(v ssa.Value) string {
	mc, ok := v.(*ssa.MakeClosure)
	if !ok {
		return "the unordered sequence is consumed by an unknown function"
	}
	f := mc.Fn.(*ssa.Function)
	prob := ""
	eachInstr(f, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.Store:
			if !localRoot(x.Addr, f) {
				if _, ok := x.Val.(*ssa.Const); !ok && !plusSelf(x) {
					prob = "the loop body assigns " + x.Addr.Name() + " in no fixed order"
				}
			}
		case *ssa.Return:
			for _, rv := range x.Results {
				if b, ok := constBool(rv); !ok || !b {
					prob = "the loop over an unordered sequence is left early"
				}
			}
		case *ssa.MapUpdate:
			if x.Key != ssa.Value(f.Params[0]) {
				if _, ok := x.Value.(*ssa.Const); !ok {
					prob = "the loop body overwrites map entries in no fixed order"
				}
			}
		case *ssa.Call:
			if s.callEffect(&x.Call) > 1 {
				prob = "the loop body calls " + calleeName(&x.Call) + " in no fixed order"
			}
		}
	})
	return prob
}

func plusSelf(st *ssa.Store) bool {
	b, ok := st.Val.(*ssa.BinOp)
	if !ok || b.Op != token.ADD || !isInt(b.Type()) {
		return false
	}
	is := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == st.Addr
	}
	return is(b.X) != is(b.Y)
}

func localRoot(addr ssa.Value, f *ssa.Function) bool {
	for i := 0; i < 10; i++ {
		switch x := addr.(type) {
		case *ssa.Alloc:
			return x.Parent() == f
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		case *ssa.Slice:
			addr = x.X
		case *ssa.MakeSlice, *ssa.MakeMap:
			return true
		default:
			return false
		}
	}
	return false
}

func refs(v ssa.Value) []ssa.Instruction {
	if r := v.Referrers(); r != nil {
		return *r
	}
	return nil
}

// ---- loops ----

type unordLoop struct {
	s     *orderScan
	h     *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	key   ssa.Value // the map key, if any
	value ssa.Value
	elem  ssa.Value // the value standing for the whole step (Next tuple, index)
	table ssa.Value // the map ranged over
	index map[*ssa.Phi]bool
	exitB *ssa.BasicBlock // where the loop goes when it is done
	probs []string
	did   int // effects other than early exits
	v     map[ssa.Value]bool
	phis  map[*ssa.Phi]bool

	stored []*ssa.Store // step-independent values stored outside
}

// sameAddr: the two addresses denote the same place (same path of fields from the same base).
func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return fa.Field == fb.Field && sameAddr(fa.X, fb.X)
	}
	ia, ok1 := a.(*ssa.IndexAddr)
	ib, ok2 := b.(*ssa.IndexAddr)
	if ok1 && ok2 {
		return sameConst(ia.Index, ib.Index) && sameAddr(ia.X, ib.X)
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && ua.Op == token.MUL && ub.Op == token.MUL && sameAddr(ua.X, ub.X)
}

func (s *orderScan) mapLoop(nx *ssa.Next, rg *ssa.Range) {
	l := &unordLoop{s: s, h: nx.Block(), elem: nx, table: rg.X, index: map[*ssa.Phi]bool{}}
	for _, u := range refs(nx) {
		if e, ok := u.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				l.key = e
			case 2:
				l.value = e
			}
		}
	}
	s.runLoop(l, fnKey(nx.Parent())+": range over "+describe(rg.X), s.p.instrPos(nx))
}

func describe(v ssa.Value) string {
	if g := rootGlobal(v); g != nil {
		return g.Name()
	}
	if _, n := loadedField(v); n != "" {
		return n
	}
	if n := v.Name(); n != "" && n[0] != 't' {
		return n
	}
	return v.Type().String()
}

func (s *orderScan) runLoop(l *unordLoop, key, pos string) {
	if s.loops[loopKey{l.h}] {
		return
	}
	s.loops[loopKey{l.h}] = true
	f := l.h.Parent()
	l.body = map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		if inSameLoop(l.h, b) && (canReach(b, l.h)) {
			l.body[b] = true
		}
	}
	if !canReach(l.h, l.h) {
		s.report(true, key, pos, "not a loop: at most one step")
		return
	}
	// where it goes when the sequence is exhausted
	if n := len(l.h.Instrs); n > 0 {
		if _, ok := l.h.Instrs[n-1].(*ssa.If); ok {
			for _, sc := range l.h.Succs {
				if !l.body[sc] {
					l.exitB = sc
				}
			}
		}
	}
	l.variants()
	l.accumulators()
	for _, b := range f.Blocks {
		if !l.body[b] {
			continue
		}
		for _, i := range b.Instrs {
			l.effect(i)
		}
	}
	effects := l.did
	l.exits(effects)
	if len(l.probs) > 0 {
		sort.Strings(l.probs)
		s.report(false, key, pos, l.probs[0])
		return
	}
	s.report(true, key, pos, "no effect of the loop depends on the order of its steps")
}

// variants: values computed in the loop from the step's key, value or element or from loop-carried values.
func (l *unordLoop) variants() {
	l.v = map[ssa.Value]bool{}
	l.phis = map[*ssa.Phi]bool{}
	for b := range l.body {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok && v == l.elem {
				l.v[v] = true
			}
			if ph, ok := i.(*ssa.Phi); ok && b == l.h {
				l.v[ph] = true
				l.phis[ph] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for b := range l.body {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || l.v[v] {
					continue
				}
				hit := false
				for _, o := range i.Operands(nil) {
					if *o != nil && l.v[*o] {
						hit = true
					}
				}
				if al, ok := i.(*ssa.Alloc); ok && !hit {
					for _, st := range storesInto(al, 0) {
						if l.v[st.Val] {
							hit = true
						}
					}
				}
				if ph, ok := i.(*ssa.Phi); ok && !hit {
					// chosen by a varying condition
					_ = ph
					hit = len(ph.Edges) > 1 && !l.samePhi(ph)
				}
				if hit {
					l.v[v] = true
					ch = true
				}
			}
		}
	}
}

func (l *unordLoop) samePhi(ph *ssa.Phi) bool {
	for _, e := range ph.Edges[1:] {
		if e != ph.Edges[0] {
			return false
		}
	}
	return true
}

func (l *unordLoop) bad(why string) { l.probs = append(l.probs, why) }

// leaves collects what a loop-carried variable can become in one step.
func (l *unordLoop) leaves(v ssa.Value, seen map[ssa.Value]bool, out *[]ssa.Value) {
	if seen[v] {
		return
	}
	seen[v] = true
	if ph, ok := v.(*ssa.Phi); ok && l.body[ph.Block()] && ph.Block() != l.h {
		for _, e := range ph.Edges {
			l.leaves(e, seen, out)
		}
		return
	}
	*out = append(*out, v)
}

func (l *unordLoop) accumulators() {
	for _, i := range l.h.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if l.index[ph] {
			continue
		}
		var lv []ssa.Value
		for k, e := range ph.Edges {
			if l.body[l.h.Preds[k]] {
				l.leaves(e, map[ssa.Value]bool{}, &lv)
			}
		}
		l.accumulate(ph, lv, variableName(ph))
	}
}

func variableName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return ph.Name()
}

// accumulate classifies a loop-carried variable by the values it is given; acc stands for its previous value.
func (l *unordLoop) accumulate(acc ssa.Value, lv []ssa.Value, name string) {
	isAcc := func(v ssa.Value) bool { return v == acc }
	kinds := map[string]bool{}
	var constant ssa.Value
	var inner []ssa.Instruction
	for _, v := range lv {
		switch {
		case isAcc(v):
			continue
		case !l.v[v]:
			if constant != nil && !sameConst(constant, v) {
				l.bad("the variable " + name + " is given different values in different steps; the last step wins")
			}
			constant = v
			kinds["flag"] = true
			continue
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			switch {
			case x.Op == token.ADD && isInt(x.Type()) && isAcc(x.X) != isAcc(x.Y):
				kinds["sum"] = true
			case (x.Op == token.OR || x.Op == token.AND || x.Op == token.XOR) && isAcc(x.X) != isAcc(x.Y):
				kinds[x.Op.String()] = true
			case (x.Op == token.SUB) && isInt(x.Type()) && isAcc(x.X):
				kinds["sum"] = true
			default:
				l.bad("the value of " + name + " depends on the order of the steps")
			}
			inner = append(inner, x)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append":
					if isAcc(x.Call.Args[0]) {
						kinds["list"] = true
						inner = append(inner, x)
						continue
					}
				case "min", "max":
					kinds[b.Name()] = true
					inner = append(inner, x)
					continue
				}
			}
			if calleeName(&x.Call) == "strings.ReplaceAll" && isAcc(x.Call.Args[0]) && l.disjointRewrites(x.Call.Args[1], x.Call.Args[2]) {
				kinds["rewrite"] = true
				inner = append(inner, x)
				continue
			}
			l.bad("the value of " + name + " depends on the order of the steps")
		default:
			// an extremum: taken only where it compares against the variable
			if op := l.extremum(v, acc); op != "" {
				kinds[op] = true
				continue
			}
			l.bad("the variable " + name + " is given a value that belongs to one step; the last step wins")
		}
	}
	if len(kinds) == 0 {
		return
	}
	l.did++
	if len(kinds) > 1 {
		l.bad("the variable " + name + " is updated in ways that do not commute")
	}
	// its intermediate values must not be observed
	in := map[ssa.Instruction]bool{}
	for _, i := range inner {
		in[i] = true
	}
	for _, u := range refs(acc) {
		if !l.body[u.Block()] || in[u] {
			continue
		}
		switch x := u.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.BinOp:
			if kinds[">"] || kinds["<"] {
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					continue
				}
			}
		case *ssa.Store:
			if _, isLoad := acc.(*ssa.UnOp); isLoad && x.Val == acc {
				continue
			}
		}
		if kinds["flag"] && onlyGuards(u) {
			continue
		}
		l.bad("an intermediate value of " + name + " is used inside the loop")
	}
	if kinds["list"] {
		l.s.taintValue(acc)
		for _, i := range inner {
			l.s.taintValue(i.(ssa.Value))
		}
	}
}

// onlyGuards: the flag is only tested to skip setting it again.
func onlyGuards(u ssa.Instruction) bool {
	iff, ok := u.(*ssa.If)
	if !ok {
		if un, isU := u.(*ssa.UnOp); isU && un.Op == token.NOT {
			for _, x := range refs(un) {
				if !onlyGuards(x) {
					return false
				}
			}
			return true
		}
		return false
	}
	_ = iff
	return true
}

func sameConst(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Const)
	cb, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && ca.String() == cb.String()
}

func (l *unordLoop) extremum(v, acc ssa.Value) string {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return ""
	}
	_ = in
	for b := range l.body {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		var op token.Token
		switch {
		case c.X == v && c.Y == acc:
			op = c.Op
		case c.Y == v && c.X == acc:
			op = flip(c.Op)
		default:
			continue
		}
		switch op {
		case token.GTR, token.GEQ:
			return ">"
		case token.LSS, token.LEQ:
			return "<"
		}
	}
	return ""
}

func flip(op token.Token) token.Token {
	switch op {
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	}
	return op
}

// disjointRewrites: replacing texts of a literal table one after the other gives the same result in any order.
func (l *unordLoop) disjointRewrites(from, to ssa.Value) bool {
	if l.key == nil || l.value == nil {
		return false
	}
	ents := l.s.p.mapEntries(l.table)
	if ents == nil {
		return false
	}
	type pair struct{ from, to string }
	var ps []pair
	for k, v := range ents {
		sv, ok := constString(v)
		if !ok {
			return false
		}
		pick := func(x ssa.Value) (string, bool) {
			switch x {
			case l.key:
				return k, true
			case l.value:
				return sv, true
			}
			return constString(x)
		}
		f, ok1 := pick(from)
		t, ok2 := pick(to)
		if !ok1 || !ok2 || f == "" || t == "" {
			return false
		}
		ps = append(ps, pair{f, t})
	}
	// independent when no replaced text shares an end with, lies within, or can be created by another
	for i, a := range ps {
		for j, b := range ps {
			if i == j {
				continue
			}
			if overlaps(a.from, b.from) || strings.ContainsAny(b.from, a.to) {
				return false
			}
		}
	}
	return true
}

// overlaps: occurrences of a and b can share characters.
func overlaps(a, b string) bool {
	if strings.Contains(a, b) || strings.Contains(b, a) {
		return true
	}
	for i := 1; i < len(a); i++ {
		if strings.HasPrefix(b, a[i:]) {
			return true
		}
	}
	for i := 1; i < len(b); i++ {
		if strings.HasPrefix(a, b[i:]) {
			return true
		}
	}
	return false
}

// inLoopRoot: the memory written belongs to this step.
func (l *unordLoop) inLoopRoot(addr ssa.Value) bool {
	for i := 0; i < 10; i++ {
		switch x := addr.(type) {
		case *ssa.Alloc:
			return l.body[x.Block()]
		case *ssa.MakeMap:
			return l.body[x.Block()]
		case *ssa.MakeSlice:
			return l.body[x.Block()]
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		case *ssa.Slice:
			addr = x.X
		case *ssa.ChangeType:
			addr = x.X
		case *ssa.Lookup:
			// what a map holds under the step's own key
			return l.key != nil && x.Index == l.key
		case *ssa.Extract:
			lk, ok := x.Tuple.(*ssa.Lookup)
			return ok && l.key != nil && lk.Index == l.key
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && l.body[x.Block()] && !isNilConst(x.Call.Args[0]) {
				addr = x.Call.Args[0]
				continue
			}
			switch calleeName(&x.Call) {
			case "slices.Compact", "slices.CompactFunc", "slices.Delete", "slices.Insert":
				addr = x.Call.Args[0]
				continue
			}
			// a fresh object made by a constructor
			return l.body[x.Block()] && l.s.freshResult(x)
		default:
			return false
		}
	}
	return false
}

func (s *orderScan) freshResult(c *ssa.Call) bool {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		return b.Name() == "append" && isNilConst(c.Call.Args[0])
	}
	f := c.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 {
		n := calleeName(&c.Call)
		return strings.HasPrefix(n, "slices.Clone") || n == "strings.Split" || n == "slices.Sorted" || n == "slices.Collect"
	}
	ok := true
	eachInstr(f, func(i ssa.Instruction) {
		if ret, isRet := i.(*ssa.Return); isRet {
			for _, v := range ret.Results {
				switch strip(v).(type) {
				case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc, *ssa.Const:
				default:
					ok = false
				}
			}
		}
	})
	return ok
}

func (l *unordLoop) effect(i ssa.Instruction) {
	if l.exempt(i) {
		return
	}
	switch x := i.(type) {
	case *ssa.Store:
		l.store(x)
	case *ssa.MapUpdate:
		if l.inLoopRoot(x.Map) {
			return
		}
		l.did++
		switch {
		case x.Key == l.key && l.key != nil:
			if l.usesAcc(x.Value) {
				l.bad("a map entry receives an intermediate value of the loop")
			}
		case !l.v[x.Value]:
			// membership: the same value whatever the step
			if _, isC := x.Value.(*ssa.Const); !isC && l.v[x.Key] {
				return
			}
		case !l.v[x.Key]:
			l.bad("a map entry is overwritten by every step; the last step wins")
		case l.injective(x.Key):
		default:
			l.bad("steps may write different values under the same map key; the last step wins")
		}
	case *ssa.Call:
		l.call(i, &x.Call)
	case *ssa.Defer:
		l.bad("deferred calls run in the order of the steps")
	case *ssa.Go, *ssa.Send:
		l.bad("the steps are visible outside in their order")
	}
}

func (l *unordLoop) usesAcc(v ssa.Value) bool {
	return dependsOn(v, func(x ssa.Value) bool {
		ph, ok := x.(*ssa.Phi)
		return ok && l.phis[ph] && !l.index[ph] && ph != l.elem
	}, map[ssa.Value]bool{})
}

// injective: the value differs for every step (the value of a table with distinct values).
func (l *unordLoop) injective(v ssa.Value) bool {
	v = strip(v)
	if v == l.key && l.key != nil {
		return true
	}
	if v != l.value || l.value == nil {
		return false
	}
	ents := l.s.p.mapEntries(l.table)
	seen := map[string]bool{}
	for _, e := range ents {
		c, ok := e.(*ssa.Const)
		if !ok || seen[c.String()] {
			return false
		}
		seen[c.String()] = true
	}
	return len(ents) > 0
}

func (l *unordLoop) store(x *ssa.Store) {
	if l.inLoopRoot(x.Addr) {
		return
	}
	l.did++
	if al, ok := x.Addr.(*ssa.Alloc); ok {
		// a variable kept in memory because a closure uses it
		var acc ssa.Value
		for _, u := range refs(al) {
			if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL && l.body[ld.Block()] {
				acc = ld
			}
		}
		var lv []ssa.Value
		l.leaves(x.Val, map[ssa.Value]bool{}, &lv)
		if acc != nil {
			l.v[acc] = true
			for k, v := range lv {
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == ssa.Value(al) {
					lv[k] = acc
				}
			}
			l.accumulate(acc, lv, al.Comment)
			return
		}
		if l.v[x.Val] {
			l.bad("the variable " + al.Comment + " is given a value that belongs to one step; the last step wins")
		}
		return
	}
	if ia, ok := x.Addr.(*ssa.IndexAddr); ok && l.injective(ia.Index) {
		return
	}
	if !l.v[x.Val] {
		for _, o := range l.stored {
			if sameAddr(o.Addr, x.Addr) && !sameConst(o.Val, x.Val) {
				l.bad("different steps store different values in the same place; the last step wins")
			}
		}
		l.stored = append(l.stored, x)
		return
	}
	// memory that belongs to the step's own value
	root := x.Addr
	for k := 0; k < 8; k++ {
		if fa, ok := root.(*ssa.FieldAddr); ok {
			root = fa.X
		} else if ia, ok := root.(*ssa.IndexAddr); ok {
			root = ia.X
		} else {
			break
		}
	}
	if root == l.value && l.value != nil {
		return
	}
	l.bad("a value that belongs to one step is stored where every step stores; the last step wins")
}

// Effects of a call: 0 none outside its result, 1 commuting (adding to or deleting from sets), 2 other.
func (l *unordLoop) call(i ssa.Instruction, c *ssa.CallCommon) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			l.did++
		case "copy":
			if !l.inLoopRoot(c.Args[0]) {
				l.bad("the steps copy into the same list; the last step wins")
			}
		case "append":
			if !l.inLoopRoot(c.Args[0]) && !isNilConst(c.Args[0]) && !l.v[c.Args[0]] {
				// result handled where it is stored
				return
			}
		case "clear":
			l.did++
		case "print", "println", "close":
			l.bad("the steps are visible outside in their order")
		}
		return
	}
	switch l.s.callEffect(c) {
	case 1:
		l.did++
	case 2:
		for _, a := range c.Args {
			if pointerLike(a.Type()) && !l.inLoopRoot(a) && !l.ofStep(a) {
				l.bad("the loop calls " + calleeName(c) + ", whose effects follow the order of the steps")
				return
			}
		}
		if f := c.StaticCallee(); f != nil && l.s.p.inRepo(f) && l.s.globalWriter(f) {
			l.bad("the loop calls " + calleeName(c) + ", whose effects follow the order of the steps")
		}
	}
}

// ofStep: memory that belongs to the step's own key or value.
func (l *unordLoop) ofStep(a ssa.Value) bool {
	if a == l.value && l.value != nil {
		return true
	}
	if ex, ok := a.(*ssa.Extract); ok && ex.Index == 0 {
		a = ex.Tuple
	}
	lk, ok := a.(*ssa.Lookup)
	return ok && l.body[lk.Block()] && l.injective(lk.Index)
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Chan:
		return true
	}
	return false
}

func (s *orderScan) globalWriter(f *ssa.Function) bool {
	w := false
	eachInstr(f, func(i ssa.Instruction) {
		if st, ok := i.(*ssa.Store); ok && rootGlobal(st.Addr) != nil {
			w = true
		}
	})
	return w
}

// callEffect summarises what a call does to memory other than its own.
func (s *orderScan) callEffect(c *ssa.CallCommon) int {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return 0
	}
	f := c.StaticCallee()
	if f == nil {
		m := 0
		for _, b := range s.p.calleesOf(c) {
			if e := s.fnEffect(b); e > m {
				m = e
			}
		}
		return m
	}
	return s.fnEffect(f)
}

// calleesOf resolves a dynamic call by signature among functions stored in variables and fields.
func (p *Prog) calleesOf(c *ssa.CallCommon) []*ssa.Function {
	for _, n := range p.callGraph().Nodes {
		for _, e := range n.Out {
			if e.Site != nil && e.Site.Common() == c {
				var out []*ssa.Function
				for _, e2 := range n.Out {
					if e2.Site == e.Site {
						out = append(out, e2.Callee.Func)
					}
				}
				return out
			}
		}
	}
	return nil
}

func (s *orderScan) fnEffect(f *ssa.Function) int {
	if e, ok := s.effects[f]; ok {
		return e
	}
	s.effects[f] = 0
	if !s.p.inRepo(f) || len(f.Blocks) == 0 {
		e := stdEffect(f)
		s.effects[f] = e
		return e
	}
	max := 0
	up := func(e int) {
		if e > max {
			max = e
		}
	}
	eachInstr(f, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.Store:
			if !localRoot(x.Addr, f) {
				up(2)
			}
		case *ssa.MapUpdate:
			if localMap(x.Map, f) {
				return
			}
			if isSetValue(x.Value) {
				up(1)
			} else {
				up(2)
			}
		case *ssa.Go, *ssa.Send:
			up(2)
		case ssa.CallInstruction:
			c := x.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "clear":
					up(1)
				case "copy":
					if !localRoot(c.Args[0], f) {
						up(2)
					}
				}
				return
			}
			e := s.callEffect(c)
			if e == 2 {
				// harmless when everything reachable from the arguments is local
				local := true
				for _, a := range c.Args {
					if pointerLike(a.Type()) && !localRoot(a, f) && !localMap(a, f) {
						local = false
					}
				}
				if local {
					e = 0
				}
			}
			up(e)
		}
	})
	s.effects[f] = max
	return max
}

func localMap(v ssa.Value, f *ssa.Function) bool {
	switch x := strip(v).(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || len(g.Blocks) == 0 {
			return false
		}
		ok := true
		eachInstr(g, func(i ssa.Instruction) {
			if ret, isRet := i.(*ssa.Return); isRet {
				for _, rv := range ret.Results {
					if _, isMk := strip(rv).(*ssa.MakeMap); !isMk {
						ok = false
					}
				}
			}
		})
		return ok
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && al.Parent() == f {
			for _, st := range storesInto(al, 0) {
				if !localMap(st.Val, f) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func isSetValue(v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	if st, ok := v.Type().Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		return true
	}
	return false
}

// stdEffect: library operations that change something the caller holds.
func stdEffect(f *ssa.Function) int {
	if f.Signature.Recv() != nil {
		if _, ok := f.Signature.Recv().Type().(*types.Pointer); ok {
			switch pkgOf(f) {
			case "regexp", "time", "sync":
				return 0
			}
			return 2
		}
		return 0
	}
	switch pkgOf(f) {
	case "sort":
		return 2
	case "slices":
		n := f.Name()
		if strings.HasPrefix(n, "Sort") && !strings.HasPrefix(n, "Sorted") || strings.HasPrefix(n, "Reverse") || strings.HasPrefix(n, "Delete") || strings.HasPrefix(n, "Compact") || strings.HasPrefix(n, "Insert") || strings.HasPrefix(n, "Replace") {
			return 2
		}
	case "maps":
		if strings.HasPrefix(f.Name(), "Copy") || strings.HasPrefix(f.Name(), "Insert") || strings.HasPrefix(f.Name(), "Delete") {
			return 1
		}
	case "fmt":
		if strings.HasPrefix(f.Name(), "Fprint") || strings.HasPrefix(f.Name(), "Print") {
			return 2
		}
	case "io", "os", "bufio":
		return 2
	}
	return 0
}

// ---- early exits ----

// exempt: instructions on the way out of the loop after an exclusive hit.
func (l *unordLoop) exempt(i ssa.Instruction) bool { return false }

func (l *unordLoop) exits(effects int) {
	type exit struct {
		from *ssa.BasicBlock
		k    int
	}
	var ex []exit
	for b := range l.body {
		for k, sc := range b.Succs {
			if !l.body[sc] && !(b == l.h && sc == l.exitB) {
				ex = append(ex, exit{b, k})
			}
		}
	}
	if len(ex) == 0 {
		return
	}
	sort.Slice(ex, func(i, j int) bool {
		if ex[i].from.Index != ex[j].from.Index {
			return ex[i].from.Index < ex[j].from.Index
		}
		return ex[i].k < ex[j].k
	})
	excl := l.exclusive()
	if effects > 0 && excl == "" {
		// nothing else may have happened when the loop is cut short
		if !l.onlyPanics(ex[0].from.Succs[ex[0].k]) {
			l.bad("the loop is left early, so which steps have had their effect depends on the order")
			return
		}
	}
	if excl != "" {
		return
	}
	var outcome []string
	for _, e := range ex {
		to := e.from.Succs[e.k]
		if l.onlyPanics(to) {
			continue
		}
		// everything computed in the loop that is still visible afterwards
		var vis []string
		l.visible(e.from, to, &vis)
		sort.Strings(vis)
		outcome = append(outcome, strings.Join(vis, ";"))
	}
	for _, o := range outcome {
		if strings.Contains(o, "!") {
			l.bad("the loop is left early with a value that belongs to one step; the first step to match wins")
			return
		}
		if o != outcome[0] {
			l.bad("the loop is left early in different ways; the first step to match wins")
			return
		}
	}
}

func (l *unordLoop) onlyPanics(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{b}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if len(x.Instrs) > 0 {
			if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
				return false
			}
		}
		st = append(st, x.Succs...)
	}
	return true
}

// visible describes what the code after an early exit can see of the loop; "!" marks a varying value.
func (l *unordLoop) visible(from, to *ssa.BasicBlock, out *[]string) {
	// what joins after the loop pick up on this way out
	for pr, at, n := from, to, 0; n < 12; n++ {
		for _, i := range at.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				if st, isSt := i.(*ssa.Store); isSt && n > 0 || isSt && len(at.Preds) == 1 {
					if _, isC := st.Val.(*ssa.Const); isC {
						*out = append(*out, "store "+st.Addr.Name()+"="+st.Val.String())
					}
				}
				continue
			}
			for k, q := range at.Preds {
				if q != pr {
					continue
				}
				e := ph.Edges[k]
				if l.v[e] {
					*out = append(*out, "!"+ph.Name())
				} else {
					*out = append(*out, ph.Name()+"="+e.String())
				}
			}
		}
		if len(at.Succs) != 1 || l.body[at.Succs[0]] {
			break
		}
		pr, at = at, at.Succs[0]
	}
	// direct uses of varying values after the loop
	f := l.h.Parent()
	reach := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{to}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if reach[x] || l.body[x] {
			continue
		}
		reach[x] = true
		st = append(st, x.Succs...)
	}
	direct := false
	for _, b := range f.Blocks {
		if !reach[b] {
			continue
		}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Phi); ok {
				continue
			}
			for _, o := range i.Operands(nil) {
				if *o != nil && l.v[*o] {
					if oi, ok := (*o).(ssa.Instruction); ok && l.body[oi.Block()] {
						direct = true
					}
				}
			}
		}
	}
	if direct {
		*out = append(*out, "!")
	}
	// a return right at the exit: its constants are the outcome
	if len(to.Preds) == 1 {
		for _, i := range to.Instrs {
			if ret, ok := i.(*ssa.Return); ok {
				for k, v := range ret.Results {
					if _, isC := v.(*ssa.Const); isC {
						*out = append(*out, "return"+itoa(k)+"="+v.String())
					}
				}
			}
		}
	}
}

// exclusive: at most one step can match. Recognised for tables that map names of date parts to Go layouts,
// where a step only matches if a function accepts the text for that part and layout.
func (l *unordLoop) exclusive() string {
	if l.key == nil || l.table == nil {
		return ""
	}
	ents := l.s.p.mapEntries(l.table)
	if len(ents) == 0 {
		return ""
	}
	layouts := map[string][]string{}
	for k, v := range ents {
		el, ok := l.s.p.constElems(v)
		if !ok {
			return ""
		}
		for _, e := range el {
			sv, ok := constString(e)
			if !ok {
				return ""
			}
			layouts[k] = append(layouts[k], sv)
		}
	}
	// every way out needs a success of such a function, called with the key and a layout of that key
	for b := range l.body {
		for k, sc := range b.Succs {
			if l.body[sc] || (b == l.h && sc == l.exitB) {
				continue
			}
			hit := false
			for _, f := range edgeFacts(b, k) {
				if f.Val && l.acceptance(f.Cond, layouts) {
					hit = true
				}
			}
			if !hit {
				return ""
			}
		}
	}
	// and every lasting effect as well
	for b := range l.body {
		for _, i := range b.Instrs {
			lasting := false
			switch x := i.(type) {
			case *ssa.Store:
				lasting = !l.inLoopRoot(x.Addr)
			case *ssa.MapUpdate:
				lasting = !l.inLoopRoot(x.Map)
			}
			if !lasting {
				continue
			}
			hit := false
			for _, f := range facts(b) {
				if f.Val && l.acceptance(f.Cond, layouts) {
					hit = true
				}
			}
			if !hit {
				return ""
			}
		}
	}
	return "exclusive"
}

// acceptance: the condition is the success result of a call that takes the key and one of its layouts, and
// which accepts a given text for at most one key.
func (l *unordLoop) acceptance(cond ssa.Value, layouts map[string][]string) bool {
	ex, ok := cond.(*ssa.Extract)
	if !ok {
		return false
	}
	c, ok := ex.Tuple.(*ssa.Call)
	if !ok || !l.body[c.Block()] {
		return false
	}
	ki := -1
	for i, a := range c.Call.Args {
		if a == l.key {
			ki = i
		}
	}
	if ki < 0 {
		return false
	}
	var fs []*ssa.Function
	if g := c.Call.StaticCallee(); g != nil {
		fs = []*ssa.Function{g}
	} else {
		fs = l.s.p.calleesOf(&c.Call)
		if ki += len(c.Call.Args) - len(c.Call.Args); len(fs) == 0 {
			return false
		}
	}
	for _, g := range fs {
		if !l.oneKey(g, ki, ex.Index, layouts) {
			return false
		}
	}
	return true
}

// oneKey: function g returns success for at most one of the keys, for a given text.
func (l *unordLoop) oneKey(g *ssa.Function, ki, res int, layouts map[string][]string) bool {
	if len(g.Blocks) == 0 || ki >= len(g.Params) {
		return false
	}
	key := g.Params[ki]
	named := map[string]bool{}
	parsed := false
	for k := range layouts {
		z := newCaseEval(l.s.p, func(_ *caseEval, x cval) (constant.Value, bool) {
			if x.v == ssa.Value(key) {
				return constant.MakeString(k), true
			}
			return nil, false
		}, func(_ *caseEval, x cval) (bool, bool) { return true, false })
		z.both = true
		c := z.enter(nil, g, nil)
		if c == nil {
			return false
		}
		var success func(v ssa.Value, fs []Fact, d int)
		success = func(v ssa.Value, fs []Fact, d int) {
			if kv := z.fold(cval{v, c}, 0); kv != nil && kv.Kind() == constant.Bool && !constant.BoolVal(kv) {
				return
			}
			if ph, ok := v.(*ssa.Phi); ok && !inLoopPhi(ph) && d < 6 {
				for i, e := range ph.Edges {
					if z.liveEdge(ph.Block(), i, c) {
						pr := ph.Block().Preds[i]
						var ef []Fact
						for j, sc := range pr.Succs {
							if sc == ph.Block() {
								ef = append(ef, edgeFacts(pr, j)...)
							}
						}
						success(e, append(append(ef, facts(pr)...), fs...), d+1)
					}
				}
				return
			}
			fs = append(append([]Fact{}, fs...), expandFacts([]Fact{{v, true}})...)
			for _, f := range fs {
				// !time.IsZero() of, or no error from, a parse with the given layout
				if dependsOn(f.Cond, func(v ssa.Value) bool {
					c, isCall := v.(*ssa.Call)
					if !isCall || !strings.HasPrefix(calleeName(&c.Call), "time.Parse") {
						return false
					}
					_, isParam := c.Call.Args[0].(*ssa.Parameter)
					return isParam
				}, map[ssa.Value]bool{}) {
					parsed = true
					return
				}
			}
			named[k] = true
		}
		for _, ret := range z.liveReturns(g, c) {
			if res < len(ret.Results) {
				success(ret.Results[res], facts(ret.Block()), 0)
			}
		}
	}
	if !parsed {
		return len(named) <= 1
	}
	if len(named) > 0 {
		return false
	}
	// layouts of different keys must denote different things
	kind := func(s string) string {
		switch strings.ToLower(s) {
		case "monday", "mon":
			return "weekday"
		case "january", "jan":
			return "month"
		}
		return ""
	}
	used := map[string]string{}
	for k, ls := range layouts {
		for _, s := range ls {
			n := kind(s)
			if n == "" || used[n] != "" && used[n] != k {
				return false
			}
			used[n] = k
		}
	}
	return true
}

// ---- lists in no particular order ----

func (s *orderScan) taint(v ssa.Value) { s.taintValue(v) }

func (s *orderScan) taintValue(v ssa.Value) {
	if !s.tainted[v] {
		s.tainted[v] = true
		s.work = append(s.work, v)
	}
}

func (s *orderScan) follow() {
	for len(s.work) > 0 {
		v := s.work[0]
		s.work = s.work[1:]
		s.uses(v)
	}
}

// storedBetween: the variable may be given another value after the sort and before the read.
func storedBetween(al *ssa.Alloc, so ssa.Instruction, ld *ssa.UnOp) bool {
	for _, st := range storesInto(al, 0) {
		if st.Addr == ssa.Value(al) && (canReach(so.Block(), st.Block()) || so.Block() == st.Block() && instrIndex(st) > instrIndex(so)) {
			return true
		}
	}
	return inLoop(so.Block()) && !dominates(so, ld)
}

var totalSorts = map[string]bool{"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "slices.Sort": true}

// sortedAt: a sort of the value runs before every later use.
func (s *orderScan) sortCalls(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	var look func(x ssa.Value, d int)
	look = func(x ssa.Value, d int) {
		for _, u := range refs(x) {
			if c := callOf(u); c != nil {
				n := calleeName(c)
				if totalSorts[n] && len(c.Args) > 0 && c.Args[0] == x {
					out = append(out, u)
				}
				if (n == "sort.Slice" || n == "sort.SliceStable" || n == "slices.SortFunc" || n == "slices.SortStableFunc") && len(c.Args) > 1 && c.Args[0] == x && totalOrder(c.Args[1]) {
					out = append(out, u)
				}
			}
			if d < 3 {
				switch y := u.(type) {
				case *ssa.MakeInterface:
					look(y, d+1)
				case *ssa.ChangeType:
					look(y, d+1)
				case *ssa.Convert:
					look(y, d+1)
				}
			}
		}
	}
	look(v, 0)
	return out
}

// totalOrder: the comparison function decides by the whole elements (possibly after other criteria).
func totalOrder(v ssa.Value) bool {
	var f *ssa.Function
	switch x := v.(type) {
	case *ssa.MakeClosure:
		f = x.Fn.(*ssa.Function)
	case *ssa.Function:
		f = x
	default:
		return false
	}
	if len(f.Blocks) == 0 {
		return f.Name() == "Compare" // strings.Compare, cmp.Compare
	}
	whole := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Parameter:
			return !isInt(x.Type()) || len(f.FreeVars) == 0
		case *ssa.UnOp:
			if x.Op == token.MUL {
				_, ok := x.X.(*ssa.IndexAddr)
				return ok
			}
		case *ssa.Index:
			return true
		}
		return false
	}
	ok := false
	eachInstr(f, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if whole(x.X) && whole(x.Y) {
					ok = true
				}
			}
		case *ssa.Call:
			switch calleeName(&x.Call) {
			case "strings.Compare", "cmp.Compare", "cmp.Less", "bytes.Compare":
				if whole(x.Call.Args[0]) && whole(x.Call.Args[1]) {
					ok = true
				}
			}
		}
	})
	return ok
}

func (s *orderScan) uses(v ssa.Value) {
	in, _ := v.(ssa.Instruction)
	sorts := s.sortCalls(v)
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if al, ok := ld.X.(*ssa.Alloc); ok {
			// a variable kept in memory: sorting any read of it sorts the shared list
			for _, u := range refs(al) {
				if l2, ok := u.(*ssa.UnOp); ok && l2 != ld && l2.Op == token.MUL {
					for _, so := range s.sortCalls(l2) {
						if !storedBetween(al, so, ld) {
							sorts = append(sorts, so)
						}
					}
				}
			}
		}
	}
	where := ""
	if in != nil {
		where = fnKey(in.Parent())
	} else if pr, ok := v.(*ssa.Parameter); ok {
		where = fnKey(pr.Parent())
	}
	for _, u := range refs(v) {
		clean := false
		for _, so := range sorts {
			if so == u || dominates(so, u) {
				clean = true
			}
		}
		if clean {
			continue
		}
		s.use(v, u, where)
	}
}

func (s *orderScan) use(v ssa.Value, u ssa.Instruction, where string) {
	bad := func(why string) {
		s.report(false, where+": list in map order", s.p.instrPos(u), why)
	}
	switch x := u.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		s.taintValue(x)
	case *ssa.Slice:
		if x.Low != nil && !isZeroConst(x.Low) || x.High != nil {
			bad("a part of a list built in map order is selected by position")
			return
		}
		s.taintValue(x)
	case *ssa.ChangeType, *ssa.Convert, *ssa.Extract, *ssa.MakeInterface:
		s.taintValue(u.(ssa.Value))
	case *ssa.TypeAssert:
		s.taintValue(x)
	case *ssa.BinOp:
		if isNilConst(x.X) || isNilConst(x.Y) {
			return
		}
		bad("a list built in map order is compared")
	case *ssa.UnOp:
		s.taintValue(x)
	case *ssa.Lookup:
		if x.X == v {
			s.taintValue(x)
		}
	case *ssa.Range:
		// the map holding such lists is iterated: decided as a map range of its own
	case *ssa.IndexAddr, *ssa.Index:
		var idx ssa.Value
		if ia, ok := x.(*ssa.IndexAddr); ok {
			idx = ia.Index
			for _, r2 := range refs(ia) {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					continue
				}
			}
		} else {
			idx = x.(*ssa.Index).Index
		}
		s.indexLoop(v, u, idx, where)
	case *ssa.FieldAddr, *ssa.Field:
		s.taintValue(u.(ssa.Value))
	case *ssa.Store:
		if x.Val != v {
			return
		}
		switch a := x.Addr.(type) {
		case *ssa.Global:
			if !s.globals[a] {
				s.globals[a] = true
				for _, f := range s.p.fnSrc {
					eachInstr(f, func(i ssa.Instruction) {
						if ld, ok := i.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X == ssa.Value(a) {
							s.taintValue(ld)
						}
					})
				}
			}
		case *ssa.FieldAddr:
			s.field(fieldVar(a))
		case *ssa.Alloc:
			for _, r2 := range refs(a) {
				if ld, ok := r2.(*ssa.UnOp); ok && ld.Op == token.MUL {
					s.taintValue(ld)
				}
			}
		case *ssa.IndexAddr:
			s.taintValue(a.X)
		default:
			bad("a list built in map order is stored")
		}
	case *ssa.MapUpdate:
		if x.Value == v {
			s.taintValue(x.Map)
		}
	case *ssa.Return:
		f := x.Parent()
		for k, rv := range x.Results {
			if rv != v {
				continue
			}
			for _, cs := range s.p.callSites(f) {
				cv, ok := cs.(ssa.Value)
				if !ok {
					continue
				}
				if len(x.Results) == 1 {
					s.taintValue(cv)
					continue
				}
				for _, r2 := range refs(cv) {
					if e, ok := r2.(*ssa.Extract); ok && e.Index == k {
						s.taintValue(e)
					}
				}
			}
			if s.p.isEntry(f) {
				bad("a list built in map order is returned to the caller")
			}
		}
	case *ssa.If:
	case ssa.CallInstruction:
		s.callUse(v, x, bad)
	case *ssa.MakeClosure:
		for k, b := range x.Bindings {
			if b == v {
				s.taintValue(x.Fn.(*ssa.Function).FreeVars[k])
			}
		}
	default:
		bad("a list built in map order is used")
	}
}

func (p *Prog) isEntry(f *ssa.Function) bool {
	for _, e := range p.entryPoints() {
		if e == f {
			return true
		}
	}
	return false
}

func fieldVar(a *ssa.FieldAddr) *types.Var {
	t := a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return t.Field(a.Field)
}

func (s *orderScan) field(fv *types.Var) {
	if s.fields[fv] {
		return
	}
	s.fields[fv] = true
	for _, f := range s.p.fnSrc {
		eachInstr(f, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.FieldAddr:
				if fieldVar(x) == fv {
					for _, u := range refs(x) {
						if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL {
							s.taintValue(ld)
						}
					}
				}
			case *ssa.Field:
				if st, ok := x.X.Type().Underlying().(*types.Struct); ok && st.Field(x.Field) == fv {
					s.taintValue(x)
				}
			}
		})
	}
}

func (s *orderScan) callUse(v ssa.Value, ci ssa.CallInstruction, bad func(string)) {
	c := ci.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "delete", "clear":
		case "append":
			s.taintValue(ci.(ssa.Value))
		case "copy":
			if c.Args[1] == v {
				s.taintValue(c.Args[0])
			}
		default:
			bad("a list built in map order is passed to " + b.Name())
		}
		return
	}
	n := calleeName(c)
	switch {
	case totalSorts[n]:
		return
	case n == "slices.Contains" || n == "slices.ContainsFunc" || n == "maps.Clone":
		return
	case n == "slices.Clone" || n == "slices.Values":
		s.taintValue(ci.(ssa.Value))
		return
	case n == "slices.Sorted" || n == "maps.Collect":
		return
	case strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort"):
		if len(c.Args) > 1 && totalOrder(c.Args[1]) {
			return
		}
		bad("a list built in map order is sorted by a comparison that leaves ties in map order")
		return
	}
	f := c.StaticCallee()
	if f == nil || !s.p.inRepo(f) || len(f.Blocks) == 0 {
		bad("a list built in map order is passed to " + n)
		return
	}
	for k, a := range c.Args {
		if a == v && k < len(f.Params) {
			s.taintValue(f.Params[k])
		}
	}
}

// indexLoop: elements of an unordered list are visited one after the other.
func (s *orderScan) indexLoop(list ssa.Value, at ssa.Instruction, idx ssa.Value, where string) {
	h := loopHeader(at.Block())
	var phi *ssa.Phi
	for ; h != nil; h = outerHeader(h) {
		for _, i := range h.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if idx == ssa.Value(ph) {
				phi = ph
			}
			if b, ok := idx.(*ssa.BinOp); ok && b.X == ssa.Value(ph) {
				phi = ph
			}
		}
		if phi != nil {
			break
		}
	}
	if phi == nil {
		s.report(false, where+": list in map order", s.p.instrPos(at), "an element of a list built in map order is selected by position")
		return
	}
	l := &unordLoop{s: s, h: h, elem: phi, index: map[*ssa.Phi]bool{phi: true}}
	s.runLoop(l, where+": loop over a list in map order", s.p.instrPos(at))
}

func outerHeader(h *ssa.BasicBlock) *ssa.BasicBlock {
	for d := h.Idom(); d != nil; d = d.Idom() {
		if d != h && canReach(d, d) && inSameLoop(d, h) && loopHeader(d) == d {
			return d
		}
	}
	return nil
}

func checkC05(p *Prog, r *Result) {
	r.Rule = "In every function that runs at start-up or is reachable from an entry point: each iteration over a map (and over a list filled in map order and not sorted by a total order since) has only effects that commute (counting, flags, set membership, one entry per key, distinct positions), is never left early with a value or effect belonging to one step unless at most one step can match, and no operation depends on chance, scheduling or addresses."
	r.Explanation = "Map iterations are found on SSA; loop-carried variables, stores, map updates, calls (by effect summary) and exits of each loop are classified; lists built in map order are followed through variables, maps, fields, calls and returns until sorted."
	s := newOrderScan(p)
	n, fn := 0, 0
	var fns []*ssa.Function
	reach := p.reachable()
	for _, f := range p.fnSrc {
		if _, ok := reach[f]; ok || isInitFn(f) || p.fromInit(f) {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		fn++
		n += s.scan(f)
		p.chance(f, r)
	}
	s.follow()
	sort.SliceStable(s.obs, func(i, j int) bool { return s.obs[i].Key < s.obs[j].Key })
	r.Obs = append(r.Obs, s.obs...)
	r.floor("map-order", 2)
	r.floor("chance", 20)
	r.Analysed["functions analysed"] = fn
	r.Analysed["map iterations"] = n
	r.Analysed["loops judged (incl. loops over unordered lists)"] = len(s.loops)
	r.Analysed["values followed that hold lists in map order"] = len(s.tainted)
}

var initReach map[*ssa.Function]bool

// fromInit: called (transitively) while the package variables are set up.
func (p *Prog) fromInit(f *ssa.Function) bool {
	if initReach == nil {
		initReach = map[*ssa.Function]bool{}
		var roots []*ssa.Function
		for _, g := range p.fnSrc {
			if isInitFn(g) {
				roots = append(roots, g)
			}
		}
		for _, sp := range p.SSA.AllPackages() {
			if sp.Pkg != nil && isRepoPath(sp.Pkg.Path()) {
				if g := sp.Func("init"); g != nil {
					roots = append(roots, g)
				}
			}
		}
		for g := range p.reachFrom(roots) {
			initReach[g] = true
		}
	}
	return initReach[f]
}

// chance: operations whose outcome varies from run to run.
func (p *Prog) chance(f *ssa.Function, r *Result) {
	prob, pos := "", p.pos(f.Pos())
	note := func(i ssa.Instruction, why string) {
		if prob == "" {
			prob, pos = why, p.instrPos(i)
		}
	}
	eachInstr(f, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.Select:
			note(i, "a select statement picks among ready channels by chance")
		case *ssa.Go:
			note(i, "the outcome may depend on goroutine scheduling")
		case *ssa.Convert:
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
				if xb, ok := x.X.Type().Underlying().(*types.Basic); ok && xb.Kind() == types.UnsafePointer {
					note(i, "a memory address is used as a number")
				}
			}
		}
		c := callOf(i)
		if c == nil {
			return
		}
		if g := c.StaticCallee(); g != nil {
			switch pk := pkgOf(g); {
			case pk == "math/rand" || pk == "math/rand/v2" || pk == "crypto/rand":
				if !strings.HasPrefix(g.Name(), "New") {
					note(i, "calls "+pk+"."+g.Name())
				}
			case pk == "hash/maphash":
				note(i, "uses a randomly seeded hash")
			case pk == "runtime" && (strings.HasPrefix(g.Name(), "Num") || g.Name() == "ReadMemStats"):
				note(i, "depends on the state of the runtime")
			case pk == "os" && (g.Name() == "Getpid" || g.Name() == "Getenv" || g.Name() == "LookupEnv" || g.Name() == "Environ" || g.Name() == "Hostname"):
				note(i, "depends on the process environment")
			case pk == "reflect" && (g.Name() == "Pointer" || g.Name() == "UnsafePointer"):
				note(i, "a memory address is used as a number")
			}
		}
		for _, a := range c.Args {
			if sv, ok := constString(a); ok && strings.Contains(sv, "%p") && strings.HasPrefix(calleeName(c), "fmt.") {
				note(i, "a memory address is printed")
			}
		}
	})
	r.add(prob == "", "chance", fnKey(f), pos, okOr(prob, "no operation that varies from run to run"))
}
