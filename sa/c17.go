package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: no input makes a call panic. Every instruction of the reachable code that can panic is an
// obligation: index and slice operations have to stay within bounds, divisors must not be zero, sizes
// not be negative, pointers, tables and functions not be nil. They are discharged by the bounds
// prover (differences between quantities, over all paths) and by a nilness analysis.

func init() { checks["C17"] = checkC17 }

type panicSite struct {
	p  *Prog
	q  *prover
	r  *Result
	fn *ssa.Function
	n  map[string]int // proved per rule
	k  map[string]int // keys used
}

func checkC17(p *Prog, r *Result) {
	r.Rule = "every index, slice, division, allocation size, dereference, table write and library call with a panicking precondition in the reachable code is shown to be safe on all paths"
	q := p.newProver()
	total := map[string]int{}
	nf := 0
	for _, fn := range p.reachableRepo() {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue // package variables: no input involved, run by every program
		}
		nf++
		s := &panicSite{p: p, q: q, r: r, fn: fn, n: map[string]int{}, k: map[string]int{}}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s.instr(i, b)
			}
		}
		for _, rule := range sortedKeys(s.n) {
			total[rule] += s.n[rule]
			r.ok(rule, fnKey(fn), p.pos(fn.Pos()), fmt.Sprintf("%d sites safe", s.n[rule]))
		}
	}
	r.Analysed["functions"] = nf
	for rule, n := range total {
		r.Analysed[rule] = n
	}
	for rule, n := range map[string]int{"in-range": 30, "slice-range": 10, "divisor": 1, "size": 3, "nil": 60, "table-write": 10} {
		r.floor(rule, n/3)
	}
	r.Explanation = "The branches taken on the way to each site, the definitions of the values, the callers (for parameters), the returns (for results) and facts about library functions, patterns and the locale tables are combined into difference bounds; loops by induction. A site that cannot be shown to be safe is reported."
	r.Assumptions = append(r.Assumptions, "the standard library and the dependencies do not panic when their preconditions hold", "int is 64 bit; lengths and their sums do not overflow", "callbacks supplied by the caller do not panic")
	for _, u := range sortedKeys(q.used) {
		r.Assumptions = append(r.Assumptions, u)
	}
	checkGrowth(p, q, r)
}

func (s *panicSite) report(ok bool, rule string, i ssa.Instruction, why string) {
	if ok {
		s.n[rule]++
		return
	}
	key := fnKey(s.fn) + ": " + describeSite(i)
	s.k[key]++
	if n := s.k[key]; n > 1 {
		key += fmt.Sprintf(" #%d", n)
	}
	s.r.bad(rule, key, s.p.instrPos(i), why)
}

// describe names the construct without the names of temporaries.
func describeSite(i ssa.Instruction) string {
	switch x := i.(type) {
	case *ssa.IndexAddr:
		return "index of " + nameOfValue(x.X)
	case *ssa.Index:
		return "index of " + nameOfValue(x.X)
	case *ssa.Lookup:
		return "character of " + nameOfValue(x.X)
	case *ssa.Slice:
		return "part of " + nameOfValue(x.X)
	case *ssa.BinOp:
		return x.Op.String()
	case *ssa.MakeSlice:
		return "make"
	case *ssa.MapUpdate:
		return "write to " + nameOfValue(x.Map)
	case *ssa.FieldAddr:
		_, n := fieldName(x)
		return "." + n + " of " + nameOfValue(x.X)
	case *ssa.UnOp:
		return "load through " + nameOfValue(x.X)
	case ssa.CallInstruction:
		if n := calleeName(x.Common()); n != "" {
			return "call of " + n
		}
		return "call of " + nameOfValue(x.Common().Value)
	}
	return fmt.Sprintf("%T", i)
}

func nameOfValue(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return v.Name()
	case *ssa.Global:
		return x.Name()
	case *ssa.Alloc:
		return x.Comment
	case *ssa.Phi:
		return x.Comment
	case *ssa.UnOp:
		return nameOfValue(x.X)
	case *ssa.FieldAddr:
		_, n := fieldName(x)
		return n
	case *ssa.Field:
		_, n := fieldName(x)
		return n
	case *ssa.IndexAddr:
		return nameOfValue(x.X) + "[]"
	case *ssa.Extract:
		return nameOfValue(x.Tuple)
	case *ssa.Call:
		if n := calleeName(&x.Call); n != "" {
			return strings.TrimPrefix(n, modPath+"/")
		}
	case *ssa.Lookup:
		return nameOfValue(x.X) + "[]"
	case *ssa.Slice:
		return nameOfValue(x.X)
	}
	return "value"
}

func (s *panicSite) instr(i ssa.Instruction, b *ssa.BasicBlock) {
	q := s.q
	switch x := i.(type) {
	case *ssa.IndexAddr:
		s.index(i, x.X, x.Index, b)
	case *ssa.Index:
		s.index(i, x.X, x.Index, b)
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			s.index(i, x.X, x.Index, b)
		}
	case *ssa.Slice:
		s.slice(x, b)
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.X.Type()) {
			if k, ok := constInt(x.Y); ok {
				s.report(k != 0, "divisor", i, "division by zero")
				return
			}
			y := q.norm(x.Y)
			ok := q.ge(y, 1, b) || q.le(y, konst(-1), b) || s.notZero(y, b)
			s.report(ok, "divisor", i, "the divisor is not shown to differ from zero")
		}
		if x.Op == token.SHL || x.Op == token.SHR {
			if isInt(x.Y.Type()) && !isUnsigned(x.Y.Type()) {
				s.report(q.ge(q.norm(x.Y), 0, b), "size", i, "the shift count may be negative")
			}
		}
	case *ssa.MakeSlice:
		n := q.norm(x.Len)
		s.report(q.ge(n, 0, b), "size", i, "the length of the new list may be negative")
		if c := q.norm(x.Cap); c != n {
			s.report(q.le(n, c, b), "size", i, "the capacity of the new list may be below its length")
		}
	case *ssa.MapUpdate:
		why := q.mayBeNil(x.Map, b, 0, map[nilKey]bool{})
		s.report(why == "", "table-write", i, "the table written to may be nil: "+why)
	case *ssa.FieldAddr:
		s.pointer(i, x.X, b)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			s.pointer(i, x.X, b)
		}
	case *ssa.Store:
		s.pointer(i, x.Addr, b)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			s.report(false, "assertion", i, "a type assertion without a second result panics for another type")
		}
	case *ssa.SliceToArrayPointer:
		ar := arrayOf(x.Type().Underlying().(*types.Pointer).Elem())
		s.report(q.ge(q.lenOf(x.X), ar.Len(), b), "in-range", i, "the list may be shorter than the array")
	case *ssa.Panic:
		s.report(syntheticPanic(x), "panic", i, "explicit panic reachable from an entry point")
	case ssa.CallInstruction:
		s.call(x, b)
	}
}

// syntheticPanic: the check of the compiler that the body of a range over a function is not called
// after the end of the loop.
func syntheticPanic(x *ssa.Panic) bool {
	mi, ok := x.X.(*ssa.MakeInterface)
	if !ok {
		return true
	}
	c, ok := mi.X.(*ssa.Const)
	if ok {
		if s, isS := constString(c); isS {
			return strings.Contains(s, "iterator call did not preserve panic") || strings.Contains(s, "yield function called after")
		}
	}
	return x.Pos() == token.NoPos
}

func (s *panicSite) notZero(y lin, b *ssa.BasicBlock) bool {
	for _, f := range facts(b) {
		bo, ok := f.Cond.(*ssa.BinOp)
		if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) || (bo.Op == token.NEQ) != f.Val || !isInt(bo.X.Type()) {
			continue
		}
		if k, ok := constInt(bo.Y); ok {
			l := s.q.norm(bo.X)
			if l.atom == y.atom && k-l.c+y.c == 0 {
				return true
			}
		}
	}
	return false
}

func (s *panicSite) index(i ssa.Instruction, list, idx ssa.Value, b *ssa.BasicBlock) {
	q := s.q
	l := q.norm(idx)
	var ln lin
	if pt, ok := list.Type().Underlying().(*types.Pointer); ok {
		ln = konst(arrayOf(pt.Elem()).Len())
	} else {
		ln = q.lenOf(list)
	}
	if ln.v == nil && l.v == nil {
		s.report(l.c >= 0 && l.c < ln.c, "in-range", i, "the index is outside the list")
		return
	}
	if !q.ge(l, 0, b) {
		s.report(false, "in-range", i, "the index may be negative")
		return
	}
	top := l
	top.c++
	ok := q.le(top, ln, b) || s.parallelIndex(list, top, b)
	s.report(ok, "in-range", i, "the index may reach the end of "+nameOfValue(list))
}

// parallelIndex: the index is within a list that is kept in step with this one.
func (s *panicSite) parallelIndex(list ssa.Value, top lin, b *ssa.BasicBlock) bool {
	for _, o := range s.lists(list) {
		if s.inStep(list, o, 0) && s.q.le(top, s.q.lenOf(o), b) {
			s.q.used["lists filled side by side have the same length (checked by C23)"] = true
			return true
		}
	}
	return false
}

// lists are the lists the function measures, ranges over or indexes.
func (s *panicSite) lists(not ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{not: true, s.q.rep(not): true}
	add := func(v ssa.Value) {
		if _, ok := v.Type().Underlying().(*types.Slice); ok && !seen[s.q.rep(v)] {
			seen[s.q.rep(v)] = true
			out = append(out, v)
		}
	}
	eachInstr(s.fn, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.Call:
			if calleeName(&x.Call) == "builtin len" {
				add(x.Call.Args[0])
			}
		case *ssa.IndexAddr:
			add(x.X)
		}
	})
	return out
}

// inStep: both lists come from the same place: results of one call, fields of one value, lists built
// by the same loop, parts of a text split at the same separator, elements of such lists.
func (s *panicSite) inStep(a, b ssa.Value, depth int) bool {
	q := s.q
	if depth > 4 {
		return false
	}
	a, b = q.rep(a), q.rep(b)
	if a == b {
		return true
	}
	ca, ia := callResult(a)
	cb, ib := callResult(b)
	if ca != nil && ca == cb && ia != ib {
		return true
	}
	if ca != nil && cb != nil && ca != cb && calleeName(&ca.Call) == "strings.Split" && calleeName(&cb.Call) == "strings.Split" {
		return q.rep(ca.Call.Args[1]) == q.rep(cb.Call.Args[1]) || sameConst(ca.Call.Args[1], cb.Call.Args[1])
	}
	if pa, ok := a.(*ssa.Phi); ok {
		if pb, ok := b.(*ssa.Phi); ok {
			return pa.Parent() == pb.Parent() && s.builtTogether(pa, pb)
		}
	}
	if pa, ok := a.(*ssa.Parameter); ok {
		if pb, ok := b.(*ssa.Parameter); ok && pa.Parent() == pb.Parent() {
			sites := q.sites(pa.Parent())
			for _, c := range sites {
				x, y := q.argFor(pa.Parent(), pa, c), q.argFor(pa.Parent(), pb, c)
				s2 := &panicSite{p: s.p, q: q, r: s.r, fn: c.Parent()}
				if x == nil || y == nil || !s2.inStep(x, y, depth+1) {
					return false
				}
			}
			return len(sites) > 0
		}
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 {
		oa, na := fieldName(ua.X)
		ob, nb := fieldName(ub.X)
		if oa != nil && oa == ob && na != nb {
			return s.fieldsInStep(oa, ua.X, ub.X)
		}
		xa, ok1 := ua.X.(*ssa.IndexAddr)
		xb, ok2 := ub.X.(*ssa.IndexAddr)
		if ok1 && ok2 && q.norm(xa.Index) == q.norm(xb.Index) {
			return s.inStep(xa.X, xb.X, depth+1)
		}
	}
	// elements of a list of lists, each no longer than the other list
	if ok2 {
		if ib, ok := ub.X.(*ssa.IndexAddr); ok {
			if sts, ok := q.elementStores(ib.X); ok && len(sts) > 0 {
				good := true
				for _, st := range sts {
					good = good && q.le(q.lenOf(st.Val), q.lenOf(a), st.Block())
				}
				if good {
					return true
				}
			}
		}
	}
	// a list built next to one that holds one entry per element
	return s.builtTogether(a, b)
}

// fieldsInStep: the two fields get their lists at the same places.
func (s *panicSite) fieldsInStep(o *types.Named, a, b ssa.Value) bool {
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if !ok1 || !ok2 {
		return false
	}
	sa, _ := s.q.fieldStores(o, fa.Field)
	sb, _ := s.q.fieldStores(o, fb.Field)
	at := map[*ssa.BasicBlock]int{}
	for _, st := range sa {
		at[st.Block()]++
	}
	for _, st := range sb {
		at[st.Block()]--
	}
	for _, n := range at {
		if n != 0 {
			return false
		}
	}
	return len(sa) > 0
}

// elementStores are the stores into a list that is made here and filled by index only.
func (q *prover) elementStores(list ssa.Value) ([]*ssa.Store, bool) {
	mk, ok := q.rep(list).(*ssa.MakeSlice)
	if !ok {
		return nil, false
	}
	var out []*ssa.Store
	for _, r := range *mk.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			for _, d := range *x.Referrers() {
				if st, ok := d.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					out = append(out, st)
				} else if u, ok := d.(*ssa.UnOp); !ok || u.Op != token.MUL {
					return nil, false
				}
			}
		case *ssa.Call:
			if calleeName(&x.Call) != "builtin len" {
				return nil, false
			}
		case *ssa.DebugRef, *ssa.Range:
		default:
			return nil, false
		}
	}
	return out, true
}

// builtTogether: the appends to both lists happen in the same blocks.
func (s *panicSite) builtTogether(a, b ssa.Value) bool {
	pa, ok1 := s.appendBlocks(a)
	pb, ok2 := s.appendBlocks(b)
	if !ok1 || !ok2 || len(pa) == 0 || len(pa) != len(pb) {
		return false
	}
	for k := range pa {
		if !pb[k] {
			return false
		}
	}
	return true
}

func (s *panicSite) appendBlocks(v ssa.Value) (map[*ssa.BasicBlock]bool, bool) {
	out := map[*ssa.BasicBlock]bool{}
	seen := map[ssa.Value]bool{}
	ok := true
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		v = s.q.rep(v)
		if seen[v] {
			return
		}
		seen[v] = true
		if ph := phiOf(v); ph != nil {
			for _, e := range ph.edges {
				walk(e)
			}
			return
		}
		switch x := v.(type) {
		case *ssa.Const, *ssa.MakeSlice:
		case *ssa.Call:
			if calleeName(&x.Call) == "builtin append" {
				out[x.Block()] = true
				walk(x.Call.Args[0])
				return
			}
			ok = false
		case *ssa.Slice:
			if _, isAl := x.X.(*ssa.Alloc); !isAl {
				ok = false
			}
		case *ssa.UnOp:
			// the element of a list at the same index: the lists it is taken from tell
			if ia, isIA := x.X.(*ssa.IndexAddr); isIA {
				for _, r := range *ia.X.Referrers() {
					_ = r
				}
				if mk, isMk := s.q.rep(ia.X).(*ssa.MakeSlice); isMk {
					for _, r := range *mk.Referrers() {
						if d, isIA := r.(*ssa.IndexAddr); isIA {
							for _, st := range *d.Referrers() {
								if w, isSt := st.(*ssa.Store); isSt && w.Addr == ssa.Value(d) {
									walk(w.Val)
								}
							}
						}
					}
					return
				}
			}
			ok = false
		default:
			ok = false
		}
	}
	walk(v)
	return out, ok
}

func (s *panicSite) slice(x *ssa.Slice, b *ssa.BasicBlock) {
	q := s.q
	lo := konst(0)
	if x.Low != nil {
		lo = q.norm(x.Low)
		if !q.ge(lo, 0, b) && !s.sumSlice(x, b) {
			s.report(false, "slice-range", x, "the start may be negative")
			return
		}
	}
	full := lin{}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		full = konst(arrayOf(pt.Elem()).Len())
	} else {
		full = q.lenOf(x.X)
	}
	if x.High == nil {
		if x.Low != nil {
			s.report(q.le(lo, full, b), "slice-range", x, "the start may lie behind the end of "+nameOfValue(x.X))
		}
		return
	}
	hi := q.norm(x.High)
	if !q.le(lo, hi, b) && !s.sumSlice(x, b) {
		s.report(false, "slice-range", x, "the end may lie before the start")
		return
	}
	ok := q.le(hi, full, b) || s.sumSlice(x, b) || s.layoutSlice(x, hi, b) || s.parallelHigh(x, hi, b)
	s.report(ok, "slice-range", x, "the end may lie behind the end of "+nameOfValue(x.X))
}

func (s *panicSite) parallelHigh(x *ssa.Slice, hi lin, b *ssa.BasicBlock) bool {
	if _, ok := x.X.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	return s.parallelIndex(x.X, hi, b)
}

// sumSlice: text[n : n+k] where n runs through the sums of a list of sizes, and the branch taken says
// that the sum of all is no more than the length of the text.
func (s *panicSite) sumSlice(x *ssa.Slice, b *ssa.BasicBlock) bool {
	q := s.q
	if x.Low == nil || x.High == nil {
		return false
	}
	ph, ok := x.Low.(*ssa.Phi)
	if !ok {
		return false
	}
	add, ok := x.High.(*ssa.BinOp)
	if !ok || add.Op != token.ADD || add.X != ssa.Value(ph) && add.Y != ssa.Value(ph) {
		return false
	}
	step := add.Y
	if step == ssa.Value(ph) {
		step = add.X
	}
	// the next start is this end
	for k, e := range ph.Edges {
		if n := q.norm(e); n.v == nil && n.c == 0 {
			continue
		}
		if e == ssa.Value(add) || e == ssa.Value(ph) {
			continue
		}
		if o, ok := e.(*ssa.BinOp); ok && o.Op == token.ADD && (o.X == ssa.Value(ph) && q.rep(o.Y) == q.rep(step) || o.Y == ssa.Value(ph) && q.rep(o.X) == q.rep(step)) {
			continue
		}
		_ = k
		return false
	}
	u, ok := q.rep(step).(*ssa.UnOp)
	if !ok {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	// the list of sizes is an element of a list; the sums are in another one, at the same place
	src, _ := q.rep(ia.X).(*ssa.UnOp)
	if src == nil {
		return false
	}
	from, ok := src.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	full := q.lenOf(x.X)
	for _, in := range q.ineqs(startOf(b)) {
		if in.y != full.atom || in.c > full.c || in.x.v == nil {
			continue
		}
		su, ok := in.x.v.(*ssa.UnOp)
		if !ok {
			continue
		}
		if sa, ok := su.X.(*ssa.IndexAddr); ok && q.norm(sa.Index) == q.norm(from.Index) && q.rep(sa.X) != q.rep(from.X) {
			q.used["the sums kept next to the lists of sizes are the sums of those lists, and sizes are not negative"] = true
			return true
		}
	}
	return false
}

// layoutSlice: the first n characters of a token that was recognised with one of the layouts of its
// component, each of which needs at least that many characters.
func (s *panicSite) layoutSlice(x *ssa.Slice, hi lin, b *ssa.BasicBlock) bool {
	if hi.v != nil || x.Low != nil && !zeroDivisor(x.Low) {
		return false
	}
	q := s.q
	var base ssa.Value
	switch t := q.rep(x.X).(type) {
	case *ssa.UnOp:
		if fa, ok := t.X.(*ssa.FieldAddr); ok {
			if al, ok := fa.X.(*ssa.Alloc); ok {
				if st := soleStore2(al); st != nil {
					base = st.Val
				}
			}
		}
	case *ssa.Field:
		base = t.X
	}
	ex, ok := base.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return false
	}
	lk, ok := ex.Tuple.(*ssa.Lookup)
	if !ok || !q.foundLookup(ex, startOf(b)) {
		return false
	}
	key, ok := constString(lk.Index)
	if !ok {
		return false
	}
	least := s.p.layoutMin(key)
	if least > 0 && hi.c <= int64(least) {
		q.used["time.Parse accepts a weekday or month name only when it is written in full or with three letters"] = true
		return true
	}
	return false
}

// soleStore2: the variable gets its only value as a whole.
func soleStore2(al *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	for _, r := range *al.Referrers() {
		if x, ok := r.(*ssa.Store); ok && x.Addr == ssa.Value(al) {
			if st != nil {
				return nil
			}
			st = x
		}
	}
	return st
}

func zeroDivisor(v ssa.Value) bool {
	k, ok := constInt(v)
	return ok && k == 0
}

// layoutMin: the least number of characters of a text matched by the layouts of a table entry.
func (p *Prog) layoutMin(key string) int {
	least := 0
	for _, path := range sortedKeys(p.SSAPkgs) {
		for _, m := range p.SSAPkgs[path].Members {
			g, ok := m.(*ssa.Global)
			if !ok || !p.inRepoPkg(path) {
				continue
			}
			mk, ok := p.initValue(g).(*ssa.MakeMap)
			if !ok {
				continue
			}
			for _, r := range *mk.Referrers() {
				mu, ok := r.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				if k, ok := constString(mu.Key); !ok || k != key {
					continue
				}
				for _, l := range sliceConsts(mu.Value) {
					n := 0
					switch l {
					case "Mon", "Jan", "January":
						n = 3
					case "Monday":
						n = 6
					default:
						return 0
					}
					if least == 0 || n < least {
						least = n
					}
				}
			}
		}
	}
	return least
}

func (p *Prog) inRepoPkg(path string) bool { return strings.HasPrefix(path, modPath) }

// sliceConsts are the constants of a list literal.
func sliceConsts(v ssa.Value) []string {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []string
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, s := range *ia.Referrers() {
				if st, ok := s.(*ssa.Store); ok {
					if c, ok := constString(st.Val); ok {
						out = append(out, c)
					} else {
						out = append(out, "?")
					}
				}
			}
		}
	}
	return out
}

func (s *panicSite) pointer(i ssa.Instruction, ptr ssa.Value, b *ssa.BasicBlock) {
	switch ptr.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr:
		return // an address
	}
	if _, ok := ptr.Type().Underlying().(*types.Pointer); !ok {
		return
	}
	if fv, ok := ptr.(*ssa.FreeVar); ok && bCell(fv) != nil {
		return
	}
	why := s.q.mayBeNil(ptr, b, 0, map[nilKey]bool{})
	s.report(why == "", "nil", i, "the pointer may be nil: "+why)
}

func (s *panicSite) call(c ssa.CallInstruction, b *ssa.BasicBlock) {
	q := s.q
	cc := c.Common()
	n := calleeName(cc)
	loc := func(k int) {
		if k < len(cc.Args) {
			why := q.mayBeNil(cc.Args[k], b, 0, map[nilKey]bool{})
			s.report(why == "", "nil", c, "the location may be nil: "+why)
		}
	}
	switch n {
	case "time.Date":
		loc(7)
	case "(time.Time).In":
		loc(1)
	case "time.ParseInLocation":
		loc(2)
	case "strings.Repeat", "bytes.Repeat":
		s.report(q.ge(q.norm(cc.Args[1]), 0, b), "size", c, "the count may be negative")
	case "slices.Grow":
		s.report(q.ge(q.norm(cc.Args[1]), 0, b), "size", c, "the count may be negative")
	case "(*strings.Builder).Grow":
		s.report(q.ge(q.norm(cc.Args[1]), 0, b), "size", c, "the count may be negative")
	case "slices.Delete":
		i, j, l := q.norm(cc.Args[1]), q.norm(cc.Args[2]), q.lenOf(cc.Args[0])
		ok := q.ge(i, 0, b) && q.le(i, j, b) && q.le(j, l, b)
		s.report(ok, "slice-range", c, "the range to delete may lie outside the list")
	case "slices.Insert", "slices.Replace":
		i, l := q.norm(cc.Args[1]), q.lenOf(cc.Args[0])
		ok := q.ge(i, 0, b) && q.le(i, l, b)
		s.report(ok, "slice-range", c, "the place to insert at may lie outside the list")
	case "slices.Max", "slices.Min", "slices.MaxFunc", "slices.MinFunc":
		s.report(q.ge(q.lenOf(cc.Args[0]), 1, b), "in-range", c, "the list may be empty")
	case "math/rand.Intn", "math/rand.Int63n":
		s.report(q.ge(q.norm(cc.Args[0]), 1, b), "size", c, "the limit may not be positive")
	}
	if f := cc.StaticCallee(); f != nil {
		if strings.HasPrefix(f.Name(), "Must") && len(cc.Args) > 0 && f.Signature.Recv() == nil {
			if _, ok := q.constText(cc.Args[0], 0); !ok {
				s.report(false, "panic", c, "a pattern that is not constant is compiled with a function that panics")
			} else {
				s.report(true, "panic", c, "")
			}
		}
		return
	}
	if cc.IsInvoke() {
		return
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return
	}
	// a function value
	why := q.mayBeNil(cc.Value, b, 0, map[nilKey]bool{})
	s.report(why == "", "nil", c, "the function called may be nil: "+why)
}

type nilKey struct {
	v ssa.Value
	b *ssa.BasicBlock
}

// mayBeNil gives a reason why the value could be nil at the block, or "".
func (q *prover) mayBeNil(v ssa.Value, b *ssa.BasicBlock, depth int, seen map[nilKey]bool) string {
	return q.nilAt(v, startOf(b), depth, seen)
}

func (q *prover) nilAt(v ssa.Value, at loc, depth int, seen map[nilKey]bool) string {
	if depth > 25 {
		return ""
	}
	key := nilKey{v, at.b}
	if seen[key] {
		return ""
	}
	seen[key] = true
	r := q.rep(v)
	for _, f := range at.facts() {
		if x, isNil, ok := nilFact(f); ok && !isNil && (x == v || q.rep(x) == r || sameFieldLoad(x, v) || sameFieldLoad(q.rep(x), r)) {
			return ""
		}
		if f.Val {
			if ex, ok := f.Cond.(*ssa.Extract); ok && ex.Index == 1 {
				if e0, ok := r.(*ssa.Extract); ok && e0.Tuple == ex.Tuple {
					if _, isLk := ex.Tuple.(*ssa.Lookup); isLk {
						return ""
					}
				}
			}
		}
	}
	if q.nonNilByJoin(v, at) {
		return ""
	}
	v = r
	if ph := phiOf(v); ph != nil {
		for k, e := range ph.edges {
			p := ph.blk.Preds[k]
			for j, s := range p.Succs {
				if s == ph.blk {
					l := startOf(p)
					if len(p.Succs) > 1 {
						l = loc{p, j + 1}
					}
					if why := q.nilAt(e, l, depth+1, seen); why != "" {
						return why
					}
				}
			}
		}
		return ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return "nil"
		}
	case *ssa.ChangeType:
		return q.nilAt(x.X, at, depth+1, seen)
	case *ssa.Parameter:
		f := x.Parent()
		if q.p.exposed(f) {
			if f.Signature.Recv() != nil && len(f.Params) > 0 && f.Params[0] == x {
				return ""
			}
			if _, ok := x.Type().Underlying().(*types.Pointer); ok {
				return "the caller may pass nil for " + x.Name() + " of " + fnKey(f)
			}
			return ""
		}
		for _, s := range q.sites(f) {
			if a := q.argFor(f, x, s); a != nil {
				if why := q.nilAt(a, startOf(s.Block()), depth+1, seen); why != "" {
					return why
				}
			}
		}
		return ""
	case *ssa.FreeVar:
		if mc := closureOf(x.Parent()); mc != nil {
			for k, fv := range x.Parent().FreeVars {
				if fv == x {
					return q.nilAt(mc.Bindings[k], startOf(mc.Block()), depth+1, seen)
				}
			}
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && !x.CommaOk {
			if nilable(x.Type()) && !q.keyPresent(x) && !q.constKey(x, at) {
				return "the table may have no such entry"
			}
		}
	case *ssa.Call, *ssa.Extract:
		if ex, ok := v.(*ssa.Extract); ok {
			if _, isLk := ex.Tuple.(*ssa.Lookup); isLk && ex.Index == 0 {
				return "the table may have no such entry"
			}
		}
		cl, idx := callResult(v)
		if cl == nil {
			return ""
		}
		switch calleeName(&cl.Call) {
		case "time.LoadLocation", "time.ParseDuration", "regexp.Compile":
			if idx == 0 && !q.errNil(cl, at) {
				return "the error of the call that made it is not checked"
			}
			return ""
		}
		var targets []*ssa.Function
		if g := cl.Call.StaticCallee(); g != nil {
			targets = []*ssa.Function{g}
		} else {
			targets = q.p.callees(cl)
		}
		for _, g := range targets {
			if !q.p.inRepo(g) || len(g.Blocks) == 0 {
				continue
			}
			for _, ret := range returnsOf(g) {
				vs := retValues(ret)
				if idx >= len(vs) || !q.possible(ret, cl, at) || q.foundResult(vs, idx, cl, at) {
					continue
				}
				if why := q.nilAt(vs[idx], startOf(ret.Block()), depth+1, seen); why != "" && !q.nonNilByCaller(vs[idx], ret, cl, at) {
					return fnKey(g) + " returns it: " + why
				}
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			if q.p.initValue(a) == nil && len(q.p.globalStores()[a]) == 0 && a.Pkg != nil && q.p.inRepoPkg(a.Pkg.Pkg.Path()) {
				return "the variable " + a.Name() + " is never set"
			}
		case *ssa.FieldAddr:
			return q.fieldNil(a, x)
		}
	}
	return ""
}

// nonNilByJoin: the ways into a block on the way here each either tell that the value is not nil, or
// contradict a branch that was taken afterwards.
func (q *prover) nonNilByJoin(v ssa.Value, at loc) bool {
	now := at.facts()
	if len(now) == 0 {
		return false
	}
	r := q.rep(v)
	return q.join(at, func(x ssa.Value) bool {
		return q.rep(x) == r || sameFieldLoad(x, v) || sameFieldLoad(q.rep(x), r)
	}, func(e Fact) bool {
		for _, f := range now {
			if f.Val != e.Val && q.sameCond(e.Cond, f.Cond) {
				return true
			}
		}
		return false
	})
}

func (q *prover) join(at loc, is func(ssa.Value) bool, against func(Fact) bool) bool {
	for d := at.b; d != nil; d = d.Idom() {
		if len(d.Preds) < 2 || loopHeader(d) == d {
			continue
		}
		ok := false
		for _, p := range d.Preds {
			for k, s := range p.Succs {
				if s != d {
					continue
				}
				good := false
				for _, e := range edgeFacts(p, k) {
					if x, isNil, known := nilFact(e); known && !isNil && is(x) || against(e) {
						good = true
					}
				}
				if !good {
					goto next
				}
				ok = true
			}
		}
		if ok {
			return true
		}
	next:
	}
	return false
}

// nonNilByCaller: the returned value is a field of an argument, and the branches taken by the caller and
// by the callee tell that it is not nil.
func (q *prover) nonNilByCaller(v ssa.Value, ret *ssa.Return, cl *ssa.Call, at loc) bool {
	g := ret.Parent()
	outer := func(x ssa.Value) ssa.Value {
		if pr, ok := q.rep(x).(*ssa.Parameter); ok && pr.Parent() == g {
			if a := q.argFor(g, pr, cl); a != nil {
				return q.rep(a)
			}
		}
		return nil
	}
	u, ok := q.rep(v).(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	base := outer(fa.X)
	if base == nil {
		return false
	}
	is := func(x ssa.Value) bool {
		ux, ok := q.rep(x).(*ssa.UnOp)
		if !ok {
			return false
		}
		fx, ok := ux.X.(*ssa.FieldAddr)
		return ok && fx.Field == fa.Field && q.rep(fx.X) == base
	}
	for _, f := range at.facts() {
		if x, isNil, known := nilFact(f); known && !isNil && is(x) {
			return true
		}
	}
	inner := facts(ret.Block())
	return q.join(at, is, func(e Fact) bool {
		ce, ok := e.Cond.(*ssa.Call)
		if !ok {
			return false
		}
		for _, f := range inner {
			cf, ok := f.Cond.(*ssa.Call)
			if !ok || f.Val == e.Val || cf.Call.StaticCallee() == nil || cf.Call.StaticCallee() != ce.Call.StaticCallee() {
				continue
			}
			same := true
			for k, a := range cf.Call.Args {
				o := outer(a)
				same = same && o != nil && o == q.rep(ce.Call.Args[k])
			}
			if same {
				return true
			}
		}
		return false
	})
}

// sameCond: the two conditions have the same outcome.
func (q *prover) sameCond(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Call)
	cb, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 || ca.Call.StaticCallee() == nil || ca.Call.StaticCallee() != cb.Call.StaticCallee() {
		return false
	}
	_, ok := q.sameQuestion(ca, 0, cb)
	return ok
}

// constKey: the table is filled once with consecutive numbers as keys, and the key is one of them.
func (q *prover) constKey(lk *ssa.Lookup, at loc) bool {
	u, ok := lk.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || len(q.p.globalStores()[g]) > 1 {
		return false
	}
	mk, ok := q.p.initValue(g).(*ssa.MakeMap)
	if !ok {
		return false
	}
	keys := map[int64]bool{}
	for _, mu := range q.updatesOf(mk) {
		k, ok := constInt(mu.Key)
		if !ok || isNilConst(mu.Value) {
			return false
		}
		keys[k] = true
	}
	if len(keys) == 0 {
		return false
	}
	lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
	for k := range keys {
		lo, hi = min(lo, k), max(hi, k)
	}
	l := q.norm(lk.Index)
	return hi-lo+1 == int64(len(keys)) && q.ge(l, lo, lk.Block()) && q.le(l, konst(hi), lk.Block())
}

// fieldNil: functions that users may leave out, and fields that nothing sets.
func (q *prover) fieldNil(a *ssa.FieldAddr, x *ssa.UnOp) string {
	o, n := fieldName(a)
	if o == nil || o.Obj().Pkg() == nil || !q.p.inRepoPkg(o.Obj().Pkg().Path()) {
		return ""
	}
	_, isFn := x.Type().Underlying().(*types.Signature)
	if isFn && o.Obj().Pkg().Path() == modPath && token.IsExported(n) {
		return "users need not set " + n
	}
	sts, whole := q.fieldStores(o, a.Field)
	if _, isPtr := x.Type().Underlying().(*types.Pointer); isPtr {
		if !strings.HasSuffix(o.Obj().Name(), "Configuration") && o.Obj().Name() != "LocaleData" && !q.comparedWithNil(o, a.Field) {
			return ""
		}
		if whole {
			return n + " of " + o.Obj().Name() + " is not always set"
		}
		for _, s := range sts {
			if isNilConst(s.Val) {
				return n + " of " + o.Obj().Name() + " is set to nil"
			}
		}
		return ""
	}
	nilOnly := true
	for _, s := range sts {
		if !isNilConst(s.Val) {
			nilOnly = false
		}
	}
	if nilOnly && (isFn || isMapType(x.Type())) {
		return "nothing sets " + n
	}
	return ""
}

// comparedWithNil: a function compares the field with nil and uses it as well.
func (q *prover) comparedWithNil(o *types.Named, field int) bool {
	for _, f := range q.p.fnSrc {
		compared, used := false, false
		eachInstr(f, func(i ssa.Instruction) {
			u, ok := i.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok || fa.Field != field {
				return
			}
			if n, _ := fieldName(fa); n != o {
				return
			}
			for _, r := range *u.Referrers() {
				switch x := r.(type) {
				case *ssa.BinOp:
					compared = compared || isNilConst(x.X) || isNilConst(x.Y)
				case *ssa.DebugRef:
				default:
					used = true
				}
			}
		})
		if compared && used {
			return true
		}
	}
	return false
}

func isMapType(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Interface, *types.Chan:
		return true
	}
	return false
}

// sameLoad: two loads of the same field of the same value.
func sameFieldLoad(a, b ssa.Value) bool {
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || ua.Op != token.MUL || ub.Op != token.MUL {
		return false
	}
	fa, ok1 := ua.X.(*ssa.FieldAddr)
	fb, ok2 := ub.X.(*ssa.FieldAddr)
	return ok1 && ok2 && fa.Field == fb.Field && fa.X == fb.X
}

// errNil: the error result of the call is known to be nil.
func (q *prover) errNil(cl *ssa.Call, at loc) bool {
	for _, f := range at.facts() {
		if v, isNil, ok := nilFact(f); ok && isNil {
			if c2, idx := callResult(v); c2 == cl && idx > 0 {
				return true
			}
		}
	}
	return false
}

// foundResult: the returned value is the entry of a table, another result says whether it exists, and
// that one is known to be true.
func (q *prover) foundResult(vs []ssa.Value, idx int, cl *ssa.Call, at loc) bool {
	ex, ok := vs[idx].(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return false
	}
	for k, v := range vs {
		e1, ok := v.(*ssa.Extract)
		if k == idx || !ok || e1.Tuple != ex.Tuple || e1.Index == 0 {
			continue
		}
		for _, f := range at.facts() {
			if c2, i2 := callResult(f.Cond); c2 == cl && i2 == k && f.Val {
				return true
			}
			if v, isNil, ok := nilFact(f); ok && isNil {
				if c2, i2 := callResult(v); c2 == cl && i2 == k {
					return true
				}
			}
		}
	}
	return false
}

// checkGrowth: a number that is multiplied by a length on every round of a loop and decides how much
// is allocated must be limited, or it overflows (and takes all the memory before that).
func checkGrowth(p *Prog, q *prover, r *Result) {
	n := 0
	for _, fn := range p.reachableRepo() {
		eachInstr(fn, func(i ssa.Instruction) {
			mk, ok := i.(*ssa.MakeSlice)
			if !ok {
				return
			}
			l := q.norm(mk.Len)
			prod := q.product(l.v, map[ssa.Value]bool{})
			if prod == nil {
				return
			}
			n++
			ok = q.le(l, konst(math.MaxInt32), mk.Block())
			r.add(ok, "growth", fnKey(fn)+": size that is a product of lengths", p.instrPos(i), "the size is a product of as many lengths as the input has parts and must have a limit")
		})
	}
	r.Analysed["sizes that are products"] = n
}

// product finds a loop that multiplies the value by a length that depends on the input.
func (q *prover) product(v ssa.Value, seen map[ssa.Value]bool) *ssa.BinOp {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	if ph := phiOf(v); ph != nil {
		for _, e := range ph.edges {
			if b := q.product(q.norm(e).v, seen); b != nil {
				return b
			}
		}
		return nil
	}
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.MUL && inLoop(b.Block()) {
		for _, o := range []ssa.Value{b.X, b.Y} {
			if l := q.norm(o); l.v != nil && l.k == atomLen {
				return b
			}
		}
	}
	return nil
}
