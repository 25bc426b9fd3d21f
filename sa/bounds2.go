package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Library, table and memory knowledge of the bounds prover.

// A memPhi merges the values of a local variable that lives in memory because closures read it.
type memPhi struct {
	blk   *ssa.BasicBlock
	edges []ssa.Value
	al    *ssa.Alloc
	refs  []ssa.Instruction
	same  ssa.Value // the only value that reaches it
}

func (m *memPhi) Name() string                  { return "mem:" + m.al.Comment }
func (m *memPhi) String() string                { return m.Name() }
func (m *memPhi) Type() types.Type              { return m.al.Type().Underlying().(*types.Pointer).Elem() }
func (m *memPhi) Parent() *ssa.Function         { return m.blk.Parent() }
func (m *memPhi) Referrers() *[]ssa.Instruction { return &m.refs }
func (m *memPhi) Pos() token.Pos                { return m.al.Pos() }

// only is the single value that reaches the merge, through whatever other merges.
func (m *memPhi) only() ssa.Value {
	if m.same != nil {
		if o, ok := m.same.(*memPhi); !ok || o == m {
			return m.same
		}
	}
	seen := map[*memPhi]bool{m: true}
	todo := []*memPhi{m}
	var out ssa.Value
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		for _, e := range x.edges {
			if o, ok := e.(*memPhi); ok {
				if !seen[o] {
					seen[o] = true
					todo = append(todo, o)
				}
				continue
			}
			if out != nil && out != e && !sameConst(out, e) {
				return nil
			}
			out = e
		}
	}
	return out
}

type phiView struct {
	blk   *ssa.BasicBlock
	edges []ssa.Value
}

func phiOf(v ssa.Value) *phiView {
	switch x := v.(type) {
	case *ssa.Phi:
		return &phiView{x.Block(), x.Edges}
	case *memPhi:
		return &phiView{x.blk, x.edges}
	}
	return nil
}

type memKey struct {
	al *ssa.Alloc
	b  *ssa.BasicBlock
}

// private: only this function writes the variable.
func (q *prover) private(al *ssa.Alloc) bool {
	if q.priv == nil {
		q.priv = map[*ssa.Alloc]bool{}
	}
	if r, ok := q.priv[al]; ok {
		return r
	}
	ok := true
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				ok = false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for k, b := range x.Bindings {
				if b == ssa.Value(al) && k < len(fn.FreeVars) && writesFree(fn.FreeVars[k]) {
					ok = false
				}
			}
		default:
			ok = false
		}
	}
	q.priv[al] = ok
	return ok
}

// reaching is the value of the variable at the load, with phis where paths meet.
func (q *prover) reaching(al *ssa.Alloc, u *ssa.UnOp) ssa.Value {
	if !q.private(al) {
		if r := resolveLocal(u, u); r != ssa.Value(u) {
			return r
		}
		return nil
	}
	b := u.Block()
	for k := instrIndex(u) - 1; k >= 0; k-- {
		if st, ok := b.Instrs[k].(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			return st.Val
		}
		if b.Instrs[k] == ssa.Instruction(al) {
			return zeroVal(al.Type().Underlying().(*types.Pointer).Elem())
		}
	}
	return q.memIn(al, b)
}

func zeroVal(t types.Type) ssa.Value {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsString != 0:
			return ssa.NewConst(stringConst(""), t)
		case b.Info()&types.IsInteger != 0:
			return ssa.NewConst(intConst(0), t)
		case b.Info()&types.IsBoolean != 0:
			return ssa.NewConst(boolConst(false), t)
		}
	case *types.Slice, *types.Map, *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
		return ssa.NewConst(nil, t)
	}
	return nil
}

func (q *prover) memOut(al *ssa.Alloc, b *ssa.BasicBlock) ssa.Value {
	for k := len(b.Instrs) - 1; k >= 0; k-- {
		if st, ok := b.Instrs[k].(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			return st.Val
		}
		if b.Instrs[k] == ssa.Instruction(al) {
			return zeroVal(al.Type().Underlying().(*types.Pointer).Elem())
		}
	}
	return q.memIn(al, b)
}

func (q *prover) memIn(al *ssa.Alloc, b *ssa.BasicBlock) ssa.Value {
	if q.mem == nil {
		q.mem = map[memKey]ssa.Value{}
	}
	key := memKey{al, b}
	if v, ok := q.mem[key]; ok {
		return v
	}
	if len(b.Preds) == 0 {
		return nil
	}
	if len(b.Preds) == 1 {
		return q.memOut(al, b.Preds[0])
	}
	m := &memPhi{blk: b, al: al}
	q.mem[key] = m
	var only ssa.Value
	trivial := true
	for _, p := range b.Preds {
		v := q.memOut(al, p)
		if v == nil {
			q.mem[key] = nil
			return nil
		}
		for n := 0; n < 20; n++ {
			if o, ok := v.(*memPhi); ok && o.same != nil {
				v = o.same
			}
		}
		m.edges = append(m.edges, v)
		if v == ssa.Value(m) {
			continue
		}
		if only != nil && only != v && !sameConst(only, v) {
			trivial = false
		}
		only = v
	}
	if trivial && only != nil {
		q.mem[key] = only
		m.same = only
		return only
	}
	return m
}

// regexCall recognises re.<name>(text …).
func regexCall(c *ssa.CallCommon, name string) (recv, text ssa.Value) {
	f := c.StaticCallee()
	if f == nil || f.Name() != name || f.Signature.Recv() == nil || len(c.Args) < 2 {
		return nil, nil
	}
	n := f.Signature.Recv().Type().String()
	if !strings.HasSuffix(n, "regexp.Regexp") {
		return nil, nil
	}
	return c.Args[0], c.Args[1]
}

// rxOf lists the patterns the compiled expression can have; nil if they are not known.
func (q *prover) rxOf(v ssa.Value) []*syntax.Regexp {
	seen := map[ssa.Value]bool{}
	set := map[string]bool{}
	if !q.rxInto(v, seen, set, 0) || len(set) == 0 {
		return nil
	}
	var out []*syntax.Regexp
	for _, s := range sortedKeys(set) {
		re, err := syntax.Parse(s, syntax.Perl)
		if err != nil {
			return nil
		}
		out = append(out, re)
	}
	return out
}

func (q *prover) rxInto(v ssa.Value, seen map[ssa.Value]bool, out map[string]bool, depth int) bool {
	v = strip(v)
	if seen[v] {
		return true
	}
	seen[v] = true
	if depth > 10 {
		return false
	}
	if isNilConst(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Call:
		switch f := x.Call.StaticCallee(); {
		case f == nil:
			return false
		case f.Name() == "MustCompile" && len(x.Call.Args) == 1:
			if s, ok := q.constText(x.Call.Args[0], 0); ok {
				out[s] = true
				return true
			}
			return false
		case q.p.inRepo(f):
			for _, r := range returnsOf(f) {
				if len(r.Results) != 1 || !q.rxInto(retValues(r)[0], seen, out, depth+1) {
					return false
				}
			}
			return true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !q.rxInto(e, seen, out, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		sites := q.sites(x.Parent())
		for _, s := range sites {
			a := q.argFor(x.Parent(), x, s)
			if a == nil || !q.rxInto(a, seen, out, depth+1) {
				return false
			}
		}
		return len(sites) > 0
	case *ssa.Global:
		if iv := q.p.initValue(x); iv != nil {
			return q.rxInto(iv, seen, out, depth+1)
		}
	case *ssa.Lookup:
		return q.rxMap(x.X, seen, out, depth)
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return q.rxMap(lk.X, seen, out, depth)
		}
	case *ssa.Field:
		if o, n := fieldName(x); o != nil {
			return q.rxField(o, n, out)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if g, ok := x.X.(*ssa.Global); ok {
			if iv := q.p.initValue(g); iv != nil {
				return q.rxInto(iv, seen, out, depth+1)
			}
			return false
		}
		if o, n := fieldName(x.X); o != nil {
			return q.rxField(o, n, out)
		}
		if r := q.rep(x); r != ssa.Value(x) {
			return q.rxInto(r, seen, out, depth+1)
		}
	}
	return false
}

// constText is a text put together from constants and package variables that are never changed.
func (q *prover) constText(v ssa.Value, depth int) (string, bool) {
	if depth > 20 {
		return "", false
	}
	if s, ok := constString(v); ok {
		return s, true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			a, ok1 := q.constText(x.X, depth+1)
			b, ok2 := q.constText(x.Y, depth+1)
			return a + b, ok1 && ok2
		}
	case *ssa.ChangeType:
		return q.constText(x.X, depth+1)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if iv := q.p.initValue(g); iv != nil {
				return q.constText(iv, depth+1)
			}
		}
	}
	return "", false
}

// constLens lists the lengths the value can have, if they are all constants.
func (q *prover) constLens(v ssa.Value, seen map[ssa.Value]bool, out map[int64]bool) bool {
	v = q.rep(v)
	if seen[v] {
		return true
	}
	seen[v] = true
	if len(seen) > 40 {
		return false
	}
	if l := q.lenOf(v); l.v == nil {
		out[l.c] = true
		return true
	}
	if ph := phiOf(v); ph != nil {
		for _, e := range ph.edges {
			if !q.constLens(e, seen, out) {
				return false
			}
		}
		return true
	}
	if cl, idx := callResult(v); cl != nil {
		if n, ok := q.matchLen(v); ok {
			out[n], out[0] = true, true
			return true
		}
		g := cl.Call.StaticCallee()
		if g == nil || !q.p.inRepo(g) || len(g.Blocks) == 0 {
			return false
		}
		for _, ret := range returnsOf(g) {
			vs := retValues(ret)
			if idx >= len(vs) || !q.constLens(vs[idx], seen, out) {
				return false
			}
		}
		return true
	}
	return false
}

func (q *prover) rxMap(m ssa.Value, seen map[ssa.Value]bool, out map[string]bool, depth int) bool {
	mk := q.tableMap(m)
	if mk == nil {
		return false
	}
	n := 0
	for _, r := range *mk.Referrers() {
		if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == ssa.Value(mk) {
			if !q.rxInto(mu.Value, seen, out, depth+1) {
				return false
			}
			n++
		}
	}
	return n > 0
}

// tableMap is the map a package variable is initialised with and keeps.
func (q *prover) tableMap(m ssa.Value) *ssa.MakeMap {
	u, ok := m.(*ssa.UnOp)
	if !ok {
		if mk, ok := m.(*ssa.MakeMap); ok {
			return mk
		}
		return nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return nil
	}
	mk, _ := q.p.initValue(g).(*ssa.MakeMap)
	return mk
}

func (q *prover) rxField(o *types.Named, field string, out map[string]bool) bool {
	switch o.Obj().Name() {
	case "LocaleData":
		m := q.p.localeData()
		if len(m.problems) > 0 {
			return false
		}
		for _, l := range m.locales {
			var p *string
			switch field {
			case "RxCombined":
				p = l.RxCombined
			case "RxExactCombined":
				p = l.RxExact
			default:
				return false
			}
			if p != nil {
				out[*p] = true
			}
		}
		return true
	case "OffsetData":
		if field != "Regex" {
			return false
		}
		groups, _ := q.p.tzTable(&Result{})
		for _, g := range groups {
			for _, pt := range g.patterns {
				out[fmt.Sprintf(pt, "x")] = true
			}
		}
		return len(groups) > 0
	}
	return false
}

func subexps(re *syntax.Regexp) int { return re.MaxCap() }

func minLen(re *syntax.Regexp) int {
	switch re.Op {
	case syntax.OpLiteral:
		n := 0
		for _, r := range re.Rune {
			n += len(string(r))
			if re.Flags&syntax.FoldCase != 0 {
				n -= len(string(r)) - 1
			}
		}
		return n
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return minLen(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min * minLen(re.Sub[0])
	case syntax.OpConcat:
		n := 0
		for _, s := range re.Sub {
			n += minLen(s)
		}
		return n
	case syntax.OpAlternate:
		n := math.MaxInt32
		for _, s := range re.Sub {
			n = min(n, minLen(s))
		}
		return n
	case syntax.OpNoMatch:
		return math.MaxInt32
	}
	return 0
}

func findGroup(re *syntax.Regexp, g int) *syntax.Regexp {
	if re.Op == syntax.OpCapture && re.Cap == g {
		return re
	}
	for _, s := range re.Sub {
		if f := findGroup(s, g); f != nil {
			return f
		}
	}
	return nil
}

// takesPart: the group is part of every match.
func takesPart(re *syntax.Regexp, g int) bool {
	if g == 0 {
		return true
	}
	switch re.Op {
	case syntax.OpCapture:
		return re.Cap == g || takesPart(re.Sub[0], g)
	case syntax.OpPlus:
		return takesPart(re.Sub[0], g)
	case syntax.OpRepeat:
		return re.Min > 0 && takesPart(re.Sub[0], g)
	case syntax.OpConcat:
		for _, s := range re.Sub {
			if takesPart(s, g) {
				return true
			}
		}
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if !takesPart(s, g) {
				return false
			}
		}
		return true
	}
	return false
}

func (q *prover) minMatch(rx ssa.Value) (int, bool) {
	ps := q.rxOf(rx)
	if ps == nil {
		return 0, false
	}
	n := math.MaxInt32
	for _, p := range ps {
		n = min(n, minLen(p))
	}
	return n, true
}

func (q *prover) groupMin(rx ssa.Value, g int) (int, bool) {
	if g == 0 {
		return q.minMatch(rx)
	}
	ps := q.rxOf(rx)
	n := math.MaxInt32
	for _, p := range ps {
		if f := findGroup(p, g); f != nil {
			n = min(n, minLen(f))
		}
	}
	return n, n != math.MaxInt32
}

func (q *prover) groupAlways(rx ssa.Value, g int) bool {
	if g == 0 {
		return true
	}
	ps := q.rxOf(rx)
	for _, p := range ps {
		if subexps(p) >= g && !takesPart(p, g) {
			return false
		}
	}
	return ps != nil
}

// matchKind: the call returns one match (list of texts or positions); per is the number of elements per group.
func matchKind(c *ssa.CallCommon) (rx, text ssa.Value, per int, all bool) {
	for _, k := range []struct {
		n   string
		per int
		all bool
	}{{"FindStringSubmatch", 1, false}, {"FindStringSubmatchIndex", 2, false}, {"FindSubmatch", 1, false}, {"FindSubmatchIndex", 2, false},
		{"FindStringIndex", -2, false}, {"FindIndex", -2, false},
		{"FindAllStringSubmatch", 1, true}, {"FindAllStringSubmatchIndex", 2, true}, {"FindAllSubmatch", 1, true}, {"FindAllSubmatchIndex", 2, true},
		{"FindAllStringIndex", -2, true}, {"FindAllIndex", -2, true}} {
		if rx, text := regexCall(c, k.n); rx != nil {
			return rx, text, k.per, k.all
		}
	}
	return nil, nil, 0, false
}

func (q *prover) matchSize(rx ssa.Value, per int) (int64, bool) {
	if per < 0 {
		return int64(-per), true
	}
	ps := q.rxOf(rx)
	if ps == nil {
		return 0, false
	}
	n := math.MaxInt32
	for _, p := range ps {
		n = min(n, subexps(p)+1)
	}
	return int64(n * per), true
}

// matchLen: the length of the result of a search that found something (at least).
func (q *prover) matchLen(v ssa.Value) (int64, bool) {
	cl, ok := q.rep(v).(*ssa.Call)
	if !ok {
		return 0, false
	}
	rx, _, per, all := matchKind(&cl.Call)
	if rx == nil || all {
		return 0, false
	}
	return q.matchSize(rx, per)
}

type matchAt struct {
	rx, text ssa.Value
	k        int
	m        ssa.Value // the match
	elem     *ssa.IndexAddr
	allCall  *ssa.Call
}

func (m *matchAt) same(q *prover, o *matchAt) bool {
	return m.m == o.m || m.elem != nil && o.elem != nil && q.sameAddr(m.elem, o.elem)
}

// matchPos: the value is a position of a match.
func (q *prover) matchPos(u *ssa.UnOp) *matchAt {
	ix, ok := u.X.(*ssa.IndexAddr)
	if !ok || u.Op != token.MUL {
		return nil
	}
	k, ok := constInt(ix.Index)
	if !ok {
		return nil
	}
	m := q.rep(ix.X)
	switch x := m.(type) {
	case *ssa.Call:
		rx, text, per, all := matchKind(&x.Call)
		if rx == nil || all || per == 1 {
			return nil
		}
		return &matchAt{rx: rx, text: text, k: int(k), m: m}
	case *ssa.Phi:
		if rx, text := q.carriedMatch(x); rx != nil {
			return &matchAt{rx: rx, text: text, k: int(k), m: m}
		}
		return nil
	case *ssa.UnOp:
		ea, ok := x.X.(*ssa.IndexAddr)
		if !ok {
			return nil
		}
		cl, ok := q.rep(ea.X).(*ssa.Call)
		if !ok {
			return nil
		}
		rx, text, per, all := matchKind(&cl.Call)
		if rx == nil || !all || per == 1 {
			return nil
		}
		return &matchAt{rx: rx, text: text, k: int(k), m: m, elem: ea, allCall: cl}
	}
	return nil
}

// carriedMatch: the loop carries a text and the match in that text side by side.
func (q *prover) carriedMatch(ph *ssa.Phi) (rx, text ssa.Value) {
	var texts []ssa.Value
	for _, e := range ph.Edges {
		cl, ok := q.rep(e).(*ssa.Call)
		if !ok {
			return nil, nil
		}
		r, t, per, all := matchKind(&cl.Call)
		if r == nil || all || per == 1 || rx != nil && q.rep(r) != q.rep(rx) {
			return nil, nil
		}
		rx = r
		texts = append(texts, t)
	}
	for _, i := range ph.Block().Instrs {
		o, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		same := o != ph
		for k := range texts {
			same = same && q.rep(o.Edges[k]) == q.rep(texts[k])
		}
		if same {
			return rx, o
		}
	}
	return nil, nil
}

func (q *prover) matchPosOf(a atom) *matchAt {
	if u, ok := a.v.(*ssa.UnOp); ok && a.k == atomVal && u.Op == token.MUL {
		return q.matchPos(u)
	}
	return nil
}

// afterPrevious: a is zero or a position of an earlier match of the same search, so m lies behind it.
func (q *prover) afterPrevious(a atom, m *matchAt, at loc) bool {
	if m.allCall == nil || a.k != atomVal || a.v == nil || phiOf(a.v) == nil {
		return false
	}
	if m.k >= 2 && !q.present(m, at) {
		return false
	}
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value, depth int) bool
	ok = func(v ssa.Value, depth int) bool {
		l := q.norm(v)
		if l.v == nil {
			return l.c <= 0
		}
		if seen[l.v] && l.c <= 0 {
			return true
		}
		seen[l.v] = true
		if depth > 12 {
			return false
		}
		if ph := phiOf(l.v); ph != nil {
			if l.c > 0 {
				return false
			}
			for _, e := range ph.edges {
				if !ok(e, depth+1) {
					return false
				}
			}
			return true
		}
		if u, isU := l.v.(*ssa.UnOp); isU && l.c <= 0 {
			n := q.matchPos(u)
			return n != nil && n.allCall == m.allCall
		}
		return false
	}
	ph := phiOf(a.v)
	return ok(a.v, 0) && loopHeader(ph.blk) == ph.blk && ph.blk.Dominates(m.elem.Block())
}

// present: the group of the position took part in the match.
func (q *prover) present(m *matchAt, at loc) bool {
	if q.groupAlways(m.rx, m.k/2) {
		return true
	}
	for _, i := range q.ineqs(at) {
		if i.x.v != nil || i.c > 0 {
			continue
		}
		if n := q.matchPosOf(i.y); n != nil && n.same(q, m) && n.k/2 == m.k/2 {
			return true
		}
	}
	return false
}

type rel int

const (
	relNone rel = iota
	relLeq
	relLess
)

// within: v is a piece of base (or as long as base at most); relLess if it is certainly shorter.
func (q *prover) within(v, base ssa.Value, at loc, depth int) rel {
	return q.withinSeen(v, base, at, depth, map[ssa.Value]bool{})
}

func (q *prover) withinSeen(v, base ssa.Value, at loc, depth int, seen map[ssa.Value]bool) rel {
	v, base = q.rep(v), q.rep(base)
	if v == base {
		return relLeq
	}
	if depth > 14 || seen[v] {
		return relNone
	}
	seen[v] = true
	defer delete(seen, v)
	switch x := v.(type) {
	case *ssa.ChangeType:
		return q.withinSeen(x.X, base, at, depth+1, seen)
	case *ssa.Const:
		return relNone
	case *ssa.Slice:
		r := q.withinSeen(x.X, base, at, depth+1, seen)
		if r != relLeq {
			return r
		}
		blk := startOf(x.Block())
		if x.Low != nil {
			lo := q.norm(x.Low)
			if q.diff(atom{}, lo.atom, lo.c-1, blk) {
				return relLess
			}
		}
		if x.High != nil {
			hi, l := q.norm(x.High), q.lenOf(x.X)
			if q.diff(hi.atom, l.atom, l.c-hi.c-1, blk) {
				return relLess
			}
		}
		return relLeq
	case *ssa.Phi, *memPhi:
		ph := phiOf(v)
		out := relLess
		for k, e := range ph.edges {
			p := ph.blk.Preds[k]
			l := startOf(p)
			for j, s := range p.Succs {
				if s == ph.blk && len(p.Succs) > 1 {
					l = loc{p, j + 1}
				}
			}
			out = min(out, q.withinSeen(e, base, l, depth+1, seen))
		}
		return out
	case *ssa.Call, *ssa.Extract:
		cl, idx := callResult(v)
		if cl == nil {
			return relNone
		}
		if s := shrinker(&cl.Call); s != nil && idx == 0 {
			return q.withinSeen(s, base, at, depth+1, seen)
		}
		switch calleeName(&cl.Call) {
		case "strings.Cut":
			if idx > 1 {
				return relNone
			}
			r := q.withinSeen(cl.Call.Args[0], base, at, depth+1, seen)
			if r == relLeq {
				sep := q.lenOf(cl.Call.Args[1])
				cut := func(l loc) bool {
					for _, f := range l.facts() {
						if c2, i2 := callResult(f.Cond); c2 == cl && i2 == 2 && f.Val && q.ge(sep, 1, l.b) {
							return true
						}
					}
					return false
				}
				used := true // only where the separator was found
				for _, i := range *v.Referrers() {
					used = used && cut(startOf(i.Block()))
				}
				if used || cut(at) {
					return relLess
				}
			}
			return r
		case "strings.CutPrefix", "strings.CutSuffix":
			if idx == 0 {
				return q.withinSeen(cl.Call.Args[0], base, at, depth+1, seen)
			}
			return relNone
		case "slices.Delete":
			r := q.withinSeen(cl.Call.Args[0], base, at, depth+1, seen)
			i, j := q.norm(cl.Call.Args[1]), q.norm(cl.Call.Args[2])
			if r == relLeq && i.atom == j.atom && j.c > i.c {
				return relLess
			}
			return r
		case "append", "builtin append":
			s1, ok1 := cl.Call.Args[0].(*ssa.Slice)
			s2, ok2 := cl.Call.Args[1].(*ssa.Slice)
			if ok1 && ok2 && s1.Low == nil && s1.High != nil && s2.High == nil && s2.Low != nil && q.rep(s1.X) == q.rep(s2.X) {
				i, j := q.norm(s1.High), q.norm(s2.Low)
				r := q.withinSeen(s1.X, base, at, depth+1, seen)
				if i.atom == j.atom && j.c > i.c && r == relLeq {
					return relLess
				}
				if i.atom == j.atom && j.c >= i.c {
					return r
				}
			}
			return relNone
		}
		g := cl.Call.StaticCallee()
		if g == nil || !q.p.inRepo(g) || len(g.Blocks) == 0 {
			return relNone
		}
		for k, pr := range g.Params {
			if k >= len(cl.Call.Args) {
				break
			}
			switch pr.Type().Underlying().(type) {
			case *types.Slice, *types.Basic:
			default:
				continue
			}
			ra := q.withinSeen(cl.Call.Args[k], base, at, depth+1, seen)
			if ra == relNone {
				continue
			}
			out, n := relLess, 0
			for _, ret := range returnsOf(g) {
				vs := retValues(ret)
				if idx >= len(vs) || !q.possible(ret, cl, at) {
					continue
				}
				n++
				out = min(out, q.withinSeen(vs[idx], pr, startOf(ret.Block()), depth+1, seen))
			}
			if n > 0 && out != relNone {
				return max(out, ra)
			}
		}
	case *ssa.UnOp:
		// an element of a list of pieces
		if ix, ok := x.X.(*ssa.IndexAddr); ok {
			k, isConst := constInt(ix.Index)
			if isConst {
				return q.pieceOf(ix.X, int(k), base, at, depth+1, seen)
			}
		}
	}
	return relNone
}

// pieceOf: the k-th element of the list (built from a literal) within base.
func (q *prover) pieceOf(list ssa.Value, k int, base ssa.Value, at loc, depth int, seen map[ssa.Value]bool) rel {
	list = q.rep(list)
	if depth > 14 || seen[list] {
		return relLess // optimistic on cycles: the other edges decide
	}
	switch x := list.(type) {
	case *ssa.Const:
		return relLess // no list: no element
	case *ssa.Phi, *memPhi:
		seen[list] = true
		defer delete(seen, list)
		out := relLess
		for _, e := range phiOf(list).edges {
			out = min(out, q.pieceOf(e, k, base, at, depth+1, seen))
		}
		return out
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil {
			return relNone
		}
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				if n, ok := constInt(ia.Index); ok && int(n) == k {
					for _, s := range *ia.Referrers() {
						if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
							return q.withinSeen(st.Val, base, startOf(st.Block()), depth+1, seen)
						}
					}
				}
			}
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !q.p.inRepo(g) || len(g.Blocks) == 0 {
			return relNone
		}
		for i, pr := range g.Params {
			if i >= len(x.Call.Args) {
				break
			}
			ra := q.withinSeen(x.Call.Args[i], base, at, depth+1, seen)
			if ra == relNone {
				continue
			}
			out := relLess
			for _, ret := range returnsOf(g) {
				out = min(out, q.pieceOf(retValues(ret)[0], k, pr, startOf(ret.Block()), depth+1, seen))
			}
			if out != relNone {
				return max(out, ra)
			}
		}
	}
	return relNone
}

// shrinker: the call returns a piece of its first argument.
func shrinker(c *ssa.CallCommon) ssa.Value {
	switch calleeName(c) {
	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix",
		"strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc", "strings.Clone", "slices.Compact", "slices.DeleteFunc", "slices.CompactFunc", "bytes.TrimSpace":
		return c.Args[0]
	}
	return nil
}

// stored asks the question of every value that can be in the variable the load reads.
// The tag and c tell the question: a store met again while it is being looked at for the same question
// is settled by the induction over the number of stores made, when no more is asked.
func (q *prover) stored(u *ssa.UnOp, tag storeTag, c int64, good func(v ssa.Value, blk *ssa.BasicBlock) bool, zero func() bool) bool {
	if u.Op != token.MUL {
		return false
	}
	var sts []*ssa.Store
	switch x := u.X.(type) {
	case *ssa.FreeVar:
		al := bCell(x)
		if al == nil {
			return false
		}
		var ok bool
		if sts, ok = cellStores(al); !ok {
			return false
		}
		if len(sts) == 0 || !dominatesAll(sts[0], sts[1:]) {
			if !zero() {
				return false
			}
		}
	case *ssa.Alloc:
		var ok bool
		if sts, ok = cellStores(x); !ok {
			return false
		}
		first := false
		for _, s := range sts {
			if s.Parent() == u.Parent() && dominates(s, u) {
				first = true
			}
		}
		if !first && !zero() {
			return false
		}
	case *ssa.FieldAddr:
		st, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if !ok {
			return false
		}
		o, _ := fieldName(x)
		if o == nil || o.Obj().Pkg() == nil || !strings.HasPrefix(o.Obj().Pkg().Path(), modPath) || o.Obj().Exported() && o.Obj().Pkg().Path() == modPath {
			return false
		}
		_ = st
		var whole bool
		sts, whole = q.fieldStores(o, x.Field)
		if whole && !zero() {
			return false
		}
	default:
		return false
	}
	for _, s := range sts {
		tag.s = s
		if o, open := q.openStores[tag]; open {
			if c < o {
				return false
			}
			q.assume++
			continue
		}
		if q.openStores == nil {
			q.openStores = map[storeTag]int64{}
		}
		q.openStores[tag] = c
		ok := good(s.Val, s.Block())
		delete(q.openStores, tag)
		if !ok {
			return false
		}
	}
	return len(sts) > 0
}

type storeTag struct {
	s     *ssa.Store
	o     atom
	k     atomKind
	upper bool
	elems bool
}

func dominatesAll(s *ssa.Store, rest []*ssa.Store) bool { return true }

func bCell(fv *ssa.FreeVar) *ssa.Alloc {
	mc := closureOf(fv.Parent())
	if mc == nil {
		return nil
	}
	for k, x := range fv.Parent().FreeVars {
		if x == fv {
			switch b := mc.Bindings[k].(type) {
			case *ssa.Alloc:
				return b
			case *ssa.FreeVar:
				return bCell(b)
			}
		}
	}
	return nil
}

// cellStores are all the stores to the variable, from its function and the closures over it.
func cellStores(al *ssa.Alloc) ([]*ssa.Store, bool) {
	var out []*ssa.Store
	var scan func(v ssa.Value, refs *[]ssa.Instruction) bool
	scan = func(v ssa.Value, refs *[]ssa.Instruction) bool {
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != v {
					return false
				}
				out = append(out, x)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for k, b := range x.Bindings {
					if b == v && !scan(fn.FreeVars[k], fn.FreeVars[k].Referrers()) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	ok := scan(al, al.Referrers())
	return out, ok
}

// fieldStores are the stores to a field of a type of the repository; whole: the type is also
// created or copied without giving the field a value.
func (q *prover) fieldStores(o *types.Named, field int) (sts []*ssa.Store, whole bool) {
	for _, f := range q.p.fnSrc {
		eachInstr(f, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.Field == field {
					if n, _ := fieldName(fa); n == o {
						sts = append(sts, x)
					}
				}
				if c, ok := x.Val.(*ssa.Const); ok && types.Identical(c.Type(), o) {
					whole = true
				}
			case *ssa.Alloc:
				if types.Identical(x.Type().Underlying().(*types.Pointer).Elem(), o) {
					set := false
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.FieldAddr:
							if y.Field == field {
								for _, s := range *y.Referrers() {
									if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
										set = true
									}
								}
							}
						case *ssa.Store:
							if y.Addr == ssa.Value(x) {
								set = true // copied from another
							}
						}
					}
					if !set {
						whole = true
					}
				}
			}
		})
	}
	return
}

// mapInts: the smallest and largest integer among the values (2) or keys (1) of a fixed table.
func (q *prover) mapInts(m ssa.Value, idx int) (lo, hi int64, ok bool) {
	mk := q.tableMap(q.mapRep(m))
	if mk == nil {
		return
	}
	if u, isU := m.(*ssa.UnOp); isU {
		if g, isG := u.X.(*ssa.Global); isG && q.mapWritten(g) {
			return
		}
	}
	lo, hi = math.MaxInt64, math.MinInt64
	for _, r := range *mk.Referrers() {
		mu, isMu := r.(*ssa.MapUpdate)
		if !isMu {
			continue
		}
		v := mu.Value
		if idx == 1 {
			v = mu.Key
		}
		k, isK := constInt(v)
		if !isK {
			return 0, 0, false
		}
		lo, hi = min(lo, k), max(hi, k)
	}
	return lo, hi, lo != math.MaxInt64
}

func (q *prover) mapRep(m ssa.Value) ssa.Value {
	if u, ok := m.(*ssa.UnOp); ok {
		if _, ok := u.X.(*ssa.Global); ok {
			return m
		}
		return q.rep(m)
	}
	return m
}

// mapValueLen: the least length among the values of a table of lists or texts.
func (q *prover) mapValueLen(m ssa.Value, idx int) (int64, bool) {
	if o, n := loadedField(m); o != nil && o.Obj().Name() == "LocaleData" {
		dm := q.p.localeData()
		if len(dm.problems) > 0 {
			return 0, false
		}
		lo := math.MaxInt32
		for _, l := range dm.locales {
			switch {
			case n == "Translations" && idx == 2:
				for _, v := range l.Trans {
					lo = min(lo, len(v))
				}
			case n == "Translations" && idx == 1:
				for k := range l.Trans {
					lo = min(lo, len(k))
				}
			default:
				return 0, false
			}
		}
		return int64(lo), lo != math.MaxInt32
	}
	mk, ok := q.mapRep(m).(*ssa.MakeMap)
	if !ok {
		return 0, false
	}
	lo := int64(math.MaxInt64)
	for _, u := range q.updatesOf(mk) {
		v := u.Value
		if idx == 1 {
			v = u.Key
		}
		l := q.lenOf(v)
		if l.v != nil {
			return 0, false
		}
		lo = min(lo, l.c)
	}
	return lo, lo != math.MaxInt64
}

// updatesOf are the updates of a local map, also through captured variables.
func (q *prover) updatesOf(mk *ssa.MakeMap) []*ssa.MapUpdate {
	var out []*ssa.MapUpdate
	fn := mk.Parent()
	for _, f := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
		eachInstr(f, func(i ssa.Instruction) {
			if mu, ok := i.(*ssa.MapUpdate); ok && q.rep(mu.Map) == ssa.Value(mk) {
				out = append(out, mu)
			}
		})
	}
	return out
}

// elemsAppended are the values appended to a list built in one function, with their blocks.
func (q *prover) elemsAppended(list ssa.Value) (vals []ssa.Value, at []ssa.Instruction, ok bool) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		v = q.rep(v)
		if seen[v] {
			return true
		}
		seen[v] = true
		if isNilConst(v) {
			return true
		}
		if ph := phiOf(v); ph != nil {
			for _, e := range ph.edges {
				if !walk(e) {
					return false
				}
			}
			return true
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if fv, isFV := x.X.(*ssa.FreeVar); isFV {
				if al := bCell(fv); al != nil {
					sts, ok := cellStores(al)
					for _, s := range sts {
						if !walk(s.Val) {
							return false
						}
					}
					return ok
				}
			}
			if al, isAl := x.X.(*ssa.Alloc); isAl {
				sts, ok := cellStores(al)
				for _, s := range sts {
					if !walk(s.Val) {
						return false
					}
				}
				return ok
			}
		case *ssa.MakeSlice:
			l := q.norm(x.Len)
			return l.v == nil && l.c == 0
		case *ssa.Slice:
			if al, isAl := x.X.(*ssa.Alloc); isAl {
				for _, r := range *al.Referrers() {
					if ia, isIA := r.(*ssa.IndexAddr); isIA {
						for _, s := range *ia.Referrers() {
							if st, isSt := s.(*ssa.Store); isSt && st.Addr == ssa.Value(ia) {
								vals, at = append(vals, st.Val), append(at, st)
							}
						}
					}
				}
				return true
			}
			return walk(x.X)
		case *ssa.Call:
			if n := calleeName(&x.Call); n == "append" || n == "builtin append" {
				return walk(x.Call.Args[0]) && walk(x.Call.Args[1])
			}
		}
		return false
	}
	ok = walk(list)
	return
}

// listElem: v is an element of which list.
func (q *prover) listElem(v ssa.Value) ssa.Value {
	v = q.rep(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return ia.X
		}
	}
	return nil
}

// keyPresent: the key is certainly in the map, because it comes from a list whose elements are
// only added together with the key (or after finding it in the map).
func (q *prover) keyPresent(lk *ssa.Lookup) bool {
	list := q.listElem(lk.Index)
	if list == nil {
		return false
	}
	vals, at, ok := q.elemsAppended(list)
	if !ok || len(vals) == 0 {
		return false
	}
	m := q.mapRep(lk.X)
	if u, isU := m.(*ssa.UnOp); isU {
		if fv, isFV := u.X.(*ssa.FreeVar); isFV {
			if r := capturedValue(fv); r != nil {
				m = q.rep(r)
			}
		}
	}
	for k, v := range vals {
		good := false
		// found before
		for _, f := range facts(at[k].Block()) {
			if ex, ok := f.Cond.(*ssa.Extract); ok && f.Val && ex.Index == 1 {
				if l2, ok := ex.Tuple.(*ssa.Lookup); ok && q.rep(l2.Index) == q.rep(v) && q.sameMap(l2.X, lk.X) {
					good = true
				}
			}
		}
		// or added in the same stretch
		if mk, ok := m.(*ssa.MakeMap); ok && !good {
			for _, mu := range q.updatesOf(mk) {
				if q.rep(mu.Key) == q.rep(v) && (mu.Block() == at[k].Block() || mu.Block().Dominates(at[k].Block())) {
					good = true
				}
			}
		}
		if !good {
			return false
		}
	}
	return true
}

func (q *prover) sameMap(a, b ssa.Value) bool {
	if a == b || q.rep(a) == q.rep(b) {
		return true
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && ua.X == ub.X
}

// mapListLen: the least length of the list looked up (the key being present).
func (q *prover) mapListLen(lk *ssa.Lookup, at loc) (int64, bool) {
	if lk.CommaOk {
		return 0, false
	}
	m := lk.X
	if u, ok := m.(*ssa.UnOp); ok {
		if fv, ok := u.X.(*ssa.FreeVar); ok {
			if r := capturedValue(fv); r != nil {
				m = r
			}
		}
	}
	n, ok := q.mapValueLen(m, 2)
	if !ok || !q.keyPresent(lk) {
		return 0, false
	}
	return n, true
}

// dataLen: the least length of an element of a list of the locale tables.
func (q *prover) dataLen(u *ssa.UnOp) (int64, bool) {
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok || !isString(u.Type()) {
		return 0, false
	}
	o, n := loadedField(ia.X)
	if o == nil || o.Obj().Name() != "LocaleData" {
		return 0, false
	}
	dm := q.p.localeData()
	if len(dm.problems) > 0 {
		return 0, false
	}
	lo := math.MaxInt32
	for _, l := range dm.locales {
		var list []string
		switch n {
		case "KnownWords":
			list = l.Known
		case "Abbreviations":
			list = l.Abbrev
		default:
			return 0, false
		}
		for _, w := range list {
			lo = min(lo, len(w))
		}
	}
	return int64(lo), lo != math.MaxInt32
}

// elemLen: the length of an element of a list, when it is the same for all.
func (q *prover) elemLen(u *ssa.UnOp, at loc) (lin, bool) {
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok || u.Op != token.MUL {
		return lin{}, false
	}
	switch u.Type().Underlying().(type) {
	case *types.Slice:
	default:
		return lin{}, false
	}
	list := q.rep(ia.X)
	switch x := list.(type) {
	case *ssa.Call:
		rx, _, per, all := matchKind(&x.Call)
		if rx != nil && all {
			n, ok := q.matchSize(rx, per)
			return konst(n), ok
		}
	case *ssa.MakeSlice:
		fill, sts := q.filled(x)
		if fill == nil || !fill.Dominates(at.b) {
			return lin{}, false
		}
		var l lin
		for k, s := range sts {
			n := q.lenOf(s.Val)
			if k > 0 && n != l {
				return lin{}, false
			}
			l = n
		}
		return l, len(sts) > 0
	}
	return lin{}, false
}

// filled: a loop over the whole list stores an element on every round; the block is the loop's header.
func (q *prover) filled(mk *ssa.MakeSlice) (*ssa.BasicBlock, []*ssa.Store) {
	var sts []*ssa.Store
	eachInstr(mk.Parent(), func(i ssa.Instruction) {
		if st, ok := i.(*ssa.Store); ok {
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && q.rep(ia.X) == ssa.Value(mk) {
				sts = append(sts, st)
			}
		}
	})
	for _, s := range sts {
		ia := s.Addr.(*ssa.IndexAddr)
		l := q.norm(ia.Index)
		ph := phiOf(l.v)
		if ph == nil {
			continue
		}
		h := ph.blk
		if loopHeader(h) != h {
			continue
		}
		// counts 0, 1, … len-1
		var start lin
		stepOK := true
		for k, e := range ph.edges {
			n := q.norm(e)
			if h.Dominates(h.Preds[k]) {
				stepOK = stepOK && n.atom == l.atom && n.c == 1
			} else {
				start = n
			}
		}
		if !stepOK || start.v != nil || start.c+l.c != 0 {
			continue
		}
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		full := false
		for _, i := range q.factIneqs(expandFacts([]Fact{{iff.Cond, false}}), 0) {
			// on leaving: len(list) <= index
			n := q.lenOf(mk)
			if i.x == n.atom && i.y == l.atom && i.c+n.c <= l.c {
				full = true
			}
			if n.v == nil && i.x.v == nil && i.y == l.atom && n.c+i.c <= l.c {
				full = true
			}
		}
		if !full {
			continue
		}
		if q.everyRound(h, func(i ssa.Instruction) bool {
			st, ok := i.(*ssa.Store)
			if !ok {
				return false
			}
			ia2, ok := st.Addr.(*ssa.IndexAddr)
			return ok && q.rep(ia2.X) == ssa.Value(mk) && q.norm(ia2.Index) == l
		}) {
			return h, sts
		}
	}
	return nil, sts
}

// everyRound: each round of the loop executes such an instruction. Boolean flags set along the way
// are followed.
func (q *prover) everyRound(h *ssa.BasicBlock, is func(ssa.Instruction) bool) bool {
	body := loopBody(h)
	type state struct {
		b     *ssa.BasicBlock
		flags string
	}
	seen := map[state]bool{}
	ok := true
	steps := 0
	var walk func(b, from *ssa.BasicBlock, env map[ssa.Value]bool)
	walk = func(b, from *ssa.BasicBlock, env map[ssa.Value]bool) {
		if !ok || !body[b] {
			return
		}
		if b == h && from != nil {
			ok = false // a round without it
			return
		}
		e2 := map[ssa.Value]bool{}
		for k, v := range env {
			e2[k] = v
		}
		if from != nil {
			for _, i := range b.Instrs {
				ph, isPhi := i.(*ssa.Phi)
				if !isPhi {
					break
				}
				delete(e2, ph)
				for k, p := range b.Preds {
					if p == from {
						if c, isC := constBool(ph.Edges[k]); isC {
							e2[ph] = c
						} else if v, known := env[ph.Edges[k]]; known {
							e2[ph] = v
						}
					}
				}
			}
		}
		key := state{b, envKey(e2)}
		if seen[key] {
			return
		}
		seen[key] = true
		if steps++; steps > 5000 {
			ok = false
			return
		}
		for _, i := range b.Instrs {
			if is(i) {
				return
			}
		}
		if iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If); isIf {
			if v, known := boolOf(iff.Cond, e2); known {
				k := 1
				if v {
					k = 0
				}
				walk(b.Succs[k], b, e2)
				return
			}
		}
		for _, s := range b.Succs {
			walk(s, b, e2)
		}
	}
	walk(h, nil, map[ssa.Value]bool{})
	return ok
}

func boolOf(v ssa.Value, env map[ssa.Value]bool) (bool, bool) {
	if c, ok := constBool(v); ok {
		return c, true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		b, ok := boolOf(u.X, env)
		return !b, ok
	}
	b, ok := env[v]
	return b, ok
}

func envKey(env map[ssa.Value]bool) string {
	m := map[string]bool{}
	for k, v := range env {
		m[k.Name()+fmt.Sprint(v)] = true
	}
	return strings.Join(sortedKeys(m), ",")
}

// loopBody are the blocks of the loops with the header.
func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var st []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !body[p] {
			body[p] = true
			st = append(st, p)
		}
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		for _, p := range b.Preds {
			if !body[p] && h.Dominates(p) {
				body[p] = true
				st = append(st, p)
			}
		}
	}
	return body
}

// elemsAtLeast: every element of the list has at least n elements (or characters).
func (q *prover) elemsAtLeast(list ssa.Value, n int64, at loc, seen map[ssa.Value]bool) bool {
	list = q.rep(list)
	if seen[list] {
		return true
	}
	if len(seen) > 60 {
		return false
	}
	seen[list] = true
	atLeast := func(v ssa.Value, blk *ssa.BasicBlock) bool {
		l := q.lenOf(v)
		return q.diff(atom{}, l.atom, l.c-n, startOf(blk))
	}
	if ph := phiOf(list); ph != nil {
		for k, e := range ph.edges {
			if !q.elemsAtLeast(e, n, startOf(ph.blk.Preds[k]), seen) {
				return false
			}
		}
		return true
	}
	switch x := list.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeSlice:
		if l := q.norm(x.Len); l.v == nil && l.c == 0 {
			return true
		}
		fill, sts := q.filled(x)
		if fill == nil || !fill.Dominates(at.b) {
			return false
		}
		for _, s := range sts {
			if !atLeast(s.Val, s.Block()) {
				return false
			}
		}
		return len(sts) > 0
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return q.elemsAtLeast(x.X, n, at, seen)
		}
		ar := arrayOf(al.Type())
		if ar == nil {
			return false
		}
		cnt := int64(0)
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, s := range *ia.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						cnt++
						if !atLeast(st.Val, st.Block()) {
							return false
						}
					}
				}
			}
		}
		return cnt >= ar.Len()
	case *ssa.Call, *ssa.Extract:
		cl, idx := callResult(list)
		if cl == nil {
			return false
		}
		switch calleeName(&cl.Call) {
		case "append", "builtin append":
			return q.elemsAtLeast(cl.Call.Args[0], n, at, seen) && q.elemsAtLeast(cl.Call.Args[1], n, at, seen)
		case "slices.Clone", "slices.DeleteFunc", "slices.Delete":
			return q.elemsAtLeast(cl.Call.Args[0], n, at, seen)
		}
		if rx, _, per, all := matchKind(&cl.Call); rx != nil && all {
			k, ok := q.matchSize(rx, per)
			return ok && k >= n
		}
		g := cl.Call.StaticCallee()
		if g == nil || !q.p.inRepo(g) || len(g.Blocks) == 0 {
			return false
		}
		for _, ret := range returnsOf(g) {
			vs := retValues(ret)
			if idx >= len(vs) || !q.elemsAtLeast(vs[idx], n, startOf(ret.Block()), seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		sites := q.sites(x.Parent())
		for _, s := range sites {
			a := q.argFor(x.Parent(), x, s)
			if a == nil || !q.elemsAtLeast(a, n, startOf(s.Block()), seen) {
				return false
			}
		}
		return len(sites) > 0
	case *ssa.UnOp:
		ok := q.stored(x, storeTag{elems: true}, -n, func(v ssa.Value, blk *ssa.BasicBlock) bool {
			return q.elemsAtLeast(v, n, startOf(blk), seen)
		}, func() bool { return true })
		return ok
	}
	return false
}

// iterated: the function is a callback of the library, the parameter an index it hands out.
func (q *prover) iterated(f *ssa.Function, v *ssa.Parameter, x, o atom, c int64, upper bool) (bool, bool) {
	if x.k != atomVal || !isInt(v.Type()) || f.Parent() == nil {
		return false, false
	}
	mc := ssa.Value(f)
	var uses []ssa.Instruction
	if m := closureOf(f); m != nil {
		mc = m
		uses = *m.Referrers()
	} else {
		eachInstr(f.Parent(), func(i ssa.Instruction) {
			for _, op := range i.Operands(nil) {
				if *op == ssa.Value(f) {
					uses = append(uses, i)
				}
			}
		})
	}
	n := 0
	for _, u := range uses {
		cl, ok := u.(*ssa.Call)
		if !ok {
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			return false, false
		}
		var list ssa.Value
		switch calleeName(&cl.Call) {
		case "sort.Slice", "sort.SliceStable", "sort.SliceIsSorted":
			if len(cl.Call.Args) > 1 && cl.Call.Args[1] == mc {
				list = cl.Call.Args[0]
			}
		case "sort.Search":
			if len(cl.Call.Args) > 1 && cl.Call.Args[1] == mc {
				n++
				if !upper {
					if !(o.v == nil && c >= 0) {
						return false, true
					}
					continue
				}
				l := q.norm(cl.Call.Args[0])
				if bFnOf(o.v) != nil && bFnOf(o.v) != cl.Parent() || !q.diff(l.atom, o, c-l.c+1, startOf(cl.Block())) {
					return false, true
				}
				continue
			}
		default:
			// slices.All and friends: the body of a range over a list
			if iv, ok := cl.Call.Value.(*ssa.Call); ok && len(iv.Call.Args) > 0 && v == f.Params[0] {
				switch calleeName(&iv.Call) {
				case "slices.All", "slices.Backward":
					list = iv.Call.Args[0]
				}
			}
		}
		if list == nil {
			return false, false
		}
		n++
		if !upper {
			if !(o.v == nil && c >= 0) {
				return false, true
			}
			continue
		}
		// v <= len(list) - 1
		src := strip(list)
		if mi, ok := src.(*ssa.MakeInterface); ok {
			src = mi.X
		}
		if o.k == atomLen {
			// the list read in the callback is the one being sorted
			if u2, ok := o.v.(*ssa.UnOp); ok {
				if fv, ok := u2.X.(*ssa.FreeVar); ok {
					if su, ok := src.(*ssa.UnOp); ok && !writesFree(fv) {
						cell := bCell(fv)
						if cell != nil && (su.X == ssa.Value(cell) || isFree(su.X, cell)) && c >= -1 {
							continue
						}
					}
				}
			}
		}
		l := q.lenOf(src)
		lo := lin{o, 0}
		if o.v != nil && bFnOf(o.v) != cl.Parent() {
			if _, ok := o.v.(*ssa.Global); !ok {
				return false, true
			}
		}
		if !q.diff(l.atom, lo.atom, c-l.c+1, startOf(cl.Block())) {
			return false, true
		}
	}
	return n > 0, n > 0
}

func isFree(v ssa.Value, cell *ssa.Alloc) bool {
	fv, ok := v.(*ssa.FreeVar)
	return ok && bCell(fv) == cell
}

func stringConst(s string) constant.Value { return constant.MakeString(s) }
func intConst(n int64) constant.Value     { return constant.MakeInt64(n) }
func boolConst(b bool) constant.Value     { return constant.MakeBool(b) }

// twinLoads: a and b read two variables whose lists grow together, one element each, and b is read
// no earlier than a: the list read at b is at least as long as the one read at a.
func (q *prover) twinLoads(a, b ssa.Value) bool {
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || la.Op != token.MUL || lb.Op != token.MUL {
		return false
	}
	ca, ok1 := la.X.(*ssa.Alloc)
	cb, ok2 := lb.X.(*ssa.Alloc)
	if !ok1 || !ok2 || ca == cb || ca.Parent() != cb.Parent() || ca.Block() != cb.Block() {
		return false
	}
	if la.Parent() != lb.Parent() || !dominates(la, lb) {
		return false
	}
	sa, ok1 := cellStores(ca)
	sb, ok2 := cellStores(cb)
	if !ok1 || !ok2 || len(sa) == 0 || len(sa) != len(sb) {
		return false
	}
	count := map[*ssa.BasicBlock][2]int{}
	span := map[*ssa.BasicBlock][2]int{}
	for k, l := range [][]*ssa.Store{sa, sb} {
		for _, st := range l {
			cl, ok := st.Val.(*ssa.Call)
			if !ok {
				return false
			}
			bi, ok := cl.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "append" || len(cl.Call.Args) != 2 || cl.Block() != st.Block() {
				return false
			}
			ld, ok := cl.Call.Args[0].(*ssa.UnOp)
			if !ok || ld.Op != token.MUL || ld.X != st.Addr || ld.Block() != st.Block() {
				return false
			}
			if _, one := listOf1(cl.Call.Args[1]); !one {
				return false
			}
			n := count[st.Block()]
			n[k]++
			count[st.Block()] = n
			from, to := instrIndex(ld), instrIndex(st)
			if sp, have := span[st.Block()]; have {
				from, to = min(from, sp[0]), max(to, sp[1])
			}
			span[st.Block()] = [2]int{from, to}
		}
	}
	for b, n := range count {
		if n[0] != n[1] {
			return false
		}
		for k := span[b][0]; k <= span[b][1]; k++ {
			i := b.Instrs[k]
			if i == ssa.Instruction(la) || i == ssa.Instruction(lb) {
				return false
			}
			if c := callOf(i); c != nil {
				if _, ok := c.Value.(*ssa.Builtin); !ok {
					return false
				}
			}
		}
	}
	return true
}
