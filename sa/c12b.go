package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Paths of one case: which lists are empty and which errors are set along a path is remembered, so that
// branches that test them are decided.

type pathState struct {
	vals   map[ssa.Value]int
	added  map[ssa.Value]bool
	looked ssa.Instruction
	failed bool
}

func (s *pathState) clone() *pathState {
	t := &pathState{vals: make(map[ssa.Value]int, len(s.vals)), added: make(map[ssa.Value]bool, len(s.added)), looked: s.looked, failed: s.failed}
	for k, v := range s.vals {
		t.vals[k] = v
	}
	for k := range s.added {
		t.added[k] = true
	}
	return t
}

func (s *pathState) key(b *ssa.BasicBlock, pred int) string {
	var ks []string
	for v, n := range s.vals {
		if n != 0 {
			ks = append(ks, fmt.Sprintf("%s=%d", v.Name(), n))
		}
	}
	for v := range s.added {
		ks = append(ks, "+"+v.Name())
	}
	sort.Strings(ks)
	return fmt.Sprintf("%d %d %p %v %s", b.Index, pred, s.looked, s.failed, strings.Join(ks, " "))
}

// pathOut is one way in which a function ends.
type pathOut struct {
	res    []int
	looked ssa.Instruction
	failed bool
	ret    *ssa.Return
}

type pathRun struct {
	c     *localeCase
	f     *ssa.Function
	cc    *cctx
	edges map[refEdge]bool // branches of the case
	track bool             // with lookups that fail
	skip  map[*ssa.Function]bool

	took    map[refEdge]bool
	outs    map[string]pathOut
	seen    map[string]bool
	liveIn  map[ssa.Value]map[*ssa.BasicBlock]bool
	n       int
	over    bool
	problem func(in ssa.Instruction, why string)
	unclear *bool
}

// refine drops branches of f that no path of the case takes.
func (c *localeCase) refine(f *ssa.Function, cc *cctx) {
	k := zkey{f, cc, 9}
	if c.refined[k] || len(f.Blocks) == 0 {
		return
	}
	c.refined[k] = true
	r := &pathRun{c: c, f: f, cc: cc, edges: c.z.edges(f, cc)}
	r.start(&pathState{vals: map[ssa.Value]int{}, added: map[ssa.Value]bool{}})
	if !r.over {
		c.z.live[k] = r.took
	}
}

func (r *pathRun) start(s *pathState) {
	r.took, r.outs, r.seen = map[refEdge]bool{}, map[string]pathOut{}, map[string]bool{}
	r.block(r.f.Blocks[0], -1, s)
}

func (r *pathRun) block(b *ssa.BasicBlock, pred int, s *pathState) {
	if r.over {
		return
	}
	s = s.clone()
	type set struct {
		v ssa.Value
		n int
	}
	var sets []set
	i := 0
	for ; i < len(b.Instrs); i++ {
		ph, ok := b.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		if pred >= 0 && pred < len(ph.Edges) && trackedType(ph.Type()) {
			sets = append(sets, set{ph, r.val(ph.Edges[pred], s)})
		}
	}
	for _, t := range sets {
		s.vals[t.v] = t.n
	}
	for v := range s.vals {
		if defBlock(v) != b && !r.liveAt(v, b) {
			delete(s.vals, v)
		}
	}
	k := s.key(b, pred)
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	if r.n++; r.n > 8000 {
		r.over = true
		return
	}
	r.instrs(b, pred, i, s)
}

// liveAt: the value may still be used from the start of b on, before it is computed again.
func (r *pathRun) liveAt(v ssa.Value, b *ssa.BasicBlock) bool {
	if r.liveIn == nil {
		r.liveIn = map[ssa.Value]map[*ssa.BasicBlock]bool{}
	}
	m, ok := r.liveIn[v]
	if !ok {
		m = map[*ssa.BasicBlock]bool{}
		r.liveIn[v] = m
		def := defBlock(v)
		if _, isCell := v.(*ssa.Alloc); isCell {
			def = nil
		}
		var st []*ssa.BasicBlock
		use := func(b *ssa.BasicBlock) {
			if b != def && !m[b] {
				m[b] = true
				st = append(st, b)
			}
		}
		if v.Referrers() != nil {
			for _, u := range *v.Referrers() {
				if ph, ok := u.(*ssa.Phi); ok {
					for k, e := range ph.Edges {
						if e == v {
							use(ph.Block().Preds[k])
						}
					}
					continue
				}
				use(u.Block())
			}
		}
		for len(st) > 0 {
			b := st[len(st)-1]
			st = st[:len(st)-1]
			for _, p := range b.Preds {
				use(p)
			}
		}
	}
	return m[b]
}

func trackedType(t types.Type) bool { return isList(t) || isErrType(t) || isBool(t) || isLocale(t) }

func (r *pathRun) instrs(b *ssa.BasicBlock, pred, i int, s *pathState) {
	for ; i < len(b.Instrs); i++ {
		switch x := b.Instrs[i].(type) {
		case *ssa.Store:
			if al, ok := x.Addr.(*ssa.Alloc); ok && trackedType(x.Val.Type()) && ownCell(al) {
				s.vals[al] = r.val(x.Val, s)
			}
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && trackedType(x.Type()) && ownCell(al) {
				s.vals[x] = s.vals[al]
			}
		case *ssa.MapUpdate:
			s.added[x.Map] = true
		case *ssa.Lookup:
			if r.track && x.CommaOk && r.codeTable(x) && r.lookup(x, x.Index, s, func(s2 *pathState) { r.instrs(b, pred, i+1, s2) }) {
				return
			}
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if isDictMethod(g, "Add") {
				s.added[x.Call.Args[0]] = true
				continue
			}
			if genericName(calleeName(&x.Call)) == "builtin append" {
				s.vals[x] = r.appended(x, s)
				continue
			}
			if !r.track {
				continue
			}
			if registryLookup(&x.Call) {
				if r.lookup(x, x.Call.Args[0], s, func(s2 *pathState) { r.instrs(b, pred, i+1, s2) }) {
					return
				}
				continue
			}
			if localeUse(x) != nil && r.problem != nil {
				switch {
				case s.failed:
					r.problem(x, "a locale is used although an unknown code was named")
				case s.looked == nil:
					r.problem(x, "a locale is used before the codes that were named are checked")
				}
			}
			if g == nil || !r.c.p.inRepo(g) || r.skip[g] || !r.c.interesting(g) {
				continue
			}
			outs := r.c.run(x, g, r.cc, s, r)
			if outs == nil {
				continue
			}
			for _, o := range outs {
				t := s.clone()
				t.looked, t.failed = o.looked, o.failed
				if len(o.res) == 1 {
					t.vals[x] = o.res[0]
				}
				for _, u := range refs(x) {
					if ex, ok := u.(*ssa.Extract); ok && ex.Index < len(o.res) {
						t.vals[ex] = o.res[ex.Index]
					}
				}
				r.instrs(b, pred, i+1, t)
			}
			return
		case *ssa.Return:
			o := pathOut{looked: s.looked, failed: s.failed, ret: x}
			for _, v := range retValues(x) {
				n := 0
				if trackedType(v.Type()) {
					n = r.val(v, s)
				}
				o.res = append(o.res, n)
			}
			r.outs[fmt.Sprintf("%v %p %v %p", o.res, o.looked, o.failed, x)] = o
			return
		case *ssa.If:
			d := r.decide(x.Cond, b, pred, s, 0)
			for k, sc := range b.Succs {
				if d == 1 && k == 1 || d == 2 && k == 0 || !r.edges[refEdge{b, k}] {
					continue
				}
				r.go_(b, k, sc, s, x.Cond)
			}
			return
		case *ssa.Jump:
			if r.edges[refEdge{b, 0}] {
				r.go_(b, 0, b.Succs[0], s, nil)
			}
			return
		}
	}
}

func (r *pathRun) go_(b *ssa.BasicBlock, k int, sc *ssa.BasicBlock, s *pathState, cond ssa.Value) {
	r.took[refEdge{b, k}] = true
	t := s
	// what the branch tells
	if cond != nil {
		v, val := cond, k == 0
		for {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			v, val = u.X, !val
		}
		switch y := v.(type) {
		case *ssa.BinOp:
			if l, full, ok := sizeTest(y); ok && trackedType(l.Type()) && r.val(l, s) == 0 {
				t = s.clone()
				t.vals[l] = stEmpty
				if full == val {
					t.vals[l] = stFull
				}
			}
		default:
			if isBool(v.Type()) && r.val(v, s) == 0 {
				if _, isC := v.(*ssa.Const); !isC {
					t = s.clone()
					t.vals[v] = stEmpty
					if val {
						t.vals[v] = stFull
					}
				}
			}
		}
	}
	n := 0
	for j, p := range sc.Preds {
		if p == b && (b.Succs[0] != sc || len(b.Succs) < 2 || b.Succs[1] != sc || n == k) {
			r.block(sc, j, t)
			return
		} else if p == b {
			n++
		}
	}
}

// sentinel numbers the errors that are kept in variables.
func (c *localeCase) sentinel(g *ssa.Global) int {
	if c.errs == nil {
		c.errs = map[*ssa.Global]int{}
	}
	if c.errs[g] == 0 {
		c.errs[g] = 10 + len(c.errs)
	}
	return c.errs[g]
}

// ownCell: a local variable that only this function changes.
func ownCell(al *ssa.Alloc) bool {
	sts, ok := cellStores(al)
	if !ok {
		return false
	}
	for _, st := range sts {
		if st.Parent() != al.Parent() {
			return false
		}
	}
	return true
}

func (r *pathRun) appended(x *ssa.Call, s *pathState) int {
	a, b := r.val(x.Call.Args[0], s), r.val(x.Call.Args[1], s)
	switch {
	case a >= stFull || b >= stFull:
		return stFull
	case a == stEmpty && b == stEmpty:
		return stEmpty
	}
	return 0
}

// val: what is known of a value on this path.
func (r *pathRun) val(v ssa.Value, s *pathState) int {
	if isNilConst(v) {
		return stEmpty
	}
	if b, ok := constBool(v); ok {
		if b {
			return stFull
		}
		return stEmpty
	}
	if n := s.vals[v]; n != 0 {
		return n
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return r.val(x.X, s)
	case *ssa.ChangeInterface:
		return r.val(x.X, s)
	case *ssa.MakeInterface:
		return stFresh
	case *ssa.Phi:
		return 0
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && isErrType(x.Type()) && nonNilErr(x) {
			return r.c.sentinel(g)
		}
		if x.Op == token.NOT {
			switch r.val(x.X, s) {
			case stEmpty:
				return stFull
			case stFull:
				return stEmpty
			}
			return 0
		}
	case *ssa.Call:
		n := genericName(calleeName(&x.Call))
		switch n {
		case "fmt.Errorf", "errors.New":
			return stFresh
		case "slices.Clone", "slices.Clip", "slices.Grow":
			return r.val(x.Call.Args[0], s)
		case "errors.Join":
			for _, a := range variadic(x.Call.Args[0]) {
				if r.val(a, s) >= stFull {
					return stFresh
				}
			}
			return 0
		}
	case *ssa.MakeSlice:
		if cl, ok := x.Len.(*ssa.Call); ok && calleeName(&cl.Call) == "builtin len" && isList(cl.Call.Args[0].Type()) {
			return r.val(cl.Call.Args[0], s)
		}
	}
	if isList(v.Type()) {
		if ld, ok := v.(*ssa.UnOp); ok {
			if _, ok := ld.X.(*ssa.Alloc); ok {
				return 0
			}
		}
		return r.c.size(cval{v, r.cc}, 0)
	}
	return 0
}

// decide: 1 true, 2 false, 0 not known.
func (r *pathRun) decide(v ssa.Value, b *ssa.BasicBlock, pred int, s *pathState, depth int) int {
	if depth > 6 {
		return 0
	}
	is := func(b bool) int {
		if b {
			return 1
		}
		return 2
	}
	switch n := r.boolVal(v, s); n {
	case stEmpty:
		return 2
	case stFull:
		return 1
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return (3 - r.decide(x.X, b, pred, s, depth+1)) % 3
		}
	case *ssa.BinOp:
		if l, full, ok := sizeTest(x); ok {
			switch n := r.val(l, s); {
			case n == stEmpty:
				return is(!full)
			case n >= stFull:
				return is(full)
			}
			return 0
		}
		if (x.Op == token.EQL || x.Op == token.NEQ) && isErrType(x.X.Type()) {
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				n := r.val(pr[0], s)
				if !nonNilErr(pr[1]) {
					continue
				}
				if m := r.val(pr[1], s); n == stEmpty || n == stFresh || n > stFresh && m > stFresh && m != n {
					return is(x.Op == token.NEQ)
				} else if n > stFresh && m == n {
					return is(x.Op == token.EQL)
				}
			}
		}
		// the first round of a loop over a list with elements
		if l := firstRound(x, b, pred); l != nil && r.val(l, s) >= stFull {
			return 1
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "errors.Is":
			n, m := r.val(x.Call.Args[0], s), r.val(x.Call.Args[1], s)
			if n == stEmpty || n == stFresh || n > stFresh && m > stFresh && n != m {
				return 2
			}
			return 0
		}
		switch genericName(calleeName(&x.Call)) {
		case "slices.Contains", "slices.ContainsFunc":
			if r.val(x.Call.Args[0], s) == stEmpty {
				return 2
			}
		}
		if isDictMethod(x.Call.StaticCallee(), "Contain") && r.unused(x.Call.Args[0], s) {
			return 2
		}
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && r.unused(lk.X, s) {
			return 2
		}
	}
	return 0
}

func (r *pathRun) boolVal(v ssa.Value, s *pathState) int {
	switch v.(type) {
	case *ssa.Phi, *ssa.Extract, *ssa.Const, *ssa.Call, *ssa.UnOp:
		return r.val(v, s)
	}
	return 0
}

// unused: a set made by this function that nothing was put into yet.
func (r *pathRun) unused(m ssa.Value, s *pathState) bool {
	if s.added[m] {
		return false
	}
	switch x := m.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.ChangeType:
		return r.unused(x.X, s)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		return g != nil && g.Name() == "NewDict" && len(x.Call.Args) == 1 && isNilConst(x.Call.Args[0])
	}
	return false
}

// firstRound: the condition lets a loop over the returned list begin.
func firstRound(x *ssa.BinOp, b *ssa.BasicBlock, pred int) ssa.Value {
	if x.Op != token.LSS || pred < 0 {
		return nil
	}
	cl, ok := x.Y.(*ssa.Call)
	if !ok || calleeName(&cl.Call) != "builtin len" {
		return nil
	}
	v, want := x.X, int64(0)
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
		if n, ok := constInt(bo.Y); ok && n == 1 {
			v, want = bo.X, -1
		}
	}
	ph, ok := v.(*ssa.Phi)
	if !ok || ph.Block() != b {
		return nil
	}
	if n, ok := constInt(ph.Edges[pred]); ok && n == want {
		return cl.Call.Args[0]
	}
	return nil
}

// codeTable: a table of the library that is asked for a code.
func (r *pathRun) codeTable(lk *ssa.Lookup) bool {
	m, ok := lk.X.Type().Underlying().(*types.Map)
	if !ok || !isString(m.Key()) {
		return false
	}
	g := rootGlobal(lk.X)
	return g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == repoPkg("internal/data")
}

// lookup: the code may be known or not.
func (r *pathRun) lookup(in ssa.Instruction, key ssa.Value, s *pathState, rest func(*pathState)) bool {
	v := in.(ssa.Value)
	var ok, ld *ssa.Extract
	for _, u := range refs(v) {
		if ex, is := u.(*ssa.Extract); is {
			if ex.Index == 1 {
				ok = ex
			} else {
				ld = ex
			}
		}
	}
	tested := func(v *ssa.Extract) bool { return v != nil && len(refs(v)) > 0 }
	if !tested(ok) {
		ok = nil
		compared := false
		if tested(ld) {
			for _, u := range refs(ld) {
				if bo, is := u.(*ssa.BinOp); is && isNilConst(bo.Y) {
					compared = true
				}
			}
		}
		if !compared {
			return false
		}
	}
	if s.looked != nil && s.looked != in {
		return false
	}
	ls := r.c.origins(cval{key, r.cc}, in.Block())
	if _, unclear := ls["?"]; unclear && r.unclear != nil {
		*r.unclear = true
	}
	if _, exact := ls[r.c.named]; !exact || len(ls) != 1 {
		return false
	}
	for _, found := range []bool{true, false} {
		t := s.clone()
		t.looked = in
		n := stFull
		if !found {
			t.failed, n = true, stEmpty
		}
		if ok != nil {
			t.vals[ok] = n
		}
		if ld != nil && isLocale(ld.Type()) {
			t.vals[ld] = n
		}
		rest(t)
	}
	return true
}

// interesting: the function looks up codes or uses locales.
func (c *localeCase) interesting(f *ssa.Function) bool {
	if k := c.what[f]; k != 0 {
		return k == 2
	}
	c.what[f] = 1
	if f.Pkg == nil || len(f.Blocks) == 0 {
		return false
	}
	if path := f.Pkg.Pkg.Path(); path != modPath && path != repoPkg("internal/language") {
		return false
	}
	r := &pathRun{c: c}
	out := false
	eachInstr(f, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.Lookup:
			if x.CommaOk && r.codeTable(x) {
				out = true
			}
		case *ssa.Call:
			if registryLookup(&x.Call) || localeUse(x) != nil {
				out = true
			} else if g := x.Call.StaticCallee(); g != nil && c.p.inRepo(g) && c.interesting(g) {
				out = true
			}
		}
	})
	if out {
		c.what[f] = 2
	}
	return out
}

// run: the ways in which a call ends.
func (c *localeCase) run(site *ssa.Call, g *ssa.Function, up *cctx, s *pathState, from *pathRun) []pathOut {
	gc := c.z.enter(site, g, up)
	if gc == nil {
		return nil
	}
	c.refine(g, gc)
	r := &pathRun{c: c, f: g, cc: gc, edges: c.z.edges(g, gc), track: true, skip: from.skip, problem: from.problem, unclear: from.unclear}
	r.start(&pathState{vals: map[ssa.Value]int{}, added: map[ssa.Value]bool{}, looked: s.looked, failed: s.failed})
	if r.over {
		from.over = true
		return nil
	}
	var ks []string
	for k := range r.outs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []pathOut
	for _, k := range ks {
		out = append(out, r.outs[k])
	}
	return out
}

// unknown: a code that is not known ends in an error.
func (c *localeCase) unknown(r *Result, entry *ssa.Function) {
	key := "unknown " + c.named + " in " + entry.Name()
	root := c.root(entry)
	c.refine(entry, root)
	unclear := false
	why, where := "", ""
	skip := map[*ssa.Function]bool{}
	for _, f := range c.p.fnSrc {
		if f != entry && f.Signature.Recv() != nil && f.Object() != nil && f.Object().Exported() && f.Pkg == entry.Pkg {
			skip[f] = true
		}
	}
	isSearch := entry.Name() == "Search"
	run := &pathRun{c: c, f: entry, cc: root, edges: c.z.edges(entry, root), track: true, skip: skip, unclear: &unclear,
		problem: func(in ssa.Instruction, w string) {
			if why == "" {
				why, where = w, c.p.instrPos(in)
			}
		}}
	run.start(&pathState{vals: map[ssa.Value]int{}, added: map[ssa.Value]bool{}})
	r.Analysed["paths"] += run.n
	for _, o := range run.outs {
		e := errIndex(entry.Signature)
		if e < 0 || o.res[e] >= stFull {
			continue
		}
		switch {
		case o.failed:
			run.problem(o.ret, "returns without an error although an unknown code was named")
		case isSearch && o.looked == nil:
			run.problem(o.ret, "returns without the codes that were named being checked")
		}
	}
	if why != "" && !unclear && !run.over {
		r.bad("unknown", key, where, "when "+c.named+" are named: "+why)
		return
	}
	r.ok("unknown", key, c.p.pos(entry.Pos()), fmt.Sprintf("%d path states explored", run.n))
}

// searchConfig: what a search hands to the parser names the language of the search only.
func searchConfig(p *Prog, r *Result, parse, searchWith *ssa.Function) {
	c := newLocaleCase(p, "")
	var visit func(f *ssa.Function, cc *cctx)
	visit = func(f *ssa.Function, cc *cctx) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				cl, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				g := cl.Call.StaticCallee()
				if g == nil || !p.inRepo(g) || g.Pkg != searchWith.Pkg || len(g.Blocks) == 0 {
					continue
				}
				if g == parse || g.Object() != nil && g.Object().Exported() && g.Name() == parse.Name() {
					for k, a := range cl.Call.Args {
						if k < len(g.Params) && isCfgPtr(g.Params[k].Type()) {
							c.parserConfig(r, cl, cval{a, cc}, searchWith)
						}
					}
					continue
				}
				if gc := c.z.enter(cl, g, cc); gc != nil {
					visit(g, gc)
				}
			}
		}
	}
	visit(searchWith, c.root(searchWith))
}

// parserConfig: where the configuration of a call is made its lists are replaced.
func (c *localeCase) parserConfig(r *Result, call *ssa.Call, x cval, searchWith *ssa.Function) {
	seen := map[cval]bool{}
	var origin func(x cval, at ssa.Instruction)
	origin = func(x cval, at ssa.Instruction) {
		for n := 0; n < 40; n++ {
			pr, ok := x.v.(*ssa.Parameter)
			if !ok || x.c == nil || x.c.site == nil || x.c.fn != pr.Parent() {
				break
			}
			a := argFor(x.c.site, pr)
			if a == nil {
				break
			}
			at = x.c.site
			x = cval{a, x.c.up}
		}
		if seen[x] {
			return
		}
		seen[x] = true
		switch y := x.v.(type) {
		case *ssa.Phi:
			for _, e := range y.Edges {
				origin(cval{e, x.c}, at)
			}
			return
		case *ssa.UnOp:
			if al := pairCell(y.X); al != nil && y.Op == token.MUL {
				if sts, ok := cellStores(al); ok {
					for _, st := range sts {
						origin(cval{st.Val, x.c}, at)
					}
					return
				}
			}
		}
		for _, field := range []string{"Locales", "Languages"} {
			key := fmt.Sprintf("search %s %s", siteKey(call, calleeName(call.Common())), field)
			vals, sure := c.storedField(x, field, at, 0)
			if !sure {
				r.bad("search", key, c.p.instrPos(call), "the parser gets the caller's "+field+" for text in the language of the search")
				continue
			}
			ls := labels{}
			for _, v := range vals {
				c.seen = map[seenAt]bool{}
				b := at.Block()
				if in, ok := v.v.(ssa.Instruction); ok {
					b = in.Block()
				}
				c.walk(v, b, ls, 0)
			}
			var bad []string
			for l := range ls {
				if l == "?" || strings.HasPrefix(l, "the parameter ") || strings.TrimSuffix(l, "+") == `the constant "en"` {
					continue
				}
				bad = append(bad, l)
			}
			sort.Strings(bad)
			if len(bad) > 0 {
				r.bad("search", key, c.p.pos(ls[bad[0]]), "the finds of a search may be parsed with "+strings.Join(bad, ", "))
			} else {
				r.ok("search", key, c.p.instrPos(call), "the language of the search or English")
			}
		}
	}
	origin(x, call)
}

// storedField: the values of a field of a configuration that was made here; sure: one of them is there.
func (c *localeCase) storedField(x cval, field string, at ssa.Instruction, depth int) (vals []cval, sure bool) {
	for _, u := range refs(x.v) {
		switch y := u.(type) {
		case *ssa.FieldAddr:
			if _, f := fieldName(y); f != field {
				continue
			}
			for _, w := range refs(y) {
				if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
					vals = append(vals, cval{st.Val, x.c})
					if st.Parent() != at.Parent() || dominates(st, at) {
						sure = true
					}
				}
			}
		case *ssa.Call:
			// a helper that sets it
			g := y.Call.StaticCallee()
			if g == nil || !c.p.inRepo(g) || ssa.Instruction(y) == at || depth > 2 || len(g.Blocks) == 0 {
				continue
			}
			for k, a := range y.Call.Args {
				if a != x.v || k >= len(g.Params) {
					continue
				}
				if gc := c.z.enter(y, g, x.c); gc != nil {
					for _, ret := range returnsOf(g) {
						vs, s := c.storedField(cval{g.Params[k], gc}, field, ret, depth+1)
						vals = append(vals, vs...)
						if s && dominates(y, at) {
							sure = true
						}
						break
					}
				}
			}
		}
	}
	if sure || depth > 3 {
		return
	}
	switch y := x.v.(type) {
	case *ssa.Alloc:
		// a new configuration: what is not set is empty, unless another one is copied
		copied := false
		for _, u := range refs(y) {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
				if _, isC := st.Val.(*ssa.Const); !isC {
					copied = true
				}
			}
		}
		if !copied {
			sure = true
		}
	case *ssa.Call:
		if g := y.Call.StaticCallee(); g != nil && c.p.inRepo(g) && len(g.Blocks) > 0 {
			if gc := c.z.enter(y, g, x.c); gc != nil {
				all := true
				for _, ret := range returnsOf(g) {
					vs := retValues(ret)
					if len(vs) == 0 {
						return vals, false
					}
					w, s := c.storedField(cval{vs[0], gc}, field, ret, depth+1)
					// the copy's own value of the field is no replacement
					for _, v := range w {
						if c.fromCfg(v, field) {
							s = false
						}
					}
					vals = append(vals, w...)
					all = all && s
				}
				if all {
					sure = true
				} else {
					vals = nil
				}
			}
		}
	}
	return
}

func (c *localeCase) fromCfg(x cval, field string) bool {
	c.seen = map[seenAt]bool{}
	ls := labels{}
	in, ok := x.v.(ssa.Instruction)
	if !ok {
		return false
	}
	c.walk(x, in.Block(), ls, 0)
	_, yes := ls[field]
	return yes
}
