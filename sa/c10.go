package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = checkC10 }

// the packages that read dates from the components written in the text
var componentParsers = []string{"internal/parser/absolute", "internal/parser/nospace", "internal/parser/hijri", "internal/parser/jalali"}

var dateParts = []string{"day", "month", "year"}

func isDict(t types.Type) bool { return typeIs(t, repoPkg("internal/strutil"), "Dict") }

// isComponentMap: a load of Parser.ComponentValues.
func isComponentMap(v ssa.Value) bool {
	_, n := loadedField(v)
	return n == "ComponentValues"
}

// gates finds the functions that check for missing parts: they report an error (or a flag) and read both
// options, themselves or through helpers, while no function they call does both.
func (p *Prog) strictGates() map[*ssa.Function]bool {
	reads := map[*ssa.Function]map[string]bool{}
	fns := p.reachableRepo()
	for _, f := range fns {
		m := map[string]bool{}
		eachInstr(f, func(i ssa.Instruction) {
			if v, ok := i.(ssa.Value); ok {
				if n := cfgField(v); n == "StrictParsing" || n == "RequiredParts" {
					m[n] = true
				}
			}
		})
		reads[f] = m
	}
	var all func(f *ssa.Function, depth int) map[string]bool
	all = func(f *ssa.Function, depth int) map[string]bool {
		out := map[string]bool{}
		for k := range reads[f] {
			out[k] = true
		}
		if depth < 4 {
			eachInstr(f, func(i ssa.Instruction) {
				if c := callOf(i); c != nil {
					if g := c.StaticCallee(); g != nil && p.inRepo(g) && g != f {
						for k := range all(g, depth+1) {
							out[k] = true
						}
					}
				}
			})
		}
		return out
	}
	out := map[*ssa.Function]bool{}
	for _, f := range fns {
		hasDict := false
		for _, pr := range f.Params {
			if isDict(pr.Type()) {
				hasDict = true
			}
		}
		if !hasDict || resultIndex(f.Signature, modPath+"/date", "Date") >= 0 {
			continue
		}
		if f.Signature.Results().Len() == 0 {
			continue
		}
		if errIndex(f.Signature) < 0 && !(f.Signature.Results().Len() == 1 && isBool(f.Signature.Results().At(0).Type())) {
			continue
		}
		if a := all(f, 0); a["StrictParsing"] && a["RequiredParts"] {
			out[f] = true
		}
	}
	// only the outermost
	for f := range out {
		eachInstr(f, func(i ssa.Instruction) {
			if c := callOf(i); c != nil {
				if g := c.StaticCallee(); g != nil && g != f && out[g] {
					delete(out, g)
				}
			}
		})
	}
	return out
}

// layoutHas tells which parts of a date a layout spells out.
func layoutHas(l string) (day, month, year bool) {
	a := time.Date(2001, 3, 4, 5, 6, 7, 8, time.UTC)
	day = a.Format(l) != time.Date(2001, 3, 11, 5, 6, 7, 8, time.UTC).Format(l) // same weekday
	month = a.Format(l) != time.Date(2001, 11, 4, 5, 6, 7, 8, time.UTC).Format(l)
	year = a.Format(l) != time.Date(2007, 3, 4, 5, 6, 7, 8, time.UTC).Format(l)
	return
}

func isDictMethod(g *ssa.Function, name string) bool {
	return g != nil && g.Name() == name && g.Signature.Recv() != nil && isDict(g.Signature.Recv().Type())
}

// emptyFact: the fact says that the list or map v is empty (or not).
func emptyFact(f Fact) (v ssa.Value, empty, known bool) {
	bo, ok := f.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	x, y, op := bo.X, bo.Y, bo.Op
	lenOf := func(v ssa.Value) ssa.Value {
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return c.Call.Args[0]
			}
		}
		return nil
	}
	if lenOf(x) == nil {
		x, y, op = y, x, flip(op)
	}
	l := lenOf(x)
	n, isC := constInt(y)
	if l == nil || !isC {
		return
	}
	switch {
	case n == 0 && op == token.EQL, n == 0 && op == token.LEQ, n == 1 && op == token.LSS:
		return l, f.Val, true
	case n == 0 && op == token.NEQ, n == 0 && op == token.GTR, n == 1 && op == token.GEQ:
		return l, !f.Val, true
	}
	return
}

// strictCheck decides what the gate function does.
type strictCheck struct {
	p *Prog
	r *Result
}

// containsCall: v is the outcome of asking the missing parts about a part; returns the asked value.
func (c *strictCheck) containsCall(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.Call:
		if isDictMethod(x.Call.StaticCallee(), "Contain") && len(x.Call.Args) == 2 {
			return x.Call.Args[1]
		}
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && isDict(lk.X.Type()) {
			return lk.Index
		}
	}
	return nil
}

// gateImplies lifts a predicate through boolean helpers and through helpers that report an error.
func (c *strictCheck) gateImplies(base func(Fact) bool) *edgeImplies {
	var e *edgeImplies
	busy := map[*ssa.Function]bool{}
	e = c.p.implies(func(f Fact) bool {
		if base(f) {
			return true
		}
		v, isNil, known := nilFact(f)
		if !known || !isErrType(v.Type()) {
			return false
		}
		cl, _ := callResult(v)
		if cl == nil {
			return false
		}
		g := cl.Call.StaticCallee()
		if g == nil || !c.p.inRepo(g) || len(g.Blocks) == 0 || busy[g] {
			return false
		}
		busy[g] = true
		defer delete(busy, g)
		ei := errIndex(g.Signature)
		if ei < 0 {
			return false
		}
		for _, ret := range returnsOf(g) {
			for _, pr := range c.errPaths(ret, ei) {
				if pr.isNil == !isNil {
					continue
				}
				if !e.cutTo(g.Blocks[0], pr) {
					return false
				}
			}
		}
		return true
	})
	return e
}

type errPath struct {
	ret   *ssa.Return
	from  *ssa.BasicBlock // predecessor when the value is merged at the return block
	k     int
	isNil bool // false: an error (or unknown)
	known bool
}

// errPaths splits a return into the ways its error value comes about.
func (c *strictCheck) errPaths(ret *ssa.Return, ei int) []errPath {
	vs := retValues(ret)
	v := vs[ei]
	one := func(v ssa.Value) (isNil, known bool) {
		if isNilConst(v) {
			return true, true
		}
		if nonNilErr(v) {
			return false, true
		}
		return false, false
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == ret.Block() {
		var out []errPath
		for k, e := range ph.Edges {
			q := ph.Block().Preds[k]
			n, kn := one(e)
			for j, s := range q.Succs {
				if s == ph.Block() {
					out = append(out, errPath{ret, q, j, n, kn})
					if !kn {
						out = append(out, errPath{ret, q, j, true, kn})
					}
				}
			}
		}
		return out
	}
	n, kn := one(v)
	for _, f := range facts(ret.Block()) {
		if x, isNil, known := nilFact(f); known && x == v {
			n, kn = isNil, true
		}
	}
	if kn {
		return []errPath{{ret: ret, isNil: n, known: true}}
	}
	return []errPath{{ret: ret, isNil: true}, {ret: ret, isNil: false}}
}

// cutTo: every path to this way of returning crosses an edge on which the fact holds.
func (e *edgeImplies) cutTo(a *ssa.BasicBlock, pr errPath) bool {
	if pr.from == nil {
		if pr.ret.Block() == a {
			return false
		}
		// a returned call result: the outcome of that call decides
		return e.cut(a, pr.ret.Block())
	}
	if e.edge(pr.from, pr.k) {
		return true
	}
	return pr.from != a && e.cut(a, pr.from)
}

// retCut: like cutTo, but for the error result of a directly returned helper call the helper's own exits count.
func (c *strictCheck) retCut(e *edgeImplies, g *ssa.Function, pr errPath, ei int) bool {
	if e.cutTo(g.Blocks[0], pr) {
		return true
	}
	if pr.from != nil {
		return false
	}
	cl, _ := callResult(retValues(pr.ret)[ei])
	if cl == nil {
		return false
	}
	h := cl.Call.StaticCallee()
	if h == nil || !c.p.inRepo(h) || len(h.Blocks) == 0 || h == g {
		return false
	}
	hi := errIndex(h.Signature)
	for _, ret := range returnsOf(h) {
		for _, q := range c.errPaths(ret, hi) {
			if q.isNil == pr.isNil && !c.retCut(e, h, q, hi) {
				return false
			}
		}
	}
	return true
}

// fromField: v depends on the option (looking through parameters of helpers).
func (c *strictCheck) fromField(v ssa.Value, name string) bool {
	return c.fromFieldDepth(v, name, 0)
}

func (c *strictCheck) fromFieldDepth(v ssa.Value, name string, depth int) bool {
	return dependsOn(v, func(x ssa.Value) bool {
		if cfgField(x) == name {
			return true
		}
		pr, ok := x.(*ssa.Parameter)
		return ok && depth < 4 && !isCfgType(pr.Type()) && !isDict(pr.Type()) && c.p.paramIs(pr, func(a ssa.Value) bool { return c.fromFieldDepth(a, name, depth+1) })
	}, map[ssa.Value]bool{})
}

// requiredElem: v is (the lower-cased) element of the list of required parts.
func (c *strictCheck) requiredElem(v ssa.Value) bool {
	return c.fromField(v, "RequiredParts") && !dependsOn(v, func(x ssa.Value) bool {
		ia, ok := x.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		_, isC := constInt(ia.Index)
		_, isArr := ia.X.Type().Underlying().(*types.Pointer)
		return isC && !isArr
	}, map[ssa.Value]bool{})
}

func (c *strictCheck) gate(g *ssa.Function) {
	p, r := c.p, c.r
	fromField := c.fromField
	cfgNil := func(f Fact) bool {
		v, isNil, known := nilFact(f)
		return known && isNil && isCfgPtr(v.Type())
	}
	strictOff := c.gateImplies(func(f Fact) bool {
		if cfgNil(f) {
			return true
		}
		if cfgField(f.Cond) == "StrictParsing" && !f.Val {
			return true
		}
		if _, isParam := f.Cond.(*ssa.Parameter); isParam && !f.Val && p.paramIs(f.Cond.(*ssa.Parameter), func(v ssa.Value) bool { return fromField(v, "StrictParsing") }) {
			return true
		}
		v, empty, known := emptyFact(f)
		return known && empty && isDict(v.Type())
	})
	notEmpty := c.gateImplies(func(f Fact) bool {
		if v, empty, known := emptyFact(f); known && !empty && isDict(v.Type()) {
			return true
		}
		if f.Val && c.containsCall(f.Cond) != nil {
			return true
		}
		// slices.ContainsFunc(required, func(part) bool { return missing.Contain(part) })
		if cl, ok := f.Cond.(*ssa.Call); ok && f.Val && c.containsFunc(cl) {
			return true
		}
		// a list that only receives missing parts is not empty
		if v, empty, known := emptyFact(f); known && !empty && c.onlyMissing(v) {
			return true
		}
		return false
	})
	allRequired := c.gateImplies(func(f Fact) bool {
		if cfgNil(f) {
			return true
		}
		if v, empty, known := emptyFact(f); known && empty {
			if isDict(v.Type()) || fromField(v, "RequiredParts") {
				return true
			}
			if c.allMissing(v) {
				return true
			}
		}
		if cl, ok := f.Cond.(*ssa.Call); ok && !f.Val && c.containsFunc(cl) {
			return true
		}
		return c.loopDone(f)
	})
	ei := errIndex(g.Signature)
	if ei < 0 {
		// a flag instead of an error
		for _, q := range []struct {
			rule string
			e    *edgeImplies
			val  bool
			why  string
		}{
			{"strict-means-complete", strictOff, true, "with strict parsing nothing passes while a part is missing"},
			{"required-means-present", allRequired, true, "nothing passes before all required parts were found present"},
			{"complete-never-rejected", notEmpty, false, "nothing is rejected unless a part is missing"},
		} {
			ok := q.e.outcome(g, 0, q.val)
			r.add(ok, q.rule, fnKey(g), p.pos(g.Pos()), okOr(map[bool]string{false: "not on every path: " + q.why}[ok], q.why))
		}
		return
	}
	for _, ret := range returnsOf(g) {
		for _, pr := range c.errPaths(ret, ei) {
			at := p.instrPos(ret)
			if pr.isNil {
				ok := c.retCut(strictOff, g, pr, ei)
				r.add(ok, "strict-means-complete", fnKey(g)+": accepting exit", at, pick(ok, "only reached with strict parsing off or with no part missing", "reached with strict parsing on while parts are missing"))
				ok = c.retCut(allRequired, g, pr, ei)
				r.add(ok, "required-means-present", fnKey(g)+": accepting exit", at, pick(ok, "only reached after every required part was found present", "reached before every required part was found present"))
			} else {
				ok := c.retCut(notEmpty, g, pr, ei)
				r.add(ok, "complete-never-rejected", fnKey(g)+": rejecting exit", at, pick(ok, "only reached when a part is missing", "reached although no part is missing"))
			}
		}
	}
}

func pick(ok bool, a, b string) string {
	if ok {
		return a
	}
	return b
}

func isCfgPtr(t types.Type) bool { return isCfgType(t) }

// paramIs: at every call the argument for the parameter satisfies the predicate.
func (p *Prog) paramIs(pr *ssa.Parameter, pred func(ssa.Value) bool) bool {
	sites := p.callSites(pr.Parent())
	for _, s := range sites {
		if a := argFor(s, pr); a == nil || !pred(a) {
			return false
		}
	}
	return len(sites) > 0
}

// containsFunc: slices.ContainsFunc over the required parts whose test asks the missing parts.
func (c *strictCheck) containsFunc(cl *ssa.Call) bool {
	if !strings.HasPrefix(calleeName(cl.Common()), "slices.ContainsFunc") || len(cl.Call.Args) != 2 {
		return false
	}
	if !c.requiredElem(cl.Call.Args[0]) {
		return false
	}
	var fn *ssa.Function
	switch x := strip(cl.Call.Args[1]).(type) {
	case *ssa.MakeClosure:
		fn, _ = x.Fn.(*ssa.Function)
	case *ssa.Function:
		fn = x
	}
	if fn == nil || len(fn.Params) != 1 {
		return false
	}
	for _, ret := range returnsOf(fn) {
		a := c.containsCall(retValues(ret)[0])
		if a == nil || !c.lowered(a, func(v ssa.Value) bool { return v == ssa.Value(fn.Params[0]) }) {
			return false
		}
	}
	return true
}

// lowered: v is strings.ToLower of a value with the property (required parts are accepted in any case).
func (c *strictCheck) lowered(v ssa.Value, pred func(ssa.Value) bool) bool {
	cl, ok := v.(*ssa.Call)
	return ok && calleeName(cl.Common()) == "strings.ToLower" && dependsOn(cl.Call.Args[0], pred, map[ssa.Value]bool{})
}

// requiredLoop recognises the header of a loop over the required parts and the edge that leaves it at its end.
func (c *strictCheck) requiredLoop(h *ssa.BasicBlock) (exit int, body int, ok bool) {
	iff, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !isIf || !inLoop(h) {
		return
	}
	bo, isB := iff.Cond.(*ssa.BinOp)
	if !isB {
		return
	}
	x, y, op := bo.X, bo.Y, bo.Op
	if op == token.GTR {
		x, y, op = y, x, token.LSS
	}
	if op != token.LSS {
		return
	}
	cl, isC := y.(*ssa.Call)
	if !isC {
		return
	}
	b, isBi := cl.Call.Value.(*ssa.Builtin)
	if !isBi || b.Name() != "len" || !c.requiredElem(cl.Call.Args[0]) {
		return
	}
	// the counter starts at the first element and moves by one
	if !countsUp(x) {
		return
	}
	return 1, 0, true
}

// countsUp: v is a loop counter that takes every value from 0 (range loops count from -1 and add first).
func countsUp(v ssa.Value) bool {
	add := func(v ssa.Value) (*ssa.Phi, bool) {
		bo, ok := v.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD {
			return nil, false
		}
		n, isC := constInt(bo.Y)
		ph, isP := bo.X.(*ssa.Phi)
		return ph, isC && n == 1 && isP
	}
	check := func(ph *ssa.Phi, start int64, next ssa.Value) bool {
		for _, e := range ph.Edges {
			if n, ok := constInt(e); ok {
				if n != start {
					return false
				}
				continue
			}
			if next != nil && e == next {
				continue
			}
			if q, ok := add(e); ok && q == ph && next == nil {
				continue
			}
			return false
		}
		return true
	}
	if ph, ok := v.(*ssa.Phi); ok {
		return check(ph, 0, nil)
	}
	if ph, ok := add(v); ok {
		return check(ph, -1, v)
	}
	return false
}

// loopDone: the fact is the end of a loop over all required parts in which every part was asked for.
func (c *strictCheck) loopDone(f Fact) bool {
	bo, ok := f.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	h := bo.Block()
	exit, body, ok := c.requiredLoop(h)
	if !ok || f.Val != (exit == 0) {
		return false
	}
	if iff := h.Instrs[len(h.Instrs)-1].(*ssa.If); iff.Cond != ssa.Value(bo) {
		return false
	}
	// every way round the loop crosses "the part is not missing"
	e := c.gateImplies(func(f Fact) bool {
		a := c.containsCall(f.Cond)
		return a != nil && !f.Val && c.lowered(a, c.requiredElem)
	})
	return cutPaths(h.Succs[body], h, e.edge)
}

// lists that collect the missing ones among the required parts
func (c *strictCheck) collector(v ssa.Value) (*ssa.Phi, bool) {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return nil, false
	}
	if _, _, isLoop := c.requiredLoop(ph.Block()); !isLoop {
		return nil, false
	}
	return ph, true
}

func appendOf(v ssa.Value) (*ssa.Call, bool) {
	cl, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	b, ok := cl.Call.Value.(*ssa.Builtin)
	return cl, ok && b.Name() == "append"
}

// allMissing: if the list v is empty after the loop, no required part was missing.
func (c *strictCheck) allMissing(v ssa.Value) bool {
	ph, ok := c.collector(v)
	if !ok {
		return false
	}
	h := ph.Block()
	_, body, _ := c.requiredLoop(h)
	e := c.gateImplies(func(f Fact) bool {
		a := c.containsCall(f.Cond)
		return a != nil && !f.Val && c.lowered(a, c.requiredElem)
	})
	// ways round the loop without an addition must have found the part present
	return cutPaths(h.Succs[body], h, func(b *ssa.BasicBlock, k int) bool {
		if e.edge(b, k) {
			return true
		}
		for _, i := range b.Instrs {
			if cl, isV := i.(ssa.Value); isV {
				if _, isApp := appendOf(cl); isApp && types.Identical(cl.Type(), ph.Type()) {
					return true
				}
			}
		}
		return false
	})
}

// onlyMissing: every addition to the list happens when a part is missing.
func (c *strictCheck) onlyMissing(v ssa.Value) bool {
	ph, ok := c.collector(v)
	if !ok {
		return false
	}
	e := c.gateImplies(func(f Fact) bool { return f.Val && c.containsCall(f.Cond) != nil })
	seen := map[ssa.Value]bool{}
	var ok1 func(v ssa.Value) bool
	ok1 = func(v ssa.Value) bool {
		if seen[v] || isNilConst(v) {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, y := range x.Edges {
				if !ok1(y) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if _, isApp := appendOf(x); isApp {
				return e.cut(x.Parent().Blocks[0], x.Block()) && ok1(x.Call.Args[0])
			}
		}
		return false
	}
	return ok1(ph)
}

// ---- the missing parts handed to the gate

// dictTrace finds where a dictionary was made and what was added and removed.
type dictTrace struct {
	initial map[string]bool
	adds    []dictOp
	removes []dictOp
	unknown string
}

type dictOp struct {
	at   ssa.Instruction
	key  ssa.Value
	keys []ssa.Value
}

func (c *strictCheck) trace(v ssa.Value, t *dictTrace, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	c.ops(v, t)
	switch x := v.(type) {
	case *ssa.MakeMap:
	case *ssa.Const:
	case *ssa.ChangeType:
		c.trace(x.X, t, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			c.trace(e, t, seen)
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, st := range storesInto(al, 0) {
				c.trace(st.Val, t, seen)
			}
			return
		}
		t.unknown = "the missing parts come from " + x.String()
	case *ssa.Parameter:
		for _, s := range c.p.callSites(x.Parent()) {
			if a := argFor(s, x); a != nil {
				c.trace(a, t, seen)
			} else {
				t.unknown = "an argument is not known"
			}
		}
	case *ssa.Extract:
		cl, idx := callResult(x)
		if cl == nil || cl.Call.StaticCallee() == nil || !c.p.inRepo(cl.Call.StaticCallee()) {
			t.unknown = "the missing parts come from " + x.String()
			return
		}
		for _, ret := range returnsOf(cl.Call.StaticCallee()) {
			c.trace(retValues(ret)[idx], t, seen)
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !c.p.inRepo(g) {
			t.unknown = "the missing parts come from " + x.String()
			return
		}
		if g.Name() == "NewDict" && isDict(g.Signature.Results().At(0).Type()) {
			if len(x.Call.Args) == 1 && !isNilConst(x.Call.Args[0]) {
				es, ok := c.p.constElems(x.Call.Args[0])
				if !ok {
					t.unknown = "the initial parts are not constant"
				}
				for _, e := range es {
					if s, isC := constString(e); isC {
						t.initial[s] = true
					}
				}
			}
			return
		}
		for _, ret := range returnsOf(g) {
			c.trace(retValues(ret)[0], t, seen)
		}
	default:
		t.unknown = "the missing parts come from " + v.String()
	}
}

// ops collects additions to and removals from the dictionary value.
func (c *strictCheck) ops(v ssa.Value, t *dictTrace) {
	for _, u := range refs(v) {
		switch x := u.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				t.adds = append(t.adds, dictOp{at: x, key: x.Key})
			}
		case *ssa.ChangeType:
			c.ops(x, t)
		case ssa.CallInstruction:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if b.Name() == "delete" && cc.Args[0] == v {
					t.removes = append(t.removes, dictOp{at: x, key: cc.Args[1]})
				}
				continue
			}
			g := cc.StaticCallee()
			add, rem := isDictMethod(g, "Add"), isDictMethod(g, "Remove")
			if (add || rem) && len(cc.Args) == 2 && cc.Args[0] == v {
				op := dictOp{at: x}
				es, ok := c.p.constElems(cc.Args[1])
				if !ok {
					es = variadic(cc.Args[1])
				}
				if len(es) == 0 {
					t.unknown = "parts are added or removed that are not known"
				}
				for _, e := range es {
					o := op
					o.key = e
					if add {
						t.adds = append(t.adds, o)
					} else {
						t.removes = append(t.removes, o)
					}
				}
				continue
			}
			if g != nil && c.p.inRepo(g) && !isDictMethod(g, "Contain") && !isDictMethod(g, "Items") && !isDictMethod(g, "String") {
				// passed on: what the callee does to its parameter
				for k, a := range cc.Args {
					if a == v && k < len(g.Params) {
						c.ops(g.Params[k], t)
					}
				}
			}
		}
	}
}

// variadic lists the values of a freshly built argument list.
func variadic(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, st := range storesInto(al, 0) {
		out = append(out, st.Val)
	}
	return out
}

// strValues lists the constants a key can be, over all rounds of the loop it comes from.
func (c *strictCheck) strValues(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	if !c.p.layoutConsts(v, out, map[ssa.Value]bool{}, 0) {
		return nil
	}
	return out
}

// presence: the guard of an operation says whether the part is among the parts read from the text.
func (c *strictCheck) presence(f Fact, key ssa.Value) (present, known bool) {
	if cl, ok := f.Cond.(*ssa.Call); ok {
		g := cl.Call.StaticCallee()
		if g == nil || !c.p.inRepo(g) || len(g.Blocks) == 0 {
			return
		}
		for k, a := range cl.Call.Args {
			if (a == key || sameLoad(a, key)) && k < len(g.Params) {
				for _, want := range []bool{true, false} {
					e := c.p.implies(func(h Fact) bool {
						pres, kn := c.presence(h, g.Params[k])
						return kn && pres == want
					})
					if e.outcome(g, 0, f.Val) {
						return want, true
					}
				}
			}
		}
		return
	}
	ex, ok := f.Cond.(*ssa.Extract)
	if !ok || ex.Index != 1 {
		return
	}
	lk, ok := ex.Tuple.(*ssa.Lookup)
	if !ok || !isComponentMap(lk.X) {
		return
	}
	if lk.Index != key && !sameLoad(lk.Index, key) {
		return
	}
	return f.Val, true
}

// missing decides whether the dictionary given to the gate holds exactly the parts that are missing.
func (c *strictCheck) missing(site ssa.CallInstruction, d ssa.Value) {
	p, r := c.p, c.r
	t := &dictTrace{initial: map[string]bool{}}
	c.trace(d, t, map[ssa.Value]bool{})
	key := siteKey(site, "missing parts")
	at := p.instrPos(site)
	if t.unknown != "" {
		r.bad("missing-parts-recorded", key, at, t.unknown)
		return
	}
	added := map[string]bool{}
	for _, a := range t.adds {
		ks := c.strValues(a.key)
		if ks == nil {
			r.bad("missing-parts-recorded", key, p.instrPos(a.at), "a part that is not a constant is recorded as missing")
			return
		}
		okGuard, extra := false, false
		for _, f := range deepFacts(facts(a.at.Block())) {
			if pres, known := c.presence(f, a.key); known {
				if !pres {
					okGuard = true
				}
				continue
			}
			if !loopFact(f) {
				extra = true
			}
		}
		if !okGuard {
			r.bad("complete-never-rejected", key, p.instrPos(a.at), "a part is recorded as missing without looking whether it was read from the text")
			return
		}
		// in a loop over the parts: every round records the part or has found it in the text
		if kb := keyBlock(a); kb != a.at.Block() {
			if h := loopHeader(kb); h != nil && h != kb && loopHeader(a.at.Block()) == h {
				found := c.p.implies(func(h Fact) bool {
					pres, known := c.presence(h, a.key)
					return known && pres
				})
				extra = !cutPaths(kb, h, func(b *ssa.BasicBlock, k int) bool {
					return b.Succs[k] == a.at.Block() || found.edge(b, k)
				})
			}
		}
		if extra {
			continue // recorded only under a further condition: does not count as covering its part
		}
		if prob := leavesEarly(keyBlock(a)); prob != "" {
			r.bad("missing-parts-recorded", key, p.instrPos(a.at), prob)
			return
		}
		for k := range ks {
			added[k] = true
		}
	}
	for k := range t.initial {
		added[k] = true
	}
	var lack []string
	for _, k := range dateParts {
		if !added[k] {
			lack = append(lack, k)
		}
	}
	if len(lack) > 0 {
		r.bad("missing-parts-recorded", key, at, "never recorded as missing: "+strings.Join(lack, ", "))
		return
	}
	for k := range added {
		if k != "day" && k != "month" && k != "year" {
			r.bad("complete-never-rejected", key, at, fmt.Sprintf("%q is recorded as a missing part", k))
			return
		}
	}
	// removals
	removed := map[string]bool{}
	for _, a := range t.removes {
		why, ks := c.removal(a)
		if why != "" {
			r.bad("missing-parts-recorded", key, p.instrPos(a.at), why)
			return
		}
		for k := range ks {
			removed[k] = true
		}
	}
	for k := range t.initial {
		if !removed[k] {
			r.bad("complete-never-rejected", key, at, fmt.Sprintf("%q is recorded as missing and never removed", k))
			return
		}
	}
	r.ok("missing-parts-recorded", key, at, "day, month and year are recorded as missing exactly when they were not read from the text")
}

// keyBlock is where the part in question is taken from its list (the operation's own block for a constant).
func keyBlock(a dictOp) *ssa.BasicBlock {
	if i, ok := a.key.(ssa.Instruction); ok && i.Block() != nil && i.Parent() == a.at.Parent() {
		return i.Block()
	}
	return a.at.Block()
}

// loopFact: a condition that only keeps a loop running, or a nil test.
func loopFact(f Fact) bool {
	switch x := f.Cond.(type) {
	case *ssa.BinOp:
		if _, _, known := nilFact(f); known {
			return true
		}
		if x.Op == token.LSS || x.Op == token.GTR || x.Op == token.LEQ || x.Op == token.GEQ {
			for _, o := range []ssa.Value{x.X, x.Y} {
				if cl, ok := o.(*ssa.Call); ok {
					if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						return true
					}
				}
				if n, ok := constInt(o); ok && n > 0 {
					return true // fixed-size list
				}
			}
		}
	case *ssa.Extract:
		_, isNext := x.Tuple.(*ssa.Next)
		return isNext && x.Index == 0
	}
	return false
}

// leavesEarly: the innermost loop around the block is left before its end.
func leavesEarly(b *ssa.BasicBlock) string {
	h := loopHeader(b)
	if h == nil {
		return ""
	}
	for _, x := range b.Parent().Blocks {
		if x == h || !inSameLoop(h, x) {
			continue
		}
		for _, s := range x.Succs {
			if !inSameLoop(h, s) && s != h {
				return "the loop over the parts can end before all parts were considered"
			}
		}
	}
	return ""
}

// removal: the part taken off the missing parts was read from the text.
func (c *strictCheck) removal(a dictOp) (string, map[string]bool) {
	fs := deepFacts(facts(a.at.Block()))
	for _, f := range fs {
		if pres, known := c.presence(f, a.key); known && pres {
			if ks := c.strValues(a.key); ks != nil {
				return leavesEarly(keyBlock(a)), ks
			}
		}
		if !f.Val {
			continue
		}
		cl, ok := f.Cond.(*ssa.Call)
		if !ok || calleeName(cl.Common()) != "strings.Contains" {
			continue
		}
		// strings.Contains(format, letter): both come from the same entry of a constant table
		le, ok1 := cl.Call.Args[1].(*ssa.Extract)
		pe, ok2 := a.key.(*ssa.Extract)
		if !ok1 || !ok2 || le.Tuple != pe.Tuple || le.Index != 1 || pe.Index != 2 {
			// or a constant letter and a constant part
			l, okL := constString(cl.Call.Args[1])
			k, okK := constString(a.key)
			if okL && okK {
				if prob := c.letter(cl, l, k); prob != "" {
					return prob, nil
				}
				return "", map[string]bool{k: true}
			}
			continue
		}
		nx, ok := le.Tuple.(*ssa.Next)
		if !ok {
			continue
		}
		rg, ok := nx.Iter.(*ssa.Range)
		if !ok {
			continue
		}
		tab := c.constTable(rg.X)
		if tab == nil {
			return "the table of format letters is not constant", nil
		}
		ks := map[string]bool{}
		for l, k := range tab {
			if prob := c.letter(cl, l, k); prob != "" {
				return prob, nil
			}
			ks[k] = true
		}
		return leavesEarly(keyBlock(a)), ks
	}
	// the part is looked up under a letter of the format
	if lk := lookupOf(a.key); lk != nil && pieceOfText(lk.Index) {
		if tab := c.constTable(lk.X); tab != nil {
			ks := map[string]bool{}
			for l, k := range tab {
				if prob := c.letterIn(a.at.Parent(), l, k); prob != "" {
					return prob, nil
				}
				ks[k] = true
			}
			return leavesEarly(keyBlock(a)), ks
		}
	}
	// a loop over the parts that were read
	if ex, ok := a.key.(*ssa.Extract); ok && ex.Index == 1 {
		if nx, ok := ex.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok && isComponentMap(rg.X) {
				return "", map[string]bool{"day": true, "month": true, "year": true}
			}
		}
	}
	return "a part is taken off the missing parts without looking whether it was read from the text", nil
}

// constTable folds a constant map from letters to parts.
func (c *strictCheck) constTable(v ssa.Value) map[string]string {
	g := rootGlobal(v)
	if g == nil {
		if mm, ok := v.(*ssa.MakeMap); ok {
			return tableOf(mm)
		}
		return nil
	}
	st := c.p.globalStores()[g]
	if len(st) != 1 {
		return nil
	}
	mm, ok := st[0].Val.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	return tableOf(mm)
}

func tableOf(mm *ssa.MakeMap) map[string]string {
	out := map[string]string{}
	for _, u := range refs(mm) {
		if mu, ok := u.(*ssa.MapUpdate); ok {
			k, ok1 := constString(mu.Key)
			v, ok2 := constString(mu.Value)
			if !ok1 || !ok2 {
				return nil
			}
			out[k] = v
		}
	}
	return out
}

// letter: the format letter stands for the part, judging by the layout directive it is replaced with.
func (c *strictCheck) letter(at *ssa.Call, l, part string) string {
	return c.letterIn(at.Parent(), l, part)
}

// lookupOf: the value was found in a map.
func lookupOf(v ssa.Value) *ssa.Lookup {
	if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
		v = ex.Tuple
	}
	lk, _ := v.(*ssa.Lookup)
	return lk
}

// pieceOfText: the value is a letter obtained by walking over a text.
func pieceOfText(v ssa.Value) bool {
	return dependsOn(v, func(x ssa.Value) bool {
		switch x := x.(type) {
		case *ssa.Call:
			n := calleeName(x.Common())
			return n == "strings.Split" || n == "strings.SplitSeq"
		case *ssa.Next:
			return x.IsString
		}
		return false
	}, map[ssa.Value]bool{})
}

func (c *strictCheck) letterIn(at *ssa.Function, l, part string) string {
	for _, f := range c.p.reachableRepo() {
		if pkgOf(f) != pkgOf(at) {
			continue
		}
		prob := ""
		eachInstr(f, func(i ssa.Instruction) {
			cl, ok := i.(*ssa.Call)
			if !ok || calleeName(cl.Common()) != "strings.ReplaceAll" {
				return
			}
			from, ok1 := constString(cl.Call.Args[1])
			to, ok2 := constString(cl.Call.Args[2])
			if !ok1 || !ok2 || from != l {
				return
			}
			d, m, y := layoutHas(to)
			if (part == "day") != d || (part == "month") != m || (part == "year") != y {
				prob = fmt.Sprintf("format letter %q is counted as the %s but is read as layout directive %q", l, part, to)
			}
		})
		if prob != "" {
			return prob
		}
	}
	return ""
}

// completeTime: the text parsed holds day, month and year.
func (c *strictCheck) completeTime(cc *ssa.CallCommon) bool {
	if len(cc.Args) < 2 {
		return false
	}
	ls := map[string]bool{}
	if c.p.layoutConsts(cc.Args[0], ls, map[ssa.Value]bool{}, 0) && len(ls) > 0 {
		for l := range ls {
			if d, m, y := layoutHas(l); !d || !m || !y {
				return false
			}
		}
		return true
	}
	// the text is one of the candidates of a generator that only makes complete ones
	v := cc.Args[1]
	ok := false
	dependsOn(v, func(x ssa.Value) bool {
		cl, idx := callResult(x)
		if cl == nil || ok {
			return false
		}
		g := cl.Call.StaticCallee()
		if g == nil || !c.p.inRepo(g) || len(g.Blocks) == 0 {
			return false
		}
		if _, isList := x.Type().Underlying().(*types.Slice); isList && c.generator(g, idx) {
			ok = true
		}
		return false
	}, map[ssa.Value]bool{})
	return ok
}

func (c *strictCheck) generator(g *ssa.Function, idx int) bool {
	n := 0
	for _, ret := range returnsOf(g) {
		vs := retValues(ret)
		if idx >= len(vs) {
			return false
		}
		seen := map[ssa.Value]bool{}
		var good func(v ssa.Value) bool
		good = func(v ssa.Value) bool {
			if seen[v] || isNilConst(v) {
				return true
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					if !good(e) {
						return false
					}
				}
				return true
			case *ssa.MakeSlice:
				k, isC := constInt(x.Len)
				return isC && k == 0
			case *ssa.Slice:
				return good(x.X)
			case *ssa.Alloc:
				arr, isArr := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				return isArr && (arr.Len() == 0 || len(storesInto(x, 0)) == 0)
			case *ssa.Call:
				if _, isApp := appendOf(x); !isApp {
					return false
				}
				n++
				for _, want := range [][]string{{"d"}, {"m"}, {"Y", "y"}} {
					e := c.p.implies(func(f Fact) bool {
						ex, ok := f.Cond.(*ssa.Extract)
						if !ok || ex.Index != 1 || !f.Val {
							return false
						}
						lk, ok := ex.Tuple.(*ssa.Lookup)
						if !ok {
							return false
						}
						s, isC := constString(lk.Index)
						for _, w := range want {
							if isC && s == w {
								return true
							}
						}
						return false
					})
					if !e.cut(g.Blocks[0], x.Block()) {
						return false
					}
				}
				return good(x.Call.Args[0])
			}
			return false
		}
		if !good(vs[idx]) {
			return false
		}
	}
	return n > 0
}

func checkC10(p *Prog, r *Result) {
	r.Rule = "The function that checks for missing parts only accepts when strict parsing is off or nothing is missing, and after all required parts were found present, and only rejects when something is missing; the missing parts handed to it are exactly day, month and year as far as they were not read from the text; every date that leaves a component-based parser was built after that check had passed for it, or from a text in which all three parts are written; parts read from the text never come from the reference date."
	r.Explanation = "Path cuts on the checking function, dataflow of the dictionary of missing parts at each check, path-sensitive typestate (checked / not checked) of every date leaving the parsers for absolute, separator-free, Hijri and Jalali dates, taint of the recorded parts by the clock."
	r.Assumptions = append(r.Assumptions, "strutil.Dict behaves as a set", "a date read through a format of the caller is governed by that format")
	c := &strictCheck{p, r}
	gates := p.strictGates()
	nGate := 0
	for _, f := range p.reachableRepo() {
		if !gates[f] {
			continue
		}
		nGate++
		c.gate(f)
		for _, s := range p.callSites(f) {
			for k, pr := range f.Params {
				if k >= len(s.Common().Args) {
					continue
				}
				if isDict(pr.Type()) {
					c.missing(s, s.Common().Args[k])
				}
				if isCfgType(pr.Type()) {
					bad := isNilConst(s.Common().Args[k]) || isFreshEmpty(s.Common().Args[k])
					r.add(!bad, "options-of-the-call", siteKey(s, "check"), p.instrPos(s), pick(!bad, "checked against the options of the call", "not checked against the options of the call"))
				}
			}
		}
	}
	if nGate == 0 {
		r.bad("strict-means-complete", "check for missing parts", "-", "no function checks for missing parts")
	}
	// every date leaving the parsers
	d := p.newDateFlow()
	d.gate = gates
	d.complete = c.completeTime
	n := 0
	for _, f := range p.reachableRepo() {
		in := false
		for _, q := range componentParsers {
			if pkgOf(f) == repoPkg(q) {
				in = true
			}
		}
		di := resultIndex(f.Signature, modPath+"/date", "Date")
		if !in || di < 0 {
			continue
		}
		fromRoot := false
		for _, s := range p.callSites(f) {
			if pkgOf(s.Parent()) == modPath {
				fromRoot = true
			}
		}
		if !fromRoot {
			continue
		}
		n++
		args := make([]dabs, len(f.Params))
		for k, pr := range f.Params {
			args[k] = top(pr.Type())
		}
		bad := map[string]bool{}
		for _, o := range d.run(f, args, false) {
			if o.ret == nil || di >= len(o.res) {
				continue
			}
			if a := o.res[di]; a.zero() != zZ && !a.g {
				at := p.instrPos(o.ret)
				if a.org != nil {
					at = p.instrPos(a.org)
				}
				if bad[at] {
					continue
				}
				bad[at] = true
				r.bad("date-checked", fnKey(f)+": date built in "+orgFn(a.org), p.instrPos(o.ret), "a date built at "+at+" is returned although the check for missing parts was not passed and its text need not hold day, month and year")
			}
		}
		if len(bad) == 0 {
			r.ok("date-checked", fnKey(f), p.pos(f.Pos()), "every date returned passed the check for missing parts, or all its parts are written in the text")
		}
	}
	if d.problem != "" {
		r.bad("analysis-complete", "paths", "-", d.problem)
	}
	// parts recorded as read from the text
	t := c.clockTaint()
	m := 0
	for _, f := range p.reachableRepo() {
		eachInstr(f, func(i ssa.Instruction) {
			mu, ok := i.(*ssa.MapUpdate)
			if !ok || !isComponentMap(mu.Map) {
				return
			}
			m++
			why := t.of(mu.Value)
			if _, isC := mu.Value.(*ssa.Const); isC && why == "" {
				why = "a constant"
			}
			r.add(why == "", "parts-from-text", siteKey(i, "part recorded"), p.instrPos(i), okOr(map[bool]string{true: "a part recorded as read from the text is " + why}[why != ""], "taken from the text"))
		})
	}
	r.floor("date-checked", 3)
	r.floor("strict-means-complete", 1)
	r.floor("required-means-present", 1)
	r.floor("complete-never-rejected", 1)
	r.floor("missing-parts-recorded", 1)
	r.floor("parts-from-text", 1)
	r.Analysed["parsers"] = n
	r.Analysed["checking functions"] = nGate
	r.Analysed["functions followed"] = len(d.fns)
	r.Analysed["path states"] = d.paths
	r.Analysed["recorded parts"] = m
}

func orgFn(i ssa.Instruction) string {
	if i == nil {
		return "an unknown place"
	}
	return fnKey(i.Parent())
}

// clockTaint follows the reference time and the clock.
func (c *strictCheck) clockTaint() *taintFlow {
	t := &taintFlow{p: c.p, fns: c.p.reachableRepo()}
	t.seed = func(i ssa.Instruction) string {
		v, isV := i.(ssa.Value)
		if !isV {
			return ""
		}
		switch cfgField(v) {
		case "CurrentTime":
			return "derived from the reference time"
		}
		if _, n := loadedField(v); n == "Now" {
			return "derived from the reference time"
		}
		if cl, ok := v.(*ssa.Call); ok && calleeName(cl.Common()) == "time.Now" {
			return "derived from the clock"
		}
		return ""
	}
	t.run()
	return t
}
