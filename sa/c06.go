package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C06"] = checkC06 }

// taintFlow is an interprocedural forward taint analysis. Memory is abstracted by structure field,
// package variable or local variable; edges for which prune holds are ignored, and so is a store that
// is certainly overwritten before it can be read on the remaining paths.
type taintFlow struct {
	p     *Prog
	fns   []*ssa.Function
	in    map[*ssa.Function]bool
	prune func(b *ssa.BasicBlock, k int) bool
	seed  func(i ssa.Instruction) string
	// call decides the result of an external call: "" handled=false means the union of the arguments
	clean func(c *ssa.CallCommon, arg int) bool // the argument's taint does not reach the result

	live   map[*ssa.Function]map[*ssa.BasicBlock]bool
	val    map[ssa.Value]string
	cell   map[any]string
	ret    map[*ssa.Function][]string
	change bool
	memo   map[*ssa.Function]map[*ssa.BasicBlock][]bool
}

type allocField struct {
	a ssa.Value
	f int
}

func (t *taintFlow) set(v ssa.Value, why string) {
	if why == "" || t.val[v] != "" {
		return
	}
	t.val[v] = why
	t.change = true
}

func (t *taintFlow) setCell(k any, why string) {
	if why == "" || k == nil || t.cell[k] != "" {
		return
	}
	t.cell[k] = why
	t.change = true
}

// cells an address denotes.
func addrCell(addr ssa.Value) any {
	switch x := addr.(type) {
	case *ssa.Alloc:
		return x
	case *ssa.Global:
		return x
	case *ssa.FreeVar:
		// the captured variable itself
		return x
	case *ssa.FieldAddr:
		if al, ok := x.X.(*ssa.Alloc); ok && !escapesAlloc(al) {
			return allocField{al, x.Field}
		}
		return fieldVar(x)
	case *ssa.IndexAddr:
		return sliceRoot(x.X)
	case *ssa.Phi:
		return x
	}
	return addr
}

// escapesAlloc: the variable's address is used other than by direct loads, stores and field accesses.
func escapesAlloc(al *ssa.Alloc) bool {
	for _, r := range refs(al) {
		switch x := r.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == ssa.Value(al) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func sliceRoot(v ssa.Value) any {
	for n := 0; n < 10; n++ {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return addrCell(x.X)
			}
			return v
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
	return v
}

// liveOf caches the reachable blocks of a function under pruning.
func (t *taintFlow) liveOf(f *ssa.Function) map[*ssa.BasicBlock]bool {
	if l := t.live[f]; l != nil {
		return l
	}
	l := liveBlocks(f, t.prune)
	t.live[f] = l
	return l
}

// deadStore: on every remaining path the stored location is overwritten before anything can read it.
func (t *taintFlow) deadStore(st *ssa.Store) bool {
	switch st.Addr.(type) {
	case *ssa.FieldAddr, *ssa.Alloc:
	default:
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for k := from; k < len(b.Instrs); k++ {
			switch x := b.Instrs[k].(type) {
			case *ssa.Store:
				if x != st && sameAddr(x.Addr, st.Addr) {
					return true
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if sameAddr(x.X, st.Addr) || mayAlias(x.X, st.Addr) {
						return false
					}
				}
			case *ssa.Return, *ssa.Panic:
				_, local := st.Addr.(*ssa.Alloc)
				return local && !escapesAlloc(st.Addr.(*ssa.Alloc))
			case ssa.CallInstruction:
				if t.mayRead(x, st.Addr) {
					return false
				}
			}
		}
		for k, s := range b.Succs {
			if t.prune != nil && t.prune(b, k) {
				continue
			}
			if seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	return walk(st.Block(), instrIndex(st)+1)
}

func mayAlias(a, b ssa.Value) bool {
	// a part of a whole that was stored
	for v := a; ; {
		if v == b {
			return true
		}
		if x, ok := v.(*ssa.FieldAddr); ok {
			v = x.X
		} else if x, ok := v.(*ssa.IndexAddr); ok {
			v = x.X
		} else {
			break
		}
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return fieldVar(fa) == fieldVar(fb)
	}
	if ok2 {
		// a load of a whole structure containing the field
		if n := fb.X.Type().Underlying().(*types.Pointer).Elem(); types.Identical(n, a.Type().Underlying().(*types.Pointer).Elem()) {
			return true
		}
	}
	return false
}

// mayRead: the call may read the location (it is passed the structure, or calls repository code).
func (t *taintFlow) mayRead(ci ssa.CallInstruction, addr ssa.Value) bool {
	c := ci.Common()
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return false
	}
	var fv *types.Var
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		fv = fieldVar(fa)
	} else {
		for _, a := range c.Args {
			if a == addr {
				return true
			}
		}
		if al, ok := addr.(*ssa.Alloc); ok {
			return escapesAlloc(al)
		}
		return true
	}
	for _, g := range t.p.callees(ci) {
		if !t.in[g] {
			continue // the standard library cannot read repository structures
		}
		if t.readsField(g, fv, map[*ssa.Function]bool{}) {
			return true
		}
	}
	return false
}

func (t *taintFlow) readsField(f *ssa.Function, fv *types.Var, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	hit := false
	eachInstr(f, func(i ssa.Instruction) {
		if hit {
			return
		}
		switch x := i.(type) {
		case *ssa.FieldAddr:
			if fieldVar(x) == fv {
				hit = true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if s, ok := x.Type().Underlying().(*types.Struct); ok {
					for k := 0; k < s.NumFields(); k++ {
						if s.Field(k) == fv {
							hit = true
						}
					}
				}
			}
		case ssa.CallInstruction:
			for _, g := range t.p.callees(x) {
				if t.in[g] && t.readsField(g, fv, seen) {
					hit = true
				}
			}
		}
	})
	return hit
}

func (t *taintFlow) run() {
	t.live = map[*ssa.Function]map[*ssa.BasicBlock]bool{}
	t.val = map[ssa.Value]string{}
	t.cell = map[any]string{}
	t.ret = map[*ssa.Function][]string{}
	t.in = map[*ssa.Function]bool{}
	for _, f := range t.fns {
		t.in[f] = true
	}
	for round := 0; round < 60; round++ {
		t.change = false
		for _, f := range t.fns {
			live := t.liveOf(f)
			for _, b := range f.Blocks {
				if !live[b] {
					continue
				}
				for _, i := range b.Instrs {
					t.step(i)
				}
			}
		}
		if !t.change {
			return
		}
	}
}

func (t *taintFlow) step(i ssa.Instruction) {
	if v, ok := i.(ssa.Value); ok {
		if s := t.seed(i); s != "" {
			t.set(v, s)
		}
	}
	switch x := i.(type) {
	case *ssa.Phi:
		for k, e := range x.Edges {
			q := x.Block().Preds[k]
			if !t.liveOf(x.Parent())[q] {
				continue
			}
			if t.prune != nil {
				skip := false
				for j, s := range q.Succs {
					if s == x.Block() && t.prune(q, j) {
						skip = true
					}
				}
				if skip {
					continue
				}
			}
			t.set(x, t.of(e))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			t.set(x, t.loadOf(x))
			return
		}
		t.set(x, t.of(x.X))
	case *ssa.Store:
		w := t.of(x.Val)
		if w == "" {
			return
		}
		if t.deadStore(x) {
			return
		}
		t.storeTo(x.Addr, w, x.Val.Type())
	case *ssa.MapUpdate:
		t.setCell(sliceRoot(x.Map), t.of(x.Value))
		t.setCell(sliceRoot(x.Map), t.of(x.Key))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for k, b := range x.Bindings {
			t.set(fn.FreeVars[k], t.of(b))
			if c := t.cell[addrCell(b)]; c != "" {
				t.setCell(fn.FreeVars[k], c)
			}
			if c := t.cell[fn.FreeVars[k]]; c != "" {
				t.setCell(addrCell(b), c)
			}
		}
	case *ssa.Return:
		f := x.Parent()
		for len(t.ret[f]) < len(x.Results) {
			t.ret[f] = append(t.ret[f], "")
		}
		for k, v := range x.Results {
			if w := t.of(v); w != "" && t.ret[f][k] == "" {
				t.ret[f][k] = w
				t.change = true
			}
		}
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.DebugRef:
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			for _, g := range t.p.callees(c) {
				if t.in[g] && x.Index < len(t.ret[g]) {
					t.set(x, t.ret[g][x.Index])
				}
			}
			if t.val[c] != "" {
				t.set(x, t.val[c])
			}
			return
		}
		t.set(x, t.of(x.Tuple))
	case *ssa.Lookup:
		t.set(x, t.of(x.X))
		t.set(x, t.cell[sliceRoot(x.X)])
		t.set(x, t.of(x.Index))
	case *ssa.Index:
		t.set(x, t.of(x.X))
		t.set(x, t.of(x.Index))
	case *ssa.Range:
		t.set(x, t.of(x.X))
		t.set(x, t.cell[sliceRoot(x.X)])
	case ssa.CallInstruction:
		t.call(x)
	default:
		v, ok := i.(ssa.Value)
		if !ok {
			return
		}
		for _, o := range i.Operands(nil) {
			if *o != nil {
				t.set(v, t.of(*o))
			}
		}
	}
}

func (t *taintFlow) of(v ssa.Value) string {
	if w := t.val[v]; w != "" {
		return w
	}
	return ""
}

func (t *taintFlow) loadOf(x *ssa.UnOp) string {
	if w := t.cell[addrCell(x.X)]; w != "" {
		return w
	}
	if w := t.val[x.X]; w != "" {
		if _, isG := x.X.(*ssa.Global); !isG {
			return w
		}
	}
	if ia, ok := x.X.(*ssa.IndexAddr); ok {
		if w := t.val[ia.X]; w != "" {
			return w
		}
		if w := t.of(ia.Index); w != "" {
			return w
		}
	}
	if fa, ok := x.X.(*ssa.FieldAddr); ok {
		// an element or part of a tainted structure
		if al, ok := fa.X.(*ssa.Alloc); ok {
			if w := t.cell[al]; w != "" {
				return w
			}
		}
		if ia, ok := fa.X.(*ssa.IndexAddr); ok {
			if w := t.cell[addrCell(ia)]; w != "" {
				return w
			}
			if w := t.val[ia.X]; w != "" {
				return w
			}
		}
	}
	// a whole structure: any of its fields
	if s, ok := x.Type().Underlying().(*types.Struct); ok {
		if al, ok := x.X.(*ssa.Alloc); ok && !escapesAlloc(al) {
			for k := 0; k < s.NumFields(); k++ {
				if w := t.cell[allocField{al, k}]; w != "" {
					return w
				}
			}
			return ""
		}
		if isRepoStruct(x.Type()) {
			for k := 0; k < s.NumFields(); k++ {
				if w := t.cell[s.Field(k)]; w != "" {
					return w
				}
			}
		}
	}
	return ""
}

func isRepoStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path())
}

func (t *taintFlow) storeTo(addr ssa.Value, w string, vt types.Type) {
	t.setCell(addrCell(addr), w)
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		if ia, ok := fa.X.(*ssa.IndexAddr); ok {
			t.setCell(addrCell(ia), w)
		}
	}
}

func (t *taintFlow) call(ci ssa.CallInstruction) {
	c := ci.Common()
	res := ci.Value()
	if _, ok := c.Value.(*ssa.Builtin); ok {
		if b := c.Value.(*ssa.Builtin).Name(); b == "copy" && len(c.Args) == 2 {
			t.setCell(sliceRoot(c.Args[0]), t.argTaint(c.Args[1]))
			return
		}
		if res != nil {
			for _, a := range c.Args {
				t.set(res, t.argTaint(a))
			}
		}
		return
	}
	ext := false
	bound := false
	for _, g := range t.p.callees(ci) {
		if !t.in[g] {
			ext = true
			continue
		}
		bound = true
		prms := g.Params
		if c.IsInvoke() && len(prms) > 0 {
			t.set(prms[0], t.of(c.Value))
			prms = prms[1:]
		}
		for k, pr := range prms {
			if k < len(c.Args) {
				t.set(pr, t.argTaint(c.Args[k]))
			}
		}
		if res != nil && len(t.ret[g]) == 1 {
			t.set(res, t.ret[g][0])
		}
	}
	if !ext && bound {
		return
	}
	if res == nil {
		return
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	for k, a := range args {
		if t.clean != nil && t.clean(c, k) {
			continue
		}
		t.set(res, t.argTaint(a))
	}
}

func (t *taintFlow) argTaint(a ssa.Value) string {
	if w := t.of(a); w != "" {
		return w
	}
	switch a.Type().Underlying().(type) {
	case *types.Slice, *types.Map:
		return t.cell[sliceRoot(a)]
	case *types.Pointer:
		if al, ok := a.(*ssa.Alloc); ok {
			return t.cell[al]
		}
	}
	if mi, ok := a.(*ssa.MakeInterface); ok {
		return t.argTaint(mi.X)
	}
	return ""
}

// refUnset recognises conditions that can only hold when the caller gave no reference time.
type refUnset struct {
	p     *Prog
	memo  map[Fact]int
	edges map[refEdge]int
	depth int
}

type refEdge struct {
	b *ssa.BasicBlock
	k int
}

// isReference: the value is the configured reference time.
func (u *refUnset) isReference(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	if cfgField(v) == "CurrentTime" {
		return true
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		f := x.Parent()
		if f.Object() != nil && f.Object().Exported() && pkgOf(f) == modPath {
			return false
		}
		sites := u.p.callSites(f)
		if len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			a := argFor(s, x)
			if a == nil || !u.isReference(a, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if st := lastStore(x); st != nil {
			return u.isReference(st.Val, depth+1)
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !u.p.inRepo(g) || len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 {
			return false
		}
		n := 0
		ok := true
		eachInstr(g, func(i ssa.Instruction) {
			if r, isR := i.(*ssa.Return); isR {
				n++
				ok = ok && u.isReference(r.Results[0], depth+1)
			}
		})
		return ok && n > 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !u.isReference(e, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// lastStore is the store whose value a load is sure to read: the last one to the same address in the
// block or its single-predecessor chain, with nothing in between that could change it.
func lastStore(ld *ssa.UnOp) *ssa.Store {
	b := ld.Block()
	k := instrIndex(ld) - 1
	for n := 0; n < 12; n++ {
		for ; k >= 0; k-- {
			switch x := b.Instrs[k].(type) {
			case *ssa.Store:
				if sameAddr(x.Addr, ld.X) {
					return x
				}
				if mayAlias(x.Addr, ld.X) {
					return nil
				}
			case ssa.CallInstruction:
				c := x.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				if f := c.StaticCallee(); f != nil && isStdPkg(pkgOf(f)) {
					continue
				}
				return nil
			}
		}
		if len(b.Preds) != 1 {
			return nil
		}
		b = b.Preds[0]
		k = len(b.Instrs) - 1
	}
	return nil
}

func (u *refUnset) fact(f Fact) bool {
	if u.memo == nil {
		u.memo = map[Fact]int{}
	}
	switch u.memo[f] {
	case 1:
		return false
	case 2:
		return true
	}
	u.memo[f] = 1
	if u.fact1(f) {
		u.memo[f] = 2
		return true
	}
	return false
}

func (u *refUnset) fact1(f Fact) bool {
	if leftEmpty([]Fact{f}, "CurrentTime") {
		return true
	}
	switch x := f.Cond.(type) {
	case *ssa.BinOp:
		eq := (x.Op == token.EQL) == f.Val && (x.Op == token.EQL || x.Op == token.NEQ)
		if eq {
			if isNilConst(x.Y) && isCfgType(x.X.Type()) || isNilConst(x.X) && isCfgType(x.Y.Type()) {
				return true
			}
			for k, a := range []ssa.Value{x.X, x.Y} {
				o := []ssa.Value{x.Y, x.X}[k]
				if c, ok := o.(*ssa.Const); ok && c.Value == nil && typeIs(a.Type(), "time", "Time") && u.isReference(a, 0) {
					return true
				}
			}
		}
	case *ssa.Call:
		nm := calleeName(x.Common())
		if f.Val && nm == "(time.Time).IsZero" && u.isReference(x.Call.Args[0], 0) {
			return true
		}
		// a helper predicate: with a reference time set it never returns this outcome
		g := x.Call.StaticCallee()
		if g == nil || !u.p.inRepo(g) || len(g.Blocks) == 0 || !isBool(x.Type()) || u.depth > 3 {
			return false
		}
		u.depth++
		defer func() { u.depth-- }()
		live := liveBlocks(g, u.prune)
		for _, b := range g.Blocks {
			if !live[b] {
				continue
			}
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if !u.excludes(r.Results[0], f.Val, 0) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		fn := x.Parent()
		if !isBool(x.Type()) || fn.Object() != nil && fn.Object().Exported() && pkgOf(fn) == modPath {
			return false
		}
		sites := u.p.callSites(fn)
		if len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			a := argFor(s, x)
			if a == nil || !u.excludes(a, f.Val, 0) {
				return false
			}
		}
		return true
	}
	return false
}

// excludes: with a reference time set the value is never val.
func (u *refUnset) excludes(v ssa.Value, val bool, depth int) bool {
	if c, ok := constBool(v); ok {
		return c != val
	}
	if depth > 6 {
		return false
	}
	if ph, ok := v.(*ssa.Phi); ok {
		live := liveBlocks(ph.Parent(), u.prune)
		for k, e := range ph.Edges {
			q := ph.Block().Preds[k]
			if !live[q] {
				continue
			}
			cut := false
			for j, s := range q.Succs {
				if s == ph.Block() && u.prune(q, j) {
					cut = true
				}
			}
			if cut {
				continue
			}
			if !u.excludes(e, val, depth+1) {
				return false
			}
		}
		return true
	}
	for _, g := range expandFacts([]Fact{{v, val}}) {
		if u.fact(g) {
			return true
		}
	}
	return false
}

// prune: the edge is only taken when no reference time was given.
func (u *refUnset) prune(b *ssa.BasicBlock, k int) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	key := refEdge{b, k}
	switch u.edges[key] {
	case 1:
		return false // being decided: not pruned
	case 2:
		return true
	case 3:
		return false
	}
	if u.edges == nil {
		u.edges = map[refEdge]int{}
	}
	u.edges[key] = 1
	if u.excludes(iff.Cond, k == 0, 0) {
		u.edges[key] = 2
		return true
	}
	u.edges[key] = 3
	return false
}

// mayRun: the block can run although the caller gave a reference time.
func (u *refUnset) mayRun(b *ssa.BasicBlock, depth int) bool {
	f := b.Parent()
	if !liveBlocks(f, u.prune)[b] {
		return false
	}
	if depth > 5 || f.Object() != nil && f.Object().Exported() && pkgOf(f) == modPath {
		return true
	}
	sites := u.p.callSites(f)
	if f.Parent() != nil {
		// a function literal runs where it is made or later: the branch it is made under counts
		run := true
		eachInstr(f.Parent(), func(i ssa.Instruction) {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
				run = u.mayRun(mc.Block(), depth+1)
			}
		})
		return run
	}
	for _, s := range sites {
		if u.mayRun(s.Block(), depth+1) {
			return true
		}
	}
	return len(sites) == 0
}

// mayBeZeroTime: the value is the zero time on some path on which the caller gave a reference time.
func (u *refUnset) mayBeZeroTime(v ssa.Value, at *ssa.BasicBlock, depth int) bool {
	if depth > 6 {
		return false
	}
	for _, f := range deepFacts(facts(at)) {
		if c, ok := f.Cond.(*ssa.Call); ok && !f.Val && calleeName(&c.Call) == "(time.Time).IsZero" && (c.Call.Args[0] == v || sameLoad(c.Call.Args[0], v)) {
			return false
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for k, e := range x.Edges {
			q := x.Block().Preds[k]
			if !liveBlocks(q.Parent(), u.prune)[q] {
				continue
			}
			cut := false
			for j, s := range q.Succs {
				if s == x.Block() && u.prune(q, j) {
					cut = true
				}
			}
			if !cut && e != v && u.mayBeZeroTime(e, q, depth+1) {
				return true
			}
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			n := 0
			for _, st := range storesInto(al, 0) {
				if st.Addr != ssa.Value(al) {
					return false
				}
				n++
			}
			if n == 0 && !escapesAlloc(al) {
				return true
			}
			if st := lastStore(x); st != nil {
				return u.mayBeZeroTime(st.Val, st.Block(), depth+1)
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		if f.Object() != nil && f.Object().Exported() && pkgOf(f) == modPath {
			return false
		}
		for _, s := range u.p.callSites(f) {
			if a := argFor(s, x); a != nil && u.mayRun(s.Block(), 0) && u.mayBeZeroTime(a, s.Block(), depth+1) {
				return true
			}
		}
	}
	return false
}

// soleWhole counts the assignments of the whole variable.
func soleWhole(al *ssa.Alloc) int {
	n := 0
	for _, st := range storesInto(al, 0) {
		if st.Addr == ssa.Value(al) {
			n++
		}
	}
	return n
}

// nilOnly prunes only the branches for an absent internal configuration.
func nilOnly(b *ssa.BasicBlock, k int) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	for _, f := range expandFacts([]Fact{{iff.Cond, k == 0}}) {
		x, ok := f.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if (x.Op == token.EQL) == f.Val && (x.Op == token.EQL || x.Op == token.NEQ) {
			if isNilConst(x.Y) && isCfgType(x.X.Type()) || isNilConst(x.X) && isCfgType(x.Y.Type()) {
				return true
			}
		}
	}
	return false
}

var clockReads = map[string]bool{"time.Now": true, "time.Since": true, "time.Until": true}

// zoned layouts make time.Parse consult the machine's zone.
func zonedLayout(s string) bool {
	return strings.Contains(s, "MST") || strings.Contains(s, "Z07") || strings.Contains(s, "-07")
}

// layoutConsts collects the constant strings a layout argument can be; ok is false if some are unknown.
func (p *Prog) layoutConsts(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool, depth int) bool {
	if _, ok := v.Type().Underlying().(*types.Slice); ok {
		return p.containerConsts(v, false, out, seen, depth)
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	if depth > 14 {
		return false
	}
	if s, ok := constString(v); ok {
		out[s] = true
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.layoutConsts(e, out, seen, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		sites := p.callSites(x.Parent())
		if len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			a := argFor(s, x)
			if a == nil {
				// through a function value: take the positional argument
				for k, q := range x.Parent().Params {
					if q == x && k < len(s.Common().Args) {
						a = s.Common().Args[k]
					}
				}
			}
			if a == nil || !p.layoutConsts(a, out, seen, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return p.containerConsts(rg.X, x.Index == 1, out, seen, depth+1)
			}
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return p.containerConsts(lk.X, false, out, seen, depth+1)
		}
		return false
	case *ssa.Lookup:
		return p.containerConsts(x.X, false, out, seen, depth+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			return p.containerConsts(a.X, false, out, seen, depth+1)
		case *ssa.FieldAddr:
			return p.fieldConsts(a, out, seen, depth+1)
		case *ssa.Alloc:
			for _, st := range storesInto(a, 0) {
				if !p.layoutConsts(st.Val, out, seen, depth+1) {
					return false
				}
			}
			return true
		case *ssa.Global:
			for _, st := range p.globalStores()[a] {
				if !p.layoutConsts(st.Val, out, seen, depth+1) {
					return false
				}
			}
			return len(p.globalStores()[a]) > 0
		}
	case *ssa.Field:
		// a field of a structure value: stores to that field anywhere
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return p.fieldVarConsts(st.Field(x.Field), out, seen, depth+1)
		}
	}
	return false
}

func (p *Prog) fieldConsts(a *ssa.FieldAddr, out map[string]bool, seen map[ssa.Value]bool, depth int) bool {
	return p.fieldVarConsts(fieldVar(a), out, seen, depth)
}

func (p *Prog) fieldVarConsts(fv *types.Var, out map[string]bool, seen map[ssa.Value]bool, depth int) bool {
	if fv == nil {
		return false
	}
	n := 0
	ok := true
	for _, f := range p.fnSrc {
		eachInstr(f, func(i ssa.Instruction) {
			if st, isS := i.(*ssa.Store); isS && ok {
				if fa, isF := st.Addr.(*ssa.FieldAddr); isF && fieldVar(fa) == fv {
					n++
					ok = ok && p.layoutConsts(st.Val, out, seen, depth+1)
				}
			}
		})
	}
	return ok && n > 0
}

// containerConsts collects the string elements (or keys) of a slice, array or map.
func (p *Prog) containerConsts(v ssa.Value, keys bool, out map[string]bool, seen map[ssa.Value]bool, depth int) bool {
	if seen[v] {
		return true
	}
	if depth > 24 {
		return false
	}
	if !keys {
		seen[v] = true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			st := p.globalStores()[a]
			for _, s := range st {
				if !p.containerConsts(s.Val, keys, out, seen, depth+1) {
					return false
				}
			}
			return len(st) > 0
		case *ssa.Alloc:
			n := 0
			for _, s := range storesInto(a, 0) {
				n++
				if !p.containerConsts(s.Val, keys, out, seen, depth+1) {
					return false
				}
			}
			return n > 0
		case *ssa.FieldAddr:
			fv := fieldVar(a)
			n, ok := 0, true
			for _, f := range p.fnSrc {
				eachInstr(f, func(i ssa.Instruction) {
					if st, isS := i.(*ssa.Store); isS && ok {
						if fa, isF := st.Addr.(*ssa.FieldAddr); isF && fieldVar(fa) == fv {
							n++
							ok = ok && p.containerConsts(st.Val, keys, out, seen, depth+1)
						}
					}
				})
			}
			return ok && n > 0
		case *ssa.IndexAddr:
			return p.containerConsts(a.X, keys, out, seen, depth+1)
		}
	case *ssa.Lookup:
		// a map of lists: every list
		return p.nestedConsts(x.X, out, seen, depth+1)
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return p.nestedConsts(lk.X, out, seen, depth+1)
		}
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return p.nestedConsts(rg.X, out, seen, depth+1)
			}
		}
	case *ssa.Slice:
		return p.containerConsts(x.X, keys, out, seen, depth+1)
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		n, ok := 0, true
		for _, r := range refs(v) {
			switch y := r.(type) {
			case *ssa.IndexAddr:
				for _, st := range storesInto(y, 0) {
					n++
					ok = ok && p.layoutConsts(st.Val, out, seen, depth+1)
				}
			case *ssa.MapUpdate:
				n++
				if keys {
					ok = ok && p.layoutConsts(y.Key, out, seen, depth+1)
				} else {
					ok = ok && p.layoutConsts(y.Value, out, seen, depth+1)
				}
			}
		}
		return ok && n > 0
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, a := range x.Call.Args {
				if isNilConst(a) {
					continue
				}
				if !p.containerConsts(a, keys, out, seen, depth+1) {
					return false
				}
			}
			return true
		}
		if calleeName(x.Common()) == "slices.Clone" {
			return p.containerConsts(x.Call.Args[0], keys, out, seen, depth+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == v || isNilConst(e) {
				continue
			}
			if !p.containerConsts(e, keys, out, seen, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		sites := p.callSites(x.Parent())
		for _, s := range sites {
			a := argFor(s, x)
			if a == nil || !p.containerConsts(a, keys, out, seen, depth+1) {
				return false
			}
		}
		return len(sites) > 0
	}
	return false
}

func (p *Prog) nestedConsts(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool, depth int) bool {
	u, ok := v.(*ssa.UnOp)
	var mk ssa.Value = v
	if ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			mk = p.initValue(g)
		}
	}
	if mk == nil {
		return false
	}
	mm, ok := mk.(*ssa.MakeMap)
	if !ok {
		return false
	}
	n, good := 0, true
	for _, r := range refs(mm) {
		if up, ok := r.(*ssa.MapUpdate); ok {
			n++
			good = good && p.containerConsts(up.Value, false, out, seen, depth+1)
		}
	}
	return good && n > 0
}

func checkC06(p *Prog, r *Result) {
	r.Rule = "Clock: no value derived from reading the machine's clock reaches a result, a branch or long-lived state on a path on which a reference time was given (interprocedural taint with the branches for an unset reference time cut off). Zone: no value carrying the machine's local zone (the clock, a Unix time before it is given a zone, time.Local, a layout with a zone that the standard library resolves locally) reaches a result without being converted to an explicit zone."
	r.Explanation = "Every clock read and every source of the local zone in every reachable repository function is an obligation; its value is followed through variables, fields, helpers and results."
	r.Assumptions = append(r.Assumptions,
		"operations of package time other than Now, Since, Until, Unix*, Parse, Local and LoadLocation do not consult the machine's clock or zone",
		"third-party calendar packages only compute from their arguments (checked: they contain no reachable clock read)")
	fns := p.reachableRepo()
	reach := p.reachable()
	unset := &refUnset{p: p}

	type src struct {
		i    ssa.Instruction
		name string
	}
	var clocks, zones []src
	nPruned := 0
	for _, f := range fns {
		eachInstr(f, func(i ssa.Instruction) {
			c := callOf(i)
			if c == nil {
				if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL {
					if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "time" && g.Name() == "Local" {
						zones = append(zones, src{i, "time.Local"})
					}
				}
				return
			}
			nm := calleeName(c)
			switch {
			case clockReads[nm]:
				clocks = append(clocks, src{i, nm})
				if nm == "time.Now" {
					zones = append(zones, src{i, nm})
				}
			case nm == "time.Unix" || nm == "time.UnixMilli" || nm == "time.UnixMicro" || nm == "(time.Time).Local":
				zones = append(zones, src{i, nm})
			case nm == "time.LoadLocation":
				if s, ok := constString(c.Args[0]); !ok || s == "Local" {
					zones = append(zones, src{i, nm})
				}
			case nm == "time.Parse":
				consts := map[string]bool{}
				known := p.layoutConsts(c.Args[0], consts, map[ssa.Value]bool{}, 0)
				bad := ""
				for _, s := range sortedKeys(consts) {
					if zonedLayout(s) {
						bad = "the layout " + s + " names a zone, which time.Parse looks up in the machine's local zone"
					}
				}
				if !known {
					bad = "the layout is not known; a zone in it would be looked up in the machine's local zone"
				}
				r.add(bad == "", "layout-without-zone", siteKey(i, "time.Parse"), p.instrPos(i), okOr(bad, fmt.Sprintf("none of the %d layouts names a zone", len(consts))))
			case strings.HasPrefix(nm, "os.Getenv") || strings.HasPrefix(nm, "os.LookupEnv") || nm == "os.Environ":
				r.badPath("no-environment", siteKey(i, nm), p.instrPos(i), "reads the machine's environment", pathTo(reach, f))
			}
		})
		for _, b := range f.Blocks {
			for k := range b.Succs {
				if unset.prune(b, k) {
					nPruned++
				}
			}
		}
	}
	r.Analysed["functions"] = len(fns)
	r.Analysed["clock reads"] = len(clocks)
	r.Analysed["local zone sources"] = len(zones)
	r.Analysed["branches for an unset reference time"] = nPruned

	entries := map[*ssa.Function]bool{}
	for _, e := range p.entryPoints() {
		entries[e] = true
	}
	sinks := func(t *taintFlow, branches bool) map[string]string {
		hit := map[string]string{}
		add := func(why, at string) {
			if hit[why] == "" {
				hit[why] = at
			}
		}
		for _, f := range fns {
			live := t.liveOf(f)
			if entries[f] {
				for k, w := range t.ret[f] {
					if w != "" {
						add(w, fmt.Sprintf("is returned by %s (result %d)", fnKey(f), k))
					}
				}
			}
			if !branches {
				continue
			}
			for _, b := range f.Blocks {
				if !live[b] {
					continue
				}
				if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					if w := t.of(iff.Cond); w != "" {
						add(w, "decides a branch at "+p.instrPos(iff))
					}
				}
			}
		}
		for k, w := range t.cell {
			if g, ok := k.(*ssa.Global); ok {
				add(w, "is kept in the package variable "+g.Name())
			}
			if fv, ok := k.(*types.Var); ok && fv.IsField() {
				if n := p.named("", "Parser"); n != nil {
					st := n.Underlying().(*types.Struct)
					for j := 0; j < st.NumFields(); j++ {
						if st.Field(j) == fv {
							add(w, "is kept in the parser field "+fv.Name())
						}
					}
				}
			}
		}
		return hit
	}
	srcKey := map[ssa.Instruction]string{}
	ord := map[string]int{}
	for _, l := range [][]src{clocks, zones} {
		for _, s := range l {
			if srcKey[s.i] != "" {
				continue
			}
			k := siteKey(s.i, s.name)
			ord[k]++
			if ord[k] > 1 {
				k += " #" + itoa(ord[k])
			}
			srcKey[s.i] = k
		}
	}
	// clock
	isClock := map[ssa.Instruction]bool{}
	for _, s := range clocks {
		isClock[s.i] = true
	}
	ct := &taintFlow{p: p, fns: fns, prune: unset.prune, seed: func(i ssa.Instruction) string {
		if isClock[i] {
			return srcKey[i]
		}
		return ""
	}}
	ct.run()
	hit := sinks(ct, true)
	for _, s := range clocks {
		if at := hit[srcKey[s.i]]; at != "" {
			r.badPath("clock-only-without-reference", srcKey[s.i], p.instrPos(s.i), "although a reference time was given, the machine's time "+at, pathTo(reach, s.i.Parent()))
			continue
		}
		why := "its value reaches no result, branch or lasting state once a reference time is given"
		if !ct.liveOf(s.i.Parent())[s.i.Block()] {
			why = "only runs when no reference time was given"
		}
		r.ok("clock-only-without-reference", srcKey[s.i], p.instrPos(s.i), why)
	}
	// one representative per shared taint: sources that lost the race for a value are re-run alone
	for _, s := range clocks {
		s := s
		if hit[srcKey[s.i]] != "" || !ct.liveOf(s.i.Parent())[s.i.Block()] {
			continue
		}
		t := &taintFlow{p: p, fns: fns, prune: unset.prune, seed: func(i ssa.Instruction) string {
			if i == s.i {
				return srcKey[i]
			}
			return ""
		}}
		t.run()
		if at := sinks(t, true)[srcKey[s.i]]; at != "" {
			r.badPath("clock-only-without-reference", srcKey[s.i]+" (alone)", p.instrPos(s.i), "although a reference time was given, the machine's time "+at, pathTo(reach, s.i.Parent()))
		}
	}
	// the reference itself is not taken out of a configuration
	nKept := 0
	for _, f := range fns {
		eachInstr(f, func(i ssa.Instruction) {
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isCfgPtr(fa.X.Type()) {
				return
			}
			if _, fn := fieldName(fa); fn != "CurrentTime" {
				return
			}
			if al, ok := fa.X.(*ssa.Alloc); ok && soleWhole(al) == 0 {
				return // a new configuration
			}
			nKept++
			bad := ""
			if unset.mayRun(st.Block(), 0) && unset.mayBeZeroTime(st.Val, st.Block(), 0) {
				bad = "the reference time is replaced by an unset time on a path on which the caller gave one: the machine's time is used from then on"
			}
			r.add(bad == "", "reference-kept", siteKey(i, "CurrentTime assigned"), p.instrPos(i), okOr(bad, "no unset time is assigned while the caller gave a reference"))
		})
	}
	r.Analysed["assignments of the reference time"] = nKept
	r.floor("clock-only-without-reference", 1)

	// local zone
	zoneClean := func(c *ssa.CallCommon, k int) bool {
		nm := calleeName(c)
		if !strings.HasPrefix(nm, "(time.Time).") || k != 0 {
			return false
		}
		switch strings.TrimPrefix(nm, "(time.Time).") {
		case "UTC", "In", "Unix", "UnixNano", "UnixMilli", "UnixMicro", "Equal", "Before", "After", "Compare", "Sub", "IsZero":
			return true
		}
		return false
	}
	for _, s := range zones {
		s := s
		t := &taintFlow{p: p, fns: fns, prune: nilOnly, clean: zoneClean, seed: func(i ssa.Instruction) string {
			if i == s.i {
				return srcKey[i]
			}
			return ""
		}}
		t.run()
		at := sinks(t, true)[srcKey[s.i]]
		if at != "" {
			r.badPath("explicit-zone", srcKey[s.i], p.instrPos(s.i), "a value in the machine's local zone "+at, pathTo(reach, s.i.Parent()))
		} else {
			r.ok("explicit-zone", srcKey[s.i], p.instrPos(s.i), "converted to an explicit zone before it reaches a result or a branch")
		}
	}
	r.floor("explicit-zone", 1)
	r.floor("layout-without-zone", 1)

	// third-party code does not read the clock
	for f := range reach {
		pk := pkgOf(f)
		if isRepoPath(pk) || isStdPkg(pk) || len(f.Blocks) == 0 || pk == "" {
			continue
		}
		eachInstr(f, func(i ssa.Instruction) {
			if c := callOf(i); c != nil && clockReads[calleeName(c)] {
				r.badPath("dependencies-without-clock", siteKey(i, calleeName(c)), p.instrPos(i), "a dependency reads the machine's clock", pathTo(reach, f))
			}
		})
	}
	r.ok("dependencies-without-clock", "reachable third-party functions", "-", "searched for clock reads")

	// clock reads during initialisation
	for _, f := range p.fnSrc {
		if !isInitFn(f) && !p.fromInit(f) {
			continue
		}
		eachInstr(f, func(i ssa.Instruction) {
			if c := callOf(i); c != nil && clockReads[calleeName(c)] && !isClock[i] {
				r.bad("no-clock-at-start", siteKey(i, calleeName(c)), p.instrPos(i), "the machine's time is read once at program start")
			}
		})
	}
	r.ok("no-clock-at-start", "package initialisers", "-", "searched for clock reads")
}
