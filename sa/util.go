package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func eachInstr(f *ssa.Function, fn func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			fn(i)
		}
	}
}

func instrIndex(i ssa.Instruction) int {
	for k, x := range i.Block().Instrs {
		if x == i {
			return k
		}
	}
	return -1
}

// dominates reports whether a is executed before b on every path to b.
func dominates(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// A Fact is a branch condition known to have the given outcome.
type Fact struct {
	Cond ssa.Value
	Val  bool
}

// edgeDominates reports whether the edge p->s (s = p.Succs[k]) dominates block b.
func edgeDominates(p, s, b *ssa.BasicBlock) bool {
	if !s.Dominates(b) {
		return false
	}
	n := 0
	for _, q := range s.Preds {
		if q == p {
			n++
			continue
		}
		if !s.Dominates(q) {
			return false
		}
	}
	return n == 1
}

var factCache = map[*ssa.BasicBlock][]Fact{}

// facts returns the branch conditions that hold whenever block b is entered.
func facts(b *ssa.BasicBlock) []Fact {
	if fs, ok := factCache[b]; ok {
		return fs
	}
	var out []Fact
	for d := b.Idom(); d != nil; d = d.Idom() {
		if len(d.Instrs) == 0 {
			continue
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		if edgeDominates(d, d.Succs[0], b) {
			out = append(out, Fact{iff.Cond, true})
		} else if edgeDominates(d, d.Succs[1], b) {
			out = append(out, Fact{iff.Cond, false})
		}
	}
	out = expandFacts(out)
	factCache[b] = out
	return out
}

// edgeFacts returns what holds on the edge p -> p.Succs[k].
func edgeFacts(p *ssa.BasicBlock, k int) []Fact {
	out := append([]Fact{}, facts(p)...)
	if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		out = append(out, expandFacts([]Fact{{iff.Cond, k == 0}})...)
	}
	return out
}

// expandFacts adds the consequences of negations and of boolean phis (short-circuit results).
func expandFacts(fs []Fact) []Fact {
	var out []Fact
	seen := map[Fact]bool{}
	var add func(f Fact, depth int)
	add = func(f Fact, depth int) {
		if seen[f] || depth > 12 {
			return
		}
		seen[f] = true
		out = append(out, f)
		switch v := f.Cond.(type) {
		case *ssa.UnOp:
			if v.Op == token.NOT {
				add(Fact{v.X, !f.Val}, depth+1)
			}
		case *ssa.BinOp:
			if isBool(v.X.Type()) && (v.Op == token.EQL || v.Op == token.NEQ) {
				if c, ok := constBool(v.Y); ok {
					add(Fact{v.X, (v.Op == token.EQL) == (c == f.Val)}, depth+1)
				} else if c, ok := constBool(v.X); ok {
					add(Fact{v.Y, (v.Op == token.EQL) == (c == f.Val)}, depth+1)
				}
			}
		case *ssa.Phi:
			// which incoming edges can deliver the value?
			cand := -1
			for i, e := range v.Edges {
				if c, ok := constBool(e); ok && c != f.Val {
					continue
				}
				if cand >= 0 {
					return
				}
				cand = i
			}
			if cand < 0 {
				return
			}
			if _, ok := constBool(v.Edges[cand]); !ok {
				add(Fact{v.Edges[cand], f.Val}, depth+1)
			}
			p := v.Block().Preds[cand]
			if v.Block().Dominates(p) {
				return // loop carried
			}
			for _, g := range rawFacts(p) {
				add(g, depth+1)
			}
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
				add(Fact{iff.Cond, p.Succs[0] == v.Block()}, depth+1)
			}
		}
	}
	for _, f := range fs {
		add(f, 0)
	}
	return out
}

func rawFacts(b *ssa.BasicBlock) []Fact {
	var out []Fact
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		if edgeDominates(d, d.Succs[0], b) {
			out = append(out, Fact{iff.Cond, true})
		} else if edgeDominates(d, d.Succs[1], b) {
			out = append(out, Fact{iff.Cond, false})
		}
	}
	return out
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func constBool(v ssa.Value) (bool, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

func constInt(v ssa.Value) (int64, bool) {
	for {
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
			continue
		}
		if cv, ok := v.(*ssa.ChangeType); ok {
			v = cv.X
			continue
		}
		break
	}
	c, ok := v.(*ssa.Const)
	if !ok {
		return 0, false
	}
	if c.Value == nil {
		if isInt(c.Type()) {
			return 0, true
		}
		return 0, false
	}
	if c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok {
		return "", false
	}
	if c.Value == nil {
		if isString(c.Type()) {
			return "", true
		}
		return "", false
	}
	if c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// strip removes type conversions that do not change the value.
func strip(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// calleeName is "pkgpath.Name" or "(recv).Name" of a statically called function.
func calleeName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		return f.RelString(nil)
	}
	if c.IsInvoke() {
		return "invoke " + c.Method.FullName()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return ""
}

func callOf(i ssa.Instruction) *ssa.CallCommon {
	if c, ok := i.(ssa.CallInstruction); ok {
		return c.Common()
	}
	return nil
}

// fieldName names the field selected by a FieldAddr or Field instruction.
func fieldName(v ssa.Value) (owner *types.Named, name string) {
	var t types.Type
	var idx int
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t, idx = x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field
	case *ssa.Field:
		t, idx = x.X.Type(), x.Field
	default:
		return nil, ""
	}
	n, _ := types.Unalias(t).(*types.Named)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return n, ""
	}
	return n, s.Field(idx).Name()
}

func typeIs(t types.Type, pkg, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isNamed := types.Unalias(t).(*types.Named); !isNamed {
			t = p.Elem()
		}
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func repoPkg(sub string) string {
	if sub == "" {
		return modPath
	}
	return modPath + "/" + sub
}

// isFunc reports whether the static callee is the repository function pkg.name ("T.m" for methods).
func (p *Prog) isFunc(f *ssa.Function, pkg, name string) bool {
	if f == nil {
		return false
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if pkgOf(f) != repoPkg(pkg) {
		return false
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		recv := f.Signature.Recv()
		if recv == nil || f.Name() != name[i+1:] {
			return false
		}
		return typeIs(recv.Type(), repoPkg(pkg), name[:i])
	}
	return f.Signature.Recv() == nil && f.Parent() == nil && f.Name() == name
}

// method finds the SSA function of a method of a repository type.
func (p *Prog) method(pkg, typ, name string) *ssa.Function {
	n := p.named(pkg, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

// reachableRepo lists the repository functions with a body that are reachable from the entry points.
func (p *Prog) reachableRepo() []*ssa.Function {
	r := p.reachable()
	var out []*ssa.Function
	for _, f := range p.fnSrc {
		if _, ok := r[f]; ok {
			out = append(out, f)
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// callSites returns the static and resolved call sites of f inside the repository.
func (p *Prog) callSites(f *ssa.Function) []ssa.CallInstruction {
	n := p.callGraph().Nodes[f]
	if n == nil {
		return nil
	}
	var out []ssa.CallInstruction
	for _, e := range n.In {
		if e.Site != nil && p.inRepo(e.Caller.Func) {
			out = append(out, e.Site)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := fnKey(out[i].Parent()), fnKey(out[j].Parent())
		if a != b {
			return a < b
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

// siteKey names a call site by its function and what it calls, with an ordinal for repeats.
func siteKey(i ssa.Instruction, what string) string {
	return fnKey(i.Parent()) + ": " + what
}

// canReach reports whether block b is reachable from block a in the CFG (a itself only through a cycle).
func canReach(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b {
			return true
		}
		st = append(st, x.Succs...)
	}
	return false
}

func inLoop(b *ssa.BasicBlock) bool { return canReach(b, b) }

// retValues are the values a return statement returns; results spilled to memory because of a
// deferred call are resolved to the value stored just before.
func retValues(ret *ssa.Return) []ssa.Value {
	out := make([]ssa.Value, len(ret.Results))
	for i, v := range ret.Results {
		out[i] = resolveLocal(v, ret)
	}
	return out
}

// partOf: the address is inside the local variable.
func partOf(addr ssa.Value, al *ssa.Alloc) bool {
	for d := 0; d < 8; d++ {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		default:
			return false
		}
		if addr == ssa.Value(al) {
			return true
		}
	}
	return false
}

// resolveLocal follows a load of a local variable to the last store in the same block chain.
func resolveLocal(v ssa.Value, at ssa.Instruction) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	b := u.Block()
	for n := 0; b != nil && n < 20; n++ {
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			if b == u.Block() && k >= instrIndex(u) {
				continue
			}
			if st, ok := b.Instrs[k].(*ssa.Store); ok {
				if st.Addr == al {
					return st.Val
				}
				if partOf(st.Addr, al) {
					return v
				}
			}
			if c := callOf(b.Instrs[k]); c != nil {
				for _, a := range c.Args {
					if a == ssa.Value(al) || partOf(a, al) {
						return v
					}
				}
			}
		}
		if len(b.Preds) != 1 {
			break
		}
		b = b.Preds[0]
	}
	return v
}

// loadedField names the field a value was read from, through conversions.
func loadedField(v ssa.Value) (owner *types.Named, name string) {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil, ""
			}
			return fieldName(x.X)
		case *ssa.Field:
			return fieldName(x)
		default:
			return nil, ""
		}
	}
	return nil, ""
}
