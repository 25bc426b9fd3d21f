package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C08"] = checkC08 }

// isParsing reports whether a function consumes text: anything in the parser and language packages.
func (p *Prog) isParsing(f *ssa.Function) bool {
	pk := pkgOf(f)
	return strings.HasPrefix(pk, repoPkg("internal/parser")) || pk == repoPkg("internal/language") || pk == repoPkg("internal/timezone")
}

// configEntryPoints are the exported functions taking a caller's Configuration.
func (p *Prog) configEntryPoints() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.entryPoints() {
		if f.Signature.Recv() != nil && typeIs(f.Signature.Recv().Type(), modPath, "Configuration") {
			continue
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if typeIs(f.Signature.Params().At(i).Type(), modPath, "Configuration") {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

// cfgFieldLoad recognises a read of the named field of the root Configuration.
func cfgFieldLoad(field, owner string) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		if u, ok := v.(*ssa.UnOp); ok {
			v = u.X
		}
		n, name := fieldName(v)
		return n != nil && name == field && typeIs(n, modPath, owner)
	}
}

type c08 struct {
	p *Prog
	r *Result
	// blocks of root functions from which parsing was already called
	errOnlyMemo map[*ssa.BasicBlock]int
	decided     map[string]bool // edges that were tested by some option
}

func checkC08(p *Prog, r *Result) {
	r.Rule = "value-set dataflow: on entry to every parsing call of every entry point each enumerated option is one of its documented constants, and no rejecting branch is taken for a documented value"
	r.Explanation = "For each enumerated option of Configuration (named integer types with constants), the required parts (strings) and the parser kinds, a finite value-set dataflow over SSA follows the option from the entry point through every helper (contexts: constants bound at the call) to each call into the parsing packages. Lists are validated by a loop over the whole list (or slices.ContainsFunc) whose continuing edge admits only documented elements. Every branch that leads only to error returns must exclude all documented values of the option it tests."
	c := &c08{p: p, r: r, errOnlyMemo: map[*ssa.BasicBlock]int{}, decided: map[string]bool{}}
	entries := p.configEntryPoints()
	r.Analysed["entry points"] = len(entries)

	cfgT := p.named("", "Configuration")
	if cfgT == nil {
		fatal("type Configuration not found")
	}
	st := cfgT.Underlying().(*types.Struct)
	nEnum := 0
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		n, ok := types.Unalias(f.Type()).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath || !isInt(n) {
			continue
		}
		consts := p.enumConsts("", n.Obj().Name())
		var ints []int64
		for k := int64(0); k < 64; k++ {
			for _, v := range consts {
				if v == k {
					ints = append(ints, k)
					break
				}
			}
		}
		if len(ints) == 0 {
			continue
		}
		nEnum++
		d := p.newDom(ints, nil, cfgFieldLoad(f.Name(), "Configuration"))
		c.scalar(f.Name(), d, entries)
		c.precision(f.Name(), d)
	}
	r.Analysed["enumerated options"] = nEnum
	r.floor("option-validated-before-parsing", 3)
	r.floor("documented-values-accepted", 1)

	req := p.newDom(nil, []string{"day", "month", "year"}, nil)
	c.list("RequiredParts", "Configuration", req, entries, func(s *ssa.Function) bool { return true })
	kinds := p.enumConsts("", "ParserType")
	var ints []int64
	for k := int64(0); k < int64(len(kinds)); k++ {
		ints = append(ints, k)
	}
	if len(ints) == 0 {
		fatal("no parser kinds found")
	}
	kd := p.newDom(ints, nil, nil)
	c.list("ParserTypes", "Parser", kd, entries, func(s *ssa.Function) bool {
		pk := pkgOf(s)
		return strings.HasPrefix(pk, repoPkg("internal/parser")) && !strings.HasSuffix(pk, "hijri") && !strings.HasSuffix(pk, "jalali")
	})
	c.otherRejections()
}

func edgeKey(b *ssa.BasicBlock, k int) string {
	return fnKey(b.Parent()) + "#" + itoa(b.Index) + "#" + itoa(k)
}

// otherRejections: a function that sees nothing but the configuration may only fail because of an undocumented value.
func (c *c08) otherRejections() {
	for _, f := range c.p.reachableRepo() {
		if pkgOf(f) != modPath || f.Signature.Results().Len() == 0 || len(f.Params) == 0 {
			continue
		}
		if !isErrType(f.Signature.Results().At(f.Signature.Results().Len() - 1).Type()) {
			continue
		}
		only := true
		for _, pr := range f.Params {
			if !typeIs(pr.Type(), modPath, "Configuration") && !typeIs(pr.Type(), modPath, "Parser") {
				only = false
			}
		}
		if !only {
			continue
		}
		c.r.Analysed["configuration-only validators"]++
		for _, b := range f.Blocks {
			if len(b.Succs) < 2 {
				continue
			}
			for k, su := range b.Succs {
				if !c.errOnly(su) || c.errOnly(b.Succs[1-k]) {
					continue
				}
				key := "rejection in " + fnKey(f)
				ok := c.decided[edgeKey(b, k)]
				for _, fc := range edgeFacts(b, k) {
					if bo, isB := fc.Cond.(*ssa.BinOp); isB && isErrType(bo.X.Type()) {
						if cl, _ := callResult(bo.X); cl != nil && cl.Common().StaticCallee() != nil && c.p.inRepo(cl.Common().StaticCallee()) {
							ok = true
						}
					}
				}
				c.r.add(ok, "rejects-only-undocumented-values", key, c.p.instrPos(b.Instrs[len(b.Instrs)-1]), okOr(map[bool]string{true: "", false: "a configuration is rejected for a reason other than an undocumented value of an enumerated option, required part or parser kind"}[ok], "the rejection tests an enumerated option, a required part or an inner validator"))
			}
		}
	}
}

// sinks lists the calls into the parsing packages made by root package functions reachable from the entry points.
func (c *c08) sinks(want func(*ssa.Function) bool) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, f := range c.p.reachableRepo() {
		if pkgOf(f) != modPath {
			continue
		}
		eachInstr(f, func(i ssa.Instruction) {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, g := range c.p.callees(ci) {
				if c.p.isParsing(g) && want(g) {
					out = append(out, ci)
					return
				}
			}
		})
	}
	return out
}

// scalar checks that at every parsing call the option is one of its constants.
func (c *c08) scalar(field string, d *vdom, entries []*ssa.Function) {
	flows := map[*ssa.Function]map[*ssa.BasicBlock]kindSet{}
	flow := func(f *ssa.Function) map[*ssa.BasicBlock]kindSet {
		if flows[f] == nil {
			flows[f] = d.flow(f, &vctx{}, f.Blocks[0])
		}
		return flows[f]
	}
	ok := func(i ssa.Instruction) bool {
		in := flow(i.Parent())
		s, reached := in[i.Block()]
		return !reached || s&^d.valid() == 0
	}
	n := map[string]int{}
	for _, s := range c.sinks(func(f *ssa.Function) bool {
		return true
	}) {
		if !c.takesConfig(s) {
			continue
		}
		callee := calleeShort(s.Common())
		key := field + " before " + callee + " in " + fnKey(s.Parent())
		n[key]++
		good, at, path := c.p.lift(s, entries, ok)
		if good {
			c.r.ok("option-validated-before-parsing", key, c.p.instrPos(s), "only documented values reach this call")
		} else {
			c.r.badPath("option-validated-before-parsing", key, c.p.instrPos(s), fmt.Sprintf("%s may still have an undocumented value here (%s)", field, d.names(flow(at.Parent())[at.Block()])), path)
		}
	}
}

// takesConfig: the sink is handed a configuration (directly or it is one of the parser entry functions).
func (c *c08) takesConfig(s ssa.CallInstruction) bool {
	for _, a := range s.Common().Args {
		if typeIs(a.Type(), repoPkg("internal/setting"), "Configuration") {
			return true
		}
	}
	return false
}

func calleeShort(c *ssa.CallCommon) string {
	n := calleeName(c)
	n = strings.ReplaceAll(n, modPath+"/", "")
	return strings.ReplaceAll(n, modPath+".", "dateparser.")
}

// lift tests a property at an instruction; if it does not hold there, at every call site of the
// enclosing function (unless that is an entry point).
func (p *Prog) lift(i ssa.Instruction, entries []*ssa.Function, ok func(ssa.Instruction) bool) (bool, ssa.Instruction, string) {
	isEntry := map[*ssa.Function]bool{}
	for _, e := range entries {
		isEntry[e] = true
	}
	reach := p.reachable()
	var rec func(i ssa.Instruction, depth int, seen map[*ssa.Function]bool) (bool, ssa.Instruction, string)
	rec = func(i ssa.Instruction, depth int, seen map[*ssa.Function]bool) (bool, ssa.Instruction, string) {
		if ok(i) {
			return true, nil, ""
		}
		f := i.Parent()
		if isEntry[f] || depth > 8 || seen[f] {
			return false, i, pathTo(reach, f)
		}
		seen[f] = true
		defer delete(seen, f)
		sites := 0
		if mc := closureOf(f); mc != nil {
			// a function literal runs after it is made: what is established there stays established
			if good, _, _ := rec(mc, depth+1, seen); good {
				return true, nil, ""
			}
		}
		for _, s := range p.callSites(f) {
			if _, r := reach[s.Parent()]; !r {
				continue
			}
			if seen[s.Parent()] {
				continue
			}
			sites++
			if good, at, path := rec(s, depth+1, seen); !good {
				return false, at, path
			}
		}
		if sites == 0 {
			return false, i, pathTo(reach, f)
		}
		return true, nil, ""
	}
	return rec(i, 0, map[*ssa.Function]bool{})
}

// errOnly: every path from b ends in a return with a non-nil error, without parsing anything first.
func (c *c08) errOnly(b *ssa.BasicBlock) bool {
	if v, ok := c.errOnlyMemo[b]; ok {
		return v == 1
	}
	res := true
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || !res {
			return
		}
		seen[b] = true
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Return:
				rs := retValues(x)
				if len(rs) == 0 {
					res = false
					break
				}
				v := rs[len(rs)-1]
				switch {
				case isBool(v.Type()):
					if k, ok := constBool(v); !ok || k {
						res = false
					}
				case !isErrType(v.Type()):
					res = false
				default:
					if !nonNilErr(v) && errFact(b, v) <= 0 {
						res = false
					}
				}
			case ssa.CallInstruction:
				for _, g := range c.p.callees(x) {
					if c.p.isParsing(g) {
						res = false
					}
				}
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
		if len(b.Succs) == 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
				res = false
			}
		}
	}
	walk(b)
	if res {
		c.errOnlyMemo[b] = 1
	} else {
		c.errOnlyMemo[b] = 0
	}
	return res
}

// errFact: +1 if v is known to be non-nil in b, -1 if known nil, 0 otherwise.
func errFact(b *ssa.BasicBlock, v ssa.Value) int {
	for _, f := range facts(b) {
		bo, ok := f.Cond.(*ssa.BinOp)
		if !ok || !(bo.X == v && isNilConst(bo.Y) || bo.Y == v && isNilConst(bo.X)) {
			continue
		}
		if (bo.Op.String() == "!=") == f.Val {
			return 1
		}
		return -1
	}
	return 0
}

// precision: every branch edge that tests the option itself and leads only to errors must exclude all documented values.
func (c *c08) precision(field string, d *vdom) {
	tested := 0
	for _, f := range c.p.reachableRepo() {
		if pkgOf(f) != modPath {
			continue
		}
		in := d.flow(f, &vctx{}, f.Blocks[0])
		c.edges(field, d, &vctx{}, f, in, &tested)
	}
	if tested == 0 {
		// tested through a helper: the helper's outcome was used by the flow
		c.r.ok("documented-values-accepted", field+": no branch of the root package rejects on this option directly", "-", "validation happens in helpers or not at all")
	}
}

func (c *c08) edges(field string, d *vdom, ctx *vctx, f *ssa.Function, in map[*ssa.BasicBlock]kindSet, tested *int) {
	for _, b := range f.Blocks {
		s, ok := in[b]
		if !ok {
			continue
		}
		for k, su := range b.Succs {
			o := d.edge(ctx, b, k, s)
			other := d.edge(ctx, b, 1-k, s)
			if len(b.Succs) < 2 || o == s && other == s || !c.errOnly(su) {
				continue
			}
			*tested++
			c.decided[edgeKey(b, k)] = true
			key := field + " rejected in " + fnKey(f)
			// values that can only take this edge, or that may take it at all
			if bad := o & d.valid(); bad != 0 && o != s {
				c.r.bad("documented-values-accepted", key, c.p.instrPos(b.Instrs[len(b.Instrs)-1]), "documented values are rejected: "+d.names(bad))
			} else if bad != 0 && o == s && s&d.valid() != 0 && other&d.valid() != d.valid()&s {
				c.r.bad("documented-values-accepted", key, c.p.instrPos(b.Instrs[len(b.Instrs)-1]), "documented values are rejected: "+d.names(d.valid()&s&^other))
			} else {
				c.r.ok("documented-values-accepted", key, c.p.instrPos(b.Instrs[len(b.Instrs)-1]), "this rejection excludes every documented value")
			}
		}
	}
}

// list checks an option that is a list: a loop over all elements rejects every undocumented one.
func (c *c08) list(field, owner string, d *vdom, entries []*ssa.Function, want func(*ssa.Function) bool) {
	isField := cfgFieldLoad(field, owner)
	// validated edges: CFG edges on which the whole list is known to hold only documented elements
	type edge struct{ from, to *ssa.BasicBlock }
	good := map[*ssa.Function][]edge{}
	found := 0
	for _, f := range c.p.reachableRepo() {
		if pkgOf(f) != modPath {
			continue
		}
		eachInstr(f, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.IndexAddr:
				if !isField(x.X) || !ascending(x.Index) {
					return
				}
				for _, rr := range *x.Referrers() {
					ld, ok := rr.(*ssa.UnOp)
					if !ok {
						continue
					}
					hdr := loopHeader(ld.Block())
					if hdr == nil {
						continue
					}
					ctx := &vctx{track: map[ssa.Value]bool{ld: true}}
					in := d.flow(f, ctx, ld.Block())
					ok2, rejects := true, false
					for _, b := range f.Blocks {
						if in[b] == 0 || !hdr.Dominates(b) || b == hdr {
							continue
						}
						for k, su := range b.Succs {
							o := d.edge(ctx, b, k, in[b])
							if o == 0 {
								continue
							}
							if su == hdr {
								if o&^d.valid() != 0 {
									ok2 = false
								}
								continue
							}
							if !inSameLoop(hdr, su) {
								if c.errOnly(su) {
									rejects = true
								} else if o&^d.valid() != 0 {
									ok2 = false
								}
							}
						}
					}
					if !rejects {
						continue // not a validation loop
					}
					found++
					tested := 0
					c.edges(field, d, ctx, f, in, &tested)
					key := field + " loop in " + fnKey(f)
					if !ok2 {
						c.r.bad("list-validated-completely", key, c.p.instrPos(ld), "an undocumented element does not lead to an error")
						continue
					}
					c.r.ok("list-validated-completely", key, c.p.instrPos(ld), "each undocumented element leads to an error return")
					for _, su := range hdr.Succs {
						if !inSameLoop(hdr, su) {
							good[f] = append(good[f], edge{hdr, su})
						}
					}
				}
			case *ssa.Call:
				nm := calleeName(x.Common())
				if nm != "slices.ContainsFunc" && nm != "slices.IndexFunc" || !isField(x.Call.Args[0]) {
					return
				}
				fn := fnValue(x.Call.Args[1])
				if fn == nil || len(fn.Params) == 0 {
					return
				}
				ctx := &vctx{track: map[ssa.Value]bool{fn.Params[0]: true}}
				in := d.flow(fn, ctx, fn.Blocks[0])
				var t, fl kindSet
				for _, b := range fn.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && in[b] != 0 {
						if k, ok := constBool(retValues(ret)[0]); ok {
							if k {
								t |= in[b]
							} else {
								fl |= in[b]
							}
						} else {
							t |= d.refine(ctx, in[b], retValues(ret)[0], true, 0)
							fl |= d.refine(ctx, in[b], retValues(ret)[0], false, 0)
						}
					}
				}
				found++
				key := field + " predicate in " + fnKey(f)
				c.r.add(fl&^d.valid() == 0, "list-validated-completely", key, c.p.instrPos(x), "elements not caught by the predicate: "+d.names(fl))
				for _, b := range f.Blocks {
					if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
						for k := range b.Succs {
							for _, fc := range expandFacts([]Fact{{iff.Cond, k == 0}}) {
								bo, isB := fc.Cond.(*ssa.BinOp)
								if fc.Cond == ssa.Value(x) || isB && bo.X == ssa.Value(x) {
									c.decided[edgeKey(b, k)] = true
								}
							}
						}
					}
				}
				c.r.add(t&d.valid() == 0, "documented-values-accepted", key, c.p.instrPos(x), "elements caught by the predicate: "+d.names(t))
				for _, b := range f.Blocks {
					iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
					if !ok {
						continue
					}
					for k, su := range b.Succs {
						for _, fc := range expandFacts([]Fact{{iff.Cond, k == 0}}) {
							if fc.Cond == ssa.Value(x) && !fc.Val {
								good[f] = append(good[f], edge{b, su})
							}
							if bo, ok := fc.Cond.(*ssa.BinOp); ok && bo.X == ssa.Value(x) {
								if z, ok := constInt(bo.Y); ok {
									neg := bo.Op.String() == "<" && z == 0 && fc.Val || bo.Op.String() == ">=" && z == 0 && !fc.Val ||
										bo.Op.String() == "==" && z == -1 && fc.Val || bo.Op.String() == "!=" && z == -1 && !fc.Val
									if neg {
										good[f] = append(good[f], edge{b, su})
									}
								}
							}
						}
					}
				}
			}
		})
	}
	if found == 0 {
		c.r.bad("list-validated-completely", field, "-", "no loop rejects undocumented elements of "+field)
		return
	}
	// functions that only succeed once the list is validated
	validators := map[*ssa.Function]bool{}
	holds := func(b *ssa.BasicBlock) bool {
		for _, e := range good[b.Parent()] {
			if edgeDominates(e.from, e.to, b) {
				return true
			}
		}
		for _, fc := range facts(b) {
			if c.succeeds(fc, validators) {
				return true
			}
		}
		return false
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.p.reachableRepo() {
			if pkgOf(f) != modPath || validators[f] || f.Signature.Results().Len() == 0 {
				continue
			}
			last := f.Signature.Results().Len() - 1
			t := f.Signature.Results().At(last).Type()
			if !isErrType(t) && !isBool(t) {
				continue
			}
			all := true
			for _, b := range f.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				v := retValues(ret)[last]
				if isErrType(t) && (nonNilErr(v) || errFact(b, v) > 0) {
					continue
				}
				if k, ok := constBool(v); ok && !k {
					continue
				}
				if holds(b) {
					continue
				}
				if cl, _ := callResult(v); cl != nil && cl.Common().StaticCallee() != nil && validators[cl.Common().StaticCallee()] {
					continue
				}
				if ph, ok := v.(*ssa.Phi); ok && c.phiSuccess(ph, holds, validators) {
					continue
				}
				all = false
			}
			if all {
				validators[f] = true
				ch = true
			}
		}
	}
	for _, s := range c.sinks(want) {
		callee := calleeShort(s.Common())
		if !c.takesConfig(s) {
			continue
		}
		key := field + " before " + callee + " in " + fnKey(s.Parent())
		if field == "ParserTypes" {
			// only the dispatched parsers depend on the kinds; custom formats are tried before
			if !inLoop(s.Block()) && s.Parent().Signature.Recv() == nil {
				continue
			}
		}
		okk, _, path := c.p.lift(s, entries, func(i ssa.Instruction) bool { return holds(i.Block()) })
		if okk {
			c.r.ok("option-validated-before-parsing", key, c.p.instrPos(s), "only reached after the whole list was validated")
		} else {
			c.r.badPath("option-validated-before-parsing", key, c.p.instrPos(s), "reached without validating "+field, path)
		}
	}
}

func (c *c08) phiSuccess(ph *ssa.Phi, holds func(*ssa.BasicBlock) bool, validators map[*ssa.Function]bool) bool {
	for i, e := range ph.Edges {
		pr := ph.Block().Preds[i]
		if nonNilErr(e) || errFact(pr, e) > 0 || holds(pr) {
			continue
		}
		if k, ok := constBool(e); ok && !k {
			continue
		}
		if cl, _ := callResult(e); cl != nil && cl.Common().StaticCallee() != nil && validators[cl.Common().StaticCallee()] {
			continue
		}
		okE := false
		for k, su := range pr.Succs {
			if su == ph.Block() {
				for _, f := range edgeFacts(pr, k) {
					if bo, ok := f.Cond.(*ssa.BinOp); ok && bo.X == e && isNilConst(bo.Y) && (bo.Op.String() == "!=") == f.Val {
						okE = true
					}
					if c.succeeds(f, validators) {
						okE = true
					}
				}
			}
		}
		if !okE {
			return false
		}
	}
	return true
}

// succeeds: the fact says that a validator returned without an error.
func (c *c08) succeeds(f Fact, validators map[*ssa.Function]bool) bool {
	switch x := f.Cond.(type) {
	case *ssa.BinOp:
		e := x.X
		if isNilConst(e) {
			e = x.Y
		} else if !isNilConst(x.Y) {
			return false
		}
		if !isErrType(e.Type()) || (x.Op.String() == "==") != f.Val {
			return false
		}
		return c.fromValidator(e, validators, 0)
	case *ssa.Call:
		g := x.Common().StaticCallee()
		return f.Val && g != nil && validators[g]
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok && isBool(x.Type()) {
			g := cl.Common().StaticCallee()
			return f.Val && g != nil && validators[g]
		}
	}
	return false
}

func (c *c08) fromValidator(e ssa.Value, validators map[*ssa.Function]bool, depth int) bool {
	if depth > 4 {
		return false
	}
	if ph, ok := e.(*ssa.Phi); ok {
		for _, x := range ph.Edges {
			if !nonNilErr(x) && !c.fromValidator(x, validators, depth+1) {
				return false
			}
		}
		return true
	}
	cl, _ := callResult(e)
	return cl != nil && cl.Common().StaticCallee() != nil && validators[cl.Common().StaticCallee()]
}

// callResult finds the call a value is a result of.
func callResult(v ssa.Value) (*ssa.Call, int) {
	switch x := v.(type) {
	case *ssa.Call:
		return x, 0
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			return cl, x.Index
		}
	}
	return nil, 0
}

// loopHeader is the header of the innermost loop containing b.
func loopHeader(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		for _, p := range h.Preds {
			if h.Dominates(p) && (p == b || h == b || canReachWithin(b, p, h)) {
				return h
			}
		}
	}
	return nil
}

// canReachWithin: from a to b without passing through h.
func canReachWithin(a, b, h *ssa.BasicBlock) bool {
	if a == b {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{h: true}
	st := []*ssa.BasicBlock{a}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				st = append(st, s)
			}
		}
	}
	return false
}

// inSameLoop: b belongs to the natural loop of header h.
func inSameLoop(h, b *ssa.BasicBlock) bool {
	if b == h {
		return true
	}
	if !h.Dominates(b) {
		return false
	}
	for _, p := range h.Preds {
		if h.Dominates(p) && (p == b || canReachWithin(b, p, h)) {
			return true
		}
	}
	return false
}
