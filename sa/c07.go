package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C07"] = checkC07 }

func isCfgType(t types.Type) bool {
	return typeIs(t, modPath, "Configuration") || typeIs(t, repoPkg("internal/setting"), "Configuration")
}

func cfgStruct(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// cfgField recognises a read of a field of either Configuration type and names it.
func cfgField(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && isCfgType(fa.X.Type()) {
				_, n := fieldName(fa)
				return n
			}
		}
	case *ssa.Field:
		if isCfgType(x.X.Type()) {
			_, n := fieldName(x)
			return n
		}
	}
	return ""
}

// copyOf follows a value through identity-preserving steps (conversions, slice clones, helpers that
// return a copy of their argument) and names the configuration field it is an unchanged copy of.
func (p *Prog) copyOf(v ssa.Value, depth int) (field, problem string) {
	if depth > 8 {
		return "", "too deep"
	}
	if f := cfgField(v); f != "" {
		return f, ""
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return p.copyOf(x.X, depth+1)
	case *ssa.Convert:
		if isInt(x.Type()) && isInt(x.X.Type()) {
			return p.copyOf(x.X, depth+1)
		}
	case *ssa.Call:
		switch n := calleeName(x.Common()); n {
		case "slices.Clone":
			return p.copyOf(x.Call.Args[0], depth+1)
		case "builtin append":
			if isFreshEmpty(x.Call.Args[0]) && len(x.Call.Args) == 2 {
				return p.copyOf(x.Call.Args[1], depth+1)
			}
		case "slices.Concat":
			if el, ok := p.constElems(x.Call.Args[0]); ok && len(el) == 1 {
				return p.copyOf(el[0], depth+1)
			}
		default:
			g := x.Common().StaticCallee()
			if g != nil && p.inRepo(g) && len(g.Params) == 1 && p.returnsCopy(g) {
				return p.copyOf(x.Call.Args[0], depth+1)
			}
		}
	case *ssa.Phi:
		name := ""
		for _, e := range x.Edges {
			if isNilConst(e) {
				continue
			}
			f, prob := p.copyOf(e, depth+1)
			if prob != "" || f == "" || name != "" && f != name {
				return "", "merges different values"
			}
			name = f
		}
		if name != "" {
			return name, ""
		}
	}
	return "", "not an unchanged copy of an option"
}

func isFreshEmpty(v ssa.Value) bool {
	if isNilConst(v) {
		return true
	}
	if s, ok := v.(*ssa.Slice); ok {
		if al, ok := s.X.(*ssa.Alloc); ok {
			if a, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && a.Len() == 0 {
				return true
			}
			if hi, ok := constInt(s.High); s.High != nil && ok && hi == 0 {
				return true
			}
		}
	}
	if m, ok := v.(*ssa.MakeSlice); ok {
		if n, ok := constInt(m.Len); ok && n == 0 {
			return true
		}
	}
	return false
}

// returnsCopy: every return of g is its parameter, nil, or a full copy of the parameter.
func (p *Prog) returnsCopy(g *ssa.Function) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	made := map[ssa.Value]bool{}
	eachInstr(g, func(i ssa.Instruction) {
		if c := callOf(i); c != nil && calleeName(c) == "builtin copy" && c.Args[1] == ssa.Value(g.Params[0]) {
			if m, ok := c.Args[0].(*ssa.MakeSlice); ok {
				if l, ok := m.Len.(*ssa.Call); ok && calleeName(l.Common()) == "builtin len" && l.Call.Args[0] == ssa.Value(g.Params[0]) {
					made[m] = true
				}
			}
		}
	})
	var isCopy func(v ssa.Value) bool
	isCopy = func(v ssa.Value) bool {
		if v == ssa.Value(g.Params[0]) || isNilConst(v) || made[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.ChangeType:
			return isCopy(x.X)
		case *ssa.Call:
			switch calleeName(x.Common()) {
			case "slices.Clone":
				return isCopy(x.Call.Args[0])
			case "builtin append":
				return isFreshEmpty(x.Call.Args[0]) && isCopy(x.Call.Args[1])
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !isCopy(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(ret.Results) != 1 || !isCopy(retValues(ret)[0]) {
				return false
			}
		}
	}
	return true
}

func checkC07(p *Prog, r *Result) {
	r.Rule = "copy-flow over every construction and every update of a configuration: same-named option copied unchanged, updates only of options left empty; enumerations aligned by name; date order set before it is read"
	r.Explanation = "Every allocation of either Configuration type reachable from the entry points is examined: it is the empty default of a nil configuration, or each option is stored from the same-named option through identity steps only. Every later store to an option needs a dominating fact that the caller left it empty (or is one of the documented derivations: the per-locale date order and the search's restriction to its language). Enumerations of both packages have equal values under equal names. No nil configuration is passed on, and a configuration whose date order is read has it stored on every path. Every option has a consumer."
	reach := p.reachableRepo()
	rootT, intT := p.named("", "Configuration"), p.named("internal/setting", "Configuration")
	if rootT == nil || intT == nil {
		fatal("Configuration types not found")
	}
	// R2: enumerations
	for _, tn := range p.Pkgs[repoPkg("internal/setting")].Types.Scope().Names() {
		obj, ok := p.Pkgs[repoPkg("internal/setting")].Types.Scope().Lookup(tn).(*types.TypeName)
		if !ok || !isInt(obj.Type()) {
			continue
		}
		a, b := p.enumConsts("internal/setting", tn), p.enumConsts("", tn)
		if len(a) == 0 || len(b) == 0 {
			continue
		}
		r.Analysed["enumerations"]++
		for _, n := range sortedKeys(b) {
			v, ok := a[n]
			r.add(ok && v == b[n], "enumeration-aligned", tn+"."+n, p.pos(obj.Pos()), fmt.Sprintf("public value %d, internal value %d (present: %v)", b[n], v, ok))
		}
		for _, n := range sortedKeys(a) {
			if _, ok := b[n]; !ok {
				r.bad("enumeration-aligned", tn+"."+n, p.pos(obj.Pos()), "internal constant has no public counterpart")
			}
		}
	}
	r.floor("enumeration-aligned", 4)

	// R1: constructions
	built := map[ssa.Value]bool{}
	ordinal := map[string]int{}
	for _, f := range reach {
		eachInstr(f, func(i ssa.Instruction) {
			al, ok := i.(*ssa.Alloc)
			if !ok || !isCfgType(al.Type().Underlying().(*types.Pointer).Elem()) {
				return
			}
			if _, isPtr := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); isPtr {
				return
			}
			p.cfgAlloc(r, f, al, built, ordinal)
		})
	}
	r.floor("option-copied-unchanged", 10)

	// R3: updates
	for _, f := range reach {
		eachInstr(f, func(i ssa.Instruction) {
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isCfgType(fa.X.Type()) {
				if isCfgType(st.Val.Type()) && st.Val.Type().Underlying() == cfgStruct(st.Val.Type()) && !built[st.Addr] {
					if _, isAlloc := st.Addr.(*ssa.Alloc); !isAlloc {
						r.bad("update-only-empty-options", fnKey(f)+": whole configuration overwritten", p.instrPos(i), "a configuration is replaced as a whole")
					}
				}
				return
			}
			if built[fa.X] && buildingStore(st, fa.X) {
				return
			}
			p.cfgUpdate(r, f, st, fa, ordinal)
		})
	}
	r.floor("update-only-empty-options", 1)
	// a caller that hands out the address of an option could change it elsewhere
	for _, f := range reach {
		eachInstr(f, func(i ssa.Instruction) {
			fa, ok := i.(*ssa.FieldAddr)
			if !ok || !isCfgType(fa.X.Type()) {
				return
			}
			for _, rr := range *fa.Referrers() {
				switch x := rr.(type) {
				case *ssa.Store:
					if x.Addr != ssa.Value(fa) {
						r.bad("update-only-empty-options", fnKey(f)+": address of an option escapes", p.instrPos(rr), "the address of an option is stored")
					}
				case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
				case ssa.CallInstruction:
					// method call with pointer receiver on an option: not expected
					r.bad("update-only-empty-options", fnKey(f)+": address of an option passed to "+calleeShort(x.Common()), p.instrPos(rr), "the callee can change the option")
				}
			}
		})
	}

	// R4: no nil configuration handed on
	for _, f := range reach {
		eachInstr(f, func(i ssa.Instruction) {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, a := range ci.Common().Args {
				if _, isPtr := a.Type().Underlying().(*types.Pointer); !isPtr || !isCfgType(a.Type()) {
					continue
				}
				key := siteKey(i, "configuration passed to "+calleeShort(ci.Common()))
				if isNilConst(a) {
					r.bad("configuration-passed-on", key, p.instrPos(i), "a nil configuration is passed, all options are lost")
				} else {
					r.ok("configuration-passed-on", key, p.instrPos(i), "the configuration at hand is passed")
				}
			}
		})
	}
	r.floor("configuration-passed-on", 8)

	// R4b: results come from the right configuration: a function that has a clone or an initialised
	// configuration does not go back to a configuration lacking its defaults (nil dereference is C17)

	// R4b: a parameter that receives an option at one call receives no fixed value at another call made
	// with a configuration at hand
	nPassed := 0
	live := map[*ssa.Function]bool{}
	for _, f := range p.reachableRepo() {
		live[f] = true
	}
	for _, f := range p.reachableRepo() {
		for _, pr := range f.Params {
			if !isString(pr.Type()) && !isBool(pr.Type()) && !isInt(pr.Type()) {
				continue
			}
			opt := ""
			var fixed []ssa.CallInstruction
			for _, s := range p.callSites(f) {
				a := argFor(s, pr)
				if a == nil || !live[s.Parent()] {
					continue
				}
				if n := cfgField(a); n != "" {
					opt = n
					nPassed++
				}
				if _, isC := a.(*ssa.Const); isC && hasConfig(s.Parent()) {
					fixed = append(fixed, s)
				}
			}
			if opt == "" {
				continue
			}
			for _, s := range fixed {
				tested := false
				for _, fc := range facts(s.Block()) {
					tested = tested || dependsOn(fc.Cond, func(v ssa.Value) bool { return cfgField(v) == opt }, map[ssa.Value]bool{})
				}
				if tested {
					continue
				}
				r.bad("option-passed-on", siteKey(s, fnKey(f)+" "+pr.Name()), p.instrPos(s), "a fixed value is passed where other calls pass the option "+opt+": what the caller set is ignored here")
			}
			if len(fixed) == 0 {
				r.ok("option-passed-on", fnKey(f)+" "+pr.Name(), p.pos(f.Pos()), "every call made with a configuration passes the option "+opt)
			}
		}
	}
	r.Analysed["options passed to helpers"] = nPassed

	// R5: date order is set before it is read
	c := &orderCheck{p: p, r: r, reads: map[string]bool{}, busy: map[string]bool{}}
	c.run()

	// R6: every option has a consumer
	consumed := map[string]string{}
	for _, f := range reach {
		if returnsCfg(f) {
			continue
		}
		eachInstr(f, func(i ssa.Instruction) {
			if v, ok := i.(ssa.Value); ok {
				if n := cfgField(v); n != "" && !onlyCopied(v) {
					consumed[n] = fnKey(f)
				}
			}
		})
	}
	for _, n := range fieldNames(rootT) {
		w, ok := consumed[n]
		r.add(ok, "option-has-consumer", n, "-", okOr(map[bool]string{true: "", false: "no reachable component reads this option"}[ok], "read by "+w))
	}
	r.floor("option-has-consumer", 8)

	// R7: each component keeps honouring the options documented for it
	for _, pk := range sortedKeys(componentOptions) {
		var roots []*ssa.Function
		if sp := p.SSAPkgs[repoPkg(pk)]; sp != nil {
			for _, f := range reach {
				if f.Pkg == sp && f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil {
					roots = append(roots, f)
				}
			}
		}
		if len(roots) == 0 {
			r.bad("component-honours-option", pk, "-", "component not found")
			continue
		}
		got := map[string]string{}
		for f := range p.reachFrom(roots) {
			if !p.inRepo(f) || returnsCfg(f) {
				continue
			}
			eachInstr(f, func(i ssa.Instruction) {
				if v, ok := i.(ssa.Value); ok {
					if n := cfgField(v); n != "" && !onlyCopied(v) {
						if got[n] == "" || fnKey(f) < got[n] {
							got[n] = fnKey(f)
						}
					}
				}
			})
		}
		for _, o := range strings.Fields(componentOptions[pk]) {
			w := got[o]
			r.add(w != "", "component-honours-option", pk+" honours "+o, "-", okOr(map[bool]string{true: "", false: "the component no longer reads this option"}[w != ""], "read by "+w))
		}
	}
}

// componentOptions lists the options each component takes into account (confirmed by reading its code).
var componentOptions = map[string]string{
	"internal/parser/absolute":  "DateOrder CurrentTime DefaultTimezone PreferredDayOfMonth PreferredMonthOfYear PreferredDateSource StrictParsing RequiredParts ReturnTimeAsPeriod",
	"internal/parser/hijri":     "DateOrder CurrentTime DefaultTimezone PreferredDayOfMonth PreferredMonthOfYear PreferredDateSource StrictParsing RequiredParts ReturnTimeAsPeriod",
	"internal/parser/jalali":    "DateOrder CurrentTime DefaultTimezone PreferredDayOfMonth PreferredMonthOfYear PreferredDateSource StrictParsing RequiredParts ReturnTimeAsPeriod",
	"internal/parser/nospace":   "DateOrder CurrentTime StrictParsing RequiredParts",
	"internal/parser/relative":  "CurrentTime DefaultTimezone PreferredDateSource ReturnTimeAsPeriod PreserveEndOfMonth",
	"internal/parser/formatted": "CurrentTime PreferredDayOfMonth PreferredMonthOfYear",
	"internal/parser/timestamp": "CurrentTime DefaultTimezone",
	"internal/language":         "SkipTokens",
}

func fieldNames(n *types.Named) []string {
	var out []string
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, s.Field(i).Name())
	}
	return out
}

func returnsCfg(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isCfgType(f.Signature.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

// onlyCopied: the value is only stored into configuration fields.
func onlyCopied(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !isCfgType(fa.X.Type()) {
			return false
		}
	}
	return true
}

// buildingStore: the store happens in the block that allocates the object or before it can be read.
func buildingStore(st *ssa.Store, al ssa.Value) bool {
	a, ok := al.(*ssa.Alloc)
	return ok && st.Block() == a.Block()
}

// nilGuarded: the block is only reached when a configuration parameter is nil.
func nilGuarded(b *ssa.BasicBlock) bool {
	for _, f := range facts(b) {
		if bo, ok := f.Cond.(*ssa.BinOp); ok && (isNilConst(bo.Y) && isCfgType(bo.X.Type()) || isNilConst(bo.X) && isCfgType(bo.Y.Type())) {
			if (bo.Op == token.EQL) == f.Val {
				return true
			}
		}
	}
	return false
}

func (p *Prog) cfgAlloc(r *Result, f *ssa.Function, al *ssa.Alloc, built map[ssa.Value]bool, ordinal map[string]int) {
	st := cfgStruct(al.Type().Underlying().(*types.Pointer).Elem())
	whole := ""
	fieldStores := map[string][]*ssa.Store{}
	for _, rr := range *al.Referrers() {
		switch x := rr.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				continue
			}
			switch v := x.Val.(type) {
			case *ssa.Parameter:
				whole = "parameter"
			case *ssa.UnOp:
				whole = "copy"
			case *ssa.Const:
			default:
				_ = v
				whole = "other"
			}
		case *ssa.FieldAddr:
			for _, s := range *x.Referrers() {
				if s, ok := s.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
					_, n := fieldName(x)
					fieldStores[n] = append(fieldStores[n], s)
				}
			}
		}
	}
	if whole == "parameter" && len(fieldStores) == 0 {
		return // spill of a value parameter
	}
	built[al] = true
	tn := "Configuration"
	if typeIs(al.Type(), repoPkg("internal/setting"), "Configuration") {
		tn = "setting.Configuration"
	}
	base := fnKey(f) + " builds " + tn
	if whole == "" && len(fieldStores) == 0 {
		ordinal[base]++
		ok := nilGuarded(al.Block())
		r.add(ok, "empty-configuration-only-for-nil", base, p.instrPos(al), okOr(map[bool]string{true: "", false: "an empty configuration replaces the caller's options"}[ok], "only when the caller passed nil"))
		return
	}
	// fields that exist under the same name in a source of this function
	srcFields := map[string]types.Type{}
	for _, pr := range f.Params {
		if isCfgType(pr.Type()) {
			s := cfgStruct(pr.Type())
			for i := 0; i < s.NumFields(); i++ {
				srcFields[s.Field(i).Name()] = s.Field(i).Type()
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		key := base + ": " + n
		stores := fieldStores[n]
		if len(stores) == 0 {
			if whole != "" {
				r.ok("option-copied-unchanged", key, p.instrPos(al), "copied with the whole configuration")
				continue
			}
			srcT, has := srcFields[n]
			if has && !types.ConvertibleTo(srcT, st.Field(i).Type()) {
				continue // different kind of value (date order function / date order): rule date-order-set
			}
			if !has && len(srcFields) > 0 && tn != "setting.Configuration" {
				continue
			}
			r.bad("option-copied-unchanged", key, p.instrPos(al), "the option is not copied, its value is lost")
			continue
		}
		for _, s := range stores {
			if s.Block() != al.Block() {
				continue // an update: checked as such
			}
			src, prob := p.copyOf(s.Val, 0)
			switch {
			case prob != "":
				r.bad("option-copied-unchanged", key, p.instrPos(s), "the stored value is "+prob)
			case src != n:
				r.bad("option-copied-unchanged", key, p.instrPos(s), "filled from option "+src)
			default:
				r.ok("option-copied-unchanged", key, p.instrPos(s), "copied from the same option")
			}
		}
	}
}

// leftEmpty: the facts say that the named option (of some configuration) is empty.
func leftEmpty(fs []Fact, field string) bool {
	for _, f := range fs {
		switch x := f.Cond.(type) {
		case *ssa.BinOp:
			for k, a := range []ssa.Value{x.X, x.Y} {
				o := x.Y
				if k == 1 {
					o = x.X
				}
				if cfgField(a) == field {
					if isNilConst(o) || isZeroConst(o) {
						if (x.Op == token.EQL) == f.Val && (x.Op == token.EQL || x.Op == token.NEQ) {
							return true
						}
					}
				}
			}
		case *ssa.Call:
			if f.Val && strings.HasSuffix(calleeName(x.Common()), ".IsZero") && len(x.Call.Args) == 1 && cfgField(x.Call.Args[0]) == field {
				return true
			}
		}
		if emptyLenFact(f, field) {
			return true
		}
	}
	return false
}

func isZeroConst(v ssa.Value) bool {
	if k, ok := constInt(v); ok && k == 0 {
		return true
	}
	if s, ok := constString(v); ok && s == "" {
		return true
	}
	return false
}

// deepFacts adds what follows from knowing that a merged time value is not zero: the edges that
// deliver the zero value were not taken.
func deepFacts(fs []Fact) []Fact {
	out := append([]Fact{}, fs...)
	for k := 0; k < len(out) && k < 200; k++ {
		f := out[k]
		c, ok := f.Cond.(*ssa.Call)
		if !ok || f.Val || !strings.HasSuffix(calleeName(c.Common()), ".IsZero") || len(c.Call.Args) != 1 {
			continue
		}
		ph, ok := c.Call.Args[0].(*ssa.Phi)
		if !ok {
			continue
		}
		cand := -1
		for i, e := range ph.Edges {
			if k, isC := e.(*ssa.Const); isC && k.Value == nil {
				continue
			}
			if cand >= 0 {
				cand = -2
				break
			}
			cand = i
		}
		if cand < 0 || ph.Block().Dominates(ph.Block().Preds[cand]) {
			continue
		}
		pr := ph.Block().Preds[cand]
		for j, su := range pr.Succs {
			if su == ph.Block() {
				out = append(out, edgeFacts(pr, j)...)
				break
			}
		}
	}
	return out
}

// liftFacts decides pred on the facts at an instruction; boolean or configuration parameters are
// replaced by the arguments of every call site.
func (p *Prog) liftFacts(i ssa.Instruction, pred func([]Fact) bool, depth int) bool {
	fs := deepFacts(facts(i.Block()))
	if pred(fs) {
		return true
	}
	if depth > 5 {
		return false
	}
	f := i.Parent()
	sites := p.callSites(f)
	if len(sites) == 0 {
		return false
	}
	if f.Object() != nil && f.Object().Exported() && pkgOf(f) == modPath {
		return false
	}
	for _, s := range sites {
		var sub []Fact
		for _, ft := range fs {
			if pr, ok := ft.Cond.(*ssa.Parameter); ok {
				if a := argFor(s, pr); a != nil {
					sub = append(sub, expandFacts([]Fact{{a, ft.Val}})...)
				}
			}
		}
		if pred(deepFacts(sub)) {
			continue
		}
		if !p.liftFacts(s, func(g []Fact) bool {
			return pred(append(append([]Fact{}, g...), sub...)) || p.subPred(s, sub, pred, depth)
		}, depth+1) {
			return false
		}
	}
	return true
}

// subPred resolves argument values that are themselves parameters of the caller.
func (p *Prog) subPred(s ssa.CallInstruction, sub []Fact, pred func([]Fact) bool, depth int) bool {
	if depth > 4 {
		return false
	}
	any := false
	for _, f := range sub {
		pr, ok := f.Cond.(*ssa.Parameter)
		if !ok {
			continue
		}
		any = true
		for _, cs := range p.callSites(pr.Parent()) {
			a := argFor(cs, pr)
			if a == nil || !(pred(deepFacts(expandFacts([]Fact{{a, f.Val}}))) || p.subPred(cs, expandFacts([]Fact{{a, f.Val}}), pred, depth+1)) {
				return false
			}
		}
	}
	return any
}

func argFor(s ssa.CallInstruction, pr *ssa.Parameter) ssa.Value {
	for k, q := range pr.Parent().Params {
		if q == pr && k < len(s.Common().Args) && !s.Common().IsInvoke() {
			return s.Common().Args[k]
		}
	}
	return nil
}

func (p *Prog) cfgUpdate(r *Result, f *ssa.Function, st *ssa.Store, fa *ssa.FieldAddr, ordinal map[string]int) {
	_, n := fieldName(fa)
	key := fnKey(f) + " updates " + n
	pos := p.instrPos(st)
	internal := typeIs(fa.X.Type(), repoPkg("internal/setting"), "Configuration")
	if internal && n == "DateOrder" {
		prob := p.orderValue(st)
		r.add(prob == "", "update-only-empty-options", key, pos, okOr(prob, "the caller's valid order, otherwise the locale's or calendar's own"))
		return
	}
	// the same value put back
	if src, prob := p.copyOf(st.Val, 0); prob == "" && src == n {
		r.ok("update-only-empty-options", key, pos, "copied from the same option")
		return
	}
	if p.liftFacts(st, func(fs []Fact) bool { return leftEmpty(fs, n) }, 0) {
		r.ok("update-only-empty-options", key, pos, "only when the caller left the option empty")
		return
	}
	if n == "Locales" || n == "Languages" || n == "Region" {
		// a search parses its finds in the language it was given: the replaced options select languages only
		if p.onlyFromSearch(f) {
			r.ok("update-only-empty-options", key, pos, "search restricts its own copy to the language searched")
			return
		}
	}
	r.bad("update-only-empty-options", key, pos, "an option the caller may have set is replaced")
}

// onlyFromSearch: every entry point that reaches f is a search (it returns search results).
func (p *Prog) onlyFromSearch(f *ssa.Function) bool {
	n := 0
	for _, e := range p.entryPoints() {
		if _, ok := p.reachFrom([]*ssa.Function{e})[f]; !ok {
			continue
		}
		n++
		isSearch := false
		for i := 0; i < e.Signature.Results().Len(); i++ {
			if s, ok := e.Signature.Results().At(i).Type().Underlying().(*types.Slice); ok && typeIs(s.Elem(), modPath, "SearchResult") {
				isSearch = true
			}
		}
		if !isSearch {
			return false
		}
	}
	return n > 0
}

// orderValue checks the value stored as date order: the caller's order decides whenever it is valid.
func (p *Prog) orderValue(st *ssa.Store) string {
	fromCaller := false
	prob := ""
	seen := map[ssa.Value]bool{}
	base := map[Fact]bool{}
	for _, f := range facts(st.Block()) {
		base[f] = true
	}
	var walk func(v ssa.Value, fs []Fact, depth int)
	walk = func(v ssa.Value, fs []Fact, depth int) {
		if seen[v] || depth > 14 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				pr := x.Block().Preds[i]
				var ef []Fact
				for k, su := range pr.Succs {
					if su == x.Block() {
						ef = append(ef, edgeFacts(pr, k)...)
						break
					}
				}
				walk(e, ef, depth+1)
			}
		case *ssa.Extract:
			walk(x.Tuple, fs, depth+1)
		case *ssa.Parameter:
			for _, s := range p.callSites(x.Parent()) {
				if a := argFor(s, x); a != nil {
					for _, f := range facts(s.Block()) {
						base[f] = true
					}
					walk(a, nil, depth+1)
				}
			}
		case *ssa.Call:
			if u, ok := x.Call.Value.(*ssa.UnOp); ok && cfgField(u) == "DateOrder" {
				fromCaller = true
				for _, f := range fs {
					if base[f] || orderFact(f) && !ofLocaleAlone(f.Cond) {
						continue
					}
					prob = "the caller's date order is only used under an additional condition"
				}
				return
			}
			if x.Call.StaticCallee() == nil {
				// a copy of the function value
				if cfgField(x.Call.Value) == "DateOrder" {
					fromCaller = true
				}
				return
			}
			g := x.Call.StaticCallee()
			if p.inRepo(g) {
				for _, a := range x.Call.Args {
					if isString(a.Type()) {
						walk(a, fs, depth+1)
					}
				}
				// helper that consults the caller's function itself
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, rv := range retValues(ret) {
							if isString(rv.Type()) {
								walk(rv, facts(b), depth+1)
							}
						}
					}
				}
			} else {
				for _, a := range x.Call.Args {
					walk(a, fs, depth+1)
				}
			}
		}
	}
	walk(st.Val, nil, 0)
	if !fromCaller {
		return "the caller's date order function is not consulted"
	}
	return prob
}

// ofLocaleAlone: the condition looks at the locale's own data and not at what the caller's function returned.
func ofLocaleAlone(v ssa.Value) bool {
	local := dependsOn(v, func(x ssa.Value) bool {
		n, _ := fieldName(x)
		return n != nil && n.Obj().Name() == "LocaleData"
	}, map[ssa.Value]bool{})
	return local && !dependsOn(v, func(x ssa.Value) bool {
		c, ok := x.(*ssa.Call)
		if !ok || c.Call.StaticCallee() != nil {
			return false
		}
		return cfgField(c.Call.Value) == "DateOrder" || isString(c.Type())
	}, map[ssa.Value]bool{})
}

// orderFact: conditions that may decide whether the caller's order applies: it is set, it is valid, or a loop goes on.
func orderFact(f Fact) bool {
	switch x := f.Cond.(type) {
	case *ssa.BinOp:
		for _, a := range []ssa.Value{x.X, x.Y} {
			if cfgField(a) == "DateOrder" {
				return true
			}
			if isErrType(a.Type()) || isCfgType(a.Type()) {
				return true
			}
			if n := cfgField(a); n != "" {
				return false
			}
			// any order but a certain one
			if k, ok := constString(a); ok && k != "" && (x.Op == token.NEQ) == f.Val {
				return false
			}
		}
		if isInt(x.X.Type()) || isString(x.X.Type()) {
			return true
		}
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Next); ok {
			return true
		}
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			for _, a := range cl.Call.Args {
				if isString(a.Type()) {
					return true
				}
			}
		}
	case *ssa.Call:
		if strings.HasSuffix(calleeName(x.Common()), ".IsZero") {
			return true
		}
		for _, a := range x.Call.Args {
			if isString(a.Type()) {
				return true
			}
		}
	case *ssa.Phi:
		return true
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return orderFact(Fact{x.X, !f.Val})
		}
		n := cfgField(x)
		return n == "" || n == "DateOrder"
	}
	return false
}

// hasConfig: the function is given a configuration.
func hasConfig(f *ssa.Function) bool {
	for _, pr := range f.Params {
		if isCfgType(pr.Type()) {
			return true
		}
	}
	for _, fv := range f.FreeVars {
		t := fv.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok && !isCfgType(t) {
			t = pt.Elem()
		}
		if isCfgType(t) {
			return true
		}
	}
	return false
}

// orderCheck: wherever a component reads the date order, it was stored in that configuration before.
type orderCheck struct {
	p     *Prog
	r     *Result
	reads map[string]bool
	busy  map[string]bool
}

// readsOrder: f reads DateOrder of its k-th parameter, directly or through calls.
func (c *orderCheck) readsOrder(f *ssa.Function, k int) bool {
	key := fnKey(f) + "#" + itoa(k)
	if v, ok := c.reads[key]; ok {
		return v
	}
	if c.busy[key] || k >= len(f.Params) {
		return false
	}
	c.busy[key] = true
	defer delete(c.busy, key)
	res := false
	if !returnsCfg(f) {
		res = c.aliasReads(f, f.Params[k])
	}
	c.reads[key] = res
	return res
}

// aliasReads: the date order of the configuration v is read in f, in a callee it is passed to, or
// from a struct field it is kept in.
func (c *orderCheck) aliasReads(f *ssa.Function, v ssa.Value) bool {
	alias := map[ssa.Value]bool{v: true}
	for ch := true; ch; {
		ch = false
		eachInstr(f, func(i ssa.Instruction) {
			if ph, ok := i.(*ssa.Phi); ok && !alias[ph] {
				for _, e := range ph.Edges {
					if alias[e] {
						alias[ph] = true
						ch = true
					}
				}
			}
		})
	}
	res := false
	eachInstr(f, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.FieldAddr:
			if alias[x.X] {
				if _, n := fieldName(x); n == "DateOrder" {
					for _, rr := range *x.Referrers() {
						if _, ok := rr.(*ssa.UnOp); ok {
							res = true
						}
					}
				}
			}
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && alias[x.Val] {
				n, name := fieldName(fa)
				if n != nil && c.fieldReads(n, name) {
					res = true
				}
			}
		case ssa.CallInstruction:
			for _, g := range c.p.callees(x) {
				if !c.p.inRepo(g) {
					continue
				}
				for n, a := range x.Common().Args {
					if alias[a] && c.readsOrder(g, n) {
						res = true
					}
				}
			}
		}
	})
	return res
}

// fieldReads: some function reads the date order of the configuration kept in a struct field.
func (c *orderCheck) fieldReads(n *types.Named, field string) bool {
	key := "field " + n.String() + "." + field
	if v, ok := c.reads[key]; ok {
		return v
	}
	c.reads[key] = false
	res := false
	for _, f := range c.p.reachableRepo() {
		eachInstr(f, func(i ssa.Instruction) {
			u, ok := i.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return
			}
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if m, name := fieldName(fa); m != nil && m.Obj() == n.Obj() && name == field && c.aliasReads(f, u) {
					res = true
				}
			}
		})
	}
	c.reads[key] = res
	return res
}

func (c *orderCheck) run() {
	n := 0
	for _, f := range c.p.reachableRepo() {
		eachInstr(f, func(i ssa.Instruction) {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, g := range c.p.callees(ci) {
				if !c.p.inRepo(g) {
					continue
				}
				for k, a := range ci.Common().Args {
					if !typeIs(a.Type(), repoPkg("internal/setting"), "Configuration") || !c.readsOrder(g, k) {
						continue
					}
					if _, isParam := a.(*ssa.Parameter); isParam {
						continue // obligation of the callers
					}
					n++
					prob := c.orderSet(a, i, 0)
					c.r.add(prob == "", "date-order-set-before-read", siteKey(i, calleeShort(ci.Common())), c.p.instrPos(i), okOr(prob, "the date order was stored in this configuration on every path"))
				}
			}
		})
	}
	c.r.floor("date-order-set-before-read", 1)
}

// orderSet: on every path to instruction i, the date order was stored in configuration v.
func (c *orderCheck) orderSet(v ssa.Value, i ssa.Instruction, depth int) string {
	if depth > 6 {
		return "cannot tell where the configuration comes from"
	}
	set := func(at ssa.Instruction) bool {
		for _, rr := range *v.Referrers() {
			fa, ok := rr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			if _, n := fieldName(fa); n != "DateOrder" {
				continue
			}
			for _, s := range *fa.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && st.Parent() == at.Parent() && dominates(st, at) {
					return true
				}
			}
		}
		return false
	}
	if set(i) {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for k, e := range x.Edges {
			pr := x.Block().Preds[k]
			if prob := c.orderSet(e, pr.Instrs[len(pr.Instrs)-1], depth+1); prob != "" {
				return prob
			}
		}
		return ""
	case *ssa.Parameter:
		for _, s := range c.p.callSites(x.Parent()) {
			if a := argFor(s, x); a != nil {
				if prob := c.orderSet(a, s, depth+1); prob != "" {
					return prob
				}
			}
		}
		return ""
	case *ssa.FreeVar:
		if mc := closureOf(x.Parent()); mc != nil {
			for k, fv := range x.Parent().FreeVars {
				if fv == x && k < len(mc.Bindings) {
					return c.orderSet(mc.Bindings[k], mc, depth+1)
				}
			}
		}
	case *ssa.UnOp:
		// a variable that closures share
		var at ssa.Instruction = i
		cell := x.X
		for n := 0; n < 6; n++ {
			fv, ok := cell.(*ssa.FreeVar)
			if !ok {
				break
			}
			mc := closureOf(fv.Parent())
			if mc == nil {
				break
			}
			for k, o := range fv.Parent().FreeVars {
				if o == fv && k < len(mc.Bindings) {
					cell, at = mc.Bindings[k], mc
				}
			}
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return c.orderSetInField(fa.X.Type(), fa.Field, depth)
		}
		al, ok := cell.(*ssa.Alloc)
		if !ok || x.Op != token.MUL {
			break
		}
		st := soleStore(al)
		if st == nil {
			break
		}
		for _, rr := range refs(al) {
			if ld, ok := rr.(*ssa.UnOp); ok && ld != x {
				for _, r2 := range refs(ld) {
					fa, ok := r2.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if _, n := fieldName(fa); n != "DateOrder" {
						continue
					}
					for _, r3 := range refs(fa) {
						if s3, ok := r3.(*ssa.Store); ok && s3.Addr == ssa.Value(fa) && s3.Parent() == at.Parent() && dominates(s3, at) {
							return ""
						}
					}
				}
			}
		}
		return c.orderSet(st.Val, at, depth+1)
	case *ssa.Field:
		return c.orderSetInField(x.X.Type(), x.Field, depth)
	case *ssa.Extract, *ssa.Call:
		cl, idx := callResult(v)
		if cl == nil {
			return "cannot tell where the configuration comes from"
		}
		g := cl.Common().StaticCallee()
		if g == nil || !c.p.inRepo(g) {
			return "the configuration comes from outside"
		}
		// a copy keeps the order of its source if it copies the option
		if g.Name() == "Clone" && len(cl.Call.Args) == 1 && isCfgType(cl.Call.Args[0].Type()) {
			src := cl.Call.Args[0]
			if u, ok := src.(*ssa.UnOp); ok && u.Op == token.MUL {
				src = u.X
			}
			return c.orderSet(src, cl, depth+1)
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
				rv := retValues(ret)[idx]
				if isNilConst(rv) {
					continue
				}
				if prob := c.orderSet(rv, ret, depth+1); prob != "" {
					return "date order was never stored in this configuration (made by " + fnKey(g) + ")"
				}
			}
		}
		return ""
	case *ssa.Alloc:
		for _, rr := range *x.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				if u, ok := st.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
					return c.orderSet(u.X, st, depth+1)
				}
			}
		}
		return "date order was never stored in this configuration"
	}
	return "cannot tell where the configuration comes from"
}

// orderSetInField: a configuration handed around inside a structure has its date order set
// whenever it is put there.
func (c *orderCheck) orderSetInField(t types.Type, field int, depth int) string {
	named := func(t types.Type) types.Type {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		return t
	}
	t = named(t)
	n, prob := 0, ""
	for _, f := range c.p.reachableRepo() {
		eachInstr(f, func(i ssa.Instruction) {
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fa.Field != field || !types.Identical(named(fa.X.Type()), t) {
				return
			}
			n++
			if q := c.orderSet(st.Val, st, depth+1); q != "" && prob == "" {
				prob = q
			}
		})
	}
	if n == 0 {
		return "cannot tell where the configuration comes from"
	}
	return prob
}
