package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C16"] = checkC16 }

func checkC16(p *Prog, r *Result) {
	r.Explanation = "Obligations: range (each range holds exactly decimal digits whose value is the one they are converted to, no overlap), coverage (no decimal digit of the Unicode tables is missing), convert (the arithmetic and its bounds), digits-only (a rune is only replaced by its conversion and only if it is a decimal digit), tries-all (no digit is given up before every range was tried)."
	r.Rule = "The digit ranges are folded from their literal and compared with the decimal digits of the Unicode tables of the Go version in use; the conversion function is decided on SSA: it yields '0' plus the offset within the range modulo ten for code points inside the range, and only converts decimal digits."
	pkg := p.Pkgs[modPath+"/internal/digit"]
	sp := p.SSAPkgs[modPath+"/internal/digit"]
	if pkg == nil || sp == nil {
		fatal("package internal/digit not found")
	}
	// the table: a package-level list of structs with two rune fields
	e := &foldEnv{p: p, pkg: pkg}
	type rng struct{ lo, hi int64 }
	var ranges []rng
	var table *types.Var
	for _, n := range pkg.Types.Scope().Names() {
		v, ok := pkg.Types.Scope().Lookup(n).(*types.Var)
		if !ok {
			continue
		}
		var elem types.Type
		switch t := v.Type().Underlying().(type) {
		case *types.Slice:
			elem = t.Elem()
		case *types.Array:
			elem = t.Elem()
		default:
			continue
		}
		st, ok := elem.Underlying().(*types.Struct)
		if !ok || st.NumFields() < 2 {
			continue
		}
		table = v
		l := e.lit(varInit(pkg, v))
		if l == nil {
			r.bad("table", n, p.pos(v.Pos()), "the digit table is not a literal")
			continue
		}
		for _, el := range l.Elts {
			cl := e.lit(el)
			if cl == nil {
				r.bad("table", n, p.pos(el.Pos()), "entry is not a literal")
				continue
			}
			a, b := pairFields(cl, st.Field(0).Name(), st.Field(1).Name())
			if a == nil || b == nil {
				r.bad("table", n, p.pos(el.Pos()), "entry lacks a bound")
				continue
			}
			lo, ok1 := e.int(a)
			hi, ok2 := e.int(b)
			key := runeName(lo) + "-" + runeName(hi)
			prob := ""
			switch {
			case !ok1 || !ok2:
				prob = "bounds are not constant"
			case lo > hi:
				prob = "the range is empty"
			default:
				for c := lo; c <= hi && prob == ""; c++ {
					if !unicode.Is(unicode.Nd, rune(c)) {
						// letters in between are never converted (see digits-only), but a digit range has no reason to hold them
						prob = runeName(c) + " inside the range is not a decimal digit"
					} else if v, ok := digitValue(rune(c)); !ok || v != (c-lo)%10 {
						prob = runeName(c) + " would be converted to " + itoa(int((c-lo)%10)) + " but its value is " + itoa(int(v))
					}
				}
				for _, o := range ranges {
					if lo <= o.hi && o.lo <= hi {
						prob = "overlaps the range " + runeName(o.lo) + "-" + runeName(o.hi)
					}
				}
				ranges = append(ranges, rng{lo, hi})
			}
			r.add(prob == "", "range", key, p.pos(el.Pos()), okOr(prob, "every code point is the decimal digit with the value it is converted to"))
		}
	}
	if table == nil {
		fatal("the digit table was not found")
	}
	// coverage
	covered, total := 0, 0
	missing := ""
	nd, version := p.stdDigits()
	for _, c := range nd {
		total++
		in := false
		for _, g := range ranges {
			in = in || g.lo <= c && c <= g.hi
		}
		if in {
			covered++
		} else if missing == "" {
			missing = runeName(c)
		}
	}
	r.Analysed["decimal digits of Unicode "+version] = total
	r.Analysed["ranges"] = len(ranges)
	r.add(missing == "", "coverage", "all decimal digits", p.pos(table.Pos()), okOr(map[bool]string{true: "the decimal digit " + missing + " is in no range (" + itoa(total-covered) + " missing)"}[missing != ""], "every decimal digit is in exactly one range"))
	p.digitCode(r, sp)
	r.floor("range", 60)
	r.floor("coverage", 1)
	r.floor("convert", 1)
	r.floor("digits-only", 1)
	r.floor("tries-all", 1)
}

func runeName(c int64) string {
	const hex = "0123456789ABCDEF"
	s := ""
	for i := 0; i < 6 || c > 0; i++ {
		if c == 0 && i >= 4 {
			break
		}
		s = string(hex[c%16]) + s
		c /= 16
	}
	return "U+" + s
}

// digitValue is the numeric value of a decimal digit: Unicode allocates decimal digits in runs of ten,
// the zero being the first of each run of the Nd category.
func digitValue(c rune) (int64, bool) {
	if !unicode.Is(unicode.Nd, c) {
		return 0, false
	}
	lo := c
	for unicode.Is(unicode.Nd, lo-1) {
		lo--
	}
	return int64(c-lo) % 10, true
}

// stdDigits folds the decimal digit category from the source of the standard library the repository is built with.
func (p *Prog) stdDigits() ([]int64, string) {
	pkg := p.All["unicode"]
	if pkg == nil {
		fatal("the unicode package of the standard library is not loaded")
	}
	e := &foldEnv{p: p, pkg: pkg}
	version := "?"
	if c, ok := pkg.Types.Scope().Lookup("Version").(*types.Const); ok {
		version = constant.StringVal(c.Val())
	}
	v, _ := pkg.Types.Scope().Lookup("_Nd").(*types.Var)
	if v == nil {
		fatal("the table of decimal digits was not found in the standard library")
	}
	l := e.lit(varInit(pkg, v))
	var out []int64
	for _, el := range l.Elts {
		kv := el.(*ast.KeyValueExpr)
		rl := e.lit(kv.Value)
		if rl == nil {
			continue
		}
		for _, x := range rl.Elts {
			xl := e.lit(x)
			if xl == nil || len(xl.Elts) != 3 {
				fatal("unexpected form of the standard library's digit table")
			}
			lo, _ := e.int(xl.Elts[0])
			hi, _ := e.int(xl.Elts[1])
			st, _ := e.int(xl.Elts[2])
			for c := lo; c <= hi && st > 0; c += st {
				out = append(out, c)
			}
		}
	}
	if len(out) < 600 {
		fatal("only %d decimal digits found in the standard library", len(out))
	}
	return out, version
}

// digitCode decides the conversion on SSA. A conversion site is an arithmetic expression that yields the
// ASCII digit: '0' + (r-start)%10. Wherever a rune of the text is replaced, the replacement is such a value of
// the same rune and the rune is known to be a decimal digit.
func (p *Prog) digitCode(r *Result, sp *ssa.Package) {
	var fns []*ssa.Function
	for _, f := range p.reachableRepo() {
		if pkgOf(f) == sp.Pkg.Path() {
			fns = append(fns, f)
		}
	}
	conv := map[*ssa.Function]bool{}
	for _, f := range fns {
		eachInstr(f, func(i ssa.Instruction) {
			bo, ok := i.(*ssa.BinOp)
			if !ok || !isInt(bo.Type()) || bo.Op != token.ADD {
				return
			}
			x, zero := bo.X, bo.Y
			if k, ok := constInt(x); ok && k == '0' {
				x, zero = zero, x
			}
			if k, ok := constInt(zero); !ok || k != '0' {
				return
			}
			conv[f] = true
			prob := digitTerm(x)
			if prob == "" {
				prob = p.insideRange(i.Block(), x)
			}
			r.add(prob == "", "convert", fnKey(f), p.instrPos(i), okOr(prob, "'0' plus the offset from the start of the range modulo ten, for runes inside the range only"))
		})
	}
	// replacements of runes
	sites := func(at ssa.Instruction, v ssa.Value) {
		f := at.Parent()
		plain, digit, other := p.runeLeaves(v, at.Block(), conv, map[ssa.Value]bool{})
		if plain && !other && digit == 0 {
			return // the rune is kept
		}
		isDigit := digit != 2
		r.add(isDigit, "digits-only", fnKey(f)+" replaces a rune", p.instrPos(at), okOr(map[bool]string{false: "a rune is replaced although it may not be a decimal digit"}[isDigit], "the rune is known to be a decimal digit"))
		// the new value is a conversion result known to have succeeded
		r.add(!other, "digits-only", fnKey(f)+" stores the conversion", p.instrPos(at), okOr(map[bool]string{false: "the replacement is not the converted digit"}[!other], "the replacement is the converted digit"))
	}
	for _, f := range fns {
		eachInstr(f, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.IndexAddr); ok && isRune(x.Val.Type()) {
					sites(i, x.Val)
				}
			case *ssa.Call:
				switch calleeName(x.Common()) {
				case "(*strings.Builder).WriteRune":
					sites(i, x.Call.Args[1])
				case "strings.Map":
					var g *ssa.Function
					switch a := x.Call.Args[0].(type) {
					case *ssa.MakeClosure:
						g = a.Fn.(*ssa.Function)
					case *ssa.Function:
						g = a
					}
					if g == nil {
						return
					}
					for _, b := range g.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							sites(ret, ret.Results[0])
						}
					}
				}
			}
		})
	}
	p.triesAll(r, fns, conv)
	if len(conv) == 0 {
		r.bad("convert", "digit conversion", "-", "no conversion of the form '0' plus value was found")
	}
}

// digitTerm checks that v is (r - start) % 10.
func digitTerm(v ssa.Value) string {
	v = strip(v)
	if digitSub(v) != nil && loopReduced(v) {
		return ""
	}
	bo, ok := v.(*ssa.BinOp)
	if !ok {
		return "the value added to '0' is not an offset modulo ten"
	}
	if bo.Op != token.REM {
		return "the offset within the range is not reduced modulo ten, although ranges may hold several sets of digits"
	}
	if k, ok := constInt(bo.Y); !ok || k != 10 {
		return "the offset within the range is not reduced modulo ten"
	}
	sub, ok := strip(bo.X).(*ssa.BinOp)
	if !ok || sub.Op != token.SUB {
		return "the value converted is not an offset from the start of the range"
	}
	if _, n := loadedField(sub.Y); n == "" {
		return "the offset is not taken from the start of the range"
	}
	return ""
}

// insideRange checks that the conversion only runs for runes between both bounds (inclusive) of the same range.
func (p *Prog) insideRange(b *ssa.BasicBlock, term ssa.Value) string {
	sub := digitSub(term)
	if sub == nil {
		return ""
	}
	r := strip(sub.X)
	_, start := loadedField(sub.Y)
	lower, upper := false, false
	for _, g := range deepFacts(facts(b)) {
		c, ok := g.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := c.Op
		x, y := strip(c.X), strip(c.Y)
		if !g.Val {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			case token.GEQ:
				op = token.LSS
			default:
				continue
			}
		}
		if sameRune(y, r) {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !sameRune(x, r) {
			continue
		}
		_, n := loadedField(y)
		switch {
		case n == start && op == token.GEQ:
			lower = true
		case n == start && op == token.GTR:
			return "the first digit of a range is not converted"
		case n != "" && n != start && op == token.LEQ:
			upper = true
		case n != "" && n != start && op == token.LSS:
			return "the last digit of a range is not converted"
		}
	}
	if !lower || !upper {
		return "the conversion also runs for runes outside the range"
	}
	return ""
}

// digitSub is the difference between the rune and the start of the range under the reduction modulo ten.
func digitSub(v ssa.Value) *ssa.BinOp {
	v = strip(v)
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.REM {
		v = strip(bo.X)
	} else if ph, ok := v.(*ssa.Phi); ok && loopReduced(v) {
		for i, e := range ph.Edges {
			if !ph.Block().Dominates(ph.Block().Preds[i]) {
				v = strip(e)
			}
		}
	}
	bo, ok := v.(*ssa.BinOp)
	if !ok || bo.Op != token.SUB {
		return nil
	}
	if _, n := loadedField(bo.Y); n == "" {
		return nil
	}
	return bo
}

// loopReduced: v is lowered by ten until it is below ten.
func loopReduced(v ssa.Value) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	h := ph.Block()
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok || c.X != v {
		return false
	}
	k, isC := constInt(c.Y)
	if !isC || !(c.Op == token.GEQ && k == 10 || c.Op == token.GTR && k == 9) {
		return false
	}
	for i, e := range ph.Edges {
		if !h.Dominates(h.Preds[i]) {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.Op != token.SUB || bo.X != v {
			return false
		}
		if k, ok := constInt(bo.Y); !ok || k != 10 {
			return false
		}
	}
	return true
}

func isRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// knownDigit: the block is only reached for a decimal digit.
func (p *Prog) knownDigit(b *ssa.BasicBlock, seen map[*ssa.Function]bool) bool {
	for _, g := range deepFacts(facts(b)) {
		cl, ok := g.Cond.(*ssa.Call)
		if ok && g.Val && calleeName(cl.Common()) == "unicode.IsDigit" {
			return true
		}
		if ok && g.Val && calleeName(cl.Common()) == "unicode.Is" {
			if u, ok := cl.Call.Args[0].(*ssa.UnOp); ok {
				if gl, ok := u.X.(*ssa.Global); ok && (gl.Name() == "Nd" || gl.Name() == "Digit") {
					return true
				}
			}
		}
	}
	f := b.Parent()
	if seen[f] {
		return false
	}
	seen[f] = true
	calls := p.callSites(f)
	for _, c := range calls {
		if !p.knownDigit(c.Block(), seen) {
			return false
		}
	}
	return len(calls) > 0
}

// runeLeaves classifies what a rune written can be: the rune of the text as it was (plain), a converted digit
// (1 when the rune is known to be a digit there, 2 otherwise), or something else.
func (p *Prog) runeLeaves(v ssa.Value, b *ssa.BasicBlock, conv map[*ssa.Function]bool, seen map[ssa.Value]bool) (plain bool, digit int, other bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	join := func(v ssa.Value, b *ssa.BasicBlock) {
		pl, d, o := p.runeLeaves(v, b, conv, seen)
		plain, other = plain || pl, other || o
		digit = max(digit, d)
	}
	known := func() {
		if p.knownDigit(b, map[*ssa.Function]bool{}) {
			digit = max(digit, 1)
		} else {
			digit = 2
		}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			join(e, x.Block().Preds[i])
		}
		return
	case *ssa.Parameter, *ssa.FreeVar:
		return true, 0, false
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Next); ok {
			return true, 0, false
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if _, ok := x.X.(*ssa.IndexAddr); ok {
				return true, 0, false
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				sts, _ := cellStores(al)
				for _, st := range sts {
					join(st.Val, st.Block())
				}
				return
			}
		}
	case *ssa.BinOp:
		k1, ok1 := constInt(x.X)
		k2, ok2 := constInt(x.Y)
		if x.Op == token.ADD && (ok1 && k1 == '0' || ok2 && k2 == '0') {
			known()
			return
		}
	case *ssa.Convert:
		join(x.X, b)
		return
	}
	if cl, idx := callResult(v); cl != nil {
		g := cl.Call.StaticCallee()
		if conv[g] {
			known()
			return
		}
		if g != nil && strings.HasPrefix(pkgOf(g), modPath) && len(g.Blocks) > 0 {
			for _, gb := range g.Blocks {
				if ret, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
					join(ret.Results[idx], gb)
				}
			}
			if digit == 2 && p.knownDigit(b, map[*ssa.Function]bool{}) {
				digit = 1
			}
			return
		}
	}
	return false, 0, true
}

// converted: the block is only reached after a conversion succeeded.
func converted(b *ssa.BasicBlock, conv map[*ssa.Function]bool) bool {
	for _, g := range deepFacts(facts(b)) {
		if cl, idx := callResult(g.Cond); cl != nil && idx > 0 && g.Val && conv[cl.Call.StaticCallee()] {
			return true
		}
	}
	return false
}

func sameRune(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && ua.Op == token.MUL && ub.Op == token.MUL && ua.X == ub.X
}

// triesAll checks that a decimal digit is only given up after every range of the table was tried.
func (p *Prog) triesAll(r *Result, fns []*ssa.Function, conv map[*ssa.Function]bool) {
	for _, f := range fns {
		// the loop over the table that attempts conversions
		var headers []*ssa.BasicBlock
		attempt := map[*ssa.BasicBlock]bool{}
		eachInstr(f, func(i ssa.Instruction) {
			if cl, ok := i.(*ssa.Call); ok && conv[cl.Call.StaticCallee()] {
				attempt[i.Block()] = true
			}
			if bo, ok := i.(*ssa.BinOp); ok && conv[f] && bo.Op == token.ADD {
				if k, ok := constInt(bo.X); ok && k == '0' {
					attempt[i.Block()] = true
				}
			}
		})
		prob := ""
		for _, b := range f.Blocks {
			if !attempt[b] {
				continue
			}
			h := loopHeader(b)
			if h == nil {
				continue
			}
			full, isTable := p.tableLoop(h)
			if !isTable {
				continue
			}
			if !full {
				prob = "the loop over the ranges does not try all of them"
			}
			headers = append(headers, h)
		}
		if len(headers) == 0 {
			continue
		}
		success := map[*ssa.BasicBlock]bool{}
		var starts []*ssa.BasicBlock
		eachInstr(f, func(i ssa.Instruction) {
			if st, ok := i.(*ssa.Store); ok {
				if _, ok := st.Addr.(*ssa.IndexAddr); ok {
					success[i.Block()] = true
				}
			}
			if _, ok := i.(*ssa.Return); ok && converted(i.Block(), conv) {
				success[i.Block()] = true
			}
			if cl, ok := i.(*ssa.Call); ok && calleeName(cl.Common()) == "(*strings.Builder).WriteRune" && converted(i.Block(), conv) {
				success[i.Block()] = true
			}
			if iff, ok := i.(*ssa.If); ok {
				if cl, ok := iff.Cond.(*ssa.Call); ok && strings.HasPrefix(calleeName(cl.Common()), "unicode.Is") {
					starts = append(starts, i.Block().Succs[0])
				}
			}
		})
		if len(starts) == 0 {
			starts = []*ssa.BasicBlock{f.Blocks[0]}
		}
		isHeader := map[*ssa.BasicBlock]bool{}
		for _, h := range headers {
			isHeader[h] = true
		}
		for _, s := range starts {
			outer := loopHeader(s)
			seen := map[*ssa.BasicBlock]bool{}
			var visit func(b *ssa.BasicBlock)
			visit = func(b *ssa.BasicBlock) {
				if seen[b] || success[b] || isHeader[b] {
					return
				}
				seen[b] = true
				_, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if isRet || b == outer {
					prob = "a decimal digit can be left unconverted without trying every range"
					return
				}
				for _, su := range b.Succs {
					visit(su)
				}
			}
			visit(s)
		}
		// no rune is passed over before it is asked whether it is a digit
		for _, b := range f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cl, ok := iff.Cond.(*ssa.Call)
			if !ok || !strings.HasPrefix(calleeName(cl.Common()), "unicode.Is") {
				continue
			}
			h := loopHeader(b)
			if h == nil || isHeader[h] {
				continue
			}
			for _, su := range h.Succs {
				if su != h && inSameLoop(h, su) && !cutPaths(su, h, func(x *ssa.BasicBlock, k int) bool {
					return x == b || beforeDigits(x, k)
				}) && su != b {
					prob = "a character can be passed over without asking whether it is a digit"
				}
			}
		}
		for _, h := range headers {
			for _, b := range f.Blocks {
				if !inSameLoop(h, b) || b == h || success[b] {
					continue
				}
				for _, su := range b.Succs {
					if inSameLoop(h, su) || success[su] || su == h {
						continue
					}
					if ret, ok := su.Instrs[len(su.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
						if len(facts(su)) > 0 {
							continue // a conversion result being returned
						}
					}
					if !storesAfter(su, success, loopHeader(h)) {
						prob = "the loop over the ranges is left before a range matched"
					}
				}
			}
		}
		r.add(prob == "", "tries-all", fnKey(f), p.pos(f.Pos()), okOr(prob, "every range of the table is tried before a digit is left as it is"))
	}
}

// storesAfter reports whether every path from b stores a rune before it ends or the next round begins.
func storesAfter(b *ssa.BasicBlock, success map[*ssa.BasicBlock]bool, outer *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if success[b] || seen[b] {
			return true
		}
		seen[b] = true
		if b == outer || len(b.Succs) == 0 {
			return false
		}
		for _, su := range b.Succs {
			if !visit(su) {
				return false
			}
		}
		return true
	}
	return visit(b)
}

// tableLoop recognises a loop whose counter runs over a package-level table; full means from its first to its last entry.
func (p *Prog) tableLoop(h *ssa.BasicBlock) (full, isTable bool) {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false, false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS && c.Op != token.GTR && c.Op != token.NEQ {
		return false, false
	}
	x, y := c.X, c.Y
	if c.Op == token.GTR {
		x, y = y, x
	}
	exact := false
	if cl, ok := y.(*ssa.Call); ok {
		if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && wholeGlobal(cl.Call.Args[0]) {
			exact = true
		}
	} else if k, ok := constInt(y); ok {
		// a constant bound must be the table's length
		n := p.indexedTableLen(h)
		if n < 0 {
			return false, false
		}
		if k != n {
			return false, true
		}
		exact = true
	}
	if !exact {
		if !dependsOn(y, func(v ssa.Value) bool {
			cl, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			b, ok := cl.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "len" && rootGlobal(cl.Call.Args[0]) != nil
		}, map[ssa.Value]bool{}) {
			return false, false
		}
		return false, true
	}
	return fromZero(x, h), true
}

// fromZero: x is a counter that takes 0, 1, 2, … at the loop test.
// wholeGlobal: all of a package variable, not a part of it.
func wholeGlobal(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global)
		return ok && x.Op == token.MUL
	case *ssa.Slice:
		return (x.Low == nil || isZeroConst(x.Low)) && x.High == nil && (wholeGlobal(x.X) || isGlobal(x.X))
	}
	return false
}

func isGlobal(v ssa.Value) bool { _, ok := v.(*ssa.Global); return ok }

// indexedTableLen is the length of the package-level table indexed in the loop, or -1.
func (p *Prog) indexedTableLen(h *ssa.BasicBlock) int64 {
	n := int64(-1)
	for _, b := range h.Parent().Blocks {
		if !inSameLoop(h, b) {
			continue
		}
		for _, i := range b.Instrs {
			ia, ok := i.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			g := rootGlobal(ia.X)
			if g == nil {
				continue
			}
			t := g.Type().Underlying().(*types.Pointer).Elem().Underlying()
			if at, ok := t.(*types.Array); ok {
				n = at.Len()
			} else if sl, ok := p.initValue(g).(*ssa.Slice); ok {
				if pt, ok := sl.X.Type().Underlying().(*types.Pointer); ok {
					if at, ok := pt.Elem().Underlying().(*types.Array); ok {
						n = at.Len()
					}
				}
			}
		}
	}
	return n
}

func fromZero(x ssa.Value, h *ssa.BasicBlock) bool {
	start := int64(0)
	ph, ok := x.(*ssa.Phi)
	if !ok {
		// range loops test the incremented counter
		bo, ok := x.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD {
			return false
		}
		if k, ok := constInt(bo.Y); !ok || k != 1 {
			return false
		}
		ph, ok = bo.X.(*ssa.Phi)
		if !ok {
			return false
		}
		start = -1
	}
	if ph.Block() != h {
		return false
	}
	for i, e := range ph.Edges {
		if h.Dominates(h.Preds[i]) {
			if e == x {
				continue
			}
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD || bo.X != ssa.Value(ph) {
				return false
			}
			if k, ok := constInt(bo.Y); !ok || k != 1 {
				return false
			}
			continue
		}
		if k, ok := constInt(e); !ok || k != start {
			return false
		}
	}
	return true
}

// beforeDigits: the branch is taken for characters before the first digit that is not ASCII only, or it
// depends on a function of the program.
func beforeDigits(x *ssa.BasicBlock, k int) bool {
	iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	for _, f := range expandFacts([]Fact{{iff.Cond, k == 0}}) {
		if _, isCall := f.Cond.(*ssa.Call); isCall {
			return true
		}
		bo, ok := f.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op, c := bo.Op, bo.Y
		n, isC := constInt(c)
		if !isC {
			if n, isC = constInt(bo.X); !isC {
				continue
			}
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !f.Val {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			}
		}
		if (op == token.LSS || op == token.LEQ) && n < 0x660 {
			return true
		}
	}
	return false
}
