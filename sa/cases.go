package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// caseEval folds values and prunes branches under one case: a set of assumptions about the input and the configuration.
type caseEval struct {
	p *Prog
	// assume gives the value of an expression in this case.
	assume func(z *caseEval, x cval) (constant.Value, bool)
	// base: the expression depends on the case in a way that cannot be folded; known: operands do not matter.
	base func(z *caseEval, x cval) (dep, known bool)
	// both: branches that depend on the case in a way that is not understood are taken both ways,
	// otherwise they are not followed at all.
	both bool

	ctxs map[ckey]*cctx
	live map[zkey]map[refEdge]bool
	fns  map[*ssa.Function]bool
	deps map[ssa.Value]int
	fdep map[*ssa.Function]int
	n    int
}

func newCaseEval(p *Prog, assume func(*caseEval, cval) (constant.Value, bool), base func(*caseEval, cval) (bool, bool)) *caseEval {
	return &caseEval{p: p, assume: assume, base: base, ctxs: map[ckey]*cctx{}, live: map[zkey]map[refEdge]bool{}, fns: map[*ssa.Function]bool{},
		deps: map[ssa.Value]int{}, fdep: map[*ssa.Function]int{}}
}

func (z *caseEval) enter(site ssa.CallInstruction, g *ssa.Function, up *cctx) *cctx {
	n := 0
	for u := up; u != nil; u = u.up {
		n++
		if u.fn == g {
			return nil
		}
	}
	if n > 14 || len(g.Blocks) == 0 {
		return nil
	}
	k := ckey{site, g, up}
	if z.ctxs[k] == nil {
		z.ctxs[k] = &cctx{site, g, up, n + 1}
	}
	z.fns[g] = true
	return z.ctxs[k]
}

// fold evaluates a value to a constant; nil if it is not known.
func (z *caseEval) fold(x cval, depth int) constant.Value {
	z.n++
	if depth > 14 {
		return nil
	}
	x = x.res()
	if k, ok := z.assume(z, x); ok {
		return k
	}
	switch y := x.v.(type) {
	case *ssa.Const:
		return y.Value
	case *ssa.UnOp:
		switch y.Op {
		case token.NOT, token.SUB:
			if k := z.fold(cval{y.X, x.c}, depth+1); k != nil {
				return constant.UnaryOp(y.Op, k, 0)
			}
		case token.MUL:
			return z.foldAll(z.sources(x, depth+1), depth)
		}
	case *ssa.Field:
		return z.foldAll(z.sources(x, depth+1), depth)
	case *ssa.BinOp:
		a, b := z.fold(cval{y.X, x.c}, depth+1), z.fold(cval{y.Y, x.c}, depth+1)
		if a == nil || b == nil || a.Kind() != b.Kind() {
			return nil
		}
		switch y.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.Kind() == constant.Bool && y.Op != token.EQL && y.Op != token.NEQ {
				return nil
			}
			return constant.MakeBool(constant.Compare(a, y.Op, b))
		case token.ADD, token.SUB, token.MUL:
			if a.Kind() == constant.Int || a.Kind() == constant.String && y.Op == token.ADD {
				return constant.BinaryOp(a, y.Op, b)
			}
		case token.AND, token.OR:
			if a.Kind() == constant.Int {
				return constant.BinaryOp(a, y.Op, b)
			}
		}
	case *ssa.Phi:
		if inLoopPhi(y) {
			return nil
		}
		var out constant.Value
		for k, e := range y.Edges {
			if !z.liveEdge(y.Block(), k, x.c) {
				continue
			}
			v := z.fold(cval{e, x.c}, depth+1)
			if v == nil || out != nil && (v.Kind() != out.Kind() || !constant.Compare(out, token.EQL, v)) {
				return nil
			}
			out = v
		}
		return out
	case *ssa.Call, *ssa.Extract:
		cl, idx := callResult(x.v)
		if cl == nil {
			return nil
		}
		if bi, ok := cl.Call.Value.(*ssa.Builtin); ok {
			return z.foldBuiltin(bi.Name(), cl, x.c, depth)
		}
		g := cl.Call.StaticCallee()
		if g == nil {
			return nil
		}
		if !z.p.inRepo(g) {
			return z.foldStd(calleeName(cl.Common()), cl, x.c, depth)
		}
		c := z.enter(cl, g, x.c)
		if c == nil {
			return nil
		}
		var vs []cval
		for _, ret := range z.liveReturns(g, c) {
			if idx < len(ret.Results) {
				vs = append(vs, cval{ret.Results[idx], c})
			}
		}
		return z.foldAll(vs, depth)
	}
	return nil
}

func (z *caseEval) foldAll(vs []cval, depth int) constant.Value {
	var out constant.Value
	for _, v := range vs {
		k := z.fold(v, depth+1)
		if k == nil || out != nil && (k.Kind() != out.Kind() || !constant.Compare(out, token.EQL, k)) {
			return nil
		}
		out = k
	}
	return out
}

// sources: the values that may be in a loaded local variable or in a field of a (local) structure; nil if not known.
func (z *caseEval) sources(x cval, depth int) []cval {
	if depth > 14 {
		return nil
	}
	switch y := x.v.(type) {
	case *ssa.UnOp:
		switch a := y.X.(type) {
		case *ssa.Alloc:
			return z.reaching(a, -1, y, x.c)
		case *ssa.FieldAddr:
			switch b := a.X.(type) {
			case *ssa.Alloc:
				return z.reaching(b, a.Field, y, x.c)
			case *ssa.Parameter:
				// a structure passed by address
				if q := (cval{b, x.c}).res(); q.v != ssa.Value(b) {
					if al, ok := q.v.(*ssa.Alloc); ok {
						if at, ok := ssa.Instruction(nil), x.c != nil && x.c.site != nil; ok {
							at = x.c.site
							return z.reaching(al, a.Field, at, q.c)
						}
					}
				}
			}
		}
	case *ssa.Field:
		return z.field(cval{y.X, x.c}, y.Field, depth+1)
	}
	return nil
}

// field: the values of the field of a structure value.
func (z *caseEval) field(x cval, n, depth int) []cval {
	if depth > 14 {
		return nil
	}
	x = x.res()
	switch y := x.v.(type) {
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
			return z.reaching(al, n, y, x.c)
		}
	case *ssa.Phi:
		if inLoopPhi(y) {
			return nil
		}
		var out []cval
		for k, e := range y.Edges {
			if !z.liveEdge(y.Block(), k, x.c) {
				continue
			}
			s := z.field(cval{e, x.c}, n, depth+1)
			if s == nil {
				return nil
			}
			out = append(out, s...)
		}
		return out
	case *ssa.Call, *ssa.Extract:
		cl, idx := callResult(x.v)
		if cl == nil {
			return nil
		}
		g := cl.Call.StaticCallee()
		if g == nil || !z.p.inRepo(g) {
			return nil
		}
		c := z.enter(cl, g, x.c)
		if c == nil {
			return nil
		}
		var out []cval
		for _, ret := range z.liveReturns(g, c) {
			if idx >= len(ret.Results) {
				return nil
			}
			s := z.field(cval{ret.Results[idx], c}, n, depth+1)
			if s == nil {
				return nil
			}
			out = append(out, s...)
		}
		return out
	}
	return nil
}

// reaching: the values last stored in a local variable (n < 0) or in field n of it.
func (z *caseEval) reaching(al *ssa.Alloc, n int, at ssa.Instruction, c *cctx) []cval {
	var out []cval
	good := true
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for k := from; k >= 0; k-- {
			switch s := b.Instrs[k].(type) {
			case *ssa.Alloc:
				if s == al {
					t := al.Type().Underlying().(*types.Pointer).Elem()
					if n >= 0 {
						if st, ok := t.Underlying().(*types.Struct); ok {
							t = st.Field(n).Type()
						}
					}
					if _, ok := t.Underlying().(*types.Basic); ok {
						out = append(out, cval{ssa.NewConst(zeroConst(t), t), c})
					} else {
						out = append(out, cval{ssa.NewConst(nil, t), c})
					}
					return
				}
			case *ssa.Store:
				if s.Addr == ssa.Value(al) {
					if n < 0 {
						out = append(out, cval{s.Val, c})
					} else if f := z.field(cval{s.Val, c}, n, 3); f != nil {
						out = append(out, f...)
					} else if _, isC := s.Val.(*ssa.Const); isC {
						continue
					} else {
						good = false
					}
					return
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(al) {
					if n < 0 {
						good = false
						return
					}
					if fa.Field == n {
						out = append(out, cval{s.Val, c})
						return
					}
				}
			}
		}
		for k, pr := range b.Preds {
			if z.liveEdge(b, k, c) && !seen[pr] {
				seen[pr] = true
				walk(pr, len(pr.Instrs)-1)
			}
		}
	}
	walk(at.Block(), instrIndex(at)-1)
	if !good {
		return nil
	}
	return out
}

func zeroConst(t types.Type) constant.Value {
	switch b := t.Underlying().(*types.Basic); {
	case b.Info()&types.IsBoolean != 0:
		return constant.MakeBool(false)
	case b.Info()&types.IsString != 0:
		return constant.MakeString("")
	case b.Info()&types.IsInteger != 0:
		return constant.MakeInt64(0)
	case b.Info()&types.IsFloat != 0:
		return constant.MakeFloat64(0)
	}
	return nil
}

func (z *caseEval) foldBuiltin(name string, cl *ssa.Call, c *cctx, depth int) constant.Value {
	args := cl.Call.Args
	switch name {
	case "len":
		a := cval{args[0], c}.res()
		if isNilConst(a.v) {
			return constant.MakeInt64(0)
		}
		if sl, ok := a.v.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
			if pt, ok := sl.X.Type().Underlying().(*types.Pointer); ok {
				if ar, ok := pt.Elem().Underlying().(*types.Array); ok {
					return constant.MakeInt64(ar.Len())
				}
			}
		}
		if k := z.fold(a, depth+1); k != nil && k.Kind() == constant.String {
			return constant.MakeInt64(int64(len(constant.StringVal(k))))
		}
	case "min", "max":
		var out constant.Value
		for _, a := range args {
			k := z.fold(cval{a, c}, depth+1)
			if k == nil || k.Kind() != constant.Int {
				return nil
			}
			if out == nil || constant.Compare(k, token.LSS, out) == (name == "min") {
				out = k
			}
		}
		return out
	}
	return nil
}

// foldStd: pure functions of package strings, and formatting a constant time.
func (z *caseEval) foldStd(nm string, cl *ssa.Call, c *cctx, depth int) constant.Value {
	if !strings.HasPrefix(nm, "strings.") && nm != "(time.Time).Format" {
		return nil
	}
	var s []string
	for k, a := range cl.Call.Args {
		if nm == "(time.Time).Format" && k == 0 {
			s = append(s, "")
			continue
		}
		v := z.fold(cval{a, c}, depth+1)
		if v == nil || v.Kind() != constant.String {
			return nil
		}
		s = append(s, constant.StringVal(v))
	}
	mb, mi, ms := constant.MakeBool, func(n int) constant.Value { return constant.MakeInt64(int64(n)) }, constant.MakeString
	switch nm {
	case "strings.Contains":
		return mb(strings.Contains(s[0], s[1]))
	case "strings.ContainsAny":
		return mb(strings.ContainsAny(s[0], s[1]))
	case "strings.HasPrefix":
		return mb(strings.HasPrefix(s[0], s[1]))
	case "strings.HasSuffix":
		return mb(strings.HasSuffix(s[0], s[1]))
	case "strings.EqualFold":
		return mb(strings.EqualFold(s[0], s[1]))
	case "strings.Index":
		return mi(strings.Index(s[0], s[1]))
	case "strings.IndexAny":
		return mi(strings.IndexAny(s[0], s[1]))
	case "strings.LastIndex":
		return mi(strings.LastIndex(s[0], s[1]))
	case "strings.Count":
		return mi(strings.Count(s[0], s[1]))
	case "strings.Compare":
		return mi(strings.Compare(s[0], s[1]))
	case "strings.ToLower":
		return ms(strings.ToLower(s[0]))
	case "strings.ToUpper":
		return ms(strings.ToUpper(s[0]))
	case "strings.TrimSpace":
		return ms(strings.TrimSpace(s[0]))
	case "strings.ReplaceAll":
		return ms(strings.ReplaceAll(s[0], s[1], s[2]))
	case "strings.TrimPrefix":
		return ms(strings.TrimPrefix(s[0], s[1]))
	case "strings.TrimSuffix":
		return ms(strings.TrimSuffix(s[0], s[1]))
	case "(time.Time).Format":
		if t, ok := z.constTime(cval{cl.Call.Args[0], c}, depth+1); ok {
			return ms(t.Format(s[1]))
		}
	}
	return nil
}

// constTime: a time built from constants, in UTC.
func (z *caseEval) constTime(x cval, depth int) (t time.Time, ok bool) {
	x = x.res()
	if u, isU := x.v.(*ssa.UnOp); isU && u.Op == token.MUL {
		if g, isG := u.X.(*ssa.Global); isG {
			// a package-level variable set once
			if st := z.p.globalStores()[g]; len(st) == 1 {
				return z.constTime(cval{st[0].Val, nil}, depth+1)
			}
			return
		}
		if vs := z.sources(x, depth); len(vs) == 1 {
			return z.constTime(vs[0], depth+1)
		}
		return
	}
	cl, isC := x.v.(*ssa.Call)
	if !isC || calleeName(cl.Common()) != "time.Date" || depth > 14 {
		return
	}
	var n [7]int
	for k := range n {
		v := z.fold(cval{cl.Call.Args[k], x.c}, depth+1)
		if v == nil {
			return
		}
		i, exact := constant.Int64Val(v)
		if !exact {
			return
		}
		n[k] = int(i)
	}
	if u, isU := cl.Call.Args[7].(*ssa.UnOp); !isU {
		return
	} else if g, isG := u.X.(*ssa.Global); !isG || g.Name() != "UTC" {
		return
	}
	return time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], n[5], n[6], time.UTC), true
}

// cond evaluates a condition: 1 true, 2 false, 0 not known.
func (z *caseEval) cond(x cval) int {
	k := z.fold(x, 0)
	if k == nil || k.Kind() != constant.Bool {
		return 0
	}
	if constant.BoolVal(k) {
		return 1
	}
	return 2
}

// depends reports whether a value depends on the case.
func (z *caseEval) depends(x cval, depth int) bool {
	x = x.res()
	if depth > 40 {
		return true
	}
	if t := x.v.Type(); t != nil && (isTime(t) || isLocation(t) || typeIs(t, repoPkg("date"), "Date")) {
		return false
	}
	if d, known := z.base(z, x); known {
		return d
	}
	if s := z.deps[x.v]; s != 0 && x.c == nil {
		return s == 2
	}
	i, ok := x.v.(ssa.Instruction)
	if !ok {
		return false
	}
	if x.c == nil {
		z.deps[x.v] = 1
	}
	out := false
	if ph, isPhi := x.v.(*ssa.Phi); isPhi && inLoopPhi(ph) {
		// once is enough
		for _, e := range ph.Edges {
			if e != ssa.Value(ph) && z.depends(cval{e, nil}, depth+4) {
				out = true
			}
			if f, isPhi := e.(*ssa.Phi); isPhi && !out && isBool(f.Type()) {
				for _, pr := range f.Block().Preds {
					for _, w := range append([]*ssa.BasicBlock{pr}, pr.Preds...) {
						if iff, isIf := w.Instrs[len(w.Instrs)-1].(*ssa.If); isIf && z.depends(cval{iff.Cond, x.c}, depth+4) {
							out = true
						}
					}
				}
			}
		}
		if isBool(ph.Type()) && !out {
			for _, pr := range ph.Block().Preds {
				for _, w := range append([]*ssa.BasicBlock{pr}, pr.Preds...) {
					if iff, isIf := w.Instrs[len(w.Instrs)-1].(*ssa.If); isIf && ph.Block().Dominates(w) && z.depends(cval{iff.Cond, x.c}, depth+4) {
						out = true
					}
				}
			}
		}
	} else {
		for _, op := range i.Operands(nil) {
			if op != nil && *op != nil && z.depends(cval{*op, x.c}, depth+1) {
				out = true
			}
		}
		if ph, isPhi := x.v.(*ssa.Phi); isPhi && !out && isBool(ph.Type()) {
			for _, pr := range ph.Block().Preds {
				if iff, isIf := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); isIf && z.depends(cval{iff.Cond, x.c}, depth+1) {
					out = true
				}
			}
		}
	}
	if al, isA := x.v.(*ssa.Alloc); isA && !out {
		for _, st := range storesInto(al, 0) {
			if z.depends(cval{st.Val, x.c}, depth+1) {
				out = true
			}
		}
	}
	if cl, isC := x.v.(*ssa.Call); isC && !out {
		if g := cl.Call.StaticCallee(); g != nil && z.p.inRepo(g) && z.fnDepends(g, 0) {
			out = true
		}
	}
	if x.c == nil {
		z.deps[x.v] = 1
		if out {
			z.deps[x.v] = 2
		}
	}
	return out
}

func (z *caseEval) fnDepends(g *ssa.Function, depth int) bool {
	if s := z.fdep[g]; s != 0 {
		return s == 2
	}
	z.fdep[g] = 1
	out := false
	eachInstr(g, func(i ssa.Instruction) {
		if v, ok := i.(ssa.Value); ok && !out {
			out, _ = z.base(z, cval{v, nil})
		}
		if cl := callOf(i); cl != nil && depth < 4 && !out {
			if h := cl.StaticCallee(); h != nil && z.p.inRepo(h) && z.fnDepends(h, depth+1) {
				out = true
			}
		}
	})
	if out {
		z.fdep[g] = 2
	}
	return out
}

// edges: the branches of f that can be taken.
func (z *caseEval) edges(f *ssa.Function, c *cctx) map[refEdge]bool {
	if len(f.Blocks) == 0 {
		return nil
	}
	k := zkey{f, c, 9}
	if m, ok := z.live[k]; ok {
		return m
	}
	m := map[refEdge]bool{}
	z.live[k] = m
	var cut []*ssa.BasicBlock
	done := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{f.Blocks[0]}
	for len(st) > 0 {
		best := 0
		for i, b := range st {
			ready := true
			for _, pr := range b.Preds {
				if !done[pr] && !b.Dominates(pr) && reachesUndone(st, pr, b, done) {
					ready = false
				}
			}
			if ready {
				best = i
				break
			}
		}
		b := st[best]
		st = append(st[:best], st[best+1:]...)
		if done[b] {
			continue
		}
		done[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			switch z.cond(cval{iff.Cond, c}) {
			case 1:
				m[refEdge{b, 0}] = true
				st = append(st, b.Succs[0])
				continue
			case 2:
				m[refEdge{b, 1}] = true
				st = append(st, b.Succs[1])
				continue
			}
			if !z.both && z.depends(cval{iff.Cond, c}, 0) && !collects(b) {
				cut = append(cut, b)
				continue
			}
		}
		for j, s := range b.Succs {
			m[refEdge{b, j}] = true
			st = append(st, s)
		}
	}
	// neither is what comes after a loop with such a branch
	lost := false
	for _, b := range cut {
		for e := range m {
			if inLoop(b) && canReach(b, e.b) && canReach(e.b, b) && !canReach(e.b.Succs[e.k], b) && e.b.Succs[e.k] != b {
				delete(m, e)
				lost = true
			}
		}
	}
	if lost {
		seen := map[*ssa.BasicBlock]bool{f.Blocks[0]: true}
		st = append(st[:0], f.Blocks[0])
		for len(st) > 0 {
			b := st[len(st)-1]
			st = st[:len(st)-1]
			for j, s := range b.Succs {
				if m[refEdge{b, j}] && !seen[s] {
					seen[s] = true
					st = append(st, s)
				}
			}
		}
		for e := range m {
			if !seen[e.b] {
				delete(m, e)
			}
		}
	}
	return m
}

// collects: the branch is part of a loop that only collects something, both ways stay in the loop.
func collects(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if !canReach(s, b) {
			return false
		}
	}
	for _, s := range b.Succs {
		if len(s.Preds) != 1 {
			continue
		}
		for _, d := range b.Parent().Blocks {
			if !s.Dominates(d) || !canReach(d, b) {
				continue
			}
			for _, i := range d.Instrs {
				if v, ok := i.(ssa.Value); ok && isTime(v.Type()) {
					return false
				}
			}
		}
	}
	return true
}

func (z *caseEval) liveEdge(b *ssa.BasicBlock, k int, c *cctx) bool {
	m := z.edges(b.Parent(), c)
	pr := b.Preds[k]
	for j, s := range pr.Succs {
		if s == b && m[refEdge{pr, j}] {
			return true
		}
	}
	return false
}

func (z *caseEval) liveBlock(b *ssa.BasicBlock, c *cctx) bool {
	if b.Index == 0 {
		return true
	}
	for k := range b.Preds {
		if z.liveEdge(b, k, c) {
			return true
		}
	}
	return false
}

func (z *caseEval) liveReturns(g *ssa.Function, c *cctx) (out []*ssa.Return) {
	for _, ret := range returnsOf(g) {
		if z.liveBlock(ret.Block(), c) {
			out = append(out, ret)
		}
	}
	return
}
