package main

import (
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Difference bounds: is a - b <= c for two integer quantities at a program point? A quantity is an
// SSA value, the length of a string, slice, array or channel, or the number of characters of a
// string, plus a constant. The question is answered from the definitions of both sides, from the
// branches taken on the way to the point, from the callers (for parameters), from the returns (for
// results) and from what is known of library functions. Loops are handled by induction over their
// phis. Nothing is executed; what can not be shown is answered with no.

type atomKind int

const (
	atomVal   atomKind = iota // the value itself (nil value: zero)
	atomLen                   // its length
	atomRunes                 // its number of characters
)

type atom struct {
	v ssa.Value
	k atomKind
}

// lin is atom + c.
type lin struct {
	atom
	c int64
}

// loc is the start of a block (e 0) or one of its outgoing edges (e-1), where the branch taken there
// is known as well.
type loc struct {
	b *ssa.BasicBlock
	e int
}

func (l loc) facts() []Fact {
	if l.e > 0 {
		return edgeFacts(l.b, l.e-1)
	}
	return facts(l.b)
}

func startOf(b *ssa.BasicBlock) loc { return loc{b: b} }

type open struct {
	at     loc
	c      int64
	rounds int
}

type bquery struct {
	a, b atom
	at   loc
}

type prover struct {
	p          *Prog
	stack      map[[2]atom][]open
	rounds     int // loop or call edges crossed on the way to the current question
	done       map[bquery]map[int64]bool
	depth      int
	steps      int
	used       map[string]bool // what was used besides the code itself
	reps       map[ssa.Value]ssa.Value
	inFact     map[bquery]bool
	mem        map[memKey]ssa.Value
	priv       map[*ssa.Alloc]bool
	assume     int // number of answers that rest on an open induction hypothesis
	busy       map[ssa.Value]bool
	elemBusy   bool
	openStores map[storeTag]int64
}

const maxSteps = 60000

func (p *Prog) newProver() *prover {
	return &prover{p: p, reps: map[ssa.Value]ssa.Value{}, used: map[string]bool{}}
}

// le: a <= b whenever block at is executed.
func (q *prover) le(a, b lin, blk *ssa.BasicBlock) bool {
	q.reset()
	return q.diff(a.atom, b.atom, b.c-a.c, startOf(blk))
}

// reset starts a new question.
func (q *prover) reset() {
	q.stack = map[[2]atom][]open{}
	q.rounds = 0
	q.done = map[bquery]map[int64]bool{}
	q.depth, q.steps = 0, 0
	q.openStores, q.elemBusy, q.assume = nil, false, 0
	q.inFact = map[bquery]bool{}
	q.busy = map[ssa.Value]bool{}
}

func (q *prover) leq(a, b lin, at loc) bool {
	return q.diff(a.atom, b.atom, b.c-a.c, at)
}

func konst(n int64) lin { return lin{c: n} }

// nonneg: 0 <= a.
func (q *prover) ge(a lin, n int64, at *ssa.BasicBlock) bool { return q.le(konst(n), a, at) }

// norm writes an integer value as atom + constant.
func (q *prover) norm(v ssa.Value) lin {
	var c int64
	for n := 0; n < 40; n++ {
		if k, ok := constInt(v); ok {
			return lin{c: c + k}
		}
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Convert:
			if widening(x.X.Type(), x.Type()) {
				v = x.X
				continue
			}
		case *ssa.BinOp:
			if x.Op == token.ADD {
				if k, ok := constInt(x.Y); ok {
					c, v = c+k, x.X
					continue
				}
				if k, ok := constInt(x.X); ok {
					c, v = c+k, x.Y
					continue
				}
			}
			if x.Op == token.SUB && !isUnsigned(x.Type()) {
				if k, ok := constInt(x.Y); ok {
					c, v = c-k, x.X
					continue
				}
				if x.X == x.Y {
					return lin{c: c}
				}
			}
			if x.Op == token.MUL {
				if k, ok := constInt(x.Y); ok && k == 1 {
					v = x.X
					continue
				}
			}
		case *ssa.Call:
			switch calleeName(&x.Call) {
			case "builtin len", "len":
				l := q.lenOf(x.Call.Args[0])
				l.c += c
				return l
			case "unicode/utf8.RuneCountInString":
				return lin{atom{q.rep(x.Call.Args[0]), atomRunes}, c}
			}
			if f := x.Call.StaticCallee(); f != nil && q.p.inRepo(f) {
				if r := q.single(f, 0, x); r != nil {
					v = r
					continue
				}
			}
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				if f := cl.Call.StaticCallee(); f != nil && q.p.inRepo(f) {
					if r := q.single(f, x.Index, cl); r != nil {
						v = r
						continue
					}
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				r := q.rep(v)
				if r != v {
					v = r
					continue
				}
			}
		}
		break
	}
	return lin{atom{v: v}, c}
}

// single: the only value the function returns, if it is one of its arguments or a constant.
func (q *prover) single(f *ssa.Function, idx int, cl *ssa.Call) ssa.Value {
	var out ssa.Value
	for _, ret := range returnsOf(f) {
		vs := retValues(ret)
		if idx >= len(vs) {
			return nil
		}
		v := vs[idx]
		if pr, ok := v.(*ssa.Parameter); ok {
			v = q.argFor(f, pr, cl)
		} else if _, ok := v.(*ssa.Const); !ok {
			return nil
		}
		if v == nil || out != nil && out != v && !sameConst(out, v) {
			return nil
		}
		out = v
	}
	return out
}

func (q *prover) argFor(f *ssa.Function, pr *ssa.Parameter, cl ssa.CallInstruction) ssa.Value {
	for k, x := range f.Params {
		if x == pr && !cl.Common().IsInvoke() && k < len(cl.Common().Args) {
			return cl.Common().Args[k]
		}
	}
	return nil
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func bitsOf(t types.Type) (bits int, unsigned bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	default:
		bits = 64
	}
	return bits, b.Info()&types.IsUnsigned != 0, true
}

// widening: every value of the first integer type is a value of the second.
func widening(from, to types.Type) bool {
	fb, fu, ok1 := bitsOf(from)
	tb, tu, ok2 := bitsOf(to)
	if !ok1 || !ok2 {
		return false
	}
	if fu == tu {
		return tb >= fb
	}
	return fu && !tu && tb > fb
}

// lenOf is the length of v as atom + constant.
func (q *prover) lenOf(v ssa.Value) lin {
	for n := 0; n < 40; n++ {
		if s, ok := constString(v); ok {
			return konst(int64(len(s)))
		}
		if isNilConst(v) {
			return konst(0)
		}
		if ar := arrayOf(v.Type()); ar != nil {
			return konst(ar.Len())
		}
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MakeInterface:
			return lin{atom{v: v, k: atomLen}, 0}
		case *ssa.Convert:
			// string <-> []byte keep the length
			if isString(x.X.Type()) && isByteSlice(x.Type()) || isByteSlice(x.X.Type()) && isString(x.Type()) {
				v = x.X
				continue
			}
			if isString(x.X.Type()) && isRuneSlice(x.Type()) {
				return lin{atom{q.rep(x.X), atomRunes}, 0}
			}
		case *ssa.MakeSlice:
			return q.norm(x.Len)
		case *ssa.Slice:
			lo := konst(0)
			if x.Low != nil {
				lo = q.norm(x.Low)
			}
			var hi lin
			if x.High != nil {
				hi = q.norm(x.High)
			} else if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				ar := arrayOf(pt.Elem())
				if ar == nil {
					return lin{atom{v: v, k: atomLen}, 0}
				}
				hi = konst(ar.Len())
			} else {
				hi = q.lenOf(x.X)
			}
			if lo.v == nil {
				hi.c -= lo.c
				return hi
			}
			if hi.atom == lo.atom {
				return konst(hi.c - lo.c)
			}
		case *ssa.Call:
			switch calleeName(&x.Call) {
			case "append", "builtin append":
				a := q.lenOf(x.Call.Args[0])
				b := q.lenOf(x.Call.Args[1])
				if b.v == nil {
					a.c += b.c
					return a
				}
				if a.v == nil {
					b.c += a.c
					return b
				}
				// append(x[:i], x[j:]...): len(x) - (j - i)
				if s1, ok := x.Call.Args[0].(*ssa.Slice); ok && s1.Low == nil && s1.High != nil {
					if s2, ok := x.Call.Args[1].(*ssa.Slice); ok && s2.High == nil && s2.Low != nil && q.rep(s1.X) == q.rep(s2.X) {
						i, j := q.norm(s1.High), q.norm(s2.Low)
						if i.atom == j.atom {
							l := q.lenOf(s1.X)
							l.c -= j.c - i.c
							return l
						}
					}
				}
			case "slices.Delete":
				i, j := q.norm(x.Call.Args[1]), q.norm(x.Call.Args[2])
				if i.atom == j.atom {
					l := q.lenOf(x.Call.Args[0])
					l.c -= j.c - i.c
					return l
				}
			case "slices.Insert":
				l, k := q.lenOf(x.Call.Args[0]), q.lenOf(x.Call.Args[2])
				if k.v == nil {
					l.c += k.c
					return l
				}
			case "slices.Clone", "slices.Grow", "slices.Clip", "slices.Sorted", "strings.Clone", "slices.Reverse":
				if x.Call.Args[0] != nil && calleeName(&x.Call) != "slices.Sorted" {
					v = x.Call.Args[0]
					continue
				}
			}
			if f := x.Call.StaticCallee(); f != nil && q.p.inRepo(f) {
				if r := q.single(f, 0, x); r != nil {
					v = r
					continue
				}
			}
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				if f := cl.Call.StaticCallee(); f != nil && q.p.inRepo(f) {
					if r := q.single(f, x.Index, cl); r != nil {
						v = r
						continue
					}
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if g, ok := x.X.(*ssa.Global); ok {
					if n, ok := q.globalLen(g); ok {
						return konst(n)
					}
				}
				if r := q.rep(v); r != v {
					v = r
					continue
				}
			}
		}
		break
	}
	return lin{atom{v: v, k: atomLen}, 0}
}

func arrayOf(t types.Type) *types.Array {
	if a, ok := t.Underlying().(*types.Array); ok {
		return a
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if a, ok := pt.Elem().Underlying().(*types.Array); ok {
			return a
		}
	}
	return nil
}

func isByteSlice(t types.Type) bool { return sliceOfKind(t, types.Uint8) }
func isRuneSlice(t types.Type) bool { return sliceOfKind(t, types.Int32) }
func sliceOfKind(t types.Type, k types.BasicKind) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

// globalLen: the fixed length of a package variable's list or map.
func (q *prover) globalLen(g *ssa.Global) (int64, bool) {
	v := q.p.initValue(g)
	if v == nil || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return 0, false
	}
	if mk, ok := v.(*ssa.MakeMap); ok {
		n := int64(0)
		keys := map[string]bool{}
		for _, r := range *mk.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok {
				if c, ok := mu.Key.(*ssa.Const); ok && !keys[c.String()] {
					keys[c.String()] = true
					n++
				} else {
					return 0, false
				}
			}
		}
		if q.mapWritten(g) {
			return 0, false
		}
		return n, true
	}
	l := q.lenOf(v)
	if l.v == nil {
		return l.c, true
	}
	return 0, false
}

// mapWritten: some function other than the initialiser updates a map of this variable.
func (q *prover) mapWritten(g *ssa.Global) bool {
	for _, f := range q.p.fnSrc {
		w := false
		eachInstr(f, func(i ssa.Instruction) {
			if mu, ok := i.(*ssa.MapUpdate); ok {
				if u, ok := mu.Map.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
					w = true
				}
			}
			if c := callOf(i); c != nil {
				switch calleeName(c) {
				case "delete", "builtin delete", "maps.Copy", "maps.DeleteFunc", "clear", "builtin clear":
					if u, ok := c.Args[0].(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						w = true
					}
				}
			}
		})
		if w {
			return true
		}
	}
	return false
}

// rep names the value a load yields by an earlier load or store of the same variable with no
// write in between.
func (q *prover) rep(v ssa.Value) ssa.Value {
	if r, ok := q.reps[v]; ok {
		return r
	}
	q.reps[v] = v
	r := q.rep1(v)
	q.reps[v] = r
	return r
}

func (q *prover) rep1(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *memPhi:
		if r := x.only(); r != nil {
			return q.rep(r)
		}
		if x.same != nil {
			return q.rep(x.same)
		}
	case *ssa.ChangeType:
		return q.rep(x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return v
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			if r := q.reaching(al, x); r != nil {
				return q.rep(r)
			}
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			// a captured variable assigned once before the closure is made
			if r := capturedValue(fv); r != nil {
				return q.rep(r)
			}
		}
		if g, ok := x.X.(*ssa.Global); ok {
			if q.p.initValue(g) != nil {
				return g // constant variable: the address stands for its value
			}
		}
		// an earlier load of the same place
		best := ssa.Value(v)
		for _, y := range q.sameLoads(x) {
			if q.unchanged(y, x) {
				if bi, ok := best.(*ssa.UnOp); !ok || dominates(y, bi) {
					best = y
				}
			}
		}
		if bu, ok := best.(*ssa.UnOp); ok {
			if st := q.storeBefore(bu); st != nil {
				return q.rep(st.Val)
			}
		}
		return best
	}
	return v
}

// soleStore: the variable is stored exactly once and its address goes nowhere else.
func soleStore(al *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) || st != nil {
				return nil
			}
			st = x
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for k, b := range x.Bindings {
				if b == ssa.Value(al) && k < len(fn.FreeVars) && writesFree(fn.FreeVars[k]) {
					return nil
				}
			}
		default:
			return nil
		}
	}
	return st
}

func writesFree(fv *ssa.FreeVar) bool {
	for _, r := range *fv.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for k, b := range x.Bindings {
				if b == ssa.Value(fv) && k < len(fn.FreeVars) && writesFree(fn.FreeVars[k]) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// capturedValue: the single value a captured variable has.
func capturedValue(fv *ssa.FreeVar) ssa.Value {
	mc := closureOf(fv.Parent())
	if mc == nil {
		return nil
	}
	for k, x := range fv.Parent().FreeVars {
		if x == fv {
			switch b := mc.Bindings[k].(type) {
			case *ssa.Alloc:
				if st := soleStore(b); st != nil && dominates(st, mc) {
					return st.Val
				}
			case *ssa.FreeVar:
				return capturedValue(b)
			}
		}
	}
	return nil
}

// closureOf is the only place the anonymous function is created.
func closureOf(f *ssa.Function) *ssa.MakeClosure {
	if f.Parent() == nil {
		return nil
	}
	var out *ssa.MakeClosure
	n := 0
	eachInstr(f.Parent(), func(i ssa.Instruction) {
		if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
			out = mc
			n++
		}
	})
	if n != 1 {
		return nil
	}
	return out
}

// sameAddr: the two addresses name the same place (given the same operands).
func (q *prover) sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && types.Identical(x.X.Type(), y.X.Type()) && q.sameBase(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && q.sameBase(x.X, y.X) && q.norm(x.Index) == q.norm(y.Index)
	}
	return false
}

func (q *prover) sameBase(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	if q.rep(a) == q.rep(b) {
		return true
	}
	return q.sameAddr(a, b)
}

func (q *prover) sameLoads(u *ssa.UnOp) []*ssa.UnOp {
	var out []*ssa.UnOp
	switch u.X.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
	default:
		return nil
	}
	eachInstr(u.Parent(), func(i ssa.Instruction) {
		y, ok := i.(*ssa.UnOp)
		if ok && y != u && y.Op == token.MUL && types.Identical(y.Type(), u.Type()) && dominates(y, u) && q.sameAddr(y.X, u.X) {
			out = append(out, y)
		}
	})
	return out
}

// storeBefore: the store to the same place that is certainly the last one before the load.
func (q *prover) storeBefore(u *ssa.UnOp) *ssa.Store {
	var best *ssa.Store
	eachInstr(u.Parent(), func(i ssa.Instruction) {
		st, ok := i.(*ssa.Store)
		if !ok || !dominates(st, u) || !types.Identical(st.Val.Type(), u.Type()) || !q.sameAddr(st.Addr, u.X) {
			return
		}
		if q.unchangedFrom(st, u, u) && (best == nil || dominates(best, st)) {
			best = st
		}
	})
	return best
}

// unchanged: nothing between the two loads can write the place.
func (q *prover) unchanged(y, u *ssa.UnOp) bool { return q.unchangedFrom(y, u, u) }

func (q *prover) unchangedFrom(y ssa.Instruction, u ssa.Instruction, load *ssa.UnOp) bool {
	// instructions on some path from y to u that does not pass y again
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	check := func(b *ssa.BasicBlock, from, to int) {
		for k := from; k < to && k < len(b.Instrs); k++ {
			if q.mayWrite(b.Instrs[k], load) {
				ok = false
				return
			}
		}
	}
	yb, ub := y.Block(), u.Block()
	yi, ui := instrIndex(y), instrIndex(u)
	if yb == ub && yi < ui {
		check(yb, yi+1, ui)
		return ok
	}
	check(yb, yi+1, len(yb.Instrs))
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if !ok || seen[b] || b == yb {
			return
		}
		seen[b] = true
		if b == ub {
			check(b, 0, ui)
			// a loop back to u without passing y
			if !canReachAvoiding(b, b, yb) {
				return
			}
			check(b, ui, len(b.Instrs))
		} else {
			if !canReachAvoiding(b, ub, yb) {
				return
			}
			check(b, 0, len(b.Instrs))
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	for _, s := range yb.Succs {
		walk(s)
	}
	return ok
}

func canReachAvoiding(a, b, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || x == avoid {
			continue
		}
		seen[x] = true
		if x == b {
			return true
		}
		st = append(st, x.Succs...)
	}
	return false
}

// mayWrite: the instruction may write the place the load reads.
func (q *prover) mayWrite(i ssa.Instruction, load *ssa.UnOp) bool {
	switch x := i.(type) {
	case *ssa.Store:
		return mayClash(x.Addr, load.X)
	case *ssa.MapUpdate:
		return false
	}
	c := callOf(i)
	if c == nil {
		return false
	}
	if _, ok := i.(*ssa.Go); ok {
		return true
	}
	if al, ok := load.X.(*ssa.Alloc); ok && (!al.Heap || q.private(al)) {
		return false
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name() == "copy" || b.Name() == "clear"
	}
	// a callee that may store to such a place
	for _, g := range q.p.callees(i.(ssa.CallInstruction)) {
		if q.p.inRepo(g) && q.storesLike(g, load, map[*ssa.Function]bool{}, 0) {
			return true
		}
	}
	if ix, ok := load.X.(*ssa.IndexAddr); ok {
		// the library may reorder a list it is given
		for _, a := range c.Args {
			if q.rep(strip(a)) == q.rep(ix.X) && mutates(calleeName(c)) {
				return true
			}
		}
	}
	return false
}

func mutates(name string) bool {
	return strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") || strings.HasPrefix(name, "slices.Delete") || name == "slices.Reverse" || name == "slices.Compact"
}

func (q *prover) storesLike(g *ssa.Function, load *ssa.UnOp, seen map[*ssa.Function]bool, depth int) bool {
	if seen[g] || depth > 12 || len(g.Blocks) == 0 {
		return false
	}
	seen[g] = true
	hit := false
	eachInstr(g, func(i ssa.Instruction) {
		if hit {
			return
		}
		if st, ok := i.(*ssa.Store); ok {
			if mayClash(st.Addr, load.X) {
				if _, local := baseAlloc(st.Addr); !local {
					hit = true
				}
			}
		}
		if ci, ok := i.(ssa.CallInstruction); ok {
			for _, h := range q.p.callees(ci) {
				if q.p.inRepo(h) && q.storesLike(h, load, seen, depth+1) {
					hit = true
				}
			}
		}
	})
	return hit
}

func baseAlloc(addr ssa.Value) (*ssa.Alloc, bool) {
	for d := 0; d < 10; d++ {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		case *ssa.Alloc:
			return x, true
		case *ssa.Slice:
			addr = x.X
		default:
			return nil, false
		}
	}
	return nil, false
}

// mayClash: could the two addresses be the same place? Places of different shape never are.
func mayClash(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		switch y := b.(type) {
		case *ssa.FieldAddr:
			if x.Field != y.Field || !types.Identical(x.X.Type(), y.X.Type()) {
				return false
			}
			xa, ok1 := x.X.(*ssa.Alloc)
			ya, ok2 := y.X.(*ssa.Alloc)
			if ok1 && ok2 && xa != ya {
				return false
			}
			return true
		}
		return false
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		if !ok || !types.Identical(x.Type(), y.Type()) {
			return false
		}
		xa, ok1 := baseAlloc(x)
		ya, ok2 := baseAlloc(y)
		return !(ok1 && ok2 && xa != ya)
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		switch b.(type) {
		case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
			_, f1 := a.(*ssa.FreeVar)
			_, f2 := b.(*ssa.FreeVar)
			return (f1 || f2) && types.Identical(a.Type(), b.Type())
		}
		return false
	}
	// an unknown pointer
	pa, ok1 := a.Type().Underlying().(*types.Pointer)
	pb, ok2 := b.Type().Underlying().(*types.Pointer)
	return ok1 && ok2 && types.Identical(pa.Elem(), pb.Elem())
}

// ineq is x - y <= c.
type ineq struct {
	x, y atom
	c    int64
}

// ineqs are the inequalities known when block b is entered.
func (q *prover) ineqs(at loc) []ineq { return q.factIneqs(at.facts(), 0) }

func (q *prover) factIneqs(fs []Fact, depth int) []ineq {
	var out []ineq
	for _, f := range fs {
		out = append(out, q.factIneq(f, depth)...)
	}
	return out
}

func leIneq(a, b lin) ineq { return ineq{a.atom, b.atom, b.c - a.c} }

func (q *prover) factIneq(f Fact, depth int) []ineq {
	bo, ok := f.Cond.(*ssa.BinOp)
	if !ok {
		return q.callIneq(f, depth)
	}
	op := bo.Op
	if !f.Val {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		default:
			return nil
		}
	}
	if isInt(bo.X.Type()) {
		x, y := q.norm(bo.X), q.norm(bo.Y)
		x1, y1 := x, y
		x1.c++
		y1.c++
		switch op {
		case token.LSS:
			return []ineq{leIneq(x1, y)}
		case token.LEQ:
			return []ineq{leIneq(x, y)}
		case token.GTR:
			return []ineq{leIneq(y1, x)}
		case token.GEQ:
			return []ineq{leIneq(y, x)}
		case token.EQL:
			return []ineq{leIneq(x, y), leIneq(y, x)}
		case token.NEQ:
			// next to the end of its range
			var out []ineq
			for d, l := range []lin{x, y} {
				o := []lin{y, x}[d]
				if o.v != nil || l.v == nil {
					continue
				}
				k := o.c - l.c
				if lo, ok := q.lower(l.atom); ok && k == lo {
					out = append(out, ineq{atom{}, l.atom, -(k + 1)})
				}
			}
			return out
		}
		return nil
	}
	if op != token.EQL && op != token.NEQ {
		return nil
	}
	// text or list compared with nothing
	x, y := bo.X, bo.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	if isString(x.Type()) {
		if s, ok := constString(y); ok {
			l := q.lenOf(x)
			if op == token.EQL {
				return []ineq{leIneq(l, konst(int64(len(s)))), leIneq(konst(int64(len(s))), l)}
			}
			if s == "" {
				return []ineq{leIneq(konst(1), l)}
			}
			return nil
		}
		if op == token.EQL {
			a, b := q.lenOf(x), q.lenOf(y)
			return []ineq{leIneq(a, b), leIneq(b, a)}
		}
		return nil
	}
	if isNilConst(y) {
		if _, ok := x.Type().Underlying().(*types.Slice); ok {
			l := q.lenOf(x)
			if op == token.EQL {
				return []ineq{leIneq(l, konst(0)), leIneq(konst(0), l)}
			}
			if n, ok := q.matchLen(x); ok {
				return []ineq{leIneq(konst(n), l)}
			}
		}
	}
	return nil
}

// lower is a constant lower bound the value has by its nature.
func (q *prover) lower(a atom) (int64, bool) {
	if a.k != atomVal {
		return 0, true
	}
	if a.v == nil {
		return 0, true
	}
	if isUnsigned(a.v.Type()) {
		return 0, true
	}
	switch x := a.v.(type) {
	case *ssa.Call:
		switch n := calleeName(&x.Call); n {
		case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc", "strings.LastIndexByte", "strings.LastIndexAny", "strings.LastIndexFunc", "slices.Index", "slices.IndexFunc", "bytes.Index":
			return -1, true
		case "(time.Time).Weekday", "(time.Time).Nanosecond", "(time.Time).Hour", "(time.Time).Minute", "(time.Time).Second", "strings.Count", "cap", "builtin cap", "copy", "builtin copy", "unicode/utf8.RuneLen":
			return 0, true
		case "(time.Time).Month", "(time.Time).Day", "(time.Time).YearDay":
			return 1, true
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && nx.IsString && x.Index == 1 {
			return 0, true
		}
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			switch calleeName(&cl.Call) {
			case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeRune", "unicode/utf8.DecodeLastRune":
				if x.Index == 1 {
					return 0, true
				}
			}
		}
	case *ssa.Phi, *memPhi:
		lo := int64(math.MaxInt64)
		if q.busyLower(a.v) {
			return 0, false
		}
		defer q.leaveLower(a.v)
		for _, e := range phiOf(a.v).edges {
			l := q.norm(e)
			if l.v == nil {
				lo = min(lo, l.c)
				continue
			}
			if l.v == a.v && l.k == atomVal {
				if l.c >= 0 {
					continue
				}
				return 0, false
			}
			if q.growsBy(l, a.v) {
				continue
			}
			n, ok := q.lower(l.atom)
			if !ok {
				return 0, false
			}
			lo = min(lo, n+l.c)
		}
		if lo != math.MaxInt64 {
			return lo, true
		}
	case *ssa.Parameter:
		sites := q.sites(x.Parent())
		if len(sites) == 0 || q.busyLower(a.v) {
			return 0, false
		}
		defer q.leaveLower(a.v)
		lo := int64(math.MaxInt64)
		for _, s := range sites {
			v := q.argFor(x.Parent(), x, s)
			if v == nil {
				return 0, false
			}
			l := q.norm(v)
			if l.v == nil {
				lo = min(lo, l.c)
				continue
			}
			n, ok := q.lower(l.atom)
			if !ok {
				return 0, false
			}
			lo = min(lo, n+l.c)
		}
		return lo, true
	}
	return 0, false
}

// growsBy: the quantity is the value plus something that is not negative.
func (q *prover) growsBy(l lin, v ssa.Value) bool {
	b, ok := l.v.(*ssa.BinOp)
	if !ok || l.k != atomVal || l.c < 0 || b.Op != token.ADD {
		return false
	}
	for _, o := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		x, y := q.norm(o[0]), q.norm(o[1])
		if x.v == v && x.k == atomVal && x.c >= 0 && y.v != nil {
			if lo, ok := q.lower(y.atom); ok && lo+y.c >= 0 {
				return true
			}
		}
	}
	return false
}

func (q *prover) busyLower(v ssa.Value) bool {
	if q.busy == nil {
		q.busy = map[ssa.Value]bool{}
	}
	if q.busy[v] {
		return true
	}
	q.busy[v] = true
	return false
}
func (q *prover) leaveLower(v ssa.Value) { delete(q.busy, v) }

// callIneq: what the outcome of a boolean call tells.
func (q *prover) callIneq(f Fact, depth int) []ineq {
	if ex, ok := f.Cond.(*ssa.Extract); ok {
		return q.tupleIneq(f, ex, depth)
	}
	cl, ok := f.Cond.(*ssa.Call)
	if !ok {
		return nil
	}
	if f.Val {
		switch calleeName(&cl.Call) {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
			return []ineq{leIneq(q.lenOf(cl.Call.Args[1]), q.lenOf(cl.Call.Args[0]))}
		case "strings.ContainsAny", "strings.ContainsRune", "strings.ContainsFunc", "slices.Contains", "slices.ContainsFunc":
			return []ineq{leIneq(konst(1), q.lenOf(cl.Call.Args[0]))}
		}
		if recv, text := regexCall(&cl.Call, "MatchString"); recv != nil {
			if n, ok := q.minMatch(recv); ok && n > 0 {
				return []ineq{leIneq(konst(int64(n)), q.lenOf(text))}
			}
		}
	}
	g := cl.Call.StaticCallee()
	if g == nil || !q.p.inRepo(g) || depth > 3 {
		return nil
	}
	return q.outcomeIneqs(g, 0, f.Val, cl, depth)
}

func (q *prover) tupleIneq(f Fact, ex *ssa.Extract, depth int) []ineq {
	cl, ok := ex.Tuple.(*ssa.Call)
	if !ok {
		return nil
	}
	g := cl.Call.StaticCallee()
	if g == nil || !q.p.inRepo(g) || depth > 3 {
		return nil
	}
	return q.outcomeIneqs(g, ex.Index, f.Val, cl, depth)
}

// outcomeIneqs: what holds of the arguments when result idx of g is val.
func (q *prover) outcomeIneqs(g *ssa.Function, idx int, val bool, cl *ssa.Call, depth int) []ineq {
	var sets [][]ineq
	for _, ret := range returnsOf(g) {
		vs := retValues(ret)
		if idx >= len(vs) {
			return nil
		}
		v := vs[idx]
		if c, ok := constBool(v); ok && c != val {
			continue
		}
		fs := append([]Fact{}, facts(ret.Block())...)
		if _, ok := constBool(v); !ok {
			fs = append(fs, expandFacts([]Fact{{v, val}})...)
		}
		sets = append(sets, q.factIneqs(fs, depth+1))
	}
	if len(sets) == 0 {
		return nil
	}
	var out []ineq
	for _, i := range sets[0] {
		x, ok1 := q.toCaller(i.x, g, cl)
		y, ok2 := q.toCaller(i.y, g, cl)
		if !ok1 || !ok2 {
			continue
		}
		all := true
		for _, s := range sets[1:] {
			has := false
			for _, j := range s {
				if j.x == i.x && j.y == i.y && j.c <= i.c {
					has = true
				}
			}
			all = all && has
		}
		if all {
			out = append(out, ineq{x.atom, y.atom, i.c - x.c + y.c})
		}
	}
	return out
}

// toCaller translates a quantity of the callee's parameters.
func (q *prover) toCaller(a atom, g *ssa.Function, cl ssa.CallInstruction) (lin, bool) {
	if a.v == nil {
		return lin{}, true
	}
	var v ssa.Value
	switch x := a.v.(type) {
	case *ssa.Parameter:
		v = q.argFor(g, x, cl)
	case *ssa.Global:
		v = x
	}
	if v == nil {
		return lin{}, false
	}
	return q.quantity(v, a.k), true
}

func (q *prover) quantity(v ssa.Value, k atomKind) lin {
	switch k {
	case atomLen:
		return q.lenOf(v)
	case atomRunes:
		if s, ok := constString(v); ok {
			return konst(int64(len([]rune(s))))
		}
		return lin{atom{q.rep(v), atomRunes}, 0}
	}
	return q.norm(v)
}

func defBlock(v ssa.Value) *ssa.BasicBlock {
	if m, ok := v.(*memPhi); ok {
		return m.blk
	}
	if i, ok := v.(ssa.Instruction); ok {
		return i.Block()
	}
	return nil
}

func bFnOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Parent()
	case *ssa.FreeVar:
		return x.Parent()
	case ssa.Instruction:
		return x.Parent()
	}
	return nil
}

// diff: a - b <= c.
func (q *prover) diff(a, b atom, c int64, at loc) bool {
	if a == b {
		return c >= 0
	}
	if a.v == nil && b.v == nil {
		return c >= 0
	}
	// constant limits
	if a.v == nil {
		if lo, ok := q.lower(b); ok && lo >= -c {
			return true
		}
	}
	q.steps++
	if q.steps > maxSteps || q.depth > 60 {
		return false
	}
	key := bquery{a, b, at}
	pair := [2]atom{a, b}
	same := 0
	for _, o := range q.stack[pair] {
		// the claim itself, one round earlier
		if c >= o.c && q.rounds > o.rounds && holdsFrom(a, b, o.at, at) {
			q.assume++
			return true
		}
		if o.at == at {
			same++
		}
	}
	if same > 2 {
		return false
	}
	if m, ok := q.done[key][c]; ok {
		return m
	}
	q.stack[pair] = append(q.stack[pair], open{at, c, q.rounds})
	q.depth++
	before := q.assume
	r := q.diff1(a, b, c, at)
	q.depth--
	q.stack[pair] = q.stack[pair][:len(q.stack[pair])-1]
	if r && q.assume == before || !r && q.depth < 3 {
		if q.done[key] == nil {
			q.done[key] = map[int64]bool{}
		}
		q.done[key][c] = r
	}
	return r
}

// holdsFrom: what is true of the two quantities at one place still is at the other, because both are
// the same values there.
func holdsFrom(a, b atom, from, to loc) bool {
	if from == to {
		return true
	}
	if from.e != 0 || from.b.Parent() != to.b.Parent() || !from.b.Dominates(to.b) {
		return false
	}
	for _, v := range []ssa.Value{a.v, b.v} {
		if v == nil {
			continue
		}
		if d := defBlock(v); d != nil && (d.Parent() != from.b.Parent() || !d.Dominates(from.b)) {
			return false
		}
	}
	return true
}

// notEqual: the branches taken tell that a - b is not c + 1, and it is no more than that.
func (q *prover) notEqual(a, b atom, c int64, at loc) bool {
	for _, f := range at.facts() {
		bo, ok := f.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || (bo.Op == token.NEQ) != f.Val || !isInt(bo.X.Type()) {
			continue
		}
		x, y := q.norm(bo.X), q.norm(bo.Y)
		// x + x.c != y + y.c
		if x.atom == a && y.atom == b && y.c-x.c == c+1 || x.atom == b && y.atom == a && x.c-y.c == c+1 {
			if q.diff(a, b, c+1, at) {
				return true
			}
		}
	}
	return false
}

func (q *prover) diff1(a, b atom, c int64, at loc) bool {
	// branches taken
	if q.byFacts(q.ineqs(at), a, b, c, at) {
		return true
	}
	if q.notEqual(a, b, c, at) {
		return true
	}
	if c >= 0 && a.k == atomVal && b.k == atomVal && earlierKey(a.v, b.v) {
		return true
	}
	if c >= 0 && a.k == atomLen && b.k == atomLen && q.twinLoads(a.v, b.v) {
		return true
	}
	if a.v != nil && q.up(a, b, c, at) {
		return true
	}
	if b.v != nil && q.down(a, b, c, at) {
		return true
	}
	return false
}

func (q *prover) byFacts(is []ineq, a, b atom, c int64, at loc) bool {
	for _, i := range is {
		if i.x == a && i.y == b && i.c <= c {
			return true
		}
	}
	// one step through a fact
	for _, i := range is {
		if i.x == a && i.y != b && !(i.y.v == nil && b.v == nil) {
			if q.viaFact(i.y, b, c-i.c, at) {
				return true
			}
		}
		if i.y == b && i.x != a {
			if q.viaFact(a, i.x, c-i.c, at) {
				return true
			}
		}
	}
	return false
}

func (q *prover) viaFact(a, b atom, c int64, at loc) bool {
	if a == b || a.v == nil && b.v == nil {
		return c >= 0
	}
	key := bquery{a, b, at}
	if q.inFact[key] {
		return false
	}
	q.inFact[key] = true
	r := q.diff(a, b, c, at)
	delete(q.inFact, key)
	return r
}

// edgeDiff: a - b <= c when the k-th predecessor edge of the block is taken.
func (q *prover) edgeDiff(a, b lin, c int64, blk *ssa.BasicBlock, k int) bool {
	q.rounds++
	defer func() { q.rounds-- }()
	p := blk.Preds[k]
	c = c - a.c + b.c
	if a.atom == b.atom || a.v == nil && b.v == nil {
		return c >= 0
	}
	n := 0
	for j, s := range p.Succs {
		if s == blk {
			n++
			if len(p.Succs) > 1 && q.diff(a.atom, b.atom, c, loc{p, j + 1}) {
				return true
			}
		}
	}
	return (n > 1 || len(p.Succs) == 1) && q.diff(a.atom, b.atom, c, startOf(p))
}

// stable: the value is the same at the block as where phi is (it is not redefined in between).
func stable(v ssa.Value, blk *ssa.BasicBlock) bool {
	d := defBlock(v)
	if d == nil {
		return true
	}
	if d.Parent() != blk.Parent() {
		return true
	}
	return d != blk && d.Dominates(blk)
}

// up uses the definition of a.
func (q *prover) up(a, b atom, c int64, at loc) bool {
	if a.k == atomRunes {
		// no more characters than bytes
		l := q.lenOf(a.v)
		if q.diff(l.atom, b, c-l.c, at) {
			return true
		}
		if b.k == atomRunes && q.within(a.v, b.v, at, 0) != relNone {
			return c >= 0
		}
		return false
	}
	if ph := phiOf(a.v); ph != nil {
		pb := phiOf(b.v)
		home := startOf(ph.blk)
		lockstep := pb != nil && pb.blk == ph.blk
		if at != home {
			if lockstep || b.v == nil || stable(b.v, ph.blk) {
				if q.diff(a, b, c, home) {
					return true
				}
			}
		} else {
			if lockstep {
				all := true
				for k := range ph.edges {
					if !q.edgeDiff(q.quantity(ph.edges[k], a.k), q.quantity(pb.edges[k], b.k), c, ph.blk, k) {
						all = false
						break
					}
				}
				if all {
					return true
				}
			}
			if b.v == nil || stable(b.v, ph.blk) {
				all := true
				for k, e := range ph.edges {
					if e == a.v {
						continue
					}
					if !q.edgeDiff(q.quantity(e, a.k), lin{b, 0}, c, ph.blk, k) {
						all = false
						break
					}
				}
				if all {
					return true
				}
			}
		}
	}
	if q.boundary(a, b, c, at, true) {
		return true
	}
	if a.k == atomLen {
		return q.upLen(a, b, c, at)
	}
	switch x := a.v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			// idx + len(sub) <= len(text)
			for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if cl, ok := strip(o[0]).(*ssa.Call); ok {
					switch calleeName(&cl.Call) {
					case "strings.Index", "strings.LastIndex", "bytes.Index":
						n := q.norm(o[1])
						if n == q.lenOf(cl.Call.Args[1]) {
							l := q.lenOf(cl.Call.Args[0])
							if q.diff(l.atom, b, c-l.c, at) {
								return true
							}
						}
					}
				}
				// bounded by a constant
				y := q.norm(o[1])
				for _, k := range q.constUppers(y, at) {
					n := q.norm(o[0])
					if q.diff(n.atom, b, c-n.c-k, at) {
						return true
					}
				}
			}
		case token.SUB:
			y := q.norm(x.Y)
			n := q.norm(x.X)
			if y.v != nil {
				if lo, ok := q.lower(y.atom); ok && q.diff(n.atom, b, c-n.c+lo+y.c, at) {
					return true
				}
				// x - y <= c (b is zero)
				if b.v == nil && q.diff(n.atom, y.atom, c-n.c+y.c, at) {
					return true
				}
			}
		case token.REM:
			if k, ok := constInt(x.Y); ok && k > 0 {
				if q.diff(atom{}, b, c-(k-1), at) {
					return true
				}
			} else {
				n := q.norm(x.Y)
				if q.diff(n.atom, b, c-n.c+1, at) && q.diff(atom{}, n.atom, n.c-1, at) {
					return true
				}
			}
			n := q.norm(x.X)
			if q.diff(atom{}, n.atom, n.c, at) && q.diff(n.atom, b, c-n.c, at) {
				return true
			}
		case token.QUO:
			if k, ok := constInt(x.Y); ok && k > 0 {
				n := q.norm(x.X)
				if q.diff(atom{}, n.atom, n.c, at) && q.diff(n.atom, b, c-n.c, at) {
					return true
				}
			}
		case token.AND:
			for _, y := range []ssa.Value{x.X, x.Y} {
				if k, ok := constInt(y); ok && k >= 0 && q.diff(atom{}, b, c-k, at) {
					return true
				}
			}
		}
	case *ssa.Call:
		switch n := calleeName(&x.Call); n {
		case "min", "builtin min":
			for _, y := range x.Call.Args {
				l := q.norm(y)
				if q.diff(l.atom, b, c-l.c, at) {
					return true
				}
			}
		case "max", "builtin max":
			all := true
			for _, y := range x.Call.Args {
				l := q.norm(y)
				all = all && q.diff(l.atom, b, c-l.c, at)
			}
			if all {
				return true
			}
		case "strings.Index", "strings.LastIndex", "bytes.Index":
			l, s := q.lenOf(x.Call.Args[0]), q.lenOf(x.Call.Args[1])
			k := int64(0)
			if s.v == nil {
				k = s.c
			} else if q.diff(atom{}, s.atom, s.c-1, at) {
				k = 1
			}
			// -1 or at most len(text) - len(sub)
			if q.diff(l.atom, b, c-l.c+k, at) && (k <= 1 || q.diff(atom{}, b, c+1, at)) {
				return true
			}
		case "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc", "strings.LastIndexByte", "strings.LastIndexAny", "strings.LastIndexFunc", "slices.Index", "slices.IndexFunc":
			l := q.lenOf(x.Call.Args[0])
			if q.diff(l.atom, b, c-l.c+1, at) {
				return true
			}
		case "(time.Time).Weekday":
			return q.diff(atom{}, b, c-6, at)
		case "(time.Time).Month":
			return q.diff(atom{}, b, c-12, at)
		case "(time.Time).Hour":
			return q.diff(atom{}, b, c-23, at)
		case "(time.Time).Minute", "(time.Time).Second":
			return q.diff(atom{}, b, c-59, at)
		case "(time.Time).Day":
			return q.diff(atom{}, b, c-31, at)
		case "cap", "builtin cap":
			return false
		}
	case *ssa.Convert:
		if widening(x.X.Type(), x.Type()) {
			l := q.norm(x.X)
			return q.diff(l.atom, b, c-l.c, at)
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				if nx.IsString && x.Index == 1 {
					l := q.lenOf(rg.X)
					return q.diff(l.atom, b, c-l.c+1, at)
				}
				if _, hi, ok := q.mapInts(rg.X, x.Index); ok {
					return q.diff(atom{}, b, c-hi, at)
				}
			}
		}
		if cl, ok := x.Tuple.(*ssa.Call); ok && x.Index == 1 {
			switch calleeName(&cl.Call) {
			case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeLastRuneInString":
				l := q.lenOf(cl.Call.Args[0])
				return q.diff(l.atom, b, c-l.c, at)
			}
		}
	case *ssa.Lookup:
		if _, hi, ok := q.mapInts(x.X, 2); ok && !x.CommaOk {
			return q.diff(atom{}, b, c-max(hi, 0), at)
		}
	case *ssa.UnOp:
		if m := q.matchPos(x); m != nil {
			l := q.lenOf(m.text)
			if q.diff(l.atom, b, c-l.c, at) {
				return true
			}
			// the start of a group is before its end
			if n := q.matchPosOf(b); n != nil && n.same(q, m) && c >= 0 && (n.k == m.k || n.k == m.k+1 && m.k%2 == 0 || n.k == 1) {
				return true
			}
		}
		return q.stored(x, storeTag{o: b, k: a.k, upper: true}, c, func(v ssa.Value, blk *ssa.BasicBlock) bool {
			l := q.norm(v)
			return (b.v == nil || blk.Parent() == at.b.Parent() && stableIn(b.v, blk)) && q.diff(l.atom, b, c-l.c, startOf(blk))
		}, func() bool { return q.diff(atom{}, b, c, at) })
	}
	return false
}

func stableIn(v ssa.Value, blk *ssa.BasicBlock) bool {
	d := defBlock(v)
	return d == nil || d == blk || d.Dominates(blk)
}

// constUppers are constant upper bounds worth trying for a summand.
func (q *prover) constUppers(y lin, at loc) []int64 {
	if y.v == nil {
		return []int64{y.c}
	}
	var out []int64
	for _, i := range q.ineqs(at) {
		if i.x == y.atom && i.y.v == nil {
			out = append(out, i.c+y.c)
		}
	}
	return out
}

// upLen: a is the length of a list or text.
func (q *prover) upLen(a, b atom, c int64, at loc) bool {
	if b.k == atomLen && b.v != nil {
		switch q.within(a.v, b.v, at, 0) {
		case relLess:
			if c >= -1 {
				return true
			}
		case relLeq:
			if c >= 0 {
				return true
			}
		}
	}
	switch x := a.v.(type) {
	case *ssa.Slice:
		hi := q.sliceHigh(x)
		if x.Low != nil {
			lo := q.norm(x.Low)
			if lo.v != nil {
				// hi - lo <= c with lo = b side
				if b.v == nil && q.diff(hi.atom, lo.atom, c-hi.c+lo.c, at) {
					return true
				}
			}
		}
		return q.diff(hi.atom, b, c-hi.c, at)
	case *ssa.Call:
		if n, ok := q.matchLen(x); ok {
			return q.diff(atom{}, b, c-n, at)
		}
		switch calleeName(&x.Call) {
		case "strings.SplitN":
			if k, ok := constInt(x.Call.Args[2]); ok && k >= 0 {
				return q.diff(atom{}, b, c-k, at)
			}
		case "strings.ToLower", "strings.ToUpper":
			return false
		}
		if cl := shrinker(&x.Call); cl != nil {
			l := q.lenOf(cl)
			return q.diff(l.atom, b, c-l.c, at)
		}
	case *ssa.UnOp:
		if n, ok := q.elemLen(x, at); ok {
			if q.diff(n.atom, b, c-n.c, at) {
				return true
			}
		}
		return q.stored(x, storeTag{o: b, k: a.k, upper: true}, c, func(v ssa.Value, blk *ssa.BasicBlock) bool {
			l := q.lenOf(v)
			return (b.v == nil || blk.Parent() == at.b.Parent() && stableIn(b.v, blk)) && q.diff(l.atom, b, c-l.c, startOf(blk))
		}, func() bool { return q.diff(atom{}, b, c, at) })
	}
	return false
}

func (q *prover) sliceHigh(x *ssa.Slice) lin {
	if x.High != nil {
		return q.norm(x.High)
	}
	if ar := arrayOf(x.X.Type()); ar != nil {
		return konst(ar.Len())
	}
	return q.lenOf(x.X)
}

// down uses the definition of b (its lower bounds).
func (q *prover) down(a, b atom, c int64, at loc) bool {
	if b.k == atomRunes {
		// a text that is not empty has a character
		if a.v == nil && c >= -1 {
			l := q.lenOf(b.v)
			return q.diff(atom{}, l.atom, l.c-1, at)
		}
		if a.k == atomRunes && q.within(a.v, b.v, at, 0) != relNone {
			return c >= 0
		}
		return false
	}
	if ph := phiOf(b.v); ph != nil && (a.v == nil || stable(a.v, ph.blk)) {
		if home := startOf(ph.blk); at != home {
			if q.diff(a, b, c, home) {
				return true
			}
		} else {
			all := true
			for k, e := range ph.edges {
				if e == b.v {
					continue
				}
				if !q.edgeDiff(lin{a, 0}, q.quantity(e, b.k), c, ph.blk, k) {
					all = false
					break
				}
			}
			if all {
				return true
			}
		}
	}
	if q.boundary(a, b, c, at, false) {
		return true
	}
	if b.k == atomLen {
		return q.downLen(a, b, c, at)
	}
	switch x := b.v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				y, n := q.norm(o[1]), q.norm(o[0])
				if y.v == nil {
					continue
				}
				for _, k := range q.constLowers(y, at) {
					if q.diff(a, n.atom, c+n.c+k, at) {
						return true
					}
				}
			}
		case token.SUB:
			// a <= x - y: with a zero, y <= x
			if a.v == nil {
				n, y := q.norm(x.X), q.norm(x.Y)
				if q.diff(y.atom, n.atom, c-y.c+n.c, at) {
					return true
				}
			}
		case token.MUL:
			if a.v == nil {
				n, y := q.norm(x.X), q.norm(x.Y)
				if c >= 0 && q.diff(atom{}, n.atom, n.c, at) && q.diff(atom{}, y.atom, y.c, at) {
					return true
				}
				if c >= -1 && q.diff(atom{}, n.atom, n.c-1, at) && q.diff(atom{}, y.atom, y.c-1, at) {
					return true
				}
			}
		case token.REM:
			n := q.norm(x.X)
			if q.diff(atom{}, n.atom, n.c, at) && q.diff(a, atom{}, c, at) {
				return true
			}
			if k, ok := constInt(x.Y); ok && k > 0 && q.diff(a, atom{}, c-(k-1), at) {
				return true
			}
		case token.QUO:
			n := q.norm(x.X)
			y := q.norm(x.Y)
			if q.diff(atom{}, n.atom, n.c, at) && q.diff(atom{}, y.atom, y.c, at) && q.diff(a, atom{}, c, at) {
				return true
			}
		case token.AND:
			for _, y := range []ssa.Value{x.X, x.Y} {
				if k, ok := constInt(y); ok && k >= 0 && q.diff(a, atom{}, c, at) {
					return true
				}
			}
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "max", "builtin max":
			for _, y := range x.Call.Args {
				l := q.norm(y)
				if q.diff(a, l.atom, c+l.c, at) {
					return true
				}
			}
		case "min", "builtin min":
			all := true
			for _, y := range x.Call.Args {
				l := q.norm(y)
				all = all && q.diff(a, l.atom, c+l.c, at)
			}
			if all {
				return true
			}
		}
		if lo, ok := q.lower(b); ok && q.diff(a, atom{}, c+lo, at) {
			return true
		}
	case *ssa.Convert:
		if widening(x.X.Type(), x.Type()) {
			l := q.norm(x.X)
			return q.diff(a, l.atom, c+l.c, at)
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				if lo, _, ok := q.mapInts(rg.X, x.Index); ok {
					return q.diff(a, atom{}, c+lo, at)
				}
			}
		}
		if cl, ok := x.Tuple.(*ssa.Call); ok && x.Index == 1 {
			switch calleeName(&cl.Call) {
			case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeLastRuneInString":
				// the size of a character of a text that is not empty
				l := q.lenOf(cl.Call.Args[0])
				if q.diff(atom{}, l.atom, l.c-1, at) {
					return q.diff(a, atom{}, c+1, at)
				}
			}
		}
	case *ssa.Lookup:
		if lo, _, ok := q.mapInts(x.X, 2); ok && !x.CommaOk {
			if q.keyPresent(x) {
				return q.diff(a, atom{}, c+lo, at)
			}
			return q.diff(a, atom{}, c+min(lo, 0), at)
		}
	case *ssa.UnOp:
		if m := q.matchPos(x); m != nil {
			lo := int64(0)
			if m.k%2 == 1 {
				if n, ok := q.groupMin(m.rx, m.k/2); ok {
					lo = int64(n)
				}
			}
			if q.present(m, at) && q.diff(a, atom{}, c+lo, at) {
				return true
			}
			if q.diff(a, atom{}, c-1, at) {
				return true
			}
			if n := q.matchPosOf(a); n != nil && n.same(q, m) && c >= 0 && (m.k == n.k+1 && n.k%2 == 0) {
				return true
			}
			// group positions lie behind the start of the match
			if n := q.matchPosOf(a); n != nil && n.same(q, m) && c >= 0 && n.k == 0 && q.present(m, at) {
				return true
			}
			// matches follow each other
			if q.afterPrevious(a, m, at) && c >= 0 {
				return true
			}
		}
		return q.stored(x, storeTag{o: a, k: b.k}, c, func(v ssa.Value, blk *ssa.BasicBlock) bool {
			l := q.norm(v)
			return (a.v == nil || blk.Parent() == at.b.Parent() && stableIn(a.v, blk)) && q.diff(a, l.atom, c+l.c, startOf(blk))
		}, func() bool { return q.diff(a, atom{}, c, at) })
	}
	if b.v != nil {
		if lo, ok := q.lower(b); ok && a.v != nil && q.diff(a, atom{}, c+lo, at) {
			return true
		}
	}
	return false
}

func (q *prover) constLowers(y lin, at loc) []int64 {
	var out []int64
	if lo, ok := q.lower(y.atom); ok {
		out = append(out, lo+y.c)
	}
	for _, i := range q.ineqs(at) {
		if i.y == y.atom && i.x.v == nil {
			out = append(out, -i.c+y.c)
		}
	}
	return out
}

func (q *prover) downLen(a, b atom, c int64, at loc) bool {
	if a.v != nil && q.diff(a, atom{}, c, at) { // lengths are never negative
		return true
	}
	if a.k == atomLen && a.v != nil {
		switch q.within(a.v, b.v, at, 0) {
		case relLess:
			if c >= -1 {
				return true
			}
		case relLeq:
			if c >= 0 {
				return true
			}
		}
	}
	if set := map[int64]bool{}; a.v == nil && q.constLens(b.v, map[ssa.Value]bool{}, set) && len(set) > 1 {
		// the shortest of the possible lengths that the branches taken leave
		lo := int64(0)
		for _, i := range q.ineqs(at) {
			if i.y == b && i.x.v == nil {
				lo = max(lo, -i.c)
			}
		}
		all := true
		for n := range set {
			if n >= lo && -n > c {
				all = false
			}
		}
		if all {
			return true
		}
	}
	switch x := b.v.(type) {
	case *ssa.Slice:
		hi := q.sliceHigh(x)
		if x.Low == nil {
			return q.diff(a, hi.atom, c+hi.c, at)
		}
		lo := q.norm(x.Low)
		if a.v == nil {
			// lo - c <= hi
			return q.diff(lo.atom, hi.atom, c-lo.c+hi.c, at)
		}
	case *ssa.Call:
		if n, ok := q.matchLen(x); ok {
			// a match has all its groups
			if q.known(atom{}, b, -1, at) {
				return q.diff(a, atom{}, c+n, at)
			}
			return false
		}
		switch calleeName(&x.Call) {
		case "append", "builtin append":
			for _, y := range x.Call.Args[:2] {
				l := q.lenOf(y)
				if q.diff(a, l.atom, c+l.c, at) {
					return true
				}
			}
		case "strings.Split", "strings.SplitAfter":
			if s, ok := constString(x.Call.Args[1]); ok && s != "" {
				return q.diff(a, atom{}, c+1, at)
			}
			l := q.lenOf(x.Call.Args[1])
			if q.diff(atom{}, l.atom, l.c-1, at) {
				return q.diff(a, atom{}, c+1, at)
			}
		case "strings.SplitN":
			if s, ok := constString(x.Call.Args[1]); ok && s != "" {
				if k, ok := constInt(x.Call.Args[2]); ok && k != 0 {
					return q.diff(a, atom{}, c+1, at)
				}
			}
		case "fmt.Sprintf", "strings.Join":
			return false
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isString(x.Type()) {
			for _, y := range []ssa.Value{x.X, x.Y} {
				l := q.lenOf(y)
				if q.diff(a, l.atom, c+l.c, at) {
					return true
				}
			}
		}
	case *ssa.Convert:
		// the text of a list of characters
		if isRuneSlice(x.X.Type()) && isString(x.Type()) {
			l := q.lenOf(x.X)
			return q.diff(a, l.atom, c+l.c, at)
		}
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && isString(x.Type()) {
			return q.diff(a, atom{}, c+1, at)
		}
	case *ssa.Lookup:
		if n, ok := q.mapListLen(x, at); ok {
			return q.diff(a, atom{}, c+n, at)
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok && !nx.IsString {
				if n, ok := q.mapValueLen(rg.X, x.Index); ok {
					return q.diff(a, atom{}, c+n, at)
				}
			}
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 && q.foundLookup(x, at) {
			if n, ok := q.mapValueLen(lk.X, 2); ok {
				return q.diff(a, atom{}, c+n, at)
			}
		}
	case *ssa.UnOp:
		if n, ok := q.elemLen(x, at); ok {
			return q.diff(a, n.atom, c+n.c, at)
		}
		if n, ok := q.dataLen(x); ok {
			return q.diff(a, atom{}, c+n, at)
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok && a.v == nil && c < 0 && !q.elemBusy {
			q.elemBusy = true
			r := q.elemsAtLeast(ia.X, -c, at, map[ssa.Value]bool{})
			q.elemBusy = false
			if r {
				return true
			}
		}
		return q.stored(x, storeTag{o: a, k: b.k}, c, func(v ssa.Value, blk *ssa.BasicBlock) bool {
			l := q.lenOf(v)
			return (a.v == nil || blk.Parent() == at.b.Parent() && stableIn(a.v, blk)) && q.diff(a, l.atom, c+l.c, startOf(blk))
		}, func() bool { return q.diff(a, atom{}, c, at) })
	}
	return false
}

// known: shown by the branches taken alone.
func (q *prover) known(a, b atom, c int64, at loc) bool {
	for _, i := range q.ineqs(at) {
		if i.x == a && i.y == b && i.c <= c {
			return true
		}
	}
	return false
}

// foundLookup: the two-value lookup is known to have found its key.
func (q *prover) foundLookup(v *ssa.Extract, at loc) bool {
	for _, f := range at.facts() {
		if ex, ok := f.Cond.(*ssa.Extract); ok && f.Val && ex.Tuple == v.Tuple && ex.Index == 1 {
			return true
		}
	}
	return false
}

// boundary carries the question to the callers (parameters), to the creator of a closure (captured
// values) or into a callee (results).
func (q *prover) boundary(a, b atom, c int64, at loc, upper bool) bool {
	x, o := a, b
	if !upper {
		x, o = b, a
	}
	switch v := x.v.(type) {
	case *ssa.Parameter:
		f := v.Parent()
		if r, ok := q.iterated(f, v, x, o, c, upper); ok {
			return r
		}
		if o.v != nil {
			switch y := o.v.(type) {
			case *ssa.Parameter:
				if y.Parent() != f {
					return false
				}
			case *ssa.Global:
			default:
				return false
			}
		}
		sites := q.sites(f)
		if len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			la, ok1 := q.toCaller(a, f, s)
			lb, ok2 := q.toCaller(b, f, s)
			if !ok1 || !ok2 || !q.diff(la.atom, lb.atom, c-la.c+lb.c, startOf(s.Block())) {
				return false
			}
		}
		return true
	case *ssa.FreeVar:
		mc := closureOf(v.Parent())
		if mc == nil {
			return false
		}
		m := func(at atom) (lin, bool) {
			if at.v == nil {
				return lin{}, true
			}
			if fv, ok := at.v.(*ssa.FreeVar); ok {
				for k, y := range fv.Parent().FreeVars {
					if y == fv && fv.Parent() == v.Parent() {
						return q.quantity(mc.Bindings[k], at.k), true
					}
				}
			}
			if bFnOf(at.v) == mc.Parent() {
				return lin{at, 0}, true
			}
			return lin{}, false
		}
		la, ok1 := m(a)
		lb, ok2 := m(b)
		return ok1 && ok2 && q.diff(la.atom, lb.atom, c-la.c+lb.c, startOf(mc.Block()))
	case *ssa.Call, *ssa.Extract:
		cl, idx := callResult(x.v)
		if cl == nil {
			return false
		}
		g := cl.Call.StaticCallee()
		if g == nil || !q.p.inRepo(g) || len(g.Blocks) == 0 {
			return false
		}
		// the other side: a constant, another result of the same call, or an argument
		var oIdx = -1
		var oParam *ssa.Parameter
		if o.v != nil {
			if cl2, i2 := callResult(o.v); cl2 == cl {
				oIdx = i2
			} else {
				for k, ar := range cl.Call.Args {
					if k < len(g.Params) {
						l := q.quantity(ar, o.k)
						if l.atom == o && l.c == 0 {
							oParam = g.Params[k]
						}
					}
				}
				if oParam == nil {
					return q.resultViaArgs(g, idx, cl, x, o, c, at, upper)
				}
			}
		}
		for _, ret := range returnsOf(g) {
			vs := retValues(ret)
			if idx >= len(vs) || !q.possible(ret, cl, at) {
				continue
			}
			l := q.quantity(vs[idx], x.k)
			ol := lin{}
			if oIdx >= 0 {
				ol = q.quantity(vs[oIdx], o.k)
			} else if oParam != nil {
				ol = q.quantity(oParam, o.k)
			}
			ok := false
			if upper {
				ok = q.diff(l.atom, ol.atom, c-l.c+ol.c, startOf(ret.Block()))
			} else {
				ok = q.diff(ol.atom, l.atom, c-ol.c+l.c, startOf(ret.Block()))
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return false
}

// resultViaArgs: every return relates to some parameter, and the argument to the other side.
func (q *prover) resultViaArgs(g *ssa.Function, idx int, cl *ssa.Call, x, o atom, c int64, at loc, upper bool) bool {
	for k, pr := range g.Params {
		if k >= len(cl.Call.Args) {
			break
		}
		for _, kind := range []atomKind{atomVal, atomLen} {
			if kind == atomVal && !isInt(pr.Type()) || kind == atomLen && isInt(pr.Type()) {
				continue
			}
			if kind == atomLen {
				switch pr.Type().Underlying().(type) {
				case *types.Slice:
				case *types.Basic:
					if !isString(pr.Type()) {
						continue
					}
				default:
					continue
				}
			}
			arg := q.quantity(cl.Call.Args[k], kind)
			for _, d := range []int64{0, 1, -1} {
				all := true
				for _, ret := range returnsOf(g) {
					vs := retValues(ret)
					if !q.possible(ret, cl, at) {
						continue
					}
					l := q.quantity(vs[idx], x.k)
					pl := q.quantity(pr, kind)
					if upper {
						all = all && q.diff(l.atom, pl.atom, d-l.c+pl.c, startOf(ret.Block()))
					} else {
						all = all && q.diff(pl.atom, l.atom, d-pl.c+l.c, startOf(ret.Block()))
					}
					if !all {
						break
					}
				}
				if !all {
					continue
				}
				if upper && q.diff(arg.atom, o, c-arg.c-d, at) || !upper && q.diff(o, arg.atom, c+arg.c-d, at) {
					return true
				}
			}
		}
	}
	return false
}

// possible: the return can be the one taken, given what is known of the other results of the call.
func (q *prover) possible(ret *ssa.Return, cl *ssa.Call, at loc) bool {
	vs := retValues(ret)
	for _, f := range at.facts() {
		c2, idx := callResult(f.Cond)
		if c2 != nil && c2 != cl {
			if k, ok := q.sameQuestion(c2, idx, cl); ok {
				c2, idx = cl, k
			}
		}
		if c2 == cl && idx < len(vs) {
			if c, ok := constBool(vs[idx]); ok && c != f.Val {
				return false
			}
		}
		if v, isNil, ok := nilFact(f); ok {
			if c3, i3 := callResult(v); c3 == cl && i3 < len(vs) {
				if isNil && (nonNilErr(vs[i3]) || q.saysNil(vs[i3], ret, false)) ||
					!isNil && (isNilConst(vs[i3]) || q.saysNil(vs[i3], ret, true)) {
					return false
				}
			}
		}
		// a text compared with nothing
		if bo, ok := f.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			if s, ok := constString(bo.Y); ok {
				if c3, i3 := callResult(bo.X); c3 == cl && i3 < len(vs) {
					if r, ok := constString(vs[i3]); ok && (r == s) != ((bo.Op == token.EQL) == f.Val) {
						return false
					}
				}
			}
		}
	}
	return true
}

// saysNil: the conditions on the way to the return tell that the value is nil (or that it is not).
func (q *prover) saysNil(v ssa.Value, ret *ssa.Return, want bool) bool {
	for _, f := range facts(ret.Block()) {
		if x, isNil, ok := nilFact(f); ok && isNil == want && q.rep(x) == q.rep(v) {
			return true
		}
	}
	return false
}

// sameQuestion: the result of the first call is a result of the function of the second one, called with
// the same arguments (a helper that only asks whether there is an answer).
func (q *prover) sameQuestion(c2 *ssa.Call, idx int, cl *ssa.Call) (int, bool) {
	g, h := cl.Call.StaticCallee(), c2.Call.StaticCallee()
	if g == nil || h == nil || !q.p.inRepo(h) || len(h.Blocks) == 0 || !readsOnly(g) {
		return 0, false
	}
	if g == h {
		if len(c2.Call.Args) != len(cl.Call.Args) {
			return 0, false
		}
		for k, a := range c2.Call.Args {
			if q.rep(a) != q.rep(cl.Call.Args[k]) {
				return 0, false
			}
		}
		return idx, true
	}
	k := -1
	for _, ret := range returnsOf(h) {
		vs := retValues(ret)
		if idx >= len(vs) {
			return 0, false
		}
		c3, i3 := callResult(vs[idx])
		if c3 == nil || c3.Call.StaticCallee() != g || k >= 0 && k != i3 {
			return 0, false
		}
		k = i3
		for j, a := range c3.Call.Args {
			pr, ok := a.(*ssa.Parameter)
			if !ok {
				if b, isC := cl.Call.Args[j].(*ssa.Const); isC && sameConst(a, b) {
					continue
				}
				return 0, false
			}
			if x := q.argFor(h, pr, c2); x == nil || q.rep(x) != q.rep(cl.Call.Args[j]) {
				return 0, false
			}
		}
	}
	return k, k >= 0
}

// readsOnly: the function has no effect that changes its answer.
func readsOnly(f *ssa.Function) bool {
	ok := true
	eachInstr(f, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.MapUpdate, *ssa.Send, *ssa.Go:
			ok = false
		case *ssa.Store:
			if _, local := baseAlloc(x.Addr); !local {
				ok = false
			}
		}
	})
	return ok
}

// sites are the calls of the function from the repository; nil if it is called from elsewhere.
func (q *prover) sites(f *ssa.Function) []ssa.CallInstruction {
	if q.p.exposed(f) {
		return nil
	}
	reach := q.p.reachable()
	var out []ssa.CallInstruction
	n := q.p.callGraph().Nodes[f]
	if n == nil {
		return nil
	}
	for _, e := range n.In {
		if _, ok := reach[e.Caller.Func]; !ok {
			continue
		}
		if e.Site == nil || !q.p.inRepo(e.Caller.Func) || e.Site.Common().IsInvoke() {
			return nil
		}
		if len(e.Site.Common().Args) != len(f.Params) {
			return nil
		}
		out = append(out, e.Site)
	}
	return out
}

// exposed: callers of the package can call the function.
func (p *Prog) exposed(f *ssa.Function) bool {
	for _, e := range p.entryPoints() {
		if e == f {
			return true
		}
	}
	return false
}

// earlierKey: a was 0 or the position of an earlier rune of the text whose runes are at position b.
func earlierKey(a, b ssa.Value) bool {
	ph, ok := a.(*ssa.Phi)
	ex, isEx := b.(*ssa.Extract)
	if !ok || !isEx || ex.Index != 1 {
		return false
	}
	nx, ok := ex.Tuple.(*ssa.Next)
	if !ok || !nx.IsString || nx.Block() != ph.Block() {
		return false
	}
	h := ph.Block()
	seen := map[ssa.Value]bool{ph: true}
	var earlier func(v ssa.Value) bool
	earlier = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			k, ok := constInt(x)
			return ok && k <= 0
		case *ssa.Extract:
			return x.Index == 1 && x.Tuple == ssa.Value(nx)
		case *ssa.Phi:
			if !inSameLoop(h, x.Block()) {
				return false
			}
			for _, e := range x.Edges {
				if !earlier(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			if k, ok := constInt(x.Y); ok && (x.Op == token.ADD && k == 1) {
				e, isKey := x.X.(*ssa.Extract)
				return isKey && e.Index == 1 && e.Tuple == ssa.Value(nx)
			}
		}
		return false
	}
	for _, e := range ph.Edges {
		if !earlier(e) {
			return false
		}
	}
	return true
}
