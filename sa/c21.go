package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C21"] = checkC21 }

// zval is one possible zone of a time (or one possible location).
type zval struct {
	kind  string // text, default, ref, utc, local, nil, fixed, shifted, ?
	class int    // 0 taken from the reference time, 1 an instant, 2 a wall clock time
	pos   string
}

type zset map[zval]bool

func (s zset) addAll(t zset) zset {
	for k := range t {
		s[k] = true
	}
	return s
}

func (s zset) kinds() []string {
	m := map[string]bool{}
	for k := range s {
		m[k.kind] = true
	}
	return sortedKeys(m)
}

type zkey struct {
	v ssa.Value
	c *cctx
	w int
}

type ckey struct {
	site ssa.CallInstruction
	fn   *ssa.Function
	up   *cctx
}

// zoneEval evaluates the zones of times under an assumption: the text has a zone (T), a default zone is
// configured (D).
type zoneEval struct {
	p    *Prog
	T, D bool
	memo map[zkey]zset
	busy map[zkey]bool
	ctxs map[ckey]*cctx
	live map[zkey]map[refEdge]bool
	fns  map[*ssa.Function]bool
	n    int
}

func newZoneEval(p *Prog, t, d bool) *zoneEval {
	return &zoneEval{p: p, T: t, D: d, memo: map[zkey]zset{}, busy: map[zkey]bool{}, ctxs: map[ckey]*cctx{}, live: map[zkey]map[refEdge]bool{}, fns: map[*ssa.Function]bool{}}
}

func (z *zoneEval) enter(site ssa.CallInstruction, g *ssa.Function, up *cctx) *cctx {
	n := 0
	for u := up; u != nil; u = u.up {
		n++
		if u.fn == g {
			return nil
		}
	}
	if n > 14 {
		return nil
	}
	k := ckey{site, g, up}
	if z.ctxs[k] == nil {
		z.ctxs[k] = &cctx{site, g, up, n + 1}
	}
	z.fns[g] = true
	return z.ctxs[k]
}

func isOffsetData(t types.Type) bool {
	return typeIs(t, repoPkg("internal/timezone"), "OffsetData")
}
func isTime(t types.Type) bool     { return typeIs(t, "time", "Time") }
func isLocation(t types.Type) bool { return typeIs(t, "time", "Location") }

// tz: whether the zone data is that of the text (1), the zero value (2) or unknown (0).
func (z *zoneEval) tz(x cval, depth int) int {
	if depth > 12 {
		return 0
	}
	x = x.res()
	switch y := x.v.(type) {
	case *ssa.Const:
		return 2
	case *ssa.Extract, *ssa.Call:
		cl, idx := callResult(x.v)
		if cl == nil {
			return 0
		}
		g := cl.Call.StaticCallee()
		if g == nil || !z.p.inRepo(g) {
			return 0
		}
		if pkgOf(g) == repoPkg("internal/timezone") {
			return 1
		}
		c := z.enter(cl, g, x.c)
		if c == nil {
			return 0
		}
		res := -1
		for _, ret := range z.liveReturns(g, c) {
			vs := ret.Results
			if idx < len(vs) {
				t := z.tz(cval{vs[idx], c}, depth+1)
				if res == -1 {
					res = t
				} else if res != t {
					res = 0
				}
			}
		}
		if res < 0 {
			return 0
		}
		return res
	case *ssa.UnOp:
		if y.Op == token.MUL {
			if al, ok := y.X.(*ssa.Alloc); ok {
				st := storesInto(al, 0)
				if len(st) == 0 {
					return 2
				}
				res := -1
				for _, s := range st {
					t := 0
					if s.Addr == ssa.Value(al) {
						t = z.tz(cval{s.Val, x.c}, depth+1)
					}
					if res == -1 {
						res = t
					} else if res != t {
						res = 0
					}
				}
				return res
			}
		}
	case *ssa.Phi:
		res := -1
		for k, e := range y.Edges {
			if !z.liveEdge(y.Block(), k, x.c) || e == ssa.Value(y) {
				continue
			}
			t := z.tz(cval{e, x.c}, depth+1)
			if res == -1 {
				res = t
			} else if res != t {
				res = 0
			}
		}
		if res < 0 {
			return 0
		}
		return res
	case *ssa.Parameter:
		if x.c == nil && isOffsetData(y.Type()) {
			return 1
		}
	}
	return 0
}

// cond evaluates a condition: 1 true, 2 false, 0 unknown.
func (z *zoneEval) cond(x cval, depth int) int {
	if depth > 10 {
		return 0
	}
	x = x.res()
	if b, ok := constBool(x.v); ok {
		if b {
			return 1
		}
		return 2
	}
	not := func(t int) int { return []int{0, 2, 1}[t] }
	present := func(v ssa.Value, t int) int {
		// whether zone data is present, given its state
		switch t {
		case 1:
			if z.T {
				return 1
			}
			return 2
		case 2:
			return 2
		}
		return 0
	}
	switch y := x.v.(type) {
	case *ssa.UnOp:
		if y.Op == token.NOT {
			return not(z.cond(cval{y.X, x.c}, depth+1))
		}
	case *ssa.BinOp:
		if y.Op != token.EQL && y.Op != token.NEQ {
			return 0
		}
		a, b := cval{y.X, x.c}.res(), cval{y.Y, x.c}.res()
		if isNilConst(a.v) {
			a, b = b, a
		}
		res := 0
		switch {
		case isNilConst(b.v) && isCfgPtr(a.v.Type()):
			res = 2
		case isNilConst(b.v) && isLocation(a.v.Type()):
			ks := z.loc(a, depth+1).kinds()
			nils := 0
			for _, k := range ks {
				if k == "nil" {
					nils++
				}
				if k == "?" {
					return 0
				}
			}
			if nils == 0 && len(ks) > 0 {
				res = 2
			} else if nils == len(ks) && nils > 0 {
				res = 1
			}
		default:
			// the name or pattern of zone data is empty only if there is none
			ow, f := loadedField(a.v)
			if ow == nil {
				a, b = b, a
				ow, f = loadedField(a.v)
			}
			if ow == nil || !isOffsetData(ow) || f != "Name" && f != "Regex" {
				return 0
			}
			s, isS := constString(b.v)
			if isS && s == "" || isNilConst(b.v) {
				if o, ok := offsetOf(a); ok {
					res = not(present(a.v, z.tz(o, depth+1)))
				}
			}
		}
		if y.Op == token.NEQ {
			res = not(res)
		}
		return res
	case *ssa.Phi:
		if inLoopPhi(y) {
			return 0
		}
		res := -1
		for k, e := range y.Edges {
			if !z.liveEdge(y.Block(), k, x.c) {
				continue
			}
			t := z.cond(cval{e, x.c}, depth+1)
			if res == -1 {
				res = t
			} else if res != t {
				return 0
			}
		}
		if res > 0 {
			return res
		}
		return 0
	case *ssa.Call, *ssa.Extract:
		cl, idx := callResult(x.v)
		if cl == nil {
			return 0
		}
		g := cl.Call.StaticCallee()
		if g == nil || len(g.Blocks) == 0 {
			return 0
		}
		if g.Name() == "IsZero" && len(cl.Call.Args) == 1 {
			if isOffsetData(cl.Call.Args[0].Type()) {
				return not(present(x.v, z.tz(cval{cl.Call.Args[0], x.c}, depth+1)))
			}
			return 0
		}
		if !z.p.inRepo(g) || !isBool(x.v.Type()) || g.Signature.Results().Len() > 2 {
			return 0
		}
		// helpers about zones or configurations only
		some := false
		for _, pr := range g.Params {
			if isOffsetData(pr.Type()) || isLocation(pr.Type()) || isCfgPtr(pr.Type()) || isTime(pr.Type()) {
				some = true
			}
		}
		if !some {
			return 0
		}
		c := z.enter(cl, g, x.c)
		if c == nil {
			return 0
		}
		res := -1
		for _, ret := range z.liveReturns(g, c) {
			vs := ret.Results
			t := z.cond(cval{vs[idx], c}, depth+1)
			if res == -1 {
				res = t
			} else if res != t {
				return 0
			}
		}
		if res > 0 {
			return res
		}
	}
	return 0
}

// offsetOf: the zone data a field is read from.
func offsetOf(x cval) (cval, bool) {
	switch y := x.v.(type) {
	case *ssa.Field:
		return cval{y.X, x.c}, true
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok {
			if al, ok := fa.X.(*ssa.Alloc); ok {
				st := storesInto(al, 0)
				if len(st) == 1 && st[0].Addr == ssa.Value(al) {
					return cval{st[0].Val, x.c}, true
				}
			}
		}
	}
	return cval{}, false
}

// edges: the branches of f that can be taken under the assumption.
func (z *zoneEval) edges(f *ssa.Function, c *cctx) map[refEdge]bool {
	var k zkey
	if len(f.Blocks) == 0 {
		return nil
	}
	k = zkey{f, c, 9}
	if m, ok := z.live[k]; ok {
		return m
	}
	m := map[refEdge]bool{}
	z.live[k] = m
	// conditions are decided in the order of execution
	done := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{f.Blocks[0]}
	for len(st) > 0 {
		// take a block whose predecessors have been looked at, if there is one
		best := 0
		for i, b := range st {
			if b.Index < st[best].Index && false {
				best = i
			}
			ready := true
			for _, pr := range b.Preds {
				if !done[pr] && !b.Dominates(pr) && reachesUndone(st, pr, b, done) {
					ready = false
				}
			}
			if ready {
				best = i
				break
			}
		}
		b := st[best]
		st = append(st[:best], st[best+1:]...)
		if done[b] {
			continue
		}
		done[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			switch z.cond(cval{iff.Cond, c}, 0) {
			case 1:
				m[refEdge{b, 0}] = true
				st = append(st, b.Succs[0])
				continue
			case 2:
				m[refEdge{b, 1}] = true
				st = append(st, b.Succs[1])
				continue
			}
		}
		for j, s := range b.Succs {
			m[refEdge{b, j}] = true
			st = append(st, s)
		}
	}
	return m
}

// reachesUndone: pr may still become live through a block waiting in st (other than b).
func reachesUndone(st []*ssa.BasicBlock, pr, b *ssa.BasicBlock, done map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	var w []*ssa.BasicBlock
	for _, x := range st {
		if x != b && !done[x] && !seen[x] {
			seen[x] = true
			w = append(w, x)
		}
	}
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		if x == pr {
			return true
		}
		for _, s := range x.Succs {
			if !seen[s] && !done[s] {
				seen[s] = true
				w = append(w, s)
			}
		}
	}
	return false
}

func (z *zoneEval) liveEdge(b *ssa.BasicBlock, k int, c *cctx) bool {
	m := z.edges(b.Parent(), c)
	pr := b.Preds[k]
	for j, s := range pr.Succs {
		if s == b && m[refEdge{pr, j}] {
			return true
		}
	}
	return false
}

func (z *zoneEval) liveBlock(b *ssa.BasicBlock, c *cctx) bool {
	if b.Index == 0 {
		return true
	}
	for k := range b.Preds {
		if z.liveEdge(b, k, c) {
			return true
		}
	}
	return false
}

func (z *zoneEval) liveReturns(g *ssa.Function, c *cctx) (out []*ssa.Return) {
	for _, ret := range returnsOf(g) {
		if z.liveBlock(ret.Block(), c) {
			out = append(out, ret)
		}
	}
	return
}

// zeroHere: v is known to be the zero time or date in b.
func (z *zoneEval) zeroHere(v ssa.Value, b *ssa.BasicBlock, c *cctx) bool {
	for n := 0; n < 30; n++ {
		var from *ssa.BasicBlock
		edge := -1
		for k, pr := range b.Preds {
			if z.liveEdge(b, k, c) {
				if from != nil {
					return false
				}
				from = pr
				for j, s := range pr.Succs {
					if s == b {
						edge = j
					}
				}
			}
		}
		if from == nil || edge < 0 || b.Dominates(from) {
			return false
		}
		if zeroFact(from, edge, v) {
			return true
		}
		b = from
	}
	return false
}

// zeroFact: the edge is only taken when the value (or what is stored at the address) is zero.
func zeroFact(b *ssa.BasicBlock, k int, v ssa.Value) bool {
	fs := edgeFacts(b, k)
	if _, isAl := v.(*ssa.Alloc); isAl {
		// what a variable held earlier does not matter
		fs = nil
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
			fs = expandFacts([]Fact{{iff.Cond, k == 0}})
		}
	}
	for _, f := range fs {
		cl, ok := f.Cond.(*ssa.Call)
		if !ok || !f.Val || len(cl.Call.Args) != 1 || !strings.HasSuffix(calleeName(cl.Common()), ".IsZero") {
			continue
		}
		a := cl.Call.Args[0]
		if _, isAl := v.(*ssa.Alloc); a == v || !isAl && sameVal(cval{v: a}, cval{v: v}) {
			return true
		}
		for d := 0; d < 4; d++ {
			switch x := a.(type) {
			case *ssa.UnOp:
				a = x.X
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.Field:
				a = x.X
			default:
				d = 9
			}
			if a == v {
				return true
			}
		}
	}
	return false
}

// stored collects what may be in the (time) field of a local structure, or in a local variable, at an instruction.
func (z *zoneEval) stored(al *ssa.Alloc, field string, at ssa.Instruction, c *cctx, eval func(cval) zset) zset {
	out := zset{}
	type vis struct{ b *ssa.BasicBlock }
	seen := map[vis]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for k := from; k >= 0; k-- {
			st, ok := b.Instrs[k].(*ssa.Store)
			if !ok {
				if b.Instrs[k] == ssa.Instruction(al) {
					return
				}
				continue
			}
			if st.Addr == ssa.Value(al) {
				out.addAll(eval(cval{st.Val, c}))
				return
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(al) {
				if _, n := fieldName(fa); n == field {
					out.addAll(eval(cval{st.Val, c}))
					return
				}
			}
		}
		for k, pr := range b.Preds {
			if !z.liveEdge(b, k, c) || seen[vis{pr}] {
				continue
			}
			zero := false
			for j, s := range pr.Succs {
				if s == b && zeroFact(pr, j, al) {
					zero = true
				}
			}
			if zero {
				continue
			}
			seen[vis{pr}] = true
			walk(pr, len(pr.Instrs)-1)
		}
	}
	walk(at.Block(), instrIndex(at)-1)
	return out
}

func (z *zoneEval) unknown(i any) zset { return zset{zval{kind: "?"}: true} }

// loc: the possible locations of a *time.Location value.
func (z *zoneEval) loc(x cval, depth int) zset { return z.eval(x, depth, 1) }

// time: the possible zones of a time.Time, or of the time in a date.Date.
func (z *zoneEval) time(x cval, depth int) zset { return z.eval(x, depth, 0) }

func (z *zoneEval) eval(x cval, depth, what int) zset {
	x = x.res()
	k := zkey{x.v, x.c, what}
	if s, ok := z.memo[k]; ok {
		return s
	}
	if z.busy[k] || depth > 60 {
		return zset{}
	}
	z.busy[k] = true
	z.n++
	s := z.eval1(x, depth, what)
	delete(z.busy, k)
	z.memo[k] = s
	return s
}

func (z *zoneEval) one(kind string, class int, v ssa.Value) zset {
	pos := ""
	if i, ok := v.(ssa.Instruction); ok {
		pos = z.p.instrPos(i)
	}
	return zset{zval{kind, class, pos}: true}
}

func (z *zoneEval) eval1(x cval, depth, what int) zset {
	again := func(y cval) zset { return z.eval(y, depth+1, what) }
	switch y := x.v.(type) {
	case *ssa.Const:
		if what == 1 {
			return z.one("nil", 0, nil)
		}
		return zset{}
	case *ssa.Phi:
		out := zset{}
		for k, e := range y.Edges {
			if !z.liveEdge(y.Block(), k, x.c) {
				continue
			}
			zero := false
			pr := y.Block().Preds[k]
			for j, s := range pr.Succs {
				if s == y.Block() && zeroFact(pr, j, e) {
					zero = true
				}
			}
			if zero && what == 0 {
				continue
			}
			out.addAll(again(cval{e, x.c}))
		}
		return out
	case *ssa.UnOp:
		if y.Op != token.MUL {
			return z.unknown(y)
		}
		if g, ok := y.X.(*ssa.Global); ok {
			if what == 1 && g.Pkg != nil && g.Pkg.Pkg.Path() == "time" {
				switch g.Name() {
				case "UTC":
					return z.one("utc", 0, y)
				case "Local":
					return z.one("local", 0, y)
				}
			}
			return z.unknown(y)
		}
		if al, ok := y.X.(*ssa.Alloc); ok {
			return z.stored(al, "Time", y, x.c, again)
		}
		if fa, ok := y.X.(*ssa.FieldAddr); ok {
			_, n := fieldName(fa)
			if isCfgType(fa.X.Type()) {
				switch {
				case n == "CurrentTime":
					return z.one("ref", 0, nil)
				case n == "DefaultTimezone":
					if z.D {
						return z.one("default", 0, y)
					}
					return z.one("nil", 0, y)
				}
				return z.unknown(y)
			}
			if al, ok := fa.X.(*ssa.Alloc); ok {
				return z.stored(al, n, y, x.c, again)
			}
			if v := fieldVar(fa); v != nil && isTime(v.Type()) {
				// a field of a longer-lived structure: everything stored in it
				out := zset{}
				for _, st := range z.fieldStores(v) {
					out.addAll(z.eval(cval{st.Val, nil}, depth+1, what))
				}
				return out
			}
		}
		return z.unknown(y)
	case *ssa.Field:
		if typeIs(y.X.Type(), repoPkg("date"), "Date") {
			return z.eval(cval{y.X, x.c}, depth+1, what)
		}
		if isCfgType(y.X.Type()) {
			_, n := fieldName(y)
			switch {
			case n == "CurrentTime":
				return z.one("ref", 0, nil)
			case n == "DefaultTimezone" && z.D:
				return z.one("default", 0, y)
			case n == "DefaultTimezone":
				return z.one("nil", 0, y)
			}
		}
		return z.unknown(y)
	case *ssa.Parameter:
		if x.c != nil {
			return z.unknown(y)
		}
		out := zset{}
		f := y.Parent()
		if z.p.isEntry(f) {
			return z.unknown(y)
		}
		for _, s := range z.p.callSites(f) {
			if a := argFor(s, y); a != nil {
				out.addAll(again(cval{a, nil}))
			} else {
				out.addAll(z.unknown(y))
			}
		}
		return out
	case *ssa.Call, *ssa.Extract:
		cl, idx := callResult(x.v)
		if cl == nil {
			return z.unknown(y)
		}
		return z.call(x, cl, idx, depth, what)
	}
	return z.unknown(x.v)
}

func (z *zoneEval) fieldStores(v *types.Var) []*ssa.Store {
	var out []*ssa.Store
	for _, f := range z.p.reachableRepo() {
		eachInstr(f, func(i ssa.Instruction) {
			if st, ok := i.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa) == v {
					out = append(out, st)
				}
			}
		})
	}
	return out
}

func (z *zoneEval) call(x cval, cl *ssa.Call, idx, depth, what int) zset {
	args := cl.Call.Args
	arg := func(k int) cval { return cval{args[k], x.c} }
	withClass := func(s zset, class int) zset {
		out := zset{}
		for v := range s {
			pos := v.pos
			if pos == "" || true {
				pos = z.p.instrPos(cl)
			}
			out[zval{v.kind, class, pos}] = true
		}
		return out
	}
	nm := calleeName(cl.Common())
	switch nm {
	case "time.FixedZone":
		a, b := cval{args[0], x.c}.res(), cval{args[1], x.c}.res()
		oa, na := loadedField(a.v)
		ob, nb := loadedField(b.v)
		switch {
		case oa != nil && ob != nil && isOffsetData(oa) && isOffsetData(ob):
			if na != "Name" || nb != "Offset" {
				return z.one("fixed", 0, cl)
			}
			return z.one("text", 0, cl)
		case ob != nil && isOffsetData(ob):
			return z.one("text", 0, cl)
		case oa != nil && isOffsetData(oa):
			return z.one("fixed", 0, cl)
		}
		if _, isC := constInt(b.v); isC {
			return z.one("fixed", 0, cl)
		}
		return z.unknown(cl)
	case "(time.Time).Location":
		return withClass(z.time(arg(0), depth+1), 0)
	case "time.Now":
		return z.one("local", 0, cl)
	case "time.Unix", "time.UnixMilli", "time.UnixMicro":
		return z.one("local", 1, cl)
	case "time.Parse":
		return z.one("utc", 2, cl)
	case "time.ParseInLocation":
		return withClass(z.loc(arg(2), depth+1), 2)
	case "time.Date":
		return withClass(z.loc(arg(7), depth+1), 2)
	case "(time.Time).In", "(time.Time).UTC", "(time.Time).Local":
		var l zset
		switch nm {
		case "(time.Time).In":
			l = z.loc(arg(1), depth+1)
		case "(time.Time).UTC":
			l = z.one("utc", 0, cl)
			if c2, _ := callResult(arg(0).res().v); c2 != nil && calleeName(c2.Common()) == "time.Now" {
				l = z.one("ref", 0, cl)
			}
		default:
			l = z.one("local", 0, cl)
		}
		out := zset{}
		for t := range z.time(arg(0), depth+1) {
			if t.class == 2 {
				out[zval{"shifted", 2, z.p.instrPos(cl)}] = true
				continue
			}
			out.addAll(withClass(l, t.class))
		}
		return out
	case "(time.Time).AddDate", "(time.Time).Add", "(time.Time).Truncate", "(time.Time).Round":
		return z.time(arg(0), depth+1)
	}
	callees := z.p.callees(cl)
	if len(callees) == 0 {
		return z.unknown(cl)
	}
	out := zset{}
	for _, g := range callees {
		if !z.p.inRepo(g) || len(g.Blocks) == 0 {
			out.addAll(z.unknown(cl))
			continue
		}
		c := z.enter(cl, g, x.c)
		if c == nil {
			out.addAll(z.unknown(cl))
			continue
		}
		for _, ret := range z.liveReturns(g, c) {
			vs := ret.Results
			if idx >= len(vs) {
				continue
			}
			if what == 0 && z.zeroHere(vs[idx], ret.Block(), c) {
				continue
			}
			out.addAll(z.eval(cval{vs[idx], c}, depth+1, what))
		}
	}
	return out
}

func (z *zoneEval) want(class int) string {
	switch {
	case z.T && class != 1:
		return "text"
	case z.D:
		return "default"
	}
	return "ref"
}

var zoneNames = map[string]string{"text": "the zone in the text", "default": "the default time zone", "ref": "the zone of the reference time", "utc": "UTC", "local": "the local zone of the machine", "nil": "no zone", "fixed": "a zone not built from name and offset of the zone in the text", "shifted": "a zone into which the written clock time was converted"}

func checkC21(p *Prog, r *Result) {
	r.Rule = "The zone of every date returned by the parsers and by the API, evaluated under each of the four combinations of (zone in the text, default time zone configured), is exactly the zone the precedence prescribes; every place that chooses between these zones follows the same precedence; clock times are carried over part by part and never converted once they come from text."
	r.Explanation = "Flow- and context-sensitive evaluation of the location behind each time value on SSA, with branches on the presence of a zone pruned under each assumption."
	r.Assumptions = append(r.Assumptions, "package time keeps the location it is given", "internal configurations are never nil")
	assume := func(t, d bool) string {
		a, b := "no zone in the text", "no default zone"
		if t {
			a = "a zone in the text"
		}
		if d {
			b = "a default zone"
		}
		return a + ", " + b
	}
	var entries []*ssa.Function
	for _, f := range p.entryPoints() {
		if f.Signature.Results().Len() > 0 && typeIs(f.Signature.Results().At(0).Type(), repoPkg("date"), "Date") && f.Synthetic == "" {
			entries = append(entries, f)
		}
	}
	sort.Slice(entries, func(i, j int) bool { return fnKey(entries[i]) < fnKey(entries[j]) })
	resolved := map[string]bool{}
	for n := 0; n < 4; n++ {
		t, d := n&1 != 0, n&2 != 0
		z := newZoneEval(p, t, d)
		for _, f := range entries {
			root := &cctx{nil, f, nil, 0}
			out := zset{}
			for _, ret := range z.liveReturns(f, root) {
				out.addAll(z.time(cval{ret.Results[0], root}, 0))
			}
			bad := map[string]string{}
			good := 0
			for v := range out {
				if v.kind == "?" {
					continue
				}
				resolved[v.pos] = true
				if v.kind != z.want(v.class) {
					bad[v.pos] = fmt.Sprintf("with %s, the result is in %s instead of %s", assume(t, d), zoneNames[v.kind], zoneNames[z.want(v.class)])
				} else {
					good++
				}
			}
			key := fnKey(f) + ": " + assume(t, d)
			for _, pos := range sortedKeys(bad) {
				r.bad("zone-precedence", key, pos, bad[pos])
			}
			if len(bad) == 0 {
				r.ok("zone-precedence", key, p.pos(f.Pos()), fmt.Sprintf("every result is in the prescribed zone (%d sources)", good))
			}
		}
		// every place where one of these zones is chosen
		for _, f := range p.reachableRepo() {
			if !isRepoPath(pkgOf(f)) || p.fromInit(f) {
				continue
			}
			eachInstr(f, func(i ssa.Instruction) {
				cl, ok := i.(*ssa.Call)
				if !ok {
					return
				}
				k := -1
				switch calleeName(cl.Common()) {
				case "time.Date":
					k = 7
				case "(time.Time).In":
					k = 1
				case "time.ParseInLocation":
					k = 2
				}
				if k < 0 || !z.liveBlock(cl.Block(), nil) {
					return
				}
				class := 2
				if k == 1 {
					class = 0
					for v := range z.time(cval{cl.Call.Args[0], nil}, 0) {
						if v.class == 1 {
							class = 1
						}
					}
				}
				out := z.loc(cval{cl.Call.Args[k], nil}, 0)
				chosen, bad := false, ""
				for _, v := range out.kinds() {
					if v == "text" || v == "default" {
						chosen = true
					}
					if v != "?" && v != "ref" && v != z.want(class) || v == "ref" && z.want(class) != "ref" {
						bad = v
					}
				}
				if !chosen {
					return
				}
				key := siteKey(i, "zone chosen") + ": " + assume(t, d)
				// the reference zone may still be replaced later on
				if bad == "ref" && k != 1 {
					bad = ""
				}
				r.add(bad == "", "zone-precedence", key, p.instrPos(i), pick(bad == "", "follows the precedence", fmt.Sprintf("with %s, %s is used instead of %s", assume(t, d), zoneNames[bad], zoneNames[z.want(class)])))
			})
		}
		r.Analysed["functions evaluated"] += len(z.fns)
		r.Analysed["values evaluated"] += z.n
	}
	r.Analysed["zone sources"] = len(resolved)
	clockKept(p, r)
	r.floor("zone-precedence", 8)
	r.floor("clock-kept", 3)
}

var clockParts = []struct {
	method, key string
}{{"Hour", "hour"}, {"Minute", "minute"}, {"Second", "second"}, {"Nanosecond", "nanosecond"}}

// clockPart: which part of the clock the value is (-1: not one), and the time it is a part of.
func clockPart(x cval) (int, *cval) {
	x = x.res()
	if cl, idx := callResult(x.v); cl != nil && len(cl.Call.Args) > 0 {
		nm := calleeName(cl.Common())
		for k, c := range clockParts {
			if nm == "(time.Time)."+c.method {
				return k, &cval{cl.Call.Args[0], x.c}
			}
		}
		if nm == "(time.Time).Clock" {
			return idx, &cval{cl.Call.Args[0], x.c}
		}
	}
	var lk *ssa.Lookup
	switch y := x.v.(type) {
	case *ssa.Lookup:
		lk = y
	case *ssa.Extract:
		if l, ok := y.Tuple.(*ssa.Lookup); ok && y.Index == 0 {
			lk = l
		}
	}
	if lk != nil {
		if s, ok := constString(lk.Index); ok {
			for k, c := range clockParts {
				if s == c.key {
					return k, nil
				}
			}
			return 9, nil
		}
	}
	return -1, nil
}

// clockKept: where a time is rebuilt, hours, minutes, seconds and nanoseconds are carried over in their own places.
func clockKept(p *Prog, r *Result) {
	for _, f := range p.reachableRepo() {
		if !isRepoPath(pkgOf(f)) || p.fromInit(f) {
			continue
		}
		eachInstr(f, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Call:
				if calleeName(x.Common()) != "time.Date" {
					return
				}
				some, why := false, ""
				var of *cval
				for k := 0; k < 4; k++ {
					part, t := clockPart(cval{v: x.Call.Args[3+k]})
					if part >= 0 {
						some = true
						if part != k {
							why = fmt.Sprintf("the %s is not taken from the %s", clockParts[k].key, clockParts[k].key)
						}
						if t != nil && of != nil && !sameVal(*of, *t) {
							why = "the parts of the clock time come from different times"
						}
						if t != nil {
							of = t
						}
					}
				}
				if !some {
					return
				}
				for k := 0; k < 4; k++ {
					if _, isC := constInt(x.Call.Args[3+k]); isC {
						why = "the " + clockParts[k].key + " is dropped"
					}
				}
				r.add(why == "", "clock-kept", siteKey(i, "time rebuilt"), p.instrPos(i), okOr(why, "all parts of the clock time carried over"))
			case *ssa.MapUpdate:
				s, ok := constString(x.Key)
				if !ok {
					return
				}
				part, _ := clockPart(cval{v: x.Value})
				for k, c := range clockParts {
					if s == c.key && part >= 0 {
						okk := part == k
						r.add(okk, "clock-kept", siteKey(i, "clock part "+s), p.instrPos(i), pick(okk, "stored under its own name", "the "+s+" is not taken from the "+s))
					}
				}
			}
		})
	}
}
