package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A vdom is a finite abstraction of the values of one tracked quantity: the listed integer or
// string constants plus one atom "anything else" (for integers: larger than all listed ones).
type vdom struct {
	p    *Prog
	ints []int64
	strs []string
	// same recognises the tracked quantity beyond the parameters bound to it
	same func(v ssa.Value) bool
	memo map[string][2]kindSet
	busy map[string]bool
}

func (d *vdom) n() int {
	if d.strs != nil {
		return len(d.strs)
	}
	return len(d.ints)
}
func (d *vdom) full() kindSet  { return kindSet(1)<<uint(d.n()+1) - 1 }
func (d *vdom) valid() kindSet { return kindSet(1)<<uint(d.n()) - 1 }
func (d *vdom) names(s kindSet) string {
	var out []string
	for i := 0; i <= d.n(); i++ {
		if s>>uint(i)&1 == 0 {
			continue
		}
		switch {
		case i == d.n():
			out = append(out, "any other value")
		case d.strs != nil:
			out = append(out, d.strs[i])
		default:
			out = append(out, itoa(int(d.ints[i])))
		}
	}
	return strings.Join(out, ", ")
}

// vctx is a function analysed in the context of one call: parameters bound to caller values.
type vctx struct {
	env   map[*ssa.Parameter]ssa.Value // parameters bound to constants of the caller
	track map[ssa.Value]bool           // values that are the tracked quantity
}

func (d *vdom) isSame(c *vctx, v ssa.Value) (ok, upper bool) {
	for i := 0; i < 8; i++ {
		if c.track[v] || d.same != nil && d.same(v) {
			return true, upper
		}
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Call:
			switch calleeName(x.Common()) {
			case "strings.ToLower", "strings.TrimSpace":
				v = x.Call.Args[0]
			case "strings.ToUpper":
				upper = true
				v = x.Call.Args[0]
			default:
				return false, false
			}
		default:
			return false, false
		}
	}
	return false, false
}

func (c *vctx) val(v ssa.Value) ssa.Value {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			if w, ok := c.env[x]; ok {
				return w
			}
			return v
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
	return v
}

// flow computes the possible values of the tracked quantity on entry to each block.
func (d *vdom) flow(f *ssa.Function, c *vctx, start *ssa.BasicBlock) map[*ssa.BasicBlock]kindSet {
	in := map[*ssa.BasicBlock]kindSet{start: d.full()}
	work := []*ssa.BasicBlock{start}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := in[b]
		for k, su := range b.Succs {
			o := d.edge(c, b, k, s)
			if o != 0 && in[su]|o != in[su] && su != start {
				in[su] |= o
				work = append(work, su)
			}
		}
	}
	return in
}

// edge refines the set along the k-th out edge of a block.
func (d *vdom) edge(c *vctx, b *ssa.BasicBlock, k int, s kindSet) kindSet {
	if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
		return d.refine(c, s, iff.Cond, k == 0, 0)
	}
	return s
}

func (d *vdom) refine(c *vctx, s kindSet, cond ssa.Value, val bool, depth int) kindSet {
	if depth > 8 {
		return s
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return d.refine(c, s, x.X, !val, depth+1)
		}
	case *ssa.Phi:
		// union over the edges that can deliver the wanted outcome
		for _, pr := range x.Block().Preds {
			if x.Block().Dominates(pr) {
				return s
			}
		}
		var out kindSet
		for i, e := range x.Edges {
			if b, ok := constBool(e); ok && b != val {
				continue
			}
			pr := x.Block().Preds[i]
			o := s
			for _, f := range facts(pr) {
				if f.Cond != cond {
					o = d.refine(c, o, f.Cond, f.Val, depth+2)
				}
			}
			for k, su := range pr.Succs {
				if su == x.Block() {
					o = d.edge(c, pr, k, o)
					break
				}
			}
			if _, ok := constBool(e); !ok {
				o = d.refine(c, o, e, val, depth+1)
			}
			out |= o
		}
		return out
	case *ssa.BinOp:
		if isErrType(x.X.Type()) && (x.Op == token.EQL || x.Op == token.NEQ) && (isNilConst(x.Y) || isNilConst(x.X)) {
			e := x.X
			if isNilConst(x.X) {
				e = x.Y
			}
			ok, bad, known := d.callOutcome(c, e)
			if !known {
				return s
			}
			if (x.Op == token.EQL) == val {
				return s & ok
			}
			return s & bad
		}
		op := x.Op
		a, b := x.X, x.Y
		same, upper := d.isSame(c, a)
		if !same {
			same, upper = d.isSame(c, b)
			a, b = b, a
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !same {
			return s
		}
		if d.strs != nil {
			k, ok := constString(c.val(b))
			if !ok || op != token.EQL && op != token.NEQ {
				return s
			}
			if upper {
				k = strings.ToLower(k)
			}
			return d.pick(s, func(i int) bool { return i < d.n() && d.strs[i] == k }, (op == token.EQL) == val, d.strIndex(k) < 0)
		}
		k, ok := constInt(c.val(b))
		if !ok {
			return s
		}
		var out kindSet
		for i := 0; i <= d.n(); i++ {
			if s>>uint(i)&1 == 0 {
				continue
			}
			if i == d.n() {
				// anything else: larger than all listed constants
				known, r := false, false
				inside := k <= d.ints[len(d.ints)-1]
				switch op {
				case token.EQL, token.LSS, token.LEQ:
					known, r = inside, false
				case token.NEQ, token.GTR, token.GEQ:
					known, r = inside, true
				}
				if !known || r == val {
					out |= 1 << uint(i)
				}
				continue
			}
			v := d.ints[i]
			var r bool
			switch op {
			case token.EQL:
				r = v == k
			case token.NEQ:
				r = v != k
			case token.LSS:
				r = v < k
			case token.LEQ:
				r = v <= k
			case token.GTR:
				r = v > k
			case token.GEQ:
				r = v >= k
			default:
				r = val
			}
			if r == val {
				out |= 1 << uint(i)
			}
		}
		return out
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
			if same, upper := d.isSame(c, lk.Index); same {
				if keys, ok := d.p.constKeys(lk.X); ok {
					return d.inList(s, keys, upper, val)
				}
			}
		}
		if cl, ok := x.Tuple.(*ssa.Call); ok && isBool(x.Type()) {
			if t, f, known := d.boolOutcome(c, cl, x.Index); known {
				if val {
					return s & t
				}
				return s & f
			}
		}
	case *ssa.Lookup: // map[T]bool
		if same, upper := d.isSame(c, x.Index); same && isBool(x.Type()) {
			if keys, ok := d.p.constKeys(x.X); ok {
				return d.inList(s, keys, upper, val)
			}
		}
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "slices.Contains":
			if same, upper := d.isSame(c, x.Call.Args[1]); same {
				if keys, ok := d.p.constElems(x.Call.Args[0]); ok {
					return d.inList(s, keys, upper, val)
				}
			}
			return s
		case "strings.EqualFold":
			for i := 0; i < 2; i++ {
				if same, _ := d.isSame(c, x.Call.Args[i]); same {
					if k := c.val(x.Call.Args[1-i]); k != nil {
						return d.inList(s, []ssa.Value{k}, true, val)
					}
				}
			}
			return s
		}
		if isBool(x.Type()) {
			if t, f, known := d.boolOutcome(c, x, -1); known {
				if val {
					return s & t
				}
				return s & f
			}
		}
	}
	return s
}

func (d *vdom) strIndex(k string) int {
	for i, s := range d.strs {
		if s == k {
			return i
		}
	}
	return -1
}

// pick keeps the atoms for which match has the wanted outcome; otherMatches says whether "anything else" may match.
func (d *vdom) pick(s kindSet, match func(int) bool, want, otherMatches bool) kindSet {
	var out kindSet
	for i := 0; i <= d.n(); i++ {
		if s>>uint(i)&1 == 0 {
			continue
		}
		if i == d.n() {
			if !want || otherMatches {
				out |= 1 << uint(i)
			}
			continue
		}
		if match(i) == want {
			out |= 1 << uint(i)
		}
	}
	return out
}

func (d *vdom) inList(s kindSet, list []ssa.Value, lower, val bool) kindSet {
	in := map[int]bool{}
	other := false
	for _, e := range list {
		idx := -1
		if d.strs != nil {
			k, ok := constString(e)
			if !ok {
				return s
			}
			if lower {
				k = strings.ToLower(k)
			}
			idx = d.strIndex(k)
		} else {
			k, ok := constInt(e)
			if !ok {
				return s
			}
			for i, v := range d.ints {
				if v == k {
					idx = i
				}
			}
		}
		if idx < 0 {
			other = true
		} else {
			in[idx] = true
		}
	}
	return d.pick(s, func(i int) bool { return in[i] }, val, other)
}

// bind builds the context of a callee.
func (d *vdom) bind(c *vctx, call *ssa.CallCommon, g *ssa.Function) (*vctx, string) {
	n := &vctx{env: map[*ssa.Parameter]ssa.Value{}, track: map[ssa.Value]bool{}}
	key := fnKey(g)
	for i, a := range call.Args {
		if i >= len(g.Params) {
			break
		}
		if same, upper := d.isSame(c, a); same && !upper {
			n.track[g.Params[i]] = true
			key += "|" + itoa(i)
			continue
		}
		if k, ok := c.val(a).(*ssa.Const); ok {
			n.env[g.Params[i]] = k
			key += "|" + k.String()
		} else {
			key += "|?"
		}
	}
	return n, key
}

// callOutcome: for an error value produced by a repository call, the atoms for which it may be nil / non-nil.
func (d *vdom) callOutcome(c *vctx, e ssa.Value) (okSet, badSet kindSet, known bool) {
	idx := 0
	var cl *ssa.Call
	switch x := e.(type) {
	case *ssa.Call:
		cl = x
	case *ssa.Extract:
		cl, _ = x.Tuple.(*ssa.Call)
		idx = x.Index
	}
	if cl == nil {
		return 0, 0, false
	}
	g := cl.Common().StaticCallee()
	if g == nil || len(g.Blocks) == 0 || !d.p.inRepo(g) {
		return 0, 0, false
	}
	n, key := d.bind(c, cl.Common(), g)
	key += "#" + itoa(idx)
	if r, ok := d.memo[key]; ok {
		return r[0], r[1], true
	}
	if d.busy[key] {
		return d.full(), d.full(), true
	}
	d.busy[key] = true
	defer delete(d.busy, key)
	in := d.flow(g, n, g.Blocks[0])
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || in[b] == 0 || idx >= len(ret.Results) {
			continue
		}
		o, bd := d.errValue(n, retValues(ret)[idx], b, in[b])
		okSet |= o
		badSet |= bd
	}
	d.memo[key] = [2]kindSet{okSet, badSet}
	return okSet, badSet, true
}

// errValue splits a set by whether the returned error value may be nil / non-nil.
func (d *vdom) errValue(c *vctx, v ssa.Value, b *ssa.BasicBlock, s kindSet) (okSet, badSet kindSet) {
	if isNilConst(v) {
		return s, 0
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b && !inLoop(b) {
		in := d.flow(b.Parent(), c, b.Parent().Blocks[0])
		for i, e := range ph.Edges {
			pr := b.Preds[i]
			o := in[pr]
			for k, su := range pr.Succs {
				if su == b {
					o = d.edge(c, pr, k, o)
					break
				}
			}
			x, y := d.errValue(c, e, pr, o)
			okSet |= x
			badSet |= y
		}
		return okSet, badSet
	}
	for _, f := range facts(b) {
		if bo, ok := f.Cond.(*ssa.BinOp); ok && (bo.X == v && isNilConst(bo.Y) || bo.Y == v && isNilConst(bo.X)) {
			if (bo.Op == token.NEQ) == f.Val {
				return 0, s
			}
			return s, 0
		}
	}
	if nonNilErr(v) {
		return 0, s
	}
	if o, bd, known := d.callOutcome(c, v); known {
		return s & o, s & bd
	}
	return s, s
}

// nonNilErr reports whether an error value is certainly not nil.
func nonNilErr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "fmt.Errorf", "errors.New":
			return true
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && strings.HasPrefix(strings.ToLower(g.Name()), "err") {
			return true
		}
	}
	return false
}

// boolOutcome: atoms for which a repository predicate may return true / false.
func (d *vdom) boolOutcome(c *vctx, cl *ssa.Call, idx int) (t, f kindSet, known bool) {
	g := cl.Common().StaticCallee()
	if g == nil || len(g.Blocks) == 0 || !d.p.inRepo(g) {
		return 0, 0, false
	}
	n, key := d.bind(c, cl.Common(), g)
	i := max(idx, 0)
	key += "b" + itoa(i)
	if r, ok := d.memo[key]; ok {
		return r[0], r[1], true
	}
	if d.busy[key] {
		return d.full(), d.full(), true
	}
	d.busy[key] = true
	defer delete(d.busy, key)
	in := d.flow(g, n, g.Blocks[0])
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || in[b] == 0 || i >= len(ret.Results) {
			continue
		}
		if k, ok := constBool(retValues(ret)[i]); ok {
			if k {
				t |= in[b]
			} else {
				f |= in[b]
			}
			continue
		}
		t |= d.refine(n, in[b], retValues(ret)[i], true, 0)
		f |= d.refine(n, in[b], retValues(ret)[i], false, 0)
	}
	d.memo[key] = [2]kindSet{t, f}
	return t, f, true
}

func (p *Prog) newDom(ints []int64, strs []string, same func(ssa.Value) bool) *vdom {
	return &vdom{p: p, ints: ints, strs: strs, same: same, memo: map[string][2]kindSet{}, busy: map[string]bool{}}
}

// constElems lists the constant elements of a slice value: a literal or a package variable initialised by one.
func (p *Prog) constElems(v ssa.Value) ([]ssa.Value, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if iv := p.initValue(g); iv != nil {
				return p.constElems(iv)
			}
		}
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil, false
		}
		var out []ssa.Value
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				if r != ssa.Instruction(x) {
					return nil, false
				}
				continue
			}
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok {
					out = append(out, st.Val)
				}
			}
		}
		return out, true
	}
	return nil, false
}

// constKeys lists the constant keys of a map value.
func (p *Prog) constKeys(v ssa.Value) ([]ssa.Value, bool) {
	if x, ok := v.(*ssa.UnOp); ok && x.Op == token.MUL {
		if g, ok := x.X.(*ssa.Global); ok {
			if iv := p.initValue(g); iv != nil {
				return p.constKeys(iv)
			}
			return nil, false
		}
	}
	m, ok := v.(*ssa.MakeMap)
	if !ok {
		return nil, false
	}
	var out []ssa.Value
	for _, r := range *m.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if b, ok := constBool(r.Value); ok && !b {
				continue
			}
			out = append(out, r.Key)
		}
	}
	return out, true
}

// initValue is the value stored in a package variable by its initialiser, if that is the only store.
func (p *Prog) initValue(g *ssa.Global) ssa.Value {
	st := p.globalStores()[g]
	if len(st) != 1 || st[0].Parent().Name() != "init" {
		return nil
	}
	return st[0].Val
}

// globalStores lists the direct stores to every repository package variable.
func (p *Prog) globalStores() map[*ssa.Global][]*ssa.Store {
	if p.gstores == nil {
		p.gstores = map[*ssa.Global][]*ssa.Store{}
		for _, f := range p.fnSrc {
			eachInstr(f, func(i ssa.Instruction) {
				if st, ok := i.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						p.gstores[g] = append(p.gstores[g], st)
					}
				}
			})
		}
	}
	return p.gstores
}

func itoa(i int) string { return strconv.Itoa(i) }

func isErrType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}
