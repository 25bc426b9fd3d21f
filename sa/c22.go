package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C22"] = checkC22 }

// Each text is cut only at positions that are known to lie between two characters of that very text.
func checkC22(p *Prog, r *Result) {
	r.Rule = "Each bound of a text slice is a position found by searching the same text, its start or end, or the end of what was found there."
	r.Explanation = "Every expression that cuts a text (or the bytes of a text) in the library is an obligation per bound. The bound is followed back through variables, arithmetic, helper functions and callers to the search that produced it, and the text that was searched must be the text that is cut. Texts made of a single byte are obligations as well."
	c := &cutCheck{p: p, q: p.newProver()}
	reach := p.reachable()
	for _, f := range p.fnSrc {
		if _, ok := reach[f]; !ok {
			continue
		}
		r.Analysed["functions"]++
		n := 0
		eachInstr(f, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Slice:
				s := cutText(c.q, x)
				if s == nil {
					return
				}
				n++
				for k, b := range []ssa.Value{x.Low, x.High} {
					if b == nil {
						continue
					}
					end := []string{"start", "end"}[k]
					key := fmt.Sprintf("%s cut %d %s", fnKey(f), n, end)
					c.seen = map[cutKey]bool{}
					how := c.boundary(b, s, startOf(x.Block()), 0)
					if how == "" && c.numeric(x) {
						how = "used only if it consists of digits"
					}
					r.Analysed["cut positions"]++
					if how == "" && k == 1 && (&panicSite{p: p, q: c.q}).layoutSlice(x, c.q.norm(b), x.Block()) {
						how = "an English name that the time package has recognised"
					}
					if how == "" {
						r.bad("boundary", key, p.instrPos(x), "the text is cut at a position that is not known to be a character boundary of it")
					} else {
						r.ok("boundary", key, p.instrPos(x), how)
					}
				}
			case *ssa.Convert:
				if c.byteAsRune(x) {
					n++
					r.bad("byte", fmt.Sprintf("%s byte %d", fnKey(f), n), p.instrPos(x), "a single byte of a text is used as one of its characters")
					return
				}
				if !isString(x.Type()) {
					return
				}
				if b, ok := x.X.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8) {
					n++
					key := fmt.Sprintf("%s byte %d", fnKey(f), n)
					r.add(c.asciiByte(x.X, startOf(x.Block())), "byte", key, p.instrPos(x), "a text made of a single byte")
				}
			}
		})
	}
	r.floor("boundary", 8)
	r.Assumptions = append(r.Assumptions, "texts that are searched for are valid UTF-8 themselves", "the regular expression engines report matches at character boundaries of valid UTF-8")
}

type cutKey struct {
	v, s ssa.Value
}

type cutCheck struct {
	p    *Prog
	q    *prover
	seen map[cutKey]bool
}

// cutText: the text that is cut, or whose bytes are cut to make a text of them.
func cutText(q *prover, x *ssa.Slice) ssa.Value {
	if x.Low == nil && x.High == nil {
		return nil
	}
	if isString(x.X.Type()) {
		return x.X
	}
	sl, ok := x.X.Type().Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
		return nil
	}
	if cv, ok := q.rep(x.X).(*ssa.Convert); ok && isString(cv.X.Type()) {
		return cv.X
	}
	return nil
}

// text: the two values are the same text, or t starts at the same place as s.
func (c *cutCheck) text(t, s ssa.Value, depth int) bool {
	t, s = c.q.rep(t), c.q.rep(s)
	if t == s {
		return true
	}
	if cv, ok := t.(*ssa.Convert); ok {
		return c.text(cv.X, s, depth)
	}
	if cv, ok := s.(*ssa.Convert); ok {
		return c.text(t, cv.X, depth)
	}
	if depth > 4 {
		return false
	}
	if x, ok := s.(*ssa.Slice); ok && x.Low == nil && isString(x.X.Type()) {
		return c.text(t, x.X, depth+1)
	}
	switch x := t.(type) {
	case *ssa.Slice:
		return x.Low == nil && c.text(x.X, s, depth+1)
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "strings.TrimSuffix", "strings.TrimRight", "strings.TrimRightFunc", "strings.Clone":
			return c.text(x.Call.Args[0], s, depth+1)
		}
	}
	return false
}

// prefix: x is how s starts.
func (c *cutCheck) prefix(x, s ssa.Value, at loc) bool {
	x = c.q.rep(x)
	if x == c.q.rep(s) || c.text(x, s, 0) {
		return true
	}
	if cl, idx := callResult(x); cl != nil && idx == 0 && calleeName(&cl.Call) == "strings.Cut" && c.text(cl.Call.Args[0], s, 0) {
		return true
	}
	for _, f := range at.facts() {
		cl, ok := f.Cond.(*ssa.Call)
		if ok && f.Val && calleeName(&cl.Call) == "strings.HasPrefix" && c.text(cl.Call.Args[0], s, 0) && c.sameValue(cl.Call.Args[1], x) {
			return true
		}
	}
	return false
}

// suffix: x is how s ends.
func (c *cutCheck) suffix(x, s ssa.Value, at loc) bool {
	x = c.q.rep(x)
	same := func(t ssa.Value) bool { return c.q.rep(t) == c.q.rep(s) }
	switch y := x.(type) {
	case *ssa.Slice:
		return y.High == nil && same(y.X)
	case *ssa.Call:
		switch calleeName(&y.Call) {
		case "strings.TrimPrefix", "strings.TrimLeft", "strings.TrimLeftFunc":
			return same(y.Call.Args[0])
		}
	case *ssa.Extract:
		if cl, idx := callResult(y); cl != nil && idx == 1 && calleeName(&cl.Call) == "strings.Cut" && same(cl.Call.Args[0]) {
			return true
		}
		if cl, idx := callResult(y); cl != nil && idx == 0 && calleeName(&cl.Call) == "strings.CutPrefix" && same(cl.Call.Args[0]) {
			return true
		}
	}
	for _, f := range at.facts() {
		cl, ok := f.Cond.(*ssa.Call)
		if ok && f.Val && calleeName(&cl.Call) == "strings.HasSuffix" && same(cl.Call.Args[0]) && c.sameValue(cl.Call.Args[1], x) {
			return true
		}
	}
	return false
}

func (c *cutCheck) sameValue(a, b ssa.Value) bool {
	return c.q.rep(a) == c.q.rep(b) || sameText(c.q, a, b)
}

var searchCalls = map[string]bool{
	"strings.Index": true, "strings.LastIndex": true, "strings.IndexAny": true, "strings.LastIndexAny": true,
	"strings.IndexRune": true, "strings.IndexFunc": true, "strings.LastIndexFunc": true,
	"strings.IndexByte": true, "strings.LastIndexByte": true,
	"bytes.Index": true, "bytes.LastIndex": true, "bytes.IndexAny": true, "bytes.IndexRune": true, "bytes.IndexFunc": true, "bytes.IndexByte": true,
}

// boundary says why v is a character boundary of s, or nothing.
func (c *cutCheck) boundary(v, s ssa.Value, at loc, depth int) string {
	if depth > 14 {
		return ""
	}
	s = c.q.rep(s)
	if cv, ok := s.(*ssa.Convert); ok {
		s = c.q.rep(cv.X)
	}
	k := cutKey{v, s}
	if c.seen[k] {
		return "as before"
	}
	c.seen[k] = true
	if how := c.boundaryNow(v, s, at, depth); how != "" {
		return how
	}
	delete(c.seen, k)
	return ""
}

func (c *cutCheck) boundaryNow(v, s ssa.Value, at loc, depth int) string {
	q := c.q
	if n, ok := constInt(v); ok {
		if n <= 0 {
			return "the start of the text"
		}
		return c.offset(nil, v, s, at)
	}
	if l := q.norm(v); l == q.lenOf(s) {
		return "the end of the text"
	}
	if sl, ok := s.(*ssa.Slice); ok && sl.Low != nil && isString(sl.X.Type()) {
		if c.offset(sl.Low, v, sl.X, at) != "" {
			return "a position in the text this one is the rest of"
		}
	}
	if q.text(s) {
		return "all of the text's characters are single bytes"
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return c.boundary(x.X, s, at, depth+1)
	case *ssa.Convert:
		return c.boundary(x.X, s, at, depth+1)
	case *ssa.Phi, *memPhi:
		ph := phiOf(v)
		how := ""
		for e, w := range ph.edges {
			p := ph.blk.Preds[e]
			l := startOf(p)
			for j, sc := range p.Succs {
				if sc == ph.blk && len(p.Succs) > 1 {
					l = loc{p, j + 1}
				}
			}
			// the text may be carried along as well
			t := s
			if sp := phiOf(s); sp != nil && sp.blk == ph.blk {
				t = sp.edges[e]
			}
			if how = c.boundary(w, t, l, depth+1); how == "" {
				return ""
			}
		}
		return how
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		if m := q.matchPos(x); m != nil {
			if c.text(m.text, s, 0) {
				return "the position of a match in the text"
			}
			return ""
		}
		if r := q.rep(x); r != ssa.Value(x) {
			return c.boundary(r, s, at, depth+1)
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			return c.element(a.X, s, at, depth)
		case *ssa.Alloc, *ssa.FreeVar:
			return c.cell(pairCell(a), s, depth)
		}
	case *ssa.Call:
		return c.callPos(x, 0, s, at, depth)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return c.callPos(t, x.Index, s, at, depth)
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok && x.Index == 1 && c.text(rg.X, s, 0) {
				return "the position of a character"
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			if how := c.sum(x.X, x.Y, s, at, depth); how != "" {
				return how
			}
			return c.sum(x.Y, x.X, s, at, depth)
		case token.SUB:
			return c.difference(x.X, x.Y, s, at)
		}
	case *ssa.Parameter:
		return c.callers(x, s, depth)
	}
	return ""
}

// text: a constant whose characters are single bytes.
func (q *prover) text(s ssa.Value) bool {
	t, ok := q.constText(s, 0)
	return ok && isASCII(t)
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			return false
		}
	}
	return true
}

// element: a position kept in a list.
func (c *cutCheck) element(list, s ssa.Value, at loc, depth int) string {
	seen := map[ssa.Value]bool{}
	how := "positions collected in a list"
	ok, some := true, false
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		v = c.q.rep(v)
		if seen[v] || !ok {
			return
		}
		seen[v] = true
		for _, st := range elemStores(v) {
			some = true
			if c.boundary(st.Val, s, startOf(st.Block()), depth+1) == "" {
				ok = false
			}
		}
		if es, lit := listElems(v); lit {
			for _, e := range es {
				some = true
				if in, isIn := v.(ssa.Instruction); !isIn || c.boundary(e, s, startOf(in.Block()), depth+1) == "" {
					ok = false
				}
			}
			return
		}
		if ph := phiOf(v); ph != nil {
			for _, e := range ph.edges {
				walk(e)
			}
			return
		}
		switch x := v.(type) {
		case *ssa.Const, *ssa.MakeSlice:
		case *ssa.Slice:
			walk(x.X)
		case *ssa.Call:
			if calleeName(&x.Call) == "builtin append" {
				walk(x.Call.Args[0])
				walk(x.Call.Args[1])
				return
			}
			ok = false
		default:
			ok = false
		}
	}
	// all pairs of match positions
	if cl, ok := c.q.rep(list).(*ssa.Call); ok {
		if rx, text, per, all := matchKind(&cl.Call); rx != nil && !all && per != 1 && c.text(text, s, 0) {
			return "the position of a match in the text"
		}
	}
	if ld, ok := c.q.rep(list).(*ssa.UnOp); ok && ld.Op == token.MUL {
		if ia, ok := ld.X.(*ssa.IndexAddr); ok {
			if cl, ok := c.q.rep(ia.X).(*ssa.Call); ok {
				if rx, text, _, all := matchKind(&cl.Call); rx != nil && all && c.text(text, s, 0) {
					return "the position of a match in the text"
				}
			}
		}
	}
	walk(list)
	if ok && some {
		return how
	}
	return ""
}

func (c *cutCheck) cell(al *ssa.Alloc, s ssa.Value, depth int) string {
	if al == nil {
		return ""
	}
	sts, ok := cellStores(al)
	if !ok {
		return ""
	}
	how := "the start of the text"
	for _, st := range sts {
		if how = c.boundary(st.Val, s, startOf(st.Block()), depth+1); how == "" {
			return ""
		}
	}
	return how
}

// callPos: the position is the result of a function.
func (c *cutCheck) callPos(cl *ssa.Call, idx int, s ssa.Value, at loc, depth int) string {
	n := calleeName(&cl.Call)
	switch {
	case searchCalls[n]:
		if !c.text(cl.Call.Args[0], s, 0) {
			return ""
		}
		if strings.HasSuffix(n, "Byte") {
			b, ok := constInt(cl.Call.Args[1])
			if !ok || b >= utf8.RuneSelf {
				return ""
			}
		}
		return "found in the text"
	case n == "builtin len":
		if c.prefix(cl.Call.Args[0], s, at) {
			return "the end of what the text starts with"
		}
		return ""
	case n == "builtin min" || n == "builtin max":
		how := ""
		for _, a := range cl.Call.Args {
			if how = c.boundary(a, s, at, depth+1); how == "" {
				return ""
			}
		}
		return how
	case n == "unicode/utf8.RuneLen" || strings.HasPrefix(n, "unicode/utf8.Decode"):
		if idx == 1 && n == "unicode/utf8.DecodeRuneInString" && c.text(cl.Call.Args[0], s, 0) {
			return "the end of the first character"
		}
		return ""
	}
	g := cl.Call.StaticCallee()
	if g == nil || !c.p.inRepo(g) || len(g.Blocks) == 0 {
		return ""
	}
	if how := c.passedOn(cl, g, idx, s, at, depth); how != "" {
		return how
	}
	for k, a := range cl.Call.Args {
		if k >= len(g.Params) || !isString(a.Type()) || !c.text(a, s, 0) {
			continue
		}
		how := ""
		for _, ret := range returnsOf(g) {
			vs := retValues(ret)
			if idx >= len(vs) {
				return ""
			}
			if how = c.boundary(vs[idx], g.Params[k], startOf(ret.Block()), depth+1); how == "" {
				break
			}
		}
		if how != "" {
			return how
		}
	}
	return ""
}

// passedOn: the function only hands out one of the positions that were passed to it.
func (c *cutCheck) passedOn(cl *ssa.Call, g *ssa.Function, idx int, s ssa.Value, at loc, depth int) string {
	arg := func(v ssa.Value) ssa.Value {
		for k, pr := range g.Params {
			if v == ssa.Value(pr) && k < len(cl.Call.Args) {
				return cl.Call.Args[k]
			}
		}
		return nil
	}
	how := ""
	for _, ret := range returnsOf(g) {
		vs := retValues(ret)
		if idx >= len(vs) {
			return ""
		}
		v := c.q.rep(vs[idx])
		how = ""
		if n, ok := constInt(v); ok && n <= 0 {
			how = "the start of the text"
		} else if a := arg(v); a != nil {
			how = c.boundary(a, s, at, depth+1)
		} else if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if ia, ok := ld.X.(*ssa.IndexAddr); ok {
				if a := arg(c.q.rep(ia.X)); a != nil {
					how = c.element(a, s, at, depth)
				}
			}
		}
		if how == "" {
			return ""
		}
	}
	return how
}

// offset: n bytes behind the boundary b (the start if nil) the text has another one.
func (c *cutCheck) offset(b, n, s ssa.Value, at loc) string {
	q := c.q
	if b != nil {
		if l := q.norm(b); l.c == 0 && l.v != nil && l.k == atomVal {
			b = l.v
		}
	}
	k, isConst := constInt(n)
	// the length of what was found at b
	if cl, _ := callResult(b); b != nil && cl != nil && searchCalls[calleeName(&cl.Call)] && c.text(cl.Call.Args[0], s, 0) {
		name, what := calleeName(&cl.Call), cl.Call.Args[1]
		switch {
		case strings.HasSuffix(name, "Index"):
			if q.norm(n) == q.lenOf(what) {
				return "the end of what was found in the text"
			}
			if t, ok := q.constText(what, 0); ok && isConst && k >= 0 && k <= int64(len(t)) && (isASCII(t) || !cutsRune(t, int(k))) {
				return "inside of what was found, between characters"
			}
		case strings.HasSuffix(name, "IndexAny"):
			if t, ok := q.constText(what, 0); ok && isASCII(t) && isConst && k == 1 {
				return "the end of the character that was found"
			}
		case strings.HasSuffix(name, "Rune"), strings.HasSuffix(name, "Byte"):
			if r, ok := constInt(what); ok && isConst && int(k) == utf8.RuneLen(rune(r)) {
				return "the end of the character that was found"
			}
			if l, ok := n.(*ssa.Call); ok && calleeName(&l.Call) == "unicode/utf8.RuneLen" && q.rep(l.Call.Args[0]) == q.rep(what) {
				return "the end of the character that was found"
			}
		}
	}
	// the character at b
	if ex, ok := b.(*ssa.Extract); ok {
		if nx, ok := ex.Tuple.(*ssa.Next); ok && ex.Index == 1 {
			if l, ok := n.(*ssa.Call); ok && (calleeName(&l.Call) == "unicode/utf8.RuneLen" || calleeName(&l.Call) == "builtin len") {
				a := q.rep(l.Call.Args[0])
				if cv, ok := a.(*ssa.Convert); ok {
					a = q.rep(cv.X)
				}
				if e2, ok := a.(*ssa.Extract); ok && e2.Tuple == ssa.Value(nx) && e2.Index == 2 {
					return "the end of a character"
				}
			}
			if isConst && k == 1 {
				for _, f := range at.facts() {
					if bo, ok := f.Cond.(*ssa.BinOp); ok && bo.Op == token.EQL && f.Val {
						e2, ok1 := bo.X.(*ssa.Extract)
						r, ok2 := constInt(bo.Y)
						if ok1 && ok2 && e2.Tuple == ssa.Value(nx) && r < utf8.RuneSelf {
							return "the end of a character"
						}
					}
				}
			}
		}
	}
	rest := func(t ssa.Value) bool { // t is s from b on
		t = q.rep(t)
		if b == nil {
			return c.text(t, s, 0)
		}
		sl, ok := t.(*ssa.Slice)
		return ok && q.rep(sl.X) == q.rep(s) && sl.Low != nil && q.norm(sl.Low) == q.norm(b)
	}
	if cl, idx := callResult(n); cl != nil && idx == 1 && calleeName(&cl.Call) == "unicode/utf8.DecodeRuneInString" && rest(cl.Call.Args[0]) {
		return "the end of a character"
	}
	for _, f := range at.facts() {
		switch x := f.Cond.(type) {
		case *ssa.Call:
			if calleeName(&x.Call) == "strings.HasPrefix" && f.Val && rest(x.Call.Args[0]) {
				if q.norm(n) == q.lenOf(x.Call.Args[1]) {
					return "the end of what the text starts with"
				}
				if t, ok := q.constText(x.Call.Args[1], 0); ok && isConst && k >= 0 && k <= int64(len(t)) && !cutsRune(t, int(k)) {
					return "inside of what the text starts with"
				}
			}
		}
	}
	if isConst && k >= 1 {
		// the bytes in front are single characters
		for i := int64(0); i < k; i++ {
			if !c.asciiAt(b, i, s, at) {
				return ""
			}
		}
		return "behind characters of a single byte"
	}
	return ""
}

func cutsRune(s string, n int) bool { return n < len(s) && !utf8.RuneStart(s[n]) }

// asciiAt: the byte at b+i of s is known to be a character on its own.
func (c *cutCheck) asciiAt(b ssa.Value, i int64, s ssa.Value, at loc) bool {
	want := lin{c: i}
	if b != nil {
		want = c.q.norm(b)
		want.c += i
	}
	for _, f := range at.facts() {
		bo, ok := f.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := bo.X, bo.Y, bo.Op
		if _, isC := constInt(x); isC {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		n, ok := constInt(y)
		if !ok || !c.byteAt(x, s, want) {
			continue
		}
		switch {
		case op == token.EQL && f.Val, op == token.NEQ && !f.Val:
			if n < utf8.RuneSelf {
				return true
			}
		case op == token.LSS && f.Val, op == token.GEQ && !f.Val:
			if n <= utf8.RuneSelf {
				return true
			}
		case op == token.LEQ && f.Val, op == token.GTR && !f.Val:
			if n < utf8.RuneSelf {
				return true
			}
		}
	}
	return false
}

func (c *cutCheck) byteAt(v, s ssa.Value, want lin) bool {
	switch x := strip(v).(type) {
	case *ssa.Lookup:
		return c.text(x.X, s, 0) && c.q.norm(x.Index) == want
	case *ssa.Index:
		return isString(x.X.Type()) && c.text(x.X, s, 0) && c.q.norm(x.Index) == want
	case *ssa.Convert:
		return c.byteAt(x.X, s, want)
	}
	return false
}

// byteOf: the text and the position of a byte that is read from a text.
func byteOf(v ssa.Value) (ssa.Value, ssa.Value) {
	switch x := strip(v).(type) {
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			return x.X, x.Index
		}
	case *ssa.Index:
		if isString(x.X.Type()) {
			return x.X, x.Index
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			if cv, ok := strip(ia.X).(*ssa.Convert); ok && isString(cv.X.Type()) {
				return cv.X, ia.Index
			}
		}
	}
	return nil, nil
}

// byteAsRune: a byte of a text is taken for one of its characters.
func (c *cutCheck) byteAsRune(x *ssa.Convert) bool {
	b, ok := x.Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Int32 {
		return false
	}
	if t, _ := byteOf(x.X); t == nil {
		return false
	}
	for _, u := range refs(x) {
		switch y := u.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			switch y.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.SUB:
			default:
				return true
			}
		default:
			if !c.asciiByte(x.X, startOf(u.Block())) {
				return true
			}
		}
	}
	return false
}

// asciiByte: the byte is a character on its own.
func (c *cutCheck) asciiByte(v ssa.Value, at loc) bool {
	if n, ok := constInt(v); ok {
		return n < utf8.RuneSelf
	}
	if t, n := byteOf(v); t != nil {
		if c.q.text(t) {
			return true
		}
		l := c.q.norm(n)
		if l.v == nil {
			return c.asciiAt(nil, l.c, t, at)
		}
		return c.asciiAt(n, 0, t, at)
	}
	return c.q.le(c.q.norm(v), lin{c: utf8.RuneSelf - 1}, at.b)
}

// sum: b is a boundary and n leads to the next one.
func (c *cutCheck) sum(b, n, s ssa.Value, at loc, depth int) string {
	how := c.boundary(b, s, at, depth+1)
	if how == "" {
		return ""
	}
	if m, ok := constInt(n); ok && m == 0 {
		return how
	}
	if h := c.offset(b, n, s, at); h != "" {
		return h
	}
	// a position in the rest of the text
	for _, t := range c.searched(n) {
		sl, ok := c.q.rep(t).(*ssa.Slice)
		if ok && c.q.rep(sl.X) == c.q.rep(s) && sl.Low != nil && c.q.norm(sl.Low) == c.q.norm(b) {
			if c.boundary(n, sl, at, depth+1) != "" {
				return "a position in the rest of the text"
			}
		}
	}
	return ""
}

// searched: the texts the position may refer to.
func (c *cutCheck) searched(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.UnOp:
			if m := c.q.matchPos(x); m != nil {
				out = append(out, m.text)
			}
		case *ssa.BinOp:
			walk(x.X)
			walk(x.Y)
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if isString(a.Type()) {
					out = append(out, a)
				}
			}
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Call:
				walk(t)
			case *ssa.Next:
				if rg, ok := t.Iter.(*ssa.Range); ok {
					out = append(out, rg.X)
				}
			}
		}
	}
	walk(v)
	return out
}

// difference: a boundary counted from the end.
func (c *cutCheck) difference(a, b, s ssa.Value, at loc) string {
	q := c.q
	if q.norm(a) == q.lenOf(s) {
		if cl, idx := callResult(b); cl != nil {
			if calleeName(&cl.Call) == "builtin len" && c.suffix(cl.Call.Args[0], s, at) {
				return "the start of what the text ends with"
			}
			if idx == 1 && calleeName(&cl.Call) == "unicode/utf8.DecodeLastRuneInString" && q.rep(cl.Call.Args[0]) == q.rep(s) {
				return "the start of the last character"
			}
		}
		for _, f := range at.facts() {
			if cl, ok := f.Cond.(*ssa.Call); ok && f.Val && calleeName(&cl.Call) == "strings.HasSuffix" && q.rep(cl.Call.Args[0]) == q.rep(s) {
				if q.norm(b) == q.lenOf(cl.Call.Args[1]) {
					return "the start of what the text ends with"
				}
				if t, ok := q.constText(cl.Call.Args[1], 0); ok {
					if k, isC := constInt(b); isC && k == int64(len(t)) {
						return "the start of what the text ends with"
					}
				}
			}
		}
	}
	if k, ok := constInt(b); ok && k >= 1 {
		for i := int64(1); i <= k; i++ {
			l := q.norm(a)
			l.c -= i
			ok := false
			for _, f := range at.facts() {
				bo, isB := f.Cond.(*ssa.BinOp)
				if !isB || !(bo.Op == token.EQL && f.Val || bo.Op == token.NEQ && !f.Val) {
					continue
				}
				n, isC := constInt(bo.Y)
				if isC && n < utf8.RuneSelf && c.byteAt(bo.X, s, l) {
					ok = true
				}
			}
			if !ok {
				return ""
			}
		}
		return "in front of characters of a single byte"
	}
	return ""
}

// callers: text and position are passed in.
func (c *cutCheck) callers(x *ssa.Parameter, s ssa.Value, depth int) string {
	f := x.Parent()
	sites := c.p.callSites(f)
	how := ""
	for _, st := range sites {
		v := c.q.argFor(f, x, st)
		if v == nil {
			return ""
		}
		t := s
		if pr, ok := s.(*ssa.Parameter); ok && pr.Parent() == f {
			if t = c.q.argFor(f, pr, st); t == nil {
				return ""
			}
		} else if _, isConst := constInt(v); !isConst {
			return ""
		}
		if how = c.boundary(v, t, startOf(st.Block()), depth+1); how == "" {
			return ""
		}
	}
	return how
}

// numeric: the piece is used only where it was read as a number.
func (c *cutCheck) numeric(x *ssa.Slice) bool {
	var read *ssa.Call
	for _, u := range refs(x) {
		if cl, ok := u.(*ssa.Call); ok {
			switch calleeName(&cl.Call) {
			case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat":
				read = cl
			}
		}
	}
	if read == nil {
		return false
	}
	good := func(b *ssa.BasicBlock) bool {
		for _, f := range facts(b) {
			if v, isNil, known := nilFact(f); known && isNil {
				if cl, _ := callResult(v); cl == read {
					return true
				}
			}
		}
		return false
	}
	for _, u := range refs(x) {
		if u == ssa.Instruction(read) {
			continue
		}
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		if !good(u.Block()) {
			return false
		}
	}
	return true
}
