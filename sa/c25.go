package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C25"] = checkC25 }

// oset is the set of origins of a year, month or day: kept (the same part of the date that is changed), now (of
// the reference time), const:N, delta:N (the same part plus N), last (last day of the month), value:K and
// param:K (entry of the component values or of the parameters), other (another part), ? (not known).
type oset map[string]bool

func (o oset) String() string { return strings.Join(sortedKeys(o), "|") }

func (o oset) only(ks ...string) bool {
	for k := range o {
		ok := false
		for _, w := range ks {
			ok = ok || k == w || strings.HasSuffix(w, ":") && strings.HasPrefix(k, w)
		}
		if !ok {
			return false
		}
	}
	return len(o) > 0
}

func (o oset) any(ks ...string) bool {
	for k := range o {
		for _, w := range ks {
			if k == w || strings.HasSuffix(w, ":") && strings.HasPrefix(k, w) {
				return true
			}
		}
	}
	return false
}

// changed: the part may be replaced.
func (o oset) changed() bool { return o.any("now", "const:", "delta:", "other") }

// tev is a change of a date.
type tev struct {
	call  *ssa.Call
	c     *cctx
	kind  string // date, add, create
	parts [3]oset
}

var partNames = []string{"year", "month", "day"}

// timeTrace follows the changes of a date backwards from where it is returned.
type timeTrace struct {
	z    *caseEval
	seen map[zkey]bool
	evs  []tev
}

func (q *timeTrace) chain(x cval) {
	x = x.res()
	k := zkey{x.v, x.c, 0}
	if q.seen[k] {
		return
	}
	q.seen[k] = true
	z := q.z
	switch y := x.v.(type) {
	case *ssa.Phi:
		for k, e := range y.Edges {
			if z.liveEdge(y.Block(), k, x.c) {
				q.chain(cval{e, x.c})
			}
		}
	case *ssa.UnOp, *ssa.Field:
		vs := z.sources(x, 0)
		if vs == nil {
			if u, ok := y.(*ssa.UnOp); ok {
				if al, ok := u.X.(*ssa.Alloc); ok && typeIs(al.Type(), repoPkg("date"), "Date") {
					// a date.Date: the time in it
					vs = z.dateTime(x)
				}
			}
		}
		for _, v := range vs {
			q.chain(v)
		}
	case *ssa.Call, *ssa.Extract:
		cl, idx := callResult(x.v)
		if cl == nil {
			return
		}
		q.call(x, cl, idx)
	}
}

// dateTime: the times that may be in a date.Date value.
func (z *caseEval) dateTime(x cval) []cval {
	st, ok := x.v.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for k := 0; k < st.NumFields(); k++ {
		if st.Field(k).Name() == "Time" {
			return z.field(x, k, 0)
		}
	}
	return nil
}

func (q *timeTrace) call(x cval, cl *ssa.Call, idx int) {
	z, args := q.z, cl.Call.Args
	arg := func(k int) cval { return cval{args[k], x.c} }
	switch calleeName(cl.Common()) {
	case "time.Date":
		ev := tev{call: cl, c: x.c, kind: "date"}
		for k := range ev.parts {
			ev.parts[k] = q.origins(arg(k), k)
		}
		q.evs = append(q.evs, ev)
		return
	case "(time.Time).AddDate":
		ev := tev{call: cl, c: x.c, kind: "add"}
		for k := range ev.parts {
			ev.parts[k] = oset{"delta:?": true}
			if n := z.fold(arg(k+1), 0); n != nil {
				ev.parts[k] = oset{"delta:" + n.ExactString(): true}
				if constant.Sign(n) == 0 {
					ev.parts[k] = oset{"kept": true}
				}
			} else if s := q.sign(arg(k+1), 0, map[zkey]bool{}); s != "" {
				ev.parts[k] = oset{"delta:" + s: true}
			}
		}
		q.evs = append(q.evs, ev)
		q.chain(arg(0))
		return
	case "(time.Time).Add":
		q.evs = append(q.evs, tev{call: cl, c: x.c, kind: "add", parts: [3]oset{{"delta:?": true}, {"delta:?": true}, {"delta:?": true}}})
		q.chain(arg(0))
		return
	case "(time.Time).In", "(time.Time).UTC", "(time.Time).Local":
		q.chain(arg(0))
		return
	}
	if cl.Call.StaticCallee() == nil && !cl.Call.IsInvoke() {
		// a function creating a date from named parts
		for k := range args {
			m := arg(k).res()
			mm, ok := m.v.(*ssa.MakeMap)
			if !ok || !isPartMap(m.v.Type()) {
				continue
			}
			ev := tev{call: cl, c: x.c, kind: "create"}
			for i, name := range partNames {
				ev.parts[i] = oset{}
				for _, v := range z.entries(mm, m.c, name) {
					for o := range q.origins(v, i) {
						ev.parts[i][o] = true
					}
				}
				if len(ev.parts[i]) == 0 {
					ev.parts[i]["?"] = true
				}
			}
			q.evs = append(q.evs, ev)
		}
		return
	}
	g := cl.Call.StaticCallee()
	if g == nil || !z.p.inRepo(g) {
		return
	}
	c := z.enter(cl, g, x.c)
	if c == nil {
		return
	}
	for _, ret := range z.liveReturns(g, c) {
		if idx < len(ret.Results) {
			q.chain(cval{ret.Results[idx], c})
		}
	}
}

// entries: the values stored in a map under a key.
func (z *caseEval) entries(mm *ssa.MakeMap, c *cctx, key string) (out []cval) {
	for _, u := range *mm.Referrers() {
		if up, ok := u.(*ssa.MapUpdate); ok && up.Map == ssa.Value(mm) && z.liveBlock(up.Block(), c) {
			k := z.fold(cval{up.Key, c}, 0)
			if k != nil && k.Kind() == constant.String && constant.StringVal(k) == key {
				out = append(out, cval{up.Value, c})
			}
		}
	}
	return
}

// isNow: the time is the reference time.
func (q *timeTrace) isNow(x cval, depth int) bool {
	x = x.res()
	if depth > 10 {
		return false
	}
	z := q.z
	if ow, n := loadedField(x.v); ow != nil {
		if n == "CurrentTime" && isCfgType(ow) || n == "Now" && typeIs(ow, repoPkg("internal/parser/absolute"), "Parser") {
			return true
		}
	}
	switch y := x.v.(type) {
	case *ssa.UnOp, *ssa.Field:
		for _, v := range z.sources(x, 0) {
			if q.isNow(v, depth+1) {
				return true
			}
		}
	case *ssa.Phi:
		for k, e := range y.Edges {
			if z.liveEdge(y.Block(), k, x.c) && !inLoopPhi(y) && q.isNow(cval{e, x.c}, depth+1) {
				return true
			}
		}
	case *ssa.Call, *ssa.Extract:
		cl, idx := callResult(x.v)
		if cl == nil {
			return false
		}
		switch nm := calleeName(cl.Common()); nm {
		case "time.Now":
			return true
		case "(time.Time).In", "(time.Time).UTC", "(time.Time).Local", "(time.Time).AddDate":
			return q.isNow(cval{cl.Call.Args[0], x.c}, depth+1)
		case "time.Date":
			r, part, ok := timePart(cval{cl.Call.Args[2], x.c})
			return ok && part == 2 && q.isNow(r, depth+1)
		}
		if g := cl.Call.StaticCallee(); g != nil && z.p.inRepo(g) {
			if c := z.enter(cl, g, x.c); c != nil {
				for _, ret := range z.liveReturns(g, c) {
					if idx < len(ret.Results) && q.isNow(cval{ret.Results[idx], c}, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// origins of a year (0), month (1) or day (2).
func (q *timeTrace) origins(x cval, which int) oset {
	return q.orig(x, which, 0, map[zkey]bool{})
}

func (q *timeTrace) orig(x cval, which, depth int, busy map[zkey]bool) oset {
	x = x.res()
	z := q.z
	k := zkey{x.v, x.c, which}
	if busy[k] {
		return oset{}
	}
	busy[k] = true
	defer delete(busy, k)
	if depth > 30 {
		return oset{"?": true}
	}
	again := func(y cval) oset { return q.orig(y, which, depth+1, busy) }
	join := func(ys []cval) oset {
		o := oset{}
		for _, y := range ys {
			for k := range again(y) {
				o[k] = true
			}
		}
		if len(o) == 0 {
			o["?"] = true
		}
		return o
	}
	own := func(part int, recv cval) oset {
		switch {
		case part != which:
			return oset{"other": true}
		case q.isNow(recv, 0):
			return oset{"now": true}
		}
		q.chain(recv)
		return oset{"kept": true}
	}
	if n, ok := constInt(x.v); ok {
		return oset{fmt.Sprintf("const:%d", n): true}
	}
	if recv, part, ok := timePart(x); ok {
		rr := recv.res()
		if cl, isC := rr.v.(*ssa.Call); isC {
			nm := calleeName(cl.Common())
			if nm == "(time.Time).AddDate" && part == 2 && which == 2 {
				return oset{"last": true}
			}
			if nm == "time.Date" {
				if k := z.fold(cval{cl.Call.Args[2], rr.c}, 0); k != nil && part == 2 {
					return oset{"last": true}
				}
			}
			if g := cl.Call.StaticCallee(); g != nil && g.Name() == "ToGregorian" && !z.p.inRepo(g) && part == which {
				// the same part of the date that is converted
				if o := q.structPart(cval{cl.Call.Args[0], rr.c}, partNames[which], depth, busy); o != nil {
					return o
				}
				return oset{"?": true}
			}
		}
		return own(part, recv)
	}
	switch y := x.v.(type) {
	case *ssa.Phi:
		var vs []cval
		for k, e := range y.Edges {
			if z.liveEdge(y.Block(), k, x.c) {
				vs = append(vs, cval{e, x.c})
			}
		}
		return join(vs)
	case *ssa.BinOp:
		if y.Op != token.ADD && y.Op != token.SUB {
			return oset{"?": true}
		}
		a, b := cval{y.X, x.c}, cval{y.Y, x.c}
		n := z.fold(b, 0)
		if n == nil && y.Op == token.ADD {
			if m := z.fold(a, 0); m != nil {
				a, n = b, m
			}
		}
		d := "delta:?"
		if n == nil {
			// one of several constants
			if ks := q.orig(b, which, depth+1, busy); ks.only("const:") {
				o := oset{}
				for k := range again(a) {
					for m := range ks {
						m = strings.TrimPrefix(m, "const:")
						if y.Op == token.SUB {
							if m = "-" + m; strings.HasPrefix(m, "--") {
								m = m[2:]
							}
						}
						switch {
						case m == "0" || m == "-0":
							o[k] = true
						case k == "kept" || strings.HasPrefix(k, "value:") || strings.HasPrefix(k, "param:"):
							o["delta:"+m] = true
						default:
							o[k] = true
						}
					}
				}
				return o
			}
		}
		if n != nil && n.Kind() == constant.Int {
			if y.Op == token.SUB {
				n = constant.UnaryOp(token.SUB, n, 0)
			}
			d = "delta:" + n.ExactString()
		}
		o := oset{}
		for k := range again(a) {
			switch {
			case k == "kept" || strings.HasPrefix(k, "value:") || strings.HasPrefix(k, "param:"):
				o[d] = true
			case strings.HasPrefix(k, "delta:"):
				o["delta:?"] = true
			default:
				o[k] = true
			}
		}
		return o
	case *ssa.Lookup:
		return q.lookup(y, x.c)
	case *ssa.UnOp, *ssa.Field:
		if ow, n := loadedField(x.v); ow != nil && !z.p.ours(ow) && strings.HasSuffix(ow.Obj().Name(), "Date") {
			s, ok := offsetOf(x)
			if part := partIndex(n); ok && part >= 0 {
				return q.converted(s, part, which, own)
			}
		}
		if vs := z.sources(x, 0); vs != nil {
			return join(vs)
		}
	case *ssa.Call, *ssa.Extract:
		if e, ok := y.(*ssa.Extract); ok {
			if l, isL := e.Tuple.(*ssa.Lookup); isL && e.Index == 0 {
				return q.lookup(l, x.c)
			}
		}
		cl, idx := callResult(x.v)
		if cl == nil {
			break
		}
		if bi, ok := cl.Call.Value.(*ssa.Builtin); ok {
			if bi.Name() == "min" || bi.Name() == "max" {
				o := oset{}
				for _, a := range cl.Call.Args {
					for k := range again(cval{a, x.c}) {
						o[k] = true
					}
				}
				if len(o) > 1 {
					delete(o, "?")
				}
				return o
			}
			break
		}
		g := cl.Call.StaticCallee()
		if g == nil {
			if ps := cl.Call.Signature().Params(); ps.Len() == 1 && isTime(ps.At(0).Type()) && len(cl.Call.Args) == 1 && cl.Call.Signature().Results().Len() == 3 {
				return own(idx, cval{cl.Call.Args[0], x.c})
			}
			break
		}
		if !z.p.inRepo(g) {
			if !isStdPkg(pkgOf(g)) && cl.Call.Signature().Params().Len() == 3 && idx < 3 {
				// conversion of a date part by part
				if idx != which {
					return oset{"other": true}
				}
				return again(cval{cl.Call.Args[idx], x.c})
			}
			break
		}
		c := z.enter(cl, g, x.c)
		if c == nil {
			break
		}
		if pkgOf(g) == repoPkg("internal/dateutil") {
			return oset{"?": true}
		}
		var vs []cval
		for _, ret := range z.liveReturns(g, c) {
			if idx < len(ret.Results) {
				vs = append(vs, cval{ret.Results[idx], c})
			}
		}
		return join(vs)
	}
	return oset{"?": true}
}

func isPartMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isString(m.Key()) && isInt(m.Elem())
}

func partIndex(n string) int {
	for k, w := range partNames {
		if strings.EqualFold(n, w) {
			return k
		}
	}
	return -1
}

// ours reports whether a named type is declared in the repository.
func (p *Prog) ours(n *types.Named) bool {
	return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), strings.TrimSuffix(repoPkg(""), "/"))
}

// converted: part of a structure made by converting a time.
func (q *timeTrace) converted(s cval, part, which int, own func(int, cval) oset) oset {
	s = s.res()
	if cl, _ := callResult(s.v); cl != nil && len(cl.Call.Args) == 1 && isTime(cl.Call.Args[0].Type()) {
		t := cval{cl.Call.Args[0], s.c}.res()
		if d, ok := t.v.(*ssa.Call); ok && calleeName(d.Common()) == "time.Date" {
			if recv, _, ok := timePart(cval{d.Call.Args[2], t.c}); ok {
				return own(part, recv)
			}
		}
		return own(part, t)
	}
	return oset{"?": true}
}

// structPart: origins of the named field of a structure of another package.
func (q *timeTrace) structPart(s cval, name string, depth int, busy map[zkey]bool) oset {
	s = s.res()
	st, ok := s.v.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for k := 0; k < st.NumFields(); k++ {
		if strings.EqualFold(st.Field(k).Name(), name) {
			vs := q.z.field(s, k, 0)
			if vs == nil {
				return nil
			}
			o := oset{}
			for _, v := range vs {
				for w := range q.orig(v, partIndex(name), depth+1, busy) {
					o[w] = true
				}
			}
			return o
		}
	}
	return nil
}

func (q *timeTrace) lookup(l *ssa.Lookup, c *cctx) oset {
	k := q.z.fold(cval{l.Index, c}, 0)
	if k == nil || k.Kind() != constant.String {
		return oset{"?": true}
	}
	kind := "param:"
	if _, n := loadedField(cval{l.X, c}.res().v); n == "ComponentValues" {
		kind = "value:"
	}
	return oset{kind + constant.StringVal(k): true}
}

// sign of an integer: "+" (not negative), "-" (not positive), "" unknown.
func (q *timeTrace) sign(x cval, depth int, busy map[zkey]bool) string {
	x = x.res()
	k := zkey{x.v, x.c, 5}
	if busy[k] {
		return "0"
	}
	if depth > 20 {
		return ""
	}
	busy[k] = true
	defer delete(busy, k)
	neg := func(s string) string {
		switch s {
		case "+":
			return "-"
		case "-":
			return "+"
		}
		return s
	}
	join := func(a, b string) string {
		switch {
		case a == "0" || a == b:
			return b
		case b == "0":
			return a
		}
		return ""
	}
	of := func(k constant.Value) string { return []string{"-", "0", "+"}[constant.Sign(k)+1] }
	if n := q.z.fold(x, 0); n != nil && n.Kind() == constant.Int {
		return of(n)
	}
	switch y := x.v.(type) {
	case *ssa.UnOp:
		if y.Op == token.SUB {
			return neg(q.sign(cval{y.X, x.c}, depth+1, busy))
		}
		if vs := q.z.sources(x, 0); vs != nil {
			out := "0"
			for _, v := range vs {
				if out = join(out, q.sign(v, depth+1, busy)); out == "" {
					return ""
				}
			}
			return out
		}
	case *ssa.BinOp:
		a, b := q.sign(cval{y.X, x.c}, depth+1, busy), q.sign(cval{y.Y, x.c}, depth+1, busy)
		switch y.Op {
		case token.ADD:
			return join(a, b)
		case token.SUB:
			return join(a, neg(b))
		case token.MUL:
			switch {
			case a == "0" || b == "0":
				return "0"
			case a == "" || b == "":
				return ""
			case b == "-":
				return neg(a)
			}
			return a
		case token.REM:
			return a
		}
	case *ssa.Phi:
		out := "0"
		for k, e := range y.Edges {
			if !q.z.liveEdge(y.Block(), k, x.c) {
				continue
			}
			if out = join(out, q.sign(cval{e, x.c}, depth+1, busy)); out == "" {
				return ""
			}
		}
		return out
	case *ssa.Call, *ssa.Extract:
		cl, idx := callResult(x.v)
		if cl == nil {
			return ""
		}
		g := cl.Call.StaticCallee()
		if g == nil || !q.z.p.inRepo(g) {
			return ""
		}
		c := q.z.enter(cl, g, x.c)
		if c == nil {
			return ""
		}
		out := "0"
		for _, ret := range q.z.liveReturns(g, c) {
			if out = join(out, q.sign(cval{ret.Results[idx], c}, depth+1, busy)); out == "" {
				return ""
			}
		}
		return out
	}
	return ""
}

// textCase: which parts the text has, and the preferences.
type textCase struct {
	has        map[string]bool // year month day weekday time
	two        bool            // the year has two digits
	source     int64           // preferred date source
	month, day int64           // preferred month and day, -1 not fixed
	leap       [2]int64        // month and day are those of a leap day, in a year without one
}

func (t textCase) String() string {
	var s []string
	for _, k := range []string{"day", "month", "year", "weekday", "time"} {
		if t.has[k] {
			if k == "year" && t.two {
				k = "two-digit year"
			}
			s = append(s, k)
		}
	}
	if len(s) == 0 {
		return "nothing"
	}
	if t.leap[0] != 0 {
		s = append(s, "leap day")
	}
	return strings.Join(s, ", ")
}

func (t textCase) full() string {
	s := "text with " + t.String()
	switch t.source {
	case 1:
		s += ", past preferred"
	case 2:
		s += ", future preferred"
	}
	return s
}

// componentMap: the map is ComponentValues or ComponentTokens of the component parser.
func componentMap(v ssa.Value) string {
	ow, n := loadedField(v)
	if ow != nil && typeIs(ow, repoPkg("internal/parser/absolute"), "Parser") && (n == "ComponentValues" || n == "ComponentTokens") {
		return n
	}
	return ""
}

// component: the entry of a component map that is read; ok: its presence.
func (z *caseEval) component(x cval) (m, key string, ok bool) {
	x = x.res()
	isOk := false
	l, isL := x.v.(*ssa.Lookup)
	if e, isE := x.v.(*ssa.Extract); isE {
		l, isL = e.Tuple.(*ssa.Lookup)
		isOk = e.Index == 1
	}
	if !isL {
		return
	}
	mp := cval{l.X, x.c}.res()
	if m = componentMap(mp.v); m == "" {
		return
	}
	k := z.fold(cval{l.Index, x.c}, 0)
	if k == nil || k.Kind() != constant.String {
		return "", "", false
	}
	return m, constant.StringVal(k), isOk
}

// tokenText: the text of a recorded token.
func (z *caseEval) tokenText(x cval) string {
	_, n := loadedField(x.v)
	if n != "Text" {
		return ""
	}
	s, ok := offsetOf(x)
	if !ok {
		return ""
	}
	m, k, isOk := z.component(s)
	if m == "ComponentTokens" && !isOk {
		return k
	}
	return ""
}

func (t textCase) assume(z *caseEval, x cval) (constant.Value, bool) {
	known := func(k string) (bool, bool) {
		switch k {
		case "day", "month", "year", "weekday", "time":
			return t.has[k], true
		}
		return false, false
	}
	if t.leap[0] != 0 {
		if _, part, ok := timePart(x); ok && part > 0 {
			q := &timeTrace{z: z, seen: map[zkey]bool{}}
			if r, _, _ := timePart(x); !q.isNow(r, 0) {
				return constant.MakeInt64(t.leap[part-1]), true
			}
		}
		if l, ok := x.v.(*ssa.Lookup); ok && isPartMap(l.X.Type()) && componentMap(cval{l.X, x.c}.res().v) == "" {
			if k := z.fold(cval{l.Index, x.c}, 0); k != nil && k.Kind() == constant.String {
				if n := partIndex(constant.StringVal(k)); n > 0 {
					return constant.MakeInt64(t.leap[n-1]), true
				}
			}
		}
		if cl, idx := callResult(x.v); cl != nil && idx == 0 && isBool(x.v.Type()) && len(cl.Call.Args) == 1 && isInt(cl.Call.Args[0].Type()) {
			vs := []ssa.Value{(cval{cl.Call.Args[0], x.c}).res().v}
			if bo, ok := vs[0].(*ssa.BinOp); ok {
				vs = append(vs, bo.X, bo.Y)
			}
			for _, v := range vs {
				if ph, ok := v.(*ssa.Phi); ok && inLoopPhi(ph) {
					return nil, false // the search for a leap year
				}
			}
			return constant.MakeBool(false), true // the test for a leap year
		}
		if b, ok := x.v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && isNilConst(b.Y) {
			if _, n := loadedField(cval{b.X, x.c}.res().v); n == "FnGetCalendarDate" {
				return constant.MakeBool(b.Op == token.EQL), true
			}
			if isErrType(b.X.Type()) {
				return constant.MakeBool(b.Op == token.EQL), true
			}
		}
	}
	switch y := x.v.(type) {
	case *ssa.Extract:
		if _, k, isOk := z.component(x); isOk {
			if h, ok := known(k); ok {
				return constant.MakeBool(h), true
			}
		}
	case *ssa.Lookup:
		if m, k, isOk := z.component(x); m == "ComponentValues" && !isOk {
			if h, ok := known(k); ok && !h {
				return constant.MakeInt64(0), true
			}
		}
	case *ssa.UnOp, *ssa.Field:
		if k := z.tokenText(x); k != "" {
			if h, ok := known(k); ok && !h {
				return constant.MakeString(""), true
			}
		}
		ow, n := loadedField(x.v)
		if ow != nil && isCfgType(ow) {
			v := int64(-1)
			switch n {
			case "PreferredDateSource":
				v = t.source
			case "PreferredMonthOfYear":
				v = t.month
			case "PreferredDayOfMonth":
				v = t.day
			}
			if v >= 0 {
				return constant.MakeInt64(v), true
			}
		}
	case *ssa.Call:
		if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			a := cval{y.Call.Args[0], x.c}.res()
			if k := z.tokenText(a); k == "year" && t.has["year"] {
				if t.two {
					return constant.MakeInt64(2), true
				}
				return constant.MakeInt64(4), true
			}
		}
		if strings.HasSuffix(calleeName(y.Common()), "(time.Time).IsZero") {
			if ow, n := loadedField(cval{y.Call.Args[0], x.c}.res().v); ow != nil && n == "ParsedTime" {
				return constant.MakeBool(!t.has["time"]), true
			}
		}
	case *ssa.BinOp:
		a, b := cval{y.X, x.c}.res(), cval{y.Y, x.c}.res()
		if isNilConst(a.v) {
			a, b = b, a
		}
		if isNilConst(b.v) && isCfgPtr(a.v.Type()) {
			return constant.MakeBool(y.Op == token.NEQ), true
		}
		// a recorded part is never zero, the text of a recorded token never empty
		op := y.Op
		if _, isC := a.v.(*ssa.Const); isC {
			a, b = b, a
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if m, k, isOk := z.component(a); m == "ComponentValues" && !isOk {
			h, ok := known(k)
			if n, isN := constInt(b.v); ok && h && isN && n == 0 && k != "weekday" {
				switch op {
				case token.EQL, token.LEQ, token.LSS:
					return constant.MakeBool(false), true
				case token.NEQ, token.GTR, token.GEQ:
					return constant.MakeBool(true), true
				}
			}
		}
		if k := z.tokenText(a); k != "" {
			h, ok := known(k)
			if s, isS := constString(b.v); ok && h && isS && s == "" {
				switch op {
				case token.EQL:
					return constant.MakeBool(false), true
				case token.NEQ:
					return constant.MakeBool(true), true
				}
			}
		}
	}
	return nil, false
}

// componentBase: presence of components read in a form that is not folded (any value may be there for those that
// are present).
func componentBase(z *caseEval, x cval) (dep, known bool) {
	switch y := x.v.(type) {
	case *ssa.Lookup:
		if componentMap(cval{y.X, x.c}.res().v) == "" {
			return
		}
		k := z.fold(cval{y.Index, x.c}, 0)
		return k == nil || k.Kind() != constant.String, true
	case *ssa.UnOp:
		if componentMap(y) != "" {
			return true, true
		}
	}
	return
}

func checkC25(p *Prog, r *Result) {
	r.Rule = "For every combination of parts that a text can have (day, month, year with two or four digits, weekday, time) and every preference, the changes made to the date on the way to the result keep each part that is in the text; a date with a missing part gets the preference for it, with the meaning of that preference; and the correction for past or future dates only moves to the preferred side. The same for every form of custom format, by its directives."
	r.Explanation = "Case analysis on SSA: conditions over the recorded components are folded under each case, branches are pruned, and the changes to the returned date are traced back through helpers with the origin of each year, month and day."
	r.Assumptions = append(r.Assumptions, "configurations are not nil", "package time behaves as documented")
	abs := repoPkg("internal/parser/absolute")
	parse := p.method("internal/parser/absolute", "Parser", "Parse")
	if parse == nil {
		fatal("C25: no (*absolute.Parser).Parse")
	}
	x := &prefCheck{p: p, r: r, bads: map[string]bool{}}
	x.components(parse)
	x.params(abs)
	x.recorded(abs)
	x.formats()
	r.Analysed["functions"] = len(x.fns())
}

type prefCheck struct {
	p    *Prog
	r    *Result
	bads map[string]bool
	all  map[*ssa.Function]bool
}

func (x *prefCheck) fns() map[*ssa.Function]bool { return x.all }

func (x *prefCheck) note(z *caseEval) {
	if x.all == nil {
		x.all = map[*ssa.Function]bool{}
	}
	for f := range z.fns {
		x.all[f] = true
	}
}

func (x *prefCheck) bad(rule string, ev tev, why string) {
	key := siteKey(ev.call, calleeName(ev.call.Common()))
	if u := ev.c; u != nil && u.site != nil {
		key += " from " + fnKey(u.site.Parent())
	}
	if !x.bads[rule+key] {
		x.bads[rule+key] = true
		x.r.bad(rule, key, x.p.instrPos(ev.call), why)
	}
}

func boolCases(n int) (out [][]bool) {
	for m := 0; m < 1<<n; m++ {
		var b []bool
		for k := 0; k < n; k++ {
			b = append(b, m>>k&1 == 1)
		}
		out = append(out, b)
	}
	return
}

func traceTimes(z *caseEval, f *ssa.Function) []tev {
	q := &timeTrace{z: z, seen: map[zkey]bool{}}
	root := z.enter(nil, f, nil)
	for _, ret := range z.liveReturns(f, root) {
		v := cval{ret.Results[0], root}
		if isTime(v.v.Type()) {
			q.chain(v)
			continue
		}
		vs := z.dateTime(v)
		if vs == nil {
			q.chain(v)
		}
		for _, w := range vs {
			q.chain(w)
		}
	}
	return q.evs
}

// components: the component parser.
func (x *prefCheck) components(parse *ssa.Function) {
	r := x.r
	for _, b := range boolCases(6) {
		t := textCase{has: map[string]bool{"day": b[0], "month": b[1], "year": b[2], "weekday": b[3], "time": b[4]}, two: b[5], month: -1, day: -1}
		if t.two && !t.has["year"] {
			continue
		}
		D, M, Y, W, T := b[0], b[1], b[2], b[3], b[4]
		none := !D && !M && !Y
		for t.source = 0; t.source < 3; t.source++ {
			z := newCaseEval(x.p, t.assume, componentBase)
			n := len(x.bads)
			evs := traceTimes(z, parse)
			x.note(z)
			for _, ev := range evs {
				yr, mo, dy := ev.parts[0], ev.parts[1], ev.parts[2]
				if ev.kind == "add" {
					if dy.any("delta:") && (D || M || Y) || mo.any("delta:") && (D || M) || yr.any("delta:") && (D || M || Y && !t.two) {
						x.bad("written-parts-kept", ev, t.full()+": the date is moved although it is given")
					}
				} else {
					if yr.changed() && Y && !(t.two && yr.only("kept", "delta:100", "delta:-100", "?")) {
						x.bad("written-parts-kept", ev, fmt.Sprintf("%s: the year is replaced (%s)", t.full(), yr))
					}
					if mo.changed() && M {
						x.bad("written-parts-kept", ev, fmt.Sprintf("%s: the month is replaced (%s)", t.full(), mo))
					}
					if dy.changed() && D {
						x.bad("written-parts-kept", ev, fmt.Sprintf("%s: the day is replaced (%s)", t.full(), dy))
					}
					if none && (T || W) && (mo.changed() || dy.any("now", "const:", "other")) {
						x.bad("other-dates-kept", ev, fmt.Sprintf("%s: the date is moved by a preference for incomplete dates (month %s, day %s)", t.full(), mo, dy))
					}
				}
				// direction
				for k, o := range ev.parts {
					for d := range o {
						if !strings.HasPrefix(d, "delta:") || d == "delta:?" {
							continue
						}
						back := strings.HasPrefix(d, "delta:-")
						switch {
						case !Y && k == 0 && d != "delta:1" && d != "delta:-1":
							x.bad("preferred-side", ev, fmt.Sprintf("%s: the missing year is moved by several years (%s)", t.full(), d))
						case t.source == 1 && !back || t.source == 2 && back:
							x.bad("preferred-side", ev, fmt.Sprintf("%s: the %s is moved to the other side (%s)", t.full(), partNames[k], d))
						case t.source == 0 && !(W && none):
							x.bad("preferred-side", ev, fmt.Sprintf("%s: the %s is moved (%s) although neither past nor future dates are preferred", t.full(), partNames[k], d))
						}
					}
				}
			}
			if len(x.bads) == n {
				r.ok("written-parts-kept", t.full(), x.p.pos(parse.Pos()), fmt.Sprintf("%d changes of the date", len(evs)))
			}
		}
		// 29 February must not be lost in another year
		if D && M && !Y {
			for t.source = 0; t.source < 3; t.source++ {
				t.leap = [2]int64{2, 29}
				z := newCaseEval(x.p, t.assume, componentBase)
				for _, ev := range traceTimes(z, parse) {
					if ev.kind != "add" && ev.parts[0].any("delta:") {
						x.bad("written-parts-kept", ev, fmt.Sprintf("%s: 29 February is moved to a year that may have none (%s)", t.full(), ev.parts[0]))
					}
				}
				t.leap = [2]int64{}
			}
		}
		// missing parts
		t.source = 0
		z := newCaseEval(x.p, t.assume, componentBase)
		z.both = true
		month, day := false, false
		for _, ev := range traceTimes(z, parse) {
			if ev.kind != "add" {
				month = month || ev.parts[1].any("now", "const:")
				day = day || ev.parts[2].any("now", "const:")
			}
		}
		if !M && (Y || D) && !W && !T {
			r.add(month, "preferred-month-applied", t.full(), x.p.pos(parse.Pos()), pick(month, "the preferred month is applied", "the preferred month is not applied although the text has none"))
		}
		if !D && (M || Y) && !W && !T {
			r.add(day, "preferred-day-applied", t.full(), x.p.pos(parse.Pos()), pick(day, "the preferred day is applied", "the preferred day is not applied although the text has none"))
		}
	}
	r.floor("written-parts-kept", 100)
	r.floor("preferred-month-applied", 3)
	r.floor("preferred-day-applied", 3)
	x.meaning("component parser", func(t textCase) []tev {
		t.has = map[string]bool{"year": true}
		return traceTimes(newCaseEval(x.p, t.assume, componentBase), parse)
	})
}

// meaning of each preference, for a text with only a year.
func (x *prefCheck) meaning(what string, trace func(textCase) []tev) {
	names := [][]string{{"current month", "first month", "last month"}, {"current day", "first day", "last day"}}
	for part := 1; part <= 2; part++ {
		for v := int64(0); v < 3; v++ {
			t := textCase{month: -1, day: -1}
			if part == 1 {
				t.month = v
			} else {
				t.day = v
			}
			some, good := false, true
			for _, ev := range trace(t) {
				o := ev.parts[part]
				if ev.kind == "add" || !o.any("now", "const:", "last", "other") {
					continue
				}
				some = true
				ok := true
				switch {
				case v == 0:
					ok = o.only("now", "?")
				case v == 1:
					ok = o.only("const:1", "?")
				case part == 1:
					ok = o.only("const:12", "?")
				default:
					ok = !o.any("now", "other", "kept", "delta:")
					for k := range o {
						if strings.HasPrefix(k, "const:") && k != "const:31" {
							ok = false
						}
					}
				}
				if !ok {
					good = false
					x.bad("preference-meaning", ev, fmt.Sprintf("%s: preference for the %s gives %s", what, names[part-1][v], o))
				}
			}
			if good {
				x.r.ok("preference-meaning", what+": "+names[part-1][v], "-", pick(some, "applied with that meaning", "no such change of the date found"))
			}
		}
	}
}

// params: the parts of the text are the parts of the date.
func (x *prefCheck) params(abs string) {
	r, p := x.r, x.p
	fns := func(field string) (out []*ssa.Function) {
		seen := map[*ssa.Function]bool{}
		for _, f := range p.reachableRepo() {
			eachInstr(f, func(i ssa.Instruction) {
				st, ok := i.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					return
				}
				if ow, n := fieldName(fa); ow == nil || n != field || !typeIs(ow, abs, "Parser") {
					return
				}
				if g := fnValue(st.Val); g != nil && !seen[g] && len(g.Blocks) > 0 {
					seen[g] = true
					out = append(out, g)
				}
			})
		}
		sort.Slice(out, func(i, j int) bool { return fnKey(out[i]) < fnKey(out[j]) })
		return
	}
	for _, g := range fns("FnGetDateTimeParams") {
		for k, part := range partNames {
			t := textCase{has: map[string]bool{"day": true, "month": true, "year": true}, month: -1, day: -1}
			z := newCaseEval(p, t.assume, componentBase)
			q := &timeTrace{z: z, seen: map[zkey]bool{}}
			root := z.enter(nil, g, nil)
			o := oset{}
			for _, ret := range z.liveReturns(g, root) {
				m := cval{ret.Results[0], root}.res()
				mm, ok := m.v.(*ssa.MakeMap)
				if !ok {
					continue
				}
				if sameKeyUpdate(mm) {
					o["value:"+part] = true // replaces what was there
					continue
				}
				for _, v := range z.entries(mm, m.c, part) {
					for w := range q.origins(v, k) {
						o[w] = true
					}
				}
			}
			x.note(z)
			key := fnKey(g) + ": " + part
			switch {
			case o.any("now", "const:", "delta:", "other", "value:") && !o.only("value:"+part):
				r.bad("written-parts-used", key, p.pos(g.Pos()), fmt.Sprintf("a %s in the text is not what the date is made from (%s)", part, o))
			default:
				r.ok("written-parts-used", key, p.pos(g.Pos()), "made from "+o.String())
			}
		}
	}
	r.floor("written-parts-used", 9)
	for _, g := range fns("FnCreateDateTime") {
		for _, b := range boolCases(3) {
			t := textCase{has: map[string]bool{"day": b[0], "month": b[1], "year": b[2]}, month: -1, day: -1}
			z := newCaseEval(p, t.assume, componentBase)
			evs := traceTimes(z, g)
			x.note(z)
			n := len(x.bads)
			for _, ev := range evs {
				if ev.kind != "date" || !ev.parts[0].any("param:") && !ev.parts[2].any("param:") {
					continue
				}
				yr, mo, dy := ev.parts[0], ev.parts[1], ev.parts[2]
				if !yr.only("param:year") && (b[2] || !b[0]) {
					x.bad("parts-to-date", ev, fmt.Sprintf("%s: the date is not created in the year it is asked for (%s)", t.full(), yr))
				}
				if mo.any("param:") && !mo.only("param:month") {
					x.bad("parts-to-date", ev, fmt.Sprintf("%s: the date is not created in the month it is asked for (%s)", t.full(), mo))
				}
				for k := range dy {
					// the length of a month
					if n := strings.TrimPrefix(k, "const:"); n == "28" || n == "29" || n == "30" || n == "31" {
						delete(dy, k)
					}
				}
				if dy.any("now", "const:", "delta:", "other", "param:month", "param:year") || !dy.any("param:day", "?") {
					x.bad("parts-to-date", ev, fmt.Sprintf("%s: the date is not created on the day it is asked for (%s)", t.full(), dy))
				}
			}
			if b[0] && b[1] && !b[2] {
				t.leap = [2]int64{12, 30}
				if pkgOf(g) == abs {
					t.leap = [2]int64{2, 29}
				}
				z := newCaseEval(p, t.assume, componentBase)
				for _, ev := range traceTimes(z, g) {
					if ev.kind == "date" && (ev.parts[0].only("param:year") || pkgOf(g) == abs && ev.parts[0].any("param:year")) {
						x.bad("parts-to-date", ev, fmt.Sprintf("%s: the leap day is created in a year that has none", t.full()))
					}
				}
				t.leap = [2]int64{}
			}
			if len(x.bads) == n {
				r.ok("parts-to-date", fnKey(g)+": "+t.full(), p.pos(g.Pos()), fmt.Sprintf("%d dates created", len(evs)))
			}
		}
	}
	r.floor("parts-to-date", 20)
}

// recorded: a part is recorded together with its token.
func (x *prefCheck) recorded(abs string) {
	r, p := x.r, x.p
	n := 0
	for _, f := range p.reachableRepo() {
		if pkgOf(f) != abs {
			continue
		}
		// components recorded with a token here, or in a helper called from here
		type rec struct {
			cval
			at ssa.Instruction // in f
		}
		var keys []rec
		var collect func(g *ssa.Function, c *cctx, at ssa.Instruction, depth int)
		collect = func(g *ssa.Function, c *cctx, at ssa.Instruction, depth int) {
			eachInstr(g, func(i ssa.Instruction) {
				here := i
				if at != nil {
					here = at
					if !alwaysAfter(g.Blocks[0], i.Block()) {
						return
					}
				}
				if up, ok := i.(*ssa.MapUpdate); ok && componentMap(cval{up.Map, c}.res().v) == "ComponentTokens" {
					keys = append(keys, rec{cval{up.Key, c}, here})
				}
				if cl, ok := i.(*ssa.Call); ok && depth < 3 {
					if h := cl.Call.StaticCallee(); h != nil && pkgOf(h) == abs && h != g {
						collect(h, &cctx{cl, h, c, depth + 1}, here, depth+1)
					}
				}
			})
		}
		collect(f, nil, nil, 0)
		has := func(k ssa.Value, at ssa.Instruction) bool {
			for _, w := range keys {
				if !w.at.Block().Dominates(at.Block()) && !alwaysAfter(at.Block(), w.at.Block()) {
					continue
				}
				if sameVal(w.cval, cval{k, nil}) {
					return true
				}
				a, ok1 := constString(w.res().v)
				b, ok2 := constString(k)
				if ok1 && ok2 && a == b {
					return true
				}
			}
			return false
		}
		eachInstr(f, func(i ssa.Instruction) {
			switch y := i.(type) {
			case *ssa.Store:
				fa, ok := y.Addr.(*ssa.FieldAddr)
				if !ok {
					return
				}
				ow, fn := fieldName(fa)
				if ow == nil || fn != "Component" || !p.ours(ow) || ow.Obj().Pkg().Path() != abs {
					return
				}
				if _, isP := y.Val.(*ssa.Parameter); isP && len(keys) == 0 {
					return // recorded by the caller
				}
				n++
				ok = has(y.Val, i)
				if !ok {
					if kk, isC := constString(y.Val); !isC || kk == "" {
						for _, w := range keys {
							if _, isC := constString(w.res().v); !isC && !sameVal(w.cval, cval{y.Val, nil}) && w.at.Block().Dominates(i.Block()) {
								ok = true
							}
						}
					}
				}
				r.add(ok, "token-recorded", siteKey(i, "result"), p.instrPos(i), pick(ok, "the component is recorded together with its token", "a component is returned without recording its token, so it counts as missing from the text"))
			case *ssa.MapUpdate:
				if componentMap(y.Map) != "ComponentValues" {
					return
				}
				n++
				if _, a := loadedField(y.Key); a != "Component" {
					if known, absent := x.onlyAbsent(y.Key, i, 0); known {
						r.add(absent, "written-parts-kept", siteKey(i, "value"), p.instrPos(i), pick(absent, "only a part that was not found in the text is filled in", "a part that was found in the text may be replaced by a number whose meaning is not known"))
					}
				}
				ok := has(y.Key, i)
				if !ok {
					// key and value of one result
					_, a := loadedField(y.Key)
					_, b := loadedField(y.Value)
					sa, ok1 := offsetOf(cval{y.Key, nil})
					sb, ok2 := offsetOf(cval{y.Value, nil})
					ok = a == "Component" && b == "Value" && (!ok1 || !ok2 || sameVal(sa, sb))
				}
				if !ok && p.onlyFrom(f, abs) {
					if _, isP := y.Key.(*ssa.Parameter); isP {
						ok = true
					}
				}
				r.add(ok, "token-recorded", siteKey(i, "value"), p.instrPos(i), pick(ok, "the value is that of the component of a recorded token", "a value is recorded for a component that has no token"))
			}
		})
	}
	r.floor("token-recorded", 3)
}

// alwaysAfter: every way from a to a return leads through b.
func alwaysAfter(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	st := []*ssa.BasicBlock{a}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if len(x.Succs) == 0 {
			return false
		}
		st = append(st, x.Succs...)
	}
	return true
}

func (p *Prog) onlyFrom(f *ssa.Function, pkg string) bool {
	for _, s := range p.callSites(f) {
		if pkgOf(s.Parent()) != pkg {
			return false
		}
	}
	return true
}

// formats: the custom formats.
func (x *prefCheck) formats() {
	r, p := x.r, x.p
	var roots []*ssa.Function
	for _, f := range p.reachableRepo() {
		if pkgOf(f) == repoPkg("internal/parser/formatted") && f.Signature.Variadic() && typeIs(f.Signature.Results().At(0).Type(), repoPkg("date"), "Date") {
			roots = append(roots, f)
		}
	}
	for _, f := range roots {
		formats := f.Params[len(f.Params)-1]
		isFormat := func(y cval) bool {
			u, ok := y.v.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return false
			}
			ia, ok := u.X.(*ssa.IndexAddr)
			return ok && cval{ia.X, y.c}.res().v == ssa.Value(formats)
		}
		eval := func(layout string, t textCase) *caseEval {
			return newCaseEval(p, func(z *caseEval, y cval) (constant.Value, bool) {
				if isFormat(y) {
					return constant.MakeString(layout), true
				}
				return t.assume(z, y)
			}, func(_ *caseEval, y cval) (bool, bool) {
				if cl, ok := y.v.(*ssa.Call); ok && cl.Call.StaticCallee() != nil && pkgOf(cl.Call.StaticCallee()) == "time" && !isString(cl.Type()) {
					return false, true // whether the text fits the format is open
				}
				return isFormat(y), isFormat(y)
			})
		}
		type lay struct {
			s       string
			D, M, Y bool
		}
		var lays []lay
		for _, y := range []string{"", "2006", "06"} {
			for _, m := range []string{"", "1", "01", "Jan", "January"} {
				for _, d := range []string{"", "2", "02", "_2", "002", "__2"} {
					for _, h := range []string{"", "15:04:05.000000", "3:4:5 PM MST -0700 Monday", "Mon"} {
						var s []string
						for _, w := range []string{y, m, d, h} {
							if w != "" {
								s = append(s, w)
							}
						}
						if len(s) == 0 {
							continue
						}
						doy := len(d) == 3
						lays = append(lays, lay{strings.Join(s, " "), d != "", m != "" || doy, y != ""})
					}
				}
			}
		}
		for _, l := range lays {
			t := textCase{month: -1, day: -1}
			z := eval(l.s, t)
			evs := traceTimes(z, f)
			x.note(z)
			n := len(x.bads)
			for _, ev := range evs {
				for k, in := range []bool{l.Y, l.M, l.D} {
					if in && ev.parts[k].changed() && !(ev.kind == "add" && ev.parts[k].only("kept")) {
						x.bad("format-parts-kept", ev, fmt.Sprintf("format %q: the %s is replaced (%s)", l.s, partNames[k], ev.parts[k]))
					}
				}
			}
			z2 := eval(l.s, t)
			z2.both = true
			var got [3]bool
			for _, ev := range traceTimes(z2, f) {
				for k := range got {
					got[k] = got[k] || ev.parts[k].any("now", "const:", "last")
				}
			}
			for k, in := range []bool{l.Y, l.M, l.D} {
				if !in && !got[k] {
					key := fmt.Sprintf("%s: format without %s", fnKey(f), partNames[k])
					if !x.bads[key] {
						x.bads[key] = true
						r.bad("format-parts-filled", key, p.pos(f.Pos()), fmt.Sprintf("format %q: the missing %s is not filled in", l.s, partNames[k]))
					}
				}
			}
			if n == len(x.bads) {
				r.ok("format-parts-kept", fnKey(f)+": "+l.s, p.pos(f.Pos()), fmt.Sprintf("%d changes of the date", len(evs)))
			}
		}
		x.meaning("custom formats", func(t textCase) []tev { return traceTimes(eval("2006", t), f) })
	}
	r.floor("format-parts-kept", 300)
	r.floor("preference-meaning", 12)
}

// sameKeyUpdate: a loop over the parts replaces each entry with the part of that name in the text.
func sameKeyUpdate(mm *ssa.MakeMap) bool {
	for _, u := range refs(mm) {
		up, ok := u.(*ssa.MapUpdate)
		if !ok || up.Map != ssa.Value(mm) {
			continue
		}
		lk := lookupOf(up.Value)
		if _, isConst := up.Key.(*ssa.Const); isConst || lk == nil || lk.Index != up.Key {
			continue
		}
		if _, n := loadedField(lk.X); n == "ComponentValues" {
			return true
		}
	}
	return false
}

// onlyAbsent: the instruction is only reached when the part named by key was not found in the text.
// The answer is not known when the key does not come from a list of the parts.
func (x *prefCheck) onlyAbsent(key ssa.Value, at ssa.Instruction, depth int) (known, absent bool) {
	if depth > 3 {
		return false, false
	}
	c := &strictCheck{p: x.p, r: x.r}
	e := x.p.implies(func(h Fact) bool {
		pres, kn := c.presence(h, key)
		return kn && !pres
	})
	start := at.Parent().Blocks[0]
	if i, ok := key.(ssa.Instruction); ok && i.Parent() == at.Parent() {
		start = i.Block()
	}
	if e.cut(start, at.Block()) {
		return true, true
	}
	if prm, ok := key.(*ssa.Parameter); ok {
		sites := x.p.callSites(prm.Parent())
		if len(sites) == 0 {
			return false, false
		}
		absent = true
		for _, s := range sites {
			a := argFor(s, prm)
			if a == nil {
				return false, false
			}
			k, ab := x.onlyAbsent(a, s, depth+1)
			if !k {
				return false, false
			}
			absent = absent && ab
		}
		return true, absent
	}
	return c.strValues(key) != nil, false
}
