package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C26"] = checkC26 }

// calendarParser is a place where an absolute.Parser is set up, with the functions it is given.
type calendarParser struct {
	root  *ssa.Function
	pos   token.Pos
	hooks map[string]*ssa.Function
	unit  string // package of the calendar, "" for the Gregorian one
}

const gregorian = "Gregorian"

// calendarPkg: a third-party package that converts dates to and from the Gregorian calendar.
func (p *Prog) calendarPkg(path string) bool {
	if path == "" || isStdPkg(path) || strings.HasPrefix(path, strings.TrimSuffix(repoPkg(""), "/")) {
		return false
	}
	pk := p.SSAPkgs[path]
	if pk == nil {
		return false
	}
	for _, m := range pk.Members {
		if f, ok := m.(*ssa.Function); ok && strings.Contains(f.Name(), "Gregorian") {
			return true
		}
		if t, ok := m.(*ssa.Type); ok {
			ms := types.NewMethodSet(types.NewPointer(t.Type()))
			for k := 0; k < ms.Len(); k++ {
				if strings.Contains(ms.At(k).Obj().Name(), "Gregorian") {
					return true
				}
			}
		}
	}
	return false
}

// takesGregorian, givesGregorian: what a function of a calendar package converts from and to.
func takesGregorian(g *ssa.Function) bool { return hasTime(g.Signature.Params()) }
func givesGregorian(g *ssa.Function) bool { return hasTime(g.Signature.Results()) }

func hasTime(t *types.Tuple) bool {
	for k := 0; k < t.Len(); k++ {
		if isTime(t.At(k).Type()) || typeIs(t.At(k).Type(), "time", "Month") {
			return true
		}
	}
	return false
}

// calendarParsers finds every absolute.Parser that is set up.
func (p *Prog) calendarParsers() (out []*calendarParser) {
	abs := repoPkg("internal/parser/absolute")
	for _, f := range p.reachableRepo() {
		eachInstr(f, func(i ssa.Instruction) {
			al, ok := i.(*ssa.Alloc)
			if !ok || !typeIs(al.Type().Underlying().(*types.Pointer).Elem(), abs, "Parser") {
				return
			}
			if _, isPtr := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); isPtr {
				return
			}
			cp := &calendarParser{root: f, pos: al.Pos(), hooks: map[string]*ssa.Function{}}
			for _, st := range storesInto(al, 0) {
				_, n := fieldName(st.Addr)
				if strings.HasPrefix(n, "Fn") {
					if g := fnOf(st.Val); g != nil {
						cp.hooks[n] = g
					}
				}
			}
			if len(cp.hooks) == 0 {
				return
			}
			out = append(out, cp)
		})
	}
	for _, cp := range out {
		seen := map[*ssa.Function]bool{}
		units := map[string]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			if seen[g] {
				return
			}
			seen[g] = true
			eachInstr(g, func(i ssa.Instruction) {
				if cl := callOf(i); cl != nil {
					if h := cl.StaticCallee(); h != nil {
						if p.calendarPkg(pkgOf(h)) {
							units[pkgOf(h)] = true
						} else if p.inRepo(h) {
							walk(h)
						}
					}
				}
			})
		}
		if g := cp.hooks["FnCreateDateTime"]; g != nil {
			walk(g)
		}
		if us := sortedKeys(units); len(us) > 0 {
			cp.unit = us[0]
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnKey(out[i].root) < fnKey(out[j].root) })
	return
}

func fnOf(v ssa.Value) *ssa.Function {
	for k := 0; k < 5; k++ {
		switch x := v.(type) {
		case *ssa.Function:
			return x
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeClosure:
			f, _ := x.Fn.(*ssa.Function)
			return f
		default:
			return nil
		}
	}
	return nil
}

// calWalk follows the code one parser runs, with its own functions in place of the function fields.
type calWalk struct {
	p    *Prog
	cp   *calendarParser
	z    *caseEval
	rel  map[*ssa.Function]bool
	seen map[*cctx]bool
	r    *Result
	n    map[string]int
	bads map[string]bool
}

func (w *calWalk) assume(z *caseEval, x cval) (constant.Value, bool) {
	b, ok := x.v.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return nil, false
	}
	for k := 0; k < 2; k++ {
		u, v := b.X, b.Y
		if k == 1 {
			u, v = v, u
		}
		if !isNilConst(v) {
			continue
		}
		ow, n := loadedField(cval{u, x.c}.res().v)
		if ow != nil && strings.HasPrefix(n, "Fn") && ow.Obj().Name() == "Parser" {
			return constant.MakeBool((w.cp.hooks[n] == nil) == (b.Op == token.EQL)), true
		}
	}
	return nil, false
}

// callee of a call, through the function fields of the parser.
func (w *calWalk) callee(cl *ssa.CallCommon, c *cctx) *ssa.Function {
	if g := cl.StaticCallee(); g != nil {
		return g
	}
	if cl.IsInvoke() {
		return nil
	}
	v := cval{cl.Value, c}.res().v
	if ow, n := loadedField(v); ow != nil && strings.HasPrefix(n, "Fn") && ow.Obj().Name() == "Parser" {
		return w.cp.hooks[n]
	}
	return fnOf(v)
}

// relevant: functions that handle dates, or call one that does.
func (w *calWalk) relevant() {
	w.rel = map[*ssa.Function]bool{}
	fns := w.p.reachableRepo()
	for again := true; again; {
		again = false
		for _, f := range fns {
			if w.rel[f] {
				continue
			}
			eachInstr(f, func(i ssa.Instruction) {
				if b, ok := i.(*ssa.BinOp); ok && b.Op == token.REM {
					if n, isN := constInt(b.Y); isN && (n == 4 || n == 100 || n == 400) {
						w.rel[f], again = true, true
					}
				}
				cl := callOf(i)
				if cl == nil || w.rel[f] {
					return
				}
				nm := calleeName(cl)
				_, n := loadedField(cl.Value)
				switch g := cl.StaticCallee(); {
				case nm == "time.Date" || nm == "(time.Time).AddDate" || strings.HasPrefix(n, "Fn"),
					g != nil && w.p.calendarPkg(pkgOf(g)), g != nil && w.rel[g]:
					w.rel[f] = true
					again = true
				}
			})
		}
	}
}

func (w *calWalk) bad(rule string, i ssa.Instruction, f *ssa.Function, what, why string) {
	key := w.name() + ": " + fnKey(f) + ": " + what
	if w.bads[rule+key] {
		return
	}
	w.bads[rule+key] = true
	w.r.bad(rule, key, w.p.instrPos(i), why)
}

func (w *calWalk) name() string {
	n := w.cp.unit
	if n == "" {
		return gregorian
	}
	return n[strings.LastIndexByte(n, '/')+1:]
}

type units map[string]bool

func (u units) String() string { return strings.Join(sortedKeys(u), "|") }

func unitName(u string) string { return strings.TrimPrefix(u[strings.LastIndexByte(u, '/')+1:], "go-") }

// unit: the calendars whose parts a value may be.
func (w *calWalk) unit(x cval) units {
	return w.units(x, 0, map[zkey]bool{})
}

func (w *calWalk) units(x cval, depth int, busy map[zkey]bool) units {
	x = x.res()
	out := units{}
	k := zkey{x.v, x.c, 0}
	if busy[k] || depth > 40 {
		return out
	}
	busy[k] = true
	add := func(y cval) {
		for u := range w.units(y, depth+1, busy) {
			out[u] = true
		}
	}
	if _, _, ok := timePart(x); ok {
		out[gregorian] = true
		return out
	}
	z := w.z
	switch y := x.v.(type) {
	case *ssa.BinOp:
		switch y.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
			add(cval{y.X, x.c})
			add(cval{y.Y, x.c})
		}
		if y.Op == token.SUB && len(out) > 0 {
			// a difference of two is none
			if a, b := w.units(cval{y.X, x.c}, depth+1, map[zkey]bool{}), w.units(cval{y.Y, x.c}, depth+1, map[zkey]bool{}); len(a) > 0 && len(b) > 0 {
				return units{}
			}
		}
	case *ssa.Phi:
		for k, e := range y.Edges {
			if z.liveEdge(y.Block(), k, x.c) {
				add(cval{e, x.c})
			}
		}
	case *ssa.Lookup:
		w.lookup(y, x.c, out, add)
	case *ssa.Extract:
		if l, ok := y.Tuple.(*ssa.Lookup); ok {
			if y.Index == 0 {
				w.lookup(l, x.c, out, add)
			}
			break
		}
		if cl, ok := y.Tuple.(*ssa.Call); ok {
			w.result(cl, y.Index, x.c, out, add)
		}
	case *ssa.Call:
		w.result(y, 0, x.c, out, add)
	case *ssa.UnOp, *ssa.Field:
		if u, ok := y.(*ssa.UnOp); ok && u.Op == token.SUB {
			add(cval{u.X, x.c})
			break
		}
		if ow, n := loadedField(x.v); ow != nil && ow.Obj().Pkg() != nil && w.p.calendarPkg(ow.Obj().Pkg().Path()) && partIndex(n) >= 0 {
			out[ow.Obj().Pkg().Path()] = true
			break
		}
		for _, v := range z.sources(x, 0) {
			add(v)
		}
	}
	return out
}

func (w *calWalk) lookup(l *ssa.Lookup, c *cctx, out units, add func(cval)) {
	if _, ok := l.X.Type().Underlying().(*types.Map); !ok {
		return
	}
	m := cval{l.X, c}.res()
	if _, n := loadedField(m.v); n == "ComponentValues" {
		if k := w.z.fold(cval{l.Index, c}, 0); k == nil || k.Kind() != constant.String || partIndex(constant.StringVal(k)) >= 0 {
			out[w.own()] = true
		}
		return
	}
	for _, mm := range w.maps(m, 0) {
		k := w.z.fold(cval{l.Index, c}, 0)
		for _, u := range *mm.v.(*ssa.MakeMap).Referrers() {
			up, ok := u.(*ssa.MapUpdate)
			if !ok || up.Map != mm.v {
				continue
			}
			if q := w.z.fold(cval{up.Key, mm.c}, 0); k != nil && q != nil && (k.Kind() != q.Kind() || !constant.Compare(k, token.EQL, q)) {
				continue
			}
			add(cval{up.Value, mm.c})
		}
	}
}

func (w *calWalk) own() string {
	if w.cp.unit == "" {
		return gregorian
	}
	return w.cp.unit
}

// maps: where a map value is made.
func (w *calWalk) maps(m cval, depth int) (out []cval) {
	m = m.res()
	if depth > 8 {
		return
	}
	switch y := m.v.(type) {
	case *ssa.MakeMap:
		return []cval{m}
	case *ssa.Phi:
		for k, e := range y.Edges {
			if w.z.liveEdge(y.Block(), k, m.c) {
				out = append(out, w.maps(cval{e, m.c}, depth+1)...)
			}
		}
	case *ssa.Call, *ssa.Extract:
		cl, idx := callResult(m.v)
		if cl == nil {
			return
		}
		if g := w.callee(cl.Common(), m.c); g != nil && w.p.inRepo(g) {
			if c := w.z.enter(cl, g, m.c); c != nil {
				for _, ret := range w.z.liveReturns(g, c) {
					if idx < len(ret.Results) {
						out = append(out, w.maps(cval{ret.Results[idx], c}, depth+1)...)
					}
				}
			}
		}
	}
	return
}

func (w *calWalk) result(cl *ssa.Call, idx int, c *cctx, out units, add func(cval)) {
	if bi, ok := cl.Call.Value.(*ssa.Builtin); ok {
		if bi.Name() == "min" || bi.Name() == "max" {
			for _, a := range cl.Call.Args {
				add(cval{a, c})
			}
		}
		return
	}
	g := w.callee(cl.Common(), c)
	if g == nil {
		return
	}
	if w.p.calendarPkg(pkgOf(g)) {
		t := g.Signature.Results().At(idx).Type()
		if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return
		}
		switch {
		case givesGregorian(g):
			out[gregorian] = true
		case takesGregorian(g):
			out[pkgOf(g)] = true
		case strings.Contains(g.Name(), "Month") && (strings.Contains(g.Name(), "Len") || strings.Contains(g.Name(), "Days")):
			out[pkgOf(g)] = true // the length of one of its months
		}
		return
	}
	if !w.p.inRepo(g) {
		return
	}
	if g == w.cp.hooks["FnGetDatePartValue"] {
		if idx == 0 {
			out[w.own()] = true
		}
		return
	}
	if ctx := w.z.enter(cl, g, c); ctx != nil {
		for _, ret := range w.z.liveReturns(g, ctx) {
			if idx < len(ret.Results) {
				add(cval{ret.Results[idx], ctx})
			}
		}
	}
}

// whole: the dates a part is taken from; known is false if some are not recognised.
func (w *calWalk) whole(x cval, part int) (from []cval, known bool) {
	known = true
	busy := map[zkey]bool{}
	put := func(y cval) {
		for _, f := range from {
			if f.v == y.v && f.c == y.c || sameVal(f, y) {
				return
			}
		}
		from = append(from, y)
	}
	var walk func(x cval, depth int)
	walk = func(x cval, depth int) {
		x = x.res()
		k := zkey{x.v, x.c, 0}
		if busy[k] {
			return
		}
		busy[k] = true
		if depth > 20 {
			known = false
			return
		}
		if recv, n, ok := timePart(x); ok {
			if n != part {
				// another part of a date, this one stands for itself
				put(x)
				return
			}
			put(recv.res())
			return
		}
		switch y := x.v.(type) {
		case *ssa.Const:
			put(cval{ssa.NewConst(constant.MakeInt64(0), types.Typ[types.Int]), nil})
			return
		case *ssa.Phi:
			for k, e := range y.Edges {
				if w.z.liveEdge(y.Block(), k, x.c) {
					walk(cval{e, x.c}, depth+1)
				}
			}
			return
		case *ssa.BinOp:
			if part == 2 && (y.Op == token.ADD || y.Op == token.SUB) {
				walk(cval{y.X, x.c}, depth+1)
				return
			}
		case *ssa.Call, *ssa.Extract:
			cl, idx := callResult(x.v)
			if cl == nil {
				break
			}
			if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "min" {
				for _, a := range cl.Call.Args {
					walk(cval{a, x.c}, depth+1)
				}
				return
			}
			g := w.callee(cl.Common(), x.c)
			if g == nil {
				break
			}
			if w.p.calendarPkg(pkgOf(g)) && givesGregorian(g) {
				put(cval{cl, x.c})
				return
			}
			if w.p.inRepo(g) {
				if c := w.z.enter(cl, g, x.c); c != nil {
					for _, ret := range w.z.liveReturns(g, c) {
						if idx < len(ret.Results) {
							walk(cval{ret.Results[idx], c}, depth+1)
						}
					}
					return
				}
			}
		}
		known = false
	}
	walk(x, 0)
	return
}

func sameDates(a, b []cval) bool {
	sub := func(a, b []cval) bool {
		for _, x := range a {
			ok := false
			for _, y := range b {
				ok = ok || x.v == y.v && x.c == y.c || sameVal(x, y)
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return sub(a, b) && sub(b, a)
}

// complete: year, month and day are those of one and the same date.
func (w *calWalk) complete(y, m, d cval) string {
	fy, ky := w.whole(y, 0)
	fm, km := w.whole(m, 1)
	fd, kd := w.whole(d, 2)
	if ky && km && !sameDates(fy, fm) {
		return "the month is not taken from the same date as the year"
	}
	if ky && kd && !sameDates(fy, fd) {
		return "the day is not taken from the same date as the year"
	}
	// in what is recognised
	if ky && len(fy) > 0 && (!km && len(fm) > 0 && !sameDates(append([]cval{}, fm...), fy) || !kd && len(fd) > 0 && !sameDates(fd, fy)) {
		return "year, month and day are not taken from the same date"
	}
	return ""
}

// moved: the time was moved to another zone that is not its own.
func (w *calWalk) moved(x cval, depth int) string {
	x = x.res()
	if depth > 10 {
		return ""
	}
	cl, idx := callResult(x.v)
	if cl == nil {
		for _, v := range w.z.sources(x, 0) {
			if s := w.moved(v, depth+1); s != "" {
				return s
			}
		}
		return ""
	}
	switch nm := calleeName(cl.Common()); nm {
	case "(time.Time).UTC", "(time.Time).Local":
		return nm
	case "(time.Time).AddDate", "(time.Time).Add", "(time.Time).Truncate", "(time.Time).Round":
		return w.moved(cval{cl.Call.Args[0], x.c}, depth+1)
	}
	if g := w.callee(cl.Common(), x.c); g != nil && w.p.inRepo(g) {
		if c := w.z.enter(cl, g, x.c); c != nil {
			for _, ret := range w.z.liveReturns(g, c) {
				if idx < len(ret.Results) {
					if s := w.moved(cval{ret.Results[idx], c}, depth+1); s != "" {
						return s
					}
				}
			}
		}
	}
	return ""
}

// usesUTC: the function of the calendar package looks at its time in UTC.
func usesUTC(g *ssa.Function) bool {
	out := false
	eachInstr(g, func(i ssa.Instruction) {
		if cl := callOf(i); cl != nil && calleeName(cl) == "(time.Time).UTC" {
			out = true
		}
	})
	return out
}

// converted: the time that is converted, as the package sees it, has the date it has in its own zone.
func (w *calWalk) converted(g *ssa.Function, x cval) string {
	x = x.res()
	if cl, idx := callResult(x.v); cl != nil {
		h := w.callee(cl.Common(), x.c)
		switch {
		case calleeName(cl.Common()) == "time.Date":
			a := func(k int) cval { return cval{cl.Call.Args[k], x.c} }
			if s := w.complete(a(0), a(1), a(2)); s != "" {
				return s
			}
			if usesUTC(g) {
				if u, ok := a(7).res().v.(*ssa.UnOp); ok {
					if gl, isG := u.X.(*ssa.Global); isG && gl.Name() == "UTC" {
						if recv, _, ok := timePart(a(2)); ok {
							if s := w.moved(recv, 0); s != "" {
								return "the date is that of another zone (" + s + ")"
							}
						}
						return ""
					}
				}
				return "the date is moved to UTC before it is converted"
			}
			return ""
		case h != nil && w.p.calendarPkg(pkgOf(h)):
			return ""
		case h != nil && w.p.inRepo(h):
			if c := w.z.enter(cl, h, x.c); c != nil {
				for _, ret := range w.z.liveReturns(h, c) {
					if idx < len(ret.Results) {
						if s := w.converted(g, cval{ret.Results[idx], c}); s != "" {
							return s
						}
					}
				}
				return ""
			}
		}
	} else if ph, ok := x.v.(*ssa.Phi); ok && !inLoopPhi(ph) {
		for k, e := range ph.Edges {
			if w.z.liveEdge(ph.Block(), k, x.c) {
				if s := w.converted(g, cval{e, x.c}); s != "" {
					return s
				}
			}
		}
		return ""
	} else if vs := w.z.sources(x, 0); len(vs) > 0 {
		for _, v := range vs {
			if s := w.converted(g, v); s != "" {
				return s
			}
		}
		return ""
	}
	if s := w.moved(x, 0); s != "" {
		return "the date is that of another zone (" + s + ")"
	}
	if usesUTC(g) {
		return "the date is moved to UTC before it is converted"
	}
	return ""
}

func (w *calWalk) walk(f *ssa.Function, c *cctx) {
	if w.seen[c] {
		return
	}
	w.seen[c] = true
	for _, b := range f.Blocks {
		if !w.z.liveBlock(b, c) {
			continue
		}
		for _, i := range b.Instrs {
			w.instr(i, f, c)
		}
	}
}

func (w *calWalk) instr(i ssa.Instruction, f *ssa.Function, c *cctx) {
	cal := w.cp.unit != ""
	at := func(v ssa.Value) cval { return cval{v, c} }
	switch x := i.(type) {
	case *ssa.BinOp:
		if !isInt(x.X.Type()) || !cal {
			return
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.SUB, token.ADD:
			a, b := w.unit(at(x.X)), w.unit(at(x.Y))
			if len(a) != 1 || len(b) != 1 {
				return
			}
			w.n["comparisons"]++
			if a.String() != b.String() {
				w.bad("calendars-not-mixed", x, f, x.Op.String(), fmt.Sprintf("a part of a %s date is combined with one of a %s date", unitName(a.String()), unitName(b.String())))
			}
		case token.REM:
			if n, ok := constInt(x.Y); ok && (n == 4 || n == 100 || n == 400) && w.unit(at(x.X))[w.cp.unit] {
				w.bad("own-calendar", x, f, "leap-year test", "the Gregorian rule for leap years is applied to a year of the "+unitName(w.cp.unit)+" calendar")
			}
		}
		return
	case *ssa.Store:
		// fields of a date of the calendar
		fa, ok := x.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		ow, n := fieldName(fa)
		if ow == nil || ow.Obj().Pkg() == nil || !w.p.calendarPkg(ow.Obj().Pkg().Path()) || partIndex(n) < 0 {
			return
		}
		w.part(x, f, at(x.Val), ow.Obj().Pkg().Path(), ow.Obj().Name()+"."+n)
		return
	}
	cl := callOf(i)
	if cl == nil {
		return
	}
	if bi, ok := cl.Value.(*ssa.Builtin); ok && cal && (bi.Name() == "min" || bi.Name() == "max") && isInt(cl.Args[0].Type()) {
		// the smaller of a part and a limit
		for k := 1; k < len(cl.Args); k++ {
			a, b := w.unit(at(cl.Args[0])), w.unit(at(cl.Args[k]))
			if len(a) == 1 && len(b) == 1 {
				w.n["comparisons"]++
				if a.String() != b.String() {
					w.bad("calendars-not-mixed", i, f, bi.Name(), fmt.Sprintf("a part of a %s date is combined with one of a %s date", unitName(a.String()), unitName(b.String())))
				}
			}
		}
		return
	}
	nm := calleeName(cl)
	switch {
	case nm == "time.Date" && cal:
		for k, n := range partNames {
			w.part(i, f, at(cl.Args[k]), gregorian, nm+" "+n)
		}
		s := w.complete(at(cl.Args[0]), at(cl.Args[1]), at(cl.Args[2]))
		w.n["dates"]++
		if s != "" {
			w.bad("complete-dates", i, f, nm, "in the "+unitName(w.cp.unit)+" parser, "+s+": Gregorian parts are put together")
		}
		return
	case nm == "(time.Time).AddDate" && cal:
		w.n["shifts"]++
		for k := 1; k <= 2; k++ {
			v := w.z.fold(at(cl.Args[k]), 0)
			if v == nil || constant.Sign(v) != 0 {
				w.bad("complete-dates", i, f, nm+" "+partNames[k-1], "in the "+unitName(w.cp.unit)+" parser, a date is moved by Gregorian "+partNames[k-1]+"s")
			}
		}
		return
	}
	g := w.callee(cl, c)
	if g == nil {
		return
	}
	if w.p.calendarPkg(pkgOf(g)) {
		w.n["conversions"]++
		if pkgOf(g) != w.cp.unit {
			w.bad("own-calendar", i, f, fnKey(g), "the "+w.name()+" parser uses the "+unitName(pkgOf(g))+" calendar")
			return
		}
		var ints []cval
		for k, q := range g.Params {
			if k >= len(cl.Args) {
				break
			}
			a := at(cl.Args[k])
			switch {
			case isTime(q.Type()):
				s := w.converted(g, a)
				if s != "" {
					w.bad("complete-dates", i, f, fnKey(g), "a date converted to the "+unitName(w.cp.unit)+" calendar: "+s)
				} else {
					w.n["converted"]++
				}
			case isInt(q.Type()):
				want := pkgOf(g)
				if takesGregorian(g) {
					want = gregorian
				}
				w.part(i, f, a, want, fmt.Sprintf("%s argument %d", fnKey(g), k+1))
				ints = append(ints, a)
			}
		}
		if takesGregorian(g) && len(ints) == 3 {
			s := w.complete(ints[0], ints[1], ints[2])
			if recv, _, ok := timePart(ints[2]); s == "" && ok {
				if m := w.moved(recv, 0); m != "" {
					s = "the date is that of another zone (" + m + ")"
				}
			}
			if s != "" {
				w.bad("complete-dates", i, f, fnKey(g), "a date converted to the "+unitName(w.cp.unit)+" calendar: "+s)
			} else {
				w.n["converted"]++
			}
		}
		return
	}
	if site, ok := i.(ssa.CallInstruction); ok && w.p.inRepo(g) && w.rel[g] {
		if ctx := w.z.enter(site, g, c); ctx != nil {
			w.walk(g, ctx)
		}
	}
}

// part: a value used as a part of a date of a calendar.
func (w *calWalk) part(i ssa.Instruction, f *ssa.Function, x cval, want, what string) {
	u := w.unit(x)
	w.n["parts"]++
	for k := range u {
		if k != want {
			w.bad("calendars-not-mixed", i, f, what, fmt.Sprintf("a part of a %s date is used as one of a %s date", unitName(k), unitName(want)))
			return
		}
	}
}

func checkC26(p *Prog, r *Result) {
	r.Rule = "in the code a Hijri or Jalali parser runs (function fields bound to its own functions, branches on them pruned), every value used as a year, month or day of one calendar comes from that calendar; Gregorian dates are only made from complete dates; dates are converted as seen in their own zone"
	cps := p.calendarParsers()
	fields := []string{}
	if n := p.named("internal/parser/absolute", "Parser"); n != nil {
		st := n.Underlying().(*types.Struct)
		for k := 0; k < st.NumFields(); k++ {
			if _, ok := st.Field(k).Type().Underlying().(*types.Signature); ok {
				fields = append(fields, st.Field(k).Name())
			}
		}
	}
	nCal := 0
	for _, cp := range cps {
		w := &calWalk{p: p, cp: cp, r: r, seen: map[*cctx]bool{}, n: map[string]int{}, bads: map[string]bool{}}
		w.z = newCaseEval(p, w.assume, func(*caseEval, cval) (bool, bool) { return false, true })
		w.z.both = true
		w.relevant()
		key := w.name() + ": " + fnKey(cp.root)
		if cp.unit != "" {
			nCal++
			for _, f := range fields {
				g := cp.hooks[f]
				switch {
				case g == nil:
					r.ok("functions", key+": "+f, p.pos(cp.pos), "not set, branches pruned accordingly")
				default:
					r.ok("functions", key+": "+f, p.pos(cp.pos), "bound to "+fnKey(g))
				}
			}
			w.limits(r, key)
		}
		ctx := w.z.enter(nil, cp.root, nil)
		if ctx == nil {
			continue
		}
		w.walk(cp.root, ctx)
		for _, rule := range []string{"calendars-not-mixed", "complete-dates", "own-calendar"} {
			r.ok(rule, key, p.pos(cp.root.Pos()), fmt.Sprintf("%d functions in %d contexts: %v", len(w.z.fns), len(w.seen), w.n))
		}
		for k, n := range w.n {
			r.Analysed[w.name()+" "+k] = n
		}
		if cp.unit != "" {
			for _, k := range []string{"dates", "parts", "conversions", "converted"} {
				r.add(w.n[k] > 0, "reached", key+": "+k, p.pos(cp.root.Pos()), fmt.Sprintf("%d %s analysed", w.n[k], k))
			}
		}
	}
	r.floor("functions", 6)
	r.Analysed["parsers"] = len(cps)
	r.Analysed["parsers of other calendars"] = nCal
	p.calendarEntries(r, cps)
}

// calendarEntries: the functions for one calendar reach the parser of that calendar and of no other.
func (p *Prog) calendarEntries(r *Result, cps []*calendarParser) {
	for _, f := range p.entryPoints() {
		reach := map[string]*calendarParser{}
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			if seen[g] {
				return
			}
			seen[g] = true
			for _, cp := range cps {
				if cp.root == g && cp.unit != "" {
					reach[cp.unit] = cp
				}
			}
			eachInstr(g, func(i ssa.Instruction) {
				if cl := callOf(i); cl != nil {
					if h := cl.StaticCallee(); h != nil && p.inRepo(h) {
						walk(h)
					}
				}
			})
		}
		walk(f)
		want := ""
		for _, cp := range cps {
			if n := pkgOf(cp.root); cp.unit != "" && strings.Contains(strings.ToLower(f.Name()), n[strings.LastIndexByte(n, '/')+1:]) {
				want = cp.unit
			}
		}
		if want == "" && len(reach) == 0 {
			continue
		}
		got := strings.Join(sortedKeys(reach), "|")
		why := "reaches the parser of that calendar only"
		if got != want {
			why = fmt.Sprintf("reaches the parser of %q, not %q", got, want)
		}
		r.add(got == want, "entry", fnKey(f), p.pos(f.Pos()), why)
	}
	r.floor("entry", 2)
}

// limits: the days, months and two-digit years of the calendar are accepted, and none that it does not have.
func (w *calWalk) limits(r *Result, key string) {
	g := w.cp.hooks["FnGetDatePartValue"]
	if g == nil || len(g.Blocks) == 0 {
		return
	}
	last := int64(31)
	if strings.Contains(w.cp.unit, "hijri") {
		last = 30
	}
	type lim struct {
		part string
		n    int64
		ok   bool
	}
	for _, l := range []lim{{"day", 1, true}, {"day", 29, true}, {"day", 30, true}, {"day", 31, last == 31}, {"day", 32, false}, {"day", 0, false},
		{"month", 1, true}, {"month", 12, true}, {"month", 13, false}, {"month", 0, false}, {"year", 1445, true}, {"year", 45, true}, {"year", 5, true}} {
		l := l
		digits := int64(2)
		if l.n > 99 {
			digits = 4
		}
		text := fmt.Sprintf("%02d", l.n)
		var comp ssa.Value
		for _, q := range g.Params {
			if isString(q.Type()) && comp == nil {
				comp = q
			}
		}
		assume := func(z *caseEval, x cval) (constant.Value, bool) {
			if x.v == comp && comp != nil {
				return constant.MakeString(l.part), true
			}
			if q, ok := x.v.(*ssa.Parameter); ok && q.Parent() == g && isString(q.Type()) {
				if len(g.Params) > 2 && q == g.Params[2] {
					return constant.MakeString(text), true
				}
			}
			if cl, idx := callResult(x.v); cl != nil {
				switch nm := calleeName(cl.Common()); {
				case nm == "strconv.Atoi" && idx == 0:
					return constant.MakeInt64(l.n), true
				case strings.HasPrefix(nm, "unicode.Is"):
					return constant.MakeBool(true), true
				case nm == "unicode/utf8.RuneCountInString":
					return constant.MakeInt64(digits), true
				}
				if h := cl.Call.StaticCallee(); h != nil && w.p.inRepo(h) && isBool(x.v.Type()) && h.Signature.Params().Len() == 1 && isString(h.Signature.Params().At(0).Type()) {
					return constant.MakeBool(true), true // the token consists of digits
				}
			}
			if e, ok := x.v.(*ssa.Extract); ok && e.Index == 1 {
				if _, isL := e.Tuple.(*ssa.Lookup); isL {
					return constant.MakeBool(false), true // it is not a name
				}
			}
			if b, ok := x.v.(*ssa.BinOp); ok && isErrType(b.X.Type()) && isNilConst(b.Y) {
				return constant.MakeBool(b.Op == token.EQL), true
			}
			return nil, false
		}
		z := newCaseEval(w.p, assume, func(*caseEval, cval) (bool, bool) { return false, true })
		z.both = true
		c := z.enter(nil, g, nil)
		yes, no, unknown := false, false, false
		var vals []int64
		for _, ret := range z.liveReturns(g, c) {
			k := z.fold(cval{ret.Results[1], c}, 0)
			switch {
			case k == nil || k.Kind() != constant.Bool:
				unknown = true
			case constant.BoolVal(k):
				yes = true
				if v := z.fold(cval{ret.Results[0], c}, 0); v != nil {
					if n, ok := constant.Int64Val(v); ok {
						vals = append(vals, n)
					}
				}
			default:
				no = true
			}
		}
		name := fmt.Sprintf("%s: %s %s", key, l.part, text)
		if unknown || yes && no {
			r.ok("own-limits", name, w.p.pos(g.Pos()), "not decided")
			continue
		}
		if yes != l.ok {
			r.bad("own-limits", name, w.p.pos(g.Pos()), fmt.Sprintf("%s as %s of a %s date is %s", text, l.part, unitName(w.cp.unit), map[bool]string{true: "accepted", false: "rejected"}[yes]))
			continue
		}
		if l.part == "year" && l.n < 100 {
			for _, v := range vals {
				if v < 1300 || v >= 1500 || v%100 != l.n {
					r.bad("own-limits", name, w.p.pos(g.Pos()), fmt.Sprintf("the two-digit year %s becomes %d, not in the centuries of the %s calendar", text, v, unitName(w.cp.unit)))
				}
			}
		} else if yes {
			for _, v := range vals {
				if v != l.n {
					r.bad("own-limits", name, w.p.pos(g.Pos()), fmt.Sprintf("%s is read as %d", text, v))
				}
			}
		}
		r.ok("own-limits", name, w.p.pos(g.Pos()), fmt.Sprintf("accepted: %v %v", yes, vals))
	}
	r.floor("own-limits", 20)
}
