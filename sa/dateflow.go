package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dateFlow is a path-sensitive abstract interpretation of how dates, times, errors and flags travel
// together: every value of those types is either zero (no date, nil error, false) or not, calls fork
// into the outcomes of the callee, and branches on IsZero, == nil and flags prune impossible states.
// A date additionally remembers whether the check for missing parts was passed (or all its parts are
// known to be present), and whether it came from a locale and names it.
type dateFlow struct {
	p *Prog
	// hooks
	gate     map[*ssa.Function]bool       // functions whose nil error means that no required part is missing
	complete func(c *ssa.CallCommon) bool // a parsed time in which day, month and year were all written
	needs    func(cl *ssa.Call) bool      // the date returned depends on a locale

	memo    map[string][]outcome
	busy    map[string]bool
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	problem string
	paths   int
	fns     map[*ssa.Function]bool
}

const (
	zU = iota // not known
	zZ        // zero: no date, nil, false, None
	zN        // not zero
)

// dabs is the abstract value.
type dabs struct {
	t, p  uint8 // zeroness; for a date that of its time (t) and its period (p), otherwise only t
	g     bool  // checked for missing parts
	need  bool  // came from a locale
	named bool  // names its locale
	date  bool
	org   ssa.Instruction // where the date was built
}

func (a dabs) zero() uint8 {
	if !a.date {
		return a.t
	}
	switch {
	case a.t == zZ || a.p == zZ:
		return zZ
	case a.t == zN && a.p == zN:
		return zN
	}
	return zU
}

func (a dabs) withZero(z uint8) dabs {
	a.t = z
	if a.date {
		a.p = z
	}
	if a.date && z == zZ {
		a = dabs{date: true, t: zZ, p: zZ}
	}
	return a
}

func (a dabs) key() string {
	o := ""
	if a.org != nil {
		o = fmt.Sprintf("@%p", a.org)
	}
	return fmt.Sprintf("%d%d%t%t%t%t%s", a.t, a.p, a.g, a.need, a.named, a.date, o)
}

func joinAbs(a, b dabs) dabs {
	if a.t != b.t {
		a.t = zU
	}
	if a.p != b.p {
		a.p = zU
	}
	a.g = a.g && b.g
	a.need = a.need || b.need
	a.named = a.named && b.named
	if a.org == nil {
		a.org = b.org
	}
	a.date = a.date || b.date
	return a
}

type outcome struct {
	res []dabs
	ret *ssa.Return
}

func (o outcome) key() string {
	s := ""
	for _, r := range o.res {
		s += r.key() + ","
	}
	return s
}

// dcell is a tracked piece of memory: a local variable, one element of a local array.
type dcell struct {
	root *ssa.Alloc
	idx  string
}

type dstate struct {
	vals   map[ssa.Value]dabs
	cells  map[dcell]dabs
	lists  map[ssa.Value]dabs // elements of a list value
	passed bool
}

func (s *dstate) clone() *dstate {
	n := &dstate{vals: make(map[ssa.Value]dabs, len(s.vals)), cells: make(map[dcell]dabs, len(s.cells)), passed: s.passed}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

func (s *dstate) key() string {
	var ks []string
	for k, v := range s.vals {
		ks = append(ks, k.Name()+"="+v.key())
	}
	for k, v := range s.cells {
		ks = append(ks, "*"+k.root.Name()+k.idx+"="+v.key())
	}
	sort.Strings(ks)
	return fmt.Sprint(s.passed) + strings.Join(ks, ";")
}

func (p *Prog) newDateFlow() *dateFlow {
	return &dateFlow{p: p, memo: map[string][]outcome{}, busy: map[string]bool{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, fns: map[*ssa.Function]bool{}}
}

func isDateT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/date" && n.Obj().Name() == "Date"
}

func isPeriodT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/date" && n.Obj().Name() == "Period"
}

func isTimeT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// dateField is the index of the only field of a structure that is (or carries) a date, or -1.
func dateField(t types.Type) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || isDateT(t) || isTimeT(t) {
		return -1
	}
	k := -1
	for i := 0; i < st.NumFields(); i++ {
		if ft := st.Field(i).Type(); isDateT(ft) || dateField(ft) >= 0 {
			if k >= 0 {
				return -1
			}
			k = i
		}
	}
	return k
}

func carrier(t types.Type) bool { return isDateT(t) || dateField(t) >= 0 }

func listOfDates(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return carrier(x.Elem())
	case *types.Array:
		return carrier(x.Elem())
	}
	return false
}

func tracked(t types.Type) bool {
	return carrier(t) || isTimeT(t) || isPeriodT(t) || isErrType(t) || isBool(t) || listOfDates(t)
}

func isDateLike(t types.Type) bool { return carrier(t) || listOfDates(t) }

// top is the unknown value of a type.
func top(t types.Type) dabs { return dabs{date: isDateLike(t)} }

func zeroOf(t types.Type) dabs {
	if listOfDates(t) {
		return dabs{date: true, t: zN, p: zN, g: true, named: true} // no elements: every element is a real date
	}
	if isDateLike(t) {
		return dabs{date: true, t: zZ, p: zZ}
	}
	return dabs{t: zZ}
}

// cellOf resolves an address inside a local variable: part is "", "Time", "Period", "Locale" or "-" for
// a part that does not matter.
func cellOf(addr ssa.Value) (c dcell, part string, ok bool) {
	switch x := addr.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if tracked(t) || carrier(t) {
			return dcell{x, ""}, "", true
		}
		if _, isArr := t.Underlying().(*types.Array); isArr && listOfDates(t) {
			return dcell{x, ""}, "", true
		}
	case *ssa.IndexAddr:
		if al, isAl := x.X.(*ssa.Alloc); isAl {
			if t := al.Type().Underlying().(*types.Pointer).Elem(); listOfDates(t) {
				k := "?"
				if n, isC := constInt(x.Index); isC {
					k = itoa(int(n))
				}
				return dcell{al, "[" + k + "]"}, "", true
			}
		}
	case *ssa.FieldAddr:
		c, part, ok = cellOf(x.X)
		if !ok {
			return
		}
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		if part != "" {
			return c, "-", true
		}
		if isDateT(t) {
			_, n := fieldName(x)
			return c, n, true
		}
		if dateField(t) == x.Field {
			return c, "", true
		}
		return c, "-", true
	}
	return dcell{}, "", false
}

// escapes: the variable's address is used other than by loads, stores and field selection.
func cellEscapes(al *ssa.Alloc) bool {
	var bad func(v ssa.Value) bool
	bad = func(v ssa.Value) bool {
		for _, r := range refs(v) {
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef, *ssa.Slice:
			case *ssa.FieldAddr:
				if bad(x) {
					return true
				}
			case *ssa.IndexAddr:
				if bad(x) {
					return true
				}
			case *ssa.Store:
				if x.Val == v {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	return bad(al)
}

func (d *dateFlow) liveIn(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := d.live[f]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for k := len(f.Blocks) - 1; k >= 0; k-- {
			b := f.Blocks[k]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					cur[v] = true
				}
				for _, i := range s.Instrs {
					ph, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, ph)
				}
			}
			for _, s := range b.Succs {
				for pi, q := range s.Preds {
					if q != b {
						continue
					}
					for _, i := range s.Instrs {
						ph, ok := i.(*ssa.Phi)
						if !ok {
							break
						}
						cur[ph.Edges[pi]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				i := b.Instrs[j]
				if v, ok := i.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := i.(*ssa.Phi); ok {
					continue
				}
				for _, op := range i.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					ch = true
				}
			}
		}
	}
	d.live[f] = in
	return in
}

// run computes the outcomes of a function for the given abstract arguments.
func (d *dateFlow) run(f *ssa.Function, args []dabs, passed bool) []outcome {
	d.fns[f] = true
	key := fmt.Sprintf("%p%t", f, passed)
	for _, a := range args {
		key += "|" + a.key()
	}
	if o, ok := d.memo[key]; ok {
		return o
	}
	if d.busy[key] {
		var res []dabs
		for k := 0; k < f.Signature.Results().Len(); k++ {
			res = append(res, top(f.Signature.Results().At(k).Type()))
		}
		return []outcome{{res: res}}
	}
	d.busy[key] = true
	defer delete(d.busy, key)
	st := &dstate{vals: map[ssa.Value]dabs{}, cells: map[dcell]dabs{}, passed: passed}
	for k, pr := range f.Params {
		if k < len(args) && tracked(pr.Type()) {
			st.vals[pr] = args[k]
		}
	}
	outs := map[string]outcome{}
	type item struct {
		b, from *ssa.BasicBlock
		s       *dstate
	}
	seen := map[string]bool{}
	work := []item{{f.Blocks[0], nil, st}}
	live := d.liveIn(f)
	n := 0
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		n++
		if n > 60000 {
			d.problem = fnKey(f) + " has too many paths to follow"
			break
		}
		// phis
		if it.from != nil {
			upd := map[ssa.Value]dabs{}
			for _, i := range it.b.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				if !tracked(ph.Type()) {
					continue
				}
				for k, q := range it.b.Preds {
					if q == it.from {
						upd[ph] = d.eval(it.s, ph.Edges[k])
						break
					}
				}
			}
			for v, a := range upd {
				it.s.vals[v] = a
			}
			for c := range it.s.cells {
				if !live[it.b][c.root] {
					delete(it.s.cells, c)
				}
			}
			for v := range it.s.vals {
				if _, isPhi := v.(*ssa.Phi); isPhi && v.(*ssa.Phi).Block() == it.b {
					continue
				}
				if !live[it.b][v] {
					delete(it.s.vals, v)
				}
			}
		}
		k := fmt.Sprintf("%d:%s", it.b.Index, it.s.key())
		if seen[k] {
			continue
		}
		seen[k] = true
		states := []*dstate{it.s}
		for _, i := range it.b.Instrs {
			if _, ok := i.(*ssa.Phi); ok {
				continue
			}
			var next []*dstate
			for _, s := range states {
				next = append(next, d.step(s, i)...)
			}
			states = next
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		for _, s := range states {
			switch x := last.(type) {
			case *ssa.Return:
				var res []dabs
				for _, v := range x.Results {
					if tracked(v.Type()) {
						res = append(res, d.eval(s, v))
					} else {
						res = append(res, dabs{})
					}
				}
				o := outcome{res, x}
				outs[o.key()] = o
			case *ssa.If:
				c := d.eval(s, x.Cond)
				for k, su := range it.b.Succs {
					if c.t == zZ && k == 0 || c.t == zN && k == 1 {
						continue
					}
					work = append(work, item{su, it.b, s.clone()})
				}
			default:
				for _, su := range it.b.Succs {
					work = append(work, item{su, it.b, s.clone()})
				}
			}
		}
	}
	d.paths += n
	var out []outcome
	var ks []string
	for k := range outs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, outs[k])
	}
	d.memo[key] = out
	return out
}

func (d *dateFlow) eval(s *dstate, v ssa.Value) dabs {
	if a, ok := s.vals[v]; ok {
		return a
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOf(x.Type())
		}
		if b, ok := constBool(x); ok {
			if b {
				return dabs{t: zN}
			}
			return dabs{t: zZ}
		}
		if n, ok := constInt(x); ok {
			if n == 0 {
				return dabs{t: zZ}
			}
			return dabs{t: zN}
		}
	case *ssa.MakeInterface:
		if isErrType(x.Type()) {
			return dabs{t: zN}
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && isErrType(x.Type()) && d.p.initValue(g) != nil {
			return dabs{t: zN}
		}
	}
	return top(v.Type())
}

func (s *dstate) loadCell(c dcell, t types.Type) dabs {
	if a, ok := s.cells[c]; ok {
		return a
	}
	if c.idx == "" && listOfDates(c.root.Type().Underlying().(*types.Pointer).Elem()) {
		// a whole array: its elements together
		out, any := dabs{}, false
		for k, a := range s.cells {
			if k.root == c.root {
				if !any {
					out, any = a, true
				} else {
					out = joinAbs(out, a)
				}
			}
		}
		if any {
			return out
		}
	}
	return zeroOf(t)
}

// step executes one instruction; forks are returned as several states.
func (d *dateFlow) step(s *dstate, i ssa.Instruction) []*dstate {
	one := []*dstate{s}
	switch x := i.(type) {
	case *ssa.Alloc:
		for k := range s.cells {
			if k.root == x {
				delete(s.cells, k) // a new variable of the same name in the next round
			}
		}
	case *ssa.Store:
		c, part, ok := cellOf(x.Addr)
		if !ok {
			// an element of a list value
			if ia, isIA := elemAddr(x.Addr); isIA && listOfDates(ia.X.Type()) {
				if _, whole := x.Addr.(*ssa.IndexAddr); whole && carrier(x.Val.Type()) {
					old := d.eval(s, ia.X)
					s.vals[ia.X] = joinAbs(old, d.eval(s, x.Val))
				}
			}
			return one
		}
		if !tracked(x.Val.Type()) && part != "Locale" {
			return one
		}
		switch part {
		case "":
			s.cells[c] = d.eval(s, x.Val)
		case "Time", "Period":
			a := s.loadCell(c, x.Addr.Type().Underlying().(*types.Pointer).Elem())
			a.date = true
			v := d.eval(s, x.Val)
			if part == "Time" {
				if a.org == nil || !a.g {
					a.org = x
				}
				a.t = v.t
				a.g = a.g || v.g || s.passed
			} else {
				a.p = v.t
				if a.p == zU {
					a.p = zN
				}
			}
			s.cells[c] = a
		case "Locale":
			if d.localeName(x.Val) {
				a := s.loadCell(c, x.Addr.Type().Underlying().(*types.Pointer).Elem())
				a.date, a.named = true, true
				s.cells[c] = a
			}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			a := d.eval(s, x.X)
			switch a.t {
			case zZ:
				s.vals[x] = dabs{t: zN}
			case zN:
				s.vals[x] = dabs{t: zZ}
			}
		case token.MUL:
			if !tracked(x.Type()) {
				return one
			}
			c, part, ok := cellOf(x.X)
			var a dabs
			switch {
			case ok && cellEscapes(c.root):
				a = top(x.Type())
			case ok && part == "":
				a = s.loadCell(c, x.Type())
			case ok && (part == "Time" || part == "Period"):
				w := s.loadCell(c, x.X.Type())
				a = dabs{t: w.t, g: w.g}
				if part == "Period" {
					a = dabs{t: w.p}
				}
			default:
				if ia, isIA := elemAddr(x.X); isIA && listOfDates(ia.X.Type()) && carrier(x.Type()) {
					a = d.eval(s, ia.X)
					a.date = true
				} else {
					if e, isE := d.constEval(x); isE {
						s.vals[x] = e
						return one
					}
					a = top(x.Type())
				}
			}
			if a.zero() == zU && (isDateT(x.Type()) || dateField(x.Type()) >= 0 || isErrType(x.Type()) || isTimeT(x.Type())) {
				// fork, and remember in the variable which case it is
				n := s.clone()
				for k, st := range []*dstate{s, n} {
					b := a.withZero(uint8(zZ + k))
					st.vals[x] = b
					if ok && part == "" && !cellEscapes(c.root) {
						st.cells[c] = b
					}
				}
				return []*dstate{s, n}
			}
			s.vals[x] = a
		}
	case *ssa.Field:
		a := d.eval(s, x.X)
		t := x.X.Type()
		if isDateT(t) {
			switch _, n := fieldName(x); n {
			case "Time":
				s.vals[x] = dabs{t: a.t, g: a.g}
			case "Period":
				s.vals[x] = dabs{t: a.p}
			}
		} else if dateField(t) == x.Field {
			s.vals[x] = a
		}
	case *ssa.BinOp:
		d.compare(s, x)
	case *ssa.ChangeType:
		if tracked(x.Type()) {
			s.vals[x] = d.eval(s, x.X)
		}
	case *ssa.Slice:
		if listOfDates(x.Type()) {
			if al, ok := x.X.(*ssa.Alloc); ok {
				s.vals[x] = s.loadCell(dcell{al, ""}, x.Type())
			} else {
				s.vals[x] = d.eval(s, x.X)
			}
		}
	case *ssa.MakeSlice:
		if listOfDates(x.Type()) {
			s.vals[x] = zeroOf(x.Type()) // its elements are assigned one by one
		}
	case *ssa.MakeMap:
		if typeIs(x.Type(), modPath+"/internal/strutil", "Dict") {
			s.passed = false
		}
	case *ssa.Call:
		return d.call(s, x)
	case *ssa.Extract:
		if tracked(x.Type()) {
			if a, ok := s.vals[x.Tuple]; ok {
				_ = a
			}
		}
	}
	return one
}

// elemAddr is the element address an address points into.
func elemAddr(a ssa.Value) (*ssa.IndexAddr, bool) {
	for {
		switch x := a.(type) {
		case *ssa.IndexAddr:
			return x, true
		case *ssa.FieldAddr:
			t := x.X.Type().Underlying().(*types.Pointer).Elem()
			if dateField(t) != x.Field {
				return nil, false
			}
			a = x.X
		default:
			return nil, false
		}
	}
}

func (d *dateFlow) constEval(x *ssa.UnOp) (dabs, bool) {
	if g, ok := x.X.(*ssa.Global); ok && isErrType(x.Type()) && d.p.initValue(g) != nil {
		return dabs{t: zN}, true
	}
	return dabs{}, false
}

func (d *dateFlow) compare(s *dstate, x *ssa.BinOp) {
	if x.Op != token.EQL && x.Op != token.NEQ {
		return
	}
	a, b := x.X, x.Y
	if _, ok := a.(*ssa.Const); ok {
		a, b = b, a
	}
	c, ok := b.(*ssa.Const)
	if !ok || !tracked(a.Type()) {
		return
	}
	av := d.eval(s, a)
	cv := d.eval(s, c)
	z := av.zero()
	if z == zU || cv.zero() != zZ && !isBool(a.Type()) {
		return
	}
	eq := z == cv.zero()
	if eq == (x.Op == token.EQL) {
		s.vals[x] = dabs{t: zN}
	} else {
		s.vals[x] = dabs{t: zZ}
	}
}

func (d *dateFlow) localeName(v ssa.Value) bool {
	if c, ok := v.(*ssa.Const); ok {
		str, _ := constString(c)
		return str != ""
	}
	return true
}

// setResults records the results of a call in the state.
func setResults(s *dstate, x *ssa.Call, res []dabs) {
	if _, ok := x.Type().(*types.Tuple); !ok {
		if len(res) == 1 && tracked(x.Type()) {
			s.vals[x] = res[0]
		}
		return
	}
	for _, r := range refs(x) {
		if e, ok := r.(*ssa.Extract); ok && e.Index < len(res) && tracked(e.Type()) {
			s.vals[e] = res[e.Index]
		}
	}
}

func (s *dstate) gatePassed() {
	s.passed = true
	for k, v := range s.vals {
		if v.date || isTimeT(k.Type()) {
			v.g = true
			s.vals[k] = v
		}
	}
	for k, v := range s.cells {
		if v.date {
			v.g = true
			s.cells[k] = v
		}
	}
}

func (d *dateFlow) call(s *dstate, x *ssa.Call) []*dstate {
	c := x.Common()
	nm := calleeName(c)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch {
		case b.Name() == "append" && listOfDates(x.Type()):
			a := d.eval(s, c.Args[0])
			if len(c.Args) > 1 {
				a = joinAbs(a, d.eval(s, c.Args[1]))
			}
			s.vals[x] = a
		case (b.Name() == "min" || b.Name() == "max") && isPeriodT(x.Type()):
			s.vals[x] = dabs{t: zN}
		}
		return []*dstate{s}
	}
	// zero tests
	if f := c.StaticCallee(); f != nil && f.Name() == "IsZero" && len(c.Args) == 1 && (isDateT(c.Args[0].Type()) || isTimeT(c.Args[0].Type())) {
		switch d.eval(s, c.Args[0]).zero() {
		case zZ:
			s.vals[x] = dabs{t: zN}
		case zN:
			s.vals[x] = dabs{t: zZ}
		default:
			n := s.clone()
			y := c.Args[0]
			s.vals[y] = d.eval(s, y).withZero(zZ)
			n.vals[y] = d.eval(n, y).withZero(zN)
			s.vals[x], n.vals[x] = dabs{t: zN}, dabs{t: zZ}
			return []*dstate{s, n}
		}
		return []*dstate{s}
	}
	switch nm {
	case "time.Parse", "time.ParseInLocation":
		n := s.clone()
		cm := d.complete != nil && d.complete(c)
		setResults(s, x, []dabs{{t: zZ}, {t: zN}})
		setResults(n, x, []dabs{{t: zN, g: cm || n.passed}, {t: zZ}})
		return []*dstate{s, n}
	case "fmt.Errorf", "errors.New":
		s.vals[x] = dabs{t: zN}
		return []*dstate{s}
	}
	var inRepo []*ssa.Function
	ext := false
	for _, g := range d.p.callees(x) {
		if d.p.inRepo(g) && len(g.Blocks) > 0 {
			inRepo = append(inRepo, g)
		} else {
			ext = true
		}
	}
	// the check for missing parts
	for _, g := range inRepo {
		if d.gate[g] {
			k := errIndex(g.Signature)
			res := make([]dabs, g.Signature.Results().Len())
			for j := range res {
				res[j] = top(g.Signature.Results().At(j).Type())
			}
			n := s.clone()
			if k >= 0 {
				res[k] = dabs{t: zN}
				setResults(s, x, res)
				res[k] = dabs{t: zZ}
			} else {
				res[0] = dabs{t: zZ}
				setResults(s, x, res)
				res[0] = dabs{t: zN}
			}
			setResults(n, x, res)
			n.gatePassed()
			return []*dstate{s, n}
		}
	}
	interesting := false
	sig := c.Signature()
	for k := 0; k < sig.Results().Len(); k++ {
		if tracked(sig.Results().At(k).Type()) {
			interesting = true
		}
	}
	if !interesting {
		for _, g := range inRepo {
			if typeIs2(g.Signature, modPath+"/internal/strutil", "Dict") {
				s.passed = false
			}
		}
		return []*dstate{s}
	}
	if len(inRepo) == 0 || ext {
		// a method of time.Time keeps it real; anything else is unknown
		res := make([]dabs, sig.Results().Len())
		for k := range res {
			t := sig.Results().At(k).Type()
			res[k] = top(t)
			if isTimeT(t) && strings.HasPrefix(nm, "time.") {
				res[k] = dabs{t: zN, g: s.passed}
			}
			if isTimeT(t) && strings.HasPrefix(nm, "(time.Time).") && len(c.Args) > 0 {
				res[k] = d.eval(s, c.Args[0])
			}
		}
		if len(inRepo) == 0 {
			setResults(s, x, res)
			return d.forkErr(s, x, res)
		}
	}
	// only follow callees that deal in dates, times or the check; of the others only the error and
	// flags matter, which are unknown
	var out []*dstate
	seen := map[string]bool{}
	for _, g := range inRepo {
		if !d.relevant(g) {
			res := make([]dabs, sig.Results().Len())
			for k := range res {
				res[k] = top(sig.Results().At(k).Type())
			}
			n := s.clone()
			setResults(n, x, res)
			out = append(out, d.forkErr(n, x, res)...)
			continue
		}
		args := make([]dabs, len(g.Params))
		for k := range g.Params {
			if a := k; a < len(c.Args) && !c.IsInvoke() && tracked(c.Args[a].Type()) {
				args[k] = d.eval(s, c.Args[a])
				if !args[k].date {
					args[k].org = nil
				}
			} else {
				args[k] = top(g.Params[k].Type())
			}
		}
		for _, o := range d.run(g, args, s.passed) {
			n := s.clone()
			res := append([]dabs{}, o.res...)
			for k := range res {
				if res[k].date && res[k].zero() != zZ && d.needs != nil && d.needs(x) && !res[k].named {
					res[k].need = true
				}
			}
			setResults(n, x, res)
			if ks := n.key(); !seen[ks] {
				seen[ks] = true
				out = append(out, n)
			}
		}
	}
	return out
}

func typeIs2(sig *types.Signature, pkg, name string) bool {
	for k := 0; k < sig.Results().Len(); k++ {
		if typeIs(sig.Results().At(k).Type(), pkg, name) {
			return true
		}
	}
	return false
}

// forkErr splits an unknown error result into nil and non-nil.
func (d *dateFlow) forkErr(s *dstate, x *ssa.Call, res []dabs) []*dstate {
	k := errIndex(x.Call.Signature())
	if k < 0 {
		return []*dstate{s}
	}
	n := s.clone()
	a := append([]dabs{}, res...)
	a[k] = dabs{t: zZ}
	setResults(s, x, a)
	b := append([]dabs{}, res...)
	b[k] = dabs{t: zN}
	setResults(n, x, b)
	return []*dstate{s, n}
}

// relevant: the function's results are dates, times or periods, or it performs the check for missing parts.
func (d *dateFlow) relevant(g *ssa.Function) bool {
	for k := 0; k < g.Signature.Results().Len(); k++ {
		t := g.Signature.Results().At(k).Type()
		if isDateLike(t) || isTimeT(t) || isPeriodT(t) {
			return true
		}
	}
	for k := 0; k < g.Signature.Params().Len(); k++ {
		if t := g.Signature.Params().At(k).Type(); isDateLike(t) || isTimeT(t) {
			return true
		}
	}
	return d.callsGate(g, 0)
}

func (d *dateFlow) callsGate(g *ssa.Function, depth int) bool {
	if depth > 3 || len(d.gate) == 0 {
		return false
	}
	hit := false
	eachInstr(g, func(i ssa.Instruction) {
		if c := callOf(i); c != nil && !hit {
			if f := c.StaticCallee(); f != nil && d.p.inRepo(f) {
				hit = d.gate[f] || d.callsGate(f, depth+1)
			}
		}
	})
	return hit
}
