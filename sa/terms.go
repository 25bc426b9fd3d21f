package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A pathSummary is one acyclic path through a function: the branch outcomes, the engine/library calls made
// for effect or value, and the returned terms, all in terms of the parameters.
type pathSummary struct {
	Guards  []string
	Returns []string
	Calls   []string // non-inlined calls in order
	Panics  bool
}

type termEnv struct {
	params  map[*ssa.Parameter]string
	pred    map[*ssa.BasicBlock]*ssa.BasicBlock // predecessor of each block on the path
	blocks  map[*ssa.BasicBlock]int             // order on the path
	memo    map[ssa.Value]string
	rename  func(pkg string) string
	depth   int
	p       *Prog
	calls   *[]string
	failed  *string
	inlined map[ssa.Value][]string
}

func acyclicPaths(f *ssa.Function, max int) ([][]*ssa.BasicBlock, bool) {
	var out [][]*ssa.BasicBlock
	ok := true
	var walk func(b *ssa.BasicBlock, path []*ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock, path []*ssa.BasicBlock) {
		for _, x := range path {
			if x == b {
				ok = false
				return
			}
		}
		path = append(append([]*ssa.BasicBlock{}, path...), b)
		if len(b.Succs) == 0 {
			out = append(out, path)
			if len(out) > max {
				ok = false
			}
			return
		}
		if len(out) > max {
			return
		}
		for _, s := range b.Succs {
			walk(s, path)
		}
	}
	if len(f.Blocks) > 0 {
		walk(f.Blocks[0], nil)
	}
	return out, ok
}

func shortPkg(path string) string {
	if isRepoPath(path) {
		return strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	}
	return path
}

// summarise enumerates the acyclic paths of f. ok is false when f has a loop or too many paths.
func (p *Prog) summarise(f *ssa.Function, args []string, rename func(string) string, depth int) ([]pathSummary, bool) {
	paths, ok := acyclicPaths(f, 64)
	if !ok || depth > 6 {
		return nil, false
	}
	var out []pathSummary
	for _, path := range paths {
		var ps pathSummary
		var failed string
		env := &termEnv{params: map[*ssa.Parameter]string{}, pred: map[*ssa.BasicBlock]*ssa.BasicBlock{}, blocks: map[*ssa.BasicBlock]int{}, memo: map[ssa.Value]string{}, rename: rename, depth: depth, p: p, failed: &failed}
		var calls []string
		env.calls = &calls
		for i, prm := range f.Params {
			if args != nil {
				env.params[prm] = args[i]
			} else {
				env.params[prm] = fmt.Sprintf("p%d", i)
			}
		}
		for i, b := range path {
			env.blocks[b] = i
			if i > 0 {
				env.pred[b] = path[i-1]
			}
		}
		for i, b := range path {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					env.term(x)
				case *ssa.If:
					if i+1 < len(path) && b.Succs[0] != b.Succs[1] {
						g := env.guard(x.Cond, path[i+1] == b.Succs[0])
						if g != "" {
							ps.Guards = append(ps.Guards, g)
						}
					}
				case *ssa.Return:
					for _, rv := range x.Results {
						ps.Returns = append(ps.Returns, env.term(rv))
					}
				case *ssa.Panic:
					ps.Panics = true
				case *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.MapUpdate, *ssa.Send:
					failed = fmt.Sprintf("%T", in)
				}
			}
		}
		if failed != "" {
			return nil, false
		}
		ps.Calls = calls
		sort.Strings(ps.Guards)
		out = append(out, ps)
	}
	return out, true
}

func (e *termEnv) guard(c ssa.Value, val bool) string {
	for {
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
			c, val = u.X, !val
			continue
		}
		if ph, ok := c.(*ssa.Phi); ok {
			if pr := e.pred[ph.Block()]; pr != nil {
				for i, q := range ph.Block().Preds {
					if q == pr {
						c = ph.Edges[i]
					}
				}
				if c != ssa.Value(ph) {
					continue
				}
			}
		}
		break
	}
	if _, ok := constBool(c); ok {
		return ""
	}
	if b, ok := c.(*ssa.BinOp); ok {
		x, y := e.term(b.X), e.term(b.Y)
		op := b.Op
		if op == token.NEQ {
			op, val = token.EQL, !val
		}
		if op == token.EQL && y < x {
			x, y = y, x
		}
		return fmt.Sprintf("(%s %s %s)=%v", x, op, y, val)
	}
	return fmt.Sprintf("%s=%v", e.term(c), val)
}

func (e *termEnv) term(v ssa.Value) string {
	if s, ok := e.memo[v]; ok {
		return s
	}
	e.memo[v] = "?rec"
	s := e.term1(v)
	e.memo[v] = s
	return s
}

func (e *termEnv) typeName(t types.Type) string {
	return types.TypeString(t, func(q *types.Package) string { return e.rename(q.Path()) })
}

func (e *termEnv) term1(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return e.params[x]
	case *ssa.Const:
		if x.Value == nil {
			return "zero"
		}
		return x.Value.ExactString()
	case *ssa.Phi:
		if pr := e.pred[x.Block()]; pr != nil {
			for i, q := range x.Block().Preds {
				if q == pr {
					return e.term(x.Edges[i])
				}
			}
		}
		*e.failed = "phi"
		return "?"
	case *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface:
		return e.term(*v.(ssa.Instruction).Operands(nil)[0])
	case *ssa.Extract:
		if rs, ok := e.inl(x.Tuple); ok && x.Index < len(rs) {
			return rs[x.Index]
		}
		return fmt.Sprintf("%s#%d", e.term(x.Tuple), x.Index)
	case *ssa.Call:
		return e.call(x)
	case *ssa.FieldAddr:
		_, n := fieldName(x)
		return "&" + e.term(x.X) + "." + n
	case *ssa.Field:
		_, n := fieldName(x)
		return e.term(x.X) + "." + n
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				_, n := fieldName(fa)
				if al, ok := fa.X.(*ssa.Alloc); ok {
					return e.allocField(al, fa.Field, n)
				}
				return e.term(fa.X) + "." + n
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				return e.allocValue(al)
			}
			return "*" + e.term(x.X)
		}
		return x.Op.String() + e.term(x.X)
	case *ssa.BinOp:
		return "(" + e.term(x.X) + " " + x.Op.String() + " " + e.term(x.Y) + ")"
	case *ssa.Alloc:
		return "&" + e.allocValue(x)
	case *ssa.Global:
		return "&" + e.rename(x.Pkg.Pkg.Path()) + "." + x.Name()
	case *ssa.Function:
		return "func " + x.RelString(nil)
	case *ssa.Convert:
		return "conv:" + e.typeName(x.Type()) + "(" + e.term(x.X) + ")"
	}
	*e.failed = fmt.Sprintf("%T", v)
	return "?"
}

// allocValue renders a struct built by field stores on the path, or the single stored value.
func (e *termEnv) allocValue(al *ssa.Alloc) string {
	st, isStruct := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	vals := map[string]string{}
	whole := ""
	for _, ref := range *al.Referrers() {
		switch y := ref.(type) {
		case *ssa.Store:
			if y.Addr == al {
				if _, on := e.blocks[y.Block()]; on {
					if whole != "" {
						*e.failed = "several stores"
					}
					whole = e.term(y.Val)
				}
			}
		case *ssa.FieldAddr:
			_, n := fieldName(y)
			for _, r2 := range *y.Referrers() {
				if s, ok := r2.(*ssa.Store); ok && s.Addr == y {
					if _, on := e.blocks[s.Block()]; on {
						vals[n] = e.term(s.Val)
					}
				}
			}
		}
	}
	if whole != "" && len(vals) == 0 {
		return whole
	}
	if !isStruct {
		if whole == "" {
			return "zero"
		}
		return whole
	}
	var parts []string
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		if s, ok := vals[n]; ok && s != "zero" {
			parts = append(parts, n+":"+s)
		}
	}
	return e.typeName(al.Type().Underlying().(*types.Pointer).Elem()) + "{" + strings.Join(parts, ",") + "}"
}

func (e *termEnv) allocField(al *ssa.Alloc, field int, name string) string {
	got := ""
	for _, ref := range *al.Referrers() {
		switch y := ref.(type) {
		case *ssa.FieldAddr:
			if y.Field != field {
				continue
			}
			for _, r2 := range *y.Referrers() {
				if s, ok := r2.(*ssa.Store); ok && s.Addr == y {
					if _, on := e.blocks[s.Block()]; on {
						if got != "" {
							*e.failed = "several stores"
						}
						got = e.term(s.Val)
					}
				}
			}
		case *ssa.Store:
			if y.Addr == al {
				if _, on := e.blocks[y.Block()]; on && got == "" {
					got = e.term(y.Val) + "." + name
				}
			}
		}
	}
	if got == "" {
		return "zero"
	}
	return got
}

// inl returns the result terms of an inlined repository call.
func (e *termEnv) inl(v ssa.Value) ([]string, bool) {
	e.term(v)
	rs, ok := e.inlined[v]
	return rs, ok
}

func (e *termEnv) call(x *ssa.Call) string {
	c := x.Common()
	var args []string
	if c.IsInvoke() {
		args = append(args, e.term(c.Value))
	}
	for _, a := range c.Args {
		args = append(args, e.term(a))
	}
	if f := c.StaticCallee(); f != nil && e.p.inRepo(f) && len(f.Blocks) > 0 {
		if ss, ok := e.p.summarise(f, args, e.rename, e.depth+1); ok && len(ss) == 1 {
			*e.calls = append(*e.calls, ss[0].Calls...)
			if e.inlined == nil {
				e.inlined = map[ssa.Value][]string{}
			}
			e.inlined[x] = ss[0].Returns
			if len(ss[0].Returns) == 1 {
				return ss[0].Returns[0]
			}
			return "tuple(" + strings.Join(ss[0].Returns, ",") + ")"
		}
	}
	name := ""
	if f := c.StaticCallee(); f != nil {
		name = f.Name()
		if f.Signature.Recv() != nil {
			name = "method " + name
		}
		name = e.rename(pkgOf(f)) + ":" + name
	} else if c.IsInvoke() {
		name = "invoke " + c.Method.Name()
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		name = "builtin:" + b.Name()
	} else {
		name = "dyn " + e.term(c.Value)
	}
	s := name + "(" + strings.Join(args, ",") + ")"
	if !strings.HasPrefix(name, "builtin:len") && !strings.HasPrefix(name, "builtin:cap") {
		*e.calls = append(*e.calls, s)
	}
	return s
}
