package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Field-sensitive, inclusion-based (Andersen) points-to analysis over the repository's own functions.
//
// Objects are allocation sites, package variables, functions, and symbolic objects for what the caller
// owns. Struct values held in registers are tracked field by field. Standard-library and third-party
// functions are modelled (see ptExternal).

type objKind int

const (
	objAlloc objKind = iota
	objGlobal
	objCaller // memory owned by the caller (configuration, slices, callback results)
	objParser // a *Parser value
	objData   // a built-in locale table (collapsed)
	objFunc
	objExtern // result of a standard-library or third-party call
)

type ptObj struct {
	id   int
	kind objKind
	name string
	site ssa.Instruction
	glob *ssa.Global
	coll bool       // one node for all its content
	typ  types.Type // content type, when known
	fn   *ssa.Function
	ctx  ptCtx
	made string // external function that produced it
}

func (o *ptObj) String() string { return o.name }

type ptLoc struct {
	o    *ptObj
	path string
}

// A ptCtx is an analysis context: the last call sites that led to the function, and whether the chain
// started in a package initialiser.
type ptCtx struct {
	init  bool
	sites [ptK]ssa.CallInstruction
}

const ptK = 2

// inst is a function analysed in one context.
type inst struct {
	f *ssa.Function
	c ptCtx
}

type ptNodeKey struct {
	v    any // ssa.Value, *ptObj or a tuple key
	c    ptCtx
	path string
}

type ptWrite struct {
	instr ssa.Instruction
	c     ptCtx
	node  int    // pointer node whose targets are written
	sfx   string // path below the target ("" = the whole target)
	what  string
	typ   types.Type // type of what is written (nil: unknown)
}

type ptAccess = ptWrite

type loadC struct {
	sfx string
	dst int
}
type offC struct {
	sfx string
	dst int
}

type pointsTo struct {
	p      *Prog
	nodes  map[ptNodeKey]int
	keys   []ptNodeKey
	pts    []map[ptLoc]bool
	copyTo []map[int]bool
	loads  [][]loadC
	stores [][]loadC // store src node into target+sfx : dst field holds the source node
	offs   [][]offC
	delta  []map[ptLoc]bool
	work   []int
	inWork []bool

	objs    []*ptObj
	byKey   map[any]*ptObj
	writes  []ptWrite
	reads   []ptAccess
	fns     []*ssa.Function
	inScope map[*ssa.Function]bool
	rets    map[*ssa.Function][]*ssa.Return
	calls   int
	cur     ptCtx
	insts   map[inst]bool
	queue   []inst
	byVal   map[ssa.Value][]int
	dyn     []dynCall
	prune   func(b *ssa.BasicBlock, k int) bool
}

// Types whose values cannot be modified through any of their operations.
func immutableType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isNamed := types.Unalias(t).(*types.Named); !isNamed {
			t = p.Elem()
		}
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	pk, nm := n.Obj().Pkg().Path(), n.Obj().Name()
	switch pk {
	case "time":
		return nm == "Time" || nm == "Location" || nm == "Month" || nm == "Weekday" || nm == "Duration"
	case "regexp", "github.com/wasilibs/go-re2":
		return nm == "Regexp"
	case "unicode":
		return false
	case "reflect":
		return true
	case "sync":
		return true
	case "strings":
		return nm == "Replacer"
	}
	return false
}

type leaf struct {
	path string
	typ  types.Type
}

var leafCache = map[types.Type][]leaf{}

// leaves lists the pointer-like components stored by value inside a value of type t.
func leaves(t types.Type) []leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	leafCache[t] = nil
	var out []leaf
	if immutableType(t) {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		if _, isErr := t.(*types.Named); isErr && isErrType(t) {
			break
		}
		out = append(out, leaf{"", t})
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			out = append(out, leaf{"", t})
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				out = append(out, leaf{fmt.Sprintf(".%d%s", i, l.path), l.typ})
			}
		}
	case *types.Array:
		for _, l := range leaves(u.Elem()) {
			out = append(out, leaf{"[]" + l.path, l.typ})
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				out = append(out, leaf{fmt.Sprintf("#%d%s", i, l.path), l.typ})
			}
		}
	}
	leafCache[t] = out
	return out
}

// dynCall is a call of a function value in one context.
type dynCall struct {
	ci ssa.CallInstruction
	c  ptCtx
}

func (a *pointsTo) node(v any, path string) int {
	c := a.cur
	switch x := v.(type) {
	case *ptObj:
		c = ptCtx{}
		if x.coll {
			path = ""
		}
	case *ssa.FreeVar, *ssa.Global, *ssa.Function, *ssa.Const, *ssa.Builtin:
		c = ptCtx{}
	}
	k := ptNodeKey{v, c, path}
	if n, ok := a.nodes[k]; ok {
		return n
	}
	n := len(a.pts)
	a.nodes[k] = n
	a.keys = append(a.keys, k)
	if sv, ok := v.(ssa.Value); ok {
		a.byVal[sv] = append(a.byVal[sv], n)
	}
	a.pts = append(a.pts, map[ptLoc]bool{})
	a.delta = append(a.delta, map[ptLoc]bool{})
	a.copyTo = append(a.copyTo, nil)
	a.loads = append(a.loads, nil)
	a.stores = append(a.stores, nil)
	a.offs = append(a.offs, nil)
	a.inWork = append(a.inWork, false)
	if o, ok := v.(*ptObj); ok && o.coll {
		a.addLoc(n, ptLoc{o, ""})
	}
	return n
}

// val is the node of a component of an SSA value.
func (a *pointsTo) val(v ssa.Value, path string) int {
	switch x := v.(type) {
	case *ssa.Global:
		n := a.node(v, path)
		a.addLoc(n, ptLoc{a.globObj(x), ""})
		return n
	case *ssa.Function:
		n := a.node(v, path)
		a.addLoc(n, ptLoc{a.funcObj(x), ""})
		return n
	}
	return a.node(v, path)
}

func (a *pointsTo) addLoc(n int, l ptLoc) {
	if l.o.coll {
		l.path = ""
	}
	if a.pts[n][l] {
		return
	}
	a.pts[n][l] = true
	a.delta[n][l] = true
	if !a.inWork[n] {
		a.inWork[n] = true
		a.work = append(a.work, n)
	}
}

func (a *pointsTo) copyEdge(from, to int) {
	if from == to {
		return
	}
	if a.copyTo[from] == nil {
		a.copyTo[from] = map[int]bool{}
	}
	if a.copyTo[from][to] {
		return
	}
	a.copyTo[from][to] = true
	for l := range a.pts[from] {
		a.addLoc(to, l)
	}
}

func (a *pointsTo) load(ptr int, sfx string, dst int) {
	c := loadC{sfx, dst}
	a.loads[ptr] = append(a.loads[ptr], c)
	for l := range a.pts[ptr] {
		a.copyEdge(a.node(l.o, l.path+sfx), dst)
	}
}

func (a *pointsTo) store(ptr int, sfx string, src int) {
	c := loadC{sfx, src}
	a.stores[ptr] = append(a.stores[ptr], c)
	for l := range a.pts[ptr] {
		a.copyEdge(src, a.node(l.o, l.path+sfx))
	}
}

func (a *pointsTo) offset(ptr int, sfx string, dst int) {
	a.offs[ptr] = append(a.offs[ptr], offC{sfx, dst})
	for l := range a.pts[ptr] {
		a.addLoc(dst, ptLoc{l.o, l.path + sfx})
	}
}

func (a *pointsTo) solve() {
	for len(a.work) > 0 {
		n := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		a.inWork[n] = false
		d := a.delta[n]
		a.delta[n] = map[ptLoc]bool{}
		for l := range d {
			for _, c := range a.loads[n] {
				a.copyEdge(a.node(l.o, l.path+c.sfx), c.dst)
			}
			for _, c := range a.stores[n] {
				a.copyEdge(c.dst, a.node(l.o, l.path+c.sfx))
			}
			for _, c := range a.offs[n] {
				a.addLoc(c.dst, ptLoc{l.o, l.path + c.sfx})
			}
			for t := range a.copyTo[n] {
				a.addLoc(t, l)
			}
		}
	}
}

func (a *pointsTo) newObj(key any, kind objKind, name string) *ptObj {
	if o := a.byKey[key]; o != nil {
		return o
	}
	o := &ptObj{id: len(a.objs), kind: kind, name: name}
	a.objs = append(a.objs, o)
	a.byKey[key] = o
	return o
}

func (a *pointsTo) globObj(g *ssa.Global) *ptObj {
	if o := a.byKey[g]; o != nil {
		return o
	}
	path := ""
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	}
	kind := objGlobal
	o := a.newObj(g, kind, strings.TrimPrefix(strings.ReplaceAll(path, modPath, ""), "/")+"."+g.Name())
	o.glob = g
	o.typ = g.Type().Underlying().(*types.Pointer).Elem()
	if !isRepoPath(path) || path == repoPkg("internal/data") {
		o.coll = true
		if isRepoPath(path) {
			o.kind = objData
		}
	}
	return o
}

func (a *pointsTo) funcObj(f *ssa.Function) *ptObj {
	o := a.newObj(f, objFunc, fnKey(f))
	o.fn = f
	o.coll = true
	return o
}

// alloc is the object allocated by an instruction (kind distinguishes several per instruction).
func (a *pointsTo) alloc(i ssa.Instruction, tag string, t types.Type) *ptObj {
	type key struct {
		i   ssa.Instruction
		c   ptCtx
		tag string
	}
	o := a.newObj(key{i, a.cur, tag}, objAlloc, fnKey(i.Parent())+" "+a.p.instrPos(i))
	o.site = i
	o.ctx = a.cur
	if o.typ == nil {
		o.typ = t
	}
	return o
}

type extKey struct {
	i   ssa.Instruction
	idx int
}

// callerObj is memory handed in by the user of the library.
func (a *pointsTo) callerObj(key any, name string) *ptObj {
	o := a.newObj(key, objCaller, name)
	o.coll = true
	return o
}

func (a *pointsTo) copyValue(src, dst ssa.Value, t types.Type) {
	for _, l := range leaves(t) {
		a.copyEdge(a.val(src, l.path), a.val(dst, l.path))
	}
}

// deadBlocks under the pruning function.
func liveBlocks(f *ssa.Function, prune func(b *ssa.BasicBlock, k int) bool) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	push := func(b *ssa.BasicBlock) {
		if !live[b] {
			live[b] = true
			st = append(st, b)
		}
	}
	if len(f.Blocks) == 0 {
		return live
	}
	push(f.Blocks[0])
	if f.Recover != nil {
		push(f.Recover)
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		for k, s := range b.Succs {
			if prune != nil && prune(b, k) {
				continue
			}
			push(s)
		}
	}
	return live
}

// pointsToOf runs the analysis; scope is every repository function reachable from the entry points plus
// the package initialisers (except the generated tables of internal/data, whose tables are single objects).
func (p *Prog) pointsToOf() *pointsTo {
	if p.pts != nil {
		return p.pts
	}
	a := &pointsTo{p: p, insts: map[inst]bool{}, byVal: map[ssa.Value][]int{}, nodes: map[ptNodeKey]int{}, byKey: map[any]*ptObj{}, inScope: map[*ssa.Function]bool{}, rets: map[*ssa.Function][]*ssa.Return{}}
	p.pts = a
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if a.inScope[f] || len(f.Blocks) == 0 {
			return
		}
		a.inScope[f] = true
		a.fns = append(a.fns, f)
	}
	for _, f := range p.reachableRepo() {
		if isInitFn(f) && pkgOf(f) == repoPkg("internal/data") {
			continue
		}
		add(f)
	}
	// package initialisers and what they call
	var inits []*ssa.Function
	for _, f := range p.fnSrc {
		if isInitFn(f) && pkgOf(f) != repoPkg("internal/data") {
			inits = append(inits, f)
		}
	}
	for f := range p.reachFrom(inits) {
		if p.inRepo(f) && !(isInitFn(f) && pkgOf(f) == repoPkg("internal/data")) {
			add(f)
		}
	}
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if r, ok := i.(*ssa.Return); ok {
					a.rets[f] = append(a.rets[f], r)
				}
			}
		}
	}
	// entry points and package initialisers are the roots
	for _, f := range p.entryPoints() {
		a.cur = ptCtx{}
		for k, pr := range f.Params {
			a.seedParam(f, k, pr)
		}
		a.enqueue(inst{f, ptCtx{}})
	}
	for _, f := range inits {
		a.enqueue(inst{f, ptCtx{init: true}})
	}
	a.drain()
	// what a callback of the caller returns belongs to the caller
	done := map[dynCall]bool{}
	for ch := true; ch; {
		ch = false
		for _, d := range a.dyn {
			if done[d] {
				continue
			}
			a.cur = d.c
			for l := range a.pts[a.val(d.ci.Common().Value, "")] {
				if l.o.kind != objCaller {
					continue
				}
				done[d] = true
				ch = true
				if res := d.ci.Value(); res != nil {
					o := a.callerObj("callback result", "the result of the caller's callback")
					for _, lf := range leaves(res.Type()) {
						a.addLoc(a.val(res, lf.path), ptLoc{o, ""})
					}
				}
				break
			}
		}
		a.solve()
	}
	return a
}

func (a *pointsTo) enqueue(n inst) {
	if a.insts[n] || len(n.f.Blocks) == 0 {
		return
	}
	a.insts[n] = true
	a.queue = append(a.queue, n)
}

func (a *pointsTo) drain() {
	for len(a.queue) > 0 {
		n := a.queue[0]
		a.queue = a.queue[1:]
		a.cur = n.c
		for _, b := range n.f.Blocks {
			for _, i := range b.Instrs {
				a.instr(i)
			}
		}
	}
	a.solve()
}

func (a *pointsTo) parserObj() *ptObj {
	o := a.newObj("the parser", objParser, "the parser")
	if o.typ == nil {
		n := a.p.named("", "Parser")
		if n == nil {
			fatal("type Parser not found")
		}
		o.typ = n
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Exported() || f.Embedded() {
				continue
			}
			for _, l := range leaves(f.Type()) {
				c := a.callerObj("parser field "+f.Name(), "the caller's "+f.Name())
				a.addLoc(a.node(o, fmt.Sprintf(".%d%s", i, l.path)), ptLoc{c, ""})
			}
		}
	}
	return o
}

func (a *pointsTo) seedParam(f *ssa.Function, k int, pr *ssa.Parameter) {
	if typeIs(pr.Type(), modPath, "Parser") {
		a.addLoc(a.val(pr, ""), ptLoc{a.parserObj(), ""})
		return
	}
	for _, l := range leaves(pr.Type()) {
		name := "the caller's " + pr.Name()
		if typeIs(pr.Type(), modPath, "Configuration") {
			name = "the caller's configuration"
		}
		c := a.callerObj(name, name)
		a.addLoc(a.val(pr, l.path), ptLoc{c, ""})
	}
}

func (a *pointsTo) write(i ssa.Instruction, ptr int, sfx, what string, t types.Type) {
	a.writes = append(a.writes, ptWrite{i, a.cur, ptr, sfx, what, t})
}

func (a *pointsTo) read(i ssa.Instruction, ptr int, sfx, what string, t types.Type) {
	a.reads = append(a.reads, ptAccess{i, a.cur, ptr, sfx, what, t})
}

// overwritten: the whole-struct store st into a local variable is followed, in the same block and before
// any other use of the variable, by a store to the given component.
func overwritten(st *ssa.Store, path string) bool {
	al, ok := st.Addr.(*ssa.Alloc)
	if !ok || !strings.HasPrefix(path, ".") {
		return false
	}
	top := path[1:]
	if k := strings.IndexAny(top, ".["); k >= 0 {
		top = top[:k]
	}
	b := st.Block()
	for k := instrIndex(st) + 1; k < len(b.Instrs); k++ {
		switch x := b.Instrs[k].(type) {
		case *ssa.FieldAddr:
			if x.X != al {
				continue
			}
			for _, r := range refs(x) {
				if _, ok := r.(*ssa.Store); !ok {
					if fmt.Sprint(x.Field) == top {
						return false // read (or address taken) before it is replaced
					}
				}
			}
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(al) && fmt.Sprint(fa.Field) == top {
				return true
			}
			if x.Val == ssa.Value(al) {
				return false
			}
		case *ssa.UnOp:
			if x.X == ssa.Value(al) {
				return false
			}
		case ssa.CallInstruction:
			for _, ar := range x.Common().Args {
				if ar == ssa.Value(al) {
					return false
				}
			}
		}
	}
	return false
}

func (a *pointsTo) instr(i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.Alloc:
		o := a.alloc(x, "", x.Type().Underlying().(*types.Pointer).Elem())
		if x.Parent() != nil && typeIs(x.Type(), modPath, "Parser") {
			o = a.parserObj()
		}
		a.addLoc(a.val(x, ""), ptLoc{o, ""})
	case *ssa.MakeSlice:
		a.addLoc(a.val(x, ""), ptLoc{a.alloc(x, "", nil), ""})
	case *ssa.MakeMap:
		a.addLoc(a.val(x, ""), ptLoc{a.alloc(x, "", nil), ""})
	case *ssa.MakeChan:
		a.addLoc(a.val(x, ""), ptLoc{a.alloc(x, "", nil), ""})
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		a.addLoc(a.val(x, ""), ptLoc{a.funcObj(fn), ""})
		for k, b := range x.Bindings {
			a.copyValue(b, fn.FreeVars[k], b.Type())
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.copyValue(e, x, x.Type())
		}
	case *ssa.ChangeType:
		a.copyValue(x.X, x, x.Type())
	case *ssa.Convert:
		// []byte(s), string(b): fresh memory
		if len(leaves(x.Type())) > 0 {
			a.addLoc(a.val(x, ""), ptLoc{a.alloc(x, "", nil), ""})
			if len(leaves(x.X.Type())) > 0 && !isString(x.X.Type()) {
				a.copyValue(x.X, x, x.Type())
			}
		}
	case *ssa.ChangeInterface:
		a.copyIface(x.X, x)
	case *ssa.MakeInterface:
		a.copyValue(x.X, x, x.X.Type())
	case *ssa.TypeAssert:
		t := x.AssertedType
		for _, l := range leaves(t) {
			pre := ""
			if x.CommaOk {
				pre = "#0"
			}
			a.copyEdge(a.val(x.X, l.path), a.val(x, pre+l.path))
		}
	case *ssa.SliceToArrayPointer:
		a.copyEdge(a.val(x.X, ""), a.val(x, ""))
	case *ssa.Slice:
		if isString(x.X.Type()) {
			return
		}
		a.copyEdge(a.val(x.X, ""), a.val(x, ""))
	case *ssa.FieldAddr:
		a.offset(a.val(x.X, ""), fmt.Sprintf(".%d", x.Field), a.val(x, ""))
	case *ssa.Field:
		for _, l := range leaves(x.Type()) {
			a.copyEdge(a.val(x.X, fmt.Sprintf(".%d%s", x.Field, l.path)), a.val(x, l.path))
		}
	case *ssa.IndexAddr:
		a.offset(a.val(x.X, ""), "[]", a.val(x, ""))
	case *ssa.Index:
		if isString(x.X.Type()) {
			return
		}
		for _, l := range leaves(x.Type()) {
			a.copyEdge(a.val(x.X, "[]"+l.path), a.val(x, l.path))
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			if x.Op == token.ARROW {
				for _, l := range leaves(x.Type()) {
					a.load(a.val(x.X, ""), "[]"+l.path, a.val(x, l.path))
				}
			}
			return
		}
		a.read(x, a.val(x.X, ""), "", "reads", x.Type())
		for _, l := range leaves(x.Type()) {
			a.load(a.val(x.X, ""), l.path, a.val(x, l.path))
		}
	case *ssa.Store:
		a.write(x, a.val(x.Addr, ""), "", "assigns", x.Val.Type())
		for _, l := range leaves(x.Val.Type()) {
			if l.path != "" && overwritten(x, l.path) {
				continue
			}
			a.store(a.val(x.Addr, ""), l.path, a.val(x.Val, l.path))
		}
	case *ssa.MapUpdate:
		a.write(x, a.val(x.Map, ""), "", "puts an entry into", nil)
		for _, l := range leaves(x.Key.Type()) {
			a.store(a.val(x.Map, ""), "[k]"+l.path, a.val(x.Key, l.path))
		}
		for _, l := range leaves(x.Value.Type()) {
			a.store(a.val(x.Map, ""), "[v]"+l.path, a.val(x.Value, l.path))
		}
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			return
		}
		a.read(x, a.val(x.X, ""), "", "looks up", nil)
		m := x.X.Type().Underlying().(*types.Map)
		pre := ""
		if x.CommaOk {
			pre = "#0"
		}
		for _, l := range leaves(m.Elem()) {
			a.load(a.val(x.X, ""), "[v]"+l.path, a.val(x, pre+l.path))
		}
	case *ssa.Range:
		if !isString(x.X.Type()) {
			a.read(x, a.val(x.X, ""), "", "ranges over", nil)
			a.copyEdge(a.val(x.X, ""), a.val(x, ""))
		}
	case *ssa.Next:
		if x.IsString {
			return
		}
		rg, ok := x.Iter.(*ssa.Range)
		if !ok {
			return
		}
		m, ok := rg.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		a.read(x, a.val(rg, ""), "", "ranges over", nil)
		for _, l := range leaves(m.Key()) {
			a.load(a.val(rg, ""), "[k]"+l.path, a.val(x, "#1"+l.path))
		}
		for _, l := range leaves(m.Elem()) {
			a.load(a.val(rg, ""), "[v]"+l.path, a.val(x, "#2"+l.path))
		}
	case *ssa.Extract:
		for _, l := range leaves(x.Type()) {
			a.copyEdge(a.val(x.Tuple, fmt.Sprintf("#%d%s", x.Index, l.path)), a.val(x, l.path))
		}
	case *ssa.Send:
		for _, l := range leaves(x.X.Type()) {
			a.store(a.val(x.Chan, ""), "[]"+l.path, a.val(x.X, l.path))
		}
	case ssa.CallInstruction:
		a.call(x)
	}
}

func (a *pointsTo) copyIface(src, dst ssa.Value) {
	// every component known for src so far is unknown statically: copy the common shapes
	a.copyEdge(a.val(src, ""), a.val(dst, ""))
}

func (a *pointsTo) call(ci ssa.CallInstruction) {
	a.calls++
	c := ci.Common()
	res := ci.Value()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		a.builtin(ci, b.Name(), c.Args, res)
		return
	}
	callees := a.p.callees(ci)
	bound := false
	external := false
	for _, g := range callees {
		if a.inScope[g] {
			a.bind(ci, g, res)
			bound = true
		} else if g.Synthetic != "" && len(g.Blocks) > 0 && a.p.inRepo(g) {
			// wrapper or bound method: analyse its body
			a.inScope[g] = true
			a.fns = append(a.fns, g)
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if r, ok := i.(*ssa.Return); ok {
						a.rets[g] = append(a.rets[g], r)
					}
				}
			}
			a.bind(ci, g, res)
			bound = true
		} else {
			external = true
			a.external(ci, g, res)
		}
	}
	if c.IsInvoke() && !bound && !external {
		a.external(ci, nil, res)
	}
	if isUserCallback(c) {
		a.dyn = append(a.dyn, dynCall{ci, a.cur})
	}
}

func (a *pointsTo) bind(ci ssa.CallInstruction, g *ssa.Function, res *ssa.Call) {
	c := ci.Common()
	from := a.cur
	to := ptCtx{init: from.init}
	to.sites[0] = ci
	for k := 1; k < ptK; k++ {
		to.sites[k] = from.sites[k-1]
	}
	a.enqueue(inst{g, to})
	in := func(v ssa.Value, path string) int { a.cur = to; n := a.val(v, path); a.cur = from; return n }
	args := c.Args
	prms := g.Params
	if c.IsInvoke() && len(prms) > 0 {
		for _, l := range leaves(prms[0].Type()) {
			a.copyEdge(a.val(c.Value, l.path), in(prms[0], l.path))
		}
		prms = prms[1:]
	}
	for k, pr := range prms {
		if k < len(args) {
			for _, l := range leaves(pr.Type()) {
				a.copyEdge(a.val(args[k], l.path), in(pr, l.path))
			}
		}
	}
	if res == nil {
		return
	}
	for _, r := range a.rets[g] {
		for k, v := range r.Results {
			pre := ""
			if len(r.Results) > 1 {
				pre = fmt.Sprintf("#%d", k)
			}
			for _, l := range leaves(v.Type()) {
				a.copyEdge(in(v, l.path), a.val(res, pre+l.path))
			}
		}
	}
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		if ar, ok := u.Elem().Underlying().(*types.Array); ok {
			return ar.Elem()
		}
	case *types.Array:
		return u.Elem()
	}
	return nil
}

// fullCapacitySlice: appending to the value always allocates.
func fullCapacitySlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && s.High != nil && (s.Max == s.High || sameConst(s.Max, s.High))
}

// clippedSlice: the value is the result of slices.Clip.
func clippedSlice(v ssa.Value) bool {
	c, ok := strip(v).(*ssa.Call)
	return ok && calleeName(c.Common()) == "slices.Clip"
}

func (a *pointsTo) builtin(ci ssa.CallInstruction, name string, args []ssa.Value, res *ssa.Call) {
	i := ci.(ssa.Instruction)
	switch name {
	case "append":
		if res == nil {
			return
		}
		o := a.alloc(i, "append", nil)
		dst := a.val(res, "")
		a.addLoc(dst, ptLoc{o, ""})
		base := args[0]
		if !fullCapacitySlice(base) && !clippedSlice(base) {
			a.copyEdge(a.val(base, ""), dst)
			if !isNilConst(base) {
				a.write(i, a.val(base, ""), "[]", "appends to", nil)
			}
		}
		if el := elemOf(res.Type()); el != nil {
			for _, l := range leaves(el) {
				// contents of both operands end up in the result
				for _, s := range args {
					if isString(s.Type()) || isNilConst(s) {
						continue
					}
					tmp := a.node(extTmp{i, "append " + s.Name()}, l.path)
					a.load(a.val(s, ""), "[]"+l.path, tmp)
					a.store(dst, "[]"+l.path, tmp)
				}
			}
		}
		for _, s := range args[1:] {
			if !isString(s.Type()) {
				a.read(i, a.val(s, ""), "[]", "copies", nil)
			}
		}
		a.read(i, a.val(base, ""), "[]", "copies", nil)
	case "copy":
		a.write(i, a.val(args[0], ""), "[]", "copies into", nil)
		if isString(args[1].Type()) {
			return
		}
		if el := elemOf(args[0].Type()); el != nil {
			for _, l := range leaves(el) {
				tmp := a.node(extTmp{i, "copy"}, l.path)
				a.load(a.val(args[1], ""), "[]"+l.path, tmp)
				a.store(a.val(args[0], ""), "[]"+l.path, tmp)
			}
		}
	case "delete":
		a.write(i, a.val(args[0], ""), "", "deletes from", nil)
	case "clear":
		a.write(i, a.val(args[0], ""), "[]", "clears", nil)
	case "len", "cap":
		if len(args) == 1 {
			if _, isMap := args[0].Type().Underlying().(*types.Map); isMap {
				a.read(i, a.val(args[0], ""), "", "measures", nil)
			}
		}
	case "min", "max":
	case "ssa:wrapnilchk":
		if res != nil {
			a.copyEdge(a.val(args[0], ""), a.val(res, ""))
		}
	}
}

type extTmp struct {
	i   ssa.Instruction
	tag string
}

type extObj struct {
	i   ssa.Instruction
	c   ptCtx
	tag string
}

// mutatesArg: the external function modifies what its k-th argument points to.
func mutatesArg(pkg, name string, recv bool, k int, t types.Type) bool {
	switch pkg {
	case "sort":
		return !recv && k == 0 && (name == "Strings" || name == "Ints" || name == "Float64s" || name == "Sort" || name == "Stable" || name == "Slice" || name == "SliceStable")
	case "slices":
		switch name {
		case "Sort", "SortFunc", "SortStableFunc", "Reverse", "Insert", "Delete", "DeleteFunc", "Compact", "CompactFunc", "Replace", "AppendSeq", "Grow":
			return k == 0
		}
		return false
	case "maps":
		switch name {
		case "Copy", "DeleteFunc", "Insert":
			return k == 0
		}
		return false
	case "encoding/json":
		return name == "Unmarshal" && k == 1 || name == "Decode"
	case "fmt":
		return strings.HasPrefix(name, "Sscan") && k >= 1 || strings.HasPrefix(name, "Fprint") && k == 0 || strings.HasPrefix(name, "Append") && k == 0
	case "strconv":
		return strings.HasPrefix(name, "Append") && k == 0
	case "unicode/utf8":
		return (name == "AppendRune" || name == "EncodeRune") && k == 0
	case "golang.org/x/text/transform":
		return (name == "String" || name == "Bytes" || name == "Append" || name == "NewReader" || name == "NewWriter") && k == 0
	case "io":
		return true
	}
	if recv && k == 0 {
		if immutableType(t) {
			return false
		}
		_, ptr := t.Underlying().(*types.Pointer)
		if ptr {
			return mutatingMethod(pkg, name)
		}
		return false
	}
	return false
}

func mutatingMethod(pkg, name string) bool {
	switch pkg {
	case "strings", "bytes":
		switch name {
		case "Len", "Cap", "String", "Size", "Bytes", "Available":
			return false
		}
		return true
	case "sync", "sync/atomic", "regexp", "time", "errors", "fmt", "unicode":
		return false
	}
	return true
}

// freshResult: the external function returns memory of its own, holding the elements of its arguments.
func freshResult(pkg, name string) bool {
	switch pkg {
	case "slices":
		switch name {
		case "Clone", "Concat", "Sorted", "SortedFunc", "SortedStableFunc", "Collect", "Repeat":
			return true
		}
		return false
	case "maps":
		return name == "Clone" || name == "Collect"
	case "strings", "strconv", "regexp", "fmt", "unicode/utf8", "unicode/utf16", "math", "time", "errors", "encoding/json", "math/rand", "golang.org/x/text/unicode/norm", "golang.org/x/text/unicode/rangetable":
		return true
	}
	return false
}

func (a *pointsTo) external(ci ssa.CallInstruction, g *ssa.Function, res *ssa.Call) {
	c := ci.Common()
	i := ci.(ssa.Instruction)
	pkg, name, recv := "", "", false
	if g != nil {
		pkg, name = pkgOf(g), g.Name()
		recv = g.Signature.Recv() != nil
		if k := strings.IndexByte(name, '['); k > 0 {
			name = name[:k]
		}
	} else if c.IsInvoke() {
		name = c.Method.Name()
		if c.Method.Pkg() != nil {
			pkg = c.Method.Pkg().Path()
		}
		recv = true
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	for k, ar := range args {
		if len(leaves(ar.Type())) == 0 {
			continue
		}
		if mutatesArg(pkg, name, recv, k, ar.Type()) || c.IsInvoke() && k == 0 && g == nil && name != "Error" && name != "String" {
			a.write(i, a.val(ar, ""), "[]", "modifies through "+shortPkg(pkg)+"."+name, nil)
		}
		for _, l := range leaves(ar.Type()) {
			if el := elemOf(ar.Type()); el != nil {
				_ = el
			}
			a.read(i, a.val(ar, l.path), "", "passes to "+shortPkg(pkg)+"."+name, nil)
		}
	}
	// functions passed as arguments are called with the elements of the other arguments
	for k, ar := range args {
		var fn *ssa.Function
		switch x := strip(ar).(type) {
		case *ssa.MakeClosure:
			fn = x.Fn.(*ssa.Function)
		case *ssa.Function:
			fn = x
		}
		if fn == nil || !a.inScope[fn] {
			continue
		}
		a.enqueue(inst{fn, a.cur})
		for _, pr := range fn.Params {
			for _, l := range leaves(pr.Type()) {
				for j, other := range args {
					if j == k || len(leaves(other.Type())) == 0 {
						continue
					}
					for _, sfx := range []string{"[]", "[v]", "[k]"} {
						a.load(a.val(other, ""), sfx+l.path, a.val(pr, l.path))
					}
				}
			}
		}
	}
	if res == nil {
		return
	}
	var rts []leaf
	rts = leaves(res.Type())
	if len(rts) == 0 {
		return
	}
	for _, l := range rts {
		o := a.newObj(extObj{i, a.cur, "result" + l.path}, objExtern, "result of "+shortPkg(pkg)+"."+name+" at "+a.p.instrPos(i))
		o.site = i
		o.typ = l.typ
		o.ctx = a.cur
		o.made = pkg + "." + name
		n := a.val(res, l.path)
		a.addLoc(n, ptLoc{o, ""})
		for _, ar := range args {
			for _, al := range leaves(ar.Type()) {
				// contents
				if freshResult(pkg, name) || pkg == "maps" {
					a.copyContents(i, ar, al, l, n)
					continue
				}
				if types.Identical(al.typ.Underlying(), l.typ.Underlying()) || assignableLike(al.typ, l.typ) {
					a.copyEdge(a.val(ar, al.path), n)
				}
			}
		}
	}
}

func assignableLike(from, to types.Type) bool {
	if _, ok := to.Underlying().(*types.Interface); ok {
		return types.AssignableTo(from, to)
	}
	return types.AssignableTo(from, to)
}

func (a *pointsTo) copyContents(i ssa.Instruction, ar ssa.Value, al, rl leaf, res int) {
	for _, sfx := range []string{"[]", "[k]", "[v]"} {
		var et types.Type
		switch u := al.typ.Underlying().(type) {
		case *types.Slice:
			if sfx == "[]" {
				et = u.Elem()
			}
		case *types.Map:
			if sfx == "[k]" {
				et = u.Key()
			} else if sfx == "[v]" {
				et = u.Elem()
			}
		case *types.Signature:
			// an iterator: its contents were stored under [] by the producer
			tmp := a.node(extTmp{i, "it"}, "")
			a.load(a.val(ar, al.path), "[]", tmp)
			a.store(res, "[]", tmp)
		}
		if et == nil {
			continue
		}
		for _, l := range leaves(et) {
			tmp := a.node(extTmp{i, "content" + sfx + ar.Name()}, l.path)
			a.load(a.val(ar, al.path), sfx+l.path, tmp)
			a.store(res, sfx+l.path, tmp)
			a.store(res, "[]"+l.path, tmp)
		}
	}
	// slices.Concat takes a slice of slices
	if s, ok := al.typ.Underlying().(*types.Slice); ok {
		if in, ok := s.Elem().Underlying().(*types.Slice); ok {
			for _, l := range leaves(in.Elem()) {
				mid := a.node(extTmp{i, "inner" + ar.Name()}, "")
				a.load(a.val(ar, al.path), "[]", mid)
				tmp := a.node(extTmp{i, "inner content" + ar.Name()}, l.path)
				a.load(mid, "[]"+l.path, tmp)
				a.store(res, "[]"+l.path, tmp)
			}
		}
	}
}

// targets of a pointer-like value, in every context.
func (a *pointsTo) targets(v ssa.Value) map[ptLoc]bool {
	out := map[ptLoc]bool{}
	for _, n := range a.byVal[v] {
		for t := range a.pts[n] {
			out[t] = true
		}
	}
	return out
}
