package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkC01
	checks["C04"] = checkC04
}

// closure lists everything reachable from the given objects through stored pointers.
func (a *pointsTo) closure(roots []*ptObj, content map[*ptObj]map[string]map[ptLoc]bool) map[*ptObj]*ptObj {
	out := map[*ptObj]*ptObj{}
	var st []*ptObj
	for _, o := range roots {
		if out[o] == nil {
			out[o] = o
			st = append(st, o)
		}
	}
	for len(st) > 0 {
		o := st[len(st)-1]
		st = st[:len(st)-1]
		for _, path := range sortedKeys(content[o]) {
			for l := range content[o][path] {
				if out[l.o] == nil && l.o.kind != objFunc && l.o.kind != objCaller && l.o.kind != objParser {
					out[l.o] = out[o]
					st = append(st, l.o)
				}
			}
		}
	}
	return out
}

// statelessMade: third-party constructors whose results keep no state between uses.
var statelessMade = map[string]bool{
	"golang.org/x/text/runes.Remove":              true,
	"golang.org/x/text/runes.Map":                 true,
	"golang.org/x/text/runes.ReplaceIllFormed":    true,
	"golang.org/x/text/runes.In":                  true,
	"golang.org/x/text/runes.NotIn":               true,
	"golang.org/x/text/runes.Predicate":           true,
	"golang.org/x/text/unicode/rangetable.New":    true,
	"golang.org/x/text/unicode/rangetable.Merge":  true,
	"strings.NewReplacer":                         true,
	repoPkg("internal/regexp") + ".MustCompile":   true,
	"regexp.MustCompile":                          true,
	"regexp.Compile":                              true,
	"github.com/wasilibs/go-re2.MustCompile":      true,
	"github.com/wasilibs/go-re2.Compile":          true,
	"golang.org/x/text/cases.Lower":               false,
	"golang.org/x/text/transform.Chain":           false,
	"golang.org/x/text/encoding/unicode.NewCoder": false,
}

// sharedObjects are the objects reachable from package variables.
func (a *pointsTo) sharedObjects(content map[*ptObj]map[string]map[ptLoc]bool) map[*ptObj]*ptObj {
	var roots []*ptObj
	for _, o := range a.objs {
		if o.kind == objGlobal || o.kind == objData {
			roots = append(roots, o)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].name < roots[j].name })
	return a.closure(roots, content)
}

// once: the instruction only runs inside a function given to sync.Once.Do.
func (p *Prog) onceGuarded(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		for _, r := range refs(g) {
			mc, ok := r.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			for _, u := range refs(mc) {
				if c := callOf(u); c != nil && calleeName(c) == "(*sync.Once).Do" {
					return true
				}
			}
		}
	}
	return false
}

// stateWrites reports the writes that can change package-level state after initialisation.
func (a *pointsTo) stateWrites(r *Result, rule string, content map[*ptObj]map[string]map[ptLoc]bool) {
	p := a.p
	reach := p.reachable()
	shared := a.sharedObjects(content)
	seen := map[string]bool{}
	n := 0
	for _, w := range a.writes {
		if w.c.init {
			continue
		}
		n++
		bad := ""
		for _, l := range a.locsOf(w) {
			root := shared[l.o]
			if root == nil || statelessMade[l.o.made] {
				continue
			}
			if l.o.kind == objExtern && immutableType(l.o.typ) {
				continue
			}
			bad = fmt.Sprintf("%s memory reachable from the package variable %s", w.what, strings.TrimPrefix(root.name, "."))
			break
		}
		key := siteKey(w.instr, w.what+" "+targetNames(a, w))
		if seen[key] && bad == "" {
			continue
		}
		if bad != "" {
			if seen["bad "+key] {
				continue
			}
			seen["bad "+key] = true
			r.badPath(rule, key, p.instrPos(w.instr), bad, pathTo(reach, w.instr.Parent()))
			continue
		}
		seen[key] = true
		r.ok(rule, key, p.instrPos(w.instr), "writes no package-level state")
	}
	// state kept in concurrent containers, atomics and pools
	for _, f := range p.reachableRepo() {
		if isInitFn(f) {
			continue
		}
		eachInstr(f, func(i ssa.Instruction) {
			c := callOf(i)
			if c == nil {
				return
			}
			nm := calleeName(c)
			if !(strings.HasPrefix(nm, "(*sync.Map).") || strings.HasPrefix(nm, "(*sync/atomic.") || strings.HasPrefix(nm, "sync/atomic.")) {
				return
			}
			m := nm[strings.LastIndex(nm, ".")+1:]
			if strings.HasPrefix(m, "Load") && m != "LoadOrStore" && m != "LoadAndDelete" || m == "Range" {
				return
			}
			if rule == "state-fixed-after-start" && len(c.Args) > 0 {
				for l := range a.targets(c.Args[0]) {
					if shared[l.o] != nil {
						r.badPath(rule, siteKey(i, nm), p.instrPos(i), "keeps state between calls in a package variable", pathTo(reach, f))
						return
					}
				}
			}
		})
	}
	r.Analysed["writing instructions"] = n
	r.Analysed["shared objects"] = len(shared)
}

// parserState collects what the parser keeps: its fields and what they reach, by field.
func (a *pointsTo) parserState(content map[*ptObj]map[string]map[ptLoc]bool) map[*ptObj]string {
	out := map[*ptObj]string{}
	po := a.parserObj()
	for _, path := range sortedKeys(content[po]) {
		fn, _ := a.isParserField(ptLoc{po, path})
		if fn == "" {
			continue
		}
		var roots []*ptObj
		for l := range content[po][path] {
			if l.o.kind != objCaller && l.o.kind != objFunc {
				roots = append(roots, l.o)
			}
		}
		for o := range a.closure(roots, content) {
			if out[o] == "" {
				out[o] = fn
			}
		}
	}
	return out
}

func checkC01(p *Prog, r *Result) {
	r.Rule = "After package initialisation no reachable instruction writes memory reachable from a package variable (points-to analysis; this includes stateful third-party helpers used through it), no reachable function starts a goroutine, every access to a parser field that the library itself writes happens with that parser's lock held on every path (typestate of the lock), and memory published in a parser field is only written with the lock held or before it is published."
	r.Explanation = "Every write and every access to parser state of every reachable function, per call context."
	r.Assumptions = append(r.Assumptions,
		"third-party helpers listed in statelessMade (sa/c01.go) keep no state between uses",
		"the caller does not change a parser's exported fields, or a configuration, while calls are running",
		"the lock held is the lock of the parser accessed (no function handles two parsers)")
	a := p.pointsToOf()
	content := a.contentIndex()
	a.stateWrites(r, "no-package-state-written", content)
	r.floor("no-package-state-written", 20)
	reach := p.reachable()

	// parser state
	li := p.locks()
	held := func(i ssa.Instruction) (bool, bool) {
		s, seen := li.seenAt[i]
		return s[1] && !s[0], seen
	}
	// in a given call context it is enough that a call site of the context holds the lock (locks are never
	// released by a callee: C02)
	heldIn := func(w ptWrite) (bool, bool) {
		ok, seen := held(w.instr)
		if ok || !seen {
			return ok, seen
		}
		for _, s := range w.c.sites {
			if s == nil {
				break
			}
			if ok, _ := held(s.(ssa.Instruction)); ok {
				return true, true
			}
		}
		return false, true
	}
	po := a.parserObj()
	st := po.typ.Underlying().(*types.Struct)
	written := map[string]bool{}
	for _, w := range a.writes {
		if w.c.init {
			continue
		}
		for _, l := range a.locsOf(w) {
			if l.o == po {
				if n, _ := a.isParserField(l); n != "" {
					written[n] = true
				} else if s, ok := w.instr.(*ssa.Store); ok && !isNewParser(s) {
					for k := 0; k < st.NumFields(); k++ {
						written[st.Field(k).Name()] = true
					}
				}
			}
		}
	}
	r.Analysed["parser fields written by the library"] = len(written)
	acc := func(w ptWrite, write bool) {
		if w.c.init {
			return
		}
		for _, l := range a.locsOf(w) {
			if l.o != po {
				continue
			}
			n, _ := a.isParserField(l)
			if n == "" {
				if s, ok := w.instr.(*ssa.Store); ok && isNewParser(s) {
					continue
				}
				if _, isStruct := typUnder(w.typ).(*types.Struct); w.typ != nil && isStruct && typeIs(w.typ, modPath, "Parser") {
					r.badPath("parser-state-under-lock", siteKey(w.instr, "copies the parser"), p.instrPos(w.instr), "a parser is copied as a whole, including its lock", pathTo(reach, w.instr.Parent()))
				}
				continue
			}
			if !written[n] || n == "Mutex" {
				continue
			}
			verb := "reads "
			if write {
				verb = "writes "
			}
			ok, seen := heldIn(w)
			if !seen {
				continue // not reachable in the lock analysis
			}
			if ctor(w.instr) {
				continue
			}
			key := siteKey(w.instr, verb+n)
			if ok {
				r.ok("parser-state-under-lock", key, p.instrPos(w.instr), "the lock is held on every path")
			} else {
				r.badPath("parser-state-under-lock", key, p.instrPos(w.instr), verb+"the parser's "+n+" without holding its lock", pathTo(reach, w.instr.Parent()))
			}
		}
	}
	for _, w := range a.writes {
		acc(w, true)
	}
	for _, w := range a.reads {
		acc(w, false)
	}
	r.floor("parser-state-under-lock", 1)

	// published memory
	state := a.parserState(content)
	pubs := a.publishers(po)
	unlockedReads := map[string]string{}
	for _, w := range a.reads {
		if w.c.init {
			continue
		}
		for _, l := range a.locsOf(w) {
			if f := state[l.o]; f != "" && l.o.kind != objData && l.o.kind != objGlobal {
				if ok, seen := heldIn(w); seen && !ok && !a.beforePublication(w, l.o, pubs) {
					unlockedReads[f] = p.instrPos(w.instr)
				}
			}
		}
	}
	for _, w := range a.writes {
		if w.c.init {
			continue
		}
		for _, l := range a.locsOf(w) {
			f := state[l.o]
			if f == "" || l.o.kind == objData || l.o.kind == objGlobal || l.o.kind == objParser {
				continue
			}
			key := siteKey(w.instr, w.what+" memory held in "+f)
			if a.beforePublication(w, l.o, pubs) {
				r.ok("published-state-stable", key, p.instrPos(w.instr), "only before it is stored in the parser")
				continue
			}
			ok, _ := heldIn(w)
			if !ok {
				r.badPath("published-state-stable", key, p.instrPos(w.instr), w.what+" memory held in the parser's "+f+" without the lock", pathTo(reach, w.instr.Parent()))
			} else if pos := unlockedReads[f]; pos != "" {
				r.badPath("published-state-stable", key, p.instrPos(w.instr), w.what+" memory held in the parser's "+f+" after it was published, while "+pos+" reads it without the lock", pathTo(reach, w.instr.Parent()))
			} else {
				r.ok("published-state-stable", key, p.instrPos(w.instr), "with the lock held, and never read without it")
			}
		}
	}
	r.floor("published-state-stable", 1)

	// concurrency inside the library
	for _, f := range p.reachableRepo() {
		eachInstr(f, func(i ssa.Instruction) {
			if _, ok := i.(*ssa.Go); ok {
				r.badPath("no-goroutines", siteKey(i, "go"), p.instrPos(i), "starts a goroutine inside the library", pathTo(reach, f))
			}
		})
	}
	r.ok("no-goroutines", "all reachable functions", "-", "searched for go statements")
}

func typUnder(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// isNewParser: the store initialises a parser that was allocated in the same function.
func isNewParser(s *ssa.Store) bool {
	v := s.Addr
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.Alloc:
			return true
		case *ssa.Global:
			return s.Parent() != nil && isInitFn(s.Parent())
		}
		return false
	}
}

// ctor: the access concerns a parser allocated in the same function, not yet shared.
func ctor(i ssa.Instruction) bool {
	var v ssa.Value
	switch x := i.(type) {
	case *ssa.Store:
		v = x.Addr
	case *ssa.UnOp:
		v = x.X
	default:
		return false
	}
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.Alloc:
			return true
		}
		return false
	}
}

// publishers are the functions that store into a parser's fields.
func (a *pointsTo) publishers(po *ptObj) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, w := range a.writes {
		if w.c.init {
			continue
		}
		for _, l := range a.locsOf(w) {
			if l.o == po && l.path != "" {
				out[w.instr.Parent()] = true
			}
		}
	}
	return out
}

// beforePublication: the access happens during the call that allocates the object, and that call does
// not itself store anything in a parser.
func (a *pointsTo) beforePublication(w ptWrite, o *ptObj, pubs map[*ssa.Function]bool) bool {
	if o.site == nil {
		return false
	}
	af := o.site.Parent()
	sub := a.subtree(af)
	for f := range pubs {
		if sub[f] {
			return false
		}
	}
	if !sub[w.instr.Parent()] {
		return false
	}
	if w.instr.Parent() == af {
		return true
	}
	// the context of the access leads through the allocating call
	for _, s := range w.c.sites {
		if s != nil && (s.Parent() == af || sub[s.Parent()]) {
			return true
		}
	}
	return false
}

func (a *pointsTo) subtree(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for g := range a.p.reachFrom([]*ssa.Function{f}) {
		if a.p.inRepo(g) {
			out[g] = true
		}
	}
	return out
}

func checkC04(p *Prog, r *Result) {
	r.Rule = "After package initialisation nothing writes memory reachable from a package variable, no such memory is handed out through a result or a callback, memory of used locales is read only where the option asking for it is known to be set, and a value cached in a parser is only used after it was computed for, or fully compared with, the current request."
	r.Explanation = "Points-to analysis for the tables; branch conditions that hold at each read of parser state; path enumeration for the cache."
	r.Assumptions = append(r.Assumptions, "third-party helpers listed in statelessMade (sa/c01.go) keep no state between uses")
	a := p.pointsToOf()
	content := a.contentIndex()
	a.stateWrites(r, "state-fixed-after-start", content)
	r.floor("state-fixed-after-start", 20)
	reach := p.reachable()
	shared := a.sharedObjects(content)

	// (2) nothing internal is handed out
	n := 0
	for _, f := range p.entryPoints() {
		for _, ret := range a.rets[f] {
			for k, v := range ret.Results {
				if len(leaves(v.Type())) == 0 || isErrType(v.Type()) {
					continue
				}
				n++
				bad := a.mutableShared(a.targets(v), shared, content)
				r.add(bad == "", "tables-not-handed-out", fnKey(f)+": result "+itoa(k), p.instrPos(ret), okOr(bad, "no package-level memory is reachable from it"))
			}
		}
	}
	for _, d := range a.dyn {
		user := false
		for l := range a.targets(d.ci.Common().Value) {
			user = user || l.o.kind == objCaller
		}
		if !user {
			continue
		}
		for k, ar := range d.ci.Common().Args {
			if len(leaves(ar.Type())) == 0 {
				continue
			}
			n++
			bad := a.mutableShared(a.targets(ar), shared, content)
			r.add(bad == "", "tables-not-handed-out", siteKey(d.ci.(ssa.Instruction), "callback argument "+itoa(k)), p.instrPos(d.ci.(ssa.Instruction)), okOr(bad, "no package-level memory is reachable from it"))
		}
	}
	r.Analysed["results and callback arguments"] = n

	// (3) persistent parser state
	po := a.parserObj()
	fields := map[string][]ptAccess{}
	for _, w := range a.reads {
		if w.c.init || ctor(w.instr) {
			continue
		}
		for _, l := range a.locsOf(w) {
			if l.o == po {
				if nme, exp := a.isParserField(l); nme != "" && !exp {
					fields[nme] = append(fields[nme], w)
				}
			}
		}
	}
	reads := 0
	for _, fl := range sortedKeys(fields) {
		if fl == "Mutex" {
			continue
		}
		// reads that are only used to build the new value of the same field are recording, not use
		caching := false
		var bad []ptAccess
		for _, w := range fields[fl] {
			reads++
			opt := p.liftFacts(w.instr, func(fs []Fact) bool {
				for _, f := range fs {
					if f.Val && cfgField(f.Cond) == "TryPreviousLocales" {
						return true
					}
				}
				return false
			}, 0)
			if opt {
				r.ok("memory-only-when-asked", siteKey(w.instr, "reads "+fl), p.instrPos(w.instr), "the option to try previous locales is set whenever this runs")
				continue
			}
			bad = append(bad, w)
			caching = true
		}
		if !caching {
			continue
		}
		byFn := map[*ssa.Function]bool{}
		for _, w := range bad {
			byFn[w.instr.Parent()] = true
		}
		var fs []*ssa.Function
		for f := range byFn {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return fnKey(fs[i]) < fnKey(fs[j]) })
		for _, f := range fs {
			prob := p.cacheProblem(f, fl)
			if prob != "" {
				r.badPath("memory-only-when-asked", fnKey(f)+": reads "+fl, p.pos(f.Pos()), prob, pathTo(reach, f))
			} else {
				r.ok("memory-only-when-asked", fnKey(f)+": reads "+fl, p.pos(f.Pos()), "the cached value is computed for, or fully compared with, the request before it is used")
			}
		}
	}
	r.Analysed["reads of parser state"] = reads
	r.floor("memory-only-when-asked", 1)
	_ = token.NoPos
}

// mutableShared finds package-level memory reachable from the given locations.
func (a *pointsTo) mutableShared(ts map[ptLoc]bool, shared map[*ptObj]*ptObj, content map[*ptObj]map[string]map[ptLoc]bool) string {
	var roots []*ptObj
	for l := range ts {
		if l.o.kind != objFunc && l.o.kind != objCaller {
			roots = append(roots, l.o)
		}
	}
	best := ""
	for o := range a.closure(roots, content) {
		if root := shared[o]; root != nil && !statelessMade[o.made] {
			s := "memory reachable from the package variable " + strings.TrimPrefix(root.name, ".") + " is handed to the caller"
			if best == "" || s < best {
				best = s
			}
		}
	}
	return best
}
