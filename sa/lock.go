package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock analysis: an interprocedural typestate of the parser's lock, explored from the entry points with
// the lock free. A state is (held, stack of deferred calls).

type lkKey struct {
	f    *ssa.Function
	held int
	pend bool // a caller's deferred call will release the lock, whatever its state is then
}

type lkState struct {
	held   int
	defers string
}

type lockInfo struct {
	p        *Prog
	exits    map[lkKey]map[int]bool
	visited  map[lkKey]bool
	seenAt   map[ssa.Instruction][2]bool // instruction visited with lock free / held
	parent   map[lkKey]lkKey
	problems map[string]Obligation
	userCB   map[*ssa.Function]bool
	defers   map[string][]ssa.Instruction
	lockOps  map[ssa.Instruction]bool
	changed  bool
}

// mutexOp classifies a call as an operation on a parser's lock.
func mutexOp(c *ssa.CallCommon) string {
	if c == nil {
		return ""
	}
	f := c.StaticCallee()
	if f == nil {
		if c.IsInvoke() {
			switch c.Method.FullName() {
			case "(sync.Locker).Lock":
				return "Lock"
			case "(sync.Locker).Unlock":
				return "Unlock"
			}
		}
		return ""
	}
	recv := f.Signature.Recv()
	if recv == nil {
		return ""
	}
	if typeIs(recv.Type(), "sync", "Mutex") || typeIs(recv.Type(), "sync", "RWMutex") {
		switch f.Name() {
		case "Lock", "Unlock", "TryLock", "RLock", "RUnlock", "TryRLock":
			return f.Name()
		}
	}
	// promoted through embedding: a synthetic wrapper (*Parser).Lock
	if typeIs(recv.Type(), modPath, "Parser") && f.Synthetic != "" {
		switch f.Name() {
		case "Lock", "Unlock", "TryLock", "RLock", "RUnlock", "TryRLock":
			return f.Name()
		}
	}
	return ""
}

// isUserCallback: a dynamic call of a function value that comes from a field of the public
// configuration or parser types.
func isUserCallback(c *ssa.CallCommon) bool {
	if c == nil || c.IsInvoke() || c.StaticCallee() != nil {
		return false
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return false
	}
	return true
}

var lockCache = map[*Prog]*lockInfo{}

func (p *Prog) locks() *lockInfo {
	if l := lockCache[p]; l != nil {
		return l
	}
	l := &lockInfo{p: p, exits: map[lkKey]map[int]bool{}, visited: map[lkKey]bool{}, seenAt: map[ssa.Instruction][2]bool{}, parent: map[lkKey]lkKey{}, problems: map[string]Obligation{}, defers: map[string][]ssa.Instruction{"": nil}, lockOps: map[ssa.Instruction]bool{}}
	// functions from which a user callback can be reached inside the library
	l.userCB = map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.fnSrc {
			if l.userCB[f] {
				continue
			}
			eachInstr(f, func(i ssa.Instruction) {
				c := callOf(i)
				if c == nil || l.userCB[f] {
					return
				}
				if l.callsUser(i.(ssa.CallInstruction)) {
					l.userCB[f] = true
					ch = true
				}
			})
		}
	}
	for round := 0; round < 20; round++ {
		l.changed = false
		l.visited = map[lkKey]bool{}
		for _, e := range p.entryPoints() {
			l.visit(lkKey{e, 0, false}, nil)
		}
		if !l.changed {
			break
		}
	}
	lockCache[p] = l
	return l
}

func (l *lockInfo) callsUser(ci ssa.CallInstruction) bool {
	if l.isUserCall(ci.Common()) {
		return true
	}
	for _, t := range l.p.callees(ci) {
		if l.userCB[t] {
			return true
		}
	}
	return false
}

// isUserCall: the call itself runs a function the library's caller supplied.
func (l *lockInfo) isUserCall(c *ssa.CallCommon) bool {
	if isUserCallback(c) {
		v := c.Value
		for {
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if n, _ := fieldName(u.X); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath && n.Obj().Exported() {
					return true
				}
			}
			break
		}
		if _, ok := v.(*ssa.Parameter); ok {
			// a function value handed down: user code if any caller passes one
			if n, ok := types.Unalias(v.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath {
				return true
			}
		}
	}
	return false
}

func (l *lockInfo) problem(rule, key, pos, why, path string) {
	k := rule + "|" + key + "|" + why
	if _, ok := l.problems[k]; !ok {
		l.problems[k] = Obligation{Rule: rule, Key: key, Pos: pos, Why: why, Path: path}
	}
}

func (l *lockInfo) path(k lkKey) string {
	var parts []string
	for i := 0; i < 20; i++ {
		s := fnKey(k.f)
		if k.held == 1 {
			s += " [lock held]"
		}
		parts = append([]string{s}, parts...)
		nk, ok := l.parent[k]
		if !ok || nk == k {
			break
		}
		k = nk
	}
	return strings.Join(parts, " -> ")
}

// visit analyses a function from one entry state and returns the possible lock states at its exits.
func (l *lockInfo) visit(k lkKey, from *lkKey) map[int]bool {
	if from != nil {
		if _, ok := l.parent[k]; !ok {
			l.parent[k] = *from
		}
	}
	if l.visited[k] {
		return l.exits[k]
	}
	l.visited[k] = true
	if l.exits[k] == nil {
		l.exits[k] = map[int]bool{}
	}
	f := k.f
	if len(f.Blocks) == 0 {
		l.exits[k] = map[int]bool{k.held: true}
		return l.exits[k]
	}
	in := map[*ssa.BasicBlock]map[lkState]bool{f.Blocks[0]: {lkState{k.held, ""}: true}}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	done := map[*ssa.BasicBlock]map[lkState]bool{}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if done[b] == nil {
			done[b] = map[lkState]bool{}
		}
		for st := range in[b] {
			if done[b][st] {
				continue
			}
			done[b][st] = true
			outs := map[lkState]bool{st: true}
			for _, i := range b.Instrs {
				next := map[lkState]bool{}
				for s := range outs {
					for _, o := range l.step(k, i, s) {
						next[o] = true
					}
				}
				outs = next
			}
			for _, s := range b.Succs {
				if in[s] == nil {
					in[s] = map[lkState]bool{}
				}
				for o := range outs {
					if !in[s][o] {
						in[s][o] = true
					}
				}
				work = append(work, s)
			}
		}
	}
	return l.exits[k]
}

func (l *lockInfo) step(k lkKey, i ssa.Instruction, s lkState) []lkState {
	sa := l.seenAt[i]
	sa[s.held] = true
	l.seenAt[i] = sa
	switch x := i.(type) {
	case *ssa.Return:
		if !l.exits[k][s.held] {
			l.exits[k][s.held] = true
			l.changed = true
		}
		if _, hasParent := l.parent[k]; !hasParent || l.isEntry(k) {
			if l.isEntry(k) && s.held == 1 && k.held == 0 {
				l.problem("released-on-return", fnKey(k.f), l.p.instrPos(i), "returns with the parser's lock still held", l.path(k))
			}
		}
		return nil
	case *ssa.Panic:
		return nil
	case *ssa.Defer:
		id := s.defers
		if strings.Count(id, "/") > 3 {
			return []lkState{s}
		}
		nid := fmt.Sprintf("%s/%p", id, x)
		if _, ok := l.defers[nid]; !ok {
			l.defers[nid] = append(append([]ssa.Instruction{}, l.defers[id]...), x)
		}
		return []lkState{{s.held, nid}}
	case *ssa.RunDefers:
		states := map[int]bool{s.held: true}
		ds := l.defers[s.defers]
		for n := len(ds) - 1; n >= 0; n-- {
			next := map[int]bool{}
			for h := range states {
				for o := range l.apply(k, ds[n], h, true, false, l.deferredRelease(ds[:n])) {
					next[o] = true
				}
			}
			states = next
		}
		var out []lkState
		for h := range states {
			out = append(out, lkState{h, ""})
		}
		return out
	case *ssa.Go:
		return []lkState{s}
	case *ssa.Call:
		var out []lkState
		for h := range l.apply(k, x, s.held, l.deferredUnlock(s.defers), true, l.deferredRelease(l.defers[s.defers])) {
			out = append(out, lkState{h, s.defers})
		}
		return out
	}
	return []lkState{s}
}

func (l *lockInfo) isEntry(k lkKey) bool {
	for _, e := range l.p.entryPoints() {
		if e == k.f {
			return true
		}
	}
	return false
}

// deferredUnlock: some pending deferred call releases the lock.
func (l *lockInfo) deferredUnlock(id string) bool {
	for _, d := range l.defers[id] {
		c := callOf(d)
		if op := mutexOp(c); op == "Unlock" || op == "RUnlock" {
			return true
		}
		for _, t := range l.p.callees(d.(ssa.CallInstruction)) {
			rel := false
			eachInstr(t, func(i ssa.Instruction) {
				if op := mutexOp(callOf(i)); op == "Unlock" || op == "RUnlock" {
					rel = true
				}
			})
			if rel {
				return true
			}
		}
	}
	return false
}

// deferredRelease: some pending deferred call releases the lock without looking at its state.
func (l *lockInfo) deferredRelease(ds []ssa.Instruction) bool {
	for _, d := range ds {
		op := mutexOp(callOf(d))
		if op == "Unlock" || op == "RUnlock" {
			return true
		}
		if op != "" {
			continue
		}
		for _, t := range l.p.callees(d.(ssa.CallInstruction)) {
			if len(t.Blocks) == 0 {
				continue
			}
			for _, i := range t.Blocks[0].Instrs {
				if op := mutexOp(callOf(i)); op == "Unlock" || op == "RUnlock" {
					return true
				} else if op != "" {
					break
				}
			}
		}
	}
	return false
}

func (l *lockInfo) apply(k lkKey, i ssa.Instruction, held int, protected, normal, pend bool) map[int]bool {
	pend = pend || k.pend
	ci := i.(ssa.CallInstruction)
	c := ci.Common()
	switch op := mutexOp(c); op {
	case "Lock", "RLock":
		l.lockOps[i] = true
		if held == 1 {
			l.problem("no-reacquire", fnKey(k.f), l.p.instrPos(i), "acquires a parser's lock while it is already held", l.path(k))
		}
		return map[int]bool{1: true}
	case "TryLock", "TryRLock":
		l.lockOps[i] = true
		return map[int]bool{0: true, 1: true}
	case "Unlock", "RUnlock":
		l.lockOps[i] = true
		if held == 0 {
			l.problem("no-release-unheld", fnKey(k.f), l.p.instrPos(i), "releases a parser's lock that is not held", l.path(k))
		}
		return map[int]bool{0: true}
	}
	if held == 1 && !protected && l.callsUser(ci) {
		l.problem("released-on-panic", fnKey(k.f), l.p.instrPos(i), "calls a function supplied by the caller while the lock is held and no deferred call releases it: a panic in it leaves the lock held", l.path(k))
	}
	if held == 0 && pend && l.isUserCall(c) {
		l.problem("no-release-unheld", fnKey(k.f), l.p.instrPos(i), "calls a function supplied by the caller after giving the lock back, while a deferred call is going to release it: a panic in it releases a lock that is not held", l.path(k))
	}
	// only functions from which a lock operation is reachable matter
	out := map[int]bool{}
	any := false
	for _, t := range l.p.callees(ci) {
		if !l.p.inRepo(t) {
			continue
		}
		any = true
		if len(t.Blocks) == 0 {
			out[held] = true
			continue
		}
		// a callee entered with the lock held and a pending deferred release in the caller is protected:
		// approximated by checking user callbacks at the caller's call site instead (see above)
		nk := lkKey{t, held, pend}
		for h := range l.visit(nk, &k) {
			out[h] = true
		}
	}
	if !any {
		out[held] = true
	}
	return out
}

func init() { checks["C02"] = checkC02 }

func checkC02(p *Prog, r *Result) {
	r.Rule = "Typestate of the parser's lock over all paths of every function reachable from the entry points: Lock only when free, Unlock only when held, free at every return of an entry point, and a deferred release pending whenever code supplied by the caller can run while the lock is held. No parser is copied (a copy has its own lock)."
	r.Explanation = "Interprocedural exploration of (lock state, pending deferred calls) from every entry point with the lock free; each lock operation and each entry point return is an obligation."
	l := p.locks()
	keys := make([]string, 0)
	for k := range l.problems {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	badFn := map[string]bool{}
	for _, k := range keys {
		o := l.problems[k]
		if o.Rule == "released-on-panic" {
			// protected when every caller that holds the lock has a deferred release pending
			if l.protectedByCallers(o) {
				continue
			}
		}
		badFn[o.Key] = true
		r.badPath(o.Rule, o.Key, o.Pos, o.Why, o.Path)
	}
	n := 0
	for i := range l.lockOps {
		n++
		if !badFn[fnKey(i.Parent())] {
			r.ok("lock-operation", fnKey(i.Parent())+": "+mutexOp(callOf(i)), p.instrPos(i), "executed only in its legal state on every path")
		}
	}
	for _, e := range p.entryPoints() {
		if recv := e.Signature.Recv(); recv != nil && typeIs(recv.Type(), modPath, "Parser") || e.Signature.Recv() == nil && pkgOf(e) == modPath {
			k := lkKey{e, 0, false}
			if l.exits[k][0] && !l.exits[k][1] {
				r.ok("released-on-return", fnKey(e), p.pos(e.Pos()), "every return leaves the lock free")
			}
		}
	}
	r.floor("lock-operation", 1)
	r.floor("released-on-return", 1)
	r.Analysed["function states"] = len(l.exits)
	r.Analysed["instructions"] = len(l.seenAt)

	// copies
	nCopy := 0
	for _, f := range p.fnSrc {
		eachInstr(f, func(i ssa.Instruction) {
			if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL {
				if _, isPtr := u.Type().Underlying().(*types.Pointer); !isPtr && typeIs(u.Type(), modPath, "Parser") {
					nCopy++
					r.bad("no-copy", fnKey(f), p.instrPos(i), "copies a Parser, whose lock is then a different one")
				}
			}
		})
	}
	if nCopy == 0 {
		r.ok("no-copy", "all functions", "-", "no Parser value is ever copied")
	}
}

// protectedByCallers: the function holding the callback was entered with the lock held, and the frame that
// acquired the lock has a deferred release pending at its call sites on the way.
func (l *lockInfo) protectedByCallers(o Obligation) bool {
	for _, f := range l.p.fnSrc {
		if fnKey(f) != o.Key {
			continue
		}
		// the function itself acquires the lock without a deferred release: not protected
		own := false
		eachInstr(f, func(i ssa.Instruction) {
			if op := mutexOp(callOf(i)); op == "Lock" || op == "RLock" {
				own = true
			}
		})
		if own {
			return false
		}
		// otherwise the acquiring callers' own call sites carry the obligation (callsUser is transitive)
		return true
	}
	return false
}
