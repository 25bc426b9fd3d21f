package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C03"] = checkC03 }

// writtenLocs are the locations a write may modify.
func (a *pointsTo) locsOf(w ptWrite) []ptLoc {
	var out []ptLoc
	for l := range a.pts[w.node] {
		if l.o.coll {
			out = append(out, l)
		} else {
			out = append(out, ptLoc{l.o, l.path + w.sfx})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].o.name != out[j].o.name {
			return out[i].o.name < out[j].o.name
		}
		return out[i].path < out[j].path
	})
	return out
}

// pathName renders a component path of an object with field names.
func pathName(o *ptObj, path string) string {
	t := o.typ
	var sb strings.Builder
	for path != "" {
		switch {
		case strings.HasPrefix(path, "."):
			k := 1
			n := 0
			for k < len(path) && path[k] >= '0' && path[k] <= '9' {
				n = n*10 + int(path[k]-'0')
				k++
			}
			path = path[k:]
			if t != nil {
				if s, ok := t.Underlying().(*types.Struct); ok && n < s.NumFields() {
					sb.WriteString("." + s.Field(n).Name())
					t = s.Field(n).Type()
					continue
				}
			}
			sb.WriteString(".?")
			t = nil
		case strings.HasPrefix(path, "["):
			k := strings.IndexByte(path, ']') + 1
			sb.WriteString("[]")
			path = path[k:]
			if t != nil {
				t = elemOf(t)
			}
		default:
			sb.WriteString(path)
			path = ""
		}
	}
	return o.name + sb.String()
}

// settingReset: the parser's own exported fields are the caller's to set; the parser replaces an empty
// list by its default.
func (a *pointsTo) isParserField(l ptLoc) (name string, exported bool) {
	if l.o.kind != objParser || !strings.HasPrefix(l.path, ".") {
		return "", false
	}
	st := l.o.typ.Underlying().(*types.Struct)
	n := 0
	for k := 1; k < len(l.path) && l.path[k] >= '0' && l.path[k] <= '9'; k++ {
		n = n*10 + int(l.path[k]-'0')
	}
	return st.Field(n).Name(), st.Field(n).Exported()
}

func checkC03(p *Prog, r *Result) {
	r.Rule = "No instruction reachable from an entry point (or run at package initialisation) writes to memory owned by the caller - the configuration, the slices inside it, the list of formats, the result of a callback - and no such memory is reachable from a package variable or from the parser's own fields; decided by a field-sensitive points-to analysis over every store, map update, append, copy and in-place standard-library operation."
	r.Explanation = "Inclusion-based points-to analysis of all reachable repository functions; each writing instruction and each component of long-lived objects is an obligation."
	r.Assumptions = append(r.Assumptions,
		"standard-library and third-party functions modify only the arguments listed in mutatesArg (sa/pt.go) and do not keep references to their arguments",
		"time.Time, *time.Location and compiled regular expressions are immutable values")
	a := p.pointsToOf()
	reach := p.reachable()
	r.Analysed["functions"] = len(a.fns)
	r.Analysed["writing instructions"] = len(a.writes)
	r.Analysed["points-to nodes"] = len(a.pts)

	// (1) writes
	seen := map[string]int{}
	for _, w := range a.writes {
		if w.c.init {
			continue
		}
		if al, ok := w.instr.(*ssa.Store); ok {
			if _, isLocal := al.Addr.(*ssa.Alloc); isLocal {
				continue
			}
		}
		var hit *ptLoc
		for _, l := range a.locsOf(w) {
			l := l
			if l.o.kind == objCaller {
				hit = &l
			}
		}
		if hit != nil {
			key := siteKey(w.instr, w.what+" "+hit.o.name)
			seen[key]++
			if seen[key] > 1 {
				key += " #" + itoa(seen[key])
			}
			r.badPath("caller-memory-not-written", key, p.instrPos(w.instr), w.what+" "+hit.o.name, pathTo(reach, w.instr.Parent()))
			continue
		}
		key := siteKey(w.instr, w.what+" "+targetNames(a, w))
		seen[key]++
		if seen[key] == 1 {
			r.ok("caller-memory-not-written", key, p.instrPos(w.instr), "never the caller's memory")
		}
	}
	r.floor("caller-memory-not-written", 20)

	// (2) retention: components of package variables and of the parser, transitively
	var roots []*ptObj
	for _, o := range a.objs {
		if o.kind == objGlobal || o.kind == objParser {
			roots = append(roots, o)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].name < roots[j].name })
	content := a.contentIndex()
	for _, ro := range roots {
		type item struct {
			o    *ptObj
			path string
		}
		visited := map[*ptObj]bool{ro: true}
		st := []item{{ro, ro.name}}
		bad := ""
		for len(st) > 0 {
			it := st[len(st)-1]
			st = st[:len(st)-1]
			for path, locs := range content[it.o] {
				if it.o.kind == objParser {
					if _, exp := a.isParserField(ptLoc{it.o, path}); exp {
						continue // set by the caller
					}
				}
				for l := range locs {
					if l.o.kind == objCaller {
						s := pathName(it.o, path) + " holds " + l.o.name
						if bad == "" || s < bad {
							bad = s
						}
					}
					if !visited[l.o] && l.o.kind != objFunc {
						visited[l.o] = true
						st = append(st, item{l.o, it.path})
					}
				}
			}
		}
		r.add(bad == "", "caller-memory-not-retained", ro.name, objPos(p, ro), okOr(bad, "nothing reachable from it belongs to the caller"))
	}
	r.floor("caller-memory-not-retained", 5)
	for _, f := range []string{"usedLocales", "usedLocalesTracker", "uniqueCharsets"} {
		_ = f
	}
	_ = token.NoPos
}

func objPos(p *Prog, o *ptObj) string {
	if o.glob != nil {
		return p.pos(o.glob.Pos())
	}
	if o.site != nil {
		return p.instrPos(o.site)
	}
	return "-"
}

func targetNames(a *pointsTo, w ptWrite) string {
	set := map[string]bool{}
	for _, l := range a.locsOf(w) {
		switch l.o.kind {
		case objGlobal, objData, objCaller:
			set[pathName(l.o, l.path)] = true
		case objParser:
			set[pathName(l.o, l.path)] = true
		default:
			set["own memory"] = true
		}
	}
	if len(set) == 0 {
		return "nothing known"
	}
	return strings.Join(sortedKeys(set), ", ")
}

func (a *pointsTo) contentIndex() map[*ptObj]map[string]map[ptLoc]bool {
	out := map[*ptObj]map[string]map[ptLoc]bool{}
	for k, n := range a.nodes {
		o, ok := k.v.(*ptObj)
		if !ok || len(a.pts[n]) == 0 {
			continue
		}
		if out[o] == nil {
			out[o] = map[string]map[ptLoc]bool{}
		}
		out[o][k.path] = a.pts[n]
	}
	return out
}
