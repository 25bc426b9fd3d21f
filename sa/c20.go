package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = checkC20 }

// Standard packages whose exported operations only compute (or act on values the caller owns).
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true,
	"math": true, "math/bits": true, "math/big": true, "math/cmplx": true, "math/rand": true, "math/rand/v2": true,
	"sort": true, "slices": true, "maps": true, "cmp": true, "iter": true, "bytes": true, "errors": true,
	"regexp": true, "regexp/syntax": true, "sync": true, "sync/atomic": true, "reflect": true, "unique": true,
	"container/list": true, "container/heap": true, "container/ring": true, "hash": true, "hash/fnv": true, "hash/maphash": true,
	"encoding": true, "encoding/json": true, "encoding/binary": true, "encoding/hex": true, "encoding/base64": true,
	"text/template": true, "path": true, "context": true, "html": true, "unsafe": true, "internal/bytealg": true,
	"crypto/sha256": true, "crypto/md5": true, "crypto/sha1": true, "hash/crc32": true, "index/suffixarray": true,
}

// Allowed operations of packages that also have effects.
func effectOf(pkg, name string, recv bool) string {
	switch pkg {
	case "time":
		if recv {
			if strings.HasPrefix(name, "Timer.") || strings.HasPrefix(name, "Ticker.") {
				return "operates a timer"
			}
			return ""
		}
		switch name {
		case "Sleep", "After", "AfterFunc", "NewTimer", "NewTicker", "Tick":
			return "starts a timer or sleeps"
		}
		return ""
	case "fmt":
		switch name {
		case "Print", "Printf", "Println":
			return "writes to standard output"
		case "Scan", "Scanf", "Scanln":
			return "reads standard input"
		}
		return ""
	case "os":
		switch name {
		case "Getenv", "LookupEnv", "Environ", "IsNotExist", "IsExist", "IsPermission", "Getpid", "Args":
			return ""
		}
		return "uses the operating system (files, environment, processes)"
	case "io", "bufio", "encoding/csv", "encoding/xml", "encoding/gob", "text/tabwriter", "text/scanner":
		return ""
	case "runtime":
		switch name {
		case "Caller", "Callers", "FuncForPC", "NumCPU", "NumGoroutine", "Version", "KeepAlive", "CallersFrames":
			return ""
		}
		return "changes process-wide runtime state"
	}
	if purePkgs[pkg] {
		return ""
	}
	return "belongs to package " + pkg + ", whose operations act outside the process memory or on process-wide settings"
}

func isStdPkg(path string) bool {
	i := strings.IndexByte(path, '/')
	first := path
	if i >= 0 {
		first = path[:i]
	}
	return first != "" && !strings.Contains(first, ".")
}

// writerIsLocal: the destination of a Fprint-like call is an in-memory buffer.
func writerIsLocal(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			t := x.X.Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
				switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
				case "strings.Builder", "bytes.Buffer", "bufio.Writer":
					return true
				}
				if isRepoPath(n.Obj().Pkg().Path()) {
					return true // its Write method is analysed itself
				}
				if strings.HasPrefix(n.Obj().Pkg().Path(), "hash") {
					return true
				}
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" && n.Obj().Name() == "discard" {
				return true
			}
			return false
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Parameter:
			return true // decided at the callers, which must pass a concrete value through a MakeInterface
		default:
			return false
		}
	}
}

func checkC20(p *Prog, r *Result) {
	r.Rule = "No function of the repository or of its third-party dependencies that is reachable from an exported function (call graph: VTA) or that runs at package initialisation calls an operation with an effect outside its return values, starts a goroutine, uses the print built-ins or assigns a variable of another package."
	r.Explanation = "Every call instruction, go statement and store of every reachable non-standard-library function is classified; standard-library operations are classified by package and name."
	r.Assumptions = append(r.Assumptions,
		"standard library packages listed as computing packages in sa/c20.go have no external effects",
		"the standard regexp engine variant is the one analysed; the re2 variant is covered by C19 only")

	roots := p.entryPoints()
	for path, sp := range p.SSAPkgs {
		if isRepoPath(path) {
			if i := sp.Func("init"); i != nil {
				roots = append(roots, i)
			}
		}
	}
	reach := p.reachFrom(roots)
	r.Analysed["entry points and package initialisers"] = len(roots)
	nf, nc := 0, 0
	okByFn := map[string]int{}
	for f := range p.Funcs {
		if _, ok := reach[f]; !ok || len(f.Blocks) == 0 {
			continue
		}
		pk := pkgOf(f)
		if isStdPkg(pk) && pk != "" {
			continue
		}
		if strings.HasPrefix(pk, "golang.org/x/") && f.Name() == "init" {
			continue
		}
		nf++
		key := fnKey(f)
		bad := false
		report := func(i ssa.Instruction, what string) {
			bad = true
			r.badPath("no-effect", key+": "+what, p.instrPos(i), what, pathTo(reach, f))
		}
		eachInstr(f, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Go:
				report(i, "starts a goroutine")
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok && g.Pkg != nil && g.Pkg != f.Pkg && (f.Pkg != nil) && g.Pkg.Pkg.Path() != pkgOf(f) {
					if !strings.HasSuffix(g.Name(), "init$guard") {
						report(i, "assigns "+g.Pkg.Pkg.Path()+"."+g.Name()+", a variable of another package")
					}
				}
			}
			c := callOf(i)
			if c == nil {
				return
			}
			nc++
			if b, ok := c.Value.(*ssa.Builtin); ok {
				if b.Name() == "print" || b.Name() == "println" {
					report(i, "writes to standard error with the built-in "+b.Name())
				}
				return
			}
			var targets []*ssa.Function
			if sf := c.StaticCallee(); sf != nil {
				targets = []*ssa.Function{sf}
			} else if ci, ok := i.(ssa.CallInstruction); ok {
				targets = p.callees(ci)
			}
			for _, t := range targets {
				tp := pkgOf(t)
				if !isStdPkg(tp) || tp == "" {
					continue
				}
				if t.Synthetic != "" && t.Object() == nil {
					continue
				}
				name := t.Name()
				if name == "init" || strings.HasPrefix(name, "init#") {
					continue
				}
				recv := t.Signature.Recv() != nil
				if recv {
					rt := t.Signature.Recv().Type()
					if pt, ok := rt.Underlying().(*types.Pointer); ok {
						rt = pt.Elem()
					}
					if n, ok := types.Unalias(rt).(*types.Named); ok {
						name = n.Obj().Name() + "." + name
					}
				}
				if c.IsInvoke() && isStdPkg(tp) {
					// dynamic dispatch into the standard library: the concrete value decides, and it
					// was created by an operation classified at its own call site
					continue
				}
				if strings.HasPrefix(t.Name(), "Fprint") && tp == "fmt" {
					if len(c.Args) > 0 && writerIsLocal(c.Args[0]) {
						continue
					}
					report(i, "writes to a stream with fmt."+t.Name())
					continue
				}
				if tp == "io" && (t.Name() == "WriteString" || t.Name() == "Copy") && len(c.Args) > 0 && !writerIsLocal(c.Args[0]) {
					report(i, "writes to a stream with io."+t.Name())
					continue
				}
				if e := effectOf(tp, name, recv); e != "" {
					report(i, "calls "+tp+"."+name+", which "+e)
				}
			}
			_ = token.NoPos
		})
		if !bad {
			okByFn[pk]++
			if isRepoPath(pk) && f.Name() != "init" {
				r.ok("no-effect", key, p.pos(f.Pos()), "no effectful operation")
			}
		}
	}
	r.Analysed["functions"] = nf
	r.Analysed["calls"] = nc
	r.floor("no-effect", 30)

	// positive self-test of the classification
	for _, t := range [][2]string{{"fmt", "Println"}, {"os", "Create"}, {"os", "Setenv"}, {"log", "Printf"}, {"net/http", "Get"}, {"os/exec", "Command"}, {"runtime/debug", "SetGCPercent"}, {"runtime", "GOMAXPROCS"}, {"time", "Sleep"}} {
		r.add(effectOf(t[0], t[1], false) != "", "self-test", t[0]+"."+t[1], "-", "is classified as an effect")
	}
	for _, t := range [][2]string{{"fmt", "Sprintf"}, {"strings", "Split"}, {"time", "Now"}, {"sort", "Strings"}} {
		r.add(effectOf(t[0], t[1], false) == "", "self-test", t[0]+"."+t[1], "-", "is classified as free of effects")
	}
}
