package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"
	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = checkC14 }

var (
	monthWords   = strings.Fields("january february march april may june july august september october november december")
	weekdayWords = strings.Fields("monday tuesday wednesday thursday friday saturday sunday")
	unitWords    = strings.Fields("second minute hour day week month year")
)

func vocabulary() map[string]bool {
	v := map[string]bool{}
	for _, l := range [][]string{monthWords, weekdayWords, unitWords, {"decade", "am", "pm", "ago", "in", "utc", "gmt", "z", "", " ", "+", "-", "/", ".", ":"}} {
		for _, w := range l {
			v[w] = true
		}
	}
	for _, u := range append([]string{"decade"}, unitWords...) {
		v[u+"s"] = true
	}
	return v
}

// normalForm is the form in which words of a text are looked up: compatibility decomposition without
// non-spacing marks, recomposed, lower case, single spaces, ASCII digits.
func normalForm(s string) string {
	var b strings.Builder
	for _, r := range norm.NFKD.String(s) {
		if !unicode.Is(unicode.Mn, r) {
			b.WriteRune(r)
		}
	}
	s = strings.ToLower(norm.NFKC.String(b.String()))
	s = strings.Join(strings.Fields(strings.ReplaceAll(s, "\u00A0", "")), " ")
	var out []rune
	for _, r := range s {
		if unicode.IsDigit(r) && r > 0x7f {
			r = '0' // only equality with the original matters
		}
		out = append(out, r)
	}
	return string(out)
}

// templateRefs lists the group references of a replacement text.
func templateRefs(t string) (nums []int, names []string) {
	for i := 0; i < len(t); i++ {
		if t[i] != '$' {
			continue
		}
		rest := t[i+1:]
		if strings.HasPrefix(rest, "$") {
			i++
			continue
		}
		name := ""
		if strings.HasPrefix(rest, "{") {
			j := strings.IndexByte(rest, '}')
			if j < 0 {
				names = append(names, rest)
				continue
			}
			name = rest[1:j]
		} else {
			j := 0
			for j < len(rest) {
				r, n := utf8.DecodeRuneInString(rest[j:])
				if !unicode.IsLetter(r) && !unicode.IsDigit(r) && r != '_' {
					break
				}
				j += n
			}
			name = rest[:j]
		}
		if n, err := strconv.Atoi(name); err == nil && n >= 0 {
			nums = append(nums, n)
		} else {
			names = append(names, name)
		}
	}
	return
}

func replProblem(rp repl) string {
	re, err := syntax.Parse(rp.Pattern, syntax.Perl)
	if err != nil {
		return "the pattern does not compile: " + err.Error()
	}
	nums, names := templateRefs(rp.Repl)
	if len(names) > 0 {
		capNames := re.CapNames()
		for _, n := range names {
			found := false
			for _, c := range capNames {
				found = found || c != "" && c == n
			}
			if !found {
				return "the replacement " + strconv.Quote(rp.Repl) + " refers to the group " + strconv.Quote(n) + " which the pattern does not have"
			}
		}
	}
	for _, n := range nums {
		if n > re.MaxCap() {
			return "the replacement " + strconv.Quote(rp.Repl) + " refers to group " + itoa(n) + " of a pattern with " + itoa(re.MaxCap()) + " groups"
		}
	}
	return ""
}

// alternatives splits a pattern at its top-level bars.
func alternatives(p string) []string {
	var out []string
	depth, start, class := 0, 0, false
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '\\':
			i++
		case '[':
			class = true
		case ']':
			class = false
		case '(':
			if !class {
				depth++
			}
		case ')':
			if !class {
				depth--
			}
		case '|':
			if depth == 0 && !class {
				out = append(out, p[start:i])
				start = i + 1
			}
		}
	}
	return append(out, p[start:])
}

// bare strips the flags and capture parentheses of a pattern.
func bare(p string) string {
	p = strings.TrimPrefix(p, "(?i)")
	return strings.NewReplacer("(", "", ")", "").Replace(p)
}

// combinedBody strips the frame around the alternatives of a combined pattern.
func combinedBody(p string) (string, bool) {
	p = strings.TrimPrefix(p, "(?i)")
	const left, right = `(\A|[^\pL\pM\d]|_)(`, `)(\z|[^\pL\pM\d]|_)`
	switch {
	case strings.HasPrefix(p, left) && strings.HasSuffix(p, right):
		return p[len(left) : len(p)-len(right)], true
	case strings.HasPrefix(p, "^(") && strings.HasSuffix(p, ")$"):
		return p[2 : len(p)-2], true
	case strings.HasPrefix(p, "(") && strings.HasSuffix(p, ")"):
		return p[1 : len(p)-1], true
	}
	return "", false
}

func diffSets(want, have map[string]bool) (missing, extra []string) {
	for _, k := range sortedKeys(want) {
		if !have[k] {
			missing = append(missing, k)
		}
	}
	for _, k := range sortedKeys(have) {
		if !want[k] {
			extra = append(extra, k)
		}
	}
	return
}

func coverProblem(what string, want, have map[string]bool) string {
	missing, extra := diffSets(want, have)
	var parts []string
	if len(missing) > 0 {
		parts = append(parts, what+" lacks "+quoteList(missing))
	}
	if len(extra) > 0 {
		parts = append(parts, what+" has "+quoteList(extra)+" which the locale does not define")
	}
	return strings.Join(parts, "; ")
}

func quoteList(l []string) string {
	var q []string
	for i, s := range l {
		if i == 4 {
			q = append(q, "… ("+itoa(len(l))+" in all)")
			break
		}
		q = append(q, strconv.Quote(clip(s, 60)))
	}
	return strings.Join(q, ", ")
}

func isDateOrder(s string) bool {
	b := strings.Split(s, "")
	sort.Strings(b)
	return strings.Join(b, "") == "DMY"
}

func checkC14(p *Prog, r *Result) {
	r.Rule = "Every locale's tables are folded from their literals, merged with the data they are built on the way the merge function is checked to do, and each table is decided against the vocabulary of the date parsers, its own word lists and combined patterns."
	r.Explanation = "Obligations per locale: complete (a reachable word for each month, weekday and unit), vocabulary (every translation consists of words the parsers understand), pattern (compiles, in both engines' syntax, and replacements refer to existing groups), unit-agreement (a relative pattern names the unit its own word means), combined / exact (the combined patterns consist of exactly the locale's relative patterns, longer ones first), words (the word list is exactly the keys of the dictionaries, longer ones first), date-order, splitter (sentence splitter exists and has the group that is read), and per field of the locale data merge-inherits (the merge function carries it from the parent on every path)."
	m := p.localeData()
	r.Obs = append(r.Obs, m.problems...)
	vocab := vocabulary()
	units := map[string]bool{"decade": true}
	for _, u := range unitWords {
		units[u] = true
	}
	entries := 0
	emptyOrder := []string{}
	groups := map[int]string{1: "default"}
	for _, l := range m.sorted() {
		at := p.pos(l.Pos)
		id := l.label()
		reach := map[string]bool{}
		for _, w := range sortedKeys(l.Trans) {
			for _, t := range l.Trans[w] {
				if normalForm(w) == w {
					reach[t] = true
				}
			}
		}
		var missing []string
		for _, ws := range [][]string{monthWords, weekdayWords, unitWords} {
			for _, w := range ws {
				if !reach[w] {
					missing = append(missing, w)
				}
			}
		}
		r.add(len(missing) == 0, "complete", id, at, okOr(map[bool]string{true: "no word of this locale translates to " + strings.Join(missing, ", ")}[len(missing) > 0], "months, weekdays and units all have a word in lookup form"))
		// own entries only: inherited ones are decided with the locale that defines them
		var badWords []string
		badAt := at
		for _, w := range sortedKeys(l.Own.Trans) {
			entries++
			if len(l.Own.Trans[w]) == 0 {
				badWords = append(badWords, strconv.Quote(w)+" has no translation")
				badAt = p.pos(l.TransPos[w])
			}
			for _, t := range l.Own.Trans[w] {
				if !understood(t, vocab, false) {
					badWords = append(badWords, strconv.Quote(w)+" → "+strconv.Quote(t))
					badAt = p.pos(l.TransPos[w])
				}
			}
		}
		for _, w := range sortedKeys(l.Own.Rel) {
			entries++
			if !understood(l.Own.Rel[w], vocab, false) {
				badWords = append(badWords, strconv.Quote(w)+" → "+strconv.Quote(l.Own.Rel[w]))
				badAt = p.pos(l.RelPos[w])
			}
		}
		for _, rp := range l.Own.RelRx {
			entries++
			if !understood(rp.Repl, vocab, true) {
				badWords = append(badWords, strconv.Quote(rp.Pattern)+" → "+strconv.Quote(rp.Repl))
				badAt = p.pos(rp.Pos)
			}
		}
		r.add(len(badWords) == 0, "vocabulary", id, badAt, okOr(clip(strings.Join(badWords, "; "), 400), "all translations consist of words the date parsers understand"))
		// patterns
		prob, pAt := "", at
		note := func(s string, pos token.Pos) {
			if s != "" && prob == "" {
				prob, pAt = s, p.pos(pos)
			}
		}
		for _, rp := range append(append([]repl{}, l.Own.RelRx...), l.Own.Simpl...) {
			note(replProblem(rp), rp.Pos)
			note(patternProblem(rp.Pattern), rp.Pos)
		}
		for _, c := range []struct {
			s   *string
			pos token.Pos
		}{{l.Own.RxCombined, l.RxCPos}, {l.Own.RxExact, l.RxEPos}} {
			if c.s != nil {
				note(patternProblem(*c.s), c.pos)
			}
		}
		r.add(prob == "", "pattern", id, pAt, okOr(prob, itoa(len(l.Own.RelRx)+len(l.Own.Simpl))+" patterns compile and replacements refer to their groups"))
		// unit agreement
		uprob, uAt := "", at
		shared := sharedWords(l.RelRx, units)
		for _, rp := range l.Own.RelRx {
			if s := unitConflict(rp, l.Trans, units, shared); s != "" && uprob == "" {
				uprob, uAt = s, p.pos(rp.Pos)
			}
		}
		for _, rp := range l.Own.RelRx {
			if s := stemConflict(rp, l.RelRx, l.Trans, units, shared); s != "" && uprob == "" {
				uprob, uAt = s, p.pos(rp.Pos)
			}
		}
		for _, k := range sortedKeys(l.Own.Rel) {
			rp := repl{k, l.Own.Rel[k], l.RelPos[k]}
			if strings.HasPrefix(rp.Repl, "0 ") || patternUnit(rp, units) == "week" {
				continue // "now" and "this" have many meanings, and eight days are a week
			}
			if s := unitConflict(rp, l.Trans, units, shared); s != "" && uprob == "" {
				uprob, uAt = s, p.pos(rp.Pos)
			}
		}
		rel := append([]repl{}, l.RelRx...)
		for _, k := range sortedKeys(l.Rel) {
			rel = append(rel, repl{regexp.QuoteMeta(k), l.Rel[k], l.RelPos[k]})
		}
		ps := append(labelsMixed(l.RelRx, 1, units, "unit", func(rp repl) string { return patternUnit(rp, units) }), labelsMixed(rel, 3, units, "direction", patternSide)...)
		for _, q := range ps {
			if uprob == "" {
				uprob, uAt = q.why, p.pos(q.pos)
			}
		}
		r.add(uprob == "", "unit-agreement", id, uAt, okOr(uprob, "relative patterns agree with the dictionary on units"))
		// combined patterns
		want := map[string]bool{}
		for _, rp := range l.RelRx {
			for _, a := range alternatives(bare(rp.Pattern)) {
				want[a] = true
			}
		}
		for _, c := range []struct {
			rule string
			s    *string
			pos  token.Pos
		}{{"combined", l.RxCombined, l.RxCPos}, {"exact", l.RxExact, l.RxEPos}} {
			prob := ""
			switch {
			case c.s == nil && len(want) > 0:
				prob = "the locale has relative patterns but no combined pattern"
			case c.s != nil:
				body, ok := combinedBody(*c.s)
				if !ok {
					prob = "unknown frame around the alternatives"
					break
				}
				if c.rule == "exact" && !strings.HasPrefix(strings.TrimPrefix(*c.s, "(?i)"), "^(") {
					prob = "the exact pattern is not anchored"
				}
				if c.rule == "combined" {
					framed := strings.HasPrefix(strings.TrimPrefix(*c.s, "(?i)"), `(\A|`)
					if framed == l.NoSpace {
						prob = "word boundaries do not fit the locale's word spacing"
					}
				}
				alts := alternatives(body)
				have := map[string]bool{}
				for i, a := range alts {
					have[a] = true
					if i > 0 && utf8.RuneCountInString(alts[i-1]) < utf8.RuneCountInString(a) && prob == "" && samePatternLevel(l.RelRx) {
						prob = "a shorter pattern is tried before the longer " + strconv.Quote(clip(a, 60))
					}
				}
				if s := coverProblem("the combined pattern", want, have); s != "" && prob == "" {
					prob = s
				}
				if !strings.HasPrefix(*c.s, "(?i)") && prob == "" {
					for _, rp := range l.RelRx {
						if strings.HasPrefix(rp.Pattern, "(?i)") {
							prob = "the combined pattern is case-sensitive but its parts are not"
						}
					}
				}
			}
			r.add(prob == "", c.rule, id, p.pos(c.pos), okOr(prob, itoa(len(want))+" alternatives, exactly the locale's patterns"))
		}
		// word list
		wantW := map[string]bool{}
		for w := range l.Trans {
			wantW[w] = true
		}
		for w := range l.Rel {
			wantW[w] = true
		}
		haveW := map[string]bool{}
		wprob := ""
		for i, w := range l.Known {
			haveW[w] = true
			if i > 0 && utf8.RuneCountInString(l.Known[i-1]) < utf8.RuneCountInString(w) && wprob == "" {
				wprob = "the shorter word " + strconv.Quote(l.Known[i-1]) + " is tried before " + strconv.Quote(w)
			}
		}
		if s := coverProblem("the word list", wantW, haveW); s != "" {
			wprob = s
		}
		r.add(wprob == "", "words", id, p.pos(l.KwPos), okOr(wprob, itoa(len(l.Known))+" words, exactly the dictionary's keys, longer first"))
		// date order
		switch {
		case isDateOrder(l.DateOrder):
			r.ok("date-order", id, at, l.DateOrder)
		case l.DateOrder == "":
			emptyOrder = append(emptyOrder, id)
		default:
			r.bad("date-order", id, at, strconv.Quote(l.DateOrder)+" is not a permutation of day, month and year")
		}
		g := l.Group
		if g < 1 || g > 6 {
			g = 1
		}
		if groups[g] == "" {
			groups[g] = id
		}
	}
	r.Analysed["locales"] = len(m.locales)
	r.Analysed["dictionary entries"] = entries
	c14EmptyOrder(p, r, emptyOrder)
	c14Splitters(p, r, groups)
	c14Units(p, r, units)
	p.mergeInherits(r, m)
	for _, rule := range []string{"complete", "vocabulary", "pattern", "unit-agreement", "combined", "exact", "words", "date-order"} {
		r.floor(rule, 480)
	}
	r.floor("merge-inherits", 6)
	r.floor("splitter", 1)
	r.floor("unit-known", 4)
}

// samePatternLevel is false when patterns carry inner alternations, whose pieces have no order of their own.
func samePatternLevel(rs []repl) bool {
	for _, rp := range rs {
		if len(alternatives(bare(rp.Pattern))) > 1 {
			return false
		}
	}
	return true
}

func understood(t string, vocab map[string]bool, refs bool) bool {
	if vocab[t] {
		return true
	}
	ws := strings.Fields(t)
	if len(ws) == 0 {
		return strings.TrimSpace(t) == ""
	}
	for _, w := range ws {
		if vocab[w] {
			continue
		}
		if _, err := strconv.Atoi(w); err == nil {
			continue
		}
		if refs && strings.HasPrefix(w, "$") {
			continue
		}
		return false
	}
	return true
}

var rxLetters = regexp.MustCompile(`[\pL\pM]+`)

func patternUnit(rp repl, units map[string]bool) string {
	unit := ""
	for _, w := range strings.Fields(rp.Repl) {
		if units[strings.TrimSuffix(w, "s")] || units[w] {
			unit = strings.TrimSuffix(w, "s")
		}
	}
	return unit
}

func patternWords(rp repl) []string {
	pat := strings.NewReplacer(`\d`, " ", `\s`, " ", `\S`, " ", `\b`, " ").Replace(strings.TrimPrefix(rp.Pattern, "(?i)"))
	var out []string
	for _, w := range rxLetters.FindAllString(pat, -1) {
		out = append(out, w)
	}
	return out
}

// patternSide: whether a pattern or phrase is about the past or the future.
func patternSide(rp repl) string {
	if strings.HasPrefix(rp.Repl, "0 ") {
		return ""
	}
	for _, w := range strings.Fields(rp.Repl) {
		if w == "ago" || w == "in" {
			return w
		}
	}
	return ""
}

type mixed struct {
	why string
	pos token.Pos
}

// labelsMixed compares the patterns and phrases of a locale with each other: the words that tell the unit (or the
// direction) of one must not belong to another unit (direction) everywhere else.
func labelsMixed(rs []repl, least int, units map[string]bool, kind string, label func(repl) string) (out []mixed) {
	count := map[string]map[string]int{}
	unitsOf := map[string]int{}
	seen := map[string]bool{}
	for _, rp := range rs {
		for _, w := range patternWords(rp) {
			if k := w + " " + patternUnit(rp, units); !seen[k] {
				seen[k] = true
				unitsOf[w]++
			}
		}
		if u := label(rp); u != "" {
			for _, w := range patternWords(rp) {
				if count[w] == nil {
					count[w] = map[string]int{}
				}
				count[w][u]++
			}
		}
	}
	for _, rp := range rs {
		u := label(rp)
		if u == "" {
			continue
		}
		told, other := false, ""
		for _, w := range patternWords(rp) {
			n := map[string]bool{}
			for k, c := range count[w] {
				if c > 0 && (k != u || c > 1) {
					n[k] = true
				}
			}
			if len(count[w]) == 1 && (least == 1 || count[w][u] >= least && unitsOf[w] > 1) {
				told = true
			}
			if !n[u] && len(n) == 1 && utf8.RuneCountInString(w) >= 2 {
				for k := range n {
					if count[w][k] < least || least > 1 && unitsOf[w] < 2 {
						continue // not a word for the direction
					}
					other = strconv.Quote(w) + " only occurs with the " + kind + " " + k
				}
			}
		}
		// a word more than a pattern of another label
		for _, rq := range rs {
			if v := label(rq); v != "" && v != u && !told {
				in := map[string]bool{}
				for _, w := range patternWords(rp) {
					in[w] = true
				}
				sub := true
				ws := patternWords(rq)
				for _, w := range ws {
					sub = sub && in[w]
				}
				told = sub && len(ws) > 0 && len(ws) < len(in)
			}
		}
		if !told && other != "" {
			out = append(out, mixed{fmt.Sprintf("%q is translated to %q, but %s", rp.Pattern, rp.Repl, other), rp.Pos})
		}
	}
	return
}

// sharedWords: the words in patterns of several units.
func sharedWords(rs []repl, units map[string]bool) map[string]bool {
	of, out := map[string]string{}, map[string]bool{}
	for _, rp := range rs {
		u := patternUnit(rp, units)
		for _, w := range patternWords(rp) {
			if v, ok := of[w]; ok && v != u {
				out[w] = true
			}
			of[w] = u
		}
	}
	return out
}

// stemConflict reports a pattern none of whose words belongs to its unit, but one of which is a form of a word for another.
func stemConflict(rp repl, rs []repl, trans map[string][]string, units, shared map[string]bool) string {
	unit := patternUnit(rp, units)
	if unit == "" {
		return ""
	}
	conflict := ""
	for _, w := range patternWords(rp) {
		if shared[w] {
			continue
		}
		n := map[string]string{}
		for _, rq := range rs {
			if rq == rp {
				continue
			}
			if u := patternUnit(rq, units); u != "" {
				for _, v := range patternWords(rq) {
					if v == w || sameStem(v, w) {
						n[u] = v
					}
				}
			}
		}
		for v, ts := range trans {
			if sameStem(v, w) {
				for _, t := range ts {
					if units[t] {
						n[t] = v
					}
				}
			}
		}
		if _, ok := n[unit]; ok {
			return ""
		}
		if len(n) == 1 {
			for u, v := range n {
				conflict = fmt.Sprintf("the pattern %q is translated to %q, but %q is a form of %q, which means %s", rp.Pattern, rp.Repl, w, v, u)
			}
		}
	}
	return conflict
}

// sameStem: the words begin with the same four letters at least, and differ only in their last quarter or so.
func sameStem(a, b string) bool {
	x, y := []rune(a), []rune(b)
	n := 0
	for n < len(x) && n < len(y) && x[n] == y[n] {
		n++
	}
	return n >= 3 && n*3 >= max(len(x), len(y))*2
}

// unitConflict reports a relative pattern whose own word means another unit than its replacement.
func unitConflict(rp repl, trans map[string][]string, units map[string]bool, shared map[string]bool) string {
	short := func(w string) bool {
		for _, v := range patternWords(rp) {
			if v != w && !shared[v] {
				return false
			}
		}
		return true
	}
	unit := ""
	for _, w := range strings.Fields(rp.Repl) {
		if units[strings.TrimSuffix(w, "s")] || units[w] {
			unit = strings.TrimSuffix(w, "s")
		}
	}
	if unit == "" {
		return ""
	}
	pat := strings.NewReplacer(`\d`, " ", `\s`, " ", `\S`, " ", `\b`, " ").Replace(strings.TrimPrefix(rp.Pattern, "(?i)"))
	conflict := ""
	for _, w := range rxLetters.FindAllString(pat, -1) {
		tr := trans[w]
		all := len(tr) > 0
		for _, t := range tr {
			if t == unit {
				return ""
			}
			all = all && units[t]
		}
		// short words are often ambiguous, they only count if nothing else tells the unit
		if all && (utf8.RuneCountInString(w) >= 3 || w != "m" && short(w)) {
			conflict = strconv.Quote(w) + " means " + strings.Join(tr, "/") + " but the pattern " + strconv.Quote(rp.Pattern) + " is translated to " + strconv.Quote(rp.Repl)
		}
	}
	return conflict
}

// c14EmptyOrder: an empty date order is only acceptable when every reader falls back to a real order.
func c14EmptyOrder(p *Prog, r *Result, ids []string) {
	if len(ids) == 0 {
		return
	}
	prob := ""
	readers := 0
	for _, f := range p.reachableRepo() {
		if pkgOf(f) == repoPkg("internal/data") {
			continue
		}
		var loads []ssa.Value
		eachInstr(f, func(i ssa.Instruction) {
			if v, ok := i.(ssa.Value); ok {
				if o, n := loadedField(v); o != nil && n == "DateOrder" && o.Obj().Name() == "LocaleData" {
					loads = append(loads, v)
				}
			}
		})
		if len(loads) == 0 {
			continue
		}
		readers++
		sameOrder := func(v ssa.Value) bool {
			for _, l := range loads {
				if l == v {
					return true
				}
			}
			return false
		}
		nonEmpty := func(fs []Fact) bool {
			for _, f := range fs {
				bo, ok := f.Cond.(*ssa.BinOp)
				if !ok {
					continue
				}
				x, y := bo.X, bo.Y
				if _, isC := x.(*ssa.Const); isC {
					x, y = y, x
				}
				if s, isC := constString(y); isC && s == "" && sameOrder(x) && (bo.Op == token.NEQ) == f.Val {
					return true
				}
				if v, empty, known := emptyFact(f); known && !empty && sameOrder(v) {
					return true
				}
			}
			return false
		}
		for _, l := range loads {
			for _, u := range refs(l) {
				switch x := u.(type) {
				case *ssa.BinOp, *ssa.DebugRef:
					continue
				case *ssa.Return:
					// a date order function like those of the caller, whose answer is validated
					if sig := f.Signature; sig.Params().Len() == 1 && isString(sig.Params().At(0).Type()) {
						continue
					}
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						continue
					}
					if strings.HasPrefix(calleeName(x.Common()), "cmp.Or") {
						continue
					}
				case *ssa.Phi:
					for k, e := range x.Edges {
						if e != l {
							continue
						}
						q := x.Block().Preds[k]
						for j, su := range q.Succs {
							if su == x.Block() && !nonEmpty(edgeFacts(q, j)) {
								prob = fnKey(f) + " uses the locale's date order even when it is empty"
							}
						}
					}
					continue
				}
				if !nonEmpty(facts(u.Block())) {
					prob = fnKey(f) + " uses the locale's date order even when it is empty"
				}
			}
		}
	}
	if readers == 0 {
		prob = "no reader was found"
	}
	for _, id := range ids {
		r.add(prob == "", "date-order", id, "-", okOr(prob, "empty: its "+itoa(readers)+" readers only use it when it is not empty"))
	}
}

// c14Splitters: every sentence splitter group in use exists and captures the group that is read.
func c14Splitters(p *Prog, r *Result, groups map[int]string) {
	pkg := p.Pkgs[modPath+"/internal/language"]
	if pkg == nil {
		fatal("package internal/language not found")
	}
	e := &foldEnv{p: p, pkg: pkg}
	found := false
	for _, n := range pkg.Types.Scope().Names() {
		v, ok := pkg.Types.Scope().Lookup(n).(*types.Var)
		if !ok {
			continue
		}
		mt, ok := v.Type().Underlying().(*types.Map)
		if !ok || !isInt(mt.Key()) || !typeIs(mt.Elem(), modPath+"/internal/regexp", "Regexp") {
			continue
		}
		found = true
		x := varInit(pkg, v)
		kvs, ok := e.mapLit(x)
		if !ok {
			r.bad("splitter", n, p.pos(v.Pos()), "table of sentence splitters is not a literal")
			continue
		}
		have := map[int]string{}
		for _, kv := range kvs {
			k, ok1 := e.int(kv.Key)
			pat, _, ok2 := e.pattern(kv.Value)
			if ok1 && ok2 {
				have[int(k)] = pat
			}
		}
		for _, g := range sortedInts(groups) {
			pat, ok := have[g]
			prob := ""
			if !ok {
				prob = "no sentence splitter for this group, used by locale " + groups[g]
			} else if re, err := syntax.Parse(pat, syntax.Perl); err != nil {
				prob = err.Error()
			} else if re.MaxCap() < 1 {
				prob = "the splitter does not capture the word before the sentence end"
			} else if re.Simplify(); matchesEmpty(re) {
				prob = "the splitter matches the empty text"
			}
			r.add(prob == "", "splitter", "group "+itoa(g), p.pos(v.Pos()), okOr(prob, "splitter exists and captures the word before the sentence end"))
		}
	}
	if !found {
		r.bad("splitter", "sentence splitters", "-", "table not found")
	}
}

func matchesEmpty(re *syntax.Regexp) bool {
	c, err := regexp.Compile(re.String())
	return err == nil && c.MatchString("")
}

func sortedInts[V any](m map[int]V) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// c14Units: every unit the tables use is one the relative parser's own pattern reads.
func c14Units(p *Prog, r *Result, units map[string]bool) {
	pkg := p.Pkgs[modPath+"/internal/parser/relative"]
	if pkg == nil {
		fatal("package internal/parser/relative not found")
	}
	e := &foldEnv{p: p, pkg: pkg}
	var pats []*regexp.Regexp
	for _, f := range pkg.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if pat, isNil, ok := e.pattern(c); ok && !isNil {
					if re, err := regexp.Compile(pat); err == nil && re.NumSubexp() >= 2 {
						pats = append(pats, re)
					}
				}
			}
			return true
		})
	}
	for _, u := range sortedKeys(units) {
		ok := false
		for _, re := range pats {
			if s := re.FindStringSubmatch("3 " + u); len(s) > 2 && s[1] == "3" && s[2] == u {
				ok = true
			}
		}
		r.add(ok, "unit-known", u, "-", okOr(map[bool]string{false: "no pattern of the relative parser reads an amount of this unit"}[ok], "a pattern of the relative parser reads an amount of this unit"))
	}
}

// mergeInherits checks, per field of the locale data, that the merge function carries the parent's value
// into the result on every path on which there is a parent.
func (p *Prog) mergeInherits(r *Result, m *dataModel) {
	if m.mergeFn == nil {
		r.bad("merge-inherits", "merge", "-", "the function that builds regional data on its language's data was not found")
		return
	}
	f := p.SSA.FuncValue(m.mergeFn)
	st := p.named("internal/data", "LocaleData").Underlying().(*types.Struct)
	parent := f.Params[0]
	for i := 0; i < st.NumFields(); i++ {
		fld := st.Field(i)
		if fld.Name() == "Name" {
			continue
		}
		prob := p.inheritProblem(f, parent, fld, i)
		if prob == "" && p.onlyWhenEmpty(f, parent, i) {
			prob = m.lostWhenKept(fld.Name())
		}
		r.add(prob == "", "merge-inherits", fld.Name(), p.pos(f.Pos()), okOr(prob, "the parent's value reaches the result on every path with a parent"))
	}
}

func (p *Prog) inheritProblem(f *ssa.Function, parent *ssa.Parameter, fld *types.Var, idx int) string {
	problem := p.inheritIn(f, parent, fld, idx)
	if problem == "" {
		return ""
	}
	// helpers that are handed both the parent and the result
	eachInstr(f, func(i ssa.Instruction) {
		cl, ok := i.(*ssa.Call)
		if !ok {
			return
		}
		g := cl.Call.StaticCallee()
		if g == nil || g == f || len(g.Blocks) == 0 || g.Pkg != f.Pkg || guardProblem(i, parent, idx) != "" {
			return
		}
		for k, a := range cl.Call.Args {
			if strip(a) == parent && k < len(g.Params) {
				if s := p.inheritIn(g, g.Params[k], fld, idx); s == "" {
					problem = ""
				}
			}
		}
	})
	return problem
}

func (p *Prog) inheritIn(f *ssa.Function, parent *ssa.Parameter, fld *types.Var, idx int) string {
	fromParent := func(v ssa.Value) bool { // load of parent.F
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && fa.Field == idx && strip(fa.X) == parent
	}
	ofChild := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok || fa.Field != idx {
			return false
		}
		_, isAlloc := fa.X.(*ssa.Alloc)
		prm, isPrm := fa.X.(*ssa.Parameter)
		return isAlloc || isPrm && prm != parent
	}
	childLoad := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && ofChild(u.X)
	}
	if st, ok := parent.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && isBool(st.Field(idx).Type()) {
		return boolMerge(f, fromParent, ofChild, parent)
	}
	problem := "the parent's value never reaches the result"
	good := false
	consider := func(i ssa.Instruction) {
		if s := guardProblem(i, parent, idx); s != "" {
			if !good {
				problem = s
			}
			return
		}
		good = true
	}
	eachInstr(f, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.Store:
			if ofChild(x.Addr) && dependsOn(x.Val, fromParent, map[ssa.Value]bool{}) {
				if s := keepsParent(x.Val, fromParent, childLoad); s != "" {
					if !good {
						problem = s
					}
					return
				}
				consider(i)
			}
		case *ssa.MapUpdate:
			if dependsOn(x.Map, childLoad, map[ssa.Value]bool{}) && rangeOver(x.Key, fromParent) && dependsOn(x.Value, func(v ssa.Value) bool { return rangeOver(v, fromParent) }, map[ssa.Value]bool{}) {
				consider(i)
			}
		case *ssa.Call:
			// maps.Copy(child.F, parent.F) or a helper of the package receiving both
			if len(x.Call.Args) >= 2 {
				c, q := false, false
				for _, a := range x.Call.Args {
					c = c || childLoad(strip(a)) || ofChild(a)
					q = q || fromParent(strip(a))
				}
				if c && q && x.Call.Signature().Results().Len() == 0 {
					consider(i)
				}
			}
		}
	})
	if good {
		return ""
	}
	return problem
}

// boolMerge: the field ends up true exactly when the child's or the parent's is, on every path.
func boolMerge(f *ssa.Function, fromParent, ofChild func(ssa.Value) bool, parent *ssa.Parameter) string {
	type state struct {
		b, from *ssa.BasicBlock
		field   bool
	}
	for _, c := range []bool{false, true} {
		for _, q := range []bool{false, true} {
			want := c || q
			seen := map[state]bool{}
			problem := ""
			var run func(b, from *ssa.BasicBlock, field bool, env map[ssa.Value]int8)
			run = func(b, from *ssa.BasicBlock, field bool, env map[ssa.Value]int8) {
				if seen[state{b, from, field}] || problem != "" {
					return
				}
				seen[state{b, from, field}] = true
				e2 := map[ssa.Value]int8{}
				for k, v := range env {
					e2[k] = v
				}
				env = e2
				val := func(v ssa.Value) int8 {
					if k, ok := constBool(v); ok {
						if k {
							return 1
						}
						return -1
					}
					return env[v]
				}
				b2i := func(x bool) int8 {
					if x {
						return 1
					}
					return -1
				}
				for _, i := range b.Instrs {
					switch x := i.(type) {
					case *ssa.Phi:
						for k, pr := range b.Preds {
							if pr == from {
								env[x] = val(x.Edges[k])
							}
						}
					case *ssa.UnOp:
						switch {
						case x.Op == token.MUL && fromParent(x):
							env[x] = b2i(q)
						case x.Op == token.MUL && ofChild(x.X):
							env[x] = b2i(field)
						case x.Op == token.NOT:
							env[x] = -val(x.X)
						}
					case *ssa.BinOp:
						if (x.X == ssa.Value(parent) || x.Y == ssa.Value(parent)) && (x.Op == token.EQL || x.Op == token.NEQ) {
							env[x] = b2i(x.Op == token.NEQ)
							continue
						}
						if isBool(x.X.Type()) && val(x.X) != 0 && val(x.Y) != 0 {
							env[x] = b2i((val(x.X) == val(x.Y)) == (x.Op == token.EQL))
						}
					case *ssa.Store:
						if ofChild(x.Addr) {
							v := val(x.Val)
							if v == 0 {
								problem = "the field receives a value that is not decided by the child's and the parent's"
								return
							}
							field = v > 0
						}
					case *ssa.Return:
						if field != want {
							problem = fmt.Sprintf("with the parent's value %v and the child's %v the result is %v", q, c, field)
						}
						return
					case *ssa.If:
						v := val(x.Cond)
						if v >= 0 {
							run(b.Succs[0], b, field, env)
						}
						if v <= 0 {
							run(b.Succs[1], b, field, env)
						}
						return
					}
				}
				for _, su := range b.Succs {
					run(su, b, field, env)
				}
			}
			run(f.Blocks[0], nil, c, nil)
			if problem != "" {
				return problem
			}
		}
	}
	return ""
}

// keepsParent rejects stores that use the parent's value but drop part of it (sub-slices).
func keepsParent(v ssa.Value, fromParent, childLoad func(ssa.Value) bool) string {
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.AND {
		return "the parent's value is masked"
	}
	s := ""
	dependsOn(v, func(x ssa.Value) bool {
		if sl, ok := x.(*ssa.Slice); ok && (sl.Low != nil && !isZeroConst(sl.Low) || sl.High != nil) && dependsOn(sl.X, fromParent, map[ssa.Value]bool{}) {
			if _, isArr := sl.X.(*ssa.Alloc); !isArr {
				s = "only a part of the parent's list reaches the result"
			}
		}
		return false
	}, map[ssa.Value]bool{})
	return s
}

// dependsOn reports whether v is computed from a value satisfying pred.
func dependsOn(v ssa.Value, pred func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if pred(v) {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if al, isAlloc := v.(*ssa.Alloc); isAlloc {
		for _, st := range storesInto(al, 0) {
			if dependsOn(st.Val, pred, seen) {
				return true
			}
		}
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && dependsOn(*o, pred, seen) {
			return true
		}
	}
	return false
}

// storesInto lists the stores into a local variable or one of its elements or fields.
func storesInto(addr ssa.Value, depth int) []*ssa.Store {
	var out []*ssa.Store
	if addr.Referrers() == nil || depth > 4 {
		return nil
	}
	for _, u := range *addr.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr == addr {
				out = append(out, x)
			}
		case *ssa.IndexAddr:
			if x.X == addr {
				out = append(out, storesInto(x, depth+1)...)
			}
		case *ssa.FieldAddr:
			out = append(out, storesInto(x, depth+1)...)
		}
	}
	return out
}

// rangeOver reports whether v comes out of a range over a value satisfying src.
func rangeOver(v ssa.Value, src func(ssa.Value) bool) bool {
	ex, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	nx, ok := ex.Tuple.(*ssa.Next)
	if !ok {
		return false
	}
	rg, ok := nx.Iter.(*ssa.Range)
	return ok && src(strip(rg.X))
}

// guardProblem reports a condition that can keep the instruction from running although there is a parent.
func guardProblem(i ssa.Instruction, parent *ssa.Parameter, idx int) string {
	for _, g := range facts(i.Block()) {
		if condAllowed(g.Cond, parent, idx, 0) {
			continue
		}
		return "the value is only inherited under a condition unrelated to this field"
	}
	// an instruction inside a loop body must run in every round
	if h := loopHeader(i.Block()); h != nil {
		for _, pr := range h.Preds {
			if h.Dominates(pr) && !i.Block().Dominates(pr) {
				return "the parent's entries are only carried over in some rounds of the loop"
			}
		}
	}
	return ""
}

func condAllowed(c ssa.Value, parent *ssa.Parameter, idx, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return condAllowed(x.X, parent, idx, depth+1)
		}
		if x.Op == token.MUL { // child.F or parent.F itself (booleans)
			fa, ok := x.X.(*ssa.FieldAddr)
			return ok && fa.Field == idx
		}
	case *ssa.BinOp:
		if x.X == parent || x.Y == parent {
			return true
		}
		for _, pair := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if !isZeroConst(pair[1]) && !isNilConst(pair[1]) {
				continue
			}
			if s, ok := constString(pair[1]); ok && s != "" {
				continue
			}
			v := pair[0]
			if cl, ok := v.(*ssa.Call); ok {
				if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					v = cl.Call.Args[0]
				}
			}
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.Field == idx {
					return true
				}
			}
		}
		// loop counters of other loops
		if ph, ok := x.X.(*ssa.Phi); ok && len(ph.Block().Preds) > 1 && inLoop(ph.Block()) {
			return true
		}
		if bo, ok := x.X.(*ssa.BinOp); ok {
			if _, ok := bo.X.(*ssa.Phi); ok && inLoop(bo.Block()) {
				return true
			}
		}
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, ok := constBool(e); !ok && !condAllowed(e, parent, idx, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// onlyWhenEmpty: the parent's list is only taken over when the locale has none of its own.
func (p *Prog) onlyWhenEmpty(f *ssa.Function, parent *ssa.Parameter, idx int) bool {
	n, guarded := 0, 0
	field := func(v ssa.Value, own bool) bool {
		return dependsOn(v, func(x ssa.Value) bool {
			fa, ok := x.(*ssa.FieldAddr)
			return ok && fa.Field == idx && (strip(fa.X) != ssa.Value(parent)) == own
		}, map[ssa.Value]bool{})
	}
	eachInstr(f, func(i ssa.Instruction) {
		st, ok := i.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || fa.Field != idx || strip(fa.X) == ssa.Value(parent) || !field(st.Val, false) {
			return
		}
		if _, isList := st.Val.Type().Underlying().(*types.Slice); !isList {
			return
		}
		n++
		for _, g := range facts(i.Block()) {
			if field(g.Cond, true) {
				guarded++
				return
			}
		}
	})
	return n > 0 && n == guarded
}

// lostWhenKept: a locale whose own list lacks something that is in its parent's.
func (m *dataModel) lostWhenKept(field string) string {
	list := func(li *localeInfo) (out []string) {
		switch field {
		case "Abbreviations":
			return li.Abbrev
		case "KnownWords":
			return li.Known
		case "Charset":
			for _, c := range li.Charset {
				out = append(out, string(c))
			}
		case "Simplifications", "RelativeTypeRegexes":
			rs := li.Simpl
			if field == "RelativeTypeRegexes" {
				rs = li.RelRx
			}
			for _, x := range rs {
				out = append(out, x.Pattern+" -> "+x.Repl)
			}
		}
		return
	}
	for _, li := range m.sorted() {
		if li.Parent == nil || li.Own == nil {
			continue
		}
		own := list(li.Own)
		if len(own) == 0 {
			continue
		}
		has := map[string]bool{}
		for _, x := range own {
			has[x] = true
		}
		for _, x := range list(li.Parent) {
			if !has[x] {
				return fmt.Sprintf("%s has a list of its own, which then lacks %q of %s", li.Name, x, li.Parent.Name)
			}
		}
	}
	return ""
}
