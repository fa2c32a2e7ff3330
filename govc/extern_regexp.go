package main

// Contracts assumed of package regexp, for expressions over ASCII: an
// expression matches exactly the texts of its language, and the groups of a
// match are the pieces of the text which the expression says they are.

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
)

func smtOfLangExpr(re *syntax.Regexp) (body string, ok bool) {
	// the language of MatchString, for smt
	subs := []*syntax.Regexp{re}
	if re.Op == syntax.OpConcat {
		subs = re.Sub
	}
	first, last := "re.all", "re.all"
	if len(subs) > 0 && subs[0].Op == syntax.OpBeginText {
		first, subs = "", subs[1:]
	}
	if len(subs) > 0 && subs[len(subs)-1].Op == syntax.OpEndText {
		last, subs = "", subs[:len(subs)-1]
	}
	var ps []string
	if first != "" {
		ps = append(ps, first)
	}
	for _, s := range subs {
		p, ok := smtOfSyntax(s)
		if !ok {
			return "", false
		}
		ps = append(ps, p)
	}
	if last != "" {
		ps = append(ps, last)
	}
	switch len(ps) {
	case 0:
		return `(str.to_re "")`, true
	case 1:
		return ps[0], true
	}
	return "(re.++ " + strings.Join(ps, " ") + ")", true
}

// matchTerm: the text matches the expression.
func matchTerm(expr string, s *Term) (*Term, bool) {
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil, false
	}
	if c, ok := s.strConst(); ok {
		return TBool(regexp.MustCompile(expr).MatchString(c)), true
	}
	if langOf(s) != nil {
		if in, known := decide(s, memoLang("r"+expr, func() *Lang { return regexpLang(expr) })); known {
			return TBool(in), true
		}
	}
	body, ok := smtOfLangExpr(re)
	if !ok {
		return nil, false
	}
	return InRe(s, body), true
}

// part is a piece of a matched text: a group, or what is between groups.
type part struct {
	re    *syntax.Regexp
	group int // 0: none
	kids  []part
}

// shapes are the ways to match an anchored expression, one for every choice
// of the optional groups in it.
func shapes(re *syntax.Regexp) ([][]part, bool) {
	hasGroup := re.MaxCap() > 0
	if !hasGroup {
		return [][]part{{{re: re}}}, true
	}
	switch re.Op {
	case syntax.OpConcat:
		out := [][]part{nil}
		for _, s := range re.Sub {
			ss, ok := shapes(s)
			if !ok {
				return nil, false
			}
			var next [][]part
			for _, a := range out {
				for _, b := range ss {
					next = append(next, append(append([]part{}, a...), b...))
				}
			}
			out = next
		}
		return out, len(out) <= 64
	case syntax.OpCapture:
		ss, ok := shapes(re.Sub[0])
		if !ok {
			return nil, false
		}
		var out [][]part
		for _, a := range ss {
			out = append(out, []part{{re: re.Sub[0], group: re.Cap, kids: a}})
		}
		return out, true
	case syntax.OpQuest:
		ss, ok := shapes(re.Sub[0])
		return append(append([][]part{}, ss...), []part{}), ok
	case syntax.OpAlternate:
		var out [][]part
		for _, s := range re.Sub {
			ss, ok := shapes(s)
			if !ok {
				return nil, false
			}
			out = append(out, ss...)
		}
		return out, true
	}
	return nil, false
}

func flatten(ps []part, leaf func(*syntax.Regexp) *Term, groups map[int]*Term) []*Term {
	var out []*Term
	for _, p := range ps {
		if p.group == 0 {
			out = append(out, leaf(p.re))
			continue
		}
		var ts []*Term
		if p.re.MaxCap() > 0 {
			ts = flatten(p.kids, leaf, groups)
		} else {
			ts = []*Term{leaf(p.re)}
		}
		groups[p.group] = Concat(append(ts, TStr(""))...)
		out = append(out, ts...)
	}
	return out
}

func leafRegexps(ps []part) []*syntax.Regexp {
	var out []*syntax.Regexp
	flatten(ps, func(re *syntax.Regexp) *Term { out = append(out, re); return TStr("") }, map[int]*Term{})
	return out
}

func langOfSyntax(re *syntax.Regexp) *Lang {
	s, ok := smtOfSyntax(re)
	if !ok {
		return nil
	}
	return reLang(s)
}

// unambiguous: no text can be cut into the given languages in two ways.
func unambiguous(ls []*Lang) bool {
	for i := 0; i+1 < len(ls); i++ {
		rest := langStr("")
		for _, l := range ls[i+1:] {
			rest = langCat(rest, l)
		}
		a := ls[i]
		if rest == nil || a == nil {
			return false
		}
		// what may follow a word of a within a longer word of a
		n := &nfa{}
		out := n.state()
		n.acc[out] = true
		base := n.embed(a, out)
		seen := map[int16]bool{0: true}
		work := []int16{0}
		starts := []int{}
		for len(work) > 0 {
			q := work[0]
			work = work[1:]
			if a.acc[q] {
				starts = append(starts, base+int(q))
			}
			for b := 0; b < 256; b++ {
				if r := a.next[q][b]; !seen[r] {
					seen[r] = true
					work = append(work, r)
				}
			}
		}
		more := langAnd(n.det(starts...), langNot(langStr("")))
		// what a word of the rest may begin with, leaving another
		pre := &Lang{next: rest.next, acc: make([]bool, len(rest.next))}
		for q := range rest.next {
			m := &nfa{}
			o := m.state()
			m.acc[o] = true
			b := m.embed(rest, o)
			from := m.det(b + q)
			both := langAnd(from, rest)
			if both == nil {
				return false
			}
			pre.acc[q] = !both.empty()
		}
		if more == nil || !more.disjoint(pre.minimize()) {
			return false
		}
	}
	return true
}

// anchored are the shapes of an expression with ^ and $ around it, provided
// that every text has at most one.
var shapeMemo = map[string][][]part{}

func anchoredShapes(expr string) [][]part {
	if s, ok := shapeMemo[expr]; ok {
		return s
	}
	shapeMemo[expr] = nil
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil || re.Op != syntax.OpConcat || len(re.Sub) < 2 || re.Sub[0].Op != syntax.OpBeginText || re.Sub[len(re.Sub)-1].Op != syntax.OpEndText {
		return nil
	}
	inner := &syntax.Regexp{Op: syntax.OpConcat, Sub: re.Sub[1 : len(re.Sub)-1], Flags: re.Flags}
	ss, ok := shapes(inner)
	if !ok {
		return nil
	}
	var wholes []*Lang
	for _, s := range ss {
		var ls []*Lang
		whole := langStr("")
		for _, r := range leafRegexps(s) {
			l := langOfSyntax(r)
			if l == nil {
				return nil
			}
			ls = append(ls, l)
			whole = langCat(whole, l)
		}
		if whole == nil || !unambiguous(ls) {
			return nil
		}
		for _, w := range wholes {
			if !w.disjoint(whole) {
				return nil
			}
		}
		wholes = append(wholes, whole)
	}
	shapeMemo[expr] = ss
	return ss
}

func (c *ctx) regexp(i int) (string, bool) {
	p, ok := c.args[i].(*PtrV)
	if !ok || p.obj == nil {
		return "", false
	}
	sv, ok := c.ex.load(c.st, p).(*StructV)
	if !ok {
		return "", false
	}
	t, ok := sv.get(0).(*Term)
	if !ok {
		return "", false
	}
	return t.strConst()
}

// exactGroups finds the groups of a text made of known pieces, by way of an
// example: if the pieces of the example's match fall on pieces of the text
// which always have the form asked for, those are the groups.
func exactGroups(expr string, ss [][]part, s *Term) (map[int]*Term, bool) {
	pieces := concatArgs(s)
	var word strings.Builder
	var pos []int
	for _, p := range pieces {
		pos = append(pos, word.Len())
		if k, ok := p.strConst(); ok {
			word.WriteString(k)
			continue
		}
		l := langOf(p)
		if l == nil {
			return nil, false
		}
		w, ok := l.example()
		if !ok {
			return nil, false
		}
		word.WriteString(w)
	}
	m := regexp.MustCompile(expr).FindStringSubmatchIndex(word.String())
	if m == nil {
		return nil, false
	}
	// the text from a to b
	cut := func(a, b int) (*Term, bool) {
		out := TStr("")
		for i, p := range pieces {
			end := word.Len()
			if i+1 < len(pos) {
				end = pos[i+1]
			}
			lo, hi := pos[i], end
			if k, ok := p.strConst(); ok {
				x, y := a, b
				if x < lo {
					x = lo
				}
				if y > hi {
					y = hi
				}
				if x < y {
					out = Concat(out, TStr(k[x-lo:y-lo]))
				}
				continue
			}
			switch {
			case lo == hi && (lo == a || lo == b):
				return nil, false // which side of the cut it is on is not settled
			case hi <= a || lo >= b:
			case a <= lo && hi <= b:
				out = Concat(out, p)
			default:
				return nil, false
			}
		}
		return out, true
	}
	for _, sh := range ss {
		groups := map[int]*Term{}
		var gs []int
		flatten(sh, func(*syntax.Regexp) *Term { return TStr("") }, groups)
		for g := range groups {
			gs = append(gs, g)
		}
		fits := true
		n := 0
		for g := 1; 2*g < len(m); g++ {
			if m[2*g] >= 0 {
				n++
				_, in := groups[g]
				fits = fits && in
			}
		}
		if !fits || n != len(gs) {
			continue
		}
		// cut the example into the leaves of the shape: the gaps between groups
		// follow from matching the rest one leaf at a time
		at := 0
		ok := true
		ts := map[int]*Term{}
		leafNo := 0
		leaves := leafRegexps(sh)
		var ls []*Lang
		for _, r := range leaves {
			ls = append(ls, langOfSyntax(r))
		}
		var terms []*Term
		flatten(sh, func(r *syntax.Regexp) *Term {
			if !ok {
				return TStr("")
			}
			// the one length which lets the rest match
			rest := langStr("")
			for _, l := range ls[leafNo+1:] {
				rest = langCat(rest, l)
			}
			w := word.String()
			found := -1
			for e := at; e <= len(w); e++ {
				if ls[leafNo].has(w[at:e]) && rest.has(w[e:]) {
					found = e
				}
			}
			if found < 0 {
				ok = false
				return TStr("")
			}
			t, good := cut(at, found)
			if !good {
				ok = false
				return TStr("")
			}
			if in, known := decide(t, ls[leafNo]); !known || !in {
				ok = false
				return TStr("")
			}
			at = found
			leafNo++
			terms = append(terms, t)
			return t
		}, ts)
		if ok && Concat(append(terms, TStr(""))...) == s {
			return ts, true
		}
	}
	return nil, false
}

// example is a shortest word.
func (l *Lang) example() (string, bool) {
	words := map[int16]string{0: ""}
	work := []int16{0}
	for len(work) > 0 {
		q := work[0]
		work = work[1:]
		if l.acc[q] {
			return words[q], true
		}
		for b := 0; b < 256; b++ {
			r := l.next[q][b]
			if _, ok := words[r]; !ok {
				words[r] = words[q] + string([]byte{byte(b)})
				work = append(work, r)
			}
		}
	}
	return "", false
}

func init() {
	absTypes["regexp.Regexp"] = []absField{{"expr", SStr}}
	externs["regexp.MustCompile"] = func(c *ctx) []Outcome {
		e, ok := c.str(0).strConst()
		if !ok {
			return c.limit("")
		}
		if _, err := regexp.Compile(e); err != nil {
			c.ex.safe(c.st, "regexp: Compile", c.in, TFalse)
			return nil
		}
		pt := c.signature().Results().At(0).Type().(*types.Pointer).Elem()
		return c.ret(c.ex.alloc(c.st, pt, "regexp", mkAbs(pt, TStr(e))))
	}
	match := func(text func(c *ctx) *Term) func(c *ctx) []Outcome {
		return func(c *ctx) []Outcome {
			e, ok := c.regexp(0)
			if !ok {
				return c.limit("")
			}
			t, ok := matchTerm(e, text(c))
			if !ok {
				return c.limit("")
			}
			return c.ret(t)
		}
	}
	externs["(*regexp.Regexp).MatchString"] = match(func(c *ctx) *Term { return c.str(1) })
	externs["(*regexp.Regexp).Match"] = match(func(c *ctx) *Term { return c.bytes(1) })
	externs["(*regexp.Regexp).NumSubexp"] = func(c *ctx) []Outcome {
		e, ok := c.regexp(0)
		if !ok {
			return c.limit("")
		}
		return c.ret(TInt(int64(regexp.MustCompile(e).NumSubexp())))
	}
	strs := func(c *ctx, vs []string) []Outcome {
		var out []Value
		for _, v := range vs {
			out = append(out, TStr(v))
		}
		return c.ret(c.ex.newSlice(c.st, types.Typ[types.String], &SeqV{elem: types.Typ[types.String], segs: []Seg{{vals: out}}}))
	}
	externs["(*regexp.Regexp).SubexpNames"] = func(c *ctx) []Outcome {
		e, ok := c.regexp(0)
		if !ok {
			return c.limit("")
		}
		return strs(c, regexp.MustCompile(e).SubexpNames())
	}
	externs["(*regexp.Regexp).SubexpIndex"] = func(c *ctx) []Outcome {
		e, ok := c.regexp(0)
		n, ok2 := c.str(1).strConst()
		if !ok || !ok2 {
			return c.limit("")
		}
		return c.ret(TInt(int64(regexp.MustCompile(e).SubexpIndex(n))))
	}
	externs["(*regexp.Regexp).FindStringSubmatch"] = func(c *ctx) []Outcome {
		e, ok := c.regexp(0)
		if !ok {
			return c.limit("")
		}
		s := c.str(1)
		res := c.signature().Results().At(0).Type()
		str := types.Typ[types.String]
		if k, ok := s.strConst(); ok {
			m := regexp.MustCompile(e).FindStringSubmatch(k)
			if m == nil {
				return c.ret(zeroVal(res))
			}
			return strs(c, m)
		}
		n := regexp.MustCompile(e).NumSubexp()
		list := func(st *State, groups map[int]*Term) []Outcome {
			vs := []Value{s}
			for g := 1; g <= n; g++ {
				if t, ok := groups[g]; ok {
					vs = append(vs, t)
				} else {
					vs = append(vs, TStr(""))
				}
			}
			return []Outcome{{st, c.ex.newSlice(st, str, &SeqV{elem: str, segs: []Seg{{vals: vs}}})}}
		}
		ss := anchoredShapes(e)
		m, ok := matchTerm(e, s)
		if !ok || ss == nil {
			return c.limit("")
		}
		none := func(st *State) []Outcome { return []Outcome{{st, zeroVal(res)}} }
		if m.isFalse() {
			return none(c.st)
		}
		if gs, ok := exactGroups(e, ss, s); ok {
			return list(c.st, gs)
		}
		return c.ex.fork(c.st, m, func(st *State) []Outcome {
			// one of the shapes
			conds := make([]*Term, len(ss))
			groups := make([]map[int]*Term, len(ss))
			for i, sh := range ss {
				gs := map[int]*Term{}
				k := 0
				ts := flatten(sh, func(re *syntax.Regexp) *Term {
					k++
					body, _ := smtOfSyntax(re)
					if re.Op == syntax.OpLiteral {
						return TStr(string(re.Rune))
					}
					t := App("re:"+e+"#"+strconv.Itoa(i)+"#"+strconv.Itoa(k), SStr, s)
					if len(t.axioms) == 0 {
						// (of texts which don't have this shape, a text of the form it
						// would have if they had)
						t.axioms = append(t.axioms, InRe(t, body))
					}
					return t
				}, gs)
				conds[i] = Eq(s, Concat(append(ts, TStr(""))...))
				groups[i] = gs
			}
			var step func(st *State, i int) []Outcome
			step = func(st *State, i int) []Outcome {
				if i == len(ss)-1 {
					st.assume(conds[i])
					return list(st, groups[i])
				}
				return c.ex.fork(st, conds[i], func(st *State) []Outcome { return list(st, groups[i]) }, func(st *State) []Outcome { return step(st, i+1) })
			}
			return step(st, 0)
		}, none)
	}
}

func (ex *Exec) anyText(st *State, re Value, not bool) []Outcome {
	e, ok := re.(*Term).strConst()
	if !ok {
		ex.unsupported("an expression which is not constant")
		return nil
	}
	p, err := syntax.Parse(e, syntax.Perl)
	var body string
	if err == nil {
		body, ok = smtOfLangExpr(p)
	}
	if err != nil || !ok {
		ex.unsupported("the expression %s", e)
		return nil
	}
	t := App(st.event("text").path, SStr)
	if m := InRe(t, body); not {
		t.axioms = append(t.axioms, Not(m))
	} else {
		t.axioms = append(t.axioms, m)
	}
	return []Outcome{{st, t}}
}
