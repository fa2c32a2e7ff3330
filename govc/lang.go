package main

// Regular languages over bytes, as minimal automata: what is known of the form
// of a text. Facts of the form "this text matches that expression" are carried
// through concatenation and trimming here, exactly, because the string solvers
// do not manage to.

import (
	"fmt"
	"regexp/syntax"
	"strconv"
	"strings"
	"sync"
)

type byteSet [4]uint64

func (s *byteSet) add(b byte)      { s[b>>6] |= 1 << (b & 63) }
func (s *byteSet) has(b byte) bool { return s[b>>6]&(1<<(b&63)) != 0 }
func setOf(cs string) (s byteSet) {
	for i := 0; i < len(cs); i++ {
		s.add(cs[i])
	}
	return
}
func setRange(a, b byte) (s byteSet) {
	for i := int(a); i <= int(b); i++ {
		s.add(byte(i))
	}
	return
}

// Lang is a complete deterministic automaton with start state 0.
type Lang struct {
	next [][256]int16
	acc  []bool
	key  string
}

// nfa is a scratch automaton.
type nfa struct {
	eps   [][]int
	edges [][]nedge
	acc   []bool
}
type nedge struct {
	set byteSet
	to  int
}

func (n *nfa) state() int {
	n.eps, n.edges, n.acc = append(n.eps, nil), append(n.edges, nil), append(n.acc, false)
	return len(n.eps) - 1
}
func (n *nfa) e(a, b int)                 { n.eps[a] = append(n.eps[a], b) }
func (n *nfa) on(a int, s byteSet, b int) { n.edges[a] = append(n.edges[a], nedge{s, b}) }

// embed adds l, with its accepting states leading to out.
func (n *nfa) embed(l *Lang, out int) int {
	base := len(n.eps)
	for range l.next {
		n.state()
	}
	for i := range l.next {
		sets := map[int16]*byteSet{}
		for b := 0; b < 256; b++ {
			to := l.next[i][b]
			if sets[to] == nil {
				sets[to] = new(byteSet)
			}
			sets[to].add(byte(b))
		}
		for to, s := range sets {
			n.on(base+i, *s, base+int(to))
		}
		if l.acc[i] {
			n.e(base+i, out)
		}
	}
	return base
}

const maxStates = 3000

// det determinizes n from the given start states; nil if it gets too big.
func (n *nfa) det(starts ...int) *Lang {
	closure := func(in []int) ([]int, string) {
		seen := make([]bool, len(n.eps))
		var out []int
		var walk func(i int)
		walk = func(i int) {
			if seen[i] {
				return
			}
			seen[i] = true
			for _, j := range n.eps[i] {
				walk(j)
			}
		}
		for _, i := range in {
			walk(i)
		}
		var k strings.Builder
		for i, s := range seen {
			if s {
				out = append(out, i)
				k.WriteString(strconv.Itoa(i))
				k.WriteByte(' ')
			}
		}
		return out, k.String()
	}
	ids := map[string]int16{}
	var sets [][]int
	l := &Lang{}
	get := func(in []int) int16 {
		s, k := closure(in)
		if id, ok := ids[k]; ok {
			return id
		}
		id := int16(len(sets))
		ids[k] = id
		sets = append(sets, s)
		a := false
		for _, i := range s {
			a = a || n.acc[i]
		}
		l.acc = append(l.acc, a)
		l.next = append(l.next, [256]int16{})
		return id
	}
	get(starts)
	// bytes which no edge tells apart
	var distinct []byteSet
	known := map[byteSet]bool{}
	for _, es := range n.edges {
		for _, e := range es {
			if !known[e.set] {
				known[e.set] = true
				distinct = append(distinct, e.set)
			}
		}
	}
	var class [256]int
	var reps []byte
	sigs := map[string]int{}
	for b := 0; b < 256; b++ {
		sig := make([]byte, len(distinct))
		for i := range distinct {
			if distinct[i].has(byte(b)) {
				sig[i] = 1
			}
		}
		c, ok := sigs[string(sig)]
		if !ok {
			c = len(reps)
			sigs[string(sig)] = c
			reps = append(reps, byte(b))
		}
		class[b] = c
	}
	for i := 0; i < len(sets); i++ {
		if len(sets) > maxStates {
			return nil
		}
		to := make([]int16, len(reps))
		for c, b := range reps {
			var qs []int
			for _, q := range sets[i] {
				for k := range n.edges[q] {
					if n.edges[q][k].set.has(b) {
						qs = append(qs, n.edges[q][k].to)
					}
				}
			}
			to[c] = get(qs)
		}
		for b := 0; b < 256; b++ {
			l.next[i][b] = to[class[b]]
		}
	}
	return l.minimize()
}

// minimize merges equivalent states, numbering them in order of discovery, so
// that equal languages have equal automata.
func (l *Lang) minimize() *Lang {
	cls := make([]int, len(l.acc))
	for i, a := range l.acc {
		if a {
			cls[i] = 1
		}
	}
	count := 0
	for {
		ids := map[string]int{}
		nc := make([]int, len(cls))
		for i := range cls {
			var k strings.Builder
			k.WriteString(strconv.Itoa(cls[i]))
			last := -1
			for b := 0; b < 256; b++ {
				c := cls[l.next[i][b]]
				if c != last {
					fmt.Fprintf(&k, " %d:%d", b, c)
					last = c
				}
			}
			id, ok := ids[k.String()]
			if !ok {
				id = len(ids)
				ids[k.String()] = id
			}
			nc[i] = id
		}
		cls = nc
		if len(ids) == count {
			break
		}
		count = len(ids)
	}
	// renumber breadth first
	num := map[int]int16{cls[0]: 0}
	rep := []int{0}
	m := &Lang{}
	for i := 0; i < len(rep); i++ {
		var row [256]int16
		for b := 0; b < 256; b++ {
			q := int(l.next[rep[i]][b])
			id, ok := num[cls[q]]
			if !ok {
				id = int16(len(rep))
				num[cls[q]] = id
				rep = append(rep, q)
			}
			row[b] = id
		}
		m.next = append(m.next, row)
		m.acc = append(m.acc, l.acc[rep[i]])
	}
	var k strings.Builder
	for i := range m.next {
		fmt.Fprintf(&k, "|%v", m.acc[i])
		last := int16(-1)
		for b := 0; b < 256; b++ {
			if m.next[i][b] != last {
				last = m.next[i][b]
				fmt.Fprintf(&k, " %d:%d", b, last)
			}
		}
	}
	m.key = k.String()
	return m
}

func langWith(build func(n *nfa, out int) int) *Lang {
	n := &nfa{}
	out := n.state()
	n.acc[out] = true
	return n.det(build(n, out))
}

var (
	langAll  = langWith(func(n *nfa, out int) int { n.on(out, setRange(0, 255), out); return out })
	langNone = langWith(func(n *nfa, out int) int { return n.state() })
)

func langStr(s string) *Lang {
	return langWith(func(n *nfa, out int) int {
		q := n.state()
		first := q
		for i := 0; i < len(s); i++ {
			r := n.state()
			n.on(q, setOf(s[i:i+1]), r)
			q = r
		}
		n.e(q, out)
		return first
	})
}

func langSet(s byteSet) *Lang {
	return langWith(func(n *nfa, out int) int {
		q := n.state()
		n.on(q, s, out)
		return q
	})
}

func langCat(a, b *Lang) *Lang {
	if a == nil || b == nil {
		return nil
	}
	return langWith(func(n *nfa, out int) int {
		m := n.embed(b, out)
		return n.embed(a, m)
	})
}

func langAlt(a, b *Lang) *Lang {
	if a == nil || b == nil {
		return nil
	}
	if a.key == b.key {
		return a
	}
	return langWith(func(n *nfa, out int) int {
		q := n.state()
		n.e(q, n.embed(a, out))
		n.e(q, n.embed(b, out))
		return q
	})
}

func langStar(a *Lang) *Lang {
	if a == nil {
		return nil
	}
	return langWith(func(n *nfa, out int) int {
		q := n.state()
		n.e(q, out)
		n.e(q, n.embed(a, q))
		return q
	})
}

func langNot(a *Lang) *Lang {
	if a == nil {
		return nil
	}
	m := &Lang{next: a.next}
	for _, x := range a.acc {
		m.acc = append(m.acc, !x)
	}
	return m.minimize()
}

func langAnd(a, b *Lang) *Lang {
	if a == nil || b == nil {
		return nil
	}
	type pair struct{ i, j int16 }
	ids := map[pair]int16{{0, 0}: 0}
	list := []pair{{0, 0}}
	l := &Lang{}
	for k := 0; k < len(list); k++ {
		if len(list) > maxStates {
			return nil
		}
		p := list[k]
		var row [256]int16
		for c := 0; c < 256; c++ {
			q := pair{a.next[p.i][c], b.next[p.j][c]}
			id, ok := ids[q]
			if !ok {
				id = int16(len(list))
				ids[q] = id
				list = append(list, q)
			}
			row[c] = id
		}
		l.next = append(l.next, row)
		l.acc = append(l.acc, a.acc[p.i] && b.acc[p.j])
	}
	return l.minimize()
}

func (l *Lang) empty() bool { return l.key == langNone.key }
func (l *Lang) all() bool   { return l.key == langAll.key }
func (l *Lang) has(s string) bool {
	q := int16(0)
	for i := 0; i < len(s); i++ {
		q = l.next[q][s[i]]
	}
	return l.acc[q]
}

// trimRight is the language of what is left of the words of l once the bytes
// of set are cut off their ends.
func (l *Lang) trimRight(set byteSet) *Lang {
	m := &Lang{next: l.next, acc: append([]bool{}, l.acc...)}
	for changed := true; changed; {
		changed = false
		for i := range m.next {
			for b := 0; b < 256 && !m.acc[i]; b++ {
				if set.has(byte(b)) && m.acc[m.next[i][b]] {
					m.acc[i] = true
					changed = true
				}
			}
		}
	}
	return langAnd(m.minimize(), langNot(langCat(langAll, langSet(set))))
}

// factors is the language of the parts of the words of l.
func (l *Lang) factors() *Lang {
	n := &nfa{}
	out := n.state()
	n.acc[out] = true
	base := n.embed(l, out)
	live := make([]bool, len(l.next))
	for changed := true; changed; {
		changed = false
		for i := range l.next {
			for b := 0; b < 256 && !live[i]; b++ {
				if l.acc[i] || live[l.next[i][b]] {
					live[i], changed = true, true
				}
			}
		}
	}
	var starts []int
	for i := range l.next {
		if live[i] {
			n.e(base+i, out)
			starts = append(starts, base+i)
		}
	}
	return n.det(starts...)
}

func (l *Lang) trimLeft(set byteSet) *Lang {
	n := &nfa{}
	out := n.state()
	n.acc[out] = true
	base := n.embed(l, out)
	seen := map[int16]bool{0: true}
	work := []int16{0}
	starts := []int{base}
	for len(work) > 0 {
		q := work[0]
		work = work[1:]
		for b := 0; b < 256; b++ {
			if r := l.next[q][b]; set.has(byte(b)) && !seen[r] {
				seen[r] = true
				work = append(work, r)
				starts = append(starts, base+int(r))
			}
		}
	}
	return langAnd(n.det(starts...), langNot(langCat(langSet(set), langAll)))
}

var (
	langMu    sync.Mutex
	smtLangs  = map[string]*Lang{}
	termLangs = map[*Term]*Lang{}
	relMemo   = map[string]bool{}
)

func (l *Lang) within(m *Lang) bool {
	if l.key == m.key || m.all() {
		return true
	}
	d := langAnd(l, langNot(m))
	return d != nil && d.empty()
}
func (l *Lang) disjoint(m *Lang) bool {
	d := langAnd(l, m)
	return d != nil && d.empty()
}

// smtLang reads the SMT-LIB expressions this program writes.
func smtLang(re string) *Lang {
	if l, ok := smtLangs[re]; ok {
		return l
	}
	p := &smtReader{s: re}
	l := p.re()
	if p.bad {
		l = nil
	}
	smtLangs[re] = l
	return l
}

type smtReader struct {
	s   string
	bad bool
}

func (p *smtReader) tok() string {
	p.s = strings.TrimLeft(p.s, " ")
	if p.s == "" {
		p.bad = true
		return ""
	}
	switch p.s[0] {
	case '(', ')':
		t := p.s[:1]
		p.s = p.s[1:]
		return t
	case '"':
		i := 1
		for i < len(p.s) {
			if p.s[i] == '"' {
				if i+1 < len(p.s) && p.s[i+1] == '"' {
					i += 2
					continue
				}
				break
			}
			i++
		}
		if i >= len(p.s) {
			p.bad = true
			return ""
		}
		t := p.s[:i+1]
		p.s = p.s[i+1:]
		return t
	}
	i := strings.IndexAny(p.s, " ()")
	if i < 0 {
		i = len(p.s)
	}
	t := p.s[:i]
	p.s = p.s[i:]
	return t
}

func (p *smtReader) lit() string {
	t := p.tok()
	if len(t) < 2 || t[0] != '"' {
		p.bad = true
		return ""
	}
	t = strings.ReplaceAll(t[1:len(t)-1], `""`, `"`)
	var b strings.Builder
	for i := 0; i < len(t); i++ {
		if strings.HasPrefix(t[i:], `\u{`) {
			j := strings.IndexByte(t[i:], '}')
			if j > 0 {
				if v, err := strconv.ParseUint(t[i+3:i+j], 16, 16); err == nil && v < 256 {
					b.WriteByte(byte(v))
					i += j
					continue
				}
			}
			p.bad = true
		}
		b.WriteByte(t[i])
	}
	return b.String()
}

func (p *smtReader) re() *Lang {
	if p.bad {
		return nil
	}
	switch t := p.tok(); t {
	case "re.all":
		return langAll
	case "re.none":
		return langNone
	case "re.allchar":
		return langSet(setRange(0, 255))
	case "(":
		op := p.tok()
		var l *Lang
		switch op {
		case "str.to_re":
			l = langStr(p.lit())
		case "re.range":
			a, b := p.lit(), p.lit()
			if len(a) != 1 || len(b) != 1 {
				p.bad = true
				return nil
			}
			l = langSet(setRange(a[0], b[0]))
		default:
			var as []*Lang
			for !p.bad && !strings.HasPrefix(strings.TrimLeft(p.s, " "), ")") {
				as = append(as, p.re())
			}
			for _, a := range as {
				if a == nil {
					p.bad = true
				}
			}
			if p.bad || len(as) == 0 {
				p.bad = true
				return nil
			}
			l = as[0]
			switch op {
			case "re.++":
				for _, a := range as[1:] {
					l = langCat(l, a)
				}
			case "re.union":
				for _, a := range as[1:] {
					l = langAlt(l, a)
				}
			case "re.inter":
				for _, a := range as[1:] {
					l = langAnd(l, a)
				}
			case "re.*":
				l = langStar(l)
			case "re.+":
				l = langCat(l, langStar(l))
			case "re.opt":
				l = langAlt(langStr(""), l)
			case "re.comp":
				l = langNot(l)
			default:
				p.bad = true
			}
		}
		if p.tok() != ")" || l == nil {
			p.bad = true
		}
		return l
	}
	p.bad = true
	return nil
}

var asciiWS = setOf(" \t\r\n\v\f")
var langASCII = langStar(langSet(setRange(0, 127)))

// langOf is a language which t is known to be in, or nil.
func langOf(t *Term) *Lang {
	langMu.Lock()
	defer langMu.Unlock()
	return langRec(t)
}

func langRec(t *Term) *Lang {
	if t.sort != SStr {
		return nil
	}
	if c, ok := t.strConst(); ok {
		if len(c) > 200 {
			return nil
		}
		return langStr(c)
	}
	// Facts are only ever added to a term when it is made.
	if l, ok := termLangs[t]; ok {
		return l
	}
	var l *Lang
	switch t.op {
	case OConcat:
		if len(t.args) > 30 {
			break
		}
		known := false
		l = langStr("")
		for _, a := range t.args {
			m := langRec(a)
			if m == nil {
				m = langAll
			} else {
				known = true
			}
			if l = langCat(l, m); l == nil {
				break
			}
		}
		if !known {
			l = nil
		}
	case OSubstr:
		s := langRec(t.args[0])
		if s != nil {
			l = s.factors()
		}
		// up to the first occurrence of a byte
		if o, ok := t.args[1].intConst(); ok && o == 0 && t.args[2].op == OIndexOf && t.args[2].args[0] == t.args[0] {
			if c, ok := t.args[2].args[1].strConst(); ok && len(c) == 1 {
				m := langNot(langCat(langAll, langCat(langStr(c), langAll)))
				if l == nil {
					l = m
				} else if both := langAnd(l, m); both != nil {
					l = both
				}
			}
		}
	case OIte:
		if a := langRec(t.args[1]); a != nil {
			if b := langRec(t.args[2]); b != nil {
				l = langAlt(a, b)
			}
		}
	case OApp:
		if len(t.args) == 1 {
			l = langTrim(t)
		}
		for _, a := range t.axioms {
			neg := false
			if a.op == ONot {
				a, neg = a.args[0], true
			}
			if a.op != OInRe || a.args[0] != t {
				continue
			}
			m := smtLang(a.name)
			if neg {
				m = langNot(m)
			}
			if m == nil {
				continue
			}
			if l == nil {
				l = m
			} else if both := langAnd(l, m); both != nil {
				l = both
			}
		}
	}
	if l != nil && l.all() {
		l = nil
	}
	if t.op != OApp || len(t.axioms) > 0 || l != nil {
		termLangs[t] = l
	}
	return l
}

func langTrim(t *Term) *Lang {
	s := langRec(t.args[0])
	if s == nil {
		return nil
	}
	name, cut, _ := strings.Cut(t.name, ":")
	switch name {
	case "strings.Trim":
		if s = s.trimLeft(setOf(cut)); s != nil {
			s = s.trimRight(setOf(cut))
		}
		return s
	case "strings.TrimLeft":
		return s.trimLeft(setOf(cut))
	case "strings.TrimRight":
		return s.trimRight(setOf(cut))
	case "strings.TrimSpace", "strings.TrimLeftSpace", "strings.TrimRightSpace":
		if !s.within(langASCII) || name != "strings.TrimSpace" {
			return s.factors()
		}
		if s = s.trimLeft(asciiWS); s != nil {
			s = s.trimRight(asciiWS)
		}
		return s
	}
	return nil
}

// decide says whether the form of t settles that it is in m.
func decide(t *Term, m *Lang) (in, known bool) {
	l := langOf(t)
	if l == nil || m == nil {
		return false, false
	}
	langMu.Lock()
	defer langMu.Unlock()
	k := l.key + "#" + m.key
	if r, ok := relMemo[k+"in"]; ok && r {
		return true, true
	} else if ok {
		if relMemo[k+"out"] {
			return false, true
		}
		return false, false
	}
	in = l.within(m)
	out := !in && l.disjoint(m)
	relMemo[k+"in"], relMemo[k+"out"] = in, out
	return in, in || out
}

var litLangs = map[string]*Lang{}

func memoLang(k string, f func() *Lang) *Lang {
	langMu.Lock()
	defer langMu.Unlock()
	l, ok := litLangs[k]
	if !ok {
		l = f()
		litLangs[k] = l
	}
	return l
}
func containing(s string) *Lang {
	return memoLang("c"+s, func() *Lang { return langCat(langAll, langCat(langStr(s), langAll)) })
}
func beginning(s string) *Lang {
	return memoLang("b"+s, func() *Lang { return langCat(langStr(s), langAll) })
}
func ending(s string) *Lang {
	return memoLang("e"+s, func() *Lang { return langCat(langAll, langStr(s)) })
}
func exactly(s string) *Lang { return memoLang("="+s, func() *Lang { return langStr(s) }) }
func reLang(re string) *Lang {
	langMu.Lock()
	defer langMu.Unlock()
	return smtLang(re)
}
func lacking(cs string) *Lang {
	return memoLang("l"+cs, func() *Lang { return langNot(langCat(langAll, langCat(langSet(setOf(cs)), langAll))) })
}

// without says that no byte of cs occurs in t.
func without(t *Term, cs string) bool {
	in, ok := decide(t, lacking(cs))
	return ok && in
}

// regexpLang is the language of the texts which a Go expression matches.
func regexpLang(expr string) *Lang {
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil
	}
	// Two copies of the program: at the beginning of the text, and later.
	n := &nfa{}
	k := len(prog.Inst)
	for i := 0; i < 2*k; i++ {
		n.state()
	}
	scan, end, sure := n.state(), n.state(), n.state()
	n.acc[end], n.acc[sure] = true, true
	any := setRange(0, 255)
	n.on(scan, any, scan)
	n.e(scan, k+prog.Start)
	n.on(sure, any, sure)
	// the states from which only the end of the text follows
	atEnd := make([]int, k)
	for i := range atEnd {
		atEnd[i] = n.state()
	}
	for i, in := range prog.Inst {
		for c := 0; c < 2; c++ {
			q := c*k + i
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				n.e(q, c*k+int(in.Out))
				n.e(q, c*k+int(in.Arg))
			case syntax.InstCapture, syntax.InstNop:
				n.e(q, c*k+int(in.Out))
			case syntax.InstEmptyWidth:
				w := syntax.EmptyOp(in.Arg)
				switch w {
				case syntax.EmptyBeginText:
					if c == 0 {
						n.e(q, int(in.Out))
					}
				case syntax.EmptyEndText:
					n.e(q, atEnd[in.Out])
				default:
					return nil
				}
			case syntax.InstMatch:
				n.e(q, sure)
			case syntax.InstFail:
			default:
				s, ok := runeSet(in)
				if !ok {
					return nil
				}
				n.on(q, s, k+int(in.Out))
			}
		}
		q := atEnd[i]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			n.e(q, atEnd[in.Out])
			n.e(q, atEnd[in.Arg])
		case syntax.InstCapture, syntax.InstNop:
			n.e(q, atEnd[in.Out])
		case syntax.InstEmptyWidth:
			// (an expression like $^ would be needed to get to a ^ here)
			if w := syntax.EmptyOp(in.Arg); w == syntax.EmptyEndText {
				n.e(q, atEnd[in.Out])
			} else if w != syntax.EmptyBeginText {
				return nil
			}
		case syntax.InstMatch:
			n.e(q, end)
		}
	}
	start := n.state()
	n.e(start, prog.Start)
	n.on(start, any, scan)
	return n.det(start)
}

// runeSet is the set of the ASCII characters an instruction matches, provided
// that it matches no others.
func runeSet(in syntax.Inst) (s byteSet, ok bool) {
	for b := 0; b < 128; b++ {
		if in.MatchRune(rune(b)) {
			s.add(byte(b))
		}
	}
	if in.Op == syntax.InstRuneAny || in.Op == syntax.InstRuneAnyNotNL {
		return s, false
	}
	for _, r := range in.Rune {
		if r >= 128 {
			return s, false
		}
	}
	if len(in.Rune) == 1 && syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
		// K and S have a non-ASCII form
		return s, false
	}
	return s, true
}

// smtOf writes a language which was read from a Go expression.
func smtOfSyntax(re *syntax.Regexp) (string, bool) {
	join := func(op string, parts []string) string {
		if len(parts) == 1 {
			return parts[0]
		}
		return "(" + op + " " + strings.Join(parts, " ") + ")"
	}
	subs := func() ([]string, bool) {
		var ps []string
		for _, s := range re.Sub {
			p, ok := smtOfSyntax(s)
			if !ok {
				return nil, false
			}
			ps = append(ps, p)
		}
		return ps, true
	}
	switch re.Op {
	case syntax.OpEmptyMatch:
		return `(str.to_re "")`, true
	case syntax.OpLiteral:
		if re.Flags&syntax.FoldCase != 0 {
			return "", false
		}
		for _, r := range re.Rune {
			if r >= 128 {
				return "", false
			}
		}
		return "(str.to_re " + smtStr(string(re.Rune)) + ")", true
	case syntax.OpCharClass:
		var ps []string
		for i := 0; i+1 < len(re.Rune); i += 2 {
			if re.Rune[i+1] >= 128 {
				return "", false
			}
			ps = append(ps, "(re.range "+smtStr(string(re.Rune[i]))+" "+smtStr(string(re.Rune[i+1]))+")")
		}
		if len(ps) == 0 {
			return "re.none", true
		}
		return join("re.union", ps), true
	case syntax.OpCapture:
		return smtOfSyntax(re.Sub[0])
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
		p, ok := smtOfSyntax(re.Sub[0])
		return map[syntax.Op]string{syntax.OpStar: "(re.* ", syntax.OpPlus: "(re.+ ", syntax.OpQuest: "(re.opt "}[re.Op] + p + ")", ok
	case syntax.OpConcat:
		ps, ok := subs()
		return join("re.++", ps), ok
	case syntax.OpAlternate:
		ps, ok := subs()
		return join("re.union", ps), ok
	case syntax.OpRepeat:
		p, ok := smtOfSyntax(re.Sub[0])
		if re.Max < 0 || re.Max > 64 || !ok {
			return "", false
		}
		var ps []string
		for i := 0; i < re.Max; i++ {
			if i < re.Min {
				ps = append(ps, p)
			} else {
				ps = append(ps, "(re.opt "+p+")")
			}
		}
		if len(ps) == 0 {
			return `(str.to_re "")`, true
		}
		return join("re.++", ps), true
	}
	return "", false
}
