package main

// SMT-LIB printing and solver processes.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c < 32 || c >= 127 || c == '\\':
			fmt.Fprintf(&b, `\u{%x}`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}
func smtRat(r *big.Rat) string {
	n, d := r.Num(), r.Denom()
	s := new(big.Int).Abs(n).String() + ".0"
	if d.Cmp(big.NewInt(1)) != 0 {
		s = "(/ " + s + " " + d.String() + ".0)"
	}
	if n.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return s
}

func quote(n string) string {
	return "|" + strings.NewReplacer("|", "!", "\\", "/").Replace(n) + "|"
}

type smtPrinter struct {
	b       strings.Builder
	decl    map[string]bool
	defs    map[*Term]string
	bound   map[*Term]bool
	refs    map[*Term]int
	pending []*Term // axioms to assert
	seen    map[*Term]bool
}

func newPrinter() *smtPrinter {
	return &smtPrinter{decl: map[string]bool{}, defs: map[*Term]string{}, bound: map[*Term]bool{}, refs: map[*Term]int{}, seen: map[*Term]bool{}}
}

func (p *smtPrinter) scan(t *Term) bool {
	p.refs[t]++
	if p.seen[t] {
		return p.bound[t]
	}
	p.seen[t] = true
	if t.op == OBound {
		p.bound[t] = true
		return true
	}
	hb := false
	for i, a := range t.args {
		if t.op == OForall && i == 0 {
			continue
		}
		if p.scan(a) {
			hb = true
		}
	}
	if t.op == OForall {
		// closed unless nested
		hb = freeBound(t, map[*Term]bool{})
	}
	p.bound[t] = hb
	if t.op == OApp {
		key := fmt.Sprintf("%s/%d/%d", t.name, t.sort, len(t.args))
		for _, a := range t.args {
			key += a.sort.String()
		}
		if !p.decl[key] {
			p.decl[key] = true
			var s []string
			for _, a := range t.args {
				s = append(s, a.sort.String())
			}
			fmt.Fprintf(&p.b, "(declare-fun %s (%s) %s)\n", quote(p.fname(t)), strings.Join(s, " "), t.sort)
		}
	}
	if !hb {
		p.pending = append(p.pending, t.axioms...)
	}
	return hb
}

func freeBound(t *Term, bound map[*Term]bool) bool {
	if t.op == OBound {
		return !bound[t]
	}
	if t.op == OForall {
		if freeBound(t.args[1], bound) {
			return true
		}
		old := bound[t.args[0]]
		bound[t.args[0]] = true
		r := freeBound(t.args[2], bound)
		bound[t.args[0]] = old
		return r
	}
	for _, a := range t.args {
		if freeBound(a, bound) {
			return true
		}
	}
	return false
}

func (p *smtPrinter) fname(t *Term) string {
	// overloads by arity/sort get distinct names
	s := t.name + "/" + t.sort.String()[:1]
	for _, a := range t.args {
		s += a.sort.String()[:1]
	}
	return s
}

func (p *smtPrinter) expr(t *Term, top bool) string {
	if !top {
		if d, ok := p.defs[t]; ok {
			return d
		}
		if p.refs[t] > 1 && !p.bound[t] && len(t.args) > 0 {
			e := p.expr(t, true)
			d := fmt.Sprintf("$%d", t.id)
			fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", d, t.sort, e)
			p.defs[t] = d
			return d
		}
	}
	a := func(i int) string { return p.expr(t.args[i], false) }
	all := func(op string) string {
		s := "(" + op
		for i := range t.args {
			s += " " + a(i)
		}
		return s + ")"
	}
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			return fmt.Sprint(t.bval)
		case SInt:
			return smtInt(t.ival)
		case SReal:
			return smtRat(t.rval)
		default:
			return smtStr(t.sval)
		}
	case OApp:
		if len(t.args) == 0 {
			return quote(p.fname(t))
		}
		return all(quote(p.fname(t)))
	case OBound:
		return quote(t.name)
	case ONot:
		return all("not")
	case OAnd:
		return all("and")
	case OOr:
		return all("or")
	case OIte:
		return all("ite")
	case OEq:
		return all("=")
	case OLt:
		return all("<")
	case OLe:
		return all("<=")
	case OAdd:
		return all("+")
	case OMul:
		return all("*")
	case ODiv, OMod:
		// Go truncates towards zero
		x, y := a(0), a(1)
		op := "div"
		if t.op == OMod {
			if c := t.args[1]; c.isConst() && c.ival.Sign() > 0 {
				return fmt.Sprintf("(ite (>= %s 0) (mod %s %s) (- (mod (- %s) %s)))", x, x, y, x, y)
			}
			return fmt.Sprintf("(ite (>= %s 0) (mod %s (abs %s)) (- (mod (- %s) (abs %s))))", x, x, y, x, y)
		}
		if c := t.args[1]; c.isConst() && c.ival.Sign() > 0 {
			return fmt.Sprintf("(ite (>= %s 0) (%s %s %s) (- (%s (- %s) %s)))", x, op, x, y, op, x, y)
		}
		return fmt.Sprintf("(ite (= (>= %s 0) (>= %s 0)) (div (abs %s) (abs %s)) (- (div (abs %s) (abs %s))))", x, y, x, y, x, y)
	case OLen:
		return all("str.len")
	case OConcat:
		return all("str.++")
	case OPrefix:
		return all("str.prefixof")
	case OSuffix:
		return all("str.suffixof")
	case OContains:
		return all("str.contains")
	case OSubstr:
		return all("str.substr")
	case OIndexOf:
		return all("str.indexof")
	case OReplaceAll:
		return all("str.replace_all")
	case OAt:
		return "(str.to_code (str.at " + a(0) + " " + a(1) + "))"
	case OInRe:
		return "(str.in_re " + a(0) + " " + t.name + ")"
	case OStrLt:
		return all("str.<")
	case OToReal:
		return all("to_real")
	case OForall:
		v := quote(t.args[0].name)
		return fmt.Sprintf("(forall ((%s Int)) (=> (and (<= 0 %s) (< %s %s)) %s))", v, v, v, a(1), a(2))
	}
	panic("smt: op")
}

// query text asserting all of ts
func smtQuery(ts []*Term) string {
	p := newPrinter()
	var roots []*Term
	done := map[*Term]bool{}
	add := func(t *Term) {
		if t != TTrue && !done[t] {
			done[t] = true
			roots = append(roots, t)
			p.scan(t)
		}
	}
	for _, t := range ts {
		add(t)
	}
	for len(p.pending) > 0 {
		q := p.pending
		p.pending = nil
		for _, t := range q {
			add(t)
		}
	}
	for _, t := range roots {
		e := p.expr(t, false)
		fmt.Fprintf(&p.b, "(assert %s)\n", e)
	}
	return p.b.String()
}

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type solverProc struct {
	name string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
}

var solverCmds = map[string][]string{
	"z3-new": {"z3-new", "-in", "-smt2"},
	"z3":     {"z3", "-in", "-smt2"},
	"cvc5":   {"cvc5", "--incremental", "--strings-exp", "--lang=smt2", "-q"},
}

func startSolver(name string) (*solverProc, error) {
	c := solverCmds[name]
	cmd := exec.Command(c[0], c[1:]...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &solverProc{name, cmd, in, bufio.NewReader(out)}, nil
}

func (s *solverProc) kill() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

type solverPool struct {
	mu    sync.Mutex
	idle  map[string][]*solverProc
	stats map[string]*int64
	nanos int64
	calls int64
}

var pool = &solverPool{idle: map[string][]*solverProc{}}

func (p *solverPool) get(name string) (*solverProc, error) {
	p.mu.Lock()
	if l := p.idle[name]; len(l) > 0 {
		s := l[len(l)-1]
		p.idle[name] = l[:len(l)-1]
		p.mu.Unlock()
		return s, nil
	}
	p.mu.Unlock()
	return startSolver(name)
}
func (p *solverPool) put(s *solverProc) {
	p.mu.Lock()
	p.idle[s.name] = append(p.idle[s.name], s)
	p.mu.Unlock()
}
func (p *solverPool) closeAll() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, l := range p.idle {
		for _, s := range l {
			s.kill()
		}
	}
	p.idle = map[string][]*solverProc{}
}

// solve runs one query on one solver; getvals lists terms whose model values
// are wanted if satisfiable.
func solve(name, query string, timeout time.Duration, getvals []string) (Result, []string) {
	t0 := time.Now()
	defer func() {
		if d := time.Since(t0); slowDir != "" && d > 300*time.Millisecond {
			os.WriteFile(fmt.Sprintf("%s/%06d-%d.smt2", slowDir, d.Milliseconds(), atomic.AddInt64(&slowSeq, 1)), []byte(query), 0o644)
		}
		atomic.AddInt64(&pool.nanos, int64(time.Since(t0)))
		atomic.AddInt64(&pool.calls, 1)
	}()
	s, err := pool.get(name)
	if err != nil {
		return Unknown, nil
	}
	var q strings.Builder
	q.WriteString("(reset)\n")
	if name == "cvc5" {
		q.WriteString("(set-option :produce-models true)\n")
		fmt.Fprintf(&q, "(set-option :tlimit-per %d)\n", timeout.Milliseconds())
		q.WriteString("(set-logic ALL)\n")
	} else {
		fmt.Fprintf(&q, "(set-option :timeout %d)\n", timeout.Milliseconds())
	}
	q.WriteString(query)
	q.WriteString("(check-sat)\n(echo \"--end\")\n")
	type res struct {
		lines []string
		err   error
	}
	read := func() res {
		var ls []string
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				return res{ls, err}
			}
			l = strings.TrimSpace(l)
			if l == "--end" || l == "\"--end\"" {
				return res{ls, nil}
			}
			ls = append(ls, l)
		}
	}
	ask := func(text string, limit time.Duration) (res, bool) {
		ch := make(chan res, 1)
		go func() {
			io.WriteString(s.in, text)
			ch <- read()
		}()
		select {
		case r := <-ch:
			return r, r.err == nil
		case <-time.After(limit):
			s.kill()
			<-ch
			return res{}, false
		}
	}
	r, ok := ask(q.String(), timeout+2*time.Second)
	if !ok {
		if r.err != nil {
			s.kill()
		}
		return Unknown, nil
	}
	verdict := Unknown
	for _, l := range r.lines {
		switch l {
		case "unsat":
			verdict = Unsat
		case "sat":
			verdict = Sat
		}
		if strings.HasPrefix(l, "(error") {
			if debugSMT {
				fmt.Println("solver:", name, l)
				fmt.Println(query)
			}
			solverErrors.Store(l, true)
			pool.put(s)
			return Unknown, nil
		}
	}
	var vals []string
	if verdict == Sat && len(getvals) > 0 {
		for _, g := range getvals {
			r, ok := ask("(get-value ("+g+"))\n(echo \"--end\")\n", 3*time.Second)
			if !ok {
				return verdict, vals
			}
			vals = append(vals, strings.Join(r.lines, " "))
		}
	}
	pool.put(s)
	return verdict, vals
}

var (
	debugSMT     bool
	solverErrors sync.Map
	satCache     sync.Map
)

// renamed is a query with its symbols numbered, so that queries which differ
// only in the names of the unknowns are asked once.
func renamed(q string) string {
	var b strings.Builder
	b.Grow(len(q))
	ids := map[string]int{}
	for i := 0; i < len(q); {
		c := q[i]
		j := i + 1
		switch c {
		case '"':
			for j < len(q) && q[j] != '"' {
				j++
			}
			j++
			b.WriteString(q[i:j])
			i = j
			continue
		case '|':
			for j < len(q) && q[j] != '|' {
				j++
			}
			j++
		case '$':
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
		default:
			b.WriteByte(c)
			i = j
			continue
		}
		n, ok := ids[q[i:j]]
		if !ok {
			n = len(ids)
			ids[q[i:j]] = n
		}
		b.WriteByte('$')
		b.WriteString(strconv.Itoa(n))
		i = j
	}
	return b.String()
}

// checkSat is the quick feasibility check used while exploring paths.
func checkSat(ts []*Term, timeout time.Duration) Result {
	for _, t := range ts {
		if t == TFalse {
			return Unsat
		}
	}
	ts = withoutRec(ts)
	q := smtQuery(ts)
	key := renamed(q)
	if v, ok := satCache.Load(key); ok {
		return v.(Result)
	}
	if strings.Contains(q, "(forall") {
		// whether it is satisfiable would take long to find out
		q = "(set-option :smt.mbqi false)\n" + q
	}
	r, _ := solve("z3-new", q, timeout, nil)
	satCache.Store(key, r)
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var symCache sync.Map // *Term -> map[string]bool

// symsOf: the uninterpreted symbols in a term and in the facts about it.
func symsOf(t *Term) map[string]bool {
	if m, ok := symCache.Load(t); ok {
		return m.(map[string]bool)
	}
	m := map[string]bool{}
	seen := map[*Term]bool{}
	todo := []*Term{t}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x.op == OApp {
			m[x.name] = true
		}
		todo = append(todo, x.args...)
		todo = append(todo, x.axioms...)
	}
	symCache.Store(t, m)
	return m
}

// cone keeps the facts which share symbols, transitively, with the goal.
func cone(pc []*Term, goal *Term) []*Term {
	syms := map[string]bool{}
	for s := range symsOf(goal) {
		syms[s] = true
	}
	in := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, t := range pc {
			if in[i] {
				continue
			}
			m := symsOf(t)
			hit := len(m) == 0
			for s := range m {
				if syms[s] {
					hit = true
					break
				}
			}
			if hit {
				in[i], changed = true, true
				for s := range m {
					syms[s] = true
				}
			}
		}
	}
	var out []*Term
	for i, t := range pc {
		if in[i] {
			out = append(out, t)
		}
	}
	return out
}

// queries which took long are written here (debugging)
var (
	slowDir = os.Getenv("GOVC_SLOW")
	slowSeq int64
)
