package main

// A quick, incomplete decision of linear integer comparisons from what is
// assumed, before a solver is asked: equalities are substituted, then bounds
// of the single terms are used, with at most two assumed inequalities.

import "math/big"

type lin struct {
	coef map[*Term]*big.Int
	c    *big.Int
}

func newLin() *lin { return &lin{map[*Term]*big.Int{}, new(big.Int)} }

func (l *lin) addTerm(t *Term, k *big.Int) bool {
	if t.sort != SInt {
		return false
	}
	switch {
	case t.isConst():
		l.c.Add(l.c, new(big.Int).Mul(t.ival, k))
	case t.op == OAdd:
		for _, a := range t.args {
			if !l.addTerm(a, k) {
				return false
			}
		}
	case t.op == OMul && len(t.args) == 2 && t.args[0].isConst():
		return l.addTerm(t.args[1], new(big.Int).Mul(k, t.args[0].ival))
	default:
		l.addVar(t, k)
	}
	return true
}

func (l *lin) addVar(t *Term, k *big.Int) {
	c := l.coef[t]
	if c == nil {
		c = new(big.Int)
		l.coef[t] = c
	}
	c.Add(c, k)
	if c.Sign() == 0 {
		delete(l.coef, t)
	}
}

// plus adds k times m.
func (l *lin) plus(m *lin, k *big.Int) {
	l.c.Add(l.c, new(big.Int).Mul(m.c, k))
	for t, c := range m.coef {
		l.addVar(t, new(big.Int).Mul(c, k))
	}
}

func (l *lin) clone() *lin {
	n := newLin()
	n.plus(l, bigOne)
	return n
}

var bigOne, bigMinus = big.NewInt(1), big.NewInt(-1)

// diff is b - a.
func diffLin(a, b *Term) *lin {
	l := newLin()
	if !l.addTerm(b, bigOne) || !l.addTerm(a, bigMinus) {
		return nil
	}
	return l
}

type linFacts struct {
	st   *State
	vars []*Term // eliminated, in order
	def  map[*Term]*lin
	ge   []*lin // these are not negative
	lo   map[*Term]*big.Int
	hi   map[*Term]*big.Int
}

func (f *linFacts) reduce(l *lin) {
	for _, v := range f.vars {
		if c := l.coef[v]; c != nil {
			k := new(big.Int).Set(c)
			delete(l.coef, v)
			l.plus(f.def[v], k)
		}
	}
}

func (st *State) linearFacts() *linFacts {
	f := &linFacts{st: st, def: map[*Term]*lin{}, lo: map[*Term]*big.Int{}, hi: map[*Term]*big.Int{}}
	eq := func(l *lin) {
		f.reduce(l)
		var v *Term
		for t, c := range l.coef {
			if c.CmpAbs(bigOne) == 0 && (v == nil || t.id > v.id) {
				v = t
			}
		}
		if v == nil {
			return
		}
		// v = -(rest)/c, where c is 1 or -1
		c := new(big.Int).Set(l.coef[v])
		delete(l.coef, v)
		d := newLin()
		d.plus(l, c.Neg(c))
		f.vars = append(f.vars, v)
		f.def[v] = d
	}
	for _, t := range st.pc {
		if t.op == OEq && t.args[0].sort == SInt {
			if l := diffLin(t.args[0], t.args[1]); l != nil {
				eq(l)
			}
		}
	}
	var ge func(t *Term, neg bool)
	ge = func(t *Term, neg bool) {
		if t.op == ONot {
			ge(t.args[0], !neg)
			return
		}
		if t.op == OAnd && !neg {
			for _, a := range t.args {
				ge(a, false)
			}
			return
		}
		if (t.op != OLe && t.op != OLt) || t.args[0].sort != SInt {
			return
		}
		l := diffLin(t.args[0], t.args[1]) // >= 0, or > 0
		if l == nil {
			return
		}
		strict := t.op == OLt
		if neg {
			n := newLin()
			n.plus(l, bigMinus)
			l, strict = n, !strict
		}
		if strict {
			l.c.Sub(l.c, bigOne)
		}
		f.reduce(l)
		if len(l.coef) == 1 {
			for v, c := range l.coef {
				if c.Cmp(bigOne) == 0 { // v >= -c
					b := new(big.Int).Neg(l.c)
					if f.lo[v] == nil || f.lo[v].Cmp(b) < 0 {
						f.lo[v] = b
					}
					return
				}
				if c.Cmp(bigMinus) == 0 { // v <= c
					b := new(big.Int).Set(l.c)
					if f.hi[v] == nil || f.hi[v].Cmp(b) > 0 {
						f.hi[v] = b
					}
					return
				}
			}
		}
		if len(l.coef) > 0 {
			f.ge = append(f.ge, l)
		}
	}
	for _, t := range st.pc {
		ge(t, false)
	}
	seen := map[*Term]bool{}
	for t := range st.vars {
		for _, a := range t.axioms {
			if !seen[a] {
				seen[a] = true
				ge(a, false)
			}
		}
	}
	return f
}

func (f *linFacts) bounds(v *Term) (lo, hi *big.Int) {
	lo, hi = termBounds(f.st, v)
	if b := f.lo[v]; b != nil && (lo == nil || lo.Cmp(b) < 0) {
		lo = b
	}
	if b := f.hi[v]; b != nil && (hi == nil || hi.Cmp(b) > 0) {
		hi = b
	}
	return
}

// atLeast: a lower bound of l, nil if none is known.
func (f *linFacts) atLeast(l *lin) *big.Int {
	s := new(big.Int).Set(l.c)
	for v, c := range l.coef {
		lo, hi := f.bounds(v)
		if c.Sign() < 0 {
			lo = hi
		}
		if lo == nil {
			return nil
		}
		s.Add(s, new(big.Int).Mul(c, lo))
	}
	return s
}

func (f *linFacts) notNegative(l *lin) bool {
	f.reduce(l)
	if b := f.atLeast(l); b != nil && b.Sign() >= 0 {
		return true
	}
	try := func(l *lin, k int) bool { return false }
	try = func(l *lin, k int) bool {
		for _, g := range f.ge {
			hit := false
			for v, c := range g.coef {
				if d := l.coef[v]; d != nil && d.Sign() == c.Sign() {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			n := l.clone()
			n.plus(g, bigMinus)
			if b := f.atLeast(n); b != nil && b.Sign() >= 0 {
				return true
			}
			if k > 1 && len(f.ge) < 60 && try(n, k-1) {
				return true
			}
		}
		return false
	}
	return try(l, 2)
}

// linear decides an integer comparison: 1 true, -1 false, 0 not decided.
func (st *State) linear(t *Term) int {
	neg := 1
	for t.op == ONot {
		t, neg = t.args[0], -neg
	}
	if (t.op != OLe && t.op != OLt && t.op != OEq) || t.args[0].sort != SInt {
		return 0
	}
	l := diffLin(t.args[0], t.args[1])
	if l == nil {
		return 0
	}
	f := st.linearFacts()
	m := newLin()
	m.plus(l, bigMinus)
	positive := func(x *lin) bool {
		y := x.clone()
		y.c.Sub(y.c, bigOne)
		return f.notNegative(y)
	}
	switch t.op {
	case OEq:
		if positive(l) || positive(m) {
			return -neg
		}
		if f.notNegative(l.clone()) && f.notNegative(m.clone()) {
			return neg
		}
	case OLe:
		if f.notNegative(l.clone()) {
			return neg
		}
		if positive(m) {
			return -neg
		}
	case OLt:
		if positive(l) {
			return neg
		}
		if f.notNegative(m.clone()) {
			return -neg
		}
	}
	return 0
}

// certain: t surely holds.
func (st *State) certain(t *Term) bool {
	t = st.simp(t)
	if t == TTrue {
		return true
	}
	if t.op == OAnd {
		for _, a := range t.args {
			if st.linear(a) != 1 {
				return checkSat(append(cone(st.pc, t), Not(t)), pruneTimeout) == Unsat
			}
		}
		return true
	}
	if st.linear(t) == 1 {
		return true
	}
	return checkSat(append(cone(st.pc, t), Not(t)), pruneTimeout) == Unsat
}
