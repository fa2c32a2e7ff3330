package main

// Hash-consed first-order terms over Bool, Int (mathematical), Real and Str
// (byte sequences), with constant folding.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Sort uint8

const (
	SBool Sort = iota
	SInt
	SStr
	SReal
)

func (s Sort) String() string { return [...]string{"Bool", "Int", "String", "Real"}[s] }

type Op uint8

const (
	OConst Op = iota
	OApp      // uninterpreted function (a constant if it has no arguments)
	ONot
	OAnd
	OOr
	OIte
	OEq
	OLt
	OLe
	OAdd
	OMul
	ODiv // truncated (Go) division
	OMod // truncated (Go) remainder
	OLen
	OConcat
	OPrefix // (prefix, s)
	OSuffix // (suffix, s)
	OContains
	OSubstr  // (s, offset, length)
	OIndexOf // (s, t, from)
	OAt      // code of byte at index
	OInRe    // name holds an SMT-LIB regular expression
	OStrLt
	OToReal
	OBound // bound variable (name)
	OForall
	OReplaceAll
)

type Term struct {
	id   int
	op   Op
	sort Sort
	args []*Term
	name string
	ival *big.Int
	sval string
	rval *big.Rat
	bval bool
	// facts about this term, added to every query it occurs in
	axioms []*Term
}

var (
	termTab = map[string]*Term{}
	termMu  sync.Mutex
	termSeq int
)

func mk(op Op, sort Sort, name string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + op))
	b.WriteByte(byte('0' + sort))
	b.WriteString(name)
	for _, a := range args {
		b.WriteByte(0)
		b.WriteString(strconv.Itoa(a.id))
	}
	return intern(b.String(), func() *Term { return &Term{op: op, sort: sort, name: name, args: args} })
}

func intern(key string, f func() *Term) *Term {
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[key]; ok {
		return t
	}
	t := f()
	termSeq++
	t.id = termSeq
	termTab[key] = t
	return t
}

var (
	TTrue  = intern("true", func() *Term { return &Term{op: OConst, sort: SBool, bval: true} })
	TFalse = intern("false", func() *Term { return &Term{op: OConst, sort: SBool} })
)

func TBool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func TBig(v *big.Int) *Term {
	v = new(big.Int).Set(v)
	return intern("i"+v.String(), func() *Term { return &Term{op: OConst, sort: SInt, ival: v} })
}
func TInt(v int64) *Term { return TBig(big.NewInt(v)) }
func TStr(s string) *Term {
	return intern("s"+s, func() *Term { return &Term{op: OConst, sort: SStr, sval: s} })
}
func TReal(r *big.Rat) *Term {
	r = new(big.Rat).Set(r)
	return intern("r"+r.String(), func() *Term { return &Term{op: OConst, sort: SReal, rval: r} })
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t == TTrue }
func (t *Term) isFalse() bool { return t == TFalse }
func (t *Term) intConst() (int64, bool) {
	if t.op == OConst && t.sort == SInt && t.ival.IsInt64() {
		return t.ival.Int64(), true
	}
	return 0, false
}
func (t *Term) strConst() (string, bool) {
	if t.op == OConst && t.sort == SStr {
		return t.sval, true
	}
	return "", false
}

func App(name string, s Sort, args ...*Term) *Term { return mk(OApp, s, name, args...) }

func Not(a *Term) *Term {
	if a.sort != SBool {
		panic("Not: sort")
	}
	switch {
	case a == TTrue:
		return TFalse
	case a == TFalse:
		return TTrue
	case a.op == ONot:
		return a.args[0]
	}
	return mk(ONot, SBool, "", a)
}

func nary(op Op, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.sort != SBool {
			panic("and/or: sort")
		}
		if a == unit || seen[a] {
			return true
		}
		if a == zero || seen[Not(a)] {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	// absorb: in a conjunction, (or a b) with a or not a present
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	changed := false
	var res []*Term
	for _, a := range out {
		if a.op == dual {
			keep := []*Term{}
			drop := false
			for _, x := range a.args {
				if seen[x] {
					drop = true
					break
				}
				if seen[Not(x)] {
					changed = true
					continue
				}
				keep = append(keep, x)
			}
			if drop {
				changed = true
				continue
			}
			if len(keep) != len(a.args) {
				res = append(res, nary(dual, zero, unit, keep))
				continue
			}
		}
		res = append(res, a)
	}
	if changed {
		return nary(op, unit, zero, res)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(op, SBool, "", out...)
}
func And(as ...*Term) *Term    { return nary(OAnd, TTrue, TFalse, as) }
func Or(as ...*Term) *Term     { return nary(OOr, TFalse, TTrue, as) }
func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Ite(c, a, b *Term) *Term {
	if c == TTrue || a == b {
		return a
	}
	if c == TFalse {
		return b
	}
	if a.sort == SBool {
		if a == TTrue {
			return Or(c, b)
		}
		if a == TFalse {
			return And(Not(c), b)
		}
		if b == TTrue {
			return Or(Not(c), a)
		}
		if b == TFalse {
			return And(c, a)
		}
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	// strings: ite(c, p++x, p++y) is p++ite(c, x, y)
	if a.sort == SStr && (a.op == OConcat || b.op == OConcat) {
		x, y := concatArgs(a), concatArgs(b)
		n := 0
		for n < len(x) && n < len(y) && x[n] == y[n] {
			n++
		}
		if n > 0 {
			return Concat(append(append([]*Term{}, x[:n]...), Ite(c, Concat(x[n:]...), Concat(y[n:]...)))...)
		}
	}
	return mk(OIte, a.sort, "", c, a, b)
}

func concatArgs(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sorts %v %v: %v %v", a.sort, b.sort, a, b))
	}
	if a.isConst() && b.isConst() {
		return TFalse // distinct constants are distinct terms
	}
	if a.sort == SBool {
		switch {
		case a == TTrue:
			return b
		case b == TTrue:
			return a
		case a == TFalse:
			return Not(b)
		case b == TFalse:
			return Not(a)
		}
		if Not(a) == b {
			return TFalse
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	// ite(c, x, y) == k with constant leaves: push the equality inwards
	if b.isConst() && a.op == OIte {
		x, y := a.args[1], a.args[2]
		if leafConst(x, 300) && leafConst(y, 300) {
			return Ite(a.args[0], Eq(x, b), Eq(y, b))
		}
	}
	if b.isConst() && b.sort == SStr {
		if len(b.sval) <= 40 && langOf(a) != nil {
			if in, known := decide(a, exactly(b.sval)); known && !in {
				return TFalse
			}
		}
		if a.op == OConcat {
			return eqConcatConst(a, b.sval)
		}
	}
	if a.sort == SInt && a.op == OAdd && b.isConst() && len(a.args) == 2 && a.args[0].isConst() {
		return Eq(a.args[1], TBig(new(big.Int).Sub(b.ival, a.args[0].ival)))
	}
	if b.isConst() && b.sort == SInt && a.op == OLen && b.ival.Sign() == 0 {
		return Eq(a.args[0], TStr(""))
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, SBool, "", a, b)
}

func leafConst(t *Term, n int) bool {
	for n > 0 {
		n--
		if t.isConst() {
			return true
		}
		if t.op != OIte || !t.args[1].isConst() {
			if t.op == OIte && t.args[2].isConst() {
				t = t.args[1]
				continue
			}
			return false
		}
		t = t.args[2]
	}
	return false
}

func eqConcatConst(a *Term, s string) *Term {
	args := a.args
	if c, ok := args[0].strConst(); ok {
		if !strings.HasPrefix(s, c) {
			return TFalse
		}
		return Eq(Concat(args[1:]...), TStr(s[len(c):]))
	}
	if c, ok := args[len(args)-1].strConst(); ok {
		if !strings.HasSuffix(s, c) {
			return TFalse
		}
		return Eq(Concat(args[:len(args)-1]...), TStr(s[:len(s)-len(c)]))
	}
	return mk(OEq, SBool, "", a, TStr(s))
}

// bounds which hold of a term whatever the values of its variables
func lowerBound(t *Term) *big.Int {
	switch t.op {
	case OConst:
		return t.ival
	case OLen:
		return big.NewInt(0)
	case OAdd:
		s := new(big.Int)
		for _, a := range t.args {
			l := lowerBound(a)
			if l == nil {
				return nil
			}
			s.Add(s, l)
		}
		return s
	case OIte:
		a, b := lowerBound(t.args[1]), lowerBound(t.args[2])
		if a == nil || b == nil {
			return nil
		}
		if a.Cmp(b) < 0 {
			return a
		}
		return b
	case OApp:
		if strings.HasSuffix(t.name, "?len") {
			return big.NewInt(0)
		}
	case OIndexOf:
		return big.NewInt(-1)
	}
	return nil
}

func Lt(a, b *Term) *Term {
	if a == b {
		return TFalse
	}
	if a.isConst() && b.isConst() {
		if a.sort == SReal {
			return TBool(a.rval.Cmp(b.rval) < 0)
		}
		return TBool(a.ival.Cmp(b.ival) < 0)
	}
	if a.sort == SInt {
		return Not(Le(b, a))
	}
	return mk(OLt, SBool, "", a, b)
}

func Le(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.isConst() && b.isConst() {
		if a.sort == SReal {
			return TBool(a.rval.Cmp(b.rval) <= 0)
		}
		return TBool(a.ival.Cmp(b.ival) <= 0)
	}
	if a.sort == SInt {
		// move constants of sums to one side
		if ca, ra := splitAdd(a); ca != nil && b.isConst() {
			return Le(ra, TBig(new(big.Int).Sub(b.ival, ca)))
		}
		if cb, rb := splitAdd(b); cb != nil {
			if a.isConst() {
				return Le(TBig(new(big.Int).Sub(a.ival, cb)), rb)
			}
		}
		if b.isConst() {
			if l := lowerBound(a); l != nil {
				if l.Cmp(b.ival) > 0 {
					return TFalse
				}
				if l.Cmp(b.ival) == 0 && a.op != OIte {
					return Eq(a, b)
				}
			}
		}
		if a.isConst() {
			if l := lowerBound(b); l != nil && a.ival.Cmp(l) <= 0 {
				return TTrue
			}
		}
	}
	return mk(OLe, SBool, "", a, b)
}

func splitAdd(t *Term) (*big.Int, *Term) {
	if t.op == OAdd && t.args[0].isConst() {
		if len(t.args) == 2 {
			return t.args[0].ival, t.args[1]
		}
		return t.args[0].ival, mk(OAdd, SInt, "", t.args[1:]...)
	}
	return nil, t
}

func Add(as ...*Term) *Term {
	if as[0].sort == SReal {
		c := new(big.Rat)
		var out []*Term
		for _, a := range as {
			if a.isConst() {
				c.Add(c, a.rval)
			} else {
				out = append(out, a)
			}
		}
		if c.Sign() != 0 || len(out) == 0 {
			out = append([]*Term{TReal(c)}, out...)
		}
		if len(out) == 1 {
			return out[0]
		}
		return mk(OAdd, SReal, "", out...)
	}
	c := new(big.Int)
	coef := map[*Term]*big.Int{}
	var order []*Term
	var add func(a *Term, k *big.Int)
	add = func(a *Term, k *big.Int) {
		switch {
		case a.isConst():
			c.Add(c, new(big.Int).Mul(a.ival, k))
		case a.op == OAdd:
			for _, x := range a.args {
				add(x, k)
			}
		case a.op == OMul && a.args[0].isConst() && len(a.args) == 2:
			add(a.args[1], new(big.Int).Mul(k, a.args[0].ival))
		default:
			if coef[a] == nil {
				coef[a] = new(big.Int)
				order = append(order, a)
			}
			coef[a].Add(coef[a], k)
		}
	}
	for _, a := range as {
		add(a, big.NewInt(1))
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var out []*Term
	if c.Sign() != 0 {
		out = append(out, TBig(c))
	}
	for _, a := range order {
		k := coef[a]
		switch {
		case k.Sign() == 0:
		case k.Cmp(big.NewInt(1)) == 0:
			out = append(out, a)
		default:
			out = append(out, mk(OMul, SInt, "", TBig(k), a))
		}
	}
	switch len(out) {
	case 0:
		return TInt(0)
	case 1:
		return out[0]
	}
	return mk(OAdd, SInt, "", out...)
}

func Neg(a *Term) *Term {
	if a.sort == SReal {
		return Mul(TReal(big.NewRat(-1, 1)), a)
	}
	return Mul(TInt(-1), a)
}
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }

func Mul(a, b *Term) *Term {
	if a.sort == SReal {
		if a.isConst() && b.isConst() {
			return TReal(new(big.Rat).Mul(a.rval, b.rval))
		}
		if b.isConst() {
			a, b = b, a
		}
		return mk(OMul, SReal, "", a, b)
	}
	if a.isConst() && b.isConst() {
		return TBig(new(big.Int).Mul(a.ival, b.ival))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.ival.Sign() == 0 {
			return a
		}
		if a.ival.Cmp(big.NewInt(1)) == 0 {
			return b
		}
		if b.op == OAdd {
			var out []*Term
			for _, x := range b.args {
				out = append(out, Mul(a, x))
			}
			return Add(out...)
		}
		if b.op == OMul && b.args[0].isConst() {
			return Mul(Mul(a, b.args[0]), b.args[1])
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return mk(OMul, SInt, "", a, b)
}

func DivT(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.ival.Sign() != 0 {
		return TBig(new(big.Int).Quo(a.ival, b.ival))
	}
	return mk(ODiv, SInt, "", a, b)
}
func ModT(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.ival.Sign() != 0 {
		return TBig(new(big.Int).Rem(a.ival, b.ival))
	}
	return mk(OMod, SInt, "", a, b)
}

func Len(s *Term) *Term {
	if c, ok := s.strConst(); ok {
		return TInt(int64(len(c)))
	}
	switch s.op {
	case OConcat:
		var out []*Term
		for _, a := range s.args {
			out = append(out, Len(a))
		}
		return Add(out...)
	case OIte:
		if s.args[1].isConst() || s.args[2].isConst() {
			return Ite(s.args[0], Len(s.args[1]), Len(s.args[2]))
		}
	}
	return mk(OLen, SInt, "", s)
}

func Concat(as ...*Term) *Term {
	var out []*Term
	var add func(a *Term)
	add = func(a *Term) {
		if a.sort != SStr {
			panic("Concat: sort of " + a.String())
		}
		if a.op == OConcat {
			for _, x := range a.args {
				add(x)
			}
			return
		}
		if c, ok := a.strConst(); ok {
			if c == "" {
				return
			}
			if len(out) > 0 {
				if d, ok := out[len(out)-1].strConst(); ok {
					out[len(out)-1] = TStr(d + c)
					return
				}
			}
		}
		out = append(out, a)
	}
	for _, a := range as {
		add(a)
	}
	switch len(out) {
	case 0:
		return TStr("")
	case 1:
		return out[0]
	}
	return mk(OConcat, SStr, "", out...)
}

func constLeafStr(t *Term) bool { return t.op == OIte && leafConst(t, 300) }

func PrefixOf(p, s *Term) *Term {
	cp, ok1 := p.strConst()
	cs, ok2 := s.strConst()
	if ok1 && ok2 {
		return TBool(strings.HasPrefix(cs, cp))
	}
	if ok1 && cp == "" || p == s {
		return TTrue
	}
	if ok1 && s.op == OConcat {
		if h, ok := s.args[0].strConst(); ok {
			if len(h) >= len(cp) {
				return TBool(strings.HasPrefix(h, cp))
			}
			if !strings.HasPrefix(cp, h) {
				return TFalse
			}
			return PrefixOf(TStr(cp[len(h):]), Concat(s.args[1:]...))
		}
	}
	if s.op == OConcat && p.op != OConcat && s.args[0] == p {
		return TTrue
	}
	if p.op == OConcat && s.op == OConcat && p.args[0] == s.args[0] {
		return PrefixOf(Concat(p.args[1:]...), Concat(s.args[1:]...))
	}
	if p.op == OConcat && s.op == OConcat {
		if a, ok := p.args[0].strConst(); ok {
			if b, ok := s.args[0].strConst(); ok {
				n := len(a)
				if len(b) < n {
					n = len(b)
				}
				if a[:n] != b[:n] {
					return TFalse
				}
				return PrefixOf(Concat(append([]*Term{TStr(a[n:])}, p.args[1:]...)...), Concat(append([]*Term{TStr(b[n:])}, s.args[1:]...)...))
			}
		}
	}
	if ok1 && constLeafStr(s) {
		return Ite(s.args[0], PrefixOf(p, s.args[1]), PrefixOf(p, s.args[2]))
	}
	if ok1 && len(cp) <= 40 && langOf(s) != nil {
		if in, known := decide(s, beginning(cp)); known {
			return TBool(in)
		}
	}
	return mk(OPrefix, SBool, "", p, s)
}
func SuffixOf(p, s *Term) *Term {
	cp, ok1 := p.strConst()
	cs, ok2 := s.strConst()
	if ok1 && ok2 {
		return TBool(strings.HasSuffix(cs, cp))
	}
	if ok1 && cp == "" || p == s {
		return TTrue
	}
	if ok1 && s.op == OConcat {
		if h, ok := s.args[len(s.args)-1].strConst(); ok {
			if len(h) >= len(cp) {
				return TBool(strings.HasSuffix(h, cp))
			}
			if !strings.HasSuffix(cp, h) {
				return TFalse
			}
			return SuffixOf(TStr(cp[:len(cp)-len(h)]), Concat(s.args[:len(s.args)-1]...))
		}
	}
	if ok1 && len(cp) <= 40 && langOf(s) != nil {
		if in, known := decide(s, ending(cp)); known {
			return TBool(in)
		}
	}
	return mk(OSuffix, SBool, "", p, s)
}
func ContainsT(s, t *Term) *Term {
	cs, ok1 := s.strConst()
	ct, ok2 := t.strConst()
	if ok1 && ok2 {
		return TBool(strings.Contains(cs, ct))
	}
	if ok2 && ct == "" || s == t {
		return TTrue
	}
	if ok2 && s.op == OConcat {
		for _, a := range s.args {
			if c, ok := a.strConst(); ok && strings.Contains(c, ct) {
				return TTrue
			}
		}
	}
	if ok2 && len(ct) <= 40 {
		if l := langOf(s); l != nil {
			if in, known := decide(s, containing(ct)); known {
				return TBool(in)
			}
		}
	}
	if surelyContains(s, t, nil, 6) {
		return TTrue
	}
	return mk(OContains, SBool, "", s, t)
}

// surelyContains recognises a text in another it is written into, whatever
// the conditions are on which parts are written.
func surelyContains(s, t *Term, conds []*Term, depth int) bool {
	if s == t || t == TStr("") {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, c := range conds {
		if c == Eq(t, TStr("")) {
			return true
		}
	}
	if t.op == OIte {
		return surelyContains(given(s, t.args[0], true), t.args[1], append(conds[:len(conds):len(conds)], t.args[0]), depth-1) &&
			surelyContains(given(s, t.args[0], false), t.args[2], append(conds[:len(conds):len(conds)], Not(t.args[0])), depth-1)
	}
	switch s.op {
	case OIte:
		c := s.args[0]
		return surelyContains(s.args[1], given(t, c, true), append(conds[:len(conds):len(conds)], c), depth-1) &&
			surelyContains(s.args[2], given(t, c, false), append(conds[:len(conds):len(conds)], Not(c)), depth-1)
	case OConcat:
		for i, a := range s.args {
			if surelyContains(a, t, conds, depth-1) {
				return true
			}
			if t.op == OConcat && i+len(t.args) <= len(s.args) {
				ok := true
				for k, b := range t.args {
					ok = ok && s.args[i+k] == b
				}
				if ok {
					return true
				}
			}
		}
	}
	return false
}

// given is t where c is known to hold, or not to.
func given(t, c *Term, holds bool) *Term {
	for t.op == OIte && (t.args[0] == c || t.args[0] == Not(c)) {
		if (t.args[0] == c) == holds {
			t = t.args[1]
		} else {
			t = t.args[2]
		}
	}
	if t.op == OConcat {
		var parts []*Term
		for _, a := range t.args {
			parts = append(parts, given(a, c, holds))
		}
		return Concat(parts...)
	}
	return t
}
func IndexOf(s, t, from *Term) *Term {
	cs, ok1 := s.strConst()
	ct, ok2 := t.strConst()
	if f, ok := from.intConst(); ok && f == 0 && ok1 && ok2 {
		return TInt(int64(strings.Index(cs, ct)))
	}
	if f, ok := from.intConst(); ok && f == 0 && ok2 && ct != "" {
		if langOf(s) != nil && ContainsT(s, t).isFalse() {
			return TInt(-1)
		}
		if s.op == OConcat {
			// whole pieces in which no occurrence can begin
			acc := TInt(0)
			for i, a := range s.args {
				if c, ok := a.strConst(); ok {
					if k := strings.Index(c, ct); k >= 0 {
						return Add(acc, TInt(int64(k)))
					}
				}
				if i > 0 && ContainsT(Concat(s.args[i:]...), t).isTrue() {
					if !without(a, ct[:1]) {
						return Add(acc, IndexOf(Concat(s.args[i:]...), t, from))
					}
				} else if !without(a, ct[:1]) {
					break
				}
				acc = Add(acc, Len(a))
			}
		}
	}
	return mk(OIndexOf, SInt, "", s, t, from)
}
func Substr(s, off, n *Term) *Term {
	o, ok2 := off.intConst()
	if cs, ok := s.strConst(); ok && ok2 {
		if k, ok := n.intConst(); ok {
			if o < 0 || o > int64(len(cs)) || k <= 0 {
				return TStr("")
			}
			e := o + k
			if e > int64(len(cs)) {
				e = int64(len(cs))
			}
			return TStr(cs[o:e])
		}
	}
	if ok2 && o == 0 && n == Len(s) {
		return s
	}
	if c, ok := n.intConst(); ok && c <= 0 {
		return TStr("")
	}
	// drop whole leading pieces of a concatenation
	if ok2 && s.op == OConcat {
		if h, ok := s.args[0].strConst(); ok && int64(len(h)) <= o {
			return Substr(Concat(s.args[1:]...), TInt(o-int64(len(h))), n)
		} else if ok && o > 0 {
			return Substr(Concat(append([]*Term{TStr(h[o:])}, s.args[1:]...)...), TInt(0), n)
		}
	}
	if ok2 && o == 0 && s.op == OConcat {
		acc := TInt(0)
		for i, a := range s.args {
			acc = Add(acc, Len(a))
			if acc == n {
				return Concat(s.args[:i+1]...)
			}
		}
	}
	if s.op == OConcat {
		// pieces before the beginning
		if d := Sub(off, Len(s.args[0])); nonNeg(d) {
			return Substr(Concat(s.args[1:]...), d, n)
		}
		// pieces before the end
		if ok2 && o == 0 {
			if d := Sub(n, Len(s.args[0])); nonNeg(d) {
				return Concat(s.args[0], Substr(Concat(s.args[1:]...), TInt(0), d))
			}
			if h, ok := s.args[0].strConst(); ok {
				if k, ok := n.intConst(); ok && k < int64(len(h)) {
					return TStr(h[:k])
				}
			}
		}
	} else if ok2 && o == 0 && nonNeg(Sub(n, Len(s))) {
		return s
	}
	return mk(OSubstr, SStr, "", s, off, n)
}

func nonNeg(t *Term) bool {
	l := lowerBound(t)
	return l != nil && l.Sign() >= 0
}
func AtT(s, i *Term) *Term {
	if cs, ok := s.strConst(); ok {
		if k, ok := i.intConst(); ok && k >= 0 && k < int64(len(cs)) {
			return TInt(int64(cs[k]))
		}
	}
	return mk(OAt, SInt, "", s, i)
}
func InRe(s *Term, re string) *Term {
	if s.isConst() || langOf(s) != nil {
		if in, known := decide(s, reLang(re)); known {
			return TBool(in)
		}
	}
	return mk(OInRe, SBool, re, s)
}
func ReplaceAll(s, a, b *Term) *Term {
	cs, o1 := s.strConst()
	ca, o2 := a.strConst()
	cb, o3 := b.strConst()
	if o1 && o2 && o3 {
		return TStr(strings.ReplaceAll(cs, ca, cb))
	}
	return mk(OReplaceAll, SStr, "", s, a, b)
}
func StrLt(a, b *Term) *Term {
	ca, ok1 := a.strConst()
	cb, ok2 := b.strConst()
	if ok1 && ok2 {
		return TBool(ca < cb)
	}
	if a == b {
		return TFalse
	}
	return mk(OStrLt, SBool, "", a, b)
}
func ToReal(a *Term) *Term {
	if a.isConst() {
		return TReal(new(big.Rat).SetInt(a.ival))
	}
	return mk(OToReal, SReal, "", a)
}
func BoundVar(name string) *Term { return mk(OBound, SInt, name) }

// Forall over 0 <= v < n
func Forall(v *Term, n, body *Term) *Term {
	if body == TTrue {
		return TTrue
	}
	if k, ok := n.intConst(); ok && k <= 0 {
		return TTrue
	}
	return mk(OForall, SBool, v.name, v, n, body)
}

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, 0)
	return b.String()
}

func (t *Term) write(b *strings.Builder, depth int) {
	if depth > 12 {
		fmt.Fprintf(b, "…")
		return
	}
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			fmt.Fprintf(b, "%v", t.bval)
		case SInt:
			b.WriteString(t.ival.String())
		case SReal:
			b.WriteString(t.rval.String())
		case SStr:
			fmt.Fprintf(b, "%q", t.sval)
		}
		return
	case OApp, OBound:
		b.WriteString(t.name)
		if len(t.args) == 0 {
			return
		}
	default:
		b.WriteString([...]string{"", "", "not", "and", "or", "ite", "=", "<", "<=", "+", "*", "div", "mod", "len", "++", "prefix", "suffix", "contains", "substr", "indexof", "at", "inre", "str<", "real", "", "forall", "replaceall"}[t.op])
		if t.op == OInRe {
			b.WriteString("{re}")
		}
	}
	b.WriteByte('(')
	for i, a := range t.args {
		if i > 0 {
			b.WriteString(", ")
		}
		a.write(b, depth+1)
	}
	b.WriteByte(')')
}

// substitute bound variable/terms
func Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = rec(a)
			same = same && args[i] == a
		}
		r := t
		if !same {
			r = rebuild(t, args)
			cache[t] = r // an axiom may be about its own term
			if len(t.axioms) > 0 && r != t && len(r.axioms) == 0 {
				var axs []*Term
				for _, ax := range t.axioms {
					axs = append(axs, rec(ax))
				}
				if len(r.axioms) == 0 {
					r.axioms = axs
				}
			}
		}
		cache[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		return Eq(a[0], a[1])
	case OLt:
		return Lt(a[0], a[1])
	case OLe:
		return Le(a[0], a[1])
	case OAdd:
		return Add(a...)
	case OMul:
		return Mul(a[0], a[1])
	case ODiv:
		return DivT(a[0], a[1])
	case OMod:
		return ModT(a[0], a[1])
	case OLen:
		return Len(a[0])
	case OConcat:
		return Concat(a...)
	case OPrefix:
		return PrefixOf(a[0], a[1])
	case OSuffix:
		return SuffixOf(a[0], a[1])
	case OContains:
		return ContainsT(a[0], a[1])
	case OSubstr:
		return Substr(a[0], a[1], a[2])
	case OIndexOf:
		return IndexOf(a[0], a[1], a[2])
	case OAt:
		return AtT(a[0], a[1])
	case OStrLt:
		return StrLt(a[0], a[1])
	case OToReal:
		return ToReal(a[0])
	case OForall:
		return Forall(a[0], a[1], a[2])
	case OReplaceAll:
		return ReplaceAll(a[0], a[1], a[2])
	}
	return mk(t.op, t.sort, t.name, a...)
}
