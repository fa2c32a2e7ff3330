package main

// Contracts assumed of math/big: exact arithmetic.

import (
	"go/types"
	"math/big"
	"strings"
)

func (c *ctx) num(i int) *Term {
	p := c.args[i].(*PtrV)
	return c.ex.load(c.st, p).(*StructV).get(0).(*Term)
}

// derefs are the nil checks of pointer arguments.
func (c *ctx) notNil(is ...int) bool {
	for _, i := range is {
		if !c.ex.safe(c.st, "nil pointer dereference", c.in, Not(c.args[i].(*PtrV).nilT)) {
			return false
		}
	}
	return true
}

func (c *ctx) setNum(t *Term) Value {
	p := c.args[0].(*PtrV)
	c.ex.store(c.st, p, mkAbs(p.elem, t))
	return p
}

func zeroOf(t *Term) *Term {
	if t.sort == SReal {
		return TReal(new(big.Rat))
	}
	return TInt(0)
}

func signT(v *Term) *Term {
	z := zeroOf(v)
	return Ite(Eq(v, z), TInt(0), Ite(Lt(v, z), TInt(-1), TInt(1)))
}

func cmpT(a, b *Term) *Term {
	return Ite(Eq(a, b), TInt(0), Ite(Lt(a, b), TInt(-1), TInt(1)))
}

func (c *ctx) newNum(v *Term) Value {
	pt := c.signature().Results().At(0).Type().(*types.Pointer).Elem()
	return c.ex.alloc(c.st, pt, "number", mkAbs(pt, v))
}

func init() {
	for _, k := range []string{"Rat", "Int"} {
		r := "(*math/big." + k + ")."
		externs[r+"Sign"] = func(c *ctx) []Outcome {
			if !c.notNil(0) {
				return nil
			}
			return c.ret(signT(c.num(0)))
		}
		externs[r+"Cmp"] = func(c *ctx) []Outcome {
			if !c.notNil(0, 1) {
				return nil
			}
			return c.ret(cmpT(c.num(0), c.num(1)))
		}
		externs[r+"Set"] = func(c *ctx) []Outcome {
			if !c.notNil(0, 1) {
				return nil
			}
			return c.ret(c.setNum(c.num(1)))
		}
	}
	externs["(*math/big.Rat).SetInt64"] = func(c *ctx) []Outcome { return c.ret(c.setNum(ToReal(c.str(1)))) }
	externs["(*math/big.Rat).SetInt"] = func(c *ctx) []Outcome { return c.ret(c.setNum(ToReal(c.num(1)))) }
	externs["(*math/big.Int).SetInt64"] = func(c *ctx) []Outcome { return c.ret(c.setNum(c.str(1))) }
	externs["math/big.NewInt"] = func(c *ctx) []Outcome { return c.ret(c.newNum(c.str(0))) }
	externs["math/big.NewRat"] = func(c *ctx) []Outcome {
		a, ok1 := c.str(0).intConst()
		b, ok2 := c.str(1).intConst()
		if !ok1 || !ok2 || b == 0 {
			return c.limit("")
		}
		return c.ret(c.newNum(TReal(big.NewRat(a, b))))
	}
	// The numerator has the sign of the number, and the denominator is
	// positive. (Copies here: nothing in the code changes a number through them.)
	externs["(*math/big.Rat).Num"] = func(c *ctx) []Outcome {
		v := c.num(0)
		n := App("rat.num", SInt, v)
		z := TReal(new(big.Rat))
		addAxiom(n, Eq(Eq(n, TInt(0)), Eq(v, z)))
		addAxiom(n, Eq(Lt(n, TInt(0)), Lt(v, z)))
		return c.ret(c.newNum(n))
	}
	externs["(*math/big.Rat).Denom"] = func(c *ctx) []Outcome {
		n := App("rat.denom", SInt, c.num(0))
		addAxiom(n, Lt(TInt(0), n))
		return c.ret(c.newNum(n))
	}
	externs["(*math/big.Rat).IsInt"] = func(c *ctx) []Outcome {
		v := c.num(0)
		n := App("rat.num", SInt, v)
		t := App("rat.isint", SBool, v)
		addAxiom(t, Eq(t, Eq(v, ToReal(n))))
		return c.ret(t)
	}
	lo, hi := TInt(-1<<63), TInt(1<<63-1)
	two64 := TBig(new(big.Int).Lsh(big.NewInt(1), 64))
	externs["(*math/big.Int).IsInt64"] = func(c *ctx) []Outcome {
		return c.ret(And(Le(lo, c.num(0)), Le(c.num(0), hi)))
	}
	externs["(*math/big.Int).Int64"] = func(c *ctx) []Outcome {
		v := c.num(0)
		// in range, or congruent modulo 2^64
		r := App("int.low64", SInt, v)
		q := App("int.high", SInt, v)
		addAxiom(r, And(Le(lo, r), Le(r, hi)))
		addAxiom(r, Eq(v, Add(r, mk(OMul, SInt, "", two64, q))))
		return c.ret(Ite(And(Le(lo, v), Le(v, hi)), v, r))
	}
	externs["(*math/big.Int).BitLen"] = func(c *ctx) []Outcome {
		v := c.num(0)
		t := App("int.bitlen", SInt, v)
		addAxiom(t, And(Le(TInt(0), t), Eq(Eq(t, TInt(0)), Eq(v, TInt(0)))))
		return c.ret(t)
	}
}

// Texts which denote numbers. Of those SetString takes, only this is known:
// they have no comma, no white space and at most one point, and zeros at the
// end of a decimal fraction, or a point with nothing after it, change nothing.
func ratOK(s *Term) *Term {
	if k, ok := s.strConst(); ok {
		_, ok := new(big.Rat).SetString(k)
		return TBool(ok)
	}
	if x, n := fixedNum(s); x != nil && n >= 0 {
		return TTrue
	}
	t := App("rat.ok", SBool, s)
	if len(t.axioms) == 0 {
		t.axioms = append(t.axioms, Implies(t, InRe(s, `(re.+ (re.union (re.range "*" "+") (re.range "-" "9") (re.range "A" "z")))`)),
			Implies(t, Not(InRe(s, `(re.++ re.all (str.to_re ".") re.all (str.to_re ".") re.all)`))))
		if u, cut, ok := trimmed(s); ok {
			t.axioms = append(t.axioms, Implies(harmlessTrim(u, cut, s), Eq(t, ratOK(u))))
		}
	}
	return t
}

func ratVal(s *Term) *Term {
	if k, ok := s.strConst(); ok {
		if r, ok := new(big.Rat).SetString(k); ok {
			return TReal(r)
		}
	}
	t := App("rat.val", SReal, s)
	if len(t.axioms) == 0 {
		if x, n := fixedNum(s); x != nil {
			// exact for numbers which have no more decimal places
			scaled := App("rat.decimals:"+TInt(n).ival.String(), SBool, x)
			t.axioms = append(t.axioms, Eq(scaled, Eq(t, x)))
		}
		if u, cut, ok := trimmed(s); ok {
			t.axioms = append(t.axioms, Implies(harmlessTrim(u, cut, s), Eq(t, ratVal(u))))
		}
	}
	return t
}

func fixedNum(s *Term) (*Term, int64) {
	if s.op == OApp && len(s.args) == 2 && s.name == "rat.fixed" {
		n, _ := s.args[1].intConst()
		return s.args[0], n
	}
	return nil, -1
}

func trimmed(s *Term) (u *Term, cut string, ok bool) {
	if s.op == OApp && len(s.args) == 1 {
		if cut, ok := strings.CutPrefix(s.name, "strings.TrimRight:"); ok {
			return s.args[0], cut, true
		}
	}
	return nil, "", false
}

// harmlessTrim: what was trimmed from u are zeros after its point, or the point
// at its end.
func harmlessTrim(u *Term, cut string, s *Term) *Term {
	in, known := decide(u, reLang(`(re.++ (re.opt (str.to_re "-")) (re.+ (re.range "0" "9")) (re.opt (re.++ (str.to_re ".") (re.* (re.range "0" "9")))))`))
	if !known || !in {
		return TFalse
	}
	switch cut {
	case "0":
		return ContainsT(u, TStr("."))
	case ".":
		return TTrue
	}
	return TFalse
}

func init() {
	externs["(*math/big.Rat).SetString"] = func(c *ctx) []Outcome {
		if !c.notNil(0) {
			return nil
		}
		s := c.str(1)
		p := c.args[0].(*PtrV)
		return c.ex.fork(c.st, ratOK(s), func(st *State) []Outcome {
			c.ex.store(st, p, mkAbs(p.elem, ratVal(s)))
			return []Outcome{{st, TupleV{p, TTrue}}}
		}, func(st *State) []Outcome {
			// the value is then undefined
			c.ex.store(st, p, mkAbs(p.elem, App("rat.undefined", SReal, s)))
			return []Outcome{{st, TupleV{&PtrV{elem: p.elem, nilT: TTrue}, TFalse}}}
		})
	}
	externs["(*math/big.Rat).FloatString"] = func(c *ctx) []Outcome {
		n, ok := c.str(1).intConst()
		if !ok || n <= 0 {
			return c.limit("")
		}
		if !c.notNil(0) {
			return nil
		}
		t := App("rat.fixed", SStr, c.num(0), TInt(n))
		if len(t.axioms) == 0 {
			d := `(re.+ (re.range "0" "9"))`
			t.axioms = append(t.axioms, InRe(t, `(re.++ (re.opt (str.to_re "-")) `+d+` (str.to_re ".") `+d+`)`))
		}
		return c.ret(t)
	}
}
