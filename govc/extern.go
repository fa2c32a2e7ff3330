package main

// Contracts assumed of library functions. Each entry is part of the trusted
// base; the evidence lists the ones a run used.

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type ctx struct {
	ex   *Exec
	st   *State
	fn   *ssa.Function
	args []Value
	in   ssa.Instruction
	name string
	sig  *types.Signature
}

func (c *ctx) signature() *types.Signature {
	if c.sig != nil {
		return c.sig
	}
	return c.fn.Signature
}
func (c *ctx) str(i int) *Term { return c.args[i].(*Term) }
func (c *ctx) ret(v Value) []Outcome {
	return []Outcome{{c.st, v}}
}
func (c *ctx) rets(vs ...Value) []Outcome { return []Outcome{{c.st, TupleV(vs)}} }

// anything: an unknown result of the right type.
func (c *ctx) anything() []Outcome {
	return c.ret(resultVal(c.signature(), c.st.event(c.name)))
}
func (c *ctx) someErr() *IfaceV {
	v := symVal(errorType, c.st.event(c.name+".err")).(*IfaceV)
	nonNil(v)
	return v
}

func (c *ctx) limit(why string) []Outcome {
	return c.ex.unmodelled(c.st, c.name+" "+why, c.signature(), c.args)
}

func nonNil(v *IfaceV) {
	tag := v.tag()
	addAxiom(tag, Not(Eq(tag, TInt(0))))
}

func addAxiom(t, a *Term) {
	if t.isConst() || a == TTrue {
		return
	}
	for _, b := range t.axioms {
		if b == a {
			return
		}
	}
	t.axioms = append(t.axioms, a)
}

// uf1 is an uninterpreted string function with folding of constants.
func uf1(name string, f func(string) string, s *Term) *Term {
	if c, ok := s.strConst(); ok {
		return TStr(f(c))
	}
	if s.op == OIte && leafConst(s, 300) {
		return Ite(s.args[0], uf1(name, f, s.args[1]), uf1(name, f, s.args[2]))
	}
	return App(name, SStr, s)
}

func reChars(cs string) string {
	var parts []string
	for _, b := range []byte(cs) {
		parts = append(parts, "(str.to_re "+smtStr(string([]byte{b}))+")")
	}
	switch len(parts) {
	case 0:
		return "re.none"
	case 1:
		return parts[0]
	}
	return "(re.union " + strings.Join(parts, " ") + ")"
}

func trimTerm(name string, s *Term, cut string, left, right bool) *Term {
	f := func(x string) string {
		if left {
			x = strings.TrimLeft(x, cut)
		}
		if right {
			x = strings.TrimRight(x, cut)
		}
		return x
	}
	if c, ok := s.strConst(); ok {
		return TStr(f(c))
	}
	for i := 0; i < len(cut); i++ {
		if cut[i] >= 0x80 {
			return App(name+":"+cut, SStr, s)
		}
	}
	if ends := langOf(s); ends != nil {
		// nothing to trim
		any := true
		if left {
			in, ok := decide(s, memoLang("L"+cut, func() *Lang { return langNot(langCat(langSet(setOf(cut)), langAll)) }))
			any = any && ok && in
		}
		if right {
			in, ok := decide(s, memoLang("R"+cut, func() *Lang { return langNot(langCat(langAll, langSet(setOf(cut)))) }))
			any = any && ok && in
		}
		if any {
			return s
		}
	}
	t := App(name+":"+cut, SStr, s)
	if len(t.axioms) == 0 && len(s.axioms) > 0 {
		// a form which leaves only one text
		langMu.Lock()
		l := langTrim(t)
		langMu.Unlock()
		if l != nil {
			if w, ok := l.example(); ok && l.within(langStr(w)) {
				return TStr(w)
			}
		}
	}
	if len(t.axioms) == 0 {
		a, b := TStr(""), TStr("")
		re := reChars(cut)
		var ax []*Term
		if left {
			a = App(name+"L:"+cut, SStr, s)
			ax = append(ax, InRe(a, "(re.* "+re+")"), Not(InRe(t, "(re.++ "+re+" re.all)")))
		}
		if right {
			b = App(name+"R:"+cut, SStr, s)
			ax = append(ax, InRe(b, "(re.* "+re+")"), Not(InRe(t, "(re.++ re.all "+re+")")))
		}
		ax = append(ax, Eq(s, Concat(a, t, b)))
		t.axioms = append(t.axioms, ax...)
	}
	return t
}

func trimSpace(s *Term) *Term {
	if s.op == OApp && s.name == "strings.TrimSpace" {
		return s
	}
	if l := langOf(s); l != nil {
		// text with visible ASCII characters at its ends
		if in, ok := decide(s, memoLang("visible", func() *Lang {
			v := langSet(setRange('!', '~'))
			return langAlt(langStr(""), langAlt(v, langCat(v, langCat(langAll, v))))
		})); ok && in {
			return s
		}
	}
	if s.op == OConcat {
		// cut at a visible character the text is known to have
		for i, p := range s.args {
			c, ok := p.strConst()
			if !ok {
				continue
			}
			a := strings.IndexFunc(c, func(r rune) bool { return '!' <= r && r <= '~' })
			b := strings.LastIndexFunc(c, func(r rune) bool { return '!' <= r && r <= '~' })
			if a < 0 {
				continue
			}
			left := TStr(strings.TrimLeftFunc(c[:a], unicode.IsSpace))
			if i > 0 {
				left = trimSide("strings.TrimLeftSpace", Concat(append(append([]*Term{}, s.args[:i]...), TStr(c[:a]))...))
			}
			right := TStr(strings.TrimRightFunc(c[b+1:], unicode.IsSpace))
			if i+1 < len(s.args) {
				right = trimSide("strings.TrimRightSpace", Concat(append([]*Term{TStr(c[b+1:])}, s.args[i+1:]...)...))
			}
			return Concat(left, TStr(c[a:b+1]), right)
		}
	}
	t := uf1("strings.TrimSpace", strings.TrimSpace, s)
	if t.op == OApp && len(t.axioms) == 0 {
		t.axioms = append(t.axioms, Implies(Eq(s, TStr("")), Eq(t, TStr(""))), ContainsT(s, t), Le(Len(t), Len(s)))
		// no white space at either end
		ws := reChars(" \t\r\n\v\f")
		t.axioms = append(t.axioms, Not(InRe(t, "(re.++ "+ws+" re.all)")), Not(InRe(t, "(re.++ re.all "+ws+")")))
		// nothing to trim: unchanged. True of texts of visible ASCII.
		t.axioms = append(t.axioms, Implies(InRe(s, `(re.* (re.range "!" "~"))`), Eq(t, s)))
	}
	return t
}

// trimSide is a text without the white space at one of its ends.
func trimSide(name string, s *Term) *Term {
	left := name == "strings.TrimLeftSpace"
	if in, ok := decide(s, memoLang(name, func() *Lang {
		v := langSet(setRange('!', '~'))
		if left {
			return langAlt(langStr(""), langCat(v, langAll))
		}
		return langAlt(langStr(""), langCat(langAll, v))
	})); ok && in {
		return s
	}
	t := uf1(name, func(x string) string {
		if left {
			return strings.TrimLeftFunc(x, unicode.IsSpace)
		}
		return strings.TrimRightFunc(x, unicode.IsSpace)
	}, s)
	if t.op == OApp && len(t.axioms) == 0 {
		t.axioms = append(t.axioms, Implies(Eq(s, TStr("")), Eq(t, TStr(""))), Le(Len(t), Len(s)))
		ws := reChars(" \t\r\n\v\f")
		if left {
			t.axioms = append(t.axioms, SuffixOf(t, s), Not(InRe(t, "(re.++ "+ws+" re.all)")))
		} else {
			t.axioms = append(t.axioms, PrefixOf(t, s), Not(InRe(t, "(re.++ re.all "+ws+")")))
		}
	}
	return t
}

func upper(s *Term) *Term { return caseFn("strings.ToUpper", strings.ToUpper, s) }
func lower(s *Term) *Term { return caseFn("strings.ToLower", strings.ToLower, s) }
func caseFn(n string, f func(string) string, s *Term) *Term {
	if s.op == OApp && s.name == n {
		return s
	}
	return uf1(n, f, s)
}

const intRe = `(re.++ (re.opt (re.union (str.to_re "+") (str.to_re "-"))) (re.+ (re.range "0" "9")))`

func itoa(n *Term) *Term {
	if n.isConst() {
		return TStr(n.ival.String())
	}
	t := App("itoa", SStr, n)
	if len(t.axioms) == 0 {
		t.axioms = append(t.axioms, InRe(t, `(re.++ (re.opt (str.to_re "-")) (re.+ (re.range "0" "9")))`), Eq(App("atoi", SInt, t), n))
	}
	return t
}

func atoi(s *Term) *Term {
	if c, ok := s.strConst(); ok {
		if regexp.MustCompile(`^[+-]?[0-9]+$`).MatchString(c) {
			v, ok := new(big.Int).SetString(strings.TrimPrefix(c, "+"), 10)
			if ok {
				return TBig(v)
			}
		}
	}
	if s.op == OApp && s.name == "itoa" {
		return s.args[0]
	}
	t := App("atoi", SInt, s)
	if len(t.axioms) == 0 {
		neg := PrefixOf(TStr("-"), s)
		t.axioms = append(t.axioms, Implies(neg, Le(t, TInt(0))), Implies(And(Not(neg), InRe(s, intRe)), Le(TInt(0), t)))
		digits := `(re.range "0" "9")`
		for top := int64(9); top < 10000; top = top*10 + 9 {
			if top > 9 {
				digits = `(re.++ (re.range "0" "9") (re.opt ` + digits + `))`
			}
			if in, known := decide(s, reLang(digits)); known && in {
				t.axioms = append(t.axioms, Le(TInt(0), t), Le(t, TInt(top)))
				break
			}
		}
	}
	return t
}

func parseInt(c *ctx, s *Term, bits int) []Outcome {
	if k, ok := s.strConst(); ok {
		v, err := strconv.ParseInt(k, 10, bits)
		if err != nil {
			return c.rets(TInt(v), errVal(TStr(err.Error())))
		}
		return c.rets(TInt(v), nilErr())
	}
	v := atoi(s)
	lim := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
	okc := And(InRe(s, intRe), Le(TBig(new(big.Int).Neg(lim)), v), Le(v, TBig(new(big.Int).Sub(lim, big.NewInt(1)))))
	return c.ex.fork(c.st, okc, func(st *State) []Outcome {
		return []Outcome{{st, TupleV{v, nilErr()}}}
	}, func(st *State) []Outcome {
		// the value which accompanies an error
		r := App("parseint:err", SInt, s)
		addAxiom(r, And(mk(OLe, SBool, "", TBig(new(big.Int).Neg(lim)), r), mk(OLe, SBool, "", r, TBig(new(big.Int).Sub(lim, big.NewInt(1))))))
		return []Outcome{{st, TupleV{r, errVal(Concat(TStr("strconv: "), s))}}}
	})
}

// ---- formatting

var verbRe = regexp.MustCompile(`%[-+# 0]*[0-9]*(\.[0-9]+)?[a-zA-Z%]`)

func (c *ctx) sprintf(format string, args []Value) (*Term, bool) {
	var out []*Term
	pos, ai := 0, 0
	okAll := true
	for _, m := range verbRe.FindAllStringIndex(format, -1) {
		out = append(out, TStr(format[pos:m[0]]))
		pos = m[1]
		v := format[m[0]:m[1]]
		if v == "%%" {
			out = append(out, TStr("%"))
			continue
		}
		if ai >= len(args) {
			out = append(out, TStr("%!"+v[len(v)-1:]+"(MISSING)"))
			continue
		}
		t, ok := c.fmtArg(v, args[ai])
		okAll = okAll && ok
		out = append(out, t)
		ai++
	}
	out = append(out, TStr(format[pos:]))
	return Concat(out...), okAll
}

func (c *ctx) fmtArg(verb string, a Value) (*Term, bool) {
	kind := verb[len(verb)-1]
	unknown := func() (*Term, bool) {
		return App(c.st.event("u!fmt").path, SStr), false
	}
	iv, ok := a.(*IfaceV)
	if !ok {
		return unknown()
	}
	if iv.sym != nil {
		if isErrorType(iv.st) && (kind == 's' || kind == 'v') {
			return iv.sym.sub(".Error()").term("", SStr), true
		}
		return unknown()
	}
	if iv.typ == nil {
		return TStr("<nil>"), kind == 'v'
	}
	if kind == 's' || kind == 'v' || kind == 'q' {
		var text *Term
		if types.Identical(iv.typ, errStringType) {
			text = iv.val.(*StructV).get(0).(*Term)
		} else {
			for _, m := range []string{"Error", "String"} {
				ms := c.ex.L.Prog.MethodSets.MethodSet(iv.typ)
				sel := ms.Lookup(nil, m)
				if sel == nil {
					continue
				}
				fn := c.ex.L.Prog.MethodValue(sel)
				if fn == nil {
					return unknown()
				}
				s := c.st.clone()
				c.ex.pure++
				outs := c.ex.callFunc2(s, fn, "", []Value{iv.val}, nil, c.in)
				c.ex.pure--
				if len(outs) != 1 {
					return unknown()
				}
				t, ok := outs[0].res.(*Term)
				if !ok {
					return unknown()
				}
				text = t
				break
			}
		}
		if t, ok := iv.val.(*Term); ok && text == nil && t.sort == SStr {
			text = t
		}
		if text != nil {
			if verb == "%s" || verb == "%v" {
				return text, true
			}
			if k, ok := text.strConst(); ok {
				return TStr(fmt.Sprintf(verb, k)), true
			}
			return App("fmt:"+verb, SStr, text), true
		}
	}
	if s, ok := c.hexArg(verb, iv); ok {
		return s, true
	}
	t, ok := iv.val.(*Term)
	if !ok {
		return unknown()
	}
	switch t.sort {
	case SInt:
		if verb == "%d" || verb == "%v" {
			return itoa(t), true
		}
		if k, ok := t.intConst(); ok {
			return TStr(fmt.Sprintf(verb, k)), true
		}
		r := App("fmt:"+verb, SStr, t)
		if kind == 'd' && len(r.axioms) == 0 {
			form := `(re.++ (re.* (str.to_re " ")) (re.opt (re.union (str.to_re "-") (str.to_re "+"))) (re.+ (re.range "0" "9")) (re.* (str.to_re " ")))`
			if m := regexp.MustCompile(`^%(\+?)0([0-9]*)d$`).FindStringSubmatch(verb); m != nil {
				// padded with zeros
				sign := `(re.opt (str.to_re "-"))`
				if m[1] != "" {
					sign = `(re.union (str.to_re "-") (str.to_re "+"))`
				}
				form = `(re.++ ` + sign + ` (re.+ (re.range "0" "9")))`
			}
			r.axioms = append(r.axioms, InRe(r, form))
		}
		return r, true
	case SBool:
		if k := c.st.simp(t); k.isConst() {
			return TStr(fmt.Sprintf(verb, k.bval)), true
		}
		if verb == "%t" || verb == "%v" {
			return Ite(t, TStr("true"), TStr("false")), true
		}
	case SStr:
		if k, ok := t.strConst(); ok {
			return TStr(fmt.Sprintf(verb, k)), true
		}
		return App("fmt:"+verb, SStr, t), true
	}
	return unknown()
}

// variadic returns the elements of a ...interface{} argument.
func (c *ctx) variadic(v Value) ([]Value, bool) {
	s, ok := v.(*SliceV)
	if !ok {
		return nil, false
	}
	q := c.ex.sliceSeq(c.st, s)
	var out []Value
	for _, sg := range q.segs {
		if sg.vals == nil {
			return nil, false
		}
		out = append(out, sg.vals...)
	}
	return out, true
}

func (c *ctx) format(fi, ai int) (*Term, bool) {
	f, ok := c.str(fi).strConst()
	if !ok {
		return App(c.st.event("u!fmt").path, SStr), false
	}
	as, ok := c.variadic(c.args[ai])
	if !ok {
		return App(c.st.event("u!fmt").path, SStr), false
	}
	return c.sprintf(f, as)
}

// ---- splitting

func (ex *Exec) splitN(st *State, s, sep *Term, n int, done []*Term, f func(*State, []*Term) []Outcome) []Outcome {
	if n == 1 {
		return f(st, append(done, s))
	}
	return ex.fork(st, ContainsT(s, sep), func(st *State) []Outcome {
		i := IndexOf(s, sep, TInt(0))
		addAxiom(i, Implies(ContainsT(s, sep), And(Le(TInt(0), i), Le(Add(i, Len(sep)), Len(s)))))
		head := Substr(s, TInt(0), i)
		j := Add(i, Len(sep))
		return ex.splitN(st, Substr(s, j, Sub(Len(s), j)), sep, n-1, append(append([]*Term{}, done...), head), f)
	}, func(st *State) []Outcome {
		return f(st, append(append([]*Term{}, done...), s))
	})
}

func (c *ctx) setBuf(i int, t *Term) {
	p := c.args[i].(*PtrV)
	c.ex.store(c.st, &PtrV{elem: types.Typ[types.String], nilT: TFalse, obj: p.obj, path: append(append([]PathElem{}, p.path...), PathElem{field: 0})}, t)
}
func (c *ctx) buf(i int) *Term {
	return c.ex.load(c.st, c.args[i].(*PtrV)).(*StructV).get(0).(*Term)
}

func (c *ctx) bytes(i int) *Term { return c.ex.sliceBytes(c.st, c.args[i].(*SliceV)) }

// writeTo appends to the buffer an io.Writer is, if it is one.
func (c *ctx) writeTo(w Value, s *Term) bool {
	iv, ok := w.(*IfaceV)
	if ok {
		if iv.typ == nil {
			return false
		}
		w = iv.val
	}
	p, ok := w.(*PtrV)
	if !ok || p.obj == nil {
		return false
	}
	sv, ok := c.ex.load(c.st, p).(*StructV)
	if !ok {
		return false
	}
	if n, isN := sv.T.(*types.Named); !isN || n.Obj().Pkg() == nil || n.Obj().Pkg().Path()+"."+n.Obj().Name() != "bytes.Buffer" && n.Obj().Pkg().Path()+"."+n.Obj().Name() != "strings.Builder" {
		return false
	}
	c.ex.store(c.st, p, sv.with(0, Concat(sv.get(0).(*Term), s)))
	return true
}

type model = func(*ctx) []Outcome

func strFn(name string, f func(string) string) {
	externs[name] = func(c *ctx) []Outcome { return c.ret(uf1(name, f, c.str(0))) }
}

func harmless(names ...string) {
	for _, n := range names {
		externs[n] = func(c *ctx) []Outcome { return c.anything() }
	}
}

var externs map[string]model

func init() {
	externs = map[string]model{
		"errors.New": func(c *ctx) []Outcome { return c.ret(errVal(c.str(0))) },
		"fmt.Errorf": func(c *ctx) []Outcome {
			t, _ := c.format(0, 1)
			return c.ret(errVal(t))
		},
		"fmt.Sprintf": func(c *ctx) []Outcome {
			t, _ := c.format(0, 1)
			return c.ret(t)
		},
		"fmt.Sprint": func(c *ctx) []Outcome {
			as, ok := c.variadic(c.args[0])
			if ok && len(as) == 1 {
				if t, ok := c.fmtArg("%v", as[0]); ok {
					return c.ret(t)
				}
			}
			return c.limit("")
		},
		"fmt.Fprintf": func(c *ctx) []Outcome {
			t, _ := c.format(1, 2)
			return c.emitRes(c.args[0], t)
		},
		"fmt.Fprint": func(c *ctx) []Outcome {
			as, ok := c.variadic(c.args[1])
			if ok && len(as) == 1 {
				if t, ok := c.fmtArg("%v", as[0]); ok {
					return c.emitRes(c.args[0], t)
				}
			}
			return c.anything()
		},
		"io.WriteString": func(c *ctx) []Outcome {
			return c.emitRes(c.args[0], c.str(1))
		},
		"strings.TrimSpace": func(c *ctx) []Outcome { return c.ret(trimSpace(c.str(0))) },
		"strings.HasPrefix": func(c *ctx) []Outcome { return c.ret(PrefixOf(c.str(1), c.str(0))) },
		"strings.HasSuffix": func(c *ctx) []Outcome { return c.ret(SuffixOf(c.str(1), c.str(0))) },
		"strings.Contains":  func(c *ctx) []Outcome { return c.ret(ContainsT(c.str(0), c.str(1))) },
		"strings.Index":     func(c *ctx) []Outcome { return c.ret(IndexOf(c.str(0), c.str(1), TInt(0))) },
		"strings.IndexByte": func(c *ctx) []Outcome {
			return c.ret(IndexOf(c.str(0), byteStr(c.str(1)), TInt(0)))
		},
		"strings.ToUpper": func(c *ctx) []Outcome { return c.ret(upper(c.str(0))) },
		"strings.ToLower": func(c *ctx) []Outcome { return c.ret(lower(c.str(0))) },
		"strings.Compare": func(c *ctx) []Outcome {
			a, b := c.str(0), c.str(1)
			return c.ret(Ite(Eq(a, b), TInt(0), Ite(StrLt(a, b), TInt(-1), TInt(1))))
		},
		"strings.EqualFold": func(c *ctx) []Outcome {
			a, b := c.str(0), c.str(1)
			x, o1 := a.strConst()
			y, o2 := b.strConst()
			if o1 && o2 {
				return c.ret(TBool(strings.EqualFold(x, y)))
			}
			t := App("strings.EqualFold", SBool, a, b)
			addAxiom(t, Implies(Eq(a, b), t))
			addAxiom(t, Implies(t, Or(Eq(lower(a), lower(b)), Not(InRe(a, `(re.* (re.range "\u{0}" "\u{7f}"))`)), Not(InRe(b, `(re.* (re.range "\u{0}" "\u{7f}"))`)))))
			addAxiom(t, Implies(Eq(lower(a), lower(b)), t))
			return c.ret(t)
		},
		"strings.TrimSuffix": func(c *ctx) []Outcome {
			s, p := c.str(0), c.str(1)
			if k, ok := p.strConst(); ok && len(k) == 1 && k[0] < 0x80 {
				// at most one of them there?
				if in, known := decide(s, reLang(`(re.++ re.all (str.to_re `+smtStr(k+k)+`))`)); known && !in {
					return c.trim("strings.TrimRight", false, true)
				}
			}
			return c.ret(Ite(SuffixOf(p, s), Substr(s, TInt(0), Sub(Len(s), Len(p))), s))
		},
		"strings.TrimPrefix": func(c *ctx) []Outcome {
			s, p := c.str(0), c.str(1)
			return c.ret(Ite(PrefixOf(p, s), Substr(s, Len(p), Sub(Len(s), Len(p))), s))
		},
		"strings.Trim":      func(c *ctx) []Outcome { return c.trim("strings.Trim", true, true) },
		"strings.TrimLeft":  func(c *ctx) []Outcome { return c.trim("strings.TrimLeft", true, false) },
		"strings.TrimRight": func(c *ctx) []Outcome { return c.trim("strings.TrimRight", false, true) },
		"strings.Replace": func(c *ctx) []Outcome {
			s, a, b := c.str(0), c.str(1), c.str(2)
			n, ok := c.str(3).intConst()
			x, o1 := s.strConst()
			y, o2 := a.strConst()
			z, o3 := b.strConst()
			switch {
			case ok && o1 && o2 && o3:
				return c.ret(TStr(strings.Replace(x, y, z, int(n))))
			case ok && n < 0:
				return c.ret(ReplaceAll(s, a, b))
			case ok && n == 0:
				return c.ret(s)
			case ok && n == 1:
				i := IndexOf(s, a, TInt(0))
				j := Add(i, Len(a))
				return c.ret(Ite(ContainsT(s, a), Concat(Substr(s, TInt(0), i), b, Substr(s, j, Sub(Len(s), j))), s))
			}
			return c.limit("")
		},
		"strings.ReplaceAll": func(c *ctx) []Outcome { return c.ret(ReplaceAll(c.str(0), c.str(1), c.str(2))) },
		"strings.Repeat": func(c *ctx) []Outcome {
			s, ok := c.str(0).strConst()
			n, ok2 := c.str(1).intConst()
			if ok && ok2 && n >= 0 && n < 10000 {
				return c.ret(TStr(strings.Repeat(s, int(n))))
			}
			return c.limit("")
		},
		"strings.Split": func(c *ctx) []Outcome {
			s, o1 := c.str(0).strConst()
			sep, o2 := c.str(1).strConst()
			if !o1 || !o2 {
				return c.limit("")
			}
			var vs []Value
			for _, p := range strings.Split(s, sep) {
				vs = append(vs, TStr(p))
			}
			return c.ret(c.ex.newSlice(c.st, types.Typ[types.String], &SeqV{elem: types.Typ[types.String], segs: []Seg{{vals: vs}}}))
		},
		"strings.Join": func(c *ctx) []Outcome {
			vs, ok := c.variadic(c.args[0])
			if !ok {
				// an uninterpreted function of an unknown list
				l, isSlice := c.args[0].(*SliceV)
				if !isSlice {
					return c.limit("")
				}
				segs := nonEmptySegs(c.ex.sliceSeq(c.st, l))
				if len(segs) != 1 || segs[0].org == nil {
					return c.limit("")
				}
				return c.ret(segs[0].org.at("", segs[0].off).at("", segs[0].n).at("", c.str(1)).sub("?joined").term("", SStr))
			}
			var out []*Term
			for i, v := range vs {
				if i > 0 {
					out = append(out, c.str(1))
				}
				out = append(out, v.(*Term))
			}
			return c.ret(Concat(append(out, TStr(""))...))
		},
		"strconv.Itoa": func(c *ctx) []Outcome { return c.ret(itoa(c.str(0))) },
		"strconv.FormatInt": func(c *ctx) []Outcome {
			if b, ok := c.str(1).intConst(); ok && b == 10 {
				return c.ret(itoa(c.str(0)))
			}
			return c.limit("")
		},
		"strconv.FormatBool": func(c *ctx) []Outcome { return c.ret(Ite(c.str(0), TStr("true"), TStr("false"))) },
		"strconv.Atoi":       func(c *ctx) []Outcome { return parseInt(c, c.str(0), 64) },
		"strconv.ParseInt": func(c *ctx) []Outcome {
			b, ok := c.str(1).intConst()
			bits, ok2 := c.str(2).intConst()
			if !ok || !ok2 || b != 10 {
				return c.limit("")
			}
			if bits == 0 {
				bits = 64
			}
			return parseInt(c, c.str(0), int(bits))
		},
		"bytes.TrimSpace": func(c *ctx) []Outcome {
			return c.ret(c.ex.bytesSlice(c.st, trimSpace(c.bytes(0))))
		},
		"bytes.Index":            func(c *ctx) []Outcome { return c.ret(IndexOf(c.bytes(0), c.bytes(1), TInt(0))) },
		"bytes.Equal":            func(c *ctx) []Outcome { return c.ret(Eq(c.bytes(0), c.bytes(1))) },
		"bytes.HasPrefix":        func(c *ctx) []Outcome { return c.ret(PrefixOf(c.bytes(1), c.bytes(0))) },
		"bytes.Contains":         func(c *ctx) []Outcome { return c.ret(ContainsT(c.bytes(0), c.bytes(1))) },
		"bytes.NewBufferString":  func(c *ctx) []Outcome { return c.ret(c.newBuffer(c.str(0))) },
		"bytes.NewBuffer":        func(c *ctx) []Outcome { return c.ret(c.newBuffer(c.bytes(0))) },
		"(*bytes.Buffer).Len":    func(c *ctx) []Outcome { return c.ret(Len(c.buf(0))) },
		"(*bytes.Buffer).String": func(c *ctx) []Outcome { return c.ret(c.buf(0)) },
		"(*bytes.Buffer).Bytes":  func(c *ctx) []Outcome { return c.ret(c.ex.bytesSlice(c.st, c.buf(0))) },
		"(*bytes.Buffer).Reset": func(c *ctx) []Outcome {
			c.setBuf(0, TStr(""))
			return c.ret(nil)
		},
		"(*bytes.Buffer).WriteByte": func(c *ctx) []Outcome {
			c.setBuf(0, Concat(c.buf(0), byteStr(c.str(1))))
			return c.ret(nilErr())
		},
		"(*bytes.Buffer).WriteString": func(c *ctx) []Outcome {
			c.setBuf(0, Concat(c.buf(0), c.str(1)))
			return c.rets(Len(c.str(1)), nilErr())
		},
		"(*bytes.Buffer).Write": func(c *ctx) []Outcome {
			c.setBuf(0, Concat(c.buf(0), c.bytes(1)))
			return c.rets(Len(c.bytes(1)), nilErr())
		},
		"os.Exit": func(c *ctx) []Outcome {
			c.st.dead = true
			return nil
		},
		"golang.org/x/text/currency.ParseISO": func(c *ctx) []Outcome {
			// either a unit with a three-letter code of its own, or an error
			s := c.str(0)
			okc := App("currency.ok", SBool, s)
			addAxiom(okc, Implies(okc, Eq(Len(s), TInt(3))))
			code := App("currency.code", SStr, s)
			addAxiom(code, Implies(okc, Eq(Len(code), TInt(3))))
			addAxiom(code, Implies(okc, Eq(upper(s), code)))
			t := c.signature().Results().At(0).Type()
			return c.ex.fork(c.st, okc, func(st *State) []Outcome {
				return []Outcome{{st, TupleV{mkAbs(t, code), nilErr()}}}
			}, func(st *State) []Outcome {
				v := symVal(errorType, &Origin{path: "currency.err", args: []*Term{s}}).(*IfaceV)
				nonNil(v)
				return []Outcome{{st, TupleV{zeroVal(t), v}}}
			})
		},
		"(golang.org/x/text/currency.Unit).String": func(c *ctx) []Outcome {
			return c.ret(c.args[0].(*StructV).get(0))
		},
	}
	for _, n := range []string{"(*strings.Builder)."} {
		for _, m := range []string{"Len", "String", "WriteByte", "WriteString", "Write", "Reset"} {
			externs[n+m] = externs["(*bytes.Buffer)."+m]
		}
	}
	harmless("fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintln", "time.Sleep", "(*os.File).Fd", "time.Now",
		"golang.org/x/term.ReadPassword", "(*flag.FlagSet).PrintDefaults")
}

func (c *ctx) trim(name string, l, r bool) []Outcome {
	cut, ok := c.str(1).strConst()
	if !ok {
		return c.limit("")
	}
	return c.ret(trimTerm(name, c.str(0), cut, l, r))
}

func (c *ctx) newBuffer(t *Term) Value {
	pt := c.signature().Results().At(0).Type().(*types.Pointer).Elem()
	return c.ex.alloc(c.st, pt, "buffer", mkAbs(pt, t))
}

func currencyCode(v *Term) *Term { return Eq(Len(v), TInt(3)) }
