package main

// Contracts assumed of package time: a time is an instant (in nanoseconds since
// the zero time), the offset of its zone at that instant, and the zone's name.
//
// Parse, for a layout which ends in " -0700" or " -0700 MST", takes the time
// before it for local to the zone which follows; a time without a zone is in
// UTC. Format in a layout of digits with milliseconds writes the local time,
// and Parse reads it back to the millisecond (years 0 to 9999).

import (
	"go/types"
	"regexp"
	"strings"
	"time"
)

func (c *ctx) timeAbs(i int) *Term { return c.args[i].(*StructV).get(0).(*Term) }
func (c *ctx) timeOff(i int) *Term { return c.args[i].(*StructV).get(1).(*Term) }

var (
	nano   = TInt(1e9)
	milli  = TInt(1e6)
	msForm = "20060102150405.000"
)

// forms are the layouts whose relation to each other is known.
var forms = []string{msForm, "20060102150405", "200601021504", "2006010215", "20060102"}

var plainLayout = regexp.MustCompile(`^[0-9. :/TZ-]*$`)

func layoutOK(f string) bool {
	return plainLayout.MatchString(f) && !strings.Contains(f, "-07") && !strings.Contains(f, "Z07")
}

// floorMs is a local time without what is finer than a millisecond.
func floorMs(x *Term) *Term {
	t := App("time.ms", SInt, x)
	if len(t.axioms) == 0 {
		t.axioms = append(t.axioms, Le(t, x), Lt(x, Add(t, milli)))
	}
	return t
}

// localOK and localOf are whether and as which local time a text reads in a
// layout.
func localOK(f string, b *Term) *Term {
	if k, ok := b.strConst(); ok {
		_, err := time.Parse(f, k)
		return TBool(err == nil)
	}
	if b.op == OApp && b.name == "time.fmt:"+msForm {
		switch f {
		case forms[0], forms[1]:
			return TTrue
		case forms[2], forms[3], forms[4]:
			return TFalse
		}
	}
	known := -1
	for i, g := range forms {
		if g == f {
			known = i
		}
	}
	t := App("time.ok:"+f, SBool, b)
	if known < 0 || len(t.axioms) > 0 {
		return t
	}
	// no text has two of the forms, but for the fraction which may follow
	// the seconds anyway
	for i, g := range forms {
		if i == known {
			continue
		}
		u := App("time.ok:"+g, SBool, b)
		if i+known == 1 {
			t.axioms = append(t.axioms, Implies(And(t, u), Eq(App("time.local:"+f, SInt, b), App("time.local:"+g, SInt, b))))
		} else {
			t.axioms = append(t.axioms, Not(And(t, u)))
		}
	}
	t.axioms = append(t.axioms, Implies(t, InRe(b, `(re.++ (re.range "0" "9") (re.* (re.union (re.range "0" "9") (re.range "," "."))))`)))
	return t
}

func localOf(f string, b *Term) *Term {
	if k, ok := b.strConst(); ok {
		if t, err := time.Parse(f, k); err == nil {
			return instant(t)
		}
	}
	if b.op == OApp && b.name == "time.fmt:"+msForm && (f == forms[0] || f == forms[1]) {
		return floorMs(Add(b.args[0], Mul(b.args[1], nano)))
	}
	return App("time.local:"+f, SInt, b)
}

// instant is the number of nanoseconds since the zero time.
func instant(t time.Time) *Term {
	s := TInt(t.Unix() - time.Time{}.Unix())
	return Add(Mul(s, nano), TInt(int64(t.Nanosecond())))
}

// zoneText reads the text of an offset, like +0530: whether it is one, and of
// how many seconds.
func zoneText(z []*Term) (ok, off *Term, known bool) {
	t := Concat(append(z, TStr(""))...)
	if k, isK := t.strConst(); isK {
		p, err := time.Parse("-0700", k)
		if err != nil {
			return TFalse, TInt(0), true
		}
		_, o := p.Zone()
		return TTrue, TInt(int64(o)), true
	}
	isFmt := func(t *Term, verb string) bool { return t.op == OApp && t.name == "fmt:"+verb }
	var neg, h, m *Term
	ps := concatArgs(t)
	minute := func(t *Term) *Term {
		if isFmt(t, "%02d") {
			return t.args[0]
		}
		if k, ok := t.strConst(); ok && len(k) == 2 {
			if v, ok := atoi(t).intConst(); ok && v >= 0 {
				return TInt(v)
			}
		}
		return nil
	}
	abs := func(x *Term) *Term { return Ite(Lt(x, TInt(0)), Neg(x), x) }
	switch {
	case len(ps) == 2 && isFmt(ps[0], "%+03d"):
		neg, h, m = Lt(ps[0].args[0], TInt(0)), abs(ps[0].args[0]), minute(ps[1])
	case len(ps) == 2 && ps[0].isConst() && len(ps[0].sval) == 3 && strings.Contains("+-", ps[0].sval[:1]):
		neg, h, m = TBool(ps[0].sval[0] == '-'), minute(TStr(ps[0].sval[1:])), minute(ps[1])
	case len(ps) == 3 && ps[0].isConst() && len(ps[0].sval) == 1 && strings.Contains("+-", ps[0].sval):
		neg, h, m = TBool(ps[0].sval == "-"), minute(ps[1]), minute(ps[2])
	case len(ps) == 2 && ps[1].isConst() && len(ps[1].sval) == 2 && isFmt(ps[0], "%+03d"):
		neg, h, m = Lt(ps[0].args[0], TInt(0)), abs(ps[0].args[0]), minute(ps[1])
	}
	if h == nil || m == nil {
		return nil, nil, false
	}
	ok = App("time.zoneok", SBool, t)
	if len(ok.axioms) == 0 {
		ok.axioms = append(ok.axioms,
			Implies(ok, And(Le(h, TInt(24)), Le(TInt(0), h), Le(TInt(0), m), Le(m, TInt(60)))),
			Implies(And(Le(TInt(0), h), Le(h, TInt(23)), Le(TInt(0), m), Lt(m, TInt(60))), ok))
	}
	secs := Add(Mul(h, TInt(3600)), Mul(m, TInt(60)))
	return ok, Ite(neg, Neg(secs), secs), true
}

// zoneName says whether Parse takes a text for the name of a zone.
func zoneName(n *Term) *Term {
	if k, ok := n.strConst(); ok {
		_, err := time.Parse("-0700 MST", "+0000 "+k)
		return TBool(err == nil)
	}
	t := App("time.nameok", SBool, n)
	if len(t.axioms) == 0 {
		t.axioms = append(t.axioms, Implies(InRe(n, `(re.++ (re.range "A" "Z") (re.range "A" "Z") (re.range "A" "Z"))`), t))
	}
	return t
}

// lastSpace cuts pieces of text at the last space in them.
func lastSpace(ps []*Term) (before, after []*Term, ok bool) {
	for i := len(ps) - 1; i >= 0; i-- {
		if k, ok := ps[i].strConst(); ok {
			if j := strings.LastIndexByte(k, ' '); j >= 0 {
				return append(append([]*Term{}, ps[:i]...), TStr(k[:j])), append([]*Term{TStr(k[j+1:])}, ps[i+1:]...), true
			}
			continue
		}
		if !without(ps[i], " ") {
			return nil, nil, false
		}
	}
	return nil, nil, false
}

func (c *ctx) timeVal(abs, off, zn *Term) Value {
	return mkAbs(c.signature().Results().At(0).Type(), abs, off, zn)
}

// location is the offset and the name of a zone: those of a fixed one, and
// otherwise functions of the location and the time at.
func (c *ctx) location(v Value, at ...*Term) (off, zn *Term, ok bool) {
	p, isP := v.(*PtrV)
	if !isP || p.obj == nil {
		return nil, nil, false
	}
	sv, isS := c.ex.load(c.st, p).(*StructV)
	if !isS || len(sv.F) != 3 {
		return nil, nil, false
	}
	off, zn = sv.get(0).(*Term), sv.get(1).(*Term)
	if fixed := sv.get(2).(*Term); fixed != TTrue {
		at = append(at, off, zn)
		return App("time.zone offset", SInt, at...), App("time.zone name", SStr, at...), true
	}
	return off, zn, true
}

func init() {
	absTypes["time.Location"] = []absField{{"off", SInt}, {"name", SStr}, {"fixed", SBool}}
	externs["(time.Time).Equal"] = func(c *ctx) []Outcome { return c.ret(Eq(c.timeAbs(0), c.timeAbs(1))) }
	externs["(time.Time).IsZero"] = func(c *ctx) []Outcome { return c.ret(Eq(c.timeAbs(0), TInt(zeroTimeAbs))) }
	externs["(time.Time).Before"] = func(c *ctx) []Outcome { return c.ret(Lt(c.timeAbs(0), c.timeAbs(1))) }
	externs["(time.Time).After"] = func(c *ctx) []Outcome { return c.ret(Lt(c.timeAbs(1), c.timeAbs(0))) }
	externs["(time.Time).Compare"] = func(c *ctx) []Outcome { return c.ret(cmpT(c.timeAbs(0), c.timeAbs(1))) }
	externs["(time.Time).Add"] = func(c *ctx) []Outcome {
		return c.ret(c.timeVal(Add(c.timeAbs(0), c.str(1)), c.timeOff(0), c.args[0].(*StructV).get(2).(*Term)))
	}
	externs["(time.Time).Zone"] = func(c *ctx) []Outcome {
		return c.rets(c.args[0].(*StructV).get(2), c.timeOff(0))
	}
	externs["(time.Time).UTC"] = func(c *ctx) []Outcome {
		return c.ret(c.timeVal(c.timeAbs(0), TInt(0), TStr("UTC")))
	}
	externs["time.FixedZone"] = func(c *ctx) []Outcome {
		pt := c.signature().Results().At(0).Type().(*types.Pointer).Elem()
		return c.ret(c.ex.alloc(c.st, pt, "zone", mkAbs(pt, c.str(1), c.str(0), TTrue)))
	}
	externs["(time.Time).In"] = func(c *ctx) []Outcome {
		off, zn, ok := c.location(c.args[1], c.timeAbs(0))
		if !ok {
			return c.limit("")
		}
		return c.ret(c.timeVal(c.timeAbs(0), off, zn))
	}
	// Format, in layouts of digits: a function of the instant and the offset.
	externs["(time.Time).Format"] = func(c *ctx) []Outcome {
		f, ok := c.str(1).strConst()
		if !ok || !layoutOK(f) {
			return c.limit("")
		}
		t := App("time.fmt:"+f, SStr, c.timeAbs(0), c.timeOff(0))
		if len(t.axioms) == 0 {
			re := `(re.+ (re.union (re.range "0" "9") (re.range "-" ".")))`
			for _, g := range forms {
				if f == g {
					re = `(re.+ (re.range "0" "9"))`
				}
			}
			if f == msForm {
				d := `(re.+ (re.range "0" "9"))`
				re = `(re.++ ` + d + ` (str.to_re ".") ` + d + `)`
			}
			if regexp.MustCompile(`^[0-9.-]*$`).MatchString(f) {
				t.axioms = append(t.axioms, InRe(t, re))
			}
		}
		return c.ret(t)
	}
	parse := func(c *ctx, loc Value) []Outcome {
		layout, ok := c.str(0).strConst()
		if !ok {
			return c.limit("(layout)")
		}
		s := c.str(1)
		b, zoneOK, off, zn := s, TTrue, TInt(0), TStr("UTC")
		ps := concatArgs(s)
		f := layout
		if loc != nil {
			if off, zn, ok = c.location(loc, s); !ok {
				return c.limit("(location)")
			}
		}
		if g, named := strings.CutSuffix(f, " -0700 MST"); named {
			var n []*Term
			if ps, n, ok = lastSpace(ps); !ok {
				return c.limit("(name)")
			}
			f = g + " -0700"
			zn = Concat(append(n, TStr(""))...)
			zoneOK = zoneName(zn)
		} else {
			zn = App("time.local zone", SStr, s)
		}
		if g, zoned := strings.CutSuffix(f, " -0700"); zoned {
			before, z, ok := lastSpace(ps)
			if !ok {
				return c.limit("(offset text)")
			}
			ok1, o, known := zoneText(z)
			if !known {
				return c.limit("(offset)")
			}
			zoneOK = And(zoneOK, ok1)
			off = o
			f = g
			b = Concat(append(before, TStr(""))...)
		} else if loc == nil {
			zn = TStr("UTC")
		}
		if !layoutOK(f) {
			return c.limit("(layout)")
		}
		okc := And(localOK(f, b), zoneOK)
		return c.ex.fork(c.st, okc, func(st *State) []Outcome {
			abs := Sub(localOf(f, b), Mul(off, nano))
			return []Outcome{{st, TupleV{c.timeVal(abs, off, zn), nilErr()}}}
		}, func(st *State) []Outcome {
			v := symVal(errorType, &Origin{path: "time.err", args: []*Term{s}}).(*IfaceV)
			nonNil(v)
			return []Outcome{{st, TupleV{c.timeVal(TInt(zeroTimeAbs), TInt(0), TStr("UTC")), v}}}
		})
	}
	externs["time.Parse"] = func(c *ctx) []Outcome { return parse(c, nil) }
	externs["time.ParseInLocation"] = func(c *ctx) []Outcome { return parse(c, c.args[2]) }
	// Date: the instant at which it is that time of that day in UTC, less the
	// offset, if the location has only one.
	externs["time.Date"] = func(c *ctx) []Outcome {
		var as []*Term
		for i := 0; i < 7; i++ {
			as = append(as, c.str(i))
		}
		off, zn, ok := c.location(c.args[7], as...)
		if !ok {
			return c.limit("")
		}
		return c.ret(c.timeVal(Sub(App("time.date", SInt, as...), Mul(off, nano)), off, zn))
	}
}
