package main

// Symbolic values. A value of unknown contents is described by an Origin: a
// path naming where it comes from, applied to index terms. Every scalar leaf
// below it is an uninterpreted function of those terms, so reading the same
// place twice gives the same term.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Origin struct {
	path string
	args []*Term
}

func (o *Origin) sub(s string) *Origin { return &Origin{o.path + s, o.args} }
func (o *Origin) at(s string, i *Term) *Origin {
	return &Origin{o.path + s, append(append([]*Term{}, o.args...), i)}
}
func (o *Origin) term(suffix string, s Sort) *Term { return App(o.path+suffix, s, o.args...) }

type StructV struct {
	T    types.Type
	F    []Value // nil entries are filled on demand
	org  *Origin
	zero bool
}

// Seq is the contents of an array or of the array behind a slice.
type SeqV struct {
	elem types.Type
	segs []Seg
}

type Seg struct {
	vals   []Value // concrete elements, or
	org    *Origin // element i is the value with origin org[](off+i), or
	str    *Term   // the bytes of a string, from off
	off, n *Term
}

type PtrV struct {
	elem types.Type
	nilT *Term
	obj  *Obj
	path []PathElem
}

type PathElem struct {
	field int
	idx   *Term // index into a sequence, if not nil
}

type SliceV struct {
	elem types.Type
	nilT *Term
	obj  *Obj // holds a *SeqV
	off  *Term
	n    *Term
	capT *Term // may be nil: unknown
}

type IfaceV struct {
	typ types.Type // dynamic type, nil for a nil interface
	val Value
	sym *Origin // contents unknown: tag is an application of sym
	st  types.Type
}

type MapV struct {
	obj *Obj // holds a *MapData
	nil bool
	org *Origin
	T   *types.Map
}

type MapData struct {
	keys []Value
	vals []Value
}

type FuncV struct {
	fn   *ssa.Function
	free []Value
	bi   *ssa.Builtin
	org  *Origin
	nilT *Term
	// method value bound to an interface value
	recv Value
	meth *types.Func
}

type TupleV []Value

type OpaqueV struct { // values the engine only passes around
	T    types.Type
	kind string
	data interface{}
	org  *Origin
}

type IterV struct {
	m   *MapData
	str *Term
	i   int
}

type Obj struct {
	id     int
	typ    types.Type
	name   string
	init   Value
	fresh  bool // allocated by the code being executed
	stale  bool // stands for any of several objects; nothing is known of it
	global *ssa.Global
	org    *Origin // of unknown objects
}

var objSeq int

func newObj(t types.Type, name string, init Value, fresh bool) *Obj {
	objSeq++
	return &Obj{id: objSeq, typ: t, name: name, init: init, fresh: fresh}
}

var symObjs = map[string]*Obj{}

func symObj(t types.Type, o *Origin) *Obj {
	k := o.path + "|" + types.TypeString(t, nil)
	for _, a := range o.args {
		k += fmt.Sprintf("|%d", a.id)
	}
	if ob, ok := symObjs[k]; ok {
		return ob
	}
	ob := newObj(t, o.path, symVal(t, o), false)
	ob.org = o
	symObjs[k] = ob
	return ob
}

// Types with their own abstract representation.
type absField struct {
	name string
	sort Sort
}

var absTypes = map[string][]absField{
	"math/big.Rat":                    {{"v", SReal}},
	"math/big.Int":                    {{"v", SInt}},
	"time.Time":                       {{"abs", SInt}, {"off", SInt}, {"zn", SStr}},
	"golang.org/x/text/currency.Unit": {{"code", SStr}},
	"bytes.Buffer":                    {{"s", SStr}},
	"strings.Builder":                 {{"s", SStr}},
}

func absOf(t types.Type) ([]absField, bool) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, false
	}
	f, ok := absTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
	return f, ok && f != nil
}

const zeroTimeAbs = 0 // instants are nanoseconds since the zero time

func absZero(t types.Type, f absField) *Term {
	switch f.sort {
	case SReal:
		return TReal(new(big.Rat))
	case SInt:
		return TInt(0)
	case SBool:
		return TFalse
	default:
		s := ""
		switch types.TypeString(t, nil) + "." + f.name {
		case "golang.org/x/text/currency.Unit.code":
			s = "XXX"
		case "time.Time.zn":
			s = "UTC"
		}
		return TStr(s)
	}
}

func under(t types.Type) types.Type { return t.Underlying() }

func (s *StructV) nfields() int { return len(s.F) }

func newStruct(t types.Type, org *Origin, zero bool) *StructV {
	n := 0
	if f, ok := absOf(t); ok {
		n = len(f)
	} else {
		n = under(t).(*types.Struct).NumFields()
	}
	return &StructV{T: t, F: make([]Value, n), org: org, zero: zero}
}

func (s *StructV) get(i int) Value {
	if s.F[i] == nil {
		if f, ok := absOf(s.T); ok {
			if s.org == nil {
				s.F[i] = absZero(s.T, f[i])
			} else {
				s.F[i] = s.org.term("."+f[i].name, f[i].sort)
				absAxioms(s.T, f[i], s.F[i].(*Term))
			}
		} else {
			fl := under(s.T).(*types.Struct).Field(i)
			if s.org == nil {
				s.F[i] = zeroVal(fl.Type())
			} else {
				s.F[i] = symVal(fl.Type(), s.org.sub("."+fl.Name()))
			}
		}
	}
	return s.F[i]
}

func absAxioms(t types.Type, f absField, v *Term) {
	if len(v.axioms) > 0 {
		return
	}
	if f.name == "code" {
		v.axioms = append(v.axioms, currencyCode(v))
	}
}

func (s *StructV) with(i int, v Value) *StructV {
	n := &StructV{T: s.T, F: append([]Value{}, s.F...), org: s.org, zero: s.zero}
	n.F[i] = v
	return n
}

func mkAbs(t types.Type, fs ...*Term) *StructV {
	s := &StructV{T: t}
	for _, f := range fs {
		s.F = append(s.F, f)
	}
	return s
}

func sortOf(t types.Type) (Sort, bool) {
	switch b := under(t).(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return SBool, true
		case b.Info()&types.IsInteger != 0:
			return SInt, true
		case b.Info()&types.IsString != 0:
			return SStr, true
		case b.Info()&types.IsFloat != 0:
			return SReal, true
		case b.Kind() == types.UnsafePointer:
			return SInt, true
		}
	}
	return 0, false
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := uint(64)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	one := big.NewInt(1)
	if b.Info()&types.IsUnsigned != 0 {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one), true
	}
	h := new(big.Int).Lsh(one, bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
}

func rangeAxiom(t types.Type, v *Term) *Term {
	lo, hi, ok := intRange(t)
	if !ok || v.isConst() {
		return TTrue
	}
	return And(mk(OLe, SBool, "", TBig(lo), v), mk(OLe, SBool, "", v, TBig(hi)))
}

func withRange(t types.Type, v *Term) *Term {
	if v.op == OApp && len(v.axioms) == 0 {
		if a := rangeAxiom(t, v); a != TTrue {
			v.axioms = append(v.axioms, a)
		}
	}
	return v
}

// lengths are bounded by the address space
var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

func lenTerm(o *Origin) *Term {
	n := o.term("?len", SInt)
	if len(n.axioms) == 0 {
		n.axioms = append(n.axioms, mk(OLe, SBool, "", TInt(0), n), mk(OLe, SBool, "", n, TBig(maxLen)))
	}
	return n
}

// symVal is the unknown value of type t with origin o.
func symVal(t types.Type, o *Origin) Value {
	if _, ok := absOf(t); ok {
		return newStruct(t, o, false)
	}
	if s, ok := sortOf(t); ok {
		return withRange(t, o.term("", s))
	}
	switch u := under(t).(type) {
	case *types.Struct:
		return newStruct(t, o, false)
	case *types.Pointer:
		nilT := TFalse
		if !isNonNilElem(o) {
			nilT = o.term("?nil", SBool)
		}
		return &PtrV{elem: u.Elem(), nilT: nilT, obj: symObj(u.Elem(), o.sub("*"))}
	case *types.Slice:
		n := lenTerm(o)
		nilT := o.term("?nil", SBool)
		if len(nilT.axioms) == 0 {
			nilT.axioms = append(nilT.axioms, Implies(nilT, Eq(n, TInt(0))))
		}
		if isByte(u.Elem()) {
			// the contents as a string
			s := o.term("?bytes", SStr)
			nilT2 := nilT
			ob := symSeqObj(u.Elem(), o, Seg{str: s, off: TInt(0), n: Len(s)})
			if len(s.axioms) == 0 {
				s.axioms = append(s.axioms, Implies(nilT2, Eq(s, TStr(""))))
			}
			return &SliceV{elem: u.Elem(), nilT: nilT2, obj: ob, off: TInt(0), n: Len(s)}
		}
		ob := symSeqObj(u.Elem(), o, Seg{org: o, off: TInt(0), n: n})
		return &SliceV{elem: u.Elem(), nilT: nilT, obj: ob, off: TInt(0), n: n}
	case *types.Array:
		seq := &SeqV{elem: u.Elem()}
		if isByte(u.Elem()) {
			s := o.term("?bytes", SStr)
			if len(s.axioms) == 0 {
				s.axioms = append(s.axioms, Eq(Len(s), TInt(u.Len())))
			}
			seq.segs = []Seg{{str: s, off: TInt(0), n: TInt(u.Len())}}
			return seq
		}
		if u.Len() > 4096 {
			seq.segs = []Seg{{org: o, off: TInt(0), n: TInt(u.Len())}}
			return seq
		}
		var vs []Value
		for i := int64(0); i < u.Len(); i++ {
			vs = append(vs, symVal(u.Elem(), o.at("[]", TInt(i))))
		}
		seq.segs = []Seg{{vals: vs}}
		return seq
	case *types.Interface:
		return &IfaceV{sym: o, st: t}
	case *types.Signature:
		return &FuncV{org: o, nilT: o.term("?nil", SBool)}
	case *types.Map:
		return &MapV{org: o, T: u}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, symVal(u.At(i).Type(), o.sub(fmt.Sprintf("#%d", i))))
		}
		return tv
	}
	return &OpaqueV{T: t, kind: "sym", org: o}
}

func symSeqObj(elem types.Type, o *Origin, seg Seg) *Obj {
	k := "seq:" + o.path + "|" + types.TypeString(elem, nil)
	for _, a := range o.args {
		k += fmt.Sprintf("|%d", a.id)
	}
	if ob, ok := symObjs[k]; ok {
		return ob
	}
	ob := newObj(types.NewSlice(elem), o.path+"[]", &SeqV{elem: elem, segs: []Seg{seg}}, false)
	symObjs[k] = ob
	return ob
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func zeroVal(t types.Type) Value {
	if _, ok := absOf(t); ok {
		return newStruct(t, nil, true)
	}
	if s, ok := sortOf(t); ok {
		switch s {
		case SBool:
			return TFalse
		case SInt:
			return TInt(0)
		case SStr:
			return TStr("")
		case SReal:
			return TReal(new(big.Rat))
		}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		return newStruct(t, nil, true)
	case *types.Pointer:
		return &PtrV{elem: u.Elem(), nilT: TTrue}
	case *types.Slice:
		return &SliceV{elem: u.Elem(), nilT: TTrue, off: TInt(0), n: TInt(0), capT: TInt(0)}
	case *types.Array:
		seq := &SeqV{elem: u.Elem()}
		if isByte(u.Elem()) {
			seq.segs = []Seg{{str: TStr(strings.Repeat("\x00", int(u.Len()))), off: TInt(0), n: TInt(u.Len())}}
			return seq
		}
		var vs []Value
		for i := int64(0); i < u.Len(); i++ {
			vs = append(vs, zeroVal(u.Elem()))
		}
		seq.segs = []Seg{{vals: vs}}
		return seq
	case *types.Interface:
		return &IfaceV{st: t}
	case *types.Signature:
		return &FuncV{nilT: TTrue}
	case *types.Map:
		return &MapV{nil: true, T: u}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, zeroVal(u.At(i).Type()))
		}
		return tv
	}
	return &OpaqueV{T: t, kind: "zero"}
}

// ---- sequences

func (q *SeqV) length() *Term {
	n := TInt(0)
	for _, s := range q.segs {
		n = Add(n, s.len())
	}
	return n
}
func (s Seg) len() *Term {
	if s.vals != nil {
		return TInt(int64(len(s.vals)))
	}
	return s.n
}

// at returns the element at index i, which is known to be in range.
func (q *SeqV) at(i *Term, dec func(*Term) int) Value {
	for k, s := range q.segs {
		n := s.len()
		in := Lt(i, n)
		d := 0
		if k == len(q.segs)-1 {
			d = 1
		} else if in == TTrue {
			d = 1
		} else if in == TFalse {
			d = -1
		} else {
			d = dec(in)
		}
		if d == 0 {
			return nil
		}
		if d < 0 {
			i = Sub(i, n)
			continue
		}
		switch {
		case s.vals != nil:
			if c, ok := i.intConst(); ok {
				if c < 0 || c >= int64(len(s.vals)) {
					return nil
				}
				return s.vals[c]
			}
			// symbolic index into known elements
			var v Value = s.vals[len(s.vals)-1]
			for j := len(s.vals) - 2; j >= 0; j-- {
				m, ok := mergeVal(Eq(i, TInt(int64(j))), s.vals[j], v)
				if !ok {
					return nil
				}
				v = m
			}
			return v
		case s.str != nil:
			return byteAt(s.str, Add(s.off, i))
		default:
			return symVal(q.elem, s.org.at("[]", Add(s.off, i)))
		}
	}
	return nil
}

func byteAt(s, i *Term) *Term {
	t := AtT(s, i)
	if !t.isConst() && len(t.axioms) == 0 {
		t.axioms = append(t.axioms, mk(OLe, SBool, "", t, TInt(255)))
	}
	return t
}

// bytesOf returns the contents of a byte sequence as a string term.
func (q *SeqV) bytesOf() (*Term, bool) {
	var out []*Term
	for _, s := range q.segs {
		switch {
		case s.str != nil:
			out = append(out, Substr(s.str, s.off, s.n))
		case s.vals != nil:
			for _, v := range s.vals {
				c, ok := v.(*Term).intConst()
				if !ok {
					out = append(out, App("byte", SStr, v.(*Term)))
					continue
				}
				out = append(out, TStr(string([]byte{byte(c)})))
			}
		default:
			return nil, false
		}
	}
	return Concat(append(out, TStr(""))...), true
}

// sub returns elements [lo, lo+n).
func (q *SeqV) sub(lo, n *Term) (*SeqV, bool) {
	if lo == TInt(0) && n == q.length() {
		return q, true
	}
	r := &SeqV{elem: q.elem}
	if len(q.segs) == 1 && q.segs[0].vals == nil {
		s := q.segs[0]
		s.off, s.n = Add(s.off, lo), n
		r.segs = []Seg{s}
		return r, true
	}
	l, ok1 := lo.intConst()
	if !ok1 {
		return nil, false
	}
	c, ok2 := n.intConst()
	if ok2 && c == 0 {
		return r, true
	}
	// skip l elements, then take the rest or c elements
	rest := []Seg{}
	for k, s := range q.segs {
		if l == 0 {
			rest = append(rest, q.segs[k:]...)
			break
		}
		k64, ok := s.len().intConst()
		if !ok {
			return nil, false
		}
		if k64 <= l {
			l -= k64
			continue
		}
		if s.vals != nil {
			s.vals = s.vals[l:]
		} else {
			s.off, s.n = Add(s.off, TInt(l)), Sub(s.n, TInt(l))
		}
		l = 0
		rest = append(append(rest, s), q.segs[k+1:]...)
		break
	}
	if Sub(q.length(), lo) == n {
		r.segs = rest
		return r, true
	}
	if ok2 {
		for _, s := range rest {
			k64, ok := s.len().intConst()
			if !ok {
				return nil, false
			}
			if k64 >= c {
				if s.vals != nil {
					s.vals = s.vals[:c]
				} else {
					s.n = TInt(c)
				}
				r.segs = append(r.segs, s)
				return r, true
			}
			r.segs = append(r.segs, s)
			c -= k64
		}
		return nil, false
	}
	// a symbolic number of elements: drop whole segments from the end
	for k := len(rest); k > 0; k-- {
		t := &SeqV{elem: q.elem, segs: rest[:k]}
		if t.length() == n {
			return t, true
		}
	}
	return nil, false
}

func (q *SeqV) concat(o *SeqV) *SeqV {
	r := &SeqV{elem: q.elem}
	add := func(s Seg) {
		if s.vals != nil && len(s.vals) == 0 || s.vals == nil && s.n == TInt(0) {
			return
		}
		if k := len(r.segs); k > 0 && s.vals != nil && r.segs[k-1].vals != nil {
			r.segs[k-1].vals = append(append([]Value{}, r.segs[k-1].vals...), s.vals...)
			return
		}
		r.segs = append(r.segs, s)
	}
	for _, s := range q.segs {
		add(s)
	}
	for _, s := range o.segs {
		add(s)
	}
	return r
}

// ---- type tags

var typeTags = map[string]int64{}

func typeTag(t types.Type) *Term {
	k := types.TypeString(t, nil)
	if n, ok := typeTags[k]; ok {
		return TInt(n)
	}
	n := int64(len(typeTags) + 1)
	typeTags[k] = n
	return TInt(n)
}

func (v *IfaceV) tag() *Term {
	if v.sym != nil {
		t := v.sym.term("?tag", SInt)
		if len(t.axioms) == 0 {
			t.axioms = append(t.axioms, mk(OLe, SBool, "", TInt(0), t))
		}
		return t
	}
	if v.typ == nil {
		return TInt(0)
	}
	return typeTag(v.typ)
}

func (v *IfaceV) isNil() *Term { return Eq(v.tag(), TInt(0)) }

// ---- merging

// mergeSliceHook merges slices with different backing arrays by contents.
var mergeSliceHook func(x, y *SliceV) (Value, bool)

// mergeVal is if c then a else b, for values which can be merged.
func mergeVal(c *Term, a, b Value) (Value, bool) {
	if ident(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return nil, false
		}
		return Ite(c, x, y), true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		if sameOrigin(x, y) {
			return x, true
		}
		n := &StructV{T: x.T, F: make([]Value, len(x.F))}
		for i := range x.F {
			m, ok := mergeVal(c, x.get(i), y.get(i))
			if !ok {
				return nil, false
			}
			n.F[i] = m
		}
		return n, true
	case *SeqV:
		y, ok := b.(*SeqV)
		if !ok || len(x.segs) != len(y.segs) {
			return nil, false
		}
		n := &SeqV{elem: x.elem}
		for i := range x.segs {
			s, t := x.segs[i], y.segs[i]
			switch {
			case s.vals != nil && t.vals != nil && len(s.vals) == len(t.vals):
				var vs []Value
				for j := range s.vals {
					m, ok := mergeVal(c, s.vals[j], t.vals[j])
					if !ok {
						return nil, false
					}
					vs = append(vs, m)
				}
				n.segs = append(n.segs, Seg{vals: vs})
			case s.str != nil && t.str != nil:
				u := Ite(c, Substr(s.str, s.off, s.n), Substr(t.str, t.off, t.n))
				n.segs = append(n.segs, Seg{str: u, off: TInt(0), n: Len(u)})
			case s.vals == nil && t.vals == nil && s.str == nil && t.str == nil && originEq(s.org, t.org) && s.off == t.off:
				s.n = Ite(c, s.n, t.n)
				n.segs = append(n.segs, s)
			default:
				return nil, false
			}
		}
		return n, true
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			return nil, false
		}
		if x.nilT == TTrue && y.nilT == TTrue {
			return x, true
		}
		if x.nilT == TTrue {
			return &PtrV{y.elem, Or(c, y.nilT), y.obj, y.path}, true
		}
		if y.nilT == TTrue {
			return &PtrV{x.elem, Or(Not(c), x.nilT), x.obj, x.path}, true
		}
		if x.obj != y.obj || !pathEq(x.path, y.path) {
			return nil, false
		}
		return &PtrV{x.elem, Ite(c, x.nilT, y.nilT), x.obj, x.path}, true
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			return nil, false
		}
		if x.nilT == TTrue && y.nilT == TTrue {
			return x, true
		}
		if x.obj != y.obj || x.off != y.off && mergeSliceHook != nil {
			if mergeSliceHook == nil {
				return nil, false
			}
			return mergeSliceHook(x, y)
		}
		return &SliceV{elem: x.elem, nilT: Ite(c, x.nilT, y.nilT), obj: x.obj, off: Ite(c, x.off, y.off), n: Ite(c, x.n, y.n)}, true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return nil, false
		}
		if x.typ == nil && y.typ == nil && x.sym == nil && y.sym == nil {
			return x, true
		}
		if x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			m, ok := mergeVal(c, x.val, y.val)
			if !ok {
				return nil, false
			}
			return &IfaceV{typ: x.typ, val: m, st: x.st}, true
		}
		if x.sym != nil && y.sym != nil && originEq(x.sym, y.sym) {
			return x, true
		}
		return nil, false
	case *MapV:
		y, ok := b.(*MapV)
		if ok && x.obj == y.obj && x.nil == y.nil && x.org == nil && y.org == nil {
			return x, true
		}
		return nil, false
	case *FuncV:
		y, ok := b.(*FuncV)
		if ok && x.fn == y.fn && len(x.free) == 0 && len(y.free) == 0 && x.org == nil && y.org == nil && x.nilT == y.nilT && x.recv == nil && y.recv == nil {
			return x, true
		}
		return nil, false
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		var n TupleV
		for i := range x {
			m, ok := mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			n = append(n, m)
		}
		return n, true
	}
	return nil, false
}

func originEq(a, b *Origin) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.path != b.path || len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			return false
		}
	}
	return true
}

// sameOrigin: both are untouched copies of the same unknown or zero value
func sameOrigin(x, y *StructV) bool {
	if x.zero != y.zero || !originEq(x.org, y.org) || (x.org == nil && !x.zero) {
		return false
	}
	for i := range x.F {
		// a filled field may have been overwritten
		if x.F[i] != nil && y.F[i] != nil && !valSame(x.F[i], y.F[i]) {
			return false
		}
		if (x.F[i] == nil) != (y.F[i] == nil) && !valSame(x.get(i), y.get(i)) {
			return false
		}
	}
	return true
}

func pathEq(a, b []PathElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// valSame: certainly the same value (structurally).
func ident(a, b Value) bool {
	_, t1 := a.(TupleV)
	_, t2 := b.(TupleV)
	return !t1 && !t2 && a == b
}

func valSame(a, b Value) bool {
	if ident(a, b) {
		return true
	}
	switch x := a.(type) {
	case *Term:
		return false
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if x.F[i] == nil && y.F[i] == nil && originEq(x.org, y.org) && (x.org != nil || x.zero && y.zero) {
				continue
			}
			if !valSame(x.get(i), y.get(i)) {
				return false
			}
		}
		return true
	case *SeqV:
		y, ok := b.(*SeqV)
		if !ok || len(x.segs) != len(y.segs) {
			return false
		}
		for i := range x.segs {
			s, t := x.segs[i], y.segs[i]
			if (s.vals == nil) != (t.vals == nil) || len(s.vals) != len(t.vals) {
				return false
			}
			if s.vals != nil {
				for j := range s.vals {
					if !valSame(s.vals[j], t.vals[j]) {
						return false
					}
				}
				continue
			}
			if s.str != t.str || s.off != t.off || s.n != t.n || !originEq(s.org, t.org) {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.nilT == y.nilT && (x.nilT == TTrue || x.obj == y.obj && pathEq(x.path, y.path))
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.nilT == y.nilT && x.obj == y.obj && x.off == y.off && x.n == y.n
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if x.sym != nil || y.sym != nil {
			return originEq(x.sym, y.sym)
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ) && valSame(x.val, y.val)
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.obj == y.obj && x.nil == y.nil && originEq(x.org, y.org)
	case *MapData:
		y, ok := b.(*MapData)
		if !ok || len(x.keys) != len(y.keys) {
			return false
		}
		for i := range x.keys {
			if !valSame(x.keys[i], y.keys[i]) || !valSame(x.vals[i], y.vals[i]) {
				return false
			}
		}
		return true
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || len(x.free) != len(y.free) || x.nilT != y.nilT || !originEq(x.org, y.org) {
			return false
		}
		for i := range x.free {
			if !valSame(x.free[i], y.free[i]) {
				return false
			}
		}
		return true
	case *OpaqueV:
		y, ok := b.(*OpaqueV)
		return ok && x.kind == y.kind && x.data == y.data && originEq(x.org, y.org)
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valSame(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}
