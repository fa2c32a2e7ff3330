package main

// Hexadecimal output and random bytes.

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
)

// hexByte is the two lower-case digits of a byte.
func hexByte(b *Term) *Term {
	if k, ok := b.intConst(); ok {
		return TStr(fmt.Sprintf("%02x", k))
	}
	t := App("hexbyte", SStr, b)
	addAxiom(t, InRe(t, `((_ re.^ 2) (re.union (re.range "0" "9") (re.range "a" "f")))`))
	addAxiom(t, Eq(Len(t), TInt(2)))
	return t
}

// hexOf is the hexadecimal form of a known number of bytes.
func (c *ctx) hexOf(v Value) ([]*Term, bool) {
	var q *SeqV
	switch x := v.(type) {
	case *SliceV:
		if !isByte(x.elem) {
			return nil, false
		}
		q = c.ex.sliceSeq(c.st, x)
	case *SeqV:
		if !isByte(x.elem) {
			return nil, false
		}
		q = x
	default:
		return nil, false
	}
	n, ok := c.st.simpI(q.length()).intConst()
	if !ok || n > 256 {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		b, ok := q.at(TInt(i), func(t *Term) int { return c.ex.decide(c.st, t) }).(*Term)
		if !ok {
			return nil, false
		}
		out = append(out, hexByte(b))
	}
	return out, true
}

var hexVerb = regexp.MustCompile(`^%(0[0-9]+)?x$`)

func (c *ctx) hexArg(verb string, iv *IfaceV) (*Term, bool) {
	m := hexVerb.FindStringSubmatch(verb)
	if m == nil {
		return nil, false
	}
	w, _ := strconv.Atoi(m[1])
	if t, ok := iv.val.(*Term); ok {
		b, isB := under(iv.typ).(*types.Basic)
		if isB && b.Kind() == types.Uint8 && w == 2 {
			return hexByte(t), true
		}
		return nil, false
	}
	hs, ok := c.hexOf(iv.val)
	if !ok || 2*len(hs) < w {
		return nil, false
	}
	return Concat(append(hs, TStr(""))...), true
}

func init() {
	externs["encoding/hex.EncodeToString"] = func(c *ctx) []Outcome {
		hs, ok := c.hexOf(c.args[0])
		if !ok {
			return c.limit("")
		}
		return c.ret(Concat(append(hs, TStr(""))...))
	}
	// fills the slice with unknown bytes; n == len(b) exactly if err == nil
	externs["crypto/rand.Read"] = func(c *ctx) []Outcome {
		s := c.args[0].(*SliceV)
		res := c.anything()
		t := res[0].res.(TupleV)
		n, err := t[0].(*Term), t[1].(*IfaceV)
		ax := Eq(Eq(n, s.n), err.isNil())
		addAxiom(n, ax)
		addAxiom(err.tag(), ax)
		addAxiom(n, And(Le(TInt(0), n), Le(n, s.n)))
		if s.obj == nil || s.n == TInt(0) {
			return res
		}
		whole, ok := c.ex.objVal(c.st, s.obj).(*SeqV)
		if !ok {
			return c.limit("")
		}
		by := c.st.event(c.name+">").term("", SStr)
		addAxiom(by, Eq(Len(by), s.n))
		mid := &SeqV{elem: s.elem, segs: []Seg{{str: by, off: TInt(0), n: s.n}}}
		if s.off == TInt(0) && c.st.simpI(s.n) == c.st.simpI(whole.length()) {
			c.st.heap[s.obj] = mid
			return res
		}
		a, ok1 := whole.sub(TInt(0), s.off)
		end := Add(s.off, s.n)
		z, ok2 := whole.sub(end, Sub(whole.length(), end))
		if !ok1 || !ok2 {
			return c.limit("into part of a buffer")
		}
		c.st.heap[s.obj] = a.concat(mid).concat(z)
		return res
	}
}
