//go:build go1.21

package ofxgo

//govc:use MSG

import "strings"

// The failures of the single validations, flattened, in order.
var (
	g23Errs    errInvalid
	g23Started bool
	g23Signon  bool
	g23Pos     int // how many messages have been validated
	g23Sets    [14][]Message
	g23Version ofxVersion
	g23Resp    *Response
)

// c23list is the list an error stands for.
func c23list(l errInvalid, e error) errInvalid {
	if e == nil {
		return l
	}
	if es, ok := e.(errInvalid); ok {
		return append(l, es...)
	}
	return append(l, e)
}

// c23one: an invalid message comes with an error, a valid one with none (C15,
// C29), and only responses report lists of errors.
func c23one(ok bool, e error) {
	vAssume(ok == (e == nil))
	vAssume(vPure(func() bool { _, isList := e.(errInvalid); return !isList }))
	if !ok {
		g23Errs = append(g23Errs, e)
	}
}

func C23__ensures__errInvalid_AddErr__all(p0 *errInvalid, o0 errInvalid, p1 error) bool {
	return same(*p0, c23list(o0, p1))
}

func C23__ensures__errInvalid_ErrOrNil__all(p0 errInvalid, r0 error) bool {
	if len(p0) == 0 {
		return r0 == nil
	}
	l, ok := r0.(errInvalid)
	return ok && same(l, p0)
}

// Validating a response

func C23__setup__Response_Valid__rec(p0 *Response) {
	g23Started, g23Resp, g23Sets, g23Version = true, p0, msgResponseSets(p0), p0.Version
}

func C23__requires__Response_Valid__noNil(p0 *Response) bool { return msgResponseNoNil(p0) }

func C23__before__SignonResponse_Valid__first(p0 *SignonResponse, p1 ofxVersion) {
	vAssert(!g23Signon, "the sign-on is validated once")
	vAssert(g23Pos == 0, "the sign-on is validated first")
	vAssert(samePtr(p0, &g23Resp.Signon), "the sign-on of the response is validated")
	vAssert(p1 == g23Version, "for the version of the response")
	g23Signon = true
}

func C23__after__SignonResponse_Valid__rec(r0 bool, r1 error) {
	c23one(r0, r1)
}

func C23__before__Message_Valid__next(p0 Message, p1 ofxVersion) {
	vAssert(g23Signon, "the sign-on is validated first")
	vAssert(p1 == g23Version, "for the version of the response")
	n, found := g23Pos, false
	for i := 0; i < 14 && !found; i++ {
		if n < len(g23Sets[i]) {
			vAssert(same(p0, g23Sets[i][n]), "all messages are validated in order")
			found = true
		} else {
			n -= len(g23Sets[i])
		}
	}
	vAssert(found, "no message is validated twice")
	g23Pos++
}

func C23__after__Message_Valid__rec(r0 bool, r1 error) {
	c23one(r0, r1)
}

func C23__ensures__Response_Valid__all(r0 bool, r1 error) bool {
	n := 0
	for i := 0; i < 14; i++ {
		n += len(g23Sets[i])
	}
	if !g23Signon || g23Pos != n || r0 != (r1 == nil) {
		return false
	}
	if len(g23Errs) == 0 {
		return r1 == nil
	}
	l, ok := r1.(errInvalid)
	return ok && same(l, g23Errs)
}

// The text of such an error

var (
	g23Joined bool
	g23Text   string
	g23List   errInvalid
)

func C23__setup__errInvalid_Error__rec(p0 errInvalid) { g23List = p0 }

func C23__requires__errInvalid_Error__noNil(p0 errInvalid) bool {
	return forall(len(p0), func(i int) bool { return p0[i] != nil })
}

func C23__before__strings_Join__all(p0 []string) {
	vAssert(len(p0) == len(g23List), "as many texts as errors")
	vAssert(len(p0) != len(g23List) || forall(len(p0), func(i int) bool { return p0[i] == g23List[i].Error() }), "the texts of all errors, in order")
}

func C23__after__strings_Join__rec(r0 string) { g23Joined, g23Text = true, r0 }

func C23__ensures__errInvalid_Error__text(r0 string) bool {
	if !g23Joined {
		vGiveUp("the texts are not joined")
	}
	return strings.Contains(r0, g23Text)
}

// Parsing a response

var (
	g23Decodes int
	g23DecErr  error
	g23Decoded *Response
	g23Valid   bool
	g23Ok      bool
	g23ValErr  error
)

func C23__contract__Response_Valid__err(r0 bool, r1 error) bool { return r0 == (r1 == nil) }

func C23__after__Response_Valid__rec(p0 *Response, r0 bool, r1 error) {
	if g23Decoded != nil && samePtr(p0, g23Decoded) {
		g23Valid, g23Ok, g23ValErr = true, r0, r1
	}
}

// What decoding means here: either a response whose lists hold no nil
// messages or an error (C08).
func C23__assume__DecodeResponse__result(r0 *Response, r1 error) bool {
	if r1 != nil {
		return r0 == nil
	}
	return r0 != nil && msgResponseNoNil(r0)
}

func C23__before__DecodeResponse__rec() { g23Decodes++ }

func C23__after__DecodeResponse__rec(r0 *Response, r1 error) { g23Decoded, g23DecErr = r0, r1 }

func C23__ensures__ParseResponse__result(r0 *Response, r1 error) bool {
	if g23Decodes != 1 {
		vGiveUp("the document is not decoded once")
	}
	if g23DecErr != nil {
		return r0 == nil && r1 != nil
	}
	if !g23Valid {
		return false
	}
	if g23Ok {
		return samePtr(r0, g23Decoded) && r1 == nil
	}
	return samePtr(r0, g23Decoded) && same(r1, g23ValErr)
}
