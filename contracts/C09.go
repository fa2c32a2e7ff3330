//go:build go1.21

package ofxgo

//govc:use TAB MSG C15

import (
	"bytes"

	"github.com/aclindsa/xml"
)

// The document as the encoder was asked to write it.
const (
	d09Start = iota
	d09Open
	d09Signon
	d09Signed
	d09Sets
	d09InSet
	d09Closed
	d09Flushed
)

var (
	g09Stage  int
	g09Next   int       // the first set which may come next
	g09Cur    int       // the set being written
	g09List   []Message // its messages
	g09Msg    int       // how many of them have been written
	g09Enc    *xml.Encoder
	g09Failed bool // the encoder reported a failure
	g09Leaves bool // closing tags of leaf elements are left out
	g09Other  bool // something was left out which should not be

	// what is to be written
	g09Sets    [14][]Message
	g09Rs      bool
	g09Request *Request
	g09Answer  *Response
	g09Version ofxVersion
)

var c09names = [...]string{"SIGNON", "SIGNUP", "BANK", "CREDITCARD", "LOAN", "INVSTMT", "INTERXFER", "WIREXFER", "BILLPAY", "EMAIL", "SECLIST", "PRESDIR", "PRESDLV", "PROF", "IMAGE"}

func c09name(i int) string {
	if g09Rs {
		return c09names[i] + "MSGSRSV1"
	}
	return c09names[i] + "MSGSRQV1"
}

func c09type(i int) messageType {
	t := [...]messageType{SignupRq, BankRq, CreditCardRq, LoanRq, InvStmtRq, InterXferRq, WireXferRq, BillpayRq, EmailRq, SecListRq, PresDirRq, PresDlvRq, ProfRq, ImageRq}
	if g09Rs {
		t = [...]messageType{SignupRs, BankRs, CreditCardRs, LoanRs, InvStmtRs, InterXferRs, WireXferRs, BillpayRs, EmailRs, SecListRs, PresDirRs, PresDlvRs, ProfRs, ImageRs}
	}
	return t[i]
}

func C09__setup__Request_Marshal__rec(p0 *Request) {
	g09Sets, g09Rs, g09Request, g09Version = msgRequestSets(p0), false, p0, p0.Version
}

func C09__setup__Response_Marshal__rec(p0 *Response) {
	g09Sets, g09Rs, g09Answer, g09Version = msgResponseSets(p0), true, p0, p0.Version
}

func c09same(e *xml.Encoder) {
	if g09Enc == nil {
		g09Enc = e
	}
	vAssert(samePtr(e, g09Enc), "one encoder writes the whole document")
}

// noneBefore says that the sets from the next one to n-1 are empty.
func c09noneBefore(n int) bool {
	return vPure(func() bool {
		ok := true
		for i := 0; i < n; i++ {
			ok = ok && (i < g09Next || len(g09Sets[i]) == 0)
		}
		return ok
	})
}

func c09open(name string) {
	switch g09Stage {
	case d09Start:
		vAssert(name == "OFX", "the document is one OFX element")
		g09Stage = d09Open
	case d09Open:
		vAssert(name == c09name(0), "the sign-on comes first")
		g09Stage = d09Signon
	case d09Sets:
		j := -1
		for i := 0; i < 14; i++ {
			if name == c09name(i+1) {
				j = i
			}
		}
		if j < 0 {
			vAssert(false, "unknown message set")
			return
		}
		vAssert(vPure(func() bool { return j >= g09Next && len(g09Sets[j]) > 0 }), "each set which has messages is written once, in order")
		vAssert(c09noneBefore(j), "no set with messages is left out")
		g09Stage, g09Cur, g09List, g09Msg = d09InSet, j, g09Sets[j], 0
	default:
		vAssert(false, "misplaced start of an element")
	}
}

func c09close(name string) {
	switch g09Stage {
	case d09Signed:
		vAssert(name == c09name(0), "the sign-on set is closed")
		g09Stage = d09Sets
	case d09InSet:
		vAssert(name == c09name(g09Cur+1), "the message set is closed")
		vAssert(g09Msg == len(g09List), "all messages of a set are written")
		g09Stage, g09Next, g09Cur, g09List, g09Msg = d09Sets, g09Cur+1, 0, nil, 0
	case d09Sets:
		vAssert(name == "OFX", "the document is closed")
		vAssert(c09noneBefore(14), "no set with messages is left out")
		g09Stage = d09Closed
	default:
		vAssert(false, "misplaced end of an element")
	}
}

func C09__before__xml_Encoder_EncodeToken__auto(p0 *xml.Encoder, p1 xml.Token) {
	c09same(p0)
	switch x := p1.(type) {
	case xml.StartElement:
		vAssert(x.Name.Space == "" && len(x.Attr) == 0, "elements have no name space and no attributes")
		c09open(x.Name.Local)
	case xml.EndElement:
		vAssert(x.Name.Space == "", "elements have no name space")
		c09close(x.Name.Local)
	default:
		vAssert(false, "only elements are written")
	}
}

func C09__before__xml_Encoder_Encode__auto(p0 *xml.Encoder, p1 interface{}) {
	c09same(p0)
	switch g09Stage {
	case d09Signon:
		if g09Rs {
			s, ok := p1.(*SignonResponse)
			vAssert(ok && samePtr(s, &g09Answer.Signon), "the sign-on is written")
			vAssert(vPure(func() bool {
				c := g09Answer.Signon
				_, sev, _, ok := c16row(c.Status.Code)
				return len(c.Language) == 3 && ok && string(c.Status.Severity) == sev
			}), "the sign-on is valid")
		} else {
			s, ok := p1.(*SignonRequest)
			vAssert(ok && samePtr(s, &g09Request.Signon), "the sign-on is written")
			vAssert(vPure(func() bool {
				c := g09Request.Signon
				return c15credentials(c) && len(c.Language) == 3 &&
					len(c.AppID) >= 1 && len(c.AppID) <= 5 && len(c.AppVer) >= 1 && len(c.AppVer) <= 4
			}), "the sign-on is valid")
		}
		g09Stage = d09Signed
	case d09InSet:
		vAssert(g09Msg < len(g09List), "no message is written twice")
		m := g09List[g09Msg]
		vAssert(same(p1, m), "messages are written in order")
		vAssert(m.Type() == c09type(g09Cur), "messages belong to the set they are written in")
		vAssert(vPure(func() bool { ok, _ := m.Valid(g09Version); return ok }), "messages are valid")
		g09Msg++
	default:
		vAssert(false, "misplaced element")
	}
}

func C09__before__xml_Encoder_EncodeElement__auto() { vGiveUp("EncodeElement of a message") }

func C09__before__xml_Encoder_Flush__auto(p0 *xml.Encoder) {
	c09same(p0)
	if g09Stage == d09Closed {
		g09Stage = d09Flushed
	}
}

func C09__after__xml_Encoder_EncodeToken__err(r0 error) { g09Failed = g09Failed || r0 != nil }
func C09__after__xml_Encoder_Encode__err(r0 error)      { g09Failed = g09Failed || r0 != nil }
func C09__after__xml_Encoder_Flush__err(r0 error)       { g09Failed = g09Failed || r0 != nil }

func C09__before__xml_Encoder_SetDisableAutoClose__rec(p0 *xml.Encoder, p1 []string) {
	c09same(p0)
	g09Leaves = g09Stage == d09Start && same(p1, ofxLeafElements)
	g09Other = !g09Leaves
}

// An invalid message comes with an error (C29).
func C09__after__Message_Valid__err(r0 bool, r1 error) { vAssume(r0 == (r1 == nil)) }

func C09__requires__Request_Marshal__noNil(p0 *Request) bool   { return msgRequestNoNil(p0) }
func C09__requires__Response_Marshal__noNil(p0 *Response) bool { return msgResponseNoNil(p0) }

func c09result(b *bytes.Buffer, err error) bool {
	if err != nil {
		return b == nil
	}
	w, ok := vWriter(g09Enc).(*bytes.Buffer)
	return g09Stage == d09Flushed && !g09Failed && b != nil && ok && samePtr(w, b) && !g09Other
}

func C09__ensures__Request_Marshal__complete(o0 Request, r0 *bytes.Buffer, r1 error) bool {
	return c09result(r0, r1) && (r1 != nil || g09Leaves == (o0.Version < OfxVersion200))
}

func C09__ensures__Response_Marshal__complete(r0 *bytes.Buffer, r1 error) bool {
	return c09result(r0, r1) && (r1 != nil || !g09Leaves)
}
