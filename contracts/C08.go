//go:build go1.21

package ofxgo

//govc:trusted the XML library: Decode and DecodeElement fill the value they are given from the next element, and from the element named

import (
	"bytes"

	"github.com/aclindsa/xml"
)

const (
	d08Head          = iota // before the OFX element
	d08OFX                  // in the OFX element, before the sign-on message set
	d08Signon               // in the sign-on message set
	d08SignonPending        // the sign-on response has been opened and is to be decoded
	d08SignonDecoded        // it has been decoded
	d08Open                 // between two message sets
	d08Set                  // in a message set
	d08Pending              // a wrapper has been opened and is to be decoded
	d08Done                 // the OFX element has been closed
)

var (
	g08Stage      int
	g08SetStage   int // which message set
	g08SetName    string
	g08Start      xml.StartElement
	g08Signon     SignonResponse
	g08Failed     bool
	g08Bad        bool
	g08Other      bool
	g08Last       Message // decoded last
	g08Copy       Message // as it was then
	g08Signup     []Message
	g08Bank       []Message
	g08CreditCard []Message
	g08Loan       []Message
	g08InvStmt    []Message
	g08InterXfer  []Message
	g08WireXfer   []Message
	g08Billpay    []Message
	g08Email      []Message
	g08SecList    []Message
	g08PresDir    []Message
	g08PresDlv    []Message
	g08Prof       []Message
	g08Image      []Message
)

// c08set is the index of a response message set, or -1.
func c08set(name string) int {
	switch name {
	case "SIGNUPMSGSRSV1":
		return 0
	case "BANKMSGSRSV1":
		return 1
	case "CREDITCARDMSGSRSV1":
		return 2
	case "LOANMSGSRSV1":
		return 3
	case "INVSTMTMSGSRSV1":
		return 4
	case "INTERXFERMSGSRSV1":
		return 5
	case "WIREXFERMSGSRSV1":
		return 6
	case "BILLPAYMSGSRSV1":
		return 7
	case "EMAILMSGSRSV1":
		return 8
	case "SECLISTMSGSRSV1":
		return 9
	case "PRESDIRMSGSRSV1":
		return 10
	case "PRESDLVMSGSRSV1":
		return 11
	case "PROFMSGSRSV1":
		return 12
	case "IMAGEMSGSRSV1":
		return 13
	}
	return -1
}

// c08known: the wrapper is one of the given message set.
func c08known(set int, tag string) bool {
	switch tag {
	case "ACCTINFOTRNRS":
		return set == 0
	case "STMTTRNRS":
		return set == 1
	case "CCSTMTTRNRS":
		return set == 2
	case "INVSTMTTRNRS":
		return set == 4
	case "SECLISTTRNRS":
		return set == 9
	case "SECLIST":
		return set == 9
	case "PROFTRNRS":
		return set == 12
	}
	return false
}

// nextNonWhitespaceToken returns the next token which is not white space.

var (
	g08Helper  bool      // it is being verified itself
	g08Token   xml.Token // read last
	g08Full    bool      // it is not white space
	g08Dropped bool      // a token which is not white space has been dropped
)

func c08blank(t xml.Token) bool {
	x, ok := t.(xml.CharData)
	return ok && vPure(func() bool { return len(bytes.TrimSpace(x)) == 0 })
}

func C08__setup__nextNonWhitespaceToken__self() { g08Helper = true }

func C08__contract__nextNonWhitespaceToken__next(r0 xml.Token, r1 error) bool {
	if g08Helper {
		if r1 != nil {
			return g08Failed && !g08Dropped
		}
		return g08Full && same(r0, g08Token) && !g08Failed && !g08Dropped
	}
	return r1 != nil || c08token(r0)
}

func C08__contract__nextNonWhitespaceToken__blank(r0 xml.Token, r1 error) bool {
	return r1 != nil || !c08blank(r0)
}

// c08token: a token is of one of the six kinds.
func c08token(t xml.Token) bool {
	switch t.(type) {
	case xml.StartElement, xml.EndElement, xml.CharData, xml.Comment, xml.ProcInst, xml.Directive:
		return true
	}
	return false
}

func C08__before__nextNonWhitespaceToken__auto() { c08kept() }

func C08__after__nextNonWhitespaceToken__auto(r0 xml.Token, r1 error) { c08step(r0, r1) }

func C08__before__xml_Decoder_Token__auto() { c08kept() }

func C08__after__xml_Decoder_Token__auto(r0 xml.Token, r1 error) {
	if !g08Helper {
		c08step(r0, r1)
		return
	}
	if r1 != nil {
		g08Failed = true
		return
	}
	if g08Full {
		g08Dropped = true
	}
	if c08blank(r0) {
		g08Full = false
	} else {
		g08Full = true
	}
	g08Token = r0
}

// c08kept: what has been decoded is left as it is.
func c08kept() {
	if g08Last != nil {
		vAssert(same(g08Last, g08Copy), "what has been decoded is kept unchanged")
	}
	g08Last, g08Copy = nil, nil
}

func c08step(r0 xml.Token, r1 error) {
	if r1 != nil {
		g08Failed = true
		return
	}
	if g08Stage == d08Pending || g08Stage == d08SignonPending {
		vGiveUp("an element is decoded token by token")
		return
	}
	switch x := r0.(type) {
	case xml.StartElement:
		switch g08Stage {
		case d08Head:
			if vPure(func() bool { return x.Name.Local == "OFX" }) {
				g08Stage = d08OFX
			} else {
				g08Bad = true
			}
		case d08OFX:
			if vPure(func() bool { return x.Name.Local == "SIGNONMSGSRSV1" }) {
				g08Stage = d08Signon
			} else {
				g08Bad = true
			}
		case d08Signon:
			g08Stage, g08Start = d08SignonPending, x
		case d08Open:
			g08SetName = x.Name.Local
			g08SetStage = c08set(x.Name.Local)
			if g08SetStage >= 0 {
				g08Stage = d08Set
			} else {
				g08Bad = true
			}
		case d08Set:
			vFreshFrom()
			g08Stage, g08Start = d08Pending, x
			if vPure(func() bool { return !c08known(g08SetStage, x.Name.Local) }) {
				g08Bad = true
			}
		default:
			g08Bad = true
		}
	case xml.EndElement:
		switch g08Stage {
		case d08SignonDecoded:
			if vPure(func() bool { return x.Name.Local == "SIGNONMSGSRSV1" }) {
				g08Stage = d08Open
			} else {
				g08Bad = true
			}
		case d08Set:
			if vPure(func() bool { return x.Name.Local == g08SetName }) {
				g08Stage, g08SetName = d08Open, ""
				g08SetStage = 0
			} else {
				g08Bad = true
			}
		case d08Open:
			if vPure(func() bool { return x.Name.Local == "OFX" }) {
				g08Stage = d08Done
			} else {
				g08Bad = true
			}
		default:
			g08Bad = true
		}
	case xml.CharData:
		if vPure(func() bool { return len(bytes.TrimSpace(x)) != 0 }) {
			g08Bad = true
		}
	default:
		if g08Stage != d08Head {
			g08Other = true
		}
	}
}

func C08__before__xml_Decoder_RawToken__rec() { vGiveUp("reading raw tokens") }
func C08__before__xml_Decoder_Skip__rec()     { g08Bad = true }

func C08__before__xml_Decoder_Decode__auto(p1 interface{}) {
	c08kept()
	x, ok := p1.(*SignonResponse)
	if !ok {
		vGiveUp("decoding something else than the sign-on response")
		return
	}
	vAssert(g08Stage == d08Signon && same(*x, SignonResponse{}), "the sign-on response is decoded first, into an empty value")
}

func c08signon(x *SignonResponse, err error) {
	if err != nil {
		g08Failed = true
		return
	}
	g08Signon = *x
	g08Stage, g08Start = d08SignonDecoded, xml.StartElement{}
}

func C08__after__xml_Decoder_Decode__auto(p1 interface{}, r0 error) {
	if x, ok := p1.(*SignonResponse); ok {
		c08signon(x, r0)
	}
}

func C08__before__xml_Decoder_DecodeElement__auto(p1 interface{}, p2 *xml.StartElement) {
	c08kept()
	if p2 == nil {
		vGiveUp("decoding the next element")
		return
	}
	vAssert(same(*p2, g08Start), "the element last opened is decoded")
	switch x := p1.(type) {
	case *SignonResponse:
		vAssert(g08Stage == d08SignonPending && same(*x, SignonResponse{}), "the sign-on response is decoded first, into an empty value")
	case *AcctInfoResponse:
		c08decode(0, "ACCTINFOTRNRS", same(*x, AcctInfoResponse{}) && vFresh(x))
	case *StatementResponse:
		c08decode(1, "STMTTRNRS", same(*x, StatementResponse{}) && vFresh(x))
	case *CCStatementResponse:
		c08decode(2, "CCSTMTTRNRS", same(*x, CCStatementResponse{}) && vFresh(x))
	case *InvStatementResponse:
		c08decode(4, "INVSTMTTRNRS", same(*x, InvStatementResponse{}) && vFresh(x))
	case *SecListResponse:
		c08decode(9, "SECLISTTRNRS", same(*x, SecListResponse{}) && vFresh(x))
	case *SecurityList:
		c08decode(9, "SECLIST", same(*x, SecurityList{}) && vFresh(x))
	case *ProfileResponse:
		c08decode(12, "PROFTRNRS", same(*x, ProfileResponse{}) && vFresh(x))
	default:
		vGiveUp("decoding something else")
	}
}

func c08decode(set int, tag string, fresh bool) {
	vAssert(g08Stage == d08Pending && g08SetStage == set && vPure(func() bool { return g08Start.Name.Local == tag }), "a transaction is decoded as what its wrapper names")
	vAssert(fresh, "a transaction is decoded into a new, empty value")
}

func C08__after__xml_Decoder_DecodeElement__auto(p1 interface{}, r0 error) {
	if x, ok := p1.(*SignonResponse); ok {
		c08signon(x, r0)
		return
	}
	if r0 != nil {
		g08Failed = true
		return
	}
	g08Stage, g08Start = d08Set, xml.StartElement{}
	switch x := p1.(type) {
	case *AcctInfoResponse:
		c := *x
		g08Last, g08Copy = x, &c
		g08Signup = append(g08Signup, x)
	case *StatementResponse:
		c := *x
		g08Last, g08Copy = x, &c
		g08Bank = append(g08Bank, x)
	case *CCStatementResponse:
		c := *x
		g08Last, g08Copy = x, &c
		g08CreditCard = append(g08CreditCard, x)
	case *InvStatementResponse:
		c := *x
		g08Last, g08Copy = x, &c
		g08InvStmt = append(g08InvStmt, x)
	case *SecListResponse:
		c := *x
		g08Last, g08Copy = x, &c
		g08SecList = append(g08SecList, x)
	case *SecurityList:
		c := *x
		g08Last, g08Copy = x, &c
		g08SecList = append(g08SecList, x)
	case *ProfileResponse:
		c := *x
		g08Last, g08Copy = x, &c
		g08Prof = append(g08Prof, x)
	}
}

func C08__ensures__DecodeResponse__signon(r0 *Response, r1 error) bool {
	c08kept()
	return r1 != nil || same(r0.Signon, g08Signon)
}

func C08__ensures__DecodeResponse__end(r0 *Response, r1 error) bool {
	if r1 != nil {
		return r0 == nil && (g08Stage == d08Head || g08Failed || g08Bad || g08Other)
	}
	return r0 != nil && g08Stage == d08Done && !g08Failed && !g08Bad
}

func C08__ensures__DecodeResponse__Signup(r0 *Response, r1 error) bool {
	return r1 != nil || same(r0.Signup, g08Signup)
}

func C08__ensures__DecodeResponse__Bank(r0 *Response, r1 error) bool {
	return r1 != nil || same(r0.Bank, g08Bank)
}

func C08__ensures__DecodeResponse__CreditCard(r0 *Response, r1 error) bool {
	return r1 != nil || same(r0.CreditCard, g08CreditCard)
}

func C08__ensures__DecodeResponse__Loan(r0 *Response, r1 error) bool {
	return r1 != nil || same(r0.Loan, g08Loan)
}

func C08__ensures__DecodeResponse__InvStmt(r0 *Response, r1 error) bool {
	return r1 != nil || same(r0.InvStmt, g08InvStmt)
}

func C08__ensures__DecodeResponse__InterXfer(r0 *Response, r1 error) bool {
	return r1 != nil || same(r0.InterXfer, g08InterXfer)
}

func C08__ensures__DecodeResponse__WireXfer(r0 *Response, r1 error) bool {
	return r1 != nil || same(r0.WireXfer, g08WireXfer)
}

func C08__ensures__DecodeResponse__Billpay(r0 *Response, r1 error) bool {
	return r1 != nil || same(r0.Billpay, g08Billpay)
}

func C08__ensures__DecodeResponse__Email(r0 *Response, r1 error) bool {
	return r1 != nil || same(r0.Email, g08Email)
}

func C08__ensures__DecodeResponse__SecList(r0 *Response, r1 error) bool {
	return r1 != nil || same(r0.SecList, g08SecList)
}

func C08__ensures__DecodeResponse__PresDir(r0 *Response, r1 error) bool {
	return r1 != nil || same(r0.PresDir, g08PresDir)
}

func C08__ensures__DecodeResponse__PresDlv(r0 *Response, r1 error) bool {
	return r1 != nil || same(r0.PresDlv, g08PresDlv)
}

func C08__ensures__DecodeResponse__Prof(r0 *Response, r1 error) bool {
	return r1 != nil || same(r0.Prof, g08Prof)
}

func C08__ensures__DecodeResponse__Image(r0 *Response, r1 error) bool {
	return r1 != nil || same(r0.Image, g08Image)
}

// The headers: C07.

func C08__assume__Response_readSGMLHeaders__version(p0 *Response, r0 error) bool { return true }
func C08__modifies__Response_readSGMLHeaders__version(p0 *Response) []interface{} {
	return []interface{}{&p0.Version}
}
func C08__assume__guessVersion__any(r0 bool, r1 error) bool { return true }

func C08__assume__Response_readXMLHeaders__version(p0 *Response, r0 error) bool { return true }
func C08__modifies__Response_readXMLHeaders__version(p0 *Response) []interface{} {
	return []interface{}{&p0.Version}
}
