//go:build go1.21

package ofxgo

//govc:trusted the XML library stores the name of the element it decodes into a struct in that struct's XMLName

import (
	"bytes"
	"strings"

	"github.com/aclindsa/xml"
)

// Reading the message set list of a profile

const (
	d12Open    = iota // between two message sets
	d12Set            // in a message set
	d12Pending        // its version element has been opened and is to be decoded
	d12Decoded        // it has been decoded
	d12Done           // the list has been closed
)

var (
	g12Stage  int
	g12Name   string
	g12Start  xml.StartElement
	g12List   []MessageSet
	g12Failed bool
	g12Bad    bool
	g12Other  bool
)

func C12__setup__MessageSetList_UnmarshalXML__rec(p0 *MessageSetList, p2 xml.StartElement) {
	g12Name, g12List = p2.Name.Local, *p0
}

func C12__after__xml_Decoder_Token__auto(r0 xml.Token, r1 error) {
	if r1 != nil {
		g12Failed = true
		return
	}
	switch x := r0.(type) {
	case xml.StartElement:
		switch g12Stage {
		case d12Open:
			g12Stage = d12Set
		case d12Set:
			g12Stage, g12Start = d12Pending, x
		case d12Pending:
			vGiveUp("an element is decoded token by token")
		default:
			g12Bad = true
		}
	case xml.EndElement:
		switch g12Stage {
		case d12Open:
			if vPure(func() bool { return x.Name.Local == g12Name }) {
				g12Stage = d12Done
			} else {
				g12Bad = true
			}
		case d12Decoded:
			g12Stage = d12Open
		case d12Pending:
			vGiveUp("an element is decoded token by token")
		default:
			g12Bad = true
		}
	case xml.CharData:
		if g12Stage == d12Pending {
			vGiveUp("an element is decoded token by token")
		}
		if vPure(func() bool { return len(bytes.TrimSpace(x)) != 0 }) {
			g12Bad = true
		}
	default:
		g12Other = true
	}
}

func C12__before__xml_Decoder_RawToken__rec() { vGiveUp("reading raw tokens") }
func C12__before__xml_Decoder_Decode__rec()   { vGiveUp("decoding the next element") }
func C12__before__xml_Decoder_Skip__rec()     { g12Bad = true }

func C12__before__xml_Decoder_DecodeElement__auto(p1 interface{}, p2 *xml.StartElement) {
	x, ok := p1.(*MessageSet)
	if !ok || p2 == nil {
		vGiveUp("decoding something else")
		return
	}
	vAssert(g12Stage == d12Pending && same(*p2, g12Start), "the version element is decoded")
	vAssert(same(*x, MessageSet{}), "a message set is decoded into an empty value")
}

func C12__after__xml_Decoder_DecodeElement__auto(p1 interface{}, r0 error) {
	x, ok := p1.(*MessageSet)
	if r0 != nil {
		g12Failed = true
		return
	}
	if ok {
		vAssume(x.XMLName == g12Start.Name)
		m := *x
		m.Name = g12Start.Name.Local
		g12List = append(g12List, m)
	}
	g12Stage, g12Start = d12Decoded, xml.StartElement{}
}

func C12__ensures__MessageSetList_UnmarshalXML__all(p0 *MessageSetList, r0 error) bool {
	if r0 != nil {
		return g12Failed || g12Bad || g12Other
	}
	return g12Stage == d12Done && !g12Failed && !g12Bad && same([]MessageSet(*p0), g12List)
}

// Writing it

var (
	g12OutStage int // 0: nothing, 1: in the list, 2: in a set, 3: its version element is written, 4: all
	g12Pos      int // message sets written
	g12OutBad   bool
)

func C12__setup__MessageSetList_MarshalXML__rec(p0 *MessageSetList) { g12List = *p0 }

func C12__requires__MessageSetList_MarshalXML__given(p2 xml.StartElement) bool {
	return p2.Name.Local == "MSGSETLIST" && p2.Name.Space == "" && len(p2.Attr) == 0
}

func c12set() string { return strings.TrimSuffix(g12List[g12Pos].Name, "V1") }

func C12__before__xml_Encoder_EncodeToken__auto(p1 xml.Token) {
	switch x := p1.(type) {
	case xml.StartElement:
		vAssert(x.Name.Space == "" && len(x.Attr) == 0, "elements have no name space and no attributes")
		switch g12OutStage {
		case 0:
			vAssert(x.Name.Local == "MSGSETLIST", "the list is opened first")
			g12OutStage = 1
		case 1:
			vAssert(g12Pos < len(g12List), "no message set is written twice")
			if g12Pos < len(g12List) {
				vAssert(strings.HasSuffix(g12List[g12Pos].Name, "V1"), "only version 1 is written")
				vAssert(x.Name.Local == c12set(), "a message set is named after its version")
			}
			g12OutStage = 2
		default:
			vAssert(false, "misplaced start of an element")
		}
	case xml.EndElement:
		vAssert(x.Name.Space == "", "elements have no name space")
		switch g12OutStage {
		case 1:
			vAssert(g12Pos == len(g12List) && x.Name.Local == "MSGSETLIST", "the list is closed after all message sets")
			g12OutStage = 4
		case 3:
			vAssert(g12Pos < len(g12List) && x.Name.Local == c12set(), "the message set is closed")
			g12OutStage = 1
			g12Pos++
		default:
			vAssert(false, "misplaced end of an element")
		}
	default:
		vAssert(false, "only elements are written")
	}
}

func C12__before__xml_Encoder_EncodeElement__auto(p1 interface{}, p2 xml.StartElement) {
	vAssert(g12OutStage == 2 && g12Pos < len(g12List), "a version element belongs in its message set")
	if g12OutStage != 2 || g12Pos >= len(g12List) {
		return
	}
	vAssert(p2.Name.Local == g12List[g12Pos].Name && p2.Name.Space == "" && len(p2.Attr) == 0, "a version element has the name of the entry")
	switch x := p1.(type) {
	case *MessageSet:
		vAssert(same(*x, g12List[g12Pos]), "all message sets are written, in order")
	case MessageSet:
		vAssert(same(x, g12List[g12Pos]), "all message sets are written, in order")
	default:
		vGiveUp("writing something else")
	}
	g12OutStage = 3
}

func C12__before__xml_Encoder_Encode__rec() { vGiveUp("encoding without a tag") }

func C12__after__xml_Encoder_EncodeToken__rec(r0 error) {
	if r0 != nil {
		g12Failed = true
	}
}

func C12__after__xml_Encoder_EncodeElement__rec(r0 error) {
	if r0 != nil {
		g12Failed = true
	}
}

func C12__ensures__MessageSetList_MarshalXML__all(r0 error) bool {
	if r0 != nil {
		return g12Failed || g12OutStage == 1 && g12Pos < len(g12List) && !strings.HasSuffix(g12List[g12Pos].Name, "V1")
	}
	return !g12Failed && g12OutStage == 4
}
