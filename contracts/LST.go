//go:build go1.21

package ofxgo

// Reading the elements of one list, up to its closing tag, token by token.

import (
	"bytes"

	"github.com/aclindsa/xml"
)

const (
	lstOpen    = iota // between two elements
	lstPending        // an element has been opened and is to be decoded
	lstDone           // the list has been closed
)

var (
	gLstStage  int
	gLstName   string           // of the list
	gLstStart  xml.StartElement // the element to be decoded
	gLstFailed bool             // the decoder reported a failure
	gLstBad    bool             // something which does not belong there
	gLstOther  bool             // something which may be refused
)

func LST__after__xml_Decoder_Token__auto(r0 xml.Token, r1 error) {
	if r1 != nil {
		gLstFailed = true
		return
	}
	if gLstStage == lstPending {
		vGiveUp("an element is decoded token by token")
		return
	}
	if gLstStage == lstDone {
		gLstBad = true
		return
	}
	switch x := r0.(type) {
	case xml.StartElement:
		gLstStage, gLstStart = lstPending, x
	case xml.EndElement:
		if vPure(func() bool { return x.Name.Local == gLstName }) {
			gLstStage = lstDone
		} else {
			gLstBad = true
		}
	case xml.CharData:
		if vPure(func() bool { return len(bytes.TrimSpace(x)) != 0 }) {
			gLstBad = true
		}
	default:
		gLstOther = true
	}
}

func LST__before__xml_Decoder_RawToken__rec() { vGiveUp("reading raw tokens") }
func LST__before__xml_Decoder_Decode__rec()   { vGiveUp("decoding the next element") }

// An element which is skipped is not decoded.
func LST__before__xml_Decoder_Skip__rec() { gLstBad = true }

// lstDecode notes that the element with the given tag is decoded into a fresh
// value.
func lstDecode(start *xml.StartElement, tag string, fresh bool) {
	if start == nil {
		vGiveUp("decoding the next element")
		return
	}
	vAssert(gLstStage == lstPending && same(*start, gLstStart), "the element last opened is decoded")
	vAssert(vPure(func() bool { return gLstStart.Name.Local == tag }), "an element is decoded as what its tag names")
	vAssert(fresh, "an element is decoded into an empty value")
}

// lstDecoded notes how that went, and says whether it did.
func lstDecoded(err error) bool {
	gLstStage, gLstStart = lstOpen, xml.StartElement{}
	if err != nil {
		gLstFailed = true
	}
	return err == nil
}

func lstOk() bool { return gLstStage == lstDone && !gLstBad && !gLstFailed }

// Writing a list

var (
	gOutPos    int // what has been written
	gOutFailed bool
	gOutOther  bool // the list cannot be written
)

func lstEncoded(err error) {
	if err != nil {
		gOutFailed = true
	}
}

func LST__after__xml_Encoder_EncodeToken__rec(r0 error)   { lstEncoded(r0) }
func LST__after__xml_Encoder_EncodeElement__rec(r0 error) { lstEncoded(r0) }
func LST__after__xml_Encoder_Flush__rec(r0 error)         { lstEncoded(r0) }
func LST__before__xml_Encoder_Encode__rec()               { vGiveUp("encoding without a tag") }

// lstElement is the start of an element without attributes.
func lstElement(s xml.StartElement, name string) bool {
	return s.Name.Local == name && s.Name.Space == "" && len(s.Attr) == 0
}
