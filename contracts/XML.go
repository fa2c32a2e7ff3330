//go:build go1.21

package ofxgo

// What a function asked the XML library to do with a single element, and
// what the library answered.

import "github.com/aclindsa/xml"

var (
	gDecodes int
	gErr     error
	gText    string
	gWrites  int
	gWrote   string
	gStart   xml.StartElement
	gEncErr  error
)

func XML__after__xml_Decoder_DecodeElement__rec(p1 interface{}, r0 error) {
	gDecodes++
	gErr = r0
	if s, ok := p1.(*string); ok {
		gText = *s
	} else {
		vGiveUp("decoding something else than a string")
	}
}

func XML__before__xml_Encoder_EncodeElement__rec(p1 interface{}, p2 xml.StartElement) {
	gWrites++
	gStart = p2
	if s, ok := p1.(string); ok {
		gWrote = s
	} else {
		vGiveUp("encoding something else than a string")
	}
}

func XML__after__xml_Encoder_EncodeElement__rec(r0 error) { gEncErr = r0 }

func XML__before__xml_Encoder_EncodeToken__rec() { vGiveUp("encoding a token") }
func XML__before__xml_Encoder_Encode__rec()      { vGiveUp("encoding a value") }
func XML__before__xml_Decoder_Token__rec()       { vGiveUp("decoding a token") }
func XML__before__xml_Decoder_Decode__rec()      { vGiveUp("decoding a value") }
