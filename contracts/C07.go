//go:build go1.21

package ofxgo

// Which headers are accepted, and what they say.

//govc:use MSG
//govc:recursive c07attributes c07version
//govc:trusted bufio.Reader: Peek, ReadSlice and UnreadByte; the XML library hands out the processing instructions of a document as they are

import (
	"bufio"
	"io"
	"regexp"
	"strings"

	"github.com/aclindsa/xml"
)

// vContent is what is left to read, vBufferSize the size of a buffer.
func vContent(r io.Reader) string     { return "" }
func vBufferSize(r *bufio.Reader) int { return 0 }

// c07named is the version a text names, or 0.
func c07named(text string) ofxVersion {
	switch text {
	case "102":
		return OfxVersion102
	case "103":
		return OfxVersion103
	case "151":
		return OfxVersion151
	case "160":
		return OfxVersion160
	case "200":
		return OfxVersion200
	case "201":
		return OfxVersion201
	case "202":
		return OfxVersion202
	case "203":
		return OfxVersion203
	case "210":
		return OfxVersion210
	case "211":
		return OfxVersion211
	case "220":
		return OfxVersion220
	}
	return 0
}

func c07sgml(v ofxVersion) bool {
	return v == OfxVersion102 || v == OfxVersion103 || v == OfxVersion151 || v == OfxVersion160
}

func c07isXML(v ofxVersion) bool {
	switch v {
	case OfxVersion200, OfxVersion201, OfxVersion202, OfxVersion203, OfxVersion210, OfxVersion211, OfxVersion220:
		return true
	}
	return false
}

// ---- SGML or XML

var g07Doc string

func C07__setup__guessVersion__doc(p0 *bufio.Reader) { g07Doc = vContent(p0) }

func C07__requires__guessVersion__buffer(p0 *bufio.Reader) bool { return vBufferSize(p0) >= 1024 }

// c07xml: a document is XML unless "OFXHEADER:" occurs in its first 1024 bytes
// ahead of any "OFXHEADER=".
func c07xml(doc string) bool {
	head := doc
	if len(doc) > 1024 {
		head = doc[:1024]
	}
	i, j := strings.Index(head, "OFXHEADER:"), strings.Index(head, "OFXHEADER=")
	return i < 0 || j >= 0 && j < i
}

func C07__contract__guessVersion__which(r0 bool, r1 error) bool {
	return r1 != nil || r0 == c07xml(g07Doc)
}

func C07__contract__guessVersion__peeks(p0 *bufio.Reader) bool {
	return vContent(p0) == g07Doc
}

// ---- SGML headers

var g07Text string

const c07form = `^OFXHEADER:\s*(?P<OFXHEADER>\d+)\s*` +
	`DATA:\s*(?P<DATA>[A-Z]+)\s*` +
	`VERSION:\s*(?P<VERSION>\d+)\s*` +
	`SECURITY:\s*(?P<SECURITY>[\w]+)\s*` +
	`ENCODING:\s*(?P<ENCODING>[A-Z0-9-]+)\s*` +
	`CHARSET:\s*(?P<CHARSET>[\w-]+)\s*` +
	`COMPRESSION:\s*(?P<COMPRESSION>[A-Z]+)\s*` +
	`OLDFILEUID:\s*(?P<OLDFILEUID>[\w-]+)\s*` +
	`NEWFILEUID:\s*(?P<NEWFILEUID>[\w-]+)\s*<$`

// c07headers is the version the headers at the beginning of a document name,
// or 0 if there is something wrong with them.
func c07headers(doc string) ofxVersion {
	i := strings.Index(doc, "<")
	if i < 0 {
		return 0
	}
	m := regexp.MustCompile(c07form).FindStringSubmatch(doc[:i+1])
	if m == nil || m[1] != "100" || m[2] != "OFXSGML" || m[4] != "NONE" && m[4] != "TYPE1" || m[7] != "NONE" {
		return 0
	}
	v := c07named(m[3])
	if !c07sgml(v) {
		return 0
	}
	return v
}

func C07__setup__Response_readSGMLHeaders__doc(p1 *bufio.Reader) { g07Text = vContent(p1) }

func C07__modifies__Response_readSGMLHeaders__version(p0 *Response, p1 *bufio.Reader) []interface{} {
	return []interface{}{&p0.Version, p1}
}

func C07__contract__Response_readSGMLHeaders__accepted(p0 *Response, r0 error) bool {
	return r0 != nil || c07headers(g07Text) != 0 && p0.Version == c07headers(g07Text)
}

// ---- XML headers

var (
	g07Tokens int
	g07First  bool // the first token is an xml declaration
	g07Inst   bool // the second is an OFX instruction
	g07OK     bool // whose attributes are as they should be
	g07Named  ofxVersion
)

// c07attributes: the attributes left to read are as they should be, given
// whether there have been an OFXHEADER and a VERSION.
func c07attributes(rest string, header, version bool) bool {
	if rest == "" {
		return header && version
	}
	p := strings.SplitN(rest, "=\"", 2)
	if len(p) != 2 {
		return false
	}
	q := strings.SplitN(p[1], "\"", 2)
	if len(q) != 2 {
		return false
	}
	switch p[0] {
	case "OFXHEADER":
		return q[0] == "200" && c07attributes(strings.TrimSpace(q[1]), true, version)
	case "VERSION":
		return c07isXML(c07named(strings.TrimSpace(q[0]))) && c07attributes(strings.TrimSpace(q[1]), header, true)
	case "SECURITY":
		return q[0] == "NONE" && c07attributes(strings.TrimSpace(q[1]), header, version)
	case "OLDFILEUID", "NEWFILEUID":
		return c07attributes(strings.TrimSpace(q[1]), header, version)
	}
	return false
}

// c07version is the version named last, if any is.
func c07version(rest string, v ofxVersion) ofxVersion {
	p := strings.SplitN(rest, "=\"", 2)
	if len(p) != 2 {
		return v
	}
	q := strings.SplitN(p[1], "\"", 2)
	if len(q) != 2 {
		return v
	}
	if p[0] == "VERSION" {
		return c07version(strings.TrimSpace(q[1]), c07named(strings.TrimSpace(q[0])))
	}
	return c07version(strings.TrimSpace(q[1]), v)
}

func C07__contract__nextNonWhitespaceToken__any(r0 xml.Token, r1 error) bool { return true }

func C07__setup__Response_readXMLHeaders__version(p0 *Response) { g07Named = p0.Version }

func C07__after__nextNonWhitespaceToken__header__Response_readXMLHeaders(r0 xml.Token, r1 error) {
	c07token(r0, r1)
}
func C07__after__xml_Decoder_Token__header__Response_readXMLHeaders(r0 xml.Token, r1 error) {
	vGiveUp("reading tokens one by one")
}

func c07token(r0 xml.Token, r1 error) {
	if r1 != nil {
		g07Tokens = 100
		return
	}
	x, ok := r0.(xml.ProcInst)
	switch g07Tokens {
	case 0:
		g07First = ok && x.Target == "xml"
		g07Tokens = 1
	case 1:
		g07Inst = ok && x.Target == "OFX"
		g07Tokens = 2
		if ok {
			s := strings.TrimSpace(string(x.Inst))
			g07OK = c07attributes(s, false, false)
			g07Named = c07version(s, g07Named)
		}
	default:
		g07Tokens = 100
	}
}

func C07__inv__Response_readXMLHeaders__attributes(l0 []byte, l1, l2 bool) bool {
	return c07attributes(string(l0), l1, l2) == g07OK
}
func C07__inv__Response_readXMLHeaders__version(p0 *Response, l0 []byte) bool {
	return c07version(string(l0), p0.Version) == g07Named
}

func C07__modifies__Response_readXMLHeaders__version(p0 *Response) []interface{} {
	return []interface{}{&p0.Version}
}

// For its caller, it returns: what it accepts is remembered there.
func C07__contract__Response_readXMLHeaders__any() bool { return true }

func C07__ensures__Response_readXMLHeaders__accepted(p0 *Response, r0 error) bool {
	return r0 != nil || g07Tokens == 2 && g07First && g07Inst && g07OK && p0.Version == g07Named
}

// ---- Documents

var (
	g07All     string // the document
	g07Which   bool   // it has been looked at whether it is SGML or XML
	g07SGML    bool   // SGML headers have been read
	g07XML     bool   // XML headers have been read
	g07Version ofxVersion
	g07Reader  io.Reader // what the decoder reads
	g07Begun   bool      // something has been decoded
)

func C07__setup__DecodeResponse__doc(p0 io.Reader) { g07All = vContent(p0) }

func C07__before__guessVersion__doc__DecodeResponse(p0 *bufio.Reader) {
	g07Doc = vContent(p0)
	vAssert(!g07SGML && !g07Begun && vPure(func() bool { return g07Doc == g07All }), "it is the document which is looked at")
}

func C07__after__guessVersion__doc__DecodeResponse() { g07Which = true }

func C07__before__Response_readSGMLHeaders__doc__DecodeResponse(p1 *bufio.Reader) {
	g07Text = vContent(p1)
	vAssert(!g07SGML && !g07Begun && vPure(func() bool { return g07Text == g07All }), "the headers are those at the beginning of the document")
}

func C07__after__Response_readSGMLHeaders__doc__DecodeResponse(p0 *Response, r0 error) {
	if r0 == nil {
		g07SGML, g07Version = true, p0.Version
	}
}

func C07__before__xml_NewDecoder__doc__DecodeResponse(p0 io.Reader) { g07Reader = p0 }

func C07__before__Response_readXMLHeaders__doc__DecodeResponse() {
	vAssert(!g07SGML && !g07XML && !g07Begun && vPure(func() bool { return vContent(g07Reader) == g07All }), "the headers are those at the beginning of the document")
}

func C07__after__Response_readXMLHeaders__doc__DecodeResponse(p0 *Response, r0 error) {
	if r0 == nil {
		g07XML, g07Version = true, p0.Version
	}
}

func C07__before__nextNonWhitespaceToken__begun__DecodeResponse()    { g07Begun = true }
func C07__before__xml_Decoder_Decode__begun__DecodeResponse()        { g07Begun = true }
func C07__before__xml_Decoder_DecodeElement__begun__DecodeResponse() { g07Begun = true }
func C07__before__xml_Decoder_RawToken__begun__DecodeResponse()      { g07Begun = true }
func C07__before__xml_Decoder_Skip__begun__DecodeResponse()          { g07Begun = true }

func C07__contract__decodeMessageSet__any() bool { return true }
func C07__modifies__decodeMessageSet__messages(p2 *[]Message) []interface{} {
	return []interface{}{p2}
}

func C07__ensures__DecodeResponse__headers(r0 *Response, r1 error) bool {
	return r1 != nil || g07Which && g07XML == c07xml(g07All) && g07SGML == !g07XML && r0.Version == g07Version
}
