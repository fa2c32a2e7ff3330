//go:build go1.21

package ofxgo

//govc:use TAB MSG

import (
	"bytes"
	"strings"

	"github.com/aclindsa/xml"
)

// What was in the document when the first element was written.
var (
	g06Begun bool
	g06Head  string
	g06CR    bool
)

func c06written(e *xml.Encoder) {
	if g06Begun {
		return
	}
	g06Begun = true
	if b, ok := vWriter(e).(*bytes.Buffer); ok {
		g06Head = b.String()
	} else {
		vGiveUp("encoding to something else than a buffer")
	}
}

func C06__before__xml_Encoder_EncodeToken__begin(p0 *xml.Encoder)   { c06written(p0) }
func C06__before__xml_Encoder_Encode__begin(p0 *xml.Encoder)        { c06written(p0) }
func C06__before__xml_Encoder_EncodeElement__begin(p0 *xml.Encoder) { c06written(p0) }
func C06__before__xml_Encoder_CarriageReturn__rec(p1 bool)          { g06CR = p1 }

func c06header(v ofxVersion, cr bool) string {
	nl := "\n"
	if cr {
		nl = "\r\n"
	}
	n := c01spellingOfxVersion(v)
	if v <= OfxVersion160 {
		return "OFXHEADER:100" + nl + "DATA:OFXSGML" + nl + "VERSION:" + n + nl + "SECURITY:NONE" + nl + "ENCODING:USASCII" + nl +
			"CHARSET:1252" + nl + "COMPRESSION:NONE" + nl + "OLDFILEUID:NONE" + nl + "NEWFILEUID:NONE" + nl + nl
	}
	return `<?xml version="1.0" encoding="UTF-8" standalone="no"?>` + nl +
		`<?OFX OFXHEADER="200" VERSION="` + n + `" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>` + nl
}

func c06marshalled(v ofxVersion, cr bool, b *bytes.Buffer, err error) bool {
	if err != nil {
		return b == nil
	}
	h := c06header(v, cr)
	return c01spellingOfxVersion(v) != "" && b != nil && g06Begun && g06Head == h && g06CR == cr && strings.HasPrefix(b.String(), g06Head)
}

func C06__requires__Request_Marshal__noNil(p0 *Request) bool   { return msgRequestNoNil(p0) }
func C06__requires__Response_Marshal__noNil(p0 *Response) bool { return msgResponseNoNil(p0) }

func C06__ensures__Request_Marshal__header(o0 Request, r0 *bytes.Buffer, r1 error) bool {
	return c06marshalled(o0.Version, o0.carriageReturn, r0, r1)
}

func C06__ensures__Response_Marshal__header(o0 Response, r0 *bytes.Buffer, r1 error) bool {
	return c06marshalled(o0.Version, false, r0, r1)
}
