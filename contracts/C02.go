//go:build go1.21

package ofxgo

//govc:use XML

import (
	"strconv"
	"strings"

	"github.com/aclindsa/xml"
)

func C02__ensures__Int_UnmarshalXML__decimal(p0 *Int, o0 Int, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	v, err := strconv.ParseInt(strings.TrimSpace(gText), 10, 64)
	if gErr != nil || err != nil {
		return r0 != nil && *p0 == o0
	}
	return r0 == nil && int64(*p0) == v
}

func C02__ensures__Boolean_UnmarshalXML__yesOrNo(p0 *Boolean, o0 Boolean, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	t := strings.TrimSpace(gText)
	switch {
	case gErr != nil || t != "Y" && t != "N":
		return r0 != nil && *p0 == o0
	case t == "Y":
		return r0 == nil && bool(*p0)
	}
	return r0 == nil && !bool(*p0)
}

func C02__ensures__String_UnmarshalXML__trimmed(p0 *String, o0 String, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil && *p0 == o0
	}
	return r0 == nil && string(*p0) == strings.TrimSpace(gText)
}

func C02__ensures__UID_UnmarshalXML__trimmed(p0 *UID, o0 UID, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil && *p0 == o0
	}
	return r0 == nil && string(*p0) == strings.TrimSpace(gText)
}

func C02__ensures__Boolean_MarshalXML__yesOrNo(p0 Boolean, p2 xml.StartElement, r0 error) bool {
	w := "N"
	if p0 {
		w = "Y"
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2) && same(r0, gEncErr)
}

func C02__ensures__String_String__text(p0 *String, r0 string) bool { return r0 == string(*p0) }

func C02__ensures__Boolean_String__word(p0 *Boolean, r0 string) bool {
	return r0 == strconv.FormatBool(bool(*p0))
}

func C02__ensures__Int_Equal__values(p0, p1 Int, r0 bool) bool         { return r0 == (p0 == p1) }
func C02__ensures__Boolean_Equal__values(p0, p1 Boolean, r0 bool) bool { return r0 == (p0 == p1) }
func C02__ensures__String_Equal__values(p0, p1 String, r0 bool) bool   { return r0 == (p0 == p1) }
func C02__ensures__UID_Equal__values(p0, p1 UID, r0 bool) bool         { return r0 == (p0 == p1) }
