//go:build go1.21

package ofxgo

//govc:use XML

import (
	"strings"

	"github.com/aclindsa/xml"
	"golang.org/x/text/currency"
)

func C05__ensures__CurrSymbol_UnmarshalXML__exactlyISO(p0 *CurrSymbol, o0 CurrSymbol, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	u, err := currency.ParseISO(strings.TrimSpace(gText))
	if gErr != nil || err != nil {
		return r0 != nil && same(*p0, o0)
	}
	return r0 == nil && same(p0.Unit, u)
}

func C05__ensures__NewCurrSymbol__exactlyISO(p0 string, r0 *CurrSymbol, r1 error) bool {
	u, err := currency.ParseISO(p0)
	if err != nil {
		return r0 == nil && r1 != nil
	}
	return r0 != nil && r1 == nil && same(r0.Unit, u)
}

func C05__ensures__CurrSymbol_MarshalXML__code(p0 CurrSymbol, p2 xml.StartElement, r0 error) bool {
	return gWrites == 1 && gWrote == p0.Unit.String() && same(gStart, p2) && same(r0, gEncErr)
}

func C05__ensures__CurrSymbol_Equal__codes(p0, p1 CurrSymbol, r0 bool) bool {
	return r0 == (p0.Unit.String() == p1.Unit.String())
}

func C05__ensures__CurrSymbol_Valid__notXXX(p0 CurrSymbol, r0 bool, r1 error) bool {
	return r0 == (p0.Unit.String() != "XXX") && r0 == (r1 == nil)
}

func C05__ensures__Currency_Valid__rateAndSymbol(p0 Currency, r0 bool, r1 error) bool {
	return r0 == (p0.CurRate.Sign() != 0 && p0.CurSym.Unit.String() != "XXX") && r0 == (r1 == nil)
}
