//go:build go1.21

package ofxgo

//govc:use XML

import (
	"math/big"
	"regexp"
	"strings"

	"github.com/aclindsa/xml"
)

func C03__ensures__Amount_UnmarshalXML__exact(p0 *Amount, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	var want big.Rat
	_, ok := want.SetString(strings.Replace(strings.TrimSpace(gText), ",", ".", 1))
	if !ok {
		return r0 != nil
	}
	return r0 == nil && p0.Cmp(&want) == 0
}

// The number which is written is the one which is printed with a hundred
// decimal places, and that is the amount itself if it has no more of them.
func c03Denotes(text string, a *Amount) bool {
	if !regexp.MustCompile(`^-?[0-9]+(\.[0-9]*[1-9])?$`).MatchString(text) {
		return false
	}
	var rounded, v big.Rat
	_, ok := rounded.SetString(a.FloatString(100))
	if !ok || rounded.Cmp(&a.Rat) != 0 {
		return true
	}
	_, ok = v.SetString(text)
	return ok && v.Cmp(&a.Rat) == 0
}

func C03__ensures__Amount_String__denotes(p0 Amount, r0 string) bool { return c03Denotes(r0, &p0) }

func C03__ensures__Amount_MarshalXML__denotes(p0 Amount, p2 xml.StartElement, r0 error) bool {
	return gWrites == 1 && same(gStart, p2) && same(r0, gEncErr) && c03Denotes(gWrote, &p0)
}

func C03__ensures__Amount_Equal__values(p0, p1 Amount, r0 bool) bool {
	return r0 == (p0.Cmp(&p1.Rat) == 0)
}
