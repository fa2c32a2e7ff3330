//go:build go1.21

package ofxgo

//govc:use XML
//govc:paths Date_UnmarshalXML

import (
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/aclindsa/xml"
)

// c04Read is what a text denotes: the local time of the form it has, and the
// offset of its zone in seconds. It is no date if ok is false. Where sure is
// false it may be taken for no date as well: the hours of its offset are more
// than any zone has.
func c04Read(text string) (t time.Time, ok, sure bool) {
	s := strings.TrimSpace(strings.SplitN(text, "]", 2)[0])
	offset := 0
	sure = true
	if split := strings.SplitN(s, "[", 2); len(split) == 2 {
		s = split[0]
		m := regexp.MustCompile(`^([+-]?[0-9]+)(\.([0-9]{2}))?(:([A-Z]+))?$`).FindStringSubmatch(strings.TrimRight(split[1], "]"))
		if m == nil {
			return t, false, true
		}
		hours, err := strconv.Atoi(m[1])
		if err != nil || hours > 24 || hours < -24 {
			return t, false, true
		}
		sure = hours <= 14 && hours >= -14
		minutes := 0
		if m[3] != "" {
			if minutes, err = strconv.Atoi(m[3]); err != nil {
				return t, false, true
			}
			minutes = minutes * 60 / 100
		}
		if strings.HasPrefix(m[1], "-") {
			offset = hours*3600 - minutes*60
		} else {
			offset = hours*3600 + minutes*60
		}
	}
	local, ok := c04Local(s)
	return local.Add(-time.Duration(offset) * time.Second), ok, sure
}

func c04Local(s string) (time.Time, bool) {
	if t, err := time.Parse("20060102", s); err == nil {
		return t, true
	}
	if t, err := time.Parse("2006010215", s); err == nil {
		return t, true
	}
	if t, err := time.Parse("200601021504", s); err == nil {
		return t, true
	}
	if t, err := time.Parse("20060102150405", s); err == nil {
		return t, true
	}
	t, err := time.Parse("20060102150405.000", s)
	return t, err == nil
}

func C04__ensures__Date_UnmarshalXML__instant(p0 *Date, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	want, ok, sure := c04Read(gText)
	if !ok {
		return r0 != nil
	}
	if r0 != nil {
		return !sure
	}
	return p0.Time.Equal(want)
}

func C04__ensures__Date_MarshalXML__text(p0 Date, p2 xml.StartElement, r0 error) bool {
	return gWrites == 1 && gWrote == p0.String() && same(gStart, p2) && same(r0, gEncErr)
}

func C04__ensures__Date_Equal__instants(p0, p1 Date, r0 bool) bool {
	return r0 == p0.Time.Equal(p1.Time)
}

func C04__ensures__NewDate__date(p0 int, p1 time.Month, p2, p3, p4, p5, p6 int, p7 *time.Location, r0 *Date) bool {
	return r0 != nil && r0.Time.Equal(time.Date(p0, p1, p2, p3, p4, p5, p6, p7))
}

func C04__ensures__NewDateGMT__date(p0 int, p1 time.Month, p2, p3, p4, p5, p6 int, r0 *Date) bool {
	return r0 != nil && r0.Time.Equal(time.Date(p0, p1, p2, p3, p4, p5, p6, time.FixedZone("", 0)))
}

// What is written of any instant in any zone a whole number of quarter hours
// from GMT is read back as that instant, to the millisecond.

var g04Forced bool
var g04Text string

func C04__after__xml_Decoder_DecodeElement__forced(p1 interface{}, r0 error) {
	if s, ok := p1.(*string); ok && g04Forced {
		vAssume(r0 == nil)
		*s = g04Text
	}
}

func c04RoundTrip(instant time.Time, d *xml.Decoder, start xml.StartElement) {
	for _, name := range []string{vMatching("^[A-Z]+$"), "", vNotMatching("^[A-Z]*$")} {
		for k := -24 * 4; k <= 24*4; k++ {
			c04Written(Date{instant.In(time.FixedZone(name, k*900))}, d, start)
		}
	}
}

func c04Written(od Date, d *xml.Decoder, start xml.StartElement) {
	text := od.String()
	g04Forced, g04Text = true, text
	var back Date
	err := back.UnmarshalXML(d, start)
	vAssert(err == nil, "what was written is read back")
	late := od.Time.Before(back.Time)
	early := !od.Time.Before(back.Time.Add(time.Millisecond))
	vAssert(!late && !early, "as the same instant")
}

func C04__ensures__c04RoundTrip__done() bool { return true }
