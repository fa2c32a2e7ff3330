package ofxgo_test

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

func c04Read(t *testing.T, text string) (d ofxgo.Date, err error) {
	var b strings.Builder
	b.WriteString("<A>")
	if err := xml.EscapeText(&b, []byte(text)); err != nil {
		t.Fatal(err)
	}
	b.WriteString("</A>")
	err = xml.Unmarshal([]byte(b.String()), &d)
	return d, err
}

func TestReplayC04(t *testing.T) {
	rnd := newRand()
	ws := []string{"", " ", "\n", "\t\n ", "\r\n\t "}
	after := []string{"", "", " ", "x", "]", " 2000", "[5:EST]", "\n[x]"}
	forms := []string{"20060102", "2006010215", "200601021504", "20060102150405", "20060102150405.000"}
	zones := []string{"", "A", "EST", "GMT", "EASTERN", "X", "MEST", "UTC", "ABCDEFGH"}
	instant := func() time.Time {
		at := time.Date(rnd.Intn(9997)+1, time.Month(rnd.Intn(12)+1), rnd.Intn(28)+1, rnd.Intn(24), rnd.Intn(60), rnd.Intn(60), rnd.Intn(1000)*1e6, time.UTC)
		if rnd.Intn(3) > 0 {
			at = at.AddDate(2000-at.Year()+rnd.Intn(40)-20, 0, 0)
		}
		if rnd.Intn(10) == 0 {
			at = time.Date(2020, 2, 29, 23, 59, 59, 999e6, time.UTC)
		}
		return at
	}
	for i := 0; i < rounds(6000, 200000); i++ {
		form := forms[rnd.Intn(len(forms))]
		s := instant().Format(form)
		local, err := time.Parse(form, s)
		if err != nil {
			t.Fatal(err)
		}
		text, secs := s, 0
		if rnd.Intn(5) > 0 {
			h, m := rnd.Intn(15), 0
			neg := rnd.Intn(2) == 0
			zone := fmt.Sprint(h)
			if rnd.Intn(4) == 0 {
				zone = fmt.Sprintf("%02d", h)
			}
			if rnd.Intn(2) == 0 {
				m = rnd.Intn(100)
				if rnd.Intn(2) == 0 {
					m = m / 25 * 25
				}
				zone += fmt.Sprintf(".%02d", m)
			}
			secs = h*3600 + m*60/100*60
			if neg {
				zone, secs = "-"+zone, -secs
			} else if rnd.Intn(2) == 0 {
				zone = "+" + zone
			}
			if z := zones[rnd.Intn(len(zones))]; z != "" {
				zone += ":" + z
			}
			text = s + "[" + zone + "]" + after[rnd.Intn(len(after))]
		}
		text = ws[rnd.Intn(len(ws))] + text + ws[rnd.Intn(len(ws))]
		want := local.Add(-time.Duration(secs) * time.Second)
		d, err := c04Read(t, text)
		cases++
		if err != nil || !d.Time.Equal(want) {
			failing(t, "%q is read as %s (error: %v), not %s", text, d.Time, err, want)
		}
	}
	for _, s := range []string{"", "2", "2020", "202001", "2020010", "20200101 1", "20201301", "20200230", "20190229", "20200101240000", "20200101126000", "x", "20200101x", "2020-01-01",
		"20200101[", "20200101[]", "20200101[x]", "20200101[EST]", "20200101[5.5]", "20200101[5.555]", "20200101[5:est]", "20200101[5:]", "20200101[:EST]", "20200101[5 :EST]", "20200101[5:E1]", "20200101[99]", "20200101[+-5]", "20200101[5,25]", "20200101[-25:EST]", "2020010112[.5]", "[0:GMT]", "20200101[0x5]", "20200101[5:EST:X]", "]", "20200101[5[6]"} {
		cases++
		if d, err := c04Read(t, s); err == nil {
			failing(t, "%q, which is no date, is read as %s", s, d.Time)
		}
	}
	names := []string{"", "EST", "X", "GMT", "UTC", "EASTERN", "Etc/GMT", "+05", "-0330", "x", "E S", "É", "A1"}
	for k := -96; k <= 96; k++ {
		for _, name := range names {
			for i := 0; i < rounds(2, 20); i++ {
				at := instant().Add(time.Duration(rnd.Intn(1e6))).Add(24 * time.Hour)
				at = at.In(time.FixedZone(name, k*900))
				if y := at.Year(); y < 0 || y > 9999 {
					continue
				}
				text := ofxgo.Date{Time: at}.String()
				d, err := c04Read(t, text)
				cases++
				if err != nil || d.Time.After(at) || !d.Time.Add(time.Millisecond).After(at) {
					failing(t, "%s is written as %q, which is read as %s (error: %v)", at, text, d.Time, err)
				}
				doc, err := xml.Marshal(struct {
					XMLName xml.Name   `xml:"R"`
					D       ofxgo.Date `xml:"D"`
				}{D: ofxgo.Date{Time: at}})
				if err != nil || string(doc) != "<R><D>"+text+"</D></R>" {
					failing(t, "%s is written as %q (error: %v), not %q", at, doc, err, text)
				}
				same := ofxgo.Date{Time: at.UTC()}
				if o := (ofxgo.Date{Time: at}); !o.Equal(same) || o.Equal(ofxgo.Date{Time: at.Add(1)}) {
					failing(t, "Equal of %s and %s", at, same.Time)
				}
				back := ofxgo.NewDate(at.Year(), at.Month(), at.Day(), at.Hour(), at.Minute(), at.Second(), at.Nanosecond(), at.Location())
				if !back.Time.Equal(at) {
					failing(t, "NewDate of %s is %s", at, back.Time)
				}
				u := at.UTC()
				back = ofxgo.NewDateGMT(u.Year(), u.Month(), u.Day(), u.Hour(), u.Minute(), u.Second(), u.Nanosecond())
				if !back.Time.Equal(at) {
					failing(t, "NewDateGMT of %s is %s", u, back.Time)
				}
			}
		}
	}
}
