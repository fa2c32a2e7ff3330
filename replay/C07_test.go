//go:build go1.21

package ofxgo_test

//replay:use common_test.go

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
)

func oneOf(rnd *rand.Rand, usual int, good []string, bad ...string) (string, bool) {
	if len(bad) == 0 || rnd.Intn(usual) != 0 {
		return good[rnd.Intn(len(good))], true
	}
	return bad[rnd.Intn(len(bad))], false
}

const c07body = "<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20060115112303</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1></OFX>"

func TestReplayC07(t *testing.T) {
	rnd := newRand()
	accepted, refused := 0, 0
	check := func(doc string, good bool, v string) {
		cases++
		r, err := ofxgo.DecodeResponse(strings.NewReader(doc))
		switch {
		case err == nil && !good:
			failing(t, "accepted (as version %v) though its headers are not as they should be: %q", r.Version, doc)
		case err == nil && r.Version.String() != v:
			failing(t, "the version is %v, not %v, for %q", r.Version, v, doc)
		}
		if err == nil {
			accepted++
		} else {
			refused++
		}
	}
	sgml := []string{"102", "103", "151", "160"}
	xml := []string{"200", "201", "202", "203", "210", "211", "220"}
	odd := []string{"", "0", "100", "101", "104", "150", "152", "161", "199", "204", "212", "219", "221", "230", "300", "1020", "10", "1 60", "-160", "20O", "220.", "16"}
	for i := 0; i < rounds(6000, 60000); i++ {
		usual := 6 + rnd.Intn(10)
		ok := true
		pick := func(good []string, bad ...string) string {
			s, k := oneOf(rnd, usual, good, bad...)
			ok = ok && k
			return s
		}
		if i%2 == 0 {
			v := pick(sgml, append(append([]string{}, xml...), odd...)...)
			words := []string{"NONE", "abc_1", "X-1", "1252"}
			h := [][2]string{
				{"OFXHEADER", pick([]string{"100"}, "200", "10", "1000", "", "0100", "OFX")},
				{"DATA", pick([]string{"OFXSGML"}, "OFXXML", "OFXSGM", "OFXSGMLX", "ofxsgml", "")},
				{"VERSION", v},
				{"SECURITY", pick([]string{"NONE", "TYPE1"}, "TYPE2", "none", "TYPE", "NONEX", "", "TYPE11")},
				{"ENCODING", pick([]string{"USASCII", "UNICODE", "UTF-8"}, "", "us")},
				{"CHARSET", pick([]string{"1252", "NONE", "ISO-8859-1"}, "", "1,2")},
				{"COMPRESSION", pick([]string{"NONE"}, "GZIP", "TYPE1", "", "none")},
				{"OLDFILEUID", pick(words, "", "a b")},
				{"NEWFILEUID", pick(words, "", "a.b")},
			}
			switch rnd.Intn(usual * 2) {
			case 0:
				a := rnd.Intn(9)
				b := (a + 1 + rnd.Intn(8)) % 9
				h[a], h[b] = h[b], h[a]
				ok = false
			case 1:
				a := rnd.Intn(9)
				h = append(h[:a], h[a+1:]...)
				ok = false
			case 2:
				a := rnd.Intn(9)
				h = append(h[:a+1], h[a:]...)
				ok = false
			case 3:
				a := rnd.Intn(9)
				h[a][0] = []string{"HEADER", strings.ToLower(h[a][0]), h[a][0] + "X"}[rnd.Intn(3)]
				ok = false
			}
			var b strings.Builder
			// without separators, values run into the next key
			sep := []string{"\r\n", "\n", " ", "\t\n", "\r\n\r\n"}[rnd.Intn(5)]
			gap := []string{"", "", " ", "\t"}[rnd.Intn(4)]
			if rnd.Intn(20) == 0 {
				b.WriteString([]string{"X", "<", "1"}[rnd.Intn(3)])
				ok = false
			}
			for _, x := range h {
				b.WriteString(x[0] + ":" + gap + x[1] + sep)
			}
			if rnd.Intn(20) == 0 {
				b.WriteString([]string{"EXTRA:NONE\r\n", "x:", "MORE MORE"}[rnd.Intn(3)])
				ok = false
			}
			check(b.String()+c07body, ok, v)
			continue
		}
		decl := pick([]string{`<?xml version="1.0" encoding="UTF-8" standalone="no"?>`, `<?xml version="1.0"?>`, "\r\n<?xml version=\"1.0\" encoding=\"USASCII\"?>"}, "", `<?XML version="1.0"?>`, `<!-- xml -->`, `<?ofx version="1.0"?>`, `<?xml version="1.0"?><?xml version="1.0"?>`)
		var attrs [][2]string
		n := map[string]int{}
		version := ""
		for k := 0; k < 2+rnd.Intn(5); k++ {
			var a [2]string
			switch j := rnd.Intn(12); {
			case k == 0 && j > 0, j == 1:
				a = [2]string{"OFXHEADER", pick([]string{"200"}, "100", "20", "2000", "", " 200")}
			case k == 1 && j > 0, j == 2:
				a = [2]string{"VERSION", pick(xml, append(append([]string{}, sgml...), odd...)...)}
				version = a[1]
			case j < 6:
				a = [2]string{"SECURITY", pick([]string{"NONE"}, "TYPE1", "none", "", "NONE ")}
			case j < 8:
				a = [2]string{"OLDFILEUID", []string{"NONE", "", "a=b", "x y"}[rnd.Intn(4)]}
			case j < 11:
				a = [2]string{"NEWFILEUID", []string{"NONE", "", "a=b", "x y"}[rnd.Intn(4)]}
			default:
				a = [2]string{[]string{"COMPRESSION", "ofxheader", "Version", "DATA", "", "VERSIONS", "OFXHEADER "}[rnd.Intn(7)], "NONE"}
				ok = false
			}
			attrs = append(attrs, a)
			n[a[0]]++
		}
		ok = ok && n["OFXHEADER"] > 0 && n["VERSION"] > 0
		if rnd.Intn(3) == 0 {
			rnd.Shuffle(len(attrs), func(a, b int) { attrs[a], attrs[b] = attrs[b], attrs[a] })
			for _, a := range attrs {
				if a[0] == "VERSION" {
					version = a[1]
				}
			}
		}
		var as []string
		for _, a := range attrs {
			as = append(as, a[0]+`="`+a[1]+`"`)
		}
		inst := strings.Join(as, []string{" ", "  ", "\n", ""}[rnd.Intn(4)])
		target := pick([]string{"OFX"}, "ofx", "OFXX", "OFX1", "xml")
		switch rnd.Intn(usual * 3) {
		case 0:
			inst = strings.Replace(inst, `"`, "", 1)
			ok = false
		case 1:
			inst += " VERSION"
			ok = false
		case 2:
			inst += ` NEWFILEUID="`
			ok = false
		}
		doc := decl + "\r\n<?" + target + " " + inst + "?>" + "\r\n"
		switch rnd.Intn(usual * 3) {
		case 0: // the wrong way round
			doc = "<?" + target + " " + inst + "?>" + "\r\n" + decl
			ok = false
		case 1:
			doc = decl
			ok = false
		}
		check(doc+c07body, ok, strings.TrimSpace(version))
	}
	// what decides whether it is SGML
	s := "OFXHEADER:100\r\nDATA:OFXSGML\r\nVERSION:103\r\nSECURITY:NONE\r\nENCODING:USASCII\r\nCHARSET:1252\r\nCOMPRESSION:NONE\r\nOLDFILEUID:NONE\r\nNEWFILEUID:NONE\r\n\r\n"
	x := `<?xml version="1.0"?><?OFX OFXHEADER="200" VERSION="203"`
	// an SGML document, whatever it goes on to say
	unclosed := strings.Replace(strings.Replace(c07body, "</CODE>", "", 1), "</LANGUAGE>", "", 1)
	for _, d := range []string{s + unclosed, s + strings.Replace(unclosed, "</SONRS>", "<FI><ORG>OFXHEADER=<FID>1</FI></SONRS>", 1)} {
		cases++
		if r, err := ofxgo.DecodeResponse(strings.NewReader(d)); err != nil {
			failing(t, "an SGML document is refused (%v): %q", err, d)
		} else if r.Version.String() != "103" {
			failing(t, "an SGML document of version 103 is taken for %v: %q", r.Version, d)
		}
	}
	for at := 900; at < 1060; at++ {
		for _, later := range []bool{false, true} {
			// OFXHEADER: where it is an attribute's value, or after it
			pad := at - len(x) - len(` NEWFILEUID="`)
			in, mark := x, "OFXHEADER:"
			if !later {
				// no OFXHEADER= before it at all: it is the first attribute
				in = `<?xml version="1.0"?><?OFX VERSION="203"`
				pad = at - len(in) - len(` NEWFILEUID="`)
			}
			d := in + ` NEWFILEUID="` + strings.Repeat("A", pad) + mark + `"`
			if !later {
				d += ` OFXHEADER="200"`
			}
			d += "?>" + c07body
			if strings.Index(d, mark) != at {
				t.Fatal(fmt.Sprint("wrong test: ", at))
			}
			isXML := later || at+len(mark) > 1024
			cases++
			r, err := ofxgo.DecodeResponse(strings.NewReader(d))
			if isXML && err != nil {
				failing(t, "OFXHEADER: at %d makes an XML document SGML (%v)", at, err)
			} else if isXML && r.Version.String() != "203" {
				failing(t, "the version is %v, not 203", r.Version)
			} else if !isXML && err == nil {
				failing(t, "OFXHEADER: at %d, ahead of any OFXHEADER=, does not make the document SGML", at)
			}
		}
	}
	if accepted == 0 || refused == 0 {
		t.Fatalf("accepted %d, refused %d", accepted, refused)
	}
	t.Logf("accepted %d, refused %d, cases %d", accepted, refused, cases)
}
