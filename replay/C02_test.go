package ofxgo_test

import (
	"math/big"
	"regexp"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

func c02Doc(t *testing.T, text string) []byte {
	var b strings.Builder
	b.WriteString("<A>")
	if err := xml.EscapeText(&b, []byte(text)); err != nil {
		t.Fatal(err)
	}
	b.WriteString("</A>")
	return []byte(b.String())
}

func TestReplayC02(t *testing.T) {
	rnd := newRand()
	texts := []string{"", "Y", "N", "y", "n", "YES", "NO", "Yes", "No", "true", "false", "T", "F", "0", "1", "-1", "+1", "YN", "NY", "Y N", "+", "-", "--1", "+-1",
		"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616",
		"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297",
		"0x10", "1_0", "010", "08", "007", "-00", "1e3", "1.0", "1,0", "1 2", "12\n3", "1\u00a02", "Infinity", "٣", "abc", "a b", "é", "\u00a0x\u00a0", "A&B", "<x>", "--"}
	alphabet := []string{"Y", "N", "0", "1", "9", "-", "+", " ", "x", ".", "_"}
	for i := 0; i < rounds(3000, 60000); i++ {
		s := ""
		for n := rnd.Intn(6); n >= 0; n-- {
			s += alphabet[rnd.Intn(len(alphabet))]
		}
		texts = append(texts, s)
	}
	for i := 0; i < rounds(500, 10000); i++ {
		texts = append(texts, new(big.Int).SetUint64(rnd.Uint64()).String(), "-"+new(big.Int).SetUint64(rnd.Uint64()).String())
	}
	ws := []string{"", " ", "\n", "\t\n ", " \u00a0", "\r\n\t \v\f"}
	isInt := regexp.MustCompile(`^[+-]?[0-9]+$`)
	lo, hi := big.NewInt(-1<<63), new(big.Int).SetUint64(1<<63-1)
	for k, body := range texts {
		text := ws[k%len(ws)] + body + ws[(k/len(ws))%len(ws)]
		if strings.ContainsAny(text, "\v\f") {
			text = strings.Map(func(r rune) rune {
				if r == '\v' || r == '\f' {
					return '\t'
				}
				return r
			}, text)
		}
		want := strings.TrimSpace(text)
		doc := c02Doc(t, text)

		i := ofxgo.Int(-77)
		err := xml.Unmarshal(doc, &i)
		v, ok := new(big.Int).SetString(strings.TrimPrefix(want, "+"), 10)
		good := isInt.MatchString(want) && ok && v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0
		switch {
		case good && (err != nil || int64(i) != v.Int64()):
			failing(t, "Int from %q: got %d, %v", text, i, err)
		case !good && (err == nil || i != -77):
			failing(t, "Int from %q: target %d, error %v", text, i, err)
		}
		for _, prior := range []ofxgo.Boolean{true, false} {
			b := prior
			err := xml.Unmarshal(doc, &b)
			good := want == "Y" || want == "N"
			switch {
			case good && (err != nil || bool(b) != (want == "Y")):
				failing(t, "Boolean from %q: got %v, %v", text, b, err)
			case !good && (err == nil || b != prior):
				failing(t, "Boolean from %q: target %v was %v, error %v", text, b, prior, err)
			}
		}
		s, u := ofxgo.String("old"), ofxgo.UID("old")
		if err := xml.Unmarshal(doc, &s); err != nil || string(s) != want {
			failing(t, "String from %q: got %q, %v", text, s, err)
		}
		if err := xml.Unmarshal(doc, &u); err != nil || string(u) != want {
			failing(t, "UID from %q: got %q, %v", text, u, err)
		}
	}
	// failures of the decoder
	for _, doc := range []string{"", "<A>", "<A>12", "<A>Y</B>", "<A>Y<", "<A>1&bad;</A>", "<A>12<B></A>"} {
		i, b, s, u := ofxgo.Int(5), ofxgo.Boolean(true), ofxgo.String("old"), ofxgo.UID("old")
		if err := xml.Unmarshal([]byte(doc), &i); err == nil || i != 5 {
			failing(t, "Int from broken %q: target %d, error %v", doc, i, err)
		}
		if err := xml.Unmarshal([]byte(doc), &b); err == nil || !bool(b) {
			failing(t, "Boolean from broken %q: target %v, error %v", doc, b, err)
		}
		if err := xml.Unmarshal([]byte(doc), &s); err == nil || s != "old" {
			failing(t, "String from broken %q: target %q, error %v", doc, s, err)
		}
		if err := xml.Unmarshal([]byte(doc), &u); err == nil || u != "old" {
			failing(t, "UID from broken %q: target %q, error %v", doc, u, err)
		}
	}
	// writing and comparing
	for _, b := range []ofxgo.Boolean{true, false} {
		out, err := xml.Marshal(b)
		w := map[ofxgo.Boolean]string{true: "<Boolean>Y</Boolean>", false: "<Boolean>N</Boolean>"}[b]
		if err != nil || string(out) != w {
			failing(t, "Boolean %v written as %q, %v", b, out, err)
		}
		if b.String() != map[ofxgo.Boolean]string{true: "true", false: "false"}[b] {
			failing(t, "Boolean %v printed as %q", b, b.String())
		}
		for _, c := range []ofxgo.Boolean{true, false} {
			if b.Equal(c) != (b == c) {
				failing(t, "Boolean %v Equal %v", b, c)
			}
		}
	}
	ints := []ofxgo.Int{0, 1, -1, 255, 256, 257, 65535, 65536, 1 << 31, 1<<31 - 1, 1 << 32, 1<<32 + 1, 1<<62 + 1, -1 << 63, 1<<63 - 1}
	for i := 0; i < 200; i++ {
		ints = append(ints, ofxgo.Int(rnd.Uint64()))
	}
	for _, a := range ints {
		for _, b := range ints {
			if a.Equal(b) != (a == b) {
				failing(t, "Int %d Equal %d", a, b)
			}
		}
	}
	strs := []string{"", " ", "a", "A", "a ", " a", "ab", "b", "Á", "á", "a\x00", "á"}
	for _, a := range strs {
		x := ofxgo.String(a)
		if x.String() != a {
			failing(t, "String %q printed as %q", a, x.String())
		}
		for _, b := range strs {
			if ofxgo.String(a).Equal(ofxgo.String(b)) != (a == b) {
				failing(t, "String %q Equal %q", a, b)
			}
			if ofxgo.UID(a).Equal(ofxgo.UID(b)) != (a == b) {
				failing(t, "UID %q Equal %q", a, b)
			}
		}
	}
}
