package ofxgo_test

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

var c03Decimal = regexp.MustCompile(`^([+-]?)([0-9]*)[.,]?([0-9]*)$`)

// c03Value is the number a decimal text denotes, found from its digits alone.
func c03Value(text string) *big.Rat {
	m := c03Decimal.FindStringSubmatch(text)
	if m == nil || m[2]+m[3] == "" {
		return nil
	}
	n, _ := new(big.Int).SetString(m[2]+m[3], 10)
	d := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(m[3]))), nil)
	v := new(big.Rat).SetFrac(n, d)
	if m[1] == "-" {
		v.Neg(v)
	}
	return v
}

func c03Read(t *testing.T, text string) (a ofxgo.Amount, err error) {
	var b strings.Builder
	b.WriteString("<A>")
	if err := xml.EscapeText(&b, []byte(text)); err != nil {
		t.Fatal(err)
	}
	b.WriteString("</A>")
	err = xml.Unmarshal([]byte(b.String()), &a)
	return a, err
}

func c03Written(t *testing.T, v *big.Rat) {
	a := ofxgo.Amount{Rat: *v}
	cases++
	text := a.String()
	if m := regexp.MustCompile(`^-?[0-9]+(\.[0-9]*[1-9])?$`); !m.MatchString(text) {
		failing(t, "the amount %s is written as %q", v, text)
	}
	if got := c03Value(text); got == nil || got.Cmp(v) != 0 {
		failing(t, "the amount %s is written as %q", v, text)
	}
	doc, err := xml.Marshal(struct {
		XMLName xml.Name     `xml:"R"`
		A       ofxgo.Amount `xml:"A"`
	}{A: a})
	if err != nil || string(doc) != "<R><A>"+text+"</A></R>" {
		failing(t, "the amount %s is written as %q (error: %v)", v, doc, err)
	}
	back, err := c03Read(t, text)
	if err != nil || back.Cmp(v) != 0 || !back.Equal(a) || !a.Equal(back) {
		failing(t, "the amount %s is written as %q, which is read as %s (error: %v)", v, text, back, err)
	}
}

func TestReplayC03(t *testing.T) {
	rnd := newRand()
	digits := func(n int) string {
		var b strings.Builder
		for ; n > 0; n-- {
			if rnd.Intn(3) == 0 {
				b.WriteByte('0')
			} else {
				b.WriteByte(byte('0' + rnd.Intn(10)))
			}
		}
		return b.String()
	}
	ws := []string{"", " ", "\n", "\t\n ", "\r\n\t "}
	texts := []string{"0", "-0", "+0", "0.0", "-0,00", "100", "1000", "-10", "+5", "1.50", "1,50", ".5", ",5", "5.", "5,", "-.5", "-,5", "00.10", "123456789012345678901234567890.123456789012345678901234567890",
		"0.1", "0.2", "0.3", "9007199254740993", "0." + strings.Repeat("0", 99) + "1", strings.Repeat("9", 120) + "," + strings.Repeat("9", 100)}
	for i := 0; i < rounds(3000, 60000); i++ {
		sep := []string{"", ".", ","}[rnd.Intn(3)]
		s := []string{"", "-", "+"}[rnd.Intn(3)] + digits(rnd.Intn(25))
		if sep != "" {
			s += sep + digits(rnd.Intn(25))
		}
		texts = append(texts, s)
	}
	for i, s := range texts {
		want := c03Value(s)
		text := ws[i%len(ws)] + s + ws[i/len(ws)%len(ws)]
		a, err := c03Read(t, text)
		cases++
		switch {
		case want == nil && err == nil:
			failing(t, "%q, which is no number, is read as %s", text, a)
		case want != nil && (err != nil || a.Cmp(want) != 0):
			failing(t, "%q is read as %s (error: %v), not %s", text, a, err, want)
		}
	}
	for _, s := range []string{"", " ", "-", "+", ".", ",", "x", "1x", "x1", "1 2", "1.2.3", "1,2,3", "1.000,5", "1,000.5", "--1", "+-1", "1-", "$5", "5%", "1e", "NaN", "Inf", "-Inf", "1\n2", "٣"} {
		cases++
		if a, err := c03Read(t, s); err == nil {
			failing(t, "%q, which is no number, is read as %s", s, a)
		}
	}
	for i := 0; i < rounds(3000, 60000); i++ {
		n, _ := new(big.Int).SetString("0"+digits(rnd.Intn(140)), 10)
		k := int64(rnd.Intn(101))
		if rnd.Intn(2) == 0 {
			n.Mul(n, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(rnd.Intn(60))), nil))
		}
		if rnd.Intn(2) == 0 {
			n.Neg(n)
		}
		c03Written(t, new(big.Rat).SetFrac(n, new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil)))
	}
	for _, n := range []int64{0, 1, -1, 10, 100, -1000, 1200, 1 << 40, 1000000} {
		for _, d := range []int64{1, 2, 4, 5, 8, 10, 16, 20, 100, 125, 1000, 1 << 30} {
			c03Written(t, big.NewRat(n, d))
		}
	}
	for i := 0; i < rounds(500, 5000); i++ {
		x := big.NewRat(int64(rnd.Intn(40)-20), int64(rnd.Intn(8)+1))
		y := big.NewRat(int64(rnd.Intn(40)-20), int64(rnd.Intn(8)+1))
		if rnd.Intn(8) == 0 {
			e := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(40), nil))
			y = new(big.Rat).Add(x, e)
		}
		a, b := ofxgo.Amount{Rat: *x}, ofxgo.Amount{Rat: *y}
		cases++
		if want := x.Cmp(y) == 0; a.Equal(b) != want || b.Equal(a) != want {
			failing(t, "%s", fmt.Sprintf("Equal of the amounts %s and %s", x, y))
		}
	}
}
