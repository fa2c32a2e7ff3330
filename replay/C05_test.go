package ofxgo_test

//replay:use C02_test.go

import (
	"math/big"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
	"golang.org/x/text/currency"
)

func TestReplayC05(t *testing.T) {
	rnd := newRand()
	var codes []string
	seen := map[string]bool{}
	for a := 'A'; a <= 'Z'; a++ {
		for b := 'A'; b <= 'Z'; b++ {
			for c := 'A'; c <= 'Z'; c++ {
				s := string([]rune{a, b, c})
				if _, err := currency.ParseISO(s); err == nil {
					codes = append(codes, s)
					seen[s] = true
				}
			}
		}
	}
	texts := append([]string{}, codes...)
	texts = append(texts, "", "XXX", "XXZ", "usd", "Usd", "US", "USDD", "U SD", "US D", "$", "€", "USD,", "123", "ÄÖÜ", "ZZZ", "AAA", "dollar", "USD\x00")
	for i := 0; i < rounds(2000, 17576); i++ {
		texts = append(texts, string([]byte{byte('A' + rnd.Intn(26)), byte('A' + rnd.Intn(26)), byte('A' + rnd.Intn(26))}))
	}
	usd, _ := currency.ParseISO("USD")
	ws := []string{"", " ", "\n\t", "  \r\n"}
	for k, body := range texts {
		if strings.ContainsRune(body, 0) {
			continue
		}
		u, perr := currency.ParseISO(body)
		c, err := ofxgo.NewCurrSymbol(body)
		switch {
		case perr == nil && (err != nil || c == nil || c.Unit != u):
			failing(t, "NewCurrSymbol(%q) = %v, %v", body, c, err)
		case perr != nil && (err == nil || c != nil):
			failing(t, "NewCurrSymbol(%q) = %v, %v", body, c, err)
		}
		text := ws[k%4] + body + ws[(k/4)%4]
		u, perr = currency.ParseISO(strings.TrimSpace(text))
		v := ofxgo.CurrSymbol{Unit: usd}
		err = xml.Unmarshal(c02Doc(t, text), &v)
		switch {
		case perr == nil && (err != nil || v.Unit != u):
			failing(t, "CurrSymbol from %q: %v, %v", text, v, err)
		case perr != nil && (err == nil || v.Unit != usd):
			failing(t, "CurrSymbol from %q: target %v, error %v", text, v, err)
		}
	}
	var all []ofxgo.CurrSymbol
	for _, s := range codes {
		u, _ := currency.ParseISO(s)
		all = append(all, ofxgo.CurrSymbol{Unit: u})
	}
	all = append(all, ofxgo.CurrSymbol{})
	rates := []*big.Rat{new(big.Rat), big.NewRat(1, 1), big.NewRat(-1, 1), big.NewRat(1, 3), big.NewRat(-7, 5), big.NewRat(1, 1<<62)}
	for _, sh := range []uint{31, 32, 33, 63, 64, 65, 66, 127, 128, 192, 400} {
		n := new(big.Int).Lsh(big.NewInt(1), sh)
		rates = append(rates, new(big.Rat).SetInt(n), new(big.Rat).SetInt(new(big.Int).Neg(n)), new(big.Rat).SetFrac(n, big.NewInt(3)), new(big.Rat).SetFrac(big.NewInt(1), n))
	}
	for _, a := range all {
		if ok, err := a.Valid(); ok != (a.Unit.String() != "XXX") || ok != (err == nil) {
			failing(t, "CurrSymbol %v Valid() = %v, %v", a, ok, err)
		}
		out, err := xml.Marshal(a)
		if err != nil || string(out) != "<CurrSymbol>"+a.Unit.String()+"</CurrSymbol>" {
			failing(t, "CurrSymbol %v written as %q, %v", a, out, err)
		}
		for _, b := range all {
			if a.Equal(b) != (a.Unit.String() == b.Unit.String()) {
				failing(t, "CurrSymbol %v Equal %v = %v", a, b, a.Equal(b))
			}
		}
		for _, r := range rates {
			var c ofxgo.Currency
			c.CurRate.Rat.Set(r)
			c.CurSym = a
			want := r.Sign() != 0 && a.Unit.String() != "XXX"
			if ok, err := c.Valid(); ok != want || ok != (err == nil) {
				failing(t, "Currency{%v, %v} Valid() = %v, %v", r, a, ok, err)
			}
		}
	}
}
