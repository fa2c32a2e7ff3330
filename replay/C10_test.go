//go:build go1.21

package ofxgo_test

//replay:use list_test.go fill_test.go valid_test.go C16_test.go

import (
	"reflect"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
)

func TestReplayC10(t *testing.T) {
	rnd := newRand()
	kinds := append(append([]interface{}{}, implementations[reflect.TypeOf((*ofxgo.InvTransaction)(nil)).Elem()]...), ofxgo.InvBankTransaction{}, ofxgo.InvBankTransaction{}, ofxgo.InvBankTransaction{})
	const dates = "<DTSTART>20200102030405.000[0:GMT]</DTSTART><DTEND>20200203040506.000[0:GMT]</DTEND>"
	var from, to ofxgo.Date
	if decodeFrom("<D>20200102030405.000[0:GMT]</D>", &from) != nil || decodeFrom("<D>20200203040506.000[0:GMT]</D>", &to) != nil {
		t.Fatal("dates cannot be read")
	}
	for i := 0; i < rounds(1500, 40000); i++ {
		// reading: children in any order
		var texts []string
		var want ofxgo.InvTranList
		broken := false
		for n := rnd.Intn(8); n > 0; n-- {
			switch k := rnd.Intn(len(kinds) + 4); {
			case k >= len(kinds):
				d := []string{"20200102030405", "20210305", "20220304101112.123[-5:EST]", "x"}[rnd.Intn(4)]
				if k%2 == 0 {
					texts = append(texts, "<DTSTART>"+d+"</DTSTART>")
					broken = decodeFrom("<D>"+d+"</D>", &want.DtStart) != nil || broken
				} else {
					texts = append(texts, "<DTEND>"+d+"</DTEND>")
					broken = decodeFrom("<D>"+d+"</D>", &want.DtEnd) != nil || broken
				}
			default:
				p := reflect.New(reflect.TypeOf(kinds[k]))
				fill(rnd, p.Interface(), rnd.Intn(4))
				s, err := encodeAs(p.Interface(), entryTag(p.Elem().Interface()))
				if err != nil {
					continue
				}
				if rnd.Intn(25) == 0 {
					if x := spoil(rnd, s); x != "" {
						s = x
					}
				}
				q := reflect.New(reflect.TypeOf(kinds[k]))
				if decodeFrom(s, q.Interface()) != nil {
					broken = true
				}
				texts = append(texts, s)
				if b, ok := q.Elem().Interface().(ofxgo.InvBankTransaction); ok {
					want.BankTransactions = append(want.BankTransactions, b)
				} else {
					want.InvTransactions = append(want.InvTransactions, q.Elem().Interface().(ofxgo.InvTransaction))
				}
			}
		}
		l := assemble(rnd, "INVTRANLIST", texts)
		var got ofxgo.InvTranList
		err := decodeFrom(l.text, &got)
		cases++
		switch {
		case broken || l.must:
			if err == nil {
				failing(t, "reading %s succeeds", l.text)
			}
		case err != nil:
			if !l.mayNot {
				failing(t, "reading %s: %v", l.text, err)
			}
		default:
			got.XMLName = want.XMLName
			if !reflect.DeepEqual(got, want) {
				failing(t, "reading %s gives %s, not %s", l.text, describe(got), describe(want))
			}
		}
		// writing
		w := ofxgo.InvTranList{DtStart: from, DtEnd: to}
		dates := dates
		if rnd.Intn(3) == 0 {
			some := []ofxgo.Date{from, to, {}, {Time: time.Unix(0, 0)}, {Time: time.Unix(1e9, 0).UTC()}}
			w.DtStart, w.DtEnd = some[rnd.Intn(len(some))], some[rnd.Intn(len(some))]
			a, err1 := encodeAs(&w.DtStart, "DTSTART")
			b, err2 := encodeAs(&w.DtEnd, "DTEND")
			if err1 != nil || err2 != nil {
				continue
			}
			dates = a + b
		}
		inv, bank := "", ""
		for n := rnd.Intn(8); n > 0; n-- {
			k := rnd.Intn(len(kinds))
			p := reflect.New(reflect.TypeOf(kinds[k]))
			fill(rnd, p.Interface(), rnd.Intn(4))
			e := p.Elem().Interface()
			s, err := encodeAs(p.Interface(), entryTag(e))
			if err != nil {
				continue
			}
			if b, ok := e.(ofxgo.InvBankTransaction); ok {
				w.BankTransactions = append(w.BankTransactions, b)
				bank += s
			} else {
				w.InvTransactions = append(w.InvTransactions, e.(ofxgo.InvTransaction))
				inv += s
			}
		}
		s, err := encodeAs(&w, "INVTRANLIST")
		cases++
		if err != nil || s != "<INVTRANLIST>"+dates+inv+bank+"</INVTRANLIST>" {
			failing(t, "writing %s: error %v, got %s", describe(w), err, s)
		}
		checkBroken(t, rnd, &w, "INVTRANLIST")
		if rnd.Intn(5) == 0 {
			k := rnd.Intn(len(w.InvTransactions) + 1)
			w.InvTransactions = append(w.InvTransactions[:k:k], append([]ofxgo.InvTransaction{fakeTran{}}, w.InvTransactions[k:]...)...)
			if s, err := encodeAs(&w, "INVTRANLIST"); err == nil {
				failing(t, "a transaction of unknown type is written: %s", s)
			}
		}
	}
}
