//go:build go1.21

package ofxgo_test

//replay:use list_test.go fill_test.go valid_test.go C16_test.go

import (
	"reflect"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestReplayC12(t *testing.T) {
	rnd := newRand()
	names := strings.Fields("SIGNONMSGSETV1 SIGNUPMSGSETV1 BANKMSGSETV1 CREDITCARDMSGSETV1 INVSTMTMSGSETV1 SECLISTMSGSETV1 PROFMSGSETV1 V1 V1V1 XMSGSETV2 BANK")
	for i := 0; i < rounds(1500, 40000); i++ {
		var l ofxgo.MessageSetList
		var texts []string
		var want ofxgo.MessageSetList
		good, broken := true, false
		out := ""
		for n := rnd.Intn(5); n > 0; n-- {
			var m ofxgo.MessageSet
			fill(rnd, &m, rnd.Intn(4))
			m.Name = names[rnd.Intn(7)]
			if rnd.Intn(12) == 0 {
				m.Name = names[rnd.Intn(len(names))]
			}
			s, err := encodeAs(&m, m.Name)
			if err != nil {
				continue
			}
			l = append(l, m)
			good = good && strings.HasSuffix(m.Name, "V1") && m.Name != "V1"
			set := strings.TrimSuffix(m.Name, "V1")
			out += "<" + set + ">" + s + "</" + set + ">"
			if set == "" {
				set = "X"
			}
			if rnd.Intn(25) == 0 {
				if x := spoil(rnd, s); x != "" {
					s = x
				}
			}
			var q ofxgo.MessageSet
			if decodeFrom(s, &q) != nil {
				broken = true
			}
			q.Name = m.Name
			want = append(want, q)
			if rnd.Intn(30) == 0 {
				s, broken = []string{"", "text", s + s, s + "text", "text" + s, s + "<X></X>"}[rnd.Intn(6)], true
			}
			sp := []string{"", " ", "\n", "\r\n\t"}
			texts = append(texts, "<"+set+">"+sp[rnd.Intn(4)]+s+sp[rnd.Intn(4)]+"</"+set+">")
		}
		s, err := encodeAs(&l, "MSGSETLIST")
		cases++
		switch {
		case good && (err != nil || s != "<MSGSETLIST>"+out+"</MSGSETLIST>"):
			failing(t, "writing %s: error %v, got %s", describe(l), err, s)
		case !good && err == nil:
			failing(t, "writing %s succeeds: %s", describe(l), s)
		}
		if good {
			checkBroken(t, rnd, &l, "MSGSETLIST")
		}
		a := assemble(rnd, "MSGSETLIST", texts)
		var got ofxgo.MessageSetList
		err = decodeFrom(a.text, &got)
		cases++
		switch {
		case broken || a.must:
			if err == nil {
				failing(t, "reading %s succeeds", a.text)
			}
		case err != nil:
			if !a.mayNot {
				failing(t, "reading %s: %v", a.text, err)
			}
		default:
			if len(got) != len(want) || len(got) > 0 && !reflect.DeepEqual(got, want) {
				failing(t, "reading %s gives %s, not %s", a.text, describe(got), describe(want))
			}
		}
	}
}
