//go:build go1.21

package ofxgo_test

//replay:use list_test.go fill_test.go valid_test.go C16_test.go export_test.go

import (
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
)

// c08part is one element of a document.
type c08part struct {
	open, shut string
	inner      []string
}

func TestReplayC08(t *testing.T) {
	rnd := newRand()
	sets := strings.Fields("SIGNUP BANK CREDITCARD LOAN INVSTMT INTERXFER WIREXFER BILLPAY EMAIL SECLIST PRESDIR PRESDLV PROF IMAGE")
	kinds := []struct {
		v   interface{}
		set int
		tag string
	}{
		{ofxgo.AcctInfoResponse{}, 0, "ACCTINFOTRNRS"}, {ofxgo.StatementResponse{}, 1, "STMTTRNRS"}, {ofxgo.CCStatementResponse{}, 2, "CCSTMTTRNRS"},
		{ofxgo.InvStatementResponse{}, 4, "INVSTMTTRNRS"}, {ofxgo.SecListResponse{}, 9, "SECLISTTRNRS"}, {ofxgo.SecurityList{}, 9, "SECLIST"}, {ofxgo.ProfileResponse{}, 12, "PROFTRNRS"},
	}
	xmlHead := "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n<?OFX OFXHEADER=\"200\" VERSION=\"203\" SECURITY=\"NONE\" OLDFILEUID=\"NONE\" NEWFILEUID=\"NONE\"?>\n"
	sgmlHead := "OFXHEADER:100\r\nDATA:OFXSGML\r\nVERSION:102\r\nSECURITY:NONE\r\nENCODING:USASCII\r\nCHARSET:1252\r\nCOMPRESSION:NONE\r\nOLDFILEUID:NONE\r\nNEWFILEUID:NONE\r\n\r\n"
	for i := 0; i < rounds(700, 12000); i++ {
		spoil := rnd.Intn(3) == 0
		must, mayNot := false, false
		sp := func() string {
			if !spoil || rnd.Intn(12) != 0 {
				return []string{"", "", "\n", " \r\n\t", "\u00a0 "}[rnd.Intn(5)]
			}
			switch rnd.Intn(5) {
			case 0:
				mayNot = true
				return "<!-- x -->"
			case 1:
				must = true
				return "<UNKNOWN>1</UNKNOWN>"
			case 2:
				must = true
				return "<BANKMSGSRSV2></BANKMSGSRSV2>"
			case 3:
				mayNot = true
				return "<?pi x?>"
			}
			must = true
			return "text"
		}
		make := func() (string, interface{}, int) {
			k := kinds[rnd.Intn(len(kinds))]
			for n := 0; n < 20; n++ {
				p := reflect.New(reflect.TypeOf(k.v))
				fill(rnd, p.Interface(), rnd.Intn(5))
				s, err := encodeAs(p.Interface(), k.tag)
				if err != nil {
					continue
				}
				q := reflect.New(reflect.TypeOf(k.v))
				if decodeFrom(s, q.Interface()) != nil {
					continue
				}
				return s, q.Interface(), k.set
			}
			return "", nil, 0
		}
		var son ofxgo.SignonResponse
		var sonText string
		for {
			var v ofxgo.SignonResponse
			fill(rnd, &v, rnd.Intn(5))
			s, err := encodeAs(&v, "SONRS")
			if err != nil || decodeFrom(s, &son) != nil {
				son = ofxgo.SignonResponse{}
				continue
			}
			sonText = s
			break
		}
		var b strings.Builder
		head := xmlHead
		if i%3 == 2 {
			head = sgmlHead
		}
		want := map[int][]interface{}{}
		b.WriteString("<OFX>")
		blank := func() { b.WriteString([]string{"", "\n", " \t"}[rnd.Intn(3)]) }
		b.WriteString(sp())
		signon := "<SIGNONMSGSRSV1>" + []string{"", "\n "}[rnd.Intn(2)] + sonText
		if !spoil || rnd.Intn(15) != 0 {
			b.WriteString(signon)
			b.WriteString(sp())
			b.WriteString("</SIGNONMSGSRSV1>")
		} else {
			must = true
		}
		b.WriteString(sp())
		for n := rnd.Intn(5); n > 0; n-- {
			text, v, set := make()
			first := set
			open := set
			if text == "" || rnd.Intn(4) == 0 {
				text, open = "", rnd.Intn(len(sets))
			} else if spoil && rnd.Intn(8) == 0 {
				open = rnd.Intn(len(sets))
				if open != set {
					must = true
				}
			}
			b.WriteString("<" + sets[open] + "MSGSRSV1>")
			for {
				b.WriteString(sp())
				if text != "" {
					b.WriteString(text)
					want[open] = append(want[open], v)
					b.WriteString(sp())
				}
				if rnd.Intn(2) == 0 || text == "" {
					break
				}
				for tries := 0; tries < 100; tries++ {
					if text, v, set = make(); set == first && text != "" {
						break
					}
					text = ""
				}
			}
			b.WriteString("</" + sets[open] + "MSGSRSV1>")
			b.WriteString(sp())
		}
		if spoil && !must && rnd.Intn(20) == 0 {
			b.WriteString(signon + "</SIGNONMSGSRSV1>")
			must = true
		}
		body := b.String()
		if spoil && rnd.Intn(10) == 0 {
			body = body[:rnd.Intn(len(body))]
			must = true
		} else {
			body += "</OFX>"
			b.Reset()
			blank()
			body += b.String()
			if rnd.Intn(10) == 0 {
				body += "trailing"
			}
		}
		text := head + body
		r, err := ofxgo.DecodeResponse(oneByte(rnd, strings.NewReader(text)))
		cases++
		switch {
		case (r == nil) != (err != nil):
			failing(t, "decoding %s gives response %v and error %v", text, r, err)
		case must && err == nil:
			failing(t, "decoding %s succeeds", text)
		case err != nil:
			if !must && !mayNot {
				failing(t, "decoding %s fails: %v", text, err)
			}
		default:
			if !reflect.DeepEqual(r.Signon, son) {
				failing(t, "decoding %s gives sign-on response %s", text, describe(r.Signon))
			}
			for k, l := range ofxgo.VAnswerSets(r) {
				ok := len(*l) == len(want[k])
				for j := 0; ok && j < len(*l); j++ {
					ok = reflect.DeepEqual((*l)[j], want[k][j])
				}
				if !ok {
					failing(t, "decoding %s gives for message set %s: %s", text, sets[k], describe(*l))
				}
			}
		}
	}
}

type c08reader struct {
	r   *strings.Reader
	rnd *rand.Rand
}

func (c c08reader) Read(p []byte) (int, error) {
	n := c.rnd.Intn(200)
	if n > len(p) {
		n = len(p)
	}
	return c.r.Read(p[:n])
}

// oneByte delivers a text in small pieces.
func oneByte(rnd *rand.Rand, r *strings.Reader) interface{ Read([]byte) (int, error) } {
	if rnd.Intn(2) == 0 {
		return r
	}
	return c08reader{r, rnd}
}
