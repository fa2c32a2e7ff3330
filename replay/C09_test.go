//go:build go1.21

package ofxgo_test

//replay:use export_test.go

import (
	"bytes"
	"errors"
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

// c09msg is a message which does as it is told.
type c09msg struct {
	set  ofxgo.VMessageType
	ok   bool
	fail bool
	n    int
}

func (m *c09msg) Name() string { return "X" }
func (m *c09msg) Valid(v ofxgo.VVersion) (bool, error) {
	if m.ok {
		return true, nil
	}
	return false, errors.New("invalid")
}
func (m *c09msg) Type() ofxgo.VMessageType { return m.set }
func (m *c09msg) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	if m.fail {
		return errors.New("cannot be encoded")
	}
	return e.EncodeElement(fmt.Sprint(m.n), xml.StartElement{Name: xml.Name{Local: "MSG"}})
}

var c09names = strings.Fields("SIGNON SIGNUP BANK CREDITCARD LOAN INVSTMT INTERXFER WIREXFER BILLPAY EMAIL SECLIST PRESDIR PRESDLV PROF IMAGE")
var c09rq = []ofxgo.VMessageType{ofxgo.SignupRq, ofxgo.BankRq, ofxgo.CreditCardRq, ofxgo.LoanRq, ofxgo.InvStmtRq, ofxgo.InterXferRq, ofxgo.WireXferRq, ofxgo.BillpayRq, ofxgo.EmailRq, ofxgo.SecListRq, ofxgo.PresDirRq, ofxgo.PresDlvRq, ofxgo.ProfRq, ofxgo.ImageRq}
var c09rs = []ofxgo.VMessageType{ofxgo.SignupRs, ofxgo.BankRs, ofxgo.CreditCardRs, ofxgo.LoanRs, ofxgo.InvStmtRs, ofxgo.InterXferRs, ofxgo.WireXferRs, ofxgo.BillpayRs, ofxgo.EmailRs, ofxgo.SecListRs, ofxgo.PresDirRs, ofxgo.PresDlvRs, ofxgo.ProfRs, ofxgo.ImageRs}

func TestReplayC09(t *testing.T) {
	rnd := newRand()
	space := regexp.MustCompile(`\s+`)
	leafEnd := regexp.MustCompile(`</(USERID|USERPASS|APPID|APPVER|DTCLIENT|LANGUAGE|GENUSERKEY|TRNUID|BANKID|ACCTID|ACCTTYPE|CODE|SEVERITY)>`)
	for i := 0; i < rounds(3000, 60000); i++ {
		rs := i%2 == 1
		var q ofxgo.Request
		var a ofxgo.Response
		q.Signon.UserID, q.Signon.UserPass = "u", "p"
		q.SetClientFields(&ofxgo.BasicClient{NoIndent: i%4 < 2, CarriageReturn: i%8 < 4})
		a.Signon.Status.Severity, a.Signon.Language = "INFO", "ENG"
		signon := true
		if rnd.Intn(12) == 0 {
			signon = false
			q.Signon.UserID, a.Signon.Language = "", ""
		}
		q.Version -= q.Version
		v := 1 + rnd.Intn(11)
		for k := 0; k < v; k++ {
			q.Version++
			a.Version++
		}
		sets, suffix, types := ofxgo.VSets(&q), "MSGSRQV1", c09rq
		if rs {
			sets, suffix, types = ofxgo.VAnswerSets(&a), "MSGSRSV1", c09rs
		}
		ok := signon
		want := ""
		bad := rnd.Intn(3) == 0
		n := 0
		for j, s := range sets {
			k := rnd.Intn(12)
			if k > 4 {
				continue
			}
			for ; k > 0; k-- {
				n++
				m := &c09msg{set: types[j], ok: true, n: n}
				if bad && rnd.Intn(8) == 0 {
					switch rnd.Intn(4) {
					case 0:
						m.ok = false
					case 1:
						m.fail = true
					case 2:
						m.set = types[rnd.Intn(14)]
					case 3:
						m.set = c09rq[j]
						if !rs {
							m.set = c09rs[j]
						}
					}
				}
				ok = ok && m.ok && !m.fail && m.set == types[j]
				*s = append(*s, m)
			}
			if len(*s) > 0 {
				want += "<" + c09names[j+1] + suffix + ">"
				for _, m := range *s {
					want += fmt.Sprintf("<MSG>%d</MSG>", m.(*c09msg).n)
				}
				want += "</" + c09names[j+1] + suffix + ">"
			}
		}
		var b *bytes.Buffer
		var err error
		if rs {
			b, err = a.Marshal()
		} else {
			b, err = q.Marshal()
		}
		cases++
		if (err == nil) != ok || (b == nil) != (err != nil) {
			failing(t, "%s of version %d, sign-on valid %v, sets %s: error %v, document returned %v, expected success %v", suffix, v, signon, want, err, b != nil, ok)
			continue
		}
		if err != nil {
			continue
		}
		s := space.ReplaceAllString(b.String(), "")
		if k := strings.Index(s, "<OFX>"); k >= 0 {
			s = s[k:]
		}
		head, tail := "<OFX><SIGNON"+suffix+">", "</SIGNON"+suffix+">"+want+"</OFX>"
		if !strings.HasPrefix(s, head) || !strings.HasSuffix(s, tail) {
			failing(t, "%s of version %d: document %s does not end in %s", suffix, v, s, tail)
			continue
		}
		sonrq := s[len(head) : len(s)-len(tail)]
		if strings.Contains(sonrq, "MSGS") || !strings.HasPrefix(sonrq, "<SONR") {
			failing(t, "%s of version %d: sign-on set holds %s", suffix, v, sonrq)
		}
		if closes := leafEnd.MatchString(sonrq); closes != (rs || v >= 5) {
			failing(t, "%s of version %d: leaf elements closed: %v in %s", suffix, v, closes, sonrq)
		}
	}
}
