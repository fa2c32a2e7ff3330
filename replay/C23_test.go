//go:build go1.21

package ofxgo_test

//replay:use export_test.go

import (
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
)

// c23msg is a message which is valid or not as it is told.
type c23msg struct {
	ok      bool
	n       int
	version ofxgo.VVersion
	bad     *string
	order   *[]int
	inner   *ofxgo.Response // validated instead of an invalid message
}

func (m *c23msg) Name() string { return "X" }
func (m *c23msg) Valid(v ofxgo.VVersion) (bool, error) {
	if v != m.version {
		*m.bad = fmt.Sprintf("message %d is validated for version %v, not %v", m.n, v, m.version)
	}
	*m.order = append(*m.order, m.n)
	if m.ok {
		return true, nil
	}
	if m.inner != nil {
		return m.inner.Valid()
	}
	return false, fmt.Errorf("fault<%d>", m.n)
}
func (m *c23msg) Type() ofxgo.VMessageType { return ofxgo.BankRs }

const c23doc = `<?xml version="1.0" encoding="UTF-8" standalone="no"?>
<?OFX OFXHEADER="200" VERSION="203" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>
<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>%s</SEVERITY></STATUS><DTSERVER>20060115112303</DTSERVER><LANGUAGE>%s</LANGUAGE></SONRS></SIGNONMSGSRSV1>%s`

func TestReplayC23(t *testing.T) {
	rnd := newRand()
	fault := regexp.MustCompile(`fault<(\d+)>`)
	for i := 0; i < rounds(4000, 100000); i++ {
		var a ofxgo.Response
		for k := rnd.Intn(11); k >= 0; k-- {
			a.Version++
		}
		a.Signon.Status.Severity, a.Signon.Language = "INFO", "ENG"
		signon := rnd.Intn(4) != 0
		if !signon {
			a.Signon.Language = ""
		}
		bad, want, n := "", "", 0
		var order []int
		_, signonErr := a.Signon.Valid(a.Version)
		for _, s := range ofxgo.VAnswerSets(&a) {
			k := rnd.Intn(10)
			if i%3 == 0 {
				k = rnd.Intn(3)
			}
			if i%50 == 7 && k == 9 {
				k = 200
			} else if k > 4 {
				continue
			}
			for ; k > 0; k-- {
				n++
				m := &c23msg{ok: rnd.Intn(3) > 0 || i%5 == 0, n: n, version: a.Version, bad: &bad, order: &order}
				if !m.ok && rnd.Intn(10) == 0 {
					m.inner = &ofxgo.Response{Version: a.Version}
					m.inner.Signon.Status.Severity, m.inner.Signon.Language = "INFO", "ENG"
					for k := rnd.Intn(3); k >= 0; k-- {
						x := *m
						x.n, x.inner = n, nil
						m.inner.Bank = append(m.inner.Bank, &x)
						want += fmt.Sprintf("fault<%d>", n)
						n++
					}
				} else if !m.ok {
					want += fmt.Sprintf("fault<%d>", n)
				}
				*s = append(*s, m)
			}
		}
		ok, err := a.Valid()
		cases++
		text := ""
		if err != nil {
			text = err.Error()
		}
		got := strings.Join(fault.FindAllString(text, -1), "")
		switch {
		case bad != "":
			failing(t, "%s", bad)
		case ok != (signon && want == "") || ok != (err == nil):
			failing(t, "sign-on valid %v, failures %q: valid %v, error %v", signon, want, ok, err)
		case got != want:
			failing(t, "failures %q, sign-on valid %v, are reported as %q", want, signon, text)
		case !signon && (!strings.Contains(text, signonErr.Error()) || want != "" && strings.Index(text, signonErr.Error()) > strings.Index(text, "fault<")):
			failing(t, "the failure of the sign-on (%v) is not reported first in %q", signonErr, text)
		}
		if !ok && err != nil {
			// a list of exactly the failures
			l := reflect.ValueOf(err)
			k := strings.Count(want, "fault<")
			if !signon {
				k++
			}
			if l.Kind() == reflect.Slice && l.Len() != k {
				failing(t, "%d failures are reported as %d: %q", k, l.Len(), text)
			}
		}
	}
	for _, sev := range []string{"INFO", "WARN", "XX"} {
		for _, lang := range []string{"ENG", "", "ENGLISH"} {
			for _, end := range []string{"</OFX>", "", "</OFC>", "<BAD></BAD></OFX>", "<SIGNUPMSGSRSV1><ACCTINFOTRNRS><TRNUID></TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS></ACCTINFOTRNRS></SIGNUPMSGSRSV1></OFX>"} {
				doc := fmt.Sprintf(c23doc, sev, lang, end)
				dec, decErr := ofxgo.DecodeResponse(strings.NewReader(doc))
				r, err := ofxgo.ParseResponse(strings.NewReader(doc))
				cases++
				if decErr != nil {
					if r != nil || err == nil {
						failing(t, "a document which cannot be decoded (%v) is parsed to %v, error %v: %s", decErr, r, err, doc)
					}
					continue
				}
				if dec == nil {
					failing(t, "no response and no error: %s", doc)
					continue
				}
				valid, valErr := dec.Valid()
				switch {
				case r == nil:
					failing(t, "a decoded response is not returned (error %v): %s", err, doc)
				case (err == nil) != valid || err != nil && err.Error() != valErr.Error():
					failing(t, "response valid %v (%v), parsing reports %v: %s", valid, valErr, err, doc)
				case r.Signon.Language != dec.Signon.Language || len(r.Signup) != len(dec.Signup):
					failing(t, "parsing returns another response: %s", doc)
				}
			}
		}
	}
	// a failure of the reader
	if r, err := ofxgo.ParseResponse(&c23broken{}); r != nil || err == nil {
		failing(t, "a failing reader: response %v, error %v", r, err)
	}
}

type c23broken struct{}

func (*c23broken) Read([]byte) (int, error) { return 0, errors.New("broken") }
