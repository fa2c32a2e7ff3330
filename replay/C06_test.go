//go:build go1.21

package ofxgo_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
)

var c06names = map[int]string{1: "102", 2: "103", 3: "151", 4: "160", 5: "200", 6: "201", 7: "202", 8: "203", 9: "210", 10: "211", 11: "220"}

func c06header(v int, nl string) string {
	n, ok := c06names[v]
	if !ok {
		return ""
	}
	if v <= 4 {
		return strings.Join([]string{"OFXHEADER:100", "DATA:OFXSGML", "VERSION:" + n, "SECURITY:NONE", "ENCODING:USASCII", "CHARSET:1252", "COMPRESSION:NONE", "OLDFILEUID:NONE", "NEWFILEUID:NONE", "", ""}, nl)
	}
	return `<?xml version="1.0" encoding="UTF-8" standalone="no"?>` + nl + `<?OFX OFXHEADER="200" VERSION="` + n + `" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>` + nl
}

func TestReplayC06(t *testing.T) {
	if int(ofxgo.OfxVersion102) != 1 || int(ofxgo.OfxVersion220) != 11 {
		failing(t, "version constants renumbered")
	}
	check := func(what string, v int, nl string, body fmt.Stringer, isNil bool, err error) {
		cases++
		h := c06header(v, nl)
		if h == "" {
			if err == nil || !isNil {
				failing(t, "%s with version %d: error %v, document returned %v", what, v, err, !isNil)
			}
			return
		}
		if err != nil || isNil {
			failing(t, "%s with version %d: error %v, document returned %v", what, v, err, !isNil)
			return
		}
		s := body.String()
		if !strings.HasPrefix(s, h+"<OFX>") {
			n := len(h) + 5
			if n > len(s) {
				n = len(s)
			}
			failing(t, "%s with version %d line ends %q starts %q", what, v, nl, s[:n])
			return
		}
		if strings.Contains(strings.ReplaceAll(s, "\r\n", ""), "\r") || nl == "\n" && strings.Contains(s, "\r") || nl == "\r\n" && strings.Contains(strings.ReplaceAll(s, "\r\n", ""), "\n") {
			failing(t, "%s with version %d line ends %q: wrong line ends in %q", what, v, nl, s)
		}
	}
	for v := 0; v <= 40; v++ {
		for _, cr := range []bool{false, true} {
			for _, noIndent := range []bool{false, true} {
				var q ofxgo.Request
				q.Signon.UserID, q.Signon.UserPass = "u", "p"
				q.SetClientFields(&ofxgo.BasicClient{NoIndent: noIndent, CarriageReturn: cr})
				q.Bank = append(q.Bank, &ofxgo.StatementRequest{TrnUID: "1", BankAcctFrom: ofxgo.BankAcct{BankID: "1", AcctID: "2", AcctType: ofxgo.AcctTypeChecking}})
				q.Version -= q.Version
				for i := 0; i < v; i++ {
					q.Version++
				}
				nl := "\n"
				if cr {
					nl = "\r\n"
				}
				b, err := q.Marshal()
				check("Request", v, nl, b, b == nil, err)
			}
		}
		var r ofxgo.Response
		r.Signon.Status.Code, r.Signon.Status.Severity = 0, "INFO"
		r.Signon.Language = "ENG"
		for i := 0; i < v; i++ {
			r.Version++
		}
		b, err := r.Marshal()
		check("Response", v, "\n", b, b == nil, err)
	}
}
