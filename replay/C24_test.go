//go:build go1.21

package ofxgo_test

//replay:use list_test.go fill_test.go valid_test.go C16_test.go export_test.go

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

// c24try says how f fails: by crashing or by not ending.
func c24try(f func()) (fault string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				s := string(debug.Stack())
				if k := strings.Index(s, "panic("); k >= 0 {
					s = s[k:]
				}
				if len(s) > 1200 {
					s = s[:1200]
				}
				done <- fmt.Sprintf("crash: %v: %s", r, s)
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case fault = <-done:
	case <-time.After(15 * time.Second):
		fault = "no end"
	}
	return fault
}

var c24endless bool

func c24bad(fault string) bool {
	c24endless = c24endless || fault == "no end"
	return fault != ""
}

// c24walk calls the methods of everything in a value.
func c24walk(v reflect.Value, rnd *rand.Rand) {
	if v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return
		}
		c24walk(v.Elem(), rnd)
		if v.Kind() == reflect.Interface {
			return
		}
		v = v.Elem()
	}
	if strings.Contains(v.Type().PkgPath(), "ofxgo") && v.CanInterface() {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		for i := 0; i < p.NumMethod(); i++ {
			switch p.Type().Method(i).Name {
			case "Valid", "String", "Name", "Type", "TransactionType", "PositionType", "OrderType", "SecurityType", "CodeMeaning", "CodeConditions", "RecommendedFormat":
			default:
				continue
			}
			m := p.Method(i)
			var args []reflect.Value
			for k := 0; k < m.Type().NumIn(); k++ {
				a := reflect.New(m.Type().In(k)).Elem()
				if a.Kind() == reflect.Uint {
					a.SetUint(uint64(rnd.Intn(13)))
				}
				args = append(args, a)
			}
			if !m.Type().IsVariadic() {
				m.Call(args)
			}
		}
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				c24walk(v.Field(i), rnd)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			c24walk(v.Index(i), rnd)
		}
	}
}

var c24texts = []string{"", " ", "-", "+", "0", "-0", "1", "99999999999999999999", "2", "20", "2020", "202013", "20200101", "20200231", "2020010112", "20200101120000", "20200101120000.", "20200101120000.123",
	"20200101[", "20200101[]", "20200101]", "20200101[0", "20200101[-5", "20200101[-5:EST]", "20200101120000[-5:EST", "20200101120000.123[-5.30:IST]", "20200101120000[99999999999999999999:X]", "20200101[:]", "20200101[+]", "20200101[-.:X]",
	"1/0", "1e9", ".", ",", "1,,1", "1.5.5", "0x", "NaN", "Y", "N", "YN", "y", "USD", "usd", "XXX", "ÄÖÜ", "\x00", "\xff", "CHECKING", "DEBIT", "OTHER", "Z", strings.Repeat("A", 40), strings.Repeat("9", 3000), "&amp;", "&lt;x", "]]>"}

var c24bits = []string{"[", "]", ":", "-", "+", ".", ",", "/", "0", "1", "5", "30", "12", "000", "GMT", "EST", " ", "20200101", "120000", "e"}

// c24spoil changes a document.
func c24spoil(rnd *rand.Rand, s string, others []string) string {
	tag := func() (int, int) { // of some tag
		if len(s) == 0 {
			return 0, 0
		}
		a := rnd.Intn(len(s))
		i := strings.IndexByte(s[a:], '<')
		if i < 0 {
			return 0, 0
		}
		j := strings.IndexByte(s[a+i:], '>')
		if j < 0 {
			return 0, 0
		}
		return a + i, a + i + j + 1
	}
	for n := rnd.Intn(4); n >= 0; n-- {
		switch rnd.Intn(11) {
		case 9, 10: // lose a byte of the header
			if i := rnd.Intn(250); i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 0: // break off
			if rnd.Intn(3) == 0 && len(s) > 0 {
				s = s[:rnd.Intn(len(s))]
			}
		case 1: // remove something
			if len(s) > 0 {
				i := rnd.Intn(len(s))
				j := i + rnd.Intn(1+len(s)-i)
				if rnd.Intn(3) > 0 && j > i+30 {
					j = i + rnd.Intn(30)
				}
				s = s[:i] + s[j:]
			}
		case 2, 3, 4: // change the text of an element
			if _, j := tag(); j > 0 {
				k := strings.IndexByte(s[j:], '<')
				if k < 0 {
					k = 0
				}
				s = s[:j] + c24texts[rnd.Intn(len(c24texts))] + s[j+k:]
			}
		case 5: // drop a tag
			i, j := tag()
			s = s[:i] + s[j:]
		case 6: // drop an element
			if i, j := tag(); j > i+2 && s[i+1] != '/' {
				if k := strings.Index(s[j:], "</"+s[i+1:j]); k >= 0 {
					s = s[:i] + s[j+k+2+j-i-1:]
				}
			}
		case 7: // repeat a tag elsewhere
			i, j := tag()
			t := s[i:j]
			i, _ = tag()
			s = s[:i] + t + s[i:]
		case 8: // put something in
			i, _ := tag()
			o := others[rnd.Intn(len(others))]
			s = s[:i] + o + s[i:]
		}
	}
	return s
}

var c24parts = []interface{}{ofxgo.Transaction{}, ofxgo.Transaction{}, ofxgo.PendingTransaction{}, ofxgo.TransactionList{}, ofxgo.PendingTransactionList{}, ofxgo.Payee{}, ofxgo.BankAcct{}, ofxgo.CCAcct{}, ofxgo.InvAcct{},
	ofxgo.Currency{}, ofxgo.Status{}, ofxgo.Balance{}, ofxgo.ImageData{}, ofxgo.StatementResponse{}, ofxgo.CCStatementResponse{}, ofxgo.AcctInfo{}, ofxgo.CCAcctInfo{}, ofxgo.InvAcctInfo{}, ofxgo.BankAcctInfo{}}

func TestReplayC24(t *testing.T) {
	rnd := newRand()
	var docs []string
	filepath.Walk("samples", func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			if b, err := os.ReadFile(p); err == nil {
				docs = append(docs, string(b))
			}
		}
		return nil
	})
	kinds := []interface{}{ofxgo.AcctInfoResponse{}, ofxgo.StatementResponse{}, ofxgo.CCStatementResponse{}, ofxgo.InvStatementResponse{}, ofxgo.SecListResponse{}, ofxgo.SecurityList{}, ofxgo.ProfileResponse{},
		ofxgo.AcctInfoRequest{}, ofxgo.StatementRequest{}, ofxgo.CCStatementRequest{}, ofxgo.InvStatementRequest{}, ofxgo.SecListRequest{}, ofxgo.ProfileRequest{}, ofxgo.SignonRequest{}, ofxgo.SignonResponse{}, ofxgo.OOList{}, ofxgo.PositionList{}}
	sets := map[int]string{0: "SIGNUP", 1: "BANK", 2: "CREDITCARD", 3: "INVSTMT", 4: "SECLIST", 5: "SECLIST", 6: "PROF"}
	tags := []string{"ACCTINFOTRNRS", "STMTTRNRS", "CCSTMTTRNRS", "INVSTMTTRNRS", "SECLISTTRNRS", "SECLIST", "PROFTRNRS"}
	xmlHead := "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n<?OFX OFXHEADER=\"200\" VERSION=\"203\" SECURITY=\"NONE\" OLDFILEUID=\"NONE\" NEWFILEUID=\"NONE\"?>\n"
	sgmlHead := "OFXHEADER:100\r\nDATA:OFXSGML\r\nVERSION:102\r\nSECURITY:NONE\r\nENCODING:USASCII\r\nCHARSET:1252\r\nCOMPRESSION:NONE\r\nOLDFILEUID:NONE\r\nNEWFILEUID:NONE\r\n\r\n"
	signon := "<SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20200101120000</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1>"
	others := append([]string{"<!-- c -->", "<![CDATA[x]]>", "<?pi x?>", "<X>", "</X>", "<X/>", "<>", "<", "</", ">", "</OFX>", "<OFX>", "text", "<a:b>", "&", "<STMTTRNRS>", "</BANKMSGSRSV1>", "<BANKMSGSRSV1>", "<CODE>", "<STATUS>"}, c24texts...)

	for i := 0; i < rounds(2500, 25000) && !c24endless; i++ {
		// values
		k := rnd.Intn(len(kinds))
		p := reflect.New(reflect.TypeOf(kinds[k]))
		whole := rnd.Intn(2) == 0 // no nil elements in lists
		if whole {
			fill(rnd, p.Interface(), rnd.Intn(6))
		} else {
			nearlyValid(rnd, p.Interface(), rnd.Intn(6))
		}
		var text string
		var err error
		if f := c24try(func() {
			c24walk(p, rnd)
			if !whole {
				return
			}
			if k < len(tags) {
				text, err = encodeAs(p.Interface(), tags[k])
			} else {
				_, err = xml.Marshal(p.Interface())
			}
		}); c24bad(f) {
			failing(t, "%s with %#v", f, p.Elem().Interface())
		}
		// texts of leaf elements
		for n := 0; n < 4; n++ {
			s := c24texts[rnd.Intn(len(c24texts))]
			for k := rnd.Intn(3); k > 0; k-- {
				s += c24bits[rnd.Intn(len(c24bits))]
			}
			leaves := []interface{}{new(ofxgo.Date), new(ofxgo.Date), new(ofxgo.Amount), new(ofxgo.Int), new(ofxgo.String), new(ofxgo.Boolean), new(ofxgo.UID), new(ofxgo.CurrSymbol)}
			l := leaves[rnd.Intn(len(leaves))]
			if f := c24try(func() { xml.Unmarshal([]byte("<X>"+s+"</X>"), l); c24walk(reflect.ValueOf(l), rnd) }); c24bad(f) {
				failing(t, "%s with %T of %q", f, l, s)
			}
		}
		// parts
		for n := 0; n < 6; n++ {
			q := reflect.New(reflect.TypeOf(c24parts[rnd.Intn(len(c24parts))]))
			nearlyValid(rnd, q.Interface(), rnd.Intn(8))
			if f := c24try(func() { c24walk(q, rnd) }); c24bad(f) {
				failing(t, "%s with %s", f, describe(q.Elem().Interface()))
			}
		}
		// documents
		var doc string
		switch {
		case i%4 == 0 && len(docs) > 0:
			doc = docs[rnd.Intn(len(docs))]
		case k < len(tags) && err == nil && text != "":
			doc = "<OFX>" + signon + "<" + sets[k] + "MSGSRSV1>" + text + "</" + sets[k] + "MSGSRSV1></OFX>"
			if rnd.Intn(2) == 0 {
				doc = xmlHead + doc
			} else {
				doc = sgmlHead + doc
			}
		default:
			continue
		}
		if rnd.Intn(12) == 0 {
			// a header value which isn't closed
			if k := strings.Index(doc, "<OFX>"); k > 0 {
				if n := strings.Count(doc[:k], "\""); n > 0 {
					n, j := rnd.Intn(n), 0
					if rnd.Intn(2) == 0 {
						j = strings.LastIndexByte(doc[:k], '"')
					} else {
						for ; n >= 0; n-- {
							j += strings.IndexByte(doc[j:k], '"') + 1
						}
						j--
					}
					doc = doc[:j] + doc[j+1:]
				}
			}
		} else if rnd.Intn(8) > 0 {
			doc = c24spoil(rnd, doc, others)
		}
		if f := c24try(func() {
			resp, _ := ofxgo.ParseResponse(strings.NewReader(doc))
			if resp == nil {
				return
			}
			c24walk(reflect.ValueOf(resp), rnd)
			resp.Marshal()
			resp.Valid()
			resp.Version = ofxgo.OfxVersion203
			resp.Marshal()
		}); c24bad(f) {
			failing(t, "%s with %q", f, doc)
		}
		// requests
		if i%8 == 0 {
			var q ofxgo.Request
			fill(rnd, &q.Signon, rnd.Intn(6))
			for n, l := range []*[]ofxgo.Message{&q.Signup, &q.Bank, &q.CreditCard, &q.InvStmt, &q.SecList, &q.Prof} {
				if rnd.Intn(2) == 0 {
					v := reflect.New(reflect.TypeOf(kinds[7+n]))
					fill(rnd, v.Interface(), rnd.Intn(6))
					*l = append(*l, v.Interface().(ofxgo.Message))
				}
			}
			fill(rnd, &q.Version, rnd.Intn(3))
			if f := c24try(func() { q.Marshal() }); c24bad(f) {
				failing(t, "%s with %#v", f, q)
			}
		}
	}
}
