SEEDS = [
dict(name='c02-int-base', property='C02', needs='an integer with leading zeros (such as a zero-padded SIC or status code)',
 breaks='Integers are read with the base guessed from their prefix, so 010 becomes 8 and 0x1F is accepted.',
 edits=[('types.go', 'strconv.ParseInt(value, 10, 64)', 'strconv.ParseInt(strings.TrimPrefix(value, "+"), 0, 64)')],
 demo='''
package ofxgo_test

import (
	"testing"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

func TestSeedDemo(t *testing.T) {
	for s, want := range map[string]int64{"12": 12, "0010": 10, "-007": -7, "0": 0, "+42": 42} {
		var i ofxgo.Int
		if err := xml.Unmarshal([]byte("<SIC> "+s+"\\n</SIC>"), &i); err != nil || int64(i) != want {
			t.Errorf("%q read as %d, %v", s, i, err)
		}
	}
}
'''),
dict(name='c05-rate-order', property='C05', needs='a currency symbol which cannot be parsed, read into a symbol which already has a value',
 breaks='A failed read of a currency symbol clears the symbol it should have left alone.',
 edits=[('types.go', '''	unit, err := currency.ParseISO(value)
	if err != nil {
		return errors.New("Error parsing CurrSymbol:" + err.Error())
	}
	c.Unit = unit
	return nil''', '''	c.Unit, err = currency.ParseISO(value)
	if err != nil {
		return errors.New("Error parsing CurrSymbol:" + err.Error())
	}
	return nil''')],
 demo='''
package ofxgo_test

import (
	"testing"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

func TestSeedDemo(t *testing.T) {
	c, err := ofxgo.NewCurrSymbol("EUR")
	if err != nil {
		t.Fatal(err)
	}
	if err := xml.Unmarshal([]byte("<CURSYM>E$R</CURSYM>"), c); err == nil {
		t.Fatal("accepted E$R")
	}
	if c.String() != "EUR" {
		t.Fatalf("failed read left %s", c)
	}
}
'''),
dict(name='c06-cr-version', property='C06', needs='carriage returns asked for together with an XML version (200 or later)',
 breaks='The line of the OFX processing instruction ends in a bare line feed from version 2.10 on although carriage returns are asked for.',
 edits=[('common.go', '''SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>`)
		if carriageReturn {''', '''SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>`)
		if carriageReturn && v < OfxVersion210 {''')],
 demo='''
package ofxgo_test

import (
	"bytes"
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestSeedDemo(t *testing.T) {
	for _, v := range []string{"102", "160", "203", "210", "211", "220"} {
		var q ofxgo.Request
		q.Signon.UserID, q.Signon.UserPass = "u", "p"
		spec, _ := ofxgo.NewOfxVersion(v)
		q.SetClientFields(&ofxgo.BasicClient{SpecVersion: spec, CarriageReturn: true})
		b, err := q.Marshal()
		if err != nil {
			t.Fatal(err)
		}
		head := b.Bytes()[:bytes.Index(b.Bytes(), []byte("<OFX>"))]
		if bytes.Count(head, []byte("\\n")) != bytes.Count(head, []byte("\\r\\n")) {
			t.Errorf("%s: %q", v, head)
		}
	}
}
'''),
dict(name='c14-split-currency', property='C14', needs='a transaction with both currencies where only one of them is complete',
 breaks='A transaction with an incomplete CURRENCY next to a valid ORIGCURRENCY is rejected.',
 edits=[('bank.go', '''	var ok1, ok2 bool
	if t.Currency != nil {
		ok1, _ = t.Currency.Valid()
	}
	if t.OrigCurrency != nil {
		ok2, _ = t.OrigCurrency.Valid()
	}
	if ok1 && ok2 {
		return false, errors.New("Currency and OrigCurrency both supplied for Pending Transaction, only one allowed")
	}
	return true, nil
}

// TransactionList represents''', '''	ok1, ok2 := t.Currency != nil, false
	if t.OrigCurrency != nil {
		ok2, _ = t.OrigCurrency.Valid()
	}
	if ok1 && ok2 {
		return false, errors.New("Currency and OrigCurrency both supplied for Pending Transaction, only one allowed")
	}
	return true, nil
}

// TransactionList represents''')],
 demo='''
package ofxgo_test

import (
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestSeedDemo(t *testing.T) {
	eur, _ := ofxgo.NewCurrSymbol("EUR")
	full := ofxgo.Currency{CurSym: *eur}
	full.CurRate.SetInt64(2)
	part := ofxgo.Currency{CurSym: *eur}
	x := ofxgo.Transaction{TrnType: ofxgo.TrnTypeCheck, DtPosted: *ofxgo.NewDateGMT(2006, 3, 15, 0, 0, 0, 0), FiTID: "1", Currency: &part, OrigCurrency: &full}
	if ok, err := x.Valid(ofxgo.OfxVersion203); !ok {
		t.Fatal(err)
	}
	x.Currency = &full
	if ok, _ := x.Valid(ofxgo.OfxVersion203); ok {
		t.Fatal("two valid currencies accepted")
	}
}
'''),
dict(name='c14-last-transaction', property='C14', needs='a list of at least two transactions where only a later one is invalid',
 breaks='A transaction list is judged by its first transaction of each type only: later invalid ones of the same type go unnoticed.',
 edits=[('bank.go', '''	for _, t := range l.Transactions {
		if ok, err := t.Valid(version); !ok {
			return false, err
		}
	}

	return true, nil
}

// PendingTransaction ''', '''	checked := make(map[trnType]bool)
	for _, t := range l.Transactions {
		if checked[t.TrnType] {
			continue
		}
		checked[t.TrnType] = true
		if ok, err := t.Valid(version); !ok {
			return false, err
		}
	}

	return true, nil
}

// PendingTransaction ''')],
 demo='''
package ofxgo_test

import (
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestSeedDemo(t *testing.T) {
	d := *ofxgo.NewDateGMT(2006, 3, 15, 0, 0, 0, 0)
	good := ofxgo.Transaction{TrnType: ofxgo.TrnTypeCheck, DtPosted: d, FiTID: "1"}
	bad := good
	bad.FiTID = ""
	l := ofxgo.TransactionList{DtStart: d, DtEnd: d, Transactions: []ofxgo.Transaction{good, bad}}
	if ok, err := l.Valid(ofxgo.OfxVersion203); ok || err == nil {
		t.Fatal("list with an invalid second transaction is valid")
	}
}
'''),
dict(name='c15-language-key', property='C15', needs='a sign-on with a user key instead of a password and a language of the wrong length',
 breaks='The length of the language is not checked when the sign-on uses a key.',
 edits=[('signon.go', '} else if len(r.Language) != 3 {\n\t\treturn false, fmt.Errorf("SONRQ', '} else if len(r.Language) != 3 && len(r.UserKey) == 0 {\n\t\treturn false, fmt.Errorf("SONRQ')],
 demo='''
package ofxgo_test

import (
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestSeedDemo(t *testing.T) {
	r := ofxgo.SignonRequest{UserID: "u", UserKey: "k", Language: "EN", AppID: "A", AppVer: "1"}
	if ok, err := r.Valid(ofxgo.OfxVersion203); ok || err == nil {
		t.Fatal("two-letter language accepted")
	}
	r.Language = ""
	if ok, err := r.Valid(ofxgo.OfxVersion203); !ok || err != nil || r.Language != "ENG" {
		t.Fatal(ok, err, r.Language)
	}
}
'''),
dict(name='c16-severity-class', property='C16', needs='one of the few status codes whose class and severity do not go together, with the other severity',
 breaks='INFO is accepted where WARN is listed.',
 edits=[('common.go', 'if arr[1] != string(s.Severity) {', 'if arr[1] != string(s.Severity) && !(arr[1] == "WARN" && s.Severity == "INFO") {')],
 demo='''
package ofxgo_test

import (
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestSeedDemo(t *testing.T) {
	s := ofxgo.Status{Code: 12250, Severity: "INFO"}
	if ok, err := s.Valid(); ok || err == nil {
		t.Fatal("12250 with severity INFO is valid")
	}
	s.Severity = "WARN"
	if ok, err := s.Valid(); !ok || err != nil {
		t.Fatal(err)
	}
}
'''),
dict(name='c17-short-read', property='C17', needs='a random source whose bytes 8 to 15 matter: two identifiers which differ only there',
 breaks='The last group of a generated identifier repeats bytes of earlier groups, so six of the sixteen random bytes are never used.',
 edits=[('types.go', 'uidbytes[8:10], uidbytes[10:])', 'uidbytes[8:10], uidbytes[4:10])')],
 demo='''
package ofxgo_test

import (
	"crypto/rand"
	"testing"

	"github.com/aclindsa/ofxgo"
)

type counting byte

func (c *counting) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(*c)
		*c++
	}
	return len(p), nil
}

func TestSeedDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = new(counting)
	u, err := ofxgo.RandomUID()
	if err != nil || *u != "00010203-0405-0607-0809-0a0b0c0d0e0f" {
		t.Fatal(*u, err)
	}
}
'''),
dict(name='c29-avail-date', property='C29', needs='a statement response from before version 2.2 with a pending list, or one with an available balance date but no available balance together with transactions',
 breaks='Whether the available balance has both amount and date is only checked when the statement holds no transaction list.',
 edits=[('bank.go', '} else if (sr.AvailBalAmt == nil) != (sr.AvailDtAsOf == nil) {', '} else if sr.BankTranList == nil && (sr.AvailBalAmt == nil) != (sr.AvailDtAsOf == nil) {')],
 demo='''
package ofxgo_test

import (
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestSeedDemo(t *testing.T) {
	usd, _ := ofxgo.NewCurrSymbol("USD")
	d := *ofxgo.NewDateGMT(2006, 3, 15, 0, 0, 0, 0)
	s := ofxgo.StatementResponse{
		TrnUID: "1", Status: ofxgo.Status{Code: 0, Severity: "INFO"}, CurDef: *usd, DtAsOf: d,
		BankAcctFrom: ofxgo.BankAcct{BankID: "1", AcctID: "2", AcctType: ofxgo.AcctTypeCD},
		BankTranList: &ofxgo.TransactionList{DtStart: d, DtEnd: d},
	}
	if ok, err := s.Valid(ofxgo.OfxVersion203); !ok {
		t.Fatal(err)
	}
	s.AvailDtAsOf = &d
	if ok, err := s.Valid(ofxgo.OfxVersion203); ok || err == nil {
		t.Fatal("available balance date without amount accepted")
	}
}
'''),
dict(name='c13-income-settle', property='C13', needs='an income transaction without a settlement date',
 breaks='The generic part reported for an income transaction claims it settled on its trade date when no settlement date was given.',
 edits=[('invstmt.go', '''func (t Income) InvTransaction() InvTran {
	return t.InvTran
}''', '''func (t Income) InvTransaction() InvTran {
	tran := t.InvTran
	if tran.DtSettle == nil {
		tran.DtSettle = &t.InvTran.DtTrade
	}
	return tran
}''')],
 demo='''
package ofxgo_test

import (
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestSeedDemo(t *testing.T) {
	d := *ofxgo.NewDateGMT(2006, 3, 15, 0, 0, 0, 0)
	x := ofxgo.Income{InvTran: ofxgo.InvTran{FiTID: "1", DtTrade: d, Memo: "m"}}
	var i ofxgo.InvTransaction = x
	if g := i.InvTransaction(); g.DtSettle != nil || g.FiTID != "1" || g.Memo != "m" {
		t.Fatal(g)
	}
	x.InvTran.DtSettle = &d
	if g := x.InvTransaction(); g.DtSettle != &d {
		t.Fatal(g)
	}
}
'''),
dict(name='c01-fold', property='C01', needs='an enumeration value spelled in lower or mixed case',
 breaks='Loan payment frequencies are accepted in any mix of cases.',
 edits=[('constants.go', '''	for i, s := range loanPmtFreqs {
		if s == value {''', '''	for i, s := range loanPmtFreqs {
		if strings.EqualFold(s, value) {''')],
 demo='''
package ofxgo_test

import (
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestSeedDemo(t *testing.T) {
	if v, err := ofxgo.NewLoanPmtFreq("WEEKLY"); err != nil || v.String() != "WEEKLY" {
		t.Fatal(v, err)
	}
	if v, err := ofxgo.NewLoanPmtFreq("Weekly"); err == nil {
		t.Fatal("accepted Weekly as", v)
	}
}
'''),
]
