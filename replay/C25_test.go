//go:build go1.21

package main

//replay:use fill_test.go ofxmain_test.go

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

// follow finds the parts in the text, in any order, within one transaction's
// part of it, and returns what comes after.
func (f *follower) follow(what string, parts ...string) {
	end := 0
	for _, p := range parts {
		k := strings.Index(f.text, p)
		if k < 0 {
			failing(f.t, "not printed: %s (%q) in %q; response %q", what, p, f.all, f.doc)
			return
		}
		if k+len(p) > end {
			end = k + len(p)
		}
	}
	f.text = f.text[end:]
}

type follower struct {
	t              *testing.T
	text, all, doc string
}

// upTo is the text up to the next line
func (f *follower) line(what, first string, parts ...string) {
	k := strings.Index(f.text, first)
	if k < 0 {
		failing(f.t, "not printed: %s (%q) in %q; response %q", what, first, f.all, f.doc)
		return
	}
	l := f.text[k:]
	if e := strings.IndexByte(l, '\n'); e >= 0 {
		l = l[:e]
	}
	for _, p := range parts {
		if !strings.Contains(l, p) {
			// perhaps a date occurs twice: look at the next one
			g := *f
			g.text = f.text[k+len(first):]
			if strings.Contains(g.text, first) {
				g.line(what, first, parts...)
				f.text = g.text
				return
			}
			failing(f.t, "not printed: %s (%q, line %q) in %q; response %q", what, p, l, f.all, f.doc)
			return
		}
	}
	f.text = f.text[k+len(l):]
}

func (f *follower) transactions(def ofxgo.CurrSymbol, l []ofxgo.Transaction) {
	for i := range l {
		x := &l[i]
		c, name := def, string(x.Name)
		if x.Currency != nil {
			c = x.Currency.CurSym
		}
		if name == "" && x.Payee != nil {
			name = string(x.Payee.Name)
		}
		f.line(fmt.Sprintf("transaction %d", i), x.DtPosted.String(), x.TrnAmt.String(), c.String(), x.TrnType.String(), name, string(x.Memo))
	}
}

func c25spoil(rnd *rand.Rand, v reflect.Value, field string) {
	optional := strings.HasPrefix(v.Type().String(), "*") || field == "Name" || field == "Memo" || field == "Desc"
	if optional && v.CanSet() && rnd.Intn(2) == 0 {
		v.Set(reflect.Zero(v.Type()))
		return
	}
	if v.Type() == reflect.TypeOf(ofxgo.Currency{}) && rnd.Intn(2) == 0 {
		v.Set(reflect.Zero(v.Type()))
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		switch v.Type().String() {
		case "xml.Name", "time.Time", "big.Rat", "currency.Unit", "ofxgo.Amount", "ofxgo.Date":
			return
		}
		for i := 0; i < v.NumField(); i++ {
			c25spoil(rnd, v.Field(i), v.Type().Field(i).Name)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			c25spoil(rnd, v.Elem(), "")
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			c25spoil(rnd, v.Index(i), "")
		}
	}
}

func c25text(t *testing.T, rnd *rand.Rand, v interface{}) string {
	rv := reflect.New(reflect.TypeOf(v)).Elem()
	f := &filler{rnd: rnd, mode: 0}
	f.text = func() string { return randText(rnd) }
	f.fill(rv)
	for i := 0; i < rv.NumField(); i++ {
		c25spoil(rnd, rv.Field(i), rv.Type().Field(i).Name)
	}
	b, err := xml.Marshal(rv.Addr().Interface())
	if err != nil {
		t.Fatalf("marshalling %T: %v", v, err)
	}
	return string(b)
}

func TestReplayC25(t *testing.T) {
	if !inChild(t, "C25") {
		return
	}
	rnd := newRand()
	accepted := map[string]int{}
	kinds := implementations[reflect.TypeOf((*ofxgo.InvTransaction)(nil)).Elem()]
	date := func() string {
		return fmt.Sprintf("20%02d%02d%02d120000[0:GMT]", rnd.Intn(40), 1+rnd.Intn(12), 1+rnd.Intn(28))
	}
	status := "<STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS>"
	for i := 0; i < rounds(4000, 40000); i++ {
		kind := rnd.Intn(4)
		body, list := "", ""
		trans := func(n int) string {
			s := ""
			for ; n > 0; n-- {
				s += c25text(t, rnd, ofxgo.Transaction{})
			}
			return s
		}
		if rnd.Intn(5) > 0 {
			list = "<BANKTRANLIST><DTSTART>20200101</DTSTART><DTEND>20200202</DTEND>" + trans(rnd.Intn(4)) + "</BANKTRANLIST>"
		}
		bal := fmt.Sprintf("<LEDGERBAL><BALAMT>%d.%02d</BALAMT><DTASOF>%s</DTASOF></LEDGERBAL>", rnd.Intn(10000), rnd.Intn(100), date())
		trn := "<TRNUID>1</TRNUID>" + status
		switch kind {
		case 0:
			body = "<SIGNUPMSGSRSV1><ACCTINFOTRNRS>" + trn + "<ACCTINFORS><DTACCTUP>20200101</DTACCTUP>"
			for n := rnd.Intn(5); n > 0; n-- {
				body += c25text(t, rnd, ofxgo.AcctInfo{})
			}
			body += "</ACCTINFORS></ACCTINFOTRNRS></SIGNUPMSGSRSV1>"
		case 1:
			body = "<BANKMSGSRSV1><STMTTRNRS>" + trn + "<STMTRS><CURDEF>USD</CURDEF><BANKACCTFROM><BANKID>1</BANKID><ACCTID>2</ACCTID><ACCTTYPE>CHECKING</ACCTTYPE></BANKACCTFROM>" + list + bal + "</STMTRS></STMTTRNRS></BANKMSGSRSV1>"
		case 2:
			body = "<CREDITCARDMSGSRSV1><CCSTMTTRNRS>" + trn + "<CCSTMTRS><CURDEF>EUR</CURDEF><CCACCTFROM><ACCTID>2</ACCTID></CCACCTFROM>" + list + bal + "</CCSTMTRS></CCSTMTTRNRS></CREDITCARDMSGSRSV1>"
		case 3:
			body = "<INVSTMTMSGSRSV1><INVSTMTTRNRS>" + trn + "<INVSTMTRS><DTASOF>" + date() + "</DTASOF><CURDEF>GBP</CURDEF><INVACCTFROM><BROKERID>1</BROKERID><ACCTID>2</ACCTID></INVACCTFROM>"
			if rnd.Intn(5) > 0 {
				body += "<INVTRANLIST><DTSTART>20200101</DTSTART><DTEND>20200202</DTEND>"
				for n := rnd.Intn(8); n > 0; n-- {
					if rnd.Intn(4) == 0 {
						body += "<INVBANKTRAN>" + trans(rnd.Intn(3)) + "<SUBACCTFUND>CASH</SUBACCTFUND></INVBANKTRAN>"
					} else {
						body += c25text(t, rnd, kinds[rnd.Intn(len(kinds))])
					}
				}
				body += "</INVTRANLIST>"
			}
			if rnd.Intn(3) > 0 {
				body += fmt.Sprintf("<INVBAL><AVAILCASH>%d</AVAILCASH><MARGINBALANCE>1</MARGINBALANCE><SHORTBALANCE>2</SHORTBALANCE></INVBAL>", rnd.Intn(3)-1)
			}
			body += "</INVSTMTRS></INVSTMTTRNRS></INVSTMTMSGSRSV1>"
		}
		if rnd.Intn(30) == 0 {
			body = "" // nothing but the signon
		}
		doc := `<?xml version="1.0" encoding="UTF-8" standalone="no"?>` + "\n" + `<?OFX OFXHEADER="200" VERSION="220" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>` + "\n" +
			"<OFX><SIGNONMSGSRSV1><SONRS>" + status + "<DTSERVER>20200101</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1>" + body + "</OFX>"
		r, err := ofxgo.ParseResponse(strings.NewReader(doc))
		if err != nil {
			accepted["refused"]++
			if kind == 3 && accepted["refused"] < 3 {
				t.Log(err, doc)
			}
			continue
		}
		accepted[fmt.Sprint(kind)]++
		cases++
		do := []func(){getAccounts, bankTransactions, ccTransactions, invTransactions}[kind]
		serverURL, username, password, ofxVersion, acctType, dryrun = "https://localhost/ofx", "u", "p", "203", "CHECKING", false
		bankID, acctID, brokerID, appID, appVer = "1", "2", "3", "QWIN", "2400"
		note(doc)
		answer(200, doc)
		text, crash := printed(do)
		if crash != nil {
			failing(t, "crash: %v on response %q", crash, doc)
			continue
		}
		f := &follower{t: t, text: text, all: text, doc: doc}
		switch kind {
		case 0:
			for _, m := range r.Signup {
				for _, a := range m.(*ofxgo.AcctInfoResponse).AcctInfo {
					switch {
					case a.BankAcctInfo != nil:
						x := a.BankAcctInfo.BankAcctFrom
						f.follow("bank account", string(x.BankID), string(x.AcctID), x.AcctType.String())
					case a.CCAcctInfo != nil:
						f.follow("card account", string(a.CCAcctInfo.CCAcctFrom.AcctID))
					case a.InvAcctInfo != nil:
						x := a.InvAcctInfo.InvAcctFrom
						f.follow("investment account", string(x.BrokerID), string(x.AcctID))
					default:
						f.follow("account", string(a.Name), string(a.Desc))
					}
				}
			}
		case 1:
			for _, m := range r.Bank {
				x := m.(*ofxgo.StatementResponse)
				f.line("balance", x.BalAmt.String(), x.CurDef.String(), x.DtAsOf.String())
				if x.BankTranList != nil {
					f.transactions(x.CurDef, x.BankTranList.Transactions)
				}
			}
		case 2:
			for _, m := range r.CreditCard {
				x := m.(*ofxgo.CCStatementResponse)
				f.line("balance", x.BalAmt.String(), x.CurDef.String(), x.DtAsOf.String())
				if x.BankTranList != nil {
					f.transactions(x.CurDef, x.BankTranList.Transactions)
				}
			}
		case 3:
			for _, m := range r.InvStmt {
				x := m.(*ofxgo.InvStatementResponse)
				if x.InvBal != nil && x.InvBal.AvailCash.Sign() != 0 {
					f.line("balance", x.InvBal.AvailCash.String(), x.CurDef.String(), x.DtAsOf.String())
				}
				if x.InvTranList == nil {
					continue
				}
				for _, b := range x.InvTranList.BankTransactions {
					f.follow("subaccount", b.SubAcctFund.String())
					f.transactions(x.CurDef, b.Transactions)
				}
				for _, y := range x.InvTranList.InvTransactions {
					f.line(fmt.Sprintf("%#v", y), y.TransactionType(), c25parts(x.CurDef, reflect.ValueOf(y))...)
				}
			}
		}
	}
	t.Log(accepted)
	for _, k := range []string{"0", "1", "2", "3"} {
		if accepted[k] < 100 && failures == 0 {
			t.Logf("too few responses of kind %s are accepted", k)
		}
	}
}

// c25parts are the texts which have to be printed of an investment transaction.
func c25parts(def ofxgo.CurrSymbol, v reflect.Value) (l []string) {
	c := def
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch n := v.Type().Field(i).Name; n {
			case "InvBuy", "InvSell", "InvTran", "SecID":
				walk(f)
			case "Currency":
				if x := f.Interface().(ofxgo.Currency); true {
					if ok, _ := x.Valid(); ok {
						c = x.CurSym
					}
				}
			case "DtTrade", "OptAction", "IncomeType", "SubAcctTo", "TferAction", "OldUnits", "NewUnits", "FracCash":
				l = append(l, fmt.Sprint(f.Interface()))
			case "UniqueID", "UniqueIDType", "Units", "UnitPrice", "Total", "Numerator", "Denominator":
				l = append(l, fmt.Sprint(f.Interface()))
			}
		}
	}
	walk(v)
	if v.Type().Name() == "Reinvest" {
		l = nil
		i := v.Interface().(ofxgo.Reinvest)
		return append(l, i.InvTran.DtTrade.String(), i.Units.String(), string(i.SecID.UniqueID), i.UnitPrice.String(), i.Total.String(), c.String())
	}
	switch v.Type().Name() {
	case "ClosureOpt":
		i := v.Interface().(ofxgo.ClosureOpt)
		return []string{i.InvTran.DtTrade.String(), i.OptAction.String(), i.Units.String(), fmt.Sprint(i.ShPerCtrct)}
	case "JrnlSec", "JrnlFund":
		l = append(l, fmt.Sprint(v.FieldByName("SubAcctFrom").Interface()))
		if v.Type().Name() == "JrnlFund" {
			l = append(l, def.String())
		}
		return l
	case "Transfer":
		i := v.Interface().(ofxgo.Transfer)
		return []string{i.InvTran.DtTrade.String(), i.Units.String(), string(i.SecID.UniqueID), string(i.SecID.UniqueIDType), i.TferAction.String()}
	}
	return append(l, c.String())
}
