package ofxgo_test

// Generated by tools/mkc01.py from tools/enums.json.

import (
	"fmt"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

type c01Value interface {
	Valid() bool
	String() string
}

func c01XML(v interface{}) (string, error) {
	b, err := xml.Marshal(v)
	return string(b), err
}

func TestReplayC01(t *testing.T) {
	ws := []string{"", " ", "\n", "\t \r\n", "  "}
	check := func(name, what string, ok bool) {
		if !ok {
			failing(t, "%s: %s", name, what)
		}
	}
	var texts []string
	seenText := map[string]bool{}
	addText := func(s string) {
		for _, v := range []string{s, strings.ToLower(s), s + "X", "X" + s, s[:len(s)-1], s + " " + s, s[:1] + " " + s[1:], strings.Title(strings.ToLower(s))} {
			if !seenText[v] {
				seenText[v] = true
				texts = append(texts, v)
			}
		}
	}
	_ = fmt.Sprint

	for _, s := range []string{"102", "103", "151", "160", "200", "201", "202", "203", "210", "211", "220", "401K", "403B", "ACTIVE", "AFTERTAX", "ALLORNONE", "ALPHAANDNUMERIC", "ALPHAONLY", "ALPHAORNUMERIC", "ANNUAL", "ANNUALLY", "ASSIGN", "ATM", "AVAIL", "BACKONLY", "BIMONTHLY", "BIWEEKLY", "BUSINESS", "BUY", "BUYTOCLOSE", "BUYTOCOVER", "BUYTOOPEN", "CALL", "CASH", "CD", "CGLONG", "CGSHORT", "CHECK", "CHECKING", "CLOSEEND", "COMMON", "CONVERTIBLE", "CORPORATE", "COUPON", "COVERED", "CREDIT", "CREDITLINE", "CURRENCY", "CUSTODIAL", "DAY", "DEBIT", "DELETE", "DEP", "DIRECTDEBIT", "DIRECTDEP", "DIV", "DOLLAR", "DOMESTICBOND", "EXERCISE", "EXPIRE", "FEE", "FORMURL", "FOURWEEKS", "FRONTANDBACK", "FRONTONLY", "FULL", "GOODTILCANCEL", "HOLD", "IMMEDIATE", "IN", "INDIVIDUAL", "INT", "INTEREST", "INTLBOND", "INTLSTOCK", "IRA", "JOINT", "KEOGH", "LARGESTOCK", "LITE", "LONG", "MARGIN", "MATCH", "MATURITY", "MINUNITS", "MISC", "MONEYMRKT", "MONTHLY", "MUNICIPAL", "NAKED", "NONE", "NORMAL", "NUMBER", "NUMERICONLY", "OPAQUE", "OPENEND", "OTHER", "OTHERNONVEST", "OTHERVEST", "OUT", "PAYMENT", "PEND", "PERCENT", "PERSONAL", "POS", "PREFERRED", "PREFUND", "PRETAX", "PROFITSHARING", "PUT", "QUARTERLY", "REPEATPMT", "REPLACE", "ROLLOVER", "SARSEP", "SAVINGS", "SELL", "SELLSHORT", "SELLTOCLOSE", "SELLTOOPEN", "SEMIANNUAL", "SEMIANNUALLY", "SHARES", "SHORT", "SIMPLE", "SMALLSTOCK", "SPREAD", "SRVCHG", "STATEMENT", "STRADDLE", "TAX", "TDA", "TRANSACTION", "TREASURY", "TRUST", "TWICEMONTHLY", "TYPE 1", "UGMA", "URL", "WEEKLY", "XFER", "ZERO"} {
		addText(s)
	}
	addText("0")
	addText("1")
	// OfxVersion
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.OfxVersion102)], value["102"] = "102", int(ofxgo.OfxVersion102)
		spell[int(ofxgo.OfxVersion103)], value["103"] = "103", int(ofxgo.OfxVersion103)
		spell[int(ofxgo.OfxVersion151)], value["151"] = "151", int(ofxgo.OfxVersion151)
		spell[int(ofxgo.OfxVersion160)], value["160"] = "160", int(ofxgo.OfxVersion160)
		spell[int(ofxgo.OfxVersion200)], value["200"] = "200", int(ofxgo.OfxVersion200)
		spell[int(ofxgo.OfxVersion201)], value["201"] = "201", int(ofxgo.OfxVersion201)
		spell[int(ofxgo.OfxVersion202)], value["202"] = "202", int(ofxgo.OfxVersion202)
		spell[int(ofxgo.OfxVersion203)], value["203"] = "203", int(ofxgo.OfxVersion203)
		spell[int(ofxgo.OfxVersion210)], value["210"] = "210", int(ofxgo.OfxVersion210)
		spell[int(ofxgo.OfxVersion211)], value["211"] = "211", int(ofxgo.OfxVersion211)
		spell[int(ofxgo.OfxVersion220)], value["220"] = "220", int(ofxgo.OfxVersion220)
		for i := 0; i <= 70; i++ {
			e := ofxgo.OfxVersion102
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.OfxVersion102 * ofxgo.OfxVersion102
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("OfxVersion", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("OfxVersion", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("OfxVersion", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("OfxVersion", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewOfxVersion(in)
				check("OfxVersion", fmt.Sprintf("NewOfxVersion(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.OfxVersion220
				err = u.FromString(in)
				check("OfxVersion", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.OfxVersion220
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("OfxVersion", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// AcctType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.AcctTypeChecking)], value["CHECKING"] = "CHECKING", int(ofxgo.AcctTypeChecking)
		spell[int(ofxgo.AcctTypeSavings)], value["SAVINGS"] = "SAVINGS", int(ofxgo.AcctTypeSavings)
		spell[int(ofxgo.AcctTypeMoneyMrkt)], value["MONEYMRKT"] = "MONEYMRKT", int(ofxgo.AcctTypeMoneyMrkt)
		spell[int(ofxgo.AcctTypeCreditLine)], value["CREDITLINE"] = "CREDITLINE", int(ofxgo.AcctTypeCreditLine)
		spell[int(ofxgo.AcctTypeCD)], value["CD"] = "CD", int(ofxgo.AcctTypeCD)
		for i := 0; i <= 70; i++ {
			e := ofxgo.AcctTypeChecking
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.AcctTypeChecking * ofxgo.AcctTypeChecking
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("AcctType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("AcctType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("AcctType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("AcctType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewAcctType(in)
				check("AcctType", fmt.Sprintf("NewAcctType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.AcctTypeCD
				err = u.FromString(in)
				check("AcctType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.AcctTypeCD
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("AcctType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// TrnType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.TrnTypeCredit)], value["CREDIT"] = "CREDIT", int(ofxgo.TrnTypeCredit)
		spell[int(ofxgo.TrnTypeDebit)], value["DEBIT"] = "DEBIT", int(ofxgo.TrnTypeDebit)
		spell[int(ofxgo.TrnTypeInt)], value["INT"] = "INT", int(ofxgo.TrnTypeInt)
		spell[int(ofxgo.TrnTypeDiv)], value["DIV"] = "DIV", int(ofxgo.TrnTypeDiv)
		spell[int(ofxgo.TrnTypeFee)], value["FEE"] = "FEE", int(ofxgo.TrnTypeFee)
		spell[int(ofxgo.TrnTypeSrvChg)], value["SRVCHG"] = "SRVCHG", int(ofxgo.TrnTypeSrvChg)
		spell[int(ofxgo.TrnTypeDep)], value["DEP"] = "DEP", int(ofxgo.TrnTypeDep)
		spell[int(ofxgo.TrnTypeATM)], value["ATM"] = "ATM", int(ofxgo.TrnTypeATM)
		spell[int(ofxgo.TrnTypePOS)], value["POS"] = "POS", int(ofxgo.TrnTypePOS)
		spell[int(ofxgo.TrnTypeXfer)], value["XFER"] = "XFER", int(ofxgo.TrnTypeXfer)
		spell[int(ofxgo.TrnTypeCheck)], value["CHECK"] = "CHECK", int(ofxgo.TrnTypeCheck)
		spell[int(ofxgo.TrnTypePayment)], value["PAYMENT"] = "PAYMENT", int(ofxgo.TrnTypePayment)
		spell[int(ofxgo.TrnTypeCash)], value["CASH"] = "CASH", int(ofxgo.TrnTypeCash)
		spell[int(ofxgo.TrnTypeDirectDep)], value["DIRECTDEP"] = "DIRECTDEP", int(ofxgo.TrnTypeDirectDep)
		spell[int(ofxgo.TrnTypeDirectDebit)], value["DIRECTDEBIT"] = "DIRECTDEBIT", int(ofxgo.TrnTypeDirectDebit)
		spell[int(ofxgo.TrnTypeRepeatPmt)], value["REPEATPMT"] = "REPEATPMT", int(ofxgo.TrnTypeRepeatPmt)
		spell[int(ofxgo.TrnTypeHold)], value["HOLD"] = "HOLD", int(ofxgo.TrnTypeHold)
		spell[int(ofxgo.TrnTypeOther)], value["OTHER"] = "OTHER", int(ofxgo.TrnTypeOther)
		for i := 0; i <= 70; i++ {
			e := ofxgo.TrnTypeCredit
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.TrnTypeCredit * ofxgo.TrnTypeCredit
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("TrnType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("TrnType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("TrnType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("TrnType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewTrnType(in)
				check("TrnType", fmt.Sprintf("NewTrnType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.TrnTypeOther
				err = u.FromString(in)
				check("TrnType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.TrnTypeOther
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("TrnType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// ImageType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.ImageTypeStatement)], value["STATEMENT"] = "STATEMENT", int(ofxgo.ImageTypeStatement)
		spell[int(ofxgo.ImageTypeTransaction)], value["TRANSACTION"] = "TRANSACTION", int(ofxgo.ImageTypeTransaction)
		spell[int(ofxgo.ImageTypeTax)], value["TAX"] = "TAX", int(ofxgo.ImageTypeTax)
		for i := 0; i <= 70; i++ {
			e := ofxgo.ImageTypeStatement
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.ImageTypeStatement * ofxgo.ImageTypeStatement
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("ImageType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("ImageType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("ImageType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("ImageType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewImageType(in)
				check("ImageType", fmt.Sprintf("NewImageType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.ImageTypeTax
				err = u.FromString(in)
				check("ImageType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.ImageTypeTax
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("ImageType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// ImageRefType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.ImageRefTypeOpaque)], value["OPAQUE"] = "OPAQUE", int(ofxgo.ImageRefTypeOpaque)
		spell[int(ofxgo.ImageRefTypeURL)], value["URL"] = "URL", int(ofxgo.ImageRefTypeURL)
		spell[int(ofxgo.ImageRefTypeFormURL)], value["FORMURL"] = "FORMURL", int(ofxgo.ImageRefTypeFormURL)
		for i := 0; i <= 70; i++ {
			e := ofxgo.ImageRefTypeOpaque
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.ImageRefTypeOpaque * ofxgo.ImageRefTypeOpaque
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("ImageRefType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("ImageRefType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("ImageRefType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("ImageRefType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewImageRefType(in)
				check("ImageRefType", fmt.Sprintf("NewImageRefType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.ImageRefTypeFormURL
				err = u.FromString(in)
				check("ImageRefType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.ImageRefTypeFormURL
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("ImageRefType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// CheckSup
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.CheckSupFrontOnly)], value["FRONTONLY"] = "FRONTONLY", int(ofxgo.CheckSupFrontOnly)
		spell[int(ofxgo.CheckSupBackOnly)], value["BACKONLY"] = "BACKONLY", int(ofxgo.CheckSupBackOnly)
		spell[int(ofxgo.CheckSupFrontAndBack)], value["FRONTANDBACK"] = "FRONTANDBACK", int(ofxgo.CheckSupFrontAndBack)
		for i := 0; i <= 70; i++ {
			e := ofxgo.CheckSupFrontOnly
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.CheckSupFrontOnly * ofxgo.CheckSupFrontOnly
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("CheckSup", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("CheckSup", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("CheckSup", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("CheckSup", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewCheckSup(in)
				check("CheckSup", fmt.Sprintf("NewCheckSup(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.CheckSupFrontAndBack
				err = u.FromString(in)
				check("CheckSup", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.CheckSupFrontAndBack
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("CheckSup", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// CorrectAction
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.CorrectActionDelete)], value["DELETE"] = "DELETE", int(ofxgo.CorrectActionDelete)
		spell[int(ofxgo.CorrectActionReplace)], value["REPLACE"] = "REPLACE", int(ofxgo.CorrectActionReplace)
		for i := 0; i <= 70; i++ {
			e := ofxgo.CorrectActionDelete
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.CorrectActionDelete * ofxgo.CorrectActionDelete
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("CorrectAction", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("CorrectAction", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("CorrectAction", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("CorrectAction", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewCorrectAction(in)
				check("CorrectAction", fmt.Sprintf("NewCorrectAction(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.CorrectActionReplace
				err = u.FromString(in)
				check("CorrectAction", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.CorrectActionReplace
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("CorrectAction", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// BalType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.BalTypeDollar)], value["DOLLAR"] = "DOLLAR", int(ofxgo.BalTypeDollar)
		spell[int(ofxgo.BalTypePercent)], value["PERCENT"] = "PERCENT", int(ofxgo.BalTypePercent)
		spell[int(ofxgo.BalTypeNumber)], value["NUMBER"] = "NUMBER", int(ofxgo.BalTypeNumber)
		for i := 0; i <= 70; i++ {
			e := ofxgo.BalTypeDollar
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.BalTypeDollar * ofxgo.BalTypeDollar
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("BalType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("BalType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("BalType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("BalType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewBalType(in)
				check("BalType", fmt.Sprintf("NewBalType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.BalTypeNumber
				err = u.FromString(in)
				check("BalType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.BalTypeNumber
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("BalType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// Inv401kSource
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.Inv401kSourcePreTax)], value["PRETAX"] = "PRETAX", int(ofxgo.Inv401kSourcePreTax)
		spell[int(ofxgo.Inv401kSourceAfterTax)], value["AFTERTAX"] = "AFTERTAX", int(ofxgo.Inv401kSourceAfterTax)
		spell[int(ofxgo.Inv401kSourceMatch)], value["MATCH"] = "MATCH", int(ofxgo.Inv401kSourceMatch)
		spell[int(ofxgo.Inv401kSourceProfitSharing)], value["PROFITSHARING"] = "PROFITSHARING", int(ofxgo.Inv401kSourceProfitSharing)
		spell[int(ofxgo.Inv401kSourceRollover)], value["ROLLOVER"] = "ROLLOVER", int(ofxgo.Inv401kSourceRollover)
		spell[int(ofxgo.Inv401kSourceOtherVest)], value["OTHERVEST"] = "OTHERVEST", int(ofxgo.Inv401kSourceOtherVest)
		spell[int(ofxgo.Inv401kSourceOtherNonVest)], value["OTHERNONVEST"] = "OTHERNONVEST", int(ofxgo.Inv401kSourceOtherNonVest)
		for i := 0; i <= 70; i++ {
			e := ofxgo.Inv401kSourcePreTax
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.Inv401kSourcePreTax * ofxgo.Inv401kSourcePreTax
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("Inv401kSource", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("Inv401kSource", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("Inv401kSource", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("Inv401kSource", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewInv401kSource(in)
				check("Inv401kSource", fmt.Sprintf("NewInv401kSource(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.Inv401kSourceOtherNonVest
				err = u.FromString(in)
				check("Inv401kSource", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.Inv401kSourceOtherNonVest
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("Inv401kSource", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// SubAcctType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.SubAcctTypeCash)], value["CASH"] = "CASH", int(ofxgo.SubAcctTypeCash)
		spell[int(ofxgo.SubAcctTypeMargin)], value["MARGIN"] = "MARGIN", int(ofxgo.SubAcctTypeMargin)
		spell[int(ofxgo.SubAcctTypeShort)], value["SHORT"] = "SHORT", int(ofxgo.SubAcctTypeShort)
		spell[int(ofxgo.SubAcctTypeOther)], value["OTHER"] = "OTHER", int(ofxgo.SubAcctTypeOther)
		for i := 0; i <= 70; i++ {
			e := ofxgo.SubAcctTypeCash
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.SubAcctTypeCash * ofxgo.SubAcctTypeCash
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("SubAcctType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("SubAcctType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("SubAcctType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("SubAcctType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewSubAcctType(in)
				check("SubAcctType", fmt.Sprintf("NewSubAcctType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.SubAcctTypeOther
				err = u.FromString(in)
				check("SubAcctType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.SubAcctTypeOther
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("SubAcctType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// BuyType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.BuyTypeBuy)], value["BUY"] = "BUY", int(ofxgo.BuyTypeBuy)
		spell[int(ofxgo.BuyTypeBuyToCover)], value["BUYTOCOVER"] = "BUYTOCOVER", int(ofxgo.BuyTypeBuyToCover)
		for i := 0; i <= 70; i++ {
			e := ofxgo.BuyTypeBuy
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.BuyTypeBuy * ofxgo.BuyTypeBuy
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("BuyType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("BuyType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("BuyType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("BuyType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewBuyType(in)
				check("BuyType", fmt.Sprintf("NewBuyType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.BuyTypeBuyToCover
				err = u.FromString(in)
				check("BuyType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.BuyTypeBuyToCover
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("BuyType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// OptAction
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.OptActionExercise)], value["EXERCISE"] = "EXERCISE", int(ofxgo.OptActionExercise)
		spell[int(ofxgo.OptActionAssign)], value["ASSIGN"] = "ASSIGN", int(ofxgo.OptActionAssign)
		spell[int(ofxgo.OptActionExpire)], value["EXPIRE"] = "EXPIRE", int(ofxgo.OptActionExpire)
		for i := 0; i <= 70; i++ {
			e := ofxgo.OptActionExercise
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.OptActionExercise * ofxgo.OptActionExercise
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("OptAction", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("OptAction", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("OptAction", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("OptAction", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewOptAction(in)
				check("OptAction", fmt.Sprintf("NewOptAction(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.OptActionExpire
				err = u.FromString(in)
				check("OptAction", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.OptActionExpire
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("OptAction", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// TferAction
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.TferActionIn)], value["IN"] = "IN", int(ofxgo.TferActionIn)
		spell[int(ofxgo.TferActionOut)], value["OUT"] = "OUT", int(ofxgo.TferActionOut)
		for i := 0; i <= 70; i++ {
			e := ofxgo.TferActionIn
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.TferActionIn * ofxgo.TferActionIn
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("TferAction", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("TferAction", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("TferAction", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("TferAction", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewTferAction(in)
				check("TferAction", fmt.Sprintf("NewTferAction(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.TferActionOut
				err = u.FromString(in)
				check("TferAction", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.TferActionOut
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("TferAction", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// PosType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.PosTypeLong)], value["LONG"] = "LONG", int(ofxgo.PosTypeLong)
		spell[int(ofxgo.PosTypeShort)], value["SHORT"] = "SHORT", int(ofxgo.PosTypeShort)
		for i := 0; i <= 70; i++ {
			e := ofxgo.PosTypeLong
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.PosTypeLong * ofxgo.PosTypeLong
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("PosType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("PosType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("PosType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("PosType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewPosType(in)
				check("PosType", fmt.Sprintf("NewPosType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.PosTypeShort
				err = u.FromString(in)
				check("PosType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.PosTypeShort
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("PosType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// Secured
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.SecuredNaked)], value["NAKED"] = "NAKED", int(ofxgo.SecuredNaked)
		spell[int(ofxgo.SecuredCovered)], value["COVERED"] = "COVERED", int(ofxgo.SecuredCovered)
		for i := 0; i <= 70; i++ {
			e := ofxgo.SecuredNaked
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.SecuredNaked * ofxgo.SecuredNaked
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("Secured", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("Secured", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("Secured", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("Secured", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewSecured(in)
				check("Secured", fmt.Sprintf("NewSecured(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.SecuredCovered
				err = u.FromString(in)
				check("Secured", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.SecuredCovered
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("Secured", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// Duration
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.DurationDay)], value["DAY"] = "DAY", int(ofxgo.DurationDay)
		spell[int(ofxgo.DurationGoodTilCancel)], value["GOODTILCANCEL"] = "GOODTILCANCEL", int(ofxgo.DurationGoodTilCancel)
		spell[int(ofxgo.DurationImmediate)], value["IMMEDIATE"] = "IMMEDIATE", int(ofxgo.DurationImmediate)
		for i := 0; i <= 70; i++ {
			e := ofxgo.DurationDay
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.DurationDay * ofxgo.DurationDay
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("Duration", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("Duration", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("Duration", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("Duration", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewDuration(in)
				check("Duration", fmt.Sprintf("NewDuration(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.DurationImmediate
				err = u.FromString(in)
				check("Duration", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.DurationImmediate
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("Duration", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// Restriction
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.RestrictionAllOrNone)], value["ALLORNONE"] = "ALLORNONE", int(ofxgo.RestrictionAllOrNone)
		spell[int(ofxgo.RestrictionMinUnits)], value["MINUNITS"] = "MINUNITS", int(ofxgo.RestrictionMinUnits)
		spell[int(ofxgo.RestrictionNone)], value["NONE"] = "NONE", int(ofxgo.RestrictionNone)
		for i := 0; i <= 70; i++ {
			e := ofxgo.RestrictionAllOrNone
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.RestrictionAllOrNone * ofxgo.RestrictionAllOrNone
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("Restriction", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("Restriction", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("Restriction", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("Restriction", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewRestriction(in)
				check("Restriction", fmt.Sprintf("NewRestriction(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.RestrictionNone
				err = u.FromString(in)
				check("Restriction", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.RestrictionNone
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("Restriction", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// UnitType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.UnitTypeShares)], value["SHARES"] = "SHARES", int(ofxgo.UnitTypeShares)
		spell[int(ofxgo.UnitTypeCurrency)], value["CURRENCY"] = "CURRENCY", int(ofxgo.UnitTypeCurrency)
		for i := 0; i <= 70; i++ {
			e := ofxgo.UnitTypeShares
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.UnitTypeShares * ofxgo.UnitTypeShares
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("UnitType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("UnitType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("UnitType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("UnitType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewUnitType(in)
				check("UnitType", fmt.Sprintf("NewUnitType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.UnitTypeCurrency
				err = u.FromString(in)
				check("UnitType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.UnitTypeCurrency
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("UnitType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// OptBuyType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.OptBuyTypeBuyToOpen)], value["BUYTOOPEN"] = "BUYTOOPEN", int(ofxgo.OptBuyTypeBuyToOpen)
		spell[int(ofxgo.OptBuyTypeBuyToClose)], value["BUYTOCLOSE"] = "BUYTOCLOSE", int(ofxgo.OptBuyTypeBuyToClose)
		for i := 0; i <= 70; i++ {
			e := ofxgo.OptBuyTypeBuyToOpen
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.OptBuyTypeBuyToOpen * ofxgo.OptBuyTypeBuyToOpen
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("OptBuyType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("OptBuyType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("OptBuyType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("OptBuyType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewOptBuyType(in)
				check("OptBuyType", fmt.Sprintf("NewOptBuyType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.OptBuyTypeBuyToClose
				err = u.FromString(in)
				check("OptBuyType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.OptBuyTypeBuyToClose
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("OptBuyType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// SellType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.SellTypeSell)], value["SELL"] = "SELL", int(ofxgo.SellTypeSell)
		spell[int(ofxgo.SellTypeSellShort)], value["SELLSHORT"] = "SELLSHORT", int(ofxgo.SellTypeSellShort)
		for i := 0; i <= 70; i++ {
			e := ofxgo.SellTypeSell
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.SellTypeSell * ofxgo.SellTypeSell
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("SellType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("SellType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("SellType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("SellType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewSellType(in)
				check("SellType", fmt.Sprintf("NewSellType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.SellTypeSellShort
				err = u.FromString(in)
				check("SellType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.SellTypeSellShort
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("SellType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// LoanPmtFreq
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.LoanPmtFreqWeekly)], value["WEEKLY"] = "WEEKLY", int(ofxgo.LoanPmtFreqWeekly)
		spell[int(ofxgo.LoanPmtFreqBiweekly)], value["BIWEEKLY"] = "BIWEEKLY", int(ofxgo.LoanPmtFreqBiweekly)
		spell[int(ofxgo.LoanPmtFreqTwiceMonthly)], value["TWICEMONTHLY"] = "TWICEMONTHLY", int(ofxgo.LoanPmtFreqTwiceMonthly)
		spell[int(ofxgo.LoanPmtFreqMonthly)], value["MONTHLY"] = "MONTHLY", int(ofxgo.LoanPmtFreqMonthly)
		spell[int(ofxgo.LoanPmtFreqFourWeeks)], value["FOURWEEKS"] = "FOURWEEKS", int(ofxgo.LoanPmtFreqFourWeeks)
		spell[int(ofxgo.LoanPmtFreqBiMonthly)], value["BIMONTHLY"] = "BIMONTHLY", int(ofxgo.LoanPmtFreqBiMonthly)
		spell[int(ofxgo.LoanPmtFreqQuarterly)], value["QUARTERLY"] = "QUARTERLY", int(ofxgo.LoanPmtFreqQuarterly)
		spell[int(ofxgo.LoanPmtFreqSemiannually)], value["SEMIANNUALLY"] = "SEMIANNUALLY", int(ofxgo.LoanPmtFreqSemiannually)
		spell[int(ofxgo.LoanPmtFreqAnnually)], value["ANNUALLY"] = "ANNUALLY", int(ofxgo.LoanPmtFreqAnnually)
		spell[int(ofxgo.LoanPmtFreqOther)], value["OTHER"] = "OTHER", int(ofxgo.LoanPmtFreqOther)
		for i := 0; i <= 70; i++ {
			e := ofxgo.LoanPmtFreqWeekly
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.LoanPmtFreqWeekly * ofxgo.LoanPmtFreqWeekly
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("LoanPmtFreq", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("LoanPmtFreq", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("LoanPmtFreq", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("LoanPmtFreq", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewLoanPmtFreq(in)
				check("LoanPmtFreq", fmt.Sprintf("NewLoanPmtFreq(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.LoanPmtFreqOther
				err = u.FromString(in)
				check("LoanPmtFreq", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.LoanPmtFreqOther
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("LoanPmtFreq", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// IncomeType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.IncomeTypeCGLong)], value["CGLONG"] = "CGLONG", int(ofxgo.IncomeTypeCGLong)
		spell[int(ofxgo.IncomeTypeCGShort)], value["CGSHORT"] = "CGSHORT", int(ofxgo.IncomeTypeCGShort)
		spell[int(ofxgo.IncomeTypeDiv)], value["DIV"] = "DIV", int(ofxgo.IncomeTypeDiv)
		spell[int(ofxgo.IncomeTypeInterest)], value["INTEREST"] = "INTEREST", int(ofxgo.IncomeTypeInterest)
		spell[int(ofxgo.IncomeTypeMisc)], value["MISC"] = "MISC", int(ofxgo.IncomeTypeMisc)
		for i := 0; i <= 70; i++ {
			e := ofxgo.IncomeTypeCGLong
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.IncomeTypeCGLong * ofxgo.IncomeTypeCGLong
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("IncomeType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("IncomeType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("IncomeType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("IncomeType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewIncomeType(in)
				check("IncomeType", fmt.Sprintf("NewIncomeType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.IncomeTypeMisc
				err = u.FromString(in)
				check("IncomeType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.IncomeTypeMisc
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("IncomeType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// SellReason
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.SellReasonCall)], value["CALL"] = "CALL", int(ofxgo.SellReasonCall)
		spell[int(ofxgo.SellReasonSell)], value["SELL"] = "SELL", int(ofxgo.SellReasonSell)
		spell[int(ofxgo.SellReasonMaturity)], value["MATURITY"] = "MATURITY", int(ofxgo.SellReasonMaturity)
		for i := 0; i <= 70; i++ {
			e := ofxgo.SellReasonCall
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.SellReasonCall * ofxgo.SellReasonCall
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("SellReason", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("SellReason", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("SellReason", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("SellReason", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewSellReason(in)
				check("SellReason", fmt.Sprintf("NewSellReason(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.SellReasonMaturity
				err = u.FromString(in)
				check("SellReason", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.SellReasonMaturity
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("SellReason", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// OptSellType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.OptSellTypeSellToClose)], value["SELLTOCLOSE"] = "SELLTOCLOSE", int(ofxgo.OptSellTypeSellToClose)
		spell[int(ofxgo.OptSellTypeSellToOpen)], value["SELLTOOPEN"] = "SELLTOOPEN", int(ofxgo.OptSellTypeSellToOpen)
		for i := 0; i <= 70; i++ {
			e := ofxgo.OptSellTypeSellToClose
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.OptSellTypeSellToClose * ofxgo.OptSellTypeSellToClose
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("OptSellType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("OptSellType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("OptSellType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("OptSellType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewOptSellType(in)
				check("OptSellType", fmt.Sprintf("NewOptSellType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.OptSellTypeSellToOpen
				err = u.FromString(in)
				check("OptSellType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.OptSellTypeSellToOpen
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("OptSellType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// RelType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.RelTypeSpread)], value["SPREAD"] = "SPREAD", int(ofxgo.RelTypeSpread)
		spell[int(ofxgo.RelTypeStraddle)], value["STRADDLE"] = "STRADDLE", int(ofxgo.RelTypeStraddle)
		spell[int(ofxgo.RelTypeNone)], value["NONE"] = "NONE", int(ofxgo.RelTypeNone)
		spell[int(ofxgo.RelTypeOther)], value["OTHER"] = "OTHER", int(ofxgo.RelTypeOther)
		for i := 0; i <= 70; i++ {
			e := ofxgo.RelTypeSpread
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.RelTypeSpread * ofxgo.RelTypeSpread
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("RelType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("RelType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("RelType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("RelType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewRelType(in)
				check("RelType", fmt.Sprintf("NewRelType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.RelTypeOther
				err = u.FromString(in)
				check("RelType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.RelTypeOther
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("RelType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// CharType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.CharTypeAlphaOnly)], value["ALPHAONLY"] = "ALPHAONLY", int(ofxgo.CharTypeAlphaOnly)
		spell[int(ofxgo.CharTypeNumericOnly)], value["NUMERICONLY"] = "NUMERICONLY", int(ofxgo.CharTypeNumericOnly)
		spell[int(ofxgo.CharTypeAlphaOrNumeric)], value["ALPHAORNUMERIC"] = "ALPHAORNUMERIC", int(ofxgo.CharTypeAlphaOrNumeric)
		spell[int(ofxgo.CharTypeAlphaAndNumeric)], value["ALPHAANDNUMERIC"] = "ALPHAANDNUMERIC", int(ofxgo.CharTypeAlphaAndNumeric)
		for i := 0; i <= 70; i++ {
			e := ofxgo.CharTypeAlphaOnly
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.CharTypeAlphaOnly * ofxgo.CharTypeAlphaOnly
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("CharType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("CharType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("CharType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("CharType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewCharType(in)
				check("CharType", fmt.Sprintf("NewCharType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.CharTypeAlphaAndNumeric
				err = u.FromString(in)
				check("CharType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.CharTypeAlphaAndNumeric
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("CharType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// SyncMode
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.SyncModeFull)], value["FULL"] = "FULL", int(ofxgo.SyncModeFull)
		spell[int(ofxgo.SyncModeLite)], value["LITE"] = "LITE", int(ofxgo.SyncModeLite)
		for i := 0; i <= 70; i++ {
			e := ofxgo.SyncModeFull
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.SyncModeFull * ofxgo.SyncModeFull
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("SyncMode", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("SyncMode", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("SyncMode", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("SyncMode", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewSyncMode(in)
				check("SyncMode", fmt.Sprintf("NewSyncMode(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.SyncModeLite
				err = u.FromString(in)
				check("SyncMode", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.SyncModeLite
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("SyncMode", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// OfxSec
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.OfxSecNone)], value["NONE"] = "NONE", int(ofxgo.OfxSecNone)
		spell[int(ofxgo.OfxSecType1)], value["TYPE 1"] = "TYPE 1", int(ofxgo.OfxSecType1)
		for i := 0; i <= 70; i++ {
			e := ofxgo.OfxSecNone
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.OfxSecNone * ofxgo.OfxSecNone
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("OfxSec", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("OfxSec", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("OfxSec", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("OfxSec", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewOfxSec(in)
				check("OfxSec", fmt.Sprintf("NewOfxSec(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.OfxSecType1
				err = u.FromString(in)
				check("OfxSec", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.OfxSecType1
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("OfxSec", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// DebtType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.DebtTypeCoupon)], value["COUPON"] = "COUPON", int(ofxgo.DebtTypeCoupon)
		spell[int(ofxgo.DebtTypeZero)], value["ZERO"] = "ZERO", int(ofxgo.DebtTypeZero)
		for i := 0; i <= 70; i++ {
			e := ofxgo.DebtTypeCoupon
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.DebtTypeCoupon * ofxgo.DebtTypeCoupon
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("DebtType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("DebtType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("DebtType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("DebtType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewDebtType(in)
				check("DebtType", fmt.Sprintf("NewDebtType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.DebtTypeZero
				err = u.FromString(in)
				check("DebtType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.DebtTypeZero
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("DebtType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// DebtClass
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.DebtClassTreasury)], value["TREASURY"] = "TREASURY", int(ofxgo.DebtClassTreasury)
		spell[int(ofxgo.DebtClassMunicipal)], value["MUNICIPAL"] = "MUNICIPAL", int(ofxgo.DebtClassMunicipal)
		spell[int(ofxgo.DebtClassCorporate)], value["CORPORATE"] = "CORPORATE", int(ofxgo.DebtClassCorporate)
		spell[int(ofxgo.DebtClassOther)], value["OTHER"] = "OTHER", int(ofxgo.DebtClassOther)
		for i := 0; i <= 70; i++ {
			e := ofxgo.DebtClassTreasury
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.DebtClassTreasury * ofxgo.DebtClassTreasury
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("DebtClass", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("DebtClass", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("DebtClass", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("DebtClass", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewDebtClass(in)
				check("DebtClass", fmt.Sprintf("NewDebtClass(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.DebtClassOther
				err = u.FromString(in)
				check("DebtClass", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.DebtClassOther
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("DebtClass", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// CouponFreq
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.CouponFreqMonthly)], value["MONTHLY"] = "MONTHLY", int(ofxgo.CouponFreqMonthly)
		spell[int(ofxgo.CouponFreqQuarterly)], value["QUARTERLY"] = "QUARTERLY", int(ofxgo.CouponFreqQuarterly)
		spell[int(ofxgo.CouponFreqSemiannual)], value["SEMIANNUAL"] = "SEMIANNUAL", int(ofxgo.CouponFreqSemiannual)
		spell[int(ofxgo.CouponFreqAnnual)], value["ANNUAL"] = "ANNUAL", int(ofxgo.CouponFreqAnnual)
		spell[int(ofxgo.CouponFreqOther)], value["OTHER"] = "OTHER", int(ofxgo.CouponFreqOther)
		for i := 0; i <= 70; i++ {
			e := ofxgo.CouponFreqMonthly
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.CouponFreqMonthly * ofxgo.CouponFreqMonthly
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("CouponFreq", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("CouponFreq", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("CouponFreq", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("CouponFreq", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewCouponFreq(in)
				check("CouponFreq", fmt.Sprintf("NewCouponFreq(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.CouponFreqOther
				err = u.FromString(in)
				check("CouponFreq", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.CouponFreqOther
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("CouponFreq", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// CallType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.CallTypeCall)], value["CALL"] = "CALL", int(ofxgo.CallTypeCall)
		spell[int(ofxgo.CallTypePut)], value["PUT"] = "PUT", int(ofxgo.CallTypePut)
		spell[int(ofxgo.CallTypePrefund)], value["PREFUND"] = "PREFUND", int(ofxgo.CallTypePrefund)
		spell[int(ofxgo.CallTypeMaturity)], value["MATURITY"] = "MATURITY", int(ofxgo.CallTypeMaturity)
		for i := 0; i <= 70; i++ {
			e := ofxgo.CallTypeCall
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.CallTypeCall * ofxgo.CallTypeCall
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("CallType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("CallType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("CallType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("CallType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewCallType(in)
				check("CallType", fmt.Sprintf("NewCallType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.CallTypeMaturity
				err = u.FromString(in)
				check("CallType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.CallTypeMaturity
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("CallType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// AssetClass
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.AssetClassDomesticBond)], value["DOMESTICBOND"] = "DOMESTICBOND", int(ofxgo.AssetClassDomesticBond)
		spell[int(ofxgo.AssetClassIntlBond)], value["INTLBOND"] = "INTLBOND", int(ofxgo.AssetClassIntlBond)
		spell[int(ofxgo.AssetClassLargeStock)], value["LARGESTOCK"] = "LARGESTOCK", int(ofxgo.AssetClassLargeStock)
		spell[int(ofxgo.AssetClassSmallStock)], value["SMALLSTOCK"] = "SMALLSTOCK", int(ofxgo.AssetClassSmallStock)
		spell[int(ofxgo.AssetClassIntlStock)], value["INTLSTOCK"] = "INTLSTOCK", int(ofxgo.AssetClassIntlStock)
		spell[int(ofxgo.AssetClassMoneyMrkt)], value["MONEYMRKT"] = "MONEYMRKT", int(ofxgo.AssetClassMoneyMrkt)
		spell[int(ofxgo.AssetClassOther)], value["OTHER"] = "OTHER", int(ofxgo.AssetClassOther)
		for i := 0; i <= 70; i++ {
			e := ofxgo.AssetClassDomesticBond
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.AssetClassDomesticBond * ofxgo.AssetClassDomesticBond
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("AssetClass", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("AssetClass", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("AssetClass", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("AssetClass", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewAssetClass(in)
				check("AssetClass", fmt.Sprintf("NewAssetClass(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.AssetClassOther
				err = u.FromString(in)
				check("AssetClass", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.AssetClassOther
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("AssetClass", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// MfType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.MfTypeOpenEnd)], value["OPENEND"] = "OPENEND", int(ofxgo.MfTypeOpenEnd)
		spell[int(ofxgo.MfTypeCloseEnd)], value["CLOSEEND"] = "CLOSEEND", int(ofxgo.MfTypeCloseEnd)
		spell[int(ofxgo.MfTypeOther)], value["OTHER"] = "OTHER", int(ofxgo.MfTypeOther)
		for i := 0; i <= 70; i++ {
			e := ofxgo.MfTypeOpenEnd
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.MfTypeOpenEnd * ofxgo.MfTypeOpenEnd
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("MfType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("MfType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("MfType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("MfType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewMfType(in)
				check("MfType", fmt.Sprintf("NewMfType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.MfTypeOther
				err = u.FromString(in)
				check("MfType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.MfTypeOther
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("MfType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// OptType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.OptTypePut)], value["PUT"] = "PUT", int(ofxgo.OptTypePut)
		spell[int(ofxgo.OptTypeCall)], value["CALL"] = "CALL", int(ofxgo.OptTypeCall)
		for i := 0; i <= 70; i++ {
			e := ofxgo.OptTypePut
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.OptTypePut * ofxgo.OptTypePut
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("OptType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("OptType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("OptType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("OptType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewOptType(in)
				check("OptType", fmt.Sprintf("NewOptType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.OptTypeCall
				err = u.FromString(in)
				check("OptType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.OptTypeCall
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("OptType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// StockType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.StockTypeCommon)], value["COMMON"] = "COMMON", int(ofxgo.StockTypeCommon)
		spell[int(ofxgo.StockTypePreferred)], value["PREFERRED"] = "PREFERRED", int(ofxgo.StockTypePreferred)
		spell[int(ofxgo.StockTypeConvertible)], value["CONVERTIBLE"] = "CONVERTIBLE", int(ofxgo.StockTypeConvertible)
		spell[int(ofxgo.StockTypeOther)], value["OTHER"] = "OTHER", int(ofxgo.StockTypeOther)
		for i := 0; i <= 70; i++ {
			e := ofxgo.StockTypeCommon
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.StockTypeCommon * ofxgo.StockTypeCommon
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("StockType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("StockType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("StockType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("StockType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewStockType(in)
				check("StockType", fmt.Sprintf("NewStockType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.StockTypeOther
				err = u.FromString(in)
				check("StockType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.StockTypeOther
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("StockType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// HolderType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.HolderTypeIndividual)], value["INDIVIDUAL"] = "INDIVIDUAL", int(ofxgo.HolderTypeIndividual)
		spell[int(ofxgo.HolderTypeJoint)], value["JOINT"] = "JOINT", int(ofxgo.HolderTypeJoint)
		spell[int(ofxgo.HolderTypeCustodial)], value["CUSTODIAL"] = "CUSTODIAL", int(ofxgo.HolderTypeCustodial)
		spell[int(ofxgo.HolderTypeTrust)], value["TRUST"] = "TRUST", int(ofxgo.HolderTypeTrust)
		spell[int(ofxgo.HolderTypeOther)], value["OTHER"] = "OTHER", int(ofxgo.HolderTypeOther)
		for i := 0; i <= 70; i++ {
			e := ofxgo.HolderTypeIndividual
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.HolderTypeIndividual * ofxgo.HolderTypeIndividual
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("HolderType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("HolderType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("HolderType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("HolderType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewHolderType(in)
				check("HolderType", fmt.Sprintf("NewHolderType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.HolderTypeOther
				err = u.FromString(in)
				check("HolderType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.HolderTypeOther
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("HolderType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// AcctClassification
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.AcctClassificationPersonal)], value["PERSONAL"] = "PERSONAL", int(ofxgo.AcctClassificationPersonal)
		spell[int(ofxgo.AcctClassificationBusiness)], value["BUSINESS"] = "BUSINESS", int(ofxgo.AcctClassificationBusiness)
		spell[int(ofxgo.AcctClassificationCorporate)], value["CORPORATE"] = "CORPORATE", int(ofxgo.AcctClassificationCorporate)
		spell[int(ofxgo.AcctClassificationOther)], value["OTHER"] = "OTHER", int(ofxgo.AcctClassificationOther)
		for i := 0; i <= 70; i++ {
			e := ofxgo.AcctClassificationPersonal
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.AcctClassificationPersonal * ofxgo.AcctClassificationPersonal
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("AcctClassification", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("AcctClassification", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("AcctClassification", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("AcctClassification", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewAcctClassification(in)
				check("AcctClassification", fmt.Sprintf("NewAcctClassification(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.AcctClassificationOther
				err = u.FromString(in)
				check("AcctClassification", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.AcctClassificationOther
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("AcctClassification", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// SvcStatus
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.SvcStatusAvail)], value["AVAIL"] = "AVAIL", int(ofxgo.SvcStatusAvail)
		spell[int(ofxgo.SvcStatusPend)], value["PEND"] = "PEND", int(ofxgo.SvcStatusPend)
		spell[int(ofxgo.SvcStatusActive)], value["ACTIVE"] = "ACTIVE", int(ofxgo.SvcStatusActive)
		for i := 0; i <= 70; i++ {
			e := ofxgo.SvcStatusAvail
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.SvcStatusAvail * ofxgo.SvcStatusAvail
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("SvcStatus", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("SvcStatus", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("SvcStatus", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("SvcStatus", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewSvcStatus(in)
				check("SvcStatus", fmt.Sprintf("NewSvcStatus(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.SvcStatusActive
				err = u.FromString(in)
				check("SvcStatus", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.SvcStatusActive
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("SvcStatus", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
	// UsProductType
	{
		spell := map[int]string{}
		value := map[string]int{}

		spell[int(ofxgo.UsProductType401K)], value["401K"] = "401K", int(ofxgo.UsProductType401K)
		spell[int(ofxgo.UsProductType403B)], value["403B"] = "403B", int(ofxgo.UsProductType403B)
		spell[int(ofxgo.UsProductTypeIRA)], value["IRA"] = "IRA", int(ofxgo.UsProductTypeIRA)
		spell[int(ofxgo.UsProductTypeKEOGH)], value["KEOGH"] = "KEOGH", int(ofxgo.UsProductTypeKEOGH)
		spell[int(ofxgo.UsProductTypeOther)], value["OTHER"] = "OTHER", int(ofxgo.UsProductTypeOther)
		spell[int(ofxgo.UsProductTypeSARSEP)], value["SARSEP"] = "SARSEP", int(ofxgo.UsProductTypeSARSEP)
		spell[int(ofxgo.UsProductTypeSimple)], value["SIMPLE"] = "SIMPLE", int(ofxgo.UsProductTypeSimple)
		spell[int(ofxgo.UsProductTypeNormal)], value["NORMAL"] = "NORMAL", int(ofxgo.UsProductTypeNormal)
		spell[int(ofxgo.UsProductTypeTDA)], value["TDA"] = "TDA", int(ofxgo.UsProductTypeTDA)
		spell[int(ofxgo.UsProductTypeTrust)], value["TRUST"] = "TRUST", int(ofxgo.UsProductTypeTrust)
		spell[int(ofxgo.UsProductTypeUGMA)], value["UGMA"] = "UGMA", int(ofxgo.UsProductTypeUGMA)
		for i := 0; i <= 70; i++ {
			e := ofxgo.UsProductType401K
			switch {
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {
					e++
				}
			default:
				e = e - e
				e -= ofxgo.UsProductType401K * ofxgo.UsProductType401K
				for k := 60; k < i; k++ {
					e--
				}
			}
			w, ok := spell[int(e)]
			check("UsProductType", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {
				check("UsProductType", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("UsProductType", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			} else {
				check("UsProductType", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}
		}
		for _, s := range texts {
			for _, a := range ws {
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.NewUsProductType(in)
				check("UsProductType", fmt.Sprintf("NewUsProductType(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.UsProductTypeUGMA
				err = u.FromString(in)
				check("UsProductType", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {
					continue
				}
				u = ofxgo.UsProductTypeUGMA
				err = xml.Unmarshal([]byte("<A> "+s+"\n</A>"), &u)
				check("UsProductType", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}
		}
	}
}
