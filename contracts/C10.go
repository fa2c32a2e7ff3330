//go:build go1.21

package ofxgo

//govc:use LST

import "github.com/aclindsa/xml"

var (
	g10Inv  []InvTransaction
	g10Bank []InvBankTransaction
	g10From Date
	g10To   Date
)

// Reading an investment transaction list

func C10__setup__InvTranList_UnmarshalXML__rec(p0 *InvTranList, p2 xml.StartElement) {
	gLstName = p2.Name.Local
	g10Inv, g10Bank, g10From, g10To = p0.InvTransactions, p0.BankTransactions, p0.DtStart, p0.DtEnd
}

func C10__before__xml_Decoder_DecodeElement__auto(p1 interface{}, p2 *xml.StartElement) {
	switch x := p1.(type) {
	case *Date:
		tag := "DTSTART"
		if vPure(func() bool { return gLstStart.Name.Local == "DTEND" }) {
			tag = "DTEND"
		}
		lstDecode(p2, tag, true)
	case *BuyDebt:
		lstDecode(p2, "BUYDEBT", same(*x, BuyDebt{}))
	case *BuyMF:
		lstDecode(p2, "BUYMF", same(*x, BuyMF{}))
	case *BuyOpt:
		lstDecode(p2, "BUYOPT", same(*x, BuyOpt{}))
	case *BuyOther:
		lstDecode(p2, "BUYOTHER", same(*x, BuyOther{}))
	case *BuyStock:
		lstDecode(p2, "BUYSTOCK", same(*x, BuyStock{}))
	case *ClosureOpt:
		lstDecode(p2, "CLOSUREOPT", same(*x, ClosureOpt{}))
	case *Income:
		lstDecode(p2, "INCOME", same(*x, Income{}))
	case *InvExpense:
		lstDecode(p2, "INVEXPENSE", same(*x, InvExpense{}))
	case *JrnlFund:
		lstDecode(p2, "JRNLFUND", same(*x, JrnlFund{}))
	case *JrnlSec:
		lstDecode(p2, "JRNLSEC", same(*x, JrnlSec{}))
	case *MarginInterest:
		lstDecode(p2, "MARGININTEREST", same(*x, MarginInterest{}))
	case *Reinvest:
		lstDecode(p2, "REINVEST", same(*x, Reinvest{}))
	case *RetOfCap:
		lstDecode(p2, "RETOFCAP", same(*x, RetOfCap{}))
	case *SellDebt:
		lstDecode(p2, "SELLDEBT", same(*x, SellDebt{}))
	case *SellMF:
		lstDecode(p2, "SELLMF", same(*x, SellMF{}))
	case *SellOpt:
		lstDecode(p2, "SELLOPT", same(*x, SellOpt{}))
	case *SellOther:
		lstDecode(p2, "SELLOTHER", same(*x, SellOther{}))
	case *SellStock:
		lstDecode(p2, "SELLSTOCK", same(*x, SellStock{}))
	case *Split:
		lstDecode(p2, "SPLIT", same(*x, Split{}))
	case *Transfer:
		lstDecode(p2, "TRANSFER", same(*x, Transfer{}))
	case *InvBankTransaction:
		lstDecode(p2, "INVBANKTRAN", same(*x, InvBankTransaction{}))
	default:
		vGiveUp("decoding something else")
	}
}

func C10__after__xml_Decoder_DecodeElement__auto(p1 interface{}, r0 error) {
	end := vPure(func() bool { return gLstStart.Name.Local == "DTEND" })
	if !lstDecoded(r0) {
		return
	}
	switch x := p1.(type) {
	case *Date:
		if end {
			g10To = *x
		} else {
			g10From = *x
		}
	case *BuyDebt:
		g10Inv = append(g10Inv, *x)
	case *BuyMF:
		g10Inv = append(g10Inv, *x)
	case *BuyOpt:
		g10Inv = append(g10Inv, *x)
	case *BuyOther:
		g10Inv = append(g10Inv, *x)
	case *BuyStock:
		g10Inv = append(g10Inv, *x)
	case *ClosureOpt:
		g10Inv = append(g10Inv, *x)
	case *Income:
		g10Inv = append(g10Inv, *x)
	case *InvExpense:
		g10Inv = append(g10Inv, *x)
	case *JrnlFund:
		g10Inv = append(g10Inv, *x)
	case *JrnlSec:
		g10Inv = append(g10Inv, *x)
	case *MarginInterest:
		g10Inv = append(g10Inv, *x)
	case *Reinvest:
		g10Inv = append(g10Inv, *x)
	case *RetOfCap:
		g10Inv = append(g10Inv, *x)
	case *SellDebt:
		g10Inv = append(g10Inv, *x)
	case *SellMF:
		g10Inv = append(g10Inv, *x)
	case *SellOpt:
		g10Inv = append(g10Inv, *x)
	case *SellOther:
		g10Inv = append(g10Inv, *x)
	case *SellStock:
		g10Inv = append(g10Inv, *x)
	case *Split:
		g10Inv = append(g10Inv, *x)
	case *Transfer:
		g10Inv = append(g10Inv, *x)
	case *InvBankTransaction:
		g10Bank = append(g10Bank, *x)
	}
}

func c10known(tag string) bool {
	switch tag {
	case "DTSTART", "DTEND", "INVBANKTRAN",
		"BUYDEBT", "BUYMF", "BUYOPT", "BUYOTHER", "BUYSTOCK", "CLOSUREOPT", "INCOME",
		"INVEXPENSE", "JRNLFUND", "JRNLSEC", "MARGININTEREST", "REINVEST", "RETOFCAP", "SELLDEBT",
		"SELLMF", "SELLOPT", "SELLOTHER", "SELLSTOCK", "SPLIT", "TRANSFER":
		return true
	}
	return false
}

func C10__ensures__InvTranList_UnmarshalXML__all(p0 *InvTranList, r0 error) bool {
	if r0 != nil {
		return gLstFailed || gLstBad || gLstOther || gLstStage == lstPending && !c10known(gLstStart.Name.Local)
	}
	return lstOk() && same(p0.InvTransactions, g10Inv) && same(p0.BankTransactions, g10Bank) &&
		same(p0.DtStart, g10From) && same(p0.DtEnd, g10To)
}

// Writing one

var g10List InvTranList

func C10__setup__InvTranList_MarshalXML__rec(p0 *InvTranList) { g10List = *p0 }

func C10__requires__InvTranList_MarshalXML__given(p0 *InvTranList, p2 xml.StartElement) bool {
	return lstElement(p2, "INVTRANLIST") &&
		forall(len(p0.InvTransactions), func(i int) bool { return p0.InvTransactions[i] != nil })
}

// c10entry is the investment transaction given to the encoder, and the tag of
// its type.
func c10entry(v interface{}) (InvTransaction, string) {
	switch x := v.(type) {
	case *BuyDebt:
		return *x, "BUYDEBT"
	case BuyDebt:
		return x, "BUYDEBT"
	case *BuyMF:
		return *x, "BUYMF"
	case BuyMF:
		return x, "BUYMF"
	case *BuyOpt:
		return *x, "BUYOPT"
	case BuyOpt:
		return x, "BUYOPT"
	case *BuyOther:
		return *x, "BUYOTHER"
	case BuyOther:
		return x, "BUYOTHER"
	case *BuyStock:
		return *x, "BUYSTOCK"
	case BuyStock:
		return x, "BUYSTOCK"
	case *ClosureOpt:
		return *x, "CLOSUREOPT"
	case ClosureOpt:
		return x, "CLOSUREOPT"
	case *Income:
		return *x, "INCOME"
	case Income:
		return x, "INCOME"
	case *InvExpense:
		return *x, "INVEXPENSE"
	case InvExpense:
		return x, "INVEXPENSE"
	case *JrnlFund:
		return *x, "JRNLFUND"
	case JrnlFund:
		return x, "JRNLFUND"
	case *JrnlSec:
		return *x, "JRNLSEC"
	case JrnlSec:
		return x, "JRNLSEC"
	case *MarginInterest:
		return *x, "MARGININTEREST"
	case MarginInterest:
		return x, "MARGININTEREST"
	case *Reinvest:
		return *x, "REINVEST"
	case Reinvest:
		return x, "REINVEST"
	case *RetOfCap:
		return *x, "RETOFCAP"
	case RetOfCap:
		return x, "RETOFCAP"
	case *SellDebt:
		return *x, "SELLDEBT"
	case SellDebt:
		return x, "SELLDEBT"
	case *SellMF:
		return *x, "SELLMF"
	case SellMF:
		return x, "SELLMF"
	case *SellOpt:
		return *x, "SELLOPT"
	case SellOpt:
		return x, "SELLOPT"
	case *SellOther:
		return *x, "SELLOTHER"
	case SellOther:
		return x, "SELLOTHER"
	case *SellStock:
		return *x, "SELLSTOCK"
	case SellStock:
		return x, "SELLSTOCK"
	case *Split:
		return *x, "SPLIT"
	case Split:
		return x, "SPLIT"
	case *Transfer:
		return *x, "TRANSFER"
	case Transfer:
		return x, "TRANSFER"
	}
	return nil, ""
}

func c10date(v interface{}) (Date, bool) {
	switch x := v.(type) {
	case *Date:
		return *x, true
	case Date:
		return x, true
	}
	return Date{}, false
}

func C10__before__xml_Encoder_EncodeElement__auto(p1 interface{}, p2 xml.StartElement) {
	if d, ok := c10date(p1); ok {
		vAssert(gOutPos == 1 && lstElement(p2, "DTSTART") && same(d, g10List.DtStart) ||
			gOutPos == 2 && lstElement(p2, "DTEND") && same(d, g10List.DtEnd), "the dates are written first, in order")
		gOutPos++
		return
	}
	n := len(g10List.InvTransactions)
	vAssert(gOutPos >= 3, "the dates are written first")
	if gOutPos < 3 {
		return
	}
	if vPure(func() bool { return gOutPos < 3+n }) {
		t, tag := c10entry(p1)
		if tag == "" {
			vGiveUp("writing something else")
			return
		}
		vAssert(same(t, g10List.InvTransactions[gOutPos-3]), "all investment transactions are written, in order")
		vAssert(lstElement(p2, tag), "an investment transaction is written under the tag of its type")
		gOutPos++
		return
	}
	vAssert(gOutPos < 3+n+len(g10List.BankTransactions), "no transaction is written twice")
	if gOutPos >= 3+n+len(g10List.BankTransactions) {
		return
	}
	vAssert(lstElement(p2, "INVBANKTRAN"), "a bank transaction is written under its tag")
	switch x := p1.(type) {
	case *InvBankTransaction:
		vAssert(same(*x, g10List.BankTransactions[gOutPos-3-n]), "all bank transactions are written, in order")
	case InvBankTransaction:
		vAssert(same(x, g10List.BankTransactions[gOutPos-3-n]), "all bank transactions are written, in order")
	default:
		vGiveUp("writing something else")
	}
	gOutPos++
}

func C10__before__xml_Encoder_EncodeToken__auto(p1 xml.Token) {
	switch x := p1.(type) {
	case xml.StartElement:
		vAssert(gOutPos == 0 && lstElement(x, "INVTRANLIST"), "the list is opened first")
	case xml.EndElement:
		vAssert(gOutPos == 3+len(g10List.InvTransactions)+len(g10List.BankTransactions), "the list is closed after all transactions")
		vAssert(x.Name.Local == "INVTRANLIST" && x.Name.Space == "", "the list is closed")
	default:
		vAssert(false, "only elements are written")
	}
	gOutPos++
}

func c10unknown() bool {
	i := gOutPos - 3
	if i < 0 || i >= len(g10List.InvTransactions) {
		return false
	}
	switch g10List.InvTransactions[i].(type) {
	case BuyDebt, BuyMF, BuyOpt, BuyOther, BuyStock, ClosureOpt, Income,
		InvExpense, JrnlFund, JrnlSec, MarginInterest, Reinvest, RetOfCap, SellDebt,
		SellMF, SellOpt, SellOther, SellStock, Split, Transfer:
		return false
	}
	return true
}

func C10__ensures__InvTranList_MarshalXML__all(r0 error) bool {
	if r0 != nil {
		return gOutFailed || c10unknown()
	}
	return !gOutFailed && gOutPos == 4+len(g10List.InvTransactions)+len(g10List.BankTransactions)
}
