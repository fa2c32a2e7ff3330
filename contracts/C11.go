//go:build go1.21

package ofxgo

//govc:use LST

import "github.com/aclindsa/xml"

var (
	g11Pos []Position
	g11OO  []OpenOrder
	g11Sec []Security
)

// Reading a list

func c11known(tag string) bool {
	switch gLstKind {
	case 1:
		switch tag {
		case "POSDEBT", "POSMF", "POSOPT", "POSOTHER", "POSSTOCK":
			return true
		}
	case 2:
		switch tag {
		case "OOBUYDEBT", "OOBUYMF", "OOBUYOPT", "OOBUYOTHER", "OOBUYSTOCK", "OOSELLDEBT", "OOSELLMF", "OOSELLOPT", "OOSELLOTHER", "OOSELLSTOCK", "SWITCHMF":
			return true
		}
	case 3:
		switch tag {
		case "DEBTINFO", "MFINFO", "OPTINFO", "OTHERINFO", "STOCKINFO":
			return true
		}
	}
	return false
}

var gLstKind int // 1: positions, 2: open orders, 3: securities

func C11__before__xml_Decoder_DecodeElement__auto(p1 interface{}, p2 *xml.StartElement) {
	switch x := p1.(type) {
	case *DebtPosition:
		lstDecode(p2, "POSDEBT", gLstKind == 1 && same(*x, DebtPosition{}))
	case *MFPosition:
		lstDecode(p2, "POSMF", gLstKind == 1 && same(*x, MFPosition{}))
	case *OptPosition:
		lstDecode(p2, "POSOPT", gLstKind == 1 && same(*x, OptPosition{}))
	case *OtherPosition:
		lstDecode(p2, "POSOTHER", gLstKind == 1 && same(*x, OtherPosition{}))
	case *StockPosition:
		lstDecode(p2, "POSSTOCK", gLstKind == 1 && same(*x, StockPosition{}))
	case *OOBuyDebt:
		lstDecode(p2, "OOBUYDEBT", gLstKind == 2 && same(*x, OOBuyDebt{}))
	case *OOBuyMF:
		lstDecode(p2, "OOBUYMF", gLstKind == 2 && same(*x, OOBuyMF{}))
	case *OOBuyOpt:
		lstDecode(p2, "OOBUYOPT", gLstKind == 2 && same(*x, OOBuyOpt{}))
	case *OOBuyOther:
		lstDecode(p2, "OOBUYOTHER", gLstKind == 2 && same(*x, OOBuyOther{}))
	case *OOBuyStock:
		lstDecode(p2, "OOBUYSTOCK", gLstKind == 2 && same(*x, OOBuyStock{}))
	case *OOSellDebt:
		lstDecode(p2, "OOSELLDEBT", gLstKind == 2 && same(*x, OOSellDebt{}))
	case *OOSellMF:
		lstDecode(p2, "OOSELLMF", gLstKind == 2 && same(*x, OOSellMF{}))
	case *OOSellOpt:
		lstDecode(p2, "OOSELLOPT", gLstKind == 2 && same(*x, OOSellOpt{}))
	case *OOSellOther:
		lstDecode(p2, "OOSELLOTHER", gLstKind == 2 && same(*x, OOSellOther{}))
	case *OOSellStock:
		lstDecode(p2, "OOSELLSTOCK", gLstKind == 2 && same(*x, OOSellStock{}))
	case *OOSwitchMF:
		lstDecode(p2, "SWITCHMF", gLstKind == 2 && same(*x, OOSwitchMF{}))
	case *DebtInfo:
		lstDecode(p2, "DEBTINFO", gLstKind == 3 && same(*x, DebtInfo{}))
	case *MFInfo:
		lstDecode(p2, "MFINFO", gLstKind == 3 && same(*x, MFInfo{}))
	case *OptInfo:
		lstDecode(p2, "OPTINFO", gLstKind == 3 && same(*x, OptInfo{}))
	case *OtherInfo:
		lstDecode(p2, "OTHERINFO", gLstKind == 3 && same(*x, OtherInfo{}))
	case *StockInfo:
		lstDecode(p2, "STOCKINFO", gLstKind == 3 && same(*x, StockInfo{}))
	default:
		vGiveUp("decoding something else")
	}
}

func C11__after__xml_Decoder_DecodeElement__auto(p1 interface{}, r0 error) {
	if !lstDecoded(r0) {
		return
	}
	switch x := p1.(type) {
	case *DebtPosition:
		g11Pos = append(g11Pos, *x)
	case *MFPosition:
		g11Pos = append(g11Pos, *x)
	case *OptPosition:
		g11Pos = append(g11Pos, *x)
	case *OtherPosition:
		g11Pos = append(g11Pos, *x)
	case *StockPosition:
		g11Pos = append(g11Pos, *x)
	case *OOBuyDebt:
		g11OO = append(g11OO, *x)
	case *OOBuyMF:
		g11OO = append(g11OO, *x)
	case *OOBuyOpt:
		g11OO = append(g11OO, *x)
	case *OOBuyOther:
		g11OO = append(g11OO, *x)
	case *OOBuyStock:
		g11OO = append(g11OO, *x)
	case *OOSellDebt:
		g11OO = append(g11OO, *x)
	case *OOSellMF:
		g11OO = append(g11OO, *x)
	case *OOSellOpt:
		g11OO = append(g11OO, *x)
	case *OOSellOther:
		g11OO = append(g11OO, *x)
	case *OOSellStock:
		g11OO = append(g11OO, *x)
	case *OOSwitchMF:
		g11OO = append(g11OO, *x)
	case *DebtInfo:
		g11Sec = append(g11Sec, *x)
	case *MFInfo:
		g11Sec = append(g11Sec, *x)
	case *OptInfo:
		g11Sec = append(g11Sec, *x)
	case *OtherInfo:
		g11Sec = append(g11Sec, *x)
	case *StockInfo:
		g11Sec = append(g11Sec, *x)
	}
}

func C11__setup__PositionList_UnmarshalXML__rec(p0 *PositionList, p2 xml.StartElement) {
	gLstKind, gLstName, g11Pos = 1, p2.Name.Local, *p0
}

func C11__ensures__PositionList_UnmarshalXML__all(p0 *PositionList, r0 error) bool {
	if r0 != nil {
		return gLstFailed || gLstBad || gLstOther || gLstStage == lstPending && !c11known(gLstStart.Name.Local)
	}
	return lstOk() && same([]Position(*p0), g11Pos)
}

func C11__setup__OOList_UnmarshalXML__rec(p0 *OOList, p2 xml.StartElement) {
	gLstKind, gLstName, g11OO = 2, p2.Name.Local, *p0
}

func C11__ensures__OOList_UnmarshalXML__all(p0 *OOList, r0 error) bool {
	if r0 != nil {
		return gLstFailed || gLstBad || gLstOther || gLstStage == lstPending && !c11known(gLstStart.Name.Local)
	}
	return lstOk() && same([]OpenOrder(*p0), g11OO)
}

func C11__setup__SecurityList_UnmarshalXML__rec(p0 *SecurityList, p2 xml.StartElement) {
	gLstKind, gLstName, g11Sec = 3, p2.Name.Local, p0.Securities
}

func C11__ensures__SecurityList_UnmarshalXML__all(p0 *SecurityList, r0 error) bool {
	if r0 != nil {
		return gLstFailed || gLstBad || gLstOther || gLstStage == lstPending && !c11known(gLstStart.Name.Local)
	}
	return lstOk() && same(p0.Securities, g11Sec)
}

// Writing one

func c11name() string {
	switch gLstKind {
	case 1:
		return "INVPOSLIST"
	case 2:
		return "INVOOLIST"
	}
	return "SECLIST"
}

func c11len() int {
	switch gLstKind {
	case 1:
		return len(g11Pos)
	case 2:
		return len(g11OO)
	}
	return len(g11Sec)
}

// c11entry notes that an entry is written.
func c11entry(v interface{}, tag string, start xml.StartElement, kind int) {
	vAssert(gOutPos >= 1 && gOutPos <= c11len() && gLstKind == kind, "entries are written inside the list, none of them twice")
	if gOutPos < 1 || gOutPos > c11len() || gLstKind != kind {
		return
	}
	switch kind {
	case 1:
		vAssert(same(v, g11Pos[gOutPos-1]), "all positions are written, in order")
	case 2:
		vAssert(same(v, g11OO[gOutPos-1]), "all open orders are written, in order")
	case 3:
		vAssert(same(v, g11Sec[gOutPos-1]), "all securities are written, in order")
	}
	vAssert(lstElement(start, tag), "an entry is written under the tag of its type")
	gOutPos++
}

func C11__before__xml_Encoder_EncodeElement__auto(p1 interface{}, p2 xml.StartElement) {
	switch x := p1.(type) {
	case *DebtPosition:
		c11entry(Position(*x), "POSDEBT", p2, 1)
	case DebtPosition:
		c11entry(Position(x), "POSDEBT", p2, 1)
	case *MFPosition:
		c11entry(Position(*x), "POSMF", p2, 1)
	case MFPosition:
		c11entry(Position(x), "POSMF", p2, 1)
	case *OptPosition:
		c11entry(Position(*x), "POSOPT", p2, 1)
	case OptPosition:
		c11entry(Position(x), "POSOPT", p2, 1)
	case *OtherPosition:
		c11entry(Position(*x), "POSOTHER", p2, 1)
	case OtherPosition:
		c11entry(Position(x), "POSOTHER", p2, 1)
	case *StockPosition:
		c11entry(Position(*x), "POSSTOCK", p2, 1)
	case StockPosition:
		c11entry(Position(x), "POSSTOCK", p2, 1)
	case *OOBuyDebt:
		c11entry(OpenOrder(*x), "OOBUYDEBT", p2, 2)
	case OOBuyDebt:
		c11entry(OpenOrder(x), "OOBUYDEBT", p2, 2)
	case *OOBuyMF:
		c11entry(OpenOrder(*x), "OOBUYMF", p2, 2)
	case OOBuyMF:
		c11entry(OpenOrder(x), "OOBUYMF", p2, 2)
	case *OOBuyOpt:
		c11entry(OpenOrder(*x), "OOBUYOPT", p2, 2)
	case OOBuyOpt:
		c11entry(OpenOrder(x), "OOBUYOPT", p2, 2)
	case *OOBuyOther:
		c11entry(OpenOrder(*x), "OOBUYOTHER", p2, 2)
	case OOBuyOther:
		c11entry(OpenOrder(x), "OOBUYOTHER", p2, 2)
	case *OOBuyStock:
		c11entry(OpenOrder(*x), "OOBUYSTOCK", p2, 2)
	case OOBuyStock:
		c11entry(OpenOrder(x), "OOBUYSTOCK", p2, 2)
	case *OOSellDebt:
		c11entry(OpenOrder(*x), "OOSELLDEBT", p2, 2)
	case OOSellDebt:
		c11entry(OpenOrder(x), "OOSELLDEBT", p2, 2)
	case *OOSellMF:
		c11entry(OpenOrder(*x), "OOSELLMF", p2, 2)
	case OOSellMF:
		c11entry(OpenOrder(x), "OOSELLMF", p2, 2)
	case *OOSellOpt:
		c11entry(OpenOrder(*x), "OOSELLOPT", p2, 2)
	case OOSellOpt:
		c11entry(OpenOrder(x), "OOSELLOPT", p2, 2)
	case *OOSellOther:
		c11entry(OpenOrder(*x), "OOSELLOTHER", p2, 2)
	case OOSellOther:
		c11entry(OpenOrder(x), "OOSELLOTHER", p2, 2)
	case *OOSellStock:
		c11entry(OpenOrder(*x), "OOSELLSTOCK", p2, 2)
	case OOSellStock:
		c11entry(OpenOrder(x), "OOSELLSTOCK", p2, 2)
	case *OOSwitchMF:
		c11entry(OpenOrder(*x), "SWITCHMF", p2, 2)
	case OOSwitchMF:
		c11entry(OpenOrder(x), "SWITCHMF", p2, 2)
	case *DebtInfo:
		c11entry(Security(*x), "DEBTINFO", p2, 3)
	case DebtInfo:
		c11entry(Security(x), "DEBTINFO", p2, 3)
	case *MFInfo:
		c11entry(Security(*x), "MFINFO", p2, 3)
	case MFInfo:
		c11entry(Security(x), "MFINFO", p2, 3)
	case *OptInfo:
		c11entry(Security(*x), "OPTINFO", p2, 3)
	case OptInfo:
		c11entry(Security(x), "OPTINFO", p2, 3)
	case *OtherInfo:
		c11entry(Security(*x), "OTHERINFO", p2, 3)
	case OtherInfo:
		c11entry(Security(x), "OTHERINFO", p2, 3)
	case *StockInfo:
		c11entry(Security(*x), "STOCKINFO", p2, 3)
	case StockInfo:
		c11entry(Security(x), "STOCKINFO", p2, 3)
	default:
		vGiveUp("writing something else")
	}
}

func C11__before__xml_Encoder_EncodeToken__auto(p1 xml.Token) {
	switch x := p1.(type) {
	case xml.StartElement:
		vAssert(gOutPos == 0 && lstElement(x, c11name()), "the list is opened first")
	case xml.EndElement:
		vAssert(gOutPos == 1+c11len(), "the list is closed after all entries")
		vAssert(x.Name.Local == c11name() && x.Name.Space == "", "the list is closed")
	default:
		vAssert(false, "only elements are written")
	}
	gOutPos++
}

func C11__setup__PositionList_MarshalXML__rec(p0 PositionList) { gLstKind, g11Pos = 1, p0 }

func C11__requires__PositionList_MarshalXML__given(p0 PositionList, p2 xml.StartElement) bool {
	return lstElement(p2, "INVPOSLIST") && forall(len(p0), func(i int) bool { return p0[i] != nil })
}

func C11__ensures__PositionList_MarshalXML__all(r0 error) bool {
	if r0 == nil {
		return !gOutFailed && gOutPos == 2+len(g11Pos)
	}
	if gOutFailed {
		return true
	}
	if gOutPos < 1 || gOutPos > len(g11Pos) {
		return false
	}
	switch g11Pos[gOutPos-1].(type) {
	case DebtPosition, MFPosition, OptPosition, OtherPosition, StockPosition:
		return false
	}
	return true
}

func C11__setup__OOList_MarshalXML__rec(p0 OOList) { gLstKind, g11OO = 2, p0 }

func C11__requires__OOList_MarshalXML__given(p0 OOList, p2 xml.StartElement) bool {
	return lstElement(p2, "INVOOLIST") && forall(len(p0), func(i int) bool { return p0[i] != nil })
}

func C11__ensures__OOList_MarshalXML__all(r0 error) bool {
	if r0 == nil {
		return !gOutFailed && gOutPos == 2+len(g11OO)
	}
	if gOutFailed {
		return true
	}
	if gOutPos < 1 || gOutPos > len(g11OO) {
		return false
	}
	switch g11OO[gOutPos-1].(type) {
	case OOBuyDebt, OOBuyMF, OOBuyOpt, OOBuyOther, OOBuyStock, OOSellDebt, OOSellMF, OOSellOpt, OOSellOther, OOSellStock, OOSwitchMF:
		return false
	}
	return true
}

func C11__setup__SecurityList_MarshalXML__rec(p0 *SecurityList) { gLstKind, g11Sec = 3, p0.Securities }

func C11__requires__SecurityList_MarshalXML__given(p0 *SecurityList, p2 xml.StartElement) bool {
	return lstElement(p2, "SECLIST") && forall(len(p0.Securities), func(i int) bool { return p0.Securities[i] != nil })
}

func C11__ensures__SecurityList_MarshalXML__all(r0 error) bool {
	if r0 == nil {
		return !gOutFailed && gOutPos == 2+len(g11Sec)
	}
	if gOutFailed {
		return true
	}
	if gOutPos < 1 || gOutPos > len(g11Sec) {
		return false
	}
	switch g11Sec[gOutPos-1].(type) {
	case DebtInfo, MFInfo, OptInfo, OtherInfo, StockInfo:
		return false
	}
	return true
}
