//go:build go1.21

package ofxgo

// Generated by tools/mkc13.py.

func c13set(t messageType) string {
	switch t {
	case SignonRq:
		return "SIGNONMSGSRQV1"
	case SignonRs:
		return "SIGNONMSGSRSV1"
	case SignupRq:
		return "SIGNUPMSGSRQV1"
	case SignupRs:
		return "SIGNUPMSGSRSV1"
	case BankRq:
		return "BANKMSGSRQV1"
	case BankRs:
		return "BANKMSGSRSV1"
	case CreditCardRq:
		return "CREDITCARDMSGSRQV1"
	case CreditCardRs:
		return "CREDITCARDMSGSRSV1"
	case LoanRq:
		return "LOANMSGSRQV1"
	case LoanRs:
		return "LOANMSGSRSV1"
	case InvStmtRq:
		return "INVSTMTMSGSRQV1"
	case InvStmtRs:
		return "INVSTMTMSGSRSV1"
	case InterXferRq:
		return "INTERXFERMSGSRQV1"
	case InterXferRs:
		return "INTERXFERMSGSRSV1"
	case WireXferRq:
		return "WIREXFERMSGSRQV1"
	case WireXferRs:
		return "WIREXFERMSGSRSV1"
	case BillpayRq:
		return "BILLPAYMSGSRQV1"
	case BillpayRs:
		return "BILLPAYMSGSRSV1"
	case EmailRq:
		return "EMAILMSGSRQV1"
	case EmailRs:
		return "EMAILMSGSRSV1"
	case SecListRq:
		return "SECLISTMSGSRQV1"
	case SecListRs:
		return "SECLISTMSGSRSV1"
	case PresDirRq:
		return "PRESDIRMSGSRQV1"
	case PresDirRs:
		return "PRESDIRMSGSRSV1"
	case PresDlvRq:
		return "PRESDLVMSGSRQV1"
	case PresDlvRs:
		return "PRESDLVMSGSRSV1"
	case ProfRq:
		return "PROFMSGSRQV1"
	case ProfRs:
		return "PROFMSGSRSV1"
	case ImageRq:
		return "IMAGEMSGSRQV1"
	case ImageRs:
		return "IMAGEMSGSRSV1"
	}
	return ""
}

// message sets outside the table do not exist; printing one is a programming error
func C13__requires__messageType_String__known(p0 messageType) bool { return c13set(p0) != "" }

func C13__ensures__messageType_String__tag(p0 messageType, r0 string) bool { return r0 == c13set(p0) }

func C13__ensures__StatementRequest_Name__tag(p0 *StatementRequest, r0 string) bool {
	return r0 == "STMTTRNRQ"
}

func C13__ensures__StatementRequest_Type__set(p0 *StatementRequest, r0 messageType) bool {
	return r0 == BankRq
}

func C13__ensures__StatementResponse_Name__tag(p0 *StatementResponse, r0 string) bool {
	return r0 == "STMTTRNRS"
}

func C13__ensures__StatementResponse_Type__set(p0 *StatementResponse, r0 messageType) bool {
	return r0 == BankRs
}

func C13__ensures__CCStatementRequest_Name__tag(p0 *CCStatementRequest, r0 string) bool {
	return r0 == "CCSTMTTRNRQ"
}

func C13__ensures__CCStatementRequest_Type__set(p0 *CCStatementRequest, r0 messageType) bool {
	return r0 == CreditCardRq
}

func C13__ensures__CCStatementResponse_Name__tag(p0 *CCStatementResponse, r0 string) bool {
	return r0 == "CCSTMTTRNRS"
}

func C13__ensures__CCStatementResponse_Type__set(p0 *CCStatementResponse, r0 messageType) bool {
	return r0 == CreditCardRs
}

func C13__ensures__InvStatementRequest_Name__tag(p0 *InvStatementRequest, r0 string) bool {
	return r0 == "INVSTMTTRNRQ"
}

func C13__ensures__InvStatementRequest_Type__set(p0 *InvStatementRequest, r0 messageType) bool {
	return r0 == InvStmtRq
}

func C13__ensures__InvStatementResponse_Name__tag(p0 *InvStatementResponse, r0 string) bool {
	return r0 == "INVSTMTTRNRS"
}

func C13__ensures__InvStatementResponse_Type__set(p0 *InvStatementResponse, r0 messageType) bool {
	return r0 == InvStmtRs
}

func C13__ensures__ProfileRequest_Name__tag(p0 *ProfileRequest, r0 string) bool {
	return r0 == "PROFTRNRQ"
}

func C13__ensures__ProfileRequest_Type__set(p0 *ProfileRequest, r0 messageType) bool {
	return r0 == ProfRq
}

func C13__ensures__ProfileResponse_Name__tag(p0 *ProfileResponse, r0 string) bool {
	return r0 == "PROFTRNRS"
}

func C13__ensures__ProfileResponse_Type__set(p0 *ProfileResponse, r0 messageType) bool {
	return r0 == ProfRs
}

func C13__ensures__SecListRequest_Name__tag(p0 *SecListRequest, r0 string) bool {
	return r0 == "SECLISTTRNRQ"
}

func C13__ensures__SecListRequest_Type__set(p0 *SecListRequest, r0 messageType) bool {
	return r0 == SecListRq
}

func C13__ensures__SecListResponse_Name__tag(p0 *SecListResponse, r0 string) bool {
	return r0 == "SECLISTTRNRS"
}

func C13__ensures__SecListResponse_Type__set(p0 *SecListResponse, r0 messageType) bool {
	return r0 == SecListRs
}

func C13__ensures__SecurityList_Name__tag(p0 *SecurityList, r0 string) bool { return r0 == "SECLIST" }

func C13__ensures__SecurityList_Type__set(p0 *SecurityList, r0 messageType) bool {
	return r0 == SecListRs
}

func C13__ensures__AcctInfoRequest_Name__tag(p0 *AcctInfoRequest, r0 string) bool {
	return r0 == "ACCTINFOTRNRQ"
}

func C13__ensures__AcctInfoRequest_Type__set(p0 *AcctInfoRequest, r0 messageType) bool {
	return r0 == SignupRq
}

func C13__ensures__AcctInfoResponse_Name__tag(p0 *AcctInfoResponse, r0 string) bool {
	return r0 == "ACCTINFOTRNRS"
}

func C13__ensures__AcctInfoResponse_Type__set(p0 *AcctInfoResponse, r0 messageType) bool {
	return r0 == SignupRs
}

func C13__ensures__SignonRequest_Name__tag(p0 *SignonRequest, r0 string) bool { return r0 == "SONRQ" }

func C13__ensures__SignonResponse_Name__tag(p0 *SignonResponse, r0 string) bool { return r0 == "SONRS" }

func C13__ensures__BuyDebt_TransactionType__tag(p0 BuyDebt, r0 string) bool { return r0 == "BUYDEBT" }

func C13__ensures__BuyDebt_InvTransaction__own(p0 BuyDebt, r0 InvTran) bool {
	return same(r0, p0.InvBuy.InvTran)
}

func C13__ensures__BuyMF_TransactionType__tag(p0 BuyMF, r0 string) bool { return r0 == "BUYMF" }

func C13__ensures__BuyMF_InvTransaction__own(p0 BuyMF, r0 InvTran) bool {
	return same(r0, p0.InvBuy.InvTran)
}

func C13__ensures__BuyOpt_TransactionType__tag(p0 BuyOpt, r0 string) bool { return r0 == "BUYOPT" }

func C13__ensures__BuyOpt_InvTransaction__own(p0 BuyOpt, r0 InvTran) bool {
	return same(r0, p0.InvBuy.InvTran)
}

func C13__ensures__BuyOther_TransactionType__tag(p0 BuyOther, r0 string) bool {
	return r0 == "BUYOTHER"
}

func C13__ensures__BuyOther_InvTransaction__own(p0 BuyOther, r0 InvTran) bool {
	return same(r0, p0.InvBuy.InvTran)
}

func C13__ensures__BuyStock_TransactionType__tag(p0 BuyStock, r0 string) bool {
	return r0 == "BUYSTOCK"
}

func C13__ensures__BuyStock_InvTransaction__own(p0 BuyStock, r0 InvTran) bool {
	return same(r0, p0.InvBuy.InvTran)
}

func C13__ensures__ClosureOpt_TransactionType__tag(p0 ClosureOpt, r0 string) bool {
	return r0 == "CLOSUREOPT"
}

func C13__ensures__ClosureOpt_InvTransaction__own(p0 ClosureOpt, r0 InvTran) bool {
	return same(r0, p0.InvTran)
}

func C13__ensures__Income_TransactionType__tag(p0 Income, r0 string) bool { return r0 == "INCOME" }

func C13__ensures__Income_InvTransaction__own(p0 Income, r0 InvTran) bool {
	return same(r0, p0.InvTran)
}

func C13__ensures__InvExpense_TransactionType__tag(p0 InvExpense, r0 string) bool {
	return r0 == "INVEXPENSE"
}

func C13__ensures__InvExpense_InvTransaction__own(p0 InvExpense, r0 InvTran) bool {
	return same(r0, p0.InvTran)
}

func C13__ensures__JrnlFund_TransactionType__tag(p0 JrnlFund, r0 string) bool {
	return r0 == "JRNLFUND"
}

func C13__ensures__JrnlFund_InvTransaction__own(p0 JrnlFund, r0 InvTran) bool {
	return same(r0, p0.InvTran)
}

func C13__ensures__JrnlSec_TransactionType__tag(p0 JrnlSec, r0 string) bool { return r0 == "JRNLSEC" }

func C13__ensures__JrnlSec_InvTransaction__own(p0 JrnlSec, r0 InvTran) bool {
	return same(r0, p0.InvTran)
}

func C13__ensures__MarginInterest_TransactionType__tag(p0 MarginInterest, r0 string) bool {
	return r0 == "MARGININTEREST"
}

func C13__ensures__MarginInterest_InvTransaction__own(p0 MarginInterest, r0 InvTran) bool {
	return same(r0, p0.InvTran)
}

func C13__ensures__Reinvest_TransactionType__tag(p0 Reinvest, r0 string) bool {
	return r0 == "REINVEST"
}

func C13__ensures__Reinvest_InvTransaction__own(p0 Reinvest, r0 InvTran) bool {
	return same(r0, p0.InvTran)
}

func C13__ensures__RetOfCap_TransactionType__tag(p0 RetOfCap, r0 string) bool {
	return r0 == "RETOFCAP"
}

func C13__ensures__RetOfCap_InvTransaction__own(p0 RetOfCap, r0 InvTran) bool {
	return same(r0, p0.InvTran)
}

func C13__ensures__SellDebt_TransactionType__tag(p0 SellDebt, r0 string) bool {
	return r0 == "SELLDEBT"
}

func C13__ensures__SellDebt_InvTransaction__own(p0 SellDebt, r0 InvTran) bool {
	return same(r0, p0.InvSell.InvTran)
}

func C13__ensures__SellMF_TransactionType__tag(p0 SellMF, r0 string) bool { return r0 == "SELLMF" }

func C13__ensures__SellMF_InvTransaction__own(p0 SellMF, r0 InvTran) bool {
	return same(r0, p0.InvSell.InvTran)
}

func C13__ensures__SellOpt_TransactionType__tag(p0 SellOpt, r0 string) bool { return r0 == "SELLOPT" }

func C13__ensures__SellOpt_InvTransaction__own(p0 SellOpt, r0 InvTran) bool {
	return same(r0, p0.InvSell.InvTran)
}

func C13__ensures__SellOther_TransactionType__tag(p0 SellOther, r0 string) bool {
	return r0 == "SELLOTHER"
}

func C13__ensures__SellOther_InvTransaction__own(p0 SellOther, r0 InvTran) bool {
	return same(r0, p0.InvSell.InvTran)
}

func C13__ensures__SellStock_TransactionType__tag(p0 SellStock, r0 string) bool {
	return r0 == "SELLSTOCK"
}

func C13__ensures__SellStock_InvTransaction__own(p0 SellStock, r0 InvTran) bool {
	return same(r0, p0.InvSell.InvTran)
}

func C13__ensures__Split_TransactionType__tag(p0 Split, r0 string) bool { return r0 == "SPLIT" }

func C13__ensures__Split_InvTransaction__own(p0 Split, r0 InvTran) bool { return same(r0, p0.InvTran) }

func C13__ensures__Transfer_TransactionType__tag(p0 Transfer, r0 string) bool {
	return r0 == "TRANSFER"
}

func C13__ensures__Transfer_InvTransaction__own(p0 Transfer, r0 InvTran) bool {
	return same(r0, p0.InvTran)
}

func C13__ensures__DebtPosition_PositionType__tag(p0 DebtPosition, r0 string) bool {
	return r0 == "POSDEBT"
}

func C13__ensures__DebtPosition_InvPosition__own(p0 DebtPosition, r0 InvPosition) bool {
	return same(r0, p0.InvPos)
}

func C13__ensures__MFPosition_PositionType__tag(p0 MFPosition, r0 string) bool { return r0 == "POSMF" }

func C13__ensures__MFPosition_InvPosition__own(p0 MFPosition, r0 InvPosition) bool {
	return same(r0, p0.InvPos)
}

func C13__ensures__OptPosition_PositionType__tag(p0 OptPosition, r0 string) bool {
	return r0 == "POSOPT"
}

func C13__ensures__OptPosition_InvPosition__own(p0 OptPosition, r0 InvPosition) bool {
	return same(r0, p0.InvPos)
}

func C13__ensures__OtherPosition_PositionType__tag(p0 OtherPosition, r0 string) bool {
	return r0 == "POSOTHER"
}

func C13__ensures__OtherPosition_InvPosition__own(p0 OtherPosition, r0 InvPosition) bool {
	return same(r0, p0.InvPos)
}

func C13__ensures__StockPosition_PositionType__tag(p0 StockPosition, r0 string) bool {
	return r0 == "POSSTOCK"
}

func C13__ensures__StockPosition_InvPosition__own(p0 StockPosition, r0 InvPosition) bool {
	return same(r0, p0.InvPos)
}

func C13__ensures__OOBuyDebt_OrderType__tag(p0 OOBuyDebt, r0 string) bool { return r0 == "OOBUYDEBT" }

func C13__ensures__OOBuyMF_OrderType__tag(p0 OOBuyMF, r0 string) bool { return r0 == "OOBUYMF" }

func C13__ensures__OOBuyOpt_OrderType__tag(p0 OOBuyOpt, r0 string) bool { return r0 == "OOBUYOPT" }

func C13__ensures__OOBuyOther_OrderType__tag(p0 OOBuyOther, r0 string) bool {
	return r0 == "OOBUYOTHER"
}

func C13__ensures__OOBuyStock_OrderType__tag(p0 OOBuyStock, r0 string) bool {
	return r0 == "OOBUYSTOCK"
}

func C13__ensures__OOSellDebt_OrderType__tag(p0 OOSellDebt, r0 string) bool {
	return r0 == "OOSELLDEBT"
}

func C13__ensures__OOSellMF_OrderType__tag(p0 OOSellMF, r0 string) bool { return r0 == "OOSELLMF" }

func C13__ensures__OOSellOpt_OrderType__tag(p0 OOSellOpt, r0 string) bool { return r0 == "OOSELLOPT" }

func C13__ensures__OOSellOther_OrderType__tag(p0 OOSellOther, r0 string) bool {
	return r0 == "OOSELLOTHER"
}

func C13__ensures__OOSellStock_OrderType__tag(p0 OOSellStock, r0 string) bool {
	return r0 == "OOSELLSTOCK"
}

func C13__ensures__OOSwitchMF_OrderType__tag(p0 OOSwitchMF, r0 string) bool { return r0 == "SWITCHMF" }

func C13__ensures__DebtInfo_SecurityType__tag(p0 DebtInfo, r0 string) bool { return r0 == "DEBTINFO" }

func C13__ensures__DebtInfo_SecurityInfo__own(p0 DebtInfo, r0 SecInfo) bool {
	return same(r0, p0.SecInfo)
}

func C13__ensures__MFInfo_SecurityType__tag(p0 MFInfo, r0 string) bool { return r0 == "MFINFO" }

func C13__ensures__MFInfo_SecurityInfo__own(p0 MFInfo, r0 SecInfo) bool { return same(r0, p0.SecInfo) }

func C13__ensures__OptInfo_SecurityType__tag(p0 OptInfo, r0 string) bool { return r0 == "OPTINFO" }

func C13__ensures__OptInfo_SecurityInfo__own(p0 OptInfo, r0 SecInfo) bool {
	return same(r0, p0.SecInfo)
}

func C13__ensures__OtherInfo_SecurityType__tag(p0 OtherInfo, r0 string) bool {
	return r0 == "OTHERINFO"
}

func C13__ensures__OtherInfo_SecurityInfo__own(p0 OtherInfo, r0 SecInfo) bool {
	return same(r0, p0.SecInfo)
}

func C13__ensures__StockInfo_SecurityType__tag(p0 StockInfo, r0 string) bool {
	return r0 == "STOCKINFO"
}

func C13__ensures__StockInfo_SecurityInfo__own(p0 StockInfo, r0 SecInfo) bool {
	return same(r0, p0.SecInfo)
}
