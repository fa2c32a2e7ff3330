package ofxgo_test

//replay:use fill_test.go

// Generated by tools/mkc13.py.

import (
	"reflect"
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestReplayC13(t *testing.T) {
	eq := func(what, got, want string) {
		if got != want {
			failing(t, "%s is %q, want %q", what, got, want)
		}
	}
	same := func(what string, got, want interface{}) {
		if !reflect.DeepEqual(got, want) {
			failing(t, "%s is %+v, stored is %+v", what, got, want)
		}
	}
	rnd := newRand()
	for i := 0; i < rounds(20, 2000); i++ {
		if i < 2 {
			eq("set SignonRq", ofxgo.SignonRq.String(), "SIGNONMSGSRQV1")
			eq("set SignonRs", ofxgo.SignonRs.String(), "SIGNONMSGSRSV1")
			eq("set SignupRq", ofxgo.SignupRq.String(), "SIGNUPMSGSRQV1")
			eq("set SignupRs", ofxgo.SignupRs.String(), "SIGNUPMSGSRSV1")
			eq("set BankRq", ofxgo.BankRq.String(), "BANKMSGSRQV1")
			eq("set BankRs", ofxgo.BankRs.String(), "BANKMSGSRSV1")
			eq("set CreditCardRq", ofxgo.CreditCardRq.String(), "CREDITCARDMSGSRQV1")
			eq("set CreditCardRs", ofxgo.CreditCardRs.String(), "CREDITCARDMSGSRSV1")
			eq("set LoanRq", ofxgo.LoanRq.String(), "LOANMSGSRQV1")
			eq("set LoanRs", ofxgo.LoanRs.String(), "LOANMSGSRSV1")
			eq("set InvStmtRq", ofxgo.InvStmtRq.String(), "INVSTMTMSGSRQV1")
			eq("set InvStmtRs", ofxgo.InvStmtRs.String(), "INVSTMTMSGSRSV1")
			eq("set InterXferRq", ofxgo.InterXferRq.String(), "INTERXFERMSGSRQV1")
			eq("set InterXferRs", ofxgo.InterXferRs.String(), "INTERXFERMSGSRSV1")
			eq("set WireXferRq", ofxgo.WireXferRq.String(), "WIREXFERMSGSRQV1")
			eq("set WireXferRs", ofxgo.WireXferRs.String(), "WIREXFERMSGSRSV1")
			eq("set BillpayRq", ofxgo.BillpayRq.String(), "BILLPAYMSGSRQV1")
			eq("set BillpayRs", ofxgo.BillpayRs.String(), "BILLPAYMSGSRSV1")
			eq("set EmailRq", ofxgo.EmailRq.String(), "EMAILMSGSRQV1")
			eq("set EmailRs", ofxgo.EmailRs.String(), "EMAILMSGSRSV1")
			eq("set SecListRq", ofxgo.SecListRq.String(), "SECLISTMSGSRQV1")
			eq("set SecListRs", ofxgo.SecListRs.String(), "SECLISTMSGSRSV1")
			eq("set PresDirRq", ofxgo.PresDirRq.String(), "PRESDIRMSGSRQV1")
			eq("set PresDirRs", ofxgo.PresDirRs.String(), "PRESDIRMSGSRSV1")
			eq("set PresDlvRq", ofxgo.PresDlvRq.String(), "PRESDLVMSGSRQV1")
			eq("set PresDlvRs", ofxgo.PresDlvRs.String(), "PRESDLVMSGSRSV1")
			eq("set ProfRq", ofxgo.ProfRq.String(), "PROFMSGSRQV1")
			eq("set ProfRs", ofxgo.ProfRs.String(), "PROFMSGSRSV1")
			eq("set ImageRq", ofxgo.ImageRq.String(), "IMAGEMSGSRQV1")
			eq("set ImageRs", ofxgo.ImageRs.String(), "IMAGEMSGSRSV1")
		}
		{
			var v ofxgo.StatementRequest
			fill(rnd, &v, i)
			eq("StatementRequest.Name", v.Name(), "STMTTRNRQ")
			if v.Type() != ofxgo.BankRq {
				failing(t, "StatementRequest.Type is %v", v.Type())
			}
		}
		{
			var v ofxgo.StatementResponse
			fill(rnd, &v, i)
			eq("StatementResponse.Name", v.Name(), "STMTTRNRS")
			if v.Type() != ofxgo.BankRs {
				failing(t, "StatementResponse.Type is %v", v.Type())
			}
		}
		{
			var v ofxgo.CCStatementRequest
			fill(rnd, &v, i)
			eq("CCStatementRequest.Name", v.Name(), "CCSTMTTRNRQ")
			if v.Type() != ofxgo.CreditCardRq {
				failing(t, "CCStatementRequest.Type is %v", v.Type())
			}
		}
		{
			var v ofxgo.CCStatementResponse
			fill(rnd, &v, i)
			eq("CCStatementResponse.Name", v.Name(), "CCSTMTTRNRS")
			if v.Type() != ofxgo.CreditCardRs {
				failing(t, "CCStatementResponse.Type is %v", v.Type())
			}
		}
		{
			var v ofxgo.InvStatementRequest
			fill(rnd, &v, i)
			eq("InvStatementRequest.Name", v.Name(), "INVSTMTTRNRQ")
			if v.Type() != ofxgo.InvStmtRq {
				failing(t, "InvStatementRequest.Type is %v", v.Type())
			}
		}
		{
			var v ofxgo.InvStatementResponse
			fill(rnd, &v, i)
			eq("InvStatementResponse.Name", v.Name(), "INVSTMTTRNRS")
			if v.Type() != ofxgo.InvStmtRs {
				failing(t, "InvStatementResponse.Type is %v", v.Type())
			}
		}
		{
			var v ofxgo.ProfileRequest
			fill(rnd, &v, i)
			eq("ProfileRequest.Name", v.Name(), "PROFTRNRQ")
			if v.Type() != ofxgo.ProfRq {
				failing(t, "ProfileRequest.Type is %v", v.Type())
			}
		}
		{
			var v ofxgo.ProfileResponse
			fill(rnd, &v, i)
			eq("ProfileResponse.Name", v.Name(), "PROFTRNRS")
			if v.Type() != ofxgo.ProfRs {
				failing(t, "ProfileResponse.Type is %v", v.Type())
			}
		}
		{
			var v ofxgo.SecListRequest
			fill(rnd, &v, i)
			eq("SecListRequest.Name", v.Name(), "SECLISTTRNRQ")
			if v.Type() != ofxgo.SecListRq {
				failing(t, "SecListRequest.Type is %v", v.Type())
			}
		}
		{
			var v ofxgo.SecListResponse
			fill(rnd, &v, i)
			eq("SecListResponse.Name", v.Name(), "SECLISTTRNRS")
			if v.Type() != ofxgo.SecListRs {
				failing(t, "SecListResponse.Type is %v", v.Type())
			}
		}
		{
			var v ofxgo.SecurityList
			fill(rnd, &v, i)
			eq("SecurityList.Name", v.Name(), "SECLIST")
			if v.Type() != ofxgo.SecListRs {
				failing(t, "SecurityList.Type is %v", v.Type())
			}
		}
		{
			var v ofxgo.AcctInfoRequest
			fill(rnd, &v, i)
			eq("AcctInfoRequest.Name", v.Name(), "ACCTINFOTRNRQ")
			if v.Type() != ofxgo.SignupRq {
				failing(t, "AcctInfoRequest.Type is %v", v.Type())
			}
		}
		{
			var v ofxgo.AcctInfoResponse
			fill(rnd, &v, i)
			eq("AcctInfoResponse.Name", v.Name(), "ACCTINFOTRNRS")
			if v.Type() != ofxgo.SignupRs {
				failing(t, "AcctInfoResponse.Type is %v", v.Type())
			}
		}
		{
			var v ofxgo.SignonRequest
			fill(rnd, &v, i)
			eq("SignonRequest.Name", v.Name(), "SONRQ")
		}
		{
			var v ofxgo.SignonResponse
			fill(rnd, &v, i)
			eq("SignonResponse.Name", v.Name(), "SONRS")
		}
		{
			var v ofxgo.BuyDebt
			fill(rnd, &v, i)
			eq("BuyDebt.TransactionType", v.TransactionType(), "BUYDEBT")
			same("BuyDebt.InvTransaction", v.InvTransaction(), v.InvBuy.InvTran)
		}
		{
			var v ofxgo.BuyMF
			fill(rnd, &v, i)
			eq("BuyMF.TransactionType", v.TransactionType(), "BUYMF")
			same("BuyMF.InvTransaction", v.InvTransaction(), v.InvBuy.InvTran)
		}
		{
			var v ofxgo.BuyOpt
			fill(rnd, &v, i)
			eq("BuyOpt.TransactionType", v.TransactionType(), "BUYOPT")
			same("BuyOpt.InvTransaction", v.InvTransaction(), v.InvBuy.InvTran)
		}
		{
			var v ofxgo.BuyOther
			fill(rnd, &v, i)
			eq("BuyOther.TransactionType", v.TransactionType(), "BUYOTHER")
			same("BuyOther.InvTransaction", v.InvTransaction(), v.InvBuy.InvTran)
		}
		{
			var v ofxgo.BuyStock
			fill(rnd, &v, i)
			eq("BuyStock.TransactionType", v.TransactionType(), "BUYSTOCK")
			same("BuyStock.InvTransaction", v.InvTransaction(), v.InvBuy.InvTran)
		}
		{
			var v ofxgo.ClosureOpt
			fill(rnd, &v, i)
			eq("ClosureOpt.TransactionType", v.TransactionType(), "CLOSUREOPT")
			same("ClosureOpt.InvTransaction", v.InvTransaction(), v.InvTran)
		}
		{
			var v ofxgo.Income
			fill(rnd, &v, i)
			eq("Income.TransactionType", v.TransactionType(), "INCOME")
			same("Income.InvTransaction", v.InvTransaction(), v.InvTran)
		}
		{
			var v ofxgo.InvExpense
			fill(rnd, &v, i)
			eq("InvExpense.TransactionType", v.TransactionType(), "INVEXPENSE")
			same("InvExpense.InvTransaction", v.InvTransaction(), v.InvTran)
		}
		{
			var v ofxgo.JrnlFund
			fill(rnd, &v, i)
			eq("JrnlFund.TransactionType", v.TransactionType(), "JRNLFUND")
			same("JrnlFund.InvTransaction", v.InvTransaction(), v.InvTran)
		}
		{
			var v ofxgo.JrnlSec
			fill(rnd, &v, i)
			eq("JrnlSec.TransactionType", v.TransactionType(), "JRNLSEC")
			same("JrnlSec.InvTransaction", v.InvTransaction(), v.InvTran)
		}
		{
			var v ofxgo.MarginInterest
			fill(rnd, &v, i)
			eq("MarginInterest.TransactionType", v.TransactionType(), "MARGININTEREST")
			same("MarginInterest.InvTransaction", v.InvTransaction(), v.InvTran)
		}
		{
			var v ofxgo.Reinvest
			fill(rnd, &v, i)
			eq("Reinvest.TransactionType", v.TransactionType(), "REINVEST")
			same("Reinvest.InvTransaction", v.InvTransaction(), v.InvTran)
		}
		{
			var v ofxgo.RetOfCap
			fill(rnd, &v, i)
			eq("RetOfCap.TransactionType", v.TransactionType(), "RETOFCAP")
			same("RetOfCap.InvTransaction", v.InvTransaction(), v.InvTran)
		}
		{
			var v ofxgo.SellDebt
			fill(rnd, &v, i)
			eq("SellDebt.TransactionType", v.TransactionType(), "SELLDEBT")
			same("SellDebt.InvTransaction", v.InvTransaction(), v.InvSell.InvTran)
		}
		{
			var v ofxgo.SellMF
			fill(rnd, &v, i)
			eq("SellMF.TransactionType", v.TransactionType(), "SELLMF")
			same("SellMF.InvTransaction", v.InvTransaction(), v.InvSell.InvTran)
		}
		{
			var v ofxgo.SellOpt
			fill(rnd, &v, i)
			eq("SellOpt.TransactionType", v.TransactionType(), "SELLOPT")
			same("SellOpt.InvTransaction", v.InvTransaction(), v.InvSell.InvTran)
		}
		{
			var v ofxgo.SellOther
			fill(rnd, &v, i)
			eq("SellOther.TransactionType", v.TransactionType(), "SELLOTHER")
			same("SellOther.InvTransaction", v.InvTransaction(), v.InvSell.InvTran)
		}
		{
			var v ofxgo.SellStock
			fill(rnd, &v, i)
			eq("SellStock.TransactionType", v.TransactionType(), "SELLSTOCK")
			same("SellStock.InvTransaction", v.InvTransaction(), v.InvSell.InvTran)
		}
		{
			var v ofxgo.Split
			fill(rnd, &v, i)
			eq("Split.TransactionType", v.TransactionType(), "SPLIT")
			same("Split.InvTransaction", v.InvTransaction(), v.InvTran)
		}
		{
			var v ofxgo.Transfer
			fill(rnd, &v, i)
			eq("Transfer.TransactionType", v.TransactionType(), "TRANSFER")
			same("Transfer.InvTransaction", v.InvTransaction(), v.InvTran)
		}
		{
			var v ofxgo.DebtPosition
			fill(rnd, &v, i)
			eq("DebtPosition.PositionType", v.PositionType(), "POSDEBT")
			same("DebtPosition.InvPosition", v.InvPosition(), v.InvPos)
		}
		{
			var v ofxgo.MFPosition
			fill(rnd, &v, i)
			eq("MFPosition.PositionType", v.PositionType(), "POSMF")
			same("MFPosition.InvPosition", v.InvPosition(), v.InvPos)
		}
		{
			var v ofxgo.OptPosition
			fill(rnd, &v, i)
			eq("OptPosition.PositionType", v.PositionType(), "POSOPT")
			same("OptPosition.InvPosition", v.InvPosition(), v.InvPos)
		}
		{
			var v ofxgo.OtherPosition
			fill(rnd, &v, i)
			eq("OtherPosition.PositionType", v.PositionType(), "POSOTHER")
			same("OtherPosition.InvPosition", v.InvPosition(), v.InvPos)
		}
		{
			var v ofxgo.StockPosition
			fill(rnd, &v, i)
			eq("StockPosition.PositionType", v.PositionType(), "POSSTOCK")
			same("StockPosition.InvPosition", v.InvPosition(), v.InvPos)
		}
		{
			var v ofxgo.OOBuyDebt
			fill(rnd, &v, i)
			eq("OOBuyDebt.OrderType", v.OrderType(), "OOBUYDEBT")
		}
		{
			var v ofxgo.OOBuyMF
			fill(rnd, &v, i)
			eq("OOBuyMF.OrderType", v.OrderType(), "OOBUYMF")
		}
		{
			var v ofxgo.OOBuyOpt
			fill(rnd, &v, i)
			eq("OOBuyOpt.OrderType", v.OrderType(), "OOBUYOPT")
		}
		{
			var v ofxgo.OOBuyOther
			fill(rnd, &v, i)
			eq("OOBuyOther.OrderType", v.OrderType(), "OOBUYOTHER")
		}
		{
			var v ofxgo.OOBuyStock
			fill(rnd, &v, i)
			eq("OOBuyStock.OrderType", v.OrderType(), "OOBUYSTOCK")
		}
		{
			var v ofxgo.OOSellDebt
			fill(rnd, &v, i)
			eq("OOSellDebt.OrderType", v.OrderType(), "OOSELLDEBT")
		}
		{
			var v ofxgo.OOSellMF
			fill(rnd, &v, i)
			eq("OOSellMF.OrderType", v.OrderType(), "OOSELLMF")
		}
		{
			var v ofxgo.OOSellOpt
			fill(rnd, &v, i)
			eq("OOSellOpt.OrderType", v.OrderType(), "OOSELLOPT")
		}
		{
			var v ofxgo.OOSellOther
			fill(rnd, &v, i)
			eq("OOSellOther.OrderType", v.OrderType(), "OOSELLOTHER")
		}
		{
			var v ofxgo.OOSellStock
			fill(rnd, &v, i)
			eq("OOSellStock.OrderType", v.OrderType(), "OOSELLSTOCK")
		}
		{
			var v ofxgo.OOSwitchMF
			fill(rnd, &v, i)
			eq("OOSwitchMF.OrderType", v.OrderType(), "SWITCHMF")
		}
		{
			var v ofxgo.DebtInfo
			fill(rnd, &v, i)
			eq("DebtInfo.SecurityType", v.SecurityType(), "DEBTINFO")
			same("DebtInfo.SecurityInfo", v.SecurityInfo(), v.SecInfo)
		}
		{
			var v ofxgo.MFInfo
			fill(rnd, &v, i)
			eq("MFInfo.SecurityType", v.SecurityType(), "MFINFO")
			same("MFInfo.SecurityInfo", v.SecurityInfo(), v.SecInfo)
		}
		{
			var v ofxgo.OptInfo
			fill(rnd, &v, i)
			eq("OptInfo.SecurityType", v.SecurityType(), "OPTINFO")
			same("OptInfo.SecurityInfo", v.SecurityInfo(), v.SecInfo)
		}
		{
			var v ofxgo.OtherInfo
			fill(rnd, &v, i)
			eq("OtherInfo.SecurityType", v.SecurityType(), "OTHERINFO")
			same("OtherInfo.SecurityInfo", v.SecurityInfo(), v.SecInfo)
		}
		{
			var v ofxgo.StockInfo
			fill(rnd, &v, i)
			eq("StockInfo.SecurityType", v.SecurityType(), "STOCKINFO")
			same("StockInfo.SecurityInfo", v.SecurityInfo(), v.SecInfo)
		}
	}
}
