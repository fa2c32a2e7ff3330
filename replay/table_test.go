package ofxgo_test

// The elements of the structs of the package, in order (see tools/gen26.py).

type elementRow struct {
	path, field string
	omit        bool // if empty
}

var elementTable = map[string]struct {
	name string
	rows []elementRow
}{
	"StatementRequest": {"STMTTRNRQ", []elementRow{
		{"TRNUID", "TrnUID", false},
		{"CLTCOOKIE", "CltCookie", true},
		{"TAN", "TAN", true},
		{"STMTRQ>BANKACCTFROM", "BankAcctFrom", false},
		{"STMTRQ>INCTRAN>DTSTART", "DtStart", false},
		{"STMTRQ>INCTRAN>DTEND", "DtEnd", false},
		{"STMTRQ>INCTRAN>INCLUDE", "Include", false},
		{"STMTRQ>INCLUDEPENDING", "IncludePending", true},
		{"STMTRQ>INCTRANIMG", "IncTranImg", true},
	}},
	"Payee": {"PAYEE", []elementRow{
		{"NAME", "Name", false},
		{"ADDR1", "Addr1", false},
		{"ADDR2", "Addr2", true},
		{"ADDR3", "Addr3", true},
		{"CITY", "City", false},
		{"STATE", "State", false},
		{"POSTALCODE", "PostalCode", false},
		{"COUNTRY", "Country", true},
		{"PHONE", "Phone", false},
	}},
	"ImageData": {"IMAGEDATA", []elementRow{
		{"IMAGETYPE", "ImageType", false},
		{"IMAGEREF", "ImageRef", false},
		{"IMAGEREFTYPE", "ImageRefType", false},
		{"IMAGEDELAY", "ImageDelay", true},
		{"DTIMAGEAVAIL", "DtImageAvail", false},
		{"IMAGETTL", "ImageTTL", true},
		{"CHECKSUP", "CheckSup", false},
	}},
	"Transaction": {"STMTTRN", []elementRow{
		{"TRNTYPE", "TrnType", false},
		{"DTPOSTED", "DtPosted", false},
		{"DTUSER", "DtUser", false},
		{"DTAVAIL", "DtAvail", false},
		{"TRNAMT", "TrnAmt", false},
		{"FITID", "FiTID", false},
		{"CORRECTFITID", "CorrectFiTID", true},
		{"CORRECTACTION", "CorrectAction", false},
		{"SRVRTID", "SrvrTID", true},
		{"CHECKNUM", "CheckNum", true},
		{"REFNUM", "RefNum", true},
		{"SIC", "SIC", true},
		{"PAYEEID", "PayeeID", true},
		{"NAME", "Name", true},
		{"PAYEE", "Payee", false},
		{"EXTDNAME", "ExtdName", true},
		{"BANKACCTTO", "BankAcctTo", false},
		{"CCACCTTO", "CCAcctTo", false},
		{"MEMO", "Memo", true},
		{"IMAGEDATA", "ImageData", false},
		{"CURRENCY", "Currency", false},
		{"ORIGCURRENCY", "OrigCurrency", false},
		{"INV401KSOURCE", "Inv401kSource", false},
	}},
	"TransactionList": {"BANKTRANLIST", []elementRow{
		{"DTSTART", "DtStart", false},
		{"DTEND", "DtEnd", false},
		{"STMTTRN", "Transactions", false},
	}},
	"PendingTransaction": {"STMTTRNP", []elementRow{
		{"TRNTYPE", "TrnType", false},
		{"DTTRAN", "DtTran", false},
		{"DTEXPIRE", "DtExpire", false},
		{"TRNAMT", "TrnAmt", false},
		{"REFNUM", "RefNum", true},
		{"NAME", "Name", true},
		{"EXTDNAME", "ExtdName", true},
		{"MEMO", "Memo", true},
		{"IMAGEDATA", "ImageData", false},
		{"CURRENCY", "Currency", false},
		{"ORIGCURRENCY", "OrigCurrency", false},
	}},
	"PendingTransactionList": {"BANKTRANLISTP", []elementRow{
		{"DTASOF", "DtAsOf", false},
		{"STMTTRNP", "Transactions", false},
	}},
	"Balance": {"BAL", []elementRow{
		{"NAME", "Name", false},
		{"DESC", "Desc", false},
		{"BALTYPE", "BalType", false},
		{"VALUE", "Value", false},
		{"DTASOF", "DtAsOf", false},
		{"CURRENCY", "Currency", false},
	}},
	"StatementResponse": {"STMTTRNRS", []elementRow{
		{"TRNUID", "TrnUID", false},
		{"STATUS", "Status", false},
		{"CLTCOOKIE", "CltCookie", true},
		{"STMTRS>CURDEF", "CurDef", false},
		{"STMTRS>BANKACCTFROM", "BankAcctFrom", false},
		{"STMTRS>BANKTRANLIST", "BankTranList", false},
		{"STMTRS>BANKTRANLISTP", "BankTranListP", false},
		{"STMTRS>LEDGERBAL>BALAMT", "BalAmt", false},
		{"STMTRS>LEDGERBAL>DTASOF", "DtAsOf", false},
		{"STMTRS>AVAILBAL>BALAMT", "AvailBalAmt", false},
		{"STMTRS>AVAILBAL>DTASOF", "AvailDtAsOf", false},
		{"STMTRS>CASHADVBALAMT", "CashAdvBalAmt", false},
		{"STMTRS>INTRATE", "IntRate", false},
		{"STMTRS>BALLIST>BAL", "BalList", false},
		{"STMTRS>MKTGINFO", "MktgInfo", true},
	}},
	"Status": {"STATUS", []elementRow{
		{"CODE", "Code", false},
		{"SEVERITY", "Severity", false},
		{"MESSAGE", "Message", true},
	}},
	"BankAcct": {"", []elementRow{
		{"BANKID", "BankID", false},
		{"BRANCHID", "BranchID", true},
		{"ACCTID", "AcctID", false},
		{"ACCTTYPE", "AcctType", false},
		{"ACCTKEY", "AcctKey", true},
	}},
	"CCAcct": {"", []elementRow{
		{"ACCTID", "AcctID", false},
		{"ACCTKEY", "AcctKey", true},
	}},
	"InvAcct": {"", []elementRow{
		{"BROKERID", "BrokerID", false},
		{"ACCTID", "AcctID", false},
	}},
	"Currency": {"", []elementRow{
		{"CURRATE", "CurRate", false},
		{"CURSYM", "CurSym", false},
	}},
	"CCStatementRequest": {"CCSTMTTRNRQ", []elementRow{
		{"TRNUID", "TrnUID", false},
		{"CLTCOOKIE", "CltCookie", true},
		{"TAN", "TAN", true},
		{"CCSTMTRQ>CCACCTFROM", "CCAcctFrom", false},
		{"CCSTMTRQ>INCTRAN>DTSTART", "DtStart", false},
		{"CCSTMTRQ>INCTRAN>DTEND", "DtEnd", false},
		{"CCSTMTRQ>INCTRAN>INCLUDE", "Include", false},
		{"CCSTMTRQ>INCLUDEPENDING", "IncludePending", true},
		{"CCSTMTRQ>INCTRANIMG", "IncTranImg", true},
	}},
	"CCStatementResponse": {"CCSTMTTRNRS", []elementRow{
		{"TRNUID", "TrnUID", false},
		{"STATUS", "Status", false},
		{"CLTCOOKIE", "CltCookie", true},
		{"CCSTMTRS>CURDEF", "CurDef", false},
		{"CCSTMTRS>CCACCTFROM", "CCAcctFrom", false},
		{"CCSTMTRS>BANKTRANLIST", "BankTranList", false},
		{"CCSTMTRS>LEDGERBAL>BALAMT", "BalAmt", false},
		{"CCSTMTRS>LEDGERBAL>DTASOF", "DtAsOf", false},
		{"CCSTMTRS>AVAILBAL>BALAMT", "AvailBalAmt", false},
		{"CCSTMTRS>AVAILBAL>DTASOF", "AvailDtAsOf", false},
		{"CCSTMTRS>CASHADVBALAMT", "CashAdvBalAmt", false},
		{"CCSTMTRS>INTRATEPURCH", "IntRatePurch", false},
		{"CCSTMTRS>INTRATECASH", "IntRateCash", false},
		{"CCSTMTRS>INTRATEXFER", "IntRateXfer", false},
		{"CCSTMTRS>REWARDINFO>NAME", "RewardName", true},
		{"CCSTMTRS>REWARDINFO>REWARDBAL", "RewardBal", false},
		{"CCSTMTRS>REWARDINFO>REWARDEARNED", "RewardEarned", false},
		{"CCSTMTRS>BALLIST>BAL", "BalList", false},
		{"CCSTMTRS>MKTGINFO", "MktgInfo", true},
	}},
	"InvStatementRequest": {"INVSTMTTRNRQ", []elementRow{
		{"TRNUID", "TrnUID", false},
		{"CLTCOOKIE", "CltCookie", true},
		{"TAN", "TAN", true},
		{"INVSTMTRQ>INVACCTFROM", "InvAcctFrom", false},
		{"INVSTMTRQ>INCTRAN>DTSTART", "DtStart", false},
		{"INVSTMTRQ>INCTRAN>DTEND", "DtEnd", false},
		{"INVSTMTRQ>INCTRAN>INCLUDE", "Include", false},
		{"INVSTMTRQ>INCOO", "IncludeOO", false},
		{"INVSTMTRQ>INCPOS>DTASOF", "PosDtAsOf", false},
		{"INVSTMTRQ>INCPOS>INCLUDE", "IncludePos", false},
		{"INVSTMTRQ>INCBAL", "IncludeBalance", false},
		{"INVSTMTRQ>INC401K", "Include401K", true},
		{"INVSTMTRQ>INC401KBAL", "Include401KBal", true},
		{"INVSTMTRQ>INCTRANIMAGE", "IncludeTranImage", true},
	}},
	"InvTran": {"INVTRAN", []elementRow{
		{"FITID", "FiTID", false},
		{"SRVRTID", "SrvrTID", true},
		{"DTTRADE", "DtTrade", false},
		{"DTSETTLE", "DtSettle", false},
		{"REVERSALFITID", "ReversalFiTID", true},
		{"MEMO", "Memo", true},
	}},
	"InvBuy": {"INVBUY", []elementRow{
		{"INVTRAN", "InvTran", false},
		{"SECID", "SecID", false},
		{"UNITS", "Units", false},
		{"UNITPRICE", "UnitPrice", false},
		{"MARKUP", "Markup", false},
		{"COMMISSION", "Commission", false},
		{"TAXES", "Taxes", false},
		{"FEES", "Fees", false},
		{"LOAD", "Load", false},
		{"TOTAL", "Total", false},
		{"CURRENCY", "Currency", false},
		{"ORIGCURRENCY", "OrigCurrency", false},
		{"SUBACCTSEC", "SubAcctSec", false},
		{"SUBACCTFUND", "SubAcctFund", false},
		{"LOANID", "LoanID", true},
		{"LOANPRINCIPAL", "LoanPrincipal", false},
		{"LOANINTEREST", "LoanInterest", false},
		{"INV401KSOURCE", "Inv401kSource", false},
		{"DTPAYROLL", "DtPayroll", false},
		{"PRIORYEARCONTRIB", "PriorYearContrib", true},
	}},
	"InvSell": {"INVSELL", []elementRow{
		{"INVTRAN", "InvTran", false},
		{"SECID", "SecID", false},
		{"UNITS", "Units", false},
		{"UNITPRICE", "UnitPrice", false},
		{"MARKDOWN", "Markdown", false},
		{"COMMISSION", "Commission", false},
		{"TAXES", "Taxes", false},
		{"FEES", "Fees", false},
		{"LOAD", "Load", false},
		{"WITHHOLDING", "Withholding", false},
		{"TAXEXEMPT", "TaxExempt", true},
		{"TOTAL", "Total", false},
		{"GAIN", "Gain", false},
		{"CURRENCY", "Currency", false},
		{"ORIGCURRENCY", "OrigCurrency", false},
		{"SUBACCTSEC", "SubAcctSec", false},
		{"SUBACCTFUND", "SubAcctFund", false},
		{"LOANID", "LoanID", true},
		{"STATEWITHHOLDING", "StateWithholding", false},
		{"PENALTY", "Penalty", false},
		{"INV401KSOURCE", "Inv401kSource", false},
	}},
	"BuyDebt": {"BUYDEBT", []elementRow{
		{"INVBUY", "InvBuy", false},
		{"ACCRDINT", "AccrdInt", false},
	}},
	"BuyMF": {"BUYMF", []elementRow{
		{"INVBUY", "InvBuy", false},
		{"BUYTYPE", "BuyType", false},
		{"RELFITID", "RelFiTID", true},
	}},
	"BuyOpt": {"BUYOPT", []elementRow{
		{"INVBUY", "InvBuy", false},
		{"OPTBUYTYPE", "OptBuyType", false},
		{"SHPERCTRCT", "ShPerCtrct", false},
	}},
	"BuyOther": {"BUYOTHER", []elementRow{
		{"INVBUY", "InvBuy", false},
	}},
	"BuyStock": {"BUYSTOCK", []elementRow{
		{"INVBUY", "InvBuy", false},
		{"BUYTYPE", "BuyType", false},
	}},
	"ClosureOpt": {"CLOSUREOPT", []elementRow{
		{"INVTRAN", "InvTran", false},
		{"SECID", "SecID", false},
		{"OPTACTION", "OptAction", false},
		{"UNITS", "Units", false},
		{"SHPERCTRCT", "ShPerCtrct", false},
		{"SUBACCTSEC", "SubAcctSec", false},
		{"RELFITID", "RelFiTID", true},
		{"GAIN", "Gain", false},
	}},
	"Income": {"INCOME", []elementRow{
		{"INVTRAN", "InvTran", false},
		{"SECID", "SecID", false},
		{"INCOMETYPE", "IncomeType", false},
		{"TOTAL", "Total", false},
		{"SUBACCTSEC", "SubAcctSec", false},
		{"SUBACCTFUND", "SubAcctFund", false},
		{"TAXEXEMPT", "TaxExempt", true},
		{"WITHHOLDING", "Withholding", false},
		{"CURRENCY", "Currency", false},
		{"ORIGCURRENCY", "OrigCurrency", false},
		{"INV401KSOURCE", "Inv401kSource", false},
	}},
	"InvExpense": {"INVEXPENSE", []elementRow{
		{"INVTRAN", "InvTran", false},
		{"SECID", "SecID", false},
		{"TOTAL", "Total", false},
		{"SUBACCTSEC", "SubAcctSec", false},
		{"SUBACCTFUND", "SubAcctFund", false},
		{"CURRENCY", "Currency", false},
		{"ORIGCURRENCY", "OrigCurrency", false},
		{"INV401KSOURCE", "Inv401kSource", false},
	}},
	"JrnlFund": {"JRNLFUND", []elementRow{
		{"INVTRAN", "InvTran", false},
		{"TOTAL", "Total", false},
		{"SUBACCTFROM", "SubAcctFrom", false},
		{"SUBACCTTO", "SubAcctTo", false},
	}},
	"JrnlSec": {"JRNLSEC", []elementRow{
		{"INVTRAN", "InvTran", false},
		{"SECID", "SecID", false},
		{"SUBACCTFROM", "SubAcctFrom", false},
		{"SUBACCTTO", "SubAcctTo", false},
		{"UNITS", "Units", false},
	}},
	"MarginInterest": {"MARGININTEREST", []elementRow{
		{"INVTRAN", "InvTran", false},
		{"TOTAL", "Total", false},
		{"SUBACCTFUND", "SubAcctFund", false},
		{"CURRENCY", "Currency", false},
		{"ORIGCURRENCY", "OrigCurrency", false},
	}},
	"Reinvest": {"REINVEST", []elementRow{
		{"INVTRAN", "InvTran", false},
		{"SECID", "SecID", false},
		{"INCOMETYPE", "IncomeType", false},
		{"TOTAL", "Total", false},
		{"SUBACCTSEC", "SubAcctSec", false},
		{"UNITS", "Units", false},
		{"UNITPRICE", "UnitPrice", false},
		{"COMMISSION", "Commission", false},
		{"TAXES", "Taxes", false},
		{"FEES", "Fees", false},
		{"LOAD", "Load", false},
		{"TAXEXEMPT", "TaxExempt", true},
		{"CURRENCY", "Currency", false},
		{"ORIGCURRENCY", "OrigCurrency", false},
		{"INV401KSOURCE", "Inv401kSource", false},
	}},
	"RetOfCap": {"RETOFCAP", []elementRow{
		{"INVTRAN", "InvTran", false},
		{"SECID", "SecID", false},
		{"TOTAL", "Total", false},
		{"SUBACCTSEC", "SubAcctSec", false},
		{"SUBACCTFUND", "SubAcctFund", false},
		{"CURRENCY", "Currency", false},
		{"ORIGCURRENCY", "OrigCurrency", false},
		{"INV401KSOURCE", "Inv401kSource", false},
	}},
	"SellDebt": {"SELLDEBT", []elementRow{
		{"INVSELL", "InvSell", false},
		{"SELLREASON", "SellReason", false},
		{"ACCRDINT", "AccrdInt", false},
	}},
	"SellMF": {"SELLMF", []elementRow{
		{"INVSELL", "InvSell", false},
		{"SELLTYPE", "SellType", false},
		{"AVGCOSTBASIS", "AvgCostBasis", false},
		{"RELFITID", "RelFiTID", true},
	}},
	"SellOpt": {"SELLOPT", []elementRow{
		{"INVSELL", "InvSell", false},
		{"OPTSELLTYPE", "OptSellType", false},
		{"SHPERCTRCT", "ShPerCtrct", false},
		{"RELFITID", "RelFiTID", true},
		{"RELTYPE", "RelType", false},
		{"SECURED", "Secured", false},
	}},
	"SellOther": {"SELLOTHER", []elementRow{
		{"INVSELL", "InvSell", false},
	}},
	"SellStock": {"SELLSTOCK", []elementRow{
		{"INVSELL", "InvSell", false},
		{"SELLTYPE", "SellType", false},
	}},
	"Split": {"SPLIT", []elementRow{
		{"INVTRAN", "InvTran", false},
		{"SECID", "SecID", false},
		{"SUBACCTSEC", "SubAcctSec", false},
		{"OLDUNITS", "OldUnits", false},
		{"NEWUNITS", "NewUnits", false},
		{"NUMERATOR", "Numerator", false},
		{"DENOMINATOR", "Denominator", false},
		{"CURRENCY", "Currency", false},
		{"ORIGCURRENCY", "OrigCurrency", false},
		{"FRACCASH", "FracCash", false},
		{"SUBACCTFUND", "SubAcctFund", false},
		{"INV401KSOURCE", "Inv401kSource", false},
	}},
	"Transfer": {"TRANSFER", []elementRow{
		{"INVTRAN", "InvTran", false},
		{"SECID", "SecID", false},
		{"SUBACCTSEC", "SubAcctSec", false},
		{"UNITS", "Units", false},
		{"TFERACTION", "TferAction", false},
		{"POSTYPE", "PosType", false},
		{"INVACCTFROM", "InvAcctFrom", false},
		{"AVGCOSTBASIS", "AvgCostBasis", false},
		{"UNITPRICE", "UnitPrice", false},
		{"DTPURCHASE", "DtPurchase", false},
		{"INV401KSOURCE", "Inv401kSource", false},
	}},
	"InvBankTransaction": {"INVBANKTRAN", []elementRow{
		{"STMTTRN", "Transactions", false},
		{"SUBACCTFUND", "SubAcctFund", false},
	}},
	"InvPosition": {"INVPOS", []elementRow{
		{"SECID", "SecID", false},
		{"HELDINACCT", "HeldInAcct", false},
		{"POSTYPE", "PosType", false},
		{"UNITS", "Units", false},
		{"UNITPRICE", "UnitPrice", false},
		{"MKTVAL", "MktVal", false},
		{"AVGCOSTBASIS", "AvgCostBasis", false},
		{"DTPRICEASOF", "DtPriceAsOf", false},
		{"CURRENCY", "Currency", false},
		{"MEMO", "Memo", true},
		{"INV401KSOURCE", "Inv401kSource", false},
	}},
	"DebtPosition": {"POSDEBT", []elementRow{
		{"INVPOS", "InvPos", false},
	}},
	"MFPosition": {"POSMF", []elementRow{
		{"INVPOS", "InvPos", false},
		{"UNITSSTREET", "UnitsStreet", false},
		{"UNITSUSER", "UnitsUser", false},
		{"REINVDIV", "ReinvDiv", true},
		{"REINVCG", "ReinvCG", true},
	}},
	"OptPosition": {"POSOPT", []elementRow{
		{"INVPOS", "InvPos", false},
		{"SECURED", "Secured", false},
	}},
	"OtherPosition": {"POSOTHER", []elementRow{
		{"INVPOS", "InvPos", false},
	}},
	"StockPosition": {"POSSTOCK", []elementRow{
		{"INVPOS", "InvPos", false},
		{"UNITSSTREET", "UnitsStreet", false},
		{"UNITSUSER", "UnitsUser", false},
		{"REINVDIV", "ReinvDiv", true},
	}},
	"InvBalance": {"INVBAL", []elementRow{
		{"AVAILCASH", "AvailCash", false},
		{"MARGINBALANCE", "MarginBalance", false},
		{"SHORTBALANCE", "ShortBalance", false},
		{"BUYPOWER", "BuyPower", false},
		{"BALLIST>BAL", "BalList", false},
	}},
	"OO": {"OO", []elementRow{
		{"FITID", "FiTID", false},
		{"SRVRTID", "SrvrTID", true},
		{"SECID", "SecID", false},
		{"DTPLACED", "DtPlaced", false},
		{"UNITS", "Units", false},
		{"SUBACCT", "SubAcct", false},
		{"DURATION", "Duration", false},
		{"RESTRICTION", "Restriction", false},
		{"MINUNITS", "MinUnits", false},
		{"LIMITPRICE", "LimitPrice", false},
		{"STOPPRICE", "StopPrice", false},
		{"MEMO", "Memo", true},
		{"CURRENCY", "Currency", false},
		{"INV401KSOURCE", "Inv401kSource", false},
	}},
	"OOBuyDebt": {"OOBUYDEBT", []elementRow{
		{"OO", "OO", false},
		{"AUCTION", "Auction", false},
		{"DTAUCTION", "DtAuction", false},
	}},
	"OOBuyMF": {"OOBUYMF", []elementRow{
		{"OO", "OO", false},
		{"BUYTYPE", "BuyType", false},
		{"UNITTYPE", "UnitType", false},
	}},
	"OOBuyOpt": {"OOBUYOPT", []elementRow{
		{"OO", "OO", false},
		{"OPTBUYTYPE", "OptBuyType", false},
	}},
	"OOBuyOther": {"OOBUYOTHER", []elementRow{
		{"OO", "OO", false},
		{"UNITTYPE", "UnitType", false},
	}},
	"OOBuyStock": {"OOBUYSTOCK", []elementRow{
		{"OO", "OO", false},
		{"BUYTYPE", "BuyType", false},
	}},
	"OOSellDebt": {"OOSELLDEBT", []elementRow{
		{"OO", "OO", false},
	}},
	"OOSellMF": {"OOSELLMF", []elementRow{
		{"OO", "OO", false},
		{"SELLTYPE", "SellType", false},
		{"UNITTYPE", "UnitType", false},
		{"SELLALL", "SellAll", false},
	}},
	"OOSellOpt": {"OOSELLOPT", []elementRow{
		{"OO", "OO", false},
		{"OPTSELLTYPE", "OptSellType", false},
	}},
	"OOSellOther": {"OOSELLOTHER", []elementRow{
		{"OO", "OO", false},
		{"UNITTYPE", "UnitType", false},
	}},
	"OOSellStock": {"OOSELLSTOCK", []elementRow{
		{"OO", "OO", false},
		{"SELLTYPE", "SellType", false},
	}},
	"OOSwitchMF": {"SWITCHMF", []elementRow{
		{"OO", "OO", false},
		{"SECID", "SecID", false},
		{"UNITTYPE", "UnitType", false},
		{"SWITCHALL", "SwitchAll", false},
	}},
	"ContribSecurity": {"CONTRIBSECURITY", []elementRow{
		{"SECID", "SecID", false},
		{"PRETAXCONTRIBPCT", "PreTaxContribPct", false},
		{"PRETAXCONTRIBAMT", "PreTaxContribAmt", false},
		{"AFTERTAXCONTRIBPCT", "AfterTaxContribPct", false},
		{"AFTERTAXCONTRIBAMT", "AfterTaxContribAmt", false},
		{"MATCHCONTRIBPCT", "MatchContribPct", false},
		{"MATCHCONTRIBAMT", "MatchContribAmt", false},
		{"PROFITSHARINGCONTRIBPCT", "ProfitSharingContribPct", false},
		{"PROFITSHARINGCONTRIBAMT", "ProfitSharingContribAmt", false},
		{"ROLLOVERCONTRIBPCT", "RolloverContribPct", false},
		{"ROLLOVERCONTRIBAMT", "RolloverContribAmt", false},
		{"OTHERVESTPCT", "OtherVestPct", false},
		{"OTHERVESTAMT", "OtherVestAmt", false},
		{"OTHERNONVESTPCT", "OtherNonVestPct", false},
		{"OTHERNONVESTAMT", "OtherNonVestAmt", false},
	}},
	"VestInfo": {"VESTINFO", []elementRow{
		{"VESTDATE", "VestDate", false},
		{"VESTPCT", "VestPct", false},
	}},
	"LoanInfo": {"LOANINFO", []elementRow{
		{"LOANID", "LoanID", false},
		{"LOANDESC", "LoanDesc", true},
		{"INITIALLOANBAL", "InitialLoanBal", false},
		{"LOANSTARTDATE", "LoanStartDate", false},
		{"CURRENTLOANBAL", "CurrentLoanBal", false},
		{"DTASOF", "DtAsOf", false},
		{"LOANRATE", "LoanRate", false},
		{"LOANPMTAMT", "LoanPmtAmt", false},
		{"LOANPMTFREQ", "LoanPmtFreq", false},
		{"LOANPMTSINITIAL", "LoanPmtsInitial", true},
		{"LOANPMTSREMAINING", "LoanPmtsRemaining", true},
		{"LOANMATURITYDATE", "LoanMaturityDate", false},
		{"LOANTOTALPROJINTEREST", "LoanTotalProjInterest", false},
		{"LOANINTERESTTODATE", "LoanInterestToDate", false},
		{"LOANNEXTPMTDATE", "LoanExtPmtDate", false},
	}},
	"Inv401KSummaryAggregate": {"", []elementRow{
		{"PRETAX", "PreTax", false},
		{"AFTERTAX", "AfterTax", false},
		{"MATCH", "Match", false},
		{"PROFITSHARING", "ProfitSharing", false},
		{"ROLLOVER", "Rollover", false},
		{"OTHERVEST", "OtherVest", false},
		{"OTHERNONVEST", "OtherNonVest", false},
		{"TOTAL", "Total", false},
	}},
	"Inv401KSummaryPeriod": {"", []elementRow{
		{"DTSTART", "DtStart", false},
		{"DTEND", "DtEnd", false},
		{"CONTRIBUTIONS", "Contributions", false},
		{"WITHDRAWALS", "Withdrawls", false},
		{"EARNINGS", "Earnings", false},
	}},
	"Inv401K": {"INV401K", []elementRow{
		{"EMPLOYERNAME", "EmployerName", false},
		{"PLANID", "PlanID", true},
		{"PLANJOINDATE", "PlanJoinDate", false},
		{"EMPLOYERCONTACTINFO", "EmployerContactInfo", true},
		{"BROKERCONTACTINFO", "BrokerContactInfo", true},
		{"DEFERPCTPRETAX", "DeferPctPreTax", false},
		{"DEFERPCTAFTERTAX", "DeferPctAfterTax", false},
		{"MATCHINFO>MATCHPCT", "MatchPct", false},
		{"MATCHINFO>MAXMATCHAMT", "MaxMatchAmt", false},
		{"MATCHINFO>MAXMATCHPCT", "MaxMatchPct", false},
		{"MATCHINFO>STARTOFYEAR", "StartOfYear", false},
		{"MATCHINFO>BASEMATCHAMT", "BaseMatchAmt", false},
		{"MATCHINFO>BASEMATCHPCT", "BaseMatchPct", false},
		{"CONTRIBINFO>CONTRIBSECURITY", "ContribInfo", false},
		{"CURRENTVESTPCT", "CurrentVestPct", false},
		{"VESTINFO", "VestInfo", false},
		{"LOANINFO", "LoanInfo", false},
		{"INV401KSUMMARY>YEARTODATE", "YearToDateSummary", false},
		{"INV401KSUMMARY>INCEPTODATE", "InceptToDateSummary", false},
		{"INV401KSUMMARY>PERIODTODATE", "PeriodToDate", false},
	}},
	"Inv401KBal": {"INV401KBAL", []elementRow{
		{"CASHBAL", "CashBal", false},
		{"PRETAX", "PreTax", false},
		{"AFTERTAX", "AfterTax", false},
		{"MATCH", "Match", false},
		{"PROFITSHARING", "ProfitSharing", false},
		{"ROLLOVER", "Rollover", false},
		{"OTHERVEST", "OtherVest", false},
		{"OTHERNONVEST", "OtherNonVest", false},
		{"TOTAL", "Total", false},
		{"BALLIST>BAL", "BalList", false},
	}},
	"InvStatementResponse": {"INVSTMTTRNRS", []elementRow{
		{"TRNUID", "TrnUID", false},
		{"STATUS", "Status", false},
		{"CLTCOOKIE", "CltCookie", true},
		{"INVSTMTRS>DTASOF", "DtAsOf", false},
		{"INVSTMTRS>CURDEF", "CurDef", false},
		{"INVSTMTRS>INVACCTFROM", "InvAcctFrom", false},
		{"INVSTMTRS>INVTRANLIST", "InvTranList", false},
		{"INVSTMTRS>INVPOSLIST", "InvPosList", false},
		{"INVSTMTRS>INVBAL", "InvBal", false},
		{"INVSTMTRS>INVOOLIST", "InvOOList", false},
		{"INVSTMTRS>MKTGINFO", "MktgInfo", true},
		{"INVSTMTRS>INV401K", "Inv401K", false},
		{"INVSTMTRS>INV401KBAL", "Inv401KBal", false},
	}},
	"ProfileRequest": {"PROFTRNRQ", []elementRow{
		{"TRNUID", "TrnUID", false},
		{"CLTCOOKIE", "CltCookie", true},
		{"TAN", "TAN", true},
		{"PROFRQ>CLIENTROUTING", "ClientRouting", false},
		{"PROFRQ>DTPROFUP", "DtProfUp", false},
	}},
	"SignonInfo": {"SIGNONINFO", []elementRow{
		{"SIGNONREALM", "SignonRealm", false},
		{"MIN", "Min", false},
		{"MAX", "Max", false},
		{"CHARTYPE", "CharType", false},
		{"CASESEN", "CaseSen", false},
		{"SPECIAL", "Special", false},
		{"SPACES", "Spaces", false},
		{"PINCH", "PinCh", false},
		{"CHGPINFIRST", "ChgPinFirst", false},
		{"USERCRED1LABEL", "UserCred1Label", true},
		{"USERCRED2LABEL", "UserCred2Label", true},
		{"CLIENTUIDREQ", "ClientUIDReq", true},
		{"AUTHTOKENFIRST", "AuthTokenFirst", true},
		{"AUTHTOKENLABEL", "AuthTokenLabel", true},
		{"AUTHTOKENINFOURL", "AuthTokenInfoURL", true},
		{"MFACHALLENGESUPT", "MFAChallengeSupt", true},
		{"MFACHALLENGEFIRST", "MFAChallengeFIRST", true},
		{"ACCESSTOKENREQ", "AccessTokenReq", true},
	}},
	"MessageSet": {"", []elementRow{
		{"MSGSETCORE>VER", "Ver", false},
		{"MSGSETCORE>URL", "URL", false},
		{"MSGSETCORE>OFXSEC", "OfxSec", false},
		{"MSGSETCORE>TRANSPSEC", "TranspSec", false},
		{"MSGSETCORE>SIGNONREALM", "SignonRealm", false},
		{"MSGSETCORE>LANGUAGE", "Language", false},
		{"MSGSETCORE>SYNCMODE", "SyncMode", false},
		{"MSGSETCORE>REFRESHSUPT", "RefreshSupt", true},
		{"MSGSETCORE>RESPFILEER", "RespFileER", false},
		{"MSGSETCORE>SPNAME", "SpName", false},
	}},
	"ProfileResponse": {"PROFTRNRS", []elementRow{
		{"TRNUID", "TrnUID", false},
		{"STATUS", "Status", false},
		{"CLTCOOKIE", "CltCookie", true},
		{"PROFRS>MSGSETLIST", "MessageSetList", false},
		{"PROFRS>SIGNONINFOLIST>SIGNONINFO", "SignonInfoList", false},
		{"PROFRS>DTPROFUP", "DtProfUp", false},
		{"PROFRS>FINAME", "FiName", false},
		{"PROFRS>ADDR1", "Addr1", false},
		{"PROFRS>ADDR2", "Addr2", true},
		{"PROFRS>ADDR3", "Addr3", true},
		{"PROFRS>CITY", "City", false},
		{"PROFRS>STATE", "State", false},
		{"PROFRS>POSTALCODE", "PostalCode", false},
		{"PROFRS>COUNTRY", "Country", false},
		{"PROFRS>CSPHONE", "CsPhone", true},
		{"PROFRS>TSPHONE", "TsPhone", true},
		{"PROFRS>FAXPHONE", "FaxPhone", true},
		{"PROFRS>URL", "URL", true},
		{"PROFRS>EMAIL", "Email", true},
	}},
	"SecurityID": {"SECID", []elementRow{
		{"UNIQUEID", "UniqueID", false},
		{"UNIQUEIDTYPE", "UniqueIDType", false},
	}},
	"SecurityRequest": {"SECRQ", []elementRow{
		{"SECID", "SecID", false},
		{"TICKER", "Ticker", true},
		{"FIID", "FiID", true},
	}},
	"SecListRequest": {"SECLISTTRNRQ", []elementRow{
		{"TRNUID", "TrnUID", false},
		{"CLTCOOKIE", "CltCookie", true},
		{"TAN", "TAN", true},
		{"SECLISTRQ>SECRQ", "Securities", false},
	}},
	"SecListResponse": {"SECLISTTRNRS", []elementRow{
		{"TRNUID", "TrnUID", false},
		{"STATUS", "Status", false},
		{"CLTCOOKIE", "CltCookie", true},
	}},
	"SecInfo": {"SECINFO", []elementRow{
		{"SECID", "SecID", false},
		{"SECNAME", "SecName", false},
		{"TICKER", "Ticker", true},
		{"FIID", "FiID", true},
		{"RATING", "Rating", true},
		{"UNITPRICE", "UnitPrice", false},
		{"DTASOF", "DtAsOf", false},
		{"CURRENCY", "Currency", false},
		{"MEMO", "Memo", true},
	}},
	"DebtInfo": {"DEBTINFO", []elementRow{
		{"SECINFO", "SecInfo", false},
		{"PARVALUE", "ParValue", false},
		{"DEBTTYPE", "DebtType", false},
		{"DEBTCLASS", "DebtClass", false},
		{"COUPONRT", "CouponRate", false},
		{"DTCOUPON", "DtCoupon", false},
		{"COUPONFREQ", "CouponFreq", false},
		{"CALLPRICE", "CallPrice", false},
		{"YIELDTOCALL", "YieldToCall", false},
		{"DTCALL", "DtCall", false},
		{"CALLTYPE", "CallType", false},
		{"YIELDTOMAT", "YieldToMat", false},
		{"DTMAT", "DtMat", false},
		{"ASSETCLASS", "AssetClass", false},
		{"FIASSETCLASS", "FiAssetClass", true},
	}},
	"AssetPortion": {"PORTION", []elementRow{
		{"ASSETCLASS", "AssetClass", false},
		{"PERCENT", "Percent", false},
	}},
	"FiAssetPortion": {"FIPORTION", []elementRow{
		{"FIASSETCLASS", "FiAssetClass", true},
		{"PERCENT", "Percent", false},
	}},
	"MFInfo": {"MFINFO", []elementRow{
		{"SECINFO", "SecInfo", false},
		{"MFTYPE", "MfType", false},
		{"YIELD", "Yield", false},
		{"DTYIELDASOF", "DtYieldAsOf", false},
		{"MFASSETCLASS>PORTION", "AssetClasses", false},
		{"FIMFASSETCLASS>FIPORTION", "FiAssetClasses", false},
	}},
	"OptInfo": {"OPTINFO", []elementRow{
		{"SECINFO", "SecInfo", false},
		{"OPTTYPE", "OptType", false},
		{"STRIKEPRICE", "StrikePrice", false},
		{"DTEXPIRE", "DtExpire", false},
		{"SHPERCTRCT", "ShPerCtrct", false},
		{"SECID", "SecID", false},
		{"ASSETCLASS", "AssetClass", false},
		{"FIASSETCLASS", "FiAssetClass", true},
	}},
	"OtherInfo": {"OTHERINFO", []elementRow{
		{"SECINFO", "SecInfo", false},
		{"TYPEDESC", "TypeDesc", true},
		{"ASSETCLASS", "AssetClass", false},
		{"FIASSETCLASS", "FiAssetClass", true},
	}},
	"StockInfo": {"STOCKINFO", []elementRow{
		{"SECINFO", "SecInfo", false},
		{"STOCKTYPE", "StockType", false},
		{"YIELD", "Yield", false},
		{"DTYIELDASOF", "DtYieldAsOf", false},
		{"ASSETCLASS", "AssetClass", false},
		{"FIASSETCLASS", "FiAssetClass", true},
	}},
	"SignonRequest": {"SONRQ", []elementRow{
		{"DTCLIENT", "DtClient", false},
		{"USERID", "UserID", false},
		{"USERPASS", "UserPass", true},
		{"USERKEY", "UserKey", true},
		{"GENUSERKEY", "GenUserKey", true},
		{"LANGUAGE", "Language", false},
		{"FI>ORG", "Org", false},
		{"FI>FID", "Fid", false},
		{"APPID", "AppID", false},
		{"APPVER", "AppVer", false},
		{"CLIENTUID", "ClientUID", true},
	}},
	"SignonResponse": {"SONRS", []elementRow{
		{"STATUS", "Status", false},
		{"DTSERVER", "DtServer", false},
		{"USERKEY", "UserKey", true},
		{"TSKEYEXPIRE", "TsKeyExpire", false},
		{"LANGUAGE", "Language", false},
		{"DTPROFUP", "DtProfUp", false},
		{"DTACCTUP", "DtAcctUp", false},
		{"FI>ORG", "Org", false},
		{"FI>FID", "Fid", false},
		{"SESSCOOKIE", "SessCookie", true},
		{"ACCESSKEY", "AccessKey", true},
	}},
	"AcctInfoRequest": {"ACCTINFOTRNRQ", []elementRow{
		{"TRNUID", "TrnUID", false},
		{"CLTCOOKIE", "CltCookie", true},
		{"TAN", "TAN", true},
		{"ACCTINFORQ>DTACCTUP", "DtAcctUp", false},
	}},
	"HolderInfo": {"", []elementRow{
		{"FIRSTNAME", "FirstName", false},
		{"MIDDLENAME", "MiddleName", true},
		{"LASTNAME", "LastName", false},
		{"ADDR1", "Addr1", false},
		{"ADDR2", "Addr2", true},
		{"ADDR3", "Addr3", true},
		{"CITY", "City", false},
		{"STATE", "State", false},
		{"POSTALCODE", "PostalCode", false},
		{"COUNTRY", "Country", true},
		{"DAYPHONE", "DayPhone", true},
		{"EVEPHONE", "EvePhone", true},
		{"EMAIL", "Email", true},
		{"HOLDERTYPE", "HolderType", false},
	}},
	"BankAcctInfo": {"BANKACCTINFO", []elementRow{
		{"BANKACCTFROM", "BankAcctFrom", false},
		{"SUPTXDL", "SupTxDl", false},
		{"XFERSRC", "XferSrc", false},
		{"XFERDEST", "XferDest", false},
		{"MATURITYDATE", "MaturityDate", false},
		{"MATURITYAMOUNT", "MaturityAmt", false},
		{"MINBALREQ", "MinBalReq", false},
		{"ACCTCLASSIFICATION", "AcctClassification", false},
		{"OVERDRAFTLIMIT", "OverdraftLimit", false},
		{"SVCSTATUS", "SvcStatus", false},
	}},
	"CCAcctInfo": {"CCACCTINFO", []elementRow{
		{"CCACCTFROM", "CCAcctFrom", false},
		{"SUPTXDL", "SupTxDl", false},
		{"XFERSRC", "XferSrc", false},
		{"XFERDEST", "XferDest", false},
		{"ACCTCLASSIFICATION", "AcctClassification", false},
		{"SVCSTATUS", "SvcStatus", false},
	}},
	"InvAcctInfo": {"INVACCTINFO", []elementRow{
		{"INVACCTFROM", "InvAcctFrom", false},
		{"USPRODUCTTYPE", "UsProductType", false},
		{"CHECKING", "Checking", false},
		{"SVCSTATUS", "SvcStatus", false},
		{"INVACCTTYPE", "InvAcctType", false},
		{"OPTIONLEVEL", "OptionLevel", true},
	}},
	"AcctInfo": {"ACCTINFO", []elementRow{
		{"NAME", "Name", true},
		{"DESC", "Desc", true},
		{"PHONE", "Phone", true},
		{"HOLDERINFO>PRIMARYHOLDER", "PrimaryHolder", false},
		{"HOLDERINFO>SECONDARYHOLDER", "SecondaryHolder", false},
		{"BANKACCTINFO", "BankAcctInfo", false},
		{"CCACCTINFO", "CCAcctInfo", false},
		{"INVACCTINFO", "InvAcctInfo", false},
	}},
	"AcctInfoResponse": {"ACCTINFOTRNRS", []elementRow{
		{"TRNUID", "TrnUID", false},
		{"STATUS", "Status", false},
		{"CLTCOOKIE", "CltCookie", true},
		{"ACCTINFORS>DTACCTUP", "DtAcctUp", false},
		{"ACCTINFORS>ACCTINFO", "AcctInfo", false},
	}},
}
