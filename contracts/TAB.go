//go:build go1.21

package ofxgo

// The spellings of enumerated values. Generated by tools/mkc01.py from
// tools/enums.json.

func c01spellingOfxVersion(e ofxVersion) string {
	switch e {
	case OfxVersion102:
		return "102"
	case OfxVersion103:
		return "103"
	case OfxVersion151:
		return "151"
	case OfxVersion160:
		return "160"
	case OfxVersion200:
		return "200"
	case OfxVersion201:
		return "201"
	case OfxVersion202:
		return "202"
	case OfxVersion203:
		return "203"
	case OfxVersion210:
		return "210"
	case OfxVersion211:
		return "211"
	case OfxVersion220:
		return "220"
	}
	return ""
}

func c01valueOfxVersion(s string) ofxVersion {
	switch s {
	case "102":
		return OfxVersion102
	case "103":
		return OfxVersion103
	case "151":
		return OfxVersion151
	case "160":
		return OfxVersion160
	case "200":
		return OfxVersion200
	case "201":
		return OfxVersion201
	case "202":
		return OfxVersion202
	case "203":
		return OfxVersion203
	case "210":
		return OfxVersion210
	case "211":
		return OfxVersion211
	case "220":
		return OfxVersion220
	}
	return 0
}

func c01spellingAcctType(e acctType) string {
	switch e {
	case AcctTypeChecking:
		return "CHECKING"
	case AcctTypeSavings:
		return "SAVINGS"
	case AcctTypeMoneyMrkt:
		return "MONEYMRKT"
	case AcctTypeCreditLine:
		return "CREDITLINE"
	case AcctTypeCD:
		return "CD"
	}
	return ""
}

func c01valueAcctType(s string) acctType {
	switch s {
	case "CHECKING":
		return AcctTypeChecking
	case "SAVINGS":
		return AcctTypeSavings
	case "MONEYMRKT":
		return AcctTypeMoneyMrkt
	case "CREDITLINE":
		return AcctTypeCreditLine
	case "CD":
		return AcctTypeCD
	}
	return 0
}

func c01spellingTrnType(e trnType) string {
	switch e {
	case TrnTypeCredit:
		return "CREDIT"
	case TrnTypeDebit:
		return "DEBIT"
	case TrnTypeInt:
		return "INT"
	case TrnTypeDiv:
		return "DIV"
	case TrnTypeFee:
		return "FEE"
	case TrnTypeSrvChg:
		return "SRVCHG"
	case TrnTypeDep:
		return "DEP"
	case TrnTypeATM:
		return "ATM"
	case TrnTypePOS:
		return "POS"
	case TrnTypeXfer:
		return "XFER"
	case TrnTypeCheck:
		return "CHECK"
	case TrnTypePayment:
		return "PAYMENT"
	case TrnTypeCash:
		return "CASH"
	case TrnTypeDirectDep:
		return "DIRECTDEP"
	case TrnTypeDirectDebit:
		return "DIRECTDEBIT"
	case TrnTypeRepeatPmt:
		return "REPEATPMT"
	case TrnTypeHold:
		return "HOLD"
	case TrnTypeOther:
		return "OTHER"
	}
	return ""
}

func c01valueTrnType(s string) trnType {
	switch s {
	case "CREDIT":
		return TrnTypeCredit
	case "DEBIT":
		return TrnTypeDebit
	case "INT":
		return TrnTypeInt
	case "DIV":
		return TrnTypeDiv
	case "FEE":
		return TrnTypeFee
	case "SRVCHG":
		return TrnTypeSrvChg
	case "DEP":
		return TrnTypeDep
	case "ATM":
		return TrnTypeATM
	case "POS":
		return TrnTypePOS
	case "XFER":
		return TrnTypeXfer
	case "CHECK":
		return TrnTypeCheck
	case "PAYMENT":
		return TrnTypePayment
	case "CASH":
		return TrnTypeCash
	case "DIRECTDEP":
		return TrnTypeDirectDep
	case "DIRECTDEBIT":
		return TrnTypeDirectDebit
	case "REPEATPMT":
		return TrnTypeRepeatPmt
	case "HOLD":
		return TrnTypeHold
	case "OTHER":
		return TrnTypeOther
	}
	return 0
}

func c01spellingImageType(e imageType) string {
	switch e {
	case ImageTypeStatement:
		return "STATEMENT"
	case ImageTypeTransaction:
		return "TRANSACTION"
	case ImageTypeTax:
		return "TAX"
	}
	return ""
}

func c01valueImageType(s string) imageType {
	switch s {
	case "STATEMENT":
		return ImageTypeStatement
	case "TRANSACTION":
		return ImageTypeTransaction
	case "TAX":
		return ImageTypeTax
	}
	return 0
}

func c01spellingImageRefType(e imageRefType) string {
	switch e {
	case ImageRefTypeOpaque:
		return "OPAQUE"
	case ImageRefTypeURL:
		return "URL"
	case ImageRefTypeFormURL:
		return "FORMURL"
	}
	return ""
}

func c01valueImageRefType(s string) imageRefType {
	switch s {
	case "OPAQUE":
		return ImageRefTypeOpaque
	case "URL":
		return ImageRefTypeURL
	case "FORMURL":
		return ImageRefTypeFormURL
	}
	return 0
}

func c01spellingCheckSup(e checkSup) string {
	switch e {
	case CheckSupFrontOnly:
		return "FRONTONLY"
	case CheckSupBackOnly:
		return "BACKONLY"
	case CheckSupFrontAndBack:
		return "FRONTANDBACK"
	}
	return ""
}

func c01valueCheckSup(s string) checkSup {
	switch s {
	case "FRONTONLY":
		return CheckSupFrontOnly
	case "BACKONLY":
		return CheckSupBackOnly
	case "FRONTANDBACK":
		return CheckSupFrontAndBack
	}
	return 0
}

func c01spellingCorrectAction(e correctAction) string {
	switch e {
	case CorrectActionDelete:
		return "DELETE"
	case CorrectActionReplace:
		return "REPLACE"
	}
	return ""
}

func c01valueCorrectAction(s string) correctAction {
	switch s {
	case "DELETE":
		return CorrectActionDelete
	case "REPLACE":
		return CorrectActionReplace
	}
	return 0
}

func c01spellingBalType(e balType) string {
	switch e {
	case BalTypeDollar:
		return "DOLLAR"
	case BalTypePercent:
		return "PERCENT"
	case BalTypeNumber:
		return "NUMBER"
	}
	return ""
}

func c01valueBalType(s string) balType {
	switch s {
	case "DOLLAR":
		return BalTypeDollar
	case "PERCENT":
		return BalTypePercent
	case "NUMBER":
		return BalTypeNumber
	}
	return 0
}

func c01spellingInv401kSource(e inv401kSource) string {
	switch e {
	case Inv401kSourcePreTax:
		return "PRETAX"
	case Inv401kSourceAfterTax:
		return "AFTERTAX"
	case Inv401kSourceMatch:
		return "MATCH"
	case Inv401kSourceProfitSharing:
		return "PROFITSHARING"
	case Inv401kSourceRollover:
		return "ROLLOVER"
	case Inv401kSourceOtherVest:
		return "OTHERVEST"
	case Inv401kSourceOtherNonVest:
		return "OTHERNONVEST"
	}
	return ""
}

func c01valueInv401kSource(s string) inv401kSource {
	switch s {
	case "PRETAX":
		return Inv401kSourcePreTax
	case "AFTERTAX":
		return Inv401kSourceAfterTax
	case "MATCH":
		return Inv401kSourceMatch
	case "PROFITSHARING":
		return Inv401kSourceProfitSharing
	case "ROLLOVER":
		return Inv401kSourceRollover
	case "OTHERVEST":
		return Inv401kSourceOtherVest
	case "OTHERNONVEST":
		return Inv401kSourceOtherNonVest
	}
	return 0
}

func c01spellingSubAcctType(e subAcctType) string {
	switch e {
	case SubAcctTypeCash:
		return "CASH"
	case SubAcctTypeMargin:
		return "MARGIN"
	case SubAcctTypeShort:
		return "SHORT"
	case SubAcctTypeOther:
		return "OTHER"
	}
	return ""
}

func c01valueSubAcctType(s string) subAcctType {
	switch s {
	case "CASH":
		return SubAcctTypeCash
	case "MARGIN":
		return SubAcctTypeMargin
	case "SHORT":
		return SubAcctTypeShort
	case "OTHER":
		return SubAcctTypeOther
	}
	return 0
}

func c01spellingBuyType(e buyType) string {
	switch e {
	case BuyTypeBuy:
		return "BUY"
	case BuyTypeBuyToCover:
		return "BUYTOCOVER"
	}
	return ""
}

func c01valueBuyType(s string) buyType {
	switch s {
	case "BUY":
		return BuyTypeBuy
	case "BUYTOCOVER":
		return BuyTypeBuyToCover
	}
	return 0
}

func c01spellingOptAction(e optAction) string {
	switch e {
	case OptActionExercise:
		return "EXERCISE"
	case OptActionAssign:
		return "ASSIGN"
	case OptActionExpire:
		return "EXPIRE"
	}
	return ""
}

func c01valueOptAction(s string) optAction {
	switch s {
	case "EXERCISE":
		return OptActionExercise
	case "ASSIGN":
		return OptActionAssign
	case "EXPIRE":
		return OptActionExpire
	}
	return 0
}

func c01spellingTferAction(e tferAction) string {
	switch e {
	case TferActionIn:
		return "IN"
	case TferActionOut:
		return "OUT"
	}
	return ""
}

func c01valueTferAction(s string) tferAction {
	switch s {
	case "IN":
		return TferActionIn
	case "OUT":
		return TferActionOut
	}
	return 0
}

func c01spellingPosType(e posType) string {
	switch e {
	case PosTypeLong:
		return "LONG"
	case PosTypeShort:
		return "SHORT"
	}
	return ""
}

func c01valuePosType(s string) posType {
	switch s {
	case "LONG":
		return PosTypeLong
	case "SHORT":
		return PosTypeShort
	}
	return 0
}

func c01spellingSecured(e secured) string {
	switch e {
	case SecuredNaked:
		return "NAKED"
	case SecuredCovered:
		return "COVERED"
	}
	return ""
}

func c01valueSecured(s string) secured {
	switch s {
	case "NAKED":
		return SecuredNaked
	case "COVERED":
		return SecuredCovered
	}
	return 0
}

func c01spellingDuration(e duration) string {
	switch e {
	case DurationDay:
		return "DAY"
	case DurationGoodTilCancel:
		return "GOODTILCANCEL"
	case DurationImmediate:
		return "IMMEDIATE"
	}
	return ""
}

func c01valueDuration(s string) duration {
	switch s {
	case "DAY":
		return DurationDay
	case "GOODTILCANCEL":
		return DurationGoodTilCancel
	case "IMMEDIATE":
		return DurationImmediate
	}
	return 0
}

func c01spellingRestriction(e restriction) string {
	switch e {
	case RestrictionAllOrNone:
		return "ALLORNONE"
	case RestrictionMinUnits:
		return "MINUNITS"
	case RestrictionNone:
		return "NONE"
	}
	return ""
}

func c01valueRestriction(s string) restriction {
	switch s {
	case "ALLORNONE":
		return RestrictionAllOrNone
	case "MINUNITS":
		return RestrictionMinUnits
	case "NONE":
		return RestrictionNone
	}
	return 0
}

func c01spellingUnitType(e unitType) string {
	switch e {
	case UnitTypeShares:
		return "SHARES"
	case UnitTypeCurrency:
		return "CURRENCY"
	}
	return ""
}

func c01valueUnitType(s string) unitType {
	switch s {
	case "SHARES":
		return UnitTypeShares
	case "CURRENCY":
		return UnitTypeCurrency
	}
	return 0
}

func c01spellingOptBuyType(e optBuyType) string {
	switch e {
	case OptBuyTypeBuyToOpen:
		return "BUYTOOPEN"
	case OptBuyTypeBuyToClose:
		return "BUYTOCLOSE"
	}
	return ""
}

func c01valueOptBuyType(s string) optBuyType {
	switch s {
	case "BUYTOOPEN":
		return OptBuyTypeBuyToOpen
	case "BUYTOCLOSE":
		return OptBuyTypeBuyToClose
	}
	return 0
}

func c01spellingSellType(e sellType) string {
	switch e {
	case SellTypeSell:
		return "SELL"
	case SellTypeSellShort:
		return "SELLSHORT"
	}
	return ""
}

func c01valueSellType(s string) sellType {
	switch s {
	case "SELL":
		return SellTypeSell
	case "SELLSHORT":
		return SellTypeSellShort
	}
	return 0
}

func c01spellingLoanPmtFreq(e loanPmtFreq) string {
	switch e {
	case LoanPmtFreqWeekly:
		return "WEEKLY"
	case LoanPmtFreqBiweekly:
		return "BIWEEKLY"
	case LoanPmtFreqTwiceMonthly:
		return "TWICEMONTHLY"
	case LoanPmtFreqMonthly:
		return "MONTHLY"
	case LoanPmtFreqFourWeeks:
		return "FOURWEEKS"
	case LoanPmtFreqBiMonthly:
		return "BIMONTHLY"
	case LoanPmtFreqQuarterly:
		return "QUARTERLY"
	case LoanPmtFreqSemiannually:
		return "SEMIANNUALLY"
	case LoanPmtFreqAnnually:
		return "ANNUALLY"
	case LoanPmtFreqOther:
		return "OTHER"
	}
	return ""
}

func c01valueLoanPmtFreq(s string) loanPmtFreq {
	switch s {
	case "WEEKLY":
		return LoanPmtFreqWeekly
	case "BIWEEKLY":
		return LoanPmtFreqBiweekly
	case "TWICEMONTHLY":
		return LoanPmtFreqTwiceMonthly
	case "MONTHLY":
		return LoanPmtFreqMonthly
	case "FOURWEEKS":
		return LoanPmtFreqFourWeeks
	case "BIMONTHLY":
		return LoanPmtFreqBiMonthly
	case "QUARTERLY":
		return LoanPmtFreqQuarterly
	case "SEMIANNUALLY":
		return LoanPmtFreqSemiannually
	case "ANNUALLY":
		return LoanPmtFreqAnnually
	case "OTHER":
		return LoanPmtFreqOther
	}
	return 0
}

func c01spellingIncomeType(e incomeType) string {
	switch e {
	case IncomeTypeCGLong:
		return "CGLONG"
	case IncomeTypeCGShort:
		return "CGSHORT"
	case IncomeTypeDiv:
		return "DIV"
	case IncomeTypeInterest:
		return "INTEREST"
	case IncomeTypeMisc:
		return "MISC"
	}
	return ""
}

func c01valueIncomeType(s string) incomeType {
	switch s {
	case "CGLONG":
		return IncomeTypeCGLong
	case "CGSHORT":
		return IncomeTypeCGShort
	case "DIV":
		return IncomeTypeDiv
	case "INTEREST":
		return IncomeTypeInterest
	case "MISC":
		return IncomeTypeMisc
	}
	return 0
}

func c01spellingSellReason(e sellReason) string {
	switch e {
	case SellReasonCall:
		return "CALL"
	case SellReasonSell:
		return "SELL"
	case SellReasonMaturity:
		return "MATURITY"
	}
	return ""
}

func c01valueSellReason(s string) sellReason {
	switch s {
	case "CALL":
		return SellReasonCall
	case "SELL":
		return SellReasonSell
	case "MATURITY":
		return SellReasonMaturity
	}
	return 0
}

func c01spellingOptSellType(e optSellType) string {
	switch e {
	case OptSellTypeSellToClose:
		return "SELLTOCLOSE"
	case OptSellTypeSellToOpen:
		return "SELLTOOPEN"
	}
	return ""
}

func c01valueOptSellType(s string) optSellType {
	switch s {
	case "SELLTOCLOSE":
		return OptSellTypeSellToClose
	case "SELLTOOPEN":
		return OptSellTypeSellToOpen
	}
	return 0
}

func c01spellingRelType(e relType) string {
	switch e {
	case RelTypeSpread:
		return "SPREAD"
	case RelTypeStraddle:
		return "STRADDLE"
	case RelTypeNone:
		return "NONE"
	case RelTypeOther:
		return "OTHER"
	}
	return ""
}

func c01valueRelType(s string) relType {
	switch s {
	case "SPREAD":
		return RelTypeSpread
	case "STRADDLE":
		return RelTypeStraddle
	case "NONE":
		return RelTypeNone
	case "OTHER":
		return RelTypeOther
	}
	return 0
}

func c01spellingCharType(e charType) string {
	switch e {
	case CharTypeAlphaOnly:
		return "ALPHAONLY"
	case CharTypeNumericOnly:
		return "NUMERICONLY"
	case CharTypeAlphaOrNumeric:
		return "ALPHAORNUMERIC"
	case CharTypeAlphaAndNumeric:
		return "ALPHAANDNUMERIC"
	}
	return ""
}

func c01valueCharType(s string) charType {
	switch s {
	case "ALPHAONLY":
		return CharTypeAlphaOnly
	case "NUMERICONLY":
		return CharTypeNumericOnly
	case "ALPHAORNUMERIC":
		return CharTypeAlphaOrNumeric
	case "ALPHAANDNUMERIC":
		return CharTypeAlphaAndNumeric
	}
	return 0
}

func c01spellingSyncMode(e syncMode) string {
	switch e {
	case SyncModeFull:
		return "FULL"
	case SyncModeLite:
		return "LITE"
	}
	return ""
}

func c01valueSyncMode(s string) syncMode {
	switch s {
	case "FULL":
		return SyncModeFull
	case "LITE":
		return SyncModeLite
	}
	return 0
}

func c01spellingOfxSec(e ofxSec) string {
	switch e {
	case OfxSecNone:
		return "NONE"
	case OfxSecType1:
		return "TYPE 1"
	}
	return ""
}

func c01valueOfxSec(s string) ofxSec {
	switch s {
	case "NONE":
		return OfxSecNone
	case "TYPE 1":
		return OfxSecType1
	}
	return 0
}

func c01spellingDebtType(e debtType) string {
	switch e {
	case DebtTypeCoupon:
		return "COUPON"
	case DebtTypeZero:
		return "ZERO"
	}
	return ""
}

func c01valueDebtType(s string) debtType {
	switch s {
	case "COUPON":
		return DebtTypeCoupon
	case "ZERO":
		return DebtTypeZero
	}
	return 0
}

func c01spellingDebtClass(e debtClass) string {
	switch e {
	case DebtClassTreasury:
		return "TREASURY"
	case DebtClassMunicipal:
		return "MUNICIPAL"
	case DebtClassCorporate:
		return "CORPORATE"
	case DebtClassOther:
		return "OTHER"
	}
	return ""
}

func c01valueDebtClass(s string) debtClass {
	switch s {
	case "TREASURY":
		return DebtClassTreasury
	case "MUNICIPAL":
		return DebtClassMunicipal
	case "CORPORATE":
		return DebtClassCorporate
	case "OTHER":
		return DebtClassOther
	}
	return 0
}

func c01spellingCouponFreq(e couponFreq) string {
	switch e {
	case CouponFreqMonthly:
		return "MONTHLY"
	case CouponFreqQuarterly:
		return "QUARTERLY"
	case CouponFreqSemiannual:
		return "SEMIANNUAL"
	case CouponFreqAnnual:
		return "ANNUAL"
	case CouponFreqOther:
		return "OTHER"
	}
	return ""
}

func c01valueCouponFreq(s string) couponFreq {
	switch s {
	case "MONTHLY":
		return CouponFreqMonthly
	case "QUARTERLY":
		return CouponFreqQuarterly
	case "SEMIANNUAL":
		return CouponFreqSemiannual
	case "ANNUAL":
		return CouponFreqAnnual
	case "OTHER":
		return CouponFreqOther
	}
	return 0
}

func c01spellingCallType(e callType) string {
	switch e {
	case CallTypeCall:
		return "CALL"
	case CallTypePut:
		return "PUT"
	case CallTypePrefund:
		return "PREFUND"
	case CallTypeMaturity:
		return "MATURITY"
	}
	return ""
}

func c01valueCallType(s string) callType {
	switch s {
	case "CALL":
		return CallTypeCall
	case "PUT":
		return CallTypePut
	case "PREFUND":
		return CallTypePrefund
	case "MATURITY":
		return CallTypeMaturity
	}
	return 0
}

func c01spellingAssetClass(e assetClass) string {
	switch e {
	case AssetClassDomesticBond:
		return "DOMESTICBOND"
	case AssetClassIntlBond:
		return "INTLBOND"
	case AssetClassLargeStock:
		return "LARGESTOCK"
	case AssetClassSmallStock:
		return "SMALLSTOCK"
	case AssetClassIntlStock:
		return "INTLSTOCK"
	case AssetClassMoneyMrkt:
		return "MONEYMRKT"
	case AssetClassOther:
		return "OTHER"
	}
	return ""
}

func c01valueAssetClass(s string) assetClass {
	switch s {
	case "DOMESTICBOND":
		return AssetClassDomesticBond
	case "INTLBOND":
		return AssetClassIntlBond
	case "LARGESTOCK":
		return AssetClassLargeStock
	case "SMALLSTOCK":
		return AssetClassSmallStock
	case "INTLSTOCK":
		return AssetClassIntlStock
	case "MONEYMRKT":
		return AssetClassMoneyMrkt
	case "OTHER":
		return AssetClassOther
	}
	return 0
}

func c01spellingMfType(e mfType) string {
	switch e {
	case MfTypeOpenEnd:
		return "OPENEND"
	case MfTypeCloseEnd:
		return "CLOSEEND"
	case MfTypeOther:
		return "OTHER"
	}
	return ""
}

func c01valueMfType(s string) mfType {
	switch s {
	case "OPENEND":
		return MfTypeOpenEnd
	case "CLOSEEND":
		return MfTypeCloseEnd
	case "OTHER":
		return MfTypeOther
	}
	return 0
}

func c01spellingOptType(e optType) string {
	switch e {
	case OptTypePut:
		return "PUT"
	case OptTypeCall:
		return "CALL"
	}
	return ""
}

func c01valueOptType(s string) optType {
	switch s {
	case "PUT":
		return OptTypePut
	case "CALL":
		return OptTypeCall
	}
	return 0
}

func c01spellingStockType(e stockType) string {
	switch e {
	case StockTypeCommon:
		return "COMMON"
	case StockTypePreferred:
		return "PREFERRED"
	case StockTypeConvertible:
		return "CONVERTIBLE"
	case StockTypeOther:
		return "OTHER"
	}
	return ""
}

func c01valueStockType(s string) stockType {
	switch s {
	case "COMMON":
		return StockTypeCommon
	case "PREFERRED":
		return StockTypePreferred
	case "CONVERTIBLE":
		return StockTypeConvertible
	case "OTHER":
		return StockTypeOther
	}
	return 0
}

func c01spellingHolderType(e holderType) string {
	switch e {
	case HolderTypeIndividual:
		return "INDIVIDUAL"
	case HolderTypeJoint:
		return "JOINT"
	case HolderTypeCustodial:
		return "CUSTODIAL"
	case HolderTypeTrust:
		return "TRUST"
	case HolderTypeOther:
		return "OTHER"
	}
	return ""
}

func c01valueHolderType(s string) holderType {
	switch s {
	case "INDIVIDUAL":
		return HolderTypeIndividual
	case "JOINT":
		return HolderTypeJoint
	case "CUSTODIAL":
		return HolderTypeCustodial
	case "TRUST":
		return HolderTypeTrust
	case "OTHER":
		return HolderTypeOther
	}
	return 0
}

func c01spellingAcctClassification(e acctClassification) string {
	switch e {
	case AcctClassificationPersonal:
		return "PERSONAL"
	case AcctClassificationBusiness:
		return "BUSINESS"
	case AcctClassificationCorporate:
		return "CORPORATE"
	case AcctClassificationOther:
		return "OTHER"
	}
	return ""
}

func c01valueAcctClassification(s string) acctClassification {
	switch s {
	case "PERSONAL":
		return AcctClassificationPersonal
	case "BUSINESS":
		return AcctClassificationBusiness
	case "CORPORATE":
		return AcctClassificationCorporate
	case "OTHER":
		return AcctClassificationOther
	}
	return 0
}

func c01spellingSvcStatus(e svcStatus) string {
	switch e {
	case SvcStatusAvail:
		return "AVAIL"
	case SvcStatusPend:
		return "PEND"
	case SvcStatusActive:
		return "ACTIVE"
	}
	return ""
}

func c01valueSvcStatus(s string) svcStatus {
	switch s {
	case "AVAIL":
		return SvcStatusAvail
	case "PEND":
		return SvcStatusPend
	case "ACTIVE":
		return SvcStatusActive
	}
	return 0
}

func c01spellingUsProductType(e usProductType) string {
	switch e {
	case UsProductType401K:
		return "401K"
	case UsProductType403B:
		return "403B"
	case UsProductTypeIRA:
		return "IRA"
	case UsProductTypeKEOGH:
		return "KEOGH"
	case UsProductTypeOther:
		return "OTHER"
	case UsProductTypeSARSEP:
		return "SARSEP"
	case UsProductTypeSimple:
		return "SIMPLE"
	case UsProductTypeNormal:
		return "NORMAL"
	case UsProductTypeTDA:
		return "TDA"
	case UsProductTypeTrust:
		return "TRUST"
	case UsProductTypeUGMA:
		return "UGMA"
	}
	return ""
}

func c01valueUsProductType(s string) usProductType {
	switch s {
	case "401K":
		return UsProductType401K
	case "403B":
		return UsProductType403B
	case "IRA":
		return UsProductTypeIRA
	case "KEOGH":
		return UsProductTypeKEOGH
	case "OTHER":
		return UsProductTypeOther
	case "SARSEP":
		return UsProductTypeSARSEP
	case "SIMPLE":
		return UsProductTypeSimple
	case "NORMAL":
		return UsProductTypeNormal
	case "TDA":
		return UsProductTypeTDA
	case "TRUST":
		return UsProductTypeTrust
	case "UGMA":
		return UsProductTypeUGMA
	}
	return 0
}
