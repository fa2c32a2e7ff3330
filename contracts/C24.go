//go:build go1.21

package ofxgo

// Decoding, validating and marshalling end, and don't crash.

//govc:use MSG
//govc:progress
//govc:trusted every token and every element the XML decoder returns without an error consumes input (or closes one of finitely many open elements)

import (
	"bufio"
)

// vTicks counts what has consumed input. No input is so long that it overflows.
var vTicks int

var g24Begin int

func c24tick(err error) {
	if err == nil {
		vAssume(vTicks < 1<<60)
		vTicks++
	}
}

func C24__after__xml_Decoder_Token__tick(r1 error)         { c24tick(r1) }
func C24__after__xml_Decoder_DecodeElement__tick(r0 error) { c24tick(r0) }
func C24__after__xml_Decoder_Decode__tick(r0 error)        { c24tick(r0) }

func C24__setup__nextNonWhitespaceToken__begin() { g24Begin = vTicks }

func C24__contract__nextNonWhitespaceToken__ends() bool { return true }
func C24__ensures__nextNonWhitespaceToken__consumes(r1 error) bool {
	return r1 != nil || vTicks > g24Begin
}
func C24__inv__nextNonWhitespaceToken__consumed() bool { return vTicks >= g24Begin && vTicks < 1<<61 }

// For its callers.
func C24__after__nextNonWhitespaceToken__tick(r1 error) { c24tick(r1) }

func C24__requires__Response_Valid__noNil(p0 *Response) bool   { return msgResponseNoNil(p0) }
func C24__requires__Response_Marshal__noNil(p0 *Response) bool { return msgResponseNoNil(p0) }
func C24__requires__Request_Marshal__noNil(p0 *Request) bool   { return msgRequestNoNil(p0) }
func C24__requires__encodeMessageSet__noNil(p1 []Message, p2 messageType) bool {
	return msgNoNil(p1) && c24known(p2)
}
func C24__requires__messageType_String__known(p0 messageType) bool { return c24known(p0) }

func c24known(t messageType) bool {
	return t >= SignonRq && t <= ImageRs || t >= SignonRs && t <= ImageRs
}

func C24__contract__encodeMessageSet__ends() bool { return true }

func C24__contract__decodeMessageSet__ends() bool { return true }
func C24__modifies__decodeMessageSet__messages(p2 *[]Message) []interface{} {
	return []interface{}{p2}
}

func vBufferSize(r *bufio.Reader) int { return 0 }

func C24__contract__guessVersion__ends() bool                   { return true }
func C24__requires__guessVersion__buffer(p0 *bufio.Reader) bool { return vBufferSize(p0) >= 1024 }

func C24__contract__Response_readSGMLHeaders__ends() bool { return true }
func C24__modifies__Response_readSGMLHeaders__version(p0 *Response, p1 *bufio.Reader) []interface{} {
	return []interface{}{&p0.Version, p1}
}

func C24__contract__Response_readXMLHeaders__ends() bool { return true }
func C24__modifies__Response_readXMLHeaders__version(p0 *Response) []interface{} {
	return []interface{}{&p0.Version}
}

// C08: its messages are those decoded, each into a value of its own.
func C24__assume__DecodeResponse__noNil(r0 *Response, r1 error) bool {
	return r1 != nil || r0 != nil && msgResponseNoNil(r0)
}
func C24__ensures__DecodeResponse__ends() bool { return true }

func C24__ensures__ParseResponse__ends() bool { return true }

func C24__assume__Message_Valid__any() bool                { return true }
func C24__assume__Message_Name__any() bool                 { return true }
func C24__assume__Message_Type__known(r0 messageType) bool { return c24known(r0) }

func C24__requires__InvTranList_MarshalXML__noNil(p0 *InvTranList) bool {
	return forall(len(p0.InvTransactions), func(i int) bool { return p0.InvTransactions[i] != nil })
}
func C24__requires__OOList_MarshalXML__noNil(p0 OOList) bool {
	return forall(len(p0), func(i int) bool { return p0[i] != nil })
}
func C24__requires__PositionList_MarshalXML__noNil(p0 PositionList) bool {
	return forall(len(p0), func(i int) bool { return p0[i] != nil })
}
func C24__requires__SecurityList_MarshalXML__noNil(p0 *SecurityList) bool {
	return forall(len(p0.Securities), func(i int) bool { return p0.Securities[i] != nil })
}

func C24__modifies__SignonRequest_Valid__language(p0 *SignonRequest) []interface{} {
	return []interface{}{p0}
}
func C24__modifies__ProfileRequest_Valid__routing(p0 *ProfileRequest) []interface{} {
	return []interface{}{p0}
}

func C24__requires__errInvalid_Error__noNil(p0 errInvalid) bool {
	return forall(len(p0), func(i int) bool { return p0[i] != nil })
}

// ---- The functions

func C24__ensures__StatementRequest_Name__ends() bool                    { return true }
func C24__contract__StatementRequest_Valid__ends() bool                  { return true }
func C24__ensures__StatementRequest_Type__known(r0 messageType) bool     { return c24known(r0) }
func C24__contract__Payee_Valid__ends() bool                             { return true }
func C24__contract__Transaction_Valid__ends() bool                       { return true }
func C24__contract__TransactionList_Valid__ends() bool                   { return true }
func C24__contract__PendingTransaction_Valid__ends() bool                { return true }
func C24__contract__PendingTransactionList_Valid__ends() bool            { return true }
func C24__contract__Balance_Valid__ends() bool                           { return true }
func C24__ensures__StatementResponse_Name__ends() bool                   { return true }
func C24__contract__StatementResponse_Valid__ends() bool                 { return true }
func C24__ensures__StatementResponse_Type__known(r0 messageType) bool    { return c24known(r0) }
func C24__ensures__messageType_String__ends() bool                       { return true }
func C24__contract__Status_Valid__ends() bool                            { return true }
func C24__ensures__Status_CodeMeaning__ends() bool                       { return true }
func C24__ensures__Status_CodeConditions__ends() bool                    { return true }
func C24__contract__BankAcct_Valid__ends() bool                          { return true }
func C24__contract__CCAcct_Valid__ends() bool                            { return true }
func C24__contract__Currency_Valid__ends() bool                          { return true }
func C24__ensures__ofxVersion_Valid__ends() bool                         { return true }
func C24__ensures__ofxVersion_String__ends() bool                        { return true }
func C24__ensures__ofxVersion_UnmarshalXML__ends() bool                  { return true }
func C24__ensures__ofxVersion_MarshalXML__ends() bool                    { return true }
func C24__ensures__NewOfxVersion__ends() bool                            { return true }
func C24__ensures__acctType_Valid__ends() bool                           { return true }
func C24__ensures__acctType_String__ends() bool                          { return true }
func C24__ensures__acctType_UnmarshalXML__ends() bool                    { return true }
func C24__ensures__acctType_MarshalXML__ends() bool                      { return true }
func C24__ensures__NewAcctType__ends() bool                              { return true }
func C24__ensures__trnType_Valid__ends() bool                            { return true }
func C24__ensures__trnType_String__ends() bool                           { return true }
func C24__ensures__trnType_UnmarshalXML__ends() bool                     { return true }
func C24__ensures__trnType_MarshalXML__ends() bool                       { return true }
func C24__ensures__NewTrnType__ends() bool                               { return true }
func C24__ensures__imageType_Valid__ends() bool                          { return true }
func C24__ensures__imageType_String__ends() bool                         { return true }
func C24__ensures__imageType_UnmarshalXML__ends() bool                   { return true }
func C24__ensures__imageType_MarshalXML__ends() bool                     { return true }
func C24__ensures__NewImageType__ends() bool                             { return true }
func C24__ensures__imageRefType_Valid__ends() bool                       { return true }
func C24__ensures__imageRefType_String__ends() bool                      { return true }
func C24__ensures__imageRefType_UnmarshalXML__ends() bool                { return true }
func C24__ensures__imageRefType_MarshalXML__ends() bool                  { return true }
func C24__ensures__NewImageRefType__ends() bool                          { return true }
func C24__ensures__checkSup_Valid__ends() bool                           { return true }
func C24__ensures__checkSup_String__ends() bool                          { return true }
func C24__ensures__checkSup_UnmarshalXML__ends() bool                    { return true }
func C24__ensures__checkSup_MarshalXML__ends() bool                      { return true }
func C24__ensures__NewCheckSup__ends() bool                              { return true }
func C24__ensures__correctAction_Valid__ends() bool                      { return true }
func C24__ensures__correctAction_String__ends() bool                     { return true }
func C24__ensures__correctAction_UnmarshalXML__ends() bool               { return true }
func C24__ensures__correctAction_MarshalXML__ends() bool                 { return true }
func C24__ensures__NewCorrectAction__ends() bool                         { return true }
func C24__ensures__balType_Valid__ends() bool                            { return true }
func C24__ensures__balType_String__ends() bool                           { return true }
func C24__ensures__balType_UnmarshalXML__ends() bool                     { return true }
func C24__ensures__balType_MarshalXML__ends() bool                       { return true }
func C24__ensures__NewBalType__ends() bool                               { return true }
func C24__ensures__inv401kSource_Valid__ends() bool                      { return true }
func C24__ensures__inv401kSource_String__ends() bool                     { return true }
func C24__ensures__inv401kSource_UnmarshalXML__ends() bool               { return true }
func C24__ensures__inv401kSource_MarshalXML__ends() bool                 { return true }
func C24__ensures__NewInv401kSource__ends() bool                         { return true }
func C24__ensures__subAcctType_Valid__ends() bool                        { return true }
func C24__ensures__subAcctType_String__ends() bool                       { return true }
func C24__ensures__subAcctType_UnmarshalXML__ends() bool                 { return true }
func C24__ensures__subAcctType_MarshalXML__ends() bool                   { return true }
func C24__ensures__NewSubAcctType__ends() bool                           { return true }
func C24__ensures__buyType_Valid__ends() bool                            { return true }
func C24__ensures__buyType_String__ends() bool                           { return true }
func C24__ensures__buyType_UnmarshalXML__ends() bool                     { return true }
func C24__ensures__buyType_MarshalXML__ends() bool                       { return true }
func C24__ensures__NewBuyType__ends() bool                               { return true }
func C24__ensures__optAction_Valid__ends() bool                          { return true }
func C24__ensures__optAction_String__ends() bool                         { return true }
func C24__ensures__optAction_UnmarshalXML__ends() bool                   { return true }
func C24__ensures__optAction_MarshalXML__ends() bool                     { return true }
func C24__ensures__NewOptAction__ends() bool                             { return true }
func C24__ensures__tferAction_Valid__ends() bool                         { return true }
func C24__ensures__tferAction_String__ends() bool                        { return true }
func C24__ensures__tferAction_UnmarshalXML__ends() bool                  { return true }
func C24__ensures__tferAction_MarshalXML__ends() bool                    { return true }
func C24__ensures__NewTferAction__ends() bool                            { return true }
func C24__ensures__posType_Valid__ends() bool                            { return true }
func C24__ensures__posType_String__ends() bool                           { return true }
func C24__ensures__posType_UnmarshalXML__ends() bool                     { return true }
func C24__ensures__posType_MarshalXML__ends() bool                       { return true }
func C24__ensures__NewPosType__ends() bool                               { return true }
func C24__ensures__secured_Valid__ends() bool                            { return true }
func C24__ensures__secured_String__ends() bool                           { return true }
func C24__ensures__secured_UnmarshalXML__ends() bool                     { return true }
func C24__ensures__secured_MarshalXML__ends() bool                       { return true }
func C24__ensures__NewSecured__ends() bool                               { return true }
func C24__ensures__duration_Valid__ends() bool                           { return true }
func C24__ensures__duration_String__ends() bool                          { return true }
func C24__ensures__duration_UnmarshalXML__ends() bool                    { return true }
func C24__ensures__duration_MarshalXML__ends() bool                      { return true }
func C24__ensures__NewDuration__ends() bool                              { return true }
func C24__ensures__restriction_Valid__ends() bool                        { return true }
func C24__ensures__restriction_String__ends() bool                       { return true }
func C24__ensures__restriction_UnmarshalXML__ends() bool                 { return true }
func C24__ensures__restriction_MarshalXML__ends() bool                   { return true }
func C24__ensures__NewRestriction__ends() bool                           { return true }
func C24__ensures__unitType_Valid__ends() bool                           { return true }
func C24__ensures__unitType_String__ends() bool                          { return true }
func C24__ensures__unitType_UnmarshalXML__ends() bool                    { return true }
func C24__ensures__unitType_MarshalXML__ends() bool                      { return true }
func C24__ensures__NewUnitType__ends() bool                              { return true }
func C24__ensures__optBuyType_Valid__ends() bool                         { return true }
func C24__ensures__optBuyType_String__ends() bool                        { return true }
func C24__ensures__optBuyType_UnmarshalXML__ends() bool                  { return true }
func C24__ensures__optBuyType_MarshalXML__ends() bool                    { return true }
func C24__ensures__NewOptBuyType__ends() bool                            { return true }
func C24__ensures__sellType_Valid__ends() bool                           { return true }
func C24__ensures__sellType_String__ends() bool                          { return true }
func C24__ensures__sellType_UnmarshalXML__ends() bool                    { return true }
func C24__ensures__sellType_MarshalXML__ends() bool                      { return true }
func C24__ensures__NewSellType__ends() bool                              { return true }
func C24__ensures__loanPmtFreq_Valid__ends() bool                        { return true }
func C24__ensures__loanPmtFreq_String__ends() bool                       { return true }
func C24__ensures__loanPmtFreq_UnmarshalXML__ends() bool                 { return true }
func C24__ensures__loanPmtFreq_MarshalXML__ends() bool                   { return true }
func C24__ensures__NewLoanPmtFreq__ends() bool                           { return true }
func C24__ensures__incomeType_Valid__ends() bool                         { return true }
func C24__ensures__incomeType_String__ends() bool                        { return true }
func C24__ensures__incomeType_UnmarshalXML__ends() bool                  { return true }
func C24__ensures__incomeType_MarshalXML__ends() bool                    { return true }
func C24__ensures__NewIncomeType__ends() bool                            { return true }
func C24__ensures__sellReason_Valid__ends() bool                         { return true }
func C24__ensures__sellReason_String__ends() bool                        { return true }
func C24__ensures__sellReason_UnmarshalXML__ends() bool                  { return true }
func C24__ensures__sellReason_MarshalXML__ends() bool                    { return true }
func C24__ensures__NewSellReason__ends() bool                            { return true }
func C24__ensures__optSellType_Valid__ends() bool                        { return true }
func C24__ensures__optSellType_String__ends() bool                       { return true }
func C24__ensures__optSellType_UnmarshalXML__ends() bool                 { return true }
func C24__ensures__optSellType_MarshalXML__ends() bool                   { return true }
func C24__ensures__NewOptSellType__ends() bool                           { return true }
func C24__ensures__relType_Valid__ends() bool                            { return true }
func C24__ensures__relType_String__ends() bool                           { return true }
func C24__ensures__relType_UnmarshalXML__ends() bool                     { return true }
func C24__ensures__relType_MarshalXML__ends() bool                       { return true }
func C24__ensures__NewRelType__ends() bool                               { return true }
func C24__ensures__charType_Valid__ends() bool                           { return true }
func C24__ensures__charType_String__ends() bool                          { return true }
func C24__ensures__charType_UnmarshalXML__ends() bool                    { return true }
func C24__ensures__charType_MarshalXML__ends() bool                      { return true }
func C24__ensures__NewCharType__ends() bool                              { return true }
func C24__ensures__syncMode_Valid__ends() bool                           { return true }
func C24__ensures__syncMode_String__ends() bool                          { return true }
func C24__ensures__syncMode_UnmarshalXML__ends() bool                    { return true }
func C24__ensures__syncMode_MarshalXML__ends() bool                      { return true }
func C24__ensures__NewSyncMode__ends() bool                              { return true }
func C24__ensures__ofxSec_Valid__ends() bool                             { return true }
func C24__ensures__ofxSec_String__ends() bool                            { return true }
func C24__ensures__ofxSec_UnmarshalXML__ends() bool                      { return true }
func C24__ensures__ofxSec_MarshalXML__ends() bool                        { return true }
func C24__ensures__NewOfxSec__ends() bool                                { return true }
func C24__ensures__debtType_Valid__ends() bool                           { return true }
func C24__ensures__debtType_String__ends() bool                          { return true }
func C24__ensures__debtType_UnmarshalXML__ends() bool                    { return true }
func C24__ensures__debtType_MarshalXML__ends() bool                      { return true }
func C24__ensures__NewDebtType__ends() bool                              { return true }
func C24__ensures__debtClass_Valid__ends() bool                          { return true }
func C24__ensures__debtClass_String__ends() bool                         { return true }
func C24__ensures__debtClass_UnmarshalXML__ends() bool                   { return true }
func C24__ensures__debtClass_MarshalXML__ends() bool                     { return true }
func C24__ensures__NewDebtClass__ends() bool                             { return true }
func C24__ensures__couponFreq_Valid__ends() bool                         { return true }
func C24__ensures__couponFreq_String__ends() bool                        { return true }
func C24__ensures__couponFreq_UnmarshalXML__ends() bool                  { return true }
func C24__ensures__couponFreq_MarshalXML__ends() bool                    { return true }
func C24__ensures__NewCouponFreq__ends() bool                            { return true }
func C24__ensures__callType_Valid__ends() bool                           { return true }
func C24__ensures__callType_String__ends() bool                          { return true }
func C24__ensures__callType_UnmarshalXML__ends() bool                    { return true }
func C24__ensures__callType_MarshalXML__ends() bool                      { return true }
func C24__ensures__NewCallType__ends() bool                              { return true }
func C24__ensures__assetClass_Valid__ends() bool                         { return true }
func C24__ensures__assetClass_String__ends() bool                        { return true }
func C24__ensures__assetClass_UnmarshalXML__ends() bool                  { return true }
func C24__ensures__assetClass_MarshalXML__ends() bool                    { return true }
func C24__ensures__NewAssetClass__ends() bool                            { return true }
func C24__ensures__mfType_Valid__ends() bool                             { return true }
func C24__ensures__mfType_String__ends() bool                            { return true }
func C24__ensures__mfType_UnmarshalXML__ends() bool                      { return true }
func C24__ensures__mfType_MarshalXML__ends() bool                        { return true }
func C24__ensures__NewMfType__ends() bool                                { return true }
func C24__ensures__optType_Valid__ends() bool                            { return true }
func C24__ensures__optType_String__ends() bool                           { return true }
func C24__ensures__optType_UnmarshalXML__ends() bool                     { return true }
func C24__ensures__optType_MarshalXML__ends() bool                       { return true }
func C24__ensures__NewOptType__ends() bool                               { return true }
func C24__ensures__stockType_Valid__ends() bool                          { return true }
func C24__ensures__stockType_String__ends() bool                         { return true }
func C24__ensures__stockType_UnmarshalXML__ends() bool                   { return true }
func C24__ensures__stockType_MarshalXML__ends() bool                     { return true }
func C24__ensures__NewStockType__ends() bool                             { return true }
func C24__ensures__holderType_Valid__ends() bool                         { return true }
func C24__ensures__holderType_String__ends() bool                        { return true }
func C24__ensures__holderType_UnmarshalXML__ends() bool                  { return true }
func C24__ensures__holderType_MarshalXML__ends() bool                    { return true }
func C24__ensures__NewHolderType__ends() bool                            { return true }
func C24__ensures__acctClassification_Valid__ends() bool                 { return true }
func C24__ensures__acctClassification_String__ends() bool                { return true }
func C24__ensures__acctClassification_UnmarshalXML__ends() bool          { return true }
func C24__ensures__acctClassification_MarshalXML__ends() bool            { return true }
func C24__ensures__NewAcctClassification__ends() bool                    { return true }
func C24__ensures__svcStatus_Valid__ends() bool                          { return true }
func C24__ensures__svcStatus_String__ends() bool                         { return true }
func C24__ensures__svcStatus_UnmarshalXML__ends() bool                   { return true }
func C24__ensures__svcStatus_MarshalXML__ends() bool                     { return true }
func C24__ensures__NewSvcStatus__ends() bool                             { return true }
func C24__ensures__usProductType_Valid__ends() bool                      { return true }
func C24__ensures__usProductType_String__ends() bool                     { return true }
func C24__ensures__usProductType_UnmarshalXML__ends() bool               { return true }
func C24__ensures__usProductType_MarshalXML__ends() bool                 { return true }
func C24__ensures__NewUsProductType__ends() bool                         { return true }
func C24__ensures__CCStatementRequest_Name__ends() bool                  { return true }
func C24__contract__CCStatementRequest_Valid__ends() bool                { return true }
func C24__ensures__CCStatementRequest_Type__known(r0 messageType) bool   { return c24known(r0) }
func C24__ensures__CCStatementResponse_Name__ends() bool                 { return true }
func C24__contract__CCStatementResponse_Valid__ends() bool               { return true }
func C24__ensures__CCStatementResponse_Type__known(r0 messageType) bool  { return c24known(r0) }
func C24__ensures__InvStatementRequest_Name__ends() bool                 { return true }
func C24__contract__InvStatementRequest_Valid__ends() bool               { return true }
func C24__ensures__InvStatementRequest_Type__known(r0 messageType) bool  { return c24known(r0) }
func C24__ensures__BuyDebt_TransactionType__ends() bool                  { return true }
func C24__ensures__BuyMF_TransactionType__ends() bool                    { return true }
func C24__ensures__BuyOpt_TransactionType__ends() bool                   { return true }
func C24__ensures__BuyOther_TransactionType__ends() bool                 { return true }
func C24__ensures__BuyStock_TransactionType__ends() bool                 { return true }
func C24__ensures__ClosureOpt_TransactionType__ends() bool               { return true }
func C24__ensures__Income_TransactionType__ends() bool                   { return true }
func C24__ensures__InvExpense_TransactionType__ends() bool               { return true }
func C24__ensures__JrnlFund_TransactionType__ends() bool                 { return true }
func C24__ensures__JrnlSec_TransactionType__ends() bool                  { return true }
func C24__ensures__MarginInterest_TransactionType__ends() bool           { return true }
func C24__ensures__Reinvest_TransactionType__ends() bool                 { return true }
func C24__ensures__RetOfCap_TransactionType__ends() bool                 { return true }
func C24__ensures__SellDebt_TransactionType__ends() bool                 { return true }
func C24__ensures__SellMF_TransactionType__ends() bool                   { return true }
func C24__ensures__SellOpt_TransactionType__ends() bool                  { return true }
func C24__ensures__SellOther_TransactionType__ends() bool                { return true }
func C24__ensures__SellStock_TransactionType__ends() bool                { return true }
func C24__ensures__Split_TransactionType__ends() bool                    { return true }
func C24__ensures__Transfer_TransactionType__ends() bool                 { return true }
func C24__ensures__InvTranList_UnmarshalXML__ends() bool                 { return true }
func C24__ensures__InvTranList_MarshalXML__ends() bool                   { return true }
func C24__ensures__DebtPosition_PositionType__ends() bool                { return true }
func C24__ensures__MFPosition_PositionType__ends() bool                  { return true }
func C24__ensures__OptPosition_PositionType__ends() bool                 { return true }
func C24__ensures__OtherPosition_PositionType__ends() bool               { return true }
func C24__ensures__StockPosition_PositionType__ends() bool               { return true }
func C24__ensures__PositionList_UnmarshalXML__ends() bool                { return true }
func C24__ensures__PositionList_MarshalXML__ends() bool                  { return true }
func C24__ensures__OOBuyDebt_OrderType__ends() bool                      { return true }
func C24__ensures__OOBuyMF_OrderType__ends() bool                        { return true }
func C24__ensures__OOBuyOpt_OrderType__ends() bool                       { return true }
func C24__ensures__OOBuyOther_OrderType__ends() bool                     { return true }
func C24__ensures__OOBuyStock_OrderType__ends() bool                     { return true }
func C24__ensures__OOSellDebt_OrderType__ends() bool                     { return true }
func C24__ensures__OOSellMF_OrderType__ends() bool                       { return true }
func C24__ensures__OOSellOpt_OrderType__ends() bool                      { return true }
func C24__ensures__OOSellOther_OrderType__ends() bool                    { return true }
func C24__ensures__OOSellStock_OrderType__ends() bool                    { return true }
func C24__ensures__OOSwitchMF_OrderType__ends() bool                     { return true }
func C24__ensures__OOList_UnmarshalXML__ends() bool                      { return true }
func C24__ensures__OOList_MarshalXML__ends() bool                        { return true }
func C24__ensures__InvStatementResponse_Name__ends() bool                { return true }
func C24__contract__InvStatementResponse_Valid__ends() bool              { return true }
func C24__ensures__InvStatementResponse_Type__known(r0 messageType) bool { return c24known(r0) }
func C24__ensures__ProfileRequest_Name__ends() bool                      { return true }
func C24__contract__ProfileRequest_Valid__ends() bool                    { return true }
func C24__ensures__ProfileRequest_Type__known(r0 messageType) bool       { return c24known(r0) }
func C24__ensures__MessageSetList_UnmarshalXML__ends() bool              { return true }
func C24__ensures__MessageSetList_MarshalXML__ends() bool                { return true }
func C24__ensures__ProfileResponse_Name__ends() bool                     { return true }
func C24__contract__ProfileResponse_Valid__ends() bool                   { return true }
func C24__ensures__ProfileResponse_Type__known(r0 messageType) bool      { return c24known(r0) }
func C24__ensures__Request_Marshal__ends() bool                          { return true }
func C24__contract__Response_Valid__ends() bool                          { return true }
func C24__ensures__Response_Marshal__ends() bool                         { return true }
func C24__ensures__errInvalid_Error__ends() bool                         { return true }
func C24__ensures__errInvalid_AddErr__ends() bool                        { return true }
func C24__ensures__errInvalid_ErrOrNil__ends() bool                      { return true }
func C24__ensures__SecListRequest_Name__ends() bool                      { return true }
func C24__contract__SecListRequest_Valid__ends() bool                    { return true }
func C24__ensures__SecListRequest_Type__known(r0 messageType) bool       { return c24known(r0) }
func C24__ensures__SecListResponse_Name__ends() bool                     { return true }
func C24__contract__SecListResponse_Valid__ends() bool                   { return true }
func C24__ensures__SecListResponse_Type__known(r0 messageType) bool      { return c24known(r0) }
func C24__ensures__DebtInfo_SecurityType__ends() bool                    { return true }
func C24__ensures__MFInfo_SecurityType__ends() bool                      { return true }
func C24__ensures__OptInfo_SecurityType__ends() bool                     { return true }
func C24__ensures__OtherInfo_SecurityType__ends() bool                   { return true }
func C24__ensures__StockInfo_SecurityType__ends() bool                   { return true }
func C24__ensures__SecurityList_Name__ends() bool                        { return true }
func C24__contract__SecurityList_Valid__ends() bool                      { return true }
func C24__ensures__SecurityList_Type__known(r0 messageType) bool         { return c24known(r0) }
func C24__ensures__SecurityList_UnmarshalXML__ends() bool                { return true }
func C24__ensures__SecurityList_MarshalXML__ends() bool                  { return true }
func C24__ensures__SignonRequest_Name__ends() bool                       { return true }
func C24__contract__SignonRequest_Valid__ends() bool                     { return true }
func C24__ensures__SignonResponse_Name__ends() bool                      { return true }
func C24__contract__SignonResponse_Valid__ends() bool                    { return true }
func C24__ensures__AcctInfoRequest_Name__ends() bool                     { return true }
func C24__contract__AcctInfoRequest_Valid__ends() bool                   { return true }
func C24__ensures__AcctInfoRequest_Type__known(r0 messageType) bool      { return c24known(r0) }
func C24__ensures__BankAcctInfo_String__ends() bool                      { return true }
func C24__ensures__CCAcctInfo_String__ends() bool                        { return true }
func C24__ensures__InvAcctInfo_String__ends() bool                       { return true }
func C24__ensures__AcctInfoResponse_Name__ends() bool                    { return true }
func C24__contract__AcctInfoResponse_Valid__ends() bool                  { return true }
func C24__ensures__AcctInfoResponse_Type__known(r0 messageType) bool     { return c24known(r0) }
func C24__ensures__Int_UnmarshalXML__ends() bool                         { return true }
func C24__ensures__Int_Equal__ends() bool                                { return true }
func C24__ensures__Amount_UnmarshalXML__ends() bool                      { return true }
func C24__ensures__Amount_String__ends() bool                            { return true }
func C24__ensures__Amount_MarshalXML__ends() bool                        { return true }
func C24__ensures__Amount_Equal__ends() bool                             { return true }
func C24__ensures__Date_UnmarshalXML__ends() bool                        { return true }
func C24__ensures__Date_String__ends() bool                              { return true }
func C24__ensures__Date_MarshalXML__ends() bool                          { return true }
func C24__ensures__Date_Equal__ends() bool                               { return true }
func C24__ensures__NewDate__ends() bool                                  { return true }
func C24__ensures__NewDateGMT__ends() bool                               { return true }
func C24__ensures__String_UnmarshalXML__ends() bool                      { return true }
func C24__ensures__String_String__ends() bool                            { return true }
func C24__ensures__String_Equal__ends() bool                             { return true }
func C24__ensures__Boolean_UnmarshalXML__ends() bool                     { return true }
func C24__ensures__Boolean_MarshalXML__ends() bool                       { return true }
func C24__ensures__Boolean_String__ends() bool                           { return true }
func C24__ensures__Boolean_Equal__ends() bool                            { return true }
func C24__ensures__UID_UnmarshalXML__ends() bool                         { return true }
func C24__ensures__UID_RecommendedFormat__ends() bool                    { return true }
func C24__contract__UID_Valid__ends() bool                               { return true }
func C24__ensures__UID_Equal__ends() bool                                { return true }
func C24__ensures__CurrSymbol_UnmarshalXML__ends() bool                  { return true }
func C24__ensures__CurrSymbol_MarshalXML__ends() bool                    { return true }
func C24__ensures__CurrSymbol_Equal__ends() bool                         { return true }
func C24__contract__CurrSymbol_Valid__ends() bool                        { return true }
func C24__ensures__NewCurrSymbol__ends() bool                            { return true }
